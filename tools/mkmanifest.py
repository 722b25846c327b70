#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the table below
import json
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
TECH="contract-based deductive verification: contracts on the real Go functions, obligations generated from go/ssa of the current source, discharged by z3/cvc5"
claimed=json.load(open("/verif/tools/claimed.json"))
na=json.load(open("/verif/tools/na.json"))
checks=[]
for p in props:
    if p in claimed:
        c=claimed[p]
        checks.append(dict(property=p,quick_cmd=f"./bin/govc -prop {p}",thorough_cmd=f"./bin/govc -prop {p}",
          evidence_file=f"evidence/{p}.json",technique=c.get("technique",TECH),level=c.get("level","proof"),level_note=c["note"]))
m=dict(version=1,
  setup_cmd="cd govc && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/govc .",
  checks=checks,
  not_applicable=[dict(property=p,reason=na.get(p,"not reached yet")) for p in props if p not in claimed],
  notes="Contracts live in /verif/contracts and are bound to the functions of /repo by name; nothing in /repo is annotated, no hooks are needed. See DESIGN.md.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
