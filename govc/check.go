package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// unit: one verified function or lemma
type unit struct {
	name  string
	vc    *VC
	p     *prepared
	fails []*Oblig
	err   string
}

func (P *Program) gen(Sp *Spec, name string) (u *unit) {
	u = &unit{name: name}
	defer func() {
		if r := recover(); r != nil {
			u.err = fmt.Sprintf("generator failure: %v", r)
			if os.Getenv("GOVC_DEBUG") != "" {
				debug.PrintStack()
			}
			u.vc = nil
		}
	}()
	if strings.HasPrefix(name, "lemma ") {
		u.vc = verifyLemma(P, Sp, Sp.Lemmas[name[6:]])
	} else {
		u.vc = verifyFunc(P, Sp, Sp.Contracts[name])
		if u.vc == nil {
			u.err = "the function under contract does not exist in the source"
			return
		}
	}
	u.p = u.vc.prepare()
	return
}

type propInfo struct {
	ID    string `json:"id"`
	Title string `json:"title"`
}

// known findings: "known: property=<id> obligation=<unit>|<kind>|<label prefix>"
func knownFindings(root, prop string) []string {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			out = append(out, l)
		}
	}
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func checkProp(repo, dir, root, prop string) int {
	t0 := time.Now()
	setDeadline(t0.Add(600 * time.Second))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	P := loadProgram(repo)
	Sp := loadSpec(dir)
	// roots
	var work []string
	for _, l := range Sp.LemOrder {
		if has(Sp.Lemmas[l].Props, prop) {
			work = append(work, "lemma "+l)
		}
	}
	for _, k := range Sp.ConOrder {
		c := Sp.Contracts[k]
		if has(c.Props, prop) && !c.Trusted && !c.Inline {
			work = append(work, k)
		}
	}
	if len(work) == 0 {
		fmt.Fprintf(os.Stderr, "govc: no contracts for property %s\n", prop)
		return 2
	}
	// concrete oracles run beside the proof: bounded stand-ins where the manifest says so,
	// and the search for a concrete failing input otherwise
	orch := make(chan []*oracleResult, 1)
	go func() {
		var l []*oracleResult
		for _, o := range oracles(root) {
			if o.Prop == prop {
				r := runOracle(root, repo, o, seed, tier)
				if !r.ok {
					// there is a failing input: do not let the solvers search on for long
					setDeadline(time.Now().Add(40 * time.Second))
				}
				l = append(l, r)
			}
		}
		orch <- l
	}()
	roots := append([]string{}, work...)
	seen := map[string]bool{}
	var units []*unit
	trusted := map[string]bool{}
	notes := map[string]bool{}
	inlined := map[string]bool{}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		u := P.gen(Sp, n)
		units = append(units, u)
		if u.vc == nil {
			continue
		}
		for _, k := range sortedKeys(u.vc.contracts) {
			c := Sp.Contracts[k]
			if c == nil {
				continue
			}
			if c.Trusted {
				trusted[k+": "+c.Why] = true
				continue
			}
			work = append(work, k)
		}
		for _, l := range sortedKeys(u.vc.usedLemmas) {
			work = append(work, "lemma "+l)
		}
		for k := range u.vc.notes {
			notes[k] = true
		}
		for k := range u.vc.inlined {
			inlined[k] = true
		}
	}
	var wg sync.WaitGroup
	for _, u := range units {
		if u.vc == nil {
			continue
		}
		wg.Add(1)
		go func(u *unit) {
			defer wg.Done()
			st := fullStages
			if tier == "thorough" {
				st = append(append([]stage{}, fullStages...), stage{{0, 60000}, {2, 60000}, {3, 60000}, {1, 60000}})
			}
			u.vc.solveWith(u.p, st)
			u.fails = u.vc.failures()
			for k := range u.vc.notes {
				_ = k
			}
		}(u)
	}
	wg.Wait()
	// what is left of a few units is tried again with the machine to itself
	ors := <-orch
	again := true
	left := 0
	for _, r := range ors {
		again = again && r.ok
	}
	for _, u := range units {
		left += len(u.fails)
	}
	if again && left > 0 && left <= 8 && time.Since(t0) < 400*time.Second {
		atomic.StoreInt32(&manyFailed, 0)
		deadline.Store(t0.Add(700 * time.Second).UnixNano())
		for i, u := range units {
			if u.vc == nil || len(u.fails) == 0 {
				continue
			}
			v := P.gen(Sp, u.name)
			if v.vc == nil {
				continue
			}
			v.vc.solveWith(v.p, fullStages)
			v.fails = v.vc.failures()
			if len(v.fails) <= len(u.fails) {
				units[i] = v
			}
		}
	}
	// results
	n, ok, smoke := 0, 0, 0
	var ms int64
	backends := map[string]int{}
	var fns []map[string]interface{}
	type failure struct{ unit, kind, label, pos, out string }
	var fails []failure
	for _, u := range units {
		if u.vc == nil {
			n++
			fails = append(fails, failure{u.name, "generator", u.err, "", u.err})
			continue
		}
		un, uo := 0, 0
		for _, o := range u.vc.obs {
			ms += o.Ms
			if o.Kind == "smoke" {
				smoke++
				continue
			}
			if o.Cand >= 0 && o.Status != "proved" {
				continue
			}
			un++
			if o.Status == "proved" {
				uo++
				backends[o.Backend]++
			}
		}
		n += un
		ok += uo
		fns = append(fns, map[string]interface{}{"unit": u.name, "obligations": un, "discharged": uo, "root": has(roots, u.name)})
		for _, o := range u.fails {
			fails = append(fails, failure{u.name, o.Kind, o.Label, o.Pos, o.Out})
		}
		if un == 0 {
			fails = append(fails, failure{u.name, "vacuous", "no obligations were generated", "", ""})
		}
	}
	known := knownFindings(root, prop)
	var unlisted []failure
	printed := map[string]bool{}
	for _, f := range fails {
		listed := ""
		for _, k := range known {
			i := strings.Index(k, "obligation=")
			if i < 0 {
				continue
			}
			pat := k[i+len("obligation="):]
			if j := strings.Index(pat, " :: "); j >= 0 {
				pat = pat[:j]
			}
			if strings.HasPrefix(f.unit+"|"+f.kind+"|"+f.label, pat) {
				listed = k
			}
		}
		if listed != "" {
			if !printed[listed] {
				printed[listed] = true
				d := listed
				if j := strings.Index(d, " :: "); j >= 0 {
					d = d[j+4:]
				}
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
			}
			continue
		}
		unlisted = append(unlisted, f)
	}
	// trusted base
	var tb []string
	for k := range trusted {
		tb = append(tb, "trusted contract "+k)
	}
	for k := range notes {
		tb = append(tb, k)
	}
	sort.Strings(tb)
	tb = append(tb, engineAssumptions...)
	cov := map[string]interface{}{
		"obligations": n, "discharged": ok, "smoke_checks": smoke,
		"checker_cmd":        "/verif/bin/govc -prop " + prop,
		"trusted_base":       tb,
		"functions":          fns,
		"inlined_functions":  sortedKeys(inlined),
		"backends":           backends,
		"solver_ms":          ms,
		"generator":          "weakest-precondition style generator over go/ssa of /repo's current source; integers are mathematical with explicit two's complement wrap-around at every operation",
		"undischarged":       len(fails),
		"known_findings_hit": len(printed),
	}
	var bl []interface{}
	ofail := false
	for _, r := range ors {
		if !r.ok {
			ofail = true
		}
		note := "search for a concrete failing input, beside the proof"
		if r.spec.Mode == "bounded" {
			note = "bounded stand-in, not counted as proved"
		}
		bl = append(bl, map[string]interface{}{"tests": r.spec.Tests, "for": r.spec.For, "bound": r.spec.Bound, "cases": r.cases, "ok": r.ok, "note": note})
	}
	if bl != nil {
		cov["bounded"] = bl
	}
	level := "proof"
	var parts []string
	for _, r := range ors {
		if r.spec.Mode == "bounded" {
			parts = append(parts, fmt.Sprintf("%s: bounded (%s; %s), not counted as proved", r.spec.For, r.spec.Tests, r.spec.Bound))
		}
	}
	if parts != nil {
		level = "other"
		cov["explanation"] = "the contracts of the functions listed are proved for all inputs (obligations, discharged); what they leave open is decided by bounded checks of the real code: " + strings.Join(parts, "; ")
	}
	viol := 0
	replayFile := filepath.Join(root, "evidence", "replay-"+prop+".txt")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if len(unlisted) > 0 || ofail {
		viol = 1
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s: %d obligation(s) not discharged\n\n", prop, len(unlisted))
		for _, f := range unlisted {
			fmt.Fprintf(&b, "FAILED OBLIGATION unit=%s kind=%s\n  %s\n  at %s\n  solver: %s\n\n", f.unit, f.kind, f.label, f.pos, f.out)
		}
		nf := " no-failing-input-found"
		for _, r := range ors {
			if !r.ok {
				nf = ""
				fmt.Fprintf(&b, "CONCRETE FAILING INPUT against the real code (rerun: %s)\n%s\n", r.cmd, r.out)
			}
		}
		for _, r := range ors {
			if r.ok {
				fmt.Fprintf(&b, "concrete search found no failing input: %s\n%s\n", r.cmd, r.out)
			}
		}
		os.WriteFile(replayFile, b.Bytes(), 0644)
		for _, f := range unlisted {
			fmt.Printf("undischarged: %s [%s] %s @ %s\n", f.unit, f.kind, f.label, f.pos)
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replayFile, nf)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": viol, "assumptions": tb,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), j, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		return 2
	}
	fmt.Printf("property %s: %d units, %d/%d obligations discharged, %.1fs\n", prop, len(units), ok, n, time.Since(t0).Seconds())
	return viol
}

var engineAssumptions = []string{
	"the Go compiler and runtime implement the semantics encoded by the generator (go/ssa to SMT)",
	"soundness of z3 4.8.12 / z3 5.x / cvc5 1.1.2 (an obligation counts as discharged on an unsat answer of any one of them)",
	"memory is never exhausted: strings and slices stay below 2^48 bytes, the goroutine stack is unbounded",
	"single goroutine: no data races on the objects involved",
	"each Graph's children slice is not shared with another Graph and is changed by this package's functions only (ownership discipline, checked inside the package, assumed of callers)",
}

// ---- concrete oracles ----

type oracleSpec struct {
	Prop  string   `json:"prop"`
	Pkg   string   `json:"pkg"`
	Files []string `json:"files"`
	Tests string   `json:"tests"`
	Bound string   `json:"bound"`
	Mode  string   `json:"mode"` // replay | bounded
	For   string   `json:"for"`  // the functions a bounded one stands in for
}

type oracleResult struct {
	spec  *oracleSpec
	ok    bool
	out   string
	cmd   string
	cases int
}

func oracles(root string) []*oracleSpec {
	b, err := os.ReadFile(filepath.Join(root, "replay", "oracles.json"))
	if err != nil {
		return nil
	}
	var out []*oracleSpec
	if err := json.Unmarshal(b, &out); err != nil {
		fatal("oracles.json: %v", err)
	}
	return out
}

func runOracle(root, repo string, o *oracleSpec, seed int, tier string) *oracleResult {
	r := &oracleResult{spec: o}
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		return r
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	for _, f := range o.Files {
		base := strings.TrimSuffix(filepath.Base(f), ".go")
		rep[filepath.Join(repo, o.Pkg, base+"_zverif_test.go")] = filepath.Join(root, "replay", f)
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, j, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "150s", "-run", o.Tests, "-v", "./" + o.Pkg}
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "GOFLAGS=", "VERIF_SCRATCH="+tmp)
	cmd.WaitDelay = 2 * time.Second
	out, err := cmd.CombinedOutput()
	r.ok = err == nil
	s := string(out)
	if len(s) > 6000 {
		s = s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	r.out = s
	r.cmd = "cd " + repo + " && go test -overlay <overlay mapping " + strings.Join(o.Files, ",") + " from " + root + "/replay> -run '" + o.Tests + "' ./" + o.Pkg
	if !r.ok && strings.Contains(s, "[build failed]") {
		// the oracle does not compile against this source: no concrete input
		r.ok = true
		r.out = "oracle does not build against this source:\n" + s
	}
	for _, l := range strings.Split(string(out), "\n") {
		var c int
		if i := strings.Index(l, "cases="); i >= 0 {
			fmt.Sscan(l[i+6:], &c)
			r.cases += c
		}
	}
	return r
}
