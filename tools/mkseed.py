#!/usr/bin/env python3
"""mkseed.py FILE...  make /verif/seeded/<id>/ from seed descriptions and confirm them in a scratch copy.
A description is a Python file that sets SEEDS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)], demo=<go test source>, pkg='.')].
-c also runs the property's check on the changed copy."""
import sys,os,json,subprocess,shutil,tempfile
env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',HOME='/root')
DEMO='''#!/bin/bash
# run in the repository: 0 when the property holds for the demonstrated input
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
echo "{\\"Replace\\":{\\"$PWD/%(p)szdemo_test.go\\":\\"$d/demo.go.txt\\"}}" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 60s -run 'TestZDemo' ./%(pkg)s; rc=$?
rm -rf "$t"; exit $rc
'''
def sh(cmd,cwd): return subprocess.run(cmd,cwd=cwd,env=env,capture_output=True,text=True)
args=sys.argv[1:]; chk='-c' in args; only=None
args=[a for a in args if a!='-c']
if '-o' in args:
    i=args.index('-o'); only=args[i+1].split(','); del args[i:i+2]
base=json.load(open('/opt/vp/BASELINE.json'))
stable=set(base['stable'])
for f in args:
    ns={}; exec(open(f).read(),ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        tmp=tempfile.mkdtemp(prefix='seed'); repo=tmp+'/repo'
        sh(['git','clone','-q','/repo',repo],'/')
        out='/verif/seeded/'+s['id']; os.makedirs(out,exist_ok=True)
        pkg=s.get('pkg','.')
        open(out+'/demo.go.txt','w').write(s['demo'])
        open(out+'/demo.sh','w').write(DEMO%dict(pkg=pkg,p='' if pkg=='.' else pkg+'/')); os.chmod(out+'/demo.sh',0o755)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(out+'/meta.json','w'),indent=1)
        ok=True; msg=[]
        r=sh(['bash',out+'/demo.sh'],repo)
        if r.returncode!=0: ok=False; msg.append('demo fails on unchanged:'+r.stdout[-600:]+r.stderr[-300:])
        for (fn,old,new) in s['edits']:
            p=repo+'/'+fn; t=open(p).read()
            if t.count(old)!=1: ok=False; msg.append('%s: text occurs %d times'%(fn,t.count(old)))
            open(p,'w').write(t.replace(old,new,1))
        d=sh(['git','diff'],repo).stdout; open(out+'/patch.diff','w').write(d)
        r=sh(['go','build','./...'],repo)
        if r.returncode!=0: ok=False; msg.append('build:'+r.stderr[-500:])
        r=sh(['go','test','-json','-vet=off','-count=1','-timeout','5m','./...'],repo)
        fails=[]
        for l in r.stdout.splitlines():
            try: j=json.loads(l)
            except: continue
            if j.get('Action')=='fail' and j.get('Test'): fails.append(j['Package']+'/'+j['Test'])
        bf=[x for x in fails if x in stable]
        if bf: ok=False; msg.append('tests fail: %s'%bf)
        r=sh(['bash',out+'/demo.sh'],repo)
        if r.returncode==0: ok=False; msg.append('demo passes on the change')
        # changed lines must be original ones
        res='OK  ' if ok else 'BAD '
        line=res+s['id']+' '+s['prop']
        if chk:
            r=subprocess.run(['/verif/bin/govc','-repo',repo,'-prop',s['prop']],cwd='/verif',env=dict(env,VERIF_SEED='1',VERIF_TIER='quick'),capture_output=True,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            line+=' check rc=%d %s'%(r.returncode,v[:1])
        print(line,*msg,sep='\n   ',flush=True)
        shutil.rmtree(tmp)
