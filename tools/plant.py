#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: turns planted-bug descriptions into /verif/seeded/<id>/ and confirms each in a
scratch copy (patch applies, builds, stable tests pass, demo 0 without / nonzero with).  SPEC.py calls
bug(id, prop, needs, breaks, [(file, old, new), ...], demo_body)."""
import sys, os, json, subprocess, shutil, tempfile
V='/verif/seeded'; BUGS=[]
def bug(id, prop, needs, breaks, edits, demo, imports=()): BUGS.append((id,prop,needs,breaks,edits,demo,imports))
exec(open(sys.argv[1]).read())
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed',[])) if isinstance(json.load(open('/opt/vp/BASELINE.json')),dict) else set()
env=dict(os.environ,HOME='/root',GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
echo "{\\"Replace\\":{\\"$PWD/zz_seeded_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
GOFLAGS=-mod=mod GOPROXY=off timeout 250 go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestSeededDemo$' .
r=$?
unlink "$t/o.json"; rmdir "$t"
exit $r
'''
for id,prop,needs,breaks,edits,demo,imports in BUGS:
    if len(sys.argv)>2 and id not in sys.argv[2:]: continue
    w=tempfile.mkdtemp(prefix='plant_'); r=w+'/repo'
    subprocess.run(['cp','-a','/repo',r],check=True)
    ok=True
    for f,o,n in edits:
        s=open(r+'/'+f).read()
        if s.count(o)==0: # TABS
            import re
            tb=lambda x: re.sub(r'(?m)^((?:    )+)',lambda m:'\t'*(len(m.group(1))//4),x)
            o,n=tb(o),tb(n)
        if s.count(o)!=1: print(id,'edit matches',s.count(o),'times in',f,':',o[:80]); ok=False; break
        open(r+'/'+f,'w').write(s.replace(o,n))
    if ok:
        d=V+'/'+id; os.makedirs(d,exist_ok=True)
        diff=subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        imp=''.join('\t"%s"\n'%i for i in ('testing',)+tuple(imports))
        open(d+'/demo_test.go','w').write('package linear\n\nimport (\n%s)\n\nfunc TestSeededDemo(t *testing.T) {\n%s}\n'%(imp,demo.strip('\n')+'\n'))
        subprocess.run(['gofmt','-w',d+'/demo_test.go'])
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
        t=subprocess.run(['go','test','-count=1','.'],cwd=r,env=env,capture_output=True,text=True)
        if t.returncode: print(id,'TESTS FAIL with the patch:',t.stdout[-600:],t.stderr[-300:]); ok=False
        a=subprocess.run([d+'/demo.sh'],cwd=r,env=env,capture_output=True,text=True)
        if a.returncode==0: print(id,'demo passes with the patch'); ok=False
        elif '--- FAIL' not in a.stdout: print(id,'demo does not run with the patch:',a.stdout[-500:],a.stderr[-300:]); ok=False
        subprocess.run(['git','checkout','-q','--','.'],cwd=r)
        b=subprocess.run([d+'/demo.sh'],cwd=r,env=env,capture_output=True,text=True)
        if b.returncode: print(id,'demo fails on the unchanged tree:',b.stdout[-600:],b.stderr[-300:]); ok=False
        if not ok: shutil.rmtree(d)
        else: print(id,'confirmed')
    shutil.rmtree(w)
