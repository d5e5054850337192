#!/usr/bin/env python3
"""muts.py FILE [name-substring]: development aid; FILE defines MUTS=[(name, props, file, old, new)].
Applies each edit in /repo, runs stable tests and checks, undoes it."""
import sys, subprocess, json, time
ns={}; exec(open(sys.argv[1]).read(), ns)
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for name, props, file, *eds in ns['MUTS']:
    if len(sys.argv)>2 and sys.argv[2] not in name: continue
    p='/repo/'+file; s=open(p).read(); t=s
    eds=eds[0] if isinstance(eds[0],list) else [tuple(eds)]
    try:
        for o,n in eds:
            assert t.count(o)>=1,(name,'not found',o)
            assert t.count(o)==1,(name,'ambiguous',o)
            t=t.replace(o,n)
        open(p,'w').write(t)
        subprocess.run(['bash','/opt/vp/test.sh','/tmp/t.json'],capture_output=True)
        r=set(json.load(open('/tmp/t.json'))['passed'])
        print('==',name,'tests-missing:',sorted(b-r)[:3],flush=True)
        for q in props.split():
            t0=time.time()
            x=subprocess.run(['python3','/verif/check.py',q],capture_output=True,text=True)
            print('   ',q,x.returncode,round(time.time()-t0),'|',' / '.join(x.stdout.strip().split('\n'))[:600],flush=True)
    finally:
        open(p,'w').write(s)
