#!/usr/bin/env python3
"""seedtest.py [--notests] ID...: applies each planted bug to /repo, builds, runs the stable tests, demo and the property's check, undoes it."""
import subprocess, sys, json, os, time
V='/verif'; a=sys.argv[1:]; nt='--notests' in a; nd='--nodemo' in a; a=[x for x in a if not x.startswith('--')]
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
assert not sh('git -C /repo status --porcelain').stdout.strip()
for i in a:
    d=V+'/seeded/'+i; m=json.load(open(d+'/meta.json')); res=[]
    r=sh('git -C /repo apply %s/patch.diff'%d)
    if r.returncode: print(i,'DOES NOT APPLY',r.stdout); continue
    try:
        if not (nt and nd):
            r=sh('bash /opt/vp/build.sh'); res.append('build=%d'%r.returncode)
        if not nt:
            sh('bash /opt/vp/test.sh /tmp/seed.json'); o=json.load(open('/tmp/seed.json')); bad=[t for t in st if t not in o['passed']]; res.append('tests_broken=%s'%bad)
        if not nd:
            r=sh('bash %s/demo.sh'%d,cwd='/repo'); res.append('demo=%d'%r.returncode)
        t=time.time(); r=sh('python3 check.py %s quick'%m['property'],cwd=V); lines=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  scenario')]
        res.append('check=%d %.0fs %s'%(r.returncode,time.time()-t,lines[1] if len(lines)>1 else r.stdout[-300:]))
    finally: sh('git -C /repo checkout -- .')
    if not nd:
        pass
    print(i,m['property'],' '.join(res),flush=True)
if not nd:
    sh('bash /opt/vp/build.sh')
    for i in a:
        r=sh('bash %s/seeded/%s/demo.sh'%(V,i),cwd='/repo'); print(i,'demo on unchanged tree:',r.returncode, r.stdout[-200:] if r.returncode else '',flush=True)
