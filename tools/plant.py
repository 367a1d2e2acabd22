#!/usr/bin/env python3
"""tools/plant.py ID...: validates seeded bugs: patch applies, build+tests pass, demo 0 without / nonzero with it, and what the check says.
--new ID PROP FILE: makes seeded/ID/patch.diff from /repo's current diff (then reverts)."""
import os,sys,json,subprocess as sp,time
S='/verif/seeded'
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,**k)
def main():
    a=sys.argv[1:]
    quick='--nocheck' in a; a=[x for x in a if x!='--nocheck']
    notest='--notest' in a; a=[x for x in a if x!='--notest']
    only=[x for x in a if x.startswith('--only')]; a=[x for x in a if not x.startswith('--')]
    for i in a or sorted(os.listdir(S)):
        d=S+'/'+i; m=json.load(open(d+'/meta.json')); out=[]
        if sh('git -C /repo status --porcelain').stdout.strip(): print('repo dirty'); return
        if not notest:
            r=sh('bash %s/demo.sh'%d,cwd='/repo'); out.append('demo-clean=%d'%r.returncode)
            if r.returncode: print(r.stdout[-500:])
        r=sh('git -C /repo apply %s/patch.diff'%d)
        if r.returncode: print(i,'patch does not apply',r.stdout); continue
        try:
            if not notest:
                r=sh('bash %s/demo.sh'%d,cwd='/repo'); out.append('demo-bug=%d'%r.returncode)
                b=sh('bash /opt/vp/build.sh'); out.append('build=%d'%b.returncode)
                t=sh('bash /opt/vp/test.sh /tmp/plant.json'); 
                base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open('/tmp/plant.json'))
                def names(o):
                    return set(o.get('passed') or o.get('stable') or o.get('tests') or [])
                miss=names(base)-names(res); out.append('tests=%s'%('ok' if not miss else 'FAIL %s'%sorted(miss)))
            if not quick:
                t0=time.time(); r=sh('./check.py %s %s'%(m['property'],' '.join(only)),cwd='/verif',timeout=1500); v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                out.append('check=%d %s %.0fs %s'%(r.returncode,m['property'],time.time()-t0,('CAUGHT ' if r.returncode==1 and v else 'MISSED ')+(v[0] if v else r.stdout[-300:])))
        finally:
            sh('git -C /repo checkout -- .')
        print(i,' '.join(out),flush=True)
    if not notest: sh('bash /opt/vp/build.sh')
main()
