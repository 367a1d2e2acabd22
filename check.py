#!/opt/veriftools/pyvenv/bin/python
import sys, os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode=True
from vf import run
import jobs
if __name__=='__main__':
    if sys.argv[1]=='--replay': run.do_replay(sys.argv[2]); sys.exit(0)
    pid=sys.argv[1]
    tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    if tier not in('quick','thorough'): tier='quick'
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    jl,ass,budget=jobs.jobs_for(pid,tier)
    only=[x for a in sys.argv if a.startswith('--only=') for x in a[7:].split(',')]
    if only: jl=[j for j in jl if any(o in j.name for o in only)]
    c=run.Check(pid,tier,seed,jl,ass,budget)
    sys.exit(c.main())
