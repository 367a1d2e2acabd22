"""debug helper: runs paths of one job in-process"""
import sys,os
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True; sys.setrecursionlimit(100000)
import jobs
from vf import run,eng,smt
import tempfile
def go(pid,name,hook=None,n=5,th=False):
    jl=jobs.jobs_for(pid,'thorough' if th else 'quick')[0]
    j=[x for x in jl if x.name==name][0]
    w=tempfile.mkdtemp()
    j.ll=eng.build_ir(j.src,j.defs,j.incs,w,omp=j.omp)
    from vf import node; node.MONO[0]=int(j.opts.get('mono',0))
    e=run.engine(j.ll); stack=[[]]
    while stack and n:
        n-=1
        r=eng.XRT(e,stack.pop(),j.opts)
        if hook: hook(r)
        import time; t0=time.time(); st=r.run(j.entry); print('%.1f'%(time.time()-t0),st,r.results[:10],len(r.dec)); stack+=r.alts
    return r
