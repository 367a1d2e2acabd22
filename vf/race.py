"""OpenMP regions.  Race obligations: the body of a parallel region is executed
once with a symbolic thread number and a symbolic iteration index per worksharing
loop; every access to memory that is not private to the thread is recorded as a
function of these.  For every pair of accesses of which one writes, the solver is
asked for two different threads / iterations that touch the same location without
a barrier in between.  Memory is then restored and the region is executed for real,
by the requested number of threads one after the other."""
from . import node as N
from .node import E
from .rt import EngineError, Stop, Obj, SEQ
class Racer:
    def __init__(s): s.on=False; s.nloops=0; s.npairs=0; s.regions=0
    def enter(s,rt):
        s.start=SEQ[0]; s.on=True; s.acc={}; s.loopid=None; s.loops={}; s.locked=0; s.single=0; s.saved={}; s.tid=None; s.k=0; s.regions+=1
        rt.race=lambda rw,p,size: s.rec(rt,rw,p,size)
    def leave(s,rt):
        rt.race=None
        for o,c in s.saved.values(): o.cells.clear(); o.cells.update(c)
        s.on=False
    def threadnum(s,rt):
        if s.tid is None: s.tid=rt.newvar('omp_tid','I',0,max(1,rt.nthr-1))
        return s.tid
    def loop(s,rt,plo,phi,pst,static=True):
        lo=rt.ld(plo,'i32',4); hi=rt.ld(phi,'i32',4)
        if type(lo) is not int or type(hi) is not int: raise EngineError('symbolic loop bounds in a parallel loop')
        s.nloops+=1; s.k+=1
        if hi<lo: s.loopid=None; return
        st=rt.ld(pst,'i32',4) if pst is not None else 1
        i=rt.newvar('omp_i','I',lo,hi)
        rt.st(plo,i,4); rt.st(phi,i,4)
        s.loopid=s.k; s.loops[s.k]=(i,lo,hi,static)
    def rec(s,rt,rw,p,size):
        if type(p) is not tuple: return
        o,off=p
        if type(o) is not Obj: return
        if rw=='w' and id(o) not in s.saved: s.saved[id(o)]=(o,dict(o.cells))
        if o.const: return
        if o.id>s.start: return   # created inside the parallel region: private to the thread
        key=(id(o),rw,off.id if type(off) is E else off,size,s.loopid,s.locked,s.single)
        if key not in s.acc: s.acc[key]=(o,rw,off,size,list(rt.stack[-3:]),s.loopid,s.locked,s.single)
    def endloop(s,rt): s.loopid=None
    def barrier(s,rt):
        """end of a phase: decide all pairs"""
        rt_race=rt.race; rt.race=None
        acc=s.acc; s.acc={}
        by={}
        for a in acc.values(): by.setdefault(id(a[0]),[]).append(a)
        sub={}
        def twin(v,lo,hi):
            u=v.args[0]+"'"; j=N.var(u,'I')
            if u not in rt.bounds: rt.bounds[u]=(lo,hi); rt.kvars.append((u,'I',lo,hi)); rt.sol.declare(j,lo,hi)
            return j
        mp={}
        for k,(i,lo,hi,_) in s.loops.items(): mp[i]=twin(i,lo,hi)
        if s.tid is not None: mp[s.tid]=twin(s.tid,0,max(1,rt.nthr-1))
        rt.model=None
        done=set()
        for l in by.values():
            o=l[0][0]
            for n,a in enumerate(l):
                for m_,b in enumerate(l):
                    if not(a[1]=='w') or (b[1]=='w' and m_<n): continue
                    if a[6] and a[6]==b[6]: continue    # both inside a critical section / reduction, or both atomic
                    if a[7] and b[7]: continue          # both executed by one thread only
                    off2=subst(b[2],mp); s.npairs+=1
                    cs=[]
                    if s.tid is not None: cs.append(N.bnot(N.cmp('==',s.tid,mp[s.tid])))
                    la,lb=a[5],b[5]
                    if la is not None and lb is not None:
                        ia,x0,x1,st1=s.loops[la]; ib,y0,y1,st2=s.loops[lb]
                        if la==lb or (st1 and st2 and (x0,x1)==(y0,y1)):
                            if x0==x1: continue
                            cs.append(N.bnot(N.cmp('==',ia,mp[ib])))
                    cs+=[N.cmp('<',off2,a[2]+a[3]),N.cmp('<',a[2],off2+b[3])]
                    if any(c is False for c in cs): rt.results.append(('trivial','race','iterations touch disjoint parts of %s'%o.name)); continue
                    cs=[c for c in cs if c is not True]
                    r,m=rt.sol.check_model(cs) if cs else ('sat',rt.need_model())
                    if r=='unsat': rt.results.append(('proved','race','iterations touch disjoint parts of %s'%o.name))
                    elif r=='sat':
                        key=(o.name,a[4][-1])
                        if key in done: continue
                        done.add(key)
                        rt.cand('race','two iterations (threads) of a parallel loop access the same element of %s, one writes, in %s'%(o.name,a[4][-1]),m)
                    else: rt.results.append(('unknown','race',o.name))
        rt.race=rt_race; rt.model=None
def subst(e,mp,memo=None):
    if not isinstance(e,E): return e
    if e in mp: return mp[e]
    if e.op=='var': return e
    a=[subst(x,mp) if isinstance(x,E) else x for x in e.args]
    op=e.op
    if op=='+': return N.add(*a)
    if op=='-': return N.sub(*a)
    if op=='*': return N.mul(*a)
    if op=='neg': return N.neg(*a)
    return N.mk(op,e.sort,*a)
