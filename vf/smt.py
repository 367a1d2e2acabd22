"""Lowerings of the expression DAG: z3 terms (reals / FP), polynomials."""
import struct,  z3, math, time, sys
sys.set_int_max_str_digits(0)
from fractions import Fraction
from . import node as N
from .node import E

STAT=dict(queries=0,time=0.0,sat=0,unsat=0,unknown=0)

class Tr:
    """DAG -> z3 over reals; side axioms for sqrt/pow atoms are collected per node"""
    def __init__(s):
        s.memo={}; s.ax={}; s.vars={}; s.keep=[]
    def num(s,a):
        t=type(a)
        if t is bool: return z3.BoolVal(a)
        if t is int: return z3.IntVal(a)
        if t is Fraction: return z3.RealVal(a)
        if t is float:
            if a!=a: return z3.FreshReal('nan')
            if math.isinf(a): return z3.RealVal(10**400 if a>0 else -10**400)
            return z3.RealVal(Fraction(a))
        raise RuntimeError('num %r'%(a,))
    def tr(s,root):
        if not isinstance(root,E): return s.num(root),frozenset()
        st=[root]
        memo=s.memo
        while st:
            e=st[-1]
            if e.id in memo: st.pop(); continue
            pend=[a for a in e.args if type(a) is E and a.id not in memo]
            if pend: st.extend(pend); continue
            st.pop()
            v=[]; ax=frozenset()
            for a in e.args:
                if type(a) is E:
                    t,x=memo[a.id]; v.append(t); ax=ax|x if x else ax
                elif type(a) is str: v.append(a)
                else: v.append(s.num(a))
            t,nax=s.op(e,v)
            if nax: 
                k=len(s.keep); s.keep.append(nax); ax=ax|frozenset([k])
            memo[e.id]=(t,ax)
        return memo[root.id]
    def op(s,e,v):
        op=e.op
        if op=='var':
            f={'R':z3.Real,'I':z3.Int,'B':z3.Bool}[e.sort]
            return f(e.args[0]),None
        if op=='+': return v[0]+v[1],None
        if op=='-': return v[0]-v[1],None
        if op=='neg': return -v[0],None
        if op=='*': return v[0]*v[1],None
        if op=='/':
            if N.isc(e.args[1]): return v[0]/v[1],None
            q=z3.Real('q!%d'%e.id)
            ax=[z3.Implies(v[1]!=0,q*v[1]==v[0])]
            # sign lemma (linear), helps the linear core
            ax.append(z3.Implies(z3.And(v[0]>0,v[1]>0),q>0)); ax.append(z3.Implies(z3.And(v[0]<0,v[1]>0),q<0))
            return q,ax
        if op=='ite': return z3.If(v[0],v[1],v[2]),None
        if op=='<': return v[0]<v[1],None
        if op=='<=': return v[0]<=v[1],None
        if op=='==': return v[0]==v[1],None
        if op=='not': return z3.Not(v[0]),None
        if op=='and': return z3.And(v[0],v[1]),None
        if op=='or': return z3.Or(v[0],v[1]),None
        if op=='b2i': return z3.If(v[0],z3.IntVal(1),z3.IntVal(0)),None
        if op=='i2r': return z3.ToReal(v[0]),None
        if op=='r2i':
            q=z3.Int('ti!%d'%e.id); r=z3.ToReal(q)
            return q,[z3.If(v[0]>=0,z3.And(r<=v[0],v[0]<r+1),z3.And(r>=v[0],v[0]>r-1))]
        if op=='idiv': 
            return z3.If(v[0]>=0,v[0]/v[1],-((-v[0])/v[1])),None
        if op=='irem':
            q=z3.If(v[0]>=0,v[0]/v[1],-((-v[0])/v[1])); return v[0]-q*v[1],None
        if op=='abs': return z3.If(v[0]>=0,v[0],-v[0]),None
        if op=='sqrt':
            a=e.args[0]
            if type(a) is E and a.op=='*' and a.args[0] is a.args[1]:
                return z3.If(v[0]>=0,s.memo[a.args[0].id][0],-s.memo[a.args[0].id][0]) if False else s._absof(a.args[0]),None
            q=z3.Real('sq!%d'%e.id)
            return q,[z3.Implies(v[0]>=0,z3.And(q>=0,q*q==v[0])),z3.Implies(v[0]>=1,z3.And(q>=1,q<=v[0])),z3.Implies(z3.And(v[0]>=0,v[0]<1),z3.And(q<1,q>=v[0]))]
        if op=='pow':
            p=e.args[1]
            if not isinstance(p,E):
                p=float(p)
                if p==int(p) and 0<=p<=4:
                    r=z3.RealVal(1)
                    for _ in range(int(p)): r=r*v[0]
                    return r,None
                q=z3.Real('pw!%d'%e.id)
                ax=[z3.Implies(v[0]>0,q>0)]
                if p>0: ax+=[z3.Implies(v[0]>=1,q>=1),z3.Implies(z3.And(v[0]>=0,v[0]<1),q<1)]
                else: ax+=[z3.Implies(v[0]>=1,q<=1),z3.Implies(z3.And(v[0]>0,v[0]<1),q>1)]
                for c in (1e-4,0.05,20.):
                    y=Fraction(c**p); lo=s.num(y*(1-Fraction(1,10**13))); hi=s.num(y*(1+Fraction(1,10**13))); cc=s.num(c)
                    if p>0: ax+=[z3.Implies(v[0]>=cc,q>=lo),z3.Implies(z3.And(v[0]>0,v[0]<=cc),q<=hi)]
                    else: ax+=[z3.Implies(v[0]>=cc,q<=hi),z3.Implies(z3.And(v[0]>0,v[0]<=cc),q>=lo)]
                # rational exponent with small denominator: exact relation
                fr=Fraction(p).limit_denominator(12)
                if abs(float(fr)-p)<1e-15 and fr.denominator<=4 and abs(fr.numerator)<=4:
                    l=z3.RealVal(1)
                    for _ in range(fr.denominator): l=l*q
                    r=z3.RealVal(1)
                    for _ in range(abs(fr.numerator)): r=r*v[0]
                    ax.append(z3.Implies(v[0]>0, l==r if p>0 else l*r==1))
                return q,ax
            q=z3.Real('pw!%d'%e.id)
            return q,[z3.Implies(v[0]>0,q>0)]
        if op in('sin','cos'):
            q=z3.Real('fn!%d'%e.id); return q,[q<=1,q>=-1]
        if op in('exp',):
            q=z3.Real('fn!%d'%e.id); return q,[q>0]
        raise RuntimeError('smt op '+op)
    def _absof(s,a):
        t=s.memo[a.id][0]; return z3.If(t>=0,t,-t)
    def axioms(s,ks): 
        out=[]
        for k in sorted(ks): out+=s.keep[k]
        return out

class TrFP(Tr):
    """DAG -> z3 over IEEE doubles (round to nearest even)"""
    F=z3.Float64(); R=z3.RNE()
    def __init__(s): Tr.__init__(s); s.rng={}
    def num(s,a):
        t=type(a)
        if t is bool: return z3.BoolVal(a)
        if t is int: return z3.IntVal(a)
        return z3.FPVal(float(a),s.F)
    def op(s,e,v):
        op=e.op; R=s.R
        if e.sort=='R' or (op in('<','<=','==') and (N.srt(e.args[0])=='R' or N.srt(e.args[1])=='R')):
            v=[z3.FPVal(float(a),s.F) if type(a) in (int,bool) and op!='ite' else x for a,x in zip(e.args,v)]
            if op=='var':
                lo,hi=s.rng.get(e.args[0],(None,None))
                if lo is not None and hi is not None and 0<lo<=hi:
                    # the leading bits common to the whole range are constants
                    a=struct.unpack('<Q',struct.pack('<d',lo))[0]; b=struct.unpack('<Q',struct.pack('<d',hi))[0]; k=(a^b).bit_length()
                    if 0<k<52: return z3.fpBVToFP(z3.Concat(z3.BitVecVal(a>>k,64-k),z3.BitVec(e.args[0]+'!bits',k)),s.F),None
                return z3.FP(e.args[0],s.F),None
            if op=='+': return z3.fpAdd(R,v[0],v[1]),None
            if op=='-': return z3.fpSub(R,v[0],v[1]),None
            if op=='neg': return z3.fpNeg(v[0]),None
            if op=='*': return z3.fpMul(R,v[0],v[1]),None
            if op=='/': return z3.fpDiv(R,v[0],v[1]),None
            if op=='abs': return z3.fpAbs(v[0]),None
            if op=='sqrt': return z3.fpSqrt(R,v[0]),None
            if op=='ite': return z3.If(v[0],v[1],v[2]),None
            if op=='<': return z3.fpLT(v[0],v[1]),None
            if op=='<=': return z3.fpLEQ(v[0],v[1]),None
            if op=='==': return z3.fpEQ(v[0],v[1]),None
            if op in('pow','sin','cos','exp','log'):
                q=z3.FP('fn!%d'%e.id,s.F); return q,[z3.Not(z3.fpIsNaN(q)),z3.Not(z3.fpIsInf(q))]
            raise RuntimeError('fp op '+op)
        return Tr.op(s,e,v)
def fpval(x):
    if z3.is_fp(x) and not z3.is_fp_value(x): return 0.0
    if x.isNaN(): return float('nan')
    if x.isInf(): return -math.inf if x.isNegative() else math.inf
    if x.isZero(): return -0.0 if x.isNegative() else 0.0
    sg=-1 if x.sign() else 1; eb=x.exponent_as_long(True); sb=x.significand_as_long()
    return sg*(math.ldexp(sb,-1074) if eb==0 else math.ldexp(sb+(1<<52),eb-1075))
def zval(m,v,sort):
    x=m.eval(v,model_completion=True)
    if z3.is_fp(x): return fpval(x)
    if sort=='B': return z3.is_true(x)
    if sort=='I': return x.as_long() if z3.is_int_value(x) else 0
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(),x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a=x.approx(40); return Fraction(a.numerator_as_long(),a.denominator_as_long())
    return Fraction(0)

class Sol:
    """incremental path solver"""
    TR=None
    def __init__(s,rt,timeout=3000):
        s.fp=bool(rt is not None and rt.opts.get('fp'))
        if Sol.TR is None: Sol.TR=TrFP() if s.fp else Tr()
        s.tr=Sol.TR; s.rt=rt; s.z=z3.Solver(); s.z.set('timeout',timeout); s.dead=False; s.have=set(); s.timeout=timeout
        s.decl=[]; s.facts=[]; s.soft=[]; s.softlim=rt.opts.get('soft',0) if rt is not None else 0
    def declare(s,v,lo,hi):
        if s.fp and v.sort=='R':
            if s.tr.rng.setdefault(v.args[0],(lo,hi))!=(lo,hi): raise RuntimeError('range of an input depends on the path')
        t,_=s.tr.tr(v); s.decl.append((v.args[0],v.sort,t))
        if s.fp and v.sort=='R':
            s.put(z3.fpLEQ(s.tr.num(float('-inf') if lo is None else lo),t)); s.put(z3.fpLEQ(t,s.tr.num(float('inf') if hi is None else hi))); return
        if lo is not None: s.put(t>=s.tr.num(lo))
        if hi is not None: s.put(t<=s.tr.num(hi))
    def put(s,f): s.z.add(f); s.facts.append(f)
    def add(s,c):
        if s.softlim and N.dagsize(c,s.softlim)>=s.softlim: s.soft.append(c); return
        s.hard(c)
    def hard(s,c):
        t,ax=s.tr.tr(c)
        for k in sorted(ax-s.have):
            for f in s.tr.keep[k]: s.put(f)
        s.have|=ax
        s.put(t)
    def check_model(s,extra,timeout=None,nl=True):
        """with long constraints set apart (opts soft): decided without them if that
        suffices - 'unsat' needs no more, a model only has to satisfy them -, else with them"""
        if not s.soft: return s.check1(extra,timeout,nl)
        r,m=s.check1(extra,timeout,nl)
        if r=='unsat': return r,m
        if r=='sat' and s.satisfies(m): return r,m
        if s.rt.opts.get('softonly'): return 'unknown',None
        return s.check1(list(extra)+s.soft,timeout,nl)
    def satisfies(s,m):
        memo={}
        try: return all(N.evalf(c,m,memo) is True for c in s.soft)
        except Exception: return False
    def check1(s,extra,timeout=None,nl=True):
        fs=[]
        axs=frozenset()
        for c in extra:
            if c is True: continue
            if c is False: return 'unsat',None
            t,ax=s.tr.tr(c); fs.append(t); axs|=ax
        t0=time.time()
        blast=s.fp and s.rt is not None and s.rt.opts.get('blast')
        s.z.push()
        try:
            for k in sorted(axs-s.have): 
                for f in s.tr.keep[k]: s.z.add(f)
            for f in fs: s.z.add(f)
            if timeout: s.z.set('timeout',timeout)
            r=s.z.check() if not blast else z3.unknown
            if timeout: s.z.set('timeout',s.timeout)
            STAT['queries']+=1
            res=str(r); STAT[res]+=1
            m=None
            if res=='sat':
                mm=s.z.model()
                m={n:zval(mm,t,so) for n,so,t in s.decl}
                m={n:(float(v) if type(v) is Fraction else v) for n,v in m.items()}
        finally:
            s.z.pop()
        if res=='unknown' and nl:
            # second opinion on a fresh solver: nlsat, or bit-blasting of the whole formula
            z=z3.Tactic('qffp' if s.fp else 'qfnra-nlsat').solver(); z.set('timeout',timeout or s.timeout)
            try:
                for f in s.facts: z.add(f)
                for k in sorted(axs-s.have):
                    for f in s.tr.keep[k]: z.add(f)
                for f in fs: z.add(f)
                r=z.check(); STAT['queries']+=1; STAT[str(r)]+=1
                if str(r)!='unknown': res=str(r)
                if res=='sat':
                    mm=z.model(); m={n:zval(mm,t,so) for n,so,t in s.decl}
                    m={n:(float(v) if type(v) is Fraction else v) for n,v in m.items()}
            except z3.Z3Exception: pass
        STAT['time']+=time.time()-t0
        return res,m

# ------------------------------------------------------------ polynomials
RB=[500]   # rationals with longer denominators are rounded to 256 bits (series only)
def rnd(c):
    if type(c) is int: return c
    d=c.denominator
    if d.bit_length()>RB[0] and c.numerator!=0:
        # round to 256 significant bits
        n=c.numerator
        sh=d.bit_length()-n.bit_length()+256
        if sh<0: sh=0
        return Fraction((n<<sh)//d,1<<sh)
    return c

class PolyCtx:
    """multivariate polynomials {monomial:coef}; monomial = sorted tuple of (var,exp).
    trunc: (varname,maxdeg) drops higher powers of that variable."""
    def __init__(s,trunc=None,maxterms=200000):
        s.trunc=trunc; s.maxterms=maxterms
        s.memo={}
        s.atoms={}
    def const(s,c): return {():Fraction(c)} if c!=0 else {}
    def add(s,a,b,k=1):
        if len(a)<len(b) and k==1: a,b=b,a
        r=dict(a)
        for m,c in b.items():
            v=r.get(m,0)+k*c
            if v==0: r.pop(m,None)
            else: r[m]=v
        return r
    def mm(s,m1,m2):
        if not m1: return m2
        if not m2: return m1
        d=dict(m1)
        for v,e in m2: d[v]=d.get(v,0)+e
        return tuple(sorted(d.items()))
    def deg(s,m,v):
        for x,e in m:
            if x==v: return e
        return 0
    def mul(s,a,b):
        r={}
        tr=s.trunc
        if len(a)>len(b): a,b=b,a
        for m1,c1 in a.items():
            for m2,c2 in b.items():
                m=s.mm(m1,m2)
                if tr and s.deg(m,tr[0])>tr[1]: continue
                v=r.get(m,0)+c1*c2
                r[m]=v
        if len(r)>s.maxterms: raise PolyTooBig()
        return {m:rnd(c) for m,c in r.items() if c!=0}
    def divides(s,q,p,maxsteps=20000):
        """is p = k*q for a polynomial k (lexicographic division)"""
        vs=sorted({v for m in list(p)+list(q) for v,e in m})
        ix={v:i for i,v in enumerate(vs)}
        def vec(m):
            t=[0]*len(vs)
            for v,e in m: t[ix[v]]=e
            return tuple(t)
        import heapq
        P={vec(m):c for m,c in p.items()}; Q={vec(m):c for m,c in q.items()}
        lq=max(Q); cq=Q[lq]
        heap=[tuple(-x for x in m) for m in P]; heapq.heapify(heap)
        steps=0
        while heap:
            l=tuple(-x for x in heapq.heappop(heap)); c=P.pop(l,0)
            if c==0: continue
            d=tuple(a-b for a,b in zip(l,lq))
            if min(d)<0: return False
            steps+=1
            if steps>maxsteps: return False
            k=c/cq
            for m,cc in Q.items():
                if m==lq: continue
                mm=tuple(a+b for a,b in zip(m,d))
                v=P.get(mm)
                if v is None: P[mm]=-k*cc; heapq.heappush(heap,tuple(-x for x in mm))
                else: P[mm]=v-k*cc
        return True
    def subst(s,p,v,q):
        if not any(x==v for m in p for x,e in m): return p
        pw={0:s.const(1)}; r={}
        for m,c in p.items():
            e=s.deg(m,v); k=tuple(x for x in m if x[0]!=v)
            if e not in pw:
                for i in range(1,e+1):
                    if i not in pw: pw[i]=s.mul(pw[i-1],q)
            r=s.add(r,s.mul({k:c},pw[e]))
        return r
    def key(s,p): return frozenset(p.items())
    def inv_series(s,p):
        """1/p truncated, constant term must be a number"""
        v,D=s.trunc
        c0={m:c for m,c in p.items() if s.deg(m,v)==0}
        if list(c0.keys())!=[()]: return None
        c=c0[()]
        u={m:-x/c for m,x in p.items() if m!=()}
        r=s.const(Fraction(1)); t=s.const(Fraction(1))
        for _ in range(D):
            t=s.mul(t,u)
            if not t: break
            r=s.add(r,t)
        return {m:x/c for m,x in r.items()}
    # rational functions: (num, {denkey:(poly,exp)})
    def lcm(s,d1,d2):
        r=dict(d1)
        for k,(p,e) in d2.items():
            if k not in r or r[k][1]<e: r[k]=(p,e)
        return r
    def scale(s,num,d,l):
        for k,(p,e) in l.items():
            for _ in range(e-(d[k][1] if k in d else 0)): num=s.mul(num,p)
        return num
    def radd(s,x,y,k=1):
        if not x[1] and not y[1]: return (s.add(x[0],y[0],k),{})
        l=s.lcm(x[1],y[1])
        return (s.add(s.scale(x[0],x[1],l),s.scale(y[0],y[1],l),k),l)
    def rmul(s,x,y):
        d=dict(x[1])
        for k,(p,e) in y[1].items(): d[k]=(p,e+(d[k][1] if k in d else 0))
        nx,ny=x[0],y[0]
        # cancel an identical factor
        for n_,other in((nx,0),(ny,1)):
            kk=s.key(n_)
            if kk in d and n_:
                p,e=d[kk]
                if e==1: del d[kk]
                else: d[kk]=(p,e-1)
                if other==0: nx=s.const(1)
                else: ny=s.const(1)
        return (s.mul(nx,ny),d)
    def rdiv(s,x,y):
        yn,yd=y
        if not yn: raise PolyZeroDiv()
        num=x[0]
        for k,(p,e) in yd.items():
            # multiply numerator by yd, cancelling with x's denominators
            have=x[1].get(k)
            c=0
            if have:
                c=min(have[1],e)
                d=dict(x[1])
                if have[1]==c: del d[k]
                else: d[k]=(p,have[1]-c)
                x=(x[0],d)
            for _ in range(e-c): num=s.mul(num,p)
        if len(yn)==1 and () in yn: return ({m:rnd(c/yn[()]) for m,c in num.items()},x[1])
        if s.trunc:
            iv=s.inv_series(yn)
            if iv is not None: return (s.mul(num,iv),x[1])
        # normalise sign/scale of denominator: leading coefficient 1
        m0=min(yn.keys()); lc=yn[m0]
        yp={m:rnd(c/lc) for m,c in yn.items()}
        num={m:rnd(c/lc) for m,c in num.items()}
        k=s.key(yp)
        if s.key(num)==k: num=s.const(1); return (num,x[1])
        d=dict(x[1])
        d[k]=(yp,1+(d[k][1] if k in d else 0))
        return (num,d)
    def of(s,root):
        if not isinstance(root,E):
            return (s.const(Fraction(root)) ,{})
        memo=s.memo; st=[root]
        while st:
            e=st[-1]
            if e.id in memo: st.pop(); continue
            pend=[a for a in e.args if type(a) is E and a.id not in memo] if e.op in('+','-','neg','*','/','pow','i2r') else []
            if pend: st.extend(pend); continue
            st.pop()
            g=lambda a: memo[a.id] if type(a) is E else (s.const(Fraction(a)),{})
            op=e.op
            if op=='+': r=s.radd(g(e.args[0]),g(e.args[1]))
            elif op=='-': r=s.radd(g(e.args[0]),g(e.args[1]),-1)
            elif op=='neg':
                x=g(e.args[0]); r=({m:-c for m,c in x[0].items()},x[1])
            elif op=='*': r=s.rmul(g(e.args[0]),g(e.args[1]))
            elif op=='/': r=s.rdiv(g(e.args[0]),g(e.args[1]))
            elif op=='pow' and not isinstance(e.args[1],E) and float(e.args[1])==int(e.args[1]) and 0<=e.args[1]<=6:
                x=g(e.args[0]); r=(s.const(1),{})
                for _ in range(int(e.args[1])): r=s.rmul(r,x)
            else:
                nm=e.args[0] if op=='var' else '@%d'%e.id
                s.atoms[nm]=e
                m=((nm,1),)
                if s.trunc and nm==s.trunc[0] and s.trunc[1]<1: r=({},{})
                else: r=({m:Fraction(1)},{})
            memo[e.id]=r
        return memo[root.id]
class PolyTooBig(Exception): pass
class PolyZeroDiv(Exception): pass

def poly_bound_query(p,bounds,tol,timeout=20000):
    """decide: exists values of the variables within bounds with |p|>tol ?
    Linear abstraction: every monomial is an independent real within the product of
    the bounds.  Returns ('unsat'|'sat'|...)."""
    s=z3.Solver(); s.set('timeout',timeout)
    tot=[]
    for i,(m,c) in enumerate(p.items()):
        if m==(): tot.append(z3.RealVal(c)); continue
        B=Fraction(1)
        for v,e in m: B*=Fraction(bounds(v))**e
        x=z3.Real('m!%d'%i); s.add(x<=z3.RealVal(B),x>=z3.RealVal(-B))
        tot.append(z3.RealVal(c)*x)
    t=z3.Sum(tot) if tot else z3.RealVal(0)
    T=z3.RealVal(Fraction(tol))
    s.add(z3.Or(t>T,t<-T))
    t0=time.time(); r=str(s.check()); STAT['queries']+=1; STAT[r]+=1; STAT['time']+=time.time()-t0
    return r
def univ_bound(coef,lo,hi,tol,timeout=5000,depth=60):
    """decides |p(x)|<=tol for all x in [lo,hi]; p = sum coef[k] x^k (Fractions), any degree.
    The interval is bisected; on a piece (mapped to w in [-1,1]) the terms of degree above K are
    bounded by the sum of their magnitudes and z3 decides the remaining low-degree polynomial for
    every w.  Returns ('unsat',None,nq), ('sat',x,nq) (x violates the exact polynomial) or ('unknown',..)."""
    import time
    lo,hi,tol=Fraction(lo),Fraction(hi),Fraction(tol)
    n=max(coef) if coef else 0
    c=[coef.get(k,Fraction(0)) for k in range(n+1)]
    # x = m + r w
    m=(lo+hi)/2; r=(hi-lo)/2; S=1000+2*n
    den=1
    for x in c: den=den*x.denominator//math.gcd(den,x.denominator)
    # exact Taylor shift with integers: multiply x by D so that m,r are integers over D
    D=m.denominator*r.denominator//math.gcd(m.denominator,r.denominator); mi=int(m*D); ri=int(r*D)
    ci=[int(c[k]*den)*D**(n-k) for k in range(n+1)]  # p(x)*den*D^n with x=X/D
    for i in range(n):
        for j in range(n-1,i-1,-1): ci[j]+=mi*ci[j+1]
    tot=den*D**n; a=[]
    for k in range(n+1): a.append((ci[k]*ri**k<<S)//tot)
    err=Fraction(n+1,1<<S)          # bound of |p-a| on [-1,1]
    work=[(a,err,Fraction(0),Fraction(1),0)]; nq=0; unk=False
    K=4; QB=44; z=z3.Real('w'); ex=lambda x: abs(sum(c[k]*x**k for k in range(n+1)))
    while work:
        a,err,mid,rad,dp=work.pop()
        rest=Fraction(sum(abs(x) for x in a[K+1:]),1<<S)+err
        if rest*4<tol*Fraction(1,10**9) or (rest<tol/2 and Fraction(sum(abs(x) for x in a[:K+1]),1<<S)+rest<=tol) or rest<tol/1000:
            # outward rounding of the low coefficients
            q=[]; add=Fraction(0)
            for x in a[:K+1]:
                y=x>>(S-QB); q.append(Fraction(y,1<<QB)); add+=Fraction(1,1<<QB)
            T=tol-rest-add
            s=z3.Tactic('qfnra-nlsat').solver(); s.set('timeout',timeout); s.add(z>=-1,z<=1)
            t=z3.RealVal(q[-1])
            for y in reversed(q[:-1]): t=t*z+z3.RealVal(y)
            TT=z3.RealVal(T); t0=time.time(); s.add(z3.Or(t>TT,t<-TT)); r_=s.check(); STAT['queries']+=1; STAT[str(r_)]+=1; STAT['time']+=time.time()-t0; nq+=1
            if r_==z3.unsat: continue
            if r_==z3.sat:
                v=s.model()[z]
                if v is not None:
                    if not z3.is_rational_value(v): v=v.approx(60)
                    w=Fraction(v.numerator_as_long(),v.denominator_as_long()); x=m+r*(mid+rad*w); x=min(max(x,lo),hi)
                    xf=Fraction(float(x))
                    if lo<=xf<=hi and ex(xf)>tol: return 'sat',xf,nq
        if dp>=depth: unk=True; break
        b=[]
        for k,x in enumerate(a): b.append(x>>k)
        for sgn in (1,-1):
            d=list(b)
            for i in range(n):
                if sgn>0:
                    for j in range(n-1,i-1,-1): d[j]+=d[j+1]
                else:
                    for j in range(n-1,i-1,-1): d[j]-=d[j+1]
            work.append((d,err+Fraction(1<<(n+1),1<<S),mid+rad*sgn/2,rad/2,dp+1))
    return ('unknown',None,nq) if unk else ('unsat',None,nq)
