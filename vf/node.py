"""Hash-consed expression nodes.  Sorts: 'R' (double read as real), 'I'
(integer), 'B' (boolean).  Concrete values stay plain Python values (float,
Fraction for long double, int, bool), so purely concrete code runs in IEEE
double arithmetic exactly as compiled."""
import math
from fractions import Fraction

class Undef:
    """value read from memory (or an SSA register) that was never written"""
    __slots__=('why',)
    def __init__(s,why='undef'): s.why=why
    def _b(s,o): return s
    __add__=__radd__=__sub__=__rsub__=__mul__=__rmul__=__truediv__=__rtruediv__=_b
    def __neg__(s): return s
    def __repr__(s): return 'Undef(%s)'%s.why
UNDEF=Undef('undef register')

_tab={}
_cnt=[0]
def reset():
    pass

class E:
    __slots__=('op','args','sort','id')
    def __add__(a,b): return add(a,b)
    def __radd__(a,b): return add(b,a)
    def __sub__(a,b): return sub(a,b)
    def __rsub__(a,b): return sub(b,a)
    def __mul__(a,b): return mul(a,b)
    def __rmul__(a,b): return mul(b,a)
    def __truediv__(a,b): return div(a,b)
    def __rtruediv__(a,b): return div(b,a)
    def __neg__(a): return neg(a)
    def __repr__(s): return show(s)
    def __bool__(s): raise RuntimeError('symbolic value used as a Python bool')

def show(e,depth=4):
    if not isinstance(e,E): return repr(e)
    if e.op=='var': return e.args[0]
    if depth==0: return '...'
    return '(%s %s)'%(e.op,' '.join(show(a,depth-1) if not isinstance(a,str) else a for a in e.args))

def key(a):
    t=type(a)
    if t is E: return a.id
    if t is float: return ('f',a.hex())
    return (t.__name__,a)

def mk(op,sort,*args):
    k=(op,)+tuple([key(a) for a in args])
    e=_tab.get(k)
    if e is None:
        e=E(); e.op=op; e.args=args; e.sort=sort; _cnt[0]+=1; e.id=_cnt[0]
        _tab[k]=e
    return e

def var(name,sort): return mk('var',sort,name)

def srt(a):
    t=type(a)
    if t is E: return a.sort
    if t is bool: return 'B'
    if t is int: return 'I'
    return 'R'
def isc(a): return type(a) is not E

INFS=(float('inf'),float('-inf'))
def add(a,b):
    if type(a) is Undef: return a
    if type(b) is Undef: return b
    if isc(a):
        if a==0: return b
        if a!=a or a in INFS: return a      # symbolic values are finite
    if isc(b):
        if b==0: return a
        if b!=b or b in INFS: return b
    s=srt(a) if type(a) is E else srt(b)
    if s=='I':
        if isc(b) and type(a) is E and a.op=='+' and isc(a.args[1]): return add(a.args[0],a.args[1]+b)
        if isc(a): a,b=b,a
    elif MONO[0] and not FP[0]:
        r=monosum(a,b,1)
        if r is not None: return r
        if MONO[0]>1: return polysum(a,b,1)
    return mk('+',s,a,b)
# ---- sums as short lists of Laurent monomials (MONO>1): terms that cancel disappear
_poly={}      # node id -> {monomial: coefficient}
def terms(a):
    if type(a) is E:
        p=_poly.get(a.id)
        if p is not None: return p
        if a.op=='neg':
            p=_poly.get(a.args[0].id)
            if p is not None: return {k:-c for k,c in p.items()}
    m=mono(a)
    if m is None: return None
    return {m[1]:m[0]}
def padd(p,q,k):
    r=dict(p)
    for m,c in q.items():
        o=r.get(m,0); z=o+k*c
        if z and o and abs(z)<EPSC*abs(o): z=0
        if z: r[m]=z
        else: r.pop(m,None)
    return r
# two products that agree to 2^-44 differ by the rounding of concrete intermediate results only
EPSC=Fraction(1,2**44)
def expand1(p):
    """replace, one level, the atoms that are themselves sums"""
    out={}; ch=False
    for m,c in p.items():
        hit=None
        for k,e in m:
            if e==1 and k in _poly: hit=k; break
        if hit is None: out[m]=out.get(m,0)+c; continue
        ch=True; rest=[(k,e) for k,e in m if k!=hit]
        for m2,c2 in _poly[hit].items():
            d=dict(rest)
            for k,e in m2:
                e+=d.get(k,0)
                if e: d[k]=e
                else: d.pop(k,None)
            t=tuple(sorted(d.items())); o=out.get(t,0); z=o+c*c2; out[t]=0 if o and abs(z)<EPSC*abs(o) else z
        if len(out)>40: return None
    if not ch: return None
    return {m:c for m,c in out.items() if c}
def polysum(a,b,k):
    pa,pb=terms(a),terms(b)
    if pa is None or pb is None: return mk('+' if k>0 else '-','R',a,b)
    best=padd(pa,pb,k)
    if len(best)==len(pa)+len(pb) and len(best)<=40:
        x,y=pa,pb
        for depth in range(3):
            ex=expand1(x); ey=expand1(y); done=False
            for u,v in ((x,ey),(ex,y),(ex,ey)):
                if u is None or v is None: continue
                r=padd(u,v,k)
                if len(r)<len(u)+len(v): best=r; done=True; break
            if done: break
            if ex is None and ey is None: break
            x=ex if ex is not None else x; y=ey if ey is not None else y
    for _ in range(2):
        ex=expand1(best) if 1<len(best)<=40 else None
        if ex is not None and len(ex)<len(best): best=ex
        else: break
    if len(best)>40: return mk('+' if k>0 else '-','R',a,b)
    return from_poly(best)
def from_poly(p):
    if not p: return 0.0
    if len(p)>1:
        k,m0,c0=normal(p); q=_factor.get(k)
        if q is None: q=_factor[k]=(plain(p),m0,c0)
        if q[0] is not None:
            d=dict(m0)
            for i,e in q[1]:
                e=d.get(i,0)-e
                if e: d[i]=e
                else: d.pop(i,None)
            if not d and c0==q[2]: return q[0]
            i=q[0].id; d[i]=d.get(i,0)+1
            return from_mono(c0/q[2],tuple(sorted(d.items())))
    return plain(p)
_factor={}    # sums up to a monomial factor -> the first such sum
def normal(p):
    vs=sorted({k for m in p for k,e in m},reverse=True)
    def vec(m):
        d=dict(m); return tuple(d.get(k,0) for k in vs)
    m0=max(p,key=vec); c0=p[m0]; v0=vec(m0)
    return frozenset((tuple((k,a-b) for k,a,b in zip(vs,vec(m),v0) if a!=b),'%.11g'%float(c/c0)) for m,c in p.items()),m0,c0
def plain(p):
    n=None
    for m,c in sorted(p.items()):
        t=from_mono(c,m)
        n=t if n is None else mk('+','R',n,t)
    if len(p)>1: _poly[n.id]=p; _byid[n.id]=n
    return n
def monosum(a,b,k):
    x=mono(a); y=mono(b)
    if x is None or y is None or x[1]!=y[1]: return None
    c=x[0]+k*y[0]
    if MONO[0]>1 and abs(c)<EPSC*abs(x[0]): c=0
    return 0.0 if c==0 else from_mono(c,x[1])
def sub(a,b):
    if type(a) is Undef: return a
    if type(b) is Undef: return b
    if isc(b) and b==0: return a
    if isc(b) and (b!=b or b in INFS): return -b
    if isc(a) and (a!=a or a in INFS): return a
    s=srt(a) if type(a) is E else srt(b)
    if type(a) is E and a is b: return 0 if s=='I' else 0.0
    if isc(a) and a==0: return neg(b)
    if s=='I' and isc(b): return add(a,-b)
    if s=='R' and MONO[0]:
        r=monosum(a,b,-1)
        if r is not None: return r
        if MONO[0]>1: return polysum(a,b,-1)
    return mk('-',s,a,b)
def neg(a):
    if type(a) is Undef: return a
    if isc(a): return -a
    if a.op=='neg': return a.args[0]
    return mk('neg',a.sort,a)
def mul(a,b):
    if type(a) is Undef: return a
    if type(b) is Undef: return b
    s=srt(a) if type(a) is E else srt(b)
    for x,y in((a,b),(b,a)):
        if isc(x):
            if x==0: return x if s=='I' else 0.0
            if x==1: return y
            if x==-1: return neg(y)
    if MONO[0] and s=='R':
        r=monoprod(a,b,1)
        if r is not None: return r
    return mk('*',s,a,b)
# ---- canonical form of Laurent monomials (opt-in): equal products become one node
MONO=[False]
FP=[False]    # bit-precise floating point: only IEEE-exact simplifications
_mono={}      # node id -> (coefficient, ((node id, exponent),...))
_byid={}
def mono(a):
    if type(a) is not E:
        if type(a) is float and (a!=a or a in(float('inf'),float('-inf'))): return None
        return (Fraction(a),())
    m=_mono.get(a.id)
    if m is None:
        if a.op=='neg':
            x=mono(a.args[0]); m=(-x[0],x[1]) if x else 0
        else: _byid[a.id]=a; m=(Fraction(1),((a.id,1),))
        _mono[a.id]=m
    return m or None
def num_of(c):
    f=float(c)
    return f if Fraction(f)==c else c
def monoprod(a,b,sg):
    x=mono(a)
    if x is None: return None
    y=mono(b)
    if y is None or (sg<0 and y[0]==0): return None
    c=x[0]*y[0] if sg>0 else x[0]/y[0]
    if c==0: return 0.0
    d=dict(x[1])
    for k,e in y[1]:
        e=d.get(k,0)+sg*e
        if e: d[k]=e
        else: d.pop(k,None)
    return from_mono(c,tuple(sorted(d.items())))
def from_mono(c,ex):
    if not ex: return num_of(c)
    n=None; dn=None
    for k,e in ex:
        v=_byid[k]
        for _ in range(abs(e)):
            if e>0: n=v if n is None else mk('*','R',n,v)
            else: dn=v if dn is None else mk('*','R',dn,v)
    if n is None: r=mk('/','R',num_of(c),dn)
    else:
        r=n
        if c==-1: r=mk('neg','R',n)
        elif c!=1: r=mk('*','R',num_of(c),n)
        if dn is not None: r=mk('/','R',r,dn)
    _mono[r.id]=(c,ex)
    return r
def div(a,b):
    """real division"""
    if type(a) is Undef: return a
    if type(b) is Undef: return b
    if isc(a) and isc(b):
        if type(a) is Fraction or type(b) is Fraction:
            return Fraction(a)/Fraction(b)
        if b==0:
            if a==0 or a!=a: return float('nan')
            return math.copysign(float('inf'),a)*math.copysign(1.0,b)
        return a/b
    if isc(b):
        if b==1: return a
        if b==-1: return neg(a)
        if type(b) is float and math.isinf(b): return 0.0
    if isc(a) and a==0: return 0.0
    if MONO[0]:
        r=monoprod(a,b,-1)
        if r is not None: return r
    return mk('/','R',a,b)

def fn(name,*args):
    for a in args:
        if type(a) is Undef: return a
    return mk(name,'R',*args)

CMP={'<':lambda a,b:a<b,'<=':lambda a,b:a<=b,'>':lambda a,b:a>b,'>=':lambda a,b:a>=b,'==':lambda a,b:a==b,'!=':lambda a,b:a!=b}
def cmp(op,a,b):
    if type(a) is Undef: return a
    if type(b) is Undef: return b
    if isc(a) and isc(b): return CMP[op](a,b)
    if op=='>': op,a,b='<',b,a
    elif op=='>=': op,a,b='<=',b,a
    if type(a) is E and a is b: return op in('<=','==')
    if op=='!=': return bnot(cmp('==',a,b))
    # b2i(x) != 0 etc.
    if op=='==':
        for x,y in((a,b),(b,a)):
            if type(x) is E and x.op=='b2i' and isc(y):
                if y==0: return bnot(x.args[0])
                if y==1: return x.args[0]
                return False
    return mk(op,'B',a,b)
def bnot(a):
    if type(a) is Undef: return a
    if isc(a): return not a
    if a.op=='not': return a.args[0]
    return mk('not','B',a)
def band(a,b):
    if type(a) is Undef: return a if not (b is False) else b
    if type(b) is Undef: return b if not (a is False) else a
    if isc(a): return b if a else False
    if isc(b): return a if b else False
    if a is b: return a
    return mk('and','B',a,b)
def bor(a,b):
    if type(a) is Undef: return a if not (b is True) else b
    if type(b) is Undef: return b if not (a is True) else a
    if isc(a): return True if a else b
    if isc(b): return True if b else a
    if a is b: return a
    return mk('or','B',a,b)
def ite(c,a,b):
    if isc(c): return a if c else b
    if a is b or (isc(a) and isc(b) and type(a) is type(b) and a==b): return a
    if type(a) is Undef or type(b) is Undef: return mkundef_ite(c,a,b)
    s=srt(a) if type(a) is E else srt(b)
    if s=='B':
        return bor(band(c,a),band(bnot(c),b))
    return mk('ite',s,c,a,b)
def mkundef_ite(c,a,b):
    return a if type(a) is Undef else b

def nonneg(e,d=40):
    """non-negative by its shape alone (squares, even powers, sums and products of such)"""
    if type(e) is not E: return e>=0
    if d==0: return False
    if e.op in('abs','sqrt'): return True
    m=_mono.get(e.id) if e.op in('*','/') else None
    if m and all(k%2==0 or nonneg(_byid[i],d-1) if _byid[i] is not e else False for i,k in m[1]): return m[0]>=0
    if e.op=='*': return e.args[0] is e.args[1] or (nonneg(e.args[0],d-1) and nonneg(e.args[1],d-1))
    if e.op in('+','/'): return nonneg(e.args[0],d-1) and nonneg(e.args[1],d-1)
    if e.op=='ite': return nonneg(e.args[1],d-1) and nonneg(e.args[2],d-1)
    return False
_dsz={}
def dagsize(root,lim):
    """number of distinct nodes (not counted beyond lim)"""
    if type(root) is not E: return 0
    r=_dsz.get(root.id)
    if r is not None and (r<lim or r>=lim): 
        return r
    seen=set(); st=[root]
    while st and len(seen)<2000:
        e=st.pop()
        if e.id in seen: continue
        seen.add(e.id); st+= [a for a in e.args if type(a) is E]
    _dsz[root.id]=len(seen)
    return len(seen)
def evalf(root,env,memo=None):
    """evaluate numerically; env: var name -> python number"""
    if not isinstance(root,E): return root
    if memo is None: memo={}
    st=[root]
    while st:
        e=st[-1]
        if e.id in memo: st.pop(); continue
        pend=[a for a in e.args if type(a) is E and a.id not in memo]
        if pend: st.extend(pend); continue
        st.pop()
        op=e.op
        if e.op in('*','/') and e.sort=='R':
            m=_mono.get(e.id)
            if m and len(m[1])>1:
                try: memo[e.id]=_ivmono(m,bounds,memo); continue
                except (OverflowError,ValueError,KeyError): pass
        v=[memo[a.id] if type(a) is E else a for a in e.args]
        try: memo[e.id]=_ev(op,e,v,env)
        except (OverflowError,ZeroDivisionError,ValueError): memo[e.id]=float('nan')
    return memo[root.id]
def _ev(op,e,v,env):
    if op=='var':
        if e.args[0] in env: return env[e.args[0]]
        return {'R':0.0,'I':0,'B':False}[e.sort]
    if op=='+': return v[0]+v[1]
    if op=='-': return v[0]-v[1]
    if op=='neg': return -v[0]
    if op=='*': return v[0]*v[1]
    if op=='/': return div(float(v[0]),float(v[1]))
    if op=='ite': return v[1] if v[0] else v[2]
    if op=='<': return v[0]<v[1]
    if op=='<=': return v[0]<=v[1]
    if op=='==': return v[0]==v[1]
    if op=='not': return not v[0]
    if op=='and': return v[0] and v[1]
    if op=='or': return v[0] or v[1]
    if op=='b2i': return 1 if v[0] else 0
    if op=='i2r': return float(v[0])
    if op=='r2i': return int(v[0])
    if op=='idiv':
        q=abs(v[0])//abs(v[1]); return q if (v[0]<0)==(v[1]<0) else -q
    if op=='irem':
        q=abs(v[0])%abs(v[1]); return -q if v[0]<0 else q
    if op=='sqrt': return math.sqrt(v[0]) if v[0]>=0 else float('nan')
    if op=='abs': return abs(v[0])
    if op=='pow': return float(v[0])**float(v[1]) if not(v[0]<0 and v[1]!=int(v[1])) else float('nan')
    if op in('cos','sin','exp','log'): return getattr(math,op)(v[0])
    raise RuntimeError('evalf '+op)

# ------------------------------------------------ interval evaluation
_inf=float('inf')
def _up(x): return math.nextafter(x,_inf) if abs(x)!=_inf else x
def _dn(x): return math.nextafter(x,-_inf) if abs(x)!=_inf else x
TOP=(-_inf,_inf)
def ival(root,bounds,memo):
    """interval enclosure (outward rounded) of a real/integer node, tri-state for booleans"""
    if type(root) is not E:
        if type(root) is bool: return root
        x=float(root); 
        return (x,x) if type(root) is not Fraction else (_dn(x),_up(x))
    st=[root]
    while st:
        e=st[-1]
        if e.id in memo: st.pop(); continue
        pend=[a for a in e.args if type(a) is E and a.id not in memo]
        if pend: st.extend(pend); continue
        st.pop()
        v=[memo[a.id] if type(a) is E else (a if type(a) in (str,bool) else ival(a,bounds,memo)) for a in e.args]
        try: memo[e.id]=_iv(e,v,bounds)
        except (OverflowError,ValueError): memo[e.id]=None if e.sort=='B' else TOP
    return memo[root.id]
def _ivmono(m,bounds,memo):
    """interval of a Laurent monomial: powers of its atoms"""
    lo,hi=ival(m[0],bounds,memo)
    for k,e in m[1]:
        a,b=memo[k] if k in memo else ival(_byid[k],bounds,memo); n=abs(e)
        if n%2==0:
            x=max(abs(a),abs(b)); y=0.0 if a<=0<=b else min(abs(a),abs(b)); a,b=y,x
        if e<0 and a<=0<=b: 
            if n%2==0 and b>0: p=_ipow(b,n,_up); a,b=(_dn(1/p) if p<_inf else 0.0),_inf
            else: return TOP
        else:
            pa=_ipow(a,n,_dn if a>=0 else _up) if a>=0 else -_ipow(-a,n,_up); pb=_ipow(b,n,_up) if b>=0 else -_ipow(-b,n,_dn)
            a,b=pa,pb
            if e<0: a,b=_dn(1/b),_up(1/a) if a!=0 else _inf
        z=[]
        for x in(lo,hi):
            for y in(a,b): z.append(0.0 if x==0 or y==0 else x*y)
        lo,hi=_dn(min(z)),_up(max(z))
    return lo,hi
def _ipow(x,n,rd):
    r=x
    for _ in range(n-1): r=max(0.0,rd(r*x)) if x>=0 else rd(r*x)
    return r
def _iv(e,v,bounds):
    op=e.op
    if op=='var':
        if e.sort=='B': return None
        lo,hi=bounds.get(e.args[0],(None,None))
        return (-_inf if lo is None else float(lo),_inf if hi is None else float(hi))
    if op=='+': return (_dn(v[0][0]+v[1][0]),_up(v[0][1]+v[1][1]))
    if op=='-': return (_dn(v[0][0]-v[1][1]),_up(v[0][1]-v[1][0]))
    if op=='neg': return (-v[0][1],-v[0][0])
    if op=='*':
        if e.args[0] is e.args[1]:
            a=max(abs(v[0][0]),abs(v[0][1])); b=0.0 if v[0][0]<=0<=v[0][1] else min(abs(v[0][0]),abs(v[0][1]))
            return (max(0.0,_dn(b*b)),_up(a*a))
        p=[]
        for x in v[0]:
            for y in v[1]:
                z=0.0 if x==0 or y==0 else x*y
                p.append(z)
        return (_dn(min(p)),_up(max(p)))
    if op=='/':
        if v[1][0]<=0<=v[1][1]: return TOP
        p=[]
        for x in v[0]:
            for y in v[1]:
                z=x/y
                if z!=z: return TOP
                p.append(z)
        return (_dn(min(p)),_up(max(p)))
    if op=='ite':
        if v[0] is True: return v[1]
        if v[0] is False: return v[2]
        return (min(v[1][0],v[2][0]),max(v[1][1],v[2][1]))
    if op=='abs':
        a,b=v[0]
        return (a,b) if a>=0 else (-b,-a) if b<=0 else (0.0,max(-a,b))
    if op=='sqrt':
        a,b=v[0]
        if b<0: return TOP
        return (max(0.0,_dn(math.sqrt(max(a,0.0)))),_up(math.sqrt(b)) if b<_inf else _inf)
    if op=='pow':
        (a,b),(p,q)=v
        if a>0 and p==q:
            lo,hi=(a,b) if p>=0 else (b,a)
            lo=0.0 if lo==_inf and p<0 else lo**p; hi=_inf if hi==_inf and p>=0 else hi**p
            return (max(0.0,_dn(_dn(lo))),_up(_up(hi)))
        if a>=0: return (0.0,_inf)
        return TOP
    if op=='<':
        if v[0][1]<v[1][0]: return True
        if v[0][0]>=v[1][1]: return False
        return None
    if op=='<=':
        if v[0][1]<=v[1][0]: return True
        if v[0][0]>v[1][1]: return False
        return None
    if op=='==':
        if v[0][1]<v[1][0] or v[0][0]>v[1][1]: return False
        if v[0][0]==v[0][1]==v[1][0]==v[1][1]: return True
        return None
    if op=='not': return None if v[0] is None else not v[0]
    if op=='and':
        if v[0] is False or v[1] is False: return False
        return True if v[0] is True and v[1] is True else None
    if op=='or':
        if v[0] is True or v[1] is True: return True
        return False if v[0] is False and v[1] is False else None
    if op=='i2r': return v[0]
    if op=='b2i': return (1.0,1.0) if v[0] is True else (0.0,0.0) if v[0] is False else (0.0,1.0)
    if e.sort=='B': return None
    return TOP
