"""Run-time of the symbolic executor: memory model, path control, externals."""
import math, sys
from fractions import Fraction
from . import node as N
from .node import E, Undef, UNDEF

class EngineError(Exception):
    """something the encoder does not model: never reported as a violation"""
class Stop(Exception):
    """ends the current path (assumption false, budget, fatal finding)"""
    def __init__(s,kind,info=''): s.kind=kind; s.info=info; Exception.__init__(s,kind,info)
class Throw(Exception):
    def __init__(s,obj,ti): s.obj=obj; s.ti=ti; Exception.__init__(s,'throw')

SEQ=[0]
class Obj:
    __slots__=('name','size','cells','kind','alive','zero','id','const','site','al')
    def __init__(s,name,size,kind,zero=False):
        s.name=name; s.size=size; s.cells={}; s.kind=kind; s.alive=True; s.zero=zero; s.const=False; s.al=16 if kind in('new','new[]','malloc') else 8
        SEQ[0]+=1; s.id=SEQ[0]
    def __repr__(s): return '<%s:%s[%s]>'%(s.kind,s.name,s.size)
class FObj:
    __slots__=('name',)
    def __init__(s,name): s.name=name
    def __repr__(s): return '<fn %s>'%s.name
NULL=(None,0)

SZ={'f':8,'g':16,'p':8}

def wrap(v,w):
    v&=(1<<w)-1
    return v-(1<<w) if v>>(w-1) else v

class RT:
    def __init__(s,eng,prefix,opts):
        s.eng=eng; s.prefix=prefix; s.opts=opts
        s.dec=[]            # decisions of this run: list of (bool, forced)
        s.n=0; s.maxn=opts.get('max_steps',20_000_000)
        s.pc=[]             # list of B nodes (assumed true)
        s.globs={}; s.heap=[]; s.obs=[]; s.names={}; s.bounds={}
        s.alts=[]           # alternative prefixes discovered
        s.findings=[]       # (kind,msg,...)
        s.ext={}; s.funcs_used=set(); s.objs=0
        s.model={}; s.kvars=[]; s.lu={}; s.fresh=0; s.stack=[]; s.lines=None
        s.checks=[]         # deferred 'close' checks
        s.stat=dict(branch=0,queries=0)
        s.exc=None; s.undetermined=0
        s.sol=eng.newsolver(s)
        s.depth=0
        s.log=[]
        s._iv={}; s._ivn=-1; s.pcs={}
        s.race=None; s.merge=bool(opts.get('merge'))
    # ------------------------------------------------ path control
    def assume(s,c,src='assume'):
        if type(c) is Undef: s.finding('uninit','assumption on an uninitialised value'); raise Stop('undef')
        if N.isc(c):
            if not c: raise Stop('assume')
            return
        s.pc.append(c); s.sol.add(c); s.note(c)
        if s.model is not None and s.evalb(c) is not True: s.model=None
    def note(s,c):
        """remember literals assumed on this path"""
        if type(c) is not E: return
        if c.op=='and':
            s.note(c.args[0]); s.note(c.args[1]); return
        s.pcs[c.id]=True; n=N.bnot(c)
        if type(n) is E: s.pcs[n.id]=False
    def evalb(s,c):
        try: v=N.evalf(c,s.model)
        except Exception: return None
        if v!=v: return None
        return bool(v) if isinstance(v,(bool,int)) else None
    def need_model(s):
        if s.model is None and not s.sol.dead:
            r,m=s.sol.check_model([])
            if r=='unsat': raise Stop('infeasible')
            if r=='sat': s.model=m
        return s.model
    def quick(s,c):
        """decided by interval arithmetic over the declared ranges alone?"""
        if c.id in s.pcs: return s.pcs[c.id]
        if s._ivn!=len(s.bounds): s._iv={}; s._ivn=len(s.bounds)
        return N.ival(c,s.bounds,s._iv)
    def branch(s,c):
        if type(c) is Undef:
            s.finding('uninit','a branch depends on an uninitialised value (%s)'%c.why)
            raise Stop('undef')
        q=s.quick(c)
        if q is not None: return q
        if s.opts.get('generic') and c.op in('<','<='):
            # (declared assumption) quantities compared with a negligible constant are above it
            a,b=c.args
            if type(a) is float and 0<a<=1e-12 and type(b) is E and N.dagsize(b,30)>=30: s.note(c); s.generic=getattr(s,'generic',0)+1; return True
            if type(b) is float and 0<b<=1e-12 and type(a) is E and N.dagsize(a,30)>=30: s.note(N.bnot(c)); s.generic=getattr(s,'generic',0)+1; return False
        k=len(s.dec); s.stat['branch']+=1
        if k<len(s.prefix):
            d,f=s.prefix[k]
            s.dec.append((d,f))
            if not f:
                x=c if d else N.bnot(c)
                s.pc.append(x); s.sol.add(x); s.note(x)
                if s.model is not None and s.evalb(x) is not True: s.model=None
            else: s.note(c if d else N.bnot(c))
            return d
        if k>=s.opts.get('max_dec',400): raise Stop('budget','decisions')
        s.need_model()
        mv=None
        if s.model is not None: mv=s.evalb(c)
        if mv is not None:
            d=mv
            other=N.bnot(c) if d else c
            r,m2=s.sol.check_model([other])
            if r=='unsat':
                s.dec.append((d,True)); s.note(c if d else N.bnot(c)); return d
            if r=='unknown': s.undetermined+=1
            s.alts.append(s.dec[:]+[(not d,False)])
            s.dec.append((d,False))
            x=c if d else N.bnot(c)
            s.pc.append(x); s.sol.add(x); s.note(x)
            return d
        rt_,mt=s.sol.check_model([c]); rf,mf=s.sol.check_model([N.bnot(c)])
        if rt_=='unsat' and rf=='unsat': raise Stop('infeasible')
        if rt_=='unsat': s.dec.append((False,True)); s.note(N.bnot(c)); return False
        if rf=='unsat': s.dec.append((True,True)); s.note(c); return True
        if rt_=='unknown' or rf=='unknown': s.undetermined+=1
        d=(rt_=='sat') or rf!='sat'
        s.alts.append(s.dec[:]+[(not d,False)])
        s.dec.append((d,False))
        x=c if d else N.bnot(c)
        s.pc.append(x); s.sol.add(x); s.note(x)
        s.model=mt if d else mf
        return d
    # ------------------------------------------------ findings
    def finding(s,kind,msg,cond=None,fatal=False,data=None):
        """cond: B node describing when it fails (None: on the whole path)"""
        s.findings.append(dict(kind=kind,msg=msg,cond=cond,pc=list(s.pc),where=list(s.stack[-4:]),data=data))
        if fatal: raise Stop('finding',msg)
    def require(s,c,kind,msg,data=None):
        """obligation: c must hold on every input of this path"""
        if N.isc(c):
            if type(c) is Undef: s.finding('uninit','%s: depends on an uninitialised value'%msg); return
            s.stat['queries']+=0
            if not c: s.finding(kind,msg,None,data=data)
            return
        bad=N.bnot(c)
        s.checks.append(dict(kind=kind,msg=msg,bad=bad,npc=len(s.pc),where=list(s.stack[-4:]),data=data))
    # ------------------------------------------------ inputs
    def uname(s,nm):
        k=s.names.get(nm,0); s.names[nm]=k+1
        return '%s#%d'%(nm,k)
    def newvar(s,nm,sort,lo=None,hi=None):
        u=s.uname(nm); v=N.var(u,sort)
        s.kvars.append((u,sort,lo,hi)); s.bounds[u]=(lo,hi)
        s.sol.declare(v,lo,hi)
        if s.model is not None:
            if sort=='B': s.model.setdefault(u,False)
            else:
                d=0 if sort=='I' else 0.0
                if lo is not None and hi is not None:
                    import zlib
                    h=(zlib.crc32((u+str(s.opts.get('seed',1))).encode())%9973)/9973.0
                    d=lo+int(h*(hi-lo)) if sort=='I' else round(lo+h*(hi-lo),6)
                    d=min(max(d,lo),hi)
                elif lo is not None: d=lo
                elif hi is not None: d=hi
                s.model.setdefault(u,d)
        return v
    # ------------------------------------------------ memory
    def alloca(s,name,size):
        o=Obj(name,size,'stack'); return o
    def newobj(s,name,size,kind):
        if type(size) is not int: raise EngineError('symbolic allocation size')
        if size<0: s.finding('mem','negative allocation size',fatal=True)
        o=Obj(name,size,kind); o.site=list(s.stack[-4:]); s.heap.append(o); return o
    def glob(s,name):
        g=s.globs.get(name)
        if g is None:
            g=s.eng.mkglob(s,name); s.globs[name]=g
        return g
    def irange(s,e):
        if type(e) is int or type(e) is bool: return (int(e),int(e))
        op=e.op
        if op=='var':
            return s.bounds.get(e.args[0],(None,None))
        if op=='+':
            a=s.irange(e.args[0]); b=s.irange(e.args[1])
            return (None if a[0] is None or b[0] is None else a[0]+b[0], None if a[1] is None or b[1] is None else a[1]+b[1])
        if op=='-':
            a=s.irange(e.args[0]); b=s.irange(e.args[1])
            return (None if a[0] is None or b[1] is None else a[0]-b[1], None if a[1] is None or b[0] is None else a[1]-b[0])
        if op=='*':
            a=s.irange(e.args[0]); b=s.irange(e.args[1])
            if None in a or None in b: return (None,None)
            p=[x*y for x in a for y in b]; return (min(p),max(p))
        if op=='neg':
            a=s.irange(e.args[0]); return (None if a[1] is None else -a[1],None if a[0] is None else -a[0])
        if op=='b2i': return (0,1)
        if op=='ite':
            a=s.irange(e.args[1]); b=s.irange(e.args[2])
            return (None if a[0] is None or b[0] is None else min(a[0],b[0]), None if a[1] is None or b[1] is None else max(a[1],b[1]))
        if op=='r2i': return (-2**31,2**31-1)
        return (None,None)
    def inrange(s,e,lo,hi):
        a=s.irange(e)
        return a[0] is not None and a[1] is not None and a[0]>=lo and a[1]<=hi
    def bad_access(s,p,size,what):
        o,off=p
        if o is None: s.finding('mem','null pointer %s'%what,fatal=True)
        if type(o) is FObj: s.finding('mem','%s through a function pointer'%what,fatal=True)
        if not o.alive: s.finding('mem','%s of %s after it was released'%(what,o),fatal=True)
        if type(off) is Undef or type(o) is Undef: s.finding('uninit','address depends on an uninitialised value',fatal=True)
        s.finding('mem','out-of-bounds %s at offset %s of %s'%(what,off,o),fatal=True)
    def symoff(s,p,size,what):
        """bounds obligation for a symbolic offset; returns the candidate offsets"""
        o,off=p
        if o is None or not o.alive: s.bad_access(p,size,what)
        ok=N.band(N.cmp('<=',0,off),N.cmp('<=',off,o.size-size))
        if not(s.inrange(off,0,o.size-size)):
            s.require(ok,'mem','out-of-bounds %s of %s'%(what,o.name))
            s.assume(ok)
        lo,hi=s.irange(off)
        if lo is None or lo<0: lo=0
        if hi is None or hi>o.size-size: hi=o.size-size
        al=s.offalign(off)
        c=[k for k in range(0,o.size-size+1,size) if k>=lo and k<=hi]
        return c
    def offalign(s,e): return 8
    def ld(s,p,kind,size):
        if s.race is not None: s.race('r',p,size)
        if type(p) is Undef: s.finding('uninit','load through an uninitialised pointer',fatal=True)
        o,off=p
        if type(o) is not Obj or not o.alive: s.bad_access(p,size,'read')
        if type(off) is E:
            if s.race is not None and kind in 'fg':
                s.symoff(p,size,'read'); s.fresh+=1; return s.newvar('omp_v','R')
            if s.opts.get('havoc_sym_loads'):
                s.fresh+=1; return s.newvar('havoc','R' if kind in'fg' else 'I')
            cs=s.symoff(p,size,'read'); r=None
            for k in cs:
                v=s.ld((o,k),kind,size)
                if r is None: r=v
                else: r=N.ite(N.cmp('==',off,k),v,r)
            return r
        if off<0 or off+size>o.size: s.bad_access(p,size,'read')
        v=o.cells.get(off)
        if v is None:
            if o.zero: 
                return 0.0 if kind=='f' else Fraction(0) if kind=='g' else NULL if kind=='p' else 0
            # a narrower read of a wider integer cell
            if kind not in('f','g','p'):
                for d in range(1,8):
                    w=o.cells.get(off-d)
                    if type(w) is int: return wrap(w>>(8*d),8*size)
            return Undef('%s+%s never written'%(o,off))
        t=type(v)
        if isinstance(v,Undef): return v if t is Undef else Undef(v.why)
        if kind=='f':
            if t is float or t is E or t is Undef: return v
            if t is int and v==0: return 0.0
            if t is Fraction: return float(v)   # (a constant left over from a cancelled monomial)
        elif kind=='g':
            if t is Fraction or t is E or t is Undef: return v
            if t is float and v-v==0 or t is int: return Fraction(v)
        elif kind=='p':
            if t is tuple or t is Undef: return v
            if t is int and v==0: return NULL
        else:
            if t is int:
                return wrap(v,8*size)
            if t is bool: return int(v)
            if t is E:
                if v.sort=='B': return N.mk('b2i','I',v)
                if v.sort=='I': return v
            if t is Undef: return v
        raise EngineError('type pun: reading %s as %s at %s+%s'%(v,kind,o,off))
    def st(s,p,v,size):
        if s.race is not None: s.race('w',p,size)
        if type(p) is Undef: s.finding('uninit','store through an uninitialised pointer',fatal=True)
        o,off=p
        if type(o) is not Obj or not o.alive: s.bad_access(p,size,'write')
        if o.const: s.finding('mem','write to constant %s'%o,fatal=True)
        if type(off) is E:
            if s.opts.get('havoc_sym_loads'): return
            if s.race is not None: s.symoff(p,size,'write'); return   # (undone after the race pass)
            for k in s.symoff(p,size,'write'):
                old=o.cells.get(k)
                if old is None: old=Undef('maybe unwritten')
                if type(old) is Undef:
                    # keep precision: cell written only if off==k
                    o.cells[k]=SymCell(N.cmp('==',off,k),v) if False else N.ite(N.cmp('==',off,k),v,s.newvar('uninit','R'))
                else: o.cells[k]=N.ite(N.cmp('==',off,k),v,old)
            return
        if off<0 or off+size>o.size: s.bad_access(p,size,'write')
        o.cells[off]=v
        if size>8 or size<8:
            pass
    def memcpy(s,d,p,n):
        if type(n) is not int: raise EngineError('symbolic memcpy')
        if n==0: return
        so,soff=p; do,doff=d
        if so is None or not so.alive or soff<0 or soff+n>so.size: s.bad_access(p,n,'read (memcpy)')
        if do is None or not do.alive or doff<0 or doff+n>do.size: s.bad_access(d,n,'write (memcpy)')
        if s.race is not None: s.race('r',p,n); s.race('w',d,n)
        src={k-soff:v for k,v in so.cells.items() if soff<=k<soff+n}
        for k in [k for k in do.cells if doff<=k<doff+n]: del do.cells[k]
        for k,v in src.items(): do.cells[doff+k]=v
        if so.zero:
            if n%8==0 and soff%8==0:
                for k in range(0,n,8):
                    if k not in src and not any(j in src for j in range(k,k+8)): do.cells[doff+k]=0
            else: raise EngineError('memcpy of zero region')
    def memset(s,d,v,n):
        if type(n) is not int: raise EngineError('symbolic memset')
        if n==0: return
        do,doff=d
        if do is None or not do.alive or doff<0 or doff+n>do.size: s.bad_access(d,n,'write (memset)')
        for k in [k for k in do.cells if doff<=k<doff+n]: del do.cells[k]
        if v==0:
            if doff==0 and n==do.size: do.zero=True; return
            k=doff
            while k<doff+n:
                do.cells[k]=0; k+=8 if (k%8==0 and k+8<=doff+n) else 4 if (k%4==0 and k+4<=doff+n) else 1
        else:
            for k in range(doff,doff+n): do.cells[k]=wrap(v,8)
    def align(s,p,n):
        if type(p) is not tuple: return
        o,off=p
        if o is None or type(o) is not Obj or type(off) is not int: return
        if o.kind in('global','extern'): return
        if o.al%n or off%n: 
            s.finding('ub','a pointer to %s memory is assumed to be aligned on %d bytes'%({'malloc':'heap','new[]':'heap','new':'heap'}.get(o.kind,o.kind),n))
    # ------------------------------------------------ ints
    def iop(s,op,a,b,w,nsw,nuw=False):
        ta=type(a); tb=type(b)
        if ta is Undef: return a
        if tb is Undef: return b
        if ta is bool: a=int(a)
        if tb is bool: b=int(b)
        if ta is tuple or tb is tuple:
            if op=='-' and ta is tuple and tb is tuple and a[0] is b[0]: return a[1]-b[1] if True else 0
            raise EngineError('pointer arithmetic as integers')
        if type(a) is int and type(b) is int:
            if op=='+': r=a+b
            elif op=='-': r=a-b
            elif op=='*': r=a*b
            elif op=='sdiv':
                if b==0: s.finding('ub','integer division by zero',fatal=True)
                r=abs(a)//abs(b); r=r if (a<0)==(b<0) else -r
            elif op=='srem':
                if b==0: s.finding('ub','integer division by zero',fatal=True)
                r=abs(a)%abs(b); r=-r if a<0 else r
            elif op in('udiv','urem'):
                M=(1<<w)-1; x=a&M; y=b&M
                if y==0: s.finding('ub','integer division by zero',fatal=True)
                r=x//y if op=='udiv' else x%y
            elif op=='and': r=a&b
            elif op=='or': r=a|b
            elif op=='xor': r=a^b
            elif op=='shl': r=a<<b
            elif op=='lshr': r=(a&((1<<w)-1))>>b
            elif op=='ashr': r=a>>b
            else: raise EngineError('iop '+op)
            q=wrap(r,w)
            if nsw and q!=r and op in('+','-','*'):
                s.finding('ub','signed integer overflow'); 
            return q
        if op in('sdiv','srem'):
            if type(b) is E:
                nz=N.bnot(N.cmp('==',b,0)); s.require(nz,'ub','integer division by zero'); s.assume(nz)
            elif b==0: s.finding('ub','integer division by zero',fatal=True)
            return N.mk('idiv' if op=='sdiv' else 'irem','I',a,b)
        if op=='+': r=N.add(a,b)
        elif op=='-': r=N.sub(a,b)
        elif op=='*': r=N.mul(a,b)
        elif op=='and' and b==1 and type(a) is E and a.op=='b2i': return a
        elif op=='shl' and type(b) is int: r=N.mul(a,1<<b)
        elif op in('or','and','xor') and w==1: raise EngineError('i1 logic')
        else:
            if op in('or','and') and type(a) is E and type(b) is E and a.op=='b2i' and b.op=='b2i':
                return N.mk('b2i','I',(N.bor if op=='or' else N.band)(a.args[0],b.args[0]))
            raise EngineError('symbolic int op '+op)
        if type(r) is int: return r
        lo,hi=-(1<<(w-1)),(1<<(w-1))-1
        if not s.inrange(r,lo,hi):
            ok=N.band(N.cmp('<=',lo,r),N.cmp('<=',r,hi))
            s.require(ok,'ub','signed integer overflow'); s.assume(ok)
        return r
    def blogic(s,op,a,b):
        if op=='and': return N.band(a,b)
        if op=='or': return N.bor(a,b)
        if op=='xor':
            if a is True: return N.bnot(b)
            if b is True: return N.bnot(a)
            if a is False: return b
            if b is False: return a
            if type(a) is Undef: return a
            if type(b) is Undef: return b
            return N.bor(N.band(a,N.bnot(b)),N.band(N.bnot(a),b))
        raise EngineError('blogic '+op)
    def icmp(s,pred,a,b,w):
        ta=type(a); tb=type(b)
        if ta is Undef: return a
        if tb is Undef: return b
        if ta is tuple or tb is tuple:
            if ta is int and a==0: a=NULL
            if tb is int and b==0: b=NULL
            same=a[0] is b[0]
            if same:
                x,y=a[1],b[1]
                if pred=='eq': return N.cmp('==',x,y)
                if pred=='ne': return N.cmp('!=',x,y)
                return N.cmp({'ult':'<','ule':'<=','ugt':'>','uge':'>='}[pred],x,y)
            if pred=='eq': return False
            if pred=='ne': return True
            raise EngineError('ordering of pointers to different objects')
        if ta is bool: a=int(a)
        if tb is bool: b=int(b)
        if ta is E and a.sort=='B': a=N.mk('b2i','I',a)
        if tb is E and b.sort=='B': b=N.mk('b2i','I',b)
        if type(a) is int and type(b) is int:
            if pred[0]=='u': M=(1<<w)-1; a&=M; b&=M
        elif pred[0]=='u':
            for x in(a,b):
                r=s.irange(x)
                if r[0] is None or r[0]<0: raise EngineError('unsigned compare of a possibly negative symbolic value')
        return N.cmp({'eq':'==','ne':'!=','slt':'<','sle':'<=','sgt':'>','sge':'>=','ult':'<','ule':'<=','ugt':'>','uge':'>='}[pred],a,b)
    def fcmp(s,pred,a,b):
        if type(a) is Undef: return a
        if type(b) is Undef: return b
        if pred=='true': return True
        if pred=='false': return False
        if N.isc(a) and N.isc(b):
            nan=(a!=a) or (b!=b)
            if pred=='ord': return not nan
            if pred=='uno': return nan
            if nan: return pred[0]=='u'
        if pred=='ord': return True
        if pred=='uno': return False
        for x,y in((a,b),(b,a)):
            if N.isc(x) and x!=x: return pred[0]=='u'
        if N.isc(a) and type(a) is float and math.isinf(a): a=math.copysign(1e308,a)*1.0
        if N.isc(b) and type(b) is float and math.isinf(b): b=math.copysign(1e308,b)*1.0
        return N.cmp({'eq':'==','ne':'!=','lt':'<','le':'<=','gt':'>','ge':'>='}[pred[1:]],a,b)
    def cast(s,op,v,w1,w2):
        t=type(v)
        if t is Undef: return v
        if op=='trunc':
            if w2==1:
                if t is E:
                    if v.op=='b2i': return v.args[0]
                    return N.cmp('!=',N.mk('irem','I',v,2),0)
                return bool(v&1)
            if t is E:
                lo,hi=-(1<<(w2-1)),(1<<(w2-1))-1
                if s.inrange(v,lo,hi): return v
                if v.op=='ite': pass
                ok=N.band(N.cmp('<=',lo,v),N.cmp('<=',v,hi))
                s.require(ok,'ub','integer truncation loses bits'); s.assume(ok)
                return v
            return wrap(v,w2)
        if op=='zext':
            if w1==1:
                if t is E: return N.mk('b2i','I',v)
                return int(v)
            if t is E:
                if s.irange(v)[0] is not None and s.irange(v)[0]>=0: return v
                if v.op=='b2i': return v
                nn=N.cmp('<=',0,v)
                r,_=s.sol.check_model([N.bnot(nn)])
                if r=='unsat': return v
                raise EngineError('zext of possibly negative')
            return v&((1<<w1)-1)
        if op=='sext':
            if w1==1:
                if t is E: return N.neg(N.mk('b2i','I',v))
                return -int(v)
            return v
        if op=='sitofp':
            if t is E: return N.mk('i2r','R',v)
            return float(v)
        if op=='uitofp':
            if t is E:
                if v.sort=='B': v=N.mk('b2i','I',v)
                return N.mk('i2r','R',v)
            return float(int(v)&((1<<w1)-1))
        if op=='fptosi':
            lo,hi=-(1<<(w2-1)),(1<<(w2-1))-1
            if t is E:
                ok=N.band(N.cmp('<',float(lo-1),v),N.cmp('<',v,float(hi+1)))
                s.require(ok,'ub','floating value does not fit the integer it is converted to'); s.assume(ok)
                r=N.mk('r2i','I',v); return r
            if v!=v or abs(v)==float('inf') or not(lo<=int(v)<=hi):
                s.finding('ub','floating value %r does not fit the integer it is converted to'%v)
                return lo
            return int(v)
        if op=='fptoui': return s.cast('fptosi',v,w1,w2)
        raise EngineError('cast '+op)
    def fptrunc(s,v):
        if type(v) is Fraction: return float(v)
        return v
    def fpext(s,v):
        if type(v) is float: return Fraction(v)
        return v
    def frem(s,a,b):
        if type(a) is float and type(b) is float: return math.fmod(a,b)
        raise EngineError('frem')
    def sel(s,c,a,b):
        if c is True: return a
        if c is False: return b
        if type(c) is Undef: s.finding('uninit','a selection depends on an uninitialised value'); raise Stop('undef')
        if type(c) is E and a is not b:
            q=s.quick(c)
            if q is not None: return a if q else b
        if type(a) is tuple or type(b) is tuple:
            return a if s.branch(c) else b
        if type(a) is Undef or type(b) is Undef:
            return a if s.branch(c) else b
        return N.ite(c,a,b)
