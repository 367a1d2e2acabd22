"""Engine: compiles a harness to LLVM IR, owns the generated Python code and
the models of everything that is not compiled from /repo (allocation, LAPACK,
libm, iostream, exceptions, OpenMP)."""
import os, threading, re, math, subprocess, hashlib, sys
from fractions import Fraction
from . import ir, gen, rt as RTM, node as N, smt
from .rt import RT, Obj, FObj, NULL, EngineError, Stop, Throw
from .node import E, Undef, UNDEF

CLANG='clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
OPT='/usr/lib/llvm-18/bin/opt'
REPO=os.environ.get('VF_REPO','/repo')
INC=['common/include','Radau5-NG/include','Rodas-NG/include','Rock4-NG/include','SDIRKL/include','SymplecticRK/include','SymplecticRK/sage','SDIRKL/test/Lapl']

class Opaque:
    """a C++ library object the encoder does not look into"""
OPQ=Opaque()

def incflags(extra): return ['-I'+os.path.join(REPO,d) for d in extra]

def build_ir(src,defs,incs,work,omp=False):
    tag=hashlib.sha1(repr((src,defs,incs,omp)).encode()).hexdigest()[:12]
    ll=os.path.join(work,tag+'.ll'); l2=os.path.join(work,tag+'.2.ll')
    cmd=[CLANG,'-DVF_SYM','-w','-std=c++17','-O0','-Xclang','-disable-O0-optnone','-DGCC','-ffp-contract=off','-I'+os.path.dirname(os.path.abspath(src))]+incflags(incs)+defs
    if omp: cmd+=['-fopenmp']
    cmd+=['-S','-emit-llvm',src,'-o',ll]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise BuildError('clang: '+r.stderr[-3000:])
    r=subprocess.run([OPT,'-passes=mem2reg','-S',ll,'-o',l2],capture_output=True,text=True)
    if r.returncode: raise BuildError('opt: '+r.stderr[-2000:])
    return l2
def build_native(src,defs,incs,work,san=None,omp=False,opt='-O1'):
    tag=hashlib.sha1(repr((src,defs,incs,san,omp,opt)).encode()).hexdigest()[:12]
    out=os.path.join(work,'n'+tag)
    if os.path.exists(out): return out
    here=os.path.dirname(os.path.abspath(src))
    cxx='g++' if (omp or not san) else CLANG
    cmd=[cxx,'-w','-std=c++17',opt,'-g','-DGCC','-ffp-contract=off','-I'+here]+incflags(incs)+defs
    if san: cmd+=['-fsanitize='+san,'-fno-omit-frame-pointer']
    if omp: cmd+=['-fopenmp']
    tmp=out+'.%d.%d'%(os.getpid(),threading.get_ident())
    cmd+=[src,native_rt(here,work,san),'-o',tmp,'-llapack','-lblas','-lm']
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise BuildError('g++: '+r.stderr[-3000:])
    os.rename(tmp,out)
    return out
def build_race(src,defs,incs,work):
    """native build whose parallel regions run under the deterministic race detector of vf_race.cpp"""
    tag=hashlib.sha1(repr((src,defs,incs,'race')).encode()).hexdigest()[:12]
    out=os.path.join(work,'r'+tag)
    if os.path.exists(out): return out
    here=os.path.dirname(os.path.abspath(src))
    for cmd in ([CLANG,'-w','-std=c++17','-O1','-g','-DGCC','-ffp-contract=off','-I'+here]+incflags(incs)+defs+['-fopenmp','-fsanitize=thread','-c',src,'-o',out+'.o'],
                ['g++','-w','-std=c++17','-O1','-c',os.path.join(here,'vf_race.cpp'),'-o',out+'.rt.o'],
                ['g++',out+'.o',out+'.rt.o',native_rt(here,work,None),'-o',out+'.tmp','-llapack','-lblas','-lm']):
        r=subprocess.run(cmd,capture_output=True,text=True)
        if r.returncode: raise BuildError(r.stderr[-3000:])
    os.rename(out+'.tmp',out)
    return out
def native_rt(here,work,san):
    o=os.path.join(work,'vfn_%s.o'%hashlib.sha1(repr(san).encode()).hexdigest()[:6])
    if not os.path.exists(o):
        t=o+'.%d.%d'%(os.getpid(),threading.get_ident())
        r=subprocess.run(['g++' if not san else CLANG,'-w','-std=c++17','-O1','-g','-c',os.path.join(here,'vf_native.cpp'),'-o',t]+(['-fsanitize='+san] if san else []),capture_output=True,text=True)
        if r.returncode: raise BuildError('g++: '+r.stderr[-2000:])
        os.rename(t,o)
    return o
class BuildError(Exception): pass

# ------------------------------------------------------------------ C strings
def cstr(p):
    o,off=p; out=[]
    while True:
        v=o.cells.get(off)
        if v is None or v==0: break
        out.append(chr(v&255)); off+=1
    return ''.join(out)

def iname(cn):
    """intrinsic base name"""
    return re.sub(r'(\.(p0|i\d+|f64|f80|v\d+\w*))+$','',cn)

EXT={}
def ext(*names):
    def d(f):
        for n in names: EXT[n]=f
        return f
    return d

# ---- harness intrinsics
@ext('vf_double')
def _(rt,nm,lo,hi):
    n=cstr(nm); return rt.newvar(n,'R',lo,hi)
@ext('vf_int')
def _(rt,nm,lo,hi):
    n=cstr(nm)
    return rt.newvar(n,'I',lo,hi)
@ext('vf_assume')
def _(rt,c): rt.assume(c)
@ext('vf_assert')
def _(rt,c,m): rt.require(c,'assert',cstr(m))
@ext('vf_close')
def _(rt,a,b,tol,m): rt.close(a,b,tol,cstr(m))
@ext('vf_obs')
def _(rt,nm,v): rt.obs.append((cstr(nm),v))
@ext('vf_note')
def _(rt,nm,v): pass
@ext('vf_param')
def _(rt,nm): return int(rt.opts['params'][cstr(nm)])
@ext('vf_dparam')
def _(rt,nm): return float(rt.opts['params'][cstr(nm)])
@ext('vf_reach')
def _(rt,nm): rt.reached[cstr(nm)]=rt.reached.get(cstr(nm),0)+1
@ext('vf_decide')
def _(rt,c): return rt.branch(c) if not N.isc(c) else c
@ext('vf_symbolic')
def _(rt): return True
@ext('vf_stop')
def _(rt): raise Stop('done')
@ext('vf_hint_gehrd')
def _(rt,v): rt.hint=v

# ---- memory
@ext('_Znwm','_ZnwmSt11align_val_t')
def _(rt,n,*a): return (rt.newobj('new',n,'new'),0)
@ext('_Znam','_ZnamSt11align_val_t')
def _(rt,n,*a): 
    if type(n) is int and n<0: n&=(1<<64)-1
    return (rt.newobj('new[]',n,'new[]'),0)
def _free(rt,p,kind,nm):
    if type(p) is Undef: rt.finding('uninit','release of an uninitialised pointer',fatal=True)
    if type(p) is not tuple: raise EngineError('free')
    o,off=p
    if o is None: return
    if type(o) is not Obj: rt.finding('mem','%s of a function'%nm,fatal=True)
    if not o.alive: rt.finding('mem','double release (%s)'%nm,fatal=True)
    if off!=0 or o.kind not in('new','new[]','malloc'): rt.finding('mem','%s of a pointer that is not an allocation'%nm,fatal=True)
    if o.kind!=kind: rt.finding('mem','mismatched release: %s of memory from %s'%(nm,o.kind),fatal=True)
    o.alive=False
@ext('_ZdlPv','_ZdlPvm','_ZdlPvSt11align_val_t')
def _(rt,p,*a): _free(rt,p,'new','delete')
@ext('_ZdaPv','_ZdaPvm','_ZdaPvSt11align_val_t')
def _(rt,p,*a): _free(rt,p,'new[]','delete[]')
@ext('free')
def _(rt,p): _free(rt,p,'malloc','free')
@ext('malloc')
def _(rt,n): return (rt.newobj('malloc',n,'malloc'),0)
@ext('calloc')
def _(rt,a,b):
    o=rt.newobj('calloc',a*b,'malloc'); o.zero=True; return (o,0)
@ext('posix_memalign')
def _(rt,pp,al,n):
    o=rt.newobj('memalign',n,'malloc'); o.al=al
    rt.st(pp,(o,0),8); return 0
@ext('aligned_alloc')
def _(rt,al,n): return (rt.newobj('memalign',n,'malloc'),0)
@ext('llvm.memcpy','memcpy','llvm.memmove','memmove')
def _(rt,d,s,n,*a): rt.memcpy(d,s,n); return d
@ext('llvm.memset','memset')
def _(rt,d,v,n,*a): rt.memset(d,v,n); return d
@ext('llvm.umul.with.overflow')
def _(rt,a,b):
    if type(a) is not int or type(b) is not int: raise EngineError('symbolic allocation size')
    r=(a&(2**64-1))*(b&(2**64-1)); return (RTM.wrap(r,64), r>=2**64)
@ext('llvm.stacksave')
def _(rt): return NULL
@ext('llvm.stackrestore')
def _(rt,p): pass
@ext('llvm.trap','llvm.ubsantrap')
def _(rt,*a): rt.finding('ub','trap',fatal=True)
@ext('llvm.ptr.annotation','llvm.launder.invariant.group')
def _(rt,p,*a): return p
@ext('llvm.is.constant')
def _(rt,*a): return False
@ext('llvm.expect')
def _(rt,v,*a): return v
@ext('abort')
def _(rt): rt.finding('ub','abort() called',fatal=True)
@ext('exit','_exit')
def _(rt,*a): raise Stop('exit')
@ext('strlen')
def _(rt,p): return len(cstr(p))
# ---- math
def sym(x): return type(x) is E
@ext('sqrt','llvm.sqrt','sqrtl')
def _(rt,x):
    if type(x) is Undef: return x
    if sym(x):
        if x.op=='*' and x.args[0] is x.args[1] and not N.FP[0]: return N.fn('abs',x.args[0])
        r=None if N.FP[0] else sqrt_mono(rt,x)
        if r is not None: return r
        if not rt.opts.get('sqrt_any'):
            if N.nonneg(x):
                if rt.mine(): rt.results.append(('trivial','nan','square root of a negative value'))
            else: rt.require(N.bnot(N.cmp('<',x,0.0)),'nan','square root of a negative value')
        return N.fn('sqrt',x)
    if type(x) is Fraction: return Fraction(_isqrt(x))
    return math.sqrt(x) if x>=0 else float('nan')
def sqrt_mono(rt,x):
    """square root of a (Laurent) monomial with even exponents and a positive coefficient"""
    if N.MONO[0]:
        m=N.mono(x)
        if m and m[0]>0 and all(e%2==0 for k,e in m[1]):
            c=Fraction(m[0]); a,b=math.isqrt(c.numerator),math.isqrt(c.denominator)
            c=Fraction(a,b) if a*a==c.numerator and b*b==c.denominator else Fraction(math.sqrt(float(c)))
            l={}
            for k,e in m[1]:
                v=N._byid[k]
                if (e//2)%2 and v.op not in('sqrt','abs'):
                    q=rt.quick(N.cmp('<=',0.0,v))
                    if q is None: v=N.fn('abs',v)
                    elif q is False: return None
                N.mono(v); l[v.id]=l.get(v.id,0)+e//2
            return N.from_mono(c,tuple(sorted(l.items())))
    P=rt.__dict__.get('_sqP')
    if P is None: P=rt._sqP=smt.PolyCtx(maxterms=64)
    try: num,den=P.of(x)
    except (smt.PolyTooBig,smt.PolyZeroDiv,RecursionError,OverflowError,ValueError): return None
    if len(num)!=1: return None
    (m,c),=num.items(); ex=dict(m)
    for k,(p,e) in den.items():
        if len(p)!=1: return None
        (m2,c2),=p.items(); c=c/c2**e
        for v,q in m2: ex[v]=ex.get(v,0)-q*e
    if c<=0 or any(e%2 for e in ex.values()): return None
    r=Fraction(c); n,d=r.numerator,r.denominator
    a,b=math.isqrt(n),math.isqrt(d)
    out=N.num_of(Fraction(a,b)) if a*a==n and b*b==d else math.sqrt(float(r))
    dn=1.0
    if N.MONO[0]:
        l={}
        for v,e in ex.items():
            a=P.atoms[v]
            if (e//2)%2 and not(a.op in('sqrt','abs') or (a.op=='var' and (rt.bounds.get(v,(None,None))[0] is not None and rt.bounds[v][0]>=0))): a=N.fn('abs',a)
            N.mono(a); 
            if e: l[a.id]=l.get(a.id,0)+e//2
        return N.from_mono(Fraction(out),tuple(sorted(l.items())))
    for v,e in ex.items():
        e//=2
        if e==0: continue
        a=P.atoms[v]
        if e%2 and not(a.op in('sqrt','abs') or (a.op=='var' and (rt.bounds.get(v,(None,None))[0] is not None and rt.bounds[v][0]>=0))): a=N.fn('abs',a)
        for _ in range(abs(e)):
            if e>0: out=N.mul(out,a)
            else: dn=N.mul(dn,a)
    return N.div(out,dn)
def _isqrt(x):
    s=1<<160
    return Fraction(math.isqrt(int(x*s*s)),s)
@ext('fabs','llvm.fabs','fabsl')
def _(rt,x):
    if type(x) is Undef: return x
    if sym(x):
        if x.op=='abs' or x.op=='sqrt': return x
        return N.fn('abs',x)
    return abs(x)
@ext('pow','llvm.pow','powl')
def _(rt,x,y):
    if type(x) is Undef: return x
    if type(y) is Undef: return y
    if sym(x) or sym(y): 
        if N.isc(y):
            if y==0: return 1.0
            if y==1: return x
            if y==int(y) and 2<=y<=9:
                r=x
                for _ in range(int(y)-1): r=r*x
                return r
            if y==0.5: return N.fn('sqrt',x)
        return N.fn('pow',x,y)
    try:
        if type(x) is Fraction: x=float(x)
        return math.pow(x,y)
    except (ValueError,OverflowError): 
        if x==0 and y<0: return float('inf')
        if x<0: return float('nan')
        return float('inf')
def _m(nm):
    def f(rt,x):
        if type(x) is Undef: return x
        if sym(x): return N.fn(nm,x)
        try: return getattr(math,nm)(x)
        except (ValueError,OverflowError): return float('nan') if nm!='exp' else float('inf')
    EXT[nm]=f; EXT['llvm.'+nm]=f
for _n in('cos','sin','exp','log','tan','atan','log10'): _m(_n)
@ext('llvm.fmuladd','llvm.fma','fma')
def _(rt,a,b,c):
    if N.isc(a) and N.isc(b) and N.isc(c): return a*b+c
    return a*b+c
@ext('llvm.floor','floor')
def _(rt,x):
    if sym(x): raise EngineError('floor')
    return float(math.floor(x))
@ext('llvm.ceil','ceil')
def _(rt,x):
    if sym(x): raise EngineError('ceil')
    return float(math.ceil(x))
@ext('llvm.round','round','lround')
def _(rt,x):
    if sym(x): raise EngineError('round')
    return float(math.floor(abs(x)+.5))*(1 if x>=0 else -1)
@ext('fmax','llvm.maxnum')
def _(rt,a,b): return rt.sel(rt.fcmp('olt',a,b),b,a)
@ext('fmin','llvm.minnum')
def _(rt,a,b): return rt.sel(rt.fcmp('olt',b,a),b,a)
@ext('abs','labs','llvm.abs')
def _(rt,a,*r): return rt.sel(rt.icmp('slt',a,0,32),0-a,a) if not sym(a) else N.ite(N.cmp('<',a,0),N.neg(a),a)
for _nm,_p in(('smax','sgt'),('smin','slt')):
    def _f(rt,a,b,_p=_p): return rt.sel(rt.icmp(_p,a,b,64),a,b)
    EXT['llvm.'+_nm]=_f
def _ov(op):
    def f(rt,a,b):
        if type(a) is int and type(b) is int:
            r=a+b if op=='+' else a-b if op=='-' else a*b
            return (r,False)
        raise EngineError('overflow intrinsic')
    return f
@ext('isnan','llvm.isnan','__isnan')
def _(rt,x): return 1 if (not sym(x) and x!=x) else 0
@ext('llvm.is.fpclass')
def _(rt,x,m):
    if sym(x): 
        if m==3 or m&~(0x1f8)&0x3ff==m and not(m&0x1f8): return False
        raise EngineError('fpclass')
    f=float(x)
    r=0
    if f!=f: r=3
    elif math.isinf(f): r=0x200 if f>0 else 4
    elif f==0: r=0x40|0x20
    else: r=0x100|0x80 if f>0 else 8|0x10
    return bool(m&r)
@ext('llvm.copysign','copysign')
def _(rt,a,b):
    if sym(a) or sym(b):
        x=EXT['fabs'](rt,a)
        return N.ite(N.cmp('<',b,0.0),N.neg(x),x)
    return math.copysign(a,b)

# ---- exceptions
@ext('__cxa_allocate_exception')
def _(rt,n):
    o=rt.newobj('exception',max(n,1),'exc'); return (o,0)
@ext('__cxa_free_exception')
def _(rt,p): pass
@ext('__cxa_throw')
def _(rt,p,ti,d): raise Throw(p,rt.tiname(ti))
@ext('__cxa_begin_catch')
def _(rt,p):
    rt.caught.append(rt.exc); return p
@ext('__cxa_end_catch')
def _(rt):
    if rt.caught: rt.caught.pop()
@ext('__cxa_rethrow')
def _(rt):
    e=rt.caught[-1]; raise Throw(e.obj,e.ti)
@ext('__cxa_get_exception_ptr')
def _(rt,p): return p
@ext('llvm.eh.typeid.for')
def _(rt,ti): return rt.typeid(rt.tiname(ti))
@ext('_ZSt9terminatev','__clang_call_terminate')
def _(rt,*a): rt.finding('ub','std::terminate (exception leaves a noexcept function)',fatal=True)
@ext('__cxa_pure_virtual')
def _(rt): rt.finding('ub','pure virtual call',fatal=True)
@ext('__cxa_atexit')
def _(rt,*a): return 0
@ext('__cxa_guard_acquire')
def _(rt,p): return 1 if rt.ld(p,'i8',1)==0 else 0
@ext('__cxa_guard_release')
def _(rt,p): rt.st(p,1,1)
@ext('__cxa_guard_abort')
def _(rt,p): pass
@ext('__cxa_throw_bad_array_new_length')
def _(rt): rt.finding('mem','array size too large',fatal=True)
@ext('__assert_fail','__assert')
def _(rt,*a): rt.finding('assert','assertion of the library failed: '+cstr(a[0]),fatal=True)
@ext('gettimeofday','clock_gettime')
def _(rt,*a): return 0
# ---- OpenMP (the threads of a region run one after the other; with race obligations the
# region is first executed symbolically, see race.py)
@ext('__kmpc_global_thread_num')
def _(rt,*a): return rt.tid
@ext('omp_get_thread_num')
def _(rt,*a):
    if rt.racer and rt.racer.on: return rt.racer.threadnum(rt)
    return rt.tid
@ext('omp_get_num_threads')
def _(rt,*a): return rt.nthr if rt.par else 1
@ext('omp_get_max_threads','omp_get_num_procs')
def _(rt,*a): return rt.nthr
@ext('vf_threads','omp_set_num_threads')
def _(rt,n): rt.nthr=n
@ext('__kmpc_push_num_threads')
def _(rt,*a): rt.pushthr=a[2] if type(a[2]) is int else None
@ext('__kmpc_fork_call')
def _(rt,loc,argc,fn,*args):
    def call(k):
        t=Obj('gtid',4,'stack'); t.cells[0]=k; b=Obj('btid',4,'stack'); b.cells[0]=k
        rt.eng.call_ptr(rt,fn,(t,0),(b,0),*args)
    if rt.par:                                   # nested: serialised
        sv=rt.tid,rt.nthr; rt.tid=0; rt.nthr=1
        try: call(0)
        finally: rt.tid,rt.nthr=sv
        return
    rt.par=1; nt=rt.nthr
    if rt.pushthr: rt.nthr=rt.pushthr; rt.pushthr=None
    try:
        if rt.racer:
            rt.racer.enter(rt)
            try: call(0); rt.racer.barrier(rt)
            finally: rt.racer.leave(rt)
        n=rt.nthr; order=range(n) if not rt.opts.get('revthreads') else range(n-1,-1,-1)
        for k in order:
            rt.tid=k; rt.disp=None; call(k)
    finally: rt.par=0; rt.tid=0; rt.nthr=nt
@ext('__kmpc_for_static_init_4','__kmpc_for_static_init_8','__kmpc_for_static_init_4u','__kmpc_for_static_init_8u')
def _(rt,loc,gtid,sched,plast,plo,phi,pst,incr,chunk):
    if rt.racer and rt.racer.on: return rt.racer.loop(rt,plo,phi,pst)
    n=rt.nthr if rt.par else 1
    if n==1: rt.st(plast,1,4); return
    lo=rt.ld(plo,'i32',4); hi=rt.ld(phi,'i32',4)
    if type(lo) is not int or type(hi) is not int: raise EngineError('symbolic loop bounds in a parallel loop')
    if sched==33: # static, chunked
        c=chunk; a=lo+rt.tid*c; rt.st(plo,a,4); rt.st(phi,a+c-1,4); rt.st(pst,c*n,4); rt.st(plast,0,4); return
    m=hi-lo+1; q,r=divmod(m,n) if m>0 else (0,0); k=rt.tid
    a=lo+k*q+min(k,r); b=a+q+(1 if k<r else 0)-1
    rt.st(plo,a,4); rt.st(phi,b,4); rt.st(plast,int(m>0 and b==hi and b>=a),4)
@ext('__kmpc_for_static_fini')
def _(rt,*a):
    if rt.racer and rt.racer.on: rt.racer.endloop(rt)
@ext('__kmpc_dispatch_init_4','__kmpc_dispatch_init_4u','__kmpc_dispatch_init_8','__kmpc_dispatch_init_8u')
def _(rt,loc,gtid,sched,lo,hi,st,chunk):
    if type(lo) is not int or type(hi) is not int: raise EngineError('symbolic loop bounds in a parallel loop')
    n=rt.nthr if rt.par and not(rt.racer and rt.racer.on) else 1
    m=hi-lo+1; q,r=divmod(m,n) if m>0 else (0,0); k=rt.tid if n>1 else 0
    a=lo+k*q+min(k,r); rt.disp=(a,a+q+(1 if k<r else 0)-1,hi)
@ext('__kmpc_dispatch_next_4','__kmpc_dispatch_next_4u','__kmpc_dispatch_next_8','__kmpc_dispatch_next_8u')
def _(rt,loc,gtid,plast,plo,phi,pst):
    rc=rt.racer and rt.racer.on
    d=rt.disp; rt.disp=None
    if d is None or d[1]<d[0]:
        if rc: rt.racer.endloop(rt)
        return 0
    sv=rt.race; rt.race=None
    rt.st(plo,d[0],4); rt.st(phi,d[1],4); rt.st(pst,1,4); rt.st(plast,int(d[1]==d[2]),4)
    rt.race=sv
    if rc: rt.racer.loop(rt,plo,phi,None,static=False)
    return 1
@ext('__kmpc_dispatch_fini_4','__kmpc_dispatch_fini_4u','__kmpc_dispatch_fini_8','__kmpc_dispatch_fini_8u')
def _(rt,*a): return None
@ext('__kmpc_reduce_nowait','__kmpc_reduce')
def _(rt,*a):
    if rt.racer and rt.racer.on: rt.racer.endloop(rt); rt.racer.locked=1
    return 1
@ext('__kmpc_critical','__kmpc_ordered')
def _(rt,*a):
    if rt.racer and rt.racer.on: rt.racer.locked=1
@ext('__kmpc_end_critical','__kmpc_end_ordered','__kmpc_end_reduce_nowait','__kmpc_end_reduce')
def _(rt,*a):
    if rt.racer and rt.racer.on: rt.racer.locked=0
@ext('__kmpc_barrier')
def _(rt,*a):
    if rt.racer and rt.racer.on: return rt.racer.barrier(rt)
    if rt.par and rt.nthr>1: raise EngineError('barrier inside a parallel region executed thread by thread')
@ext('__kmpc_serialized_parallel','__kmpc_end_serialized_parallel','__kmpc_flush')
def _(rt,*a):
    return None
@ext('__kmpc_single','__kmpc_master','__kmpc_masked')
def _(rt,*a):
    if rt.racer and rt.racer.on: rt.racer.single=1; return 1
    return int(rt.tid==0)
@ext('__kmpc_end_single','__kmpc_end_master','__kmpc_end_masked')
def _(rt,*a):
    if rt.racer and rt.racer.on: rt.racer.single=0

# a harness that defines vf_real_strings has the defined string functions encoded
REALSTR=re.compile(r'^(_ZNSt7__cxx1112basic_string|_ZNKSt7__cxx1112basic_string|_ZNSt7__cxx114list|_ZNKSt7__cxx114list|_ZNSt7__cxx1110_List|_ZNKSt7__cxx1110_List|_ZNSaI|_ZStpl)')
NOOP=re.compile(r'^(_ZStls|_ZNSo|_ZNSolsE|_ZSt4endl|_ZSt5flush|_ZNSt8ios_base|_ZNSt7__cxx11|_ZNKSt7__cxx11|_ZNSi|_ZNSt14basic_|_ZNSt13basic_|_ZNSt9basic_|_ZStrs|_ZNKSt9basic|_ZNKSt14basic|_ZNKSt13basic|_ZSt16__ostream|_ZNSaI|_ZStpl|_ZNSt15basic|puts|printf|fprintf|putchar|fflush|fputs|fwrite)')
def noop(rt,*a):
    return a[0] if a else None
def strnoop(rt,*a):
    return a[0] if a else None

class Engine:
    def __init__(s,ll):
        s.mod=ir.parse(ll); s.gen=gen.Gen(s.mod); s.fn={}; s.ll=ll
        from . import lapack
        lapack.install(EXT)
        s.env=dict(FN={},EXT=EXT,getf=s.getf,call_ptr=s.call_ptr,intrin=iname,NULL=NULL,UNDEF=UNDEF,Obj=Obj,Throw=Throw,Stop=Stop,
                   ld=gen.ld,st=gen.st,iop=gen.iop,icmp=gen.icmp,gep=gen.gep,gepf=gen.gep,insv=gen.insv,fdiv=gen.fdiv,E=E,N=N)
        s.ctors=s.findctors()
        s.realstr='vf_real_strings' in s.mod.globals
        s.bases={}
    def findctors(s):
        out=[]
        for n in s.mod.funcs:
            if n.startswith('_GLOBAL__sub_I'): out.append(n)
        return out
    def newsolver(s,rt): return smt.Sol(rt,rt.opts.get('timeout',3000))
    def getf(s,name):
        f=s.fn.get(name)
        if f is None:
            name0=name
            name=s.mod.aliases.get(name,name)
            if name in EXT: f=EXT[name]
            elif NOOP.match(name) and not (s.realstr and name in s.mod.funcs and REALSTR.match(name)): f=noop
            elif name in s.mod.funcs: f=gen.compile_fn(s.gen,s.mod.funcs[name],s.env)
            else:
                def f(rt,*a,_n=name): raise EngineError('call of unmodelled external function '+_n)
            s.fn[name0]=f
        return f
    def call_ptr(s,rt,p,*a):
        if type(p) is Undef: rt.finding('uninit','call through an uninitialised pointer',fatal=True)
        if type(p) is not tuple or type(p[0]) is not FObj: raise EngineError('indirect call of %r'%(p,))
        return s.getf(p[0].name)(rt,*a)
    # ---- globals
    def mkglob(s,rt,name):
        m=s.mod
        if name in m.funcs or name in m.decls or name in m.aliases:
            if name in m.globals: pass
            else: return FObj(name)
        if name not in m.globals: raise EngineError('unknown global '+name)
        t,init,const=m.globals[name]
        size=m.size(t)
        o=Obj(name,size,'global')
        if init is None:
            o.size=max(size,1<<16); o.zero=True; o.kind='extern'; return o
        rt.globs[name]=o
        s.fill(rt,o,0,t,init)
        o.const=const and not name.startswith('_ZTI')
        return o
    def fill(s,rt,o,off,t,v):
        m=s.mod; r=m.res(t)
        k=v[0]
        if k=='zero':
            if off==0 and m.size(t)==o.size: o.zero=True; return
            s.zerofill(o,off,r); return
        if k=='undef': return
        if k=='bytes':
            for i,b in enumerate(v[1]): o.cells[off+i]=b if b<128 else b-256
            return
        if k=='agg':
            if r.k=='struct':
                for i,(et,ev) in enumerate(v[1]):
                    fo,_=m.field(r,i); s.fill(rt,o,off+fo,et,ev)
            else:
                sz=m.size(r.el)
                for i,(et,ev) in enumerate(v[1]): s.fill(rt,o,off+i*sz,et,ev)
            return
        if k=='c': o.cells[off]=v[1]; return
        if k=='null': o.cells[off]=NULL; return
        if k=='glob':
            o.cells[off]=(rt.glob(v[1]),0); return
        if k=='gepc':
            o.cells[off]=s.constptr(rt,v); return
        raise EngineError('global initialiser '+k)
    def constptr(s,rt,v):
        if v[0]=='glob': return (rt.glob(v[1]),0)
        if v[0]=='gepc':
            base=s.constptr(rt,v[2][0][1]); off=eval(s.gen.gepoff(v[1],[(a,b) for a,b in v[2][1:]],None))
            return (base[0],base[1]+off)
        if v[0]=='null': return NULL
        raise EngineError('constant pointer')
    def zerofill(s,o,off,r):
        m=s.mod
        if r.k=='struct':
            for i,e in enumerate(r.els):
                fo,_=m.field(r,i); s.zerofill(o,off+fo,m.res(e))
        elif r.k=='arr':
            sz=m.size(r.el)
            for i in range(r.n): s.zerofill(o,off+i*sz,m.res(r.el))
        elif r.k=='double': o.cells[off]=0.0
        elif r.k=='x86_fp80': o.cells[off]=Fraction(0)
        elif r.k=='ptr': o.cells[off]=NULL
        else: o.cells[off]=0
    def base_of(s,ti):
        """typeinfo name -> list of base typeinfo names"""
        g=s.mod.globals.get(ti)
        if not g or not g[1] or g[1][0]!='agg': return []
        out=[]
        for et,ev in g[1][1][2:]:
            if ev[0]=='glob' and ev[1].startswith('_ZTI'): out.append(ev[1])
        return out
    def derives(s,ti,cl):
        if ti==cl: return True
        return any(s.derives(b,cl) for b in s.base_of(ti))

class XRT(RT):
    def __init__(s,eng,prefix,opts):
        RT.__init__(s,eng,prefix,opts)
        s.reached={}; s.closes=[]; s.hint=None; s.caught=[]; s.par=0; s.tid=0; s.nthr=1; s.pushthr=None; s.disp=None; s.racer=None; s.results=[]; s.tids={}
        if opts.get('race'):
            from .race import Racer
            s.racer=Racer()
    def tiname(s,p):
        o,off=p
        return o.name if o is not None else None
    def typeid(s,n):
        if n not in s.tids: s.tids[n]=len(s.tids)+2
        return s.tids[n]
    def landing(s,clauses,cleanup):
        e=s.exc
        for c in clauses:
            if c is None: return (e.obj,1)
            if s.eng.derives(e.ti,c): return (e.obj,s.typeid(c))
        if cleanup: return (e.obj,0)
        raise Throw(e.obj,e.ti)
    def unreachable(s): raise Stop('unreachable')
    def atomic(s,kind,p,v,k,sz):
        old=s.ld(p,k,sz)
        if kind=='add': s.st(p,s.iop('+',old,v,8*sz,False),sz)
        elif kind=='fadd': s.st(p,old+v,sz)
        elif kind=='xchg': s.st(p,v,sz)
        else: raise EngineError('atomicrmw '+kind)
        return old
    def tb(s,c):
        if c is True or c is False: return c
        return s.branch(c)
    # ---------------------------------------- obligations
    def mine(s): return len(s.dec)>=len(s.prefix)
    def where(s): return [f for f in s.stack[-3:]]
    def require(s,c,kind,msg,data=None):
        if type(c) is Undef:
            s.finding('uninit','%s: depends on an uninitialised value'%msg); return
        if c is True:
            if s.mine(): s.results.append(('trivial',kind,msg))
            return
        if c is False:
            s.finding(kind,msg); return
        if not s.mine(): return
        bad=N.bnot(c)
        if kind=='nan' and s.quick(c) is True: s.results.append(('trivial',kind,msg)); return
        r,m=s.sol.check_model([bad])
        if r=='unknown': r,m=s.pinned([bad],s.opts.get('hard_timeout',8000))
        if r=='unsat': s.results.append(('proved',kind,msg))
        elif r=='sat': s.cand(kind,msg,m)
        else: s.results.append(('unknown',kind,msg))
    def cand(s,kind,msg,model):
        s.results.append(('cand',kind,msg,dict(model),s.where()))
    def finding(s,kind,msg,cond=None,fatal=False,data=None):
        """fails on the whole current path: needs a model of the path"""
        if s.mine():
            m=s.need_model()
            if m is not None: s.cand(kind,msg,m)
            else: s.results.append(('unknown',kind,msg))
        if fatal: raise Stop('finding',msg)
    def pinned(s,extra,timeout):
        """second attempt: ask for a counterexample with all but one real input fixed to the
        values of a model of the path.  Only a 'sat' answer is used."""
        m=s.need_model()
        if m is None: return 'unknown',None
        rv=[(u,so) for u,so,lo,hi in s.kvars if so=='R']
        if len(rv)>12: rv=rv[:12]
        for free in [None]+[u for u,_ in rv]:
            cs=[]
            for u,so,lo,hi in s.kvars:
                if u==free: continue
                v=N.var(u,so)
                if so=='B': continue
                cs.append(N.cmp('==',v,m.get(u,0)))
            r,mm=s.sol.check_model(cs+extra,timeout=max(500,timeout//10),nl=False)
            if r=='sat': return r,mm
        return 'unknown',None
    def close(s,a,b,tol,msg):
        for x in(a,b):
            if type(x) is Undef: s.finding('uninit','%s: depends on an uninitialised value (%s)'%(msg,x.why)); return
        if N.isc(a) and N.isc(b):
            if not(abs(float(a)-float(b))<=tol): s.finding('close','%s: %r vs %r (tol %g)'%(msg,float(a),float(b),tol))
            elif s.mine(): s.results.append(('trivial','close',msg))
            return
        if s.opts.get('fp'): return     # (approximate equalities are decided by the real-number jobs)
        if s.mine(): s.closes.append((a,b,tol,msg,len(s.pc),s.where()))
    def decide_closes(s):
        """end of path: every pending |a-b|<=tol obligation"""
        if not s.closes: return
        smt.RB[0]=500 if s.opts.get('trunc') or s.opts.get('roundpoly') else 10**9
        P=smt.PolyCtx(trunc=s.opts.get('trunc'),maxterms=s.opts.get('maxterms',60000))
        for a,b,tol,msg,npc,wh in s.closes:
            s.decide_close(P,a,b,tol,msg)
    def vbound(s,v):
        lo,hi=s.bounds.get(v,(None,None))
        if lo is None or hi is None: return None
        return max(abs(Fraction(lo)),abs(Fraction(hi)))
    def decide_close(s,P,a,b,tol,msg):
        d=N.sub(a,b)
        num=None
        if not s.opts.get('fp'):
          try:
            num,den=P.of(d)
          except (smt.PolyTooBig,smt.PolyZeroDiv,RecursionError) as ex:
            num=None
        if num is not None:
            if num and not s.opts.get('trunc'):
                try: num=s.reduce_eq(P,num)
                except (smt.PolyTooBig,smt.PolyZeroDiv,RecursionError): pass
            if not num: s.results.append(('proved','close',msg)); return
            known=all(s.vbound(v) is not None for m in num for v,e in m)
            if known:
                T=Fraction(tol); ok=True
                for k,(p,e) in den.items():
                    lb=s.denlow(P,p)
                    if lb is None: ok=False; break
                    T*=lb**e
                if ok:
                    r=smt.poly_bound_query(num,s.vbound,T)
                    if r=='unsat': s.results.append(('proved','close',msg)); return
        if num and not den and s.opts.get('univ'):
            vs={v for m in num for v,e in m}
            if len(vs)==1:
                (v,)=vs; lo,hi=s.bounds.get(v,(None,None))
                if lo is not None and hi is not None:
                    r,x,nq=smt.univ_bound({(m[0][1] if m else 0):c for m,c in num.items()},lo,hi,tol)
                    if r=='unsat': s.results.append(('proved','close',msg)); return
                    if r=='sat': s.cand('close',msg,{v:x}); return
        if s.opts.get('trunc'):
            # truncated series: a coefficient is genuinely wrong; find inputs
            r,m=s.coef_witness(P,num,den,tol) if num is not None else ('unknown',None)
            if r=='sat': s.cand('close',msg,m)
            else: s.results.append(('unknown','close',msg))
            return
        bad=N.bor(N.cmp('<',tol,d),N.cmp('<',d,-tol))
        r,m=s.sol.check_model([bad],timeout=s.opts.get('hard_timeout',8000))
        if r=='unknown': r,m=s.pinned([bad],s.opts.get('hard_timeout',8000))
        if r=='unsat': s.results.append(('proved','close',msg))
        elif r=='sat': s.cand('close',msg,m)
        else: s.results.append(('unknown','close',msg))
    def reduce_eq(s,P,num):
        """uses the equalities of the path condition (linear in some variable with a constant
        coefficient) to eliminate variables from the numerator"""
        eqs=[c for c in s.pc if type(c) is E and c.op=='==' and N.srt(c.args[0])=='R' or type(c) is E and c.op=='==' and type(c.args[1]) is E and c.args[1].sort=='R']
        subs=s.__dict__.setdefault('_eqs',None)
        if subs is None:
            subs=[]
            for c in eqs:
                n,_=P.of(N.sub(c.args[0],c.args[1]))
                for v,q in subs: n=P.subst(n,v,q)
                for m in n:
                    if len(m)==1 and m[0][1]==1:
                        v=m[0][0]
                        if any(x==v for mm in n if mm!=m for x,e in mm): continue
                        q={mm:-cc/n[m] for mm,cc in n.items() if mm!=m}
                        subs.append((v,q)); break
            s._eqs=subs
        for v,q in subs: num=P.subst(num,v,q)
        if num:
            for c in eqs:
                n,_=P.of(N.sub(c.args[0],c.args[1]))
                for v,q in subs: n=P.subst(n,v,q)
                if n and P.divides(n,num): return {}
        return num
    def coef_witness(s,P,num,den,tol):
        """the polynomial num (already truncated) exceeds tol somewhere in the box: ask nlsat"""
        if den: return 'unknown',None
        import z3
        z=z3.Solver(); z.set('timeout',10000); vs={}
        tot=[]
        for m,c in num.items():
            t=z3.RealVal(c)
            for v,e in m:
                if v not in vs:
                    vs[v]=z3.Real(v); lo,hi=s.bounds.get(v,(None,None))
                    if lo is not None: z.add(vs[v]>=z3.RealVal(Fraction(lo)))
                    if hi is not None: z.add(vs[v]<=z3.RealVal(Fraction(hi)))
                for _ in range(e): t=t*vs[v]
            tot.append(t)
        t=z3.Sum(tot); T=z3.RealVal(Fraction(tol)*2)
        import time
        t0=time.time()
        best=('unknown',None)
        # first with the bulk of the variables pinned at their upper bound
        for pin in (True,False):
            z.push()
            if pin:
                for v in list(vs)[1:]:
                    hi=s.bounds.get(v,(None,1))[1]; z.add(vs[v]==z3.RealVal(Fraction(hi)))
            z.add(z3.Or(t>T,t<-T))
            r=str(z.check()); smt.STAT['queries']+=1; smt.STAT[r]+=1
            if r=='sat':
                mm=z.model(); m={n:0 for n,so,_ in s.sol.decl}
                for n,so,tt in s.sol.decl:
                    lo,hi=s.bounds.get(n,(0,0)); m[n]=float(hi) if (so=='R' and hi is not None) else (lo or 0)
                for v in vs:
                    x=mm.eval(vs[v],model_completion=True)
                    try: m[v]=float(smt.zval(mm,vs[v],'R'))
                    except Exception: pass
                best=('sat',m); z.pop(); break
            z.pop()
        smt.STAT['time']+=time.time()-t0
        return best
    def denlow(s,P,p):
        """a proved lower bound of |p| on this path (p: polynomial)"""
        key=('den',)+tuple(sorted((m,c) for m,c in p.items()))
        c=s.__dict__.setdefault('_den',{})
        if key in c: return c[key]
        # polynomial -> node
        tot=0.0
        for m,cf in p.items():
            t=float(cf)
            for v,e in m:
                x=P.atoms[v]
                for _ in range(e): t=N.mul(t,x)
            tot=N.add(tot,t)
        res=None
        if N.isc(tot): res=Fraction(abs(tot))
        else:
            for lb in (1e-1,1e-3,1e-6,1e-9):
                r,_=s.sol.check_model([N.band(N.cmp('<',tot,lb),N.cmp('<',-lb,tot))],timeout=2000)
                if r=='unsat': res=Fraction(lb); break
        c[key]=res
        return res
    # ---------------------------------------- run
    def run(s,entry):
        e=s.eng
        status='done'
        try:
            try:
                for c in e.ctors: e.getf(c)(s)
                e.getf('h_'+entry)(s)
                if s.opts.get('leaks',False):
                    for o in s.heap:
                        if o.alive and o.kind in('new','new[]','malloc'):
                            s.finding('leak','memory from %s is never released'%o.kind); break
            except Throw as t:
                status='throw'
                s.finding('throw','uncaught exception %s'%t.ti)
        except Stop as st:
            status=st.kind if st.kind!='done' else 'done'; s.stopinfo=st.info
        if status in('done','throw','finding','budget','exit'):
            try: s.decide_closes()
            except Stop as st: status=st.kind
        s.status=status
        return status
