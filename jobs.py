"""The jobs of every property."""
from vf.run import Job
PROPS={}
TECH={}
NOTES={}
def prop(pid):
    def d(f): PROPS[pid]=f; return f
    return d
ALIGN='-DALIGN_BLOCKED'
def jobs_for(pid,tier):
    r=PROPS[pid](tier=='thorough')
    jl,ass=r[0],r[1]
    budget=(r[2] if len(r)>2 else 150) if tier=='quick' else (r[3] if len(r)>3 else 3000)
    return jl,ass,budget

GENR='symbolic expressions of at least 30 nodes compared with a constant of at most 1e-12 are taken to lie above it (guards against division by zero)'
REAL='doubles that depend on a symbolic input are read as real numbers (no rounding); concrete doubles are exact IEEE'

@prop('C05')
def c05(th):
    jl=[]
    for n in ((1,2,3,5) if th else (1,3)):
        for al in (False,True):
            for op in range(28):
                jl.append(Job('op%d-n%d%s'%(op,n,'-aligned' if al else ''),'vec.cpp','all',['-DNN=%d'%n]+([ALIGN] if al else []),params=dict(op=op),opts=dict(leaks=True),expect_reach=['end'],
                          bounds='n=%d, components in [-10,10], scalars in [-3,3], all 8 combinations of storage exchanges'%n))
    return jl,[REAL]

@prop('C01')
def c01(th):
    jl=[]
    shapes=[]
    for n in (1,2,3,4,5,6) if th else (1,2,3,4):
        for kl in range(0,n):
            for ku in range(0,n): shapes.append((n,kl,ku))
    if th: shapes+=[(3,4,1),(3,1,5),(2,3,0),(9,2,3),(9,0,4),(12,5,1)]
    else: shapes+=[(5,2,1),(5,1,3),(6,3,0),(3,4,1),(2,0,3)]
    ns=sorted(set(s[0] for s in shapes))
    for al in (False,True) if th else (False,):
        a=[ALIGN] if al else []; sx='-aligned' if al else ''
        for n in ns:
            for e in ('full_addr','cfull_addr','full_vals','cfull_vals','full_copy'):
                jl.append(Job('%s-n%d%s'%(e,n,sx),'storage.cpp',e,['-DNN=%d'%n,'-DKL=0','-DKU=0']+a,opts=dict(leaks=True),expect_reach=['end'],bounds='n=%d, every index pair, element values in [-5,5]'%n))
        for n,kl,ku in shapes:
            for e in ('band_addr','cband_addr','band_vals','cband_vals'):
                jl.append(Job('%s-n%d-%d-%d%s'%(e,n,kl,ku,sx),'storage.cpp',e,['-DNN=%d'%n,'-DKL=%d'%kl,'-DKU=%d'%ku]+a,opts=dict(leaks=True),expect_reach=['end'],bounds='n=%d, kl=%d, ku=%d, every index pair of the band'%(n,kl,ku)))
    return jl,[REAL,'sizes and bandwidths are template parameters: the listed instantiations are decided']

@prop('C02')
def c02(th):
    jl=[]
    for n in (1,2,3,4) if th else (1,2,3):
        jl.append(Job('real-n%d'%n,'hess.cpp','real',['-DNN=%d'%n],opts=dict(leaks=True,timeout=500),expect_reach=['end','solved','singular'],maxpaths=4000,bounds='every Hessenberg matrix of size %d with entries in [-4,4], every right-hand side'%n))
    for n in (1,2,3):
        jl.append(Job('real-singular-n%d'%n,'hess.cpp','real_singular',['-DNN=%d'%n],opts=dict(timeout=6000),expect_reach=['end'],bounds='integer entries in [-2,2]'))
    H=['-DHESS']
    for n in (1,2):
        jl.append(Job('layer-real-n%d'%n,'hess.cpp','layer_real',H+['-DNN=%d'%n],params=dict(mode=0,seed=0,rep=2 if n<2 else 1),opts=dict(leaks=True),expect_reach=['end'],bounds='every full matrix of size %d, entries in [-4,4], shift in [0.25,20]'%n))
    for mask in ((0,0x002,0x010,0x100,0x020,0x112) if th else (0,0x010)):
        jl.append(Job('layer-real-n3-m%x'%mask,'hess.cpp','layer_real',H+['-DNN=3'],params=dict(mode=3,seed=1,rep=1,mask=mask),opts=dict(leaks=True,timeout=200,hard_timeout=800,maxterms=100000),expect_reach=['end'],maxpaths=2000 if th else 30,bounds='matrices of size 3: first column given by its reflector (slope in [-2,2], size in [-4,4]), entries of mask %x symbolic in [-4,4], the others fixed; shift in [0.25,20]'%mask))
    for n in (3,4,5,6) if th else (3,4,5):
        for seed in range(6 if th else 2):
            jl.append(Job('layer-real-n%d-seed%d'%(n,seed),'hess.cpp','layer_real',H+['-DNN=%d'%n],params=dict(mode=1,seed=seed,rep=2),opts=dict(leaks=True),expect_reach=['end'],bounds='one concrete matrix of size %d, every right-hand side'%n))
            jl.append(Job('layer-real-n%d-seed%d-aligned'%(n,seed),'hess.cpp','layer_real',H+['-DNN=%d'%n,ALIGN],params=dict(mode=1,seed=seed,rep=2),opts=dict(leaks=True),expect_reach=['end'],bounds='one concrete matrix of size %d, every right-hand side, aligned storage'%n))
    for n in (1,2):
        jl.append(Job('layer-singular-n%d'%n,'hess.cpp','layer_singular',H+['-DNN=%d'%n],params=dict(cx=0),opts=dict(timeout=6000),expect_reach=['end'],bounds='integer entries in [-1,1]'))
    return jl,[REAL,LAP]
LAP='LAPACK routines are replaced by their contract (exact solution of the system factorised, INFO on singular input); dgehrd by the reflector formula of its documentation'

@prop('C03')
def c03(th):
    jl=[]
    import random
    # the fully complex system covers every zero pattern through its branches; the pinned
    # patterns at n=2 (thorough) go through them with fewer unknowns
    for n,pats in ((1,(0,1,2)),(2,(0,2|1<<2|2<<4|1<<6)+((1|2<<2|1<<4|2<<6,3|0<<2|0<<4|0<<6) if th else ()))):
        for p in pats:
            jl.append(Job('cplx-n%d-p%d'%(n,p),'hess.cpp','cplx',['-DNN=%d'%n],params=dict(pattern=p),opts=dict(leaks=True,timeout=300 if th else 60,hard_timeout=2000,shuffle=not th),expect_reach=["end"],maxpaths=20000 if th else 500,bounds='every complex Hessenberg matrix of size %d with the zero pattern %d, components in [-4,4]'%(n,p)))
    # n=3: 8 entries (1,1),(1,2),(1,3),(2,1),(2,2),(2,3),(3,2),(3,3); keep few complex entries
    rnd=random.Random(7)
    base=[]
    for k in range(60 if th else 6):
        c=[rnd.choice([1,1,1,2,3,0] if k%2 else [1,2,3,1]) for _ in range(8)]
        base.append(sum(x<<(2*i) for i,x in enumerate(c)))
    for p in base:
        jl.append(Job('cplx-n3-p%d'%p,'hess.cpp','cplx',['-DNN=3'],params=dict(pattern=p),opts=dict(leaks=True,maxterms=100000,timeout=300,hard_timeout=2000,shuffle=not th),expect_reach=[],minpaths=0,maxpaths=100 if not th else 1000,bounds='complex Hessenberg matrices of size 3 with the zero pattern %d, components in [-4,4]'%p))
    for n in (1,2):
        for p in (0,1,2) if n==1 else (0,1,2|2<<2|2<<4|2<<6,1|2<<2|1<<4|2<<6,2|1<<2|1<<4|2<<6):
            jl.append(Job('cplx-singular-n%d-p%d'%(n,p),'hess.cpp','cplx_singular',['-DNN=%d'%n],params=dict(pattern=p),opts=dict(timeout=6000 if th else 400),maxpaths=5000 if th else 200,expect_reach=['end'],bounds='integer real and imaginary parts in [-2,2]'))
    H=['-DHESS']
    for n in (1,2):
        jl.append(Job('layer-cplx-n%d'%n,'hess.cpp','layer_cplx',H+['-DNN=%d'%n],params=dict(mode=0,seed=0,rep=1),opts=dict(leaks=True),maxpaths=200,expect_reach=['end'],bounds='every full matrix of size %d, entries in [-4,4], shifts in [0.25,20]'%n))
        jl.append(Job('layer-cplx-singular-n%d'%n,'hess.cpp','layer_singular',H+['-DNN=%d'%n],params=dict(cx=1),opts=dict(timeout=6000),expect_reach=['end'],bounds='integer entries in [-1,1]'))
    for n in (3,4,5) if th else (3,4):
        for seed in range(6 if th else 2):
            jl.append(Job('layer-cplx-n%d-seed%d'%(n,seed),'hess.cpp','layer_cplx',H+['-DNN=%d'%n],params=dict(mode=1,seed=seed,rep=2),opts=dict(leaks=True),expect_reach=['end'],bounds='one concrete matrix of size %d, every right-hand side'%n))
    return jl,[REAL,LAP]

@prop('C04')
def c04(th):
    jl=[]
    for n in (1,2,3):
        for e in ('layer_real','layer_cplx'):
            if n==3 and e=='layer_cplx' and not th: continue
            jl.append(Job('full-%s-n%d'%(e,n),'hess.cpp',e,['-DNN=%d'%n],params=dict(mode=0,seed=0,rep=2 if n<3 else 1),opts=dict(leaks=True),expect_reach=['end'],bounds='every full matrix of size %d'%n))
    for n in (3,4,5):
        for e in ('layer_real','layer_cplx'):
            jl.append(Job('full-%s-n%d-conc'%(e,n),'hess.cpp',e,['-DNN=%d'%n],params=dict(mode=1,seed=3,rep=2),opts=dict(leaks=True),expect_reach=['end'],bounds='one concrete matrix of size %d, every right-hand side'%n))
    shapes=[(2,1,0),(2,0,1),(3,1,1),(3,0,0),(3,2,1),(3,1,2),(3,1,0),(3,0,2)]
    for n,kl,ku in shapes:
        for e in ('layer_real','layer_cplx'):
            if e=='layer_cplx' and n==3 and kl+ku>2 and not th: continue
            jl.append(Job('band-%s-n%d-%d-%d'%(e,n,kl,ku),'hess.cpp',e,['-DBAND','-DNN=%d'%n,'-DKL=%d'%kl,'-DKU=%d'%ku],params=dict(mode=0,seed=0,rep=1),opts=dict(leaks=True),expect_reach=['end'],bounds='every banded matrix n=%d kl=%d ku=%d'%(n,kl,ku)))
    for n,kl,ku in [(5,1,1),(5,2,1),(6,1,3),(4,3,1),(4,0,2),(7,2,0)]+([(9,3,2),(12,1,4)] if th else []):
        for e in ('layer_real','layer_cplx'):
            for seed in range(3 if th else 1):
                jl.append(Job('band-%s-n%d-%d-%d-conc%d'%(e,n,kl,ku,seed),'hess.cpp',e,['-DBAND','-DNN=%d'%n,'-DKL=%d'%kl,'-DKU=%d'%ku],params=dict(mode=1,seed=seed,rep=2),opts=dict(leaks=True),expect_reach=['end'],bounds='one concrete banded matrix n=%d kl=%d ku=%d, every right-hand side'%(n,kl,ku)))
    for n,kl,ku in [(3,1,1),(5,2,1)]:
        for e in ('layer_real','layer_cplx'):
            jl.append(Job('band-%s-n%d-%d-%d-aligned'%(e,n,kl,ku),'hess.cpp',e,['-DBAND','-DNN=%d'%n,'-DKL=%d'%kl,'-DKU=%d'%ku,ALIGN],params=dict(mode=1,seed=1,rep=2),opts=dict(leaks=True),expect_reach=['end'],bounds='one concrete banded matrix, aligned storage'))
    for cx in (0,1):
        for n in (1,2):
            jl.append(Job('full-singular-n%d-cx%d'%(n,cx),'hess.cpp','layer_singular',['-DNN=%d'%n],params=dict(cx=cx),opts=dict(timeout=6000,singular='fork'),expect_reach=['end'],bounds='integer entries in [-1,1]'))
        jl.append(Job('band-singular-n2-cx%d'%cx,'hess.cpp','layer_singular',['-DBAND','-DNN=2','-DKL=0','-DKU=1'],params=dict(cx=cx),opts=dict(timeout=6000,singular='fork'),expect_reach=['end'],bounds='integer entries in [-1,1]'))
    for n in (2,3,4):
        for e in ('layer_real','layer_cplx'):
            jl.append(Job('hess-%s-n%d-conc'%(e,n),'hess.cpp',e,['-DHESS','-DNN=%d'%n],params=dict(mode=1,seed=5,rep=2),opts=dict(leaks=True),expect_reach=['end'],bounds='one concrete matrix of size %d, every right-hand side (Hessenberg mode; C02 and C03 go deeper)'%n))
    return jl,[REAL,LAP]

RADI=('common/include','Radau5-NG/include')
RODI=('common/include','Rodas-NG/include')
def rod(name,entry,defs,params=None,**k):
    o=dict(leaks=True); o.update(k.pop('opts',{}))
    return Job(name,'rodas.cpp',entry,defs,RODI,params=params,opts=o,**k)

@prop('C07')
def c07(th):
    jl=[]
    D=dict(trunc=('eps#0',4),timeout=3000,maxterms=400000,merge=True)
    # which coefficients are symbolic: bits 1..13 c_i, 16..19 components of the start, 20 start time
    for m in (1,2,3):
        for grp,nm,bd in ((0xFE,'all',0),(0xF0000|0b1010<<1,'y',0),(0xF0000|0b10<<1,'band',1))+(((0xF00FE,'all-y',0),(0xF00FE,'all-y-band',1)) if th else ()):
            jl.append(rod('order-m%d-%s'%(m,nm),'order',['-DNN=4','-DMETH=%d'%m]+(['-DKL=2','-DKU=0'] if bd else []),dict(grp=grp),opts=D,expect_reach=['end'],bounds='autonomous triangular system with all order-4 elementary differentials; coefficients in [-2,2], start in [-1,1]; group %x symbolic'%grp))
        for dft in (0,1):
            for grp,nm in ((0b11111<<8|2,'a'),((dft<<20)|0b110000<<8,'b'))+((((0x3FFE,'all'),((dft<<20)|0x3F02,'x0'))) if th else ()):
                jl.append(rod('order-m%d-nonaut-dft%d-%s'%(m,dft,nm),'order',['-DNN=4','-DMETH=%d'%m,'-DAUT=0','-DDFT=%d'%dft],dict(grp=grp),opts=D,expect_reach=['end'],bounds='time dependent triangular system; group %x symbolic'%grp))
        pass
        for lo,hi,st in ((-20,0,0),(-1e4,-20,0),(-1e9,-1e3,1)):
            jl.append(rod('damping-m%d-%g'%(m,lo),'damping',['-DNN=1','-DMETH=%d'%m],dict(lo=lo,hi=hi,stiff=st),opts=dict(timeout=20000,merge=True),expect_reach=['end'],bounds='z in [%g,%g]'%(lo,hi)))
    return jl,[REAL,LAP]

@prop('C06')
def c06(th):
    jl=[]
    shapes=[(1,0,0),(2,1,1),(3,2,2),(3,1,1),(3,0,1),(3,1,0),(3,0,0),(4,1,2),(4,2,1)]+([(5,1,1),(5,4,4),(6,2,1),(6,1,3)] if th else [])
    for inc,src,nm in ((RODI,'rodas.cpp','rodas'),(RADI,'radau.cpp','radau')):
        for n,kl,ku in shapes:
            d=['-DNN=%d'%n,'-DKL=%d'%kl,'-DKU=%d'%ku,'-DNUMJ=1']
            for i,(lo,hi) in enumerate(((-2,2),(1e3,1e6),(-1e-7,1e-7),(-1e5,-10))):
                if i and n>3 and not th: continue
                jl.append(Job('%s-%d-%d-%d-vals%d'%(nm,n,kl,ku,i),src,'numjac',d,inc,params=dict(mode=0,lo=lo,hi=hi),opts=dict(merge=True,leaks=True),expect_reach=['end'],bounds='every affine right-hand side of size %d with entries of the band (%d,%d) in [-3/16,3/16], constants in [-3,3]; states in [%g,%g]'%(n,kl,ku,lo,hi)))
                jl.append(Job('%s-%d-%d-%d-calls%d'%(nm,n,kl,ku,i),src,'numjac',d,inc,params=dict(mode=1,lo=lo,hi=hi),opts=dict(leaks=True),expect_reach=['end'],bounds='concrete state: the arguments of the right-hand side'))
                if i==2 and n<=2: jl.append(Job('%s-%d-%d-%d-fp'%(nm,n,kl,ku),src,'numjac',d,inc,params=dict(mode=3,lo=1e-7,hi=2e-7),opts=dict(fp=1,merge=True,leaks=True,timeout=20000),expect_reach=['end'],bounds='states in [1e-7,2e-7], bit-precise double arithmetic'))
                if n<=3: jl.append(Job('%s-%d-%d-%d-sym%d'%(nm,n,kl,ku,i),src,'numjac',d,inc,params=dict(mode=2,lo=lo,hi=hi),opts=dict(merge=True,leaks=True),expect_reach=['end'],bounds='concrete affine map, states in [%g,%g]'%(lo,hi)))
    return jl,[REAL,LAP]

def ctlp(**k):
    d=dict(scalar=1,gus=1,safe=75,att=2,neg=0,x0=0,xe=1,symx=0,symh=0,h0=0.3,negh=0,one=0,again=0,nmax=0,thr=0,att2=2,glo=0.15); d.update(k); return d
def ctl(name,n=1,meth=1,defs=(),bounds='',timeout=800,mp=20000,exp=('end2',),**kw):
    p=ctlp(**kw); o=dict(mono=True,max_dec=2000,timeout=timeout)
    b='every error history of at most %d attempts (err=(safe/g)^4, g in [%g,7]), %s, %s, safe=%s, predictive controller %s%s; %s'%(p['att'],p['glo'],'start in [-10,10], length in [0.05,20], %s in time'%('forward' if p['xe']>p['x0'] else 'backward') if p['symx'] else 'from %g to %g'%(p['x0'],p['xe']),'initial step in [0.05,3]' if p['symh'] else 'initial step %g'%p['h0'],p['safe']/100. if p['safe'] else 'default','on' if p['gus'] else 'off',', one-step mode' if p['one'] else '',bounds)
    return rod(name,'ctl',['-DNN=%d'%n,'-DMETH=%d'%meth]+list(defs),p,opts=dict(o,shuffle=mp<20000),maxpaths=mp,expect_reach=list(exp),bounds=b)
@prop('C09')
def c09(th):
    jl=[]; a=4 if th else 3
    jl+=[j for j in c10(th)[0] if j.name.startswith('rodas-tol') and (th or '-n3' not in j.name)]
    for gus in (0,1):
        jl.append(ctl('err-gus%d-n1'%gus,gus=gus,att=a))
        jl.append(ctl('err-gus%d-n2-vec'%gus,n=2,gus=gus,scalar=0,neg=1,att=a-1))
        jl.append(ctl('err-gus%d-long'%gus,gus=gus,att=3,xe=2000,exp=('accepted','rejected','bound')+(('predictive',) if gus else ()),mp=20000 if th else 120))
        jl.append(ctl('err-gus%d-back'%gus,gus=gus,x0=1,xe=-1,att=a-1))
        jl.append(ctl('err-gus%d-safe50'%gus,gus=gus,safe=50,att=2,h0=0.6))
        jl.append(ctl('err-gus%d-safe0'%gus,gus=gus,safe=0,att=2))
        jl.append(ctl('err-gus%d-symh'%gus,gus=gus,symh=1,att=2))
        for m in (2,3): jl.append(ctl('err-gus%d-m%d'%(gus,m),gus=gus,meth=m,att=2))
        jl.append(ctl('one-gus%d'%gus,gus=gus,one=1,att=a,xe=10))
    jl.append(ctl('nonaut',defs=['-DAUT=0','-DDFT=1'],att=2))
    jl.append(ctl('hess',n=2,defs=['-DHES=true'],att=2))
    jl.append(ctl('band',n=2,defs=['-DKL=0','-DKU=1'],att=2))
    return jl,[REAL,LAP],60
@prop('C08')
def c08(th):
    jl=[]
    for x0,xe,nm in ((0,1,'fwd'),(1,0,'bwd'),(-3,-5,'bwdneg'),(5,6.5,'fwdpos')):
        for h0 in (0.5,7.):
            jl.append(ctl('%s-h%g'%(nm,h0),x0=x0,xe=xe,h0=h0,att=3 if th else 2))
            jl.append(ctl('%s-h%g-one'%(nm,h0),x0=x0,xe=xe,h0=h0,att=3,one=1))
        jl.append(ctl('%s-symh'%nm,x0=x0,xe=xe,symh=1,att=2))
        jl.append(ctl('%s-negh'%nm,x0=x0,xe=xe,negh=1,att=2))
    for x0,xe,nm in ((0,1,'fwd'),(1,0,'bwd')):
        for h0 in (0.3,3.):
            jl.append(ctl('%s-symx-h%g'%(nm,h0),x0=x0,xe=xe,symx=1,h0=h0,att=1+th))
        jl.append(ctl('%s-symx-symh'%nm,x0=x0,xe=xe,symx=1,symh=1,att=1))
        jl.append(ctl('%s-symx-one'%nm,x0=x0,xe=xe,symx=1,one=1,att=1+th))
    return jl,[REAL,LAP],60


def rad(name,entry,defs,params=None,**k):
    o=dict(leaks=True); o.update(k.pop('opts',{}))
    return Job(name,'radau.cpp',entry,defs,RADI,params=params,opts=o,**k)
def rctlp(**k):
    d=dict(scalar=1,gus=1,safe=75,att=2,neg=0,x0=0,xe=1,symx=0,symh=0,h0=0.3,negh=0,one=0,one2=0,again=0,att2=2,rho=0,thr=0,fac=0,nfc=0,nmax=0,glo=0.15); d.update(k); return d
def rctl(name,n=1,defs=(),bounds='',timeout=800,mp=20000,exp=('end2',),**kw):
    p=rctlp(**kw); o=dict(shuffle=mp<20000,mono=2,max_dec=2000,timeout=timeout,soft=30,generic=1)
    b='every error history of at most %d attempts (err=(safe/g)^4, g in [%g,9], second estimate %s), %s, %s, safe=%s, predictive controller %s%s; %s'%(p['att'],p['glo'],('equal','1/256 of it','16 times it','equal, 1/256 or 16 times it')[p['rho']],'start in [-10,10], length in [0.05,20], %s in time'%('forward' if p['xe']>p['x0'] else 'backward') if p['symx'] else 'from %g to %g'%(p['x0'],p['xe']),'initial step in [0.05,3]' if p['symh'] else 'initial step %g'%p['h0'],p['safe']/100. if p['safe'] else 'default','on' if p['gus'] else 'off',', one-step mode' if p['one'] else '',bounds)
    return rad(name,'ctl',['-DNN=%d'%n]+list(defs),p,opts=o,maxpaths=mp,expect_reach=list(exp),bounds=b)

@prop('C10')
def c10(th):
    jl=[]
    for n in (1,2,3):
        for scalar in (0,1):
            for k in range(n):
                for st in (0,1):
                    jl.append(rod('rodas-tol-n%d-k%d-scalar%d-set%d'%(n,k,scalar,st),'tol',['-DNN=%d'%n],dict(scalar=scalar,k=k,set=st),opts=dict(mono=True,merge=True,timeout=2000),expect_reach=['accepted','rejected'],bounds='atol in [1e-3,1], rtol in [0,1], state in [-2,2], increment in [-3,3], every component, n=%d'%n))
                    jl.append(rad('radau-tol-n%d-k%d-scalar%d-set%d'%(n,k,scalar,st),'tol',['-DNN=%d'%n],dict(scalar=scalar,k=k,set=st),opts=dict(mono=2,merge=True,timeout=2000),expect_reach=['accepted','rejected'],bounds='atol in [1e-2,1], fixed rtol, state in [-2,2], increment in [-30,30], every component, n=%d'%n))
    for kw in (dict(safe=50),dict(safe=0),dict(gus=0),dict(safe=62,gus=0)):
        jl.append(ctl('rodas-ctl-'+'-'.join('%s%s'%x for x in kw.items()),att=2,**kw))
    for kw in (dict(safe=50),dict(safe=0),dict(gus=0),dict(safe=62,gus=0),dict(fac=1),dict(fac=1,gus=0)):
        jl.append(rctl('radau-ctl-'+'-'.join('%s%s'%x for x in kw.items()),att=2,mp=20000 if th else 60,**kw))
    return jl,[REAL,LAP],60
@prop('C11')
def c11(th):
    jl=[]
    for fn,nm2 in ((rod,'rodas'),(rad,'radau')):
        mo=1 if fn is rod else 2
        for kind,nm in ((0,'huge'),(1,'nan'),(3,'inf'),(4,'alternating'),(5,'growing'),(2,'any')):
            if kind==5 and fn is rod: continue
            for nmax in (1,3,10) if kind!=2 else (1,2)+((3,) if th else ()) if fn is rod or th else (1,):
                for x0,xe,h0 in ((0,1,0.1),(1,-1,0.5)):
                    jl.append(fn('%s-%s-nmax%d-%g'%(nm2,nm,nmax,x0),'term',['-DNN=1'],dict(kind=kind,nmax=nmax,x0=x0,xe=xe,h0=h0,nit=0),opts=dict(mono=mo,max_steps=3000000,timeout=300,merge=True,shuffle=True,leaks=False,sqrt_any=kind==2),maxpaths=2000 if kind!=2 or th else 40 if fn is rod else 6,expect_reach=['end'],bounds='right-hand side values: %s; at most %d steps allowed'%(nm,nmax)))
            if kind!=2:
                for x0,xe,tiny in ((1,-1,90),(0,1,1500)):
                    if kind>=4 and x0==0 or fn is rod and (kind in (1,3) or x0==0): continue # (tiny steps are legitimately accepted there)
                    jl.append(fn('%s-%s-tiny-%g'%(nm2,nm,x0),'term',['-DNN=1'],dict(kind=kind,nmax=100000000,x0=x0,xe=xe,h0=0.5,nit=0,tiny=tiny),opts=dict(mono=mo,max_steps=20000000,timeout=300,leaks=False),expect_reach=['end'],bounds='right-hand side values: %s; the step size becomes negligible'%nm))
        if fn is rad:
            for nit in (1,2,3,5):
                jl.append(rad('radau-alt-nit%d'%nit,'term',['-DNN=1'],dict(kind=4,nmax=5,x0=0,xe=1,h0=0.2,nit=nit),opts=dict(mono=2,max_steps=3000000,leaks=False),expect_reach=['end'],bounds='iteration limit %d'%nit))
        for nmax in (1,2)+((3,) if th else ()):
            for gus in (0,1):
                f=ctl if fn is rod else rctl
                jl.append(f('%s-hist-nmax%d-gus%d'%(nm2,nmax,gus),gus=gus,nmax=nmax,att=nmax+3,xe=50,mp=20000 if th else 40 if fn is rod or nmax==1 else 6,exp=('gaveup',),bounds='at most %d steps allowed'%nmax))
    return jl,[REAL,LAP,GENR],60
@prop('C12')
def c12(th):
    jl=[]
    O=dict(timeout=5000,merge=True)
    for mode,nm in ((1,'a'),(3,'ay'),(7,'ayb')):
        for lo,hi in ((-2,2),(-1e3,-2),(-1e6,-1e3)):
            jl.append(rad('lin-n1-%s-%g'%(nm,lo),'lin',['-DNN=1'],dict(mode=mode,seed=1,symh=0,h=0.5,lo=lo,hi=hi),opts=O,expect_reach=['end'],bounds='y\'=a y+b, a in [%g,%g], step 0.5'%(lo,hi)))
    if th: jl.append(rad('lin-n1-symh','lin',['-DNN=1'],dict(mode=3,seed=1,symh=1,h=0.5,lo=-3,hi=3),opts=O,expect_reach=['end'],bounds='y\'=a y, a in [-3,3], step in [0.05,2]'))
    for n,kl,ku in ((2,1,1),(3,2,2),(3,1,1),(4,2,1),(3,0,1),(5,1,2))+(((4,3,3),(6,2,2),(7,3,1)) if th else ()):
        for hs in ((),('-DHES=true',)):
            if hs and (kl<n-1 or ku<n-1): continue
            for seed in (1,2):
                jl.append(rad('lin-n%d-%d-%d-seed%d%s'%(n,kl,ku,seed,'-hess' if hs else ''),'lin',['-DNN=%d'%n,'-DKL=%d'%kl,'-DKU=%d'%ku]+list(hs),dict(mode=6,seed=seed,symh=0,h=0.25,lo=-1,hi=1.),opts=O,expect_reach=['end'],bounds='one concrete matrix, every start and forcing'))
    jl.append(rad('lin-n2-tri','lin',['-DNN=2','-DKL=0','-DKU=1'],dict(mode=7,seed=1,symh=0,h=0.25,lo=-2,hi=2.),opts=O,expect_reach=['end'],bounds='every upper triangular matrix of size 2, entries in [-2,2]'))
    for lo,hi,st in ((-20,0,0),(-1e4,-20,0),(-1e9,-1e3,1)):
        jl.append(rad('damping-%g'%lo,'damping',['-DNN=1'],dict(lo=lo,hi=hi,stiff=st),opts=dict(timeout=20000,merge=True),expect_reach=['end'],bounds='z in [%g,%g]'%(lo,hi)))
    for n in (1,2):
        for back in (0,1):
            B=dict(back=back,x0=0.25,h=0.75,symh=0,symx=0,slam=0)
            jl.append(rad('poly-n%d-quad-back%d'%(n,back),'poly',['-DNN=%d'%n],dict(B,deg=5,lam=0),opts=O,expect_reach=['end'],bounds='polynomial of degree 5, coefficients in [-1,1]'))
            if n==2: jl.append(rad('poly-n%d-quad4-back%d'%(n,back),'poly',['-DNN=%d'%n],dict(B,deg=4,lam=0),opts=O,expect_reach=['end'],bounds='coupled components, polynomial of degree 4, coefficients in [-1,1]'))
            jl.append(rad('poly-n%d-quad-symh-back%d'%(n,back),'poly',['-DNN=%d'%n],dict(B,deg=5,lam=0,symh=1,symx=1),opts=O,expect_reach=['end'],bounds='polynomial of degree 5, coefficients in [-1,1], start in [-2,2], step in [0.25,2]'))
            jl.append(rad('poly-n%d-stiff-back%d'%(n,back),'poly',['-DNN=%d'%n],dict(B,deg=3,lam=1),opts=O,expect_reach=['end'],bounds='polynomial solution of degree 3, coefficients in [-1,1]'))
        jl.append(rad('poly-n%d-stiff-slam'%n,'poly',['-DNN=%d'%n],dict(back=0,x0=0.25,h=0.75,symh=0,symx=0,slam=1,deg=3,lam=1),opts=O,expect_reach=['end'],bounds='polynomial solution of degree 3, coefficients in [-1,1], lambda in [-50,0]'))
    return jl,[REAL,LAP],100
@prop('C13')
def c13(th):
    jl=[]
    for nit in (1,2,3)+((4,5,7) if th else ()):
        for x0,xe,h0,nm in ((0,1,0.3,'fwd'),(1,-1,0.5,'bwd'),(0,1,2.,'last')):
            for modes,att in ((1,1),(3,2),(2,2),(1,2)):
                jl.append(rad('newton-nit%d-%s-m%d-%d'%(nit,nm,modes,att),'newton',['-DNN=1'],dict(nit=nit,att=att,modes=modes,x0=x0,xe=xe,h0=h0,neg=modes&1,fnewt=0.03,dlo=1e-3,dhi=0.5),opts=dict(mono=2,timeout=600,max_dec=2000),maxpaths=3000,expect_reach=[],bounds='Newton increments of norm in [1e-3,0.5] in every iteration, at most %d iterations, %d attempts'%(nit,att)))
    for rho in (0,1,2,3):
        for kw,nm in ((dict(),'fwd'),(dict(x0=1,xe=-1),'bwd'),(dict(h0=7.),'last'),(dict(x0=1,xe=0,h0=7.),'bwdlast')):
            jl.append(rctl('rej-%s-rho%d'%(nm,rho),rho=rho,att=3 if th else 2,**kw))
    return jl,[REAL,LAP],80
@prop('C14')
def c14(th):
    jl=[]; a=4 if th else 3
    jl+=[j for j in c10(th)[0] if j.name.startswith('radau-tol') and (th or '-n2' in j.name)]
    for gus in (0,1):
        jl.append(rctl('err-gus%d-n1'%gus,gus=gus,att=a,mp=20000 if th else (160 if gus else 30))); jl.append(rctl('err-gus%d-n1-att2'%gus,gus=gus,att=2))
        jl.append(rctl('err-gus%d-n2-vec'%gus,n=2,gus=gus,scalar=0,neg=1,att=a-1))
        jl.append(rctl('err-gus%d-long'%gus,gus=gus,att=3 if th else 2,xe=2000,glo=0.76,exp=('accepted','bound')+(('predictive',) if gus else ()),mp=20000 if th else 120))
        jl.append(rctl('err-gus%d-back'%gus,gus=gus,x0=1,xe=-1,att=a-1,mp=20000 if th else 50))
        jl.append(rctl('err-gus%d-fac'%gus,gus=gus,fac=1,att=a-1))
        jl.append(rctl('err-gus%d-safe50'%gus,gus=gus,safe=50,att=2,h0=0.6))
        jl.append(rctl('err-gus%d-safe0'%gus,gus=gus,safe=0,att=2))
        jl.append(rctl('err-gus%d-symh'%gus,gus=gus,symh=1,att=1+th,xe=20,exp=('accepted',)))
        jl.append(rctl('one-gus%d'%gus,gus=gus,one=1,att=a,xe=10))
    for x0,xe,nm in ((0,1,'fwd'),(1,0,'bwd'),(-3,-5,'bwdneg'),(5,6.5,'fwdpos')):
        for h0 in (0.5,7.):
            jl.append(rctl('%s-h%g'%(nm,h0),x0=x0,xe=xe,h0=h0,att=2,gus=int(nm in('fwd','bwdneg'))))
            jl.append(rctl('%s-h%g-one'%(nm,h0),x0=x0,xe=xe,h0=h0,att=3,one=1))
    for x0,xe,nm in ((0,1,'fwd'),(1,0,'bwd')):
        jl.append(rctl('%s-symx'%nm,x0=x0,xe=xe,symx=1,att=1+th))
        jl.append(rctl('%s-symx-one'%nm,x0=x0,xe=xe,symx=1,one=1,att=2+th))
    jl.append(rctl('band',n=2,defs=['-DKL=0','-DKU=1'],att=2))
    jl.append(rctl('hess',n=2,defs=['-DHES=true'],att=2))
    return jl,[REAL,LAP],80

@prop('C15')
def c15(th):
    jl=[]
    for gus in (0,1):
        for ag in (1,2):
            if ag==1:
                for thr in (1,2)+((3,) if th else ()): jl.append(ctl('rodas-failed%d-gus%d'%(thr,gus),again=2,gus=gus,att=2,att2=1+th,thr=thr,xe=5,mp=20000 if th else 150,exp=('run2','thrown')))
            jl.append(ctl('rodas-again%d-gus%d'%(ag,gus),again=ag,gus=gus,att=3,mp=20000 if th else 120,exp=('again',)))
            jl.append(rctl('radau-again%d-gus%d'%(ag,gus),again=ag,gus=gus,att=2,att2=1+th,mp=20000 if th else 150,exp=('again',)))
            if ag==2: jl.append(rctl('radau-again2-gus%d-two'%gus,again=2,gus=gus,att=2,att2=2,mp=20000 if th else 150,exp=('run2',)))
            jl.append(rctl('radau-again%d-gus%d-one'%(ag,gus),again=ag,gus=gus,att=2,att2=2,one2=1,mp=20000 if th else 150,exp=('again',)))
            jl.append(rctl('radau-again%d-gus%d-oneone'%(ag,gus),again=ag,gus=gus,att=2,att2=2,one=1,one2=1,mp=20000 if th else 150,exp=('again',)))
        for thr in (1,2)+((3,) if th else ()):
            jl.append(rctl('radau-failed%d-gus%d'%(thr,gus),again=2,gus=gus,att=2,att2=1+th,thr=thr,mp=20000 if th else 150,exp=('again','thrown')))
    return jl,[REAL,LAP,GENR],60

RKI=('common/include','Rock4-NG/include')
MS=[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,76,81,86,92,98,105,112,120,129,138,148]
def rk4(name,entry,defs,params=None,**k):
    o=dict(leaks=True); o.update(k.pop('opts',{}))
    return Job(name,'rock4.cpp',entry,defs,RKI,params=params,opts=o,**k)
@prop('C16')
def c16(th):
    jl=[]
    M=0.353*152*152-3
    for which,c in ((0,1.),(0,0.125),(1,64.),(1,1e4)):
        for lo,hi,nm in ((1e-3 if which else 0,100,'low'),(100,2000,'mid'),(2000,M-1,'high'),(M-1,3*M,'top'),(3*M,1e9,'over'),(1e9,1e25,'huge')):
            jl.append(rk4('degree-%d-%g-%s'%(which,c,nm),'degree',['-DNN=1'],dict(which=which,lo=lo,hi=hi,c=c),opts=dict(mono=1,timeout=2000),maxpaths=400,expect_reach=['onestep'] if hi<M else ['reduced'] if lo>M else [],bounds='step times spectral radius in [%g,%g], %s fixed to %g'%(lo,hi,('step','radius')[which],c)))
    for lo,hi in ((0,300),(300,3000)):
        jl.append(rk4('multi-%g'%lo,'degmulti',['-DNN=1'],dict(h=0.125,lo=lo/8.,hi=hi/8.,steps=4 if th else 3),opts=dict(mono=1,timeout=2000,leaks=False),maxpaths=2000 if th else 150,expect_reach=['step'],bounds='several steps, spectral radius in [%g,%g]'%(lo/8.,hi/8.)))
    for lo,hi in ((0,300),(300,3000),(3000,8000)):
        jl.append(rk4('two-%g'%lo,'degtwo',['-DNN=1'],dict(lo=lo*8.,hi=hi*8.),opts=dict(mono=1,timeout=2000),maxpaths=2000 if th else 200,expect_reach=['end'],bounds='two steps of the same length, step times spectral radius in [%g,%g]'%(lo,hi)))
    for p in 'la':
        for which,c in ((0,0.125),(1,64.)):
            for lo,hi,nm in ((1e-3 if which else 0,100,'low'),(100,2000,'mid'),(2000,M-1,'high'),(M-1,3*M,'top'),(3*M,1e25,'over')):
                jl.append(r4l('%s-degree-%d-%g-%s'%('linear' if p=='l' else 'affine',which,c,nm),p+'deg',1,dict(which=which,lo=lo,hi=hi,c=c),opts=dict(mono=1,timeout=2000),maxpaths=400,exp=['onestep'] if hi<M else ['thrown'] if lo>M else [],bounds='step times spectral radius in [%g,%g], %s fixed to %g'%(lo,hi,('step','radius')[which],c)))
    return jl,[REAL],60
@prop('C17')
def c17(th):
    jl=[]
    for m in MS:
        for grp,nm in ((0x1E,'a'),(0xE0|2,'b'))+(((0xF00FE,'all-y'),) if th else ()):
            jl.append(rk4('order-%d-%s'%(m,nm),'order',['-DNN=4'],dict(grp=grp,mdeg=m),opts=dict(trunc=('eps#0',4),timeout=3000,maxterms=400000,merge=True),expect_reach=['end'],bounds='method of %d stages; triangular system with all elementary differentials up to order 4; coefficients in [-2,2]; group %x symbolic'%(m+4,grp)))
    return jl,[REAL],100
@prop('C18')
def c18(th):
    jl=[]
    # three of the published tables exceed one slightly (known finding): 63+4 stages within 2e-5 of the far
    # end, 129+4 and 148+4 stages near z=-8 by 0.6 and 0.8 percent
    for m in reversed(MS):
        for nm,tol,frac in ((('-strict',1+1e-9,1.),) if m not in(63,129,148) else ())+((('-strict',1+1e-9,1.),('-slack',1+1e-9 if m==63 else 1.01,1-1e-4 if m==63 else 1.)) if m in(63,129,148) else ()):
            jl.append(rk4('damping-%d%s'%(m,nm),'damping',['-DNN=1'],dict(mdeg=m,rec=int(th and m not in(63,129,148)),tol=tol,frac=frac),opts=dict(timeout=3000,merge=True,maxterms=400000,univ=1),expect_reach=['end'],bounds='every z in %g times the announced interval [-(0.353 s^2-3),0], s=%d; amplification at most %g'%(frac,m+4,tol)))
            jl.append(r4l('ldamping-%d%s'%(m,nm),'ldamping',1,dict(mdeg=m,tol=tol,frac=frac),opts=dict(timeout=3000,merge=True,maxterms=400000,univ=1),bounds='linear variant, every z in %g times the announced interval, s=%d; amplification at most %g'%(frac,m+4,tol)))
    return jl,[REAL],300
def k4ctlp(**k):
    d=dict(x0=0,xe=1,symx=0,symh=0,h0=0.3,atol=1e-3,rtol=0,att=2,neg=0,many=0,again=0); d.update(k); return d
def k4ctl(name,n=1,mp=20000,exp=('end',),bounds='',timeout=800,defs=(),**kw):
    p=k4ctlp(**kw); o=dict(shuffle=mp<20000,mono=2,max_dec=2000,timeout=timeout,soft=30,generic=1)
    b='every error history of at most %d attempts (err=(0.8/g)^4, g in %s), %s, %s; %s'%(p['att'],'[0.6,0.79]' if p['many'] else '[0.15,9]','start in [-10,10], length in [0.05,20]' if p['symx'] else 'from %g to %g'%(p['x0'],p['xe']),'initial step in [0.05,3]' if p['symh'] else 'initial step %g'%p['h0'],bounds)
    return rk4(name,'ctl',['-DNN=%d'%n]+list(defs),p,opts=o,maxpaths=mp,expect_reach=list(exp),bounds=b)
@prop('C19')
def c19(th):
    jl=[]
    FP=dict(fp=1,timeout=20000,mono=0)
    for nm,tl,th_,el,eh,h0,sh,ms in (('a',0,1,2,3,.5,0,2),('b',-3,-1,0.1,2,1.,0,3),('one',0,10,10.5,12,20.,0,1))+((('symh',0.25,0.25,1,3,0,1,5),) if th else ()):
        jl.append(rk4('last-fp-%s'%nm,'lastfp',['-DNN=1'],dict(tlo=tl,thi=th_,elo=el,ehi=eh,h0=h0,symh=sh,maxst=ms),opts=FP,expect_reach=['end'],bounds='bit-precise double arithmetic: start in [%g,%g], end in [%g,%g], %s'%(tl,th_,el,eh,'initial step in [0.1,4]' if sh else 'initial step %g'%h0)))
    jl.append(k4ctl('err-n1',att=2,exp=('accepted','rejected','end')))
    jl.append(k4ctl('err-n1-3',att=4 if th else 3,mp=20000 if th else 60,exp=('accepted','rejected','end')))
    jl.append(k4ctl('err-n1-long',att=4 if th else 3,xe=2000,exp=('accepted','rejected','bound')))
    jl.append(k4ctl('err-n1-h5',att=2+th,h0=5.))
    jl.append(k4ctl('err-n1-neg',att=2+th,x0=-3,xe=-1,neg=1,exp=('bound',)))
    jl.append(k4ctl('err-n2',n=2,att=2,rtol=1e-3))
    jl.append(k4ctl('err-symh',att=2,symh=1))
    jl.append(k4ctl('err-symx',att=1+th,symx=1))
    jl.append(k4ctl('again',att=2,again=1,exp=('again',)))
    jl.append(k4ctl('many',att=14,many=1,x0=0,xe=1e-4,h0=1e-5,mp=20000 if th else 30,exp=()))
    return jl,[REAL,GENR],100

@prop('C20')
def c20(th):
    jl=[]
    def par(name,st,n,lin,nt,tol=0.05,ln=1.,opts={},**k):
        jl.append(rk4(name,'par',['-DNN=%d'%n,'-DROCK4_OMP']+k.pop('d',[]),dict(stages=st,lin=lin,threads=nt,tol=tol,len=ln),opts=dict(race=1,mono=1,merge=True,timeout=3000,soft=30,generic=1,**opts),omp=True,expect_reach=['end'],bounds='%d unknowns, %d stages, every pair of iterations of every parallel loop; 1 against %d threads'%(n,st,nt),**k))
    for m in (MS if th else (1,2,3,4,5,8,13,20,50,148)):
        par('lin-%d'%(m+4),m+4,4,2 if m<4 else 1,3)
    for n,nt in ((1,2),(2,2),(3,2),(3,3),(5,8)):
        par('err-n%d-t%d'%(n,nt),6,n,0,nt,ln=1.7)
    par('rev-n3',7,3,0,2,ln=1.7,opts=dict(revthreads=1)); par('aligned',6,3,0,2,ln=1.7,d=[ALIGN])
    return jl,[REAL,GENR],100

RLI=('common/include','.')
def r4l(name,entry,n=1,params=None,d=[],exp=('end',),**k):
    o=dict(leaks=True); o.update(k.pop('opts',{}))
    return Job(name,'rock4l.cpp',entry,['-DNN=%d'%n]+d,RLI,params=params,opts=o,expect_reach=list(exp),**k)
def r4l_pols(jl,p,th,kinds):
    # far from the origin rounding of the coefficients is amplified by the finishing polynomial (internal
    # instability of the method): 1e-9 is required for |z|<=60, 1e-5 on the whole interval
    for m in reversed(MS):
        L=0.353*(m+4)**2-3
        for nm,y0,b,eq in kinds(m):
            for rg,fr,tol in (('near',min(1.,60/L),1e-9),('far',1.,1e-5)):
                if rg=='far' and (eq or L<=60): continue
                jl.append(r4l('pol-%d-%s-%s'%(m,nm,rg),p+'pol',1,dict(mdeg=m,h=0.25,frac=fr,y0=y0,b=b,eq=eq,tol=tol),opts=dict(timeout=3000,merge=True,maxterms=400000,univ=1),bounds='%d stages, step 0.25, every eigenvalue on %g times the announced interval, tolerance %g'%(m+4,fr,tol)))
def r4l_loop(jl,p,th):
    for l0,l1 in ((0.05,1),(1,2.6))+(((2.6,5.),) if th else ()):
        jl.append(r4l('steps-%g'%l1,p+'steps',2,dict(t0=0.5,l0=l0,l1=l1,symh=0,h=0.75),opts=dict(mono=1,timeout=3000),bounds='interval length in [%g,%g], step 0.75, up to %d steps'%(l0,l1,l1/0.75+2)))
        if l1<=1 or th: jl.append(r4l('steps-symh-%g'%l1,p+'steps',2,dict(t0=-2,l0=l0,l1=l1,symh=1,h=0),opts=dict(mono=1,timeout=3000),bounds='interval length in [%g,%g], step in [0.5,1.5]'%(l0,l1)))
    for n,rho,h,last in ((1,0,1,0.5),(2,20,0.5,0.2),(3,40,0.25,0.1),(1,300,0.5,0.04)):
        jl.append(r4l('compose-%d-%g'%(n,rho),p+'compose',2,dict(n=n,h=h,last=last,rho=rho,again=1),opts=dict(timeout=3000,univ=1,maxterms=400000),bounds='%d steps of %g and one of %g, one matrix entry symbolic in [-2,1], twice with the same object'%(n,h,last)))
    for nm,tl,th_,el,eh,h0,ms in (('a',0,.25,1.2,1.5,.75,3),('b',-1,-0.5,0.3,0.3,1.,3),('one',-8,-6,10.7,10.7,20.,1))+((('one-sym',0,10,10.5,12,20.,1),) if th else ()):
        if nm=='b' and not th: continue
        jl.append(r4l('last-fp-%s'%nm,p+'lastfp',1,dict(tlo=tl,thi=th_,elo=el,ehi=eh,h0=h0,maxst=ms),opts=dict(fp=1,timeout=20000),bounds='bit-precise double arithmetic: start in [%g,%g], end in [%g,%g], step %g'%(tl,th_,el,eh,h0)))
def r4l_mats(jl,p,th):
    for m,mask,symh in ((1,0xF33 if p=='a' else 0xF03,0),(1,0x103 if p=='a' and th else 0x000 if p=='a' else 0x113,1),(2,0x633,0),(3,0x113,0),(6,0x403,0))+(((4,0xF33,0),(1,0xF33,1)) if th else ()):
        jl.append(r4l('mat-%d-%x%s'%(m,mask,'-symh' if symh else ''),p+'mat',2,dict(mdeg=m,mask=mask,symh=symh,h=0.5,again=1),opts=dict(univ=1,timeout=3000,merge=True,maxterms=400000),bounds='2x2 matrices, %d stages, inputs of mask %x symbolic in [-1,1], step %s'%(m+4,mask,'in [0.5,2]' if symh else '0.5')))
    jl.append(r4l('mat-n3-aligned',p+'mat',3,dict(mdeg=2,mask=0x77,symh=0,h=0.5,again=0),d=[ALIGN],opts=dict(timeout=3000,maxterms=400000),bounds='3x3, blocked allocation, every state and forcing in [-1,1]'))
@prop('C21')
def c21(th):
    jl=[]
    r4l_pols(jl,'l',th,lambda m: (('y',1.,0.,0),))
    r4l_mats(jl,'l',th); r4l_loop(jl,'l',th)
    jl.sort(key=lambda j: not j.name.startswith(('last','mat')))
    return jl,[REAL],200
@prop('C22')
def c22(th):
    jl=[]
    al=(('y',1.,0.,0),('b',0.,1.,0),('eq',1.,0.,1))
    r4l_pols(jl,'a',th,lambda m: al if th or m<=6 else (al[m%3],))
    jl.append(r4l('kind','kind',2,bounds='every state'))
    r4l_mats(jl,'a',th); r4l_loop(jl,'a',th)
    jl.sort(key=lambda j: not j.name.startswith(('last','mat','compose')))
    return jl,[REAL],200
SDI=('common/include','SDIRKL/include','SDIRKL/test/Lapl')
SDM=(('EulerImp',1,1),('CrN',1,2),('RKRS',2,2),('RKMethod2',3,4),('RKMethod1',5,4))
def sdi(name,entry,meth,n=1,params=None,d=[],**k):
    o=dict(leaks=True,timeout=3000,maxterms=400000); o.update(k.pop('opts',{}))
    return Job(name,'sdirk.cpp',entry,['-DNN=%d'%n,'-DMETHOD=%s'%meth]+list(d),SDI,params=params,opts=o,expect_reach=['end'],**k)
@prop('C23')
def c23(th):
    jl=[]
    for m,st,_ in SDM:
        for af in (0,1):
            for n,steps,mask,symdt in ((1,3,1,1),(2,1,0xF,0),(2,2,0x6,1),(3,1,0x54 if st>3 else 0x1EF,0),(3,2,0,1))+(((3,1,0x1FF,0),(5,1,0x10402,0)) if th else ()):
                if n==1 and st>3: steps=2
                jl.append(sdi('%s-%s-n%d-x%d-%x'%(m,'affine' if af else 'linear',n,steps,mask),'step',m,n,dict(affine=af,n=steps,mask=mask,symdt=symdt,dt=0.5,again=1),bounds='%d unknowns, %d steps, entries of the inverse of mask %x symbolic in [-1,1], every state and forcing in [-2,2], step %s'%(n,steps,mask,'in [0.01,10]' if symdt else '0.5')))
        for n,mask in ((1,1),(2,0xB)): 
            jl.append(sdi('%s-steady-n%d'%(m,n),'steady',m,n,dict(mask=mask,dt=0.25),bounds='every steady state, %d unknowns'%n))
            jl.append(sdi('%s-two-n%d'%(m,n),'two',m,n,dict(mask=1,dt=0.25),bounds='a linear and an affine solver alive at the same time'))
        jl.append(sdi('%s-aligned'%m,'step',m,3,dict(affine=1,n=1,mask=0x12,symdt=0,dt=0.5,again=1),d=[ALIGN],bounds='blocked allocation'))
    return jl,[REAL,'the linear operator is represented by the inverse it applies (every invertible I-alpha*J)'],100
@prop('C24')
def c24(th):
    jl=[]
    for m,st,p in SDM:
        jl.append(sdi('%s-tableau'%m,'tableau',m,1,dict(order=p),bounds='the published tableau'))
        for af in (0,1): jl.append(sdi('%s-order-%d'%(m,af),'order',m,1,dict(order=p,affine=af),opts=dict(trunc=('eps#0',p)),bounds='every scalar problem, order %d'%p))
        jl.append(sdi('%s-stability'%m,'stability',m,1,{},opts=dict(univ=1,merge=True),bounds='every point of the negative real axis'))
    return jl,[REAL],60

SYI=('common/include','SymplecticRK/include')
def sy(name,entry,S,n=1,R='double',params=None,d=[],exp=('end',),**k):
    o=dict(leaks=True,timeout=3000,maxterms=400000); o.update(k.pop('opts',{}))
    return Job(name,'symp.cpp',entry,['-DNS=%d'%S,'-DNN=%d'%n,'-DREALT=%s'%R.replace(' ','_T_')]+(['-Dlong_T_double=long double'] if ' ' in R else [])+list(d),SYI,params=params,opts=o,expect_reach=list(exp),**k)
SYR=(('d','double'),('l','long double'))
@prop('C25')
def c25(th):
    jl=[]
    for S in range(2,17):
        for r,R in SYR:
            jl.append(sy('coeffs-%d-%s'%(S,r),'coeffs',S,1,R,bounds='%d stages, %s, every stage derivative, every polynomial'%(S,R)))
            jl.append(sy('rescale-%d-%s'%(S,r),'rescale',S,1,R,dict(n=3,sym=1),bounds='%d stages, %s, 3 changes of the step, every value in [-4,4]'%(S,R)))
            jl.append(sy('rescale-%d-%s-val'%(S,r),'rescale',S,1,R,dict(n=3,sym=0,chain=200),bounds='%d stages, %s, steps that are not representable in double; 200 changes of the step'%(S,R)))
    return jl,[REAL],60
@prop('C26')
def c26(th):
    jl=[]
    for S,n,ns,it in ((2,1,1,1),(2,1,1,2),(2,1,2,2),(2,1,1,3),(2,2,1,1))+(((2,2,1,2),(3,1,1,2),(3,1,1,1),(2,1,3,1)) if th else ()):
        jl.append(sy('havoc-%d-n%d-x%d-it%d'%(S,n,ns,it),'havoc',S,n,'double',dict(itermax=it,n=ns,h=0.5,first=1,ftol=1),exp=['end','failed']+(['converged'] if it>1 else []),bounds='%d stages, %d unknowns, %d steps, at most %d iterations, arbitrary derivative values in [-1,1], every state'%(S,n,ns,it)))
    for S,n,mask,ns,hs in ((2,2,7,2,1),(2,3,3,2,2),(3,3,3,2,0),(4,3,3,2,3),(8,3,3,1,1),(3,4,0,1,0),(16,3,3,1,2))+(((2,4,0,2,2),(4,4,0,1,0),(3,3,7,3,4),(12,3,3,2,2)) if th else ()):
        for r,R in SYR:
            if r=='l' and S==16: continue
            jl.append(sy('tri-%d-n%d-%s'%(S,n,r),'triangular',S,n,R,dict(n=ns,hs=hs,first=1,tol=10000,ftol=1,mask=mask),exp=['end','converged'],bounds='%d stages, %s, %d unknowns, %d steps, every state in [-1,1], coefficients of mask %x of the polynomial system symbolic'%(S,R,n,ns,mask)))
    for S,n,mask,hs in ((2,2,3,0),(3,3,1,2))+(((4,3,3,4),) if th else ()):
        jl.append(sy('tri-extrapolated-%d'%S,'triangular',S,n,'double',dict(n=3,hs=hs,first=0,tol=10000,ftol=1,mask=mask),exp=['end','converged'],bounds='%d stages, %d unknowns, 3 steps with extrapolated starting values, every state'%(S,n)))
    for i,(lo,hi,c,k,pat) in enumerate(((1,1+1e-12,0.1,3,0),(1.5,1.5+1e-13,-0.1,4,0),(1,1+1e-12,0.1,3,1))+(((1,1+1e-10,0.1,5,0),(1,1+1e-10,0.1,5,2)) if th else ())):
        jl.append(sy('compensated-%d'%i,'compensated',2,1,'double',dict(n=k,ulo=lo,uhi=hi,c=c,tol=1.7e-16,pat=pat,conc=0),opts=dict(fp=1,blast=1,timeout=60000),bounds='bit-precise double arithmetic: every initial value in [%.17g,%.17g], constant derivative %g, %d steps%s'%(lo,hi,c,k,' of changing size' if pat else '')))
    for pat in (0,1,2):
        for u0,c in ((1.,0.1),(0.3,-0.7)): jl.append(sy('compensated-long-%d-%g'%(pat,u0),'compensated',2,1,'double',dict(n=120,ulo=u0,uhi=u0,c=c,tol=3e-15 if c==0.1 else 2.5e-14,pat=pat,conc=1),bounds='120 steps from %g, derivative %g, step pattern %d, in double'%(u0,c,pat)))
    return jl,[REAL],120
@prop('C27')
def c27(th):
    jl=[]
    for S,n in ((2,1),(2,3),(3,2),(5,3),(8,2),(3,7))+(((16,2),(2,8),(4,4)) if th else ()):
        for r,R in SYR:
            for mode in (1,2):
                if mode==2 and (n>3 or S>3): continue
                jl.append(sy('layout-%d-n%d-%s-m%d'%(S,n,r,mode),'layout',S,n,R,dict(mode=mode,hs=0,warm=mode-1,tol=10000,ftol=1,mask=255 if mode==1 else 1),bounds='%d stages, %d unknowns, %s, every state, derivatives %s'%(S,n,R,'in [-1,1]' if mode==1 else 'of a triangular polynomial system')))
    for S in range(2,17):
        for r,R in SYR: jl.append(sy('predict-%d-%s'%(S,r),'predict',S,1,R,bounds='%d stages, %s, every polynomial of degree below the number of stages'%(S,R)))
    for S,n,hs,mask in ((2,3,0,3),(3,3,2,3),(2,2,4,3),(4,3,3,1))+(((2,4,4,1),(8,3,3,1)) if th else ()):
        jl.append(sy('influence-%d-n%d-%d'%(S,n,hs),'influence',S,n,'double',dict(n=3,hs=hs,tol=10000,mask=mask),bounds='%d stages, %d unknowns, three steps (step pattern %d), every state'%(S,n,hs)))
    return jl,[REAL],120

LFI={1:('common/include','Rodas-NG/include'),2:('common/include','Radau5-NG/include'),3:('common/include','Rock4-NG/include'),4:('common/include','Rock4-L/include'),5:('common/include','SDIRKL/include','SDIRKL/test/Lapl'),6:('common/include','SymplecticRK/include'),7:('common/include',)}
@prop('C28')
def c28(th):
    jl=[]
    def lf(name,kind,entry,d=(),params=None,exp=('end',),al=(False,True),**k):
        o=dict(leaks=True,timeout=500,maxterms=100000); o.update(k.pop('opts',{}))
        for a in al:
            jl.append(Job(name+('-aligned' if a else ''),'life.cpp',entry,['-DLIFE=%d'%kind]+list(d)+([ALIGN] if a else []),LFI[kind],params=params,opts=dict(o),expect_reach=list(exp),**dict(k)))
    for kind,nm in ((1,'rodas'),(2,'radau')):
        for vn,d in (('n1',['-DNN=1']),('n2',['-DNN=2']),('n3-band',['-DNN=3','-DKL=1','-DKU=1']),('n4-low',['-DNN=4','-DKL=2','-DKU=0']),('n3-up',['-DNN=3','-DKL=0','-DKU=1','-DNUMJ=1']),('n2-num',['-DNN=2','-DNUMJ=1']),('n2-hes',['-DNN=2','-DHES=true']),('n3-hes',['-DNN=3','-DHES=true']),('n1-hes',['-DNN=1','-DHES=true'])):
            K=18 if not th else 60
            lf('%s-%s-thrown'%(nm,vn),kind,'thrown',d,dict(K=K,stiff=1.,same=0,cfg=0,xe=1.,h=0.25,amp=1.,back=1),['end','thrown'],bounds='an exception at every one of the first %d calls of user code'%(K+1))
            lf('%s-%s-config'%(nm,vn),kind,'config',d,dict(xe=0.75),al=(False,True) if vn=='n2' or th else (False,),bounds='every combination of setters and of scalar or vector tolerances')
            if vn in('n1','n2','n3-band','n2-hes'):
                lf('%s-%s-stiff'%(nm,vn),kind,'thrown',d,dict(K=K*2,stiff=40.,same=1,cfg=1,xe=1.,h=0.5,amp=3.,back=0),['end','thrown'],al=(False,),bounds='an exception at every one of the first %d calls of user code, rejected steps'%(K*2+1))
                lf('%s-%s-pair'%(nm,vn),kind,'pair',d,dict(K=K,stiff=2.),al=(False,),bounds='two solvers, an exception at every one of the first %d calls'%(K+1))
        lf('%s-singular'%nm,kind,'singular',['-DNN=1'],None,['end','singular'],al=(False,),opts=dict(singular='fork'),maxpaths=200,bounds='every value of the Jacobian at which the iteration matrix is singular or not')
        lf('%s-havoc'%nm,kind,'havoc',['-DNN=1'],dict(K=9,atol=1e3),['end','thrown'],opts=dict(max_dec=60),maxpaths=60,al=(False,),bounds='every state and every right-hand side value, one attempt')
    for vn,d in (('n1',['-DNN=1']),('n3',['-DNN=3'])):
        for rho,K,te,tol in ((0.,24,1.,1e-3),(30.,30,0.75,1e-5))+(((1000.,80,0.75,1e-5),) if th else ()):
            lf('rock4-%s-rho%g'%(vn,rho),3,'thrown',d,dict(rho=rho,K=K,te=te,h=0.25,set=1 if rho else 0,tol=tol),['end','thrown'],bounds='an exception at every one of the first %d calls of user code'%(K+1))
            for v in 'la': lf('rock4%s-%s-rho%g'%(v,vn,rho),4,'thrown_'+v,d,dict(rho=rho,K=K,te=te,h=0.25),['end','thrown','refused'],bounds='an exception at every one of the first %d calls of user code'%(K+1))
    lf('rock4-refused',3,'refused',['-DNN=2'],None,['end','refused'],bounds='every step length below 1e-13')
    lf('rock4-sizes',3,'sizes',['-DNN=4'],bounds='two objects, every pair of sizes'); lf('rock4l-sizes',4,'sizes',['-DNN=4'],bounds='two objects of different kind, every pair of sizes')
    for m in ('euler','crn','rk1','rk2','rkrs'):
        for N_ in (1,2): lf('sdirk-%s-n%d'%(m,N_),5,m,['-DNN=%d'%N_],dict(K=12),['end','ctor','thrown','refused'],al=(False,),bounds='an exception at every one of the first calls of the operator, linear and affine')
    for N_,S,r,it in ((1,2,'double',12),(2,3,'double',12),(3,8,'double',6),(2,2,'long double',12),(2,16,'long double',3)):
        dd=['-DNN=%d'%N_,'-DNS=%d'%S]+(['-DREALT=long_T_double','-Dlong_T_double=long double'] if ' ' in r else [])
        lf('symp-n%d-%d-%s'%(N_,S,r[0]),6,'thrown',dd,dict(itermax=it,K=3*S*it if S<8 else 40),['end','thrown'],al=(False,),maxpaths=200,bounds='an exception at every one of the first calls of the right-hand side')
        if S<5 and r=='double': lf('symp-unit-n%d-%d'%(N_,S),6,'unit',dd,dict(itermax=2),al=(False,),bounds='first steps of length one, every state')
    for N_,kl,ku in ((1,0,0),(2,1,0),(3,1,1),(4,2,1)):
        dd=['-DNN=%d'%N_,'-DKL=%d'%kl,'-DKU=%d'%ku]
        lf('arrays-n%d'%N_,7,'arrays',dd,bounds='all four matrix classes, n=%d, kl=%d, ku=%d'%(N_,kl,ku))
        for e in ('full','cfull','band','cband','vec'): lf('print-%s-n%d'%(e,N_),7,'print_'+e,dd,al=(False,),bounds='n=%d, kl=%d, ku=%d'%(N_,kl,ku))
        lf('alloc-n%d'%N_,7,'alloc',dd) if N_==1 else None
        if N_<4: lf('vectors-n%d'%N_,7,'vectors',dd,dict(steps=3 if th else 2),maxpaths=600,bounds='every history of %d operations'%(3 if th else 2))
    return jl,[REAL],120

LG=['-DLOGCK']
@prop('C29')
def c29(th):
    jl=[]
    for f,nm,two in ((ctl,'rodas',dict(thr=2)),(rctl,'radau',{})):
        for kw in (dict(),dict(gus=0),dict(x0=1,xe=-1),dict(x0=1,xe=-1,gus=0,h0=7.),dict(one=1,att=3,xe=10),dict(again=2,att=2,att2=2,gus=0,**two),dict(n=2,scalar=0,neg=1),dict(att=3)):
            w=dict(att=2); w.update(kw); w['defs']=LG
            big=w['att']>2 or 'again' in kw
            jl.append(f('%s-%s'%(nm,'-'.join('%s%s'%x for x in kw.items()) or 'base'),mp=20000 if th else 30 if big else 60,exp=('changed',),**w))
    for nit in (1,3)+((2,5) if th else ()):
        for x0,xe,h0,nm in ((0,1,0.3,'fwd'),(1,-1,0.5,'bwd')):
            for modes,att in ((1,1),(3,2),(2,2),(7,3)):
                jl.append(rad('newton-nit%d-%s-m%d-%d'%(nit,nm,modes,att),'newton',['-DNN=1']+LG,dict(nit=nit,att=att,modes=modes,x0=x0,xe=xe,h0=h0,neg=modes&1,fnewt=0.03,dlo=1e-3,dhi=0.5),opts=dict(mono=2,timeout=600,max_dec=2000,shuffle=True),maxpaths=3000 if th else 60,expect_reach=['logged'] if att>1 or nit>1 else [],bounds='Newton increments of norm in [1e-3,0.5] in every iteration, at most %d iterations, %d attempts'%(nit,att)))
    jl.append(k4ctl('rock4-n1',att=2,defs=LG,exp=('accepted','rejected','logged')))
    jl.append(k4ctl('rock4-n1-3',att=3,defs=LG,mp=20000 if th else 60,exp=('accepted','rejected')))
    jl.append(k4ctl('rock4-h5',att=2,h0=5.,defs=LG,exp=('logged',)))
    jl.append(k4ctl('rock4-symh',att=2,symh=1,defs=LG,exp=('logged',),mp=20000 if th else 60))
    jl.append(k4ctl('rock4-again',att=2,again=1,defs=LG,exp=('again','logged')))
    return jl,[REAL,LAP,GENR]
