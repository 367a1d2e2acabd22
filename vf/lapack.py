"""Contract models of the LAPACK routines the library calls.  A factorisation
call remembers the exact matrix it was given and overwrites the storage (matrix
and pivots) with opaque tokens; a solve call must present the very tokens of one
factorisation and returns the exact solution of that system.  Anything else is a
misuse finding.  Singular inputs follow the documented INFO protocol."""
import math
from fractions import Fraction
from . import node as N
from .node import E, Undef
from .rt import EngineError, Stop, Obj

class Tok(Undef):
    """content of a factorised matrix: reading it as a number is like reading garbage"""
    __slots__=('fid','k')
    def __init__(s,fid,k): s.fid=fid; s.k=k; s.why='contents of an LU factorisation'

def rd(rt,p,o): return rt.ld((p[0],p[1]+8*o),'f',8)
def wr(rt,p,o,v): rt.st((p[0],p[1]+8*o),v,8)
def geti(rt,p):
    v=rt.ld(p,'i32',4)
    if type(v) is Undef: rt.finding('uninit','LAPACK integer argument is uninitialised',fatal=True)
    if type(v) is not int: raise EngineError('symbolic LAPACK dimension')
    return v
def seti(rt,p,v): rt.st(p,v,4)

class Cx:
    __slots__=('r','i')
    def __init__(s,r,i): s.r=r; s.i=i
    def __add__(a,b): return Cx(a.r+b.r,a.i+b.i)
    def __sub__(a,b): return Cx(a.r-b.r,a.i-b.i)
    def __mul__(a,b): return Cx(a.r*b.r-a.i*b.i,a.r*b.i+a.i*b.r)
    def __neg__(a): return Cx(-a.r,-a.i)
ZC=Cx(0.0,0.0)

def conc(x):
    if type(x) is Cx: return N.isc(x.r) and N.isc(x.i)
    return N.isc(x)
def iszero(x):
    if type(x) is Cx: return N.isc(x.r) and x.r==0 and N.isc(x.i) and x.i==0
    return N.isc(x) and x==0
def isundef(x):
    if type(x) is Cx: return type(x.r) is Undef or type(x.i) is Undef or isinstance(x.r,Undef) or isinstance(x.i,Undef)
    return isinstance(x,Undef)
def det(A,rows,cols,memo,cx):
    """cofactor expansion skipping structural zeros"""
    n=len(rows)
    if n==0: return Cx(1.0,0.0) if cx else 1.0
    k=(rows,cols)
    if k in memo: return memo[k]
    c=cols[0]; tot=None
    for i,r in enumerate(rows):
        a=A[r][c]
        if iszero(a): continue
        t=a*det(A,rows[:i]+rows[i+1:],cols[1:],memo,cx)
        if i%2: t=-t
        tot=t if tot is None else tot+t
    if tot is None: tot=ZC if cx else 0.0
    memo[k]=tot
    return tot

def gauss(A,b,cx):
    """numeric solve with partial pivoting (python complex/float)"""
    n=len(A)
    cv=(lambda x: complex(x.r,x.i)) if cx else float
    M=[[cv(A[i][j]) for j in range(n)] for i in range(n)]; perm=list(range(n))
    L=[[0.0]*n for _ in range(n)]
    for k in range(n):
        p=max(range(k,n),key=lambda i:abs(M[i][k]) if not cx else abs(M[i][k].real)+abs(M[i][k].imag))
        if M[p][k]==0: return k+1,None,None
        if p!=k: M[p],M[k]=M[k],M[p]; perm[p],perm[k]=perm[k],perm[p]; 
        for i in range(k+1,n):
            f=M[i][k]/M[k][k]; M[i][k]=f
            if f!=0:
                for j in range(k+1,n): M[i][j]-=f*M[k][j]
    return 0,M,perm

_inv={}
def inverse(A,cx):
    """exact inverse of a concrete matrix (a complex one as the real matrix of twice the size)"""
    n=len(A); F=Fraction
    if cx: R=[[F(x.r) for x in r]+[-F(x.i) for x in r] for r in A]+[[F(x.i) for x in r]+[F(x.r) for x in r] for r in A]
    else: R=[[F(x) for x in r] for r in A]
    key=(cx,tuple(tuple(r) for r in R))
    if key in _inv: return _inv[key]
    m=len(R); M=[R[i]+[F(int(i==j)) for j in range(m)] for i in range(m)]
    for k in range(m):
        p=next(i for i in range(k,m) if M[i][k]!=0)
        M[k],M[p]=M[p],M[k]; q=M[k][k]; M[k]=[x/q for x in M[k]]
        for i in range(m):
            if i!=k and M[i][k]!=0:
                f=M[i][k]; M[i]=[x-f*y for x,y in zip(M[i],M[k])]
    r=[row[m:] for row in M]; _inv[key]=r
    return r
def exact(A,b,cx):
    I=inverse(A,cx); v=[x.r for x in b]+[x.i for x in b] if cx else list(b); n=len(A)
    out=[]
    for row in I:
        t=0.0
        for c,x in zip(row,v):
            if c==0 or (N.isc(x) and x==0): continue
            t=N.add(t,N.mul(N.num_of(c),Fraction(x) if N.isc(x) else x)) if not N.isc(x) else N.add(t,N.num_of(c*Fraction(x)))
        if type(t) is Fraction: t=float(t)
        out.append(t)
    return [Cx(out[i],out[n+i]) for i in range(n)] if cx else out
def lusolve(F,b,cx):
    """b may be symbolic (linear)"""
    _,M,perm,A=F
    n=len(M)
    if N.MONO[0]>1 and n<=4 and any(not conc(x) for x in b): return exact(A,b,cx)
    y=[b[perm[i]] for i in range(n)]
    def mulc(c,x):
        if not cx: return x*c
        return Cx(x.r*c.real-x.i*c.imag,x.r*c.imag+x.i*c.real)
    for i in range(n):
        for j in range(i):
            if M[i][j]!=0: y[i]=y[i]-mulc(M[i][j],y[j])
    for i in range(n-1,-1,-1):
        for j in range(i+1,n):
            if M[i][j]!=0: y[i]=y[i]-mulc(M[i][j],y[j])
        if cx: y[i]=mulc(1/M[i][i],y[i])
        else: y[i]=y[i]/M[i][i]
    return y

def factor(rt,A,n,cx,store,ipiv,info,what):
    """A: list of rows of values read from memory; store: list of cells belonging to the factorisation"""
    for r in A:
        for x in r:
            if isundef(x): rt.finding('uninit','%s is given an uninitialised matrix entry'%what); raise Stop('undef')
    if all(conc(x) for r in A for x in r):
        bad=any((x!=x if not cx else (x.r!=x.r or x.i!=x.i)) for r in A for x in r)
        if bad: kind='nan'; data=None; sing=0      # LAPACK reports success and returns NaN
        else:
            F=gauss(A,None,cx)
            if F[0]: seti(rt,info,F[0]); 
            kind='num'; data=F+(A,); sing=F[0]
    else:
        d=det(A,tuple(range(n)),tuple(range(n)),{},cx)
        sing=0
        if rt.opts.get('singular')=='fork':
            z=N.cmp('==',d,0.0) if not cx else N.band(N.cmp('==',d.r,0.0),N.cmp('==',d.i,0.0))
            if z is True or (z is not False and rt.branch(z)): sing=n
        elif rt.opts.get('singular')=='never': pass
        else:
            z=N.bnot(N.cmp('==',d,0.0)) if not cx else N.bor(N.bnot(N.cmp('==',d.r,0.0)),N.bnot(N.cmp('==',d.i,0.0)))
            if z is False: sing=n
            elif z is not True: rt.assume(z)
        kind='sym'; data=(A,d)
    rt.fresh+=1; fid=rt.fresh
    rt.lu[fid]=(kind,data,n,cx,len(store),sing,what)
    for k,(p,o) in enumerate(store): wr(rt,p,o,Tok(fid,k))
    for i in range(n):
        rt.st((ipiv[0],ipiv[1]+4*i),Tok(fid,-1-i),4)
    seti(rt,info,sing)

def raw(rt,p,sz=8):
    o,off=p
    if type(o) is not Obj or not o.alive or type(off) is not int or off<0 or off+sz>o.size: rt.bad_access(p,sz,'read (LAPACK)')
    return o.cells.get(off)
def solve(rt,n,store,ipiv,B,cx,info,what,trans):
    t0=raw(rt,(store[0][0][0],store[0][0][1]+8*store[0][1]))
    if type(t0) is not Tok:
        rt.finding('lapack','%s is called on a matrix that is not the result of a factorisation'%what); raise Stop('lapack')
    fid=t0.fid; kind,data,nn,c2,ns,sing,w2=rt.lu[fid]
    if nn!=n or c2!=cx or ns!=len(store):
        rt.finding('lapack','%s does not match the factorisation it uses'%what); raise Stop('lapack')
    for k,(p,o) in enumerate(store):
        t=raw(rt,(p[0],p[1]+8*o))
        if type(t) is not Tok or t.fid!=fid or t.k!=k:
            rt.finding('lapack','%s: the factorisation was modified between factor and solve'%what); raise Stop('lapack')
    for i in range(n):
        t=raw(rt,(ipiv[0],ipiv[1]+4*i),4)
        if type(t) is not Tok or t.fid!=fid or t.k!=-1-i:
            rt.finding('lapack','%s: pivots do not belong to the factorisation'%what); raise Stop('lapack')
    if trans not in 'nN':
        raise EngineError('transposed solve') if trans in'tTcC' else EngineError('bad trans')
    for x in B:
        if isundef(x): rt.finding('uninit','%s is given an uninitialised right-hand side'%what); raise Stop('undef')
    seti(rt,info,0)
    if sing:
        return [Cx(Undef('result of a singular system'),Undef('result of a singular system')) if cx else Undef('result of a singular system') for _ in range(n)]
    if kind=='nan': return [Cx(float('nan'),float('nan')) if cx else float('nan') for _ in range(n)]
    if kind=='num':
        return lusolve(data,B,cx)
    A,d=data
    out=[]
    if n==1 and not cx: return [N.div(B[0],A[0][0])]
    if cx: den=d.r*d.r+d.i*d.i
    for c in range(n):
        tot=None
        for r in range(n):
            if iszero(B[r]): continue
            rows=tuple(x for x in range(n) if x!=r); cols=tuple(x for x in range(n) if x!=c)
            t=B[r]*minor(rt,fid,A,rows,cols,cx)
            if (r+c)%2: t=-t
            tot=t if tot is None else tot+t
        if tot is None: out.append(ZC if cx else 0.0); continue
        if cx:
            q=tot*Cx(d.r,-d.i); out.append(Cx(N.div(q.r,den),N.div(q.i,den)))
        else: out.append(N.div(tot,d))
    return out
def minor(rt,fid,A,rows,cols,cx):
    m=rt.__dict__.setdefault('_minors',{}).setdefault(fid,{})
    return det(A,rows,cols,m,cx)

def illegal(rt,info,what):
    rt.finding('lapack','%s is called with inconsistent dimensions'%what); raise Stop('lapack')

def dgetrf(rt,pm,pn,a,plda,ipiv,info):
    m,n,lda=geti(rt,pm),geti(rt,pn),geti(rt,plda)
    if m!=n or lda<n: illegal(rt,info,'dgetrf')
    A=[[rd(rt,a,j*lda+i) for j in range(n)] for i in range(n)]
    store=[(a,j*lda+i) for j in range(n) for i in range(n)]
    factor(rt,A,n,False,store,ipiv,info,'dgetrf')
def dgetrs(rt,tr,pn,pr,a,plda,ipiv,b,pldb,info):
    n,nr,lda,ldb=geti(rt,pn),geti(rt,pr),geti(rt,plda),geti(rt,pldb)
    if lda<n or ldb<n or nr<0: illegal(rt,info,'dgetrs')
    store=[(a,j*lda+i) for j in range(n) for i in range(n)]
    t=chr(rt.ld(tr,'i8',1)&255)
    for q in range(nr):
        x=solve(rt,n,store,ipiv,[rd(rt,b,q*ldb+i) for i in range(n)],False,info,'dgetrs',t)
        for i in range(n): wr(rt,b,q*ldb+i,x[i])
def zgetrf(rt,pm,pn,a,plda,ipiv,info):
    m,n,lda=geti(rt,pm),geti(rt,pn),geti(rt,plda)
    if m!=n or lda<n: illegal(rt,info,'zgetrf')
    A=[[Cx(rd(rt,a,2*(j*lda+i)),rd(rt,a,2*(j*lda+i)+1)) for j in range(n)] for i in range(n)]
    store=[(a,2*(j*lda+i)+c) for j in range(n) for i in range(n) for c in(0,1)]
    factor(rt,A,n,True,store,ipiv,info,'zgetrf')
def zgetrs(rt,tr,pn,pr,a,plda,ipiv,b,pldb,info):
    n,nr,lda,ldb=geti(rt,pn),geti(rt,pr),geti(rt,plda),geti(rt,pldb)
    if lda<n or ldb<n: illegal(rt,info,'zgetrs')
    store=[(a,2*(j*lda+i)+c) for j in range(n) for i in range(n) for c in(0,1)]
    t=chr(rt.ld(tr,'i8',1)&255)
    for q in range(nr):
        x=solve(rt,n,store,ipiv,[Cx(rd(rt,b,2*(q*ldb+i)),rd(rt,b,2*(q*ldb+i)+1)) for i in range(n)],True,info,'zgetrs',t)
        for i in range(n): wr(rt,b,2*(q*ldb+i),x[i].r); wr(rt,b,2*(q*ldb+i)+1,x[i].i)
def bandstore(n,kl,ku,lda,cx):
    """element (i,j) -> offset in AB (kl+ku+i-j + j*lda), 0-based"""
    return lambda i,j: (kl+ku+i-j+j*lda)
def gbtrf(cx):
    what='zgbtrf' if cx else 'dgbtrf'
    def f(rt,pm,pn,pkl,pku,ab,plda,ipiv,info):
        m,n,kl,ku,lda=geti(rt,pm),geti(rt,pn),geti(rt,pkl),geti(rt,pku),geti(rt,plda)
        if m!=n or kl<0 or ku<0 or lda<2*kl+ku+1: illegal(rt,info,what)
        at=bandstore(n,kl,ku,lda,cx)
        A=[[None]*n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if -kl<=j-i<=ku:
                    o=at(i,j)
                    A[i][j]=Cx(rd(rt,ab,2*o),rd(rt,ab,2*o+1)) if cx else rd(rt,ab,o)
                else: A[i][j]=ZC if cx else 0.0
        store=[]
        for j in range(n):
            for r in range(2*kl+ku+1):
                i=r-kl-ku+j
                if 0<=i<n and r<=2*kl+ku:
                    o=r+j*lda
                    store+= [(ab,2*o),(ab,2*o+1)] if cx else [(ab,o)]
        for p,o in store: 
            # the whole band must be addressable
            if type(p[0]) is not Obj or p[1]+8*o+8>p[0].size: rt.bad_access((p[0],p[1]+8*o),8,'access (%s)'%what)
        factor(rt,A,n,cx,store,ipiv,info,what)
    return f
def gbtrs(cx):
    what='zgbtrs' if cx else 'dgbtrs'
    def f(rt,tr,pn,pkl,pku,pr,ab,plda,ipiv,b,pldb,info):
        n,kl,ku,nr,lda,ldb=geti(rt,pn),geti(rt,pkl),geti(rt,pku),geti(rt,pr),geti(rt,plda),geti(rt,pldb)
        if kl<0 or ku<0 or lda<2*kl+ku+1 or ldb<n: illegal(rt,info,what)
        store=[]
        for j in range(n):
            for r in range(2*kl+ku+1):
                i=r-kl-ku+j
                if 0<=i<n:
                    o=r+j*lda
                    store+= [(ab,2*o),(ab,2*o+1)] if cx else [(ab,o)]
        t=chr(rt.ld(tr,'i8',1)&255)
        for q in range(nr):
            if cx: B=[Cx(rd(rt,b,2*(q*ldb+i)),rd(rt,b,2*(q*ldb+i)+1)) for i in range(n)]
            else: B=[rd(rt,b,q*ldb+i) for i in range(n)]
            x=solve(rt,n,store,ipiv,B,cx,info,what,t)
            for i in range(n):
                if cx: wr(rt,b,2*(q*ldb+i),x[i].r); wr(rt,b,2*(q*ldb+i)+1,x[i].i)
                else: wr(rt,b,q*ldb+i,x[i])
    return f
def dgehrd(rt,pn,pilo,pihi,a,plda,tau,work,plwork,info):
    n,ilo,ihi,lda,lw=geti(rt,pn),geti(rt,pilo),geti(rt,pihi),geti(rt,plda),geti(rt,plwork)
    if ilo!=1 or ihi!=n or lda<n: illegal(rt,info,'dgehrd')
    if lw==-1:
        wr(rt,work,0,float(max(1,n))*32.0); seti(rt,info,0); return
    if lw<max(1,n): illegal(rt,info,'dgehrd')
    for k in range(min(lw,n)): wr(rt,work,k,Undef('LAPACK workspace'))
    # the whole announced workspace must exist
    if work[1]+8*lw>work[0].size: rt.bad_access((work[0],work[1]+8*lw-8),8,'write (dgehrd workspace)')
    A=[[rd(rt,a,j*lda+i) for j in range(n)] for i in range(n)]
    for r in A:
        for x in r:
            if isundef(x): rt.finding('uninit','dgehrd is given an uninitialised matrix entry'); raise Stop('undef')
    V={}; taus=[]
    for k in range(n-2):
        # reflector annihilating A[k+2:,k]
        tail=[A[i][k] for i in range(k+2,n)]
        alpha=A[k+1][k]
        if all(N.isc(x) for x in tail) and all(x==0 for x in tail):
            t=0.0; v=[1.0]+[0.0]*len(tail)
        elif all(N.isc(x) for x in tail) and N.isc(alpha):
            nr=math.sqrt(sum(x*x for x in tail)+alpha*alpha)
            beta=-math.copysign(nr,alpha); t=(beta-alpha)/beta; v=[1.0]+[x/(alpha-beta) for x in tail]
        else:
            if rt.hint is None or n!=3: raise EngineError('symbolic dgehrd without a hint')
            hv=rt.hint; t=N.div(2.0,1.0+hv*hv); v=[1.0,hv]
            # the reflector must annihilate the entry identically
            s=alpha+v[1]*tail[0]; z=tail[0]-t*v[1]*s
            from . import smt
            P=smt.PolyCtx(); num,den=P.of(z)
            if num: raise EngineError('dgehrd: the hint does not describe this matrix')
        if not(N.isc(t) and t==0.0):
            for j in range(n):      # left
                if j<k: continue
                s=sum((v[m]*A[k+1+m][j] for m in range(1,len(v))),v[0]*A[k+1][j])
                for m in range(len(v)): A[k+1+m][j]=A[k+1+m][j]-t*v[m]*s
            for i in range(n):      # right
                s=sum((v[m]*A[i][k+1+m] for m in range(1,len(v))),v[0]*A[i][k+1])
                for m in range(len(v)): A[i][k+1+m]=A[i][k+1+m]-t*v[m]*s
        taus.append(t)
        V[k]=v
    for i in range(n):
        for j in range(n):
            x=A[i][j]
            if i>j+1: x=V[j][i-j-1]
            wr(rt,a,j*lda+i,x)
    for k in range(n-1): wr(rt,tau,k,taus[k] if k<len(taus) else 0.0)
    seti(rt,info,0)
def install(EXT):
    EXT.update(dgetrf_=dgetrf,dgetrs_=dgetrs,zgetrf_=zgetrf,zgetrs_=zgetrs,dgbtrf_=gbtrf(False),zgbtrf_=gbtrf(True),dgbtrs_=gbtrs(False),zgbtrs_=gbtrs(True),dgehrd_=dgehrd)
