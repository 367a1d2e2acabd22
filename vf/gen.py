"""Compiles LLVM IR functions to Python functions working on RT."""
import re
from fractions import Fraction
from . import ir
from .ir import Stream, tokenize, uq, IRError
from .rt import *
from . import node as N

BIN={'add':'+','sub':'-','mul':'*','sdiv':'sdiv','srem':'srem','udiv':'udiv','urem':'urem','and':'and','or':'or','xor':'xor','shl':'shl','lshr':'lshr','ashr':'ashr'}
FBIN={'fadd':'+','fsub':'-','fmul':'*'}

def fdiv(a,b):
    if type(a) is float and type(b) is float and b!=0.0: return a/b
    return N.div(a,b)

class Gen:
    def __init__(s,mod):
        s.m=mod; s.consts={}; s.cl=[]; s.fns={}
    def const(s,v):
        """python expression for a constant value"""
        if type(v) is float:
            if v!=v or v in(float('inf'),float('-inf')): return "float('%r')"%v
            return repr(v)
        if type(v) in(int,bool): return repr(v)
        k=len(s.cl); s.cl.append(v); return 'K[%d]'%k
    def val(s,t,o,fc):
        k=o[0]
        if k=='reg': return fc.reg(o[1])
        if k=='c': return s.const(o[1])
        if k=='null': return 'NULL'
        if k=='undef':
            r=s.m.res(t)
            if r.k in('struct','arr'): return repr(tuple([None]*(len(r.els) if r.k=='struct' else r.n))).replace('None','UNDEF')
            return 'UNDEF'
        if k=='zero':
            r=s.m.res(t)
            if r.k=='ptr': return 'NULL'
            if r.k=='int': return 'False' if r.w==1 else '0'
            if r.k=='double': return '0.0'
            if r.k=='x86_fp80': return s.const(Fraction(0))
            if r.k=='struct': return '('+','.join(s.val(e,('zero',e),fc) for e in r.els)+',)'
        if k=='glob':
            return '(rt.glob(%r),0)'%o[1]
        if k=='gepc':
            _,bt,args=o
            base=s.val(*args[0],fc); off=s.gepoff(bt,[(t2,v2) for t2,v2 in args[1:]],fc)
            return 'gepf(%s,%s)'%(base,off)
        if k=='agg':
            return '('+','.join(s.val(t2,v2,fc) for t2,v2 in o[1])+',)'
        raise IRError('value %r'%(o,))
    def gepoff(s,bt,idx,fc):
        const=0; terms=[]
        t=bt
        for j,(it,iv) in enumerate(idx):
            if j==0: sz=s.m.size(t)
            else:
                r=s.m.res(t)
                if r.k=='struct':
                    assert iv[0]=='c'
                    off,t=s.m.field(r,iv[1]); const+=off; continue
                t=r.el; sz=s.m.size(t)
            if iv[0]=='c': const+=int(iv[1])*sz
            else:
                e=s.val(it,iv,fc)
                terms.append('%s*%d'%(e,sz) if sz!=1 else e)
        if not terms: return repr(const)
        return '+'.join(terms+([repr(const)] if const else []))
    def kind(s,t):
        r=s.m.res(t)
        if r.k=='double': return 'f',8
        if r.k=='x86_fp80': return 'g',16
        if r.k=='ptr': return 'p',8
        if r.k=='int': return 'i%d'%r.w,s.m.size(r)
        if r.k=='float': return 'f4',4
        return None,None

    def leaves(s,t):
        """(offset,kind,size) of the fields of a flat struct"""
        r=s.m.res(t)
        if r.k!='struct': return None
        l=[]
        for i in range(len(r.els)):
            o,e=s.m.field(r,i); k,z=s.kind(e)
            if k is None or k=='i1': return None
            l.append((o,k,z))
        return l

class FC:
    def __init__(s,g,fn):
        s.g=g; s.fn=fn; s.names={}; s.bb={}
    def reg(s,n):
        x=s.names.get(n)
        if x is None:
            x='r%d'%len(s.names); s.names[n]=x
        return x

def compile_fn(g,fn,env):
    m=g.m; fc=FC(g,fn)
    params=[fc.reg(n) for t,n in fn.params]
    for i,(lab,_) in enumerate(fn.blocks):
        if lab.startswith('__entry__'): fc.bb[lab[9:]]=i
        fc.bb[lab]=i
    # phis per block
    phis={}
    body={}
    has_alloca=False
    # first collect phis
    for i,(lab,ins) in enumerate(fn.blocks):
        ph=[]
        for s in ins:
            mm=re.match(r'^(%\S+) = phi (.*)$',s)
            if not mm: break
            st=Stream(tokenize(re.sub(r', ![a-z].*$','',mm.group(2))))
            m.skipattrs(st)
            t=m.ptype(st); inc={}
            while True:
                st.expect('['); v=m.pval(st,t); st.expect(','); b=uq(st.next()[1]); st.expect(']')
                inc[fc.bb[b]]=v
                if not st.accept(','): break
            ph.append((uq(mm.group(1)),t,inc))
        phis[i]=ph
    def edge(frm,lab,ind):
        to=fc.bb[lab]
        out=[]
        ph=phis[to]
        if ph:
            l=[];r=[]
            for n,t,inc in ph:
                l.append(fc.reg(n)); r.append(g.val(t,inc[frm],fc))
            out.append(ind+','.join(l)+('=' )+','.join(r))
        out.append(ind+'bb=%d'%to)
        return out
    fc.phis=phis
    merges=find_merges(m,fn,phis,fc.bb)
    fc.merges=merges
    joins={v[0] for v in merges.values()}
    for i,(lab,ins) in enumerate(fn.blocks):
        out=[]; 
        if i in joins:
            rs=[fc.reg(n) for n,t,inc in phis[i]]
            out.append('if ms and ms[-1][1]==%d:'%i)
            out.append(' m=ms[-1]')
            out.append(' if m[2] is None: m[2]=(%s); bb=m[3]; continue'%''.join(r+',' for r in rs))
            out.append(' ms.pop()')
            for k,r in enumerate(rs): out.append(' %s=rt.sel(m[0],m[2][%d],%s)'%(r,k,r))
            out.append(' continue')
        for s in ins[len(phis[i]):]:
            s=re.sub(r'(, ![a-zA-Z.]+ ![0-9]+)+$','',s)
            s=re.sub(r', !srcloc !\d+','',s)
            try: emit(g,fc,env,i,s,out,edge)
            except IRError as ex: raise IRError('%s\n in %s: %s'%(ex,fn.name,s))
            if ' = alloca ' in s: has_alloca=True
        body[i]=out
    src=['def F(rt%s):'%''.join(','+p for p in params)]
    src.append(' rt.funcs_used.add(%r); rt.stack.append(%r)'%(fn.name,fn.name))
    if has_alloca: src.append(' al=[]')
    src.append(' try:'); src.append('  bb=0; ms=[]')
    src.append('  while True:')
    src.append('   rt.n+=1')
    src.append('   if rt.n>rt.maxn: raise Stop("budget","steps")')
    def tree(lo,hi,ind):
        if hi-lo==1:
            for l in body[lo]: src.append(ind+l)
            return
        mid=(lo+hi)//2
        src.append(ind+'if bb<%d:'%mid); tree(lo,mid,ind+' ')
        src.append(ind+'else:'); tree(mid,hi,ind+' ')
    tree(0,len(fn.blocks),'   ')
    src.append(' finally:')
    src.append('  rt.stack.pop()')
    if has_alloca: src.append('  for o in al: o.alive=False')
    code='\n'.join(src)
    loc=dict(env); loc['K']=g.cl
    try: exec(compile(code,'<ir:%s>'%fn.name,'exec'),loc)
    except SyntaxError as ex:
        raise IRError('codegen of %s: %s\n%s'%(fn.name,ex,code))
    return loc['F']

PUREOPS=('load','getelementptr','icmp','fcmp','select','fadd','fsub','fmul','fdiv','fneg','add','sub','mul','sext','zext','trunc','sitofp','extractvalue','bitcast','and','or','xor','shl','fptrunc','fpext')
def insop(s):
    s=re.sub(r'^%(?:"[^"]*"|[-A-Za-z0-9$._]+) = ','',s)
    s=re.sub(r'^(tail|musttail|notail) ','',s)
    return s.partition(' ')[0],s
def callee(s):
    mm=re.search(r'@("[^"]*"|[-A-Za-z0-9$._]+)\(',s)
    return uq('@'+mm.group(1)) if mm else None
def pure_fn(m,name,depth=0):
    c=m.__dict__.setdefault('_pure',{})
    if name in c: return c[name]
    if re.match(r'llvm\.(fabs|sqrt|dbg|lifetime)',name) or name in('fabs','sqrt'): return True
    c[name]=False
    f=m.funcs.get(name)
    if f is None or depth>6 or len(f.blocks)!=1: return False
    ok=True
    for s in f.blocks[0][1]:
        op,x=insop(s)
        if op in PUREOPS or op=='ret': continue
        if op=='call' and callee(x) and pure_fn(m,callee(x),depth+1): continue
        ok=False; break
    c[name]=ok
    return ok
def find_merges(m,fn,phis,bbi):
    """conditional branches whose two sides are pure (no store, no loop, no exception) and meet
    again: block -> (join, true target, false target)"""
    info={}
    def blk(i):
        if i in info: return info[i]
        ins=fn.blocks[i][1][len(phis[i]):]; r=None
        for s in ins:
            op,x=insop(s)
            if op in PUREOPS: continue
            if op=='call':
                if callee(x) and pure_fn(m,callee(x)): continue
                break
            if op=='invoke':
                cl=callee(x); mm=re.search(r' to label (%(?:"[^"]*"|[-A-Za-z0-9$._]+))',x)
                if cl and mm and pure_fn(m,cl): r=[bbi[uq(mm.group(1))]]
                break
            if op=='br':
                r=[bbi[uq(q)] for q in re.findall(r'label (%(?:"[^"]*"|[-A-Za-z0-9$._]+))',x)]
                break
            break
        info[i]=r
        return r
    out={}
    for i,(lab,ins) in enumerate(fn.blocks):
        if not ins: continue
        op,x=insop(ins[-1])
        if op!='br': continue
        t=[bbi[uq(q)] for q in re.findall(r'label (%(?:"[^"]*"|[-A-Za-z0-9$._]+))',x)]
        if len(t)!=2 or t[0]==t[1]: continue
        paths=[]; ok=True
        st=[[t[0]],[t[1]]]
        while st and ok:
            p=st.pop(); su=blk(p[-1])
            if su is None or len(p)>24: paths.append(p)
            else:
                for q in su:
                    if q in p or q==i: paths.append(p)      # a cycle: the join must lie before it
                    else: st.append(p+[q])
            if len(paths)+len(st)>40: ok=False
        if not ok or not paths: continue
        common=[b for b in paths[0] if all(b in p for p in paths)]
        if not common: continue
        J=common[0]
        # entry blocks of the arms must not have phis of their own
        if any(a!=J and phis[a] for a in t): continue
        if all(a!=J for a in t) or True:
            out[i]=(J,t[0],t[1])
    return out

def parse_call(g,fc,s):
    """s starts after 'call'/'invoke'"""
    m=g.m
    st=Stream(tokenize(s))
    m.skipattrs(st)
    t=m.ptype(st)
    k,v=st.peek()
    if k=='glob' or k=='loc': st.next()
    else: raise IRError('callee %r'%((k,v),))
    st.expect('(')
    args=[]
    if not st.accept(')'):
        while True:
            at=m.ptype(st); m.skipattrs(st)
            if at.k=='metadata':
                while st.peek()[1] not in(',',')'): st.next()
                args.append((at,None))
            else: args.append((at,m.pval(st,at)))
            if st.accept(')'): break
            st.expect(',')
    return t,(k,uq(v)),args,st

def emit(g,fc,env,bi,s,out,edge):
    m=g.m
    R=fc.reg
    dst=None
    mm=re.match(r'^(%(?:"[^"]*"|[-A-Za-z0-9$._]+)) = (.*)$',s)
    if mm: dst=uq(mm.group(1)); s=mm.group(2)
    d=R(dst) if dst is not None else None
    op,_,rest=s.partition(' ')
    if op in('tail','musttail','notail'):
        op,_,rest=rest.partition(' ')
    if op=='load':
        st=Stream(tokenize(rest)); 
        if st.accept('volatile') or st.accept('atomic'): pass
        t=m.ptype(st); st.expect(','); pt,pv=m.ptv(st)
        k,sz=g.kind(t); p=g.val(pt,pv,fc)
        if k is None:
            fl=g.leaves(t)
            if fl is None: raise IRError('aggregate load')
            out.append('q=%s; %s=(%s,)'%(p,d,','.join('ld(rt,gep(q,%d),%r,%d)'%(o,k2,z) for o,k2,z in fl)))
            return
        if k=='i1': out.append('%s=rt.cast("trunc",rt.ld(%s,"i8",1),8,1)'%(d,p))
        else: out.append('%s=ld(rt,%s,%r,%d)'%(d,p,k,sz))
    elif op=='store':
        st=Stream(tokenize(rest)); 
        if st.accept('volatile') or st.accept('atomic'): pass
        t,v=m.ptv(st); st.expect(','); pt,pv=m.ptv(st)
        k,sz=g.kind(t)
        if k is None:
            fl=g.leaves(t)
            if fl is None: raise IRError('aggregate store')
            out.append('q=%s; w=%s'%(g.val(pt,pv,fc),g.val(t,v,fc)))
            for i,(o,k2,z) in enumerate(fl): out.append('st(rt,gep(q,%d),w[%d],%d)'%(o,i,z))
            return
        out.append('st(rt,%s,%s,%d)'%(g.val(pt,pv,fc),g.val(t,v,fc),sz))
    elif op=='alloca':
        st=Stream(tokenize(rest)); t=m.ptype(st); cnt='1'
        if st.accept(',') and st.peek()[1]!='align':
            ct,cv=m.ptv(st); cnt=g.val(ct,cv,fc)
        out.append('o=Obj(%r,%d*%s,"stack"); al.append(o); %s=(o,0)'%(fc.fn.name[:40]+':'+str(dst),m.size(t),cnt,d))
    elif op=='getelementptr':
        st=Stream(tokenize(rest)); m.skipattrs(st); bt=m.ptype(st); args=[]
        while st.accept(','): args.append(m.ptv(st))
        base=g.val(*args[0],fc); off=g.gepoff(bt,args[1:],fc)
        if off=='0': out.append('%s=%s'%(d,base))
        else: out.append('%s=gep(%s,%s)'%(d,base,off))
    elif op in('call','invoke'):
        t,(ck,cn),args,st=parse_call(g,fc,rest)
        if op=='invoke':
            while st.peek()[1]!='to': st.next()
            st.next(); st.expect('label'); nl=uq(st.next()[1]); st.expect('unwind'); st.expect('label'); ul=uq(st.next()[1])
        a=[]
        skip=False
        if ck=='glob' and cn=='llvm.assume':
            mm2=re.search(r'\[ ?"align"\((.*)\) ?\]',rest)
            if mm2:
                st2=Stream(tokenize(mm2.group(1)))
                pt,pv=m.ptv(st2); st2.expect(','); at2,av2=m.ptv(st2)
                out.append('rt.align(%s,%s)'%(g.val(pt,pv,fc),g.val(at2,av2,fc)))
            return
        if ck=='glob' and cn.startswith('llvm.'):
            base=cn
            if base.startswith(('llvm.dbg','llvm.lifetime','llvm.assume','llvm.experimental.noalias','llvm.invariant')): return
        for at,av in args: a.append(g.val(at,av,fc) if av is not None else 'None')
        if ck=='loc': call='call_ptr(rt,%s%s)'%(R(cn),''.join(','+x for x in a))
        else: call='CALL(rt,%r%s)'%(cn,''.join(','+x for x in a)) if cn not in env['FN'] else 'FN[%r](rt%s)'%(cn,''.join(','+x for x in a))
        if ck=='glob' and cn not in g.m.funcs and cn.startswith('llvm.'):
            call='EXT[%r](rt%s)'%(env['intrin'](cn),''.join(','+x for x in a))
        elif ck=='glob':
            call='getf(%r)(rt%s)'%(cn,''.join(','+x for x in a))
        asg=(d+'=' if d is not None else '')
        if op=='call': out.append(asg+call)
        else:
            out.append('try: '+asg+call)
            out.append('except Throw as ex:')
            out.append(' rt.exc=ex; rt.stack_reset(%r)'%fc.fn.name if False else ' rt.exc=ex')
            out+=edge(bi,ul,' ')
            out.append('else:')
            out+=edge(bi,nl,' ')
            out.append('continue')
    elif op=='br':
        st=Stream(tokenize(rest))
        if st.accept('label'):
            out+=edge(bi,uq(st.next()[1]),''); out.append('continue')
        else:
            t=m.ptype(st); c=g.val(t,m.pval(st,t),fc); st.expect(','); st.expect('label'); a=uq(st.next()[1]); st.expect(','); st.expect('label'); b=uq(st.next()[1])
            if a==b:
                out+=edge(bi,a,''); out.append('continue'); return
            out.append('c=%s'%c)
            mg=fc.merges.get(bi)
            if mg:
                J,ta,tb=mg
                out.append('if c is not True and c is not False:')
                out.append(' q=rt.quick(c) if rt.merge and type(c) is E else 0'); out.append(' if q is None:')
                def vals(frm,to): return '('+''.join(g.val(t,inc[frm],fc)+',' for n,t,inc in fc.phis[to])+')'
                if ta==J: out.append('  ms.append([c,%d,%s,None]); bb=%d; continue'%(J,vals(bi,J),tb))
                elif tb==J: out.append('  ms.append([N.bnot(c),%d,%s,None]); bb=%d; continue'%(J,vals(bi,J),ta))
                else: out.append('  ms.append([c,%d,None,%d]); bb=%d; continue'%(J,tb,ta))
                out.append(' c=rt.branch(c) if q == 0 and q is not False else q')
            else: out.append('if c is not True and c is not False: c=rt.branch(c)')
            out.append('if c:'); out+=edge(bi,a,' ')
            out.append('else:'); out+=edge(bi,b,' ')
            out.append('continue')
    elif op=='switch':
        st=Stream(tokenize(rest)); t,v=m.ptv(st); st.expect(','); st.expect('label'); dl=uq(st.next()[1]); st.expect('[')
        cases=[]
        while not st.accept(']'):
            t2=m.ptype(st); v2=m.pval(st,t2); st.expect(','); st.expect('label'); cases.append((v2[1],uq(st.next()[1])))
        out.append('sv=%s'%g.val(t,v,fc))
        first=True
        for cv,lab in cases:
            out.append('%s rt.tb(rt.icmp("eq",sv,%d,64)):'%('if' if first else 'elif',cv)); first=False
            out+=edge(bi,lab,' ')
        if cases:
            out.append('else:'); out+=edge(bi,dl,' ')
        else: out+=edge(bi,dl,'')
        out.append('continue')
    elif op=='ret':
        if rest.strip()=='void': out.append('return None')
        else:
            st=Stream(tokenize(rest)); t,v=m.ptv(st); out.append('return %s'%g.val(t,v,fc))
    elif op in BIN:
        st=Stream(tokenize(rest)); nsw=nuw=False
        while st.peek()[1] in('nsw','nuw','exact','disjoint'):
            x=st.next()[1]; nsw|=x=='nsw'; nuw|=x=='nuw'
        t=m.ptype(st); a=g.val(t,m.pval(st,t),fc); st.expect(','); b=g.val(t,m.pval(st,t),fc)
        w=m.res(t).w
        if w==1 and op in('and','or','xor'): out.append('%s=rt.blogic(%r,%s,%s)'%(d,op,a,b))
        else:
            out.append('%s=iop(rt,%r,%s,%s,%d,%r)'%(d,BIN[op],a,b,w,nsw))
    elif op in FBIN or op in('fdiv','frem'):
        st=Stream(tokenize(rest)); m.skipattrs(st)
        t=m.ptype(st); a=g.val(t,m.pval(st,t),fc); st.expect(','); b=g.val(t,m.pval(st,t),fc)
        if op=='fdiv': out.append('%s=fdiv(%s,%s)'%(d,a,b))
        elif op=='frem': out.append('%s=rt.frem(%s,%s)'%(d,a,b))
        else: out.append('%s=%s%s%s'%(d,a,FBIN[op],b))
    elif op=='fneg':
        st=Stream(tokenize(rest)); m.skipattrs(st); t=m.ptype(st); out.append('%s=-(%s)'%(d,g.val(t,m.pval(st,t),fc)))
    elif op in('icmp','fcmp'):
        st=Stream(tokenize(rest)); m.skipattrs(st); pred=st.next()[1]; m.skipattrs(st)
        t=m.ptype(st); a=g.val(t,m.pval(st,t),fc); st.expect(','); b=g.val(t,m.pval(st,t),fc)
        if op=='icmp':
            r=m.res(t); w=r.w if r.k=='int' else 64
            if r.k=='int' and w==1: out.append('%s=rt.icmp(%r,%s,%s,1)'%(d,pred,a,b))
            else: out.append('%s=icmp(rt,%r,%s,%s,%d)'%(d,pred,a,b,w))
        else: out.append('%s=rt.fcmp(%r,%s,%s)'%(d,pred,a,b))
    elif op in('trunc','zext','sext','sitofp','uitofp','fptosi','fptoui'):
        st=Stream(tokenize(rest))
        while st.peek()[1] in('nneg','nuw','nsw'): st.next()
        t,v=m.ptv(st); st.expect('to'); t2=m.ptype(st)
        w1=m.res(t).w or 0; w2=m.res(t2).w or 0
        a=g.val(t,v,fc)
        if op=='sext' and w1>1: out.append('%s=%s'%(d,a))
        else: 
            x='rt.cast(%r,%s,%d,%d)'%(op,a,w1,w2)
            if op in('sitofp','uitofp') and m.res(t2).k=='x86_fp80': x='rt.fpext(%s)'%x
            out.append('%s=%s'%(d,x))
    elif op in('fptrunc','fpext'):
        st=Stream(tokenize(rest)); t,v=m.ptv(st); st.expect('to'); t2=m.ptype(st)
        if 'float' in (m.res(t).k,m.res(t2).k): raise IRError('float')
        out.append('%s=rt.%s(%s)'%(d,op,g.val(t,v,fc)))
    elif op in('bitcast','ptrtoint','inttoptr','freeze','addrspacecast'):
        st=Stream(tokenize(rest)); t,v=m.ptv(st); out.append('%s=%s'%(d,g.val(t,v,fc)))
    elif op=='select':
        st=Stream(tokenize(rest)); m.skipattrs(st); tc,c=m.ptv(st); st.expect(','); ta,a=m.ptv(st); st.expect(','); tb,b=m.ptv(st)
        out.append('%s=rt.sel(%s,%s,%s)'%(d,g.val(tc,c,fc),g.val(ta,a,fc),g.val(tb,b,fc)))
    elif op=='extractvalue':
        st=Stream(tokenize(rest)); t,v=m.ptv(st); x=g.val(t,v,fc)
        while st.accept(','): x+='[%s]'%st.next()[1]
        out.append('%s=%s'%(d,x))
    elif op=='insertvalue':
        st=Stream(tokenize(rest)); t,v=m.ptv(st); st.expect(','); t2,v2=m.ptv(st); st.expect(','); i=int(st.next()[1])
        out.append('%s=insv(%s,%d,%s)'%(d,g.val(t,v,fc),i,g.val(t2,v2,fc)))
    elif op=='landingpad':
        clauses=[]
        st=Stream(tokenize(rest)); m.ptype(st); cl=False
        while not st.eof():
            w=st.next()[1]
            if w=='cleanup': cl=True
            elif w=='catch':
                t,v=m.ptv(st); clauses.append(None if v[0]=='null' else v[1])
            elif w=='filter':
                break
        out.append('%s=rt.landing(%r,%r)'%(d,clauses,cl))
    elif op=='resume':
        out.append('raise Throw(rt.exc.obj,rt.exc.ti)')
    elif op=='unreachable':
        out.append('rt.unreachable()')
    elif op=='fence': pass
    elif op=='atomicrmw':
        st=Stream(tokenize(rest)); kind=st.next()[1]; pt,pv=m.ptv(st); st.expect(','); t,v=m.ptv(st)
        k,sz=g.kind(t)
        out.append('%s=rt.atomic(%r,%s,%s,%r,%d)'%(d,kind,g.val(pt,pv,fc),g.val(t,v,fc),k,sz))
    else:
        raise IRError('instruction '+op)

def gep(p,off):
    if type(p) is tuple:
        return (p[0],p[1]+off)
    if type(p) is Undef: return p
    raise EngineError('gep on %r'%(p,))
def insv(a,i,v):
    l=list(a) if type(a) is tuple else []; l+=[UNDEF]*(i+1-len(l)); l[i]=v; return tuple(l)
def ld(rt,p,k,sz):
    if rt.race is None and type(p) is tuple:
        o=p[0]
        if type(o) is Obj and o.alive:
            v=o.cells.get(p[1])
            t=type(v)
            if t is float:
                if k=='f': return v
            elif t is E:
                if k=='f' and v.sort=='R': return v
            elif t is tuple:
                if k=='p': return v
            elif t is int:
                if k=='i32' : return wrap(v,32) if not(-2147483648<=v<=2147483647) else v
    return rt.ld(p,k,sz)
def st(rt,p,v,sz):
    if rt.race is None and type(p) is tuple:
        o,off=p
        if type(o) is Obj and o.alive and type(off) is int and 0<=off<=o.size-sz and not o.const:
            o.cells[off]=v; return
    rt.st(p,v,sz)
def iop(rt,op,a,b,w,nsw):
    if type(a) is int and type(b) is int:
        if op=='+': r=a+b
        elif op=='-': r=a-b
        elif op=='*': r=a*b
        else: return rt.iop(op,a,b,w,nsw)
        if -0x80000000<=r<=0x7fffffff: return r
    return rt.iop(op,a,b,w,nsw)
def icmp(rt,pred,a,b,w):
    if type(a) is int and type(b) is int:
        if pred=='slt': return a<b
        if pred=='eq': return a==b
        if pred=='ne': return a!=b
        if pred=='sgt': return a>b
        if pred=='sle': return a<=b
        if pred=='sge': return a>=b
    return rt.icmp(pred,a,b,w)
