"""Runs the jobs of one property: builds, explores all paths, decides the
obligations, replays the solver's counterexamples against the real code and
writes the evidence file."""
import os, sys, re, json, time, shutil, subprocess, tempfile, traceback, random, queue
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,VERIF)
sys.setrecursionlimit(100000)
from vf import eng, node as N, smt, rt as RTM, ir
from vf.node import E

class Job:
    def __init__(s,name,src,entry,defs=(),incs=('common/include',),params=None,opts=None,omp=False,nomp=None,native=True,expect_reach=(),maxpaths=2000,bounds='',minpaths=1,nenv=None):
        s.name=name; s.src=os.path.join(VERIF,'harness',src); s.entry=entry; s.defs=list(defs); s.incs=list(incs)
        s.params=params or {}; s.opts=dict(opts or {}); s.opts['params']=s.params; s.omp=omp; s.native=native
        s.expect_reach=list(expect_reach); s.maxpaths=maxpaths; s.bounds=bounds; s.minpaths=minpaths; s.nomp=omp if nomp is None else nomp
        s.ll=None; s.nenv=nenv or {}

_ENG={}
def engine(ll):
    e=_ENG.get(ll)
    if e is None:
        if len(_ENG)>12: _ENG.clear()
        e=_ENG[ll]=eng.Engine(ll)
    return e

def run_task(job,prefixes,slice_s,deadline,quota):
    """explore depth first from the given prefixes for about slice_s seconds"""
    out=dict(paths=0,status={},res={},cands=[],funcs=set(),samples=[],errors=[],dec=0,reached={},left=[],infeasible=0,unk=[],undet=0,steps=0,hangs=[])
    smt.STAT.update(queries=0,time=0.0,sat=0,unsat=0,unknown=0)
    N._tab.clear(); N._mono.clear(); N._poly.clear(); N._byid.clear(); smt.Sol.TR=None; N.FP[0]=bool(job.opts.get('fp')); N.MONO[0]=0 if N.FP[0] else int(job.opts.get('mono',0))
    t0=time.time()
    stack=list(prefixes); rnd=random.Random(12345)
    try: e=engine(job.ll)
    except Exception as ex:
        out['errors'].append('engine: %s'%ex); out['stat']=dict(smt.STAT); return out
    while stack:
        if out['paths'] and (time.time()-t0>slice_s or time.time()>deadline or out['paths']>=quota): break
        pre=stack.pop(rnd.randrange(len(stack))) if job.opts.get('shuffle') else stack.pop()
        r=eng.XRT(e,pre,job.opts)
        try:
            st=r.run(job.entry)
        except (RTM.EngineError,ir.IRError) as ex:
            st='engine'; out['errors'].append('%s (in %s)'%(ex,'/'.join(r.stack[-2:])))
            if os.environ.get('VF_TB'): traceback.print_exc()
        except RecursionError as ex:
            st='engine'; out['errors'].append('recursion')
        except Exception as ex:
            st='engine'; tb=traceback.format_exc().strip().split('\n')
            if os.environ.get('VF_TB'): traceback.print_exc()
            out['errors'].append('%s: %s [%s]'%(type(ex).__name__,ex,' | '.join(tb[-5:-1])))
        out['paths']+=1; out['status'][st]=out['status'].get(st,0)+1
        out['dec']+=len(r.dec); out['steps']+=r.n; out['undet']+=r.undetermined
        out['funcs']|=r.funcs_used
        for k,v in r.reached.items(): out['reached'][k]=out['reached'].get(k,0)+v
        for x in r.results:
            key=(x[0],x[1])
            out['res'][key]=out['res'].get(key,0)+1
            if x[0]=='cand': out['cands'].append(dict(kind=x[1],msg=x[2],model=x[3],where=x[4]))
            if x[0]=='unknown' and len(out['unk'])<20: out['unk'].append((x[1],x[2]))
        if st=='budget' and r.n>r.maxn and job.opts.get('hang',True):
            m=r.need_model() if not r.sol.dead else None
            if m is not None: out['cands'].append(dict(kind='hang',msg='the call does not terminate within the step budget',model=dict(m),where=list(r.stack[-3:])))
        if st=='done' and len(out['samples'])<2:
            try: m=r.need_model()
            except RTM.Stop: m=None
            if m is not None:
                ob=[]
                for nm,v in r.obs:
                    try: x=N.evalf(v,m)
                    except Exception: x=None
                    if isinstance(x,bool): x=int(x)
                    if hasattr(x,'numerator') and not isinstance(x,(int,float)): x=float(x)
                    if isinstance(x,(int,float)): ob.append((nm,float(x)))
                out['samples'].append(dict(model={k:(float(v) if not isinstance(v,bool) else v) for k,v in m.items()},obs=ob,dec=len(r.dec)))
        stack+=r.alts
        del r
    out['left']=stack; out['stat']=dict(smt.STAT); out['secs']=time.time()-t0
    return out

def worker(jobs,qi,qo,deadline):
    import resource
    while True:
        t=qi.get()
        if t is None: return
        ji,prefixes,sl,quota=t
        try: o=run_task(jobs[ji],prefixes,sl,deadline,quota)
        except BaseException as ex:
            o=dict(paths=0,status={},res={},cands=[],funcs=set(),samples=[],errors=['worker: %r %s'%(ex,traceback.format_exc()[-400:])],dec=0,reached={},left=[],stat=dict(queries=0,time=0,sat=0,unsat=0,unknown=0),unk=[],undet=0,steps=0,secs=0)
        qo.put((ji,o))

class Check:
    def __init__(s,pid,tier,seed,jobs,assumptions,budget,desc=''):
        s.pid=pid; s.tier=tier; s.seed=seed; s.jobs=jobs; s.assumptions=assumptions; s.budget=budget; s.desc=desc
        s.work=tempfile.mkdtemp(prefix='vf_%s_'%pid,dir='/tmp')
        s.nproc=min(8,os.cpu_count() or 1)
        s.notes=[]
    def build(s):
        """IR for every distinct build"""
        builds={}
        for j in s.jobs: builds.setdefault((j.src,tuple(j.defs),tuple(j.incs),j.omp),[]).append(j)
        errs=[]
        def one(k):
            try: return k,eng.build_ir(k[0],list(k[1]),list(k[2]),s.work,omp=k[3])
            except eng.BuildError as ex: return k,ex
        with ThreadPoolExecutor(s.nproc) as ex:
            for k,r in ex.map(one,builds):
                for j in builds[k]:
                    if isinstance(r,Exception): j.ll=None; j.builderr=str(r)
                    else: j.ll=r
        return builds
    def explore(s):
        jobs=s.jobs; t0=time.time(); deadline=t0+s.budget
        qi=mp.Queue(); qo=mp.Queue()
        ps=[mp.Process(target=worker,args=(jobs,qi,qo,deadline),daemon=True) for _ in range(s.nproc)]
        for p in ps: p.start()
        agg=[dict(paths=0,status={},res={},cands=[],funcs=set(),samples=[],errors=[],dec=0,reached={},stat=dict(queries=0,time=0.0,sat=0,unsat=0,unknown=0),left=0,unk=[],undet=0,steps=0,secs=0.0,crash=0) for _ in jobs]
        pend=0; backlog=[(i,[[]]) for i,j in enumerate(jobs) if j.ll]
        inflight=0; fl={}
        backlog.reverse()
        def feed():
            nonlocal inflight
            while backlog and inflight<s.nproc+2:
                i,pre=backlog.pop()
                sl=2.0 if (len(backlog)<s.nproc) else 20.0
                qi.put((i,pre,sl,max(1,jobs[i].maxpaths-agg[i]['paths']))); inflight+=1; fl[i]=fl.get(i,0)+1
        feed()
        while inflight:
            try: i,o=qo.get(timeout=5)
            except queue.Empty:
                dead=[k for k,p in enumerate(ps) if not p.is_alive()]
                if dead:
                    for k in dead:
                        s.notes.append('a worker process died (memory); its task is inconclusive'); inflight-=1
                        ps[k]=mp.Process(target=worker,args=(jobs,qi,qo,deadline),daemon=True); ps[k].start()
                if time.time()>deadline+90:
                    s.notes.append('stopped %d running tasks at the time budget: %s'%(inflight,' '.join(jobs[k].name for k in fl if fl[k]>0)))
                    for k in fl: agg[k]['left']+=fl[k]
                    break
                continue
            inflight-=1; fl[i]-=1
            a=agg[i]
            for k in('paths','dec','undet','steps','secs'): a[k]+=o.get(k,0)
            for k in('status','res','reached'):
                for x,v in o[k].items(): a[k][x]=a[k].get(x,0)+v
            a['cands']+=o['cands']
            if len(a['cands'])>150: o['left']=[]; a['left']+=1
            a['funcs']|=o['funcs']; a['samples']=(a['samples']+o['samples'])[:6]
            a['errors']+=o['errors']; a['unk']=(a['unk']+o['unk'])[:20]
            for k in a['stat']: a['stat'][k]+=o['stat'][k]
            left=o['left']
            if left:
                if time.time()>deadline or a['paths']>=jobs[i].maxpaths: a['left']+=len(left)
                else:
                    # split the remaining subtrees over the workers
                    n=min(len(left),s.nproc if len(backlog)<s.nproc else 1)
                    for k in range(n): backlog.append((i,left[k::n]))
            feed()
        for i,_ in backlog: agg[i]['left']+=1
        for _ in ps: qi.put(None)
        time.sleep(0.05)
        for p in ps:
            if p.is_alive(): p.terminate()
        s.agg=agg
        return agg
    # ------------------------------------------------------------ native
    def native(s,job,kind='plain'):
        san={'plain':None,'asan':'address,undefined,float-cast-overflow,float-divide-by-zero' if False else 'address,undefined,float-cast-overflow'}[kind]
        return eng.build_native(job.src,job.defs,job.incs,s.work,san=san,omp=job.nomp,opt='-O1' if kind=='plain' else '-O1')
    def valfile(s,job,model,fn=None):
        fn=fn or tempfile.mktemp(dir=s.work)
        with open(fn,'w') as f:
            for k,v in job.params.items(): f.write('p %s %r\n'%(k,v))
            for k,v in model.items():
                if isinstance(v,bool): v=int(v)
                f.write('v %s %s\n'%(k,repr(float(v)) if not isinstance(v,int) else v))
        return fn
    def exec(s,cmd,to=60,env=None):
        e=dict(os.environ); e.update(env or {})
        try:
            r=subprocess.run(cmd,capture_output=True,timeout=to,cwd=s.work,env=e)
            return r.returncode,r.stderr.decode('latin1')
        except subprocess.TimeoutExpired as ex:
            return 'timeout',(ex.stderr or b'').decode('latin1')
    def replay(s,job,c):
        """returns None or a description of how the failure shows in the real code"""
        vf=s.valfile(job,c['model'])
        try: exe=s.native(job)
        except eng.BuildError as ex:
            s.notes.append('native build failed: '+str(ex)[:300]); return None
        to=20 if c['kind']=='hang' else 60
        rc,er=s.exec([exe,job.entry,vf],to,job.nenv)
        if 'VF_FAIL' in er:
            return 'native run: '+[l for l in er.split('\n') if 'VF_FAIL' in l][0][:300]
        if rc=='timeout': return 'native run: does not terminate (%d s)'%to
        if isinstance(rc,int) and rc<0: return 'native run: killed by signal %d'%(-rc)
        if c['kind'] in('mem','leak','ub','uninit','lapack','close','assert','throw'):
            if c['kind'] in('mem','leak','ub','lapack'):
                exe=s.native(job,'asan')
                rc,er=s.exec([exe,job.entry,vf],120,{'ASAN_OPTIONS':'detect_leaks=%d:exitcode=98'%(1 if c['kind']=='leak' else 0),'UBSAN_OPTIONS':'halt_on_error=1:exitcode=98'})
                m=re.search(r'(ERROR: (Address|Leak)Sanitizer.*|.*runtime error: .*)',er)
                if m: return 'sanitizer: '+m.group(0)[:300]
            if c['kind']=='leak':      # (LeakSanitizer needs ptrace: not available everywhere)
                rc,er=s.exec(['valgrind','--leak-check=full','--errors-for-leak-kinds=definite','--error-exitcode=97',s.native(job),job.entry,vf],300)
                m=re.search(r'[\d,]+ bytes in [\d,]+ blocks are definitely lost.*',er)
                if m: return 'memcheck: '+m.group(0)[:200]
            if c['kind'] in('uninit','mem','lapack'):
                exe=s.native(job)
                rc,er=s.exec(['valgrind','--quiet','--error-exitcode=97','--leak-check=no',exe,job.entry,vf],300)
                if rc==97:
                    l=[x for x in er.split('\n') if re.search(r'==\d+== \S',x)]
                    return 'memcheck: '+'; '.join(re.sub(r'^==\d+== *','',x) for x in l[:3])[:300]
        return None
    def race_replay(s,job,c):
        """the real code under the deterministic race detector"""
        try: exe=eng.build_race(job.src,job.defs,job.incs,s.work)
        except eng.BuildError as ex:
            s.notes.append('race build failed: '+str(ex)[:300]); return None
        rc,er=s.exec([exe,job.entry,s.valfile(job,c['model'])],120,job.nenv)
        m=re.search(r'VF_FAIL race.*',er)
        return 'native run with instrumented accesses: '+m.group(0)[:200] if m else None
    def validate(s):
        """solver models of explored paths, run on the real code: observations must agree"""
        tot=0; bad=[]; skipped=0
        todo=[]
        for j,a in zip(s.jobs,s.agg):
            if not j.native: continue
            for sm in a['samples'][:s.nval]:
                if sm['obs']: todo.append((j,sm))
        rnd=random.Random(s.seed); rnd.shuffle(todo); todo=todo[:s.maxval]
        def one(x):
            j,sm=x
            try: exe=s.native(j)
            except eng.BuildError as ex: return j,sm,'build',str(ex)
            rc,er=s.exec([exe,j.entry,s.valfile(j,sm['model'])],60,j.nenv)
            return j,sm,rc,er
        # build first (distinct) to avoid races
        seen={}
        for j,_ in todo: seen[(j.src,tuple(j.defs),tuple(j.incs),j.nomp)]=j
        def b(j):
            try: s.native(j)
            except eng.BuildError as ex: s.notes.append('native build: '+str(ex)[:200])
        with ThreadPoolExecutor(s.nproc) as ex: list(ex.map(b,seen.values()))
        with ThreadPoolExecutor(s.nproc) as ex:
            for j,sm,rc,er in ex.map(one,todo):
                if rc==77 : skipped+=1; continue
                got=[(m.group(1),float(m.group(2))) for m in re.finditer(r'VF_OBS (\S+) (\S+)',er)]
                ok=len(got)>=len(sm['obs'])
                if ok:
                    for (n1,v1),(n2,v2) in zip(sm['obs'],got):
                        if n1!=n2 or not(abs(v1-v2)<=1e-6*max(1,abs(v1),abs(v2)) or (v1!=v1 and v2!=v2) or v1==v2): ok=False; bad.append('%s: %s engine %.12g native %.12g'%(j.name,n1,v1,v2)); break
                else: bad.append('%s: native run gave %d of %d observations (rc %s)'%(j.name,len(got),len(sm['obs']),rc))
                if ok: tot+=1
        return tot,bad,skipped
    # ------------------------------------------------------------ all
    def main(s):
        t0=time.time()
        try: return s.main_(t0)
        finally: shutil.rmtree(s.work,ignore_errors=True)
    def main_(s,t0):
        s.nval=2 if s.tier=='quick' else 4; s.maxval=24 if s.tier=='quick' else 120
        os.makedirs(os.path.join(VERIF,'evidence','replays'),exist_ok=True)
        s.build()
        agg=s.explore()
        known=load_known(s.pid)
        viol=[]; kf=set(); unrep=[]
        rp=0
        tlim=time.time()+ (240 if s.tier=='quick' else 900)
        for j,a in zip(s.jobs,agg):
            seen={}
            for c in a['cands']:
                seen.setdefault((c['kind'],c['msg']),[]).append(c)
            for (k,msg),cs in seen.items():
                ident='%s: %s: %s'%(j.name,k,msg)
                how=None; used=None
                for c in cs[:4]:
                    if time.time()>tlim: break
                    if k=='race': how=s.race_replay(j,c)
                    else:
                        rp+=1
                        how=s.replay(j,c)
                    if how: used=c; break
                if how is None:
                    if os.environ.get('VF_SHOW'): print('unreproduced',ident,[c['model'] for c in cs[:3]],[c['where'][:2] for c in cs[:2]])
                    unrep.append(ident); continue
                kn=[x for x in known if re.search(x['match'],ident)]
                if kn:
                    kf.add(kn[0]['what']); continue
                n=len(viol)
                path=os.path.join(VERIF,'evidence','replays','%s-%d.txt'%(s.pid,n))
                with open(path,'w') as f:
                    f.write('property %s\njob %s\nobligation %s: %s\nconfirmed: %s\nwhere: %s\n'%(s.pid,j.name,k,msg,how,' <- '.join(used['where'])))
                    f.write('reproduce: python3-vt /verif/check.py --replay %s\n'%path)
                    f.write('JOB %s\n'%json.dumps(dict(src=j.src,entry=j.entry,defs=j.defs,incs=j.incs,params=j.params,omp=j.nomp)))
                    for kk,v in used['model'].items(): f.write('v %s %r\n'%(kk,int(v) if isinstance(v,bool) else v))
                viol.append((path,ident,how))
        val=s.validate()
        # ------------------------------------------------ report
        res={}
        for a in agg:
            for k,v in a['res'].items(): res[k]=res.get(k,0)+v
        proved=sum(v for k,v in res.items() if k[0]=='proved'); triv=sum(v for k,v in res.items() if k[0]=='trivial')
        unk=sum(v for k,v in res.items() if k[0]=='unknown')
        incon=[]
        for j,a in zip(s.jobs,agg):
            if not j.ll: incon.append('%s: does not build: %s'%(j.name,j.builderr[-400:])); continue
            for e in sorted(set(a['errors']))[:3]: incon.append('%s: not encodable: %s'%(j.name,e[:300]))
            if a['left']: incon.append('%s: %d subtrees unexplored at the bound'%(j.name,a['left']))
            if a['unk']: incon.append('%s: undecided: %s'%(j.name,'; '.join(sorted(set('%s %s'%x for x in a['unk']))[:3])))
            done=a['status'].get('done',0)
            if done<j.minpaths: incon.append('%s: only %d completed paths (%s)'%(j.name,done,a['status']))
            for r in j.expect_reach:
                if not a['reached'].get(r): incon.append('%s: never reached %s'%(j.name,r))
        for u in unrep: incon.append('counterexample not reproduced by the real code (not reported): '+u)
        funcs=set()
        for a in agg: funcs|=a['funcs']
        stat=dict(queries=sum(a['stat']['queries'] for a in agg),sat=sum(a['stat']['sat'] for a in agg),unsat=sum(a['stat']['unsat'] for a in agg),unknown=sum(a['stat']['unknown'] for a in agg),solver_s=round(sum(a['stat']['time'] for a in agg),2))
        dem=demangle(sorted(f for f in funcs if not f.startswith(('h_','_GLOBAL','__cxx','_ZN7harness'))))
        samples=[]
        for j,a in zip(s.jobs,agg):
            for sm in a['samples'][:1]:
                samples.append(dict(job=j.name,model={k:v for k,v in list(sm['model'].items())[:12]},observed=sm['obs'][:8],decisions=sm['dec']))
            if len(samples)>=8: break
        if not samples: samples=[dict(job=j.name,status=a['status']) for j,a in zip(s.jobs,agg)][:5]
        ev=dict(property=s.pid,tier=s.tier,seed=s.seed,level='model_checking',
          coverage=dict(states=sum(a['paths'] for a in agg),transitions=sum(a['dec'] for a in agg),
            traces_validated_against_impl=val[0]+rp,samples=samples,
            exhaustive=not incon,
            explanation='states = symbolic paths executed on the IR of the current tree, transitions = branch decisions taken on them, traces_validated = solver models whose observations were compared with a native run of the real code (plus replayed counterexamples)',
            jobs={j.name:dict(paths=a['paths'],cpu_s=round(a['secs'],1),status=a['status'],bounds=j.bounds,params=j.params,ir_steps=a['steps'],decided={'%s/%s'%k:v for k,v in sorted(a['res'].items())}) for j,a in zip(s.jobs,agg)},
            obligations_total=proved+triv+unk+sum(v for k,v in res.items() if k[0]=='cand'),
            obligations_proved_by_solver=proved,obligations_decided_without_solver=triv,obligations_unknown=unk,
            queries=stat,functions_encoded=dem,
            encoder_mismatches=val[1],inconclusive=incon,notes=s.notes),
          assumptions=s.assumptions,wall_s=round(time.time()-t0,2),violations=len(viol))
        with open(os.path.join(VERIF,'evidence',s.pid+'.json'),'w') as f: json.dump(ev,f,indent=1,default=str)
        print('%s [%s]: %d jobs, %d paths, %d decisions, %d obligations proved, %d constant, %d undecided; %d solver queries (%.1fs); %d traces validated, %d mismatches; %.1fs'%(s.pid,s.tier,len(s.jobs),ev['coverage']['states'],ev['coverage']['transitions'],proved,triv,unk,stat['queries'],stat['solver_s'],val[0],len(val[1]),time.time()-t0))
        g={}
        for x in incon: g.setdefault(x.split(': ',1)[-1][:120],[]).append(x)
        for k,x in list(g.items())[:12]: print('INCONCLUSIVE '+x[0][:300]+(' (and %d more alike)'%(len(x)-1) if len(x)>1 else ''))
        for x in val[1][:10]: print('MISMATCH '+x)
        for x in s.notes: print('NOTE '+x)
        for x in sorted(kf): print('KNOWN-FINDING: property=%s %s'%(s.pid,x))
        for p,i,h in viol[:30]:
            print('  '+i+' -- '+h)
        for p,i,h in viol[:20]: print('VIOLATION property=%s replay=%s'%(s.pid,p))
        sys.stdout.flush()
        return 1 if viol else 0

def demangle(l):
    try:
        r=subprocess.run(['c++filt'],input='\n'.join(l),capture_output=True,text=True)
        return [x for x in r.stdout.split('\n') if x and not x.startswith(('std::','__gnu','operator '))]
    except Exception: return l
def load_known(pid):
    fn=os.path.join(VERIF,'known_findings.jsonl'); out=[]
    if os.path.exists(fn):
        for l in open(fn):
            l=l.strip()
            if not l or l.startswith('#'): continue
            if l.startswith('fixed:'): continue
            d=json.loads(l)
            if d.get('property')==pid and d.get('status')=='open': out.append(d)
    return out
def do_replay(path):
    job=None; model={}
    for l in open(path):
        if l.startswith('JOB '): job=json.loads(l[4:])
        elif l.startswith('v '):
            _,k,v=l.split(None,2); model[k]=eval(v)
        elif not l.startswith('reproduce'): print(l,end='')
    w=tempfile.mkdtemp(prefix='vfr_')
    try:
        fn=os.path.join(w,'vals')
        with open(fn,'w') as f:
            for k,v in job['params'].items(): f.write('p %s %r\n'%(k,v))
            for k,v in model.items(): f.write('v %s %r\n'%(k,v))
        for san in(None,'address,undefined,float-cast-overflow'):
            exe=eng.build_native(job['src'],job['defs'],job['incs'],w,san=san,omp=job['omp'])
            print('---',san or 'plain')
            try: subprocess.run([exe,job['entry'],fn],timeout=60)
            except subprocess.TimeoutExpired: print('does not terminate within 60 s')
    finally: shutil.rmtree(w,ignore_errors=True)
