"""Runs the obligations of one property, writes evidence, prints the verdict."""
import os, signal, sys, json, time, traceback, multiprocessing as mpc, hashlib
import contract as C, prove, build
from contract import Res
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED=int(os.environ.get('VERIF_SEED','1') or 1)

FORCE=os.environ.get('VERIF_FORCE_FALLBACK')   # debugging: the bounded stand-in must be quiet where the proof succeeds
def forked(fn):
    """run fn() in a child: a crash of the compiled code is itself a replayable failure"""
    import pickle, tempfile
    r,w=os.pipe(); sys.stdout.flush(); sys.stderr.flush(); log=tempfile.TemporaryFile()
    pid=os.fork()
    if pid==0:
        try:
            os.close(r); C.CALLLOG=log; signal.alarm(200)
            d=pickle.dumps(fn())
        except BaseException as e: d=pickle.dumps(('exc',repr(e)))
        with os.fdopen(w,'wb') as f: f.write(d)
        os._exit(0)
    os.close(w)
    with os.fdopen(r,'rb') as f: d=f.read()
    _,st=os.waitpid(pid,0)
    if not d and st&127==14: raise RuntimeError('concrete run timed out')
    if not d:
        log.seek(0); b=log.read(); 
        inp=pickle.loads(b) if b else None
        return 1,(inp,'the compiled function crashed (signal %d)'%(st&127),'crash','return')
    v=pickle.loads(d)
    if v and v[0]=='exc': raise RuntimeError(v[1])
    return v
class Task:
    """one unit of work: fn() -> (list[Res], set(functions), npaths)"""
    def __init__(s,label,fn,fallback=None): s.label=label; s.fn=fn; s.fallback=fallback
_T=[]
def _run(i,why=None):
    t=_T[i]; t0=time.time()
    try:
        if why: raise RuntimeError(why)
        z0=dict(prove.ZT); p0=dict(prove.STAT)
        r=t.fn()
        res,called,np_=r if isinstance(r,tuple) else (r,set(),0)
    except Exception as e:
        z0=dict(prove.ZT); p0=dict(prove.STAT)
        res,called,np_=[Res('undecided',t.label,'engine',why or traceback.format_exc()[-1500:])],set(),0
    # bounded stand-in / counterexample search on the compiled code
    bad=[x for x in res if x.status in('failed','undecided')]
    if FORCE and t.fallback and not bad:
        try:
            cnt,v=forked(t.fallback)
            if v is not None: res.append(Res('failed','FORCED '+t.label+' : '+str(v[1]),'compiled code','',v))
        except Exception as e: res.append(Res('failed','FORCED '+t.label,'compiled code','%r'%e))
    if bad and t.fallback:
        try:
            cnt,v=forked(t.fallback)
            if v is not None:
                f=[x for x in bad if x.status=='failed']
                if f:
                    for x in f: x.replay=v
                else: res.append(Res('failed',t.label+' : '+str(v[1]),'compiled code','contract clause violated on a concrete run',v))
            else:
                for x in bad:
                    if x.status=='undecided' and cnt>0:
                        x.status='bounded'; x.detail='UNDECIDED by the verifier (%s); %d clause evaluations on the compiled code agree'%(x.detail[-300:],cnt)
        except Exception as e:
            for x in bad: x.detail+=' | replay failed: %s'%e
    return i,res,called,np_,time.time()-t0,prove.ZT['n']-z0['n'],prove.ZT['t']-z0['t'],prove.STAT['pit_samples']-p0['pit_samples']

TASK_TIMEOUT=float(os.environ.get('VERIF_TASK_TIMEOUT','240'))
def _worker(conn):
    while True:
        i=conn.recv()
        if i is None: break
        conn.send(_run(*i))
    os._exit(0)
def pool_run(n,nw=8):
    """like imap_unordered over range(n), but survives workers that crash or hang"""
    from multiprocessing.connection import wait
    if os.environ.get('VERIF_SERIAL'):
        for i in range(n): yield _run(i)
        return
    ctx=mpc.get_context('fork'); todo=[(i,None) for i in range(n)][::-1]; busy={}
    def start():
        a,b=ctx.Pipe()
        p=ctx.Process(target=_worker,args=(b,),daemon=True); p.start(); b.close()
        give(a,p)
    def give(a,p):
        if todo:
            i=todo.pop(); a.send(i); busy[a]=(p,i,time.time())
        else:
            try: a.send(None)
            except OSError: pass
            p.join(1); a.close()
    def lost(i,w,t,why):
        # the verifier gave no answer: the bounded stand-in decides what it can (once)
        if w is None and _T[i].fallback: todo.append((i,why)); return None
        return i,[Res('undecided',_T[i].label,'engine',why)],set(),0,time.time()-t,0,0.,0
    for _ in range(min(nw,n)): start()
    while busy:
        for a in wait(list(busy),timeout=5):
            p,(i,w),t=busy.pop(a)
            try: r=a.recv()
            except (EOFError,OSError):
                p.join(5); a.close()
                x=lost(i,w,t,'worker process died (exit %s) while this task ran'%p.exitcode)
                if x: yield x
                if todo: start()
                continue
            yield r
            give(a,p)
        for a in list(busy):
            p,(i,w),t=busy[a]
            if time.time()-t>TASK_TIMEOUT:
                busy.pop(a); p.kill(); p.join(5); a.close()
                x=lost(i,w,t,'no answer in %ds'%TASK_TIMEOUT)
                if x: yield x
                if todo: start()

def contract_tasks(mods,con,lib,thorough,seed=SEED):
    rp=C.Replayer(lib) if lib is not None else None
    out=[]
    for cfg in con.cases(thorough):
        def fn(cfg=cfg): return C.check_case(mods,con,cfg,seed,rp)
        def fb(cfg=cfg):
            return rp.bounded(con,cfg,seed)
        out.append(Task('%s [%s]'%(con.name,cfg.label()),fn,fb if rp else None))
        if con.special and rp and not cfg['null'] and not cfg.alias and cfg.layout=='contig':
            # near-singular inputs, where a limit formula has to be uniformly accurate: concrete, labelled bounded
            def sp(cfg=cfg):
                L='%s [%s] : near-singular sample points'%(con.name,cfg.label())
                cnt,v=forked(lambda: rp.bounded(con,cfg,seed,only_special=True))
                return [Res('failed' if v else 'bounded',L,'compiled code','%d clause evaluations'%cnt,v)]
            out.append(Task('special '+con.name+cfg.label(),sp))
    return out

def known_findings():
    p=VERIF+'/known-findings.txt'; out=[]
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('finding:'):
                # finding: property=<id> match=<substring of the obligation label> :: text
                h,txt=l.split('::',1); d=dict(x.split('=',1) for x in h.split()[1:])
                out.append((d['property'],d['match'].replace('~',' '),txt.strip()))
    return out

def main(prop,build_tasks,tier,level='proof',assumptions=(),trusted=(),explain=''):
    """build_tasks(thorough)-> list of Task"""
    t0=time.time(); thorough=tier=='thorough'
    try: tasks=build_tasks(thorough)
    except Exception:
        traceback.print_exc(); print('UNDECIDED property=%s: could not build the obligations'%prop); return 2
    global _T; _T=tasks
    results=[]; called=set(); npaths=0; zn=0; zt=0.; pits=0
    it=pool_run(len(tasks))
    slow=[]
    for i,res,cl,n,dt,a,b,c in it:
        results.append((i,res)); called|=cl; npaths+=n; zn+=a; zt+=b; pits+=c; slow.append((dt,tasks[i].label))
    results.sort(key=lambda x:x[0])
    allr=[x for _,r in results for x in r]
    kf=[k for k in known_findings() if k[0]==prop]
    cnt={}
    for x in allr: cnt[x.status]=cnt.get(x.status,0)+1
    failed=[x for x in allr if x.status=='failed']; und=[x for x in allr if x.status=='undecided']
    viol=[]; seenk=set()
    for x in failed:
        m=[k for k in kf if k[1] in x.label]
        if m: seenk.add(m[0])
        else: viol.append(x)
    bk={}
    for x in allr:
        if x.status=='proved': bk[x.backend]=bk.get(x.backend,0)+1
    n_ob=len(allr)
    ev={'property':prop,'tier':tier,'seed':SEED,'level':level,'coverage':{
          'obligations':n_ob,'discharged':cnt.get('proved',0),'discharged_by_back_end':bk,
          'bounded_not_counted_as_proved':cnt.get('bounded',0),'undecided':cnt.get('undecided',0),'failed':len(failed),
          'functions_under_contract':sorted(called),'configurations':len(tasks),'paths':npaths,
          'z3_queries':zn,'z3_seconds':round(zt,2),'identity_samples':pits,
          'slowest':[(round(a,2),b) for a,b in sorted(slow,reverse=True)[:5]],
          'bounded_items':[x.label for x in allr if x.status=='bounded'][:50],
          'samples':[x.label+' -> '+x.status+' by '+x.backend for x in allr[:3]+allr[-2:]],
          'checker_cmd':'cd %s && ./check %s %s'%(VERIF,prop,tier),
          'trusted_base':list(trusted)+TRUST},
        'assumptions':list(assumptions)+ASSUME,'wall_s':round(time.time()-t0,2),'violations':len(viol)}
    os.makedirs(VERIF+'/evidence',exist_ok=True)
    json.dump(ev,open(VERIF+'/evidence/%s.json'%prop,'w'),indent=1)
    for k in sorted(seenk): print('KNOWN-FINDING: property=%s %s'%(prop,k[2]))
    print('%s: %d obligations, %d proved, %d bounded, %d undecided, %d failed; %d configurations, %d functions, %.1fs'%(prop,n_ob,cnt.get('proved',0),cnt.get('bounded',0),len(und),len(failed),len(tasks),len(called),time.time()-t0))
    if n_ob==0: print('no obligations generated'); return 2
    if viol:
        os.makedirs(VERIF+'/replays',exist_ok=True)
        viol.sort(key=lambda x: 0 if x.replay else 1)
        p=VERIF+'/replays/%s.json'%prop
        json.dump([{'obligation':x.label,'back_end':x.backend,'detail':x.detail,
                    'replay':None if not x.replay else {'inputs':x.replay[0],'clause':str(x.replay[1]),'got':x.replay[2],'expected':x.replay[3]}} for x in viol[:40]],open(p,'w'),indent=1,default=str)
        for x in viol[:6]: print('  failed: %s | %s | %s'%(x.label[:300],x.backend,str(x.replay or x.detail)[:400]))
        print('VIOLATION property=%s replay=%s%s'%(prop,p,'' if viol[0].replay else ' no-failing-input-found'))
        return 1
    if und:
        for x in und[:8]: print('  undecided: %s | %s | %s'%(x.label[:300],x.backend,x.detail[-600:]))
        return 2
    return 0
ASSUME=['machine doubles are treated as exact reals (rounding, overflow, NaN propagation not modelled)',
        'double literals are read as the simple rational or multiple of pi that rounds to them',
        'int/long arithmetic is mathematical except where a concrete overflow is detected',
        'caller-supplied strides address distinct, non-overlapping elements unless an in-place configuration says otherwise']
TRUST=['clang-18 -O0 + sroa as the C/C++ front end (its IR is the verified text)','/verif/engine symbolic executor and VC generator',
       'identity back end: Schwartz-Zippel over F_(2^127-1), error < degree/2^127 per sample','z3 4.x (feasibility, integer and region obligations)','libm functions mean the mathematical functions']
