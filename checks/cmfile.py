"""C18: camera models on disk.  mrcal_write_cameramodel_file() under contract: with the C library's streams modelled by their contracts,
the text it writes is, for any lens model, any number of parameters (generic iteration of its loop) and any values, a model in the
grammar of the reader, with every number printed with 17 digits or more (which identify a double), and it reports success exactly when
everything went through.  The readers and the Python package are exercised on many models, valid texts and malformed texts (bounded)."""
import ctypes, json, os, random, re, subprocess, math, sym as S, prove, build, direct, report, loops, lens, unproj, cases as CA
import numpy as np, cmfile_texts as T
from sym import *
from execu import Ptr, NULL, Undecided, Fork
from contract import Res
import contract
from report import Task
from icon import probe
from optcb_proof import isnull
D8=direct.D8; V=S.sym
_off=None
def off():
    global _off
    if _off is None:
        v=probe('printf("%zu %zu %zu %zu",offsetof(mrcal_cameramodel_VOID_t,rt_cam_ref),offsetof(mrcal_cameramodel_VOID_t,imagersize),offsetof(mrcal_cameramodel_VOID_t,lensmodel),offsetof(mrcal_cameramodel_VOID_t,intrinsics));')
        _off=dict(zip(('rt','imagersize','lensmodel','intrinsics'),v))
    return _off
# ------------------------------------------------------------------ the writer, under contract
FMT=re.compile(r'%%|%(?:#|0|-|\+| )*\d*(?:\.(\d+))?(?:l|ll|z)?([a-zA-Z])')
def cstr(x,st,p):
    out=[]
    for k in range(4096):
        c=x.load(st,x.fmod['mrcal_write_cameramodel_file'],('int',8),Ptr(p.obj,S.iadd(p.off,k)))
        if not isinstance(c,int): raise Undecided('text')
        if c==0: return bytes(out).decode('latin1')
        out.append(c&255)
    raise Undecided('text')
def v_writer(mods):
    NP,K=S.isym('NP'),S.isym('K'); o=off(); rs=[]; L='mrcal_write_cameramodel_file'
    def once(learn,k):
        hook,back,entries=unproj.generic(L,k,learn); cnt=[0]
        def put(st,*w): st.log=list(st.log)+[w]
        def atom(st,nm):
            c=S.Cond('atom',(nm,)); return c
        def fork(st,c):
            if c in st.pset: return True
            if cnot(c) in st.pset: return False
            raise Fork(c)
        FP=None
        def fopen(x,st,a,ins):
            if not(isinstance(a[0],Ptr) and same(a[0],fname)): raise Undecided('file name')
            if not cstr(x,st,a[1]).startswith('w'): raise Undecided('mode')
            if fork(st,S.Cond('atom',('opens',))): put(st,'open'); return fp
            return NULL
        def txt(fpos):
            def f(x,st,a,ins): 
                if not same(a[1],fp): raise Undecided('stream')
                put(st,'txt',cstr(x,st,a[0])); return 0
            return f
        def fputc(x,st,a,ins):
            if not same(a[1],fp) or not isinstance(a[0],int): raise Undecided('stream')
            put(st,'txt',chr(a[0]&255)); return a[0]
        def fwrite(x,st,a,ins):
            if not same(a[3],fp) or not isinstance(a[1],int) or not isinstance(a[2],int): raise Undecided('stream')
            put(st,'txt',cstr(x,st,a[0])[:a[1]*a[2]]); return a[2]
        def fprintf(x,st,a,ins):
            if not(isinstance(a[0],Ptr) and same(a[0],fp)): return 0 # messages
            fm=cstr(x,st,a[1]); i=0; args=list(a[2:])
            for m in FMT.finditer(fm):
                if fm[i:m.start()]: put(st,'txt',fm[i:m.start()])
                i=m.end()
                if m.group(0)=='%%': put(st,'txt','%'); continue
                v=args.pop(0); c=m.group(2)
                if c=='s':
                    if isinstance(v,Ptr) and st.meta.get('name') is not None and same(v,st.meta['name']): put(st,'name')
                    else: put(st,'txt',cstr(x,st,v))
                elif c in 'gGeE': put(st,'num',c.lower(),int(m.group(1) or 6),v)
                elif c in 'ud': put(st,'int',c,v)
                else: raise Undecided('format '+m.group(0))
            if fm[i:]: put(st,'txt',fm[i:])
            return 1
        def name(x,st,a,ins):
            if not same(a[2],Ptr(model.obj,o['lensmodel'])) or not isinstance(a[1],int) or a[1]<512: raise Undecided('name')
            ok=fork(st,S.Cond('atom',('named',)))
            st.meta=dict(st.meta); st.meta['name']=a[0]; put(st,'getname',ok); return 1 if ok else 0
        def num(x,st,a,ins):
            if not same(a[0],Ptr(model.obj,o['lensmodel'])): raise Undecided('num_params')
            return NP
        def ferror(x,st,a,ins):
            bad=fork(st,S.Cond('atom',('write error',))); put(st,'ferror'); return 1 if bad else 0
        def fflush(x,st,a,ins):
            bad=fork(st,S.Cond('atom',('flush error',))); put(st,'fflush'); return -1 if bad else 0
        def fclose(x,st,a,ins):
            bad=fork(st,S.Cond('atom',('close error',))); put(st,'close'); return -1 if bad else 0
        def unconf(x,st,a,ins): return fname
        h=direct.H(mods,{'fopen':fopen,'fputs':txt(1),'fputc':fputc,'putc':fputc,'fwrite':fwrite,'fprintf':fprintf,'ferror':ferror,'fflush':fflush,'fclose':fclose,'mrcal_lensmodel_name':name,'mrcal_lensmodel_num_params':num,'mrcal_lensmodel_name_unconfigured':unconf},hook)
        fname=h.obj('filename',8,'in',lambda off,ty: 97 if off<1 else 0); fp=h.obj('FILE',8,'in')
        def init(of,ty):
            if isinstance(of,int) and o['rt']<=of<o['rt']+48 and ty==('double',): return V('rt[%d]'%((of-o['rt'])//8))
            if isinstance(of,int) and of in(o['imagersize'],o['imagersize']+4): return S.isym('imagersize%d'%((of-o['imagersize'])//4))
            if ty==('double',): return ('dbl',of) if 0 else V('intr@%s'%(of,))
            raise Undecided('field')
        model=h.obj('model',S.iadd(o['intrinsics'],S.imul(8,NP)),'in',init)
        h.assume(icmp('le',0,S.isym('imagersize0'))); h.assume(icmp('le',0,S.isym('imagersize1')))
        if learn is not None: h.assume(icmp('le',0,k)); h.assume(icmp('le',k,NP))
        done=h.call(L,[fname,model])
        return h,done,back,entries
    def tokens(log):
        """log -> list of ('t',char) and values; None if a number is printed with too few digits"""
        out=[]; buf=''
        def flush():
            nonlocal buf
            out.extend(('t',c) for c in buf if not c.isspace()); buf=''
        quote=None
        for e in log:
            if e[0]=='txt': buf+=e[1]
            elif e[0] in('name','num','int'):
                flush(); out.append(e)
        flush(); return out
    def same_str(tok,want): return tok==want
    h,done,back,ent=once(None,0)
    if len(ent)!=1 or len(back)!=1: raise Undecided('loop')
    learn={d:unproj.step(ent[0][d],back[0][1][d]) for d in ent[0]}
    h,done,back,ent=once(learn,K)
    def put(lab,good,det=''): rs.append(Res('proved' if good is True else 'undecided',L+': '+lab,'engine',str(det)[:300] if good is not True else ''))
    if len(back)!=1: raise Undecided('generic iteration')
    st,bv=back[0]
    for d,v in bv.items():
        want=Ptr(ent[0][d].obj,S.iadd(ent[0][d].off,S.imul(S.iadd(K,1),learn[d]))) if isinstance(v,Ptr) else S.iadd(ent[0][d],S.imul(S.iadd(K,1),learn[d]))
        put('the loop is affine in the number of the parameter (%s)'%d,same(v,want) if isinstance(v,Ptr) else S.iadd(v,S.imul(want,-1))==0)
    if st.viol: put('memory safety of the generic iteration',False,st.viol[0])
    i=max(k for k,e in enumerate(st.log) if e==('loop',)); body=tokens(st.log[i:])
    put('parameter K, and a comma, for every K',body==[('num','g',17,V('intr@%s'%S.iadd(o['intrinsics'],S.imul(8,K)),)),('t',',')] or (len(body)==2 and body[0][0]=='num' and prec(body[0]) and body[0][3] is S.sym('intr@%s'%S.iadd(o['intrinsics'],S.imul(8,K))) and body[1]==('t',',')),body)
    put('exactly while K is smaller than the number of parameters',implies(st,icmp('lt',K,NP)))
    fin=[]
    for s in done:
        if s.viol: put('memory safety',False,s.viol[0]); continue
        has=lambda nm: True if S.Cond('atom',(nm,)) in s.pset else False if cnot(S.Cond('atom',(nm,))) in s.pset else None
        opens=has('opens'); closes=[k for k,e in enumerate(s.log) if e[0]=='close']
        if opens is None: put('opens the file',False); continue
        if not opens: put('fails when the file cannot be opened',iszero(s.ret) and not s.log); continue
        put('closes the file, once, at the end',len(closes)==1 and not s.log[closes[0]+1:] and not any(e[0]=='ferror' for e in s.log[closes[0]:]),[e for e in s.log if e[0]!='txt'][-6:])
        lg=[k for k,e in enumerate(s.log) if e==('loop',)]
        complete=bool(lg)
        ferr=[k for k,e in enumerate(s.log) if e[0] in('ferror','fflush')]
        last=max([k for k,e in enumerate(s.log) if e[0] in('txt','num','int','name')],default=-1)
        if iszero(s.ret):
            put('fails only if something went wrong',has('named') is False or has('write error') is True or has('close error') is True or has('flush error') is True or implies(s,icmp('lt',NP,0)))
            continue
        put('success is 1',isone(s.ret))
        # success
        put('success only if the file was closed without an error',has('close error') is False)
        put('success only if no write failed',has('write error') is False and any(e[0]=='ferror' and k>last for k,e in enumerate(s.log)))
        put('success only after the whole list',complete and implies(s,icmp('le',NP,K)) and implies(s,icmp('le',0,NP)))
        if not complete: continue
        pre=tokens(s.log[:lg[0]]); suf=tokens(s.log[lg[-1]:])
        g=grammar(pre,suf,o)
        put('the text is a model with this lens model, these intrinsics, extrinsics and image size',g is True,g)
        fin.append(s)
    put('can succeed',len(fin)>0)
    return rs,h.ex.called,len(done)
def prec(e): return e[1]=='g' and e[2]>=17 or e[1]=='e' and e[2]>=16
def iszero(r): return r in(0,False) or (isinstance(r,S.Cond) and r is S.FALSE)
def isone(r): return r in(1,True) or (isinstance(r,S.Cond) and r is S.TRUE)
def implies(st,c): return CA.implied(st.path,c) is True or c in st.pset or bool(CA.implied(st.path,c))
def same(a,b): return unproj.same(a,b)
def grammar(pre,suf,o):
    """parses prefix + (the parameters, each followed by a comma) + suffix"""
    t=pre+[('LIST',)]+suf; i=0; seen={}
    def ch(): return t[i][1] if i<len(t) and t[i][0]=='t' else None
    def eat(c):
        nonlocal i
        if ch()!=c: raise Undecided('%r expected at %r'%(c,t[max(i-8,0):i+3]))
        i+=1
    def string():
        nonlocal i
        q=ch()
        if q not in('"',"'"): raise Undecided('string expected at %r'%(t[i:i+4],))
        i+=1; out=[]
        while ch()!=q:
            if i>=len(t): raise Undecided('open string')
            out.append(t[i]); i+=1
        i+=1; return out
    eat('{')
    while True:
        k=''.join(e[1] if e[0]=='t' else '?' for e in string()); eat(':')
        if k in seen: return 'repeated '+k
        if k=='lensmodel': v=string()
        else:
            eat('['); v=[]
            while ch()!=']':
                if t[i][0]=='t': raise Undecided('value expected at %r'%(t[i:i+4],))
                v.append(t[i]); i+=1
                if v[-1]==('LIST',): continue
                if ch()==',': i+=1
                elif ch()!=']': raise Undecided('comma expected at %r'%(t[i:i+4],))
            eat(']')
        seen[k]=v
        if ch()==',': i+=1
        elif ch()!='}': raise Undecided("',' or '}' expected at %r"%(t[i:i+4],))
        if ch()=='}': break
    eat('}')
    if i!=len(t): return 'more text after the end'
    ex=[seen.pop(k) for k in ('extrinsics','rt_cam_ref') if k in seen]
    if set(seen)!={'lensmodel','intrinsics','imagersize'} or not ex: return 'keys %r'%sorted(seen)
    ks=list(seen)
    if ks.index('lensmodel')>ks.index('intrinsics'): return 'the lens model must come first'
    if seen['lensmodel']!=[('name',)]: return 'lens model'
    if seen['intrinsics']!=[('LIST',)]: return 'intrinsics'
    for v in ex:
        if len(v)!=6 or any(e[0]!='num' or not prec(e) or e[3] is not S.sym('rt[%d]'%k) for k,e in enumerate(v)): return 'extrinsics %r'%v
    v=seen['imagersize']
    if len(v)!=2 or any(e[0]!='int' or e[1]!='u' or not(e[2] is S.isym('imagersize%d'%k) or e[2]==S.isym('imagersize%d'%k)) for k,e in enumerate(v)): return 'imagersize %r'%v
    return True
# ------------------------------------------------------------------ compiled code
def zero(b,off,n):
    v=np.frombuffer(b,dtype=float,count=n,offset=off); v+=0.
class Cam:
    def __init__(s,lib):
        L=s.L=ctypes.CDLL(lib); s.o=off(); P=ctypes.c_void_p
        for f,r,a in (('mrcal_read_cameramodel_string',P,[ctypes.c_char_p,ctypes.c_int]),('mrcal_read_cameramodel_file',P,[ctypes.c_char_p]),('mrcal_read_cameramodel_string_into',ctypes.c_bool,[P,P,ctypes.c_char_p,ctypes.c_int]),('mrcal_read_cameramodel_file_into',ctypes.c_bool,[P,P,ctypes.c_char_p]),('mrcal_write_cameramodel_file',ctypes.c_bool,[ctypes.c_char_p,P]),('mrcal_lensmodel_from_name',ctypes.c_bool,[P,ctypes.c_char_p]),('mrcal_lensmodel_name',ctypes.c_bool,[P,ctypes.c_int,P]),('mrcal_free_cameramodel',None,[P])):
            getattr(L,f).restype=r; getattr(L,f).argtypes=a
    def make(s,m):
        o=s.o; b=ctypes.create_string_buffer(o['intrinsics']+8*len(m.intr)); a=ctypes.addressof(b)
        if not s.L.mrcal_lensmodel_from_name(a+o['lensmodel'],m.lm.encode()): return None
        ctypes.memmove(a+o['rt'],np.array(m.rt).tobytes(),48); ctypes.memmove(a+o['imagersize'],np.array(m.size,dtype=np.uint32).tobytes(),8); ctypes.memmove(a+o['intrinsics'],np.array(m.intr).tobytes(),8*len(m.intr))
        return b
    def get(s,a,N):
        o=s.o; buf=bytearray(ctypes.string_at(a,o['intrinsics']+8*N)); zero(buf,o['intrinsics'],N); zero(buf,o['rt'],6); buf=bytes(buf); nm=ctypes.create_string_buffer(1024); s.L.mrcal_lensmodel_name(nm,1024,a+o['lensmodel'])
        return (nm.value.decode(),buf[o['intrinsics']:],buf[o['rt']:o['rt']+48],list(np.frombuffer(buf[o['imagersize']:o['imagersize']+8],dtype=np.uint32)))
    def alloc(s,p,N):
        if not p: return None
        r=s.get(p,N); q=ctypes.c_void_p(p); s.L.mrcal_free_cameramodel(ctypes.byref(q)); return r if q.value is None else 'not freed'
    def readall(s,text,N,path):
        """(how, result) by every reader; None: rejected"""
        L=s.L; b=text if isinstance(text,bytes) else text.encode(); out=[]
        log=contract.CALLLOG
        if log: 
            import pickle
            log.seek(0); log.truncate(); log.write(pickle.dumps(dict(text=b[:3000].decode('latin1')))); log.flush()
        open(path,'wb').write(b)
        if b'\0' not in b: out.append(('string',s.alloc(L.mrcal_read_cameramodel_string(b,0),N)))
        if b:
            g=b[:]+b'}{[1' # what lies behind the text does not count
            out.append(('string with a length',s.alloc(L.mrcal_read_cameramodel_string(g,len(b)),N)))
        out.append(('file',s.alloc(L.mrcal_read_cameramodel_file(path.encode()),N)))
        for how in ('string into','file into'):
            if how=='string into' and b'\0' in b: continue
            for cap in {N,N+3,max(N-1,0)}:
                n=s.o['intrinsics']+8*cap+64; buf=ctypes.create_string_buffer(b'\xa5'*n,n); k=ctypes.c_int(cap)
                r=L.mrcal_read_cameramodel_string_into(buf,ctypes.byref(k),b,0) if how=='string into' else L.mrcal_read_cameramodel_file_into(buf,ctypes.byref(k),path.encode())
                if buf.raw[s.o['intrinsics']+8*cap:]!=b'\xa5'*64: out.append((how,'wrote past its buffer')); continue
                if cap<N: out.append((how+' a buffer that is too small',('too small',k.value) if not r else 'accepted')); continue
                out.append((how,s.get(ctypes.addressof(buf),N) if r else (None if k.value==0 else 'rejected with Nintrinsics_max=%d'%k.value)))
        return out
def bounded(lib,seed,n):
    import ast, tempfile, shutil
    C=Cam(lib); d=tempfile.mkdtemp(dir=build.scratch()); path=d+'/m.cameramodel'; cnt=0
    null=os.open('/dev/null',os.O_WRONLY); os.dup2(null,2)
    for it in range(n):
        rng=random.Random(seed*9973+it); m=T.M(rng,False,T.LM[it%len(T.LM)] if it<2*len(T.LM) else None); N=len(m.intr)
        if rng.random()<.1: m.size[rng.randrange(2)]=2**32-1
        b=lambda v: (np.array(v,dtype=float)+0.).tobytes() # -0 and 0 are the same number
        want=(m.lm,b(m.intr),b(m.rt),m.size)
        def e(what,text,got,w=want): return cnt,(dict(seed=seed,model=it,lensmodel=m.lm,intrinsics=m.intr[:20],rt_cam_ref=m.rt,imagersize=m.size,text=text[:3000] if isinstance(text,str) else text[:3000].decode('latin1')),what,repr(got)[:2000],repr(w)[:2000])
        buf=C.make(m)
        if buf is None: return e('the lens model is known','',None)
        # writer
        if os.path.exists(path): os.unlink(path)
        ok=C.L.mrcal_write_cameramodel_file(path.encode(),buf); cnt+=1
        text=open(path).read() if os.path.exists(path) else ''
        if not ok: return e('the writer succeeds',text,ok,True)
        try:
            x=ast.literal_eval(text); ex=[x[k] for k in ('extrinsics','rt_cam_ref') if k in x]
            g=(x['lensmodel'],b(x['intrinsics']),b(ex[0]),list(x['imagersize'])); ex=[b(y) for y in ex]
        except Exception as err: g=repr(err); ex=[]
        if g!=want or any(y!=want[2] for y in ex): return e('what the writer writes',text,g)
        for bad in (d+'/nosuchdirectory/x',)+(('/dev/full',) if os.path.exists('/dev/full') else ()):
            if C.L.mrcal_write_cameramodel_file(bad.encode(),buf): return e('the writer reports that it could not write to '+('/dev/full' if 'full' in bad else 'a directory that does not exist'),'',True,False)
        # readers of what was written, and of other valid texts
        pad=text+'#'+'x'*((-len(text)-2)%4096)+'\n' # ends at the end of a page
        for t in (text,pad)+tuple(T.variant(m,rng) for _ in range(3)):
            for how,g in C.readall(t,N,path):
                cnt+=1; w=want if 'too small' not in how else ('too small',N)
                if g!=w: return e('reading a valid model: '+how,t,g,w)
        for _ in range(8):
            what,t=T.malformed_c(m,rng)
            for how,g in C.readall(t,N,path):
                cnt+=1
                if 'too small' in how:
                    if g=='accepted': return e('a malformed model is rejected (%s): %s'%(what,how),t,g,None)
                elif g is not None: return e('a malformed model is rejected (%s): %s'%(what,how),t,g,None)
        t=T.render(T.entries(m),None); k=rng.randrange(len(t)-2); t=(t[:k]+'\0'+t[k:])
        for how,g in C.readall(t.encode(),N,path):
            if g is not None and g[0]!='too small': return e('a NUL byte inside the model is rejected: '+how,t,g,None)
    shutil.rmtree(d); return cnt,None
def python(lib,pkg,seed,n):
    import tempfile, shutil
    d=tempfile.mkdtemp(dir=build.scratch()); here=os.path.dirname(os.path.abspath(__file__))
    r=subprocess.run(['/usr/bin/python3','-B',here+'/cmfile_driver.py',here,d,lib,json.dumps(off()),str(seed),str(n)],env={'PYTHONPATH':pkg,'PATH':'/usr/bin:/bin','HOME':d,'LC_ALL':'C.UTF-8'},cwd=d,capture_output=True,text=True,timeout=180)
    shutil.rmtree(d)
    for l in r.stdout.splitlines():
        if l.startswith('RESULT '):
            c,v=json.loads(l[7:]); return c,tuple(v) if v else None
    if r.returncode<0: return 1,({},'the Python package crashed (signal %d)'%-r.returncode,r.stderr[-500:],'')
    raise RuntimeError('driver: '+r.stderr[-1500:])
def tasks(thorough):
    mods=build.modules(['mrcal.c']); lib=build.replay_lib(); off(); pkg=build.pypkg(); memo={}
    k=6 if thorough else 1
    def fb(seed=report.SEED): return bounded(lib,seed,150*k)
    def bt(f,label,seed):
        def run():
            c,v=f(seed)
            return [Res('failed' if v else 'bounded',label,'compiled code, %d comparisons'%c,'',v)],set(),0
        return run
    def fork(f): return lambda seed: report.forked(lambda: f(seed))
    out=[Task('mrcal_write_cameramodel_file',lambda: v_writer(mods),fb)]
    for j in range(4): out.append(Task('C reader and writer, every reader, valid and malformed texts (%d)'%j,bt(fork(fb),'C reader and writer, every reader, valid and malformed texts (%d)'%j,report.SEED*16+j)))
    for j in range(3): out.append(Task('Python reader and writer, crossed with C (%d)'%j,bt(fork(lambda seed: python(lib,pkg,seed,50*k)),'Python reader and writer, crossed with C (%d)'%j,report.SEED*16+j)))
    return out
