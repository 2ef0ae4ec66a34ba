"""C11: packing / unpacking of the state vector.

The state vector is a sequence of typed elements (core, distortion, extrinsics, frames,
points, warp).  The ghost is the next element to be produced (block, item, component): every store of the
real code must be the next destination (or one of the following few, all filled before the next loop
iteration) with the specified value.  Loop invariants are guessed from concrete runs and proved inductive."""
import ctypes, itertools, random, struct
import sym as S, prove, loops, build, execu, contract as C, icon
from sym import *
from execu import *
from contract import Res
from report import Task
from icon import probe, ceval
from tri import fit, lt, le, eq, sub, isb, num, key, split, snap
V=isym
DBG=0
_f=itertools.count()
ORDER=['core','dist','extr','frames','points','warp','end']
NCOMP={'core':4,'dist':1,'extr':6,'frames':6,'points':3,'warp':2,'end':0}
_sc=None
def scales():
    """(block, component) -> E, from the current scales.h"""
    global _sc
    if _sc is None:
        nm=['SCALE_INTRINSICS_FOCAL_LENGTH','SCALE_INTRINSICS_CENTER_PIXEL','SCALE_ROTATION_CAMERA','SCALE_TRANSLATION_CAMERA','SCALE_ROTATION_FRAME','SCALE_TRANSLATION_FRAME','SCALE_POSITION_POINT','SCALE_CALOBJECT_WARP','SCALE_DISTORTION']
        v=probe(''.join('{double x=%s; long long i; memcpy(&i,&x,8); printf("%%lld ",i);}'%n for n in nm),('mrcal.h','scales.h'))
        x={n:struct.unpack('<d',struct.pack('<q',i))[0] for n,i in zip(nm,v)}
        f,c,rc,tc,rf,tf,p,w,d=[x[n] for n in nm]
        _sc={'core':[f,f,c,c],'dist':[d],'extr':[rc]*3+[tc]*3,'frames':[rf]*3+[tf]*3,'points':[p]*3,'warp':[w]*2}
    return _sc
class Layout:
    """elements of the state vector for one model and selection"""
    def __init__(s,m,k):
        s.m=m; s.k=k; s.nopt=m.nopt(k); s.npv=sub(V('Np'),V('Npf')); s.ndist=iadd(m.npar,-4)
        s.off={}; o=0; s.cnt={}
        for b,c,per in (('core',V('Nci'),s.nopt),('extr',V('Nce'),6 if k['extr'] else 0),('frames',V('Nf'),6 if k['frames'] else 0),('points',s.npv,3 if k['frames'] else 0)):
            s.off[b]=o; s.cnt[b]=c if per!=0 else 0; o=iadd(o,imul(c,per))
        s.off['dist']=s.off['core']; s.cnt['dist']=s.cnt['core']
        s.off['warp']=o; s.off['end']=o
    def total(s,warp): return iadd(s.off['warp'],2 if warp else 0)
    def first(s,i):
        """first element of camera i"""
        return ('core',i,0,0) if s.k['core'] else ('dist',i,0,0)
    def pos(s,g):
        b,i,c,d=g
        if b=='core': return iadd(imul(i,s.nopt),c)
        if b=='dist': return iadd(iadd(imul(i,s.nopt),4 if s.k['core'] else 0),d)
        if b=='end': return V('$end')
        return iadd(s.off[b],iadd(imul(i,NCOMP[b]),c))
    def norm(s,g,dec):
        """skip what is empty or finished; dec(cond) -> bool (or raises Fork)"""
        while True:
            b,i,c,d=g
            if b=='end': return g
            if b=='warp':
                if c>=2: g=('end',0,0,0); continue
                if c==0 and not(s.k['warp'] and dec(lt(0,V('Nob')))): g=('end',0,0,0); continue
                return g
            if b in('core','dist') and s.nopt==0 or b not in('core','dist') and s.cnt[b]==0: g=s.next(b); continue
            if b=='core' and c>=4: g=('dist',i,0,0) if s.k['dist'] else ('core',iadd(i,1),0,0); continue
            if b=='dist' and dec(le(s.ndist,d)): g=s.first(iadd(i,1)); continue
            if b in('extr','frames','points') and c>=NCOMP[b]: g=(b,iadd(i,1),0,0); continue
            if c==0 and (b!='dist' or d==0) and dec(le(s.cnt[b],i)): g=s.next(b); continue
            return g
    def next(s,b):
        n={'core':'extr','dist':'extr','extr':'frames','frames':'points','points':'warp'}[b]
        return (n,0,0,0)
    def succ(s,g,dec):
        b,i,c,d=g
        return s.norm((b,i,c+1,d) if b!='dist' else (b,i,c,iadd(d,1)),dec)
    def start(s,dec): return s.norm(s.first(0),dec)
    def facts(s,g):
        b,i,c,d=g; f=[]
        if b in('core','dist','extr','frames','points'): f+=[le(0,i),lt(i,s.cnt[b])]
        if b=='dist': f+=[le(0,d),lt(d,s.ndist)]
        if b=='warp' or b=='end': pass
        return f
class Stream:
    """kind: 'inplace' (b only), 'pack' (structs -> b), 'unpack' (b -> structs); op '/' or '*'"""
    WIN=8
    def __init__(s,L,kind,op): s.L=L; s.kind=kind; s.op=op
    def src(s,g):
        """(object, byte offset) of the variable in the structures"""
        b,i,c,d=g; np=s.L.m.npar
        if b=='core': return 'intrinsics',imul(8,iadd(imul(i,np),c))
        if b=='dist': return 'intrinsics',imul(8,iadd(iadd(imul(i,np),4),d))
        if b=='extr': return 'rt_cam_ref',iadd(imul(48,i),8*c)
        if b=='frames': return 'rt_ref_frame',iadd(imul(48,i),8*c)
        if b=='points': return 'points',iadd(imul(24,i),8*c)
        return 'calobject_warp',8*c
    def bpos(s,g): return 'b',imul(8,s.L.pos(g))
    def dest(s,g): return s.src(g) if s.kind=='unpack' else s.bpos(g)
    def frm(s,g): return s.src(g) if s.kind=='pack' else s.bpos(g)
    def want(s,g):
        n,o=s.frm(g); x=cell(n,o); c=S.from_double(scales()[g[0]][g[2]])
        return S.div(x,c) if s.op=='/' else S.mul(x,c)
NAMES=['b','intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp']
def cell(n,o): return S.sym('%s@(%s)'%(n,o))
class SExec(Exec):
    """stores to the tracked arrays go to the stream"""
    stream=None
    def dec(s,st):
        def d(c):
            if isinstance(c,bool): return c
            r=s.decide(st,c)
            if r is None:
                if loops.iproves(st.path,c): r=True
                elif loops.iproves(st.path,cnot(c)): r=False
                else: raise Fork(c)
                st.assume(c if r else cnot(c))
            return bool(r)
        return d
    def load(s,st,mod,ty,p):
        if isinstance(p,Ptr) and p.obj in st.mem and st.o(p.obj).name in NAMES and mod.resolve(ty)[0]=='double':
            o=st.o(p.obj); off=p.off; d=s.dec(st)
            if s.env is None:
                g=s.stream.L.norm(st.meta['g'],d)
                if o.name==s.stream.dest(g if g[0]!='end' else ('warp',0,0,0))[0] or s.stream.kind=='inplace':
                    # own destination: only elements not written yet
                    for n,gg in s.window(st,g,d):
                        if gg[0]=='end': break
                        if s.same(st,off,s.stream.dest(gg)[1]):
                            if n in st.meta['pend']: return st.meta['pend'][n]
                            return cell(o.name,s.canon(st,off))
                    raise Undecided('read of the destination out of order')
                return cell(o.name,s.canon(st,off))
            return cell(o.name,off)
        return super().load(st,mod,ty,p)
    def same(s,st,a,b):
        x=s.canon(st,sub(a,b)) if not(isinstance(a,int) and isinstance(b,int)) else a-b
        return x==0
    def window(s,st,g,d):
        for n in range(s.stream.WIN):
            yield n,g
            if g[0]=='end': return
            g=s.stream.L.succ(g,d)
    def store(s,st,mod,ty,v,p):
        if isinstance(p,Ptr) and p.obj in st.mem and st.o(p.obj).name in NAMES and mod.resolve(ty)[0]=='double':
            o=st.o(p.obj); d=s.dec(st); L=s.stream.L
            if s.env is not None: d=lambda c: ceval(isb(c,s.env),{})
            g=L.norm(st.meta['g'],d); hit=None; nx=[]
            for n,gg in s.window(st,g,d):
                nx.append(gg)
                if gg[0]=='end': break
                nm,do=s.stream.dest(gg)
                if s.env is not None: do=isubst(do,s.env) if isinstance(do,IP) else do
                if nm==o.name and n not in st.meta['pend'] and s.same(st,p.off,do): hit=(n,gg); break
            if hit is None:
                if s.env is not None: raise Undecided('unexpected store in the concrete run')
                st.viol.append(('store to %s+%s: not the next element of the state (%s)'%(o.name,s.canon(st,p.off),g),None,None)); raise Infeasible()
            n,gg=hit; pend=dict(st.meta['pend']); pend[n]=v
            k=0; cur=g
            # advance over the contiguous prefix
            if s.env is None:
                w=s.stream.want(gg); c=sconst(v,w,st)
                st.meta['obl']=st.meta['obl']+[('%s %s component %s'%(gg[0],'value',gg[2]),c,(v,w))]
            cand=list(nx)
            while k in pend:
                nxt=cand[k+1] if k+1<len(cand) else L.succ(cand[k],d)
                if k+1>=len(cand): cand.append(nxt)
                cur=nxt; k+=1
            st.meta['pend']={a-k:b for a,b in pend.items() if a>=k}; st.meta['g']=cur if k else g
            return
        return super().store(st,mod,ty,v,p)
def sconst(v,w,st):
    """stored value == specified value (same scaling up to the rounding of the constant)"""
    if not isinstance(v,E): return False
    m={}
    for e in S.symbols([v,w]):
        if e.op=='s' and '@(' in e.a: m[e]=e
    # cells are compared by their canonical offset
    if v is w: return True
    def canon(e):
        mp={}
        for y in S.symbols([e]):
            if y.op=='s' and y.a in CELLS: pass
        return e
    ok=prove.pit([(v,w)],1)[0]
    if ok is True: return True
    ys=[y for y in S.symbols([v]) if y.op=='s']; wz=[y for y in S.symbols([w]) if y.op=='s']
    if set(ys)==set(wz) and len(ys)==1:
        a=S.subst([v,w],{ys[0]:S.ONE}); b=S.subst([v],{ys[0]:S.const(2)})[0]
        if all(x.op=='c' for x in a) and b.op=='c' and b.a==2*a[0].a and a[1].a!=0 and abs(a[0].a/a[1].a-1)<1e-12: return True
    return ok
CELLS={}
class SProof:
    def __init__(s,fname,mods,L,kind,op,args,env,name,extra=()):
        s.extra=list(extra); s.fname=fname; s.mods=mods; s.L=L; s.kind=kind; s.op=op; s.args=args; s.envs=env; s.name=name
    PRE=['Nci','Nce','Nf','Np','Npf','Nob']
    def pre(s): return [le(0,V(x)) for x in s.PRE]+[le(V('Npf'),V('Np'))]+s.L.m.pre+s.extra
    def mk(s,env):
        ex=SExec(s.mods); ex.stream=Stream(s.L,s.kind,s.op); ex.env=env; st=State(); objs={}
        for n in NAMES:
            o=st.add_obj(Obj(n,None,'output')); objs[n]=Ptr(o.id,0)
        o=st.add_obj(Obj('lensmodel',None,'input')); o.cells.update(s.L.m.cells); o.readonly=True
        if env is not None:
            for q,c in list(o.cells.items()): o.cells[q]=(c[0],isubst(c[1],env) if isinstance(c[1],IP) else c[1])
        lm=Ptr(o.id,0)
        st.meta.update(pend={},obl=[],g=None)
        return ex,st,objs,lm
    def gv(s,g,env=None):
        v={'i':g[1],'d':g[3],'pos':s.L.pos(g) if g[0]!='end' else 0}
        for b in ('extr','frames','points','warp'): v['o_'+b]=s.L.off[b]
        v['npar']=s.L.m.npar
        if env is not None: v={k:isubst(x,env) if isinstance(x,IP) else x for k,x in v.items()}
        return v
    def params(s): return s.PRE+(['Nx','Ny'] if s.L.m.splined else [])
    def concrete(s):
        rec={}; rng=random.Random(3)
        for z in list(itertools.product((0,1),repeat=5))+[(0,)*5]*3+[(0,)+z for z in itertools.product((0,1),repeat=4)]*4+[(0,1,1,1,1)]*3:
            env={p:rng.randint(1,3) for p in s.PRE}; env['Npf']=rng.randint(0,2); env['Np']+=env['Npf']
            for p,q in zip(('Nci','Nce','Nf','Nob'),z):
                if q: env[p]=0
            if z[4]: env['Np']=env['Npf']
            if s.L.m.splined: env.update(Nx=rng.choice((3,3,4)),Ny=rng.choice((3,3,4,5)),Nci=min(env['Nci'],2))
            d=lambda c: ceval(isb(c,env),{})
            if not all(d(c) for c in s.extra): continue
            for warp in (0,):
                ex,st,objs,lm=s.mk(env); st.meta['g']=s.L.start(d)
                a=s.args(objs,lm,V); a=[isubst(x,env) if isinstance(x,IP) else x for x in a]
                def h(x,st,fr,src,tgt):
                    if tgt in loops.natural_loops(fr.fn):
                        g=s.L.norm(st.meta['g'],d)
                        if st.meta['pend']: raise Undecided('hole in the written elements at a loop header')
                        rec.setdefault((key(st),tgt,g[0],g[2]),[]).append((s.gv(g,env),env,isnap(snap(x,st,fr,src,tgt))))
                    return None
                ex.loop_handler=h; ex.call(st,s.fname,a); ex.run(st)
        return rec
    def templates(s,rec):
        T={}
        for h,L in rec.items():
            ks=set(L[0][2])
            for l in L: ks&=set(l[2])
            base=['i','d']+s.params()+['o_extr','o_frames','o_points','o_warp','npar','pos']; rows=[[1]+[g[x] if x in g else e[x] for x in base] for g,e,_ in L]; t={}
            order=[1+base.index(x) for x in ['i','d','pos','o_extr','o_frames','o_points','o_warp','npar']+s.params()]
            for q in ks:
                sp=[split(l[2][q]) for l in L]
                if any(x[1] is None or isinstance(x[1],IP) for x in sp): continue
                c=fit(rows,[x[1] for x in sp],order)
                if c is not None: t[q]=c
            cand=[f for f in (('i',0),('d',0)) if all(g[f[0]]==0 for g,_,_ in L)]
            T[h]=(base,t,cand)
        return T
    def check(s):
        B=(Undecided,S.SymError,KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError)
        try: T=s.templates(s.concrete())
        except B as e: return [Res('undecided',s.name,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
        for _ in range(10):
            dr=[False]
            try: r=s.attempt(T,dr)
            except B as e: return [Res('undecided',s.name,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
            if not dr[0]: return r
        return [Res('undecided',s.name,'invariant inference','no inductive invariant')],set(),0
    def attempt(s,T,dr):
        out=[]; ex,st,objs,lm=s.mk(None); L=s.L
        for c in s.pre(): st.assume(c)
        todo=[]; seen=set(); objid={}; done=[]
        def want(h,q,gv):
            base,t,_=T[h]; c=t[q]; r=c[0]
            for n,x in zip(base,c[1:]):
                if x: r=iadd(r,imul(x,gv[n] if n in gv else V(n)))
            return r
        def h(x,st,fr,src,tgt):
            if tgt not in loops.natural_loops(fr.fn): return None
            if not loops.iconsistent(st.path): return []
            if st.meta['pend']: raise Undecided('hole in the written elements at a loop header')
            g=L.norm(st.meta['g'],x.dec(st)); st.meta['g']=g
            hk=(key(st),tgt,g[0],g[2])
            if hk not in T: raise Undecided('loop header not reached by the concrete runs: %s'%(hk,))
            base,t,cands=T[hk]; now=isnap(snap(x,st,fr,src,tgt)); gv=s.gv(g)
            for q in list(t):
                w=want(hk,q,gv)
                if q in now and isinstance(now[q],Ptr) and objid.setdefault((hk,q),now[q].obj)!=now[q].obj: del t[q]; dr[0]=True; continue
                a=split(now[q])[1] if q in now else None
                if a is None: del t[q]; dr[0]=True; continue
                c=eq(x.canon(st,a),x.canon(st,w))
                if c is True or loops.iproves(st.path,c): out.append(Res('proved','%s : invariant %s at %s'%(s.name,q[1],hk[1:]),'polynomial identity' if c is True else 'z3 (integers)'))
                else:
                    if DBG: print('drop',hk,q,a,'want',w,t[q],[str(z) for z in loops.intconds(st.path)])
                    del t[q]; dr[0]=True
            for f in list(cands):
                c=eq(gv[f[0]],0)
                if c is True or loops.iproves(st.path,c): out.append(Res('proved','%s : invariant fact at %s'%(s.name,hk[1:]),'z3 (integers)'))
                else: cands.remove(f); dr[0]=True
            pc=[c for c in st.path if not ghosty(c)]; sk=(hk,frozenset(pc))
            if sk in seen: return []
            seen.add(sk)
            n_=st.copy(); k=next(_f); zero=set(cands)
            g2=(g[0],0 if ('i',0) in zero or g[0] in('warp','end') else V('$i%d'%k),g[2],0 if ('d',0) in zero or g[0]!='dist' else V('$d%d'%k))
            n_.path=list(pc); n_.pset=set(pc); n_.isub={}
            for c in pc: 
                if c.op=='i==': n_._add_eq(c.a)
            n_.meta=dict(n_.meta); n_.meta['g']=g2; n_.meta['obl']=[]
            for c in L.facts(g2): n_.assume(c)
            f2=n_.frames[-1]; env={}; gv2=s.gv(g2)
            for q in t:
                if q[0]=='e':
                    v=now[q]; w=want(hk,q,gv2); env[q[1]]=Ptr(v.obj,w) if isinstance(v,Ptr) else w
            f2.env=env
            for oid,o in list(n_.mem.items()):
                if o.kind in('output','local') and o.cells:
                    o=n_.w(oid)
                    for off in list(o.cells):
                        if not isinstance(off,int): raise Undecided('symbolic cell at a loop header')
                        q=('m',o.name,off,o.cells[off][0])
                        if q in t: o.cells[off]=(o.cells[off][0],want(hk,q,gv2))
                        else: del o.cells[off]
            f2.prev=src; f2.blk=tgt; blk=f2.fn.blocks[tgt]; f2.ip=0
            while blk[f2.ip].op=='phi': f2.ip+=1
            flush(st); todo.append(n_)
            return []
        def flush(st):
            for lb,c,(v,w) in st.meta['obl']:
                out.append(Res('proved' if c is True else 'failed' if c is False else 'undecided','%s : %s'%(s.name,lb),'pit','' if c is True else 'stored %s, specified %s; path %s'%(S.show(v,6),S.show(w,6),[str(z) for z in st.path])))
            st.meta['obl']=[]
        def h2(x,st,fr,src,tgt):
            try: r=h(x,st,fr,src,tgt)
            except Fork: raise
            if r==[]: flush(st)
            return r
        ex.loop_handler=h2
        d0=ex.dec(st)
        # the first element is decided lazily
        st.meta['g']=L.first(0)
        ex.call(st,s.fname,s.args(objs,lm,V)); done+=ex.run(st)
        while todo: done+=ex.run(todo.pop())
        if dr[0]: return None
        rets=0
        for k,d in enumerate(done):
            if not loops.iconsistent(d.path): continue
            Lb='%s path %d/%d'%(s.name,k+1,len(done))
            flush(d)
            if d.viol: out.append(Res('failed',Lb+' : '+str(d.viol[0][0]),'symbolic execution','path %s'%([str(c) for c in d.path],))); continue
            # everything was produced
            work=[(d.path,d.meta['g'])]; ok=not d.meta['pend']
            while work and ok:
                pth,g=work.pop()
                def dec(c):
                    if isinstance(c,bool): return c
                    if loops.iproves(pth,c): return True
                    if loops.iproves(pth,cnot(c)): return False
                    raise Fork(c)
                try: g=L.norm(g,dec)
                except Fork as f:
                    work+=[(pth+[f.cond],g),(pth+[cnot(f.cond)],g)]; continue
                if not loops.iconsistent(pth): continue
                if g[0]!='end': ok=False
            rets+=1
            out.append(Res('proved' if ok else 'failed',Lb+' : every element of the state was produced','ghost position','' if ok else 'stopped at %s, path %s'%(g,[str(c) for c in d.path])))
        if not rets and not any(r.status=='failed' for r in out): out.append(Res('undecided',s.name,'vacuity','no path returns'))
        return out,ex.called,len(done)
def isnap(n): return {q:v for q,v in n.items() if q[0]=='e' or q[1] not in NAMES}
def ghosty(c): return c is False or any(not isinstance(a,str) or a[:2] in('$i','$d') for a in loops.catoms(c))
# ------------------------------------------------------------------ bounded, on the compiled code
def bounded(lib,thorough,models,k,sb):
    """pack and unpack of random problems against the element table"""
    import numpy as np
    rng=random.Random(7); cnt=0; P=ctypes.POINTER(ctypes.c_double)
    for m in models:
        L=Layout(m,k)
        for it in range(20 if thorough else 6):
            env={p:rng.randint(0,3) for p in SProof.PRE}; env['Npf']=min(env['Npf'],env['Np'])
            if it==0: env.update(Nci=2,Nce=2,Nf=2,Np=3,Npf=1,Nob=1)
            if m.splined: env.update(Nx=4,Ny=5)
            d=lambda c: ceval(isb(c,env),{})
            g=L.start(d); sc=[]
            while g[0]!='end': sc.append(scales()[g[0]][g[2]]); g=L.succ(g,d)
            n=len(sc); b0=np.random.default_rng(it).standard_normal(n+4)*3
            lm=m.conc(env)
            for fn,op in ('mrcal_pack_solver_state_vector',lambda x,s: x/s),('mrcal_unpack_solver_state_vector',lambda x,s: x*s):
                b=b0.copy(); ci=ctypes.c_int
                getattr(lib,fn)(b.ctypes.data_as(P),ci(env['Nci']),ci(env['Nce']),ci(env['Nf']),ci(env['Np']),ci(env['Npf']),ci(env['Nob']),ctypes.c_ubyte(sb),ctypes.create_string_buffer(lm,len(lm)))
                w=b0.copy(); w[:n]=[op(x,s) for x,s in zip(b0[:n],sc)]; cnt+=n
                for j in range(n+4):
                    if not abs(b[j]-w[j])<=1e-9*(1+abs(w[j])): return cnt,(dict(env,model=m.name,selections=sb,element=j,input=float(b0[j])),fn,float(b[j]),float(w[j]))
    return cnt,None
def c11(thorough):
    from layout import MODELS,sels,FILES
    mods=build.modules(FILES); lib=C.load_lib(); out=[]; scales()
    for n,m in enumerate(MODELS()):
        for k,sb in sels(('core','dist','extr','frames','warp')):
            rest=k['extr']+k['frames']+k['warp']
            if not thorough and (n==2 or n==3 or n==1 and rest in(1,2) or n==4 and not(rest==3 or rest==0)): continue
            L=Layout(m,k); lb=' <%s> sel=%s'%(m.name,''.join(n+' ' for n in k if k[n]).strip() or 'none')
            def vec(o,lm,V,sb=sb): return [o['b']]+[V(x) for x in('Nci','Nce','Nf','Np','Npf','Nob')]+[sb,lm]
            cons=[SProof('mrcal_pack_solver_state_vector',mods,L,'inplace','/',vec,None,'mrcal_pack_solver_state_vector'+lb),
                  SProof('mrcal_unpack_solver_state_vector',mods,L,'inplace','*',vec,None,'mrcal_unpack_solver_state_vector'+lb)]
            if thorough or k['core']+k['dist']+k['extr']+k['frames']+k['warp'] in(1,3,5):
                for w in ((1,0) if k['warp'] else (0,)):
                    ns=L.total(w); ex=[lt(0,V('Nob')) if w else le(V('Nob'),0)] if k['warp'] else []
                    def pk(o,lm,V,sb=sb,L=L,ns=ns): return [o['b'],lm,o['intrinsics'],o['rt_cam_ref'],o['rt_ref_frame'],o['points'],o['calobject_warp'],sb,V('Nci'),V('Nce'),V('Nf'),L.npv,V('Nob'),ns]
                    def up(o,lm,V,sb=sb,L=L,ns=ns): return [o['intrinsics'],o['rt_cam_ref'],o['rt_ref_frame'],o['points'],o['calobject_warp'],o['b'],lm,sb,V('Nci'),V('Nce'),V('Nf'),L.npv,V('Nob'),ns]
                    cons+=[SProof('pack_solver_state',mods,L,'pack','/',pk,None,'pack_solver_state'+lb+' warp=%d'%w,ex),SProof('unpack_solver_state',mods,L,'unpack','*',up,None,'unpack_solver_state'+lb+' warp=%d'%w,ex)]
            if k['dist'] and not k['core'] and L.nopt==0:
                # the camera loop produces nothing: its counter is not a function of the position in the state
                def only(m=m,k=k,sb=sb,lb=lb):
                    n,v=bounded(lib,thorough,[m],k,sb)
                    return [Res('failed' if v else 'bounded','pack/unpack'+lb+' : camera loop without elements','compiled code',str(n),v)],set(),0
                out.append(Task('pack/unpack'+lb,only,lambda m=m,k=k,sb=sb: bounded(lib,thorough,[m],k,sb)))
                continue
            def fn(cons=cons):
                r=[]; cl=set(); n=0
                for c in cons:
                    a,b,d=c.check(); r+=a; cl|=b; n+=d
                return r,cl,n
            out.append(Task('pack/unpack'+lb,fn,lambda m=m,k=k,sb=sb: bounded(lib,thorough,[m],k,sb)))
    return out
