"""C21: unprojection.  _mrcal_unproject_internal() under contract: for every lens model, every path and a generic point of any number of
points (the loop is shown to be affine in the point index), the reported vector is the closed-form inverse (C07), or the
stereographic unprojection of the state the solver ended at while its error is within the tolerance, or NaN in all three components.
The nonlinear solver (libdogleg) is used through its contract: it moves the two state variables anywhere and returns the sum of
squares of the callback's residuals there, a negative value, or NaN.  The callback is under contract: the residual is the projection
(C05, C06, C12) of the stereographic unprojection (C07) of the state minus the pixel, with its gradient.  That a flipped vector projects to
the same pixel is a lemma over the projection formulas.  End to end, the compiled code is run on many pixels (bounded)."""
import ctypes, math, random, sym as S, prove, build, direct, report, loops, lens, cases as CA
import numpy as np
from sym import *
from execu import Ptr, NULL, Undecided, FPtr, NAN
from contract import Res
import contract
from report import Task
from icon import probe
from optcb_proof import isnull
D8=direct.D8; I32=direct.I32; V=S.sym; Z=S.ZERO
TOL=S.from_double(2e-4) # sum of squares of the pixel error
CLOSED={'LENSMODEL_PINHOLE':'pinhole','LENSMODEL_STEREOGRAPHIC':'stereographic','LENSMODEL_LONLAT':'lonlat','LENSMODEL_LATLON':'latlon'}
ITER=['LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=9_Ny=7_fov_x_deg=120','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=6_Ny=6_fov_x_deg=200']
EVEN={m for m in ITER if 'OPENCV' in m or m=='LENSMODEL_CAHVOR'} # project(-v)==project(v): lemma below
BEHIND={m for m in ITER if 'SPLINED' in m}
U=[V('U[%d]'%i) for i in range(3)]; N2=V('norm2')
def lmobj(h,model):
    import struct
    b=lens.lensmodel_bytes(model)
    def init(off,ty):
        n={'int':lambda: ty[1]//8,'double':lambda: 8}[ty[0]]()
        return S.from_double(struct.unpack('<d',b[off:off+8])[0]) if ty[0]=='double' else int.from_bytes(b[off:off+n],'little')
    return h.obj('lensmodel',len(b),'in',init)
def same(a,b): return isinstance(a,Ptr) and a.obj==b.obj and S.iadd(a.off,S.imul(b.off,-1))==0
def generic(fname,K,learn):
    """loop hook: the loop of fname that makes calls runs one iteration, number K, from the state its variables have then (they are
    affine in the number of the iteration, as the first iteration shows and the generic one confirms)"""
    back=[]; entries=[]
    def calls(fn,blks): return any(i.op=='call' and not str(i.a[0]).startswith('@llvm') and not str(i.a[0]).startswith('llvm') for b in blks for i in fn.blocks[b])
    def hook(x,st,fr,src,tgt):
        if fr.fn.name!=fname: return None
        Ls=loops.natural_loops(fr.fn)
        if tgt not in Ls or not calls(fr.fn,Ls[tgt]): return None
        ph=[i for i in fr.fn.blocks[tgt] if i.op=='phi']
        vals=lambda: {p.dst:x.val(st,p.ty,p.a[src]) for p in ph}
        if src in Ls[tgt]: back.append((st.copy(),vals())); return []
        if entries: raise Undecided('loop entered twice')
        v0=vals(); entries.append(v0)
        if learn is None: new=v0
        else:
            new={}
            for d,v in v0.items():
                if d not in learn: raise Undecided('loop variable')
                dv=learn[d]
                new[d]=Ptr(v.obj,S.iadd(v.off,S.imul(K,dv))) if isinstance(v,Ptr) else S.iadd(v,S.imul(K,dv))
        st.log=list(st.log)+[('loop',)]
        fr.prev=src; fr.blk=tgt
        for d,v in new.items(): fr.env[d]=v
        fr.ip=len(ph); return [st]
    return hook,back,entries
def step(a,b):
    if isinstance(a,Ptr):
        if a.obj!=b.obj: raise Undecided('loop pointer')
        a,b=a.off,b.off
    return S.iadd(b,S.imul(a,-1))
def run_internal(mods,model,nan=False):
    """runs it for a generic point; returns (harness, states at the end of the iteration, states at the end)"""
    N,K=S.isym('N'),S.isym('K'); n=lens.NPAR.get(model) or contract_n(model)
    def once(learn,k):
        hook,back,entries=generic('_mrcal_unproject_internal',k,learn)
        def put(st,what): st.log=list(st.log)+[what]
        def closed(nm):
            def f(x,st,a,ins):
                out,J,q,cnt,f_=a
                inner=any(e==('loop',) for e in st.log)
                if not isnull(J): raise Undecided('gradients asked for')
                if not inner: put(st,('closed',nm,out,q,cnt,f_)); return
                if nm!='stereographic' or cnt!=1: raise Undecided('inner unprojection')
                s=[x.load(st,h.m,D8,Ptr(q.obj,S.iadd(q.off,8*i))) for i in(0,1)]
                put(st,('stereo',out,tuple(s),f_))
                for i in range(3): x.store(st,h.m,D8,U[i],Ptr(out.obj,S.iadd(out.off,8*i)))
            return f
        def seed(x,st,a,ins):
            q,J,p,cnt,f_=a
            if cnt!=1 or not isnull(J): raise Undecided('seed')
            for i in(0,1): x.store(st,h.m,D8,V('seed[%d]'%i),Ptr(q.obj,S.iadd(q.off,8*i)))
        def solver(x,st,a,ins):
            p,ns,nm,f,ck,prm,ctx=a
            c=[x.load(st,h.m,('ptr',),Ptr(ck.obj,S.iadd(ck.off,8*i))) for i in range(4)]
            for i in(0,1): x.store(st,h.m,D8,V('state[%d]'%i),Ptr(p.obj,S.iadd(p.off,8*i)))
            put(st,('solve',p,ns,nm,f,tuple(c),isnull(ctx)))
            return NAN if nan else N2
        over={'mrcal_unproject_'+m: closed(m) for m in CLOSED.values()}
        over.update({'mrcal_project_stereographic':seed,'dogleg_getDefaultParameters':lambda x,st,a,ins: None,'dogleg_optimize_dense2':solver,'strtod':lambda x,st,a,ins: NAN,'nan':lambda x,st,a,ins: NAN})
        h=direct.H(mods,over,hook); h.m=h.ex.find('_mrcal_unproject_internal')[0]
        h.st.meta['nan']=True
        h.assume(icmp('le',0,N),icmp('le',0,K),icmp('lt',K,N))
        out=h.obj('out',imul(N,24),'out'); q=h.obj('q',imul(N,16),'in',lambda off,ty: V('qx') if loops.exdiv(off,16) is not None else V('qy'))
        intr=h.obj('intrinsics',8*n,'in',lambda off,ty: V('intrinsics[%s]'%(off//8)))
        pre=h.obj('precomputed',64,'in',lambda off,ty: (_ for _ in ()).throw(Undecided('precomputed read')))
        done=h.call('_mrcal_unproject_internal',[out,q,N,lmobj(h,model),intr,pre])
        return h,done,back,entries
    if model in CLOSED:
        h,done,back,e=once(None,0); return h,done,back,e,None,N,K
    h,done,back,entries=once(None,0)
    if not back or not entries: raise Undecided('no loop over the points')
    learn={d:step(v,back[0][1][d]) for d,v in entries[0].items()}
    for _,v in back:
        for d in v:
            if step(entries[0][d],v[d])!=learn[d]: raise Undecided('loop variables depend on the path')
    if any(not isinstance(v,int) for v in learn.values()): raise Undecided('loop variables are not affine')
    h,done,back,entries=once(learn,K)
    return h,done,back,entries,learn,N,K
def contract_n(model):
    if 'CAHVORE' in model: return 12
    c=dict(x.split('=') for x in model.replace('LENSMODEL_SPLINED_STEREOGRAPHIC_','').replace('fov_x_deg','fov').split('_'))
    return 4+2*int(c['Nx'])*int(c['Ny'])
def v_internal(mods,model,nan):
    L='_mrcal_unproject_internal <%s%s>'%(model.replace('LENSMODEL_','')[:28],', the solver reports NaN' if nan else '')
    h,done,back,entries,learn,N,K=run_internal(mods,model,nan); rs=[]; O=h.objs
    def put(lab,ok,det=''): rs.append(Res('proved' if ok is True else 'undecided',L+': '+lab,'engine, z3',str(det)[:300] if ok is not True else ''))
    if model in CLOSED:
        k=0
        for s in done:
            if s.viol: put('memory safety',False,s.viol[0]); continue
            k+=1; e=s.log
            put('is the closed-form inverse, for every point, with this lens',len(e)==1 and e[0][:2]==('closed',CLOSED[model]) and same(e[0][2],O['out']) and same(e[0][3],O['q']) and e[0][4]==N and same(e[0][5],O['intrinsics']),e)
            put('succeeds',s.ret in(1,True),s.ret)
        put('returns',k>0); return rs,h.ex.called,len(done)
    central=[cnot(rcmp('eq',V('intrinsics[%d]'%i),Z)) for i in(9,10,11)] if 'CAHVORE' in model else []
    kinds=set(); seen=0; mine=[]
    for s in done:
        if ('loop',) not in s.log:
            if s.viol: put('memory safety',False,s.viol[0]); continue
            ok=s.ret in(0,False)
            if ok: put('gives up only on a noncentral camera',any(c in s.pset or CA.implied([p for p in s.path if p is not True],c) for c in central),s.path); kinds.add('noncentral')
            else: put('no point is skipped',prove.z3_check([c for c in s.path if c is not True],4000)=='unsat',s.path)
        else: mine.append((s,True))
    mine+=[(s,False) for s,_ in back]
    for (s,v) in back:
        put('loop variables are affine in the point index',all(step(entries[0][d],v[d])==imul(S.iadd(K,1),learn[d]) for d in v))
    pk=imul(K,24)
    for s,end in mine:
        if s.viol:
            if prove.z3_check([c for c in s.path if c is not True],4000)=='unsat': continue
            put('memory safety and frame',False,s.viol[0]); continue
        if end and s.log[-1]==('loop',): # leaves before point K < N
            put('every point is processed',prove.z3_check([c for c in s.path if c is not True],4000)=='unsat' or loops.iproves(s.path,False),s.path); continue
        seen+=1
        if end: put('succeeds',s.ret in(1,True),s.ret)
        e=[x for x in s.log[s.log.index(('loop',))+1:]]
        if not e or e[0][0]!='solve': put('solves for the point',False,e); continue
        _,p,ns,nm,f,c,noctx=e[0]
        put('two variables, two measurements',(ns,nm)==(2,2),e[0])
        put('the callback, with this lens and this pixel',isinstance(f,FPtr) and f.name=='_unproject_callback' and same(c[0],O['lensmodel']) and same(c[1],O['intrinsics']) and same(c[2],O['precomputed']) and same(c[3],Ptr(O['q'].obj,imul(K,16))),c)
        put('leaves no solver context behind',noctx)
        if central: put('only central cameras',all(CA.implied([q for q in s.path if q is not True],cnot(q)) for q in central),s.path)
        o=[S.R(h.ex.load(s,h.m,D8,Ptr(O['out'].obj,S.iadd(pk,8*i)))) for i in range(3)]
        path=[q for q in s.path if q is not True and not loops.isint(q)]
        imp=lambda *cs: any(CA.implied(path,q) for q in cs)
        nans=[q is NAN for q in o]
        if any(nans):
            put('failure is NaN in every component',all(nans),o); kinds.add('nan')
            why=[rcmp('lt',TOL,N2),rcmp('lt',N2,Z)]
            ok=nan or imp(*why) or CA.implied(path,cor(why[0],why[1]))
            if not ok and model not in EVEN|BEHIND: ok=imp(rcmp('lt',U[2],Z)); kinds.add('nan-behind')
            put('NaN only when the solve failed%s'%('' if model in EVEN|BEHIND else ' or the vector is behind the camera'),ok,path); continue
        put('the solve succeeded: the error is within the tolerance',(not nan) and imp(rcmp('le',N2,TOL)) and imp(rcmp('le',Z,N2)),path)
        st=[x for x in e if x[0]=='stereo']
        put('the state is unprojected with this lens',len(st)==1 and st[0][2]==(V('state[0]'),V('state[1]')) and same(st[0][3],O['intrinsics']),st)
        plus=all(prove.pit([(o[i],U[i])],1)[0] is True for i in range(3)); minus=all(prove.pit([(o[i],-U[i])],1)[0] is True for i in range(3))
        put('the vector is the unprojected state'+(', or its opposite (an even projection)' if model in EVEN else ''),plus or (minus and model in EVEN),o)
        if model not in BEHIND: put('never behind the camera',imp(rcmp('le',Z,U[2])) if plus else imp(rcmp('le',U[2],Z)) ,path)
        kinds.add('plus' if plus else 'minus')
    put('every point of the loop is covered',seen>0)
    if not nan: put('every outcome occurs',{'nan','plus'}<=kinds and (model not in EVEN or 'minus' in kinds) and (not central or 'noncentral' in kinds),kinds)
    else: put('NaN is reported',kinds-{'noncentral'}=={'nan'},kinds)
    return rs,h.ex.called,len(done)+len(back)
def v_outer(mods,model):
    """mrcal_unproject: passes everything on, or refuses a model without gradients"""
    L='mrcal_unproject <%s>'%model.replace('LENSMODEL_','')[:28]
    N=S.isym('N'); n=lens.NPAR.get(model) or contract_n(model); ok=S.Cond('atom',('ok',))
    def pre(x,st,a,ins): st.log=list(st.log)+[('pre',a[0],a[1])]
    def internal(x,st,a,ins): st.log=list(st.log)+[('int',)+tuple(a)]; return ok
    h=direct.H(mods,{'_mrcal_precompute_lensmodel_data':pre,'_mrcal_unproject_internal':internal})
    h.assume(icmp('le',0,N))
    out=h.obj('out',imul(N,24),'out'); q=h.obj('q',imul(N,16),'in',lambda off,ty: V('q')); intr=h.obj('intrinsics',8*n,'in',lambda off,ty: V('intrinsics[%s]'%(off//8))); lm=lmobj(h,model)
    done=h.call('mrcal_unproject',[out,q,N,lm,intr]); rs=[]
    def put(lab,good,det=''): rs.append(Res('proved' if good is True else 'undecided',L+': '+lab,'engine',str(det)[:300] if good is not True else ''))
    for s in done:
        if s.viol: put('memory safety',False,s.viol[0]); continue
        e=s.log
        put('unprojects these pixels with this lens',len(e)==2 and e[0][0]=='pre' and same(e[0][2],lm) and e[1][0]=='int' and same(e[1][1],out) and same(e[1][2],q) and e[1][3]==N and same(e[1][4],lm) and same(e[1][5],intr) and same(e[1][6],e[0][1]),e)
        good=s.ret is ok or s.ret==ok or (s.ret in(1,True) and ok in s.pset) or (s.ret in(0,False) and cnot(ok) in s.pset)
        put('reports its success',good,s.ret)
    put('returns',len(done)>0)
    return rs,h.ex.called,len(done)
def v_callback(mods,model):
    L='_unproject_callback <%s>'%model.replace('LENSMODEL_','')[:28]; n=lens.NPAR.get(model) or contract_n(model)
    s0=[V('u[0]'),V('u[1]')]; v=[V('v%d'%i) for i in range(3)]; dv=[[V('dv%d.%d'%(i,j)) for j in(0,1)] for i in range(3)]; Q=[V('Q0'),V('Q1')]; dQ=[[V('dQ%d.%d'%(i,j)) for j in range(3)] for i in(0,1)]
    log=[]
    def rd(x,st,p,i): return S.R(x.load(st,h.m,D8,Ptr(p.obj,S.iadd(p.off,8*i))))
    def wr(x,st,p,i,val): x.store(st,h.m,D8,val,Ptr(p.obj,S.iadd(p.off,8*i)))
    def stereo(x,st,a,ins):
        o,J,q,cnt,f=a
        if cnt!=1 or [rd(x,st,q,i) for i in(0,1)]!=s0 or not same(f,h.objs['intrinsics']): raise Undecided('unprojection of something else')
        for i in range(3):
            wr(x,st,o,i,v[i])
            if not isnull(J):
                for j in(0,1): wr(x,st,J,2*i+j,dv[i][j])
    fn=[m for m in mods if 'project' in m.funcs][0].funcs['project']
    names=[str(p[1] if isinstance(p,tuple) else p).lstrip('%') for p in fn.params]
    def proj(x,st,a,ins):
        g=dict(zip(names,a))
        for k in('dq_dintrinsics_pool_double','dq_dintrinsics_pool_int','dq_dfxy','dq_dintrinsics_nocore','gradient_sparse_meta','dq_drcamera','dq_dtcamera','dq_drframe','dq_dcalobject_warp','camera_rt','calobject_warp'):
            if not isnull(g[k]): raise Undecided('project(): %s is given'%k)
        if g['camera_at_identity'] not in(1,True) or g['calibration_object_width_n']!=0: raise Undecided('project(): another object')
        if not(same(g['intrinsics'],h.objs['intrinsics']) and same(g['lensmodel'],h.objs['lensmodel']) and same(g['precomputed'],h.objs['precomputed'])): raise Undecided('project(): another lens')
        if [rd(x,st,g['frame_rt'],i) for i in range(6)]!=[Z,Z,Z]+v: raise Undecided('project(): another point')
        for i in(0,1):
            wr(x,st,g['q'],i,Q[i])
            if not isnull(g['dq_dtframe']):
                for j in range(3): wr(x,st,g['dq_dtframe'],3*i+j,dQ[i][j])
    h=direct.H(mods,{'mrcal_unproject_stereographic':stereo,'project':proj}); h.m=h.ex.find('_unproject_callback')[0]
    u=h.dbl('u',2); lm=lmobj(h,model); intr=h.obj('intrinsics',8*n,'in',lambda off,ty: V('intrinsics[%s]'%(off//8))); q=h.dbl('q',2)
    pre=h.obj('precomputed',64,'in',lambda off,ty: (_ for _ in ()).throw(Undecided('precomputed read')))
    ck=h.obj('cookie',32,'in',lambda off,ty: [lm,intr,pre,q][off//8]); X=h.obj('x',16,'out'); J=h.obj('J',32,'out')
    done=h.call('_unproject_callback',[u,X,J,ck])
    want={'x[%d]'%i: Q[i]-V('q[%d]'%i) for i in(0,1)}
    want.update({'J[%d,%d]'%(i,j): sum((dQ[i][k]*dv[k][j] for k in range(3)),Z) for i in(0,1) for j in(0,1)})
    get=lambda st: dict([('x[%d]'%i,h.rd(st,'x',8*i)) for i in(0,1)]+[('J[%d,%d]'%(i,j),h.rd(st,'J',8*(2*i+j))) for i in(0,1) for j in(0,1)])
    return direct.check(h,done,L,get,[('residual and gradient',want,True)])
def v_even():
    rs=[]
    for m in sorted(EVEN):
        v=[V('p[%d]'%i) for i in range(3)]
        for lab,a,b in zip('xy',lens.qspec(m,v),lens.qspec(m,[-c for c in v])):
            rs.append(Res('proved' if prove.pit([(a,b)],3)[0] is True else 'undecided','lemma: %s projects v and -v to the same pixel: %s'%(m,lab),'pit'))
    return rs,set(),0
# ---------------------------------------------------------------- compiled code, end to end
def rand_lens(rng,model):
    n=lens.NPAR.get('LENSMODEL_CAHVORE' if 'CAHVORE' in model else model) or contract_n(model)
    f=[rng.uniform(300,3000)*rng.choice([1,1,-1]) if rng.random()<.1 else rng.uniform(300,3000) for _ in(0,1)]; c=[rng.uniform(-500,3000) for _ in(0,1)]
    k=rng.choice([0,.01,.1,.5])
    if model in CLOSED: p=[]
    elif 'CAHVORE' in model: p=[rng.uniform(-k,k) for _ in range(5)]+[0.,0.,0.]
    elif 'CAHVOR' in model: p=[rng.uniform(-k,k) for _ in range(5)]
    elif 'SPLINED' in model: p=[rng.uniform(-k,k)*.1 for _ in range(n-4)]
    else: p=[rng.uniform(-k,k)*(.05 if i in(2,3) else 1) for i in range(n-4)]
    return f+c+p
def rand_q(rng,v,model):
    w=rng.random()
    if w<.05: return [rng.choice([float('nan'),float('inf'),-float('inf'),1e300,1e160,0.,v[2]]),rng.choice([0.,v[3],float('nan'),5.])]
    if w<.1: return [v[2],v[3]]
    if 'LONLAT' in model or 'LATLON' in model:
        r=[1.5,1.5]
        r['LATLON' not in model and 'LONLAT' in model]=1.4
        return [v[2]+v[0]*rng.uniform(-1.4,1.4),v[3]+v[1]*rng.uniform(-1.4,1.4)]
    s=rng.choice([.1,1,3])
    return [v[2+i]+v[i]*rng.uniform(-s,s) for i in(0,1)]
def mild(lib,rng,model,lm,count):
    """ordinary lenses, vectors within 45 degrees of the axis: these unproject"""
    D=ctypes.c_double; n=lens.NPAR.get(model) or contract_n(model)
    for t in range(count):
        v=[rng.uniform(300,3000),0]+[rng.uniform(-500,3000) for _ in(0,1)]; v[1]=v[0]*rng.uniform(.8,1.25)
        p=[rng.uniform(-.02,.02)*(.05 if 'OPENCV' in model and i in(2,3) else 1) for i in range(n-4)]
        if 'CAHVORE' in model: p[-3:]=[0.,0.,0.]
        v+=p; x=[rng.uniform(-.7,.7),rng.uniform(-.7,.7),1.]; I=(D*len(v))(*v); q=(D*2)(); o=(D*3)()
        if not lib.mrcal_project(q,None,None,(D*3)(*x),1,lm,I) or not lib.mrcal_unproject(o,q,1,lm,I): return t,({'model':model,'intrinsics':v,'point':x},'returned value',False,True)
        e=max(abs(o[i]/o[2]-x[i]) for i in(0,1)) if o[2] else float('inf')
        if not e<1e-6: return t,({'model':model,'intrinsics':v,'q':list(q)},'vector of the pixel of a point near the axis',list(o),x)
    return count,None
def bounded(seed,count,models=None):
    lib=ctypes.CDLL(build.replay_lib()); D=ctypes.c_double; rng=random.Random(seed); tot=0
    lib.mrcal_unproject.restype=lib.mrcal_project.restype=ctypes.c_bool
    for model in models or list(CLOSED)+ITER+['LENSMODEL_CAHVORE_linearity=0.00','LENSMODEL_CAHVORE_linearity=-0.50']:
        b=lens.lensmodel_bytes(model); lm=(ctypes.c_ubyte*len(b)).from_buffer_copy(b); ok=0
        for t in range(count):
            v=rand_lens(rng,model); N=rng.choice([1,2,3,7]); qs=[rand_q(rng,v,model) for _ in range(N)]
            if rng.random()<.5: # pixels that are certainly somewhere, ahead or behind
                pp=[[rng.gauss(0,1) for _ in range(3)] for _ in range(N)]
                if rng.random()<.6: pp=[[a,c,abs(d)+.3] for a,c,d in pp]
                Q=(D*(2*N))()
                if lib.mrcal_project(Q,None,None,(D*(3*N))(*[c for p in pp for c in p]),N,lm,(D*len(v))(*v)): qs=[[Q[2*i],Q[2*i+1]] for i in range(N)]
            out=(D*(3*N+3))(*([123.25]*(3*N+3))); q=(D*(2*N))(*[c for x in qs for c in x]); I=(D*len(v))(*v)
            if rng.random()<.02 and 'CAHVORE' in model:
                I[11]=.01
                if lib.mrcal_unproject(out,q,N,lm,I): return tot,({'model':model,'intrinsics':list(I)},'success for a noncentral camera',True,False)
                tot+=1; continue
            r=lib.mrcal_unproject(out,q,N,lm,I)
            env={'model':model,'intrinsics':v,'q':qs}
            if not r: return tot,(env,'returned value',r,True)
            if list(out[3*N:])!=[123.25]*3: return tot,(env,'written past the end',list(out[3*N:]),[123.25]*3)
            for i in range(N):
                tot+=1; o=list(out[3*i:3*i+3]); nn=[x!=x for x in o]
                if any(nn) and (model not in CLOSED or all(math.isfinite(x) for x in qs[i])):
                    if not all(nn): return tot,(env,'point %d: failure is NaN in every component'%i,o,'nan nan nan')
                    if model in CLOSED and all(math.isfinite(x) and abs(x)<1e6 for x in qs[i]): return tot,(env,'point %d: closed-form unprojection'%i,o,'finite')
                    continue
                if not all(math.isfinite(x) for x in qs[i]) and model not in CLOSED: return tot,(env,'point %d: a vector for a pixel that is not finite'%i,o,'nan')
                if any(nn) or not all(math.isfinite(x) and abs(x)<1e6 for x in qs[i]): continue
                if model not in BEHIND and model not in CLOSED and o[2]<0: return tot,(env,'point %d: a vector behind the camera'%i,o,'z>=0')
                a=[abs((qs[i][j]-v[2+j])/v[j]) for j in(0,1)]
                if 'LONLAT' in model and not(a[0]<3.1 and a[1]<1.5) or 'LATLON' in model and not(a[0]<1.5 and a[1]<3.1): continue # no such longitude or latitude
                p=(D*2)()
                if not lib.mrcal_project(p,None,None,(D*3)(*o),1,lm,I): return tot,(env,'point %d: the vector does not project'%i,o,qs[i])
                e=max(abs(p[0]-qs[i][0]),abs(p[1]-qs[i][1])); ok+=1
                if not e<.0142+1e-6*max(abs(x) for x in qs[i]): return tot,(env,'point %d: reprojection of the vector'%i,[o,list(p)],qs[i])
        if model in ITER:
            k,bad=mild(lib,rng,model,lm,count); tot+=k
            if bad: return tot,bad
        if ok<count//8: return tot,({'model':model},'pixels that can be unprojected',ok,'at least %d'%(count//8))
    return tot,None
def tasks(thorough):
    mods=build.modules(['mrcal.c']); build.replay_lib(); out=[]
    for m in list(CLOSED)+ITER: lens.lensmodel_bytes(m)
    memo={}
    def fb():
        if 'r' not in memo: memo['r']=bounded(report.SEED,40000 if thorough else 4000)
        return memo['r']
    for m in list(CLOSED)+ITER:
        out.append(Task('_mrcal_unproject_internal '+m,lambda m=m: v_internal(mods,m,False),fb))
        out.append(Task('mrcal_unproject '+m,lambda m=m: v_outer(mods,m),fb))
        if m in ITER:
            out.append(Task('_mrcal_unproject_internal, NaN '+m,lambda m=m: v_internal(mods,m,True),fb))
            out.append(Task('_unproject_callback '+m,lambda m=m: v_callback(mods,m),fb))
    out.append(Task('even projections',v_even,None))
    def bt():
        k,v=fb()
        if v: raise Undecided('differs')
        return [Res('bounded','pixels through unprojection and projection','compiled code, %d pixels'%k)],set(),0
    out.append(Task('end to end',bt,fb))
    return out
