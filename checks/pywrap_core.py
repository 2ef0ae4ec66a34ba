"""bounded driver for the hand-written extension module (mrcal-pywrap.c): optimizer_callback(), optimize(), the layout functions, packing, CHOLMOD_factorization,
lens model functions, images, rectification: against oracles in numpy. Run by pywrap.py with the freshly built package in PYTHONPATH."""
import sys,os,json,copy,itertools
import numpy as np, mrcal
seed,n,part=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
class Bad(Exception): pass
def trace(x):
    with open('trace','w') as f: f.write(x)
def js(d): return {k:(v.tolist() if isinstance(v,np.ndarray) else v) for k,v in d.items()}
def rotated(g,s): return g.normal(0,s,3)
LM=['LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV8','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=80']
def problem(g,solvable=False):
    """a random problem: arguments of optimizer_callback()"""
    lm=LM[int(g.integers(4 if solvable else 5))]; Ni=int(g.integers(1,4)); moving=bool(g.random()<.3) and not solvable; Ne=Ni-1 if not moving else Ni
    W,H=int(g.integers(2,4)),int(g.integers(2,5)); nb=int(g.integers(0,4)); npt=int(g.integers(0,4)); ntri=int(g.integers(0,3)) if Ni>1 and not solvable else 0
    if solvable: W,H,nb=4,4,4
    if nb==0 and npt==0: nb=1
    K=mrcal.lensmodel_num_params(lm); intr=np.zeros((Ni,K))
    for i in range(Ni): intr[i,:4]=[800+g.uniform(-50,50),810+g.uniform(-50,50),500+g.uniform(-9,9),400+g.uniform(-9,9)]; intr[i,4:]=g.normal(0,.01,K-4)
    rtc=np.concatenate((g.normal(0,.02,(Ne,3)),g.normal(0,.1,(Ne,3))),1) if Ne else np.zeros((0,6))
    fr=np.concatenate((g.normal(0,.2,(nb,3)),g.normal(0,.2,(nb,3))+[0,0,3.]),1) if nb else np.zeros((0,6))
    pts=g.normal(0,.4,(npt,3))+[0,0,4.]
    cams=[(i,(i if moving else i-1)) for i in range(Ni)]
    fi=[]; pi=[]; ti=[]
    for f in range(nb):
        use=[c for c in cams if g.random()<.8] or [cams[int(g.integers(Ni))]]
        if solvable: use=cams
        fi+=[(f,)+c for c in use]
    for p in range(npt):
        use=[c for c in cams if g.random()<.8] or [cams[int(g.integers(Ni))]]
        if solvable: use=cams
        pi+=[(p,)+c for c in use]
    for t in range(ntri): ti+=[(t,)+c for c in (cams if g.random()<.5 else cams[:2])]
    I32=lambda x: np.array(x,dtype=np.int32).reshape(-1,3)
    kw=dict(intrinsics=intr,lensmodel=lm,imagersizes=np.array([[1000,800]]*Ni,dtype=np.int32),rt_cam_ref=rtc,rt_ref_frame=fr,points=pts,
            indices_frame_camintrinsics_camextrinsics=I32(fi),indices_point_camintrinsics_camextrinsics=I32(pi),
            calobject_warp=g.normal(0,.003,2),calibration_object_spacing=.1,Npoints_fixed=int(g.integers(0,npt+1)),
            do_optimize_intrinsics_core=bool(g.random()<.7),do_optimize_intrinsics_distortions=bool(g.random()<.7),do_optimize_extrinsics=bool(g.random()<.8),
            do_optimize_frames=bool(g.random()<.8),do_optimize_calobject_warp=bool(g.random()<.6),do_apply_regularization=bool(g.random()<.5),do_apply_outlier_rejection=False,verbose=False)
    if nb==0: kw['do_optimize_calobject_warp']=False
    if nb==0 and g.random()<.5: kw['calobject_warp']=None
    sel=('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames')
    if not any(kw[k] for k in sel): kw['do_optimize_intrinsics_core']=True
    if lm=='LENSMODEL_PINHOLE' and not kw['do_optimize_intrinsics_core'] : kw['do_optimize_intrinsics_core']=True
    q=proj_boards(kw,W,H); ob=np.zeros((len(fi),H,W,3)); ob[...,:2]=q+g.normal(0,1,q.shape); ob[...,2]=g.uniform(.5,1.5,q.shape[:-1])
    if not solvable: ob[...,2][g.random(ob.shape[:-1])<.1]=-1
    kw['observations_board']=ob
    q=proj_points(kw); op=np.zeros((len(pi),3)); op[:,:2]=q+g.normal(0,1,q.shape); op[:,2]=g.uniform(.5,1.5,len(pi))
    if not solvable: op[:,2][g.random(len(op))<.1]=-1
    kw['observations_point']=op
    if ntri:
        kw['indices_point_triangulated_camintrinsics_camextrinsics']=I32(ti)
        kw['observations_point_triangulated']=np.concatenate((g.normal(0,40,(len(ti),2))+[500,400],g.uniform(.5,1.5,(len(ti),1))),1)
        kw.update(do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True)
    if solvable: kw.update(do_optimize_intrinsics_core=True,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=True,do_apply_regularization=True)
    if not layout(kw)[1]: kw['do_optimize_intrinsics_core']=True
    return kw,W,H
def cam(kw,e,p): return p if e<0 else mrcal.transform_point_rt(kw['rt_cam_ref'][e],p)
def proj_boards(kw,W,H):
    w=kw.get('calobject_warp'); x=np.linspace(-1,1,W) if W>1 else np.zeros(1); y=np.linspace(-1,1,H) if H>1 else np.zeros(1); s=kw['calibration_object_spacing']
    o=np.zeros((H,W,3)); o[...,0]=np.arange(W)*s; o[...,1]=np.arange(H)[:,None]*s
    if w is not None: o[...,2]=w[0]*(1-x**2)[None,:]+w[1]*(1-y**2)[:,None]
    idx=kw['indices_frame_camintrinsics_camextrinsics']
    return np.array([mrcal.project(cam(kw,e,mrcal.transform_point_rt(kw['rt_ref_frame'][f],o)),kw['lensmodel'],kw['intrinsics'][i]) for f,i,e in idx]).reshape(len(idx),H,W,2)
def proj_points(kw):
    idx=kw['indices_point_camintrinsics_camextrinsics']
    return np.array([mrcal.project(cam(kw,e,kw['points'][p]),kw['lensmodel'],kw['intrinsics'][i]) for p,i,e in idx]).reshape(len(idx),2)
def oracle_x(kw):
    ob=kw['observations_board']; H,W=ob.shape[1:3]; op=kw['observations_point']
    def wt(q,o): return np.where(o[...,2:]>0,(q-o[...,:2])*o[...,2:],0).ravel()
    a=wt(proj_boards(kw,W,H),ob) if len(ob) else np.zeros(0); b=wt(proj_points(kw),op) if len(op) else np.zeros(0)
    return np.concatenate((a,b))
def Ncore(lm): return 4
def layout(kw):
    """[(name,index,count of elements per item, number of items)]: the state blocks by their documentation"""
    K=kw['intrinsics'].shape[1]; core=kw['do_optimize_intrinsics_core']; dist=kw['do_optimize_intrinsics_distortions']
    per=(4 if core else 0)+(K-4 if dist else 0); Ni=len(kw['intrinsics']); Ne=len(kw['rt_cam_ref']) if kw['do_optimize_extrinsics'] else 0
    Nf=len(kw['rt_ref_frame']) if kw['do_optimize_frames'] else 0; Np=len(kw['points'])-kw['Npoints_fixed'] if kw['do_optimize_frames'] else 0
    Nw=1 if kw['do_optimize_calobject_warp'] and len(kw['observations_board']) else 0
    o=0; out={}
    for nm,k,c in (('intrinsics',per,Ni),('extrinsics',6,Ne),('frames',6,Nf),('points',3,Np),('calobject_warp',2,Nw)): out[nm]=(o,k,c); o+=k*c
    return out,o
def state(kw):
    L,N=layout(kw); lo=0 if kw['do_optimize_intrinsics_core'] else 4; hi=kw['intrinsics'].shape[1] if kw['do_optimize_intrinsics_distortions'] else 4
    p=[kw['intrinsics'][:,lo:hi].ravel() if hi>lo else np.zeros(0)]
    if L['extrinsics'][2]: p.append(kw['rt_cam_ref'].ravel())
    if L['frames'][2]: p.append(kw['rt_ref_frame'].ravel())
    if L['points'][2]: p.append(kw['points'][:L['points'][2]].ravel())
    if L['calobject_warp'][2]: p.append(kw['calobject_warp'])
    b=np.concatenate(p); assert len(b)==N; return b
def setstate(kw,b):
    kw=copy.deepcopy(kw); L,N=layout(kw); lo=0 if kw['do_optimize_intrinsics_core'] else 4; hi=kw['intrinsics'].shape[1] if kw['do_optimize_intrinsics_distortions'] else 4
    def blk(nm): o,k,c=L[nm]; return b[o:o+k*c].reshape(c,k)
    if hi>lo: kw['intrinsics'][:,lo:hi]=blk('intrinsics')
    if L['extrinsics'][2]: kw['rt_cam_ref'][:]=blk('extrinsics')
    if L['frames'][2]: kw['rt_ref_frame'][:]=blk('frames')
    if L['points'][2]: kw['points'][:L['points'][2]]=blk('points')
    if L['calobject_warp'][2]: kw['calobject_warp'][:]=blk('calobject_warp')[0]
    return kw
def cb(kw,**k2):
    trace('optimizer_callback(%r)'%({k:(v.shape,v.strides,str(v.dtype)) if isinstance(v,np.ndarray) else v for k,v in kw.items()},))
    return mrcal.optimizer_callback(**kw,**k2)
def close(a,b,t=1e-9): return a.shape==b.shape and np.allclose(a,b,rtol=t,atol=t)
def odd(a):
    if a.ndim==0 or a.size==0: return None
    b=np.zeros(a.shape+(2,),a.dtype); b[...,0]=a; b[...,1]=99; return b[...,0]
def rev(a): return np.ascontiguousarray(a[...,::-1])[...,::-1] if a.size else None
def fort(a): return np.asfortranarray(a) if a.ndim>1 and a.size and not np.asfortranarray(a).flags.c_contiguous else None
def tst_callback(g):
    kw,W,H=problem(g); b,x,J,f=cb(kw); want=oracle_x(kw); L,N=layout(kw); c=1
    if b.shape!=(N,): raise Bad('optimizer_callback(): length of the state',b.shape,(N,),js(kw))
    if len(x)<len(want) or not close(x[:len(want)],want,1e-8): raise Bad('optimizer_callback(): the residuals of boards and points',x[:len(want)].tolist(),want.tolist(),js(kw))
    u=b.copy(); mrcal.unpack_state(u,**kw); w=state(kw)
    if not close(u,w): raise Bad('optimizer_callback(): the state',u.tolist(),w.tolist(),js(kw))
    if J.shape!=(len(x),N): raise Bad('optimizer_callback(): shape of J',J.shape,(len(x),N),js(kw))
    d=g.normal(0,1,N); e=1e-6; xs=[]
    for s in (1,-1):
        u=b+s*e*d; mrcal.unpack_state(u,**kw); xs.append(cb(setstate(kw,u),no_jacobian=True,no_factorization=True)[1])
    nd=(xs[0]-xs[1])/(2*e); got=J@d
    if np.any(np.abs(nd[:len(want)]-got[:len(want)])>1e-4*(1+np.abs(got[:len(want)]).max(initial=0))): raise Bad('optimizer_callback(): J d is not the derivative along d=%r'%d.tolist(),got.tolist(),nd.tolist(),js(kw))
    r=cb(kw,no_jacobian=True,no_factorization=True)
    if r[2] is not None or r[3] is not None or not close(r[1],x): raise Bad('optimizer_callback(no_jacobian,no_factorization)',str(r)[:300],'None, None',js(kw))
    for k in [k for k,v in kw.items() if isinstance(v,np.ndarray)]:
        for lay in (odd,rev,fort,lambda a: a.astype(np.float32) if a.dtype==float else a.astype(np.int64),lambda a: a.astype('>f8') if a.dtype==float else a.astype('>i4'),lambda a: a.astype(int) if a.dtype==float else a.astype(float)):
            v=lay(kw[k])
            if v is None or v.size==0: continue
            k2=dict(kw); k2[k]=v
            try: r=cb(k2,no_factorization=True)
            except Exception: c+=1; continue
            w=kw[k]
            if np.array_equal(np.asarray(v,float),np.asarray(w,float)): wb,wx,wJ=b,x,J
            else:
                k3=dict(kw); k3[k]=np.asarray(v,w.dtype); wb,wx,wJ,_=cb(k3,no_factorization=True)
            c+=1
            if not (close(r[0],wb) and close(r[1],wx) and close(r[2].toarray(),wJ.toarray())): raise Bad('optimizer_callback(): %s has strides %r, type %s'%(k,v.strides,v.dtype),r[1].tolist(),wx.tolist(),js(kw))
    return c
def mutations(kw,g):
    """wrong arguments, all of which must be rejected"""
    A={k:v for k,v in kw.items() if isinstance(v,np.ndarray)}
    for k,v in A.items():
        if k=='calobject_warp': yield k+' of length 3',{k:np.zeros(3)}; yield k+' of length 1',{k:np.zeros(1)}; yield k+' of shape (1,2)',{k:v[None]}; continue
        yield k+' with one more column',{k:np.concatenate((v,v[...,:1]),-1)}
        yield k+' with one fewer column',{k:np.ascontiguousarray(v[...,:-1])}
        yield k+' with an extra dimension',{k:v[None]}
        if v.shape[0]: yield k+' with a dimension missing',{k:np.ascontiguousarray(v[0])}
        yield k+' as text',{k:'abc'}
        if k in ('imagersizes','observations_board','observations_point','indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics','observations_point_triangulated','indices_point_triangulated_camintrinsics_camextrinsics','intrinsics'):
            if len(v): yield k+' with one more row',{k:np.concatenate((v,v[-1:]))}; yield k+' without its last row',{k:v[:-1].copy()}
    def idx(k,r,c,x):
        v=kw[k].copy(); v[r,c]=x; return {k:v}
    Ni,Ne=len(kw['intrinsics']),len(kw['rt_cam_ref'])
    for k,N0 in (('indices_frame_camintrinsics_camextrinsics',len(kw['rt_ref_frame'])),('indices_point_camintrinsics_camextrinsics',len(kw['points'])),('indices_point_triangulated_camintrinsics_camextrinsics',None)):
        if k not in kw: continue
        v=kw[k]
        for r in range(len(v)):
            for c,lo,hi in ((0,-1,N0),(1,-1,Ni),(2,-2,Ne)):
                for x in (lo,hi,1000000 if N0 or c else None,-1000):
                    if x is None or (c==0 and k.startswith('indices_point_tri') and x!=-1000 and x!=-1): continue
                    yield '%s[%d,%d]=%d'%(k,r,c,x),idx(k,r,c,x)
    if len(kw['rt_ref_frame']): 
        yield 'a frame without observations',{'rt_ref_frame':np.concatenate((kw['rt_ref_frame'],kw['rt_ref_frame'][:1]))}
        yield 'the last frame missing',{'rt_ref_frame':kw['rt_ref_frame'][:-1].copy()}
        v=kw['indices_frame_camintrinsics_camextrinsics']
        if v[0,0]!=v[-1,0]:
            o=np.argsort(-v[:,0],kind='stable'); yield 'frames out of order',{'indices_frame_camintrinsics_camextrinsics':v[o].copy(),'observations_board':kw['observations_board'][o].copy()}
        same=[i for i in range(1,len(v)) if v[i,0]==v[i-1,0] and v[i,1]!=v[i-1,1]]
        if same:
            o=np.arange(len(v)); i=same[0]; o[i],o[i-1]=i-1,i; yield 'cameras of a frame out of order',{'indices_frame_camintrinsics_camextrinsics':v[o].copy(),'observations_board':kw['observations_board'][o].copy()}
        yield 'spacing 0',{'calibration_object_spacing':0.}; yield 'spacing <0',{'calibration_object_spacing':-1.}; yield 'spacing missing',{'calibration_object_spacing':DEL}
        if kw['do_optimize_calobject_warp']: yield 'no warp',{'calobject_warp':None}
    if len(kw['points']):
        yield 'a point without observations',{'points':np.concatenate((kw['points'],kw['points'][:1]))}
        yield 'the last point missing',{'points':kw['points'][:-1].copy(),'Npoints_fixed':0}
        yield 'Npoints_fixed too large',{'Npoints_fixed':len(kw['points'])+1}; yield 'Npoints_fixed<0',{'Npoints_fixed':-1}
    else: yield 'Npoints_fixed without points',{'Npoints_fixed':1}
    for t in ('LENSMODEL_NOPE','LENSMODEL_OPENCV12','','LENSMODEL_SPLINED_STEREOGRAPHIC','LENSMODEL_CAHVORE'): yield 'lensmodel '+t,{'lensmodel':t}
    yield 'lensmodel 3',{'lensmodel':3}; yield 'lensmodel missing',{'lensmodel':DEL}; yield 'intrinsics missing',{'intrinsics':DEL}; yield 'imagersizes missing',{'imagersizes':DEL}
    k='indices_point_triangulated_camintrinsics_camextrinsics'
    if k in kw:
        v=kw[k]; o='observations_point_triangulated'
        keep=np.array([i for i in range(len(v)) if not (v[i,0]==0 and i>0)]); yield 'a triangulated point observed once',{k:v[keep].copy(),o:kw[o][keep].copy()}
        if v[-1,0]>0: keep=v[:,0]!=0; yield 'a gap in the triangulated points',{k:v[keep].copy(),o:kw[o][keep].copy()}
        if len(v)>=4 and v[-1,0]>0: o2=np.argsort(-v[:,0],kind='stable'); yield 'triangulated points out of order',{k:v[o2].copy(),o:kw[o][o2].copy()}
class DEL: pass
def bad_ok(what,kw):
    # CAHVORE has the number of parameters the intrinsics happen to have, and so on: not wrong
    return False
def tst_reject(g):
    kw,W,H=problem(g); c=0; ms=list(mutations(kw,g)); g.shuffle(ms)
    for what,ch in ms[:60]:
        k2=dict(kw)
        for k,v in ch.items():
            if v is DEL: k2.pop(k)
            else: k2[k]=v
        for f in (mrcal.optimizer_callback,mrcal.optimize) if c%5==0 else (mrcal.optimizer_callback,):
            trace('%s with %s'%(f.__name__,what))
            try: r=f(**copy.deepcopy(k2))
            except Exception: c+=1; continue
            raise Bad('%s with %s'%(f.__name__,what),'accepted','rejected',js(kw))
    return c
def tst_layout(g):
    kw,W,H=problem(g); L,N=layout(kw); c=0; nb,npt=len(kw['observations_board']),len(kw['observations_point'])
    def eq(what,got,want):
        nonlocal c; c+=1
        if got!=want: raise Bad(what,got,want,js(kw))
    names=dict(intrinsics='intrinsics',extrinsics='extrinsics',frames='frames',points='points')
    for nm in names:
        o,k,cnt=L[nm]; f=getattr(mrcal,'state_index_'+nm)
        for i in list(range(-2,cnt+3)):
            trace('state_index_%s(%d)'%(nm,i)); eq('state_index_%s(%d)'%(nm,i),f(i,**kw),o+i*k if 0<=i<cnt and k else None)
        eq('num_states_'+nm,getattr(mrcal,'num_states_'+nm)(**kw),k*cnt)
    o,k,cnt=L['calobject_warp']; eq('state_index_calobject_warp',mrcal.state_index_calobject_warp(**kw),o if cnt else None); eq('num_states_calobject_warp',mrcal.num_states_calobject_warp(**kw),k*cnt)
    eq('num_states',mrcal.num_states(**kw),N); eq('num_intrinsics_optimization_params',mrcal.num_intrinsics_optimization_params(**kw),L['intrinsics'][1])
    M=nb*W*H*2
    for i in range(nb): eq('measurement_index_boards(%d)'%i,mrcal.measurement_index_boards(i,**kw),i*W*H*2 if 0<=i<nb else None)
    eq('num_measurements_boards',mrcal.num_measurements_boards(**kw),M)
    for i in range(npt): eq('measurement_index_points(%d)'%i,mrcal.measurement_index_points(i,**kw),M+2*i if 0<=i<npt else None)
    eq('num_measurements_points',mrcal.num_measurements_points(**kw),2*npt)
    x=cb(kw,no_jacobian=True,no_factorization=True)[1]; eq('num_measurements',mrcal.num_measurements(**kw),len(x))
    t=kw.get('indices_point_triangulated_camintrinsics_camextrinsics'); nt=0
    if t is not None:
        k=np.bincount(t[:,0]); nt=int(sum(a*(a-1)//2 for a in k)); o=M+2*npt; acc=[]; m=0; it=0
        for p,a in enumerate(k):
            eq('measurement_index_points_triangulated(%d)'%p,mrcal.measurement_index_points_triangulated(p,**kw),o+m)
            for i in range(a):
                for j in range(i+1,a): acc.append((it+i,it+j)); m+=1
            it+=a
        for m,(i,j) in enumerate(acc):
            r=mrcal.decode_observation_indices_points_triangulated(m,**kw); eq('decode_observation_indices_points_triangulated(%d)'%m,(r['iobservation0'],r['iobservation1']),(i,j))
    eq('num_measurements_points_triangulated',mrcal.num_measurements_points_triangulated(**kw),nt)
    nr=len(x)-M-2*npt-nt; eq('num_measurements_regularization',mrcal.num_measurements_regularization(**kw),nr)
    eq('measurement_index_regularization',mrcal.measurement_index_regularization(**kw),len(x)-nr if nr else None)
    # the same by counts only
    cn=dict(lensmodel=kw['lensmodel'],Ncameras_intrinsics=len(kw['intrinsics']),Ncameras_extrinsics=len(kw['rt_cam_ref']),Nframes=len(kw['rt_ref_frame']),Npoints=len(kw['points']),Npoints_fixed=kw['Npoints_fixed'],Nobservations_board=nb,Nobservations_point=npt,
            calibration_object_width_n=W,calibration_object_height_n=H,**{k:v for k,v in kw.items() if k.startswith('do_')})
    fs=[a+nm for nm in ('intrinsics','extrinsics','frames','points','calobject_warp') for a in ('state_index_','num_states_')]+['num_states','num_intrinsics_optimization_params','measurement_index_boards','measurement_index_points','num_measurements_boards','num_measurements_points']
    if not nt: fs+=['num_measurements','num_measurements_regularization','measurement_index_regularization']
    args=dict(state_index_intrinsics='icam_intrinsics',state_index_extrinsics='icam_extrinsics',state_index_frames='iframe',state_index_points='i_point',measurement_index_boards='i_observation_board',measurement_index_points='i_observation_point')
    for fn in fs:
        f=getattr(mrcal,fn)
        for i in ([0,1] if fn in args else [None]):
            trace('%s by counts'%fn); w=f(*([] if i is None else [i]),**kw); eq(fn+' by counts',f(*([] if i is None else [i]),**cn),w)
            if i is not None: eq('%s with %s='%(fn,args[fn]),f(**{args[fn]:i},**kw),w)
        trace('%s without arguments'%fn)
        try: f(*([0] if fn in args else []))
        except Exception: c+=1
    for f in (mrcal.num_states,mrcal.num_measurements,mrcal.state_index_intrinsics):
        for what,ch in (('lensmodel NOPE',dict(lensmodel='NOPE')),('intrinsics of 1 dimension',dict(intrinsics=kw['intrinsics'][0].copy())),('intrinsics of type int',dict(intrinsics=kw['intrinsics'].astype(int))),('7 columns in rt_cam_ref',dict(rt_cam_ref=np.zeros((2,7)))),('rt_ref_frame not an array',dict(rt_ref_frame='x'))):
            trace('%s with %s'%(f.__name__,what))
            try: r=f(*([0] if 'index' in f.__name__ else []),**{**kw,**ch})
            except Exception: c+=1; continue
            raise Bad('%s with %s'%(f.__name__,what),r,'rejected',js(kw))
    return c
def tst_pack(g):
    kw,W,H=problem(g); L,N=layout(kw); c=0
    if N==0: return 0
    for f in (mrcal.pack_state,mrcal.unpack_state):
        trace('%s of an array only'%f.__name__)
        try: f(np.zeros(3)); raise Bad('%s of an array only'%f.__name__,'accepted','rejected',{})
        except Bad: raise
        except Exception: c+=1
        trace('%s without states'%f.__name__)
        try: f(np.zeros((2,0)),lensmodel='LENSMODEL_PINHOLE')
        except Exception: pass
    one=cb(kw,no_jacobian=True,no_factorization=True)[0]; s=state(kw); p=s.copy(); mrcal.pack_state(p,**kw); c+=1
    if not close(p,one): raise Bad('pack_state() of the state is not the state of optimizer_callback()',p.tolist(),one.tolist(),js(kw))
    scale=np.ones(N); mrcal.unpack_state(scale,**kw); lead=tuple(int(x) for x in g.integers(0 if g.random()<.1 else 1,4,int(g.integers(0,3)))); b=g.normal(0,1,lead+(N,))
    for f,w in ((mrcal.pack_state,b/scale),(mrcal.unpack_state,b*scale)):
        a=b.copy(); trace('%s of %r'%(f.__name__,a.shape)); r=f(a,**kw); c+=1
        if not close(a,w): raise Bad('%s of an array of shape %r'%(f.__name__,a.shape),a.tolist(),w.tolist(),js(kw))
        bad=[('%d numbers'%(N+1),np.zeros(lead+(N+1,))),('%d numbers'%(N-1),np.zeros(lead+(N-1,))),('integers',np.zeros(N,int)),('float32',np.zeros(N,np.float32)),('a number',np.array(3.)),('no numbers',np.zeros((2,0))),('complex',np.zeros(N,complex))]
        for what,a in bad:
            trace('%s of %s'%(f.__name__,what))
            try: f(a,**kw)
            except Exception: c+=1; continue
            raise Bad('%s of %s'%(f.__name__,what),'accepted','rejected',js(kw))
        for lay in (odd,rev,fort):
            a=lay(b)
            if a is None: continue
            try: f(a,**kw)
            except Exception: c+=1; continue
            c+=1
            if not close(a,w): raise Bad('%s of an array of strides %r'%(f.__name__,a.strides),a.tolist(),w.tolist(),js(kw))
        for what in ('x',{}):
            try: f(what,**kw)
            except Exception: c+=1; continue
            raise Bad('%s of %r'%(f.__name__,what),'accepted','rejected',js(kw))
    return c
def tst_factor(g):
    from scipy.sparse import csr_matrix
    n=int(g.integers(1,7)); m=n+int(g.integers(0,6)); J=g.normal(0,1,(m,n))*(g.random((m,n))<.6); J[:n]+=np.diag(g.uniform(2,3,n)); F=mrcal.CHOLMOD_factorization(csr_matrix(J)); A=J.T@J; c=0
    lead=tuple(int(x) for x in g.integers(1,4,int(g.integers(0,3)))); b=g.normal(0,1,lead+(n,)); w=np.linalg.solve(A,b.reshape(-1,n).T).T.reshape(b.shape); t=1e-6*max(1,np.linalg.cond(A))
    got=F.solve_xt_JtJ_bt(b); c+=1
    if got.shape!=w.shape or not np.allclose(got,w,rtol=t,atol=t): raise Bad('CHOLMOD_factorization.solve_xt_JtJ_bt: bt of shape %r'%(b.shape,),got.tolist(),w.tolist(),dict(J=J.tolist(),b=b.tolist()))
    got=F.solve_xt_JtJ_bt(F.solve_xt_JtJ_bt(F.solve_xt_JtJ_bt(F.solve_xt_JtJ_bt(b,sys='P'),sys='L'),sys='D'),sys='Lt') if 0 else F.solve_xt_JtJ_bt(F.solve_xt_JtJ_bt(F.solve_xt_JtJ_bt(F.solve_xt_JtJ_bt(F.solve_xt_JtJ_bt(b,sys='P'),sys='L'),sys='D'),sys='Lt'),sys='Pt'); c+=1
    if not np.allclose(got,w,rtol=t,atol=t): raise Bad('CHOLMOD_factorization.solve_xt_JtJ_bt: sys=P,L,D,Lt,Pt in turn',got.tolist(),w.tolist(),dict(J=J.tolist(),b=b.tolist()))
    for what,a in [('one more column',np.zeros(lead+(n+1,))),('one fewer column',np.zeros(lead+(n-1,))),('no columns',np.zeros((3,0))),('integers',np.zeros(n,int)),('float32',np.zeros(n,np.float32)),('a number',np.array(1.)),('a list',[1.]*n),('None',None)]:
        trace('solve_xt_JtJ_bt of '+what)
        try: F.solve_xt_JtJ_bt(a)
        except Exception: c+=1; continue
        raise Bad('solve_xt_JtJ_bt of '+what,'accepted','rejected',dict(J=J.tolist()))
    for lay in (odd,rev,fort):
        a=lay(b)
        if a is None or a.flags.c_contiguous: continue
        try: got=F.solve_xt_JtJ_bt(a)
        except Exception: c+=1; continue
        c+=1
        if not np.allclose(got,w,rtol=t,atol=t): raise Bad('solve_xt_JtJ_bt: strides %r'%(a.strides,),got.tolist(),w.tolist(),dict(J=J.tolist(),b=b.tolist()))
    try: F.solve_xt_JtJ_bt(b,sys='Q'); raise Bad('solve_xt_JtJ_bt: sys=Q','accepted','rejected',{})
    except Bad: raise
    except Exception: c+=1
    class Q: pass
    for what,a in (('a dense array',J),('columns instead of rows',csr_matrix(J).tocsc()),('float32',csr_matrix(J.astype(np.float32))),('None',None)):
        trace('CHOLMOD_factorization of '+what)
        try: G=mrcal.CHOLMOD_factorization(a)
        except Exception: c+=1; continue
        raise Bad('CHOLMOD_factorization of '+what,'accepted','rejected',dict(J=J.tolist()))
    s=csr_matrix(J); s.indices=s.indices.astype(np.int64)
    try: G=mrcal.CHOLMOD_factorization(s); r=G.solve_xt_JtJ_bt(b)
    except Exception: c+=1; return c
    if not np.allclose(r,w,rtol=t,atol=t): raise Bad('CHOLMOD_factorization with 64-bit indices',r.tolist(),w.tolist(),dict(J=J.tolist()))
    return c+1
def tst_solve(g):
    kw,W,H=problem(g,True); a=copy.deepcopy(kw); trace('optimize()'); r=mrcal.optimize(**a); c=1
    for k,v in kw.items():
        ch=isinstance(v,np.ndarray) and not np.array_equal(v,a[k]); may=dict(intrinsics=True,rt_cam_ref=True,rt_ref_frame=True,points=True,calobject_warp=kw['do_optimize_calobject_warp']).get(k,False)
        if ch and not may: raise Bad('optimize() changed '+k,a[k].tolist(),v.tolist(),js(kw))
    nf=kw['Npoints_fixed']
    if nf and not np.array_equal(a['points'][len(a['points'])-nf:],kw['points'][len(kw['points'])-nf:]): raise Bad('optimize() moved fixed points',a['points'].tolist(),kw['points'].tolist(),js(kw))
    b,x,J,f=cb(a,no_factorization=True)
    if not close(r['b_packed'],b,1e-6): raise Bad('optimize(): the arrays are not the state that is reported',b.tolist(),r['b_packed'].tolist(),js(kw))
    if not np.allclose(r['x'],x,rtol=1e-6,atol=1e-6): raise Bad('optimize(): the residuals of the resulting arrays are not those that are reported',x.tolist(),r['x'].tolist(),js(kw))
    x0=cb(kw,no_jacobian=True,no_factorization=True)[1]
    if not (x@x<=x0@x0*(1+1e-9)): raise Bad('optimize() increased the error',float(x@x),float(x0@x0),js(kw))
    if np.abs(J.T@x).max(initial=0)>1e-2*(1+np.abs(J).max()*np.abs(x).max()): raise Bad('optimize(): not a stationary point',float(np.abs(J.T@x).max()),0.,js(kw))
    for k in ('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp'):
        if not isinstance(kw[k],np.ndarray) or not kw[k].size: continue
        for lay in (odd,rev,fort,lambda v: v.astype(np.float32)):
            v=lay(kw[k])
            if v is None: continue
            k2=copy.deepcopy(kw); k2[k]=v
            trace('optimize() with %s of strides %r'%(k,v.strides))
            try: mrcal.optimize(**k2)
            except Exception: c+=1; continue
            c+=1
            if not np.allclose(v,a[k],rtol=1e-6,atol=1e-6): raise Bad('optimize(): %s of strides %r type %s was accepted, and not updated'%(k,v.strides,v.dtype),v.tolist(),a[k].tolist(),js(kw))
    return c
def tst_lens(g):
    c=0
    for lm in list(mrcal.supported_lensmodels()):
        if 'SPLINED' in lm: lm='LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%(g.integers(2,4),g.integers(4,12),g.integers(4,12),g.integers(20,180))
        elif 'CAHVORE' in lm: lm='LENSMODEL_CAHVORE_linearity=%.2f'%g.uniform(0,1)
        m=mrcal.lensmodel_metadata_and_config(lm); k=mrcal.lensmodel_num_params(lm); c+=1
        if 'SPLINED' in lm:
            t=dict(a.split('=') for a in lm[len('LENSMODEL_SPLINED_STEREOGRAPHIC_'):].replace('fov_x_deg','fov').split('_'))
            if (m['order'],m['Nx'],m['Ny'],m['fov_x_deg'])!=tuple(int(t[a]) for a in ('order','Nx','Ny','fov')) or k!=4+2*int(t['Nx'])*int(t['Ny']): raise Bad('configuration of '+lm,m,lm,{})
            ux,uy=mrcal.knots_for_splined_models(lm)
            if ux.shape!=(m['Nx'],) or uy.shape!=(m['Ny'],) or not np.allclose(np.diff(ux),ux[1]-ux[0]) or not np.allclose(np.diff(uy),ux[1]-ux[0]) or abs(ux[0]+ux[-1])>1e-9 or abs(uy[0]+uy[-1])>1e-9: raise Bad('knots of '+lm,[ux.tolist(),uy.tolist()],'evenly spaced, symmetric, %d and %d'%(m['Nx'],m['Ny']),{})
        elif 'CAHVORE' in lm and abs(m['linearity']-float(lm.split('=')[1]))>1e-12: raise Bad('configuration of '+lm,m,lm,{})
        N=int(g.integers(0,5)); i=np.zeros(k); i[:4]=[500,510,300,200]; p=g.normal(0,.3,(N,3))+[0,0,3.]
        q,qp,qi=mrcal.project(p,lm,i,get_gradients=True)
        if q.shape!=(N,2) or qp.shape!=(N,2,3) or qi.shape!=(N,2,k): raise Bad('shapes of project(get_gradients=True) of %d points, %s'%(N,lm),[q.shape,qp.shape,qi.shape],[(N,2),(N,2,3),(N,2,k)],{})
        for bad in (i[:-1],np.append(i,1.)):
            try: mrcal.project(p,lm,bad)
            except Exception: c+=1; continue
            raise Bad('project() with %d parameters, %s'%(len(bad),lm),'accepted','rejected',{})
    for t in ('LENSMODEL_NOPE','',None,3,'LENSMODEL_CAHVORE','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3'):
        for f in (mrcal.lensmodel_num_params,mrcal.lensmodel_metadata_and_config,mrcal.knots_for_splined_models):
            if f is mrcal.lensmodel_num_params and 0: continue
            try: r=f(t)
            except Exception: c+=1; continue
            raise Bad('%s(%r)'%(f.__name__,t),str(r),'rejected',{})
    try: mrcal.knots_for_splined_models('LENSMODEL_OPENCV4'); raise Bad('knots of OPENCV4','accepted','rejected',{})
    except Bad: raise
    except Exception: c+=1
    return c
def tst_image(g):
    c=0; H,W=(int(x) for x in g.integers(1,7,2))
    for dt,sh in ((np.uint8,(H,W)),(np.uint16,(H,W)),(np.uint8,(H,W,3))):
        a=g.integers(0,np.iinfo(dt).max+1,sh).astype(dt)
        def lays():
            yield 'ordinary',a
            b=np.zeros((H,W+2)+sh[2:],dt); b[:,1:-1]=a; yield 'padded columns',b[:,1:-1]
            b=np.zeros((2*H,W)+sh[2:],dt); b[::2]=a; yield 'every other row',b[::2]
            yield 'columns apart',np.repeat(a,2,1)[:,::2]; yield 'mirrored',np.ascontiguousarray(a[:,::-1])[:,::-1]; yield 'upside down',np.ascontiguousarray(a[::-1])[::-1]; yield 'transposed',np.ascontiguousarray(a.swapaxes(0,1)).swapaxes(0,1)
            if a.ndim==3: yield 'RGB',np.ascontiguousarray(a[...,::-1])[...,::-1]; b=np.zeros((H,W,4),dt); b[...,:3]=a; yield 'BGRA',b[...,:3]
        for nm,v in lays():
            trace('save_image: %s %s'%(dt.__name__,nm))
            if os.path.exists('i.png'): os.unlink('i.png')
            try: mrcal.save_image('i.png',v)
            except Exception as e:
                if nm in ('ordinary',): raise Bad('save_image(%s %r) fails'%(dt.__name__,sh),str(e),'success',{})
                c+=1; continue
            bits=24 if a.ndim==3 else 8*a.itemsize; r=mrcal.load_image('i.png',bits_per_pixel=bits,channels=3 if a.ndim==3 else 1); c+=1
            if not np.array_equal(r,a): raise Bad('save_image(), load_image(): %s %r, %s, strides %r'%(dt.__name__,sh,nm,v.strides),r.tolist(),a.tolist(),{})
    for what,v in (('float',np.zeros((3,3))),('int8',np.zeros((3,3),np.int8)),('int16',np.zeros((3,3),np.int16)),('uint32',np.zeros((3,3),np.uint32)),('2 channels',np.zeros((3,3,2),np.uint8)),('4 channels',np.zeros((3,3,4),np.uint8)),('16-bit BGR',np.zeros((3,3,3),np.uint16)),('1 dimension',np.zeros(3,np.uint8)),('4 dimensions',np.zeros((2,3,3,3),np.uint8)),('bool',np.zeros((3,3),bool)),('a list',[[1]])):
        trace('save_image '+what)
        try: mrcal.save_image('j.png',v)
        except Exception: c+=1; continue
        raise Bad('save_image() of '+what,'accepted','rejected',{})
    for k in (dict(bits_per_pixel=8),dict(channels=1),dict(bits_per_pixel=16,channels=3),dict(bits_per_pixel=8,channels=3),dict(bits_per_pixel=24,channels=1),dict(bits_per_pixel=-8,channels=1)):
        try: r=mrcal.load_image('i.png',**k)
        except Exception: c+=1; continue
        raise Bad('load_image(%r)'%k,str(r.shape),'rejected',{})
    return c
def tst_state(g):
    """the Python functions that take optimization inputs"""
    kw,W,H=problem(g); L,N=layout(kw); c=0
    b=state(kw)+g.normal(0,1e-3,N); want=setstate(kw,b); a=copy.deepcopy(kw); p=b.copy(); mrcal.pack_state(p,**kw); p0=p.copy(); trace('ingest_packed_state')
    try: mrcal.ingest_packed_state(p,**a)
    except Exception as e: raise Bad('ingest_packed_state() fails',repr(e),'success',js(kw))
    c+=1
    if not np.array_equal(p,p0): raise Bad('ingest_packed_state() changed its argument',p.tolist(),p0.tolist(),js(kw))
    for k in kw:
        if isinstance(kw[k],np.ndarray) and not close(a[k],want[k]): raise Bad('ingest_packed_state(): '+k,a[k].tolist(),want[k].tolist(),js(kw))
    for n_ in (N-1,N+1):
        try: mrcal.ingest_packed_state(np.zeros(n_),**copy.deepcopy(kw))
        except Exception: c+=1; continue
        raise Bad('ingest_packed_state() of %d numbers for %d states'%(n_,N),'accepted','rejected',js(kw))
    x=cb(kw,no_jacobian=True,no_factorization=True)[1]; ob,op=kw['observations_board'],kw['observations_point']; nb=ob.size//3*2
    xb=x[:nb].reshape(ob.shape[:-1]+(2,)); xp=x[nb:nb+2*len(op)].reshape(-1,2)
    for i in (None,)+tuple(range(len(kw['intrinsics']))):
        for x_ in (None,x):
            for nm,f,o,xx,ix in (('board',mrcal.measurements_board,ob,xb,kw['indices_frame_camintrinsics_camextrinsics']),('point',mrcal.measurements_point,op,xp,kw['indices_point_camintrinsics_camextrinsics'])):
                m=o[...,2]>0
                if i is not None: m=m&(ix[:,1]==i).reshape((-1,)+(1,)*(o.ndim-2))
                r,q=f(kw,icam_intrinsics=i,x=x_,return_observations=True); r2=f(kw,icam_intrinsics=i,x=x_); c+=2
                if r.shape!=xx[m].shape or not close(r,xx[m]) or not close(q,o[m][...,:2]) or not close(r2,xx[m]): raise Bad('measurements_%s(icam_intrinsics=%r)'%(nm,i),[r.tolist(),q.tolist()],[xx[m].tolist(),o[m][...,:2].tolist()],js(kw))
    # icam_intrinsics -> icam_extrinsics
    e={}
    for ix in (kw['indices_frame_camintrinsics_camextrinsics'],kw['indices_point_camintrinsics_camextrinsics']):
        for _,ci,ce in ix: e.setdefault(int(ci),set()).add(int(ce))
    for ci,es in e.items():
        c+=1; got=mrcal.corresponding_icam_extrinsics(ci,**kw)
        if got!=list(es)[0]: raise Bad('corresponding_icam_extrinsics(%d)'%ci,got,list(es)[0],js(kw))
    for ci in (-1,len(kw['intrinsics']),1000):
        try: got=mrcal.corresponding_icam_extrinsics(ci,**kw)
        except Exception: c+=1; continue
        raise Bad('corresponding_icam_extrinsics(%d)'%ci,got,'rejected',js(kw))
    return c
def links(n,M):
    """costs of the cheapest paths from 0: (number of links, -shared observations) compared in order; Bellman-Ford"""
    best=[None]*n; best[0]=(0,0)
    for _ in range(n):
        for i in range(n):
            if best[i] is None: continue
            for j in range(n):
                if M[i,j]:
                    t=(best[i][0]+1,best[i][1]-int(M[i,j]))
                    if best[j] is None or t<best[j]: best[j]=t
    return best
def tst_traverse(g):
    n=int(g.integers(1,9)); M=np.triu(g.integers(0,60,(n,n))*(g.random((n,n))<g.uniform(.2,1)),1); M=(M+M.T).astype(np.uint16); c=0
    def go(m):
        out=[]; trace('traverse_sensor_links of a %r matrix'%(m.shape,)); mrcal.traverse_sensor_links(connectivity_matrix=m,callback_sensor_link=lambda t,f: out.append((t,f))); return out
    want=go(M); c+=1; reach=set([0])
    for t,f in want:
        if f not in reach or t in reach or not M[t,f]: raise Bad('traverse_sensor_links()',want,'a tree of existing links',dict(M=M.tolist()))
        reach.add(t)
    full=[i for i,b in enumerate(links(n,M)) if b is not None]
    if sorted(reach)!=full: raise Bad('traverse_sensor_links(): sensors reached',sorted(reach),full,dict(M=M.tolist()))
    for lay in (odd,rev,fort,lambda a: a.astype('>u2'),lambda a: a.astype(int),lambda a: a.astype(np.int16),lambda a: a.astype(float)):
        m=lay(M)
        if m is None: continue
        try: got=go(m)
        except Exception: c+=1; continue
        c+=1
        if got!=want: raise Bad('traverse_sensor_links(): strides %r, type %s'%(m.strides,m.dtype),got,want,dict(M=M.tolist()))
    for what,m,f in (('not square',np.zeros((n,n+1),np.uint16),print),('1 dimension',np.zeros(n,np.uint16),print),('3 dimensions',np.zeros((1,n,n),np.uint16),print),('callback None',M,None),('callback 3',M,3)):
        trace('traverse_sensor_links: '+what)
        try: mrcal.traverse_sensor_links(connectivity_matrix=m,callback_sensor_link=f)
        except Exception: c+=1; continue
        raise Bad('traverse_sensor_links: '+what,'accepted','rejected',dict(M=M.tolist()))
    if want:
        calls=[]
        class E(Exception): pass
        def fail(t,f): calls.append(t); raise E()
        def false(t,f): calls.append(t); return False
        for nm,f in (('raises',fail),('returns False',false)):
            calls.clear(); ok=False
            try: mrcal.traverse_sensor_links(connectivity_matrix=M,callback_sensor_link=f)
            except E: ok=nm=='raises'
            except Exception: ok=nm!='raises'
            c+=1
            if not ok or len(calls)!=1: raise Bad('traverse_sensor_links(): a callback that %s'%nm,'%d calls, %s'%(len(calls),'an exception' if ok else 'no exception'),'an exception, after 1 call',dict(M=M.tolist()))
    return c
def tst_tiny(g):
    """compose_rt_tinyrt0_gradientrt0(), compose_rt_tinyrt1_gradientrt1(): the gradients of compose_rt() where one argument is 0"""
    c=0
    for sh in ((),(3,),(2,4),(1,),(0,)):
        rt=np.concatenate((g.normal(0,1,sh+(3,))*(10.**g.uniform(-9,0,sh+(1,))),g.normal(0,2,sh+(3,))),-1)
        for name,i,f in (('compose_rt_tinyrt0_gradientrt0',1,mrcal.compose_rt_tinyrt0_gradientrt0),('compose_rt_tinyrt1_gradientrt1',2,mrcal.compose_rt_tinyrt1_gradientrt1)):
            w=np.zeros(sh+(6,6))
            for j in np.ndindex(*sh): w[j]=mrcal.compose_rt(*((np.zeros(6),rt[j]) if i==1 else (rt[j],np.zeros(6))),get_gradients=True)[i]
            big=np.full(sh+(8,9),np.nan); outs=[('',None),('out=',np.full(sh+(6,6),np.nan)),('strided out=',big[...,1:7,2:8])]
            for what,o in outs:
                trace(name); a=dict(rt=rt.tolist()); x=rt.copy(); y=getattr(mrcal,name)(x,**({} if o is None else dict(out=o))); c+=1
                if y.shape!=w.shape or not np.allclose(y,w,rtol=1e-6,atol=1e-8): raise Bad('%s(%s)'%(name,what),y.tolist(),w.tolist(),a)
                if o is not None and not np.array_equal(o,y): raise Bad('%s(%s): the array given'%(name,what),o.tolist(),y.tolist(),a)
                if not np.array_equal(x,rt): raise Bad(name+': its argument',x.tolist(),rt.tolist(),a)
            big[...,1:7,2:8]=np.nan
            if not np.all(np.isnan(big)): raise Bad(name+' with a strided out= wrote outside it',big.tolist(),'nan',{})
            try: getattr(mrcal,name)(rt,out=np.zeros(sh+(6,5)))
            except Exception: c+=1
            else: raise Bad(name+' with an out= of a wrong shape','accepted','rejected',{})
    for f,I in ((mrcal.compose_Rt,mrcal.identity_Rt()),(mrcal.compose_r,np.zeros(3)),(mrcal.compose_rt,np.zeros(6))):
        for k in [dict(inverted0=True),dict(inverted1=True),dict(inverted0=True,inverted1=True)]+([dict(get_gradients=True)] if I.ndim==1 else []):
            for m in (3,4):
                try: f(*[I]*m,**k)
                except Exception: c+=1; continue
                raise Bad('%s() of %d transformations, %r'%(f.__name__,m,k),'accepted','rejected',{})
    return c
def tst_quat(g):
    """qt_from_Rt(), Rt_from_qt(), quat_from_R(), R_from_quat(): the quaternion is a unit, and represents this rotation"""
    c=0
    for sh in ((),(3,),(2,4),(1,)):
        k=int(g.integers(3)); r=g.normal(0,1,sh+(3,)); r=r/np.linalg.norm(r,axis=-1)[...,None]*(np.pi if k==0 else g.uniform(0,3.1,sh+(1,)) if k==1 else 1e-7); t=g.normal(0,3,sh+(3,))
        R=np.zeros(sh+(3,3))
        for j in np.ndindex(*sh):
            n_=np.linalg.norm(r[j]); u=r[j]/n_; K=np.array([[0,-u[2],u[1]],[u[2],0,-u[0]],[-u[1],u[0],0]]); R[j]=np.eye(3)+np.sin(n_)*K+(1-np.cos(n_))*K@K
        Rt=np.concatenate((R,t[...,None,:]),-2); n_=np.linalg.norm(r,axis=-1)[...,None]; q=np.concatenate((np.cos(n_/2),np.sin(n_/2)*r/n_),-1); qt=np.concatenate((q,t),-1); a=dict(r=r.tolist(),t=t.tolist())
        same=lambda x,y: x.shape==y.shape and np.allclose(x*np.sign(np.sum(x*y,-1))[...,None],y,atol=1e-6)
        for o in (False,True):
            trace('quat_from_R'); y=mrcal.quat_from_R(R,**(dict(out=np.full(sh+(4,),np.nan)) if o else {})); c+=1
            if not same(y,q): raise Bad('quat_from_R()',y.tolist(),q.tolist(),a)
            trace('qt_from_Rt'); oo=np.full(sh+(9,),np.nan)[...,1:8]; y=mrcal.qt_from_Rt(Rt,**(dict(out=oo) if o else {})); c+=1
            if not same(y[...,:4],q) or not np.allclose(y[...,4:],t): raise Bad('qt_from_Rt()',y.tolist(),qt.tolist(),a)
            if o and not np.array_equal(oo,y): raise Bad('qt_from_Rt(out=)',oo.tolist(),y.tolist(),a)
            trace('R_from_quat'); y=mrcal.R_from_quat(q,**(dict(out=np.full(sh+(3,3),np.nan)) if o else {})); c+=1
            if not np.allclose(y,R,atol=1e-9): raise Bad('R_from_quat()',y.tolist(),R.tolist(),a)
            trace('Rt_from_qt'); oo=np.full(sh+(6,3),np.nan)[...,1:5,:]; y=mrcal.Rt_from_qt(qt,**(dict(out=oo) if o else {})); c+=1
            if not np.allclose(y,Rt,atol=1e-9): raise Bad('Rt_from_qt()',y.tolist(),Rt.tolist(),a)
            if o and not np.array_equal(oo,y): raise Bad('Rt_from_qt(out=)',oo.tolist(),y.tolist(),a)
    return c
def tst_rectify(g):
    c=0; ms=[]
    for i in range(2):
        lm=LM[int(g.integers(4))]; k=np.zeros(mrcal.lensmodel_num_params(lm)); k[:4]=[600+g.uniform(-20,20),610+g.uniform(-20,20),320,240]; k[4:]=g.normal(0,.004,len(k)-4)
        ms.append(mrcal.cameramodel(intrinsics=(lm,k),imagersize=(640,480),rt_cam_ref=np.concatenate((g.normal(0,.05,3),g.normal(0,.05,3)+[-1.*i,0,0]))))
    rm=['LENSMODEL_LATLON','LENSMODEL_PINHOLE'][int(g.integers(2))]; az,el=float(g.uniform(20,40)),float(g.uniform(15,30)); ppd=float(g.uniform(.2,.5))
    az0,el0=float(g.uniform(-5,5)),float(g.uniform(-3,3)); trace('rectified_system'); mr=mrcal.rectified_system(ms,az_fov_deg=az,el_fov_deg=el,az0_deg=az0,el0_deg=el0,pixels_per_deg_az=ppd,pixels_per_deg_el=ppd,rectification_model=rm)
    d=lambda **k: dict(models=[[m.intrinsics()[0],m.intrinsics()[1].tolist(),m.rt_cam_ref().tolist()] for m in ms],rectification_model=rm,az=az,el=el,ppd=ppd)
    T=[m.Rt_cam_ref() for m in mr]; S_=[m.Rt_cam_ref() for m in ms]; org=lambda Rt: -Rt[:3].T@Rt[3]
    for i in range(2):
        c+=1
        if not np.allclose(org(T[i]),org(S_[i]),atol=1e-9): raise Bad('rectified_system(): origin of camera %d'%i,org(T[i]).tolist(),org(S_[i]).tolist(),d())
    if not np.allclose(T[0][:3],T[1][:3],atol=1e-9): raise Bad('rectified_system(): orientations differ',T[0].tolist(),T[1].tolist(),d())
    bl=T[0][:3]@(org(T[1])-org(T[0]))
    if not np.allclose(bl,[np.linalg.norm(bl),0,0],atol=1e-9): raise Bad('rectified_system(): the baseline is not along x',bl.tolist(),'(b,0,0)',d())
    if not np.array_equal(mr[0].intrinsics()[1],mr[1].intrinsics()[1]) or mr[0].intrinsics()[0]!=rm: raise Bad('rectified_system(): intrinsics differ','','',d())
    W,H=mr[0].imagersize(); c+=1; w=mrcal.project(mrcal.unproject_latlon(np.array((az0,el0))*np.pi/180.),*mr[0].intrinsics())
    if rm=='LENSMODEL_LATLON' and not np.allclose(w,[(W-1)/2,(H-1)/2],atol=1e-6): raise Bad('rectified_system(az0_deg=%r,el0_deg=%r): where the middle of the field of view is seen'%(az0,el0),w.tolist(),[(W-1)/2,(H-1)/2],d())
    maps=mrcal.rectification_maps(ms,mr); c+=1
    if maps.shape!=(2,H,W,2): raise Bad('rectification_maps(): shape',maps.shape,(2,H,W,2),d())
    q=np.stack(np.meshgrid(np.arange(W),np.arange(H)),-1).astype(float); v=mrcal.unproject(q,*mr[0].intrinsics())
    for i in range(2):
        p=v@(S_[i][:3]@T[0][:3].T).T; w=mrcal.project(p,*ms[i].intrinsics()); ok=np.abs(w).max(-1)<1e5; c+=1
        if not np.allclose(maps[i][ok],w[ok],rtol=1e-5,atol=2e-3):
            j=np.unravel_index(np.argmax(np.where(ok,np.abs(maps[i]-w).max(-1),0)),ok.shape); raise Bad('rectification_maps(): camera %d, pixel %r'%(i,j),maps[i][j].tolist(),w[j].tolist(),d())
    a=[*ms[0].intrinsics(),*ms[1].intrinsics(),*mr[0].intrinsics()]; k=dict(r_cam0_ref=ms[0].rt_cam_ref()[:3],r_cam1_ref=ms[1].rt_cam_ref()[:3],r_rect0_ref=mr[0].rt_cam_ref()[:3])
    def call(a,k,sh=(2,H,W,2),dt=np.float32,o=None):
        o=np.zeros(sh,dt) if o is None else o; mrcal._mrcal._rectification_maps(*a,**k,rectification_maps=o); return o
    for what,f in [('%d columns'%n_,lambda n_=n_: call(a,k,(2,H,W,n_))) for n_ in (1,3)]+[('%d cameras'%n_,lambda n_=n_: call(a,k,(n_,H,W,2))) for n_ in (1,3)]+[('maps of type double',lambda: call(a,k,dt=float)),('maps that are not contiguous',lambda: call(a,k,o=np.zeros((2,H,2*W,2),np.float32)[:,:,::2])),
        ('an rt instead of an r',lambda: call(a,dict(k,r_cam1_ref=np.zeros(6)))),('intrinsics of a wrong length',lambda: call(a[:3]+[np.append(a[3],1.)]+a[4:],k)),('integers',lambda: call(a,dict(k,r_rect0_ref=np.zeros(3,int))))]:
        trace('_rectification_maps with '+what)
        try: f()
        except Exception: c+=1; continue
        raise Bad('_rectification_maps with '+what,'accepted','rejected',d())
    return c
def tst_range(g):
    """stereo_range(), stereo_unproject(): the point at this range in the direction of the pixel is seen by the other camera this many pixels to the left"""
    c=0; W,H=int(g.integers(3,9)),int(g.integers(2,7)); lm=['LENSMODEL_LATLON','LENSMODEL_PINHOLE'][int(g.integers(2))]; f=float(g.uniform(300,900)); fy=float(g.uniform(300,900)); bl=float(g.uniform(.1,2))
    K=np.array([f,fy,g.uniform(0,W),g.uniform(0,H)]); r=g.normal(0,.3,3); R=mrcal.R_from_r(r); t=g.normal(0,1,3)
    m=[mrcal.cameramodel(intrinsics=(lm,K),imagersize=(W,H),rt_cam_ref=np.concatenate((r,t-[bl*i,0,0]))) for i in range(2)]
    q=np.stack(np.meshgrid(np.arange(W),np.arange(H)),-1).astype(float)
    def verify(what,d,ok,rg,qq,pts,a):
        nonlocal c; c+=1
        d,ok,rg=np.broadcast_arrays(d,ok,rg)
        if rg.shape!=np.broadcast_shapes(d.shape,qq.shape[:-1]): raise Bad(what+': shape',rg.shape,d.shape,a)
        if np.any(rg[~ok]!=0): raise Bad(what+': range of invalid disparities %r'%d[~ok].tolist(),rg[~ok].tolist(),0,a)
        v=mrcal.unproject(qq,lm,K,normalize=True); p=v*rg[...,None]; b=np.broadcast_to(qq,p.shape[:-1]+(2,))[ok]
        if pts is not None and not close(pts,p,1e-9): raise Bad(what+': stereo_unproject()',pts.tolist(),p.tolist(),a)
        if not ok.any(): return
        if not np.all(np.isfinite(rg)): raise Bad(what+': ranges',rg.tolist(),'finite',a)
        q1=mrcal.project(p[ok]-[bl,0,0],lm,K); w=b-np.stack((d[ok],0*d[ok]),-1)
        # a range <0 is not in front of the cameras; it does not arise here
        if not np.allclose(q1,w,atol=1e-4): raise Bad(what+': pixels where the other camera sees the points at the ranges of disparities %r'%d[ok].tolist()[:5],q1.tolist()[:5],w.tolist()[:5],a)
    for dt,scale in ((np.uint16,16),(np.int16,16),(np.int16,1),(np.uint16,1),(np.uint8,4),(float,1),(float,16),(np.float32,1),(np.int32,16),(np.int64,1),(np.uint16,2.5)):
        d=g.uniform(.5,60,(H,W))*scale; neg=g.random((H,W))<.2
        d=np.where(neg,-d if np.dtype(dt).kind!='u' else 0,d)
        if g.random()<.3 and dt==np.int16: d[g.random((H,W))<.2]=-16
        d=d.astype(dt); px=d.astype(float)/scale
        for how in range(4):
            k=dict(disparity_scale=scale) if scale!=1 or g.random()<.5 else {}; lo,hi=-np.inf,np.inf
            if how in (1,3): lo=float(g.integers(1,20)) if g.random()<.7 else float(np.round(g.uniform(.3,20)*16)/16)
            if how in (2,3): hi=float(g.integers(25,70))
            if how: 
                s=g.random()<.5
                if lo>-1: k['disparity_scaled_min' if s else 'disparity_min']=lo*scale if s else lo
                if hi<1e9: k['disparity_scaled_max' if s else 'disparity_max']=hi*scale if s else hi
            ok=(px>0)&(px>=lo)&(px<=hi); near=(np.isclose(px,lo)|np.isclose(px,hi))&(scale==2.5)
            a=dict(disparity=d.tolist(),type=str(d.dtype),model=lm,intrinsics=K.tolist(),baseline=bl,args={x:float(y) for x,y in k.items()})
            for sparse in (0,1):
                kk=dict(k,qrect0=q) if sparse else k; what='stereo_range(%s, scale %r%s%s)'%(d.dtype,scale,', limits' if how else '',', qrect0' if sparse else ''); trace(what)
                rg=np.array(mrcal.stereo_range(d,m,**kk)); rg[near]=0; pts=None
                if not how: trace('stereo_unproject: '+what); pts=mrcal.stereo_unproject(d,m,**kk); pts[near]=0
                verify(what,px,ok&~near,rg,q,pts,a)
            if not how: j=(int(g.integers(H)),int(g.integers(W))); verify('stereo_range() of one disparity',px[j],ok[j],np.array(mrcal.stereo_range(d[j] if g.random()<.5 else d[j].item(),m,qrect0=q[j],**k)),q[j],None,a)
    return c
def tst_pytri(g):
    """triangulate_...(): camera-1 vectors given in either frame, t01 or Rt01, are the same problem"""
    c=0; n=5; p=g.normal(0,1,(n,3))+[0,0,8]; Rt=np.vstack((mrcal.R_from_r(g.normal(0,.2,3)),g.normal(0,1,3))); v0=p+g.normal(0,.01,(n,3)); v1=(p-Rt[3])+g.normal(0,.01,(n,3)); l1=v1@Rt[:3]
    N=mrcal._triangulation_npsp; a=dict(v0=v0.tolist(),v1=v1.tolist(),Rt01=Rt.tolist())
    for nm in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2','lindstrom','error'):
        f=mrcal._triangulated_error if nm=='error' and hasattr(mrcal,'_triangulated_error') else mrcal.triangulation._triangulated_error if nm=='error' else getattr(mrcal,'triangulate_'+nm); C=getattr(N,'_triangulated_error' if nm=='error' else '_triangulate_'+nm); G=getattr(N,('_triangulated_error' if nm=='error' else '_triangulate_'+nm)+'_withgrad')
        cases=[('local',lambda: f(v0,l1,Rt01=Rt,v_are_local=True),lambda: C(v0,l1,Rt) if nm=='lindstrom' else C(v0,v1,Rt[3])),
               ('not local, Rt01',lambda: f(v0,v1,Rt01=Rt,v_are_local=False),lambda: C(v0,l1,Rt) if nm=='lindstrom' else C(v0,v1,Rt[3]))]
        if nm!='lindstrom': cases+=[('t01',lambda: f(v0,v1,Rt[3]),lambda: C(v0,v1,Rt[3])),('gradients',lambda: f(v0,v1,Rt[3],get_gradients=True),lambda: G(v0,v1,Rt[3])),('t01 by name, out',lambda: f(v0,v1,t01=Rt[3],out=np.zeros((n,3) if nm!='error' else (n,))),lambda: C(v0,v1,Rt[3]))]
        else: cases+=[('positional',lambda: f(v0,l1,Rt),lambda: C(v0,l1,Rt)),('gradients',lambda: f(v0,l1,Rt,get_gradients=True),lambda: G(v0,l1,Rt))]
        for what,x,y in cases:
            trace('triangulate_%s: %s'%(nm,what)); c+=1; got,want=x(),y()
            if not isinstance(got,tuple): got,want=(got,),(want,)
            if len(got)!=len(want) or not all(close(np.asarray(i),np.asarray(j),1e-6) for i,j in zip(got,want)): raise Bad('triangulate_%s(): %s'%(nm,what),[np.asarray(i).tolist() for i in got],[np.asarray(i).tolist() for i in want],a)
        for what,x in (('both t01 and Rt01',lambda: f(v0,v1,t01=Rt[3],Rt01=Rt)),('neither t01 nor Rt01',lambda: f(v0,v1)),('local vectors without Rt01',lambda: f(v0,v1,t01=Rt[3],v_are_local=True)))[:3 if nm!='lindstrom' else 0]:
            try: x()
            except Exception: c+=1; continue
            raise Bad('triangulate_%s() with %s'%(nm,what),'accepted','rejected',a)
    return c
def tst_unproject(g):
    """unproject(): project() undoes it; its gradients are those of the inverse; normalize, out"""
    c=0
    for lm in ('LENSMODEL_PINHOLE','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=6_fov_x_deg=120'):
        K=mrcal.lensmodel_num_params(lm); i=np.zeros(K); i[:4]=[g.uniform(400,700),g.uniform(400,700),320+g.uniform(-20,20),240+g.uniform(-20,20)]; i[4:]=g.normal(0,.004,K-4)
        sh=[(),(4,),(2,3)][int(g.integers(3))]; q=np.stack((g.uniform(60,580,sh),g.uniform(60,420,sh)),-1); a=dict(lensmodel=lm,intrinsics=i.tolist(),q=q.tolist())
        def eq(what,got,want,tol):
            nonlocal c; c+=1
            if np.shape(got)!=np.shape(want) or not np.allclose(got,want,rtol=tol,atol=tol): raise Bad('unproject() with %s, %s'%(lm,what),np.asarray(got).tolist(),np.asarray(want).tolist(),a)
        un=lambda v: v/np.linalg.norm(v,axis=-1)[...,None]
        trace('unproject() with '+lm); v0=mrcal.unproject(q,lm,i); eq('project() of the result',mrcal.project(v0,lm,i),q,1e-5); ref=un(v0)
        for norm in (False,True):
            v=mrcal.unproject(q,lm,i,normalize=norm); eq('normalize=%r: direction'%norm,un(v),ref,1e-6)
            if norm: eq('normalize: length',np.linalg.norm(v,axis=-1),np.ones(sh),1e-9)
            for out in (False,True):
                w=', normalize=%r%s: '%(norm,', out' if out else ''); o=(np.full(sh+(3,),7.),np.full(sh+(3,2),7.),np.full(sh+(3,K),7.)) if out else None
                if out:
                    o1=np.full(sh+(3,),7.); mrcal.unproject(q,lm,i,normalize=norm,out=o1); eq('out'+w+'vector',o1,v,1e-9)
                r=mrcal.unproject(q,lm,i,normalize=norm,get_gradients=True,out=o); r=o if out else r
                v,dq,di=r; eq('get_gradients'+w+'direction',un(v),ref,1e-6); _,pv,pi=mrcal.project(v,lm,i,get_gradients=True)
                if norm: eq('get_gradients'+w+'length',np.linalg.norm(v,axis=-1),np.ones(sh),1e-9); eq('get_gradients'+w+'dv/dq is orthogonal to v',(v[...,None]*dq).sum(-2),np.zeros(sh+(2,)),1e-9); eq('get_gradients'+w+'dv/di is orthogonal to v',(v[...,None]*di).sum(-2),np.zeros(sh+(K,)),1e-7)
                eq('get_gradients'+w+'dv/dq',pv@dq,np.broadcast_to(np.eye(2),sh+(2,2)),1e-6); eq('get_gradients'+w+'dv/dintrinsics',pv@di,-pi,1e-5*max(1.,abs(pi).max()))
                h=.5; f=lambda d: mrcal.unproject(q+d,lm,i,normalize=norm,get_gradients=True)[0]; n=np.stack([(f(h*e)-f(-h*e))/(2*h) for e in np.eye(2)],-1); eq('get_gradients'+w+'dv/dq against differences',dq*500,n*500,5e-3)
    return c
def tst_measure(g):
    """measurements_board(), measurements_point(), hypothesis_board_corner_positions(): the weighted errors of the observations that are not outliers, one camera or all"""
    kw,W,H=problem(g); c=0; L,N=layout(kw); ob,op=kw['observations_board'],kw['observations_point']; nb,npt=len(ob),len(op); k=copy.deepcopy
    x=mrcal.optimizer_callback(**k(kw),no_jacobian=True,no_factorization=True)[1]; ib,ip=kw['indices_frame_camintrinsics_camextrinsics'],kw['indices_point_camintrinsics_camextrinsics']
    def eq(what,got,want):
        nonlocal c; c+=1
        if np.shape(got)!=np.shape(want) or not np.allclose(got,want,rtol=1e-9,atol=1e-9): raise Bad(what,np.asarray(got).tolist(),np.asarray(want).tolist(),js(kw))
    for cam_ in [None]+list(range(len(kw['intrinsics']))):
        B=[(o,i,j) for o in range(nb) for i in range(H) for j in range(W) if ob[o,i,j,2]>0 and cam_ in (None,ib[o,1])]; P=[o for o in range(npt) if op[o,2]>0 and cam_ in (None,ip[o,1])]
        w=np.array([x[2*((o*H+i)*W+j):][:2] for o,i,j in B]).reshape(-1,2); wo=np.array([ob[o,i,j,:2] for o,i,j in B]).reshape(-1,2); M=nb*H*W*2
        v=np.array([x[M+2*o:][:2] for o in P]).reshape(-1,2); vo=np.array([op[o,:2] for o in P]).reshape(-1,2)
        for nm,f,a,b in (('measurements_board',mrcal.measurements_board,w,wo),('measurements_point',mrcal.measurements_point,v,vo)):
            for given in (False,True):
                kk=dict(x=x) if given else {}; kk.update({} if cam_ is None else dict(icam_intrinsics=cam_)); d='%s(camera %r%s)'%(nm,cam_,', x given' if given else ''); trace(d)
                eq(d,f(k(kw),**kk),a); r=f(k(kw),return_observations=True,**kk); eq(d+', return_observations: measurements',r[0],a); eq(d+', return_observations: observations',r[1],b)
        if nb:
            trace('hypothesis_board_corner_positions(%r)'%cam_); r=mrcal.hypothesis_board_corner_positions(cam_,**k(kw)); c+=1
            if r[0].shape!=(nb,H,W,3): raise Bad('hypothesis_board_corner_positions(): shape',r[0].shape,(nb,H,W,3),js(kw))
            q=np.array([mrcal.project(r[0][o],kw['lensmodel'],kw['intrinsics'][ib[o,1]]) for o in range(nb)]); e=(q-ob[...,:2])*ob[...,2:]; ok=ob[...,2]>0; eq('hypothesis_board_corner_positions(%r): the weighted errors of these points'%cam_,e[ok],x[:M].reshape(nb,H,W,2)[ok])
            s=np.array([cam_ in (None,i) for i in ib[:,1]],dtype=bool); eq('hypothesis_board_corner_positions(%r): of the camera'%cam_,r[1],r[0][s]); eq('hypothesis_board_corner_positions(%r): inliers'%cam_,r[2],r[0][ok&s[:,None,None]]); eq('hypothesis_board_corner_positions(%r): outliers'%cam_,r[3],r[0][~ok&s[:,None,None]])
    return c
def tst_align(g):
    n=int(g.integers(3,9)); v1=g.normal(0,1,(n,3)); R=np.linalg.qr(g.normal(0,1,(3,3)))[0]; R*=np.linalg.det(R); t=g.normal(0,1,3); w=g.uniform(.1,2,n); p0=v1@R.T+t+g.normal(0,.05,(n,3)); c=0
    def rot(a,b,w):
        U,_,V=np.linalg.svd((a*w[:,None]).T@b); D=np.diag([1,1,np.linalg.det(U@V)]); return U@D@V
    def both(p0,v1,w):
        W=w if w is not None else np.ones(n); m0,m1=(W@p0)/W.sum(),(W@v1)/W.sum(); Rw=rot(p0-m0,v1-m1,W); return rot(p0,v1,W),np.vstack((Rw,m0-Rw@m1))
    for ww in (None,w):
        k={} if ww is None else dict(weights=ww); wr,wt=both(p0,v1,ww)
        for nm,f,want in (('vectors_R01',mrcal.align_procrustes_vectors_R01,wr),('points_Rt01',mrcal.align_procrustes_points_Rt01,wt)):
            args=dict(a=p0,b=v1,w=ww)
            for lay in (lambda a: a,odd,fort,lambda a: np.ascontiguousarray(a[::-1])[::-1],lambda a: a.astype(np.float32)):
                for which in (0,1,2):
                    A=[p0,v1,ww]
                    if A[which] is None: continue
                    x=lay(A[which])
                    if x is None: continue
                    if x.dtype!=float: wr2,wt2=both(*[np.asarray(x,float) if j==which else A[j] for j in range(3)]); wa=wr2 if nm[0]=='v' else wt2
                    else: wa=want
                    A[which]=x; kk={} if A[2] is None else dict(weights=A[2]); trace('align_procrustes_%s: strides %r'%(nm,x.strides))
                    try: got=f(A[0],A[1],**kk)
                    except Exception as e:
                        if x.flags.c_contiguous and x.dtype==float: raise Bad('align_procrustes_%s fails'%nm,repr(e),'success',dict(p0=p0.tolist(),p1=v1.tolist()))
                        c+=1; continue
                    c+=1
                    if not close(np.asarray(got),wa,1e-6): raise Bad('align_procrustes_%s of %d points, weights %s; argument %d has strides %r, type %s'%(nm,n,'given' if ww is not None else 'None',which,x.strides,x.dtype),np.asarray(got).tolist(),wa.tolist(),dict(p0=p0.tolist(),p1=v1.tolist(),w=None if ww is None else ww.tolist()))
            for what,f2 in (('a point too few',lambda: f(p0[1:],v1,**k)),('2 columns',lambda: f(p0[:,:2],v1,**k)),('2 columns in both',lambda: f(p0[:,:2].copy(),v1[:,:2].copy(),**k)),('a weight too few',lambda: f(p0,v1,weights=w[1:])),('text',lambda: f('a',v1,**k)),('weights of 2 dimensions',lambda: f(p0,v1,weights=np.ones((n,2))))):
                trace('align_procrustes_%s with %s'%(nm,what))
                try: got=f2()
                except Exception: c+=1; continue
                raise Bad('align_procrustes_%s with %s'%(nm,what),np.asarray(got).tolist(),'rejected',{})
    return c
def wf(Ni,Ne,Nf,Np,Nfix,B,P,Tr,spacing=1.):
    """are the indices of a problem as documented?"""
    cam=lambda r: 0<=r[1]<Ni and -1<=r[2]<Ne
    if not all(cam(r) for r in B+P+Tr): return False
    if B and not spacing>0: return False
    if not all(0<=r[0]<Nf for r in B): return False
    last=None
    for r in B:
        if last is None: ok=r[0]==0
        elif r[0]==last[0]: ok=r[1]>=last[1] and r[2]>=last[2]
        else: ok=r[0]==last[0]+1
        if not ok: return False
        last=r
    if B and B[-1][0]!=Nf-1: return False
    if Nfix<0 or Nfix>Np: return False
    big=-1
    for r in P:
        if not 0<=r[0]<Np or r[0]>big+1: return False
        big=max(big,r[0])
    if big!=Np-1: return False
    if Tr:
        ix=[r[0] for r in Tr]; u=sorted(set(ix))
        if ix!=sorted(ix) or u!=list(range(len(u))) or any(ix.count(i)<2 for i in u) or any(sum(r[0]==i and r[2]<0 for r in Tr)>1 for i in u): return False
    return True
def tst_indices(g):
    c=0; Ki=lambda n_: np.array([[800,810,500,400.]]*n_); J=lambda a,lo,hi: int(g.integers(lo,hi))
    for rep in range(12):
        Ni,Ne,Nf,Np=J(0,1,4),J(0,0,4),J(0,0,4),J(0,0,4)
        cams=[(i,e) for i in range(Ni) for e in range(-1,Ne)]
        B=[]
        for f in range(Nf):
            i,e=0,-1
            for k in range(J(0,1,4)):
                i,e=J(0,i,Ni),J(0,e,Ne); B.append([f,i,e])
        P=[[p,*cams[J(0,0,len(cams))]] for p in range(Np) for k in range(J(0,1,3))]
        for k in range(J(0,0,2)):
            if P: P.append([J(0,0,Np),*cams[J(0,0,len(cams))]])
        Tr=[[p,*cams[J(0,0,len(cams))]] for p in range(J(0,0,3)) for k in range(J(0,2,5))]
        Nfix=J(0,0,Np+1)
        if g.random()<.1: Nfix=[-1,Np+1][J(0,0,2)]
        allr=[r for L_ in (B,P,Tr) for r in L_]
        if g.random()<.75 and allr:
            for k in range(J(0,1,3)):
                how=J(0,0,6); L_=(B,P,Tr)[J(0,0,3)]
                if how<3 and allr: r=allr[J(0,0,len(allr))]; j=J(0,0,3); r[j]+=int(g.choice([-1,1])) if g.random()<.8 else int(g.integers(-3,4))
                elif how==3 and L_: L_.pop(J(0,0,len(L_)))
                elif how==4 and len(L_)>1: a,b=J(0,0,len(L_)),J(0,0,len(L_)); L_[a],L_[b]=L_[b],L_[a]
                elif L_: r=list(L_[J(0,0,len(L_))]); L_.insert(J(0,0,len(L_)+1),r)
        if not B and not P and not Tr: continue
        ok=wf(Ni,Ne,Nf,Np,Nfix,B,P,Tr)
        if Nf and not B: continue # frames that are not observed by anything: unspecified
        I=lambda L_: np.array(L_,dtype=np.int32).reshape(-1,3); Z=lambda *a: np.ones(a)
        kw=dict(intrinsics=Ki(Ni),lensmodel='LENSMODEL_PINHOLE',imagersizes=np.array([[1000,800]]*Ni,dtype=np.int32),rt_cam_ref=np.arange(6*Ne).reshape(Ne,6)*.001,rt_ref_frame=np.array([[0,0,0,0,0,3.]]*Nf).reshape(Nf,6),points=np.array([[.1,.2,4.]]*Np).reshape(Np,3),
            observations_board=Z(len(B),3,3,3),indices_frame_camintrinsics_camextrinsics=I(B),observations_point=Z(len(P),3),indices_point_camintrinsics_camextrinsics=I(P),calobject_warp=np.zeros(2),calibration_object_spacing=.1,Npoints_fixed=Nfix,
            do_optimize_intrinsics_core=True,do_optimize_extrinsics=Ne>0,do_optimize_frames=len(B)>0,do_optimize_calobject_warp=len(B)>0,do_apply_regularization=False,verbose=False)
        if Tr: kw.update(observations_point_triangulated=Z(len(Tr),3),indices_point_triangulated_camintrinsics_camextrinsics=I(Tr),do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True)
        if Tr and Ne==0: continue
        trace('optimizer_callback() with indices %r'%((Ni,Ne,Nf,Np,Nfix,B,P,Tr),)); e=None
        try: mrcal.optimizer_callback(**kw,no_jacobian=True,no_factorization=True)
        except Exception as x: e=x
        c+=1
        if (e is None)!=ok: raise Bad('optimizer_callback() of Ncameras_intrinsics=%d Ncameras_extrinsics=%d Nframes=%d Npoints=%d Npoints_fixed=%d, board, point and triangulated indices %r'%(Ni,Ne,Nf,Np,Nfix,(B,P,Tr)),'accepted' if e is None else repr(e),'accepted' if ok else 'rejected',js(kw))
    return c
def tst_rows(g):
    """many rows, one of them wrong: rejected wherever it is"""
    c=0; J=lambda a,b: int(g.integers(a,b)); n=J(20,150); I=lambda L_: np.array(L_,dtype=np.int32).reshape(-1,3); Z=lambda *a: np.ones(a); Ni,Ne=3,2
    for kind in ('board','point','triangulated'):
        R=[]; k=0
        while len(R)<n:
            m=J(2,5) if kind=='triangulated' else J(1,4); i,e=0,-1
            for _ in range(m):
                if kind=='board': i,e=J(i,Ni),J(e,Ne)
                else: i,e=J(0,Ni),J(-1,Ne)
                R.append([k,i,e])
            k+=1
        for r in range(-1,len(R)):
            for how in g.permutation(7)[:3] if r>=0 else [0]:
                L_=[list(q) for q in R]
                if r>=0:
                    if how<6: L_[r][how//2]+=(-1,1)[how%2] if g.random()<.5 else (-3,3)[how%2]
                    else: L_[r],L_[r-1]=L_[r-1],L_[r]
                B,P,Tr=((L_ if kind==x else []) for x in ('board','point','triangulated')); Nf,Np=(k if kind=='board' else 0),(k if kind=='point' else 0); ok=wf(Ni,Ne,Nf,Np,0,B,P,Tr)
                if ok and r>=0 and g.random()<.95: continue
                kw=dict(intrinsics=np.array([[800,810,500,400.]]*Ni),lensmodel='LENSMODEL_PINHOLE',imagersizes=np.array([[1000,800]]*Ni,dtype=np.int32),rt_cam_ref=np.arange(6*Ne).reshape(Ne,6)*.001,rt_ref_frame=np.array([[0,0,0,0,0,3.]]*Nf).reshape(Nf,6),points=np.array([[.1,.2,4.]]*Np).reshape(Np,3),
                    observations_board=Z(len(B),2,2,3),indices_frame_camintrinsics_camextrinsics=I(B),observations_point=Z(len(P),3),indices_point_camintrinsics_camextrinsics=I(P),calobject_warp=np.zeros(2),calibration_object_spacing=.1,Npoints_fixed=0,
                    do_optimize_intrinsics_core=not Tr,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=len(B)>0,do_optimize_calobject_warp=len(B)>0,do_apply_regularization=False,verbose=False)
                if Tr: kw.update(observations_point_triangulated=Z(len(Tr),3),indices_point_triangulated_camintrinsics_camextrinsics=I(Tr))
                w='optimizer_callback() with %d %s rows, row %d being %r after %r'%(len(L_),kind,r,L_[r],L_[r-1]) if r>=0 else 'optimizer_callback() with %d valid %s rows'%(len(L_),kind); trace(w); x=None; c+=1
                try: mrcal.optimizer_callback(**kw,no_jacobian=True,no_factorization=True)
                except Exception as x_: x=x_
                if (x is None)!=ok: raise Bad(w,'accepted' if x is None else 'rejected: '+str(x)[:300],'accepted' if ok else 'rejected',dict(rows=L_))
    return c
def tst_triweights(g):
    """a triangulated observation with a weight <= 0 is ignored: the measurements of its pairs and their Jacobian are 0, the others are as they were"""
    n=int(g.integers(2,5)); sets=[int(g.integers(2,n+1)) for k in range(int(g.integers(1,4)))]
    ti=np.array([(k,0,e) for k,m in enumerate(sets) for e in sorted(g.choice(np.arange(-1,n-1),m,replace=False).tolist())],dtype=np.int32); N=len(ti)
    o=np.concatenate((g.normal(0,60,(N,2))+[500,400],g.uniform(.5,1.5,(N,1))),1); o2=o.copy(); bad=g.random(N)<.4; o2[bad,2]=g.choice([0.,-1.,-0.,-1e-30,-np.inf],bad.sum())
    kw=dict(intrinsics=np.array([[800,810,500,400.]]),lensmodel='LENSMODEL_PINHOLE',imagersizes=np.array([[1000,800]],dtype=np.int32),rt_cam_ref=g.normal(0,.2,(n-1,6)),do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=False,do_optimize_calobject_warp=False,do_apply_regularization=False,indices_point_triangulated_camintrinsics_camextrinsics=ti)
    trace('optimizer_callback() with triangulated weights %r'%o2[:,2].tolist())
    cb=lambda o: mrcal.optimizer_callback(observations_point_triangulated=o,**kw,no_factorization=True)[1:3]
    x,J=cb(o); x2,J2=cb(o2); J,J2=J.toarray(),J2.toarray(); i0=0; pairs=[]
    for m in sets: pairs+=[(i0+a,i0+b) for a in range(m) for b in range(a+1,m)]; i0+=m
    ig=np.array([bad[a] or bad[b] for a,b in pairs]); wx=np.where(ig,0,x); wJ=np.where(ig[:,None],0,J)
    if x.shape!=(len(pairs),) or not np.array_equal(x2,wx) or not np.array_equal(J2,wJ): raise Bad('optimizer_callback() with the weights %r of triangulated observations %r: measurements and Jacobian'%(o2[:,2].tolist(),ti.tolist()),[x2.tolist(),J2.tolist()],[wx.tolist(),wJ.tolist()],js(dict(kw,o=o2)))
    return 2
T=dict(tiny=tst_tiny,quat=tst_quat,measure=tst_measure,unproject=tst_unproject,range=tst_range,pytri=tst_pytri,indices=tst_indices,rows=tst_rows,triweights=tst_triweights,state=tst_state,traverse=tst_traverse,rectify=tst_rectify,align=tst_align,callback=tst_callback,reject=tst_reject,layout=tst_layout,pack=tst_pack,factor=tst_factor,solve=tst_solve,lens=tst_lens,image=tst_image)
WEIGHT=dict(tiny=1,quat=1,measure=1,unproject=1,range=1,pytri=1,indices=1,rows=1,triweights=1,state=1,traverse=1,rectify=.3,align=.6,callback=1,reject=1,layout=1,pack=1,factor=1,solve=.15,lens=.3,image=.5)
def main():
    cnt=0
    for it in range(n):
        for k,(nm,f) in enumerate(T.items()):
            if part not in ('all',nm): continue
            if (it*WEIGHT[nm])%1>=WEIGHT[nm] and it: continue
            g=np.random.default_rng([seed,it,sum(map(ord,nm))])
            try: cnt+=f(g)
            except Bad as x:
                w,got,want,args=x.args; return cnt,(dict(test=nm,seed=seed,iteration=it,args=args),w,str(got)[:1500],str(want)[:1500])
            except (AttributeError,MemoryError): raise # not an answer
            except Exception as e:
                import traceback
                return cnt,(dict(test=nm,seed=seed,iteration=it,args={}),'a valid call fails: '+open('trace').read()[:300],repr(e)[:500]+traceback.format_exc()[-400:],'success')
    return cnt,None
if __name__=='__main__':
    r=os.dup(1); dn=os.open(os.devnull,os.O_WRONLY); os.dup2(dn,1); m=main()
    os.write(r,('RESULT '+json.dumps(m)+'\n').encode())
