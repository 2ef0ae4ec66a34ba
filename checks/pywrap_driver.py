"""Run by the system's Python with the package built from the current tree: broadcasting, memory layouts, out=, and rejection of bad inputs of
the Python functions, against the C library called on one element at a time (through ctypes) or against independent formulas.
Prints one line of JSON."""
import re,sys, os, json, random, ctypes, warnings, traceback
warnings.simplefilter('ignore')
libpath,seed,n,part=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
import numpy as np, mrcal, mrcal._triangulation_npsp as TR, mrcal.triangulation
L=ctypes.CDLL(libpath); P=ctypes.c_void_p
np.seterr(all='ignore')
class P3(ctypes.Structure): _fields_=[('x',ctypes.c_double*3)]
def ptr(a): return P(a.ctypes.data) if a is not None else P(0)
def C(x): return np.ascontiguousarray(x,dtype=float)
def full(fn,outs,ins,flags=()):
    """mrcal_xxx_full(): contiguous arrays"""
    a=[]
    for x in list(outs)+list(ins):
        if isinstance(x,tuple): a+=[ptr(None)]+[ctypes.c_int(0)]*x[0]; continue
        a+=[P(x.ctypes.data)]+[ctypes.c_int(s) for s in x.strides]
    f=getattr(L,'mrcal_%s_full'%fn); f.restype=None; f(*a,*[ctypes.c_bool(bool(b)) for b in flags])
Z=lambda *s: np.zeros(s)
def rot(g): 
    r=g.normal(0,1,3); return r
def rodR(r):
    R=Z(3,3); full('R_from_r',[R,(3,)],[C(r)]); return R
gen={'r':lambda g: g.normal(0,1,3)*g.choice([1,1e-9,.1]),'x':lambda g: g.normal(0,3,3),'R':lambda g: rodR(g.normal(0,1,3)),'Rt':lambda g: np.vstack((rodR(g.normal(0,1,3)),g.normal(0,2,3))),'rt':lambda g: g.normal(0,1,6),'q':lambda g: (lambda q: q/np.linalg.norm(q))(g.normal(0,1,4)),
 'front':lambda g: np.array([g.uniform(-1,1),g.uniform(-1,1),g.uniform(1,4)]),'v':lambda g: g.normal(0,1,3),'pix':lambda g: g.uniform(300,700,2),'fc':lambda g: np.array([g.uniform(900,1100),g.uniform(900,1100),g.uniform(400,600),g.uniform(400,600)])}
F=[]
class Fn:
    """outs: function of the core inputs (one element) -> list of outputs; call(args,flags,grad,out) -> output or tuple"""
    def __init__(s,name,call,ins,ref,ngrad=0,flags=0,out=True,rtol=1e-10,shapes=None,contig=False,dims=None): s.__dict__.update(locals())
def pose(name,ins,outs,ref,flags=0,grad=True):
    """outs: shapes with gradients"""
    f=getattr(mrcal,name)
    kw={1:['inverted'],2:['inverted0','inverted1']}.get(flags,[])
    def call(a,fl,g,out):
        k=dict(zip(kw,fl))
        if g: k['get_gradients']=True
        if out is not None: k['out']=out
        return f(*a,**k)
    F.append(Fn(name,call,ins,ref,grad,flags,shapes=outs))
def r1(name,outs,nul,pre=''):
    """ordinary function: outputs (with gradients) are the C function's outputs in order"""
    def ref(a,fl,g):
        o=[Z(*s) for s in outs]; k=len(outs) if g else 1
        full(name,[o[i] if i<k else (len(outs[i]),) for i in range(len(outs))],a,fl); return o[:k]
    return ref
for nm,ins,outs,fl,gr in (('identity_R',(),((3,3),),0,0),('identity_r',(),((3,),),0,0),('identity_Rt',(),((4,3),),0,0),('identity_rt',(),((6,),),0,0),
 ('rotate_point_R','Rx',((3,),(3,3,3),(3,3)),1,1),('rotate_point_r','rx',((3,),(3,3),(3,3)),1,1),('transform_point_Rt',('Rt','x'),((3,),(3,4,3),(3,3)),1,1),('transform_point_rt',('rt','x'),((3,),(3,6),(3,3)),1,1),
 ('r_from_R','R',((3,),(3,3,3)),0,1),('R_from_r','r',((3,3),(3,3,3)),0,1),('invert_R','R',((3,3),),0,0),('rt_from_Rt',('Rt',),((6,),(3,3,3)),0,1),('Rt_from_rt',('rt',),((4,3),(3,3,3)),0,1),('invert_Rt',('Rt',),((4,3),),0,0),
 ('compose_Rt',('Rt','Rt'),((4,3),),2,0),('compose_r',('r','r'),((3,),(3,3),(3,3)),2,1),('compose_r_tinyr0_gradientr0','r',((3,3),),0,0),('compose_r_tinyr1_gradientr1','r',((3,3),),0,0)):
    pose(nm,ins,outs,r1(nm,outs,None),fl,gr)
def ref_invert_rt(a,fl,g):
    o=Z(6); A,B=Z(3,3),Z(3,3); full('invert_rt',[o]+([A,B] if g else [(2,),(2,)]),a)
    J=Z(6,6); J[:3,:3]=-np.eye(3); J[3:,:3]=A; J[3:,3:]=B
    return [o,J] if g else [o]
pose('invert_rt',('rt',),((6,),(6,6)),ref_invert_rt)
def ref_compose_rt(a,fl,g):
    o=Z(6); m=[Z(3,3) for _ in range(6)]; full('compose_rt',[o]+(m if g else [(2,)]*6),a,fl)
    if not g: return [o]
    J0,J1=Z(6,6),Z(6,6); J0[:3,:3],J1[:3,:3],J0[3:,:3],J1[3:,:3],J0[3:,3:],J1[3:,3:]=m
    return [o,J0,J1]
pose('compose_rt',('rt','rt'),((6,),(6,6),(6,6)),ref_compose_rt,2)
def three(nm,core,big):
    """compose of three is compose of the first two, and then the third"""
    def ref(a,fl,g):
        b=Z(*big); c=Z(*big)
        ext={'compose_Rt':[],'compose_r':[(2,),(2,)],'compose_rt':[(2,)]*6}[nm]
        full(nm,[b]+ext,[a[0],a[1]],(0,0)); full(nm,[c]+ext,[b,a[2]],(0,0)); return [c]
    f=getattr(mrcal,nm); F.append(Fn(nm+' of three',lambda a,fl,g,out: f(*a,**({'out':out} if out is not None else {})),(core,)*3,ref,0,0,rtol=1e-8,shapes=(big,)))
three('compose_Rt','Rt',(4,3)); three('compose_r','r',(3,)); three('compose_rt','rt',(6,))
def Rq(a,fl,g):
    w,x,y,z=a[0]; return [np.array([[w*w+x*x-y*y-z*z,2*(x*y-w*z),2*(w*y+x*z)],[2*(w*z+x*y),w*w-x*x+y*y-z*z,2*(y*z-w*x)],[2*(x*z-w*y),2*(w*x+y*z),w*w-x*x-y*y+z*z]])]
pose('R_from_quat','q',((3,3),),Rq,0,0)
pose('skew_symmetric','x',((3,3),),lambda a,fl,g: [np.array([[0,-a[0][2],a[0][1]],[a[0][2],0,-a[0][0]],[-a[0][1],a[0][0],0]])],0,0)
def rotv(a,fl,g):
    R=Z(3,3); L.mrcal_R_aligned_to_vector(ptr(R),ptr(C(a[0]))); return [R]
F.append(Fn('R_aligned_to_vector',lambda a,fl,g,out: mrcal.R_aligned_to_vector(*a,**({'out':out} if out is not None else {})),'x',rotv,0,0,shapes=((3,3),),contig=True))
def qt(a,fl,g):
    o=mrcal.Rt_from_qt(a[0]); q=a[0][:4]; return [np.vstack((Rq([q],0,0)[0],a[0][4:]))]
gen['qt']=lambda g: (lambda q: np.concatenate((q/np.linalg.norm(q),g.normal(0,1,3))))(g.normal(0,1,4))
pose('Rt_from_qt',('qt',),((4,3),),qt,0,0)
# simple projections
for nm,nin,nout in (('project_pinhole',3,2),('unproject_pinhole',2,3),('project_stereographic',3,2),('unproject_stereographic',2,3),('project_lonlat',3,2),('unproject_lonlat',2,3),('project_latlon',3,2),('unproject_latlon',2,3)):
    def ref(a,fl,g,nm=nm,nout=nout,nin=nin):
        o=Z(nout); J=Z(nout,nin); f=getattr(L,'mrcal_'+nm); f.restype=None; f(ptr(o),ptr(J if g else None),ptr(C(a[0])),ctypes.c_int(1),ptr(C(a[1]))); return [o,J] if g else [o]
    def call(a,fl,g,out,nm=nm):
        k={}
        if g: k['get_gradients']=True
        if out is not None: k['out']=out
        return getattr(mrcal,nm)(*a,**k)
    F.append(Fn(nm,call,('front' if nin==3 else 'pix','fc'),ref,1,0,shapes=((nout,),(nout,nin)),contig=True))
    if nin==3 or 1:
        def refd(a,fl,g,ref=ref): return ref([a[0],np.array([1.,1,0,0])],fl,g)
        F.append(Fn(nm+' with default intrinsics',call,('front' if nin==3 else 'spix',),refd,1,0,shapes=((nout,),(nout,nin)),contig=True))
gen['spix']=lambda g: g.uniform(-1,1,2)
# lenses
LM=[('LENSMODEL_PINHOLE',4),('LENSMODEL_STEREOGRAPHIC',4),('LENSMODEL_LONLAT',4),('LENSMODEL_LATLON',4),('LENSMODEL_OPENCV4',8),('LENSMODEL_OPENCV8',12),('LENSMODEL_CAHVOR',9),('LENSMODEL_CAHVORE_linearity=0.37',12),('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=120',44),('LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=6_Ny=4_fov_x_deg=150',52)]
def lmstruct(nm):
    b=ctypes.create_string_buffer(256); L.mrcal_lensmodel_from_name.restype=ctypes.c_bool; assert L.mrcal_lensmodel_from_name(b,nm.encode()); return b
for lm,N in LM:
    b=lmstruct(lm); key='i'+lm
    def mk(g,N=N,lm=lm):
        v=np.zeros(N); v[:4]=gen['fc'](g); v[4:]=g.normal(0,.01 if 'CAHVORE' not in lm else .003,N-4); return v
    gen[key]=mk; ukey='u'+lm
    def mku(g,mk=mk,lm=lm):
        v=mk(g)
        if 'CAHVORE' in lm: v[-3:]=0 # not central: refused by unproject()
        return v
    gen[ukey]=mku
    def ref(a,fl,g,b=b,N=N):
        q=Z(2); Jp=Z(2,3); Ji=Z(2,N); L.mrcal_project.restype=ctypes.c_bool
        L.mrcal_project(ptr(q),ptr(Jp if g else None),ptr(Ji if g else None),ptr(C(a[0])),ctypes.c_int(1),b,ptr(C(a[1]))); return [q,Jp,Ji] if g else [q]
    def call(a,fl,g,out,lm=lm):
        k={}
        if g: k['get_gradients']=True
        if out is not None: k['out']=out
        return mrcal.project(a[0],lm,a[1],**k)
    F.append(Fn('project '+lm,call,('front',key),ref,1,0,shapes=((2,),(2,3),(2,N)),contig=True,rtol=1e-9))
    def refu(a,fl,g,b=b,N=N,norm=False):
        v=Z(3); L.mrcal_unproject.restype=ctypes.c_bool; L.mrcal_unproject(ptr(v),ptr(C(a[0])),ctypes.c_int(1),b,ptr(C(a[1]))); 
        if norm: v=v/np.linalg.norm(v) if np.all(np.isfinite(v)) else v*0
        return [v]
    for norm in (False,True):
        def callu(a,fl,g,out,lm=lm,norm=norm):
            k={}
            if out is not None: k['out']=out
            return mrcal.unproject(a[0],lm,a[1],normalize=norm,**k)
        F.append(Fn('unproject %s%s'%(lm,' normalize' if norm else ''),callu,('pix',ukey),lambda a,fl,g,refu=refu,norm=norm: refu(a,fl,g,norm=norm),0,0,shapes=((3,),),contig=True,rtol=1e-8))
    # gradients of the unprojection: unit vectors along the solution, and numerical derivatives of them
    def refg(a,fl,g,refu=refu,N=N,b=b):
        def u(q,i):
            v=Z(3); L.mrcal_unproject(ptr(v),ptr(C(q)),ctypes.c_int(1),b,ptr(C(i))); return v/np.linalg.norm(v)
        q,i=C(a[0]),C(a[1]); d=1.; o=[u(q,i)]
        # implicit differentiation from the C projection gradients at the solution
        v=o[0]; Jp=Z(2,3); Ji=Z(2,N); L.mrcal_project(ptr(Z(2)),ptr(Jp),ptr(Ji),ptr(C(v)),ctypes.c_int(1),b,ptr(i))
        A=np.vstack((Jp,v)); inv=np.linalg.inv(A)
        return [v,inv[:,:2],-inv[:,:2]@Ji]
    def callg(a,fl,g,out,lm=lm):
        k={}
        if out is not None: k['out']=out
        return mrcal.unproject(a[0],lm,a[1],normalize=True,get_gradients=True,**k)
    if 'CAHVORE' in lm: continue # the gradient with respect to E depends on the range, which is arbitrary
    F.append(Fn('unproject %s with gradients'%lm,callg,('pix',ukey),refg,0,0,shapes=((3,),(3,2),(3,N)),contig=True,rtol=2e-4))
# triangulation
def v2(g): return g.normal(0,.3,3)+[0,0,3]
gen['v0']=v2; gen['v1']=v2; gen['t01']=lambda g: g.normal(0,.5,3)
for m in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2'):
    def ref(a,fl,g,m=m):
        f=getattr(L,'mrcal_triangulate_'+m); f.restype=P3; J=[Z(3,3) for _ in range(3)]; a=[C(x) for x in a]
        r=f(*[ptr(x if g else None) for x in J],*[ptr(x) for x in a]); return [np.array(r.x[:])]+(J if g else [])
    def call(a,fl,g,out,m=m):
        k={}
        if g: k['get_gradients']=True
        if out is not None: k['out']=out
        return getattr(mrcal,'triangulate_'+m)(*a,**k)
    F.append(Fn('triangulate_'+m,call,('v0','v1','t01'),ref,1,0,shapes=((3,),(3,3),(3,3),(3,3)),contig=True))
    def refl(a,fl,g,ref=ref): return ref([a[0],a[2][:3]@a[1],a[2][3]],fl,False)
    F.append(Fn('triangulate_%s, local vectors'%m,lambda a,fl,g,out,m=m: getattr(mrcal,'triangulate_'+m)(a[0],a[1],Rt01=a[2],v_are_local=True,**({'out':out} if out is not None else {})),('v0','v1','nearRt'),refl,0,0,shapes=((3,),),contig=False,rtol=1e-7))
    F.append(Fn('triangulate_%s, Rt01'%m,lambda a,fl,g,out,m=m: getattr(mrcal,'triangulate_'+m)(a[0],a[1],Rt01=a[2],**({'out':out} if out is not None else {})),('v0','v1','nearRt'),lambda a,fl,g,ref=ref: ref([a[0],a[1],a[2][3]],fl,False),0,0,shapes=((3,),),contig=True,rtol=1e-9))
gen['nearRt']=lambda g: np.vstack((rodR(g.normal(0,.1,3)),g.normal(0,.5,3)))
def reflind(a,fl,g):
    f=L.mrcal_triangulate_lindstrom; f.restype=P3; J=[Z(3,3),Z(3,3),Z(3,4,3)]; a=[C(x) for x in a]
    r=f(*[ptr(x if g else None) for x in J],*[ptr(x) for x in a]); return [np.array(r.x[:])]+(J if g else [])
def calllind(a,fl,g,out):
    k={}
    if g: k['get_gradients']=True
    if out is not None: k['out']=out
    return mrcal.triangulate_lindstrom(*a,**k)
F.append(Fn('triangulate_lindstrom',calllind,('v0','v1','nearRt'),reflind,1,0,shapes=((3,),(3,3),(3,3),(3,4,3)),contig=True))
F.append(Fn('triangulate_lindstrom, vectors in the coordinates of camera 0',lambda a,fl,g,out: mrcal.triangulate_lindstrom(*a,v_are_local=False,**({'out':out} if out is not None else {})),('v0','v1','nearRt'),lambda a,fl,g: reflind([a[0],a[2][:3].T@a[1],a[2]],fl,False),0,0,shapes=((3,),),contig=True,rtol=1e-7))
def referr(a,fl,g):
    f=L.mrcal_triangulated_error; f.restype=ctypes.c_double; J=[Z(3),Z(3)]; a=[C(x) for x in a]
    r=f(*[ptr(x if g else None) for x in J],*[ptr(x) for x in a]); return [np.array(r)]+(J if g else [])
if hasattr(L,'mrcal_triangulated_error'):
    def callerr(a,fl,g,out):
        k={}
        if g: k['get_gradients']=True
        if out is not None: k['out']=out
        return mrcal.triangulation._triangulated_error(*a,**k)
    F.append(Fn('_triangulated_error',callerr,('v0','v1','t01'),referr,1,0,shapes=((),(3,),(3,)),contig=True,out=False))
# other
def homog(a,fl,g):
    p=a[0]@np.array([a[1][0],a[1][1],1.]); return [p[:2]/p[2]]
gen['H']=lambda g: np.eye(3)+g.normal(0,.1,(3,3)); gen['v2']=lambda g: g.uniform(-1,1,2)
F.append(Fn('apply_homography',lambda a,fl,g,out: mrcal.apply_homography(*a,**({'out':out} if out is not None else {})),('H','v2'),homog,0,0,shapes=((2,),),rtol=1e-9))
for kind,k in (('points_Rt01',0),('vectors_R01',1)):
    for w in (False,True):
        def ref(a,fl,g,kind=kind,w=w):
            a=[C(x) for x in a]; o=Z(4,3) if 'Rt' in kind else Z(3,3); N=len(a[0])
            f=getattr(L,'mrcal_align_procrustes_'+kind); f.restype=ctypes.c_bool
            f(ptr(o),ctypes.c_int(N),ptr(a[0]),ptr(a[1]),ptr(a[2] if w else None)); return [o]
        if hasattr(L,'mrcal_align_procrustes_'+kind):
            F.append(Fn('align_procrustes_%s%s'%(kind,' weighted' if w else ''),lambda a,fl,g,out,kind=kind,w=w: getattr(mrcal,'align_procrustes_'+kind)(a[0],a[1],*( [a[2]] if w else [])),('pp','pp','ww')[:3 if w else 2],ref,0,0,out=False,shapes=((4,3) if 'Rt' in kind else (3,3),),rtol=1e-7,contig=True))
gen['pp']=lambda g: g.normal(0,2,(7,3)); gen['ww']=lambda g: g.uniform(.1,2,7)
def rang(a,fl,g):
    d,q,dm,dM,fc,bl=[np.array(x,dtype=float) for x in a]; r=Z(1)
    f=L.mrcal_stereo_range_sparse; f.restype=ctypes.c_bool; return None
DIMS={'pp':(None,3),'ww':(None,)} # named dimensions
# ------------------------------------------------------------------ arrays in memory
class Bad(Exception): pass
def layout(g,shape,dt=float,ncore=0,contig=False):
    """an uninitialized array of this shape with some memory layout; (view, whole base)"""
    nd=len(shape); lead=nd-ncore
    mode=g.integers(0,4)
    perm=list(g.permutation(nd)) if mode in(1,3) and not contig else list(g.permutation(lead))+list(range(lead,nd))
    if mode==0: perm=list(range(nd))
    step=[1]*nd; neg=[False]*nd
    for i in range(nd):
        core=i>=lead
        if core and contig: continue
        if mode>=2 and g.random()<.4: step[i]=int(g.integers(2,4))
        if mode>=1 and g.random()<.3: neg[i]=True
    big=[shape[p]*step[p]+(0 if contig else int(g.integers(0,2)) if not(p>=lead and contig) else 0) for p in perm]
    if contig: big=[shape[p] if p>=lead else shape[p]*step[p]+int(g.integers(0,2)) for p in perm]
    base=np.full(big,77.25,dtype=dt)
    v=base.transpose(np.argsort(perm)) if nd else base
    idx=tuple(slice(None,shape[i]*step[i],step[i]) for i in range(nd)); v=v[idx]
    for i in range(nd):
        if neg[i]: v=np.flip(v,i)
    assert v.shape==tuple(shape),(v.shape,shape)
    return v,base
def leads(g,n):
    """leading dimensions of n arguments, that broadcast together"""
    nd=int(g.integers(0,4)); fullshape=[int(g.choice([1,2,3,2])) for _ in range(nd)]
    if nd and g.random()<.04: fullshape[int(g.integers(nd))]=0
    out=[]
    for i in range(n):
        k=int(g.integers(0,nd+1)) if g.random()<.7 else nd
        s=fullshape[nd-k:]; out.append(tuple(1 if g.random()<.25 and d!=0 else d for d in s))
    return out
def bshape(ls): return tuple(np.broadcast_shapes(*ls)) if ls else ()
def run(fn,it):
    g=np.random.default_rng([seed,it,abs(hash(fn.name))%1000 if 0 else sum(map(ord,fn.name))]); cnt=0
    cores=[gen[k](g).shape for k in fn.ins]
    def e(what,got,want,args=()): return Bad(what,got,want,[np.asarray(a).tolist() if np.asarray(a).size<60 else np.asarray(a).shape for a in args])
    def val(k,lead):
        a=np.empty(lead+gen[k](g).shape)
        for ix in np.ndindex(*lead): a[ix]=gen[k](g)
        return a
    ls=leads(g,len(fn.ins)); S=bshape(ls)
    args=[]; lay=[]
    for k,l,c in zip(fn.ins,ls,cores):
        contig=fn.contig and g.random()<.7
        v,b=layout(g,l+c,ncore=len(c),contig=contig); v[...]=val(k,l)
        if l and g.random()<.2 and all(d>0 for d in l):
            i=int(g.integers(len(l))); v=np.broadcast_to(v[tuple([slice(None)]*i+[slice(0,1)])],v.shape); 
        if c and k not in('q','qt') and g.random()<.06 and v.size: # every element of a dimension is the same one in memory
            i=len(l)+int(g.integers(len(c))); v=np.broadcast_to(v[tuple([slice(None)]*i+[slice(0,1)])],v.shape)
        args.append(v); lay.append(all(v.strides[-j-1]==8*int(np.prod(c[len(c)-j:])) or v.shape[-j-1]==1 for j in range(len(c))) if c else True)
    orig=[np.array(a) for a in args]
    grad=bool(fn.ngrad) and g.random()<.5; flags=[bool(g.integers(2)) for _ in range(fn.flags)]
    shapes=list(fn.shapes if (grad or not fn.ngrad) else fn.shapes[:1])
    useout=fn.out and g.random()<.4 and not fn.name.startswith('identity') or (fn.out and fn.name.startswith('identity') and g.random()<.5)
    if fn.name.startswith('identity') and useout: S=tuple(int(x) for x in g.integers(1,4,int(g.integers(0,3))))
    outs=None; canary=[]; ocont=True
    if useout:
        outs=[]
        for sh in shapes:
            contig=g.random()<.7; v,b=layout(g,S+tuple(sh),ncore=len(sh),contig=contig); outs.append(v)
            mask=np.ones(b.shape,bool); 
            t=np.zeros(b.shape,dtype=float); vb=v
            canary.append((b,v))
            ocont=ocont and all(v.strides[-j-1]==8*int(np.prod(sh[len(sh)-j:])) or v.shape[-j-1]==1 for j in range(len(sh)))
    # expected values, one element at a time
    want=[np.zeros(S+tuple(sh)) for sh in shapes]
    for ix in np.ndindex(*S):
        el=[]
        for a,l,c in zip(orig,ls,cores):
            j=tuple(i if d!=1 else 0 for i,d in zip(ix[len(ix)-len(l):],l)) if l else ()
            el.append(np.array(a[j]))
        for o,r in zip(want,fn.ref(el,flags,grad)): o[ix]=r
    try: got=fn.call(args,flags,grad,None if outs is None else (outs[0] if len(outs)==1 else tuple(outs)))
    except Exception as x:
        if (not fn.contig and 'triangulate' not in fn.name or all(lay) and ocont) and 0 not in S: raise e('raises on good inputs (shapes %r, out=%r): %r'%([a.shape for a in args],[(o.shape,o.strides) for o in outs] if outs else None,x),repr(x)[:300],'a result',orig)
        return 1
    got=list(got) if isinstance(got,tuple) else [got]
    desc='shapes %r strides %r flags %r gradients %r out=%r'%([a.shape for a in args],[a.strides for a in args],flags,grad,[(o.shape,o.strides) for o in outs] if outs else None)
    if len(got)!=len(want): raise e('number of outputs; '+desc,len(got),len(want),orig)
    for k,(x,w) in enumerate(zip(got,want)):
        x=np.asarray(x)
        if x.shape!=w.shape: raise e('shape of output %d; %s'%(k,desc),x.shape,w.shape,orig)
        if k>0 and 'triangulate' in fn.name: # a failed triangulation reports 0, and no gradients
            failed=np.all(want[0]==0,axis=-1)
            if x.size: x=np.array(x); x[failed]=0; w=np.array(w); w[failed]=0
        sc=np.max(np.abs(w)) if w.size and np.all(np.isfinite(w)) else 1.
        if not np.allclose(x,w,rtol=fn.rtol,atol=fn.rtol*max(sc,1e-3),equal_nan=True): raise e('output %d; %s'%(k,desc),x.tolist(),w.tolist(),orig)
        if outs is not None and not np.array_equal(np.asarray(outs[k]),np.asarray(got[k]),equal_nan=True): raise e('out= array %d; %s'%(k,desc),outs[k].tolist(),x.tolist(),orig)
    for a,o in zip(args,orig):
        if not np.array_equal(a,o): raise e('an input was changed; '+desc,a.tolist(),o.tolist())
    for (b,v) in canary: # what lies around the output stays
        v[...]=77.25
        if not np.all(b==77.25): raise e('memory around the output was written; '+desc,'changed','unchanged',orig)
    return 1
def reject(fn,it):
    """inputs of wrong shapes or types are rejected"""
    if not fn.ins: return 0
    g=np.random.default_rng([seed,it,sum(map(ord,fn.name)),1]); lead=tuple(int(x) for x in g.integers(1,4,int(g.integers(0,3))))
    args=[np.array([gen[k](g) for _ in range(int(np.prod(lead,dtype=int)))]).reshape(lead+gen[k](g).shape) for k in fn.ins]
    i=int(g.integers(len(args))); k=fn.ins[i]; c=gen[k](g).shape; a=args[i]; dims=DIMS.get(k,c); what=None
    mode=int(g.integers(6))
    fixed=[j for j in range(len(c)) if dims[j] is not None]
    if k.startswith('i') and k!='i' or k=='ww': pass
    if mode in(0,1,2) and fixed:
        j=fixed[int(g.integers(len(fixed)))]; ax=len(lead)+j; d=int(g.choice([-1,1,c[j]])); m=c[j]+d
        if m<=0: m=c[j]+1
        b=np.resize(a,a.shape[:ax]+(m,)+a.shape[ax+1:]); what='shape %r instead of %r'%(b.shape,a.shape)
    elif mode==3 and len(lead)>=1 and len(args)>=2:
        L_=[x+0 for x in lead]; j=int(g.integers(len(L_))); L_[j]+=1 if L_[j]>1 else 2
        if lead[j]==1: return 0
        b=np.resize(a,tuple(L_)+c); what='shape %r that does not broadcast with %r'%(b.shape,[x.shape for x in args])
    elif mode==4: b=a.astype(complex)+1j; what='complex numbers'
    elif mode==5: b=['no' if k=='ww' else None,'hello',{},np.array(['a']*a.size).reshape(a.shape),np.array(a,dtype=object)*0+None if 0 else np.full(a.shape,'x',dtype=object)][int(g.integers(5))]; what='a value of type %s'%type(b)
    else: return 0
    if k=='nearRt' and fn.name!='triangulate_lindstrom' and mode in(0,1,2): return 0 # Rt01[...,:3,:] and Rt01[...,3,:] are taken out of it
    args[i]=b
    grad=bool(fn.ngrad) and g.random()<.5
    if k=='ww' and what.startswith('shape'): pass
    try: r=fn.call(args,[False]*fn.flags,grad,None)
    except Exception: return 1
    # a (N,) argument whose N is given by another argument is checked against it
    raise Bad('accepts argument %d: %s'%(i,what),[np.asarray(x).shape for x in (r if isinstance(r,tuple) else (r,))],'an exception',[x.tolist() if isinstance(x,np.ndarray) and x.size<40 and x.dtype!=complex else repr(x)[:200] for x in args])
def rejout(fn,it):
    """an out= array of a wrong shape or type is rejected"""
    if not fn.out or fn.name.startswith('identity') or fn.name=='Rt_from_qt': return 0
    g=np.random.default_rng([seed,it,sum(map(ord,fn.name)),2]); lead=tuple(int(x) for x in g.integers(2,4,int(g.integers(0,3))))
    args=[np.array([gen[k](g) for _ in range(int(np.prod(lead,dtype=int)))]).reshape(lead+gen[k](g).shape) for k in fn.ins]
    grad=bool(fn.ngrad) and g.random()<.5; shapes=list(fn.shapes if (grad or not fn.ngrad) else fn.shapes[:1])
    outs=[np.zeros(lead+tuple(s)) for s in shapes]; i=int(g.integers(len(outs))); mode=int(g.integers(3))
    if mode==0 and shapes[i]:
        j=len(lead)+int(g.integers(len(shapes[i]))); s=list(outs[i].shape); s[j]+=int(g.choice([-1,1])); outs[i]=np.zeros(s); what='shape %r'%s
    elif mode==1 and lead:
        j=int(g.integers(len(lead))); s=list(outs[i].shape); s[j]+=int(g.choice([-1,1])); outs[i]=np.zeros(s); what='shape %r'%s
    elif mode==2 and not ('with gradients' in fn.name and i>0): outs[i]=np.zeros(outs[i].shape,dtype=g.choice([np.float32,np.int32,np.uint8])); what='type %s'%outs[i].dtype
    else: return 0
    try: r=fn.call(args,[False]*fn.flags,grad,outs[0] if len(outs)==1 else tuple(outs))
    except Exception: return 1
    r=list(r) if isinstance(r,tuple) else [r]
    raise Bad('accepts out= array %d of %s'%(i,what),[(x.shape,str(x.dtype)) for x in r],'an exception',[x.tolist() for x in args if x.size<40])
class Img(ctypes.Structure): _fields_=[('w',ctypes.c_int),('h',ctypes.c_int),('stride',ctypes.c_int),('data',P)]
def img(a): return Img(a.shape[1],a.shape[0],a.strides[0],a.ctypes.data)
CT={'int8':ctypes.c_int8,'uint8':ctypes.c_uint8,'int16':ctypes.c_int16,'uint16':ctypes.c_uint16,'int32':ctypes.c_int32,'uint32':ctypes.c_uint32,'int64':ctypes.c_int64,'uint64':ctypes.c_uint64,'float32':ctypes.c_float,'float64':ctypes.c_double}
def special(it):
    """functions with arguments of other types"""
    N=mrcal._mrcal_npsp; cnt=0
    for t in ('sparse','color','range'):
        g=np.random.default_rng([seed,it,sum(map(ord,t)),3]); lead=tuple(int(x) for x in g.integers(1,4,int(g.integers(0,3))))
        def e(what,got,want,*args): 
            b=Bad(what,str(got),str(want),[np.asarray(a).tolist() for a in args]); b.fn=t; return b
        if t=='sparse':
            R,S=int(g.integers(1,9)),int(g.integers(1,8)); J=g.normal(0,1,(R,S))*(g.random((R,S))<.5); ptrs=[0]; idx=[]; x=[]
            for r in J:
                nz=np.nonzero(r)[0]; idx+=list(nz); x+=list(r[nz]); ptrs.append(len(idx))
            pa,ia,xa=np.array(ptrs,dtype=np.int32),np.array(idx,dtype=np.int32),np.array(x,dtype=float)
            k=int(g.integers(1,R+1))
            for nx,f in ((2,N._A_Jt_J_At__2),(int(g.integers(1,5)),N._A_Jt_J_At)):
                A=g.normal(0,1,lead+(nx,S)); got=f(A,pa,ia,xa,Nleading_rows_J=k); w=A@J[:k].T; w=w@np.swapaxes(w,-1,-2); cnt+=1
                if got.shape!=w.shape or not np.allclose(got,w,rtol=1e-9,atol=1e-9): raise e('A Jt J At (%d rows of %d)'%(k,R),got.tolist(),w.tolist(),A,J)
            v=g.normal(0,1,R); o=np.full(S,5.); N._Jt_x(pa,ia,xa,v,out=o); cnt+=1
            if not np.allclose(o,J.T@v,rtol=1e-9,atol=1e-9): raise e('Jt x',o.tolist(),(J.T@v).tolist(),J,v)
            # other memory layouts: an error, or the right numbers
            def odd(a):
                b=np.zeros(a.shape+(2,),a.dtype); b[...,0]=a; b[...,1]=99 if a.dtype.kind=='f' else 0; return b[...,0]
            def rev(a): return np.ascontiguousarray(a[...,::-1])[...,::-1]
            for k2 in range(4):
                for lay in (odd,rev):
                    A=g.normal(0,1,lead+(2,S)); aa=[A,pa,ia,xa]; aa[k2]=lay(aa[k2])
                    for f in (N._A_Jt_J_At__2,N._A_Jt_J_At):
                        try: got=f(*aa,Nleading_rows_J=k)
                        except Exception: continue
                        w=A@J[:k].T; w=w@np.swapaxes(w,-1,-2); cnt+=1
                        if got.shape!=w.shape or not np.allclose(got,w,rtol=1e-9,atol=1e-9): raise e('A Jt J At (%d rows of %d): strides of argument %d: %r'%(k,R,k2,aa[k2].strides),got.tolist(),w.tolist(),A,J)
                    aa=[pa,ia,xa,v]; aa[k2]=lay(aa[k2]); o=np.full(S,5.)
                    try: N._Jt_x(*aa,out=o)
                    except Exception: continue
                    cnt+=1
                    if not np.allclose(o,J.T@v,rtol=1e-9,atol=1e-9): raise e('Jt x: strides of argument %d: %r'%(k2,aa[k2].strides),o.tolist(),(J.T@v).tolist(),J,v)
            for bad in (dict(),dict(Nleading_rows_J=0),dict(Nleading_rows_J=-2)):
                for f in (N._A_Jt_J_At__2,N._A_Jt_J_At):
                    try: got=f(A,pa,ia,xa,**bad)
                    except Exception: continue
                    raise e('A Jt J At with %r'%bad,got.tolist(),'an error',A,J)
            for vv in (v[:-1],np.append(v,1.)):
                try: got=N._Jt_x(pa,ia,xa,vv,out=np.full(S,5.))
                except Exception: continue
                raise e('Jt x: %d numbers for %d rows'%(len(vv),R),got.tolist(),'an error',J,vv)
        elif t=='color':
            dt=list(CT)[int(g.integers(len(CT)))]; H,W=(int(x) for x in g.integers(1,6,2)); fl=dt.startswith('f')
            a=(g.normal(0,50,lead+(H,W+2)) if fl else g.integers(-100 if dt[0]=='i' else 0,120,lead+(H,W+2))).astype(dt)
            v=a[...,1:W+1] if g.random()<.6 else np.ascontiguousarray(a[...,:W]); kw={}; lo,hi=sorted(g.normal(20,40,2)); lo,hi=float(np.floor(lo)),float(np.ceil(hi))+1
            if g.random()<.6: kw['a_min']=lo
            if g.random()<.6: kw['a_max']=hi
            ff=[7,5,15]
            if g.random()<.7: ff=[int(x) for x in g.integers(0,37,3)]; kw.update(zip(('function_red','function_green','function_blue'),ff))
            got=mrcal.apply_color_map(v,**kw); w=np.zeros(v.shape+(3,),np.uint8); T=CT[dt]
            cl=lambda x: T(x) if fl else T(int(min(max(x,np.iinfo(dt).min),np.iinfo(dt).max)))
            f=getattr(L,'mrcal_apply_color_map_'+{'float32':'float','float64':'double'}.get(dt,dt)); f.restype=ctypes.c_bool
            for ix in np.ndindex(*lead):
                i,o=img(v[ix]),img(w[ix]); f(ctypes.byref(o),ctypes.byref(i),ctypes.c_bool('a_min' not in kw),ctypes.c_bool('a_max' not in kw),ctypes.c_bool(False),cl(lo),cl(hi),*map(ctypes.c_int,ff))
            cnt+=1
            if not np.array_equal(got,w): raise e('apply_color_map of a %s array of shape %r, %r'%(dt,v.shape,kw),got.tolist(),w.tolist(),v)
            # other memory layouts: an error, or the right numbers in the right place
            def lays(a,val,nl):
                yield 'ordinary',a.copy()
                for nm,shape,sl in (('padded pixels',a.shape[:nl+2]+(a.shape[nl+2]+1,) if nl>=0 and a.ndim>nl+2 else None,(Ellipsis,slice(0,a.shape[-1]))),('every other',a.shape[:-1]+(2*a.shape[-1],),(Ellipsis,slice(0,None,2))),
                                  ('reversed last',a.shape,(Ellipsis,slice(None,None,-1))),('reversed columns',a.shape,(slice(None),)*(nl+1)+(slice(None,None,-1),)),('reversed rows',a.shape,(slice(None),)*nl+(slice(None,None,-1),)),
                                  ('padded columns',a.shape[:nl+1]+(a.shape[nl+1]+2,)+a.shape[nl+2:],(slice(None),)*(nl+1)+(slice(1,-1),))):
                    if shape is None: continue
                    b=np.full(shape,val,a.dtype)[sl]; b[:]=a; yield nm,b
            nl=len(lead)
            for nm,o in lays(np.full_like(w,77),77,nl):
                try: mrcal.apply_color_map(v,**kw,out=o)
                except Exception as ex:
                    if nm=='ordinary': raise e('apply_color_map(out=ordinary array)',ex,'no error',v)
                    continue
                cnt+=1
                if not np.array_equal(o,w): raise e('apply_color_map of a %s array of shape %r, out= with %s, strides %r'%(dt,v.shape,nm,o.strides),o.tolist(),w.tolist(),v)
            for nm,v2 in lays(v,3,nl):
                try: got=mrcal.apply_color_map(v2,**kw)
                except Exception as ex:
                    if nm=='ordinary': raise e('apply_color_map(ordinary array)',ex,'no error',v)
                    continue
                cnt+=1
                if not np.array_equal(got,w): raise e('apply_color_map of a %s array of shape %r with %s, strides %r'%(dt,v.shape,nm,v2.strides),got.tolist(),w.tolist(),v)
        else:
            f=g.uniform(300,900,2); H,W=int(g.integers(1,5)),int(g.integers(1,6)); fc=np.array([f[0],f[1],3.,2.]); bl=float(g.uniform(.1,3)); scale=int(g.choice([1,8,16]))
            models=[mrcal.cameramodel(intrinsics=(['LENSMODEL_LATLON','LENSMODEL_PINHOLE'][int(g.integers(2))],fc),imagersize=(W,H)) for _ in range(2)]
            models[1].intrinsics(*[()][:0]) if 0 else None
            m1=mrcal.cameramodel(models[0]); m1.Rt_cam_ref(np.vstack((np.eye(3),[-bl,0,0])))
            d=g.integers(0,60,(H,W)).astype(np.uint16); lo,hi=int(g.integers(0,10)),int(g.integers(40,70)); ty=4 if 0 else None
            q=np.stack(np.meshgrid(np.arange(W),np.arange(H)),-1).astype(float)
            F1=L.mrcal_stereo_range_sparse; F1.restype=ctypes.c_bool; lt=L.mrcal_lensmodel_type_from_name; lt.restype=ctypes.c_int; ty=lt(models[0].intrinsics()[0].encode())
            def ref(dd,qq,l,h):
                w=np.zeros(len(dd)); F1(ptr(w),ptr(C(dd)),ptr(C(qq)),ctypes.c_int(len(dd)),ctypes.c_double(l),ctypes.c_double(h),ctypes.c_int(ty),ptr(fc),ctypes.c_double(bl)); return w
            got=mrcal.stereo_range(d,(models[0],m1),disparity_scale=scale,disparity_scaled_min=lo,disparity_scaled_max=hi); w=ref(d.ravel()/scale,q.reshape(-1,2),lo/scale,hi/scale).reshape(H,W); cnt+=1
            if not np.allclose(got,w,rtol=1e-9,equal_nan=True): raise e('stereo_range of an image %r, scale %d, from %d to %d, f=%r b=%r'%((H,W),scale,lo,hi,fc.tolist(),bl),got.tolist(),w.tolist(),d)
            got=mrcal.stereo_range(d.ravel().astype(float),(models[0],m1),disparity_scale=scale,qrect0=q.reshape(-1,2),disparity_min=lo/scale,disparity_max=hi/scale); cnt+=1
            if not np.allclose(got,w.ravel(),rtol=1e-9,equal_nan=True): raise e('stereo_range of points',got.tolist(),w.ravel().tolist(),d)
    return cnt
def main():
    cnt=0
    pat=part[2:] if part.startswith('f:') else None # the functions of one property
    fs=[f for k,f in enumerate(F) if (re.search(pat,f.name) if pat else part=='all' or k%4==int(part))]
    for it in range(n):
        if not pat and (part=='all' or it%4==int(part)):
            try: cnt+=special(it)
            except Bad as x:
                w,got,want,args=x.args; return cnt,(dict(test=x.fn,seed=seed,iteration=it,args=args),w,got[:1500],want[:1500])
        for f in fs:
            for t in (run,reject,rejout):
                try: cnt+=t(f,it) or 0
                except Bad as x:
                    w,got,want,args=x.args; return cnt,(dict(function=f.name,test=t.__name__,seed=seed,iteration=it,args=args),'%s: %s'%(f.name,w),str(got)[:1500],str(want)[:1500])
    return cnt,None
if __name__=='__main__':
    if len(sys.argv)>5: # debugging: all functions, first failure of each
        for it in range(n):
            try: special(it)
            except Bad as x: print('BAD special',it,x.args[0],'|',x.args[1][:200],'|',x.args[2][:200])
        for f in F:
            if sys.argv[5] not in f.name: continue
            for t in (run,reject,rejout):
                for it in range(n):
                    try: t(f,it)
                    except Bad as x: print('BAD',f.name,t.__name__,it,str(x.args[0])[:250],'|',str(x.args[1])[:120],'|',str(x.args[2])[:120]); break
                    except Exception as x: print('EXC',f.name,t.__name__,it,repr(x)[:200]); traceback.print_exc(); break
    else: print('RESULT '+json.dumps(main()))
