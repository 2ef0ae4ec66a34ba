# C12: the optimizer callback. Here: the bounded numerical oracle (independent numpy residuals; Jacobian by differences in the
# packed state), used as the fall-back of the contract proofs in optcb_proof
import ctypes, random, math, struct, itertools
import build, report
from lens import lensmodel_bytes
import layout
from layout import bits, sel
import names
ci=ctypes.c_int; cd=ctypes.c_double; PD=ctypes.POINTER(cd)
class Sparse(ctypes.Structure):
    _fields_=[('nrow',ctypes.c_size_t),('ncol',ctypes.c_size_t),('nzmax',ctypes.c_size_t),('p',ctypes.c_void_p),('i',ctypes.c_void_p),('nz',ctypes.c_void_p),('x',ctypes.c_void_p),('z',ctypes.c_void_p),
              ('stype',ci),('itype',ci),('xtype',ci),('dtype',ci),('sorted',ci),('packed',ci)]
_lay=None
def obs_layout():
    """offsets inside the observation structures, from the current headers"""
    global _lay
    if _lay is None:
        from icon import probe
        f=lambda t,m: '{%s s; printf("%%d ",(int)((char*)&s.%s-(char*)&s));}'%(t,m)
        src=''
        for t,ms in (('mrcal_observation_board_t',('icam.intrinsics','icam.extrinsics','iframe')),('mrcal_observation_point_t',('icam.intrinsics','icam.extrinsics','i_point')),('mrcal_observation_point_triangulated_t',('icam.intrinsics','icam.extrinsics','px'))):
            src+=''.join(f(t,m) for m in ms)+'printf("%%d ",(int)sizeof(%s));'%t
        for m in('last_in_set','outlier'): src+='{mrcal_observation_point_triangulated_t s; unsigned char*b=(unsigned char*)&s; memset(&s,0,sizeof s); s.%s=1; int i; for(i=0;i<(int)sizeof s;i++) if(b[i]) printf("%%d %%d ",i,b[i]);}'%m
        src+='printf("%d ",(int)sizeof(mrcal_problem_constants_t));'
        v=probe(src); _lay=dict(board=v[0:4],point=v[4:8],tri=v[8:12],last=tuple(v[12:14]),outl=tuple(v[14:16]),pc=v[16])
    return _lay
def rodrigues(r):
    import numpy as np
    r=np.asarray(r,float); th2=float(r@r)
    K=np.array([[0,-r[2],r[1]],[r[2],0,-r[0]],[-r[1],r[0],0]])
    if th2<1e-16: return np.eye(3)+K+K@K/2
    th=math.sqrt(th2); return np.eye(3)+math.sin(th)/th*K+(1-math.cos(th))/th2*(K@K)
MODELS=('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=120','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=7_Ny=5_fov_x_deg=120')
class Problem:
    """one random optimization problem"""
    def __init__(P,lib,rng,model,sels,**kw):
        import numpy as np
        P.lib=lib; P.model=model; P.lm=lensmodel_bytes(model); P.sels=dict(sels); g=np.random.default_rng(rng.getrandbits(32)); P.g=g
        lib.mrcal_lensmodel_num_params.restype=ci
        P.n=lib.mrcal_lensmodel_num_params(P.lm)
        o=dict(Nci=rng.randint(1,3),Nce=rng.randint(0,3),Nf=rng.randint(1,3),Np=rng.randint(0,4),Npf=0,Nob=rng.randint(0,3),Nop=rng.randint(0,4),Not=0,W=rng.randint(2,4),H=rng.randint(2,3),warp=True,order='random')
        o.update(kw); P.__dict__.update(o)
        if P.Np==0: P.Nop=0
        if 'Npf' not in kw: P.Npf=rng.randint(0,P.Np)
        P.spacing=0.1+rng.random()*.1
        P.imagersizes=np.array([[rng.randint(500,3000),rng.randint(400,2500)] for _ in range(P.Nci)],np.int32)
        P.intr=np.array([P.rand_intr(g) for _ in range(P.Nci)]).reshape(P.Nci,P.n)
        P.ext=g.uniform(-.3,.3,(P.Nce,6)) if P.Nce else np.zeros((0,6))
        P.frames=g.uniform(-.3,.3,(P.Nf,6)); P.frames[:,5]+=2.5
        P.points=g.uniform(-.6,.6,(P.Np,3)); P.points[:,2]+=2.5 if P.Np else 0
        P.cwarp=g.uniform(-.05,.05,2)
        P.ob=[(rng.randrange(P.Nci),rng.randrange(-1,P.Nce),rng.randrange(P.Nf)) for _ in range(P.Nob)]
        P.op=[(rng.randrange(P.Nci),rng.randrange(-1,P.Nce),rng.randrange(P.Np)) for _ in range(P.Nop)]
        wt=lambda: rng.choice((1.,.25,rng.uniform(.1,2),-1.,rng.uniform(-2,-.1),0.))
        P.bpool=np.array([(rng.uniform(0,2000),rng.uniform(0,1500),wt()) for _ in range(P.Nob*P.W*P.H)]).reshape(-1,3)
        P.ppool=np.array([(rng.uniform(0,2000),rng.uniform(0,1500),wt()) for _ in range(P.Nop)]).reshape(-1,3)
        P.ot=[]
        if P.Not:
            for s in range(P.Not):
                k=rng.randint(2,min(4,P.Nce+1)); cams=rng.sample(range(-1,P.Nce),k); tp=g.uniform(-.8,.8,3); tp[2]+=4
                for j,c in enumerate(cams):
                    R=np.eye(3) if c<0 else rodrigues(P.ext[c,:3]); t=np.zeros(3) if c<0 else P.ext[c,3:]
                    P.ot.append((rng.randrange(P.Nci),c,j==k-1,rng.random()<.2,(R@tp+t)*rng.uniform(.2,1.5)+g.uniform(-.02,.02,3)))
    def rand_intr(P,g):
        import numpy as np
        v=np.zeros(P.n); m=P.model
        v[:4]=[g.uniform(800,1500),g.uniform(800,1500),g.uniform(900,1100),g.uniform(600,800)]
        if 'LATLON' in m or 'LONLAT' in m: v[:2]*=1
        if P.n>4:
            if 'SPLINED' in m: v[4:]=g.uniform(-.1,.1,P.n-4)
            elif 'CAHVORE' in m: v[4:]=g.uniform(-.02,.02,P.n-4); v[4:6]*=3
            elif 'CAHVOR' in m: v[4:]=g.uniform(-.05,.05,P.n-4)
            else: v[4:]=g.uniform(-.01,.01,P.n-4)
        return v
    def bits(P): return sel(**P.sels)
    def eff(P):
        s=dict(P.sels)
        if P.Nob==0: s['do_optimize_calobject_warp']=False
        return s
    def counts(P): return [ci(P.Nci),ci(P.Nce),ci(P.Nf),ci(P.Np),ci(P.Npf),ci(P.Nob)]
    def nstate(P):
        s=P.eff(); n=0; o=lambda k: s.get('do_optimize_'+k,False)
        P.idx={}
        ni=(4 if o('intrinsics_core') else 0)+(P.n-4 if o('intrinsics_distortions') else 0)
        P.idx['i']=n; n+=ni*P.Nci; P.ni=ni
        P.idx['e']=n; n+=6*P.Nce if o('extrinsics') else 0
        P.idx['f']=n; n+=6*P.Nf if o('frames') else 0
        P.idx['p']=n; n+=3*(P.Np-P.Npf) if o('frames') else 0
        P.idx['w']=n; n+=2 if o('calobject_warp') else 0
        return n
    def unpack(P,b):
        """geometry and lenses at the packed state b"""
        import numpy as np
        s=P.eff(); o=lambda k: s.get('do_optimize_'+k,False); v=b.copy()
        P.lib.mrcal_unpack_solver_state_vector(v.ctypes.data_as(PD),*P.counts(),ctypes.c_ubyte(sel(**s)),ctypes.create_string_buffer(P.lm,len(P.lm)))
        I=P.intr.copy(); E=P.ext.copy(); F=P.frames.copy(); T=P.points.copy(); Wp=P.cwarp.copy() if P.warp else np.zeros(2)
        n=P.idx['i']
        for c in range(P.Nci):
            if o('intrinsics_core'): I[c,:4]=v[n:n+4]; n+=4
            if o('intrinsics_distortions'): I[c,4:]=v[n:n+P.n-4]; n+=P.n-4
        if o('extrinsics'): E[:]=v[n:n+6*P.Nce].reshape(-1,6); n+=6*P.Nce
        if o('frames'):
            F[:]=v[n:n+6*P.Nf].reshape(-1,6); n+=6*P.Nf
            k=P.Np-P.Npf; T[:k]=v[n:n+3*k].reshape(-1,3); n+=3*k
        if o('calobject_warp'): Wp=v[n:n+2].copy(); n+=2
        return I,E,F,T,Wp
    def project(P,pts,intr):
        import numpy as np
        pts=np.ascontiguousarray(pts,float); q=np.zeros((len(pts),2)); i=np.ascontiguousarray(intr)
        P.lib.mrcal_project.restype=ctypes.c_bool
        if not P.lib.mrcal_project(q.ctypes.data_as(PD),None,None,pts.ctypes.data_as(PD),ci(len(pts)),P.lm,i.ctypes.data_as(PD)): return None
        return q
    def parts(P):
        """[(label, function (I,E,F,T,Wp)→residuals, variables it may depend on as a set of state indices)]"""
        import numpy as np
        s=P.eff(); o=lambda k: s.get('do_optimize_'+k,False); P.nstate(); out=[]
        cam=lambda E,c,p: p if c<0 else p@rodrigues(E[c,:3]).T+E[c,3:]
        ix,iy=np.meshgrid(np.arange(P.W),np.arange(P.H)); u=4*ix/(P.W-1.)*(1-ix/(P.W-1.)); v=4*iy/(P.H-1.)*(1-iy/(P.H-1.))
        for k,(c,e,f) in enumerate(P.ob):
            n=P.W*P.H; o_=P.bpool[k*n:(k+1)*n]
            def fn(I,E,F,T,Wp,c=c,e=e,f=f,o_=o_):
                z=Wp[0]*u+Wp[1]*v; b=np.stack([ix*P.spacing,iy*P.spacing,z],-1).reshape(-1,3)
                q=P.project(cam(E,e,b@rodrigues(F[f,:3]).T+F[f,3:]),I[c]); w=np.where(o_[:,2]<0,0,o_[:,2])
                return ((q-o_[:,:2])*w[:,None]).ravel()
            out.append(('board observation %d'%k,fn,2*n))
        for k,(c,e,p) in enumerate(P.op):
            def fn(I,E,F,T,Wp,c=c,e=e,p=p,o_=P.ppool[k]):
                return ((P.project(cam(E,e,T[p][None,:]),I[c])[0]-o_[:2])*max(o_[2],0.))
            out.append(('point observation %d'%k,fn,2))
        P.lib._mrcal_triangulated_error.restype=cd
        i0=0
        while i0<len(P.ot):
            i1=i0
            while not P.ot[i1][2]: i1+=1
            for a in range(i0,i1):
                for b in range(a+1,i1+1):
                    def fn(I,E,F,T,Wp,A=P.ot[a],B=P.ot[b]):
                        if A[3] or B[3]: return np.zeros(1)
                        R=lambda c: np.eye(3) if c<0 else rodrigues(E[c,:3])
                        t=lambda c: np.zeros(3) if c<0 else E[c,3:]
                        R10=R(B[1])@R(A[1]).T; t10=t(B[1])-R10@t(A[1])
                        v1=np.ascontiguousarray(B[4]); v0=np.ascontiguousarray(R10@A[4]); t10=np.ascontiguousarray(t10)
                        return np.array([P.lib._mrcal_triangulated_error(None,None,v1.ctypes.data_as(PD),v0.ctypes.data_as(PD),t10.ctypes.data_as(PD))])
                    out.append(('triangulated pair (%d,%d)'%(a,b),fn,1))
            i0=i1+1
        if s.get('do_apply_regularization'):
            if o('intrinsics_distortions'):
                if 'SPLINED' in P.model:
                    cfg=dict(x.split('=') for x in P.model.replace('LENSMODEL_SPLINED_STEREOGRAPHIC_','').replace('fov_x_deg','fov').split('_')); Nx,Ny=int(cfg['Nx']),int(cfg['Ny'])
                    def fn(I,E,F,T,Wp):
                        r=[]
                        for c in range(P.Nci):
                            for y in range(Ny):
                                for x in range(Nx):
                                    d=I[c,4+2*(y*Nx+x):][:2]; h=np.array([x-(Nx-1)/2.,y-(Ny-1)/2.]); n=math.hypot(*h)
                                    if n==0: h=np.array([1.,0.]); m=1.
                                    else: h=h/n; m=10.
                                    r+=[.01*(d@h),.01*m*(d[0]*h[1]-d[1]*h[0])]
                        return np.array(r)
                else:
                    def fn(I,E,F,T,Wp):
                        w=np.full(P.n-4,.1)
                        if P.model in('LENSMODEL_OPENCV8','LENSMODEL_OPENCV12'): w[5:8]*=5
                        return (I[:,4:]*w).ravel()
                out.append(('regularization of the lens distortions',fn,P.Nci*(P.n-4)))
            if o('intrinsics_core'): out.append(('regularization of the image center',lambda I,E,F,T,Wp: (I[:,2:4]-(P.imagersizes-1)/2.).ravel()*(.1/(.1*P.imagersizes[0,0])),2*P.Nci))
        if s.get('do_apply_regularization_unity_cam01') and o('extrinsics') and P.Nce>0:
            out.append(('regularization of the first baseline',lambda I,E,F,T,Wp: np.array([10.*(E[0,3:]@E[0,3:]-1)]),1))
        return out
    def call(P,jac=True,nb=None,nx=None):
        """(returned, b_packed, x, J as (rowptr, colidx, val))"""
        import numpy as np
        L=obs_layout(); lib=P.lib; s=P.eff()
        def rec(kind,k,vals):
            b=bytearray(L[kind][3])
            for o_,v in zip(L[kind],vals): struct.pack_into('<i',b,o_,v)
            return b
        ob=b''.join(rec('board',k,x) for k,x in enumerate(P.ob)); op=b''.join(rec('point',k,x) for k,x in enumerate(P.op)); ot=b''
        for c,e,last,outl,px in P.ot:
            b=rec('tri',0,(c,e)); struct.pack_into('<3d',b,L['tri'][2],*px)
            for f,(o_,m) in ((last,L['last']),(outl,L['outl'])):
                if f: b[o_]|=m
            ot+=bytes(b)
        buf=lambda b: ctypes.create_string_buffer(bytes(b),max(len(b),1)) if b is not None else None
        lm=buf(P.lm); bo,bp,bt=buf(ob),buf(op),buf(ot) if P.ot else None
        N=P.nstate(); P.keep=(lm,bo,bp,bt)
        geo=[ci(P.Nob),ci(P.Nop),bt,ci(len(P.ot)),ci(P.W),ci(P.H),ci(P.Nci),ci(P.Nce),ci(P.Nf),ci(P.Np),ci(P.Npf)]
        sb=ctypes.c_ubyte(sel(**s))
        M=lib.mrcal_num_measurements(*geo,sb,lm); Z=lib._mrcal_num_j_nonzero(*geo,bo,bp,sb,lm)
        P.M,P.Z=M,Z
        G=4; b=np.full(N+G,777.); x=np.full(M+G,777.); rp=np.full(M+1+G,-7,np.int32); col=np.full(Z+G,-7,np.int32); val=np.full(Z+G,777.)
        J=Sparse(nrow=N,ncol=M,nzmax=Z,p=rp.ctypes.data,i=col.ctypes.data,x=val.ctypes.data)
        a=lambda v: np.ascontiguousarray(v).ctypes.data_as(ctypes.c_void_p)
        arrs=[np.ascontiguousarray(v) for v in(P.intr,P.ext,P.frames,P.points,P.cwarp,P.bpool,P.ppool,P.imagersizes)]
        A=[v.ctypes.data_as(ctypes.c_void_p) for v in arrs]
        pc=ctypes.create_string_buffer(64)
        lib.mrcal_optimizer_callback.restype=ctypes.c_bool
        r=lib.mrcal_optimizer_callback(b.ctypes.data_as(PD),ci(8*N if nb is None else nb),x.ctypes.data_as(PD),ci(8*M if nx is None else nx),ctypes.byref(J) if jac else None,
            A[0],A[1],A[2],A[3],A[4] if P.warp else None,*[ci(v) for v in(P.Nci,P.Nce,P.Nf,P.Np,P.Npf)],bo,bp,ci(P.Nob),ci(P.Nop),bt,ci(len(P.ot)),A[5],A[6],lm,A[7],ctypes.c_ubyte(P.bits()),pc,cd(P.spacing),ci(P.W),ci(P.H),ctypes.c_bool(False))
        P.G=G
        return r,b,x,(rp,col,val)
    def env(P):
        d={k:(v.tolist() if hasattr(v,'tolist') else v) for k,v in P.__dict__.items() if k in('model','sels','Nci','Nce','Nf','Np','Npf','Nob','Nop','W','H','warp','spacing','intr','ext','frames','points','cwarp','bpool','ppool','imagersizes','ob','op')}
        d['ot']=[(a,b,c,e,list(map(float,v))) for a,b,c,e,v in P.ot]; return d
def compare(P,full=True):
    """None or (what, got, want); count"""
    import numpy as np
    N=P.nstate(); parts=P.parts(); M=sum(k for _,_,k in parts); cnt=0
    r,b,x,(rp,col,val)=P.call()
    if P.M!=M: return 1,('number of measurements',P.M,M)
    if not r: return 1,('return value',bool(r),True)
    if (b[N:]!=777).any() or (x[M:]!=777).any() or (rp[M+1:]!=-7).any() or (col[P.Z:]!=-7).any() or (val[P.Z:]!=777).any(): return 1,('written outside the outputs',1,0)
    b=b[:N]
    if (b==777).any(): return 1,('packed state written completely',777.,0)
    # packed state: unpacks to the inputs
    back=P.unpack(b)
    for n,u,w in zip(('intrinsics','extrinsics','frames','points','warp'),back,(P.intr,P.ext,P.frames,P.points,P.cwarp if P.warp else np.zeros(2))):
        if u.size and not np.allclose(u,w,rtol=1e-12,atol=1e-13): return 1,('packed state: '+n,u.tolist(),w.tolist())
    def X(bb):
        g=P.unpack(bb); return np.concatenate([fn(*g) for _,fn,_ in parts]) if parts else np.zeros(0)
    want=X(b); lab=[l+' [%d]'%j for l,_,k in parts for j in range(k)]
    for m in range(M):
        cnt+=1
        if not abs(x[m]-want[m])<=1e-8*(1+abs(want[m])): return cnt,('measurement %d: %s'%(m,lab[m]),float(x[m]),float(want[m]))
    if not full: return cnt,None
    if rp[0]!=0 or rp[M]!=P.Z: return cnt,('row pointers start at 0 and end at the number of nonzeros',(int(rp[0]),int(rp[M])),(0,P.Z))
    J=np.zeros((M,N))
    for m in range(M):
        if not 0<=rp[m]<=rp[m+1]<=P.Z: return cnt,('row pointer %d'%m,int(rp[m]),None)
        c=col[rp[m]:rp[m+1]]; cnt+=1
        if ((c<0)|(c>=N)).any() or len(set(c.tolist()))!=len(c): return cnt,('columns of row %d (%s) are distinct and in range'%(m,lab[m]),c.tolist(),N)
        J[m,c]=val[rp[m]:rp[m+1]]
    h=1e-5; D=np.zeros((M,N))
    for j in range(N):
        hj=h
        e=np.zeros(N); e[j]=hj
        D[:,j]=(8*(X(b+e)-X(b-e))-(X(b+2*e)-X(b-2*e)))/(12*hj)
    err=np.abs(J-D); tol=1e-4*np.abs(D)+2e-6*(1+np.abs(want))[:,None]+2e-5*np.abs(D).max(axis=1,initial=0)[:,None]
    cnt+=M*N
    bad=np.argwhere(~(err<=tol)); alt={}
    for m,j in bad:
        if 'pair' in lab[m] and abs(want[m])<1e-4: continue     # an angle: it has no derivative at 0, and none that differences could see next to it
        # rounding and switching points disturb a difference quotient: an entry is wrong only if no step size confirms it
        if j not in alt:
            e=np.zeros(N); alt[j]=[]
            for hj in (1e-3,1e-4,1e-6,3e-7): e[j]=hj; alt[j].append((X(b+e)-X(b-e))/(2*hj)); alt[j]+=[(X(b+e)-X(b))/hj,(X(b)-X(b-e))/hj]
        if any(abs(J[m,j]-d[m])<=1e-3*abs(d[m])+tol[m,j] for d in alt[j]): continue
        return cnt,('d measurement %d (%s) / d packed state %d'%(m,lab[m],j),float(J[m,j]),float(D[m,j]))
    r2,b2,x2,_=P.call(jac=False)
    if not r2 or not (x2[:M]==x[:M]).all(): return cnt,('measurements without a Jacobian',x2[:M].tolist(),x[:M].tolist())
    return cnt,None
OPT=('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp','do_apply_regularization','do_apply_regularization_unity_cam01')
def bounded(lib,seed=1,n=150,only=None):
    rng=random.Random(seed); cnt=0
    full={k:True for k in OPT}
    for it in range(n):
        m=MODELS[it%len(MODELS)]
        if it<len(MODELS): s=dict(full); kw=dict(Nob=2,Nop=3,Np=3,Npf=1,Nce=1,Nf=2,Nci=2)
        else:
            s={k:rng.random()<.65 for k in OPT}; kw={}
            if it%4==3:
                s['do_optimize_intrinsics_core']=s['do_optimize_intrinsics_distortions']=False; s['do_optimize_extrinsics']=True
                kw=dict(Not=rng.randint(1,3),Nce=rng.randint(1,3))
            if not any(s[k] for k in OPT[:5]): s['do_optimize_extrinsics']=True
        if not s['do_optimize_calobject_warp'] and rng.random()<.3: kw['warp']=False
        P=Problem(lib,rng,m,s,**kw)
        if not any(P.eff()[k] for k in OPT[:5]): continue
        if P.nstate()==0: continue
        c,v=compare(P); cnt+=c
        if v: return cnt,(P.env(),v[0],v[1],v[2])
    # a lens whose projection fails: the residual is that of pixel (0,0), and no pose gradient
    import numpy as np
    for it in range(4):
        s={k:k in OPT[2:4] for k in OPT}; P=Problem(lib,rng,'LENSMODEL_CAHVORE_linearity=0.99',s,Nob=1,Nop=0,Nce=1,Nci=1,Nf=1)
        P.frames[:]=0; P.frames[0,2]=.1; P.ext[:]=0; P.frames[0,3]=3; P.frames[0,5]=-1; P.intr[0,4:]=[.1,.05]+[0]*(P.n-6); P.ob=[(0,0,0)]; P.bpool[:,2]=1
        f=P.frames.copy(); P.frames[0,3]=.1; P.frames[0,5]=2; P.call(); P.frames=f      # (leaves the gradients of an ordinary problem on the stack)
        q=P.project(np.array([[3.,0,-1]]),P.intr[0])
        if q is not None and (q!=0).any(): continue
        r,b,x,(rp,col,val)=P.call(); cnt+=P.M+P.Z
        if not r or not (x[:P.M]==-P.bpool[:,:2].ravel()).all(): return cnt,(P.env(),'residuals of a failed projection',x[:P.M].tolist(),(-P.bpool[:,:2]).ravel().tolist())
        if not (val[:P.Z]==0).all(): return cnt,(P.env(),'gradients of a failed projection',val[:P.Z].tolist(),0.)
    # refusals
    for it in range(6):
        s=dict(full); P=Problem(lib,rng,MODELS[it%3],s,Nob=1,Nf=1)
        P.nstate(); P.call(); N=P.nstate(); M=P.M; cnt+=4
        for what,kw in (('a state buffer that is too short',dict(nb=8*N-8)),('a state buffer that is too long',dict(nb=8*N+8)),('a measurement buffer that is too short',dict(nx=8*M-8)),('a measurement buffer that is too long',dict(nx=8*M+8))):
            r,b,x,J=P.call(**kw)
            if r or (x!=777).any(): return cnt,(P.env(),what+' is refused',bool(r),False)
        P.warp=False; cnt+=1
        if P.call()[0]: return cnt,(P.env(),'no board shape while optimizing it',True,False)
        s2={k:k.startswith('do_apply') for k in OPT}; P=Problem(lib,rng,MODELS[it%3],s2,Nob=1); cnt+=1
        if P.call()[0]: return cnt,(P.env(),'nothing to optimize',True,False)
        for k in('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions',None):
            s3={q:False for q in OPT}; s3['do_optimize_extrinsics']=k is not None; s3['do_optimize_frames']=True
            if k: s3[k]=True
            P=Problem(lib,rng,MODELS[4+it%3],s3,Not=1,Nce=2); cnt+=1
            if P.call()[0]: return cnt,(P.env(),'triangulated points with %s'%(k or 'locked extrinsics'),True,False)
    return cnt,None
