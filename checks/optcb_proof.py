"""C12: contracts of the optimizer callback.
project() and the geometric callees are replaced by their contracts (project(): returns the pixel and its gradients, as fresh
quantities of the arguments it was given, which must be the lens, poses, shape and grid of that observation; the rotation,
transformation and triangulation-error functions: opaque values of their arguments, with opaque gradients).  mrcal_optimizer_callback
is executed on every problem of a set of small structures (which observations, which variables, which lens model), for all real
values of everything, and every measurement, every row of the Jacobian and the packed state are compared with the specification."""
import ctypes, itertools
import sym as S, prove, build, direct, report, cases as CA
from sym import *
from execu import Ptr, NULL, Undecided
from contract import Res
from report import Task
from lens import lensmodel_bytes
from layout import sel
from stream import scales
import optcb
from optcb import obs_layout, OPT
def isnull(p): return p is NULL or p==0 or (isinstance(p,Ptr) and p.obj==NULL.obj and p.off==0)
D8=direct.D8; I32=direct.I32
NPAR={'LENSMODEL_PINHOLE':4,'LENSMODEL_STEREOGRAPHIC':4,'LENSMODEL_OPENCV4':8,'LENSMODEL_OPENCV8':12,'LENSMODEL_OPENCV12':16,'LENSMODEL_CAHVOR':9,'LENSMODEL_CAHVORE_linearity=0.37':12,
      'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=5_fov_x_deg=120':54,'LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=120':28}
Z=S.ZERO
def key(v): return v if not isinstance(v,E) else v
class Cfg:
    """structure of a problem"""
    def __init__(s,model,sels,Nci=1,Nce=0,Nf=0,Np=0,Npf=0,ob=(),op=(),ot=(),W=2,H=1,warp=True,inliers=False,jac=True):
        s.__dict__.update(locals()); del s.__dict__['s']
        s.n=NPAR[model]; s.splined='SPLINED' in model
        e={k:k in sels for k in OPT}
        if not ob: e['do_optimize_calobject_warp']=False
        s.e=e; o=lambda k: e['do_optimize_'+k]; s.o=o
        s.ni=(4 if o('intrinsics_core') else 0)+(s.n-4 if o('intrinsics_distortions') else 0)
        k=s.ni*Nci; s.ie=k; k+=6*Nce if o('extrinsics') else 0; s.if_=k; k+=6*Nf if o('frames') else 0; s.ip=k; k+=3*(Np-Npf) if o('frames') else 0; s.iw=k; k+=2 if o('calobject_warp') else 0; s.N=k
        if s.splined: c=dict(x.split('=') for x in model.replace('LENSMODEL_SPLINED_STEREOGRAPHIC_','').replace('fov_x_deg','fov').split('_')); s.order,s.Nx,s.Ny=int(c['order']),int(c['Nx']),int(c['Ny'])
    def label(s): return '%s <%s boards=%s points=%s triangulated=%s Nf=%d Np=%d/%d Nce=%d %s%s>'%(s.model.replace('LENSMODEL_','')[:26],' '.join(k.replace('do_optimize_','').replace('do_apply_','') for k in OPT if s.e[k]),list(s.ob),list(s.op),[(c,int(l),int(o)) for c,l,o in s.ot],s.Nf,s.Np,s.Npf,s.Nce,'' if s.warp else 'no-warp ','' if s.jac else 'no-J')
def V(n): return S.sym(n)
class Run:
    def __init__(s,mods,cfg): s.mods=mods; s.c=cfg; s.sc=scales()
    def I(s,c,j): return V('I%d[%d]'%(c,j))
    def P(s,k,i,j): return V('%s%d[%d]'%(k,i,j))
    # ---- contracts of the callees
    def project(s,x,st,a,ins):
        c=s.c; m=s.h.m
        (q,pd,pi,dfxy,dnc,meta,drc,dtc,drf,dtf,dw,intr,cam,frame,warp,ident,lm,prec,spacing,W,H)=a
        rd=lambda p,i: x.load(st,m,D8,Ptr(p.obj,S.iadd(p.off,8*i)))
        wr=lambda p,i,v: x.store(st,m,D8,v,Ptr(p.obj,S.iadd(p.off,8*i)))
        log=list(st.meta.get('project',())); k=len(log); L='p%d'%k
        if not isinstance(W,int) or not isinstance(H,int): raise Undecided('project: symbolic grid')
        N=W*H if W else 1; idv=ident is True or ident==1
        if not(idv or ident is False or ident==0): raise Undecided('project: camera_at_identity undecided')
        call=dict(intr=[rd(intr,j) for j in range(c.n)],cam=None if idv else [rd(cam,j) for j in range(6)],frame=[rd(frame,j) for j in (range(6) if W else range(3,6))],
                  warp=None if isnull(warp) else [rd(warp,j) for j in range(2)],spacing=spacing,grid=(W,H),lm=lm,
                  asked=tuple(not isnull(p) for p in(pd,drc,dtc,drf,dtf,dw)))
        st.meta=dict(st.meta); st.meta['project']=log+[call]
        for i in range(N):
            for y in(0,1): wr(q,2*i+y,V('%sq%d.%d'%(L,i,y)))
            for n,p in(('rc',drc),('tc',dtc),('rf',drf),('tf',dtf)):
                if isnull(p) or (idv and n in('rc','tc')): continue     # the gradients of a camera at the identity are not written
                for y in(0,1):
                    for j in range(3): wr(p,6*i+3*y+j,V('%s%s%d.%d.%d'%(L,n,i,y,j)))
            if not isnull(dw):
                for y in(0,1):
                    for j in range(2): wr(dw,4*i+2*y+j,V('%sw%d.%d.%d'%(L,i,y,j)))
        if not isnull(pd):
            x.store(st,m,('ptr',),pd,dfxy); o=2*N
            for i in range(2*N): wr(pd,i,V('%sfxy%d'%(L,i)))
            if c.splined:
                x.store(st,m,('ptr',),NULL,dnc)
                x.store(st,m,('ptr',),Ptr(pd.obj,S.iadd(pd.off,8*o)),meta); x.store(st,m,('int',16),c.order+1,Ptr(meta.obj,S.iadd(meta.off,8))); x.store(st,m,('int',16),2*c.Nx,Ptr(meta.obj,S.iadd(meta.off,10)))
                r=c.order+1
                for i in range(N):
                    x.store(st,m,I32,S.isym('%sivar%d'%(L,i)),Ptr(pi.obj,S.iadd(pi.off,4*i)))
                    for j in range(2*r): wr(pd,o+2*r*i+j,V('%sabcd%d.%d'%(L,i,j)))
            else:
                x.store(st,m,('ptr',),Ptr(pd.obj,S.iadd(pd.off,8*o)),dnc); x.store(st,m,('ptr',),NULL,meta)
                for i in range(2*N*(c.n-4)): wr(pd,o+i,V('%snc%d'%(L,i)))
        return None
    def opaque(s,st,name,vals):
        """a name for the value of an opaque function at these arguments"""
        t=s.lookup(st,name,vals)
        if t is None: t='%s#%d'%(name,len(st.meta.get('uf',()))); st.meta=dict(st.meta); st.meta['uf']=tuple(st.meta.get('uf',()))+((name,tuple(vals),t),)
        return t
    def lookup(s,st,name,vals):
        for n,v,t in st.meta.get('uf',()):
            if n==name and len(v)==len(vals) and all(a is b for a,b in zip(v,vals)): return t
        for n,v,t in st.meta.get('uf',()):
            if n==name and len(v)==len(vals) and all(o is True for o in prove.pit([(S.R(a),S.R(b)) for a,b in zip(v,vals)],1)): return t
        return None
    def strided(s,x,st,p,n,s0=0,m=None,s1=0,dst=None):
        if not(isinstance(s0,int) and isinstance(s1,int)): raise Undecided('symbolic stride')
        return None
    def rotate(s,x,st,a,ins):
        (xo,xs,Jr,jr0,jr1,Jx,jx0,jx1,r,rs,xi,xis,inv)=a; m=s.h.m
        inv=inv is True or inv==1
        if any(v!=0 for v in(xs,jr0,jr1,jx0,jx1,rs,xis)): raise Undecided('strided rotation')
        rd=lambda p,i: x.load(st,m,D8,Ptr(p.obj,S.iadd(p.off,8*i)))
        wr=lambda p,i,v: x.store(st,m,D8,v,Ptr(p.obj,S.iadd(p.off,8*i)))
        rv=[rd(r,i) for i in range(3)]; xv=[rd(xi,i) for i in range(3)]; n=s.opaque(st,'rotinv' if inv else 'rot',rv+xv)
        for i in range(3):
            wr(xo,i,V('%s.%d'%(n,i)))
            for j in range(3):
                if not isnull(Jr): wr(Jr,3*i+j,V('%s.Jr%d%d'%(n,i,j)))
                if not isnull(Jx): wr(Jx,3*i+j,V('%s.Jx%d%d'%(n,i,j)))
        return None
    def transform(s,x,st,a,ins):
        (xo,xs,Jr,jr0,jr1,Jx,jx0,jx1,r,rs,xi,xis,inv)=a; m=s.h.m
        if any(v!=0 for v in(xs,jr0,jr1,jx0,jx1,rs,xis)): raise Undecided('strided transformation')
        inv=inv is True or inv==1
        rd=lambda p,i: x.load(st,m,D8,Ptr(p.obj,S.iadd(p.off,8*i)))
        wr=lambda p,i,v: x.store(st,m,D8,v,Ptr(p.obj,S.iadd(p.off,8*i)))
        rv=[rd(r,i) for i in range(6)]; xv=[rd(xi,i) for i in range(3)]; n=s.opaque(st,'tfinv' if inv else 'tf',rv+xv)
        for i in range(3):
            wr(xo,i,V('%s.%d'%(n,i)))
            for j in range(6):
                if not isnull(Jr): wr(Jr,6*i+j,V('%s.Jr%d%d'%(n,i,j)))
            for j in range(3):
                if not isnull(Jx): wr(Jx,3*i+j,V('%s.Jx%d%d'%(n,i,j)))
        return None
    def trierr(s,x,st,a,ins):
        dv,dt,v0,v1,t=a; m=s.h.m
        rd=lambda p: [x.load(st,m,D8,Ptr(p.obj,S.iadd(p.off,8*i))) for i in range(3)]
        n=s.opaque(st,'err',rd(v0)+rd(v1)+rd(t))
        for p,k in((dv,'dv'),(dt,'dt')):
            if not isnull(p):
                for i in range(3): x.store(st,m,D8,V('%s.%s%d'%(n,k,i)),Ptr(p.obj,S.iadd(p.off,8*i)))
        return V(n+'.e')
    # ---- run
    def run(s):
        c=s.c; over={'project':s.project,'mrcal_rotate_point_r_full':s.rotate,'mrcal_transform_point_rt_full':s.transform,'_mrcal_triangulated_error':s.trierr,'_mrcal_precompute_lensmodel_data':lambda x,st,a,ins: None}
        h=s.h=direct.H(s.mods,over); h.m=h.ex.find('mrcal_optimizer_callback')[0]
        L=obs_layout()
        def recs(name,kind,rows,size,extra=None):
            def init(off,ty):
                k,r=divmod(off,size)
                if extra: v=extra(k,r,ty)
                else: v=None
                if v is not None: return v
                for o,val in zip(L[kind][:len(rows[k])],rows[k]):
                    if r==o: return val
                raise Undecided('%s field +%d'%(name,r))
            return h.obj(name,size*len(rows),'in',init)
        arr=lambda nm,n,w,f: h.obj(nm,8*n*w,'in',lambda off,ty: f(off//8//w,off//8%w)) if n else NULL
        lmb=lensmodel_bytes(c.model)
        def lminit(off,ty):
            n={'int':lambda: ty[1]//8,'double':lambda: 8,'float':lambda: 4,'ptr':lambda: 8}[ty[0]]()
            b=lmb[off:off+n]
            if ty[0]=='double':
                import struct; return S.const(struct.unpack('<d',b)[0])
            return int.from_bytes(b,'little')
        lm=h.obj('lensmodel',len(lmb),'in',lminit)
        intr=arr('intrinsics',c.Nci,c.n,s.I); ext=arr('rt_cam_ref',c.Nce,6,lambda i,j: s.P('E',i,j)); fr=arr('rt_ref_frame',c.Nf,6,lambda i,j: s.P('F',i,j)); pt=arr('points',c.Np,3,lambda i,j: s.P('T',i,j))
        wp=arr('calobject_warp',1,2,lambda i,j: V('W[%d]'%j)) if c.warp else NULL
        n=c.W*c.H
        ob=recs('observations_board','board',c.ob,L['board'][3]) if c.ob else NULL; op=recs('observations_point','point',c.op,L['point'][3]) if c.op else NULL
        def tri(k,r,ty):
            if r in(L['last'][0],L['outl'][0]) and ty[0]=='int':
                v=0
                for i in range(ty[1]//8):
                    for f,(o,mk) in((c.ot[k][1],L['last']),(c.ot[k][2],L['outl'])):
                        if f and o==r+i: v|=mk<<(8*i)
                return v
            if L['tri'][2]<=r<L['tri'][2]+24: return V('X%d[%d]'%(k,(r-L['tri'][2])//8))
        ot=recs('observations_point_triangulated','tri',[(0,e) for e,_,_ in c.ot],L['tri'][3],tri) if c.ot else NULL
        bp=arr('observations_board_pool',n*len(c.ob),3,lambda i,j: V('B%d[%d]'%(i,j))); pp=arr('observations_point_pool',len(c.op),3,lambda i,j: V('O%d[%d]'%(i,j)))
        ims=h.obj('imagersizes',8*c.Nci,'in',lambda off,ty: S.isym('size%d'%(off//4)))
        s.rows=s.spec_rows(); M=len(s.rows); nz=sum(len(r[2]) for r in s.rows) if s.rows else 0
        h.obj('b',8*c.N,'out'); h.obj('x',8*M,'out'); h.obj('Jp',4*(M+1),'out'); h.obj('Ji',4*nz,'out'); h.obj('Jx',8*nz,'out')
        S_=optcb.Sparse; Jt=h.fields('Jt',ctypes.sizeof(S_),{S_.p.offset:h.objs['Jp'],S_.i.offset:h.objs['Ji'],S_.x.offset:h.objs['Jx'],0:c.N,8:M,16:nz}) if c.jac else NULL
        pc=h.obj('problem_constants',8,'in',lambda off,ty: 0)
        if c.inliers:
            for i in range(n*len(c.ob)): h.assume(rcmp('le',Z,V('B%d[2]'%i)))
            for i in range(len(c.op)): h.assume(rcmp('lt',Z,V('O%d[2]'%i)))
        args=[h.objs['b'],8*c.N,h.objs['x'],8*M,Jt,intr,ext,fr,pt,wp,c.Nci,c.Nce,c.Nf,c.Np,c.Npf,ob,op,len(c.ob),len(c.op),ot,len(c.ot),bp,pp,lm,ims,sel(**{k:True for k in c.sels}),pc,V('spacing'),c.W,c.H,0]
        s.lm=lm
        return h.call('mrcal_optimizer_callback',args)
    # ---- specification
    def state(s):
        """the packed state vector: value of every element"""
        c=s.c; o=c.o; sc=s.sc; d=lambda v,k: v/S.from_double(float(k)); b=[]
        for i in range(c.Nci):
            if o('intrinsics_core'): b+=[d(s.I(i,j),sc['core'][j]) for j in range(4)]
            if o('intrinsics_distortions'): b+=[d(s.I(i,j),sc['dist'][0]) for j in range(4,c.n)]
        if o('extrinsics'): b+=[d(s.P('E',i,j),sc['extr'][j]) for i in range(c.Nce) for j in range(6)]
        if o('frames'): b+=[d(s.P('F',i,j),sc['frames'][j]) for i in range(c.Nf) for j in range(6)]+[d(s.P('T',i,j),sc['points'][j]) for i in range(c.Np-c.Npf) for j in range(3)]
        if o('calobject_warp'): b+=[d(V('W[%d]'%j),sc['warp'][j]) for j in range(2)]
        return b
    def spec_rows(s):
        """rows: (label, f(path facts)->value, [(column, f->value)]), in order; the calls of project() they rest on in s.calls"""
        c=s.c; o=c.o; e=c.e; sc=s.sc; R=[]; s.calls=[]; K=lambda v: S.from_double(float(v))
        intr=lambda ci: [s.I(ci,j) for j in range(c.n)]
        def dep_intr(L,ci,i,y,w,N):
            r=[]; v0=c.ni*ci
            if o('intrinsics_core'): r+=[(v0+y,V('%sfxy%d'%(L,2*i+y))*w*K(sc['core'][y])),(v0+2+y,w*K(sc['core'][2+y]))]
            if o('intrinsics_distortions'):
                b=v0+(4 if o('intrinsics_core') else 0)
                if c.splined:
                    n=c.order+1; A=[V('%sabcd%d.%d'%(L,i,j)) for j in range(2*n)]
                    for iy in range(n):
                        for ix in range(n): r.append((S.iadd(S.isym('%sivar%d'%(L,i)),v0-(0 if o('intrinsics_core') else 4)+iy*2*c.Nx+2*ix+y),A[ix]*A[n+iy]*s.I(ci,y)*w*K(sc['dist'][0])))
                else: r+=[(b+j,V('%snc%d'%(L,(2*i+y)*(c.n-4)+j))*w*K(sc['dist'][0])) for j in range(c.n-4)]
            return r
        def pose(L,n,i,y,v0,w,scl): return [(v0+j,V('%s%s%d.%d.%d'%(L,('r'+n) if j<3 else ('t'+n),i,y,j%3))*w*K(scl[j])) for j in range(6)]
        npt=c.W*c.H
        for k,(ci,ce,f) in enumerate(c.ob):
            L='p%d'%len(s.calls)
            s.calls.append(('board observation %d'%k,dict(intr=intr(ci),cam=None if ce<0 else [s.P('E',ce,j) for j in range(6)],frame=[s.P('F',f,j) for j in range(6)],warp=[V('W[%d]'%j) for j in range(2)] if c.warp else None,spacing=V('spacing'),grid=(c.W,c.H)),None))
            for i in range(npt):
                g=k*npt+i; w=V('B%d[2]'%g)
                for y in(0,1):
                    r=dep_intr(L,ci,i,y,w,npt)
                    if o('extrinsics') and ce>=0: r+=pose(L,'c',i,y,c.ie+6*ce,w,sc['extr'])
                    if o('frames'): r+=pose(L,'f',i,y,c.if_+6*f,w,sc['frames'])
                    if o('calobject_warp'): r+=[(c.iw+j,V('%sw%d.%d.%d'%(L,i,y,j))*w*K(sc['warp'][j])) for j in range(2)]
                    R.append(('board observation %d corner %d %s'%(k,i,'xy'[y]),(V('%sq%d.%d'%(L,i,y))-V('B%d[%d]'%(g,y)))*w,r,('board',w)))
        for k,(ci,ce,p) in enumerate(c.op):
            w=V('O%d[2]'%k); fromstate=o('frames') and p<c.Np-c.Npf
            # which call of project() this is depends on how many of the observations before are outliers
            L='@%d'%k
            s.calls.append(('point observation %d'%k,dict(intr=intr(ci),cam=None if ce<0 else [s.P('E',ce,j) for j in range(6)],frame=[s.P('T',p,j) for j in range(3)],warp=None,spacing=None,grid=(0,0)),w))
            for y in(0,1):
                r=dep_intr(L,ci,0,y,w,1)
                if o('extrinsics') and ce>=0: r+=pose(L,'c',0,y,c.ie+6*ce,w,sc['extr'])
                if fromstate: r+=[(c.ip+3*p+j,V('%stf0.%d.%d'%(L,y,j))*w*K(sc['points'][j])) for j in range(3)]
                R.append(('point observation %d %s'%(k,'xy'[y]),(V('%sq0.%d'%(L,y))-V('O%d[%d]'%(k,y)))*w,r,('point',w)))
        a=0; s.tri=[]
        while a<len(c.ot):
            z=a
            while not c.ot[z][1]: z+=1
            for i in range(a,z):
                for j in range(i+1,z+1):
                    e0,e1=c.ot[i][0],c.ot[j][0]
                    cols=([c.ie+6*e0+q for q in range(6)] if e0>=0 else [])+([c.ie+6*e1+q for q in range(6)] if e1>=0 else [])
                    dead=c.ot[i][2] or c.ot[j][2]
                    if dead: R.append(('triangulated pair (%d,%d), outlier'%(i,j),Z,[(q,Z) for q in cols],None))
                    else:
                        s.tri.append((i,j)); R.append(('triangulated pair (%d,%d)'%(i,j),('tri',i,j),[(q,('tri',i,j,q)) for q in cols],None))
            a=z+1
        if e['do_apply_regularization']:
            if o('intrinsics_distortions'):
                for ci in range(c.Nci):
                    b=c.ni*ci+(4 if o('intrinsics_core') else 0); D=sc['dist'][0]
                    if c.splined:
                        for y in range(c.Ny):
                            for x in range(c.Nx):
                                u,v=2*x-c.Nx+1,2*y-c.Ny+1; dx,dy=s.I(ci,4+2*(y*c.Nx+x)),s.I(ci,5+2*(y*c.Nx+x)); k=2*(y*c.Nx+x)
                                if u==0 and v==0: U,W_,m=K(1),Z,1
                                else: mag=S.sqrt(K(u*u+v*v)); U,W_,m=K(u)/mag,K(v)/mag,10
                                sc_=s.tenth()/K(10)
                                R.append(('radial regularization of knot (%d,%d) of camera %d'%(x,y,ci),sc_*(dx*U+dy*W_),[(b+k,sc_*U*K(D)),(b+k+1,sc_*W_*K(D))],None))
                                R.append(('tangential regularization of knot (%d,%d) of camera %d'%(x,y,ci),sc_*K(m)*(dx*W_-dy*U),[(b+k,sc_*K(m)*W_*K(D)),(b+k+1,-sc_*K(m)*U*K(D))],None))
                    else:
                        for j in range(c.n-4):
                            w=s.tenth()*K(5 if c.model in('LENSMODEL_OPENCV8','LENSMODEL_OPENCV12') and 5<=j<=7 else 1)
                            R.append(('regularization of distortion %d of camera %d'%(j,ci),w*s.I(ci,4+j),[(b+j,w*K(D))],None))
            if o('intrinsics_core'):
                w=s.tenth()/(S.i2r(S.isym('size0'))*s.tenth())
                for ci in range(c.Nci):
                    for y in(0,1):
                        R.append(('regularization of the image center of camera %d'%ci,w*(s.I(ci,2+y)-(S.i2r(S.isym('size%d'%(2*ci+y)))-K(1))*S.const('1/2')),[(c.ni*ci+2+y,w*K(sc['core'][2+y]))],None))
        if e['do_apply_regularization_unity_cam01'] and o('extrinsics') and c.Nce>0:
            t=[s.P('E',0,3+j) for j in range(3)]; w=s.tenth()/S.from_double(.01)
            R.append(('regularization of the first baseline',w*(sum((v*v for v in t),Z)-K(1)),[(c.ie+3+j,w*K(2)*t[j]*K(sc['extr'][3+j])) for j in range(3)],None))
        return R
    def tenth(s): return S.from_double(.1)
    def tri_value(s,st,i,j,col=None):
        """the error of a pair of triangulated observations and its derivatives, over the contracts of the callees"""
        c=s.c; K=lambda v: S.from_double(float(v))
        def fn(name,args):
            t=s.lookup(st,name,args)
            if t is None: raise Undecided('%s() was not applied to the expected arguments'%name)
            return t
        e0,e1=c.ot[i][0],c.ot[j][0]; px=lambda k: [V('X%d[%d]'%(k,q)) for q in range(3)]
        vec=lambda n: [V('%s.%d'%(n,q)) for q in range(3)]; mat=lambda n,k,m=3: [[V('%s.%s%d%d'%(n,k,a,b)) for b in range(m)] for a in range(3)]
        vm=lambda v,M: [sum((v[a]*M[a][b] for a in range(3)),Z) for b in range(len(M[0]))]
        v0=px(i); A=B=None
        if e0>=0:
            r=[s.P('E',e0,q) for q in range(3)]; t=[s.P('E',e0,3+q) for q in range(3)]
            nt=fn('rotinv',r+t); rv=fn('rotinv',r+v0); tr0=[-q for q in vec(nt)]; v0r=vec(rv)
        else: tr0=None; v0r=v0
        if e1>=0:
            rt=[s.P('E',e1,q) for q in range(6)]; rot=fn('rot',rt[:3]+v0r); v01=vec(rot)
            if e0>=0: tf=fn('tf',rt+tr0); t10=vec(tf)
            else: t10=rt[3:]
        else: v01=v0r; t10=tr0
        er=fn('err',px(j)+v01+t10)
        if col is None: return V(er+'.e')
        dv=[V('%s.dv%d'%(er,q)) for q in range(3)]; dt=[V('%s.dt%d'%(er,q)) for q in range(3)]
        res=[Z]*6; k=c.sc_e(col)
        cam,q=divmod(col-c.ie,6)
        val=Z
        if cam==e0:
            dvr=vm(dv,mat(rot,'Jx')) if e1>=0 else dv; dtr=vm(dt,mat(tf,'Jx')) if e1>=0 else dt
            dr=[a-b for a,b in zip(vm(dvr,mat(rv,'Jr')),vm(dtr,mat(nt,'Jr')))]; dtt=[-a for a in vm(dtr,mat(nt,'Jx'))]
            val=val+(dr+dtt)[q]
        if cam==e1:
            if e0>=0: g=vm(dt,mat(tf,'Jr',6))
            else: g=[Z]*3+dt
            h=vm(dv,mat(rot,'Jr'))
            val=val+((h[q] if q<3 else Z)+g[q])
        return val*K(s.sc['extr'][q])
Cfg.sc_e=lambda s,col: None
def sign(st,cond):
    if CA.implied([c for c in st.path if c is not True],cond): return True
    if CA.implied([c for c in st.path if c is not True],cnot(cond)): return False
    raise Undecided('sign of a weight')
def verify(mods,cfg):
    r=Run(mods,cfg); done=r.run(); h=r.h; L=cfg.label(); rs=[]; n=0; c=cfg
    for k,st in enumerate(done):
        pl='%s path %d: '%(L,k)
        if st.viol: rs.append(Res('undecided',pl+'memory safety and frame','engine',str(st.viol[0])[:200])); continue
        n+=1
        def put(what,ok,note='',how='engine'): rs.append(Res('bounded' if ok else 'undecided',pl+what,how,'' if ok else str(note)[:200]))
        try:
            put('accepted',st.ret is True or st.ret==1,st.ret)
            pairs=[]; labs=[]
            def eq(lab,a,b): labs.append(lab); pairs.append((S.R(a),S.R(b)))
            for j,v in enumerate(r.state()): eq('packed state %d'%j,h.rd(st,'b',8*j),v)
            # the projections
            log=st.meta.get('project',[]); t=0; ren={}
            for what,w,wt in r.calls:
                if wt is not None and not sign(st,rcmp('lt',Z,wt)): continue
                if t>=len(log): raise Undecided('project() was not called for the '+what)
                g=log[t]
                if wt is not None: ren['@%d'%int(what.split()[-1])]='p%d'%t
                if (g['cam'] is None)!=(w['cam'] is None) or (g['warp'] is None)!=(w['warp'] is None) or g['grid']!=w['grid']: raise Undecided('%s: other arguments of project()'%what)
                for nm in('intr','cam','frame','warp'):
                    if w[nm] is not None:
                        for j,(a,b) in enumerate(zip(g[nm],w[nm])): eq('%s: %s %d given to project()'%(what,nm,j),a,b)
                if w['spacing'] is not None: eq(what+': spacing',g['spacing'],w['spacing'])
                t+=1
            put('one projection per observation',t==len(log),(t,len(log)))
            def rn(e):
                if not ren or not isinstance(e,E): return e
                m={}
                for a in S.topo([e]):
                    if a.op=='s' and a.a[0].startswith('@') if a.op=='s' and isinstance(a.a,tuple) else a.op=='s' and str(a.a).startswith('@'):
                        nm=a.a[0] if isinstance(a.a,tuple) else a.a
                        for z in sorted(ren,key=len,reverse=True):
                            if nm.startswith(z) and not nm[len(z):len(z)+1].isdigit(): m[a]=V(ren[z]+nm[len(z):]); break
                return S.subst([e],m)[0] if m else e
            def rcol(q):
                if isinstance(q,int) or not ren: return q
                tt=[]
                for mon,cf in q.terms():
                    if len(mon)==1 and mon[0][1]==1 and str(mon[0][0]).startswith('@'):
                        nm=mon[0][0]; z=[z for z in sorted(ren,key=len,reverse=True) if nm.startswith(z) and not nm[len(z):len(z)+1].isdigit()][0]
                        tt.append(S.imul(cf,S.isym(ren[z]+nm[len(z):])))
                    elif not mon: tt.append(cf)
                    elif len(mon)==1 and mon[0][1]==1: tt.append(S.imul(cf,S.isym(mon[0][0])))
                    else: tt.append(Undecided)
                out=0
                for v in tt:
                    if v is Undecided: raise Undecided('column')
                    out=S.iadd(out,v)
                return out
            pos=0
            for m,(lab,val,dep,kind) in enumerate(r.rows):
                dead=False
                if kind: dead=not sign(st,rcmp('le',Z,kind[1]) if kind[0]=='board' else rcmp('lt',Z,kind[1]))
                if isinstance(val,tuple): val=r.tri_value(st,val[1],val[2])
                eq('measurement %d, %s'%(m,lab),h.rd(st,'x',8*m),Z if dead else rn(val))
                if not c.jac: continue
                put('row pointer %d'%m,h.rd(st,'Jp',4*m,I32)==pos,h.rd(st,'Jp',4*m,I32))
                got={}
                for i in range(pos,pos+len(dep)):
                    q=h.rd(st,'Ji',4*i,I32)
                    if q in got: put('columns of row %d are distinct'%m,False,q)
                    got[q]=h.rd(st,'Jx',8*i)
                if dead and c.splined and kind[0]=='point' and c.o('intrinsics_distortions'):
                    # an outlier: any columns will do, if they are distinct, in range and zero
                    ok=len(got)==len(dep) and all(isinstance(q,int) and 0<=q<c.N for q in got)
                    put('columns of row %d, %s'%(m,lab),ok,list(got)[:5])
                    for q,v in got.items(): eq('d measurement %d (%s) / d state %s'%(m,lab,q),v,Z)
                else:
                    want={rcol(q) if not dead else q:v for q,v in dep}
                    put('columns of row %d, %s'%(m,lab),set(want)==set(got) and len(want)==len(dep),(sorted(map(str,set(want)^set(got)))[:6]))
                    for q in want:
                        if q in got:
                            v=want[q]
                            if isinstance(v,tuple): v=r.tri_value(st,v[1],v[2],v[3])
                            eq('d measurement %d (%s) / d state %s'%(m,lab,q),got[q],Z if dead else rn(v))
                pos+=len(dep)
            if c.jac: put('last row pointer',h.rd(st,'Jp',4*len(r.rows),I32)==pos)
            ok=prove.pit(pairs,1)
            rs+=[Res('bounded' if o is True else 'undecided',pl+l,'pit' if o is True else 'pit','' if o is True else str(o)[:150]) for l,o in zip(labs,ok)]
        except Undecided as ex: rs.append(Res('undecided',pl+'measurements and Jacobian','engine',str(ex)[:250]))
    if not n: rs.append(Res('undecided',L,'vacuity','no path returns'))
    return rs,h.ex.called,len(done)
ALL=OPT
def configs(thorough):
    o=lambda *k: tuple('do_optimize_'+x for x in k)
    core,dist,ext,frm,wrp=('do_optimize_intrinsics_core',),('do_optimize_intrinsics_distortions',),('do_optimize_extrinsics',),('do_optimize_frames',),('do_optimize_calobject_warp',); reg=('do_apply_regularization',); uni=('do_apply_regularization_unity_cam01',)
    SP3,SP2='LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=5_fov_x_deg=120','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=120'
    out=[]
    P,O4='LENSMODEL_PINHOLE','LENSMODEL_OPENCV4'
    # boards: every selection of variables
    for m in (P,O4,SP2):
        for bits in range(32):
            s=tuple(k for i,k in enumerate(OPT[:5]) if bits>>i&1)
            if not s: continue
            if m!=O4 and not thorough and bits%3!=1 and bits!=31: continue
            out.append(Cfg(m,s,Nci=2,Nce=2,Nf=2,ob=((1,1,1),(0,-1,0)),W=1,H=1))
    out.append(Cfg(O4,ALL,Nci=2,Nce=2,Nf=2,Np=1,ob=((0,-1,1),(1,1,0),(0,0,1)),W=2,H=2,inliers=True))
    out.append(Cfg(O4,core+dist+ext+frm,Nci=1,Nce=1,Nf=1,ob=((0,0,0),),W=2,H=1,warp=False))
    out.append(Cfg(O4,core+dist+ext+frm+reg,Nci=1,Nce=1,Nf=1,ob=((0,0,0),),W=2,H=1,jac=False))
    for m in ('LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37',SP3,SP2):
        out.append(Cfg(m,ALL,Nci=2,Nce=1,Nf=1,ob=((1,0,0),),W=1,H=1))
    # points
    for m in (O4,SP2):
        for bits in range(16):
            s=tuple(k for i,k in enumerate(OPT[:4]) if bits>>i&1)
            if not s or m==SP2 and not thorough and bits%3!=1 and bits!=15: continue
            out.append(Cfg(m,s+reg,Nci=2,Nce=2,Np=3,Npf=1,op=((1,1,1),(0,-1,2),(1,0,0))))
    out.append(Cfg(O4,ALL,Nci=2,Nce=2,Nf=1,Np=3,Npf=2,ob=((0,1,0),),op=((1,1,1),(0,-1,0)),W=1,H=1))
    out.append(Cfg(SP2,ALL,Nci=2,Nce=2,Nf=1,Np=3,Npf=0,ob=((0,1,0),),op=((1,1,1),(0,-1,2)),W=1,H=1))
    # triangulated points: every pair of cameras (reference or not), outliers, sets of 2 and 3
    F,T=False,True
    for ot in (((0,F,F),(1,T,F)),((-1,F,F),(1,T,F)),((1,F,F),(-1,T,F)),((0,F,F),(-1,F,F),(1,T,F)),((0,F,F),(1,F,T),(-1,T,F)),((0,F,T),(1,F,F),(-1,T,F)),((0,F,F),(1,T,F),(2,F,F),(-1,T,T),(1,F,F),(2,T,F))):
        out.append(Cfg(P,ext,Nce=3,ot=ot)); 
    out.append(Cfg(P,ext+frm+wrp+uni,Nce=3,Nf=1,Np=1,ob=((0,1,0),),op=((0,1,0),),W=1,H=1,ot=((0,F,F),(1,T,F),(2,F,F),(-1,T,F))))
    out.append(Cfg(P,ext+uni,Nce=3,ot=((0,F,F),(1,F,T),(-1,T,F)),jac=False))
    return out
def tasks(thorough):
    mods=build.modules(['mrcal.c']); lib=ctypes.CDLL(build.replay_lib()); out=[]; memo={}
    def fb():
        if 'r' not in memo: memo['r']=optcb.bounded(lib,report.SEED,400 if thorough else 200)
        return memo['r']
    for c in configs(thorough): out.append(Task('mrcal_optimizer_callback '+c.label(),lambda c=c: verify(mods,c),fb))
    import optcb_project as OP
    pm=build.modules(['mrcal.c','opencv.c'])
    for j in OP.jobs(thorough):
        r=OP.Run(pm,*j[:5]); out.append(Task(r.label()+(' failed projection' if j[5] else ''),lambda j=j: OP.verify(pm,*j),fb))
    def bt():
        k,v=optcb.bounded(lib,report.SEED,400 if thorough else 120)
        if v: raise Undecided('differs')
        return [Res('bounded','residuals against an independent model; Jacobian against differences; refusals','compiled code, %d comparisons'%k)],set(),0
    out.append(Task('whole callback (bounded)',bt,fb))
    return out
