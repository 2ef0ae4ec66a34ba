"""C20: the outlier pass.  mrcal_optimize() is executed symbolically with the nonlinear solver (libdogleg) replaced by its contract:
it moves the packed state to an arbitrary point and reports arbitrary residuals there.  Every path of the pass after the first solve
is compared with the specification: which observations are marked, from which noise estimate, at which poses, and whether another
solve is done.  Structures (numbers of boards, corners, triangulated observations) are small and bounded; weights, residuals, poses
and rays are symbolic.  The stand-in runs the compiled code with a stub solver."""
import ctypes, os, subprocess, itertools
import sym as S, prove, build, direct, report, cases as CA
from sym import *
from execu import Ptr, NULL, Undecided, Fork
from contract import Res
from report import Task
from lens import lensmodel_bytes
from layout import sel
import optcb, optcb_proof as OP
from optcb import obs_layout
from optcb_proof import isnull, Cfg as Cfg0, V, Z, D8, I32
from icon import probe
K0,K1=4,5
_dl=None
def dogleg_layout():
    global _dl
    if _dl is None: _dl=probe('printf("%d %d %d %d %d",(int)offsetof(dogleg_solverContext_t,beforeStep),(int)offsetof(dogleg_operatingPoint_t,p),(int)offsetof(dogleg_operatingPoint_t,x),(int)sizeof(dogleg_solverContext_t),(int)sizeof(dogleg_operatingPoint_t));',('mrcal.h','dogleg.h'))
    return _dl
class Cfg(Cfg0):
    def __init__(s,sels,reject=True,zero=(),fail=False,**kw):
        Cfg0.__init__(s,'LENSMODEL_PINHOLE',sels,**kw); s.reject=reject; s.fail=fail
    def label(s): return Cfg0.label(s)+('' if s.reject else ' no rejection')+(' the solver fails' if s.fail else '')
class Run(OP.Run):
    def __init__(s,mods,cfg): OP.Run.__init__(s,mods,cfg); s.final=False
    def state_var(s,i): return V('b[%d]'%i)
    def P(s,k,i,j):
        c=s.c
        if s.final:
            K=lambda v: S.from_double(float(v))
            if k=='E' and c.o('extrinsics'): return s.state_var(c.ie+6*i+j)*K(s.sc['extr'][j])
            if k=='F' and c.o('frames'): return s.state_var(c.if_+6*i+j)*K(s.sc['frames'][j])
            if k=='T' and c.o('frames') and i<c.Np-c.Npf: return s.state_var(c.ip+3*i+j)*K(s.sc['points'][j])
        return V('%s%d[%d]'%(k,i,j))
    def I(s,i,j):
        c=s.c
        if s.final:
            K=lambda v: S.from_double(float(v)); b=c.ni*i
            if j<4:
                if c.o('intrinsics_core'): return s.state_var(b+j)*K(s.sc['core'][j])
            elif c.o('intrinsics_distortions'): return s.state_var(b+(4 if c.o('intrinsics_core') else 0)+j-4)*K(s.sc['dist'][0])
        return V('I%d[%d]'%(i,j))
    def wp_(s,j):
        c=s.c
        if s.final and c.o('calobject_warp'): return s.state_var(c.iw+j)*S.from_double(float(s.sc['warp'][j]))
        return V('W[%d]'%j)
    def solver(s,x,st,a,ins):
        p,Ns,Nm,Nj,f,cookie,prm,pctx=a; c=s.c; m=s.h.m; k=st.meta.get('solve',0)
        if (Ns,Nm)!=(c.N,s.M): raise Undecided('the solver is given a problem of another size')
        st.meta=dict(st.meta); st.meta['solve']=k+1
        if k==0: st.meta['seed']=tuple(x.load(st,m,D8,Ptr(p.obj,S.iadd(p.off,8*i))) for i in range(c.N))
        if not isnull(x.load(st,m,('ptr',),pctx)): raise Undecided('the previous solver context is not released')
        if k or c.fail: return S.const(-1)
        for i in range(c.N): x.store(st,m,D8,s.state_var(i),Ptr(p.obj,S.iadd(p.off,8*i)))
        x.store(st,m,('ptr',),s.h.objs['solver'],pctx)
        return V('norm2')
    def free(s,x,st,a,ins): x.store(st,s.h.m,('ptr',),NULL,a[0])
    def conv(s,x,st,a,ins):
        rd=lambda p: [x.load(st,s.h.m,D8,Ptr(p.obj,S.iadd(p.off,8*i))) for i in range(3)]
        n=s.opaque(st,'conv',rd(a[0])+rd(a[1])+rd(a[2]))
        return S.Cond('atom',(n,))
    def run(s):
        c=s.c; none=lambda x,st,a,ins: None
        over={'mrcal_rotate_point_r_full':s.rotate,'mrcal_transform_point_rt_full':s.transform,'_mrcal_precompute_lensmodel_data':none,'_mrcal_triangulate_leecivera_mid2_is_convergent':s.conv,
              'dogleg_optimize2':s.solver,'dogleg_getDefaultParameters':none,'dogleg_freeContext':s.free}
        h=s.h=direct.H(s.mods,over); h.m=h.ex.find('mrcal_optimize')[0]; L=obs_layout(); s.final=False
        def recs(name,kind,rows,size,extra=None,role='in'):
            def init(off,ty):
                k,r=divmod(off,size)
                v=extra(k,r,ty) if extra else None
                if v is not None: return v
                for o,val in zip(L[kind][:len(rows[k])],rows[k]):
                    if r==o: return val
                raise Undecided('%s field +%d'%(name,r))
            return h.obj(name,size*len(rows),role,init)
        arr=lambda nm,n,w,f,role='inout': h.obj(nm,8*n*w,role,lambda off,ty: f(off//8//w,off//8%w)) if n else NULL
        lmb=lensmodel_bytes(c.model)
        lm=h.obj('lensmodel',len(lmb),'in',lambda off,ty: int.from_bytes(lmb[off:off+{'int':lambda: ty[1]//8,'double':lambda: 8,'ptr':lambda: 8}[ty[0]]()],'little'))
        intr=arr('intrinsics',c.Nci,c.n,s.I); ext=arr('rt_cam_ref',c.Nce,6,lambda i,j: s.P('E',i,j)); fr=arr('rt_ref_frame',c.Nf,6,lambda i,j: s.P('F',i,j)); pt=arr('points',c.Np,3,lambda i,j: s.P('T',i,j))
        wp=arr('calobject_warp',1,2,lambda i,j: V('W[%d]'%j))
        n=s.n=c.W*c.H
        ob=recs('observations_board','board',c.ob,L['board'][3]) if c.ob else NULL; op=recs('observations_point','point',c.op,L['point'][3]) if c.op else NULL
        ot=recs('ot','tri',[(0,e) for e,_,_ in c.ot],L['tri'][3],lambda k,r,ty: s.tri_field(k,r,ty),'inout') if c.ot else NULL
        bp=arr('pool',n*len(c.ob),3,lambda i,j: V('B%d[%d]'%(i,j))); pp=arr('observations_point_pool',len(c.op),3,lambda i,j: V('O%d[%d]'%(i,j)),'in')
        ims=h.obj('imagersizes',8*c.Nci,'in',lambda off,ty: S.isym('size%d'%(off//4)))
        npairs=0; s.pairs=[]
        for i in range(len(c.ot)):
            j=i
            while not c.ot[j][1]:
                j+=1; s.pairs.append((i,j))
        s.M=2*n*len(c.ob)+3*len(c.op)*0+2*len(c.op)+len(s.pairs); s.x_b=0; s.x_p=2*n*len(c.ob); s.x_t=s.x_p+2*len(c.op)
        if c.e['do_apply_regularization'] or c.e['do_apply_regularization_unity_cam01']: raise Undecided('configuration')
        d=dogleg_layout(); h.assume(rcmp('le',Z,V('norm2'))) # contract of the solver: a sum of squares, or negative on failure
        X=h.obj('x_solution',8*s.M,'in',lambda off,ty: V('x[%d]'%(off//8))); Pf=h.obj('p_solution',8*c.N,'in',lambda off,ty: s.state_var(off//8))
        step=h.fields('step',d[4],{d[1]:Pf,d[2]:X}); h.fields('solver',d[3],{d[0]:step})
        bf=h.obj('b_final',8*c.N,'out'); xf=h.obj('x_final',8*s.M,'out'); pc=h.obj('problem_constants',8,'in',lambda off,ty: 0)
        return h.call('mrcal_optimize',[bf,8*c.N,xf,8*s.M,intr,ext,fr,pt,wp,c.Nci,c.Nce,c.Nf,c.Np,c.Npf,ob,op,len(c.ob),len(c.op),ot,len(c.ot),bp,pp,lm,ims,
                 sel(**dict({k:True for k in c.sels},**({'do_apply_outlier_rejection':True} if c.reject else {}))),pc,V('spacing'),c.W,c.H,0,0])
    def tri_field(s,k,r,ty):
        L=obs_layout(); c=s.c
        if ty[0]=='int':
            v=0; hit=False
            for i in range(ty[1]//8):
                for f,(o,mk) in((c.ot[k][1],L['last']),(c.ot[k][2],L['outl'])):
                    if o==r+i: hit=True; v|=mk<<(8*i) if f else 0
            if hit: return v
        if L['tri'][2]<=r<L['tri'][2]+24: return V('X%d[%d]'%(k,(r-L['tri'][2])//8))
    # specification
    def truth(s,st,cond):
        """is this decided by the conditions of the path?"""
        if isinstance(cond,bool): return cond
        if cond in st.pset: return True
        nc=cnot(cond)
        if nc in st.pset: return False
        if cond.op in('r<','r<=','r=='):
            for sgn,cc,ans in((1,cond,True),(1,nc,False)):
                for p in st.path:
                    if getattr(p,'op',None)==cc.op:
                        k=(id(p.a),id(cc.a)); r=s.memo.get(k)
                        if r is None: r=s.memo[k]=(prove.pit([(p.a,cc.a)],1)[0] is True,p.a,cc.a)
                        if r[0]: return ans
        if CA.implied(st.path,cond): return True
        if CA.implied(st.path,nc): return False
        raise Undecided('the code did not decide %s'%str(cond)[:100])
    def ray_conv(s,st,i,j):
        c=s.c
        def fn(name,args):
            t=s.lookup(st,name,args)
            if t is None: raise Undecided('%s() was not applied to the expected arguments'%name)
            return t
        e0,e1=c.ot[i][0],c.ot[j][0]; px=lambda k: [V('X%d[%d]'%(k,q)) for q in range(3)]; vec=lambda n: [V('%s.%d'%(n,q)) for q in range(3)]
        v0=px(i)
        if e0>=0:
            r=[s.P('E',e0,q) for q in range(3)]; t=[s.P('E',e0,3+q) for q in range(3)]
            tr0=[-q for q in vec(fn('rotinv',r+t))]; v0r=vec(fn('rotinv',r+v0))
        else: tr0=None; v0r=v0
        if e1>=0:
            rt=[s.P('E',e1,q) for q in range(6)]; v01=vec(fn('rot',rt[:3]+v0r)); t10=vec(fn('tf',rt+tr0)) if e0>=0 else rt[3:]
        else: v01=v0r; t10=tr0
        return S.Cond('atom',(fn('conv',px(j)+v01+t10),))
    def any_(s,st,conds):
        """is one of them decided to hold? (False only if all are decided not to)"""
        und=None
        for c in conds:
            try:
                if s.truth(st,c): return True
            except Undecided as ex: und=ex
        if und: raise und
        return False
    def spec(s,st):
        """what the pass must have done"""
        c=s.c; nb=s.n*len(c.ob); x=lambda i: V('x[%d]'%i); w=[V('B%d[2]'%i) for i in range(nb)]; T=lambda q: s.truth(st,q); K=S.const
        inl=[not T(rcmp('le',wi,Z)) for wi in w]; out=[o for _,_,o in c.ot]; found=False; var=Z; N=0
        for i in range(nb):
            if inl[i]: var=var+x(2*i)*x(2*i)+x(2*i+1)*x(2*i+1); N+=2
        for k,(i,j) in enumerate(s.pairs): # diverging rays are outliers
            if not out[i] and not out[j] and not T(s.ray_conv(st,i,j)): out[i]=out[j]=True; found=True
            if not out[i] and not out[j]: var=var+x(s.x_t+k)*x(s.x_t+k); N+=1
        n0=nb-sum(inl); t0=sum(1 for i,j in s.pairs if out[i] or out[j])
        if N: var=var/K(N)
        big=lambda e,k: rcmp('lt',K(k*k)*var,e*e); corner=lambda i,k: [big(x(2*i),k),big(x(2*i+1),k)]
        live=[k for k,(i,j) in enumerate(s.pairs) if not out[i] and not out[j]]
        if not found: found=s.any_(st,[q for i in range(nb) if inl[i] for q in corner(i,K1)]+[big(x(s.x_t+k),K1) for k in live])
        mark=[False]*nb
        if found:
            for i in range(nb):
                if inl[i] and s.any_(st,corner(i,K0)): mark[i]=True
            for k,(i,j) in enumerate(s.pairs):
                if not out[i] and not out[j] and T(big(x(s.x_t+k),K0)): out[i]=out[j]=True
        return dict(found=found,mark=mark,out=out,n_board=n0+sum(mark),n_tri=t0 if not found else None,w=w)
def verify(mods,cfg):
    s=Run(mods,cfg); s.memo={}; done=s.run(); h=s.h; c=cfg; L='mrcal_optimize '+c.label(); rs=[]; nret=0; kinds=set(); lay=obs_layout()
    for k,st in enumerate(done):
        pl='%s path %d: '%(L,k); B=lambda what,ok,det='': rs.append(Res('bounded' if ok else 'undecided',pl+what,'engine, pit','' if ok else str(det)[:200]))
        if st.viol: B('memory safety and frame',False,st.viol[0]); continue
        nret+=1; pr=[]
        try:
            ret=st.ret.v; rms=ret[0]; st2=ret[1]
            s.final=not c.fail; solves=st.meta.get('solve',0)
            if c.fail: kinds.add('fail'); B('one attempt',solves==1); pr.append(('the RMS error says that the solve failed',rms,S.const(-1))); sp=dict(mark=[False]*(s.n*len(c.ob)),out=[o for _,_,o in c.ot],w=[V('B%d[2]'%i) for i in range(s.n*len(c.ob))])
            elif not c.reject:
                kinds.add('norej'); B('one solve, without rejection',solves==1); sp=dict(mark=[False]*(s.n*len(c.ob)),out=[o for _,_,o in c.ot],w=[V('B%d[2]'%i) for i in range(s.n*len(c.ob))])
            else:
                sp=s.spec(st); kinds.add('found' if sp['found'] else 'none')
                B('solves again exactly if there are new outliers',solves==(2 if sp['found'] else 1),(solves,sp['found']))
            for i,(wi,m) in enumerate(zip(sp['w'],sp['mark'])):
                for j in range(2): pr.append(('corner %d is not touched'%i,h.rd(st,'pool',24*i+8*j),V('B%d[%d]'%(i,j))))
                pr.append(('corner %d is %s'%(i,'marked' if m else 'not changed'),h.rd(st,'pool',24*i+16),-wi if m else wi))
            for i,o in enumerate(sp['out']):
                lo,lm=lay['last']; oo,om=lay['outl']
                b=lambda off: h.ex.load(st,h.m,('int',8),Ptr(h.objs['ot'].obj,lay['tri'][3]*i+off))
                B('triangulated observation %d is%s an outlier'%(i,'' if o else ' not'),isinstance(b(oo),int) and bool(b(oo)&om)==o,b(oo)); B('triangulated observation %d: end of its set is not changed'%i,bool(b(lo)&lm)==c.ot[i][1])
                for j in range(3): pr.append(('ray %d is not changed'%i,h.rd(st,'ot',lay['tri'][3]*i+lay['tri'][2]+8*j),V('X%d[%d]'%(i,j))))
            # the solution is what is returned
            fin=[('intrinsics',c.Nci,c.n,s.I),('rt_cam_ref',c.Nce,6,lambda i,j: s.P('E',i,j)),('rt_ref_frame',c.Nf,6,lambda i,j: s.P('F',i,j)),('points',c.Np,3,lambda i,j: s.P('T',i,j)),('calobject_warp',1,2,lambda i,j: s.wp_(j))]
            for nm,n,w,f in fin:
                for i in range(n):
                    for j in range(w): pr.append(('%s[%d,%d] of the solution'%(nm,i,j),h.rd(st,nm,8*(w*i+j)),f(i,j)))
            s.final=False
            for i,(g,wn) in enumerate(zip(st.meta['seed'],s.state())): pr.append(('the solve starts at the seed, element %d'%i,g,wn))
            if solves==1 and not c.fail:
                for i in range(c.N): pr.append(('final state %d'%i,h.rd(st,'b_final',8*i),s.state_var(i)))
                for i in range(s.M): pr.append(('final residual %d'%i,h.rd(st,'x_final',8*i),V('x[%d]'%i)))
                pr.append(('RMS error',rms,S.sqrt(V('norm2')/S.const(s.M))))
                if c.reject:
                    B('number of board outliers',st2lo(st2)==sp['n_board'],(st2,sp['n_board'])); B('number of triangulated outliers',st2hi(st2)==sp['n_tri'],(st2,sp['n_tri']))
            elif not c.fail: pr.append(('the RMS error says that the second solve failed',rms,S.const(-1)))
            ok=prove.pit([(S.R(a),S.R(b)) for _,a,b in pr],1)
            for (l,_,_),o in zip(pr,ok): B(l,o is True,o)
        except Undecided as ex: B('the outlier pass',False,ex)
    want={'fail'} if c.fail else {'norej'} if not c.reject else None
    if not nret or (want and kinds!=want): rs.append(Res('undecided',L,'vacuity',str(kinds)))
    return rs,h.ex.called,len(done)
def st2lo(v): return v&0xffffffff if isinstance(v,int) else getattr(v,'lo',v)
def st2hi(v): return v>>32 if isinstance(v,int) else v
def configs(thorough):
    ext,frm=('do_optimize_extrinsics',),('do_optimize_frames',); F,T=False,True; out=[]
    core=('do_optimize_intrinsics_core',); dist=('do_optimize_intrinsics_distortions',); wrp=('do_optimize_calobject_warp',)
    out.append(Cfg(core+ext+frm+wrp,Nci=1,Nce=1,Nf=1,Np=2,Npf=1,ob=((0,0,0),),W=1,H=1))
    out.append(Cfg(core+ext+frm+wrp,Nci=1,Nce=1,Nf=1,Np=2,Npf=1,ob=((0,0,0),),W=2,H=1))
    out.append(Cfg(frm,Nci=1,Nce=0,Nf=2,ob=((0,-1,0),(0,-1,1)),W=1,H=1))
    out.append(Cfg(frm,Nci=1,Nce=0,Nf=2,Np=1,ob=((0,-1,0),),op=((0,-1,0),),W=2,H=1))
    for ot in (((0,F,F),(1,T,F)),((-1,F,F),(1,T,F)),((1,F,F),(-1,T,F)),((0,F,F),(-1,F,F),(1,T,F)),((0,F,F),(1,F,T),(-1,T,F)),((0,F,T),(1,F,F),(-1,T,F)),((0,F,F),(1,T,F),(2,F,F),(-1,T,F))):
        out.append(Cfg(ext,Nci=1,Nce=3,ot=ot))
    out.append(Cfg(ext+frm,Nci=1,Nce=2,Nf=1,ob=((0,1,0),),W=1,H=1,ot=((0,F,F),(1,T,F))))
    out.append(Cfg(ext+frm,Nci=1,Nce=2,Nf=1,ob=((0,1,0),),W=1,H=1,ot=((0,F,F),(1,T,F)),reject=False))
    out.append(Cfg(ext+frm,Nci=1,Nce=2,Nf=1,ob=((0,1,0),),W=1,H=1,ot=((0,F,F),(1,T,F)),fail=True))
    out.append(Cfg(core+dist+ext+frm+wrp,Nci=2,Nce=1,Nf=1,Np=2,Npf=1,ob=((1,0,0),),op=((0,0,1),),W=2,H=1,reject=False))
    if thorough: out.append(Cfg(frm,Nci=1,Nce=0,Nf=2,ob=((0,-1,0),(0,-1,1)),W=2,H=1))
    return out
# ---------------------------------------------------------------- compiled code, with a stub solver
STUB=r"""
#include <stdlib.h>
#include <string.h>
#include <dogleg.h>
double *stub_delta, *stub_x; int stub_count, stub_limit;
void dogleg_getDefaultParameters(dogleg_parameters2_t* p){ memset(p,0,sizeof(*p)); }
void dogleg_freeContext(dogleg_solverContext_t** c){ if(*c){ free((*c)->beforeStep->p); free((*c)->beforeStep->x); free((*c)->beforeStep); free(*c); *c=NULL; } }
void dogleg_testGradient(unsigned int var, const double* p0, unsigned int Nstate, unsigned int Nmeas, unsigned int NJnnz, dogleg_callback_t* f, void* cookie){}
double dogleg_optimize2(double* p, unsigned int Nstate, unsigned int Nmeas, unsigned int NJnnz, dogleg_callback_t* f, void* cookie, const dogleg_parameters2_t* prm, dogleg_solverContext_t** out)
{
    dogleg_solverContext_t* c=calloc(1,sizeof(*c)); dogleg_operatingPoint_t* s=calloc(1,sizeof(*s)); double n=0;
    if(stub_count==stub_limit) { free(c); free(s); return -1.; }
    if(stub_count==0) for(unsigned int i=0;i<Nstate;i++) p[i]+=stub_delta[i];
    stub_count++;
    s->p=malloc((Nstate+1)*sizeof(double)); s->x=malloc((Nmeas+1)*sizeof(double)); c->beforeStep=s;
    memcpy(s->p,p,Nstate*sizeof(double)); if(stub_x) memcpy(s->x,stub_x,Nmeas*sizeof(double)); else f(p,s->x,NULL,cookie);
    for(unsigned int i=0;i<Nmeas;i++) n+=s->x[i]*s->x[i];
    s->norm2_x=n; *out=c; return n;
}
"""
def stublib():
    p=build.scratch()+'/stub_dogleg.c'; open(p,'w').write(STUB)
    return ctypes.CDLL(build.replay_lib(extra_c=[p],tag='_dogleg'))
class Stats(ctypes.Structure): _fields_=[('rms',ctypes.c_double),('nb',ctypes.c_int),('nt',ctypes.c_int)]
def optimize(P,delta,reject=True,limit=50,xs=None):
    """mrcal_optimize() on this problem → (stats, solves, weights, outlier flags, b, x, geometry)"""
    import numpy as np, struct
    ci,cd=ctypes.c_int,ctypes.c_double; PD=ctypes.POINTER(cd); lib=P.lib; P.call(False); lm,bo,bp,bt=P.keep; L=obs_layout()
    M,N=P.M,P.nstate(); b=np.full(N,777.); x=np.full(M,777.); d=np.ascontiguousarray(delta,float); d=d if len(d) else np.zeros(1)
    arrs=[np.array(v,copy=True,order='C') for v in(P.intr,P.ext,P.frames,P.points,P.cwarp,P.bpool,P.ppool,P.imagersizes)]; A=[v.ctypes.data_as(ctypes.c_void_p) for v in arrs]
    if xs is not None: xs=np.ascontiguousarray(xs,float)
    ctypes.c_void_p.in_dll(lib,'stub_x').value=None if xs is None else xs.ctypes.data
    ctypes.c_void_p.in_dll(lib,'stub_delta').value=d.ctypes.data; ctypes.c_int.in_dll(lib,'stub_count').value=0; ctypes.c_int.in_dll(lib,'stub_limit').value=limit
    bt=ctypes.create_string_buffer(bt.raw,len(bt.raw)) if bt is not None else None
    lib.mrcal_optimize.restype=Stats; pc=ctypes.create_string_buffer(64)
    s=dict(P.sels); s['do_apply_outlier_rejection']=reject
    st=lib.mrcal_optimize(b.ctypes.data_as(PD),ci(8*N),x.ctypes.data_as(PD),ci(8*M),A[0],A[1],A[2],A[3],A[4] if P.warp else None,*[ci(v) for v in(P.Nci,P.Nce,P.Nf,P.Np,P.Npf)],bo,bp,ci(P.Nob),ci(P.Nop),bt,ci(len(P.ot)),A[5],A[6],lm,A[7],
        ctypes.c_ubyte(sel(**s)),pc,cd(P.spacing),ci(P.W),ci(P.H),ctypes.c_bool(False),ctypes.c_bool(False))
    k=ctypes.c_int.in_dll(lib,'stub_count').value
    flags=[bool(bt.raw[L['tri'][3]*i+L['outl'][0]]&L['outl'][1]) for i in range(len(P.ot))]
    return st,k,arrs,flags,b,x
def rodr(P,E,c,inv=False):
    import numpy as np
    return np.eye(3) if c<0 else optcb.rodrigues(E[c,:3])
def oracle(P,geo,reject,X=None):
    """passes at this solution → (weights, flags, counts, number of solves) or None where a comparison is too close to call"""
    import numpy as np
    I,E,F,T,Wp=geo; w=P.bpool[:,2].copy() if P.Nob else np.zeros(0); flags=[o[3] for o in P.ot]; nb=len(w); solves=0; ot0=P.ot; bp0=P.bpool.copy()
    pairs=[]
    for i in range(len(P.ot)):
        j=i
        while not P.ot[j][2]: j+=1; pairs.append((i,j))
    cd=ctypes.c_double; PD=ctypes.POINTER(cd); P.lib._mrcal_triangulate_leecivera_mid2_is_convergent.restype=ctypes.c_bool
    def conv(i,j):
        A,B=P.ot[i],P.ot[j]; R=lambda c: rodr(P,E,c); t=lambda c: np.zeros(3) if c<0 else E[c,3:]
        R10=R(B[1])@R(A[1]).T; t10=np.ascontiguousarray(t(B[1])-R10@t(A[1])); v1=np.ascontiguousarray(B[4]); v0=np.ascontiguousarray(R10@A[4])
        r=set()
        for e in(0,1e-7,-1e-7): r.add(bool(P.lib._mrcal_triangulate_leecivera_mid2_is_convergent((v1*(1+e)+e).ctypes.data_as(PD),v0.ctypes.data_as(PD),t10.ctypes.data_as(PD))))
        if len(r)!=1: raise ArithmeticError
        return r.pop()
    def gt(a,b):
        if abs(a-b)<=1e-7*(abs(a)+abs(b)): raise ArithmeticError
        return a>b
    try:
        while True:
            solves+=1; P.bpool=bp0.copy()
            if nb: P.bpool[:,2]=w
            P.ot=[o[:3]+(f,)+o[4:] for o,f in zip(ot0,flags)]
            xs=[f(I,E,F,T,Wp) for l,f,_ in P.parts()]; labs=[l for l,_,_ in P.parts()]
            xb=np.concatenate([v for v,l in zip(xs,labs) if l.startswith('board')]) if nb else np.zeros(0); xt=[v[0] for v,l in zip(xs,labs) if l.startswith('triangulated pair')]
            full=np.concatenate(xs) if xs else np.zeros(0)
            if X is not None:
                if solves>1: return w,flags,None,1,X
                xb=X[:2*nb]; xt=X[len(X)-len(xt):]
            if not reject: return w,flags,None,solves,full
            inl=w>0; found=False; var=0.; n=0
            for i in range(nb):
                if inl[i]: var+=xb[2*i]**2+xb[2*i+1]**2; n+=2
            for k,(i,j) in enumerate(pairs):
                if not flags[i] and not flags[j] and not conv(i,j): flags[i]=flags[j]=True; found=True
                if not flags[i] and not flags[j]: var+=xt[k]**2; n+=1
            cnt=(int((~inl).sum()),sum(1 for i,j in pairs if flags[i] or flags[j]))
            if n: var/=n
            live=[k for k,(i,j) in enumerate(pairs) if not flags[i] and not flags[j]]
            if n and not found: found=any(inl[i] and (gt(xb[2*i]**2,25*var) or gt(xb[2*i+1]**2,25*var)) for i in range(nb)) or any(gt(xt[k]**2,25*var) for k in live)
            if not found: return w,flags,cnt,solves,full
            for i in range(nb):
                if inl[i] and (gt(xb[2*i]**2,16*var) or gt(xb[2*i+1]**2,16*var)): w[i]=-w[i]
            for k,(i,j) in enumerate(pairs):
                if not flags[i] and not flags[j] and gt(xt[k]**2,16*var): flags[i]=flags[j]=True
            if solves>40: return None
    except ArithmeticError: return None
    finally: P.ot=ot0; P.bpool=bp0
def bounded(lib,seed=1,n=150):
    import random, numpy as np
    cnt=0
    for it in range(n):
        rng=random.Random(seed*100003+it); tri=it%2; reject=it%7!=0
        o=dict(Nob=rng.randint(0 if tri else 1,3),Nop=rng.randint(0,2),W=rng.choice((2,4,6)),H=rng.choice((2,5)))
        sels={'do_optimize_extrinsics':True,'do_optimize_frames':rng.random()<.7,'do_apply_regularization':rng.random()<.3}
        if tri: o.update(Not=rng.randint(1,rng.choice((2,16,30))),Nce=rng.randint(1,3))
        else: sels.update(do_optimize_intrinsics_core=rng.random()<.5,do_optimize_intrinsics_distortions=rng.random()<.5,do_optimize_calobject_warp=rng.random()<.5)
        P=optcb.Problem(lib,rng,rng.choice(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4')),sels,**o); g=P.g; N=P.nstate()
        # pack the seed, choose the solution, and observations near it
        ok,b0,_,_=P.call(False)
        if not ok: continue
        b0=b0[:N]; delta=g.normal(0,1e-2,N)*(rng.random()<.7); geo=P.unpack(b0+delta)
        if P.Nob:
            P.bpool[:,:2]=0; wt=P.bpool[:,2].copy(); P.bpool[:,2]=1; q=np.concatenate([f(*geo) for l,f,_ in P.parts() if l.startswith('board')]).reshape(-1,2)
            heavy=g.random(len(q))<rng.choice((0,.02,.1)); P.bpool[:,:2]=q+g.normal(0,1,q.shape)*np.where(heavy,rng.choice((6,30,300)),.5)[:,None]
            P.bpool[:,2]=np.where(g.random(len(q))<.08,wt,np.where(g.random(len(q))<.9,1.,.5))
        if P.ot:
            ot=[]; base=rng.choice((None,1e-5,1e-4,1e-4))
            nonoise=g.uniform(-.8,.8,3)+[0,0,4]
            for c,e,last,outl,px in P.ot:
                if base is not None: E=P.unpack(b0+delta)[1]; px=(rodr(P,E,e)@nonoise+(np.zeros(3) if e<0 else E[e,3:]))*rng.uniform(.2,1.5)
                if last: nonoise=g.uniform(-.8,.8,3)+[0,0,4]
                s=rng.choice((0,1e-4,1e-4,1e-3,1e-3,.1)) if base is None else base*(60 if rng.random()<.03 else 1); ot.append((c,e,last,outl and rng.random()<.5,px+g.normal(0,s,3)*np.linalg.norm(px)))
            P.ot=ot
        geo=P.unpack(b0+delta); want=oracle(P,geo,reject)
        if want is None: continue
        st,k,arrs,flags,b,x=optimize(P,delta,reject); cnt+=1
        w,fl,c,solves,full=want; e=lambda what,got,wn: (cnt,(dict(P.env(),delta=delta.tolist(),reject=reject,seed=seed,problem=it),what,str(got),str(wn)))
        if k!=solves: return e('number of solves (another one is done exactly when new outliers were found)',k,solves)
        if P.Nob and not np.array_equal(arrs[5][:,2],w): return e('weights of the board corners',arrs[5][:,2].tolist(),w.tolist())
        if P.Nob and not np.array_equal(arrs[5][:,:2],P.bpool[:,:2]): return e('pixels of the board corners are not changed','changed','unchanged')
        if flags!=fl: return e('outlier flags of the triangulated observations',flags,fl)
        if reject and (st.nb,st.nt)!=c: return e('numbers of outliers',(st.nb,st.nt),c)
        if N and not np.allclose(b,b0+delta,rtol=1e-12,atol=1e-12): return e('the final packed state is the solution',b.tolist(),(b0+delta).tolist())
        if len(full) and not np.allclose(x[:len(full)],full,rtol=1e-6,atol=1e-6): return e('the final residuals are those of the solution',x.tolist(),full.tolist())
        if not np.allclose(st.rms,np.sqrt((x**2).sum()/len(x)) if len(x) else st.rms,rtol=1e-9,equal_nan=True): return e('RMS error',st.rms,np.sqrt((x**2).sum()/len(x)))
        for nm,got,wn in zip(('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp'),arrs,geo):
            if nm=='calobject_warp' and not P.warp: continue
            if not np.allclose(got,wn,rtol=1e-12,atol=1e-12): return e('%s of the solution'%nm,got.tolist(),wn.tolist())
    for it in range(2*n): # one pass over prescribed residuals
        rng=random.Random(seed*100019+it)
        P=optcb.Problem(lib,rng,'LENSMODEL_PINHOLE',{'do_optimize_extrinsics':True,'do_optimize_frames':True},Nob=rng.randint(0,3),Nop=rng.randint(0,2),W=rng.choice((2,6)),H=rng.choice((3,5)),Nce=rng.randint(1,3),Not=rng.choice((0,1,3,30))); g=P.g; N=P.nstate()
        ok,b0,_,_=P.call(False)
        if not ok: continue
        delta=np.zeros(N); E=P.unpack(b0[:N])[1]; tp=g.uniform(-.8,.8,3)+[0,0,4]; ot=[]
        for c,e,last,outl,px in P.ot:
            ot.append((c,e,last,outl and rng.random()<.2,(rodr(P,E,e)@tp+(np.zeros(3) if e<0 else E[e,3:]))*rng.uniform(.2,1.5)*(-1 if rng.random()<.01 else 1)))
            if last: tp=g.uniform(-.8,.8,3)+[0,0,4]
        P.ot=ot; P.bpool[:,2]=np.where(g.random(len(P.bpool))<.1,P.bpool[:,2],1.)
        M=P.M; X=g.normal(0,1,M)*rng.choice((1e-3,1,100)); sd=X.std() if M>1 else 1
        for i in range(M):
            if rng.random()<rng.choice((0,.02,.1)): X[i]=rng.choice((1,-1))*sd*rng.uniform(3.5,7)
        want=oracle(P,P.unpack(b0[:N]),True,X)
        if want is None: continue
        st,k,arrs,flags,b,x=optimize(P,delta,True,1,X); cnt+=1
        w,fl,c,solves,full=want; e=lambda what,got,wn: (cnt,(dict(P.env(),x=X.tolist(),seed=seed,residuals=it),what,str(got),str(wn)))
        if P.Nob and not np.array_equal(arrs[5][:,2],w): return e('weights of the board corners after one pass',arrs[5][:,2].tolist(),w.tolist())
        if flags!=fl: return e('outlier flags of the triangulated observations after one pass',flags,fl)
        if (st.rms<0)!=(c is None): return e('another solve is wanted exactly when new outliers were found',st.rms<0,c is None)
        if c is not None and (st.nb,st.nt)!=c: return e('numbers of outliers',(st.nb,st.nt),c)
    return cnt,None
def tasks(thorough):
    mods=build.modules(['mrcal.c']); out=[]; build.replay_lib(); lensmodel_bytes('LENSMODEL_PINHOLE'); dogleg_layout(); obs_layout(); lib=stublib(); memo={}
    def fb():
        if 'r' not in memo: memo['r']=bounded(lib,report.SEED,2000 if thorough else 400)
        return memo['r']
    for c in configs(thorough): out.append(Task('mrcal_optimize '+c.label(),lambda c=c: verify(mods,c),fb))
    def bt():
        k,v=fb()
        if v: raise Undecided('differs')
        return [Res('bounded','outlier passes to the end, against an independent model, with a stub solver','compiled code, %d problems'%k)],set(),0
    out.append(Task('whole outlier rejection',bt,fb))
    return out
