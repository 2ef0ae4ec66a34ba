"""C08: the splined stereographic model: B-spline surface, clamping, gradients, control-point indices, knots."""
import direct, sym as S, build, contract as C, report, prove, ctypes, numpy as np
from fractions import Fraction
from contract import Res, IN
from direct import Ptr, NULL, D8, I32
from sym import rcmp, icmp, cnot, cand, cor, isym, iadd, imul
from report import Task
c=S.const
def trunc(x): return S.fn('trunc',x)
def basis(order,t):
    """uniform B-spline basis, t in the parameter of the code: [0,1] within the central interval (cubic), [-1/2,1/2] around the central knot (quadratic)"""
    if order==3:
        u=S.ONE-t; return [u*u*u/c(6),(c(3)*t*t*t-c(6)*t*t+c(4))/c(6),(c(-3)*t*t*t+c(3)*t*t+c(3)*t+S.ONE)/c(6),t*t*t/c(6)]
    h=c(Fraction(1,2)); return [(h-t)*(h-t)/c(2),c(Fraction(3,4))-t*t,(h+t)*(h+t)/c(2)]
def basis_lemmas():
    def fn():
        t=S.sym('t'); pr=[]
        for o in 2,3:
            B=basis(o,t); n=len(B); lo,hi=(c(0),c(1)) if o==3 else (c(Fraction(-1,2)),c(Fraction(1,2)))
            pr.append(('order %d: partition of unity'%o,sum(B,S.ZERO),S.ONE))
            # the pieces join with o-1 continuous derivatives: piece i at its end is piece i-1 at its start
            D=B
            for k in range(o):
                for i in range(1,n): pr.append(('order %d: derivative %d continuous, piece %d'%(o,k,i),S.subst([D[i]],{t:hi})[0],S.subst([D[i-1]],{t:lo})[0]))
                for i,x in ((0,hi),(n-1,lo)): pr.append(('order %d: derivative %d, local support, piece %d'%(o,k,i),S.subst([D[i]],{t:x})[0],S.ZERO))
                D=S.diff(D,t)
            # linear precision: control points equal to their knot positions reproduce the position
            pos=[i-1 for i in range(n)]; pr.append(('order %d: linear precision'%o,sum((b*c(p) for b,p in zip(B,pos)),S.ZERO),t))
        ok=prove.pit([(x,y) for _,x,y in pr],1)
        return [Res('proved' if o is True else 'undecided','B-spline basis: '+l,'pit') for (l,_,_),o in zip(pr,ok)],set(),0
    return Task('lemma: the basis is the uniform B-spline basis',fn)
Nx,Ny=isym('Nx'),isym('Ny'); spu=S.sym('spu'); p3=[S.sym('p[%d]'%i) for i in range(3)]
def stereo(p):
    n=S.sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]); s=c(2)/(n+p[2]); return [p[0]*s,p[1]*s]
def grid(u,N): return u*spu+(S.R(N)-S.ONE)/c(2)
def seg(order,x): return trunc(x) if order==3 else trunc(x+c(Fraction(1,2)))
def last(order,N): return iadd(N,-3 if order==3 else -2)
def run_point(mods,order,identity,grads):
    IV=('iv',); nm='intrinsics'; L='_project_point_splined<order %d,%s,%s>'%(order,'camera at reference' if identity else 'posed camera','gradients' if grads else 'no gradients')
    h=direct.H(mods); reads=[]
    import loops
    def cp(off,ty):
        q=off if isinstance(off,int) else None
        if q is not None: return S.sym('intrinsics[%d]'%(q//8))
        k=loops.exdiv(off,8)
        if k is None: raise direct.Undecided('control point at a fractional index')
        reads.append(k); return loops.elem('intrinsics',k)
    inn=h.obj(nm,None,'in',cp)
    q=h.dbl('q',2,'out'); f=h.dbl('dq_dfxy',2,'out') if grads else NULL; g=h.dbl('ABCD',8,'out'); iv=h.obj('ivar0',4,'out')
    outs={}; O=lambda n: h.dbl(n,6,'out')
    names=['dq_drcamera','dq_dtcamera','dq_drframe','dq_dtframe']; G=[O(n) if grads else NULL for n in names]
    Dn=['dp_drc','dp_dtc','dp_drf','dp_dtf']
    Dp=[NULL if identity and n!='dp_drf' else h.dbl(n,9) for n in Dn]
    pp=h.dbls('p',p3)
    pre=[icmp('le',4 if order==3 else 3,Nx),icmp('le',4 if order==3 else 3,Ny),icmp('le',Nx,65535),icmp('le',Ny,65535),rcmp('lt',S.ZERO,spu)]
    h.assume(*pre)
    done=h.call('_project_point_splined',[q,f,g,iv]+G+[pp]+Dp+[inn,int(identity),order,Nx,Ny,spu])
    u=stereo(p3); w=[grid(u[0],Nx),grid(u[1],Ny)]; s0=[seg(order,x) for x in w]; n=order+1
    names_q={'sx':s0[0],'sy':s0[1]}
    def case(a,b):
        """a,b: low/mid/high along x,y"""
        i0=[]; gd=[]
        for k,(m,N) in enumerate(((a,Nx),(b,Ny))):
            e=s0[k]; lo=rcmp('lt',e,S.ONE); hi=rcmp('lt',S.R(last(order,N)),e)
            i0.append(S.ONE if m=='low' else S.R(last(order,N)) if m=='high' else e); gd+=[lo] if m=='low' else [cnot(lo),hi] if m=='high' else [cnot(lo),cnot(hi)]
        ivr=c(4)+c(2)*((i0[1]-S.ONE)*S.R(Nx)+(i0[0]-S.ONE))
        def want(st):
            try: K=h.rd(st,'ivar0',0,I32)
            except direct.Undecided: return None
            du=[S.ZERO,S.ZERO]; X=[S.sym('$X'),S.sym('$Y')]; I0=[S.sym('$i0'),S.sym('$i1')]
            Bx,By=basis(order,w[0]-I0[0]),basis(order,w[1]-I0[1]); fx=[IN('intrinsics',i) for i in range(4)]
            for j in range(n):
                for i in range(n):
                    for k in 0,1: du[k]=du[k]+Bx[i]*By[j]*loops.elem('intrinsics',iadd(K,iadd(imul(Nx,2*j),2*i+k)))
            Q=[(u[k]+du[k])*fx[k]+fx[2+k] for k in (0,1)]
            o={'q[%d]'%k:Q[k] for k in (0,1)}; o['ivar0']=ivr
            for i in range(n): o['ABCD[%d]'%i]=Bx[i]; o['ABCD[%d]'%(n+i)]=By[i]
            if grads:
                for k in 0,1: o['dq_dfxy[%d]'%k]=u[k]+du[k]
                J=[[S.diff([Q[k]],p3[i])[0] for i in range(3)] for k in (0,1)]
                for z,(on,dn) in enumerate(zip(names,Dn)):
                    for k in 0,1:
                        for e in range(3):
                            if Dp[z] is not NULL: v=sum((J[k][i]*IN(dn,3*i+e) for i in range(3)),S.ZERO)
                            elif on=='dq_dtframe': v=J[k][e]
                            else: v=S.ZERO
                            o['%s[%d,%d]'%(on,k,e)]=v
            ks=list(o); vs=S.subst([o[x] for x in ks],dict(zip(I0,i0))); return dict(zip(ks,vs))
        return ('x %s, y %s'%(a,b),want,cand(*gd))
    cs=[case(a,b) for a in('mid','low','high') for b in('mid','low','high')]
    def outs(st):
        o={'q[%d]'%k:h.rd(st,'q',8*k) for k in (0,1)}; o['ivar0']=S.R(h.rd(st,'ivar0',0,I32))
        for i in range(2*n): o['ABCD[%d]'%i]=h.rd(st,'ABCD',8*i)
        if grads:
            for k in 0,1: o['dq_dfxy[%d]'%k]=h.rd(st,'dq_dfxy',8*k)
            for on in names:
                for k in 0,1:
                    for e in range(3): o['%s[%d,%d]'%(on,k,e)]=S.R(h.rd(st,on,8*(3*k+e)))
        return o
    rs,called,np_=direct.check(h,done,L,outs,cs,named=names_q)
    rs.append(in_bounds(order,reads,L))
    return rs,called,np_
def in_bounds(order,reads,L):
    """every control point read lies within the parameter vector: the index is 4+2(r Nx+col)+k with 0<=r<Ny, 0<=col<Nx"""
    # lemma over the clamped segment: 1<=ix0<=Nx-3 (order 3)
    import z3
    a,b,X,Y,i,j,k=z3.Ints('ix0 iy0 Nx Ny i j k'); m=3 if order==3 else 2
    s=z3.Solver(); s.set('timeout',10000)
    r,cc=b-1+j,a-1+i
    s.add(X>=m+1,Y>=m+1,a>=1,a<=X-m,b>=1,b<=Y-m,i>=0,i<=order,j>=0,j<=order,k>=0,k<=1,(Y-1-r)*X>=0,r*X>=0,z3.Or(4+2*(r*X+cc)+k<4,4+2*(r*X+cc)+k>=4+2*X*Y))
    ok=s.check()==z3.unsat
    return Res('proved' if ok else 'undecided',L+': control points within the parameter vector','z3')
def run_knots(mods,order):
    import stereo
    if not stereo.ENUM: stereo.read_enum()
    h=direct.H(mods,loop=True); fov=isym('fov'); off=config_offsets()
    lm=h.fields('lensmodel',64,{0:stereo.ENUM['SPLINED_STEREOGRAPHIC'],off['order']:order,off['Nx']:Nx,off['Ny']:Ny,off['fov_x_deg']:fov})
    ux,uy=h.obj('ux',None,'out'),h.obj('uy',None,'out'); m=4 if order==3 else 3
    h.assume(icmp('le',m,Nx),icmp('le',m,Ny),icmp('le',Nx,65535),icmp('le',Ny,65535),icmp('le',1,fov),icmp('le',fov,65535))
    done=h.call('mrcal_knots_for_splined_models',[ux,uy,lm])
    import contract
    PI=S.sym('$pi'); edge=S.fn('tan',S.R(fov)/c(2)*PI/c(180)/c(2))*c(2)      # half width of the stereographic image of the field of view
    spu_=(S.R(Nx)-c(1 if order==3 else 1)-c(2 if order==3 else 1))/(edge*c(2)); e=isym('e'); rs=[]; L='mrcal_knots_for_splined_models<order %d>'%order
    k=0
    for st in done:
        if st.viol: rs.append(Res('undecided',L+': memory safety','engine',str(st.viol[0])[:200])); continue
        if not loops.iconsistent(st.path): continue
        k+=1
        for on,N in(('ux',Nx),('uy',Ny)):
            s=st.copy(); s.assume(icmp('le',0,e)); s.assume(icmp('lt',e,N))
            got=contract.load_all(h.ex,h.m,s,{on:(Ptr(h.objs[on].obj,imul(e,8)),D8)})
            want=(S.R(e)-(S.R(N)-S.ONE)/c(2))/spu_
            for s2,v in got:
                ok=prove.pit([(S.R(v[on]),want)],1)
                # the knot is where the projection's grid coordinate is the knot index
                ok2=prove.pit([(S.R(v[on])*spu_+(S.R(N)-S.ONE)/c(2),S.R(e))],1)
                rs+=[Res('proved' if ok[0] is True else 'undecided','%s: %s[e]'%(L,on),'pit'),Res('proved' if ok2[0] is True else 'undecided','%s: %s[e] is where the projection has grid coordinate e'%(L,on),'pit')]
        rs.append(Res('proved' if prove.pit([(S.R(st.ret),S.ONE)],1)[0] is True else 'undecided',L+': ret','pit'))
    if not k: rs.append(Res('undecided',L,'vacuity','no path'))
    return rs,h.ex.called,len(done)
import loops
OFF={}
def config_offsets():
    if not OFF:
        d=build.scratch(); fs=['order','Nx','Ny','fov_x_deg']
        open(d+'/o.c','w').write('#include <stdio.h>\n#include <stddef.h>\n#include "mrcal.h"\nint main(void){'+''.join('printf("%s %%d\\n",(int)offsetof(mrcal_lensmodel_t,LENSMODEL_SPLINED_STEREOGRAPHIC__config.%s));'%(f,f) for f in fs)+'}')
        build.sh(['gcc','-w']+build.inc()+[d+'/o.c','-o',d+'/o']); import subprocess
        for l in subprocess.run([d+'/o'],capture_output=True,text=True).stdout.split('\n'):
            if l.strip(): a,b=l.split(); OFF[a]=int(b)
    return OFF
def run_precompute(mods,order):
    """segments_per_u used by the projection is the one the knots use"""
    import stereo
    if not stereo.ENUM: stereo.read_enum()
    h=direct.H(mods); fov=isym('fov'); off=config_offsets(); m=4 if order==3 else 3
    lm=h.fields('lensmodel',64,{0:stereo.ENUM['SPLINED_STEREOGRAPHIC'],off['order']:order,off['Nx']:Nx,off['Ny']:Ny,off['fov_x_deg']:fov}); o=h.obj('pre',64,'out')
    h.assume(icmp('le',m,Nx),icmp('le',m,Ny),icmp('le',Nx,65535),icmp('le',Ny,65535),icmp('le',1,fov),icmp('le',fov,65535))
    done=h.call('_mrcal_precompute_lensmodel_data',[o,lm]); PI=S.sym('$pi'); edge=S.fn('tan',S.R(fov)/c(2)*PI/c(180)/c(2))*c(2)
    want=(S.R(Nx)-c(3 if order==3 else 2))/(edge*c(2))
    def outs(st):
        v=[x[1] for a,x in st.o(o.obj).cells.items() if x[0]==8]; return {'segments_per_u':v[0]} if len(v)==1 else {}
    return direct.check(h,done,'_mrcal_precompute_lensmodel_data<order %d>'%order,outs,[('segments per u',{'segments_per_u':want},True)])
# ---------------------------------------------------------------- bounded: the compiled library against numpy
def np_basis(order,t): return np.array([(1-t)**3/6,(3*t**3-6*t*t+4)/6,(-3*t**3+3*t*t+3*t+1)/6,t**3/6]) if order==3 else np.array([(.5-t)**2/2,.75-t*t,(.5+t)**2/2])
def np_dbasis(order,t): return np.array([-(1-t)**2/2,(9*t*t-12*t)/6,(-9*t*t+6*t+3)/6,t*t/2]) if order==3 else np.array([t-.5,-2*t,t+.5])
def model(order,nx,ny,fov):
    b=np.zeros(64,np.uint8); o=config_offsets(); import stereo
    b[:4].view(np.int32)[0]=stereo.ENUM['SPLINED_STEREOGRAPHIC']
    for k,v in(('order',order),('Nx',nx),('Ny',ny),('fov_x_deg',fov)): b[o[k]:o[k]+2].view(np.uint16)[0]=v
    return b
def np_spu(order,nx,fov): return (nx-(3 if order==3 else 2))/(4*np.tan(fov*np.pi/720))
def np_splined(order,nx,ny,spu,I,p):
    n=np.linalg.norm(p); s=2/(n+p[2]); u=p[:2]*s; du=np.zeros((2,3)); A=-s*s/2; B=A/n
    for k in 0,1: du[k]=p[k]*(B*p+np.array([0,0,A])); du[k,k]+=s
    w=u*spu+(np.array([nx,ny])-1)/2.; m=3 if order==3 else 2
    i0=np.clip([int(x if order==3 else x+.5) for x in w],1,[nx-m,ny-m]); t=w-i0; Bx,By,dBx,dBy=np_basis(order,t[0]),np_basis(order,t[1]),np_dbasis(order,t[0]),np_dbasis(order,t[1])
    cpt=I[4:].reshape(ny,nx,2)[i0[1]-1:i0[1]+order,i0[0]-1:i0[0]+order]
    d=np.einsum('i,j,jik->k',Bx,By,cpt); gx=np.einsum('i,j,jik->k',dBx,By,cpt)*spu; gy=np.einsum('i,j,jik->k',Bx,dBy,cpt)*spu
    q=(u+d)*I[:2]+I[2:4]; Jp=np.array([I[k]*(du[k]+gx[k]*du[0]+gy[k]*du[1]) for k in(0,1)])
    Ji=np.zeros((2,len(I))); Ji[0,0],Ji[1,1],Ji[0,2],Ji[1,3]=u[0]+d[0],u[1]+d[1],1,1
    for k in 0,1:
        G=np.zeros((ny,nx,2)); G[i0[1]-1:i0[1]+order,i0[0]-1:i0[0]+order,k]=np.outer(By,Bx)*I[k]; Ji[k,4:]+=G.ravel()
    return q,Jp,Ji,w
def bounded(lib,seed=1,n=160):
    import stereo
    if not stereo.ENUM: stereo.read_enum()
    rng=np.random.default_rng(seed); cnt=0; dp=lambda a: a.ctypes.data_as(ctypes.c_void_p)
    for k in range(n):
        order=2+k%2; nx,ny=int(rng.integers(4,9)),int(rng.integers(4,8)); fov=int(rng.choice([60,120,200])); lm=model(order,nx,ny,fov); NI=4+2*nx*ny; I=np.r_[1000.,1100,500,400,rng.uniform(-.1,.1,NI-4)]
        spu_=np_spu(order,nx,fov); ux,uy=np.zeros(nx),np.zeros(ny); env={'order':order,'Nx':nx,'Ny':ny,'fov_x_deg':fov,'intrinsics':I.tolist()}
        lib.mrcal_knots_for_splined_models.restype=ctypes.c_bool; ok=lib.mrcal_knots_for_splined_models(dp(ux),dp(uy),dp(lm)); cnt+=nx+ny
        for a,b,l in((ux,(np.arange(nx)-(nx-1)/2)/spu_,'ux'),(uy,(np.arange(ny)-(ny-1)/2)/spu_,'uy')):
            if not ok or not np.allclose(a,b,rtol=1e-9,atol=1e-12): return cnt,(env,'knots: '+l,a.tolist(),b.tolist())
        N=1+k%4; p=np.zeros((N,3)); lim=3.*np.array([nx,ny])/spu_/2
        uu=rng.uniform(-1,1,(N,2))*lim*rng.choice([.4,.6],(N,1)); p[:,:2]=uu; p[:,2]=1-(uu**2).sum(-1)/4; p*=rng.uniform(.5,10,(N,1))
        for gr in 0,1,2,3:
            q=np.full((N,2),np.nan); dqp=np.full((N,2,3),np.nan); dqi=np.full((N,2,NI),np.nan); lib.mrcal_project.restype=ctypes.c_bool
            lib.mrcal_project(dp(q),dp(dqp) if gr&1 else None,dp(dqi) if gr&2 else None,dp(p),ctypes.c_int(N),dp(lm),dp(I))
            for i in range(N):
                Q,Jp,Ji,w=np_splined(order,nx,ny,spu_,I,p[i]); e=dict(env,point=p[i].tolist(),index=i,npoints=N,gradients=gr)
                if np.any(np.abs(w*2-np.round(w*2))<1e-6): continue
                for got,want,l in [(q[i],Q,'q')]+([(dqp[i],Jp,'dq_dp')] if gr&1 else [])+([(dqi[i],Ji,'dq_dintrinsics')] if gr&2 else []):
                    cnt+=want.size
                    if not np.allclose(got,want,rtol=1e-6,atol=1e-6): 
                        j=np.unravel_index(np.argmax(~np.isclose(got,want,rtol=1e-6,atol=1e-6)),want.shape); return cnt,(e,'mrcal_project (splined): %s%s'%(l,list(map(int,j))),float(got[j]),float(want[j]))
    return cnt,None
def bounded_task(lib):
    """values, gradients and control-point columns of mrcal_project() on the compiled code"""
    def fn():
        k,v=bounded(lib,report.SEED,60)
        if v: raise C.Undecided('differs')
        return [Res('bounded','mrcal_project of the splined model scatters the gradients into the right columns','compiled code, %d comparisons'%k)],set(),0
    return Task('mrcal_project<SPLINED_STEREOGRAPHIC> (bounded)',fn)
def tasks(thorough):
    lib=C.load_lib(); mods=build.modules(['mrcal.c','poseutils.c']); out=[basis_lemmas()]
    import stereo
    stereo.read_enum(); config_offsets()
    for o in 2,3:
        for ident in 0,1:
            for g in 0,1: out.append(Task('_project_point_splined<order %d,%s,%s>'%(o,'camera at reference' if ident else 'posed camera','gradients' if g else 'no gradients'),lambda o=o,i=ident,g=g: run_point(mods,o,i,g)))
        out.append(Task('mrcal_knots_for_splined_models<order %d>'%o,lambda o=o: run_knots(mods,o)))
        out.append(Task('_mrcal_precompute_lensmodel_data<order %d>'%o,lambda o=o: run_precompute(mods,o)))
    out.append(bounded_task(lib))
    for t in out:
        if not t.label.startswith('lemma'): t.fallback=lambda: bounded(lib,report.SEED)
    return out
