"""Contracts of the pose functions (poseutils.h)."""
import ctypes, random
import numpy as np
import sym as S, prove, contract as C
from contract import *
import ival
from spec import *
FILES=['poseutils.c','poseutils-uses-autodiff.cc','poseutils-opencv.c']
V3=[((i,),i) for i in range(3)]
def ins(name,n=3,o=0,j0=0): return [((j0+i,),IN(name,o+i)) for i in range(n)]
def inm(name,r=3,c=3,o=0): return [((i,j),IN(name,o+i,j)) for i in range(r) for j in range(c)]
def small(name,n=3):
    return Near('|%s| small'%name,[norm2(vec(name))],{nm(name,i):C.eps1 for i in range(n)})
def neg_if(c,v): return vneg(v) if c else v
def has(cfg,a): return a not in cfg.null

# ---- inputs for the concrete replay: rotations near the singular magnitudes
AX=[(.6,0.,.8),(.48,-.6,.64),(0.,.6,-.8),(0.05,.06,-.9969453345),(-.8,.6,0.)]
PI=float(np.pi)
MAGS=[0.,1e-12,1e-9,4e-8,1e-6,2e-5,1e-4,9e-3,.1,1.,PI/2,PI-1e-4,PI-3e-9,PI,PI+3e-9,2*PI-1e-3,2*PI-3e-9,2*PI]
def sp_rot(*names,mags=None):
    def f(cfg,rng):
        out=[]
        def base():
            e={k:float(v[0]) for k,v in C.draw0(f.con,cfg,rng,1).items()}
            return e
        def put(e,n,v):
            for i in range(3): e[nm(n,i)]=v[i]
        if len(names)==1:
            for m in mags or MAGS:
                for a in AX[:3]:
                    e=base(); put(e,names[0],[m*x for x in a]); out.append(e)
        else:
            for m in MAGS:
                for m1 in [0.,1e-9,4e-8,1e-4,.7,m,-m,2*PI-m,m-2*PI,-m+1e-3,2*PI-m-1e-3,2*PI-m-6e-9,m-2*PI-6e-9,-m+4e-9,m+4e-9]:
                    a=AX[len(out)%3]; e=base(); put(e,names[0],[m*x for x in a]); put(e,names[1],[m1*x for x in a]); out.append(e)
                for d in (0.,1e-9,1e-7):
                    for k in 0,1:
                        e=base(); put(e,names[k],[m*x for x in (-.8,0.,.6)]); put(e,names[1-k],[(2*PI-d)*x for x in AX[0]]); out.append(e)
                e=base(); put(e,names[0],[m*x for x in AX[0]]); out.append(e)
                e=base(); put(e,names[1],[m*x for x in AX[0]]); out.append(e)
        return out
    return f
def sp_R(Rn):
    def f(cfg,rng):
        out=[]
        for m in MAGS:
            for a in AX+[(1.,0,0),(0,-1.,0),(0,0,1.),(-.6,-.8,0)]:
                e={k:float(v[0]) for k,v in C.draw0(f.con,cfg,rng,1).items()}
                K=np.array([[0,-a[2],a[1]],[a[2],0,-a[0]],[-a[1],a[0],0]]); R=np.eye(3)+np.sin(m)*K+(1-np.cos(m))*K@K
                for i in range(3):
                    for j in range(3): e[nm(Rn,i,j)]=float(R[i,j])
                out.append(e)
        return out
    return f
def k_rotate_R():
    def cl(cfg):
        R=mat('R'); x=vec('x_in')
        M=T(R) if cfg.flags['inverted'] else R
        y=mv(M,x); out=vals('x_out',y)
        if has(cfg,'J_R'): out+=grads('J_R',y,inm('R'))
        if has(cfg,'J_x'): out+=grads('J_x',y,ins('x_in'))
        return out
    return Contract('mrcal_rotate_point_R_full',[Arr('x_out',(3,),'out'),Arr('J_R',(3,3,3),'out',True),Arr('J_x',(3,3),'out',True),Arr('R',(3,3)),Arr('x_in',(3,)),Flag('inverted')],
        cl,{'inverted':[0,1]},inplace=[{'x_out':'x_in'}])
def k_rotate_r():
    def cl(cfg):
        r=vec('r'); x=vec('x_in'); y=mv(rodrigues(neg_if(cfg.flags['inverted'],r)),x); out=vals('x_out',y)
        if has(cfg,'J_r'): out+=grads('J_r',y,ins('r'))
        if has(cfg,'J_x'): out+=grads('J_x',y,ins('x_in'))
        return out
    return Contract('mrcal_rotate_point_r_full',[Arr('x_out',(3,),'out'),Arr('J_r',(3,3),'out',True),Arr('J_x',(3,3),'out',True),Arr('r',(3,)),Arr('x_in',(3,)),Flag('inverted')],
        cl,{'inverted':[0,1]},inplace=[{'x_out':'x_in'},{'x_out':'r'}],regimes=[small('r')],special=sp_rot('r'))
def k_transform_Rt():
    def cl(cfg):
        R=mat('Rt'); t=[IN('Rt',3,i) for i in range(3)]; x=vec('x_in')
        y=mv(T(R),vsub(x,t)) if cfg.flags['inverted'] else vadd(mv(R,x),t)
        out=vals('x_out',y)
        if has(cfg,'J_Rt'): out+=grads('J_Rt',y,inm('Rt',4,3))
        if has(cfg,'J_x'): out+=grads('J_x',y,ins('x_in'))
        return out
    return Contract('mrcal_transform_point_Rt_full',[Arr('x_out',(3,),'out'),Arr('J_Rt',(3,4,3),'out',True),Arr('J_x',(3,3),'out',True),Arr('Rt',(4,3)),Arr('x_in',(3,)),Flag('inverted')],
        cl,{'inverted':[0,1]},inplace=[{'x_out':'x_in'}])
def k_transform_rt():
    def cl(cfg):
        r=vec('rt'); t=vec('rt',3,3); x=vec('x_in')
        y=mv(rodrigues(vneg(r)),vsub(x,t)) if cfg.flags['inverted'] else vadd(mv(rodrigues(r),x),t)
        out=vals('x_out',y)
        if has(cfg,'J_rt'): out+=grads('J_rt',y,ins('rt',6))
        if has(cfg,'J_x'): out+=grads('J_x',y,ins('x_in'))
        return out
    return Contract('mrcal_transform_point_rt_full',[Arr('x_out',(3,),'out'),Arr('J_rt',(3,6),'out',True),Arr('J_x',(3,3),'out',True),Arr('rt',(6,)),Arr('x_in',(3,)),Flag('inverted')],
        cl,{'inverted':[0,1]},inplace=[{'x_out':'x_in'}],regimes=[small('rt')],special=sp_rot('rt'))
def k_identity():
    r=[]
    r.append(Contract('mrcal_identity_R_full',[Arr('R',(3,3),'out')],lambda c: vals('R',I3)))
    r.append(Contract('mrcal_identity_r_full',[Arr('r',(3,),'out')],lambda c: vals('r',[S.ZERO]*3)))
    r.append(Contract('mrcal_identity_Rt_full',[Arr('Rt',(4,3),'out')],lambda c: vals('Rt',I3+[[S.ZERO]*3])))
    r.append(Contract('mrcal_identity_rt_full',[Arr('rt',(6,),'out')],lambda c: vals('rt',[S.ZERO]*6)))
    return r
def k_invert_R():
    return Contract('mrcal_invert_R_full',[Arr('R_out',(3,3),'out'),Arr('R_in',(3,3))],lambda c: vals('R_out',T(mat('R_in'))),inplace=[{'R_out':'R_in'}])
def k_invert_Rt():
    def cl(c):
        R=T(mat('Rt_in')); return vals('Rt_out',R+[vneg(mv(R,[IN('Rt_in',3,i) for i in range(3)]))])
    return Contract('mrcal_invert_Rt_full',[Arr('Rt_out',(4,3),'out'),Arr('Rt_in',(4,3))],cl,inplace=[{'Rt_out':'Rt_in'}])
def k_invert_rt():
    def cl(cfg):
        r=vec('rt_in'); t=vec('rt_in',3,3); y=vneg(mv(rodrigues(vneg(r)),t))
        out=vals('rt_out',vneg(r)+y)
        if has(cfg,'dtout_drin'): out+=grads('dtout_drin',y,ins('rt_in'))
        if has(cfg,'dtout_dtin'): out+=grads('dtout_dtin',y,ins('rt_in',3,3))
        return out
    return Contract('mrcal_invert_rt_full',[Arr('rt_out',(6,),'out'),Arr('dtout_drin',(3,3),'out',True),Arr('dtout_dtin',(3,3),'out',True),Arr('rt_in',(6,))],cl,
                    inplace=[{'rt_out':'rt_in'}],regimes=[small('rt_in')],special=sp_rot('rt_in'))
def k_compose_Rt():
    def cl(cfg):
        f=cfg.flags; P=[]
        for k in '01':
            n='Rt_'+k; R=mat(n); t=[IN(n,3,i) for i in range(3)]
            if f['inverted'+k]: R=T(R); t=vneg(mv(R,t))
            P.append((R,t))
        (R0,t0),(R1,t1)=P
        return vals('Rt_out',mm(R0,R1)+[vadd(mv(R0,t1),t0)])
    return Contract('mrcal_compose_Rt_full',[Arr('Rt_out',(4,3),'out'),Arr('Rt_0',(4,3)),Arr('Rt_1',(4,3)),Flag('inverted0'),Flag('inverted1')],cl,
        {'inverted0':[0,1],'inverted1':[0,1]},inplace=[{'Rt_out':'Rt_0'},{'Rt_out':'Rt_1'}])
# ---- composition of Rodrigues rotations
def cosC(a,b,sg):
    A=S.sqrt(norm2(a))/2; B=S.sqrt(norm2(b))/2
    return S.cos(A)*S.cos(B)-sg*S.sin(A)*S.sin(B)*dot(a,b)/(4*A*B)
def compose_regimes(a,b,rest=()):
    """a,b: names of the arrays holding the two rotations"""
    A,B=vec(a),vec(b)
    def sgn(cfg): return (-1 if cfg.flags['inverted0'] else 1)*(-1 if cfg.flags['inverted1'] else 1)
    def full(m,rng,flip):
        # b random; a = -+b + eps d (composition near identity) ; flip: a adds up to a full turn
        bv=[rng.randrange(1,prove.P) for _ in range(3)]
        mp={}
        for i in range(3): mp[nm(b,i)]=(lambda r,v=bv[i]:(0,[v]))
        k=m.flipsg
        if not flip:
            for i in range(3): mp[nm(a,i)]=(lambda r,v=bv[i]:(0,[(-k*v)%prove.P,r.randrange(1,prove.P)]))
        else:
            # |a|+|b|=2pi, parallel: a = k*(2pi-|b|)/|b| b
            nb=m.sqrt(sum(x*x for x in bv)%prove.P); pi=m.symval('$pi')
            t=rng.randrange(1,prove.P); d=prove.inv(1+t*t); c,s=(1-t*t)*d%prove.P,2*t*d%prove.P
            i2=prove.inv(2); Bh=nb*i2%prove.P; na=(2*pi-nb)%prove.P; Ah=na*i2%prove.P
            m.ang.append([Bh,c,s]); m.ang.append([Ah,(-c)%prove.P,s])
            q=na*prove.inv(nb)%prove.P
            m.sq[na*na%prove.P]=na
            for i in range(3): mp[nm(a,i)]=(lambda r,v=bv[i]:(0,[k*q*v%prove.P,r.randrange(1,prove.P)]))
        return mp
    def mk(flip,sg):
        def setup(m,rng): m.flipsg=sg
        return Near('composition near %s'%('a full turn' if flip else 'identity'),
             lambda cfg:[ (S.ONE+cosC(A,B,sg)) if flip else (S.ONE-cosC(A,B,sg)) ],
             lambda m,rng: full(m,rng,flip),setup=setup,when=lambda cfg: sgn(cfg)==sg)
    def joint(sm,big,sg,flip):
        # rotation sm ->0 while the angle of big -> 2*K*pi  (K even: C~0; K odd: C~pi), any integer K (symbolic), and K=0
        def eps(m,rng):
            mp={nm(sm,i):C.eps1 for i in range(3)}
            while True:
                try:
                    n=[rng.randrange(1,prove.P) for _ in range(3)]; nn=prove._sqrt(sum(x*x for x in n)%prove.P) if hasattr(prove,'_sqrt') else m.sqrt(sum(x*x for x in n)%prove.P); break
                except prove.Retry: continue
            i=prove.inv(nn); n=[x*i%prove.P for x in n]
            K=rng.randrange(1,prove.P); m.ang.append([K,-1%prove.P if flip else 1,0]); m.sq[4*K*K%prove.P]=2*K%prove.P
            a=rng.randrange(1,prove.P)
            for k in range(3): mp[nm(big,k)]=(lambda r,v=n[k]: (0,[2*K*v%prove.P,a*v%prove.P]+[r.randrange(prove.P)]))
            return mp
        both={**{nm(a,i):C.eps1 for i in range(3)},**{nm(b,i):C.eps1 for i in range(3)}}
        return Near('|%s| small and |%s| near %s multiple of 2pi'%(sm,big,'an odd' if flip else 'an even'),
                    lambda cfg:[norm2(vec(sm)),(S.ONE+cosS(A,B,sg,sm==a) if flip else S.ONE-cosS(A,B,sg,sm==a))],[eps]+([] if flip else [both]),when=lambda cfg: sgn(cfg)==sg)
    def cosS(A,B,sg,afirst):
        a_,b_=S.sqrt(norm2(A))/2,S.sqrt(norm2(B))/2
        if afirst: return S.cos(a_)*S.cos(b_)-sg*S.sin(b_)*dot(A,B)/(4*b_)
        return S.cos(a_)*S.cos(b_)-sg*S.sin(a_)*dot(A,B)/(4*a_)
    return [Near('both small',[norm2(A),norm2(B)],{**{nm(a,i):C.eps1 for i in range(3)},**{nm(b,i):C.eps1 for i in range(3)}}),
            small(a),small(b),mk(False,1),mk(False,-1),mk(True,1),mk(True,-1)]+[joint(x,y,sg,fl) for x,y in((a,b),(b,a)) for sg in(1,-1) for fl in(False,True)]
def rot_eq(name,R,o=0):
    M=rodrigues([OUT(name,o+i) for i in range(3)])
    return [('R(%s)[%d,%d] == spec'%(name,i,j),M[i][j],R[i][j],'value') for i in range(3) for j in range(3)]
def rot_grad(name,J,R,inp):
    """the reported gradient is that of the rotation described: dR(r)/dr J == dR/dinput"""
    v=[OUT(name,i) for i in range(3)]; M=[x for row in rodrigues(v) for x in row]; fl=[x for row in R for x in row]
    dM=[S.diff(M,x) for x in v]; out=[]
    for jx,sy in inp:
        d=S.diff(fl,sy)
        for n in range(9):
            l=S.ZERO
            for q in range(3): l=l+dM[q][n]*OUT(J,q,*jx)
            out.append(('dR(%s)/dr %s[:,%s] == dR[%d,%d]/d%s'%(name,J,jx[0],n//3,n%3,sy.a),l,d[n],'grad'))
    return out
def k_compose_r():
    def cl(cfg):
        f=cfg.flags
        spec=mm(rodrigues(neg_if(f['inverted0'],vec('r_0'))),rodrigues(neg_if(f['inverted1'],vec('r_1'))))
        out=rot_eq('r_out',spec)
        o=[((i,),OUT('r_out',i)) for i in range(3)]
        for k in '01':
            if has(cfg,'dr_dr'+k): out+=gradsD('dr_dr'+k,o,ins('r_'+k))+rot_grad('r_out','dr_dr'+k,spec,ins('r_'+k))
        return out
    return Contract('mrcal_compose_r_full',[Arr('r_out',(3,),'out'),Arr('dr_dr0',(3,3),'out',True),Arr('dr_dr1',(3,3),'out',True),Arr('r_0',(3,)),Arr('r_1',(3,)),Flag('inverted0'),Flag('inverted1')],
        cl,{'inverted0':[0,1],'inverted1':[0,1]},inplace=[{'r_out':'r_0'},{'r_out':'r_1'}],regimes=compose_regimes('r_0','r_1'),special=sp_rot('r_0','r_1'))
def k_compose_rt():
    J=['dr_dr0','dr_dr1','dt_dr0','dt_dr1','dt_dt0','dt_dt1']
    def cl(cfg):
        f=cfg.flags; P=[]
        for k in '01':
            r,t=vec('rt_'+k),vec('rt_'+k,3,3)
            if f['inverted'+k]: R=rodrigues(vneg(r)); t=vneg(mv(R,t))
            else: R=rodrigues(r)
            P.append((R,t))
        (R0,t0),(R1,t1)=P; t=vadd(mv(R0,t1),t0)
        out=rot_eq('rt_out',mm(R0,R1))+vals('rt_out',t,o=3)
        o=[((i,),OUT('rt_out',i)) for i in range(3)]
        for k in '01':
            if has(cfg,'dr_dr'+k): out+=gradsD('dr_dr'+k,o,ins('rt_'+k))
            if has(cfg,'dt_dr'+k): out+=grads('dt_dr'+k,t,ins('rt_'+k))
            if has(cfg,'dt_dt'+k): out+=grads('dt_dt'+k,t,ins('rt_'+k,3,3))
        return out
    sets=[(),tuple(J)]+[tuple(j for j in J if j!=k) for k in J]+[(k,) for k in J]
    def filt(c,th):
        if th: return True
        if c.alias and len(c.null) not in(0,6): return False
        return c.layout=='contig' or len(c.null) in(0,6)
    return Contract('mrcal_compose_rt_full',[Arr('rt_out',(6,),'out')]+[Arr(j,(3,3),'out',True) for j in J]+[Arr('rt_0',(6,)),Arr('rt_1',(6,)),Flag('inverted0'),Flag('inverted1')],
        cl,{'inverted0':[0,1],'inverted1':[0,1]},inplace=[{'rt_out':'rt_0'},{'rt_out':'rt_1'}],nulls=sets,case_filter=filt,regimes=compose_regimes('rt_0','rt_1'),special=sp_rot('rt_0','rt_1'))
def k_tiny():
    # the gradient is that of the mathematical composition at r0=0 (r1=0): dR(r01)/dr01 * J == dR(r0)/dr0|_0 R(r1)
    out=[]
    for which,(J,r) in enumerate((('dr_dr0','r_1'),('dr_dr1','r_0'))):
        def cl(cfg,which=which,J=J,r=r):
            v=vec(r); R=rodrigues(v); c=[]
            dR=[S.diff([x for row in R for x in row],v[k]) for k in range(3)]
            for k in range(3):
                e=[S.ONE if i==k else S.ZERO for i in range(3)]
                K=[[S.ZERO,-e[2],e[1]],[e[2],S.ZERO,-e[0]],[-e[1],e[0],S.ZERO]]
                M=mm(K,R) if which==0 else mm(R,K)
                for i in range(3):
                    for j in range(3):
                        l=S.ZERO
                        for q in range(3): l=l+dR[q][3*i+j]*OUT(J,q,k)
                        c.append(('dR/dr %s[:,%d] == d(R0 R1)[%d,%d]'%(J,k,i,j),l,M[i][j],'grad'))
            return c
        out.append(Contract('mrcal_compose_r_tinyr%d_gradientr%d_full'%(which,which),[Arr(J,(3,3),'out'),Arr(r,(3,))],cl,regimes=[small(r)],special=sp_rot(r,mags=[m for m in MAGS if m<2*PI-1e-2])))   # at a full turn the gradient does not exist
    return out
# ---- conversions
def k_R_from_r():
    def cl(cfg):
        R=rodrigues(vec('r')); out=vals('R',R)
        if has(cfg,'J'): out+=grads('J',R,ins('r'))
        return out
    return Contract('mrcal_R_from_r_full',[Arr('R',(3,3),'out'),Arr('J',(3,3,3),'out',True),Arr('r',(3,))],cl,regimes=[small('r')],special=sp_rot('r'))
def k_Rt_from_rt():
    def cl(cfg):
        R=rodrigues(vec('rt')); out=vals('Rt',R+[vec('rt',3,3)])
        if has(cfg,'J_r'): out+=grads('J_r',R,ins('rt'))
        return out
    return Contract('mrcal_Rt_from_rt_full',[Arr('Rt',(4,3),'out'),Arr('J_r',(3,3,3),'out',True),Arr('rt',(6,))],cl,regimes=[small('rt')],special=sp_rot('rt'))
q=[S.sym('q%d'%i) for i in range(4)]
def quatR(q):
    n=dot(q,q); w,x,y,z=q
    return [[(w*w+x*x-y*y-z*z)/n,2*(x*y-w*z)/n,2*(x*z+w*y)/n],[2*(x*y+w*z)/n,(w*w-x*x+y*y-z*z)/n,2*(y*z-w*x)/n],[2*(x*z-w*y)/n,2*(y*z+w*x)/n,(w*w-x*x-y*y+z*z)/n]]
def R_from_r_summary(x,st,vals,ins):
    """the contract of mrcal_R_from_r_full (proved from its body in C04): used at call sites with dense arguments"""
    R,rs0,rs1,J,j0,j1,j2,r,s0=vals
    def dense(v): 
        if v!=0: raise C.Undecided('summary of R_from_r: strided call')
    for v in(rs0,rs1,j0,j1,j2): dense(v)
    if isinstance(s0,int) and s0<=0: s0=8
    m=x.mods[0]
    rv=[x.load(st,m,('double',),C.Ptr(r.obj,S.iadd(r.off,S.imul(k,s0)))) for k in range(3)]
    M=rodrigues(rv); fl=[e for row in M for e in row]
    sy=[S.sym('$rr%d'%k) for k in range(3)]; fs=[e for row in rodrigues(sy) for e in row]
    for k in range(9): x.store(st,m,('double',),fl[k],C.Ptr(R.obj,S.iadd(R.off,8*k)))
    if J.obj is not None:
        for l in range(3):
            d=S.subst(S.diff(fs,sy[l]),dict(zip(sy,rv)))
            for k in range(9): x.store(st,m,('double',),d[k],C.Ptr(J.obj,S.iadd(J.off,8*(3*k+l))))
    return None
def _rfromR(fname,rn,Rn,Jn,isrt):
    """input: any rotation matrix, written as that of a quaternion q (surjective onto SO(3))"""
    def insub(cfg):
        M=quatR(q); return {IN(Rn,i,j):M[i][j] for i in range(3) for j in range(3)}
    def cl(cfg):
        R=[[IN(Rn,i,j) for j in range(3)] for i in range(3)]
        out=rot_eq(rn,R)
        ro=[OUT(rn,i) for i in range(3)]
        if isrt: out+=vals(rn,[IN(Rn,3,i) for i in range(3)],o=3)
        if has(cfg,Jn):
            M=rodrigues(ro); fl=[x for row in M for x in row]
            dR=[S.diff(fl,ro[k]) for k in range(3)]      # [k][9]
            Jf=lambda k,a: OUT(Jn,k,a//3,a%3)
            for k in range(3):
                for l in range(3):
                    s=S.ZERO
                    for a in range(9): s=s+Jf(k,a)*dR[l][a]
                    out.append(('%s dR/dr == I [%d,%d]'%(Jn,k,l),s,S.ONE if k==l else S.ZERO,'grad'))
            for a in range(9):
                for b in range(a):
                    s=S.ZERO
                    for k in range(3): s=s+dR[k][a]*Jf(k,b)-dR[k][b]*Jf(k,a)
                    out.append(('dR/dr %s symmetric [%d,%d]'%(Jn,a,b),s,S.ZERO,'grad'))
        return out
    Rs=[[IN(Rn,i,j) for j in range(3)] for i in range(3)]
    def costh_(): return (Rs[0][0]+Rs[1][1]+Rs[2][2]-1)/2
    def u_(): return [Rs[2][1]-Rs[1][2],Rs[0][2]-Rs[2][0],Rs[1][0]-Rs[0][1]]
    def n2u_(): return norm2(u_())
    def hints(cfg,p):
        # signs of the roots the path fixes. R is a rotation: (R_ii+1)/2 = (q0^2+qi^2)/|q|^2, R_ij+R_ji = 4 qi qj/|q|^2
        M=quatR(q); nv=S.sqrt(dot(q[1:],q[1:])); pins={}
        ct=(M[0][0]+M[1][1]+M[2][2]-1)/2; u=[M[2][1]-M[1][2],M[0][2]-M[2][0],M[1][0]-M[0][1]]
        iv=ival.bounds(p.allconds,[costh_()]+[Rs[i][i] for i in range(3)]+[Rs[i][j]+Rs[j][i] for i in range(3) for j in range(i)])
        c=iv.get(costh_()); h=[S.sqrt(norm2(u))/2]
        if c[0]>=0: h.append(ct)
        elif c[1]<=0: h.append(-ct)
        if c[1]<0:
            z=[i for i in range(3) if iv.get(Rs[i][i])[0]>-.999]
            if z:
                z=z[0]; h.append(q[1+z]/nv)          # wlog: q and -q are the same rotation
                for j in range(3):
                    if j==z: continue
                    a,b=max(z,j),min(z,j); s=iv.get(Rs[a][b]+Rs[b][a])
                    if C.cond_le(p.allconds,S.ONE+Rs[j][j]): pins[q[1+j]]=S.ZERO; pins[q[0]]=S.ZERO
                    elif s[0]>=0: h.append(q[1+j]/nv)
                    elif s[1]<=0: h.append(-q[1+j]/nv)
        return h,pins
    def eps_pi(m,rng): return {'q0':C.eps1}
    def eps_0(m,rng): return {'q1':C.eps1,'q2':C.eps1,'q3':C.eps1}
    n=dot(q,q)
    reg=[Near('rotation by almost pi',lambda cfg:[S.ONE+costh_()],eps_pi), Near('almost no rotation',lambda cfg:[S.ONE-costh_()],eps_0),
         Near('rotation by almost pi (axis)',lambda cfg:[n2u_()],eps_pi), Near('almost no rotation (axis)',lambda cfg:[n2u_()],eps_0)]
    def sampler(cfg,rng,N):
        qq=rng.standard_normal((N,4)); k=rng.random(N)
        qq[k<.15,0]*=1e-9; qq[(k>.15)&(k<.3),1:]*=1e-9
        qq/=np.sqrt((qq**2).sum(1))[:,None]
        e={'q%d'%i:qq[:,i] for i in range(4)}
        w,x,y,z=qq.T
        M=[[w*w+x*x-y*y-z*z,2*(x*y-w*z),2*(x*z+w*y)],[2*(x*y+w*z),w*w-x*x+y*y-z*z,2*(y*z-w*x)],[2*(x*z-w*y),2*(y*z+w*x),w*w-x*x-y*y+z*z]]
        for i in range(3):
            for j in range(3): e[nm(Rn,i,j)]=M[i][j]
        if isrt:
            for j in range(3): e[nm(Rn,3,j)]=rng.standard_normal(N)
        return e
    return Contract(fname,[Arr(rn,(6,) if isrt else (3,),'out'),Arr(Jn,(3,3,3),'out',True),Arr(Rn,(4,3) if isrt else (3,3))],cl,insub=insub,hints=hints,regimes=reg,special=sp_R(Rn),sampler=sampler,
        lemmas=lambda cfg: [norm2(Rs[i])-S.ONE for i in range(3)]+[n2u_()/4+costh_()*costh_()-S.ONE],over={'mrcal_R_from_r_full':R_from_r_summary})
def k_r_from_R(): return [_rfromR('mrcal_r_from_R_full','r','R','J',False),_rfromR('mrcal_rt_from_Rt_full','rt','Rt','J_R',True)]
def k_R_aligned():
    def cl(cfg):
        Ro=[[OUT('R',i,j) for j in range(3)] for i in range(3)]; v=vec('v')
        RRt=mm(Ro,T(Ro)); c=[]
        for i in range(3):
            for j in range(i,3): c.append(('R orthonormal [%d,%d]'%(i,j),RRt[i][j],I3[i][j],'value'))
        c.append(('det R == 1',dot(Ro[0],cross(Ro[1],Ro[2])),S.ONE,'value'))
        y=mv(Ro,v)
        c+= [('R v == |v| z [%d]'%i,y[i],[S.ZERO,S.ZERO,S.sqrt(norm2(v))][i],'value') for i in range(3)]
        return c
    return Contract('mrcal_R_aligned_to_vector',[Arr('R',(3,3),'out',strided=False),Arr('v',(3,),strided=False)],cl,layouts=('contig',),defined=True,domain=lambda cfg: [rcmp('lt',S.ZERO,norm2(vec('v')))],
        special=lambda cfg,rng: [{'v[%d]'%i:float(w[i]) for i in range(3)} for w in axes3()])
def axes3():
    import itertools
    return [w for w in itertools.product((0.,2.,-2.,1.),repeat=3) if any(w)]
