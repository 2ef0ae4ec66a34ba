"""C12: contract of project() (mrcal.c), the projection of one board or point observation with all its gradients.
compose_rt and R_from_r are replaced by their contracts (opaque values and opaque gradients of their arguments: C01-C04 verify them),
project_cahvore() and _project_point_splined() by theirs (C05, C06, C08); every other lens model is executed.  The specification is the
projection of R(r_joint)(grid point + board shape)+t_joint, its gradients the symbolic derivatives of that composition.
A point is proved; a board is a bounded size (its contents are symbolic), counted as bounded."""
import sym as S, prove, direct, lens
from sym import *
from execu import Ptr, NULL, Undecided
from contract import Res
from spec import dot
from optcb_proof import isnull, NPAR as NP0
D8=direct.D8; I32=direct.I32; V=S.sym; Z=S.ZERO; ONE=S.ONE
NPAR=dict(lens.NPAR); NPAR.update(NP0)
SIMPLE=('LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON') # their projections are opaque here: C07 verifies them
OUTS=('drc','dtc','drf','dtf','dw')
class Run:
    def __init__(s,mods,model,grid,identity,asked,warp=True):
        s.mods=mods; s.model=model; s.W,s.H=grid; s.identity=identity; s.asked=set(asked); s.warp=warp; s.n=NPAR[model]; s.splined='SPLINED' in model; s.cahvore='CAHVORE' in model; s.simple=model.replace('LENSMODEL_','').lower() if model in SIMPLE else None
        if s.splined: c=dict(x.split('=') for x in model.replace('LENSMODEL_SPLINED_STEREOGRAPHIC_','').replace('fov_x_deg','fov').split('_')); s.order,s.Nx,s.Ny=int(c['order']),int(c['Nx']),int(c['Ny'])
    def label(s): return 'project <%s, %s, %s, %s%s>'%(s.model.replace('LENSMODEL_','')[:24],'board %dx%d'%(s.W,s.H) if s.W else 'point','camera at reference' if s.identity else 'posed camera','asked: '+(' '.join(sorted(s.asked)) or 'q'),'' if s.warp else ', flat')
    # contracts
    def rd(s,x,st,p,i): return x.load(st,s.h.m,D8,Ptr(p.obj,S.iadd(p.off,8*i)))
    def wr(s,x,st,p,i,v): x.store(st,s.h.m,D8,v,Ptr(p.obj,S.iadd(p.off,8*i)))
    def compose(s,x,st,a,ins):
        if any(a[i]!=0 for i in(1,3,4,6,7,9,10,12,13,15,16,18,19,21,23)) or a[24] not in(0,False) or a[25] not in(0,False): raise Undecided('compose_rt: strides or inversions')
        r0=[s.rd(x,st,a[20],i) for i in range(6)]; r1=[s.rd(x,st,a[22],i) for i in range(6)]
        if r0!=[V('C%d'%i) for i in range(6)] or r1!=s.fr(): raise Undecided('compose_rt of other poses')
        for i in range(6): s.wr(x,st,a[0],i,V('J%d'%i))
        for k,nm in((2,'drrc'),(5,'drrf'),(8,'dtrc'),(11,None),(14,'I'),(17,'dttf')):
            if isnull(a[k]): continue
            for i in range(3):
                for j in range(3): s.wr(x,st,a[k],3*i+j,Z if nm is None else (ONE if i==j else Z) if nm=='I' else V('%s%d%d'%(nm,i,j)))
    def Rr(s,x,st,a,ins):
        R,_,_,J,j0,j1,j2,r,rs=a
        if any(v!=0 for v in(a[1],a[2],j0,j1,j2,rs)): raise Undecided('R_from_r: strides')
        r=[s.rd(x,st,r,i) for i in range(3)]
        if r!=s.rj()[:3]: raise Undecided('R_from_r of another rotation')
        for i in range(9):
            s.wr(x,st,R,i,V('R%d'%i))
            if not isnull(J):
                for j in range(3): s.wr(x,st,J,3*i+j,V('dR%d.%d'%(i,j)))
    def fr(s): return [V('F%d'%i) if s.W or i>=3 else Z for i in range(6)] # a point has no rotation
    def rj(s): return s.fr() if s.identity else [V('J%d'%i) for i in range(6)]
    def c_simple(s,x,st,a,ins):
        q,J,v,N,f=a
        if N!=1: raise Undecided('lens of many points')
        if [s.rd(x,st,f,i) for i in range(4)]!=[V('intrinsics[%d]'%i) for i in range(4)]: raise Undecided('another lens')
        n=s.jl(st,[s.rd(x,st,v,i) for i in range(3)])
        for y in(0,1):
            s.wr(x,st,q,y,V('%s.q%d'%(n,y)))
            if not isnull(J):
                for i in range(3): s.wr(x,st,J,3*y+i,V('%s.J%d%d'%(n,y,i)))
    def jl(s,st,p):
        """the opaque lens at p"""
        t=st.meta.get('lens',())
        k=len(t); st.meta=dict(st.meta); st.meta['lens']=t+(tuple(p),); return 'L%d'%k
    def grads(s,x,st,n,outs,dps,ident):
        for nm,o,d in zip(('rc','tc','rf','tf'),outs,dps):
            if isnull(o): continue
            if ident and nm in('rc','tc'): continue
            for y in(0,1):
                for e in range(3):
                    if not isnull(d): v=sum((V('%s.J%d%d'%(n,y,i))*s.rd(x,st,d,3*i+e) for i in range(3)),Z)
                    elif nm=='tf': v=V('%s.J%d%d'%(n,y,e))
                    else: v=Z
                    s.wr(x,st,o,3*y+e,v)
    def c_cahvore(s,x,st,a,ins):
        q,f,nc,drc,dtc,drf,dtf,p,a1,a2,a3,a4,intr,ident,lm=a
        if s.fail: return False
        n=s.jl(st,[s.rd(x,st,p,i) for i in range(3)])
        for y in(0,1):
            s.wr(x,st,q,y,V('%s.q%d'%(n,y)))
            if not isnull(f): s.wr(x,st,f,y,V('%s.f%d'%(n,y)))
            if not isnull(nc):
                for j in range(s.n-4): s.wr(x,st,nc,y*(s.n-4)+j,V('%s.k%d.%d'%(n,y,j)))
        s.grads(x,st,n,(drc,dtc,drf,dtf),(a1,a2,a3,a4),ident is True or ident==1)
        return True
    def c_splined(s,x,st,a,ins):
        q,f,ab,iv,drc,dtc,drf,dtf,p,a1,a2,a3,a4,intr,ident,order,nx,ny,spu=a
        if (order,nx,ny)!=(s.order,s.Nx,s.Ny): raise Undecided('splined lens: other configuration')
        n=s.jl(st,[s.rd(x,st,p,i) for i in range(3)])
        for y in(0,1):
            s.wr(x,st,q,y,V('%s.q%d'%(n,y)))
            if not isnull(f): s.wr(x,st,f,y,V('%s.f%d'%(n,y)))
        for j in range(2*(s.order+1)): s.wr(x,st,ab,j,V('%s.ab%d'%(n,j)))
        x.store(st,s.h.m,I32,S.isym('%s.iv'%n),iv)
        s.grads(x,st,n,(drc,dtc,drf,dtf),(a1,a2,a3,a4),ident is True or ident==1)
    def run(s,fail=False):
        s.fail=fail; N=s.N=s.W*s.H if s.W else 1
        over={'mrcal_compose_rt_full':s.compose,'mrcal_R_from_r_full':s.Rr}
        if s.cahvore: over['project_cahvore']=s.c_cahvore
        if s.splined: over['_project_point_splined']=s.c_splined
        if s.simple: over['mrcal_project_'+s.simple]=s.c_simple
        h=s.h=direct.H(s.mods,over); h.m=h.ex.find('project')[0]
        import struct
        lmb=lens.lensmodel_bytes(s.model)
        def lminit(off,ty):
            n={'int':lambda: ty[1]//8,'double':lambda: 8}[ty[0]]()
            return S.from_double(struct.unpack('<d',lmb[off:off+8])[0]) if ty[0]=='double' else int.from_bytes(lmb[off:off+n],'little')
        lm=h.obj('lensmodel',len(lmb),'in',lminit)
        def pinit(off,ty): return 1 if ty[0]=='int' else V('spu')
        pre=h.obj('precomputed',64,'in',pinit)
        q=h.obj('q',16*N,'out'); G=0; full='intr' in s.asked
        G=2+2*(2*(s.order+1) if s.splined else 2*(s.n-4))
        G=2*N+(N*2*(s.order+1) if s.splined else 2*N*(s.n-4))
        pd=h.obj('pool',8*G,'out') if full else NULL; pi=h.obj('pool_int',4*N,'out') if full else NULL
        pf=h.obj('p_dfxy',8,'inout',lambda off,ty: NULL); pn=h.obj('p_nocore',8,'inout',lambda off,ty: NULL); meta=h.obj('meta',16,'inout',lambda off,ty: NULL if ty[0]=='ptr' else 0)
        o={k: (h.obj(k,48*N if k!='dw' else 32*N,'out') if k in s.asked else NULL) for k in OUTS}
        intr=h.obj('intrinsics',8*s.n,'in',lambda off,ty: S.sym('intrinsics[%d]'%(off//8)))
        cam=NULL if s.identity else h.obj('camera',48,'in',lambda off,ty: V('C%d'%(off//8)))
        fr=h.obj('frame',48,'in',lambda off,ty: V('F%d'%(off//8))) if s.W else None
        if fr is None: o_=h.obj('frame',24,'in',lambda off,ty: V('F%d'%(3+off//8))); fr=Ptr(o_.obj,-24) # only the translation exists
        wp=h.obj('warp',16,'in',lambda off,ty: V('W%d'%(off//8))) if s.warp else NULL
        return h.call('project',[q,pd,pi,pf,pn,meta]+[o[k] for k in OUTS]+[intr,cam,fr,wp,int(s.identity),lm,pre,V('spacing') if s.W else Z,s.W,s.H])
    # specification
    def spec(s,st):
        """[(label, got, want)]"""
        h=s.h; out=[]; X=[V('$x%d'%i) for i in range(3)]; K=S.const; n=s.n; opq=s.splined or s.cahvore or s.simple
        R=[[V('R%d'%(3*i+j)) for j in range(3)] for i in range(3)]; t=s.rj()[3:]
        dR=[[[V('dR%d.%d'%(3*i+j,k)) for k in range(3)] for j in range(3)] for i in range(3)]
        M=lambda nm: [[V('%s%d%d'%(nm,i,j)) for j in range(3)] for i in range(3)]
        mm=lambda A,B: [[sum((A[i][k]*B[k][j] for k in range(3)),Z) for j in range(3)] for i in range(3)]
        if not opq:
            ql=lens.distort(s.model,X,[V('intrinsics[%d]'%i) for i in range(4,n)]); ql=[ql[y]*V('intrinsics[%d]'%y)+V('intrinsics[%d]'%(2+y)) for y in(0,1)]
            JX=[[S.diff([ql[y]],X[i])[0] for i in range(3)] for y in(0,1)]; JI=[[S.diff([ql[y]],V('intrinsics[%d]'%j))[0] for j in range(n)] for y in(0,1)]
        pool=('intr' in s.asked)
        if pool:
            pf=h.ex.load(st,h.m,('ptr',),h.objs['p_dfxy']); pn=h.ex.load(st,h.m,('ptr',),h.objs['p_nocore']); pm=h.ex.load(st,h.m,('ptr',),h.objs['meta'])
            if s.splined:
                if h.ex.load(st,h.m,('int',16),Ptr(h.objs['meta'].obj,8))!=s.order+1 or h.ex.load(st,h.m,('int',16),Ptr(h.objs['meta'].obj,10))!=2*s.Nx: raise Undecided('layout of the sparse gradients')
                if not isnull(pn): raise Undecided('dense and sparse gradients')
            elif not isnull(pm): raise Undecided('dense and sparse gradients')
        for i in range(s.N):
            if s.W:
                ix,iy=i%s.W,i//s.W; b=[K(ix)*V('spacing'),K(iy)*V('spacing'),Z]
                from fractions import Fraction as Fr
                u=Fr(ix,s.W-1) if s.W>1 else 0; v=Fr(iy,s.H-1) if s.H>1 else 0; dx=[K(4*u*(1-u)),K(4*v*(1-v))]
                if s.warp: b[2]=V('W0')*dx[0]+V('W1')*dx[1]
            else: b=[Z,Z,Z]
            p=[sum((R[a][j]*b[j] for j in range(3)),Z)+t[a] for a in range(3)]
            lab='point %d: '%i
            if opq:
                fl=s.fail; L=st.meta.get('lens',())
                if not fl:
                    if i>=len(L): raise Undecided('the lens was not evaluated')
                    for a in range(3): out.append((lab+'point in the camera system %d'%a,L[i][a],p[a]))
                nm='L%d'%i; q=[Z if fl else V('%s.q%d'%(nm,y)) for y in(0,1)]; J=[[Z if fl else V('%s.J%d%d'%(nm,y,a)) for a in range(3)] for y in(0,1)]
                fx=[Z if fl else V('%s.f%d'%(nm,y)) for y in(0,1)]; kk=[[Z if fl else V('%s.k%d.%d'%(nm,y,j)) for j in range(n-4)] for y in(0,1)] if s.cahvore else None
                if s.simple: fx=[(q[y]-V('intrinsics[%d]'%(2+y)))/V('intrinsics[%d]'%y) for y in(0,1)]
            else:
                m=dict(zip(X,p)); flat=S.subst(ql+JX[0]+JX[1]+JI[0]+JI[1],m); q=flat[:2]; J=[flat[2:5],flat[5:8]]; ji=[flat[8:8+n],flat[8+n:8+2*n]]; fx=[ji[0][0],ji[1][1]]; kk=[j[4:] for j in ji]
            for y in(0,1): out.append((lab+'q%d'%y,h.rd(st,'q',16*i+8*y),q[y]))
            if pool:
                at=lambda pt,k: h.ex.load(st,h.m,D8,Ptr(pt.obj,S.iadd(pt.off,8*k)))
                for y in(0,1):
                    out.append((lab+'dq%d/df'%y,at(pf,2*i+y),fx[y]))
                    if kk is not None:
                        for j in range(n-4): out.append((lab+'dq%d/d intrinsics %d'%(y,4+j),at(pn,2*(n-4)*i+(n-4)*y+j),kk[y][j]))
                if s.splined:
                    for j in range(2*(s.order+1)): out.append((lab+'basis value %d'%j,at(pm,2*(s.order+1)*i+j),V('%s.ab%d'%(nm,j))))
                    out.append((lab+'first control point',S.R(h.rd(st,'pool_int',4*i,I32)),S.R(S.isym('%s.iv'%nm))))
            def rotg(C=None):
                """d(R b)/d(r): columns"""
                D=[[sum((dR[a][j][k]*b[j] for j in range(3)),Z) for k in range(3)] for a in range(3)]
                return D if C is None else mm(D,C)
            def addm(A,B): return [[x+y for x,y in zip(r1,r2)] for r1,r2 in zip(A,B)]
            Id=[[ONE if a==k else Z for k in range(3)] for a in range(3)]
            if s.identity: P={'drf':rotg(),'dtf':Id}
            else: P={'drc':addm(rotg(M('drrc')),M('dtrc')),'dtc':Id,'drf':rotg(M('drrf')),'dtf':M('dttf')}
            for k,A in P.items():
                if k not in s.asked or (not s.W and k=='drf'): continue
                for y in(0,1):
                    for e in range(3): out.append((lab+'%s[%d,%d]'%(k,y,e),h.rd(st,k,48*i+24*y+8*e),sum((J[y][a]*A[a][e] for a in range(3)),Z)))
            if 'dw' in s.asked and s.W and s.warp:
                for y in(0,1):
                    for e in(0,1): out.append((lab+'dw[%d,%d]'%(y,e),h.rd(st,'dw',32*i+16*y+8*e),sum((J[y][a]*R[a][2] for a in range(3)),Z)*dx[e]))
        return out
def verify(mods,model,grid,identity,asked,warp=True,fail=False):
    r=Run(mods,model,grid,identity,asked,warp); L=r.label()+(' failed projection' if fail else ''); rs=[]; n=0
    done=r.run(fail); h=r.h
    for k,st in enumerate(done):
        pl='%s path %d: '%(L,k)
        if st.viol: rs.append(Res('undecided',pl+'memory safety and frame','engine',str(st.viol[0])[:200])); continue
        n+=1
        try:
            pr=r.spec(st)
            ok=prove.pit([(S.R(a),S.R(b)) for _,a,b in pr],1)
            rs+=[Res(('bounded' if r.W else 'proved') if o is True else 'undecided',pl+l,'pit','' if o is True else str(o)[:150]) for (l,_,_),o in zip(pr,ok)]
        except Undecided as ex: rs.append(Res('undecided',pl+'projection and gradients','engine',str(ex)[:250]))
    if not n: rs.append(Res('undecided',L,'vacuity','no path returns'))
    return rs,h.ex.called,len(done)
SP3,SP2='LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=5_fov_x_deg=120','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=120'
def jobs(thorough):
    A=('intr',)+OUTS; out=[]
    for m in ('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37',SP3,SP2):
        for ident in(False,True):
            out.append((m,(3,2) if m in('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4',SP2) or 'CAHVORE' in m or thorough else (2,2),ident,A,True,False))
            out.append((m,(0,0),ident,A[:-1],False,False))
        out.append((m,(2,2),False,(),True,False))
    m='LENSMODEL_OPENCV4'
    for ident in(False,True):
        for a in A: out.append((m,(2,2),ident,(a,),True,False))
        out.append((m,(3,2),ident,A[:-1],False,False))
        for a in A[:-1]: out.append((m,(0,0),ident,(a,),False,False))
    for a in A: out.append((SP2,(2,2),False,(a,),True,False))
    c='LENSMODEL_CAHVORE_linearity=0.37'
    for ident in(False,True): out.append((c,(3,2),ident,A,True,True)); out.append((c,(0,0),ident,A[:-1],False,True))
    return out
