"""C17: mrcal_align_procrustes_vectors_R01, mrcal_align_procrustes_points_Rt01 (poseutils.c)."""
import sym as S, build, contract as C, report, prove, direct, loops, execu, ctypes, random, numpy as np
from report import Task
from contract import Res, Undecided
from execu import Obj, Ptr, NULL
from sym import isym, icmp, iadd, imul, cand, cnot, rcmp
D8=('double',); I32=('int',32); N=isym('N'); c=S.const; e_=isym('e')
def ul(i,j): return S.sym('Ul[%d,%d]'%(i,j))
def vl(i,j): return S.sym('Vl[%d,%d]'%(i,j))
def sv(i): return S.sym('sigma[%d]'%i)
def Rspec(flip): return [[sum((vl(i,k)*ul(j,k) if k<2 or not flip else S.neg(vl(i,k)*ul(j,k)) for k in range(3)),S.ZERO) for j in range(3)] for i in range(3)]
def det3(m): return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0])
def run(mods,points,weighted):
    L='mrcal_align_procrustes_%s<%s>'%('points_Rt01' if points else 'vectors_R01','weighted' if weighted else 'unweighted'); rs=[]; seen=[]
    def put(lab,ok,det=''): rs.append(Res('proved' if ok else 'undecided',L+': '+lab,'pit, z3',det))
    def IN(n,i): return loops.elem(n,i)
    w=IN('weights',e_) if weighted else S.ONE
    def sums(E):
        """sum symbols in E, resolved: name -> (term with the index e)"""
        out={}; work=[E]
        while work:
            for x in S.topo([work.pop()]):
                if x.op=='s' and x.a in loops.SUMS and x not in out:
                    t,k,trip=loops.SUMS[x.a]
                    if trip!=N: raise Undecided('sum over %s terms'%(trip,))
                    t2=idx(t,k); out[x]=t2; work.append(t2)
        return out
    def idx(t,k): return reindex(t,k)
    # what the sums mean
    names={}
    for j in range(3):
        for z in 0,1: names['w p%d[%d]'%(z,j)]=w*IN('p%d'%z,iadd(imul(e_,3),j))
    names['w']=w
    def canon(E):
        """E with every sum replaced by its meaning (sum of a named term)"""
        m={}
        for x,t in sums(E).items():
            for n,g in names.items():
                if prove.pit([(t,g)],1)[0] is True: m[x]=S.sym('SUM '+n) if n!='w' or weighted else S.i2r(N); break
        return S.subst([E],m)[0] if m else E
    SW=S.sym('SUM w') if weighted else S.i2r(N)
    mean=lambda z,j,zero: S.ZERO if not points else S.sym('SUM w p%d[%d]'%(z,j))/(S.ONE if zero else SW)
    def dg(x,st,a,ins):
        g=lambda p,ty=I32: x.load(st,h.m,ty,p)
        jobz=g(a[0],('int',8)); dims=[g(a[k]) for k in(1,2,4,7,9)]
        if jobz!=ord('A') or dims!=[3]*5: raise Undecided('dgesdd arguments %s %s'%(jobz,dims))
        lw=g(a[11])
        if lw==-1:
            x.store(st,h.m,D8,c(150),a[10]); x.store(st,h.m,I32,isym('info_query'),a[13]); return None
        if not(isinstance(lw,int) and lw>=150): raise Undecided('workspace size %s'%lw)
        st.log.append(('svd',[x.load(st,h.m,D8,Ptr(a[3].obj,iadd(a[3].off,8*k))) for k in range(9)]))
        for k in range(9):
            i,j=divmod(k,3); x.store(st,h.m,D8,ul(j,i),Ptr(a[6].obj,iadd(a[6].off,8*k))); x.store(st,h.m,D8,vl(i,j),Ptr(a[8].obj,iadd(a[8].off,8*k)))
            x.store(st,h.m,D8,S.sym('destroyed%d'%k),Ptr(a[3].obj,iadd(a[3].off,8*k)))
        for k in range(3): x.store(st,h.m,D8,sv(k),Ptr(a[5].obj,iadd(a[5].off,8*k)))
        x.store(st,h.m,I32,isym('info'),a[13]); return None
    h=direct.H(mods,over={'dgesdd_':dg},loop=True); h.assume(icmp('le',0,N),icmp('le',N,2**28))
    def arr(n): return h.obj(n,None,'in',lambda off,ty: IN(n,loops.exdiv(off,8) if not isinstance(off,int) else off//8))
    p0,p1=arr('p0'),arr('p1'); wt=arr('weights') if weighted else NULL; R=h.obj('R',96 if points else 72,'out')
    done=h.call('mrcal_align_procrustes_'+('points_Rt01' if points else 'vectors_R01'),[R,N,p0,p1,wt])
    A=Rspec(False); kinds=set(); fact=[rcmp('le',S.ZERO,sv(2)),rcmp('le',sv(2),sv(1)),rcmp('le',sv(1),sv(0))]
    import cases as CA
    for k,st in enumerate(done):
        pl='path %d: '%k
        if st.viol: put(pl+'memory safety and frame',False,str(st.viol[0])[:200]); continue
        cond=[canonc(x,canon) for x in st.path if x is not True]
        ri=[x for x in cond if hasattr(x,'op')]
        if not loops.iconsistent(st.path): continue
        none=loops.iproves(st.path,icmp('eq',N,0)); zero=none or (points and CA.implied(ri,rcmp('eq',SW,S.ZERO)))
        if points and not zero and weighted and not CA.implied(ri,cnot(rcmp('eq',SW,S.ZERO))): put(pl+'weights',False,'sum of the weights'); continue
        for e in st.log:
            good=True
            for q in range(9):
                i,j=divmod(q,3); E=e[1][q]
                ss=[x for x in sums(S.R(E))] 
                if E is S.ZERO and loops.iproves(st.path,icmp('eq',N,0)): continue
                if not(S.R(E).op=='s' and E.a in loops.SUMS and loops.SUMS[E.a][2]==N): good=False; break
                t=canon(idx(loops.SUMS[E.a][0],loops.SUMS[E.a][1])); want=w*(IN('p0',iadd(imul(e_,3),i))-mean(0,i,zero))*(IN('p1',iadd(imul(e_,3),j))-mean(1,j,zero))
                if prove.pit([(t,want)],1)[0] is not True: good=False; break
            put(pl+'the decomposed matrix is sum w (p0-mean0) (p1-mean1)^T',good,str(e[1][q])[:200])
        inf0=loops.iproves(st.path,icmp('eq',isym('info'),0)); infn=loops.iproves(st.path,cnot(icmp('eq',isym('info'),0))) or loops.iproves(st.path,cnot(icmp('eq',isym('info_query'),0)))
        if st.ret in(0,False):
            r0=h.rd(st,'R',0)
            if infn: put(pl+'decomposition failed: reported as a fatal failure',prove.pit([(S.R(r0),S.ONE)],1)[0] is True); kinds.add('fatal')
            else:
                put(pl+'degenerate data: reported as a failure',inf0 and CA.implied(ri,rcmp('lt',sv(1),c(S.Fraction(1,10**12)) if hasattr(S,'Fraction') else c(1e-12))) and prove.pit([(S.R(r0),S.ZERO)],1)[0] is True); kinds.add('degenerate')
            continue
        got=[[S.R(h.rd(st,'R',8*(3*i+j))) for j in range(3)] for i in range(3)]
        put(pl+'success only with a decomposition of rank at least 2',st.ret in(1,True) and len(st.log)==1 and inf0 and CA.implied(ri,rcmp('le',c(S.Fraction(1,10**12)) if hasattr(S,'Fraction') else c(1e-12),sv(1))))
        f=None
        for flip in(False,True):
            sp=Rspec(flip)
            if all(x is True for x in prove.pit([(got[i][j],sp[i][j]) for i in range(3) for j in range(3)],1)): f=flip
        if f is None: put(pl+'rotation',False); continue
        D=det3(A); named={'det':D}
        put(pl+('the least important pair of directions is negated exactly if the product of the singular bases is a reflection'),direct.implied_named([x for x in ri],rcmp('lt',D,S.ZERO) if f else rcmp('le',S.ZERO,D),[],named)); kinds.add(f)
        if points:
            ts=[canon(S.R(h.rd(st,'R',72+8*i))) for i in range(3)]
            put(pl+'translation aligns the means',all(x is True for x in prove.pit([(ts[i],(S.ZERO if none else mean(0,i,zero)-sum((got[i][j]*mean(1,j,zero) for j in range(3)),S.ZERO))) for i in range(3)],1)))
    put('every case occurs',kinds=={'fatal','degenerate',False,True},str(kinds))
    return rs,h.ex.called,len(done)
def canonc(cd,canon):
    if isinstance(cd,bool): return cd
    if cd.op in('r<','r<=','r=='): return rcmp({'r<':'lt','r<=':'le','r==':'eq'}[cd.op],canon(cd.a),S.ZERO)
    if cd.op=='not': return cnot(canonc(cd.a[0],canon))
    if cd.op=='and': return cand(*[canonc(x,canon) for x in cd.a])
    if cd.op=='or': return S.cor(*[canonc(x,canon) for x in cd.a])
    return cd
def reindex(t,k):
    """the term with its bound index named e"""
    return loops.ksubst([t],{k:e_})[0]
# ---------------------------------------------------------------- lemmas
def quat(q):
    n=q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3]; a,b,d,f=q; two=c(2)
    m=[[a*a+b*b-d*d-f*f,two*(b*d-a*f),two*(b*f+a*d)],[two*(b*d+a*f),a*a-b*b+d*d-f*f,two*(d*f-a*b)],[two*(b*f-a*d),two*(d*f+a*b),a*a-b*b-d*d+f*f]]
    return [[x/n for x in r] for r in m]
def lemmas():
    def fn():
        rs=[]
        def put(lab,ok): rs.append(Res('proved' if ok else 'undecided','lemma: '+lab,'pit'))
        QU=quat([S.sym('qu%d'%i) for i in range(4)]); QV=quat([S.sym('qv%d'%i) for i in range(4)])
        for su in 1,-1:
            for s2 in 1,-1:
                m={ul(i,j):QU[i][j]*c(su) for i in range(3) for j in range(3)}; m.update({vl(i,j):QV[i][j]*c(s2) for i in range(3) for j in range(3)})
                d0=S.subst([det3(Rspec(False))],m)[0]; put('the product of two orthogonal bases has determinant %+d (handedness %+d, %+d)'%(su*s2,su,s2),prove.pit([(d0,c(su*s2))],1)[0] is True)
                flip=su*s2<0; Rr=Rspec(flip); el=S.subst([Rr[i][j] for i in range(3) for j in range(3)],m); Rm=[el[0:3],el[3:6],el[6:9]]
                put('the result is a proper rotation (handedness %+d, %+d)'%(su,s2),all(x is True for x in prove.pit([(sum((Rm[i][k]*Rm[j][k] for k in range(3)),S.ZERO),S.ONE if i==j else S.ZERO) for i in range(3) for j in range(i,3)]+[(det3(Rm),S.ONE)],1)))
                # tr(R^T M) with M = V S U^T, for any rotation Rx: substitute Q = V^T Rx U
                dd=-1 if flip else 1
                tr=S.subst([sum((Rr[i][j]*sum((vl(i,k)*sv(k)*ul(j,k) for k in range(3)),S.ZERO) for i in range(3) for j in range(3)),S.ZERO)],m)[0]
                put('the trace reached is s0+s1%+d s2 (handedness %+d, %+d)'%(dd,su,s2),prove.pit([(tr,sv(0)+sv(1)+c(dd)*sv(2))],1)[0] is True)
                Rx=quat([S.sym('qx%d'%i) for i in range(4)]); qq=quat([S.sym('qq%d'%i) for i in range(4)])
                # any rotation is V^T Q U-composed: with R = V Q U^T, Q = d * rotation
                RQ=[[sum((vl(i,k)*c(dd)*qq[k][l]*ul(j,l) for k in range(3) for l in range(3)),S.ZERO) for j in range(3)] for i in range(3)]
                trq=S.subst([sum((RQ[i][j]*sum((vl(i,k)*sv(k)*ul(j,k) for k in range(3)),S.ZERO) for i in range(3) for j in range(3)),S.ZERO)],m)[0]
                a=[S.sym('qq%d'%i)*S.sym('qq%d'%i) for i in range(4)]; n=a[0]+a[1]+a[2]+a[3]; s0,s1,s2_=sv(0),sv(1),sv(2)
                form=c(dd)*(a[0]*(s0+s1+s2_)+a[1]*(s0-s1-s2_)+a[2]*(s1-s0-s2_)+a[3]*(s2_-s0-s1))/n
                put('the trace of any other rotation in the singular bases (handedness %+d, %+d)'%(su,s2),prove.pit([(trq,form)],1)[0] is True)
        import z3
        s0,s1,s2,a0,a1,a2,a3=z3.Reals('s0 s1 s2 a0 a1 a2 a3'); n=a0+a1+a2+a3
        for dd in 1,-1:
            # per coefficient (linear): the weights a_i are squares
            for lab,co in(('a0',s0+s1+s2),('a1',s0-s1-s2),('a2',s1-s0-s2),('a3',s2-s0-s1)):
                z=z3.Solver(); z.set('timeout',5000); z.add(s0>=s1,s1>=s2,s2>=0,dd*co>s0+s1+dd*s2)
                rs.append(Res('proved' if z.check()==z3.unsat else 'undecided','lemma: no rotation has a larger trace (determinant %+d, coefficient %s)'%(dd,lab),'z3'))
        # the objective
        v=lambda n_: [S.sym('%s%d'%(n_,i)) for i in range(3)]
        p,q,m0,m1,t=v('p'),v('q'),v('m0'),v('m1'),v('t'); w=S.sym('w'); Rr=quat([S.sym('qr%d'%i) for i in range(4)]); R=lambda x: [sum((Rr[i][j]*x[j] for j in range(3)),S.ZERO) for i in range(3)]
        dot=lambda x,y: sum((x[i]*y[i] for i in range(3)),S.ZERO); sub=lambda x,y: [x[i]-y[i] for i in range(3)]
        a,b=sub(p,m0),sub(q,m1); e=sub(sub(m0,R(m1)),t); r=sub(sub(p,R(q)),t)
        put('one term of the error: w|p-Rq-t|^2 = w|a|^2 + w|b|^2 - 2 w a.Rb + w|e|^2 + 2 w a.e - 2 w Rb.e with a=p-mean0, b=q-mean1, e=mean0-R mean1-t; the sums of w a and w b vanish at the weighted means, so the error is least for e=0 and the largest tr(R^T M)',
            prove.pit([(w*dot(r,r),w*dot(a,a)+w*dot(b,b)-c(2)*w*dot(a,R(b))+w*dot(e,e)+c(2)*w*dot(a,e)-c(2)*w*dot(R(b),e))],1)[0] is True)
        return rs,set(),0
    return Task('lemma: the rotation computed is proper and optimal',fn)
# ---------------------------------------------------------------- bounded
def np_kabsch(p0,p1,w,points):
    m0,m1=(w@p0/w.sum(),w@p1/w.sum()) if points else (np.zeros(3),np.zeros(3)); M=(w[:,None]*(p0-m0)).T@(p1-m1); U,s,Vt=np.linalg.svd(M); d=np.linalg.det(U@Vt); R=U@np.diag([1,1,1 if d>0 else -1])@Vt
    return R,m0-R@m1,s
def bounded(lib,seed=1,n=400):
    rng=np.random.default_rng(seed); cnt=0; dp=lambda a: a.ctypes.data_as(ctypes.c_void_p)
    from scipy.spatial.transform import Rotation
    for k in range(n):
        N_=int(rng.integers(1,9)); Rt=Rotation.random(random_state=int(rng.integers(1<<30))).as_matrix(); sc=10.**rng.uniform(-2,2); p1=rng.normal(size=(N_,3))*sc; t=rng.normal(size=3)*10
        kind=['noisy','exact','planar','mirror','line','far','onept','antipodal'][k%8]
        if kind=='planar': p1[:,2]=p1[0,2]
        if kind=='line': p1=p1[0]+np.arange(N_)[:,None]*np.array([1.,2,-.5])*sc
        if kind=='onept': p1=np.tile(p1[:1],(N_,1))
        if kind=='far': p1+=1000
        p0=p1@Rt.T+t
        if kind in('noisy','far'): p0=p0+rng.normal(size=p0.shape)*.3*sc
        if kind=='mirror': p0=(p1*np.array([1,1,-1]))@Rt.T+t+rng.normal(size=p0.shape)*.05*sc
        if kind=='antipodal': p0=-p0
        w=rng.uniform(.1,3,N_)*(rng.random(N_)>.2 if k%3==0 else 1.); w=np.ascontiguousarray(w) if k%5 else None; W=np.ones(N_) if w is None else w
        for points in 0,1:
            a,b=(p0,p1) if points else ((p0-t)/np.linalg.norm(p0-t,axis=-1)[:,None],p1/np.linalg.norm(p1,axis=-1)[:,None]); a,b=np.ascontiguousarray(a),np.ascontiguousarray(b)
            out=np.full(12,np.nan); f=lib.mrcal_align_procrustes_points_Rt01 if points else lib.mrcal_align_procrustes_vectors_R01; f.restype=ctypes.c_bool
            ok=f(dp(out),ctypes.c_int(N_),dp(a),dp(b),dp(w) if w is not None else None); env={'p0':a.tolist(),'p1':b.tolist(),'weights':None if w is None else w.tolist(),'kind':kind,'points':bool(points)}; cnt+=1
            if W.sum()==0:
                if ok: return cnt,(env,'all weights 0: failure',True,False)
                continue
            R,tt,s=np_kabsch(a,b,W,points); scale=max(1,s[0])
            if s[1]<1e-13:
                if ok and s[1]<1e-14: return cnt,(env,'degenerate data: failure reported',True,False)
                continue
            if s[1]<1e-7*scale: continue          # rank decided by rounding
            if not ok: return cnt,(env,'well-defined data: success',False,True)
            G=out[:9].reshape(3,3)
            if np.abs(G@G.T-np.eye(3)).max()>1e-9 or np.linalg.det(G)<.9: return cnt,(env,'a proper rotation',G.tolist(),R.tolist())
            T=out[9:] if points else np.zeros(3); cost=lambda R_,t_: float((W*((a-b@R_.T-t_)**2).sum(-1)).sum()); cg,cw=cost(G,T),cost(R,tt)
            if cg>cw+1e-9*(1+cw+(W*(a**2).sum(-1)).sum()): return cnt,(env,'weighted error of the returned pose is the least possible',cg,cw)
    return cnt,None
def tasks(thorough):
    mods=build.modules(['poseutils.c']); lib=C.load_lib(); out=[lemmas()]
    for p in 0,1:
        for w in 0,1: out.append(Task('mrcal_align_procrustes_%s<%s>'%('points_Rt01' if p else 'vectors_R01','weighted' if w else 'unweighted'),lambda p=p,w=w: run(mods,p,w),lambda: bounded(lib,report.SEED)))
    return out
