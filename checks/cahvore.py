"""CAHVORE (C05/C06): the warp (cahvore.cc) and its use in mrcal_project().

1. project_cahvore_internals(): the Newton loop is cut by its invariant.  The loop
   variables at the loop head are arbitrary (th and arbitrary gradients tg); the
   loop is left after an iteration whose step is 0 at the solution, i.e. for e0 such
   that F(th)=0.  Then every output has to be the model's closed form in th, and
   every gradient the total derivative along F=0 (dth = -dF/F_th), whatever the
   gradients held before the iteration.  Convergence itself is not proved.
2. mrcal_project(): checked against the contract of 1 (uninterpreted warp pd with
   uninterpreted Jacobian), for any number of points."""
import ctypes, sym as S, build, contract as C, report, numpy as np, prove, loops, mpmath as mp
from contract import *
from spec import *
from report import Task
import lens
from lens import axis,lm_arg,I
from simple import gvals
TH=S.sym('th')
def F(p,par,th):
    al,be,r0,r1,r2,e0,e1,e2=par; o=axis(al,be); z=dot(p,o); l=S.sqrt(norm2(vsub(p,vsc(z,o)))); t2=th*th
    return z*S.sin(th)-l*S.cos(th)-(th-S.sin(th))*(e0+e1*t2+e2*t2*t2)
def warp(p,par,th,lin):
    al,be,r0,r1,r2,e0,e1,e2=par; o=axis(al,be); z=dot(p,o); ll=vsub(p,vsc(z,o)); l=S.sqrt(norm2(ll))
    chi={'tan':lambda: S.tan(lin*th)/lin,'sin':lambda: S.sin(lin*th)/lin,'id':lambda: th}[lin_kind[0]]()
    c2=chi*chi; mu=r0+r1*c2+r2*c2*c2
    return vadd(vsc(l/chi,o),vsc(S.ONE+mu,ll))
lin_kind=['tan']
def cut(x,st,fr,src,tgt):
    """loop rule for the Newton loop: havoc everything the loop changes, keep the path that leaves it"""
    if '_project_cahvore_internals' not in fr.fn.name: return None
    if st.loops and st.loops[-1].depth==len(st.frames):
        if tgt==st.loops[-1].header: raise loops.StopIter('back',src,tgt)
        if tgt not in st.loops[-1].blocks: raise loops.StopIter('exit',src,tgt)
        return None
    L=loops.natural_loops(fr.fn)
    if tgt not in L or st.loops: return None
    body={b for b in L[tgt]}
    if not any(i.op=='fcmp' for b in body for i in fr.fn.blocks[b]): return None
    if src in L[tgt]: return []
    P=loops.phis(fr,tgt)
    # what does an iteration change?
    s=st.copy(); s.loops=s.loops+[loops.Ctx(len(st.frames),tgt,L[tgt])]; s.log=[]; s.iw=(set(),[])
    f=s.frames[-1]; f.prev=src; f.blk=tgt; f.ip=len(P)
    for p in P: f.env[p.dst]=x.val(st,p.ty,p.a[src])
    work=[s]; back=[]
    while work:
        t=work.pop()
        try: work.extend(x.run1(t,0) or [])
        except loops.StopIter as e:
            if e.kind=='back': back.append((t,e.src))
        except Infeasible: pass
    if not back: raise Undecided('newton loop')
    ch=set()
    for t,_ in back:
        for oid,o in st.mem.items():
            for off,c in t.o(oid).cells.items():
                c0=o.cells.get(off)
                if c0 is None or c0[1] is not c[1]: ch.add((oid,off))
    s=st.copy(); s.meta['cut']=s.meta.get('cut',0)+1
    th=False
    for oid,off in ch:
        o=s.w(oid); c0=st.o(oid).cells.get(off)
        if c0 is None: continue    # a temporary that the iteration defines
        v=c0[1]
        if isinstance(v,E) and v.op=='f' and v.a[0]=='atan2': nv=TH; th=True
        elif isinstance(v,E): nv=S.sym('$hv%d'%next(x.fresh))
        else: nv=isym('$hv%d'%next(x.fresh))
        o.cells[off]=(c0[0],nv)
    f=s.frames[-1]
    for p in P:
        v=x.val(st,p.ty,p.a[src])
        if isinstance(v,E) and v.op=='f' and v.a[0]=='atan2': nv=TH; th=True
        elif isinstance(v,E): nv=S.sym('$hv%d'%next(x.fresh))
        elif isinstance(v,(int,IP)): nv=isym('$hv%d'%next(x.fresh))
        else: raise Undecided('newton loop: pointer variable')
        f.env[p.dst]=nv
    if not th: raise Undecided('newton loop: theta not found')
    f.prev=src; f.blk=tgt; f.ip=len(P)
    # inside: the back edge ends the path (the invariant `anything` is re-established)
    s.meta['cutdone']=True
    return [s]
def handler(x,st,fr,src,tgt):
    r=cut(x,st,fr,src,tgt)
    return r
PS=lambda: [IN('p',i) for i in range(3)]
AS=lambda: [IN('ii',i) for i in range(8)]
def k_warp(kind):
    def cl(cfg):
        lin_kind[0]=kind; lin=S.ZERO if kind=='id' else IN('lin'); p=PS(); a=AS(); w=warp(p,a,TH,lin); f=F(p,a,TH); fth=S.diff([f],TH)[0]; wth=S.diff(w,TH)
        dom=lambda q: not q.st.meta.get('printed') and not small(q)
        out=[('pdistorted[%d] == warp'%i,OUT('pd',i),w[i],'value',dom) for i in range(3)]
        for nme,ys in ('dp',p),('di',a):
            if nme in cfg.null: continue
            for j,y in enumerate(ys):
                dy=S.diff(w+[f],y)
                out+=[('%s[%d,%d] == total derivative'%(nme,i,j),OUT(nme,i,j),dy[i]-wth[i]*dy[3]/fth,'grad',dom) for i in range(3)]
        out+=[('returns true iff a result was produced',OUT('ret'),S.ONE,'value',lambda q: not q.st.meta.get('printed')),('failure is reported',OUT('ret'),S.ZERO,'value',lambda q: bool(q.st.meta.get('printed')))]
        return out
    def small(q):
        """the path is restricted to theta < 1e-5 (near-axis formula; covered by the bounded near-axis points)"""
        if not hasattr(q,'small'):
            n=200; rng=np.random.default_rng(3); env={'th':np.exp(rng.uniform(np.log(1e-5),np.log(1.),n)),'lin':np.full(n,.37 if kind=='tan' else -.5)}
            for i in range(3): env['p[%d]'%i]=rng.standard_normal(n)*.5+(2 if i==2 else 0)
            for i in range(8): env['ii[%d]'%i]=rng.standard_normal(n)*.03
            q.small=False
            for c in C.ival.flat(q.conds):
                c=C.csub(c,insub(None))
                if isinstance(c,bool): continue
                try:
                    e=dict(env); C.extra_env([c.a] if isinstance(c.a,E) else [],e,n,rng)
                    if not prove.NumPy(e,n).cond(c).any(): q.small=True
                except (KeyError,prove.Retry,AttributeError): pass
        return q.small
    def insub(cfg):
        # F(th)=0 solved for e0
        p=PS(); a=AS(); o=axis(a[0],a[1]); z=dot(p,o); l=S.sqrt(norm2(vsub(p,vsc(z,o)))); t2=TH*TH
        return {a[5]:(z*S.sin(TH)-l*S.cos(TH))/(TH-S.sin(TH))-a[6]*t2-a[7]*t2*t2}
    pre={'tan':lambda cfg: [rcmp('lt',S.const(prove_frac(1e-3)),IN('lin'))],'sin':lambda cfg: [rcmp('lt',IN('lin'),S.const(-prove_frac(1e-3)))],'id':None}[kind]
    con=Contract('project_cahvore_internals',[Arr('pd',(3,),'out',strided=False),Arr('di',(3,8),'out',True,strided=False),Arr('dp',(3,3),'out',True,strided=False),Arr('p',(3,),strided=False),Arr('ii',(8,),strided=False),
        Const(S.ZERO) if kind=='id' else Dbl('lin')],cl,layouts=('contig',),pre=pre,insub=insub,name='project_cahvore_internals<%s>'%kind,ctype_ret=ctypes.c_bool)
    con.loophandler=handler
    return con
def prove_frac(x): return execu.Fraction(x).limit_denominator(10**9)
# ---- numeric meaning of the warp, for concrete runs
def _warp_num(k,lin,*v):
    p=[mp.mpf(x) for x in v[:3]]; al,be,r0,r1,r2,e0,e1,e2=[mp.mpf(x) for x in v[3:]]; lin=mp.mpf(lin)
    o=[mp.sin(al)*mp.cos(be),mp.sin(be),mp.cos(al)*mp.cos(be)]; z=sum(a*b for a,b in zip(p,o)); ll=[a-z*b for a,b in zip(p,o)]; l=mp.sqrt(sum(a*a for a in ll))
    th=mp.atan2(l,z)
    for _ in range(60):
        s,c=mp.sin(th),mp.cos(th); u=z*c+l*s+(c-1)*(e0+e1*th**2+e2*th**4)-(th-s)*(2*e1*th+4*e2*th**3)
        d=(z*s-l*c-(th-s)*(e0+e1*th**2+e2*th**4))/u; th-=d
        if abs(d)<mp.mpf(10)**(-mp.mp.dps+6): break
    if th<mp.mpf(10)**(-mp.mp.dps//3): zp=z; c2=0
    else:
        chi=mp.tan(lin*th)/lin if lin>1e-15 else mp.sin(lin*th)/lin if lin<-1e-15 else th
        zp=l/chi; c2=chi*chi
    mu=r0+r1*c2+r2*c2*c2
    return o[k]*zp+ll[k]*(1+mu)
def _warp_grad(k,j,lin,*v):
    with mp.workdps(60):
        h=mp.mpf(10)**-15; a=list(map(mp.mpf,v)); b=list(a); a[j]+=h; b[j]-=h
        return (_warp_num(k,lin,*a)-_warp_num(k,lin,*b))/(2*h)
def wfn(lin,k,j=None): return 'cahvore%s_%d'%(lin,k)+('' if j is None else '_d%d'%j)
def reg(lin):
    for k in range(3):
        prove.UNFN[wfn(lin,k)]=lambda *v,k=k: _warp_num(k,lin,*v)
        for j in range(11): prove.UNFN[wfn(lin,k,j)]=lambda *v,k=k,j=j: _warp_grad(k,j,lin,*v)
def over(lin):
    def h(x,st,a,ins):
        """contract of project_cahvore_internals() in its domain"""
        mod=st.frames[-1].mod; pd,di,dp,p,ii,l=a[:6]
        v=[x.load(st,mod,('double',),Ptr(p.obj,iadd(p.off,8*k))) for k in range(3)]+[x.load(st,mod,('double',),Ptr(ii.obj,iadd(ii.off,8*k))) for k in range(8)]
        if not(isinstance(l,E) and l.op=='c' and float(l.a)==lin): st.viol.append(('linearity is not passed to the warp',repr(l))); raise Infeasible()
        for k in range(3): x.store(st,mod,("double",),S.fn(wfn(lin,k),*v),Ptr(pd.obj,iadd(pd.off,8*k)))
        if di.obj is not None:
            for k in range(3):
                for j in range(8): x.store(st,mod,("double",),S.fn(wfn(lin,k,3+j),*v),Ptr(di.obj,iadd(di.off,8*(8*k+j))))
        if dp.obj is not None:
            for k in range(3):
                for j in range(3): x.store(st,mod,("double",),S.fn(wfn(lin,k,j),*v),Ptr(dp.obj,iadd(dp.off,8*(3*k+j))))
        return 1
    return h
def k_project(lin):
    reg(lin); model='LENSMODEL_CAHVORE_linearity=%g'%lin; lens.NPAR[model]=12
    def cl(cfg):
        v=[IN('p','e',i) for i in range(3)]; i_=I(12); arg=v+i_[4:]
        pd=[S.fn(wfn(lin,k),*arg) for k in range(3)]; q=[i_[k]*pd[k]/pd[2]+i_[2+k] for k in range(2)]; out=gvals('q',q)
        J=lambda j: [S.fn(wfn(lin,k,j),*arg) for k in range(3)]
        def chain(d): return [i_[k]*(d[k]/pd[2]-pd[k]*d[2]/(pd[2]*pd[2])) for k in range(2)]
        if 'dq_dp' not in cfg.null:
            for j in range(3): out+=[('dq_dp[e,%d,%d]'%(i,j),OUT('dq_dp','e',i,j),x,'grad') for i,x in enumerate(chain(J(j)))]
        if 'dq_dintrinsics' not in cfg.null:
            for j in range(12):
                d=[pd[0]/pd[2] if j==0 else S.ZERO,pd[1]/pd[2] if j==1 else S.ZERO] if j<2 else [S.const(int(j==2)),S.const(int(j==3))] if j<4 else chain(J(3+j-4))
                out+=[('dq_dintrinsics[e,%d,%d]'%(i,j),OUT('dq_dintrinsics','e',i,j),x,'grad') for i,x in enumerate(d)]
        return out+[('returns true',OUT('ret'),S.ONE,'value')]
    con=Contract('mrcal_project',[Arr('q',('N',2),'out',strided=False),Arr('dq_dp',('N',2,3),'out',True,strided=False),Arr('dq_dintrinsics',('N',2,12),'out',True,strided=False),
        Arr('p',('N',3),strided=False),Count('N'),lm_arg(model),Arr('intrinsics',(12,),strided=False)],cl,loops=True,layouts=('contig',),name='mrcal_project<%s>'%model,sampler=lambda cfg,rng,n: samp(rng,n),ctype_ret=ctypes.c_bool,
        over={'project_cahvore_internals':over(lin)},special=special)
    con.nbounded=12
    return con
def samp(rng,n):
    e=lens.samp('LENSMODEL_CAHVOR',rng,n)
    for i in range(4,12): e['intrinsics[%d]'%i]=rng.standard_normal(n)*.03
    return e
def special(cfg,rng):
    """points on and next to the optical axis"""
    out=[]
    for d in (0.,1e-12,3e-10,4e-9,1.2e-8,1e-6):
        for al,be in (0.,0.),(.02,-.03):
            e={k:float(v[0]) for k,v in samp(rng,1).items()}; e['intrinsics[4]']=al; e['intrinsics[5]']=be; e['intrinsics[6]']=.1
            o=[np.sin(al)*np.cos(be),np.sin(be),np.cos(al)*np.cos(be)]
            for k in range(NC):
                for i in range(3): e['p[%d,%d]'%(k,i)]=float((1+k)*(o[i]+d*(.6,-.8,0.)[i]))
            out.append(e)
    return out
