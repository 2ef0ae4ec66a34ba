"""C13: contracts of the triangulation methods (triangulation.cc).
Every path of each function is matched against the case of the definition it has to compute: the value and the
gradients by identity testing, the case conditions (which ray is corrected, which rays count as diverging) by z3 over
the quantities that the path conditions compare."""
import sym as S, build, contract as C, report, prove, itertools, random, ctypes, numpy as np
from contract import *
from spec import *
from sym import Cond, rcmp, cnot, cand, cor
from report import Task
PLANES={'xz':(0,2),'yz':(1,2),'xy':(0,1)}
from fractions import Fraction
TINY=S.const(Fraction(1,10**10)); HALF=S.const(Fraction(1,2))
v0=[IN('v0',i) for i in range(3)]; v1=[IN('v1',i) for i in range(3)]; t=[IN('t',i) for i in range(3)]
RT=[IN('Rt',i) for i in range(12)]
dot=lambda a,b: a[0]*b[0]+a[1]*b[1]+a[2]*b[2]
cr=lambda a,b: [a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
sc=lambda k,a: [k*x for x in a]
ad=lambda a,b: [x+y for x,y in zip(a,b)]
sb=lambda a,b: [x-y for x,y in zip(a,b)]
def off_plane(v,n): return sb(v,sc(dot(v,n)/dot(n,n),n))      # v without its component along n
class Q:
    """named quantities: name -> E, and the facts that hold between them (z3 conditions over S.sym('q:'+name))"""
    def __init__(s): s.q={}; s.facts=[]
    def add(s,n,e): s.q[n]=e; return s.v(n)
    def v(s,n): return S.sym('q:'+n)
lt=lambda a,b: rcmp('lt',a,b)
le=lambda a,b: rcmp('le',a,b)
def cimp(a,b): return cor(cnot(a),b)
def lines(q,lab,a,b,tt,exact=True):
    """the intersection of the (intersecting) lines k0 a and tt+k1 b, solved in each coordinate plane. The lines meet, so that k0,k1 do
    not depend on the plane (a lemma, proved below); they are named once.
    exact=False: the lines only nearly meet (lindstrom); each plane has its own solution"""
    out={}
    for p,(i,j) in PLANES.items():
        d=b[i]*a[j]-a[i]*b[j]; k0=(tt[j]*b[i]-tt[i]*b[j])/d; k1=(tt[j]*a[i]-tt[i]*a[j])/d
        n='%s.%s.'%(lab,p)
        if not out or not exact: x=lab if exact else n[:-1]; K0=q.add(x+'.K0',k0); K1=q.add(x+'.K1',k1)
        D=q.add(n+'D',d); F=q.add(n+'F',S.fn('fabs',d)); A=q.add(n+'A',tt[j]*a[i]-tt[i]*a[j])
        q.facts+=[cor(cand(le(S.ZERO,D),rcmp('eq',F,D)),cand(lt(D,S.ZERO),rcmp('eq',F,-D))),
                  cimp(lt(S.ZERO,F),rcmp('eq',K1*D,A))]
        out[p]=dict(m=sc(k0,a),k0=k0,k1=k1,F=S.fn('fabs',d),vK0=K0,vK1=K1,vF=F)
    return out
def best(L,p): return cand(*[le(x['vF'],L[p]['vF']) for x in L.values()])
def ok_plane(L,p): return cand(le(TINY,L[p]['vF']),best(L,p),lt(S.ZERO,L[p]['vK0']),le(S.ZERO,L[p]['vK1']))
def bad_planes(L): return cor(cand(*[le(x['vF'],TINY) for x in L.values()]),*[cand(best(L,p),lt(S.ZERO,x['vF']),cor(le(x['vK0'],S.ZERO),le(x['vK1'],S.ZERO))) for p,x in L.items()])
def ok_lines(L): return cand(cor(*[le(TINY,x['vF']) for x in L.values()]),lt(S.ZERO,L['xz']['vK0']),le(S.ZERO,L['xz']['vK1']))
def bad_lines(L): return cor(cand(*[le(x['vF'],TINY) for x in L.values()]),le(L['xz']['vK0'],S.ZERO),le(L['xz']['vK1'],S.ZERO))
class Case: 
    """value m when `ok` holds and the selection condition `sel` does not rule it out"""
    def __init__(s,lab,m,sel,ok): s.lab=lab; s.m=m; s.sel=sel; s.ok=ok
class Spec:
    """q: quantities. cases: the ways to return a point. zero: condition under which the invalid marker is right.
    corr: the corrected rays, per selection (for the oracle and the lemmas)"""
def spec_geometric():
    s=Spec(); q=s.q=Q(); aa,bb,ab,at,bt=dot(v0,v0),dot(v1,v1),dot(v0,v1),dot(v0,t),dot(v1,t)
    d=aa*bb-ab*ab; k0=(bb*at-ab*bt)/d; k1=(ab*at-aa*bt)/d
    D,K0,K1=q.add('denom',d),q.add('k0',k0),q.add('k1',k1)
    m=sc(HALF,ad(ad(sc(k0,v0),t),sc(k1,v1)))
    s.cases=[Case('midpoint',m,True,cand(cor(le(TINY,D),le(D,-TINY)),lt(S.ZERO,K0),lt(S.ZERO,K1)))]
    s.zero=cor(cand(le(-TINY,D),le(D,TINY)),le(K0,S.ZERO),le(K1,S.ZERO))
    s.num=lambda ev: [(np.ones(ev(d).shape,bool),m,np.minimum(ev(k0),ev(k1)),np.abs(ev(d)))]
    # the definition: m is half way between the points k0 v0 and t+k1 v1, and the segment is normal to both rays
    seg=sb(sc(k0,v0),ad(t,sc(k1,v1)))
    s.lemmas=[('the connecting segment is normal to ray 0',dot(seg,v0),S.ZERO),('the connecting segment is normal to ray 1',dot(seg,v1),S.ZERO)]
    return s
def from_corrected(sel_pairs,tt,exact=True):
    """sel_pairs: [(label, corrected v0, corrected v1, strict condition under which this correction must be used (over quantities) , numeric selector E)]"""
    s=Spec(); q=s.q=Q(); s.cases=[]; s.lemmas=[]; zs=[]; nums=[]
    for lab,a,b,seln,sele in sel_pairs:
        L=lines(q,lab,a,b,tt,exact)
        if exact: s.cases.append(Case(lab,L['xz']['m'],seln,ok_lines(L)))
        else: s.cases+=[Case('%s solved in %s'%(lab,p),L[p]['m'],seln,ok_plane(L,p)) for p in L]
        zs.append((seln,(bad_lines if exact else bad_planes)(L)))
        for p in L if exact else ():
            s.lemmas+=[('%s %s: the point lies on ray 1 [%d]'%(lab,p,i),L[p]['m'][i],tt[i]+L[p]['k1']*b[i]) for i in range(3)]
            s.lemmas+=[('%s %s: k%d does not depend on the plane'%(lab,p,i),L[p]['k%d'%i],L['xz']['k%d'%i]) for i in range(2)]
        nums.append((sele,L))
    return s,zs,nums
def finish(s,zs,nums,q,opp):
    # zero is right if the correction that has to be used (both on a tie) gives no valid point
    s.zero=cor(*[cand(sel,z) if sel is not True else z for sel,z in zs])
    def num(ev):
        out=[]
        for sele,L in nums:
            F=np.stack([ev(L[p]['F']) for p in L]); i=np.nanargmax(np.where(np.isnan(F),-1,F),0)
            pick=lambda k: np.choose(i,[ev(L[p][k]) for p in L])
            on=np.ones(i.shape,bool) if sele is None else ev(sele)>0
            for n,p in enumerate(L): out.append((on&(i==n),L[p]['m'],np.minimum(ev(L[p]['k0']),ev(L[p]['k1'])),ev(L[p]['F'])))
        return out
    s.num=num; return s
def spec_l1():
    S0=dot(v0,t)*dot(v0,t)*dot(v1,v1)-dot(v1,t)*dot(v1,t)*dot(v0,v0)
    sel=S.sym('q:sel')
    # the ray that makes the larger angle with the baseline normal plane is moved
    s,zs,nums=from_corrected([('v0 corrected',off_plane(v0,cr(v1,t)),v1,le(S.ZERO,sel),S0),('v1 corrected',v0,off_plane(v1,cr(v0,t)),le(sel,S.ZERO),-S0)],t)
    s.q.add('sel',S0); return finish(s,zs,nums,s.q,None)
def spec_linf():
    a=sc(S.ONE/S.sqrt(dot(v0,v0)),v0); b=sc(S.ONE/S.sqrt(dot(v1,v1)),v1); na,nb=cr(ad(a,b),t),cr(sb(a,b),t)
    S0=dot(na,na)-dot(nb,nb); sel=S.sym('q:sel')
    s,zs,nums=from_corrected([('sum normal',off_plane(a,na),off_plane(b,na),le(S.ZERO,sel),S0),('difference normal',off_plane(a,nb),off_plane(b,nb),le(sel,S.ZERO),-S0)],t)
    s.q.add('sel',S0); return finish(s,zs,nums,s.q,None)
def spec_lindstrom():
    R=[[RT[3*i+j] for j in range(3)] for i in range(3)]; tt=RT[9:]
    # E = [t]x R ; x0' E x1 = 0
    E=[[ [cr(tt,[R[0][j],R[1][j],R[2][j]])[i] for j in range(3)] for i in range(3)]][0]
    x=[v0[0]/v0[2],v0[1]/v0[2],S.ONE]; y=[v1[0]/v1[2],v1[1]/v1[2],S.ONE]
    Ey=[sum((E[i][j]*y[j] for j in range(3)),S.ZERO) for i in range(3)]; Ex=[sum((E[i][j]*x[i] for i in range(3)),S.ZERO) for j in range(3)]
    n=Ey[:2]; n2=Ex[:2]; E2=[[E[i][j] for j in range(2)] for i in range(2)]
    a=sum((n[i]*E2[i][j]*n2[j] for i in range(2) for j in range(2)),S.ZERO)
    b=HALF*(n[0]*n[0]+n[1]*n[1]+n2[0]*n2[0]+n2[1]*n2[1]); c=sum((x[i]*Ey[i] for i in range(3)),S.ZERO)
    d=S.sqrt(b*b-a*c); l=c/(b+d); dx=sc(l,n); dy=sc(l,n2)
    n=[n[i]-E2[i][0]*dy[0]-E2[i][1]*dy[1] for i in range(2)]; n2=[n2[j]-E2[0][j]*dx[0]-E2[1][j]*dx[1] for j in range(2)]
    bb=HALF*(n[0]*n[0]+n[1]*n[1]+n2[0]*n2[0]+n2[1]*n2[1]); l=l*d/bb
    x=[x[0]-l*n[0],x[1]-l*n[1],S.ONE]; y=[y[0]-l*n2[0],y[1]-l*n2[1],S.ONE]
    Ry=[sum((R[i][j]*y[j] for j in range(3)),S.ZERO) for i in range(3)]
    s,zs,nums=from_corrected([('niter2',x,Ry,True,None)],tt,False)
    return finish(s,zs,nums,s.q,None)
def chir(q,a,b,l0,l1):
    sq=lambda e: dot(e,e)
    nom=sq(sb(ad(sc(l1,b),t),sc(l0,a)))
    W=[sq(ad(ad(sc(l1,b),t),sc(l0,a)))-nom,sq(sb(ad(sc(-l1,b),t),sc(l0,a)))-nom,sq(ad(ad(sc(-l1,b),t),sc(l0,a)))-nom]
    return W,[q.add('worsening%d'%i,w) for i,w in enumerate(W)]
def mid(a,b):
    n=dot(cr(a,b),cr(a,b)); return S.sqrt(dot(cr(b,t),cr(b,t))/n),S.sqrt(dot(cr(a,t),cr(a,t))/n)
def spec_mid2(w=False):
    s=Spec(); q=s.q=Q(); a,b=v0,v1
    if w: a=sc(S.ONE/S.sqrt(dot(v0,v0)),v0); b=sc(S.ONE/S.sqrt(dot(v1,v1)),v1)
    l0,l1=mid(a,b); W,vW=chir(q,a,b,l0,l1)
    if w: m=sc(S.ONE/(l0+l1),ad(ad(sc(l0*l1,a),sc(l0,t)),sc(l0*l1,b)))
    else: m=sc(HALF,ad(ad(sc(l0,a),t),sc(l1,b)))
    s.cases=[Case('midpoint',m,True,cand(*[lt(S.ZERO,x) for x in vW]))]; s.zero=cor(*[le(x,S.ZERO) for x in vW])
    s.num=lambda ev: [(np.ones(ev(l0).shape,bool),m,np.minimum(np.minimum(ev(W[0]),ev(W[1])),ev(W[2])),ev(dot(cr(v0,v1),cr(v0,v1))))]
    s.lemmas=[]; return s
# ---------------------------------------------------------------- path conditions over the quantities
def at_points(roots,n=3,seed=5):
    """modular values of the roots at n random points"""
    out=[]; i=0
    while len(out)<n and i<400:
        i+=1
        try:
            m=prove.Mod(random.Random(seed*1000+i)); out.append(m.eval(roots))
        except prove.Retry: pass
    return out
def abstract(conds,q,seed=5):
    """rewrite the comparisons of the conditions to comparisons of (affine functions of) the quantities; what does not match becomes a fresh unknown"""
    atoms=[]
    def walk(c):
        if isinstance(c,bool): return
        if c.op in('r<','r<=','r=='): atoms.append(c.a)
        elif c.op in('and','or','not'):
            for x in c.a: walk(x)
    for c in conds: walk(c)
    names=sorted(q.q,key=lambda n: not n.endswith('.F')); Fn=[n for n in names if n.endswith('.F')]
    cols=[(n,None) for n in names]+[(a,b) for a in Fn for b in Fn if a<b]
    vs=at_points(atoms+[q.q[n] for n in names],12,seed)
    if len(vs)<12: raise C.Undecided('no evaluation points')
    P=prove.P; na=len(atoms); ix={n:na+i for i,n in enumerate(names)}; mp={}
    col={cc:[(v[ix[cc[0]]]-(v[ix[cc[1]]] if cc[1] else 0))%P for v in vs] for cc in cols}
    def aff(e0,offs=(Fraction(0),)):
        for cc,c in col.items():
            d=(c[1]-c[0])%P
            if not d: continue
            k=(e0[1]-e0[0])*pow(d,-1,P)%P; z=(e0[0]-k*c[0])%P
            if any((k*x+z-y)%P for x,y in zip(c[2:],e0[2:])): continue
            kf=C.ratrec(k); zf=None
            for o in offs:
                zf=C.ratrec((z-o.numerator*pow(o.denominator,-1,P))%P)
                if zf is not None: zf+=o; break
            if kf is None or zf is None or max(abs(kf.numerator),kf.denominator)>1<<20: continue
            x=q.v(cc[0])-(q.v(cc[1]) if cc[1] else S.ZERO)
            return S.const(kf)*x+S.const(zf)
    for k,e in enumerate(atoms):
        if e.id in mp: continue
        r=aff([v[k] for v in vs])
        if r is None: r=aff([v[k] for v in vs],sorted(x for x in C.consts(e) if x and abs(x)<Fraction(1,1<<40)))
        mp[e.id]=r if r is not None else S.sym('?:%d'%e.id)
    def sub(c):
        if isinstance(c,bool): return c
        if c.op in('r<','r<=','r=='): return rcmp({'r<':'lt','r<=':'le','r==':'eq'}[c.op],mp[c.a.id],S.ZERO)
        if c.op=='not': return cnot(sub(c.a[0]))
        if c.op=='and': return cand(*[sub(x) for x in c.a])
        if c.op=='or': return cor(*[sub(x) for x in c.a])
        return c
    return [sub(c) for c in conds]
def implied(conds,facts,goal):
    if goal is True: return True
    cs=[c for c in list(conds)+list(facts)+[cnot(goal)] if c is not True]
    if any(c is False for c in cs): return True
    return prove.z3_check(cs,8000)=='unsat'
# ---------------------------------------------------------------- the functions
FN={'geometric':spec_geometric,'leecivera_l1':spec_l1,'leecivera_linf':spec_linf,'leecivera_mid2':spec_mid2,'leecivera_wmid2':lambda: spec_mid2(True),'lindstrom':spec_lindstrom}
def contract(n):
    lin=n=='lindstrom'; third='dm_dRt01' if lin else 'dm_dt01'; n3=12 if lin else 3
    g=['dm_dv0','dm_dv1',third]
    con=Contract('mrcal_triangulate_'+n,[Arr('dm_dv0',(3,3),'out',True,strided=False),Arr('dm_dv1',(3,3),'out',True,strided=False),Arr(third,(3,n3),'out',True,strided=False),
        Arr('v0',(3,),strided=False),Arr('v1',(3,),strided=False),Arr('Rt' if lin else 't',(n3,),strided=False)],lambda c:[],layouts=('contig',),
        nulls=[tuple(x for x,k in zip(g,ks) if k) for ks in itertools.product((0,1),repeat=3)])
    con.sret_n=3
    con.grads=[('dm_dv0',['v0[%d]'%i for i in range(3)]),('dm_dv1',['v1[%d]'%i for i in range(3)]),(third,['Rt[%d]'%i for i in range(12)] if lin else ['t[%d]'%i for i in range(3)])]
    return con
def want(con,cfg,m,zero=False):
    out=[('ret[%d]'%i,S.ZERO if zero else m[i]) for i in range(3)]
    for J,ins in con.grads:
        if J in cfg.null or zero: continue          # gradients of an invalid result are left alone or anything
        for j,y in enumerate(ins):
            d=S.diff(m,S.sym(y)); out+=[('%s[%d,%d]'%(J,i,j),d[i]) for i in range(3)]
    return out
def ret_cells(p):
    return all('ret[%d]'%i in p.outs for i in range(3))
def prove_fn(mods,con,cfg,sp):
    ex,ps=C.sym_paths(mods,con,cfg); rs=[]; lab=con.fname+' '+cfg.label()
    ws=[want(con,cfg,c.m) for c in sp.cases]
    for k,p in enumerate(ps):
        L='%s path %d: '%(lab,k)
        if p.viol or p.bad: rs.append(Res('undecided',L+'memory safety and frame','engine',str((p.viol+p.bad)[0])[:200])); continue
        if not all('ret[%d]'%i in p.outs for i in range(3)): rs.append(Res('undecided',L+'returned point','engine','cells %s'%sorted(p.outs)[:4])); continue
        r=[R(p.outs['ret[%d]'%i]) for i in range(3)]
        ab=abstract(p.allconds,sp.q)
        if all(x.op=='c' and x.a==0 for x in r):
            rs.append(Res('proved' if implied(ab,sp.q.facts,sp.zero) else 'undecided',L+'invalid marker only for diverging or degenerate rays','z3')); continue
        hit=None
        for c,w in zip(sp.cases,ws):
            if prove.pit([(r[i],c.m[i]) for i in range(3)],1)==[True]*3: hit=(c,w); break
        if hit is None: rs.append(Res('undecided',L+'returned point','pit','no case of the definition matches')); continue
        c,w=hit; miss=[n for n,_ in w if n not in p.outs]
        if miss: rs.append(Res('undecided',L+'outputs','engine','%s not written'%miss[:3])); continue
        ok=prove.pit([(R(p.outs[n]),e) for n,e in w],1)
        rs+=[Res('proved' if o is True else 'undecided',L+'%s == %s'%(n,c.lab),'pit') for (n,_),o in zip(w,ok)]
        rs.append(Res('proved' if implied(ab,sp.q.facts,cand(c.ok,c.sel)) else 'undecided',L+'point only for converging rays; the right case (%s)'%c.lab,'z3'))
    return rs,ex.called,len(ps)
# ---------------------------------------------------------------- bounded stand-in: the compiled code against the definition
def samples(rng,n,lin):
    e={}; v=[]; T=[]
    for k in range(n):
        kind=k%10; tt=rng.standard_normal(3)*[1,.1,10,.01][k%4]
        if kind<5:      # a point in front of both cameras, noise
            p=rng.standard_normal(3)*3+[0,0,6]; a=p+rng.standard_normal(3)*.02*(kind%3); b=p-tt+rng.standard_normal(3)*.02*(kind%3)
            if kind==3: a=a*rng.uniform(.1,10); b=b*rng.uniform(.1,10)
            if kind==4: a/=np.linalg.norm(a); b/=np.linalg.norm(b)
        elif kind==5:   # wide: the point is to the side
            p=rng.standard_normal(3)*[5,5,.3]; a=p; b=p-tt+rng.standard_normal(3)*.01
        elif kind==6:   # all in a z=0 plane
            p=rng.standard_normal(3)*[5,5,0]; tt=tt*[1,1,0]; a=p*[1,1,-1,1][(k//10)%4]; b=(p-tt)*[1,-1,1,1][(k//10)%4]  # one behind, at times
        elif kind==7:   # diverging
            p=rng.standard_normal(3)*2+[0,0,6]; a=-p; b=-(p-tt)+rng.standard_normal(3)*.02
        elif kind==8:   # one behind
            p=rng.standard_normal(3)*2+[0,0,6]; a=p; b=-(p-tt)
        else:
            a=rng.standard_normal(3); b=rng.standard_normal(3)
            if k%20==9: b=a*rng.uniform(.5,2)+rng.standard_normal(3)*1e-2
        if lin:         # rays are given in front of their cameras: local z>0
            a=a*(1. if a[2]>=0 else -1.); a[2]=max(a[2],.3)
        v.append((a,b)); T.append(tt)
    for i in range(3): e['v0[%d]'%i]=np.array([a[i] for a,b in v]); e['t[%d]'%i]=np.array([x[i] for x in T])
    if lin:
        r=[]
        for k in range(n):
            u=rng.standard_normal(3)*[.3,1.,0][k%3]; th=np.linalg.norm(u)+1e-30; K=np.array([[0,-u[2],u[1]],[u[2],0,-u[0]],[-u[1],u[0],0]])/th
            r.append(np.eye(3)+np.sin(th)*K+(1-np.cos(th))*K@K)
        w=np.array([r[k].T@v[k][1] for k in range(n)]); w*=np.where(w[:,2:]>=0,1.,-1.); w[:,2]=np.maximum(w[:,2],.3)
        for i in range(3): e['v1[%d]'%i]=w[:,i]; e['Rt[%d]'%(9+i)]=e.pop('t[%d]'%i)
        for i in range(9): e['Rt[%d]'%i]=np.array([x[i//3,i%3] for x in r])
    else:
        for i in range(3): e['v1[%d]'%i]=np.array([b[i] for a,b in v])
    return e
class P3(ctypes.Structure): _fields_=[('x',ctypes.c_double*3)]
def call(lib,con,cfg,e,k):
    f=getattr(lib,con.fname); f.restype=P3; bufs={}; args=[]
    for a in con.args:
        if a.name in cfg.null: args.append(None); continue
        n=int(np.prod(a.shape)); b=(ctypes.c_double*(n+2))(*([np.nan]*(n+2)))
        if a.role=='in':
            for i in range(n): b[i]=e['%s[%d]'%(a.name,i)][k]
        else:
            for i in range(n+2): b[i]=-7.25e77
        bufs[a.name]=(b,n,a); args.append(b)
    r=f(*[None if b is None else ctypes.byref(b) for b in args])
    out={'ret[%d]'%i:r.x[i] for i in range(3)}
    for nmx,(b,n,a) in bufs.items():
        if a.role!='in':
            for i in range(n): out['%s[%d,%d]'%(nmx,i//a.shape[1],i%a.shape[1])]=b[i]
            if b[n]!=-7.25e77 or b[n+1]!=-7.25e77: out['$frame']=nmx
    return out
def bounded(lib,con,cfg,sp,seed=1,n=400):
    rng=np.random.default_rng(seed); lin='Rt' in [a.name for a in con.args]; e=samples(rng,n,lin); cnt=0
    e={k:np.asarray(v,np.longdouble) for k,v in e.items()}
    with np.errstate(all='ignore'):
        N=prove.NumPy(e,n); memo={}
        def ev(x):
            if x.id not in memo: memo[x.id]=np.broadcast_to(np.asarray(N.ev([x])[0]),(n,))
            return memo[x.id]
        for on,m,val,den in sp.num(ev):
            w=want(con,cfg,m); W={nn:ev(x) for nn,x in w}
            for k in np.nonzero(on)[0]:
                mm=max(abs(float(W['ret[%d]'%i][k])) for i in range(3))
                dd,vv=float(den[k]),float(val[k])
                if np.isnan(dd): continue
                if 1e-11<dd<1e-6 or (abs(vv)<1e-6 and not 0<abs(vv)<0) and dd>1e-11: continue   # ill conditioned or on the boundary
                out=call(lib,con,cfg,e,k); cnt+=1; env={kk:float(x[k]) for kk,x in e.items()}
                if '$frame' in out: return cnt,(env,'write past the end of '+out['$frame'],None,None)
                zero=all(out['ret[%d]'%i]==0 for i in range(3))
                if not dd>1e-11 or not vv>0:
                    if not zero: return cnt,(env,con.fname+': diverging or degenerate rays must give the invalid marker',[out['ret[%d]'%i] for i in range(3)],[0,0,0])
                    continue
                for nn,_ in w:
                    x=float(W[nn][k]); 
                    if not np.isfinite(x): continue
                    row=[abs(float(W[a][k])) for a,_ in w if a.split('[')[0]==nn.split('[')[0]]
                    if abs(out[nn]-x)>1e-4*max(max(row),1e-6) or (not np.isfinite(out[nn])): return cnt,(env,con.fname+' '+cfg.label()+': '+nn,out[nn],x)
    return cnt,None
def degenerate(lib,con,cfg):
    """exactly parallel rays"""
    lin='Rt' in [a.name for a in con.args]; c=0; rng=np.random.default_rng(3)
    for k in range(40):
        a=np.array([0,0,1.]) if k%4==0 else np.round(rng.standard_normal(3)*4)+[0,0,9]; b=a*[1,2,.5,4][k%4]; tt=rng.standard_normal(3)
        e={'v0[%d]'%i:[a[i]] for i in range(3)}; e.update({'v1[%d]'%i:[b[i]] for i in range(3)})
        if lin: e.update({'Rt[%d]'%i:[float(i in(0,4,8))] for i in range(9)}); e.update({'Rt[%d]'%(9+i):[tt[i]] for i in range(3)})
        else: e.update({'t[%d]'%i:[tt[i]] for i in range(3)})
        out=call(lib,con,cfg,e,0); c+=1
        z=[out['ret[%d]'%i] for i in range(3)]
        if 'mid2' in con.fname or 'geometric' in con.fname:
            if not all(x==0 for x in z): return c,({kk:float(x[0]) for kk,x in e.items()},con.fname+': parallel rays must give the invalid marker',z,[0,0,0])
    return c,None
# ---------------------------------------------------------------- _mrcal_triangulated_error
def spec_error():
    s=Spec(); q=s.q=Q(); l0,l1=mid(v0,v1); W,vW=chir(q,v0,v1,l0,l1); m=sc(HALF,ad(ad(sc(l0,v0),t),sc(l1,v1)))
    s.W=W; s.vW=vW
    s.cos=[dot(v0,m)/S.sqrt(dot(v0,v0)*dot(m,m)),dot(v0,v1)/S.sqrt(dot(v0,v0)*dot(v1,v1))]
    s.vc=[q.add('cos%d'%i,c) for i,c in enumerate(s.cos)]
    return s
THRESH=S.const(Fraction(1,10**21))
KNEE=3
def sig(x,piece):
    k=S.const(KNEE)
    if piece==0: return S.ZERO
    if piece==3: return S.ONE
    d=x-k*HALF; a=S.const(Fraction(2,KNEE*KNEE)); b=S.const(Fraction(2,KNEE))
    return d*((a if piece==1 else -a)*d+b)+HALF
def sigrange(v,piece):
    k=S.const(KNEE)
    return [le(v,S.ZERO),cand(le(S.ZERO,v),le(v,k*HALF)),cand(le(k*HALF,v),le(v,k)),le(k,v)][piece]
WRAP=r"""
#include "triangulation.cc"
extern "C" void w_sigmoid(double* y,double* dy,const double* x,const double* dx,double knee)
{ val_withgrad_t<6> v; v.x=x[0]; for(int i=0;i<6;i++) v.j[i]=dx[i]; val_withgrad_t<6> r=sigmoid(v,knee); y[0]=r.x; for(int i=0;i<6;i++) dy[i]=r.j[i]; }
extern "C" void w_angle(double* y,double* dy,const double* a,const double* da,const double* b,const double* db)
{ vec_withgrad_t<6,3> u,v; for(int i=0;i<3;i++) { u.v[i].x=a[i]; v.v[i].x=b[i]; for(int j=0;j<6;j++) { u.v[i].j[j]=da[6*i+j]; v.v[i].j[j]=db[6*i+j]; } }
  val_withgrad_t<6> r=angle_error__assume_small(u,v); y[0]=r.x; for(int i=0;i<6;i++) dy[i]=r.j[i]; }
"""
N6=6
def cosine(a,b): return dot(a,b)/S.sqrt(dot(a,a)*dot(b,b))
def th_piece(c,j):
    """the angle as a function of its cosine c. j: 0,1 c>=0; 2,3 c<=0; odd: below the threshold"""
    return S.ZERO if j%2 else S.sqrt(S.const(2)-S.const(2 if j<2 else -2)*c)
def th_range(v,j):
    T=S.const(2)-S.const(2 if j<2 else -2)*v
    return cand(le(S.ZERO,v) if j<2 else le(v,S.ZERO),le(T,THRESH) if j%2 else le(THRESH,T))
def helper_tasks(wm,lib):
    a=[IN('a',i) for i in range(3)]; b=[IN('b',i) for i in range(3)]; out=[]
    con1=Contract('w_sigmoid',[Arr('y',(1,),'out',strided=False),Arr('dy',(6,),'out',strided=False),Arr('x',(1,),strided=False),Arr('dx',(6,),strided=False),Dbl('knee')],lambda c:[],layouts=('contig',),name='sigmoid')
    con2=Contract('w_angle',[Arr('y',(1,),'out',strided=False),Arr('dy',(6,),'out',strided=False),Arr('a',(3,),strided=False),Arr('da',(3,6),strided=False),Arr('b',(3,),strided=False),Arr('db',(3,6),strided=False)],lambda c:[],layouts=('contig',),name='angle_error__assume_small')
    x=IN('x',0); kn=IN('knee')
    def sigk(i):
        if i==0: return S.ZERO
        if i==3: return S.ONE
        d=x-kn*HALF; return d*((S.const(2) if i==1 else S.const(-2))/(kn*kn)*d+S.const(2)/kn)+HALF
    sr=[le(x,S.ZERO),cand(le(S.ZERO,x),le(x,kn*HALF)),cand(le(kn*HALF,x),le(x,kn)),le(kn,x)]
    c=cosine(a,b); cq=S.sym('q:cos')
    q1=Q(); q2=Q(); q2.add('cos',c)
    cases1=[('sigmoid piece %d'%i,sigk(i),sr[i]) for i in range(4)]; cases2=[('angle case %d'%j,th_piece(c,j),th_range(cq,j)) for j in range(4)]
    def run(con,q,cases,ins,pre):
        def fn():
            cfg=list(con.cases())[0]; ex,ps=C.sym_paths(wm,con,cfg); rs=[]
            for k,p in enumerate(ps):
                L='%s path %d: '%(con.name,k)
                if p.viol or p.bad: rs.append(Res('undecided',L+'memory safety and frame','engine',str((p.viol+p.bad)[0])[:200])); continue
                ab=[x for x in (abstract(p.allconds,q) if q.q else p.allconds)]+pre
                if implied(ab,q.facts,rcmp('lt',S.ONE,S.ZERO)): rs.append(Res('proved',L+'cannot be taken','z3')); continue
                hit=[(n,v) for n,v,g in cases if implied(ab,q.facts,g)]
                if not hit: rs.append(Res('undecided',L+'which case','z3',repr(p.allconds)[:300])); continue
                n,v=hit[0]; w=[('y[0]',v)]
                for j in range(6): w.append(('dy[%d]'%j,sum((S.diff([v],y)[0]*dy(j) for y,dy in ins),S.ZERO)))
                miss=[o for o,_ in w if o not in p.outs]
                if miss: rs.append(Res('undecided',L+'outputs','engine','%s not written'%miss)); continue
                ok=prove.pit([(R(p.outs[o]),e) for o,e in w],1)
                rs+=[Res('proved' if o is True else 'undecided',L+'%s: %s'%(n,m),'pit') for (m,_),o in zip(w,ok)]
            return rs,ex.called,len(ps)
        return fn
    ins1=[(x,lambda j: IN('dx',j))]; ins2=[(a[i],lambda j,i=i: IN('da',i,j)) for i in range(3)]+[(b[i],lambda j,i=i: IN('db',i,j)) for i in range(3)]
    return [Task('sigmoid (contract used by _mrcal_triangulated_error)',run(con1,q1,cases1,ins1,[lt(S.ZERO,kn)]),lambda: bounded_sigmoid(lib)),
            Task('angle_error__assume_small (contract used by _mrcal_triangulated_error)',run(con2,q2,cases2,ins2,[]),lambda: bounded_angle(lib))]
def bounded_sigmoid(lib):
    c=0; D=ctypes.c_double
    for knee in (3.,.5,10.):
        for x in np.concatenate([np.linspace(-2,1.2*knee,60)]):
            y=(D*1)(); dy=(D*6)(); lib.w_sigmoid(y,dy,(D*1)(x),(D*6)(1,2,3,4,5,6),D(knee)); c+=1
            u=x/knee; w,g=(0,0) if u<=0 else (1,0) if u>=1 else (2*u*u,4*u/knee) if u<.5 else (1-2*(1-u)**2,4*(1-u)/knee)
            if abs(y[0]-w)>1e-9 or abs(dy[1]-2*g)>1e-9*max(1,1/knee): return c,({'x':float(x),'knee':knee},'sigmoid',[y[0],dy[1]],[w,2*g])
    return c,None
def bounded_angle(lib):
    c=0; D=ctypes.c_double; rng=np.random.default_rng(3)
    for k in range(200):
        a=rng.standard_normal(3); b=a*rng.uniform(.5,2)*(-1)**k+rng.standard_normal(3)*[.01,.3,1.][k%3]; cs=abs(np.dot(a,b)/np.linalg.norm(a)/np.linalg.norm(b)); w=np.sqrt(max(0,2-2*cs))
        y=(D*1)(); dy=(D*6)(); lib.w_angle(y,dy,(D*3)(*a),(D*18)(),(D*3)(*b),(D*18)()); c+=1
        if abs(y[0]-w)>1e-6: return c,({'a':a.tolist(),'b':b.tolist()},'angle_error__assume_small',y[0],w)
    return c,None
def caller_over(wm):
    """callees replaced by their contracts: value = an opaque function of x (of the cosine), gradient = its derivative times the argument's gradient"""
    d=('double',); o={}
    def rd(x,st,p,n): return [x.load(st,wm.m0,d,Ptr(p.obj,S.iadd(p.off,8*i))) for i in range(n)]
    def wr(x,st,p,v):
        for i,e in enumerate(v): x.store(st,wm.m0,d,e,Ptr(p.obj,S.iadd(p.off,8*i)))
    def sg(x,st,args,ins):
        r,p,knee=args; v=rd(x,st,p,7); k='uf:sig%s'%(knee.a if isinstance(knee,E) and knee.op=='c' else '?')
        wr(x,st,r,[S.fn(k,v[0])]+[S.fn(k+"'",v[0])*y for y in v[1:]])
    def an(x,st,args,ins):
        r,p,q=args; u=rd(x,st,p,21); w=rd(x,st,q,21)
        a,da=[u[7*i] for i in range(3)],[u[7*i+1:7*i+7] for i in range(3)]; b,db=[w[7*i] for i in range(3)],[w[7*i+1:7*i+7] for i in range(3)]
        ys=[S.sym('$a%d'%i) for i in range(3)]; zs=[S.sym('$b%d'%i) for i in range(3)]; c=cosine(ys,zs)
        g=[S.diff([c],y)[0] for y in ys+zs]; m=dict(zip(ys+zs,a+b)); cg=S.subst([c]+g,m)
        wr(x,st,r,[S.fn('uf:th',cg[0])]+[S.fn("uf:th'",cg[0])*sum((cg[1+i]*da[i][j]+cg[4+i]*db[i][j] for i in range(3)),S.ZERO) for j in range(6)])
    for n in wm.names:
        if 'sigmoid' in n: o[n]=sg
        if 'angle_error__assume_small' in n and 'normalized' not in n: o[n]=an
    return o
def prove_error(mods,con,cfg,sp):
    ex,ps=C.sym_paths(mods,con,cfg); rs=[]; lab=con.fname+' '+cfg.label()
    th=lambda i: S.fn('uf:th',sp.cos[i]); sgf=lambda w: S.fn('uf:sig%d'%KNEE,-w)
    e0=S.const(2)*th(0); full=e0+th(1)*(sgf(sp.W[0])+sgf(sp.W[1])+sgf(sp.W[2]))
    def wants(err):
        w=[('ret',err)]
        for J,iv in con.grads:
            if J not in cfg.null: w+=[('%s[%d]'%(J,i),S.diff([err],S.sym(y))[0]) for i,y in enumerate(iv)]
        return w
    W0,W1=wants(e0),wants(full)
    for k,p in enumerate(ps):
        L='%s path %d: '%(lab,k)
        if p.viol or p.bad: rs.append(Res('undecided',L+'memory safety and frame','engine',str((p.viol+p.bad)[0])[:200])); continue
        ab=[c for c in abstract(p.allconds,sp.q) if c is not True]
        if any(c is False for c in ab) or prove.z3_check(ab+sp.q.facts,4000)=='unsat': rs.append(Res('proved',L+'cannot be taken','z3')); continue
        miss=[n for n,_ in W0 if n not in p.outs]
        if miss: rs.append(Res('undecided',L+'outputs','engine','%s not written'%miss[:3])); continue
        # the divergence penalty is 0 (contract of sigmoid) when all the worsenings are >=0: the term may be left out then
        pen=prove.pit([(R(p.outs['ret']),full)],1)[0] is True
        if not pen: rs.append(Res('proved' if implied(ab,sp.q.facts,cand(*[le(S.ZERO,x) for x in sp.vW])) else 'undecided',L+'the divergence penalty is left out only for converging rays','z3'))
        w=W1 if pen else W0; ok=prove.pit([(R(p.outs[n]),e) for n,e in w],1)
        rs+=[Res('proved' if o is True else 'undecided',L+n,'pit') for (n,_),o in zip(w,ok)]
    return rs,ex.called,len(ps)
def err_num(e):
    """reference: value of the error for numpy input vectors (long double)"""
    a,b,tt=e; n=np.dot(np.cross(a,b),np.cross(a,b)); l0=np.sqrt(np.dot(np.cross(b,tt),np.cross(b,tt))/n); l1=np.sqrt(np.dot(np.cross(a,tt),np.cross(a,tt))/n)
    m=(l0*a+tt+l1*b)/2; sq=lambda x: np.dot(x,x)
    nom=sq(l1*b+tt-l0*a); W=[sq(l1*b+tt+l0*a)-nom,sq(-l1*b+tt-l0*a)-nom,sq(-l1*b+tt+l0*a)-nom]
    def th(x,y):
        c=abs(np.dot(x,y)/np.sqrt(sq(x)*sq(y))); T=2-2*c
        return np.sqrt(T) if T>=1e-21 else 0*T
    def sg(x):
        if x<=0: return 0
        if x>=KNEE: return 1
        d=x-KNEE/2; return d*((1 if d<0 else -1)*2/np.longdouble(KNEE*KNEE)*d+2/np.longdouble(KNEE))+.5
    r=2*th(a,m); s=sum(sg(-w) for w in W)
    if s: r=r+th(a,b)*s
    return r,W
def bounded_error(lib,con,cfg):
    rng=np.random.default_rng(7); f=lib._mrcal_triangulated_error; f.restype=ctypes.c_double; cnt=0; dp=ctypes.POINTER(ctypes.c_double)
    for k in range(600):
        kind=k%6; sc_=[.05,.5,3.,20.][k%4]; tt=rng.standard_normal(3)*sc_*.3; p=rng.standard_normal(3)*sc_+[0,0,2*sc_]
        a=p+rng.standard_normal(3)*sc_*.05; b=p-tt+rng.standard_normal(3)*sc_*.05
        if kind==1: a=-a; b=-b
        if kind==2: b=-b
        if kind==3: a=rng.standard_normal(3); b=rng.standard_normal(3)
        if kind==4: a=-a
        if kind==5: b=a+rng.standard_normal(3)*.1*sc_
        A,B,T=[np.asarray(x,np.longdouble) for x in(a,b,tt)]
        if np.linalg.norm(np.cross(a/np.linalg.norm(a),b/np.linalg.norm(b)))<1e-3: continue
        want_,W=err_num((A,B,T)); bad=lambda z: any(abs(z+o)<1e-5 for o in(0,KNEE/2,KNEE))
        if want_<1e-3 or any(bad(float(w)) for w in W): continue
        buf={n:(ctypes.c_double*4)(*[-7.25e77]*4) for n in('derr_dv1','derr_dt01')}
        ins=[(ctypes.c_double*3)(*x) for x in(a,b,tt)]
        got=f(*[None if n in cfg.null else buf[n] for n in('derr_dv1','derr_dt01')],*ins); cnt+=1
        env={'v0':a.tolist(),'v1':b.tolist(),'t01':tt.tolist()}
        if not abs(got-want_)<=1e-6*abs(float(want_)): return cnt,(env,con.fname+' value',got,float(want_))
        for n,wh in('derr_dv1',1),('derr_dt01',2):
            if n in cfg.null: continue
            if buf[n][3]!=-7.25e77: return cnt,(env,'write past '+n,None,None)
            g=[]
            for i in range(3):
                h=np.longdouble(1e-6)*max(abs(float(x)) for x in(a if wh==1 else tt)); V=[A,B,T]; d=np.zeros(3,np.longdouble); d[i]=h
                up=list(V); up[wh]=V[wh]+d; dn=list(V); dn[wh]=V[wh]-d; g.append(float((err_num(up)[0]-err_num(dn)[0])/(2*h)))
            for i in range(3):
                if not abs(buf[n][i]-g[i])<=1e-3*max(map(abs,g)): return cnt,(env,con.fname+' %s[%d]'%(n,i),buf[n][i],g[i])
    return cnt,None
def convergent(mods,con):
    sp=spec_mid2(); m=sp.cases[0].m; z=[sp.q.add('m%d'%i,x) for i,x in enumerate(m)]
    cfg=list(con.cases())[0]; ex,ps=C.sym_paths(mods,con,cfg); rs=[]
    for k,p in enumerate(ps):
        L='%s path %d: '%(con.fname,k); r=p.ret
        if p.viol or p.bad or not isinstance(r,(bool,int,Cond)): rs.append(Res('undecided',L+'result','engine',str(p.viol+p.bad)[:200]+repr(r)[:200])); continue
        for v in(True,False):
            if not isinstance(r,Cond) and bool(r)!=v: continue
            ab=abstract(p.allconds+([r if v else cnot(r)] if isinstance(r,Cond) else []),sp.q); g=sp.cases[0].ok if v else cor(sp.zero,cand(*[rcmp('eq',x,S.ZERO) for x in z]))
            rs.append(Res('proved' if implied(ab,sp.q.facts,g) else 'undecided',L+('true only for converging rays' if v else 'false only for diverging rays (or a point at the origin)'),'z3'))
    return rs,ex.called,len(ps)
def bounded_convergent(lib,con):
    rng=np.random.default_rng(5); e=samples(rng,300,False); f=getattr(lib,con.fname); f.restype=ctypes.c_bool; g=lib.mrcal_triangulate_leecivera_mid2; g.restype=P3; c=0
    for k in range(300):
        a=[(ctypes.c_double*3)(*[e['%s[%d]'%(n,i)][k] for i in range(3)]) for n in('v0','v1','t')]; w=any(g(None,None,None,*a).x); c+=1
        if f(*a)!=w: return c,({n:list(x) for n,x in zip(('v0','v1','t01'),a)},con.fname,f(*a),w)
    return c,None
def lemma_task(n,sp):
    def fn():
        rs=[]
        for l,a,b in sp().lemmas:
            o=prove.pit([(a,b)],1)[0]; rs.append(Res('proved' if o is True else 'undecided','%s: %s'%(n,l),'pit'))
        return rs,set(),0
    return Task('definition of %s: lemmas'%n,fn)
def tasks(thorough):
    mods=build.modules(['triangulation.cc']); lib=C.load_lib(); out=[]
    for n,mk in FN.items():
        con=contract(n); sp=mk()
        for cfg in con.cases(thorough):
            def fb(con=con,cfg=cfg,sp=sp):
                c,v=bounded(lib,con,cfg,sp,report.SEED)
                if v is None: c2,v=degenerate(lib,con,cfg); c+=c2
                return c,v
            out.append(Task(con.fname+' '+cfg.label(),lambda con=con,cfg=cfg,sp=sp: prove_fn(mods,con,cfg,sp),fb))
        out.append(lemma_task(n,mk))
    cc=Contract('_mrcal_triangulate_leecivera_mid2_is_convergent',[Arr(x,(3,),strided=False) for x in('v0','v1','t')],lambda c:[],layouts=('contig',),ctype_ret=ctypes.c_bool)
    out.append(Task(cc.fname,lambda: convergent(mods,cc),lambda: bounded_convergent(lib,cc)))
    con=Contract('_mrcal_triangulated_error',[Arr('derr_dv1',(3,),'out',True,strided=False),Arr('derr_dt01',(3,),'out',True,strided=False),Arr('v0',(3,),strided=False),Arr('v1',(3,),strided=False),Arr('t',(3,),strided=False)],
        lambda c:[],layouts=('contig',),nulls=[(),('derr_dv1',),('derr_dt01',),('derr_dv1','derr_dt01')])
    con.max_steps=40_000_000; con.decider=C.bound_decider
    con.grads=[('derr_dv1',['v1[%d]'%i for i in range(3)]),('derr_dt01',['t[%d]'%i for i in range(3)])]
    sp=spec_error(); d=build.scratch()
    open(d+'/w_triang.cc','w').write(WRAP); over=None
    try:
        wm=build.modules([d+'/w_triang.cc']); so=d+'/libwt.so'
        build.sh(['g++','-w','-O1','-fPIC','-shared']+build.inc()+[d+'/w_triang.cc',build.replay_lib(),'-o',so,'-lm'])
        out+=helper_tasks(wm,ctypes.CDLL(so))
        class H: pass
        h=H(); h.m0=mods[0] if isinstance(mods,list) else mods; h.names=list(h.m0.funcs); over=caller_over(h)
    except Exception as e: out.append(Task('helpers of _mrcal_triangulated_error',lambda e=e: ([Res('undecided','helpers of _mrcal_triangulated_error','engine',str(e)[-300:])],set(),0),lambda: bounded_error(lib,con,list(con.cases())[0])))
    if over: con.over=over
    for cfg in con.cases(thorough):
        out.append(Task(con.fname+' '+cfg.label(),lambda con=con,cfg=cfg: prove_error(mods,con,cfg,sp),lambda con=con,cfg=cfg: bounded_error(lib,con,cfg)))
    return out
