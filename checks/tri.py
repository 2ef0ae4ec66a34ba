"""C10, triangulated points: contracts over the grouping of the observations into sets.

The observations are P consecutive sets (one per point) of n_0, n_1, ... >= 1 observations;
the last observation of each set has last_in_set.  Ghost state at any moment: k sets
fully read, b = sum_{j<k} n_j, T = sum_{j<k} n_j(n_j-1)/2, and t observations of set k
already read, s = t(t-1)/2.  A read of last_in_set is only legal at observation b+t (the next
unread one) or at one that was just read, and answers t==n_k-1.  Loop invariants
(every loop variable as an affine function of the ghosts and the parameters, and order facts) are guessed
from concrete runs of the same code and then proved inductive for symbolic ghosts."""
import ctypes, itertools, random, struct
from fractions import Fraction
import sym as S, prove, loops, build, execu, contract as C
from sym import *
from execu import *
from contract import Res
from report import Task
from icon import probe, ceval

V=isym
G=('k','b','T','t','s')
_lay=None
def lay():
    """(sizeof, byte of last_in_set, mask)"""
    global _lay
    if _lay is None:
        v=probe('mrcal_observation_point_triangulated_t o; memset(&o,0,sizeof o); o.last_in_set=1; unsigned char*p=(unsigned char*)&o; for(unsigned i=0;i<sizeof o;i++) if(p[i]) printf("%d %d ",i,p[i]); printf("%d ",(int)sizeof o);')
        if len(v)!=3: raise RuntimeError('last_in_set is not one bit: %r'%v)
        _lay=(v[2],v[0],v[1])
    return _lay
def lt(a,b): return icmp('lt',a,b)
def le(a,b): return icmp('le',a,b)
def eq(a,b): return icmp('eq',a,b)
def sub(a,b): return iadd(a,imul(-1,b))
_f=itertools.count()
def facts(g,n,H):
    P,N=V('P'),V('N'); k,b,T,t,s=[g[x] for x in G]
    return [le(0,k),le(k,P),le(k,b),le(0,T),le(0,t),le(1,n),eq(imul(2,H),imul(n,sub(n,1))),le(0,H),eq(imul(2,s),imul(t,sub(t,1))),
            cor(lt(k,P),eq(b,N)),cor(le(P,k),le(iadd(b,n),N)),cor(eq(t,0),lt(t,n)),cor(eq(t,0),lt(k,P)),le(b,N),le(0,s)]
def fresh_set():
    i=next(_f); return V('n%d'%i),V('H%d'%i)
class Sets:
    """the triangulated observations; sets=None: symbolic"""
    def __init__(s,sets=None): s.sets=sets; s.last=[j==n-1 for n in sets for j in range(n)] if sets is not None else None
    def start(s,st):
        if s.sets is None:
            n,H=fresh_set(); g=dict.fromkeys(G,0)
            st.meta['g']=(g,n,H,None)
            st.assume(le(1,V('P'))); st.assume(le(V('P'),V('N')))
            for c in facts(g,n,H): st.assume(c)
        else: st.meta['g']=(dict.fromkeys(G,0),s.sets[0],s.sets[0]*(s.sets[0]-1)//2,None)
        o=st.add_obj(Obj('observations_point_triangulated',None,'input')); o.readonly=True; o.init=s.read; s.oid=o.id
        return Ptr(o.id,0)
    def read(s,x,st,o,off,ty):
        SZ,LB,M=lay(); g,n,H,last=st.meta['g']
        pos=iadd(g['b'],g['t'])
        d=x.canon(st,sub(sub(off,LB),imul(SZ,pos)))
        if d!=0:
            if isinstance(d,IP) or s.sets is None: raise Undecided('read of the observations at %s, expected %s'%(off,pos))
            raise Undecided('out-of-order read')
        if s.sets is not None:
            p=pos
            if p>=len(s.last): raise Undecided('read past the end')
            l=s.last[p]
        else:
            c=lt(g['k'],V('P')); r=x.decide(st,c)
            if r is None:
                if loops.iproves(st.path,c): st.assume(c)
                else: raise Fork(c)
            elif r is False: st.viol.append(('read past the end of the observations',str(off),None)); raise Infeasible()
            c=eq(iadd(g['t'],1),n); l=x.decide(st,c)
            if l is None: raise Fork(c)
        g2=dict(g)
        if l:
            g2.update(k=iadd(g['k'],1),b=iadd(g['b'],n),T=iadd(g['T'],H),t=0,s=0); last=(g['k'],g['b'],g['T'],n,H)
            if s.sets is None:
                n,H=fresh_set(); st.meta['g']=(g2,n,H,last)
                for c in facts(g2,n,H): st.assume(c)
            else:
                n=s.sets[g2['k']] if g2['k']<len(s.sets) else 1; st.meta['g']=(g2,n,n*(n-1)//2,last)
        else:
            g2.update(t=iadd(g['t'],1),s=iadd(g['s'],g['t'])); st.meta['g']=(g2,n,H,last)
            if s.sets is None:
                for c in facts(g2,n,H): st.assume(c)
        return KB(M,M if l else 0,'last%s'%pos)

def num(v):
    """value as an integer quantity; None: not one"""
    if isinstance(v,bool): return int(v)
    if isinstance(v,(int,IP)): return v
    return None
def key(st): return tuple(f.fn.name for f in st.frames)
def snap(x,st,fr,src,tgt):
    """all integer quantities visible at a loop header: {key:value}"""
    r={}
    for p in fr.fn.blocks[tgt]:
        if p.op!='phi': break
        r[('e',p.dst)]=x.val(st,p.ty,p.a[src])
    for d,v in fr.env.items(): r.setdefault(('e',d),v)
    for oid,o in st.mem.items():
        if o.kind in('output','local') :
            for off,c in o.cells.items():
                if isinstance(off,int): r[('m',o.name,off,c[0])]=c[1]
    return r
def split(v):
    """(shape, integer)"""
    if isinstance(v,Ptr): return ('p',),v.off if isinstance(v.off,(int,IP)) else None
    n=num(v)
    return ('i',),n

class Proof:
    def __init__(s,fname,mods,args,post,params,name=None,pre=(),samples=None):
        """args(st,sets) -> list of values, using the names of params as symbols"""
        s.fname=fname; s.mods=mods; s.args=args; s.post=post; s.params=params; s.name=name or fname; s.pre=list(pre); s.samples=samples
    # ---- concrete runs
    def concrete(s):
        rec={}; rng=random.Random(5)
        for _ in range(50):
            sets=[rng.randint(1,5) for _ in range(rng.randint(2,5))]; env={'P':len(sets),'N':sum(sets)}
            env.update({p:rng.choice(v) for p,v in s.params.items()})
            if any(not ceval(isb(c,env),{}) for c in s.pre): continue
            ex=Exec(s.mods); st=State(); obs=Sets(sets); a=s.args(st,obs)
            a=[isubst(v,env) if isinstance(v,IP) else v for v in a]
            for o in st.mem.values():
                for off,c in list(o.cells.items()):
                    if isinstance(c[1],IP): o.cells[off]=(c[0],isubst(c[1],env))
            def h(x,st,fr,src,tgt):
                if tgt in loops.natural_loops(fr.fn):
                    rec.setdefault((key(st),tgt),[]).append((dict(st.meta['g'][0]),env,snap(x,st,fr,src,tgt),st.meta['g'][1]))
                return None
            ex.loop_handler=h; ex.call(st,s.fname,a); ex.run(st)
        return rec
    def templates(s,rec):
        T={}
        for h,L in rec.items():
            ks=set(L[0][2])
            for l in L: ks&=set(l[2])
            base=list(G)+['P','N']+list(s.params); rows=[[1]+[g[x] for x in G]+[e[p] for p in base[len(G):]] for g,e,_,_ in L]
            t={}
            for q in ks:
                sp=[split(l[2][q]) for l in L]
                if any(x[1] is None or isinstance(x[1],IP) for x in sp): continue
                c=fit(rows,[x[1] for x in sp])
                if c is None: continue
                t[q]=c
            cand=[]
            for p in s.params:
                if p in('Npoints','imeasurement'):
                    for f in (lambda q,g: cor(lt(q,0),lt(g['k'],q)),lambda q,g: cor(lt(q,0),le(g['k'],q)),lambda q,g: le(g['T'],q),lambda q,g: lt(q,0),lambda q,g: le(0,q)):
                        cand.append((p,f))
            for f in (lambda q,g: lt(g['k'],V('P')),lambda q,g: eq(g['t'],0)): cand.append((None,f))
            ok=[]
            for p,f in cand:
                if all(ceval(isb(f(e[p] if p else None,g),e),{}) for g,e,_,_ in L): ok.append((p,f))
            T[h]=(base,t,ok)
        return T
    # ---- symbolic run
    def check(s):
        try: rec=s.concrete(); T=s.templates(rec)
        except (Undecided,S.SymError,KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError) as e:
            return [Res('undecided',s.name,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
        for _ in range(8):
            dropped=[False]
            try: r=s.attempt(T,dropped)
            except (Undecided,S.SymError,KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError) as e:
                return [Res('undecided',s.name,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
            if not dropped[0]: return r
        return [Res('undecided',s.name,'invariant inference','no inductive invariant')],set(),0
    def attempt(s,T,dropped):
        out=[]; ex=Exec(s.mods); st=State(); obs=Sets(); vals=s.args(st,obs)
        for c in s.pre: st.assume(c)
        seen=set(); todo=[]; objs={}
        def want(h,q,g):
            base,t,_=T[h]; c=t[q]; r=c[0]
            for n,x in zip(base,c[1:]):
                if x: r=iadd(r,imul(x,g[n] if n in g else V(n)))
            return r
        def h(x,st,fr,src,tgt):
            if tgt not in loops.natural_loops(fr.fn): return None
            hk=(key(st),tgt)
            if hk not in T: raise Undecided('loop header %s not reached by the concrete runs'%(hk,))
            if not loops.iconsistent(st.path): return []
            g,n,H,last=st.meta['g']; base,t,cands=T[hk]; now=snap(x,st,fr,src,tgt)
            for q in list(t):
                w=want(hk,q,g)
                if q in now and isinstance(now[q],Ptr) and objs.setdefault((hk,q),now[q].obj)!=now[q].obj: del t[q]; dropped[0]=True; continue
                a=split(now[q])[1] if q in now else None
                if a is None: del t[q]; dropped[0]=True; continue
                c=eq(a,w)
                if c is True or loops.iproves(st.path,c): out.append(Res('proved','%s : invariant %s at %s'%(s.name,q[1],hk[1]),'polynomial identity' if c is True else 'z3 (integers)'))
                else:
                    del t[q]; dropped[0]=True
            for cf in list(cands):
                p,f=cf; c=f(V(p) if p else None,g)
                if c is True or loops.iproves(st.path,c): out.append(Res('proved','%s : invariant fact at %s'%(s.name,hk[1]),'z3 (integers)'))
                else: cands.remove(cf); dropped[0]=True
            # progress: something was read since the last cut
            pos=iadd(g['b'],g['t'])
            p0=st.meta.get('cut')
            if p0 is not None and p0[0]==hk and not loops.iproves(st.path,lt(p0[1],pos)): raise Undecided('no progress in the loop')
            pc=[c for c in st.path if not ghosty(c)]; sk=(hk,frozenset(pc))
            if sk in seen: return []
            seen.add(sk)
            n_=st.copy(); i=next(_f); g2={x_:V('%s%d'%(x_,i)) for x_ in G}; nn,HH=fresh_set()
            n_.path=list(pc); n_.pset=set(n_.path); n_.isub={}
            n_.meta=dict(n_.meta); n_.meta['g']=(g2,nn,HH,None); n_.meta['cut']=(hk,iadd(g2['b'],g2['t']))
            for c in facts(g2,nn,HH): n_.assume(c)
            for p,f in cands: n_.assume(f(V(p) if p else None,g2))
            f2=n_.frames[-1]; env={}
            for q in t:
                if q[0]=='e':
                    v=now[q]; w=want(hk,q,g2); env[q[1]]=Ptr(v.obj,w) if isinstance(v,Ptr) else w
            f2.env=env
            o=n_.w(obs.oid); o.cells={}; o.symcells=set()
            for oid,o in list(n_.mem.items()):
                if o.kind in('output','local'):
                    o=n_.w(oid)
                    for off in list(o.cells):
                        if isinstance(off,int):
                            q=('m',o.name,off,o.cells[off][0])
                            if q in t: o.cells[off]=(o.cells[off][0],want(hk,q,g2))
                            else: del o.cells[off]
                        else: raise Undecided('symbolic cell at a loop header')
            f2.prev=src; f2.blk=tgt; blk=f2.fn.blocks[tgt]; f2.ip=0
            while blk[f2.ip].op=='phi': f2.ip+=1
            todo.append(n_)
            return []
        ex.loop_handler=h
        ex.call(st,s.fname,vals); done=ex.run(st)
        while todo: done+=ex.run(todo.pop())
        if dropped[0]: return None
        for k,d in enumerate(done):
            if not loops.iconsistent(d.path): continue
            L='%s path %d/%d'%(s.name,k+1,len(done))
            if d.viol: out.append(Res('failed',L+' : '+str(d.viol[0]),'symbolic execution','path %s'%(d.path,))); continue
            for lab,goal in s.post(d,obs):
                r=goal if isinstance(goal,bool) else prove_i(d.path,goal)
                out.append(Res('proved' if r is True else 'failed' if r is False else 'undecided','%s : %s'%(L,lab),'z3 (integers and reals)','path %s'%([str(c) for c in d.path],)))
        if not any(r.status=='proved' for r in out): out.append(Res('undecided',s.name,'symbolic execution','nothing proved'))
        return out,ex.called,len(done)
def ghosty(c):
    return c is False or any(not isinstance(a,str) or (a.rstrip('0123456789') in G+('n','H') and a[-1:].isdigit()) for a in loops.catoms(c))
def catoms(c): return [a for a in loops.catoms(c) if isinstance(a,str)]
def isb(c,e): return c if isinstance(c,bool) else loops.csubst(c,e)
def prove_i(path,goal):
    if loops.iproves(path,goal): return True
    r=prove.z3_check(list(path)+[cnot(goal)],20000)
    return True if r=='unsat' else None
def fit(rows,ys,order=None):
    """integer coefficients c with rows.c==ys for all rows (sparse solution), or None"""
    n=len(rows[0])
    # constants and single-variable fits first
    if all(y==ys[0] for y in ys): return (ys[0],)+(0,)*(n-1)
    for j in (order or range(1,n)):
        a=next(((rows[i][j]-rows[0][j],ys[i]-ys[0]) for i in range(len(ys)) if rows[i][j]!=rows[0][j]),None)
        if a is None or a[1]%a[0]: continue
        k=a[1]//a[0]; c0=ys[0]-k*rows[0][j]
        if all(c0+k*r[j]==y for r,y in zip(rows,ys)): return (c0,)+tuple(k if q==j else 0 for q in range(1,n))
    A=[[Fraction(v) for v in r]+[Fraction(y)] for r,y in zip(rows,ys)]
    piv=[]; r=0
    for c in range(n):
        p=next((i for i in range(r,len(A)) if A[i][c]!=0),None)
        if p is None: continue
        A[r],A[p]=A[p],A[r]; d=A[r][c]; A[r]=[v/d for v in A[r]]
        for i in range(len(A)):
            if i!=r and A[i][c]!=0:
                f=A[i][c]; A[i]=[a-f*b for a,b in zip(A[i],A[r])]
        piv.append(c); r+=1
    if any(A[i][n]!=0 for i in range(r,len(A))): return None
    x=[Fraction(0)]*n
    for i,c in enumerate(piv): x[c]=A[i][n]
    if any(v.denominator!=1 for v in x): return None
    return tuple(int(v) for v in x)

# ------------------------------------------------------------------ contracts
def null_ghost(d): return d.meta['g'][0]
def post_initial(extra=0):
    def post(d,obs):
        g=d.meta['g'][0]; q=V('Npoints')
        yield 'stops between two sets',eq(g['t'],0)
        yield 'all the requested points are counted',cor(eq(g['k'],V('P')),cand(le(0,q),eq(g['k'],q)))
        yield 'no further point is counted',cor(lt(q,0),le(g['k'],q))
        yield 'number of pairs of the leading points',eq(d.ret,iadd(g['T'],extra))
    return post
def post_all(extra):
    def post(d,obs):
        g=d.meta['g'][0]
        yield 'all points are counted',cand(eq(g['k'],V('P')),eq(g['t'],0))
        yield 'value',eq(d.ret,iadd(g['T'],extra))
    return post
def post_index(d,obs):
    g=d.meta['g'][0]; q=V('Npoints')
    start=iadd(imul(2,imul(V('Nob'),imul(V('w'),V('h')))),imul(2,V('Nop')))
    yield 'first measurement of point i',cor(cand(eq(g['k'],q),eq(g['t'],0),eq(d.ret,iadd(start,g['T']))),le(V('P'),q))
def outs(st,names):
    r=[]
    for n in names:
        o=st.add_obj(Obj(n,4,'output')); r.append(Ptr(o.id,0))
    return r
ON=('iobservation0','iobservation1','iobservation_point0','Nobservations_this_point','Nmeasurements_this_point','ipoint')
def post_decode(d,obs):
    g,_,_,last=d.meta['g']; m=V('imeasurement')
    o={x.name:x.cells.get(0) for x in d.mem.values() if x.kind=='output'}
    tr=d.ret if isinstance(d.ret,Cond) else (d.ret&1)==1 if isinstance(d.ret,int) else cnot(eq(d.ret,0))
    if tr is not True and tr is not False:
        yield 'returns a definite flag',False; return
    if tr is False:
        yield 'no such measurement',cand(eq(g['k'],V('P')),le(g['T'],m)); return
    if last is None: yield 'a set was read',False; return
    k,b,T,n,H=last
    yield 'the measurement is one of this point',cand(le(T,m),lt(m,iadd(T,H)))
    def v(nm):
        c=o[nm]; return None if c is None else c[1]
    for nm,w in ('iobservation_point0',b),('Nobservations_this_point',n),('Nmeasurements_this_point',H),('ipoint',k):
        x=v(nm); yield nm,False if x is None else eq(x,w)
    i,j=v('iobservation0'),v('iobservation1')
    if i is None or j is None: yield 'pair written',False; return
    i=sub(i,b); j=sub(j,b); mm=sub(m,T)
    at=[a for a in iatoms(i) if isinstance(a,tuple) and a[0]=='ftoi']
    if len(at)==1:
        # the truncated expression: (x - sqrt(x^2-8m))/2 with x=2n-1, by definition of the square root
        e=execu.FTOI[at[0]]; yield from pair_lemma(d.path,i,j,mm,n,at[0],e,T)
    else:
        yield 'pair order',cand(le(0,i),lt(i,j),lt(j,n))
        yield 'pair',eq(imul(2,mm),iadd(imul(i,sub(sub(imul(2,n),1),i)),imul(2,sub(sub(j,i),1))))
def pair_lemma(path,i,j,m,n,at,e,T):
    """z3 lemmas about the truncation; every step is an obligation"""
    import z3
    def unsat(z,cs,t=20000):
        s=z3.Solver(); s.set('timeout',t); s.add(*cs); s.add(*z.ax); return s.check()==z3.unsat
    sq=[t for t in S.topo([e]) if t.op=='f' and t.a[0]=='sqrt']
    if len(sq)!=1: yield 'the first observation comes from one square root',None; return
    q=sq[0]; arg=q.a[1]
    x_=S.sub(S.mul(S.R(2),S.i2r(n)),S.ONE)
    def req(a,b): return S.sub(a,b)
    pair=[(arg,S.sub(S.mul(x_,x_),S.mul(S.R(8),S.i2r(m)))),(e,S.div(S.sub(x_,q),S.R(2)))]
    r=prove.pit(pair)
    yield 'square root of (2n-1)^2-8m, halved difference',True if r and r[0]=='equal' or r is True else None
    # lemma over plain integers/reals: o=floor((x-s)/2) is the row of m
    N,M,O=z3.Ints('n m o'); s=z3.Real('s'); X=z3.ToReal(2*N-1); Mr=z3.ToReal(M); Or=z3.ToReal(O)
    hyp=[N>=2,M>=0,2*M<N*(N-1),s>=0,s*s==X*X-8*Mr]
    def L(lab,h,g):
        sv=z3.Solver(); sv.set('timeout',30000); sv.add(*h); sv.add(z3.Not(g)); return lab,True if sv.check()==z3.unsat else None
    Nr=z3.Real('nr'); Mq=z3.Real('mr'); Oq=z3.Real('or'); Xr=2*Nr-1
    H0=[Nr>=2,Mq>=0,2*Mq<=Nr*(Nr-1)-2,s>=0,s*s==Xr*Xr-8*Mq]
    yield L('lemma: s<=2n-1',H0,s<=Xr)
    yield L('lemma: s>=3 (m<=n(n-1)/2-1)',H0,s>=3)
    H1=H0+[s<=Xr,s>=3,Oq<=(Xr-s)/2,(Xr-s)/2<Oq+1,Oq>=0]
    yield L('lemma: row o starts at or before m',[Oq>=0,s>=0,s<=Xr-2*Oq,s*s==Xr*Xr-8*Mq],Oq*(2*Nr-1-Oq)<=2*Mq)
    yield L('lemma: o<=n-2',[s>=3,Oq<=(Xr-s)/2],Oq<=Nr-2)
    yield L('lemma: row o+1 starts after m',[s>=0,s>Xr-2*Oq-2,Xr-2*Oq-2>=0,s*s==Xr*Xr-8*Mq],(Oq+1)*(2*Nr-2-Oq)>2*Mq)
    # the integer side: with 0<=o<=n-2 and the row bounds, the code's i and j are the pair of m
    o=iatom(at)
    hy=[le(0,o),le(o,sub(n,2)),le(imul(o,sub(sub(imul(2,n),1),o)),imul(2,m)),lt(imul(2,m),imul(iadd(o,1),sub(sub(imul(2,n),2),o)))]
    yield 'first observation of the pair',prove_i(list(path),eq(i,o))
    c=eq(imul(2,m),iadd(imul(o,sub(sub(imul(2,n),1),o)),imul(2,sub(sub(j,o),1))))
    # o(o+3-2n) is even
    ev=[eq(imul(o,iadd(o,-1)),imul(2,V('$half')))]
    yield 'second observation: the pair (i,j) is measurement m',prove_i(list(loops.intconds(path))+hy+ev,c)
    yield 'order 0<=i<j<n',prove_i(hy+[c],cand(le(0,o),lt(o,j),lt(j,n)))
def proofs(mods):
    from layout import Model,MODELS,sels,meas,states
    from icon import Bytes
    P=[]
    def a_init(st,obs):
        p=obs.start(st); return [p,V('N'),V('Npoints')]
    P.append(Proof('mrcal_num_measurements_points_triangulated_initial_Npoints',mods,a_init,post_initial(),{'Npoints':(-1,0,1,2,3,4,7)}))
    def a_num(st,obs): return [obs.start(st),V('N')]
    P.append(Proof('mrcal_num_measurements_points_triangulated',mods,a_num,post_all(0),{}))
    def a_idx(st,obs): p=obs.start(st); return [V('Npoints'),V('Nob'),V('Nop'),p,V('N'),V('w'),V('h')]
    nn={'Nob':(0,1,2),'Nop':(0,1,3),'w':(2,3),'h':(2,4)}
    pre=[le(0,V(x)) for x in nn]
    P.append(Proof('mrcal_measurement_index_points_triangulated',mods,a_idx,post_index,dict(nn,Npoints=(0,1,2,3)),pre=pre+[le(0,V('Npoints')),lt(V('Npoints'),V('P'))]))
    def a_dec(st,obs):
        p=obs.start(st); return outs(st,ON)+[V('imeasurement'),p,V('N')]
    P.append(Proof('mrcal_decode_observation_indices_points_triangulated',mods,a_dec,post_decode,{'imeasurement':tuple(range(0,30))},pre=[le(0,V('imeasurement'))]))
    for m in MODELS():
        for k,sb in [x for x in sels(('core','dist','extr','reg','unity')) if x[0]['core']==x[0]['dist'] and x[0]['extr']==x[0]['unity']]:
            wh,nb,npt,per=meas(m,k); reg=imul(V('Nci'),per)
            unity=lt(0,V('Nce')) if k['unity'] and k['extr'] else False
            nn2=dict(nn,Nci=(0,1,2),Nce=(0,1,2),Nf=(0,2),Np=(2,3),Npf=(0,1))
            if m.splined: nn2.update(Nx=(4,5),Ny=(3,6))
            pre2=[le(0,V(x)) for x in nn2]+m.pre+[le(V('Npf'),V('Np'))]
            ext=[V(x) for x in('Nci','Nce','Nf','Np','Npf')]
            def lm(st,m=m):
                o=st.add_obj(Obj('lensmodel',None,'input')); o.cells.update(m.cells); o.readonly=True; return Ptr(o.id,0)
            def a_num(st,obs,sb=sb,lm=lm):
                p=obs.start(st); return [V('Nob'),V('Nop'),p,V('N'),V('w'),V('h')]+[V(x) for x in('Nci','Nce','Nf','Np','Npf')]+[sb,lm(st)]
            def post(d,obs,tot=iadd(iadd(nb,npt),reg),unity=unity):
                g=d.meta['g'][0]; w=iadd(tot,g['T'])
                yield 'all points are counted',cand(eq(g['k'],V('P')),eq(g['t'],0))
                yield 'with the unit baseline term',cor(cnot(unity),eq(d.ret,iadd(w,1)))
                yield 'without it',cor(unity,eq(d.ret,w))
            lb=' <%s> sel=%s'%(m.name,''.join(n+' ' for n in k if k[n]).strip() or 'none')
            P.append(Proof('mrcal_num_measurements',mods,a_num,post,nn2,pre=pre2,name='mrcal_num_measurements'+lb))
            def a_reg(st,obs,sb=sb,lm=lm):
                p=obs.start(st); return [p,V('N'),V('w'),V('h')]+[V(x) for x in('Nci','Nce','Nf','Np','Npf')]+[V('Nob'),V('Nop'),sb,lm(st)]
            def post(d,obs,tot=iadd(nb,npt),reg=reg,unity=unity):
                g=d.meta['g'][0]; w=iadd(tot,g['T']); present=cor(lt(0,reg),unity)
                yield 'start of the block, after all points',cor(cnot(present),cand(eq(d.ret,w),eq(g['k'],V('P')),eq(g['t'],0)))
                yield 'absent',cor(present,eq(d.ret,-1))
            P.append(Proof('mrcal_measurement_index_regularization',mods,a_reg,post,nn2,pre=pre2,name='mrcal_measurement_index_regularization'+lb))
    return P
# ------------------------------------------------------------------ bounded, on the compiled code
def pack(sets):
    SZ,LB,M=lay(); b=bytearray()
    for n in sets:
        for j in range(n):
            o=bytearray(SZ)
            if j==n-1: o[LB]|=M
            b+=o
    return bytes(b)
def compositions(n):
    if n==0: yield []; return
    for a in range(1,n+1):
        for r in compositions(n-a): yield [a]+r
def total_check(lib,buf,N,T):
    from layout import sel,SEL
    from lens import lensmodel_bytes
    lm=lensmodel_bytes('LENSMODEL_OPENCV8'); ci=ctypes.c_int; ok=True
    for kw,reg in (({},0),({SEL[0]:1,SEL[1]:1,SEL[5]:1},2*10),({SEL[0]:1,SEL[1]:1,SEL[2]:1,SEL[5]:1,SEL[7]:1},2*10+1)):
        b=ctypes.c_ubyte(sel(**kw)); ext=[ci(2),ci(1),ci(3),ci(4),ci(1)]
        g=lib.mrcal_num_measurements(ci(3),ci(2),buf,ci(N),ci(4),ci(5),*ext,b,lm); ok&=g==120+4+T+reg
        g=lib.mrcal_measurement_index_regularization(buf,ci(N),ci(4),ci(5),*ext,ci(3),ci(2),b,lm); ok&=g==(120+4+T if reg else -1)
    return ok
def bounded(lib,maxn):
    f0=lib.mrcal_num_measurements_points_triangulated_initial_Npoints; f1=lib.mrcal_num_measurements_points_triangulated
    f2=lib.mrcal_measurement_index_points_triangulated; f3=lib.mrcal_decode_observation_indices_points_triangulated
    f3.restype=ctypes.c_bool; cnt=0
    ci=ctypes.c_int
    structures=[c for n in range(1,maxn+1) for c in compositions(n)]+[[17],[3,40,2],[1,100,1,7],[250,2]]
    for sets in structures:
        N=sum(sets); buf=ctypes.create_string_buffer(pack(sets),len(pack(sets)))
        cum=[0]
        for n in sets: cum.append(cum[-1]+n*(n-1)//2)
        env={'sets':sets}
        for q in range(-1,len(sets)+2):
            w=cum[-1] if q<0 else cum[min(q,len(sets))]; cnt+=1
            g=f0(buf,ci(N),ci(q))
            if g!=w: return cnt,(dict(env,Npoints=q),'mrcal_num_measurements_points_triangulated_initial_Npoints',g,w)
        g=f1(buf,ci(N)); cnt+=1
        if g!=cum[-1]: return cnt,(env,'mrcal_num_measurements_points_triangulated',g,cum[-1])
        for i in range(len(sets)):
            for nob,nop,w_,h_ in (0,0,2,2),(3,5,2,7):
                w=2*nob*w_*h_+2*nop+cum[i]; g=f2(ci(i),ci(nob),ci(nop),buf,ci(N),ci(w_),ci(h_)); cnt+=1
                if g!=w: return cnt,(dict(env,i=i,Nob=nob,Nop=nop,w=w_,h=h_),'mrcal_measurement_index_points_triangulated',g,w)
        m=0; b=0
        o=[ci(-77) for _ in range(6)]
        for k,n in enumerate(sets):
            for i in range(n):
                for j in range(i+1,n):
                    r=f3(*[ctypes.byref(x) for x in o],ci(m),buf,ci(N)); cnt+=1
                    got=(bool(r),)+tuple(x.value for x in o); w=(True,b+i,b+j,b,n,n*(n-1)//2,k)
                    if got!=w: return cnt,(dict(env,imeasurement=m),'mrcal_decode_observation_indices_points_triangulated',got,w)
                    m+=1
            b+=n
        for total in (lib.mrcal_num_measurements,):
            if total_check(lib,buf,N,cum[-1]): cnt+=1
            else: return cnt,(env,'mrcal_num_measurements / mrcal_measurement_index_regularization','wrong','sum of the blocks')
        for q in (m,m+3):
            r=f3(*[ctypes.byref(x) for x in o],ci(q),buf,ci(N)); cnt+=1
            if r: return cnt,(dict(env,imeasurement=q),'mrcal_decode_observation_indices_points_triangulated: past the end',True,False)
    return cnt,None
def tasks(mods,lib,thorough):
    lay()
    return [Task(p.name+' <sets of observations>',p.check,lambda: bounded(lib,11 if thorough else 9)) for p in proofs(mods)]
