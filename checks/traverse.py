"""C16: mrcal_traverse_sensor_links (traverse-sensor-links.c), mrcal_heap_* (heap.cc)."""
import sym as S, build, contract as C, report, prove, direct, loops, execu, ctypes, numpy as np
from report import Task
from contract import Res, Undecided
from execu import Exec, State, Obj, Ptr, FPtr, NULL, Infeasible
from sym import isym, icmp, iadd, imul, cand, cnot, cor
I64=('int',64); I32=('int',32); I16=('int',16); I48=('int',48); I8=('int',8)
N=isym('N')
# ---------------------------------------------------------------- the triangular matrix index
def run_pairwise(mods):
    import z3
    rs=[]; L='pairwise_index'; h=direct.H(mods); a,b=isym('a'),isym('b')
    h.assume(icmp('le',0,a),icmp('le',0,b),icmp('lt',a,N),icmp('lt',b,N),icmp('le',N,65535),cnot(icmp('eq',a,b)))
    done=h.call('pairwise_index',[a,b,N]); cs=[]
    if any(st.viol for st in done): raise Undecided(str([st.viol for st in done if st.viol][:1])[:200])
    zn=z3.Int('N'); fresh=[0]
    def z(p,m,side):
        if isinstance(p,int): return z3.IntVal(p)
        r=z3.IntVal(0)
        for mon,co in p.t.items():
            t=z3.IntVal(co)
            for at,pw in mon:
                if at in m: v=m[at]
                elif isinstance(at,tuple) and at[0]=='sdiv' and at[2]==2:
                    X=z(at[1],m,side); fresh[0]+=1; v=z3.Int('q%d'%fresh[0]); rr=z3.Int('r%d'%fresh[0]); side+=[X==2*v+rr,rr>=0,rr<=1,z3.Implies(X<0,rr==0)]; m[at]=v
                else: raise Undecided('atom %s'%(at,))
                for _ in range(pw): t=t*v
            r=r+t
        return r
    # 2*index == row-first position in the upper triangle
    A=S.isym('a'); 
    for k,st in enumerate(done):
        za,zb=z3.Ints('a b'); side=[]; m={'a':za,'b':zb,'N':zn}
        r=z(st.ret,m,side); cond=[]
        for c in st.path:
            cond.append(zc(c,lambda p: z(p,m,side)))
        lo,hi=z3.If(za<zb,za,zb),z3.If(za<zb,zb,za); j=z3.Int('j')
        s=z3.Solver(); s.set('timeout',20000); s.add(cond+side); sp=2*(hi-lo-1)+lo*(2*zn-lo-1)
        # (lo+1)(lo+2) is even (product of neighbours)
        s.add(z3.Or(lo==2*j,lo==2*j+1)); s.add(2*r!=sp)
        ok=s.check(); rs.append(Res('proved' if ok==z3.unsat else 'undecided','%s path %d: row-first position in the upper triangle'%(L,k),'z3'))
    # the specified position is in range and identifies the pair
    x,y,p,q,n=z3.Ints('x y p q n'); F=lambda l,h: 2*(h-l-1)+l*(2*n-l-1)
    base=[0<=x,x<y,y<n,0<=p,p<q,q<n]
    d=z3.Int('d')
    for lab,neg in(('0 <= index',[F(x,y)<0]),('index < N(N-1)/2',[d==n-2-x,d>=0,F(x,y)>=n*(n-1)]),('different pairs, different indices: same row',[x==p,y!=q,F(x,y)==F(p,q)]),
                   ('different pairs, different indices: rows are disjoint',[x<p,d==p-x-1,F(x,n-1)+2>2*0+F(p,p+1)]) ,('... and a row is within its bounds',[z3.Or(F(x,y)<F(x,x+1),F(x,y)>F(x,n-1))])):
        s=z3.Solver(); s.set('timeout',20000); s.add(base+neg); ok=s.check()
        rs.append(Res('proved' if ok==z3.unsat else 'undecided','lemma: triangular storage: '+lab,'z3'))
    return rs,h.ex.called,len(done)
def zc(c,z):
    import z3
    if isinstance(c,bool): return z3.BoolVal(c)
    if c.op=='i<=': return z(c.a)<=0
    if c.op=='i<': return z(c.a)<0
    if c.op=='i==': return z(c.a)==0
    if c.op=='not': return z3.Not(zc(c.a[0],z))
    if c.op=='and': return z3.And([zc(x,z) for x in c.a])
    if c.op=='or': return z3.Or([zc(x,z) for x in c.a])
    raise Undecided('condition %s'%(c,))
# ---------------------------------------------------------------- loops by contract: one generic iteration
def iteration(fname,havoc):
    """loop hook: the first loop of fname that is reached is replaced by one iteration from an arbitrary state. havoc(x,st,fr,inits)
    returns the values of the loop's phis in that state (assumptions are added to st). Returns (hook, iters): iters gets (state, next phi values)"""
    iters=[]; entries=[]; mine={}
    def hook(x,st,fr,src,tgt):
        if fr.fn.name!=fname: return None
        Ls=loops.natural_loops(fr.fn)
        if tgt not in Ls: return None
        blk=fr.fn.blocks[tgt]; ph=[i for i in blk if i.op=='phi']
        def vals(): return {p.dst:x.val(st,p.ty,p.a[src]) for p in ph}
        if mine.setdefault('h',tgt)!=tgt: raise Undecided('a second loop in '+fname)
        if src in Ls[tgt]:
            s=st.copy(); iters.append((s,vals())); return []
        if st.meta.get('entered'): raise Undecided('loop entered twice')
        v0=vals(); entries.append((st.copy(),v0)); st.meta['entered']=True
        new=havoc(x,st,fr,v0)
        fr.prev=src; fr.blk=tgt
        for d,v in new.items(): fr.env[d]=v
        fr.ip=len(ph)
        return [st]
    return hook,iters,entries
def nodeobj(h,name='nodes'):
    """node k: parent p(k), done d(k) in {0,1}, cost c(k)"""
    def at(n,k): return isym('%s(%s)'%(n,k))
    def init(x,st,o,off,ty):
        w=ty[1]//8 if ty[0]=='int' else 0
        for base in(0,2):
            k=iadd(off,-base)
            kk=loops.exdiv(k,8)
            if kk is not None and ((base==0 and w==2) or (base==2 and w==6)): break
        else: raise Undecided('node field at %s width %d'%(off,w))
        if base==0:
            v=at('p',kk); lim=[(v,0,65535)]; r=v
        else:
            d,c_=at('d',kk),at('c',kk); lim=[(d,0,1),(c_,0,2**33)]; r=iadd(d,imul(c_,2))
        for v,lo,hi in lim:
            for q in(icmp('le',lo,v),icmp('le',v,hi)):
                if q not in st.pset: st.assume(q)
        return r
    o=h.st.add_obj(Obj(name,None,'output')); o.policy='check'; o.init=init; h.objs[name]=Ptr(o.id,0)
    return h.objs[name]
def node_at(h,st,k):
    """(parent, done, cost) of node k now; splits are not expected (aliases are decided by the path)"""
    p=h.ex.load(st,h.m,I16,Ptr(h.objs['nodes'].obj,imul(k,8))); v=h.ex.load(st,h.m,I48,Ptr(h.objs['nodes'].obj,iadd(imul(k,8),2)))
    return p,v
def run_visit(mods):
    idx,j,pw=isym('idx'),isym('j'),isym('pw'); L='visit'; rs=[]
    W=isym('w')
    def o_pair(x,st,a,ins):
        i,k,n=a
        if n!=N or not((i==j and k==idx) or (i==idx and k==j)): raise Undecided('pairwise_index(%s,%s,%s)'%(i,k,n))
        if not loops.iproves(st.path,cnot(icmp('eq',i,k))): raise Undecided('pairwise_index of a sensor with itself')
        return pw
    def o_push(x,st,a,ins):
        v=x.load(st,h.m,I48,Ptr(nodes.obj,iadd(imul(a[2],8),2)))
        st.log.append(('push',a[0],a[1],a[2],v))
    def o_resort(x,st,a,ins):
        v=x.load(st,h.m,I48,Ptr(nodes.obj,iadd(imul(j,8),2)))
        st.log.append(('resort',a[0],a[1],j,v))
    def havoc(x,st,fr,v0):
        if len(v0)!=1: raise Undecided('loop variables of visit')
        st.assume(icmp('le',0,j)); return {d:j for d in v0}
    hook,iters,entries=iteration('visit',havoc)
    h=direct.H(mods,over={'pairwise_index':o_pair,'mrcal_heap_push':o_push,'mrcal_heap_resort':o_resort},loop=hook)
    nodes=nodeobj(h); heap=h.obj('heap',16,'in',lambda off,ty: (_ for _ in ()).throw(Undecided('heap read')))
    def cinit(x,st,o,off,ty):
        if off!=imul(pw,2) or ty!=I16: raise Undecided('connectivity matrix read at %s'%(off,))
        for q in(icmp('le',0,W),icmp('le',W,65535)):
            if q not in st.pset: st.assume(q)
        return W
    o=h.st.add_obj(Obj('conn',None,'input')); o.policy='check'; o.readonly=True; o.init=cinit; conn=Ptr(o.id,0)
    h.assume(icmp('le',0,idx),icmp('lt',idx,N),icmp('le',N,65535))
    done=h.call('visit',[idx,nodes,heap,N,conn])
    P,D,Co=(lambda n: (lambda k: isym('%s(%s)'%(n,k))))('p'),(lambda k: isym('d(%s)'%k)),(lambda k: isym('c(%s)'%k))
    def ok(st,g): return loops.iproves(st.path,g)
    def put(lab,good,det=''): rs.append(Res('proved' if good else 'undecided',L+': '+lab,'engine, z3',det))
    viols=[st for st in done if st.viol]+[s for s,_ in iters if s.viol]
    put('memory safety and frame',not viols,str([s.viol for s in viols][:1])[:200])
    put('one loop over the neighbors',len(entries)==1 and len(iters)>0)
    for s,v0 in entries:
        put('neighbors from 0',list(v0.values())==[0]); st=s.copy()
        v=h.ex.load(st,h.m,I48,Ptr(nodes.obj,iadd(imul(idx,8),2))); p=h.ex.load(st,h.m,I16,Ptr(nodes.obj,imul(idx,8)))
        put('the visited node is marked done and keeps its cost and parent',ok(st,icmp('eq',v,iadd(imul(Co(idx),2),1))) and ok(st,icmp('eq',p,isym('p(%s)'%idx))) and not s.log)
    for st in done:
        if st.viol: continue
        put('returns after the last neighbor',ok(st,icmp('le',N,j)) and not st.log)
    seen=set()
    for st,nv in iters:
        if not loops.iconsistent(st.path): continue
        s=st.copy(); cdone=icmp('eq',D(j),1)
        put('next neighbor',len(nv)==1 and ok(s,icmp('eq',list(nv.values())[0],iadd(j,1)))); put('within the sensors',ok(s,icmp('lt',j,N)))
        # is there an edge?
        new=iadd(iadd(Co(idx),65536),imul(W,-1)); same=ok(s,icmp('eq',j,idx)) 
        if same:
            put('the node itself is not its neighbor',not s.log and all_same(h,s,nodes,idx,1)); seen.add('self'); continue
        p,v=node_at(h,s,j); pi,vi=node_at(h,s,idx); W0=ok(s,icmp('eq',W,0))
        put('the visited node is not changed by its neighbors',ok(s,icmp('eq',vi,iadd(imul(Co(idx),2),1))) and ok(s,icmp('eq',pi,isym('p(%s)'%idx))))
        unchanged=ok(s,icmp('eq',p,isym('p(%s)'%j))) and ok(s,icmp('eq',v,iadd(D(j),imul(Co(j),2))))
        upd=ok(s,icmp('eq',p,idx)) and ok(s,icmp('eq',v,imul(new,2))) and ok(s,icmp('eq',D(j),0))
        ev=[(e[0],e[3]) for e in s.log]; evok=all(e[1]==heap and True or (e[1].obj==heap.obj and e[1].off==0) for e in s.log) and all(e[2].obj==nodes.obj and e[2].off==0 for e in s.log) and all(ok(s,icmp('eq',e[4],v)) for e in s.log)
        put('the heap functions get this heap and these nodes, after the costs are set',evok)
        if W0: put('no edge: nothing changes',unchanged and not ev); seen.add('noedge')
        elif ok(s,icmp('eq',D(j),1)): put('done neighbor: nothing changes',unchanged and not ev); seen.add('done')
        elif ok(s,icmp('eq',Co(j),0)): put('first path to the neighbor: cost and parent are set, and it enters the heap',upd and ok(s,icmp('lt',0,W)) and ev==[('push',j)]); seen.add('new')
        elif ok(s,icmp('lt',new,Co(j))): put('cheaper path to the neighbor: cost and parent are updated, and the heap is re-ordered',upd and ok(s,icmp('lt',0,W)) and ok(s,icmp('lt',0,Co(j))) and ev==[('resort',j)]); seen.add('better')
        elif ok(s,icmp('le',Co(j),new)): put('no better path: nothing changes',unchanged and not ev); seen.add('worse')
        else: put('case of the contract',False)
    put('every case occurs',seen>={'self','noedge','done','new','better','worse'},str(seen))
    return rs,h.ex.called,len(done)+len(iters)
def all_same(h,s,nodes,k,d):
    p,v=node_at(h,s,k); return loops.iproves(s.path,icmp('eq',p,isym('p(%s)'%k))) and loops.iproves(s.path,icmp('eq',v,iadd(imul(isym('c(%s)'%k),2),d)))
def run_main(mods):
    L='mrcal_traverse_sensor_links'; rs=[]; top,par=isym('top'),isym('parent'); emp=S.Cond('atom',('heap empty',)); cbok=S.Cond('atom',('callback returned true',))
    H={}
    def o_visit(x,st,a,ins):
        if 'nodes' not in H: H['nodes'],H['heap']=a[1].obj,a[2].obj
        if not(a[1].obj==H['nodes'] and a[1].off==0 and a[2].obj==H['heap'] and a[2].off==0 and a[3]==N and a[4].obj==conn.obj and a[4].off==0): raise Undecided('visit() arguments')
        if not st.meta.get('entered'):
            s=st.copy(); e=isym('e'); s.assume(icmp('le',0,e)); s.assume(icmp('lt',e,N))
            st.log.append(('init',[h.ex.load(s,h.m,I8,Ptr(a[1].obj,iadd(imul(e,8),b))) for b in range(8)],h.ex.load(s,h.m,I32,Ptr(a[2].obj,8)),st.o(a[1].obj).size,st.o(h.ex.load(s,h.m,('ptr',),Ptr(a[2].obj,0)).obj).size))
        st.log.append(('visit',a[0]))
    def hargs(a):
        if not(a[0].obj==H.get('heap') and a[1].obj==H.get('nodes')): raise Undecided('heap function arguments')
    def o_empty(x,st,a,ins): hargs(a); st.log.append(('empty',)); return emp
    def o_pop(x,st,a,ins):
        hargs(a); st.log.append(('pop',)); 
        for q in(icmp('le',0,top),icmp('lt',top,N)): st.assume(q)
        o=st.w(H['nodes']); o.init=ninit; o.zero=[]; o.cells={}; return top
    def ninit(x,st,o,off,ty):
        if off==imul(top,8) and ty==I16: return par
        raise Undecided('node field at %s'%(off,))
    def o_cb(x,st,a,ins): st.log.append(('cb',a[0],a[1],a[2])); return cbok
    def havoc(x,st,fr,v0):
        if v0: raise Undecided('loop variables')
        st.log=list(st.log)+[('loop',)]; return {}
    hook,iters,entries=iteration(L,havoc)
    h=direct.H(mods,over={'visit':o_visit,'mrcal_heap_empty':o_empty,'mrcal_heap_pop':o_pop,'cb':o_cb},loop=hook)
    conn=h.obj('conn',None,'in',lambda off,ty: (_ for _ in ()).throw(Undecided('matrix read'))); ck=h.obj('cookie',None,'in',lambda off,ty: (_ for _ in ()).throw(Undecided('cookie read')))
    h.assume(icmp('le',1,N),icmp('le',N,65535))
    done=h.call(L,[N,conn,FPtr('cb'),ck])
    def put(lab,good,det=''): rs.append(Res('proved' if good else 'undecided',L+': '+lab,'engine',det))
    put('memory safety',not any(s.viol for s in done) and not any(s.viol for s,_ in iters),str([s.viol for s in done if s.viol][:1])[:200])
    put('one loop',len(entries)==1)
    for s,_ in entries:
        e=[x for x in s.log]; put('starts by visiting the root, with every node unseen and the heap empty',len(e)==2 and e[0][0]=='init' and all(b==0 for b in e[0][1]) and e[0][2]==0 and e[1]==('visit',0))
        put('node array and heap are large enough for every sensor',len(e)>0 and e[0][0]=='init' and e[0][3]==imul(N,8) and e[0][4]==imul(N,2))
    kinds=set()
    for st,kind in [(s,'end') for s in done]+[(s,'back') for s,_ in iters]:
        if st.viol: continue
        lg=st.log; k=lg.index(('loop',)) if ('loop',) in lg else None
        if k is None: put('path through the loop',False); continue
        e=lg[k+1:]; names=[x[0] for x in e]; isemp=emp in st.pset; ne=cnot(emp) in st.pset; good=cbok in st.pset; bad=cnot(cbok) in st.pset
        if kind=='end' and names==['empty'] and isemp: put('ends with success when the heap is empty',st.ret in(1,True)); kinds.add('end')
        elif names[:3]==['empty','pop','cb'] and ne:
            put('reports the popped sensor with its parent and the cookie',e[2][1]==top and e[2][2]==par and e[2][3].obj==ck.obj and e[2][3].off==0)
            if kind=='end': put('stops with an error when the callback asks for it',len(e)==3 and bad and st.ret in(0,False)); kinds.add('stop')
            else: put('then visits the popped sensor',len(e)==4 and e[3]==('visit',top) and good); kinds.add('next')
        else: put('case of the contract',False,str(names))
    put('every case occurs',kinds=={'end','stop','next'},str(kinds))
    return rs,h.ex.called,len(done)+len(iters)
# ---------------------------------------------------------------- the argument: contracts of visit and the heap give the property
def lemma():
    """dijkstra invariants are inductive over one pop + visit, for any number of sensors"""
    def fn():
        import z3
        rs=[]
        V=z3.IntSort(); B=z3.BoolSort(); F=lambda n,*a: z3.Function(n,*a)
        w=F('w',V,V,V); edge=F('edge',V,V,B); dist=F('dist',V,V); conn=F('conn',V,B); u,v,x,y=z3.Ints('u v x y'); n=z3.Int('n'); pred=F('pred',V,V)
        R=lambda a: z3.And(0<=a,a<n)
        ax=[n>=1,z3.ForAll([u,v],z3.Implies(edge(u,v),z3.And(R(u),R(v),u!=v,w(u,v)>=1,edge(v,u),w(u,v)==w(v,u)))),
            conn(0),dist(0)==0,
            # shortest distances: reached from the root, relaxed over every edge, attained by a predecessor
            z3.ForAll([u,v],z3.Implies(z3.And(conn(u),edge(u,v)),z3.And(conn(v),dist(v)<=dist(u)+w(u,v)))),
            z3.ForAll([v],z3.Implies(conn(v),z3.And(R(v),dist(v)>=0))),
            z3.ForAll([v],z3.Implies(z3.And(conn(v),v!=0),z3.And(conn(pred(v)),edge(pred(v),v),dist(v)==dist(pred(v))+w(pred(v),v))))]
        def state(s): return F('done'+s,V,B),F('cost'+s,V,V),F('par'+s,V,V),F('heap'+s,V,B)
        def inv(s,skip=None):
            d,c,p,h=s
            return {'done sensors have their shortest distance': z3.ForAll([u],z3.Implies(d(u),z3.And(conn(u),c(u)==dist(u),z3.Implies(u!=0,z3.And(d(p(u)),edge(p(u),u),c(u)==dist(p(u))+w(p(u),u)))))),
             'the root is done': d(0),
             'heap sensors are seen, not done, and reached through a done parent': z3.ForAll([u],z3.Implies(h(u),z3.And(z3.Not(d(u)),R(u),u!=0,c(u)>0,d(p(u)),edge(p(u),u),c(u)==dist(p(u))+w(p(u),u)))),
             'neighbors of done sensors are done or in the heap, no costlier than through them': z3.ForAll([u,v],z3.Implies(z3.And(d(u),edge(u,v),z3.Not(d(v))),z3.And(h(v),c(v)<=c(u)+w(u,v)))),
             'unseen sensors have cost 0': z3.ForAll([u],z3.Implies(z3.And(z3.Not(d(u)),z3.Not(h(u))),c(u)==0)),
             'only the root has cost 0 among the done': z3.ForAll([u],z3.Implies(z3.And(d(u),u!=0),c(u)>0))}
        def chk(lab,hyp,goal):
            s=z3.Solver(); s.set('timeout',30000); s.add(ax+hyp+[z3.Not(goal)]); r=s.check()
            rs.append(Res('proved' if r==z3.unsat else 'undecided','lemma: '+lab,'z3',str(r)))
        s0,s1=state('0'),state('1'); d0,c0,p0,h0=s0; d1,c1,p1,h1=s1; t=z3.Int('t')
        I0=list(inv(s0).values())
        # induction on the distance: some heap sensor is no costlier than any connected sensor that is not done
        k=z3.Int('k'); wit=F('wit',V,V)
        IH=z3.ForAll([v],z3.Implies(z3.And(conn(v),z3.Not(d0(v)),dist(v)<k),z3.And(h0(wit(v)),c0(wit(v))<=dist(v))))
        a=z3.Int('a')
        chk('a connected sensor that is not done has a heap sensor no costlier than its distance (induction step)',I0+[IH,conn(a),z3.Not(d0(a)),dist(a)==k,z3.ForAll([x],z3.Implies(h0(x),c0(x)>dist(a)))],z3.BoolVal(False))
        minimal=[h0(t),z3.ForAll([u],z3.Implies(h0(u),c0(t)<=c0(u)))]
        fact=z3.ForAll([v],z3.Implies(z3.And(conn(v),z3.Not(d0(v))),z3.And(h0(wit(v)),c0(wit(v))<=dist(v))))
        chk('the popped sensor has its shortest distance, through its parent',I0+minimal+[fact],z3.And(conn(t),c0(t)==dist(t),edge(p0(t),t),d0(p0(t))))
        # one pop + visit(t): contracts of mrcal_heap_pop, visit
        def visit(s,e,t,hp):
            d,c,p,h=s; D,Cc,Pp,Hh=e
            rel=lambda v: z3.And(edge(t,v),z3.Not(d(v)),v!=t)
            new=lambda v: z3.And(rel(v),z3.Or(c(v)==0,c(t)+w(t,v)<c(v)))
            return [z3.ForAll([u],D(u)==z3.Or(d(u),u==t)),z3.ForAll([u],Cc(u)==z3.If(new(u),c(t)+w(t,u),c(u))),z3.ForAll([u],Pp(u)==z3.If(new(u),t,p(u))),
                    z3.ForAll([u],Hh(u)==z3.Or(hp(u),z3.And(rel(u),c(u)==0)))]
        step=visit(s0,s1,t,lambda q: z3.And(h0(q),q!=t))
        for lab,g in inv(s1).items(): chk('kept by pop and visit: '+lab,I0+minimal+[conn(t),c0(t)==dist(t),edge(p0(t),t),d0(p0(t))]+step,g)
        chk('a sensor enters the heap at most once: pushed sensors were not in it, and are not done',I0+minimal+[conn(t),c0(t)==dist(t)],z3.ForAll([u],z3.Implies(z3.And(edge(t,u),z3.Not(d0(u)),u!=t,c0(u)==0),z3.And(z3.Not(h0(u)),z3.Not(d0(u))))))
        chk('no done sensor is popped again',I0+minimal,z3.Not(d0(t)))
        start=[z3.ForAll([u],z3.And(z3.Not(d0(u)),c0(u)==0,z3.Not(h0(u))))]
        for lab,g in inv(s1).items(): chk('after visiting the root: '+lab,start+visit(s0,s1,z3.IntVal(0),lambda q: z3.BoolVal(False)),g)
        # at the end
        chk('when the heap is empty every connected sensor is done',I0+[fact,z3.ForAll([u],z3.Not(h0(u)))],z3.ForAll([u],z3.Implies(conn(u),d0(u))))
        return rs,set(),0
    return Task('lemma: visit and a min-priority queue find cheapest paths',fn)
# ---------------------------------------------------------------- heap.cc, to a bounded number of queued sensors
def run_heap(mods,fname,n):
    """n sensors queued (arbitrary costs); the buffer holds sensors 0..n-1 in heap order (push, pop) or any order (resort)"""
    rs=[]; L='%s<%d queued>'%(fname,n); h=direct.H(mods,max_steps=6_000_000); cost=[isym('c%d'%i) for i in range(n+1)]
    def ninit(off,ty):
        k,b=divmod(off,8)
        if b==2 and ty==I48: return imul(cost[k],2)
        raise Undecided('node field +%d'%b)
    nodes=h.obj('nodes',8*(n+1),'in',ninit)
    bsz=n+1 if fname=='mrcal_heap_push' else n
    buf=h.obj('buffer',2*bsz,'inout',lambda off,ty: off//2 if off//2<n else (_ for _ in ()).throw(Undecided('read past the queue')))
    heap=h.fields('heap',16,{0:buf,8:n},'inout')
    for c_ in cost: h.assume(icmp('le',0,c_),icmp('le',c_,2**40))
    heaped=lambda cs,m: [icmp('le',cs[(i-1)//2],cs[i]) for i in range(1,m)]
    if fname!='mrcal_heap_resort': h.assume(*heaped(cost,n))
    done=h.call(fname,[heap,nodes]+([n] if fname=='mrcal_heap_push' else []))
    for k,st in enumerate(done):
        if st.viol: rs.append(Res('undecided',L+': memory safety','engine',str(st.viol[0])[:200])); continue
        if not loops.iconsistent(st.path): continue
        m=n+1 if fname=='mrcal_heap_push' else n-1 if fname=='mrcal_heap_pop' else n
        sz=h.rd(st,'heap',8,I32); b=[h.rd(st,'buffer',2*i,I16) for i in range(m)]
        good=sz==m and all(isinstance(x,int) for x in b); exp=set(range(m))
        if good and fname=='mrcal_heap_pop':
            good=isinstance(st.ret,int) and all(loops.iproves(st.path,icmp('le',cost[st.ret],cost[i])) for i in range(n)); exp=set(range(n))-{st.ret}
        good=good and set(b)==exp and len(b)==len(set(b)) and all(loops.iproves(st.path,g) for g in heaped([cost[x] for x in b],m))
        rs.append(Res('bounded' if good else 'undecided','%s path %d: same sensors, heap order%s'%(L,k,', the cheapest is returned' if fname=='mrcal_heap_pop' else ''),'engine, z3',str((sz,b,st.ret))))
    if not rs: rs.append(Res('undecided',L,'vacuity','no path'))
    return rs,h.ex.called,len(done)
# ---------------------------------------------------------------- bounded: the compiled library against numpy
CB=ctypes.CFUNCTYPE(ctypes.c_bool,ctypes.c_uint16,ctypes.c_uint16,ctypes.c_void_p)
def bounded(lib,seed=1,n=1500):
    import heapq
    rng=np.random.default_rng(seed); cnt=0; lib.mrcal_traverse_sensor_links.restype=ctypes.c_bool
    for k in range(n):
        n_=int(rng.integers(1,14)) if k%50 else 60; W=np.zeros((n_,n_),int)
        dens=rng.choice([.1,.3,.6,1.]); hi=int(rng.choice([2,10,1000,65535]))
        iu=np.triu_indices(n_,1); vals=np.where(rng.random(len(iu[0]))<dens,rng.integers(1,hi+1,len(iu[0])),0)
        if k%3==0: vals=np.where(vals>0,np.where(rng.random(len(vals))<.5,65535,1),0)
        W[iu]=vals; W=W+W.T; m=np.ascontiguousarray(vals.astype(np.uint16)) if len(vals) else np.zeros(1,np.uint16)
        stop=int(rng.integers(0,4)) if k%5==0 else -1; calls=[]
        def cb(i,p,cookie): calls.append((i,p,cookie)); return not(stop>=0 and len(calls)>stop)
        ok=lib.mrcal_traverse_sensor_links(ctypes.c_uint16(n_),m.ctypes.data_as(ctypes.c_void_p),CB(cb),ctypes.c_void_p(1234))
        env={'matrix':W.tolist(),'callback stops after':stop}; dist=[None]*n_; dist[0]=0; q=[(0,0)]
        while q:
            d,u=heapq.heappop(q)
            if d>dist[u]: continue
            for v in range(n_):
                if W[u,v] and (dist[v] is None or d+65536-W[u,v]<dist[v]): dist[v]=d+65536-int(W[u,v]); heapq.heappush(q,(dist[v],v))
        cnt+=1; vis=[c[0] for c in calls]; reach={v for v in range(1,n_) if dist[v] is not None}
        if any(c[2]!=1234 for c in calls): return cnt,(env,'the cookie is passed to the callback',calls,1234)
        if stop>=0 and stop<len(reach):
            if ok or len(calls)!=stop+1: return cnt,(env,'stops with an error when the callback fails',(ok,len(calls)),(False,stop+1))
        elif not ok or set(vis)!=reach: return cnt,(env,'sensors visited',(bool(ok),vis),(True,sorted(reach)))
        if len(set(vis))!=len(vis) or not set(vis)<=reach: return cnt,(env,'each connected sensor once',vis,sorted(reach))
        for z,(i,p,_) in enumerate(calls):
            if not(W[i,p]>0 and dist[p] is not None and dist[i]==dist[p]+65536-W[i,p]) or (p!=0 and p not in vis[:z]): return cnt,(env,'sensor %d is reached through a neighbor on a cheapest path, visited before'%i,p,None)
        if any(dist[a]>dist[b] for a,b in zip(vis,vis[1:])): return cnt,(env,'in order of cost',vis,None)
    return cnt,None
def tasks(thorough):
    lib=C.load_lib(); mods=build.modules(['traverse-sensor-links.c','heap.cc']); fb=lambda: bounded(lib,report.SEED)
    out=[lemma(),Task('pairwise_index',lambda: run_pairwise(mods)),Task('visit',lambda: run_visit(mods)),Task('mrcal_traverse_sensor_links',lambda: run_main(mods))]
    for f,ks in(('mrcal_heap_push',(0,1,2,4,6)),('mrcal_heap_pop',(1,2,3,5)+((6,) if thorough else ())),('mrcal_heap_resort',(1,2,3,4)+((5,) if thorough else ()))):
        for k in ks: out.append(Task('%s<%d queued>'%(f,k),lambda f=f,k=k: run_heap(mods,f,k)))
    for t in out:
        if not t.label.startswith('lemma'): t.fallback=fb
    return out
