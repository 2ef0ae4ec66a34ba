"""Loops with a symbolic trip count: inferred, re-checked affine invariants.

At the entry of a loop whose exit test depends on a symbolic integer, the loop is
not unrolled.  One iteration is executed to guess how the loop variables (header
phis and constant-offset memory cells that are read before they are written)
change; then one *generic* iteration k>=0 is executed from the state in which
every variable has its invariant value v0+k*delta, and it is checked that each
path back to the header re-establishes the invariant for k+1.  The memory effect
of all iterations is kept as parametric write records (offset, value as functions
of k), after checking that different iterations neither overwrite nor read each
other's cells.  No bound on the number of iterations is involved."""
import sym as S
from sym import E,IP,Cond,isym,iatom,iadd,imul,isubst,iatoms,icmp,cnot,cand
import execu
from execu import *
import prove

class StopIter(Exception):
    def __init__(s,kind,src=None,tgt=None): s.kind=kind; s.src=src; s.tgt=tgt
class Ctx:
    __slots__=('depth','header','blocks')
    def __init__(s,d,h,b): s.depth=d; s.header=h; s.blocks=b

SYMIDX={}
def elem(arr,*ix):
    """the input symbol arr[ix], indices may be integer polynomials"""
    nm='%s[%s]'%(arr,','.join(map(str,ix))) if ix else arr
    if any(isinstance(i,IP) for i in ix): SYMIDX[nm]=(arr,ix)
    return S.sym(nm)
def ksubst(roots,m):
    """substitute integer atoms in expressions (also in the indices of input symbols)"""
    mp={}
    for e in S.topo(roots):
        if e.op=='s' and e.a in SYMIDX:
            arr,ix=SYMIDX[e.a]; n=tuple(isubst(i,m) for i in ix)
            if n!=ix: mp[e]=elem(arr,*n)
        elif e.op=='s' and e.a in SUMS:
            t,k,trip=SUMS[e.a]; n=isubst(trip,m); t2=ksubst([t],{x:y for x,y in m.items() if x!=k})[0]
            if n!=trip or t2 is not t: mp[e]=mksum(t2,k,n)
        elif e.op=='i':
            n=isubst(iatom(e.a[0]),m)
            r=S.i2r(n)
            if r is not e: mp[e]=r
    return S.subst(roots,mp) if mp else list(roots)
SUMS={}
def mksum(t,k,trip):
    """sum over k in [0,trip) of t(k)"""
    if t.op=='c' and t.a==0: return S.ZERO
    nm='$sum(%d,%s,%s)'%(t.id,k,trip); SUMS[nm]=(t,k,trip); return S.sym(nm)
def csubst(c,m):
    if isinstance(c,bool): return c
    if c.op in('i<','i<=','i=='):
        return execu_icmp(c.op,isubst(c.a,m))
    if c.op in('r<','r<=','r=='):
        e=ksubst([c.a],m)[0]
        if e.op=='c': return {'r<':e.a<0,'r<=':e.a<=0,'r==':e.a==0}[c.op]
        return Cond(c.op,e)
    if c.op=='not': return cnot(csubst(c.a[0],m))
    if c.op=='and': return cand(*[csubst(x,m) for x in c.a])
    if c.op=='or': return S.cor(*[csubst(x,m) for x in c.a])
    return c
def execu_icmp(op,p):
    return icmp({'i<':'lt','i<=':'le','i==':'eq'}[op],p,0)
def catoms(c):
    if isinstance(c,bool): return set()
    if c.op in('i<','i<=','i=='): return iatoms(c.a)
    if c.op in('r<','r<=','r=='): return eatoms([c.a])
    r=set()
    for x in c.a: r|=catoms(x)
    return r
def eatoms(roots):
    r=set()
    for e in S.topo(roots):
        if e.op=='s' and e.a in SYMIDX:
            for i in SYMIDX[e.a][1]: r|=iatoms(i)
        elif e.op=='i': r|=iatoms(iatom(e.a[0]))
    return r

# ---------------------------------------------------------------- integer reasoning
_memo={}
def intconds(path):
    r=[]
    for c in path:
        if isinstance(c,bool): continue
        if c.op in('i<','i<=','i=='): r.append(c)
        elif c.op in('and',) : r+=intconds(c.a)
        elif c.op in('or','not') and isint(c): r.append(c)
    return r
def isint(c):
    return isinstance(c,bool) or c.op in('i<','i<=','i==') or (c.op in('and','or','not') and all(isint(x) for x in c.a))
def iproves(path,goal):
    """do the integer facts of the path imply goal?  (True only if proved)"""
    if isinstance(goal,bool): return goal
    ic=intconds(path)
    k=(frozenset(ic),goal)
    if k not in _memo:
        if goal in ic: _memo[k]=True
        else: _memo[k]=prove.z3_linear_unsat(ic+[cnot(goal)]) or prove.z3_check(ic+[cnot(goal)],4000)=='unsat'
    return _memo[k]
def iconsistent(path):
    ic=intconds(path); k=(frozenset(ic),None)
    if k not in _memo: _memo[k]=not prove.z3_linear_unsat(ic) and prove.z3_check(ic,4000)!='unsat'
    return _memo[k]
def lincoef(p,at):
    """p = a + at*b with b free of at -> (a,b); None if not linear"""
    if not isinstance(p,IP) or at not in iatoms(p): return p,0
    a=isubst(p,{at:0}); b=iadd(isubst(p,{at:1}),imul(a,-1))
    if iadd(a,imul(iatom(at),b))!=p: return None
    return a,b
def exdiv(a,b):
    """a/b as an integer polynomial if exact, else None"""
    if isinstance(b,int):
        if b==0: return None
        if isinstance(a,int): return a//b if a%b==0 else None
        if all(c%b==0 for c in a.t.values()): return S._n({k:c//b for k,c in a.t.items()})
        return None
    if isinstance(a,int): return 0 if a==0 else None
    # polynomial division by a single-monomial or equal-structure polynomial
    if len(b.t)==1:
        (mb,cb),=b.t.items(); out={}
        for m,c in a.t.items():
            d=dict(m)
            if c%cb: return None
            for at,p in mb:
                if d.get(at,0)<p: return None
                d[at]-=p
            out[tuple(sorted(((x,y) for x,y in d.items() if y),key=lambda x:(str(x[0]),x[1])))]=c//cb
        return S._n(out)
    # try a = q*b with constant q or q linear in one atom
    for at in sorted(map(str,iatoms(a)-iatoms(b))):
        at=[x for x in iatoms(a) if str(x)==at][0]
        l=lincoef(a,at)
        if l:
            q1=exdiv(l[1],b); q0=exdiv(l[0],b) if l[0]!=0 else 0
            if q1 is not None and q0 is not None: return iadd(q0,imul(iatom(at),q1))
    for m,c in a.t.items():
        for mb,cb in b.t.items():
            if m==mb and c%cb==0 and imul(b,c//cb)==a: return c//cb
    return None
def disjoint(path,o1,s1,o2,s2,extra=()):
    d=iadd(o1,imul(o2,-1))
    if isinstance(d,int): return d>=s2 or d<=-s1
    return iproves(list(path)+list(extra),S.cor(icmp('le',s2,d),icmp('le',d,-s1)))

# ---------------------------------------------------------------- natural loops
def natural_loops(f):
    L=getattr(f,'_loops',None)
    if L is not None: return L
    succ={}; order=[]
    for b,ins in f.blocks.items():
        t=ins[-1]
        if t.op=='br': succ[b]=[t.a[0]] if len(t.a)==1 else [t.a[1],t.a[2]]
        elif t.op=='switch': succ[b]=[t.a[1]]+[x for _,x in t.a[2]]
        else: succ[b]=[]
    seen=set()
    st=[f.entry]
    while st:
        b=st.pop()
        if b in seen: continue
        seen.add(b); order.append(b); st+=succ[b]
    pred={b:[] for b in seen}
    for b in seen:
        for t in succ[b]: pred[t].append(b)
    dom={b:set(seen) for b in seen}; dom[f.entry]={f.entry}
    ch=True
    while ch:
        ch=False
        for b in order:
            if b==f.entry: continue
            n=set.intersection(*[dom[p] for p in pred[b]])|{b} if pred[b] else {b}
            if n!=dom[b]: dom[b]=n; ch=True
    L={}
    for b in seen:
        for h in succ[b]:
            if h in dom[b]:
                body={h,b}; w=[b]
                while w:
                    x=w.pop()
                    if x==h: continue
                    for p in pred[x]:
                        if p not in body: body.add(p); w.append(p)
                L.setdefault(h,set()); L[h]|=body
    f._loops=L
    return L

def symbolic_exit(x,st,fr,header,blocks,src):
    """does an exit test of the loop compare against a symbolic integer?"""
    f=fr.fn; defs=getattr(f,'_defs',None)
    if defs is None: defs=f._defs={i.dst:(b,i) for b,l in f.blocks.items() for i in l if i.dst is not None}
    class No(Exception): pass
    def ev(ty,o,depth=0):
        if o[0]!='v': return x.val(st,ty,o)
        n=o[1]
        if n not in defs or defs[n][0] not in blocks:
            if n in fr.env: return fr.env[n]
            raise No()
        i=defs[n][1]
        if depth>12: raise No()
        if i.op=='phi':
            if defs[n][0]==header and src in i.a: return x.val(st,i.ty,i.a[src])
            raise No()
        if i.op=='load':
            p=ev(('ptr',),i.a,depth+1)
            if not isinstance(p,Ptr) or p.obj is None or p.obj not in st.mem: raise No()
            o=st.o(p.obj); off=x.canon(st,p.off)
            c=o.cells.get(off)
            if c is not None: return c[1]
            if o.init is not None and o.kind!='local':
                t=st.copy()
                return x.load(t,fr.mod,i.ty,p)
            raise No()
        if i.op=='getelementptr':
            return x.gep(st,fr.mod,i.ty,ev(i.a[0][0],i.a[0][1],depth+1),[(t,ev(t,v,depth+1)) for t,v in i.a[1:]])
        if i.op in('add','sub','mul'):
            a=x.asint(st,ev(i.ty,i.a[0],depth+1)); b=x.asint(st,ev(i.ty,i.a[1],depth+1))
            return iadd(a,b) if i.op=='add' else iadd(a,imul(b,-1)) if i.op=='sub' else imul(a,b)
        if i.op in('sext','zext','trunc'): return ev(i.a[0],i.a[1],depth+1)
        if i.op=='icmp':
            if i.ty[0]!='int': raise No()
            return ('icmp',x.asint(st,ev(i.ty,i.a[1],depth+1)),x.asint(st,ev(i.ty,i.a[2],depth+1)))
        raise No()
    for b in blocks:
        t=f.blocks[b][-1]
        if t.op=='br' and len(t.a)==3 and (t.a[1] not in blocks or t.a[2] not in blocks):
            try: r=ev(('int',1),t.a[0])
            except (No,Undecided,KeyError): continue
            if isinstance(r,tuple):
                if any(isinstance(x.canon(st,v),IP) for v in r[1:]): return True
    return False

_k=itertools.count(1)
def handler(x,st,fr,src,tgt):
    if st.loops:
        c=st.loops[-1]
        if c.depth==len(st.frames):
            if tgt==c.header: raise StopIter('back',src,tgt)
            if tgt not in c.blocks: raise StopIter('exit',src,tgt)
    L=natural_loops(fr.fn)
    if tgt not in L or src in L[tgt]: return None
    if not symbolic_exit(x,st,fr,tgt,L[tgt],src): return None
    return param(x,st,src,tgt,L[tgt])

def phis(fr,header): return [i for i in fr.fn.blocks[header] if i.op=='phi']
def vdelta(a,b):
    """b-a for loop variables; None: not affine"""
    if isinstance(a,bool): a=int(a)
    if isinstance(b,bool): b=int(b)
    if isinstance(a,(int,IP)) and isinstance(b,(int,IP)): return iadd(b,imul(a,-1))
    if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj:
        return iadd(b.off,imul(a.off,-1))
    if isinstance(a,E) and isinstance(b,E): return 'same' if a is b else 'acc'
    if a is b: return 'same'
    return None
def vat(v0,d,k):
    if d=='same': return v0
    if isinstance(v0,Ptr): return Ptr(v0.obj,iadd(v0.off,imul(k,d)))
    if isinstance(v0,bool): v0=int(v0)
    return iadd(v0,imul(k,d))
def veq(a,b):
    if isinstance(a,bool): a=int(a)
    if isinstance(b,bool): b=int(b)
    if isinstance(a,(int,IP)) and isinstance(b,(int,IP)): return a==b
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a.obj==b.obj and a.off==b.off
    return a is b

def param(x,st0,src,header,blocks):
    depth=len(st0.frames); fr0=st0.frames[-1]; P=phis(fr0,header)
    v0={}
    for p in P: v0[p.dst]=x.val(st0,p.ty,p.a[src])
    nph=len(P)
    def iterate(pv,cells,conds):
        s=st0.copy(); s.loops=s.loops+[Ctx(depth,header,blocks)]; s.log=[]; s.iw=(set(),[])
        for c in conds: s.assume(c)
        f=s.frames[-1]; f.prev=src; f.blk=header
        for d,v in pv.items(): f.env[d]=v
        f.ip=nph
        for (oid,off),v in cells.items():
            o=s.w(oid); sz=o.cells[off][0] if off in o.cells else v[1]
            o.cells[off]=(v[1],v[0])
            if isinstance(off,IP): o.symcells.add(off)
        work=[s]; outs=[]
        while work:
            t=work.pop()
            try: r=x.run1(t,0)
            except StopIter as e: outs.append((e.kind,e.src,e.tgt,t)); continue
            except Infeasible:
                if t.viol: outs.append(('viol',None,None,t))
                continue
            if r is None: raise Undecided('loop: unexpected end')
            work.extend(r)
            if len(work)+len(outs)>x.max_states: raise Undecided('loop: state explosion')
        return outs
    def logs(t):
        """reads before own write, writes; restricted to objects that exist before the loop"""
        R={}; W={}
        for l in t.log:
            if l[1] not in st0.mem: continue
            if l[0]=='r': R.setdefault((l[1],l[2],l[3]),l)
            else: W[(l[1],l[2],l[3])]=l
        return R,W
    def backphis(t,sr):
        f=t.frames[-1]; return {p.dst:x.val(t,p.ty,p.a[sr]) for p in P}
    # ---- discovery
    D={}; C={}; rounds=0
    outs=iterate(v0,{},[])
    back=[o for o in outs if o[0]=='back']
    if not back:
        return finish_plain(x,st0,outs)
    def absorb(outs,kname=None,first=False):
        """loop variables living in memory: constant cells read before written and written"""
        new=False
        for o in outs:
            if o[0]!='back': continue
            R,W=logs(o[3])
            for (oid,off,size) in list(W):
                if kname is not None and isinstance(off,IP) and kname in iatoms(off): continue
                if isinstance(off,tuple): continue
                if (oid,off,size) in R or any(r[0]==oid and not isinstance(r[1],tuple) and iadd(r[1],imul(off,-1))==0 for r in R):
                    if (oid,off) not in C:
                        C[(oid,off)]=size; new=True
        return new
    for d in v0:
        ds=[vdelta(v0[d],backphis(o[3],o[1])[d]) for o in back]
        if any(q is None for q in ds): raise Undecided('loop variable %s is not affine'%d)
        D[d]=ds[0] if all(q==ds[0] for q in ds) else 'acc' if isinstance(v0[d],E) else None
        if D[d] is None: D[d]='free'
    absorb(outs)
    if C and not any(q in('acc','free') for q in D.values()):
        # a cell the first iteration updated only because its element index was that constant is no
        # loop variable: it has to be updated by the second iteration too
        try: b2=[o for o in iterate({d:vat(v0[d],D[d],1) for d in v0},{},[]) if o[0]=='back']
        except Undecided: b2=[]
        if b2:
            for key in [key for key in C if not any(l[0]=='w' and (l[1],l[2])==key for o in b2 for l in o[3].log)]: del C[key]
    kn='$k%d'%next(_k); k=isym(kn)
    accs={}
    DC={}
    for rounds in range(6):
        pv={}; cells={}
        for d in v0:
            if D[d]=='acc': pv[d]=accs.setdefault(d,S.sym('$acc_%s_%s'%(kn,d)))
            elif D[d]=='free': raise Undecided('loop variable %s has different increments on different paths'%d)
            else: pv[d]=vat(v0[d],D[d],k)
        for key,size in C.items():
            oid,off=key
            c=st0.o(oid).cells.get(off)
            init=c[1] if c is not None else x.load(st0.copy(),fr0.mod,('double',),Ptr(oid,off))
            if key not in DC:
                bs=[]
                for o in back:
                    q=o[3].o(oid).cells.get(off)
                    bs.append(vdelta(init,q[1]) if q is not None else None)
                if any(b is None for b in bs): raise Undecided('loop memory variable')
                DC[key]=(bs[0] if all(b==bs[0] for b in bs) else 'acc' if isinstance(init,E) else 'free',init)
            dd,init=DC[key]
            if dd=='free': raise Undecided('loop memory variable with path-dependent increments')
            if dd=='acc': cells[key]=(accs.setdefault(key,S.sym('$acc_%s_%s_%s'%(kn,oid,off))),size)
            else: cells[key]=(vat(init,dd,k),size)
        outs=iterate(pv,cells,[icmp('le',0,k)])
        back=[o for o in outs if o[0]=='back']
        if absorb(outs,kn): continue
        break
    else: raise Undecided('loop: no fixpoint')
    # ---- the invariant is re-established
    for kind,sr,tg,t in back:
        nv=backphis(t,sr)
        for d in v0:
            if D[d]=='acc': continue
            if not veq(nv[d],vat(v0[d],D[d],iadd(k,1))): raise Undecided('loop variable %s does not follow its invariant'%d)
        for key,size in C.items():
            dd,init=DC[key]
            if dd=='acc': continue
            q=t.o(key[0]).cells.get(key[1])
            if q is None or not veq(q[1],vat(init,dd,iadd(k,1))): raise Undecided('loop memory variable does not follow its invariant')
    # ---- iterations do not interfere
    nb=len(st0.path)
    kk='$kk'+kn[2:]; sb={kn:isym(kk)}
    recs=[]
    for n,(kind,sr,tg,t) in enumerate(back):
        R,W=logs(t); conds=t.path[nb:]
        for (oid,off,size),l in W.items():
            if (oid,off) in C: continue
            dep=(kn in iatoms(off)) if not isinstance(off,tuple) else kn in iatoms(off[1])
            if isinstance(off,tuple) or not dep:
                recs.append(dict(alt=n,oid=oid,off=off,size=size,const=True,conds=conds)); continue
            c=t.o(oid).cells.get(off)
            bd=l[4] if len(l)>4 else ()
            val=c[1] if c is not None and not bd else l[5] if len(l)>5 else None
            if val is None:
                if c is None: raise Undecided('loop: lost write')
            cd=conds+list(l[6]) if len(l)>6 else conds
            recs.append(dict(alt=n,oid=oid,off=off,size=size,val=val,const=False,conds=cd,binders=bd,kn=kn))
    rng=[icmp('le',0,k),icmp('le',0,isym(kk)),cnot(icmp('eq',k,isym(kk)))]
    def cross(o1,s1,o2,s2,path,what):
        """cells of different iterations k!=kk are disjoint"""
        o2=isubst(o2,sb)
        l1=lincoef(o1,kn); l2=lincoef(o2,kk)
        if l1 and l2 and l1[1]==l2[1] and isinstance(l1[1],int) and l1[1]!=0:
            c=iadd(l1[0],imul(l2[0],-1))
            if isinstance(c,int):
                Dl=abs(l1[1])
                # overlap iff exists integer m!=0: -s1 < c + D*m < s2
                if all(not(-s1<c+Dl*m<s2) for m in range(-(abs(c)+s1+s2)//Dl-2,(abs(c)+s1+s2)//Dl+3) if m!=0): return
        if not disjoint(path,o1,s1,o2,s2,rng): raise Undecided('loop: iterations interfere (%s): %s / %s'%(what,o1,o2))
    wl=[r for r in recs if not r['const']]
    seen=set()
    for i,a in enumerate(wl):
        for b in wl:
            if a['oid']!=b['oid']: continue
            key=(a['oid'],a['off'],a['size'],b['off'],b['size'])
            if key in seen: continue
            seen.add(key)
            if a['binders'] or b['binders']: continue   # checked by the caller (coverage contract)
            cross(a['off'],a['size'],b['off'],b['size'],st0.path+a['conds']+[csubst(c,sb) for c in b['conds']],'write/write')
    cw={}
    for r in recs:
        if r['const']: cw.setdefault(r['oid'],set()).add((r['off'],r['size']))
    for kind,sr,tg,t in outs:
        R,W=logs(t)
        for (oid,off,size) in R:
            if (oid,off) in C: continue
            if isinstance(off,tuple): 
                if any(w['oid']==oid for w in recs): raise Undecided('loop: range read of a written object')
                continue
            for w in wl:
                if w['oid']!=oid: continue
                if w['binders']: 
                    if w['off']==off: continue
                    raise Undecided('loop: nested records read')
                key=('r',oid,off,size,w['off'],w['size'])
                if key in seen: continue
                seen.add(key)
                cross(off,size,w['off'],w['size'],st0.path+t.path[nb:]+[csubst(c,sb) for c in w['conds']],'read/write')
            for (o2,s2) in cw.get(oid,()):
                if isinstance(o2,tuple):
                    if not (isinstance(off,int) and isinstance(o2[1],int) and (off+size<=o2[1] or off>=o2[1]+o2[2])): raise Undecided('loop: reads memory another iteration cleared')
                elif not disjoint(st0.path+t.path[nb:],off,size,o2,s2): raise Undecided('loop: reads a cell another iteration wrote (%s+%s)'%(st0.o(oid).name,off))
    # ---- states after the loop
    common=None
    for o in back:
        c=set(o[3].path[nb:]); common=c if common is None else common&c
    common=[c for c in (common or ())]
    res=[]
    kb='$b'+kn[2:]
    for kind,sr,tg,t in outs:
        if kind=='back': continue
        if kind=='viol':
            t.loops=t.loops[:-1]; t.frames=t.frames[:]; t.status='viol'; res.append(('viol',t)); continue
        for zero in (True,False):
            s=t.copy(); s.loops=s.loops[:-1]
            s.log=list(st0.log); s.iw=(set(st0.iw[0]),list(st0.iw[1])) if st0.iw else None
            add=[]
            if zero: add=[icmp('eq',k,0)]
            else:
                add=[icmp('le',1,k)]
                prev=[csubst(c,{kn:iadd(k,-1)}) for c in common if kn in catoms(c)]
                add+=prev
                # p(k-1)<0, p(k)>=0, unit step: p(k)==0
                for c in intconds(common):
                    if c.op=='i<' and kn in iatoms(c.a):
                        l=lincoef(c.a,kn)
                        if l and l[1]==1 and icmp('le',0,c.a) in s.pset: add.append(icmp('eq',c.a,0))
                    if c.op=='i<=' and kn in iatoms(c.a):
                        l=lincoef(c.a,kn)
                        if l and l[1]==1 and icmp('lt',0,c.a) in s.pset: add.append(icmp('eq',iadd(c.a,-1),0))
            try:
                kv=k
                for c in add:
                    c=csubst(c,s.isub) if s.isub and not isinstance(c,bool) else c
                    s.assume(c)
                if not iconsistent(s.path): continue
            except Infeasible: continue
            kv=isubst(k,s.isub) if s.isub else k
            # k was used inside the values of this iteration: they keep k (substituted on use)
            settle(x,s,kn)
            # accumulators
            f=s.frames[-1] if kind!='ret' else None
            amap={}
            for key,a in accs.items():
                if zero: fin=v0[key] if not isinstance(key,tuple) else DC[key][1]
                else:
                    base=v0[key] if not isinstance(key,tuple) else DC[key][1]
                    ts=set(); tv=None
                    for kd,sr2,tg2,t2 in back:
                        new=backphis(t2,sr2)[key] if not isinstance(key,tuple) else t2.o(key[0]).cells[key[1]][1]
                        inc=S.subst([new],{a:S.ZERO})[0]
                        if any(e is b for e in S.topo([inc]) for b in accs.values()): raise Undecided('loop: coupled accumulators')
                        if prove.pit([(new,S.add(a,inc))],1)[0] is not True: raise Undecided('loop: accumulator is not a sum')
                        ts.add(inc.id); tv=inc
                    if len(ts)!=1: raise Undecided('loop: accumulator term depends on the path')
                    fin=S.add(base,mksum(ksubst([tv],{kn:isym(kb)})[0],kb,kv))
                amap[a]=fin
            if amap: replace_syms(s,amap)
            # memory effect of the completed iterations
            if not zero: merge(x,s,st0,recs,kn,kb,kv)
            # remember in the log of the enclosing iteration
            if st0.loops: relog(s,st0,t,recs,kn,kb,kv,zero,logs)
            if kind=='exit':
                f=s.frames[-1]; f.blk=sr
                r=x.enter(s,f,tg)
                if r is None: res.append(('ok',s))
                else: res+=[('ok',q) for q in r]
            else: raise Undecided('return inside a parametric loop')
    for kd,s in res:
        if kd=='viol': x.loop_viols.append(s)
    return [s for kd,s in res if kd=='ok']
def finish_plain(x,st0,outs):
    res=[]
    for kind,sr,tg,t in outs:
        if kind=='viol':
            x.loop_viols.append(t); continue
        t.loops=t.loops[:-1]
        if st0.loops:
            iw=t.iw; base=(set(st0.iw[0]),list(st0.iw[1])); t.log=list(st0.log)+t.log; t.iw=(base[0]|iw[0],base[1]+iw[1])
        else: t.log=[]; t.iw=None
        if kind=='exit':
            f=t.frames[-1]; f.blk=sr; r=x.enter(t,f,tg)
            res+=[t] if r is None else r
        else: raise Undecided('return inside a parametric loop')
    return res
def settle(x,s,kn):
    """after k got a value (s.isub), normalise expressions that mention it"""
    if kn not in s.isub: return
    m={kn:s.isub[kn]}
    for f in s.frames:
        for d,v in list(f.env.items()): f.env[d]=vsub(v,m)
    for oid,o in list(s.mem.items()):
        ch={}
        for off,c in o.cells.items():
            v=vsub(c[1],m)
            if v is not c[1]: ch[off]=(c[0],v)
        if ch:
            o=s.w(oid)
            for off,c in ch.items(): o.cells[off]=c
def vsub(v,m):
    if isinstance(v,E): return ksubst([v],m)[0]
    if isinstance(v,IP): return isubst(v,m)
    if isinstance(v,Ptr): 
        n=isubst(v.off,m); return v if n is v.off else Ptr(v.obj,n)
    if isinstance(v,Cond): return csubst(v,m)
    return v
def replace_syms(s,amap):
    ids=set(amap)
    def rs(v):
        if isinstance(v,E):
            return S.subst([v],amap)[0]
        return v
    for f in s.frames:
        for d,v in list(f.env.items()):
            if isinstance(v,E): f.env[d]=rs(v)
    for oid,o in list(s.mem.items()):
        ch={off:(c[0],rs(c[1])) for off,c in o.cells.items() if isinstance(c[1],E)}
        ch={k:v for k,v in ch.items() if v[1] is not o.cells[k][1]}
        if ch:
            o=s.w(oid); o.cells.update(ch)

class Rec:
    """for every binder value in range (and conds): object cell off holds val"""
    __slots__=('off','size','val','binders','conds','grp')
    def __init__(s,off,size,val,binders,conds,grp): s.off=off; s.size=size; s.val=val; s.binders=binders; s.conds=conds; s.grp=grp
    def __repr__(s): return '[%s]:=%s for %s if %s'%(s.off,s.val,s.binders,s.conds)
def merge(x,s,st0,recs,kn,kb,kv):
    m={kn:isym(kb)}
    by={}
    for r in recs: by.setdefault(r['oid'],[]).append(r)
    for oid,rs in by.items():
        if oid not in s.mem: continue
        o=s.w(oid)
        # constant cells hold the last iteration's (unknown) value, unless the exiting iteration rewrote them
        own=set()
        for l in s.log: pass
        for r in rs:
            if not r['const']: continue
            off=r['off']
            if isinstance(off,tuple):
                _,a,n=off
                o.written.add(off)
                continue
            o.cells.pop(off,None); o.written.add(off)
            o.zero=[z for z in o.zero]
            o.cells[off]=(r['size'],x.undef(('double',),'iter_') if True else None)
        pr=[]
        for r in rs:
            if r['const']: continue
            bd=tuple((n,isubst(t,m)) for n,t in r['binders'])
            v=vsub(r['val'],m)
            pr.append(Rec(isubst(r['off'],m),r['size'],v,((kb,kv),)+bd,[csubst(c,m) for c in r['conds'] if csubst(c,m) is not True],(kn,r['alt'])))
        if pr:
            # forget cached reads (they are re-derived); written cells must not be overwritten by the loop
            for off in list(o.cells):
                if off in o.written: continue
                if o.kind!='local' or o.init is not None: 
                    del o.cells[off]; o.symcells.discard(off)
            for off,c in list(o.cells.items()):
                for r in pr:
                    ex=[icmp('le',0,isym(n)) for n,_ in r.binders]+[icmp('lt',isym(n),t) for n,t in r.binders]
                    if not disjoint(s.path,off,c[0],r.off,r.size,ex):
                        if off in st0.o(oid).cells and st0.o(oid).cells[off][1] is c[1]: 
                            raise Undecided('loop overwrites earlier cells of %s'%o.name)
                        raise Undecided('loop and exit iteration overlap in %s'%o.name)
            o.par=list(o.par)+pr
            for r in pr: o.written.add(('par',r))
def relog(s,st0,t,recs,kn,kb,kv,zero,logs):
    """log of the enclosing generic iteration: what the inner loop read and wrote"""
    R,W=logs(t)
    m={kn:isym(kb)}
    for (oid,off,size),l in R.items(): note(s,'r',oid,off,size)
    for (oid,off,size),l in W.items():
        if isinstance(off,tuple) or kn not in iatoms(off): note(s,'w',oid,off,size)
    if zero: return
    for r in recs:
        if r['const']: note(s,'w',r['oid'],r['off'],r['size'])
        else:
            bd=((kb,kv),)+tuple((n,isubst(q,m)) for n,q in r['binders'])
            s.log.append(('w',r['oid'],isubst(r['off'],m),r['size'],bd,vsub(r['val'],m),[csubst(c,m) for c in r['conds'] if csubst(c,m) is not True]))
def note(s,kind,oid,off,size):
    if not s.loops: return
    if kind=='w':
        s.log.append(('w',oid,off,size))
        if isinstance(off,tuple): s.iw[1].append((oid,off[1],off[2]))
        else: s.iw[0].add((oid,off))
    else:
        if not isinstance(off,tuple):
            if (oid,off) in s.iw[0]: return
            for o,a,n in s.iw[1]:
                if o==oid and isinstance(off,int) and isinstance(a,int) and isinstance(n,int) and a<=off and off+size<=a+n: return
        s.log.append(('r',oid,off,size))

def par_lookup(x,st,o,off,size):
    """value of a cell written by a finished parametric loop; None if no loop wrote it"""
    for r in reversed(o.par):
        if not isinstance(r,Rec):
            _,a,n=r       # zero range
            if iproves(st.path,cand(icmp('le',a,off),icmp('le',iadd(off,size),iadd(a,n)))): return 0
            if iproves(st.path,S.cor(icmp('le',iadd(off,size),a),icmp('le',iadd(a,n),off))): continue
            raise Fork(cand(icmp('le',a,off),icmp('le',iadd(off,size),iadd(a,n))))
        if len(r.binders)!=1:
            v=par_multi(x,st,r,off,size)
            if v is None: continue
            return v
        (kb,trip),=r.binders
        l=lincoef(r.off,kb)
        if l and l[1]!=0:
            q=exdiv(iadd(off,imul(l[0],-1)),l[1])
            if q is not None and r.size==size:
                m={kb:q}
                ok=cand(icmp('le',0,q),icmp('lt',q,trip))
                if iproves(st.path,cnot(ok)) : continue
                if not iproves(st.path,ok): raise Fork(ok)
                cs=[csubst(c,m) for c in r.conds]
                cs=[c for c in cs if c is not True and not (not isinstance(c,bool) and c in st.pset) and not iproves(st.path,c)]
                if any(c is False for c in cs): continue
                skip=False
                for c in cs:
                    t=x.truth(st,c)
                    if t is False: skip=True; break
                    if t is None:
                        # another alternative of the same iteration
                        raise Fork(c)
                if skip: continue
                return vsub(r.val,m)
        ex=[icmp('le',0,isym(kb)),icmp('lt',isym(kb),trip)]
        if disjoint(st.path,off,size,r.off,r.size,ex): continue
        raise Undecided('read overlaps a parametric write: %s vs %s'%(off,r.off))
    return None
def par_multi(x,st,r,off,size):
    raise Undecided('read of a nested parametric record')
