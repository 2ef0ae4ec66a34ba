"""Direct harness: run one function of the real code on explicitly built objects (structs with chosen fields, callee contracts as
overrides) and compare every returning path with a contract given by cases."""
import sym as S, contract as C, prove, execu, loops, build
from contract import Res
from execu import Exec, State, Obj, Ptr, NULL, Undecided
from sym import icmp, rcmp, cand, cnot, isym, E
import cases as CA
D8=('double',); I32=('int',32); I64=('int',64); I8=('int',8)
class H:
    """one run: objects by name, then call"""
    def __init__(s,mods,over=None,loop=False,decider=None,max_steps=3_000_000):
        s.mods=mods; s.ex=Exec(mods,decider=decider,max_steps=max_steps); s.st=State(); s.objs={}; s.pre=[]
        s.ex.over.update(over or {})
        if loop: s.ex.loop_handler=loops.handler if loop is True else loop
    def obj(s,name,size,role,init=None,ro=None):
        """role in/inout/out; init(off,ty) gives the initial value of a field"""
        o=s.st.add_obj(Obj(name,size,'output' if role!='in' else 'input')); o.policy='check'
        if role=='in' or ro: o.readonly=True
        if init is not None: o.init=lambda x,st,o_,off,ty: init(off,ty)
        s.objs[name]=Ptr(o.id,0); return s.objs[name]
    def dbl(s,name,n,role='in'):
        return s.obj(name,8*n,role,(lambda off,ty: S.sym('%s[%d]'%(name,off//8))) if role!='out' else None)
    def dbls(s,name,vals,role='in'):
        return s.obj(name,8*len(vals),role,lambda off,ty: S.R(vals[off//8]))
    def ints(s,name,vals,size=4,role='in'):
        return s.obj(name,size*len(vals),role,lambda off,ty: vals[off//size])
    def fields(s,name,size,vals,role='in'):
        """vals: {offset: value}"""
        def init(off,ty):
            if off not in vals: raise Undecided('field %s+%s read'%(name,off))
            return vals[off]
        return s.obj(name,size,role,init)
    def assume(s,*cs):
        for c in cs: s.st.assume(c)
    def call(s,fname,args):
        m,f=s.ex.find(fname)
        if f is None: raise Undecided('no definition of '+fname)
        s.m=m; s.npre=len(s.st.path)
        s.ex.call(s.st,fname,args)
        return s.ex.run(s.st)+s.ex.loop_viols
    def rd(s,st,name,off,ty=D8): return s.ex.load(st,s.m,ty,Ptr(s.objs[name].obj,off))
    def rds(s,st,name,n): return [s.rd(st,name,8*i) for i in range(n)]
def atoms_of(conds,out=None):
    out=[] if out is None else out
    for c in conds:
        if isinstance(c,bool) or not hasattr(c,'op'): continue
        if c.op in('r<','r<=','r=='): out.append(c.a)
        elif c.op in('and','or','not'): atoms_of(c.a,out)
    return out
def csub(c,m):
    if isinstance(c,bool): return c
    if c.op in('r<','r<=','r=='): return rcmp({'r<':'lt','r<=':'le','r==':'eq'}[c.op],S.subst([c.a],m)[0],S.ZERO)
    if c.op=='not': return cnot(csub(c.a[0],m))
    if c.op=='and': return cand(*[csub(x,m) for x in c.a])
    if c.op=='or': return S.cor(*[csub(x,m) for x in c.a])
    return c
def realise(c):
    """integer comparisons of converted reals ((int)x), as comparisons of the real numbers x rounds to"""
    if isinstance(c,bool) or not hasattr(c,'op'): return c
    if c.op in('i<','i<=','i==') and any(at in S.FTOI for mon,_ in c.a.terms() for at,p in mon):
        r=S.i2r(c.a)
        return rcmp('le',r+S.ONE,S.ZERO) if c.op=='i<' else rcmp('le' if c.op=='i<=' else 'eq',r,S.ZERO)
    if c.op=='not':
        a=c.a[0]
        if a.op in('i<','i<=') and any(at in S.FTOI for mon,_ in a.a.terms() for at,p in mon):
            r=S.i2r(a.a); return rcmp('le',S.ZERO,r) if a.op=='i<' else rcmp('le',S.ONE,r)
        return cnot(realise(a))
    if c.op=='and': return cand(*[realise(x) for x in c.a])
    if c.op=='or': return S.cor(*[realise(x) for x in c.a])
    return c
def name_quantities(conds,named):
    """the conditions with every subexpression that equals a named quantity (identity testing) replaced by its name"""
    import random
    conds=[realise(c) for c in conds]; roots=atoms_of(conds); nodes=[e for e in S.topo(roots) if e.op not in('c','s','i')]; vs=[]; i=0
    if not nodes or not named: return conds
    while len(vs)<3 and i<200:
        i+=1
        try: vs.append(prove.Mod(random.Random(7000+i)).eval(nodes+list(named.values())))
        except prove.Retry: pass
    if len(vs)<3: return conds
    k=len(nodes); tab={tuple(v[k+j] for v in vs):n for j,n in enumerate(named)}; m={}
    for j,e in enumerate(nodes):
        n=tab.get(tuple(v[j] for v in vs))
        if n: m[e]=S.sym('q:'+n)
    return [csub(c,m) for c in conds] if m else conds
def implied_named(cond,guard,facts,named):
    if guard is True: return True
    if named:
        x=name_quantities(list(cond)+list(facts)+[guard],named); return CA.implied(x[:-1],x[-1])
    return CA.implied(cond,guard,facts)
def check(h,done,label,getouts,cs,facts=(),hints=(),view=None,maxpaths=400,named=None):
    """getouts(st)->{name: value}; cs: cases (label,{name: E},guard)"""
    rs=[]; n=0
    if len(done)>maxpaths: return [Res('undecided',label,'engine','%d paths'%len(done))],h.ex.called,len(done)
    for k,st in enumerate(done):
        pl='%s path %d: '%(label,k)
        if st.viol and named and prove.z3_check(name_quantities([c for c in st.path if c is not True],named),4000)=='unsat': rs.append(Res('proved',pl+'cannot be taken','z3')); continue
        if st.viol: rs.append(Res('undecided',pl+'memory safety and frame','engine',str(st.viol[0])[:300])); continue
        cond=[c for c in st.path if c is not True]
        if view: cond=view(cond)
        if any(c is False for c in cond): continue
        n+=1; hit=None; why=[]
        try: outs=getouts(st)
        except Undecided as e: outs={}; why.append(str(e)[:200])
        for lab,want,guard in cs:
            if callable(want): want=want(st)
            if want is None: continue
            miss=[o for o in want if o not in outs]
            if miss: why.append('%s: %s not produced'%(lab,miss[:2])); continue
            pr=[(S.R(outs[o]),S.R(e)) for o,e in want.items()]
            ok=prove.pit(pr,1,roots_hint=list(hints)) if pr else []
            if any(o is not True for o in ok): why.append('%s: %s differs'%(lab,[o for o,r in zip(want,ok) if r is not True][:3])); continue
            if callable(guard) and not hasattr(guard,'op'): guard=guard(st)
            if not implied_named(cond,guard,facts,named): why.append('%s: its condition does not follow'%lab); continue
            hit=lab; rs+=[Res('proved',pl+'%s: %s'%(lab,o),'pit') for o in want]+[Res('proved',pl+'%s: condition'%lab,'z3')]; break
        if hit is None:
            if prove.z3_check(name_quantities(cond,named) if named else cond,4000)=='unsat': rs.append(Res('proved',pl+'cannot be taken','z3'))
            else: rs.append(Res('undecided',pl+'no case of the contract applies','pit, z3','; '.join(why)[:600]))
    if not n: rs.append(Res('undecided',label,'vacuity','no path returns'))
    return rs,h.ex.called,len(done)
