"""Contract language: argument declarations, clauses (post-conditions over exact
reals), frame conditions, near-singular regimes; generation of obligations from the
LLVM IR of the real function and their discharge; concrete replay."""
import itertools, random, time, ctypes, os, traceback, sys
import numpy as np
import sym as S
from sym import E, IP, Cond, isym, icmp, rcmp, cnot
from execu import *
import execu
import prove, build, ir, ival, loops

def nm(a,*i): return '%s[%s]'%(a,','.join(map(str,i))) if i else a
def IN(a,*i): return S.sym(nm(a,*i))
def OUT(a,*i): return S.sym('out:'+nm(a,*i))
def D(o,i): 
    """derivative of the reported output o (OUT symbol) with respect to the input symbol i"""
    return S.sym('D:%s|%s'%(o.a[4:],i.a))
def idx(shape,nc=None):
    """indices of an array; a leading 'N' (symbolic count) gives the generic element 'e', or 0..nc-1 concretely"""
    return list(itertools.product(*[(['e'] if nc is None else range(nc)) if n=='N' else range(n) for n in shape]))
NC=3   # number of elements in concrete runs of functions with a symbolic count

class Arr:
    def __init__(s,name,shape,role='in',nullable=False,strided=True,dom=None,size=8,ctype=ctypes.c_double):
        s.name=name; s.shape=tuple(shape); s.role=role; s.nullable=nullable; s.strided=strided; s.dom=dom
        s.elems=s.real=False      # strides passed in elements / never passed as 0 ("contiguous")
    def pass_strides(s,ss,layout):
        if layout!='strided' and not(s.elems or s.real): return [0]*len(ss)
        return [loops.exdiv(x,8) for x in ss] if s.elems else list(ss)
    def offs(s,strides):
        """{offset: index}"""
        return {sum_off(i,strides):i for i in idx(s.shape)}
def sum_off(i,st):
    r=0
    for a,b in zip(i,st): r=S.iadd(r,S.imul(b,isym('e') if a=='e' else a))
    return r
def contig(shape,es=8):
    st=[]; k=es
    for n in reversed(shape):
        st.insert(0,k)
        if n!='N': k*=n
    return st
class Flag:
    """finite-domain scalar argument, enumerated"""
    def __init__(s,name): s.name=name
class Dbl:
    """scalar double input"""
    def __init__(s,name): s.name=name
class Const:
    def __init__(s,v): s.v=v
class Count:
    """number of elements N: a symbolic integer >=0 for the verifier, NC in concrete runs"""
    def __init__(s,name,ctype=ctypes.c_int): s.name=name; s.ctype=ctype
class StructIn:
    """pointer to a read-only struct/byte image given by python: build(ex,st,cfg)->value ; conc(cfg)->ctypes value"""
    def __init__(s,build,conc): s.build=build; s.conc=conc

class Cfg(dict):
    def __getattr__(s,k): return s[k]
    def label(s):
        r=[]
        if s['flags']: r.append(','.join('%s=%s'%kv for kv in s['flags'].items()))
        r.append('null{%s}'%','.join(sorted(s['null'])))
        r.append(s['layout'])
        if s['alias']: r.append('inplace{%s}'%','.join('%s=%s'%kv for kv in s['alias'].items()))
        return ' '.join(r)

TOL={'value':1e-9,'grad':1e-4}
class Near:
    """region around a singular set in which code may use a limit formula.
    measures: E expressions that behave like eps^pw and that the path condition must
    bound; eps(m,rng): symbol-> series; if the path proves eps<T, code and spec must
    agree up to eps^k with T^k below the tolerance of the clause kind."""
    def __init__(s,name,measures,eps,setup=None,when=None,pw=2,tol=None):
        s.name=name; s.measures=measures; s.eps=eps; s.setup=setup; s.when=when; s.pw=pw; s.tol=tol or TOL
def upper_bound(conds,m):
    """a constant c with: conds imply m<=c   (None if not found)"""
    best=None
    # a path condition that is (identically) m-c<0
    flat=[]
    for c in conds: flat+= list(c.a) if isinstance(c,Cond) and c.op=='and' else [c]
    cand=[c for c in flat if isinstance(c,Cond) and c.op in('r<','r<=','r==')]
    if cand:
        rng=random.Random(5); vals=[]
        for t in range(400):
            M=prove.Mod(rng)
            try: vals.append(M.eval([m]+[c.a for c in cand]))
            except prove.Retry: continue
            if len(vals)==2: break
        if len(vals)==2:
            for j,c in enumerate(cand):
                ks=consts(c.a)
                for sg in((1,-1) if c.op=='r==' else (1,)):
                    d=[(v[0]-sg*v[1+j])%prove.P for v in vals]
                    if d[0]==d[1]:
                        for k in ks:
                            if k.numerator*pow(k.denominator,-1,prove.P)%prove.P==d[0]:
                                if best is None or k<best: best=k
    u=ival.upper(conds,m)
    if best is not None: return min(float(best),u) if u is not None else float(best)
    return u
def cond_le(conds,t):
    """do the conditions contain  k*t <= 0  for some k>0 ?"""
    rng=random.Random(11); cs=[c.a for c in ival.flat(conds) if c is not False and c.op in('r<','r<=','r==')]
    M1,M2=prove.Mod(rng),prove.Mod(rng)
    for e in cs:
        try:
            a=M1.eval([e,t]); b=M2.eval([e,t])
        except prove.Retry: continue
        k=a[0]*prove.inv(a[1])%prove.P
        if k==b[0]*prove.inv(b[1])%prove.P:
            f=ratrec(k)
            if f is not None and f>0 and max(f.numerator,f.denominator)<1<<20: return True
    return False
def consts(e):
    r={execu.Fraction(0)}
    for x in S.topo([e]):
        if x.op=='c': r.add(x.a); r.add(-x.a)
    return r
def ratrec(x):
    """rational number with small height equal to x mod P"""
    P=prove.P
    a,b=P,x; u,v=0,1
    while b>1<<61: a,b,u,v=b,a%b,v,u-(a//b)*v
    if v==0 or abs(v)>1<<61: return None
    f=execu.Fraction(b if v>0 else -b,abs(v))
    return f

class Contract:
    def __init__(s,fname,args,clauses,flags=None,inplace=(),nulls=None,layouts=('contig','strided'),regimes=(),pre=None,ret=None,sampler=None,ctype_ret=None,
                 over=None,files=(),insub=None,hints=None,tol=1e-6,setup=None,name=None,maxpaths=200,case_filter=None,notes='',undef_ok=False,check_ret=None,domain=None,lemmas=None,special=None,loops=False,defined=False):
        s.defined=defined
        s.lemmas=lemmas; s.special=special; s.loops=loops; s.loophandler=None; s.nbounded=60
        if special: special.con=s
        s.fname=fname; s.args=args; s.clauses=clauses; s.flags=flags or {}; s.inplace=list(inplace); s.nulls=nulls; s.layouts=layouts
        s.regimes=regimes; s.pre=pre; s.ret=ret; s.sampler=sampler; s.over=over or {}; s.tol=tol; s.setup=setup; s.name=name or fname
        s.arrs={a.name:a for a in args if isinstance(a,Arr)}; s.case_filter=case_filter; s.ctype_ret=ctype_ret; s.notes=notes; s.domain=domain; s.insub=insub; s.hints=hints
    def cases(s,thorough=True):
        nul=[a.name for a in s.args if isinstance(a,Arr) and a.nullable]
        if s.nulls is not None: nsets=[frozenset(x) for x in s.nulls]
        else: nsets=[frozenset(c) for k in range(len(nul)+1) for c in itertools.combinations(nul,k)]
        fl=list(itertools.product(*s.flags.values()))
        for n in nsets:
            for f in fl:
                for lay in s.layouts:
                    for al in [{}]+s.inplace:
                        c=Cfg(null=n,flags=dict(zip(s.flags,f)),layout=lay,alias=al)
                        if any(k in n or v in n for k,v in al.items()): continue
                        if s.case_filter and not s.case_filter(c,thorough): continue
                        yield c

class Path: pass

def setup_state(ex,con,cfg):
    st=State(); objs={}; strides={}; vals=[]
    for a in con.args:
        if isinstance(a,Arr):
            al=cfg.alias.get(a.name)
            nst=len(a.shape)
            if a.name in cfg.null:
                vals.append(NULL)
                if a.strided: vals+= [0]*nst
                continue
            if al:
                o=objs[al] if al in objs else None
                if o is None:
                    # target appears later in the list: create it now
                    o=mkobj(ex,st,con,cfg,con.arrs[al],strides); objs[al]=o
                objs[a.name]=o; strides[a.name]=strides[al]
            elif a.name in objs: o=objs[a.name]
            else:
                o=mkobj(ex,st,con,cfg,a,strides); objs[a.name]=o
            vals.append(Ptr(o.id,0))
            if a.strided:
                vals+= a.pass_strides(strides[a.name],cfg.layout)
        elif isinstance(a,Flag): vals.append(cfg.flags[a.name])
        elif isinstance(a,Dbl): vals.append(IN(a.name))
        elif isinstance(a,Const): vals.append(a.v)
        elif isinstance(a,Count): vals.append(isym('N')); st.assume(icmp('le',0,isym('N')))
        elif isinstance(a,StructIn): vals.append(a.build(ex,st,cfg))
    return st,objs,strides,vals
def mkobj(ex,st,con,cfg,a,strides):
    o=Obj(a.name,None,'input')
    if cfg.layout=='strided' and a.strided:
        ss=[S.imul(isym('stride_%s_%d'%(a.name,k)),8 if a.elems else 1) for k in range(len(a.shape))]
        for x in ss: st.assume(icmp('lt',0,x))
        o.policy='distinct'
    else: ss=contig(a.shape)
    strides[a.name]=ss
    # the source of initial contents: the input living in this object, if any
    inputs=[b for b in con.args if isinstance(b,Arr) and (b.name==a.name or cfg.alias.get(b.name)==a.name) and b.role in('in','inout')]
    table=a.offs(ss)
    if a.shape and a.shape[0]=='N':
        row=ss[0]; sub=a.offs([0]+ss[1:])
        def init(x,s,o,off,ty,a=a,isin=bool(inputs),row=row,sub=sub):
            e,c=rowof(off,row)
            i=sub.get(c)
            if e is None or i is None or ty[0]!='double' or not loops.iproves(s.path,S.cand(icmp('le',0,e),icmp('lt',e,isym('N')))):
                s.viol.append(('read outside the footprint of argument %s'%a.name,repr(off))); return x.undef(ty,'foot')
            if not isin: return loops.elem('$uninit:'+a.name,e,*i[1:])
            return loops.elem(a.name,e,*i[1:])
        o.init=init; o.policy='check'; st.add_obj(o)
        return o
    def init(x,s,o,off,ty,table=table,a=a,isin=bool(inputs)):
        i=table.get(off)
        if i is None or ty[0]!='double':
            s.viol.append(('read outside the footprint of argument %s'%a.name,repr(off))); return x.undef(ty,'foot')
        if not isin: return S.sym('$uninit:'+nm(a.name,*i))
        return IN(a.name,*i)
    o.init=init
    st.add_obj(o)
    return o

def rowof(off,row):
    """byte offset -> (element index, offset within the element)"""
    if isinstance(off,int): return divmod(off,row)
    c=dict(off.terms()).get((),0)%row
    return loops.exdiv(S.iadd(off,-c),row),c
def parts_ok(con,o,arrs,objs,strides,w,st):
    """is the recorded write w inside an output argument?"""
    for a in arrs:
        if not(a.shape and a.shape[0]=='N'):
            if not isinstance(w,tuple) and w in set(a.offs(strides[a.name])): return True
            if isinstance(w,tuple) and w[0]=='range' and w[1]==0 and w[2]==contig(a.shape)[0]*a.shape[0]: return True
            continue
        row=contig(a.shape)[0]; sub=a.offs([0]+contig(a.shape)[1:])
        if isinstance(w,tuple) and w[0]=='par':
            r=w[1]; e,c=rowof(r.off,row); ex=[x for n,t in r.binders for x in(icmp('le',0,isym(n)),icmp('lt',isym(n),t))]+[x for x in r.conds]
            if e is not None and c in sub and r.size==8 and loops.iproves(list(st.path)+ex,S.cand(icmp('le',0,e),icmp('lt',e,isym('N')))): return True
        elif isinstance(w,tuple):
            if w[1]==0 and loops.iproves(st.path,icmp('le',w[2],S.imul(isym('N'),row))): return True
        else:
            e,c=rowof(w,row)
            if e is not None and c in sub and loops.iproves(st.path,S.cand(icmp('le',0,e),icmp('lt',e,isym('N')))): return True
    return False
def load_all(ex,m,st,items):
    """load cells; a load that depends on an undecided condition splits the state"""
    work=[st]; done=[]
    while work:
        s=work.pop(); r={}
        try:
            for k,(p,ty) in items.items(): r[k]=ex.load(s,m,ty,p)
            done.append((s,r))
        except Fork as f:
            for c in(f.cond,cnot(f.cond)):
                t=s.copy()
                try: t.assume(c)
                except Infeasible: continue
                if loops.iconsistent(t.path): work.append(t)
        except Infeasible:
            if s.viol: done.append((s,r))
    return done
def affine1(e):
    """e as k*base+c with rational k,c"""
    if e.op=='c': return 0,None,e.a
    if e.op=='neg': k,b,c=affine1(e.a[0]); return -k,b,-c
    if e.op=='+':
        for x,y in((e.a[0],e.a[1]),(e.a[1],e.a[0])):
            if y.op=='c': k,b,c=affine1(x); return k,b,c+y.a
    if e.op=='*':
        for x,y in((e.a[0],e.a[1]),(e.a[1],e.a[0])):
            if y.op=='c': k,b,c=affine1(x); return k*y.a,b,c*y.a
    return 1,e,0
def bound_decider(path,c):
    """decide a comparison from the path's bounds on the same quantity (up to an affine map)"""
    if c.op not in('r<','r<='): return None
    k,b,z=affine1(c.a)
    if b is None or not k: return None
    def bound(k,z,strict): return (-execu.Fraction(z)/k, 'hi' if k>0 else 'lo', strict)       # k b + z < 0
    lo=hi=None
    for x in path:
        if isinstance(x,bool) or x.op not in('r<','r<='): continue
        k2,b2,z2=affine1(x.a)
        if b2 is not b or not k2: continue
        v,side,st=bound(k2,z2,x.op=='r<')
        if side=='hi': hi=(v,not st) if hi is None else min(hi,(v,not st))
        else: lo=(v,st) if lo is None else max(lo,(v,st))
    v,side,st=bound(k,z,c.op=='r<')
    if side=='hi':      # b < v (<=)
        if hi and (hi[0]<v or hi[0]==v and (not st or hi[1] is False)): return True
        if lo and (lo[0]>v or lo[0]==v and (st or lo[1])): return False
    else:
        if lo and (lo[0]>v or lo[0]==v and (not st or lo[1])): return True
        if hi and (hi[0]<v or hi[0]==v and (st or hi[1] is False)): return False
    return None
def sym_paths(mods,con,cfg,ex=None):
    ex=Exec(mods,decider=con.__dict__.get('decider'),max_steps=con.__dict__.get('max_steps',3_000_000)); ex.over.update(con.over)
    st,objs,strides,vals=setup_state(ex,con,cfg)
    sret=None
    m,f=ex.find(con.fname)
    if f is None: raise Undecided('no definition of '+con.fname)
    if con.setup: con.setup(ex,st,cfg,objs,vals)
    if con.pre:
        for c in con.pre(cfg): st.assume(c)
    npre=len(st.path)
    fparams=f.params
    if fparams and any('sret' in str(at) for _,_,at in fparams[:1]):
        sret=st.add_obj(Obj('sret',None,'output')); sret.policy='check'
        vals=[Ptr(sret.id,0)]+vals
    if con.loops: ex.loop_handler=loops.handler
    if con.loophandler: ex.loop_handler=con.loophandler
    ex.call(st,con.fname,vals)
    done=ex.run(st)+ex.loop_viols
    out=[]
    dyn={a.name:a for a in con.args if isinstance(a,Arr) and a.shape and a.shape[0]=='N' and a.name in objs}
    if con.loops:
        # the generic element e
        nd=[]
        for s in done:
            if s.status=='viol': nd.append(s); continue
            st0=s; w={o:set(s.o(objs[o].id).written) for o in objs}
            s=s.copy(); s.gen={}; nd2=[(s,{})]
            if dyn:
                try:
                    s.assume(icmp('le',0,isym('e'))); s.assume(icmp('lt',isym('e'),isym('N')))
                    if not loops.iconsistent(s.path): raise Infeasible()
                    nd2=load_all(ex,m,s,{nm(a.name,*i):(Ptr(objs[a.name].id,off),('double',)) for a in dyn.values() if a.role!='in' for off,i in a.offs(strides[a.name]).items()})
                except Infeasible: nd2=[]; cfg.setdefault('$empty',[]).append(s)
            for q,r in nd2: q.gen=r; q.status=st0.status; q.ret=st0.ret; nd.append(q)
            if not nd2:
                for oid in {objs[n].id for n in objs}:
                    arrs=[a for a in con.args if isinstance(a,Arr) and a.name in objs and objs[a.name].id==oid and a.role!='in']
                    for x in st0.o(oid).written:
                        if not parts_ok(con,st0.o(oid),arrs,objs,strides,x,st0): st0.viol.append(('write outside the frame: %s+%s'%(st0.o(oid).name,x),)); 
                if st0.viol: nd.append(st0)
        done=nd
    for s in done:
        p=Path(); p.st=s; p.conds=s.path[npre:]; p.allconds=list(s.path); p.viol=list(s.viol); p.outs={}; p.bad=[]
        p.ret=s.ret
        if s.status!='viol':
            seen=set()
            for a in con.args:
                if not isinstance(a,Arr) or a.name in cfg.null: continue
                o=s.o(objs[a.name].id)
                if a.name in dyn:
                    if a.role!='in':
                        for i in a.offs(strides[a.name]).values():
                            v=s.gen.get(nm(a.name,*i))
                            if isinstance(v,E) and not(v.op=='s' and v.a.startswith('$uninit:')): p.outs[nm(a.name,*i)]=v
                    continue
                table=a.offs(strides[a.name])
                if a.role!='in':
                    for off,i in table.items():
                        c=o.cells.get(off)
                        if c is not None and c[0]==8: p.outs[nm(a.name,*i)]=c[1]
                        elif c is None and a.role=='inout': p.outs[nm(a.name,*i)]=IN(a.name,*i)   # left alone
            # frame: written cells per object
            for oid in {objs[n].id for n in objs}:
                ok=set()
                for a in con.args:
                    if isinstance(a,Arr) and a.name in objs and objs[a.name].id==oid and a.role!='in': ok|=set(a.offs(strides[a.name]))
                o=s.o(oid)
                if con.loops:
                    arrs=[a for a in con.args if isinstance(a,Arr) and a.name in objs and objs[a.name].id==oid and a.role!='in']
                    for w in o.written:
                        if not parts_ok(con,o,arrs,objs,strides,w,s): p.bad.append('write outside the frame: %s+%s'%(o.name,w))
                    continue
                for w in o.written:
                    if w not in ok: p.bad.append('write outside the frame: %s+%s'%(o.name,w))
            if sret is not None:
                for off,c in s.o(sret.id).cells.items(): p.outs[nm('ret',off//8)]=c[1]
                if con.__dict__.get('sret_n'):
                    for k in range(con.sret_n):
                        q=load_all(ex,m,s.copy(),{'r':(Ptr(sret.id,8*k),('double',))})
                        if len(q)==1 and isinstance(q[0][1].get('r'),E): p.outs[nm('ret',k)]=q[0][1]['r']
            elif isinstance(s.ret,E): p.outs['ret']=s.ret
            elif isinstance(s.ret,(int,bool)): p.outs['ret']=S.const(abs(int(s.ret)) if con.ctype_ret is ctypes.c_bool else int(s.ret))
            elif isinstance(s.ret,Agg):
                for k,v in enumerate(s.ret.v):
                    if isinstance(v,E): p.outs[nm('ret',k)]=v
        out.append(p)
    return ex,out

class Res:
    """result of one obligation"""
    def __init__(s,status,label,backend='',detail='',replay=None): s.status=status; s.label=label; s.backend=backend; s.detail=detail; s.replay=replay
    def __repr__(s): return '%s %s %s %s'%(s.status,s.label,s.backend,s.detail)

def path_eval_pairs(con,cfg,p,clauses):
    """substitute OUT / D symbols by the path's values"""
    syms=S.symbols([x for c in clauses for x in(c[1],c[2])])
    m={}; missing=set(); dw={}
    for e in syms:
        if e.op!='s': continue
        if e.a.startswith('out:'):
            v=p.outs.get(e.a[4:])
            if isinstance(v,E): m[e]=v
            elif isinstance(v,int): m[e]=S.const(v)
            else: missing.add(e.a)
        elif e.a.startswith('D:'):
            o,i=e.a[2:].split('|'); dw.setdefault(i,[]).append((e,o))
    for i,l in dw.items():
        ok=[(e,o) for e,o in l if isinstance(p.outs.get(o),E)]
        for e,o in l:
            if not isinstance(p.outs.get(o),E): missing.add(e.a)
        r=S.diff([p.outs[o] for _,o in ok],S.sym(i))
        for (e,o),v in zip(ok,r): m[e]=v
    roots=S.subst([x for c in clauses for x in(c[1],c[2])],m) if m else [x for c in clauses for x in(c[1],c[2])]
    return [(roots[2*k],roots[2*k+1]) for k in range(len(clauses))],missing

def csub(c,m):
    if isinstance(c,bool): return c
    if c.op in('r<','r<=','r=='):
        e=S.subst([c.a],m)[0]
        if e.op=='c': return {'r<':e.a<0,'r<=':e.a<=0,'r==':e.a==0}[c.op]
        return Cond(c.op,e)
    if c.op=='not': return cnot(csub(c.a[0],m))
    if c.op=='and': return S.cand(*[csub(x,m) for x in c.a])
    if c.op=='or': return S.cor(*[csub(x,m) for x in c.a])
    return c
def sign_of(conds,e):
    if prove.z3_implies(conds,rcmp('le',S.ZERO,e),3000) is True: return 1
    if prove.z3_implies(conds,rcmp('le',e,S.ZERO),3000) is True: return -1
    return 0
def eq_pins(conds):
    """r== conditions of the form sym-const==0"""
    m={}
    for c in conds:
        for x in (c.a if isinstance(c,Cond) and c.op=='and' else [c]):
            if isinstance(x,Cond) and x.op=='r==':
                e=x.a
                if e.op=='s': m[e]=S.ZERO
                elif e.op=='neg' and e.a[0].op=='s': m[e.a[0]]=S.ZERO
                elif e.op=='+' and e.a[0].op in'sc' and e.a[1].op in 'sc' and {e.a[0].op,e.a[1].op}=={'s','c'}:
                    a,b=e.a if e.a[0].op=='s' else (e.a[1],e.a[0]); m[a]=S.const(-b.a)
    return m

def check_case(mods,con,cfg,seed=1,replayer=None):
    """all obligations of one configuration -> list of Res"""
    L='%s [%s]'%(con.name,cfg.label()); out=[]
    try:
        ex,paths=sym_paths(mods,con,cfg)
    except Exception as e:
        if not isinstance(e,(Undecided,S.SymError,KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError)): raise
        return [Res('undecided',L,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
    clauses=con.clauses(cfg)
    if not clauses and not con.notes: raise RuntimeError('contract without clauses: '+L)
    lem=[]
    if con.lemmas:
        for e in con.lemmas(cfg):
            r=S.subst([e],con.insub(cfg))[0]
            if prove.pit([(r,S.ZERO)],seed)[0] is not True: out.append(Res('undecided',L+' : input lemma','pit',repr(e)[:200]))
            else: lem.append(rcmp('eq',e,S.ZERO))
    for n,p in enumerate(paths):
        p.numconds=p.allconds; p.allconds=p.allconds+lem
        PL='%s path %d/%d'%(L,n+1,len(paths))
        if p.viol or p.bad:
            r=prove.z3_check(p.allconds,3000)
            if r=='unsat': continue
            out.append(Res('failed',PL+' : '+str((p.viol or p.bad)[0]),'symbolic execution + z3 (path %s)'%r,'path condition: %s'%(p.conds,)))
            continue
        mine=[c for c in clauses if len(c)<5 or c[4](p)]
        try: pairs,missing=path_eval_pairs(con,cfg,p,mine)
        except S.SymError as e:
            out.append(Res('undecided',PL,'diff',str(e))); continue
        if missing:
            r=prove.z3_check(p.allconds,3000)
            if r=='unsat': continue
            out.append(Res('failed',PL+' : output not written: '+sorted(missing)[0],'frame','path condition: %s'%(p.conds,))); continue
        if con.loops and 'e' in p.st.isub:
            ev=p.st.isub['e']; mp_={}
            for y in S.symbols([x for q in pairs for x in q]):
                if y.op=='s' and '[e' in y.a and y.a[y.a.index('[e')+2] in ',]':
                    i=y.a.index('[e'); mp_[y]=loops.elem(y.a[:i],ev,*[int(z) for z in y.a[i+2:-1].split(',') if z])
            if mp_:
                rr=S.subst([x for q in pairs for x in q],mp_); pairs=[(rr[2*k],rr[2*k+1]) for k in range(len(pairs))]
        pins=eq_pins(p.conds)
        if pins:
            rr=S.subst([x for q in pairs for x in q],pins); pairs=[(rr[2*k],rr[2*k+1]) for k in range(len(pairs))]
        hints=[]
        if ival.infeasible(p.allconds):
            for c in mine: out.append(Res('proved',PL+' : '+c[0]+' (path infeasible)','interval'))
            continue
        hpin={}
        if con.hints: hints,hpin=con.hints(cfg,p)
        if con.insub or hpin:
            sb=dict(con.insub(cfg)) if con.insub else {}
            if hpin:
                ks=list(sb); vs=S.subst([sb[k] for k in ks],hpin); sb=dict(hpin); sb.update(zip(ks,vs))
            rr=S.subst([x for q in pairs for x in q],sb); pairs=[(rr[2*k],rr[2*k+1]) for k in range(len(pairs))]
            p.subconds=[c for c in [csub(c,sb) for c in p.allconds] if c is not True]
            if hpin: hints=S.subst(hints,hpin)
            if any(c is False for c in p.subconds): continue
        if con.defined: out+=definedness(con,cfg,p,PL)
        ok=prove.pit(pairs,seed,roots_hint=hints)
        bad=[k for k in range(len(pairs)) if ok[k] is not True]
        for k in range(len(pairs)):
            if ok[k] is True: out.append(Res('proved',PL+' : '+mine[k][0],'pit'))
        if not bad: continue
        if ival.infeasible(p.allconds):
            for k in bad: out.append(Res('proved',PL+' : '+mine[k][0]+' (path infeasible)','interval'))
            continue
        # regimes
        used=None
        for rg in con.regimes:
            if rg.when and not rg.when(cfg): continue
            T=0.
            for m in rg.measures(cfg) if callable(rg.measures) else rg.measures:
                pw=rg.pw
                if isinstance(m,tuple): m,pw=m
                b=upper_bound(p.allconds,m)
                if b is None: T=None; break
                T=max(T,max(b,0.)**(1./pw))
            if T is None or T>1e-2: continue
            orders=regime_orders(rg,[pairs[k] for k in bad],seed,con,hints)
            if any(o is None for o in orders): used=used or (rg,orders,T); continue
            if all(T**o<=rg.tol[mine[k][3]] for o,k in zip(orders,bad)):
                for o,k in zip(orders,bad): out.append(Res('proved',PL+' : %s (up to eps^%s, eps<%.2g, in regime %s)'%(mine[k][0],o,T,rg.name),'series'))
                used=rg; break
            else: used=(rg,orders,T)
        if isinstance(used,Near): continue
        # infeasible path ?
        fz=prove.z3_check(p.allconds,5000)
        if fz=='unsat':
            for k in bad: out.append(Res('proved',PL+' : '+mine[k][0]+' (path infeasible)','z3'))
            continue
        # numeric confirmation at 50 digits on inputs of this path
        num=numeric_confirm(con,cfg,p,[pairs[k] for k in bad],seed)
        for k,r in zip(bad,num):
            if r is True: out.append(Res('bounded',PL+' : '+mine[k][0],'mpmath 50 digits','identity back end could not decide; high-precision evaluation agrees'))
            elif r is None:
                out.append(Res('undecided' if not isinstance(used,tuple) and ok[k] is None else 'failed',PL+' : '+mine[k][0],'pit' if not isinstance(used,tuple) else 'series (%s, orders %s, eps<%s)'%(used[0].name,used[1],used[2]),'no sampled input reaches this path; path condition: %s'%(p.conds,)))
            else: out.append(Res('failed',PL+' : '+mine[k][0],'pit'+('' if not isinstance(used,tuple) else ' + series (%s)'%used[0].name),'counter-model %s: lhs=%s rhs=%s'%r))
    good=[p for p in paths if not p.viol]
    if not good and not any(r.status=='failed' for r in out): out.append(Res('undecided',L,'vacuity','no path returns'))
    # reachability of the precondition + agreement of the extracted semantics with the compiled code
    if replayer and not any(r.status in('failed','undecided') for r in out):
        out+=replayer.selfcheck(con,cfg,paths,L,seed)
    return out,ex.called,len(paths)

def definedness(con,cfg,p,PL):
    """no division by zero and no square root of a negative number on this path"""
    out=[]; dom=con.domain(cfg) if con.domain else []
    roots=[v for v in p.outs.values() if isinstance(v,S.E)]
    for e in S.topo(roots):
        if e.op=='/': c=rcmp('eq',e.a[1],S.ZERO)
        elif e.op=='f' and e.a[0]=='sqrt': c=rcmp('lt',e.a[1],S.ZERO)
        else: continue
        if c is False: continue
        lb=PL+' : %s'%('divisor is not zero: ' if e.op=='/' else 'square root argument is not negative: ')+S.show(e.a[1],4)[:80]
        r=prove.z3_check(list(p.allconds)+list(dom)+[c],8000)
        out.append(Res({'unsat':'proved','sat':'failed'}.get(r,'undecided'),lb,'z3','' if r=='unsat' else 'path condition: %s'%(p.conds,)))
    return out
def regime_orders(rg,pairs,seed,con=None,hints=()):
    if isinstance(rg.eps,list):
        al=[regime_orders1(rg,e,pairs,seed,hints) for e in rg.eps]
        return [None if any(o[i] is None for o in al) else min(o[i] for o in al) for i in range(len(pairs))]
    return regime_orders1(rg,rg.eps,pairs,seed,hints)
def regime_orders1(rg,eps,pairs,seed,hints=()):
    rng=random.Random(seed); n=len(pairs); best=[None]*n; got=0
    roots=[x for p in pairs for x in p]
    for tries in range(600):
        m=prove.SerEval(rng,{},prec=10)
        if rg.setup:
            try: rg.setup(m,rng)
            except prove.Retry: continue
        try:
            m.epsmap=dict(eps) if not callable(eps) else eps(m,rng)
            for h in hints:
                hv=m.sev([h])[0]
                if hv.c: m.sq[hv.c[0]*hv.c[0]%prove.P]=hv.c[0]
            v=m.sev(roots)
        except prove.Retry: continue
        got+=1
        for i in range(n):
            d=prove.s_add(v[2*i],prove.s_neg(v[2*i+1]))
            o=d.v
            best[i]=o if best[i] is None else min(best[i],o)
        if got==2: return best
    return [None]*n
def eps1(r): return (1,[r.randrange(1,prove.P)])

def insyms(con,cfg):
    r=[]
    for a in con.args:
        if isinstance(a,Arr) and a.role!='out' and a.name not in cfg.null: r+=[nm(a.name,*i) for i in idx(a.shape)]
        elif isinstance(a,Dbl): r.append(a.name)
    return r
def draw(con,cfg,rng,n):
    """sample inputs: {name: array(n)}"""
    if con.sampler:
        e=con.sampler(cfg,rng,n)
        if e is not None: return e
    env={}
    for a in con.args:
        if isinstance(a,Arr) and a.role!='out' and a.name not in cfg.null:
            k=rng.random(n); sc=np.where(k<.6,1.,np.where(k<.75,1e-3,np.where(k<.87,1e-7,1e-10)))
            for i in idx(a.shape,NC): env[nm(a.name,*i)]=rng.standard_normal(n)*sc
        elif isinstance(a,Dbl): env[a.name]=rng.standard_normal(n)
    return env
def draw0(con,cfg,rng,n):
    """plain samples"""
    if con.sampler:
        e=con.sampler(cfg,rng,n)
        if e is not None: return e
    e={}
    for a in con.args:
        if isinstance(a,Arr) and a.role!='out' and a.name not in cfg.null:
            for i in idx(a.shape,NC): e[nm(a.name,*i)]=rng.standard_normal(n)
        elif isinstance(a,Dbl): e[a.name]=rng.standard_normal(n)
    return e
def generic(env,k):
    """concrete values as seen by the generic element e=k"""
    out=dict(env)
    t='[%d'%k
    for n,v in env.items():
        if isinstance(n,str) and t in n:
            i=n.index('[')
            if n[i:i+len(t)]==t and n[i+len(t)] in ',]': out[n[:i]+'[e'+n[i+len(t):]]=v
    one=next(iter(env.values())) if env else 0.
    f=(lambda x: np.full(np.shape(one),float(x))) if hasattr(one,'shape') else float
    out[('i','e')]=f(k); out[('i','N')]=f(NC)
    return out
def extra_env(roots,env,n,rng):
    for e in S.symbols(roots):
        k=e.a if e.op=='s' else ('i',)+tuple(e.a)
        if k in env or e.op=='s' and e.a in('$pi','$nan','$inf','$ninf'): continue
        env[k]=rng.standard_normal(n)
def numeric_confirm(con,cfg,p,pairs,seed,want=6):
    """True: agrees on samples of the path; None: path not reached; (inputs,l,r): differs"""
    rng=np.random.default_rng(seed); sel=[]
    conds=[c for c in p.numconds if prove.csyms(c)]
    for it in range(12):
        n=4096
        env=draw(con,cfg,rng,n)
        if con.loops: env=generic(env,1)
        roots=[x for c in conds for x in prove.csyms(c)]+[x for q in pairs for x in q]
        extra_env(roots,env,n,rng)
        try:
            N=prove.NumPy(env,n); mask=np.ones(n,bool)
            for c in conds: mask&=N.cond(c)
        except (prove.Retry,KeyError): return [None]*len(pairs)
        for k in np.nonzero(mask)[0][:want]: sel.append({s:float(v[k]) for s,v in env.items()})
        if len(sel)>=want: break
    if not sel: return [None]*len(pairs)
    res=[None]*len(pairs)
    for env in sel[:want]:
        v=prove.mp_eval([x for q in pairs for x in q],env)
        for i in range(len(pairs)):
            if isinstance(res[i],tuple): continue
            l,r=v[2*i],v[2*i+1]
            if l!=l and r!=r: continue
            if not abs(l-r)<=1e-25*(1+abs(l)+abs(r)): res[i]=({k:x for k,x in env.items() if isinstance(k,str)},float(l),float(r))
            elif res[i] is None: res[i]=True
    return res

# ------------------------------------------------------------------ concrete side
CALLLOG=None
def cshape(sh): return tuple(NC if n=='N' else n for n in sh)
class Replayer:
    def __init__(s,lib): s.lib=lib
    def call(s,con,cfg,env):
        """env: {input name: float}; returns {output name: float} (+ 'ret')"""
        bufs={}; args=[]; strides={}; keep=[]
        lay=cfg.layout
        def mk(a):
            if lay=='strided' and a.strided:
                # padded, transposed-free layout: each stride enlarged
                ss=[]; k=8*3
                for n in reversed(cshape(a.shape)): ss.insert(0,k); k=k*n+16
                tot=k//8+4
            else: ss=contig(cshape(a.shape)); tot=int(np.prod(cshape(a.shape))) if a.shape else 1
            b=np.full(tot+8,1e300); strides[a.name]=ss; bufs[a.name]=b
            return b
        for a in con.args:
            if isinstance(a,Arr):
                if a.name in cfg.null:
                    args.append(ctypes.c_void_p(None)); args+=[ctypes.c_int(0)]*(len(a.shape) if a.strided else 0); continue
                t=con.arrs[cfg.alias.get(a.name,a.name)]
                b=bufs[t.name] if t.name in bufs else mk(t)
                bufs[a.name]=b; strides[a.name]=strides[t.name]
                if a.role!='out':
                    for i in idx(a.shape,NC): b[sum_off(i,strides[a.name])//8]=env[nm(a.name,*i)]
                args.append(b.ctypes.data_as(ctypes.c_void_p))
                if a.strided: args+=[ctypes.c_int(x) for x in a.pass_strides(strides[a.name],lay)]
            elif isinstance(a,Flag):
                v=cfg.flags[a.name]; args.append(ctypes.c_int(int(v)))
            elif isinstance(a,Dbl): args.append(ctypes.c_double(env[a.name]))
            elif isinstance(a,Const):
                args.append(ctypes.c_void_p(None) if a.v is NULL else ctypes.c_int(a.v))
            elif isinstance(a,Count): args.append(a.ctype(NC))
            elif isinstance(a,StructIn): args.append(a.conc(cfg,keep,env))
        if CALLLOG is not None:
            import pickle
            CALLLOG.seek(0); CALLLOG.truncate(); CALLLOG.write(pickle.dumps(dict(env))); CALLLOG.flush()
        before={k:v.copy() for k,v in bufs.items()}
        f=getattr(s.lib,con.fname); f.restype=con.ctype_ret
        r=f(*args)
        out={}
        if con.ctype_ret is ctypes.c_double: out['ret']=r
        elif con.ctype_ret is not None and hasattr(r,'_fields_'):
            for k,x in enumerate(np.frombuffer(bytes(r),dtype=float)): out[nm('ret',k)]=x
        elif r is not None: out['ret']=float(r)
        allowed={}
        for a in con.args:
            if isinstance(a,Arr) and a.name not in cfg.null and a.role!='in':
                for i in idx(a.shape,NC):
                    k=sum_off(i,strides[a.name])//8
                    out[nm(a.name,*i)]=float(bufs[a.name][k]); allowed.setdefault(id(bufs[a.name]),set()).add(k)
        for n,b in bufs.items():
            ch=np.nonzero(~((b==before[n])|(np.isnan(b)&np.isnan(before[n]))))[0]
            for k in ch:
                if k not in allowed.get(id(b),set()): out['$frame']=(n,int(k))
        return out
    def selfcheck(s,con,cfg,paths,L,seed,n=3):
        """extracted semantics == compiled code on sampled inputs; also the reachability witness"""
        rng=np.random.default_rng(seed); env=draw(con,cfg,rng,n); okp=0
        good=[p for p in paths if not p.viol]
        for k in range(n):
            e={s_:np.array([float(v[k])]) for s_,v in env.items()}
            try: out=s.call(con,cfg,{a:float(b[0]) for a,b in e.items()})
            except Exception as ex: return [Res('undecided',L,'replay','%s: %s'%(type(ex).__name__,ex))]
            hit=0
            if con.loops: e=generic(e,1); out=generic(out,1)
            for p in good:
                conds=[c for c in p.numconds if prove.csyms(c)]
                ee=dict(e)
                try:
                    N=prove.NumPy(ee,1)
                    if not all(N.cond(c)[0] for c in conds): continue
                    hit+=1
                    names=[o for o in p.outs if isinstance(p.outs[o],E)]
                    vals=N.ev([p.outs[o] for o in names])
                except (KeyError,prove.Retry): hit=1; okp+=1; break
                for o,v in zip(names,vals):
                    if o not in out: continue
                    a,b=float(v[0]),out[o]
                    if not(abs(a-b)<=1e-5*(1+abs(a)+abs(b)) or (a!=a) or (b!=b) or abs(a)==float('inf')):
                        return [Res('undecided',L+' : extraction differs from compiled code at '+o,'self-check','%r symbolic %r compiled %r'%({x:float(y[0]) for x,y in e.items()},a,b))]
                okp+=1
                break
        if okp==0: return [Res('undecided',L,'self-check','no sampled input satisfies any path condition')]
        return []
    def bounded(s,con,cfg,seed,n=None,only_special=False):
        if n is None: n=con.nbounded
        """evaluate the clauses on the compiled code for sampled inputs. returns (n_checked, violation or None)"""
        rng=np.random.default_rng(seed+7); clauses=con.clauses(cfg)
        clauses=[c for c in clauses if len(c)<5]
        def fresh(n):
            if con.sampler:
                e=con.sampler(cfg,rng,n)
                if e is not None: return e
            e={}
            for a in con.args:
                if isinstance(a,Arr) and a.role!='out' and a.name not in cfg.null:
                    for i in idx(a.shape,NC): e[nm(a.name,*i)]=rng.standard_normal(n)
                elif isinstance(a,Dbl): e[a.name]=rng.standard_normal(n)
            return e
        env=fresh(n); cnt=0; maxw=None
        ds=[e for e in S.symbols([x for c in clauses for x in c[1:3]]) if e.op=='s' and e.a.startswith('D:')]
        todo=[(e,True) for e in (con.special(cfg,rng) if con.special else [])]+[({s_:float(v[k]) for s_,v in env.items()},False) for k in range(0 if only_special else n)]
        for e,sp in todo:
          for ke in (range(NC) if con.loops else [None]):
            out=s.call(con,cfg,e)
            if '$frame' in out: return cnt,(dict(e),'frame: wrote outside outputs %s'%(out['$frame'],),None,None)
            if ke is not None: out=generic(out,ke)
            full=dict(e) if ke is None else generic(e,ke); full.update({'out:'+a:b for a,b in out.items() if isinstance(a,str) and not a.startswith('$')})
            cl=[c for c in clauses if not any(e.op=='s' and e.a.startswith('D:') for e in S.symbols(c[1:3]))] if sp else clauses
            if ds and not sp:
                need={}
                for d in ds:
                    o,i=d.a[2:].split('|'); need.setdefault(i,[]).append((d.a,o))
                for i,l in need.items():
                    i0=i
                    if ke is not None: i=i.replace('[e','[%d'%ke)
                    h=1e-6*max(1,abs(e[i]))
                    g=[]
                    for hh in (h,h/2):
                        e1=dict(e); e1[i]+=hh; e2=dict(e); e2[i]-=hh
                        o1=s.call(con,cfg,e1); o2=s.call(con,cfg,e2)
                        if ke is not None: o1=generic(o1,ke); o2=generic(o2,ke)
                        g.append([(o1[o]-o2[o])/(2*hh) for _,o in l])
                    # a step across a discontinuity of the representation is not a derivative: such points are not used
                    for (nme,o),x,y in zip(l,*g): full[nme]=x if abs(x-y)<=1e-3*(1+abs(x)) and abs(x)<1e4 else float('nan')
            roots=[x for c in cl for x in c[1:3]]
            try:
                if sp: v=[float(x) for x in prove.mp_eval(roots,full,60)]
                else: v=[float(x[0]) for x in prove.NumPy({k_:np.array([x]) for k_,x in full.items()},1).ev(roots)]
            except KeyError as ke: return cnt,(dict(e),'output not produced: %s'%ke,None,None)
            for j,c in enumerate(cl):
                l,r=v[2*j],v[2*j+1]; cnt+=1
                tol=(1e-4 if c[3]=='grad' else con.tol)
                if l!=l and r!=r or (sp or ds) and (l!=l or r!=r) and not any(out[o]!=out[o] for o in out): continue
                if (l!=l)!=(r!=r) or not abs(l-r)<=tol*(1+abs(l)+abs(r)):
                    if any(abs(x)>1e6 for x in(l,r)): continue
                    return cnt,(dict(e),c[0],l,r)
        return cnt,None

def load_lib():
    return ctypes.CDLL(build.replay_lib())
