"""Symbolic executor / VC generator over the LLVM IR of the real sources.

Every call without a contract override is inlined, every loop with a concrete
trip count is unrolled completely (so "all iterations" holds without an
invariant), loops with a symbolic trip count are handled by `loops.py`
(inferred and re-checked affine invariants) or raise Undecided.
"""
import itertools, math
from fractions import Fraction
import ir
from sym import *
import sym as S

class Undecided(Exception): pass
class Infeasible(Exception): pass
class Fork(Exception):
    def __init__(s,cond): s.cond=cond

_ids=itertools.count(1)
class Obj:
    __slots__=('id','name','size','cells','kind','init','zero','foot','wfoot','policy','written','readonly','symcells','meta','par','reads','freed')
    def __init__(s,name,size=None,kind='local'):
        s.id=next(_ids); s.name=name; s.size=size; s.cells={}; s.kind=kind; s.init=None
        s.zero=[]; s.foot=None; s.wfoot=None; s.policy='check'; s.written=set(); s.readonly=False; s.symcells=set(); s.meta=None; s.par=[]; s.reads=None; s.freed=False
    def copy(s):
        o=Obj.__new__(Obj)
        o.id=s.id; o.name=s.name; o.size=s.size; o.cells=dict(s.cells); o.kind=s.kind; o.init=s.init
        o.zero=list(s.zero); o.foot=s.foot; o.wfoot=s.wfoot; o.policy=s.policy; o.written=set(s.written); o.readonly=s.readonly
        o.symcells=set(s.symcells); o.meta=s.meta; o.par=list(s.par); o.reads=s.reads; o.freed=s.freed
        return o
    def __repr__(s): return 'Obj(%s)'%s.name

class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off): s.obj=obj; s.off=off     # obj: object id or None
    def __repr__(s): return 'Ptr(%s,%s)'%(s.obj,s.off)
NULL=Ptr(None,0)
class FPtr:
    __slots__=('name',)
    def __init__(s,n): s.name=n
class Agg:
    __slots__=('v',)
    def __init__(s,v): s.v=v
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
class Bits:
    """raw byte image of several cells (struct moved through an integer register)"""
    __slots__=('cells','size')
    def __init__(s,cells,size): s.cells=cells; s.size=size

class Frame:
    __slots__=('fn','blk','prev','ip','env','dst','allocas','mod','stack')
    def __init__(s): s.stack=[]
    def copy(s):
        f=Frame(); f.fn=s.fn; f.blk=s.blk; f.prev=s.prev; f.ip=s.ip; f.env=dict(s.env); f.dst=s.dst; f.allocas=list(s.allocas); f.mod=s.mod; f.stack=list(s.stack)
        return f

class State:
    def __init__(s):
        s.frames=[]; s.mem={}; s.own=set(); s.path=[]; s.pset=set(); s.ret=None; s.status='run'; s.viol=[]; s.log=[]; s.isub={}; s.globals={}; s.meta={}; s.visits={}; s.loops=[]; s.iw=None
    def copy(s):
        n=State(); n.frames=[f.copy() for f in s.frames]; n.mem=dict(s.mem); n.own=set(); s.own=set()
        n.path=list(s.path); n.pset=set(s.pset); n.viol=list(s.viol); n.log=list(s.log); n.isub=dict(s.isub); n.globals=dict(s.globals); n.meta=dict(s.meta)
        n.visits=dict(s.visits); n.loops=list(s.loops); n.iw=None if s.iw is None else (set(s.iw[0]),list(s.iw[1]))
        return n
    def o(s,id): return s.mem[id]
    def w(s,id):
        if id not in s.own:
            s.mem[id]=s.mem[id].copy(); s.own.add(id)
        return s.mem[id]
    def add_obj(s,o): s.mem[o.id]=o; s.own.add(o.id); return o
    def assume(s,c):
        if c is True: return
        if c is False: raise Infeasible()
        s.path.append(c); s.pset.add(c)
        if c.op=='and':
            for x in c.a: s.pset.add(x)
        for x in ([c] if c.op!='and' else c.a):
            if x.op=='i==': s._add_eq(x.a)
    def _add_eq(s,p):
        # linear with unit coefficient atom -> substitute
        p=isubst(p,s.isub)
        if not isinstance(p,IP): return
        for mon,c in p.t.items():
            if len(mon)==1 and mon[0][1]==1 and c in(1,-1) and isinstance(mon[0][0],str):
                at=mon[0][0]
                rest=iadd(p,imul(iatom(at),-c))
                if at in iatoms(rest): continue
                val=imul(rest,-c)
                s.isub={k:isubst(v,{at:val}) for k,v in s.isub.items()}
                s.isub[at]=val
                # rekey memory
                for id,o in list(s.mem.items()):
                    if o.symcells and any(at in iatoms(k) for k in o.symcells):
                        o=s.w(id)
                        for k in list(o.symcells):
                            if at in iatoms(k):
                                nk=isubst(k,s.isub); o.cells[nk]=o.cells.pop(k); o.symcells.discard(k)
                                if isinstance(nk,IP): o.symcells.add(nk)
                                if k in o.written: o.written.discard(k); o.written.add(nk)
                return

def ssize(mod,ty): return (ty[1]+7)//8 if ty[0]=="int" else mod.size(ty)
class Exec:
    def __init__(self,modules,decider=None,max_steps=3_000_000,max_states=4000):
        self.mods=modules; self.fmod={}
        for m in modules:
            for n in m.funcs:
                self.fmod.setdefault(n,m)
        self.over={}       # contract overrides  name -> f(ex,state,args,instr) -> value  | list[(state,value)]
        self.ext=dict(EXT)
        self.decider=decider; self.max_steps=max_steps; self.steps=0; self.max_states=max_states
        self.fresh=itertools.count(1)
        self.on_assert='viol'
        self.called=set()
        self.loop_handler=None; self.loop_viols=[]
        self.nforks=0
    # ------------------------------------------------------------ values
    def undef(self,ty,why='undef'):
        k=ty[0]
        if k in('double','float'): return S.sym('$%s%d'%(why,next(self.fresh)))
        if k=='int': return isym('$%s%d'%(why,next(self.fresh)))
        if k=='ptr': return Ptr(-1,isym('$%s%d'%(why,next(self.fresh))))
        return UNDEF
    def const_val(self,st,mod,ty,o):
        k=o[0]
        if k=='c':
            if ty[0] in('double',): return S.from_double(o[1])
            if ty[0]=='float': return S.from_double(o[1]) if float(o[1])!=o[1] or True else 0
            if ty[0]=='int': return norm(o[1],ty[1])
        if k=='null': return NULL
        if k=='zero': return self.zero(mod,ty)
        if k=='undef': return UNDEF if mod.resolve(ty)[0] in('struct','array') else self.undef(ty)
        if k=='g': return self.gptr(st,mod,o[1])
        if k=='agg': return Agg([self.const_val(st,mod,t,x) for t,x in o[1]])
        if k=='bytes': return Agg([norm(b,8) for b in o[1]])
        if k=='ce_gep':
            base=self.const_val(st,mod,o[2][0][0],o[2][0][1])
            return self.gep(st,mod,o[1],base,[(t,self.const_val(st,mod,t,x)) for t,x in o[2][1:]])
        if k=='ce_cast' and o[1] in('bitcast','inttoptr','ptrtoint'): return self.const_val(st,mod,o[2],o[3])
        raise Undecided('const %r'%(o,))
    def zero(self,mod,ty):
        ty=mod.resolve(ty); k=ty[0]
        if k in('double','float'): return S.ZERO
        if k=='int': return 0
        if k=='ptr': return NULL
        if k=='struct': return Agg([self.zero(mod,t) for t in ty[1]])
        if k=='array': return Agg([self.zero(mod,ty[2]) for _ in range(ty[1])])
        raise Undecided('zero %r'%(ty,))
    def gptr(self,st,mod,name):
        if name in mod.funcs or name in mod.decls: 
            return FPtr(name)
        key=(id(mod),name)
        if key not in st.globals:
            g=mod.globals.get(name)
            if g is None: raise Undecided('global '+name)
            if g[0]=='alias': return self.const_val(st,mod,('ptr',),g[1])
            ty,init,cst=g
            if init is None:
                # external
                for m in self.mods:
                    if name in m.globals and m.globals[name][0]!='alias' and m.globals[name][1] is not None:
                        return self.gptr(st,m,name)
                o=Obj('@'+name,None,'global'); o.init=lambda st,off,t:('undef',)
                o.init=None
            else:
                o=Obj('@'+name,mod.size(ty),'global')
                o.readonly=cst
                o.meta=(mod,ty,init)
            st.add_obj(o); st.globals[key]=o.id
            if init is not None:
                if init[0]=='zero': o.zero.append((0,o.size))
                else: self._store_const(st,o,mod,ty,init,0)
        return Ptr(st.globals[key],0)
    def _store_const(self,st,o,mod,ty,init,off):
        ty=mod.resolve(ty); k=ty[0]
        if init[0]=='undef': return
        if init[0]=='zero':
            o.zero.append((off,off+mod.size(ty))); return
        if k=='struct':
            offs,_=mod.offsets(ty)
            for (t,x),oo in zip(init[1],offs): self._store_const(st,o,mod,t,x,off+oo)
        elif k=='array':
            es=mod.size(ty[2])
            if init[0]=='bytes':
                for i,b in enumerate(init[1]): o.cells[off+i]=(1,norm(b,8))
            else:
                for i,(t,x) in enumerate(init[1]): self._store_const(st,o,mod,t,x,off+i*es)
        else:
            o.cells[off]=(mod.size(ty),self.const_val(st,mod,ty,init))
    def val(self,st,ty,o):
        if o[0]=='v':
            try: return st.frames[-1].env[o[1]]
            except KeyError: raise Undecided('undefined value %%%s in %s'%(o[1],st.frames[-1].fn.name))
        return self.const_val(st,st.frames[-1].mod,ty,o)
    # ------------------------------------------------------------ conditions
    def truth(self,st,c):
        """bool, or None if the path does not settle it"""
        if isinstance(c,bool): return c
        if isinstance(c,int): return bool(c)
        if c in st.pset: return True
        n=cnot(c)
        if isinstance(n,bool): return n is False
        if n in st.pset: return False
        if c.op=='and':
            r=[self.truth(st,x) for x in c.a]
            if any(x is False for x in r): return False
            if all(x is True for x in r): return True
        if c.op=='or':
            r=[self.truth(st,x) for x in c.a]
            if any(x is True for x in r): return True
            if all(x is False for x in r): return False
        if c.op in('i<','i<=','i==') and st.isub:
            p=isubst(c.a,st.isub)
            if isinstance(p,int): return {'i<':p<0,'i<=':p<=0,'i==':p==0}[c.op]
        return None
    def decide(self,st,c):
        t=self.truth(st,c)
        if t is not None: return t
        if self.decider:
            return self.decider(st.path,c)
        return None
    def asbool(self,st,v):
        """i1 value -> python bool; forks if symbolic"""
        if isinstance(v,bool): return v
        if isinstance(v,int): return bool(v&1)
        if isinstance(v,IP):
            v=cnot(icmp('eq',v,0))
        if isinstance(v,Cond):
            t=self.decide(st,v)
            if t is None: raise Fork(v)
            return t
        raise Undecided('asbool %r'%(v,))
    def asint(self,st,v):
        if isinstance(v,KB): return isym('$kb_%s_%x_%x'%(v.n,v.m,v.v))
        """value used as an integer in arithmetic"""
        if isinstance(v,bool): return int(v)
        if isinstance(v,int): return v
        if isinstance(v,IP):
            return isubst(v,st.isub) if st.isub else v
        if isinstance(v,Cond): return int(self.asbool(st,v))
        if isinstance(v,Ptr): 
            if v.obj is None: return v.off
            return iadd(iatom(('addr',v.obj)),v.off)
        if isinstance(v,Bits): raise Undecided('bits as int')
        if isinstance(v,E): raise Undecided('double bits used as integer')
        raise Undecided('asint %r'%(v,))
    # ------------------------------------------------------------ memory
    def gep(self,st,mod,bt,base,idx):
        if isinstance(base,FPtr): raise Undecided('gep on fptr')
        if not isinstance(base,Ptr): raise Undecided('gep on %r'%(base,))
        off=base.off; ty=bt
        for n,(t,v) in enumerate(idx):
            v=self.asint(st,v)
            if n==0:
                off=iadd(off,imul(v,mod.size(ty)))
            else:
                ty=mod.resolve(ty)
                if ty[0]=='struct':
                    offs,_=mod.offsets(ty); off=iadd(off,offs[v]); ty=ty[1][v]
                elif ty[0] in('array','vec'):
                    ty=ty[2]; off=iadd(off,imul(v,mod.size(ty)))
                else: raise Undecided('gep into %r'%(ty,))
        return Ptr(base.obj,off)
    def canon(self,st,off):
        if isinstance(off,IP) and st.isub: return isubst(off,st.isub)
        return off
    def check_access(self,st,o,off,size,what):
        if o.freed: st.viol.append(('use-after-free',o.name,off)); 
        if o.size is not None and isinstance(off,int) and isinstance(o.size,int):
            if off<0 or off+size>o.size:
                st.viol.append(('out-of-bounds %s'%what,o.name,off,size))
                return False
        return True
    def load(self,st,mod,ty,p):
        ty=mod.resolve(ty)
        if ty[0]=='struct':
            offs,_=mod.offsets(ty)
            return Agg([self.load(st,mod,t,Ptr(p.obj,iadd(p.off,oo))) for t,oo in zip(ty[1],offs)])
        if ty[0]=='array':
            es=mod.size(ty[2])
            return Agg([self.load(st,mod,ty[2],Ptr(p.obj,iadd(p.off,i*es))) for i in range(ty[1])])
        if not isinstance(p,Ptr): raise Undecided('load via %r'%(p,))
        if p.obj is None or p.obj==-1:
            st.viol.append(('null/invalid dereference (read)',str(p),None)); raise Infeasible()
        o=st.o(p.obj); off=self.canon(st,p.off); size=ssize(mod,ty)
        if not self.check_access(st,o,off,size,'read'): return self.undef(ty,'oob')
        if st.loops: loops.note(st,'r',o.id,off,size)
        c=o.cells.get(off)
        if c is not None and c[0]==size: return self.conv(st,c[1],ty)
        return self.load_slow(st,mod,o,off,size,ty)
    def conv(self,st,v,ty):
        k=ty[0]
        if k in('double','float'):
            if isinstance(v,E): return v
            if isinstance(v,int):
                if v==0: return S.ZERO
                import struct
                return S.from_double(struct.unpack('<d',struct.pack('<q',v))[0]) if k=='double' else S.from_double(struct.unpack('<f',struct.pack('<i',v))[0])
            if isinstance(v,Bits): raise Undecided('bits->double')
            raise Undecided('conv %r to double'%(v,))
        if k=='int':
            if isinstance(v,int) and not isinstance(v,bool): return norm(v,ty[1])
            return v
        if k=='ptr':
            if isinstance(v,(Ptr,FPtr)): return v
            if isinstance(v,int) and v==0: return NULL
            raise Undecided('conv %r to ptr'%(v,))
        return v
    def overlaps(self,o,off,size):
        """cells overlapping [off,off+size) at concrete offsets"""
        r=[]
        for d in range(off-15,off+size):
            c=o.cells.get(d)
            if c is not None and d+c[0]>off: r.append((d,c))
        return r
    def load_slow(self,st,mod,o,off,size,ty):
        if isinstance(off,int):
            ov=self.overlaps(o,off,size)
            if ov:
                if all(isinstance(c[1],int) for d,c in ov) or ty[0]=='int':
                    # combine bytes
                    bs=[None]*size; ok=True
                    for d,c in ov:
                        if isinstance(c[1],bool) : cv=int(c[1])
                        elif isinstance(c[1],int): cv=c[1]
                        else: ok=False; break
                        b=(cv & ((1<<(8*c[0]))-1)).to_bytes(c[0],'little')
                        for i in range(c[0]):
                            if 0<=d+i-off<size: bs[d+i-off]=b[i]
                    if ok:
                        for i in range(size):
                            if bs[i] is None:
                                if any(a<=off+i<b for a,b in o.zero): bs[i]=0
                                elif o.init is None: bs[i]=0xAA   # uninitialised padding
                                else: ok=False
                    if ok:
                        v=int.from_bytes(bytes(bs),'little')
                        return self.conv(st,norm(v,8*size),ty) if ty[0]=='int' else self.conv(st,norm(v,8*size),ty)
                # struct moved through a wide integer
                if ty[0]=='int':
                    full=[(d-off,c) for d,c in ov if d>=off and d+c[0]<=off+size]
                    if len(full)==len(ov): return Bits(full,size)
                # narrow read of a wide symbolic int: low part
                raise Undecided('partial load %s+%s size %d: %r'%(o.name,off,size,ov[:3]))
            if any(a<=off and off+size<=b for a,b in o.zero if isinstance(a,int)):
                return self.conv(st,0,ty) if ty[0]!='int' else 0
        else:
            # symbolic offset (cells of a read-only input are named by their index: no aliasing question)
            if o.policy=='check' and not(o.readonly and o.init is not None and not o.written):
                r=self.sym_lookup(st,o,off,size)
                if r is not None: return self.conv(st,r,ty)
            for a,b in o.zero:
                if b=='all' : return self.conv(st,0,ty) if ty[0]!='int' else 0
        if o.par:
            v=loops.par_lookup(self,st,o,off,size)
            if v is not None:
                o=st.w(o.id); o.cells[off]=(size,v)
                if isinstance(off,IP): o.symcells.add(off)
                return self.conv(st,v,ty)
        if o.init is not None:
            v=o.init(self,st,o,off,ty)
            if v is not None:
                o=st.w(o.id); o.cells[off]=(size,v)
                if isinstance(off,IP): o.symcells.add(off)
                return self.conv(st,v,ty)
        if o.size is not None or o.kind=='local':
            # uninitialised read: unconstrained value (any output depending on it cannot be proved)
            v=self.undef(ty,'uninit_%s_'%o.name)
            o=st.w(o.id); o.cells[off]=(size,v)
            if isinstance(off,IP): o.symcells.add(off)
            return v
        if (o.name in('@stderr','@stdout') or o.name.startswith('@PyExc_')) and ty[0]=='ptr':
            return Ptr(-1,isym('$'+o.name))
        raise Undecided('load %s+%s'%(o.name,off))
    def sym_lookup(self,st,o,off,size):
        """read at symbolic offset from object that may hold concrete cells"""
        cands=[]
        for k,c in o.cells.items():
            d=iadd(off,imul(k,-1))
            if isinstance(d,int):
                if d==0 and c[0]==size: return c[1]
                continue
            t=self.decide(st,icmp('eq',d,0))
            if t is True: return c[1]
            if t is False: continue
            cands.append((k,c))
        if cands:
            # split on the first candidate
            raise Fork(icmp('eq',off,cands[0][0]))
        return None
    def store(self,st,mod,ty,v,p):
        ty=mod.resolve(ty)
        if isinstance(v,Agg):
            if ty[0]=='struct':
                offs,_=mod.offsets(ty)
                for t,oo,x in zip(ty[1],offs,v.v): self.store(st,mod,t,x,Ptr(p.obj,iadd(p.off,oo)))
            else:
                es=mod.size(ty[2])
                for i,x in enumerate(v.v): self.store(st,mod,ty[2],x,Ptr(p.obj,iadd(p.off,i*es)))
            return
        if v is UNDEF: return
        if not isinstance(p,Ptr): raise Undecided('store via %r'%(p,))
        if p.obj is None or p.obj==-1:
            st.viol.append(('null/invalid dereference (write)',str(p),None)); raise Infeasible()
        off=self.canon(st,p.off); size=ssize(mod,ty)
        o0=st.o(p.obj)
        if not self.check_access(st,o0,off,size,'write'): return
        if o0.readonly: st.viol.append(('write to read-only object',o0.name,off))
        o=st.w(p.obj)
        self.put(st,o,off,size,v)
    def put(self,st,o,off,size,v):
        if isinstance(v,bool): v=int(v)
        if isinstance(v,Bits):
            self.kill(st,o,off,size)
            for d,c in v.cells: self.put(st,o,iadd(off,d),c[0],c[1])
            return
        c=o.cells.get(off)
        if isinstance(off,int):
            if c is None or c[0]!=size: self.kill(st,o,off,size)
            o.cells[off]=(size,v)
        else:
            if o.policy=='check':
                for k,cc in list(o.cells.items()):
                    if k==off: continue
                    d=iadd(off,imul(k,-1))
                    if isinstance(d,int):
                        if -size<d<cc[0]: raise Undecided('partial overlap write %s'%o.name)
                        continue
                    t=self.decide(st,icmp('eq',d,0))
                    if t is False: continue
                    if t is True: del o.cells[k]; continue
                    raise Fork(icmp('eq',d,0))
            o.cells[off]=(size,v); o.symcells.add(off)
        o.written.add(off)
        if st.loops: loops.note(st,'w',o.id,off,size)
        if o.meta is not None and isinstance(o.meta,dict) and 'wlog' in o.meta: st.log.append((o.id,off,size,v))
    def kill(self,st,o,off,size):
        for d,c in self.overlaps(o,off,size):
            if d==off and c[0]==size: continue
            if d>=off and d+c[0]<=off+size:
                del o.cells[d]
            else:
                # partially overwritten: split concrete ints to bytes
                if isinstance(c[1],int):
                    b=(c[1]&((1<<(8*c[0]))-1)).to_bytes(c[0],'little')
                    del o.cells[d]
                    for i in range(c[0]):
                        if not (off<=d+i<off+size): o.cells[d+i]=(1,norm(b[i],8))
                else: raise Undecided('partial overwrite %s+%d'%(o.name,d))
    def memset(self,st,p,val,n):
        if n==0 if isinstance(n,int) else False: return
        if p.obj is None: st.viol.append(('null memset',None,None)); raise Infeasible()
        o=st.w(p.obj); off=self.canon(st,p.off)
        if isinstance(n,int) and isinstance(off,int):
            self.check_access(st,o,off,n,'write')
            if val!=0 and not(val==-1 or val==255):
                if n<=4096:
                    for i in range(n): self.put(st,o,off+i,1,norm(val,8))
                    return
                raise Undecided('memset nonzero')
            # remove cells
            if n>len(o.cells)*4:
                for d in list(o.cells):
                    if isinstance(d,int) and d+o.cells[d][0]>off and d<off+n:
                        if d>=off and d+o.cells[d][0]<=off+n: del o.cells[d]
                        else: self.kill(st,o,off,n)
            else: self.kill(st,o,off,n); [o.cells.pop(d,None) for d in range(off,off+n)]
            if val!=0:
                for i in range(n): o.cells[off+i]=(1,-1)
            else:
                o.zero.append((off,off+n))
            if o.kind!='local': o.written.add(('range',off,n))
            if st.loops: loops.note(st,'w',o.id,('range',off,n),n)
            return
        # symbolic extent over the whole (fresh) local object
        if o.kind=='local' and off==0 and val==0 and (n==o.size or isinstance(n,IP)) and not o.cells:
            o.zero.append((0,'all')); return
        if o.kind!='local' and val==0:
            for d in list(o.cells):
                if d not in o.written: del o.cells[d]; o.symcells.discard(d)
            if not o.cells:
                o.par=list(o.par)+[('zero',off,n)]; o.written.add(('range',off,n))
                if st.loops: loops.note(st,'w',o.id,('range',off,n),n)
                return
        raise Undecided('memset symbolic %s %r %r'%(o.name,off,n))
    def memcpy(self,st,mod,d,s,n):
        if isinstance(n,int) and n==0: return
        if not isinstance(n,int): raise Undecided('memcpy symbolic size %r'%(n,))
        if d.obj is None or s.obj is None: st.viol.append(('null memcpy',None,None)); raise Infeasible()
        so=st.o(s.obj); soff=self.canon(st,s.off); doff=self.canon(st,d.off)
        self.check_access(st,so,soff,n,'read')
        do=st.w(d.obj); self.check_access(st,do,doff,n,'write')
        if do.readonly: st.viol.append(('write to read-only object',do.name,doff))
        if isinstance(soff,int):
            # materialise input cells as doubles if the object is a lazily initialised one
            if so.init is not None and not (isinstance(so.meta,dict) and so.meta.get('nomat')):
                es=(so.meta or {}).get('elem',8) if isinstance(so.meta,dict) else 8
                lay=(so.meta or {}).get('layout') if isinstance(so.meta,dict) else None
                if lay:
                    for k,(lo,lt) in enumerate(lay(soff,n)):
                        if lo not in so.cells: self.load(st,mod,lt,Ptr(s.obj,lo))
                else:
                    ty=('double',) if es==8 else ('int',8*es)
                    for k in range(0,n,es):
                        if not self.overlaps(st.o(s.obj),soff+k,es):
                            self.load(st,mod,ty,Ptr(s.obj,soff+k))
                so=st.o(s.obj)
            items=[]
            for dd in list(so.cells) if len(so.cells)<n+16 else [x for x in range(soff-15,soff+n) if x in so.cells]:
                if not isinstance(dd,int): continue
                c=so.cells[dd]
                if dd+c[0]<=soff or dd>=soff+n: continue
                if dd<soff or dd+c[0]>soff+n:
                    if isinstance(c[1],int):
                        b=(c[1]&((1<<(8*c[0]))-1)).to_bytes(c[0],'little')
                        for i in range(c[0]):
                            if soff<=dd+i<soff+n: items.append((dd+i-soff,(1,norm(b[i],8))))
                        continue
                    raise Undecided('memcpy splits a cell of %s'%so.name)
                items.append((dd-soff,c))
            zs=[(max(a,soff)-soff,min(b,soff+n)-soff) for a,b in so.zero if isinstance(b,int) and a<soff+n and b>soff]
            if isinstance(doff,int):
                if n>64:
                    for x in list(do.cells):
                        if isinstance(x,int) and x+do.cells[x][0]>doff and x<doff+n:
                            if x>=doff and x+do.cells[x][0]<=doff+n: del do.cells[x]
                            else: self.kill(st,do,doff,n)
                else:
                    self.kill(st,do,doff,n); [do.cells.pop(x,None) for x in range(doff,doff+n)]
                # source zero ranges that are not overwritten by cells. destination may hold stale zero ranges;
                # they only matter where no cell exists and the source is uninitialised
                for a,b in zs: do.zero.append((doff+a,doff+b))
            elif zs:
                if n>4096: raise Undecided('memcpy of zero range to symbolic offset')
                cov=set()
                for dd,c in items: cov|=set(range(dd,dd+c[0]))
                for a,b in zs:
                    w=a
                    while w<b:
                        k=8 if w%8==0 and w+8<=b and not any(w+i in cov for i in range(8)) else 1
                        if k==8 or w not in cov: items.append((w,(k,0)))
                        w+=k
                zs=[]
            if st.loops:
                for dd,c in items: loops.note(st,'r',so.id,soff+dd,c[0])
                for a,b in zs:
                    loops.note(st,'r',so.id,soff+a,1)
                    loops.note(st,'w',do.id,('range',iadd(doff,a),b-a),b-a)
            for dd,c in items: self.put(st,do,iadd(doff,dd),c[0],c[1])
            return
        # symbolic source: word-wise doubles
        es=(so.meta or {}).get('elem',8) if isinstance(so.meta,dict) else 8
        if n%es==0 and n<=64*es:
            ty=('double',) if es==8 else ('int',8*es)
            lay=(so.meta or {}).get('layout') if isinstance(so.meta,dict) else None
            if lay:
                for lo,lt in lay(soff,n):
                    v=self.load(st,mod,lt,Ptr(s.obj,lo)); self.store(st,mod,lt,v,Ptr(d.obj,iadd(doff,iadd(lo,imul(soff,-1)))))
                return
            vals=[self.load(st,mod,ty,Ptr(s.obj,iadd(soff,k))) for k in range(0,n,es)]
            for i,v in enumerate(vals): self.store(st,mod,ty,v,Ptr(d.obj,iadd(doff,i*es)))
            return
        raise Undecided('memcpy symbolic source %s'%so.name)
    # ------------------------------------------------------------ running
    def find(self,name):
        m=self.fmod.get(name)
        return (m,m.get(name)) if m else (None,None)
    def call(self,st,name,args,dst=None):
        m,f=self.find(name)
        if f is None: raise Undecided('no definition of '+name)
        self.called.add(name)
        fr=Frame(); fr.fn=f; fr.mod=m; fr.blk=f.entry; fr.prev=None; fr.ip=0; fr.env={}; fr.dst=dst; fr.allocas=[]
        for (ty,nm,at),a in zip(f.params,args):
            if 'byval' in at:
                src=a; o=st.add_obj(Obj(name+'.'+nm,m.size(at['byval'])))
                self.memcpy(st,m,Ptr(o.id,0),src,o.size); a=Ptr(o.id,0); fr.allocas.append(o.id)
            fr.env[nm]=a
        if len(st.frames)>60: raise Undecided('recursion')
        st.frames.append(fr)
    def run(self,st,stop_depth=0):
        """run to completion; returns list of finished states"""
        work=[st]; done=[]
        while work:
            s=work.pop()
            try:
                r=self.run1(s,stop_depth)
            except Infeasible:
                s.status='infeasible'
                if s.viol: s.status='viol'; done.append(s)
                continue
            if r is None:
                done.append(s)
            else:
                self.nforks+=1
                work.extend(r)
                if len(work)+len(done)>self.max_states: raise Undecided('state explosion')
        return done
    def run1(self,st,stop_depth):
        while True:
            fr=st.frames[-1]
            blk=fr.fn.blocks[fr.blk]
            ins=blk[fr.ip]
            self.steps+=1
            if self.steps>self.max_steps: raise Undecided('step limit')
            try:
                r=self.step(st,fr,ins)
            except Undecided as u:
                if not getattr(u,'where',None): u.where=' <- '.join('%s:%s'%(f.fn.name,f.blk) for f in reversed(st.frames)); u.args=(str(u)+' at '+u.where,)
                raise
            except Fork as f:
                out=[]
                for c in (f.cond,cnot(f.cond)):
                    s2=st.copy()
                    try: s2.assume(c)
                    except Infeasible: continue
                    out.append(s2)
                return out
            if r is not None:
                if r=='ret':
                    if len(st.frames)==stop_depth: return None
                elif isinstance(r,list): return r
    def enter(self,st,fr,tgt):
        """jump to block tgt: evaluate phis in parallel"""
        src=fr.blk
        if self.loop_handler is not None:
            r=self.loop_handler(self,st,fr,src,tgt)
            if r is not None: return r
        fr.prev=src; fr.blk=tgt; blk=fr.fn.blocks[tgt]
        i=0; vals=[]
        while i<len(blk) and blk[i].op=='phi':
            p=blk[i]
            key=src
            if key not in p.a:
                if src=='%entry_implicit' :
                    # implicit numeric label
                    ks=[k for k in p.a if k not in fr.fn.blocks]
                    key=ks[0]
                else: raise Undecided('phi')
            vals.append((p.dst,self.val(st,p.ty,p.a[key]))); i+=1
        for d,v in vals: fr.env[d]=v
        fr.ip=i
        return None
    def ret(self,st,fr,v):
        if st.loops and st.loops[-1].depth==len(st.frames): raise loops.StopIter('ret',v)
        for oid in fr.allocas: st.mem.pop(oid,None)
        st.frames.pop()
        if not st.frames: st.ret=v; st.status='done'; return 'ret'
        if fr.dst is not None: st.frames[-1].env[fr.dst]=v
        return 'ret'
    def step(self,st,fr,ins):
        op=ins.op
        h=_H.get(op)
        if h is None: raise Undecided('instr '+ins.line)
        return h(self,st,fr,ins)

def norm(v,bits):
    if bits>=1:
        v&=(1<<bits)-1
        if bits>1 and v>>(bits-1): v-=1<<bits
    return v

import loops
_H={}
def H(*ops):
    def d(f):
        for o in ops: _H[o]=f
        return f
    return d

@H('alloca')
def _(x,st,fr,ins):
    n=1
    if ins.a is not None: n=x.asint(st,x.val(st,ins.a[0],ins.a[1]))
    size=imul(n,fr.mod.size(ins.ty))
    o=st.add_obj(Obj('%s:%%%s'%(fr.fn.name,ins.dst),size)); fr.allocas.append(o.id)
    fr.env[ins.dst]=Ptr(o.id,0); fr.ip+=1
@H('load')
def _(x,st,fr,ins):
    p=x.val(st,('ptr',),ins.a)
    fr.env[ins.dst]=x.load(st,fr.mod,ins.ty,p); fr.ip+=1
@H('store')
def _(x,st,fr,ins):
    v=x.val(st,ins.ty,ins.a[0]); p=x.val(st,('ptr',),ins.a[1])
    x.store(st,fr.mod,ins.ty,v,p); fr.ip+=1
@H('getelementptr')
def _(x,st,fr,ins):
    a=ins.a
    base=x.val(st,a[0][0],a[0][1])
    fr.env[ins.dst]=x.gep(st,fr.mod,ins.ty,base,[(t,x.val(st,t,o)) for t,o in a[1:]]); fr.ip+=1
@H('add','sub','mul')
def _(x,st,fr,ins):
    a=x.asint(st,x.val(st,ins.ty,ins.a[0])); b=x.asint(st,x.val(st,ins.ty,ins.a[1]))
    r=iadd(a,b) if ins.op=='add' else iadd(a,imul(b,-1)) if ins.op=='sub' else imul(a,b)
    w=ins.ty[1]
    if isinstance(r,int):
        n=norm(r,w)
        if n!=r and 'nsw' in ins.a[2]: st.viol.append(('signed integer overflow',fr.fn.name,ins.line))
        r=n
    fr.env[ins.dst]=r; fr.ip+=1
def bitslice(st,op,a,b,w):
    """bit-field operations on integers 2^k Q + r with 0<=r<2^k provable (None: not of that form)"""
    def within(v,lo,hi): return loops.iproves(st.path,icmp('le',lo,v)) and loops.iproves(st.path,icmp('le',v,hi))
    def split(a,k):
        if isinstance(a,int): return a>>k,a&((1<<k)-1)
        q={}; r={}
        for m,c in a.t.items():
            if c%(1<<k)==0: q[m]=c>>k
            else: r[m]=c
        r=S._n(r); q=S._n(q)
        return (q,r) if within(r,0,(1<<k)-1) else None
    if op in('and','lshr') and isinstance(b,int):
        F=(1<<w)-1; u=b&F
        if op=='lshr':
            if within(a,0,F):
                s=split(a,u); return s and s[0]
            return None
        if (u+1)&u==0: s=split(a,u.bit_length()); return s and s[1]          # low bits
        n=F&~u
        if (n+1)&n==0:
            s=split(a,n.bit_length()); return s and imul(s[0],1<<n.bit_length())
    if op=='or':
        for x,y in((a,b),(b,a)):
            cs=list(x.t.values()) if isinstance(x,IP) else [x]
            k=min((c&-c).bit_length()-1 for c in cs) if any(cs) else 0
            if k>0 and within(y,0,(1<<k)-1): return iadd(x,y)
    return None
@H('sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor')
def _(x,st,fr,ins):
    op=ins.op; w=ins.ty[1]
    a=x.val(st,ins.ty,ins.a[0]); b=x.val(st,ins.ty,ins.a[1])
    if w==1 or isinstance(a,Cond) or isinstance(b,Cond):
        # boolean algebra
        if op in('and','or','xor') :
            def tob(v):
                if isinstance(v,(bool,)): return v
                if isinstance(v,int):
                    return bool(v&1) if (w==1 or v in(0,1)) else None
                if isinstance(v,Cond): return v
                return None
            ta,tb=tob(a),tob(b)
            if ta is not None and tb is not None and not isinstance(a,IP) and not isinstance(b,IP):
                if op=='and': r=cand(ta,tb)
                elif op=='or': r=cor(ta,tb)
                else:
                    if isinstance(ta,bool): r=cnot(tb) if ta else tb
                    elif isinstance(tb,bool): r=cnot(ta) if tb else ta
                    else: r=cor(cand(ta,cnot(tb)),cand(cnot(ta),tb))
                fr.env[ins.dst]=int(r) if isinstance(r,bool) else r; fr.ip+=1; return
    if isinstance(a,Bits):
        b=x.asint(st,b)
        r=None
        if op=='lshr' and isinstance(b,int) and b%8==0:
            k=b//8; cells=[(d-k,c) for d,c in a.cells if d>=k]; r=Bits(cells,a.size)
        elif op=='and' and isinstance(b,int) and b>0 and (b+1)&b==0 and (b.bit_length())%8==0:
            k=b.bit_length()//8; r=Bits([(d,c) for d,c in a.cells if d<k],a.size)
        if r is None: raise Undecided('bit op on struct image')
        fr.env[ins.dst]=r; fr.ip+=1; return
    if isinstance(a,IP) and op in('and','or') and isinstance(b,int) and w<=32: a=kbits(a,w) or a
    if isinstance(a,KB) or isinstance(b,KB):
        r=kbop(op,a,b,w)
        if r is not None: fr.env[ins.dst]=r; fr.ip+=1; return
    a=x.asint(st,a); b=x.asint(st,b)
    if isinstance(a,int) and isinstance(b,int):
        ua=a&((1<<w)-1); ub=b&((1<<w)-1)
        if op in('sdiv','srem','udiv','urem') and b==0:
            st.viol.append(('integer division by zero',fr.fn.name,ins.line)); raise Infeasible()
        if op in('sdiv','srem'): r=iopq(op,a,b)
        elif op=='udiv': r=ua//ub
        elif op=='urem': r=ua%ub
        elif op=='shl': r=a<<ub
        elif op=='lshr': r=ua>>ub
        elif op=='ashr': r=a>>ub
        elif op=='and': r=a&b
        elif op=='or': r=a|b
        else: r=a^b
        r=norm(r,w)
    else:
        if w>=48 and op in('and','or','lshr'):
            r=bitslice(st,op,a,b,w)
            if r is not None: fr.env[ins.dst]=r; fr.ip+=1; return
        if op=='udiv': op='sdiv'
        if op=='urem': op='srem'
        if op=='lshr' : op='ashr'
        if op=='ashr' and isinstance(b,int): r=iopq('sdivf',a,1<<b) if False else iopq('ashr',a,b)
        elif op=='xor' and isinstance(b,int) and b==-1: r=iadd(imul(a,-1),-1)
        elif op=='and' and isinstance(b,int) and b==0: r=0
        else: r=iopq(op,a,b)
        if op=='and' and isinstance(b,int) and b==255: pass
    fr.env[ins.dst]=r; fr.ip+=1
@H('fadd','fsub','fmul','fdiv')
def _(x,st,fr,ins):
    a=x.val(st,ins.ty,ins.a[0]); b=x.val(st,ins.ty,ins.a[1])
    op=ins.op
    r=S.add(a,b) if op=='fadd' else S.sub(a,b) if op=='fsub' else S.mul(a,b) if op=='fmul' else S.div(a,b)
    fr.env[ins.dst]=r; fr.ip+=1
@H('fneg')
def _(x,st,fr,ins):
    fr.env[ins.dst]=S.neg(x.val(st,ins.ty,ins.a)); fr.ip+=1
_FC={'oeq':('eq',0),'ueq':('eq',0),'one':('eq',1),'une':('eq',1),'olt':('lt',0),'ult':('lt',0),'ole':('le',0),'ule':('le',0)}
import sym as S_
NAN=S_.from_double(float('nan'))
@H('fcmp')
def _(x,st,fr,ins):
    pred,a,b=ins.a
    a=x.val(st,ins.ty,a); b=x.val(st,ins.ty,b)
    if st.meta.get('nan') and any(q.op=='s' and q is NAN for q in S_.symbols([S_.R(a),S_.R(b)])): r=pred=='uno' or (pred!='ord' and pred[0]=='u') # comparisons with NaN
    elif pred in('ogt','ugt'): r=rcmp('lt',b,a)
    elif pred in('oge','uge'): r=rcmp('le',b,a)
    elif pred=='ord': r=True
    elif pred=='uno': r=False
    else:
        o,n=_FC[pred]; r=rcmp(o,a,b)
        if n: r=cnot(r)
    fr.env[ins.dst]=int(r) if isinstance(r,bool) else r; fr.ip+=1
@H('icmp')
def _(x,st,fr,ins):
    pred,a,b=ins.a
    a=x.val(st,ins.ty,a); b=x.val(st,ins.ty,b)
    if ins.ty[0]=='ptr':
        r=x_ptrcmp(x,st,pred,a,b)
    elif isinstance(a,Cond) and isinstance(b,int) and pred in('eq','ne') and b in(0,1):
        r=a if (pred=='ne')==(b==0) else cnot(a)
    elif isinstance(b,Cond) and isinstance(a,Cond) and pred in('eq','ne'):
        r=cor(cand(a,b),cand(cnot(a),cnot(b)))
        if pred=='ne': r=cnot(r)
    else:
        a=x.asint(st,a); b=x.asint(st,b)
        if pred[0]=='u' and isinstance(a,int) and isinstance(b,int):
            w=ins.ty[1]; a&=(1<<w)-1; b&=(1<<w)-1
        q=pred[-2:] if pred not in('eq','ne') else pred
        r={'eq':lambda:icmp('eq',a,b),'ne':lambda:cnot(icmp('eq',a,b)),'lt':lambda:icmp('lt',a,b),'le':lambda:icmp('le',a,b),
           'gt':lambda:icmp('lt',b,a),'ge':lambda:icmp('le',b,a)}[q]()
    fr.env[ins.dst]=int(r) if isinstance(r,bool) else r; fr.ip+=1
def x_ptrcmp(x,st,pred,a,b):
    if isinstance(a,FPtr) or isinstance(b,FPtr):
        na=a.name if isinstance(a,FPtr) else None; nb=b.name if isinstance(b,FPtr) else None
        e=(na==nb)
        return e if pred=='eq' else not e
    if pred in('eq','ne'):
        if a.obj!=b.obj: r=False
        else: r=icmp('eq',a.off,b.off)
        return r if pred=='eq' else cnot(r)
    if a.obj!=b.obj: raise Undecided('pointer order')
    q=pred[-2:]
    return {'lt':lambda:icmp('lt',a.off,b.off),'le':lambda:icmp('le',a.off,b.off),'gt':lambda:icmp('lt',b.off,a.off),'ge':lambda:icmp('le',b.off,a.off)}[q]()
class KB:
    """integer of which only some bits are known (bit-fields built on an undefined byte)"""
    __slots__=('m','v','n')
    def __init__(s,m,v,n): s.m=m; s.v=v&m; s.n=n
    def __repr__(s): return 'KB(%x,%x)'%(s.m,s.v)
def kbits(a,w):
    """an undefined value as a KB"""
    if len(a.t)==1:
        (mon,c),=a.t.items()
        if c==1 and len(mon)==1 and isinstance(mon[0][0],str) and mon[0][0].startswith('$undef'): return KB(0,0,mon[0][0])
        if c==1 and len(mon)==1 and isinstance(mon[0][0],str) and mon[0][0].startswith('$uninit'): return KB(0,0,mon[0][0])
    return None
def kbop(op,a,b,w):
    F=(1<<w)-1
    def kb(x): return x if isinstance(x,KB) else KB(F,x&F,'') if isinstance(x,int) and not isinstance(x,bool) else kbits(x,w) if isinstance(x,IP) else None
    A,B=kb(a),kb(b)
    if A is None or B is None: return None
    if op=='and': m=(A.m&B.m)|(A.m&~A.v)|(B.m&~B.v); v=A.v&B.v
    elif op=='or': m=(A.m&B.m)|A.v|B.v; v=A.v|B.v
    elif op=='xor': m=A.m&B.m; v=A.v^B.v
    elif op in('lshr','shl') and B.m==F:
        if op=='lshr': m=((A.m&F)>>B.v)|(F&~(F>>B.v)); v=(A.v&F)>>B.v
        else: m=((A.m<<B.v)&F)|((1<<B.v)-1); v=(A.v<<B.v)&F
    else: return None
    m&=F
    if m==F: return norm(v&m,w)
    return KB(m,v,A.n+B.n)
@H('sext','zext','trunc')
def _(x,st,fr,ins):
    ty,o=ins.a; v=x.val(st,ty,o)
    if isinstance(v,KB):
        wt=ins.ty[1]; F=(1<<min(wt,ty[1]))-1
        if ins.op=='trunc' or ins.op=='zext':
            m=v.m&F
            if ins.op=='zext': m|=((1<<wt)-1)&~((1<<ty[1])-1)
            fr.env[ins.dst]=norm(v.v,wt) if m==(1<<wt)-1 else KB(m,v.v,v.n); fr.ip+=1; return
    if isinstance(v,IP) and (ty[1]==16 and ins.op in('sext','zext') or ty[1]==8 and ins.op=='sext'):
        lo,hi=(0,65535) if ins.op=='zext' else (-(1<<(ty[1]-1)),(1<<(ty[1]-1))-1)
        if not(loops.iproves(st.path,icmp('le',lo,v)) and loops.iproves(st.path,icmp('le',v,hi))): v=iatom((ins.op+str(ty[1]),v))
        fr.env[ins.dst]=v; fr.ip+=1; return
    if isinstance(v,int):
        if ins.op=='zext':
            v=v&((1<<ty[1])-1)
        elif ins.op=='sext' and ty[1]==1: v=-(v&1)
        v=norm(v,ins.ty[1])
        if ins.ty[1]==1: v&=1
    elif isinstance(v,IP):
        if ins.op=='trunc' and ins.ty[1]==1:
            v=cnot(icmp('eq',v,0))          # bool stored as i8 in {0,1}
        elif ins.op=='trunc' and ins.ty[1]==16 and ty[1]==32 and loops.iproves(st.path,icmp('le',0,v)) and loops.iproves(st.path,icmp('le',v,65535)): pass
        elif ins.op=='trunc' and ins.ty[1]<32 and ty[1]>ins.ty[1]:
            v=iopq('trunc%d'%ins.ty[1],v)
        elif ins.op=='zext' and ty[1]<=16 and any(isinstance(at,tuple) and at[0].startswith('trunc') for at in iatoms(v)):
            v=iopq('zext%d'%ty[1],v)
    elif isinstance(v,Bits):
        if ins.op=='trunc':
            k=ins.ty[1]//8
            cells=[(d,c) for d,c in v.cells if d+c[0]<=k]
            if len(cells)==1 and cells[0][0]==0 and cells[0][1][0]==k: v=cells[0][1][1]
            else: v=Bits(cells,k)
    fr.env[ins.dst]=v; fr.ip+=1
@H('fpext','fptrunc')
def _(x,st,fr,ins):
    ty,o=ins.a; fr.env[ins.dst]=x.val(st,ty,o); fr.ip+=1
@H('sitofp','uitofp')
def _(x,st,fr,ins):
    ty,o=ins.a; v=x.asint(st,x.val(st,ty,o))
    if ins.op=='uitofp' and isinstance(v,int): v&=(1<<ty[1])-1
    fr.env[ins.dst]=S.R(v); fr.ip+=1
@H('fptosi','fptoui')
def _(x,st,fr,ins):
    ty,o=ins.a; v=x.val(st,ty,o)
    fr.env[ins.dst]=x.ftoi(st,v); fr.ip+=1
def _ftoi(self,st,v):
    if v.op=='c': return int(v.a)
    if v.op=='i': return iatom(v.a[0])
    k=('ftoi',v.id); S.FTOI[k]=v
    return iatom(k)
Exec.ftoi=_ftoi
@H('ptrtoint','inttoptr','bitcast','freeze')
def _(x,st,fr,ins):
    if ins.op=='freeze': v=x.val(st,ins.ty,ins.a)
    else:
        ty,o=ins.a; v=x.val(st,ty,o)
        if ins.op=='inttoptr':
            if isinstance(v,int): v=NULL if v==0 else Ptr(-1,v)
            elif isinstance(v,IP):
                ats=[at for at in iatoms(v) if isinstance(at,tuple) and at[0]=='addr']
                if len(ats)!=1: raise Undecided('inttoptr')
                v=Ptr(ats[0][1],iadd(v,imul(iatom(ats[0]),-1)))
    fr.env[ins.dst]=v; fr.ip+=1
@H('select')
def _(x,st,fr,ins):
    c,a,b=ins.a
    c=x.val(st,('int',1),c)
    if not isinstance(c,(bool,int)):
        va=x.val(st,ins.ty,a); vb=x.val(st,ins.ty,b)
        if va is vb or (isinstance(va,(int,IP)) and va==vb): fr.env[ins.dst]=va; fr.ip+=1; return
        if ins.ty==('int',1):
            tob=lambda v: bool(v&1) if isinstance(v,int) else v
            if not isinstance(c,IP):
                r=cor(cand(c,tob(va)),cand(cnot(c),tob(vb)))
                if tob(vb) is False: r=cand(c,tob(va))
                elif tob(va) is True: r=cor(c,tob(vb))
                fr.env[ins.dst]=int(r) if isinstance(r,bool) else r; fr.ip+=1; return
    t=x.asbool(st,c)
    fr.env[ins.dst]=x.val(st,ins.ty,a if t else b); fr.ip+=1
@H('br')
def _(x,st,fr,ins):
    if len(ins.a)==1: return x.enter(st,fr,ins.a[0])
    c=x.val(st,('int',1),ins.a[0])
    t=x.asbool(st,c)
    return x.enter(st,fr,ins.a[1] if t else ins.a[2])
@H('switch')
def _(x,st,fr,ins):
    c,d,cases=ins.a
    v=x.asint(st,x.val(st,ins.ty,c))
    if isinstance(v,int):
        v=norm(v,ins.ty[1])
        for k,b in cases:
            if norm(k,ins.ty[1])==v: return x.enter(st,fr,b)
        return x.enter(st,fr,d)
    for k,b in cases:
        t=x.decide(st,icmp('eq',v,k))
        if t is True: return x.enter(st,fr,b)
        if t is None: raise Fork(icmp('eq',v,k))
    return x.enter(st,fr,d)
@H('ret')
def _(x,st,fr,ins):
    v=None if ins.a is None else x.val(st,ins.ty,ins.a)
    return x.ret(st,fr,v)
@H('unreachable')
def _(x,st,fr,ins): raise Infeasible()
@H('extractvalue')
def _(x,st,fr,ins):
    v=x.val(st,ins.ty,ins.a[0])
    for i in ins.a[1]: v=v.v[i]
    fr.env[ins.dst]=v; fr.ip+=1
@H('insertvalue')
def _(x,st,fr,ins):
    o,v,idx,t2=ins.a
    a=x.val(st,ins.ty,o); v=x.val(st,t2,v)
    ty=fr.mod.resolve(ins.ty)
    n=len(ty[1]) if ty[0]=='struct' else ty[1]
    vs=list(a.v) if isinstance(a,Agg) else [UNDEF]*n
    assert len(idx)==1
    vs[idx[0]]=v
    fr.env[ins.dst]=Agg(vs); fr.ip+=1
@H('call')
def _(x,st,fr,ins):
    callee,args=ins.a
    if callee[0]=='g': name=callee[1]
    else:
        f=x.val(st,('ptr',),callee)
        if not isinstance(f,FPtr): raise Undecided('indirect call')
        name=f.name
    vals=[None if o is None else x.val(st,t,o) for t,o,at in args]
    if name in x.over:
        x.called.add(name)
        r=x.over[name](x,st,vals,ins)
    elif x.find(name)[1] is not None:
        # attributes of the call site matter for byval
        fr.ip+=1
        x.call(st,name,vals,ins.dst)
        return None
    else:
        h=x.ext.get(name)
        if h is None:
            for pre,f in EXTPRE:
                if name.startswith(pre): h=f; break
        if h is None: raise Undecided('external call '+name)
        r=h(x,st,vals,ins)
    if isinstance(r,list):           # [(state,value)]
        out=[]
        for s2,v in r:
            f2=s2.frames[-1]
            if ins.dst is not None: f2.env[ins.dst]=v
            f2.ip+=1; out.append(s2)
        return out
    if ins.dst is not None: fr.env[ins.dst]=r
    fr.ip+=1

# ------------------------------------------------------------------ externals
EXT={}
EXTPRE=[]
def X(*names):
    def d(f):
        for n in names: EXT[n]=f
        return f
    return d
for _n1 in ('sqrt','sin','cos','tan','atan2','acos','asin','atan','exp','log','hypot','fabs','floor','ceil','round','trunc','pow'):
    def _mkf(n):
        def f(x,st,a,ins): return S.fn(n,*a)
        return f
    EXT[_n1]=_mkf(_n1); EXT[_n1+'f']=_mkf(_n1)
    EXTPRE.append(('llvm.%s.f'%_n1,_mkf(_n1)))
@X('__assert_fail')
def _(x,st,a,ins):
    def s(p):
        o=st.o(p.obj); return ''.join(chr(o.cells[i][1]) for i in range(p.off,o.size-1))
    try: m=s(a[0])+' @ '+s(a[3])[:60]
    except Exception: m='?'
    st.viol.append(('assertion failed',m,None)); raise Infeasible()
@X('abort','exit')
def _(x,st,a,ins):
    st.viol.append(('abort',None,None)); raise Infeasible()
@X('fprintf','printf','fwrite','puts','fputs','putchar','fflush','perror')
def _(x,st,a,ins): st.meta['printed']=True; return 0
@X('free')
def _(x,st,a,ins):
    if isinstance(a[0],Ptr) and a[0].obj is not None and a[0].obj in st.mem: st.w(a[0].obj).freed=True
    return None
@X('malloc')
def _(x,st,a,ins):
    o=st.add_obj(Obj('malloc%d'%next(x.fresh),x.asint(st,a[0]),'heap')); return Ptr(o.id,0)
def _memset(x,st,a,ins): x.memset(st,a[0],x.asint(st,a[1]),x.asint(st,a[2]))
def _memcpy(x,st,a,ins): x.memcpy(st,st.frames[-1].mod,a[0],a[1],x.asint(st,a[2]))
EXTPRE+= [('llvm.memset',_memset),('llvm.memcpy',_memcpy),('llvm.memmove',_memcpy),
          ('llvm.stacksave',lambda x,st,a,ins:NULL),('llvm.stackrestore',lambda x,st,a,ins:None),
          ('llvm.lifetime',lambda x,st,a,ins:None),('llvm.dbg',lambda x,st,a,ins:None),('llvm.assume',lambda x,st,a,ins:None)]
def _fpclass(x,st,a,ins):
    # isfinite / isnan tests: reals are finite
    m=x.asint(st,a[1]); fin=0b0111111000 ; nan=3; inf=0b1000000100
    v=a[0]
    if v.op=='s' and v.a in('$nan','$inf','$ninf'):
        b={'$nan':3,'$inf':512,'$ninf':4}[v.a]; return int(bool(m&b))
    if m&~(nan|inf)==0: return 0
    if m&fin==fin: return 1
    raise Undecided('fpclass')
EXTPRE.append(('llvm.is.fpclass',_fpclass))
def cstr(x,st,p):
    o=st.o(p.obj); s=''; i=p.off
    while True:
        v=x.load(st,None,('int',8),Ptr(p.obj,i)) if False else o.cells.get(i)
        if v is None:
            if any(a<=i<b for a,b in o.zero): return s
            raise Undecided('cstr')
        v=v[1]
        if v==0: return s
        s+=chr(v&255); i+=1
