"""Contracts on integer-valued functions: every path of the real code, for symbolic
integers, against guarded post-conditions; discharged by polynomial identity or z3
(integer arithmetic); counter-models are replayed on the compiled code."""
import ctypes, itertools, subprocess, json, os, random
import sym as S, prove, loops, build, execu, contract as C
from sym import *
from execu import *
from contract import Res
from report import Task

_pn=itertools.count()
def probe(code,incl=('mrcal.h',)):
    """compile and run a few lines of C against the current headers -> list of ints"""
    d=build.scratch(); p=d+'/probe_%d_%d'%(os.getpid(),next(_pn)); build.gendir()
    open(p+'.c','w').write('#define _GNU_SOURCE\n#include <stdio.h>\n#include <stddef.h>\n#include <string.h>\n#include <math.h>\n'+''.join('#include "%s"\n'%i for i in incl)+'int main(void){'+code+' return 0;}\n')
    build.sh(['gcc','--std=gnu11','-w']+build.inc()+[p+'.c','-o',p])
    return [int(x) for x in subprocess.run([p],capture_output=True,text=True,check=True).stdout.split()]

class IntArg:
    """symbolic int; lo: lower bound of the precondition"""
    def __init__(s,name,lo=None,vals=(0,1,2,3,5)): s.name=name; s.lo=lo; s.vals=vals
class Byte:
    """struct of bit-fields passed by value"""
    def __init__(s,v): s.v=v
class Bytes:
    """pointer to a struct given by cells {off:(size,value)}; conc(env)->bytes"""
    def __init__(s,cells,conc): s.cells=cells; s.conc=conc
class Null: pass
class OutInt:
    """pointer to an int output"""
    def __init__(s,name,ctype=ctypes.c_int): s.name=name; s.ctype=ctype

class ICon:
    """spec(): list of (label, guard Cond, {'ret':value, name:value}) ; the values are int/IP"""
    def __init__(s,fname,args,spec,pre=(),name=None,over=None,grid=400,extra_vals=None,nosample=False):
        s.fname=fname; s.args=args; s.spec=spec; s.pre=list(pre); s.name=name or fname; s.over=over or {}; s.grid=grid
    def ints(s): return [a for a in s.args if isinstance(a,IntArg)]
    def run(s,mods):
        ex=Exec(mods); ex.over.update(s.over); st=State(); vals=[]; outs={}
        for a in s.args:
            if isinstance(a,IntArg):
                v=isym(a.name); vals.append(v)
                if a.lo is not None: st.assume(icmp('le',a.lo,v))
            elif isinstance(a,Byte): vals.append(a.v)
            elif isinstance(a,Bytes):
                o=st.add_obj(Obj('struct',None,'input')); o.cells.update(a.cells); o.readonly=True; vals.append(Ptr(o.id,0))
            elif isinstance(a,Null): vals.append(NULL)
            elif isinstance(a,OutInt):
                o=st.add_obj(Obj(a.name,None,'output')); vals.append(Ptr(o.id,0)); outs[a.name]=o.id
            else: vals.append(a)
        for c in s.pre: st.assume(c)
        ex.loop_handler=loops.handler
        ex.call(st,s.fname,vals); done=ex.run(st)+ex.loop_viols
        return ex,done,outs
    def check(s,mods,lib):
        out=[]
        try: ex,done,outs=s.run(mods)
        except (Undecided,S.SymError,KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError) as e:
            return [Res('undecided',s.name,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
        spec=s.spec()
        for k,st in enumerate(done):
            L='%s path %d/%d'%(s.name,k+1,len(done))
            if not loops.iconsistent(st.path): continue
            if st.viol:
                out.append(Res('failed',L+' : '+str(st.viol[0]),'symbolic execution','path %s'%(st.path,))); continue
            vals={'ret':st.ret}
            for n,oid in outs.items():
                c=st.o(oid).cells.get(0); vals[n]=None if c is None else c[1]
            for lab,g,want in spec:
                p=list(st.path)+([g] if g is not True else [])
                if g is False: continue
                if g is not True and not loops.iconsistent(p): continue
                for n,w in want.items():
                    v=vals.get(n); lb='%s : %s : %s'%(L,lab,n)
                    if isinstance(v,bool): v=int(v)
                    if isinstance(v,Cond):
                        cc=S.cor(S.cand(v,icmp('eq',w,1)),S.cand(cnot(v),icmp('eq',w,0)))
                    elif v is None or not isinstance(v,(int,IP)): out.append(Res('failed',lb,'frame','not written: %r'%(v,))); continue
                    else:
                        if v==-1 and w==1: v=1     # i1
                        cc=icmp('eq',v,w)
                    if cc is True: out.append(Res('proved',lb,'polynomial identity')); continue
                    r,m,z=prove.z3_check(p+[cnot(cc)],15000,model=True)
                    if r=='unsat': out.append(Res('proved',lb,'z3 (integers)'))
                    elif r=='sat':
                        env=s.model(m,z)
                        v_=s.violates(lib,env) if env is not None else None
                        if v_: out.append(Res('failed',lb,'z3 (integers)','',v_))
                        else: out.append(Res('undecided',lb,'z3 (integers)','counter-model not confirmed on the compiled code: %s'%env))
                    else: out.append(Res('undecided',lb,'z3 (integers)',r))
        return out,ex.called,len(done)
    def model(s,m,z):
        env={}
        for n in s.names():
            try: v=m.eval(z.ip(isym(n)),model_completion=True); env[n]=v.as_long()
            except Exception: return None
        if any(not -2**20<v<2**20 for v in env.values()): return None
        return env
    def names(s):
        n=[a.name for a in s.ints()]
        for a in s.args:
            if isinstance(a,Bytes):
                for c in a.cells.values():
                    for t in iatoms(c[1]): n.append(t)
        return n
    def call(s,lib,env):
        f=getattr(lib,s.fname); f.restype=ctypes.c_int; av=[]; keep=[]; outs={}
        for a in s.args:
            if isinstance(a,IntArg): av.append(ctypes.c_int(env[a.name]))
            elif isinstance(a,Byte): av.append(ctypes.c_ubyte(a.v))
            elif isinstance(a,Bytes): b=ctypes.create_string_buffer(a.conc(env),len(a.conc(env))); keep.append(b); av.append(b)
            elif isinstance(a,Null): av.append(ctypes.c_void_p(None))
            elif isinstance(a,OutInt): o=a.ctype(-12345); outs[a.name]=o; av.append(ctypes.byref(o))
            else: av.append(ctypes.c_int(a))
        r={'ret':f(*av)}
        r.update({k:v.value for k,v in outs.items()})
        return r
    def violates(s,lib,env):
        e={n:v for n,v in env.items()}
        for c in s.pre:
            if not ceval(c,e): return None
        for a in s.ints():
            if a.lo is not None and e[a.name]<a.lo: return None
        got=s.call(lib,e)
        for lab,g,want in s.spec():
            if not ceval(g,e): continue
            for n,w in want.items():
                x=isubst(w,e)
                g_=got[n]&1 if n=='ret' and s.retbool(want) else got[n]
                if x!=g_: return (dict(env),'%s : %s'%(lab,n),g_,x)
        return None
    def retbool(s,want): return False
    def bounded(s,lib,seed=1):
        rng=random.Random(seed); n=0
        for k in range(s.grid):
            env={a.name:rng.choice(list(a.vals)) for a in s.ints()}
            for nm in s.names():
                if nm not in env: env[nm]=rng.choice([2,3,4,7])
            n+=1; v=s.violates(lib,env)
            if v: return n,v
        return n,None
    def task(s,mods,lib):
        return Task(s.name,lambda: s.check(mods,lib),lambda: s.bounded(lib))
def ceval(c,e):
    if isinstance(c,bool): return c
    if c.op in('i<','i<=','i=='):
        v=isubst(c.a,e)
        if not isinstance(v,int): raise KeyError(v)
        return {'i<':v<0,'i<=':v<=0,'i==':v==0}[c.op]
    if c.op=='not': return not ceval(c.a[0],e)
    if c.op=='and': return all(ceval(x,e) for x in c.a)
    if c.op=='or': return any(ceval(x,e) for x in c.a)
    raise KeyError(c.op)
