"""Contracts given by cases: [(label, {output: spec E}, guard Cond over the inputs)]. Every returning path must produce the outputs of
one case (identity testing), and its path condition must imply the guard of that case (z3)."""
import sym as S, contract as C, prove, report, numpy as np, itertools
from contract import Res, nm, NC, generic
from sym import cnot, cand
from report import Task
def implied(conds,goal,facts=(),timeout=8000):
    if goal is True: return True
    cs=[c for c in list(conds)+list(facts)+[cnot(goal)] if c is not True]
    if any(c is False for c in cs): return True
    return prove.z3_check(cs,timeout)=='unsat'
def prove_cases(mods,con,cfg,cases,view=None,facts=(),hints=()):
    """view(p): the conditions of the path as they are given to z3 (default: as they are)"""
    L=con.name+' '+cfg.label()
    ex,ps=C.sym_paths(mods,con,cfg); rs=[]; n=0
    for k,p in enumerate(ps):
        pl='%s path %d: '%(L,k)
        if p.viol or p.bad: rs.append(Res('undecided',pl+'memory safety and frame','engine',str((p.viol+p.bad)[0])[:300])); continue
        cs=[c for c in (view(p) if view else p.allconds) if c is not True]
        if any(c is False for c in cs): continue
        n+=1; hit=None; why=[]
        for lab,outs,guard in cases:
            outs=outs(p) if callable(outs) else outs
            if outs is None: continue
            miss=[o for o in outs if o not in p.outs]
            if miss: why.append('%s: %s not produced'%(lab,miss[:2])); continue
            pr=[(S.R(p.outs[o]),S.R(e)) for o,e in outs.items()]
            ok=prove.pit(pr,1,roots_hint=list(hints)) if pr else []
            if any(o is not True for o in ok): why.append('%s: %s differs'%(lab,[o for o,r in zip(outs,ok) if r is not True][:3])); continue
            g=guard(p) if callable(guard) and not hasattr(guard,'op') else guard
            if not implied(cs,g,facts): why.append('%s: its condition does not follow'%lab); continue
            hit=lab; rs+=[Res('proved',pl+'%s: %s'%(lab,o),'pit') for o in outs]+[Res('proved',pl+'%s: condition'%lab,'z3')]; break
        if hit is None:
            if prove.z3_check(cs,4000)=='unsat': rs.append(Res('proved',pl+'cannot be taken','z3'))
            else: rs.append(Res('undecided',pl+'no case of the contract applies','pit, z3','; '.join(why)[:600]))
    if not n: rs.append(Res('undecided',L,'vacuity','no path returns'))
    return rs,ex.called,len(ps)
def bounded_cases(lib,con,cfg,cases,n=300,seed=1,tol=1e-6):
    rng=np.random.default_rng(seed); env=con.sampler(cfg,rng,n); rep=C.Replayer(lib); cnt=0
    for k in range(n):
        e={a:float(v[k]) for a,v in env.items()}; out=rep.call(con,cfg,e)
        if '$frame' in out: return cnt,(e,'wrote outside the outputs %s'%(out['$frame'],),None,None)
        for ke in (range(NC) if con.loops else [None]):
            o=out if ke is None else generic(out,ke); ee=dict(e) if ke is None else generic(e,ke)
            N=prove.NumPy({a:np.array([x]) for a,x in ee.items()},1); bad=None; any_=False; okc=False
            for lab,outs,guard in cases:
                if callable(outs) or (callable(guard) and not hasattr(guard,'op')): continue
                try: g=True if guard is True else bool(N.cond(guard)[0])
                except (KeyError,prove.Retry): continue
                if not g: continue
                any_=True; good=True
                for a,x in outs.items():
                    with np.errstate(all='ignore'): w=float(np.asarray(N.ev([S.R(x)])[0]).ravel()[0])
                    cnt+=1
                    if w!=w or abs(w)>1e12: continue
                    if not abs(o[a]-w)<=tol*(1+abs(w)): good=False; bad=(e,con.name+' '+cfg.label()+': %s: %s'%(lab,a),o[a],w)
                if good: okc=True
            if any_ and not okc: return cnt,bad
    return cnt,None
def tasks(mods,con,lib,cases_of,thorough=False,**kw):
    out=[]
    for cfg in con.cases(thorough):
        cs=cases_of(cfg)
        out.append(Task(con.name+' '+cfg.label(),lambda con=con,cfg=cfg,cs=cs: prove_cases(mods,con,cfg,cs,**kw),
            (lambda con=con,cfg=cfg,cs=cs: bounded_cases(lib,con,cfg,cs,seed=report.SEED)) if con.sampler else None))
    return out
