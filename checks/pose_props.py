"""C01..C04: split of the pose contracts of pose.py by what is asserted."""
import build, contract as C, report, pose
from contract import Contract
VAL=[pose.k_rotate_R,pose.k_rotate_r,pose.k_transform_Rt,pose.k_transform_rt,pose.k_identity,pose.k_invert_R,pose.k_invert_Rt,pose.k_invert_rt,pose.k_compose_Rt,pose.k_compose_r,pose.k_compose_rt]
GRAD=[pose.k_rotate_R,pose.k_rotate_r,pose.k_transform_Rt,pose.k_transform_rt,pose.k_invert_rt,pose.k_compose_r,pose.k_compose_rt,pose.k_tiny]
CONV=[pose.k_R_from_r,pose.k_Rt_from_rt,pose.k_r_from_R,pose.k_R_aligned]
def lst(ks):
    r=[]
    for k in ks:
        c=k(); r+=c if isinstance(c,list) else [c]
    return r
def nullable(con): return [a.name for a in con.args if isinstance(a,C.Arr) and a.nullable]
def env(): return build.modules(pose.FILES),C.load_lib()
DEF={'mrcal_rotate_point_r_full','mrcal_transform_point_rt_full','mrcal_invert_rt_full','mrcal_R_from_r_full','mrcal_Rt_from_rt_full'}
def go(cons,case,thorough,kinds=None,defined=False):
    mods,lib=env(); out=[]
    for con in cons:
        if defined and con.fname in DEF: con.defined=True
        if kinds:
            old=con.clauses
            con.clauses=lambda cfg,old=old: [c for c in old(cfg) if c[3] in kinds]
        prev=con.case_filter
        con.case_filter=lambda c,th,prev=prev,con=con: case(con,c,th) 
        out+=report.contract_tasks(mods,con,lib,thorough)
    return out
def c01(thorough):
    """values; every combination of requested gradients (they select different code), dense storage"""
    return go(lst(VAL),lambda con,c,th: c.layout=='contig' and not c.alias and (th or len(nullable(con))<=3 or len(c.null) in(0,5,6)),thorough,('value',),True)
def c02(thorough):
    return go(lst(GRAD),lambda con,c,th: c.layout=='contig' and not c.alias and (not nullable(con) or len(c.null)<len(nullable(con))) and (th or len(nullable(con))<=3 or len(c.null) in(0,1,5)),thorough,('grad',))
def c03(thorough):
    return go(lst(VAL+[pose.k_tiny]+CONV),lambda con,c,th: (c.layout=='strided' or bool(c.alias)) and (th or len(nullable(con))<=3 or len(c.null) in(0,6)),thorough)
def c04(thorough):
    return go(lst(CONV),lambda con,c,th: c.layout=='contig' and not c.alias,thorough,None,True)
