"""C22: mrcal-pywrap.c: the functions that validate a problem and convert it for the C library, under contract: _check_layout(), optimize_validate_args(),
fill_c_observations_...(). PyArrayObject is memory with the layout of the installed numpy; raising an exception (PyErr_Format()) is an external call."""
import itertools, os, re, build, direct, prove, sym as S
import execu, loops
from contract import Res
from execu import Ptr, Undecided, Agg
from sym import isym, icmp
CA=direct.CA
def decider(path,c):
    if c.op not in('i<','i<=','i==','not'): return None
    if CA.implied(path,c): return True
    if CA.implied(path,S.cnot(c)): return False
    return None
def npy_offsets():
    d=build.scratch(); src=d+'/npyoff.c'
    f=['data','nd','dimensions','strides','descr','flags']
    open(src,'w').write('#define NPY_NO_DEPRECATED_API NPY_API_VERSION\n#include <Python.h>\n#include <numpy/ndarraytypes.h>\n#include <stdio.h>\n#include <stddef.h>\nint main(void){'+''.join('printf("%s %%d\\n",(int)offsetof(PyArrayObject_fields,%s));'%(x,x) for x in f)+
        'printf("size %d\\n",(int)sizeof(PyArrayObject_fields)); printf("type_num %d\\n",(int)offsetof(PyArray_Descr,type_num)); printf("byteorder %d\\n",(int)offsetof(PyArray_Descr,byteorder));printf("double %d\\nint32 %d\\ncontiguous %d\\n",NPY_DOUBLE,NPY_INT32,NPY_ARRAY_C_CONTIGUOUS);}')
    build.sh(['gcc','-w','-O2','-no-pie','-Wl,--unresolved-symbols=ignore-all','-o',d+'/npyoff',src]+inc())
    return {a:int(b) for a,b in (l.split() for l in build.sh([d+'/npyoff']).decode().splitlines())}
def inc(): return build.sh(['/usr/bin/python3','-c','import sysconfig,numpy;print("-I"+sysconfig.get_paths()["include"]);print("-I"+numpy.get_include())']).decode().split()
def array(h,O,name,dims,data,typ='double',byteorder=ord('='),flags=None):
    """a PyArrayObject"""
    h.ints(name+' dims',list(dims),8) if dims else None
    h.fields(name+' descr',O['type_num']+64,{O['type_num']:O[typ] if isinstance(typ,str) else typ,O['byteorder']:byteorder})
    v={O['nd']:len(dims),O['data']:data if data is not None else Ptr(None,0),O['dimensions']:h.objs[name+' dims'] if dims else Ptr(None,0),O['descr']:h.objs[name+' descr'],O['flags']:O['contiguous'] if flags is None else flags}
    return h.fields(name,O['size'],v)
def as_bool(st):
    r=st.ret; r=r.v if isinstance(r,Agg) else r
    if hasattr(r,'const') and r.const() is not None: r=r.const()
    if r in (0,1,True,False): return bool(r)
    raise Undecided('return value %r'%(r,))
def decide(h,done,want,label):
    """every path: it returns true only if want holds, false only if it does not"""
    rs=[]; n={True:0,False:0}
    for k,st in enumerate(done):
        path=[c for c in st.path if c is not True]
        if st.viol:
            if prove.z3_check(path,4000)=='unsat': continue
            return [Res('failed' if prove.z3_check(path,4000)=='sat' else 'undecided',label+': memory safety','engine',str(st.viol[0])[:300])]
        r=as_bool(st); w=want(st) if callable(want) else want
        g=S.cnot(w) if r else w
        z=prove.z3_check(path+[g],8000) if g is not False else 'unsat'
        if z=='unsat': n[r]+=1; rs.append(Res('proved','%s path %d: returns %s'%(label,k,r),'z3'))
        else: rs.append(Res('failed' if z=='sat' else 'undecided','%s path %d: returns %s'%(label,k,r),'z3',str(path[-3:])[:300]))
    if want is not False and not all(n.values()) and not any(x.status!='proved' for x in rs): rs.append(Res('undecided',label,'engine','vacuous: %r'%n))
    return rs
# ------------------------------------------------------------------ _check_layout()
def layout(mods,O):
    rs=[]; paths=0; called=set()
    for nd in range(0,5):
        for ref in sorted({nd,max(nd-1,0),nd+1}):
            if ref>4: continue
            for contig in (0,1):
                h=direct.H(mods,{'PyErr_Format':lambda x,st,a,i: Ptr(None,0),'PyErr_SetString':lambda x,st,a,i: None},decider=decider)
                d=[isym('d%d'%i) for i in range(nd)]; r=[isym('ref%d'%i) for i in range(ref)]; fl=isym('flags'); ty=isym('type'); want_ty=isym('npy_type'); bo=isym('byteorder')
                for v in d: h.assume(icmp('le',0,v),icmp('lt',v,2**31))
                for v in r: h.assume(icmp('le',-1,v),icmp('lt',v,2**31))
                h.assume(icmp('le',0,ty),icmp('lt',ty,25),icmp('le',-1,want_ty),icmp('lt',want_ty,25),icmp('le',0,bo),icmp('lt',bo,128))
                array(h,O,'a',d,None,ty,bo,O['contiguous'] if contig else 0)
                h.ints('ref',r or [0])
                done=h.call('_check_layout',[Ptr(None,0),h.objs['a'],want_ty,Ptr(None,0),h.objs['ref'],ref,Ptr(None,0),1])
                paths+=len(done); called|=set(h.ex.called)
                sh=[S.cor(icmp('lt',y,0),icmp('eq',x,y)) for x,y in zip(d,r)] if nd==ref or ref==0 else [False]
                if ref==0: sh=[]
                notype=icmp('lt',want_ty,0); swapped=icmp('eq',bo,ord('>'))
                good=S.cand(*(sh+[S.cor(notype,S.cand(icmp('eq',ty,want_ty),S.cnot(swapped),bool(contig)))])) if all(x is not False for x in sh) else False
                rs+=decide(h,done,good,'_check_layout: %d dimensions, %d wanted, %scontiguous'%(nd,ref,'' if contig else 'not '))
    return rs,called,paths
# ------------------------------------------------------------------ optimize_validate_args()
# the arrays of a problem: type and shape (None: any)
ARRAYS={'intrinsics':('double',(None,None)),'imagersizes':('int32',(None,2)),'rt_cam_ref':('double',(None,6)),'rt_ref_frame':('double',(None,6)),'points':('double',(None,3)),
 'observations_board':('double',(None,None,None,3)),'indices_frame_camintrinsics_camextrinsics':('int32',(None,3)),'observations_point':('double',(None,3)),'indices_point_camintrinsics_camextrinsics':('int32',(None,3)),
 'observations_point_triangulated':('double',(None,3)),'indices_point_triangulated_camintrinsics_camextrinsics':('int32',(None,3)),'calobject_warp':('double',(2,))}
SCALARS={'Npoints_fixed','do_optimize_calobject_warp','icam_intrinsics','calibration_object_spacing'}
OLD={'extrinsics_rt_fromref','frames_rt_toref'}
def le(a,b): return icmp('le',a,b)
def lt(a,b): return icmp('lt',a,b)
def eq(a,b): return icmp('eq',a,b)
AND,OR,NOT=S.cand,S.cor,S.cnot
def implies(a,b): return OR(NOT(a),b)
def validate(mods,O,nb,npt,nt,induct=None):
    """for nb, npt, nt rows of the indices: every value of them and of the sizes"""
    m=[x for x in mods if 'optimize_validate_args' in x.funcs]
    if not m: raise Undecided('no optimize_validate_args')
    ps=[p[1] for p in m[0].funcs['optimize_validate_args'].params]; log=[]
    lay=[]
    def chk(x,st,a,i):
        c=lambda v: v.const() if hasattr(v,'const') else v
        nd=c(a[5]); dims=[c(x.load(st,x.fmod['optimize_validate_args'],('int',32),Ptr(a[4].obj,a[4].off+4*k))) for k in range(nd)] if isinstance(nd,int) and nd>0 else []
        st.log=list(st.log)+[('layout',a[1],c(a[2]),tuple(None if v>=2**31 or v<0 else v for v in dims),c(a[7]))]; return 1
    ok1=isym('lensmodel ok')
    def one(x,st,a,i): st.log=list(st.log)+[('lensmodel',list(a))]; return ok1
    h=direct.H(mods,{'PyErr_Format':lambda x,st,a,i: Ptr(None,0),'PyErr_SetString':lambda x,st,a,i: None,'_check_layout':chk,'lensmodel_one_validate_args':one},decider=decider)
    h.assume(le(0,ok1),le(ok1,1))
    N={n:isym('N_'+n) for n in ('cam','extr','frames','points')}
    for v in N.values(): h.assume(le(0,v),lt(v,2**30))
    sz={'intrinsics':N['cam'],'imagersizes':isym('N_imagersizes'),'rt_cam_ref':N['extr'],'rt_ref_frame':N['frames'],'points':N['points'],'observations_board':isym('N_ob'),'indices_frame_camintrinsics_camextrinsics':nb,
        'observations_point':isym('N_op'),'indices_point_camintrinsics_camextrinsics':npt,'observations_point_triangulated':isym('N_ot'),'indices_point_triangulated_camintrinsics_camextrinsics':nt,'calobject_warp':2}
    for k in ('imagersizes','observations_board','observations_point','observations_point_triangulated'): h.assume(le(0,sz[k]),lt(sz[k],2**30))
    rows={}
    for nm,n in (('indices_frame_camintrinsics_camextrinsics',nb),('indices_point_camintrinsics_camextrinsics',npt),('indices_point_triangulated_camintrinsics_camextrinsics',nt)):
        if not isinstance(n,int):
            h.assume(le(0,n),lt(n,2**28)); h.obj(nm+' data',None,'in',lambda off,ty: S.iopq('idx',off)); rows[nm]=[]; continue
        rows[nm]=[[isym('%s[%d,%d]'%(nm[8:13]+('t' if 'tri' in nm else ''),i,j)) for j in range(3)] for i in range(n)]
        for r in rows[nm]:
            for v in r: h.assume(le(-2**31,v),lt(v,2**31))
        h.ints(nm+' data',[v for r in rows[nm] for v in r] or [0])
    sp=S.sym('calibration_object_spacing'); scal={'Npoints_fixed':isym('Npoints_fixed'),'do_optimize_calobject_warp':isym('do_warp'),'icam_intrinsics':isym('icam_intrinsics')}
    h.assume(le(-2**31,scal['Npoints_fixed']),lt(scal['Npoints_fixed'],2**31),le(0,scal['do_optimize_calobject_warp']),le(scal['do_optimize_calobject_warp'],1),le(-1,scal['icam_intrinsics']),lt(scal['icam_intrinsics'],2**31))
    rs=[]; paths=0; called=set(); args=[]
    if 1:
        for n in ps:
            if n in ARRAYS:
                t,sh=ARRAYS[n]; dims=[sz[n]]+[d if d is not None else isym('%s dim'%n) for d in sh[1:]] if n!='calobject_warp' else [2]
                if n not in h.objs: array(h,O,n,dims,h.objs.get(n+' data'),t)
                args.append(h.objs[n])
            elif n=='calibration_object_spacing': args.append(sp)
            elif n in scal: args.append(scal[n])
            elif n=='mrcal_lensmodel': args.append(h.obj('lensmodel out',64,'out') if 'lensmodel out' not in h.objs else h.objs['lensmodel out'])
            elif n=='lensmodel': args.append(h.obj('lensmodel name',64,'in') if 'lensmodel name' not in h.objs else h.objs['lensmodel name'])
            else:
                t=[p[0] for p in m[0].funcs['optimize_validate_args'].params if p[1]==n][0]
                args.append(Ptr(None,0) if t[0]=='ptr' else S.sym('unused '+n) if t[0]=='double' else isym('unused '+n))
        I=None
        if induct:
            kind,nm,_=induct; NR=sz[dict(board='observations_board',point='observations_point',triangulated='observations_point_triangulated')[kind]]; cam=lambda k: [le(0,IDX(12*k+4)),lt(IDX(12*k+4),N['cam']),le(-1,IDX(12*k+8)),lt(IDX(12*k+8),N['extr'])]
            if kind=='board':
                def rowok(k,M):
                    r=[IDX(12*k+4*j) for j in range(3)]; q=[IDX(12*(k-1)+4*j) for j in range(3)]
                    return cam(k)+[le(0,r[0]),lt(r[0],N['frames']),eq(r[0],0) if k==0 and isinstance(k,int) else OR(AND(eq(r[0],q[0]),le(q[1],r[1]),le(q[2],r[2])),eq(r[0],q[0]+1))]
                known=lambda k: cam(k-1)+[le(0,IDX(12*(k-1))),lt(IDX(12*(k-1)),N['frames'])]
            else:
                rng=(lambda k: [le(0,IDX(12*k)),lt(IDX(12*k),N['points'])]) if kind=='point' else lambda k: []
                def rowok(k,M): return cam(k)+rng(k)+[le(IDX(12*k),M+1)]
                known=lambda k: cam(k-1)+rng(k-1)
            I=Induct(NR,rowok); I.known=known; h.ex.loop_handler=I
        done=h.call('optimize_validate_args',args); paths+=len(done); called|=set(h.ex.called)
        b,p,t=(rows[k] for k in ('indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics','indices_point_triangulated_camintrinsics_camextrinsics'))
        good=[eq(sz['imagersizes'],N['cam']),eq(sz['observations_board'],nb),eq(sz['observations_point'],npt),eq(sz['observations_point_triangulated'],nt),lt(scal['icam_intrinsics'],N['cam']),eq(ok1,1)]
        good+=[le(0,scal['Npoints_fixed']),le(scal['Npoints_fixed'],N['points'])]
        for r in b+p+t: good+=[le(0,r[1]),lt(r[1],N['cam']),le(-1,r[2]),lt(r[2],N['extr'])]
        if not I and nb:
            good+=[S.rcmp('lt',S.ZERO,sp),eq(b[0][0],0),eq(b[-1][0],N['frames']-1)]
            for q,r in zip(b,b[1:]): good.append(OR(AND(eq(r[0],q[0]),le(q[1],r[1]),le(q[2],r[2])),eq(r[0],q[0]+1)))
        if I:
            if not I.done: raise Undecided('no loop over the rows')
        # points: in range, every one is observed, each new one is the next
        big=None; 
        def biggest(rr,extra):
            """conditions that each row extends the set by at most one; and the disjunction of (conditions, biggest)"""
            st=[([],-1)]
            for r in rr:
                st=[x for c,g in st for x in ((c+[le(r[0],g)]+extra(r),g),(c+[eq(r[0],g+1)]+extra(r),g+1))]
            return st
        alts=[AND(*(c+[eq(N['points'],g+1)])) for c,g in biggest(p,lambda r:[le(0,r[0])])]
        good.append(OR(*alts))
        # triangulated: at most one at a time (the sets themselves are checked when they are filled in)
        good.append(OR(*[AND(*c) if c else True for c,g in biggest(t,lambda r:[])]))
        if I:
            g0=list(good)
            def want(st):
                if st.meta.get('badrow'): return False
                g=list(g0); a=st.meta.get('allrows')
                if kind=='board' and a=='some': g+=[S.rcmp('lt',S.ZERO,sp),eq(IDX(12*(NR-1)),N['frames']-1)]
                if kind=='point': g[-2]=eq(S.iopq('M',NR) if a=='some' else -1,N['points']-1)
                if a is None: # stopped before the rows were looked at: something else is wrong
                    if kind=='point': g[-2]=OR(eq(NR,0),AND(*rowok(0,-1)))   # the first row is part of it
                    if kind=='board': return AND(*(g+[OR(eq(NR,0),S.rcmp('lt',S.ZERO,sp))]))
                return AND(*g)
            rs+=[Res(x.status,'optimize_validate_args, any number of %s rows: %s'%(kind,x.label),x.backend,x.detail) for x in I.res]
        rs+=decide(h,done,want if I else AND(*good),'optimize_validate_args: any number of %s rows'%induct[0] if I else 'optimize_validate_args: %d board, %d point, %d triangulated rows'%(nb,npt,nt))
        for st in done:
            if st.viol or not as_bool(st): continue
            seen={}
            for e in st.log:
                if e[0]!='layout': continue
                seen.setdefault(e[1].obj if isinstance(e[1],Ptr) else None,[]).append(e)
            for n,(ty,sh) in ARRAYS.items():
                es=seen.get(h.objs[n].obj,[])
                good_=any(e[2]==O[ty] and e[3]==sh and e[4] in (1,True) for e in es)
                if not good_: raise Undecided('the layout of %s is not checked as expected: %r'%(n,[e[2:] for e in es]))
            ls=[e for e in st.log if e[0]=='lensmodel']
            if len(ls)!=1: raise Undecided('lensmodel_one_validate_args')
        rs.append(Res('proved','optimize_validate_args: the type, shape and contiguity of each array are checked before success','symbolic execution'))
    return rs,called,paths
# ------------------------------------------------------------------ optimize_validate_args(): any number of rows, by induction
def IDX(off): return S.iopq('idx',off)
class Induct:
    """the loop over the rows: every loop variable is the row number, a column of the previous row, or the biggest of column 0 so far (the inferred
    invariant, re-established by every path of a generic iteration); an iteration that goes on has a good row, one that leaves has a bad one"""
    def __init__(s,N,rowok): s.N=N; s.rowok=rowok; s.res=[]; s.done=False; s.k=isym('row')
    def iterate(s,x,st,fr,src,tgt,body,vals,assume):
        t=st.copy(); s.iw0=st.iw; t.iw=(set(),[]); t.loops=t.loops+[loops.Ctx(len(st.frames),tgt,body)]; f=t.frames[-1]; f.prev=src; f.blk=tgt; P=loops.phis(fr,tgt); f.ip=len(P)
        for p,v in zip(P,vals): f.env[p.dst]=v
        for c in assume: t.assume(c)
        work=[t]; outs=[]
        while work:
            w=work.pop()
            try: work.extend(x.run1(w,0) or [])
            except loops.StopIter as e: outs.append((e.kind,e.src,e.tgt,w,getattr(e,'v',None)))
            except execu.Infeasible: pass
        return outs
    def back(s,st,fr,src,tgt): return [s.x.val(st,p.ty,p.a[src]) for p in loops.phis(fr,tgt)]
    def __call__(s,x,st,fr,src,tgt):
        s.x=x
        if fr.fn.name!='optimize_validate_args': return None
        if st.loops and st.loops[-1].depth==len(st.frames):
            if tgt==st.loops[-1].header: raise loops.StopIter('back',src,tgt)
            if tgt not in st.loops[-1].blocks: raise loops.StopIter('exit',src,tgt)
            return None
        L=loops.natural_loops(fr.fn)
        if tgt not in L or src in L[tgt]: return None
        body=L[tgt]; P=loops.phis(fr,tgt)
        if not P: raise Undecided('loop variables in memory')
        v0=[x.val(st,p.ty,p.a[src]) for p in P]
        # a loop that does not run: as it is
        o=s.iterate(x,st,fr,src,tgt,body,v0,[])
        if not any(k=='back' for k,a,b,w,_ in o): return None
        if s.done not in (False,tgt): raise Undecided('two loops over rows')
        s.done=tgt
        # what the variables are
        hv=[isym('h%d'%i) for i in range(len(P))]; first=s.iterate(x,st,fr,src,tgt,body,hv,[])
        b=[s.back(w.frames[-1] and w,w.frames[-1],a,tgt) for k,a,_,w,_ in first if k=='back']
        if not b: raise Undecided('loop')
        cnt=[i for i in range(len(P)) if all(v[i]==hv[i]+1 for v in b)]
        if len(cnt)!=1 or v0[cnt[0]]!=0: raise Undecided('row number')
        c=cnt[0]; role={c:('row',)}
        for i in range(len(P)):
            if i==c: continue
            cols={j for v in b for j in range(3) if v[i]==IDX(12*hv[c]+4*j)}; same=[v[i]==hv[i] for v in b]
            if len(cols)==1 and not any(same): role[i]=('prev',cols.pop())
            elif cols=={0}: role[i]=('max',)
            else: raise Undecided('loop variable %r'%[v[i] for v in b])
        def at(i,k,zero):
            r=role[i]
            return k if r[0]=='row' else v0[i] if zero else IDX(12*(k-1)+4*r[1]) if r[0]=='prev' else S.iopq('M',k)
        if any(role[i]==('max',) and v0[i]!=-1 for i in role): raise Undecided('initial maximum')
        out=[]; N=s.N; k=s.k; typ=lambda k_: [g for j in range(3) for g in (le(-2**31,IDX(12*k_+4*j)),lt(IDX(12*k_+4*j),2**31))]
        for zero in (True,False):
            kk=0 if zero else k; M=-1 if zero else S.iopq('M',k); pre=[lt(0,N)]+typ(0) if zero else [le(1,k),lt(k,N)]+typ(k)+typ(k-1)+[le(-1,M),lt(M,2**31-1)]
            # rows before this one are good: what its neighbour says about the columns
            if not zero: pre+=s.known(k)
            ok=AND(*s.rowok(kk,M)); n={'back':0,'exit':0}
            for kind,a,bk,w,v in s.iterate(x,st,fr,src,tgt,body,[at(i,kk,zero) for i in range(len(P))],pre):
                if prove.z3_check([q for q in w.path if q is not True],3000)=='unsat': continue
                path=[q for q in w.path if q is not True]
                if kind=='back':
                    n['back']+=1; bv=s.back(w,w.frames[-1],a,tgt)
                    for i in range(len(P)):
                        if role[i]==('max',):
                            r=IDX(12*kk); g=AND(le(r,bv[i]),le(M,bv[i]),OR(eq(bv[i],r),eq(bv[i],M)))
                            if g is not True and prove.z3_check(path+[NOT(g)],6000)!='unsat': raise Undecided('maximum')
                        elif not CA.implied(path,eq(bv[i],at(i,kk+1,False))): raise Undecided('invariant of loop variable %d'%i)
                    z=prove.z3_check(path+[NOT(ok)],8000); s.res.append(Res('proved' if z=='unsat' else 'failed' if z=='sat' else 'undecided','an iteration that goes on has a good row (%s)'%('first row' if zero else 'any later row'),'z3',str(path[-4:])[:300]))
                elif kind=='exit':
                    if a==tgt: raise Undecided('exit at the header')
                    n['exit']+=1; z=prove.z3_check(path+[ok],8000); s.res.append(Res('proved' if z=='unsat' else 'failed' if z=='sat' else 'undecided','an iteration that leaves the loop has a bad row (%s)'%('first row' if zero else 'any later row'),'z3',str(path[-4:])[:300]))
                    w.loops=w.loops[:-1]; f=w.frames[-1]; w.meta=dict(w.meta); w.meta['badrow']=True
                    out.append(s.goto(x,w,a,bk))
                else: raise Undecided('return in the loop')
            if not all(n.values()): raise Undecided('vacuous %r'%n)
        # after the last row
        for zero in (True,False):
            M=S.iopq('M',N); pre=[eq(N,0)] if zero else [le(1,N)]+typ(N-1)+[le(-1,M),lt(M,2**31-1)]+s.known(N)
            for kind,a,bk,w,v in s.iterate(x,st,fr,src,tgt,body,[at(i,0 if zero else N,zero) for i in range(len(P))],pre):
                if prove.z3_check([q for q in w.path if q is not True],3000)=='unsat': continue
                if kind!='exit' or a!=tgt: raise Undecided('the loop does not end after the last row')
                w.loops=w.loops[:-1]; w.meta=dict(w.meta); w.meta['allrows']='none' if zero else 'some'; out.append(s.goto(x,w,a,bk))
        return out
    def goto(s,x,w,a,bk):
        w.iw=s.iw0; f=w.frames[-1]; P=loops.phis(f,bk); vals=[x.val(w,p.ty,p.a[a]) for p in P]
        for p,v in zip(P,vals): f.env[p.dst]=v
        f.prev=a; f.blk=bk; f.ip=len(P); return w
def induction(which):
    def run(mods,O):
        D=dict(board='indices_frame_camintrinsics_camextrinsics',point='indices_point_camintrinsics_camextrinsics',triangulated='indices_point_triangulated_camintrinsics_camextrinsics')
        N=isym('Nrows'); sizes={k:(N if k==which else 0) for k in D}
        rs,c,n=validate(mods,O,*[sizes[k] for k in ('board','point','triangulated')],induct=(which,D[which],N)); return rs,c,n
    return run
# ------------------------------------------------------------------ fill_c_observations_...()
def fill(mods,O,which):
    """any number of rows: every observation gets the indices of its row"""
    f='fill_c_observations_'+which
    h=direct.H(mods,{},loop=True,decider=decider); N=isym('N'); h.assume(le(0,N),lt(N,2**28))
    h.obj('idx',None,'in',lambda off,ty: S.iopq('idx',off)); array(h,O,'indices',[N,3],h.objs['idx'],'int32'); h.obj('out',None,'out')
    done=h.call(f,[h.objs['out'],N,h.objs['indices']]); j=isym('j'); rs=[]; live=0
    for k,st in enumerate(done):
        if st.viol:
            if prove.z3_check([c for c in st.path if c is not True],4000)=='unsat': continue
            raise Undecided(str(st.viol[0])[:200])
        st.assume(le(0,j)); st.assume(lt(j,N))
        if prove.z3_check([c for c in st.path if c is not True],4000)=='unsat': continue
        live+=1
        for a,b,n in ((0,4,'camera'),(4,8,'extrinsics'),(8,0,'frame or point')):
            v=h.ex.load(st,h.m,('int',32),Ptr(h.objs['out'].obj,12*j+a))
            ok=CA.implied(st.path,eq(v,S.iopq('idx',12*j+b)))
            rs.append(Res('proved' if ok else 'failed','%s: the %s index of every row'%(f,n),'loop invariant; symbolic execution',str(v)))
    if not live: raise Undecided('vacuous')
    return rs,set(h.ex.called),len(done)
def fill_board(m,O): return fill(m,O,'board')
def fill_point(m,O): return fill(m,O,'point')
def fill_triangulated(mods,O,n,obs):
    """n rows, every value of them: the sets, the ends of the sets, the vectors, the outliers; bad sets are rejected"""
    f='fill_c_observations_point_triangulated'; K=isym('Nintrinsics')
    m=[x for x in mods if f in x.funcs]
    if not m: raise Undecided('no '+f)
    good_un=[isym('unproject ok %d'%i) for i in range(n)]
    def unproj(x,st,a,i):
        c=lambda v: v.const() if hasattr(v,'const') else v
        k=sum(e[0]=='unproject' for e in st.log); st.log=list(st.log)+[('unproject',a[0],a[1],c(a[2]),a[3],a[4],a[5])]
        for q in range(3): x.store(st,m[0],('double',),S.sym('v%d[%d]'%(k,q)),Ptr(a[0].obj,a[0].off+8*q))
        return good_un[k]
    def pre(x,st,a,i): st.log=list(st.log)+[('precompute',a[0],a[1])]; return None
    grad=isym('has_gradients')
    def meta(x,st,a,i): raise Undecided('metadata')
    over={'PyErr_Format':lambda x,st,a,i: Ptr(None,0),'_check_layout':lambda x,st,a,i: 1,'_mrcal_unproject_internal':unproj,'_mrcal_precompute_lensmodel_data':pre,'mrcal_lensmodel_num_params':lambda x,st,a,i: K,'mrcal_lensmodel_name_unconfigured':lambda x,st,a,i: Ptr(None,0)}
    h=direct.H(mods,over,decider=decider); h.assume(le(1,K),lt(K,1000))
    for v in good_un: h.assume(le(0,v),le(v,1))
    rows=[[isym('r[%d,%d]'%(i,j)) for j in range(3)] for i in range(n)]
    for r in rows:
        for v in r: h.assume(le(-2**31,v),lt(v,2**31))
        h.assume(le(-1,r[2]),le(0,r[1]),lt(r[1],2**20)) # optimize_validate_args()
    h.ints('idx',[v for r in rows for v in r] or [0]); array(h,O,'indices',[n,3],h.objs['idx'],'int32')
    h.dbls('obs',[S.sym('o[%d,%d]'%(i,j)) for i in range(n) for j in range(3)] or [S.ZERO]); array(h,O,'observations',[n,3],h.objs['obs'],'double')
    h.obj('intrinsics',None,'in'); h.obj('out',max(40*n,40),'out',lambda off,ty: 0 if ty[0]=='int' else S.ZERO)
    # any lens model with gradients: LENSMODEL_PINHOLE stands for it; only metadata() looks inside
    h.fields('lensmodel',64,{0:mods_enum()})
    NUL=Ptr(None,0); done=h.call(f,[h.objs['out'],h.objs['observations'] if obs else NUL,h.objs['lensmodel'] if obs else NUL,h.objs['intrinsics'] if obs else NUL,h.objs['indices']])
    good=[]
    if n:
        good+=[eq(rows[0][0],0)]
        for i in range(1,n): good.append(OR(eq(rows[i][0],rows[i-1][0]),eq(rows[i][0],rows[i-1][0]+1)))
        for i in range(n):
            good.append(OR(*([eq(rows[i][0],rows[i-1][0])] if i else [])+([eq(rows[i][0],rows[i+1][0])] if i+1<n else []))) # at least two
            for j in range(i): good.append(NOT(AND(eq(rows[i][0],rows[j][0]),lt(rows[i][2],0),lt(rows[j][2],0)))) # at most one at the reference
        if obs: good+=[eq(v,1) for v in good_un]
    good=AND(*good) if all(g is not False for g in good) else False
    rs=[]; cnt={True:0,False:0}
    for k,st in enumerate(done):
        path=[c for c in st.path if c is not True]; lab='%s: %d rows, path %d'%(f,n,k)
        if st.viol:
            if prove.z3_check(path,4000)=='unsat': continue
            return [Res('undecided',lab,'engine',str(st.viol[0])[:300])],set(),0
        r=st.ret; r=r.v if isinstance(r,Agg) else r; r=r.const() if hasattr(r,'const') else r
        r=r-2**32 if isinstance(r,int) and r>=2**31 else r
        if r not in (-1,n): raise Undecided('return value %r'%(st.ret,))
        g=NOT(good) if r>=0 else good
        z='unsat' if g is False else prove.z3_check(path+([] if g is True else [g]),8000)
        if z!='unsat': rs.append(Res('failed' if z=='sat' else 'undecided',lab+': returns %d'%r,'z3',str(path[-3:])[:200])); continue
        cnt[r>=0]+=1
        if r<0: rs.append(Res('proved',lab+': rejected','z3')); continue
        L=[e for e in st.log if e[0]=='unproject']
        if obs and n and not any(e[0]=='precompute' for e in st.log): raise Undecided('precompute')
        if obs and len(L)!=n: raise Undecided('unproject')
        for i in range(n):
            rd=lambda o,ty=('int',32): h.ex.load(st,h.m,ty,Ptr(h.objs['out'].obj,40*i+o))
            b=rd(8,('int',8)); last=NOT(eq(rows[i][0],rows[i+1][0])) if i+1<n else True
            bad=None
            if not (CA.implied(path,eq(rd(0),rows[i][1])) and CA.implied(path,eq(rd(4),rows[i][2]))): bad='camera'
            for bit,want in ((0,last),(1,S.rcmp('le',S.sym('o[%d,2]'%i),S.ZERO) if obs else False)):
                v=S.iopq('and',b,1<<bit) if not isinstance(b,int) else b&(1<<bit)
                got=(v!=0) if isinstance(v,int) else NOT(eq(v,0))
                same=OR(AND(got,want),AND(NOT(got),NOT(want)))
                if same is not True and not CA.implied(path,same): bad='bit %d: %r'%(bit,b)
            if obs:
                e=L[i]
                if not (e[1].obj==h.objs['out'].obj and e[1].off==40*i+16 and e[2].obj==h.objs['obs'].obj and e[2].off==24*i and e[3]==1 and e[5].obj==h.objs['intrinsics'].obj and CA.implied(path,eq(e[5].off,S.imul(8,S.imul(K,rows[i][1]))))): bad='unprojection %r'%(e,)
            for q in range(3):
                w=S.sym('v%d[%d]'%(i,q)) if obs else S.ZERO; g_=rd(16+8*q,('double',))
                if g_ is not w and not prove.pit([(g_,w)],1)[0] is True: bad='vector'
            rs.append(Res('failed' if bad else 'proved',lab+': row %d'%i,'symbolic execution',str(bad)))
    if good is not True and good is not False and not all(cnt.values()): rs.append(Res('undecided',f,'engine','vacuous %r'%cnt))
    return rs,set(h.ex.called),len(done)
def mods_enum():
    d=build.scratch(); src=d+'/lm.c'; open(src,'w').write('#include "%s/mrcal.h"\n#include <stdio.h>\nint main(void){printf("%%d",(int)MRCAL_LENSMODEL_PINHOLE);}'%build.REPO)
    build.sh(['gcc','-w','-O2','-Wl,--unresolved-symbols=ignore-all','-no-pie','-o',d+'/lm',src,'-I'+build.REPO]); return int(build.sh([d+'/lm']))
def bounded(f,*a):
    """the number of rows is bounded, their values are not"""
    def run(mods,O):
        rs,c,n=f(mods,O,*a); return [Res('bounded',x.label,x.backend,x.detail) if x.status=='proved' else x for x in rs],c,n
    return run
WHAT=[('optimize_validate_args(): any number of %s rows, none of the others'%k,induction(k)) for k in ('board','point','triangulated')]+[('_check_layout(): every shape, type, byte order and contiguity',layout),('fill_c_observations_board(): any number of rows',fill_board),('fill_c_observations_point(): any number of rows',fill_point)]+[
 ('optimize_validate_args(): %d board, %d point, %d triangulated rows, every value'%r,bounded(validate,*r)) for r in ((0,0,0),(1,0,0),(2,0,0),(3,0,0),(0,1,0),(0,2,0),(0,3,0),(0,0,1),(0,0,2),(0,0,3),(1,1,1))]+[
 ('fill_c_observations_point_triangulated(): %d rows%s, every value'%(n,'' if o else ' without observations'),bounded(fill_triangulated,n,o)) for n,o in ((1,True),(2,True),(3,True),(2,False))]
