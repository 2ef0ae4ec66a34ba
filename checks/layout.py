"""C09 / C10: layout of the state and measurement vectors (mrcal.c), for symbolic problem sizes."""
import ctypes, itertools, struct, sym as S, build, contract as C, report
from sym import isym, icmp, cand, cor, cnot, iadd, imul
from execu import NULL
from icon import *
from lens import lensmodel_bytes, LM
FILES=['mrcal.c','opencv.c','cahvore.cc','poseutils.c']
NPAR={'LENSMODEL_PINHOLE':4,'LENSMODEL_OPENCV8':12,'LENSMODEL_CAHVORE_linearity=0.37':12}
SPL='LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=11_Ny=7_fov_x_deg=100'
SEL=['do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp','do_apply_regularization','do_apply_outlier_rejection','do_apply_regularization_unity_cam01']
_bits=None
def bits():
    """bit of every selection in the by-value struct, from the current headers"""
    global _bits
    if _bits is None:
        v=probe(''.join('{mrcal_problem_selections_t s; memset(&s,0,sizeof s); s.%s=1; unsigned char b[4]={0}; memcpy(b,&s,sizeof s); printf("%%d %%d ",(int)sizeof s,b[0]);}'%n for n in SEL))
        if any(x!=1 for x in v[::2]): raise RuntimeError('mrcal_problem_selections_t is not one byte')
        _bits=dict(zip(SEL,v[1::2]))
    return _bits
def sel(**kw): return sum(bits()[k] for k,v in kw.items() if v)
class Model:
    def __init__(s,name):
        s.name=name; s.splined='SPLINED' in name; b=lensmodel_bytes(name)
        if s.splined:
            # Nx, Ny symbolic
            off=dict(zip(('order','Nx','Ny','fov'),probe(''.join('printf("%%d ",(int)offsetof(mrcal_lensmodel_t,LENSMODEL_SPLINED_STEREOGRAPHIC__config.%s));'%f for f in('order','Nx','Ny','fov_x_deg')))))
            s.cells={0:(4,struct.unpack('<i',b[:4])[0])}
            for k,o in off.items(): s.cells[o]=(2,isym(k) if k in('Nx','Ny') else struct.unpack('<H',b[o:o+2])[0])
            s.npar=iadd(imul(2,imul(isym('Nx'),isym('Ny'))),4); s.pre=[icmp('le',3,isym('Nx')),icmp('le',3,isym('Ny'))]
            def conc(env):
                a=bytearray(b); struct.pack_into('<H',a,off['Nx'],env['Nx']); struct.pack_into('<H',a,off['Ny'],env['Ny']); return bytes(a)
            s.conc=conc
        else:
            s.cells={0:(4,struct.unpack('<i',b[:4])[0])}; s.npar=NPAR[name]; s.pre=[]; s.conc=lambda env: b
    def arg(s): return Bytes(s.cells,s.conc)
    def nopt(s,k):
        """number of optimized intrinsics per camera"""
        n=0
        if k['core']: n=4
        if k['dist']: n=iadd(n,iadd(s.npar,-4))
        return n
MODELS=lambda: [Model(n) for n in list(NPAR)+[SPL%2,SPL%3]]
V=isym
def sels(names):
    """all combinations of the named selections: (kw, byte)"""
    full={'core':SEL[0],'dist':SEL[1],'extr':SEL[2],'frames':SEL[3],'warp':SEL[4],'reg':SEL[5],'out':SEL[6],'unity':SEL[7]}
    for c in itertools.product((0,1),repeat=len(names)):
        k=dict.fromkeys(full,0); k.update(zip(names,c))
        yield k,sum(bits()[full[n]] for n in full if k[n])
ge=lambda a,b: icmp('le',b,a)
lt=lambda a,b: icmp('lt',a,b)
NN=lambda n,vals=(0,1,2,3): IntArg(n,0,vals)
def blocks(m,k):
    """documented order of the state blocks: (name, number of items, states per item)"""
    return [('intrinsics',V('Nci'),m.nopt(k)),('extrinsics',V('Nce'),6 if k['extr'] else 0),('frames',V('Nf'),6 if k['frames'] else 0),
            ('points',iadd(V('Np'),imul(-1,V('Npf'))),3 if k['frames'] else 0)]
def states(m,k):
    n=0
    for _,a,b in blocks(m,k): n=iadd(n,imul(a,b))
    return n
IDXV=(-2,-1,0,1,2,3,4)
COUNTS=lambda: [NN('Nci'),NN('Nce'),NN('Nf'),NN('Np',(2,3,4)),NN('Npf',(0,1,2)),NN('Nob')]
PRE=lambda: [icmp('le',V('Npf'),V('Np'))]
def c09_cons(m,k,sb):
    lb=' <%s> sel=%s'%(m.name,''.join(n+' ' for n in k if k[n]).strip() or 'none'); out=[]; pre=PRE()+m.pre
    warp=lambda: cand(lt(0,V('Nob')),bool(k['warp'])) if k['warp'] else False
    off=0
    for nm,cnt,per in blocks(m,k):
        i=IntArg('i',None,IDXV); start=off
        def spec(cnt=cnt,per=per,start=start):
            present=cand(icmp('le',0,V('i')),lt(V('i'),cnt),icmp('lt',0,per))
            return [('item i of the block',present,{'ret':iadd(start,imul(V('i'),per))}),('absent',cnot(present),{'ret':-1})]
        out.append(ICon('mrcal_state_index_'+nm,[i]+COUNTS()+[Byte(sb),m.arg()],spec,pre,name='mrcal_state_index_'+nm+lb,grid=60))
        off=iadd(off,imul(cnt,per))
    tot=off
    def spec():
        w=warp()
        return [('warp block',w,{'ret':tot}),('absent',cnot(w),{'ret':-1})]
    out.append(ICon('mrcal_state_index_calobject_warp',COUNTS()+[Byte(sb),m.arg()],spec,pre,name='mrcal_state_index_calobject_warp'+lb,grid=60))
    NW=2
    def spec():
        w=warp(); return [('with warp',w,{'ret':iadd(tot,NW)}),('no warp',cnot(w),{'ret':tot})]
    out.append(ICon('mrcal_num_states',COUNTS()+[Byte(sb),m.arg()],spec,pre,name='mrcal_num_states'+lb,grid=60))
    def spec():
        w=warp(); return [('with warp',w,{'ret':NW}),('no warp',cnot(w),{'ret':0})]
    out.append(ICon('mrcal_num_states_calobject_warp',[Byte(sb),NN('Nob')],spec,[],name='mrcal_num_states_calobject_warp'+lb,grid=10))
    eq=lambda v: (lambda: [('count',True,{'ret':v})])
    b=dict((x[0],imul(x[1],x[2])) for x in blocks(m,k))
    out.append(ICon('mrcal_num_states_intrinsics',[NN('Nci'),Byte(sb),m.arg()],eq(b['intrinsics']),m.pre,name='mrcal_num_states_intrinsics'+lb,grid=10))
    out.append(ICon('mrcal_num_states_extrinsics',[NN('Nce'),Byte(sb)],eq(b['extrinsics']),[],name='mrcal_num_states_extrinsics'+lb,grid=10))
    out.append(ICon('mrcal_num_states_frames',[NN('Nf'),Byte(sb)],eq(b['frames']),[],name='mrcal_num_states_frames'+lb,grid=10))
    out.append(ICon('mrcal_num_states_points',[NN('Np',(2,3,4)),NN('Npf',(0,1,2)),Byte(sb)],eq(b['points']),PRE(),name='mrcal_num_states_points'+lb,grid=10))
    out.append(ICon('mrcal_num_intrinsics_optimization_params',[Byte(sb),m.arg()],eq(m.nopt(k)),m.pre,name='mrcal_num_intrinsics_optimization_params'+lb,grid=3))
    return out
def group(label,cons,mods,lib):
    def fn():
        r=[]; cl=set(); n=0
        for c in cons:
            a,b,d=c.check(mods,lib); r+=a; cl|=b; n+=d
        return r,cl,n
    def fb():
        n=0
        for c in cons:
            a,v=c.bounded(lib); n+=a
            if v: return n,v[:1]+(c.name+' : '+v[1],)+v[2:]
        return n,None
    return Task(label,fn,fb)
def c09(thorough):
    mods=build.modules(FILES); lib=C.load_lib(); out=[]
    for m in MODELS():
        for k,sb in sels(('core','dist','extr','frames','warp')):
            out.append(group('state layout <%s> %r'%(m.name,sb),c09_cons(m,k,sb),mods,lib))
        # selections which may not change the layout
        for k,sb in sels(('reg','out','unity')):
            k=dict(k,core=1,extr=1,frames=1,warp=1); sb|=sel(**{SEL[0]:1,SEL[2]:1,SEL[3]:1,SEL[4]:1})
            out.append(group('state layout <%s> %r'%(m.name,sb),c09_cons(m,k,sb),mods,lib))
    return out
# ------------------------------------------------------------------ C10, without triangulated points
OBS=lambda: [NN('Nob'),NN('Nop')]
WH=lambda: [NN('w',(2,3)),NN('h',(2,4))]
def meas(m,k):
    wh=imul(V('w'),V('h')); nb=imul(2,imul(V('Nob'),wh)); npt=imul(2,V('Nop')); per=0
    if k['reg']: per=iadd(iadd(m.npar,-4) if k['dist'] else 0,2 if k['core'] else 0)
    return wh,nb,npt,per
def c10_cons(m,k,sb):
    lb=' <%s> sel=%s'%(m.name,''.join(n+' ' for n in k if k[n]).strip() or 'none'); out=[]; pre=PRE()+m.pre
    wh,nb,npt,per=meas(m,k); reg=imul(V('Nci'),per)
    unity=lt(0,V('Nce')) if k['unity'] and k['extr'] else False
    eq=lambda v: (lambda: [('count',True,{'ret':v})])
    ext=[NN('Nci'),NN('Nce'),NN('Nf'),NN('Np',(2,3,4)),NN('Npf',(0,1,2))]
    out.append(ICon('mrcal_num_measurements_regularization',ext+[NN('Nob'),Byte(sb),m.arg()],
        lambda: [('with the unit baseline term',unity,{'ret':iadd(reg,1)}),('without it',cnot(unity),{'ret':reg})],pre,name='mrcal_num_measurements_regularization'+lb,grid=40))
    for t in 'NULL','N=0':
        tri=[Null(),NN('Ntri')] if t=='NULL' else [Bytes({},lambda env: b'\0'*64),0]
        tot=iadd(nb,npt)
        out.append(ICon('mrcal_num_measurements',OBS()+tri+WH()+ext+[Byte(sb),m.arg()],
            lambda tot=tot: [('with the unit baseline term',unity,{'ret':iadd(iadd(tot,reg),1)}),('without it',cnot(unity),{'ret':iadd(tot,reg)})],pre,name='mrcal_num_measurements'+lb+' triangulated '+t,grid=40))
        present=cor(icmp('lt',0,reg),unity)
        out.append(ICon('mrcal_measurement_index_regularization',tri+WH()+ext+OBS()+[Byte(sb),m.arg()],
            lambda tot=tot: [('start of the block',present,{'ret':tot}),('absent',cnot(present),{'ret':-1})],pre,name='mrcal_measurement_index_regularization'+lb+' triangulated '+t,grid=40))
    return out
def c10_plain():
    wh=imul(V('w'),V('h')); nb=imul(2,imul(V('Nob'),wh)); out=[]
    i=lambda: IntArg('i',0,(0,1,2,3))
    has=lambda n: lt(0,V(n))
    out.append(ICon('mrcal_num_measurements_boards',[NN('Nob')]+WH(),lambda: [('count',True,{'ret':nb})]))
    out.append(ICon('mrcal_num_measurements_points',[NN('Nop')],lambda: [('count',True,{'ret':imul(2,V('Nop'))})]))
    out.append(ICon('mrcal_measurement_index_boards',[i()]+OBS()+WH(),lambda: [('observation i',cand(has('Nob'),lt(V('i'),V('Nob'))),{'ret':imul(2,imul(V('i'),wh))}),('absent',cnot(has('Nob')),{'ret':-1})]))
    out.append(ICon('mrcal_measurement_index_points',[i()]+OBS()+WH(),lambda: [('observation i',cand(has('Nop'),lt(V('i'),V('Nop'))),{'ret':iadd(nb,imul(2,V('i')))}),('absent',cnot(has('Nop')),{'ret':-1})]))
    for t,tri in ('NULL',[Null(),NN('Ntri')]),('N=0',[Bytes({},lambda env: b'\0'*64),0]):
        out.append(ICon('mrcal_num_measurements_points_triangulated',tri,lambda: [('no triangulated points',True,{'ret':0})],name='mrcal_num_measurements_points_triangulated '+t))
        out.append(ICon('mrcal_measurement_index_points_triangulated',[i()]+OBS()+tri+WH(),lambda: [('absent',True,{'ret':-1})],name='mrcal_measurement_index_points_triangulated '+t))
        out.append(ICon('mrcal_num_measurements_points_triangulated_initial_Npoints',tri+[IntArg('n',None,(-1,0,1,2))],lambda: [('absent',True,{'ret':0})],name='mrcal_num_measurements_points_triangulated_initial_Npoints '+t))
    return out
def c10(thorough):
    mods=build.modules(FILES); lib=C.load_lib(); out=[group(c.name,[c],mods,lib) for c in c10_plain()]
    for m in MODELS():
        for k,sb in sels(('core','dist','extr','reg','unity')):
            out.append(group('measurement layout <%s> %r'%(m.name,sb),c10_cons(m,k,sb),mods,lib))
    import tri
    return out+tri.tasks(mods,lib,thorough)
