"""C05 / C06: projection through the parametric lens models (mrcal.c, opencv.c, cahvore.cc)."""
import ctypes, sym as S, build, contract as C, report, numpy as np
from contract import *
from spec import *
from report import Task
from simple import P_pinhole,P_stereo,P_lonlat,P_latlon,gvals
FILES=['mrcal.c','opencv.c','cahvore.cc','poseutils.c','poseutils-uses-autodiff.cc','poseutils-opencv.c']
NPAR={'LENSMODEL_PINHOLE':4,'LENSMODEL_STEREOGRAPHIC':4,'LENSMODEL_LONLAT':4,'LENSMODEL_LATLON':4,'LENSMODEL_OPENCV4':8,'LENSMODEL_OPENCV5':9,'LENSMODEL_OPENCV8':12,'LENSMODEL_OPENCV12':16,'LENSMODEL_CAHVOR':9,'LENSMODEL_CAHVORE':12}
class LM(ctypes.Structure): _fields_=[('b',ctypes.c_ubyte*32)]
def lensmodel_bytes(name):
    lib=C.load_lib(); lm=LM(); f=lib.mrcal_lensmodel_from_name; f.restype=ctypes.c_bool
    if not f(ctypes.byref(lm),name.encode()): raise RuntimeError('lensmodel '+name)
    return bytes(lm)
def lm_cells(name):
    import struct
    b=lensmodel_bytes(name); c={0:(4,struct.unpack('<i',b[:4])[0])}
    if 'CAHVORE' in name: c[8]=(8,S.from_double(struct.unpack('<d',b[8:16])[0]))
    elif 'SPLINED' in name: c.update({8+2*i:(2,struct.unpack('<H',b[8+2*i:10+2*i])[0]) for i in range(4)})
    return c
def lm_arg(name):
    def bld(ex,st,cfg):
        o=st.add_obj(Obj('lensmodel',None,'input')); o.cells.update(lm_cells(name)); o.readonly=True
        return Ptr(o.id,0)
    def conc(cfg,keep,env):
        m=LM.from_buffer_copy(lensmodel_bytes(name)); keep.append(m); return ctypes.byref(m)
    return StructIn(bld,conc)
I=lambda n,m=None: [IN('intrinsics',i) for i in range(n)]
def distort(model,v,p):
    """normalised image coordinates before fx,fy,cx,cy; v: camera point, p: parameters after the core"""
    if model=='LENSMODEL_PINHOLE': return P_pinhole(v)
    if model=='LENSMODEL_STEREOGRAPHIC': return P_stereo(v)
    if model=='LENSMODEL_LONLAT': return P_lonlat(v)
    if model=='LENSMODEL_LATLON': return P_latlon(v)
    if 'OPENCV' in model:
        k=list(p)+[S.ZERO]*(12-len(p)); x,y=v[0]/v[2],v[1]/v[2]; r2=x*x+y*y; r4=r2*r2; r6=r4*r2; two=S.const(2)
        g=(S.ONE+k[0]*r2+k[1]*r4+k[4]*r6)/(S.ONE+k[5]*r2+k[6]*r4+k[7]*r6)
        return [x*g+two*k[2]*x*y+k[3]*(r2+two*x*x)+k[8]*r2+k[9]*r4, y*g+k[2]*(r2+two*y*y)+two*k[3]*x*y+k[10]*r2+k[11]*r4]
    if model=='LENSMODEL_CAHVOR':
        al,be,r0,r1,r2=p; o=axis(al,be); w=dot(v,o); tau=norm2(v)/(w*w)-S.ONE; mu=r0+tau*r1+tau*tau*r2
        d=[a+mu*(a-w*b) for a,b in zip(v,o)]
        return [d[0]/d[2],d[1]/d[2]]
    raise KeyError(model)
def axis(al,be): return [S.sin(al)*S.cos(be),S.sin(be),S.cos(al)*S.cos(be)]
def qspec(model,v):
    n=NPAR[model]; i=I(n); u=distort(model,v,i[4:])
    return [u[0]*i[0]+i[2],u[1]*i[1]+i[3]]
def samp(model,rng,n,strong=False):
    e={}; s=lambda a: rng.standard_normal(n)*a
    for k in range(NC):
        e['p[%d,0]'%k]=s(.4); e['p[%d,1]'%k]=s(.4); e['p[%d,2]'%k]=rng.uniform(.8,3,n)
    for i,(a,b) in enumerate(((600,2500),(600,2500),(600,1000),(300,700))): e['intrinsics[%d]'%i]=rng.uniform(a,b,n)
    for i in range(4,NPAR[model]): e['intrinsics[%d]'%i]=s(.05)
    return e
def clauses(model):
    def cl(cfg):
        v=[IN('p','e',i) for i in range(3)]; q=qspec(model,v); out=gvals('q',q)
        if 'dq_dp' not in cfg.null:
            for j in range(3):
                d=S.diff(q,v[j]); out+=[('dq_dp[e,%d,%d] == d/dp%d'%(i,j,j),OUT('dq_dp','e',i,j),x,'grad') for i,x in enumerate(d)]
        if 'dq_dintrinsics' not in cfg.null:
            for j in range(NPAR[model]):
                d=S.diff(q,IN('intrinsics',j)); out+=[('dq_dintrinsics[e,%d,%d] == d/di%d'%(i,j,j),OUT('dq_dintrinsics','e',i,j),x,'grad') for i,x in enumerate(d)]
        return out+[('returns true',OUT('ret'),S.ONE,'value')]
    return cl
def k_project(model):
    return Contract('mrcal_project',[Arr('q',('N',2),'out',strided=False),Arr('dq_dp',('N',2,3),'out',True,strided=False),Arr('dq_dintrinsics',('N',2,NPAR[model]),'out',True,strided=False),
        Arr('p',('N',3),strided=False),Count('N'),lm_arg(model),Arr('intrinsics',(NPAR[model],),strided=False)],
        clauses(model),loops=True,layouts=('contig',),name='mrcal_project<%s>'%model,sampler=lambda cfg,rng,n: samp(model,rng,n),ctype_ret=ctypes.c_bool,
        hints=hint_of(model))
def hint_of(model):
    """positive square roots: sqrt(1-y^2/|v|^2) = sqrt(x^2+z^2)/|v|"""
    if model not in('LENSMODEL_LONLAT','LENSMODEL_LATLON'): return None
    k=1 if model=='LENSMODEL_LONLAT' else 0
    def h(cfg,p):
        v=[IN('p','e',i) for i in range(3)]; n=norm2(v); a=S.sqrt(n-v[k]*v[k])
        return [S.ONE/S.sqrt(n),S.ONE/a,a/S.sqrt(n)],{}
    return h
def only(con,kinds):
    old=con.clauses
    con.clauses=lambda cfg: [c for c in old(cfg) if c[3] in kinds]
    return con
MODELS=[m for m in list(NPAR) if m!='LENSMODEL_CAHVORE']
def c05(thorough):
    mods=build.modules(FILES); lib=C.load_lib(); out=[]
    for m in MODELS: out+=report.contract_tasks(mods,only(k_project(m),('value',)),lib,thorough)
    return out+cahv(mods,lib,('value',),thorough)
def cahv(mods,lib,kinds,thorough):
    import cahvore as K
    out=[]
    for k in 'tan','sin','id':
        con=only(K.k_warp(k),kinds)
        if kinds==('grad',): con.case_filter=lambda c,th: len(c.null)<2
        ts=report.contract_tasks(mods,con,None,thorough); pc=only(K.k_project({'tan':.37,'sin':-.5,'id':0.}[k]),kinds); rp=C.Replayer(lib)
        for t in ts: t.fallback=lambda pc=pc: rp.bounded(pc,next(iter(pc.cases())),1)
        out+=ts
    for lin in .37,0.,-.5:
        con=only(K.k_project(lin),kinds)
        if kinds==('grad',): con.case_filter=lambda c,th: len(c.null)<2
        out+=report.contract_tasks(mods,con,lib,thorough)
    return out
def c06(thorough):
    mods=build.modules(FILES); lib=C.load_lib(); out=[]
    for m in MODELS:
        con=only(k_project(m),('grad',)); con.case_filter=lambda c,th: not(len(c.null)==2)
        out+=report.contract_tasks(mods,con,lib,thorough)
    return out+cahv(mods,lib,('grad',),thorough)
