"""C07: contracts of the closed-form projections / unprojections (mrcal.c), any number of points."""
import sym as S, build, contract as C, report, numpy as np
from contract import *
from spec import *
from report import Task
FILES=['mrcal.c']
V=lambda: [IN('v','e',i) for i in range(3)]
Q=lambda: [IN('q','e',i) for i in range(2)]
F=lambda: [IN('fxycxy',i) for i in range(4)]
at2=lambda y,x: S.fn('atan2',y,x)
asin=lambda x: S.fn('asin',x)
def P_pinhole(v): return [v[0]/v[2],v[1]/v[2]]
def P_stereo(v):
    k=S.const(2)/(S.sqrt(norm2(v))+v[2]); return [k*v[0],k*v[1]]
def P_lonlat(v): return [at2(v[0],v[2]),asin(v[1]/S.sqrt(norm2(v)))]
def P_latlon(v): return [asin(v[0]/S.sqrt(norm2(v))),at2(v[1],v[2])]
def U_pinhole(u): return [u[0],u[1],S.ONE]
def U_stereo(u): return [u[0],u[1],S.ONE-(u[0]*u[0]+u[1]*u[1])/S.const(4)]
def U_lonlat(u): return [S.cos(u[1])*S.sin(u[0]),S.sin(u[1]),S.cos(u[1])*S.cos(u[0])]
def U_latlon(u): return [S.sin(u[0]),S.cos(u[0])*S.sin(u[1]),S.cos(u[0])*S.cos(u[1])]
M={'pinhole':(P_pinhole,U_pinhole),'stereographic':(P_stereo,U_stereo),'lonlat':(P_lonlat,U_lonlat),'latlon':(P_latlon,U_latlon)}
def aff(u,f): return [u[0]*f[0]+f[2],u[1]*f[1]+f[3]]
def iaff(q,f): return [(q[0]-f[2])/f[0],(q[1]-f[3])/f[1]]
def gvals(name,spec): return [('%s == spec'%nm(name,'e',i),OUT(name,'e',i),R(x),'value') for i,x in enumerate(spec)]
def ggrads(J,spec,sy,n):
    out=[]
    for j in range(n):
        y=S.sym(nm(sy,'e',j)); d=S.diff(spec,y)
        out+= [('%s == d/d%s'%(nm(J,'e',i,j),y.a),OUT(J,'e',i,j),x,'grad') for i,x in enumerate(d)]
    return out
def samp(rng,n,what):
    e={}
    for k in range(NC):
        if what=='v':
            e['v[%d,0]'%k]=rng.standard_normal(n)*.4; e['v[%d,1]'%k]=rng.standard_normal(n)*.4; e['v[%d,2]'%k]=rng.uniform(-.2,3,n)
        else:
            e['q[%d,0]'%k]=rng.uniform(-200,1800,n); e['q[%d,1]'%k]=rng.uniform(-100,1300,n)
    e['fxycxy[0]']=rng.uniform(600,2500,n); e['fxycxy[1]']=rng.uniform(600,2500,n); e['fxycxy[2]']=rng.uniform(600,1000,n); e['fxycxy[3]']=rng.uniform(300,700,n)
    return e
def k_project(m):
    def cl(cfg):
        q=aff(M[m][0](V()),F()); out=gvals('q',q)
        if 'dq_dv' not in cfg.null: out+=ggrads('dq_dv',q,'v',3)
        return out
    return Contract('mrcal_project_'+m,[Arr('q',('N',2),'out',strided=False),Arr('dq_dv',('N',2,3),'out',True,strided=False),Arr('v',('N',3),strided=False),Count('N'),Arr('fxycxy',(4,),strided=False)],
        cl,loops=True,layouts=('contig',),sampler=lambda cfg,rng,n: samp(rng,n,'v'))
def k_unproject(m):
    def cl(cfg):
        v=M[m][1](iaff(Q(),F())); out=gvals('v',v)
        if 'dv_dq' not in cfg.null: out+=ggrads('dv_dq',v,'q',2)
        return out
    return Contract('mrcal_unproject_'+m,[Arr('v',('N',3),'out',strided=False),Arr('dv_dq',('N',3,2),'out',True,strided=False),Arr('q',('N',2),strided=False),Count('N'),Arr('fxycxy',(4,),strided=False)],
        cl,loops=True,layouts=('contig',),sampler=lambda cfg,rng,n: samp(rng,n,'q'))
def lemmas(thorough):
    """over the two contracts: project(unproject(q)) == q, and unproject(project(v)) is parallel to v"""
    def alg():
        out=[]; f=F(); q=Q(); v=V(); pairs=[]
        for m in 'pinhole','stereographic':
            # stereographic: sqrt((1-n/4)^2+n) is the positive root 1+n/4
            hint=[S.ONE+norm2(iaff(q,f))/S.const(4)] if m=='stereographic' else []
            r=aff(M[m][0](M[m][1](iaff(q,f))),f); pr=[(r[i],q[i]) for i in range(2)]
            ok=C.prove.pit(pr,1,roots_hint=hint)
            pairs+=[('%s: q%d'%(m,i),ok[i]) for i in range(2)]
            u=M[m][1](iaff(aff(M[m][0](v),f),f)); c=cross(u,v); ok=C.prove.pit([(x,S.ZERO) for x in c],1)
            pairs+=[('%s: v x v` [%d]'%(m,i),ok[i]) for i in range(3)]
        # lonlat / latlon: the angles used by the unprojection are the ones the projection recovers:
        # y/|v| = sin(lat), (x,z) = cos(lat)(sin lon, cos lon)  with cos(lat)>=0 on the domain |lat|<=pi/2
        for m,ia,io in ('lonlat',1,0),('latlon',0,1):
            u=iaff(q,f); w=M[m][1](u); lat,lon=u[ia],u[io]; k=1 if m=='lonlat' else 0; o=[0,2] if m=='lonlat' else [1,2]
            pr=[(norm2(w),S.ONE),(w[k],S.sin(lat)),(w[o[0]],S.cos(lat)*S.sin(lon)),(w[o[1]],S.cos(lat)*S.cos(lon))]
            ok=C.prove.pit(pr,1); pairs+=[('%s: inverse identity %d'%(m,i),ok[i]) for i in range(4)]
        return [Res('proved' if o is True else 'undecided','lemma round trip '+l,'pit') for l,o in pairs],set(),0
    return [Task('lemma: round trip',alg)]
def tasks(thorough):
    mods=build.modules(FILES); lib=C.load_lib(); out=[]
    for m in M: out+=report.contract_tasks(mods,k_project(m),lib,thorough)+report.contract_tasks(mods,k_unproject(m),lib,thorough)
    return out+lemmas(thorough)
