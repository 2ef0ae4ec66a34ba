"""C14: contracts of stereo.c: ranging, rectified resolution, rectified system, rectification maps."""
import cases, sym as S, build, contract as C, report, prove, execu, loops, ctypes, numpy as np
from fractions import Fraction
from contract import *
from spec import *
from sym import rcmp, icmp, cnot, cand, cor, isym
from report import Task
def enum(mods,name):
    """numeric value of a lens model type, from the current headers"""
    return ENUM[name]
ENUM={}
def read_enum():
    d=build.scratch(); names=['MRCAL_LENSMODEL_LATLON','MRCAL_LENSMODEL_LONLAT','MRCAL_LENSMODEL_PINHOLE','MRCAL_LENSMODEL_STEREOGRAPHIC','MRCAL_LENSMODEL_OPENCV4','MRCAL_LENSMODEL_CAHVORE','MRCAL_LENSMODEL_CAHVOR','MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC']
    open(d+'/e.c','w').write('#include <stdio.h>\n#include "mrcal.h"\nint main(void){'+''.join('printf("%s %%d\\n",(int)%s);'%(n,n) for n in names)+'}')
    build.sh(['gcc','-w']+build.inc()+[d+'/e.c','-o',d+'/e']); 
    import subprocess
    for l in subprocess.run([d+'/e'],capture_output=True,text=True).stdout.split('\n'):
        if l.strip(): a,b=l.split(); ENUM[a.replace('MRCAL_LENSMODEL_','')]=int(b)
F4=lambda: [IN('fxycxy',i) for i in range(4)]
base=lambda: IN('baseline')
def range_spec(model,d,q,f,b):
    """distance from camera 0 of the point that camera 0 sees at q and camera 1 (b along x) at q-(d,0)"""
    u=(q[0]-f[2])/f[0]; v=(q[1]-f[3])/f[1]; k=d/f[0]
    if model=='LATLON':
        # lat = angle from the plane normal to the baseline; triangle with angles 90-lat0.., sine rule
        return b*S.cos(u-k)/S.sin(k)
    # pinhole: depth z = b fx/d along the ray (u,v,1)
    return b/k*S.sqrt(u*u+v*v+S.ONE)
def geometry():
    """lemma: the range places the point where the two rectified pixels see it"""
    def fn():
        q=[IN('qq',0),IN('qq',1)]; f=F4(); b=base(); d=IN('d'); rs=[]
        u=(q[0]-f[2])/f[0]; v=(q[1]-f[3])/f[1]; k=d/f[0]
        r=range_spec('PINHOLE',d,q,f,b); n=S.sqrt(u*u+v*v+S.ONE); p=[r/n*u-b,r/n*v,r/n]
        pr=[('pinhole: x in camera 1 is q0x-d',p[0]/p[2]*f[0]+f[2],q[0]-d),('pinhole: same row',p[1]/p[2]*f[1]+f[3],q[1])]
        r=range_spec('LATLON',d,q,f,b); p=[r*S.sin(u)-b,r*S.cos(u)*S.sin(v),r*S.cos(u)*S.cos(v)]
        # tan(lat1) = x1/sqrt(y^2+z^2) with sqrt(y^2+z^2)=r cos(lat0) >=0 ; lat1 = u-k
        pr+=[('latlon: latitude in camera 1',p[0]*S.cos(u-k),r*S.cos(u)*S.sin(u-k)),('latlon: same longitude',p[1]*S.cos(v),p[2]*S.sin(v))]
        ok=prove.pit([(x,y) for _,x,y in pr],1)
        return [Res('proved' if o is True else 'undecided','geometry of the range: '+l,'pit') for (l,_,_),o in zip(pr,ok)],set(),0
    return Task('lemma: geometry of the range',fn)
def samp_range(cfg,rng,n):
    e={}
    for k in range(NC):
        e['disparity[%d]'%k]=rng.choice([-3.,0.,2.,5.,40.,40.5,80.,3.7,61.],n)
        for i in range(2): e['qrect0[%d,%d]'%(k,i)]=rng.uniform(0,1000,n)
    e['dmin']=rng.choice([0.,2.,5.,-1.],n); e['dmax']=rng.choice([40.,80.,61.],n)
    k=np.arange(n)%9==8; e['dmin'][k]=80.      # empty interval
    e['fxycxy[0]']=rng.uniform(500,1500,n); e['fxycxy[1]']=rng.uniform(500,1500,n); e['fxycxy[2]']=rng.uniform(300,700,n); e['fxycxy[3]']=rng.uniform(300,700,n)
    e['baseline']=rng.uniform(.1,3,n); return e
def sparse(model):
    d=IN('disparity','e'); q=[IN('qrect0','e',i) for i in range(2)]; dmin,dmax=IN('dmin'),IN('dmax'); sane=rcmp('lt',dmin,dmax)
    con=Contract('mrcal_stereo_range_sparse',[Arr('range',('N',),'out',strided=False),Arr('disparity',('N',),strided=False),Arr('qrect0',('N',2),strided=False),Count('N'),Dbl('dmin'),Dbl('dmax'),
        Const(ENUM[model]),Arr('fxycxy',(4,),strided=False),Dbl('baseline')],lambda c:[],loops=True,layouts=('contig',),ctype_ret=ctypes.c_bool,sampler=samp_range,name='mrcal_stereo_range_sparse<%s>'%model)
    ok=cand(rcmp('lt',S.ZERO,d),rcmp('le',dmin,d),rcmp('le',d,dmax))
    cs=[('the range',{'range[e]':range_spec(model,d,q,F4(),base()),'ret':S.ONE},cand(sane,ok)),
        ('invalid disparity gives the sentinel 0',{'range[e]':S.ZERO,'ret':S.ONE},cand(sane,cnot(ok))),
        ('empty disparity interval is an error',{'ret':S.ZERO},cnot(sane))]
    return con,lambda cfg: cs
import direct
from direct import D8, I32, Ptr, NULL
def rdn(x,st,p,n): return [x.load(st,x.mods[0],D8,Ptr(p.obj,S.iadd(p.off,8*i))) for i in range(n)]
def wrn(x,st,p,v):
    for i,e in enumerate(v): x.store(st,x.mods[0],D8,S.R(e),Ptr(p.obj,S.iadd(p.off,8*i)))
def bit(v): return v
PI=S.sym('$pi') if not hasattr(S,'PI') else S.PI
DEG=PI/S.const(180)
V3=lambda n,k=0: [IN(n,k+i) for i in range(3)]
def dot(a,b): return sum((x*y for x,y in zip(a,b)),S.ZERO)
def cross(a,b): return [a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
def sys2_spec():
    R0=[[IN('A',3*i+j) for j in range(3)] for i in range(3)]; t0=V3('A',9); R1=[[IN('B',3*i+j) for j in range(3)] for i in range(3)]; t1=V3('B',9)
    R01=[[dot(R0[i],R1[j]) for j in range(3)] for i in range(3)]
    t=[t0[i]-dot(R01[i],t1) for i in range(3)]; b=S.sqrt(dot(t,t)); right=[x/b for x in t]
    f01=[R01[0][2],R01[1][2],R01[2][2]+S.ONE]; fp=dot(f01,right); f=[x-fp*y for x,y in zip(f01,right)]; nf=S.sqrt(dot(f,f)); fwd=[x/nf for x in f]
    down=cross(fwd,right); M=[right,down,fwd]
    return dict(R0=R0,t0=t0,R01=R01,t=t,b=b,f01=f01,fp=fp,M=M,az=S.fn('asin',fp/S.sqrt(dot(f01,f01))))
def sys2_lemmas():
    def fn():
        q=sys2_spec(); M=q['M']; pr=[]
        for i in range(3):
            for j in range(i,3): pr.append(('rows %d,%d orthonormal'%(i,j),dot(M[i],M[j]),S.ONE if i==j else S.ZERO))
        pr.append(('proper rotation',dot(M[0],cross(M[1],M[2])),S.ONE))
        for i,w in enumerate((q['b'],S.ZERO,S.ZERO)): pr.append(('camera 1 sits at (baseline,0,0): %d'%i,dot(M[i],q['t']),w))
        f=F4(); p=V3('p'); 
        pr.append(('pinhole: same row in both cameras',p[1]/p[2]*f[1]+f[3],(p[1]-S.ZERO)/(p[2]-S.ZERO)*f[1]+f[3]))
        ok=prove.pit([(x,y) for _,x,y in pr],1)
        return [Res('proved' if o is True else 'undecided','geometry of the rectified system: '+l,'pit') for (l,_,_),o in zip(pr,ok)],set(),0
    return Task('lemma: geometry of the rectified system',fn)
def sys2_run(mods,model,auto):
    q=sys2_spec(); rnd=lambda e: S.fn('round',e); az0d,el0d,fx,fy,mg=[S.sym(x) for x in('az0','el0','fovx','fovy','margin')]; pa,pe=S.sym('ppd_az'),S.sym('ppd_el')
    def rt_in(x,st,args,ins):
        Rt,_,_,J,_,_,_,r,_=args; k={x.objid.get('c0'):'A',x.objid.get('c1'):'B'}[r.obj]
        wrn(x,st,Rt,[IN(k,i) for i in range(12)])
    def rt_out(x,st,args,ins):
        rt,_,J,_,_,_,Rt,_,_=args; v=rdn(x,st,Rt,12); wrn(x,st,Ptr(x.objid['ghost'],0),v); wrn(x,st,rt,[IN('rtout',i) for i in range(6)])
    def res(x,st,args,ins):
        a,e,lm,intr,fov,az,R,ty=args
        wrn(x,st,Ptr(x.objid['ghost'],96),rdn(x,st,az,2)+rdn(x,st,R,9)+rdn(x,st,fov,2)+rdn(x,st,a,1)+rdn(x,st,e,1)); x.store(st,x.mods[0],I32,ty,Ptr(x.objid['ghost2'],0))
        wrn(x,st,a,[S.sym('PA')]); wrn(x,st,e,[S.sym('PE')]); return isym('res_ok')
    def cxy(x,st,args,ins):
        o,f,ta,fov=args; wrn(x,st,o,[S.fn('uf3:cxy',f,ta,fov)]); return isym('cxy_ok')
    h=direct.H(mods,{'mrcal_Rt_from_rt_full':rt_in,'mrcal_rt_from_Rt_full':rt_out,'mrcal_rectified_resolution':res,'compute_pinhole_cxy':cxy}); h.ex.on_print=None
    im=h.obj('imagersize',8,'out'); fc=h.dbl('fxycxy_out',4,'out'); rt=h.dbl('rt',6,'out'); bl=h.dbl('bl',1,'out')
    a=h.dbls('pa',[pa],'inout'); e=h.dbls('pe',[pe],'inout'); fov=h.dbls('fov',[fx,fy],'inout'); az=h.dbls('azel0',[az0d,el0d],'inout')
    lm=h.ints('lensmodel',[ENUM['PINHOLE']]+[0]*8); intr=h.dbl('intrinsics',4); c0=h.dbl('c0',6); c1=h.dbl('c1',6)
    h.obj('ghost',8*30,'out'); h.obj('ghost2',8,'out')
    h.ex.objid={n:p.obj for n,p in h.objs.items()}
    done=h.call('mrcal_rectified_system2',[im,fc,rt,bl,a,e,fov,az,mg,lm,intr,c0,c1,ENUM[model],int(auto),0,0,0])
    lt=lambda x,y: rcmp('lt',x,y); loose=mg-S.const(Fraction(1,1000)); half=fx/S.const(2); n90=S.const(90)
    loose=mg-S.from_double(1e-3)
    inr=lambda z: (lt(loose-n90,z-half),lt(z+half,n90-loose))
    pre=[cnot(rcmp('eq',pa,S.ZERO)),cnot(rcmp('eq',pe,S.ZERO)),lt(S.ZERO,fx),lt(S.ZERO,fy),rcmp('le',S.from_double(1e-6),q['b'])]
    okres=cnot(icmp('eq',isym('res_ok'),0))
    def want(azd,azr):
        PA,PE=S.sym('PA'),S.sym('PE'); elr=el0d*DEG
        w={'ret':S.ONE,'baseline':q['b'],'azel0.x':azd,'azel0.y':el0d,'fov.x':fx,'fov.y':fy,'ppd_az':PA,'ppd_el':PE}
        for i in range(3):
            for j in range(3): w['R_rect0_ref[%d,%d]'%(i,j)]=dot(q['M'][i],[q['R0'][k][j] for k in range(3)]); w['R_cam0_rect0 handed to resolution[%d,%d]'%(i,j)]=q['M'][j][i]
            w['t_rect0_ref[%d]'%i]=dot(q['M'][i],q['t0'])
        for i in range(6): w['rt_rect0_ref[%d]'%i]=IN('rtout',i)
        w['az0 handed to resolution']=azd; w['el0 handed to resolution']=el0d; w['ppd handed to resolution az']=pa; w['ppd handed to resolution el']=pe; w['model handed']=S.const(ENUM[model]); w['fovx handed']=fx; w['fovy handed']=fy
        f0,f1=PA/DEG,PE/DEG
        if model=='LATLON':
            n0,n1=rnd(fx*PA),rnd(fy*PE); w['fx']=f0; w['fy']=f1; w['cx']=(n0-S.ONE)/S.const(2)-azr*f0; w['cy']=(n1-S.ONE)/S.const(2)-elr*f1
        else:
            f0=f0*S.cos(azr)*S.cos(azr); f1=f1*S.cos(elr)*S.cos(elr); ta,te=S.fn('tan',azr),S.fn('tan',elr)
            w['fx']=f0; w['fy']=f1; w['cx']=S.fn('uf3:cxy',f0,ta,fx); w['cy']=S.fn('uf3:cxy',f1,te,fy)
            n0,n1=rnd((ta*f0+w['cx'])*S.const(2))+S.ONE,rnd((te*f1+w['cy'])*S.const(2))+S.ONE
        w['width']=n0; w['height']=n1
        return w
    succ=[okres]+([] if model=='LATLON' else [cnot(icmp('eq',isym('cxy_ok'),0))])
    cs=[]; big=lt(S.const(180)-S.const(2)*mg,fx)
    if not auto: cs.append(('az0 given',want(az0d,az0d*DEG),cand(*pre,*inr(az0d),*succ))); bad=cnot(cand(*inr(az0d)))
    else:
        azd=q['az']/DEG
        cs.append(('az0 detected',want(azd,q['az']),cand(*pre,*inr(azd),*succ)))
        z=-n90+mg+half; cs.append(('az0 detected, moved up',want(z,z*DEG),cand(*pre,cnot(inr(azd)[0]),cnot(big),*succ)))
        z=n90-mg-half; cs.append(('az0 detected, moved down',want(z,z*DEG),cand(*pre,inr(azd)[0],cnot(inr(azd)[1]),cnot(big),*succ)))
        bad=cand(cnot(cand(*inr(azd))),big)
    cs.append(('documented error',{'ret':S.ZERO},cor(cnot(cand(*pre)),bad,cnot(cand(*succ)))))
    cs.append(('empty image is an error',{'ret':S.ZERO},lambda st: S.icmp('le',h.rd(st,'imagersize',4,I32),0) if st.o(h.objs['imagersize'].obj).written else False))
    def outs(st):
        o={'ret':S.R(st.ret)}
        def put(n,f):
            try: o[n]=S.R(f())
            except (direct.Undecided,S.SymError): pass
        rd=lambda n,i: (lambda: h.rd(st,n,8*i))
        put('baseline',rd('bl',0)); put('azel0.x',rd('azel0',0)); put('azel0.y',rd('azel0',1)); put('fov.x',rd('fov',0)); put('fov.y',rd('fov',1)); put('ppd_az',rd('pa',0)); put('ppd_el',rd('pe',0))
        if not st.o(h.objs['ghost'].obj).written: return o
        for i in range(3):
            for j in range(3): put('R_cam0_rect0 handed to resolution[%d,%d]'%(i,j),rd('ghost',14+3*i+j))
        for n,k in(('az0 handed to resolution',12),('el0 handed to resolution',13),('fovx handed',23),('fovy handed',24),('ppd handed to resolution az',25),('ppd handed to resolution el',26)): put(n,rd('ghost',k))
        put('model handed',lambda: h.rd(st,'ghost2',0,I32))
        if not st.o(h.objs['imagersize'].obj).written: return o
        for i in range(2): put(('width','height')[i],lambda: h.rd(st,'imagersize',4*i,I32))
        for i,n in enumerate(('fx','fy','cx','cy')): put(n,rd('fxycxy_out',i))
        if not st.o(h.objs['rt'].obj).written: return o
        for i in range(3):
            for j in range(3): put('R_rect0_ref[%d,%d]'%(i,j),rd('ghost',3*i+j))
            put('t_rect0_ref[%d]'%i,rd('ghost',9+i))
        for i in range(6): put('rt_rect0_ref[%d]'%i,rd('rt',i))
        return o
    return direct.check(h,done,'mrcal_rectified_system2<%s,%s>'%(model,'az0 detected' if auto else 'az0 given'),outs,cs,named={'b':q['b'],'az':q['az']/DEG})
def res_run(mods,model):
    pa,pe=S.sym('ppd_az'),S.sym('ppd_el'); az,el=S.sym('az0')*DEG,S.sym('el0')*DEG; fx,fy=S.sym('fovx'),S.sym('fovy'); R=[[IN('R',3*i+j) for j in range(3)] for i in range(3)]
    def proj(x,st,args,ins):
        q,g,gi,p,n,lm,intr=args; wrn(x,st,Ptr(x.objid['ghost'],0),rdn(x,st,p,3)); wrn(x,st,g,[IN('G',i) for i in range(6)])
        if isinstance(q,Ptr) and q.obj is not None: wrn(x,st,q,[IN('qq',i) for i in range(2)])
        st.meta['np']=st.meta.get('np',0)+1; st.meta['lmok']=st.meta.get('lmok',True) and lm.obj==x.objid['lensmodel'] and intr.obj==x.objid['intrinsics'] and n==1
        return None
    h=direct.H(mods,{'mrcal_project':proj}); a=h.dbls('pa',[pa],'inout'); e=h.dbls('pe',[pe],'inout'); lm=h.ints('lensmodel',[ENUM['PINHOLE']]+[0]*8); intr=h.dbl('intrinsics',4)
    fov=h.dbls('fov',[fx,fy]); az0=h.dbls('azel0',[S.sym('az0'),S.sym('el0')]); r=h.dbl('R',9); h.obj('ghost',24,'out'); h.ex.objid={n:p.obj for n,p in h.objs.items()}
    done=h.call('mrcal_rectified_resolution',[a,e,lm,intr,fov,az0,r,ENUM[model]])
    if model=='LATLON': y=[S.sin(az),S.cos(az)*S.sin(el),S.cos(az)*S.cos(el)]
    elif model=='LONLAT': y=[S.cos(el)*S.sin(az),S.sin(el),S.cos(el)*S.cos(az)]
    else: y=[S.fn('tan',az),S.fn('tan',el),S.ONE]
    t=[S.sym('TA'),S.sym('TE')]; back={t[0]:az,t[1]:el}
    ysym={'LATLON':lambda a,b:[S.sin(a),S.cos(a)*S.sin(b),S.cos(a)*S.cos(b)],'LONLAT':lambda a,b:[S.cos(b)*S.sin(a),S.sin(b),S.cos(b)*S.cos(a)],'PINHOLE':lambda a,b:[S.sin(a)/S.cos(a),S.sin(b)/S.cos(b),S.ONE]}.get(model)
    lt=lambda x,y: rcmp('lt',x,y); neg=cor(lt(pa,S.ZERO),lt(pe,S.ZERO)); cs=[]
    if ysym is None:
        cs=[('given densities are kept',{'ret':S.ONE,'ppd_az':pa,'ppd_el':pe},cnot(neg)),('unsupported model',{'ret':S.ZERO},neg)]
    else:
        v=ysym(*t); D=[S.diff(v,x) for x in t]; v,*D=[S.subst(z,back) for z in [v]+D]
        v0=[dot(R[i],v) for i in range(3)]; G=[[IN('G',3*i+j) for j in range(3)] for i in range(2)]
        def dens(d):
            w=[dot(R[i],d) for i in range(3)]; q=[dot(G[k],w) for k in range(2)]; return S.sqrt(dot(q,q))*DEG
        pix=[dens(d) for d in D]; opt=[]
        for na in 0,1:
            for ne in 0,1:
                A=-pa*pix[0] if na else pa; B=-pe*pix[1] if ne else pe
                if model!='PINHOLE': A=S.fn('round',fx*A)/fx; B=S.fn('round',fy*B)/fy
                w={'ret':S.ONE,'ppd_az':A,'ppd_el':B}
                if na or ne: w.update({'point projected[%d]'%i:v0[i] for i in range(3)}); w['projections with the given model']=S.ONE
                g=cand(lt(pa,S.ZERO) if na else cnot(lt(pa,S.ZERO)),lt(pe,S.ZERO) if ne else cnot(lt(pe,S.ZERO)))
                cs.append(('detected az=%d el=%d'%(na,ne),w,g))
    def outs(st):
        o={'ret':S.R(st.ret),'ppd_az':h.rd(st,'pa',0),'ppd_el':h.rd(st,'pe',0)}
        if st.meta.get('np'): o.update({'point projected[%d]'%i:h.rd(st,'ghost',8*i) for i in range(3)}); o['projections with the given model']=S.ONE if st.meta['lmok'] else S.ZERO
        return o
    return direct.check(h,done,'mrcal_rectified_resolution<%s>'%model,outs,cs)
F4B=('float',)
def maps_run(mods,model,W,Hh):
    f=F4(); p=lambda k,c,v: S.fn('uf3:project%d.%s'%(k,'xy'[c]),*v)
    def rin(x,st,args,ins):
        r=args[-3] if False else [y for y in args if isinstance(y,Ptr) and y.obj in (x.objid['r0'],x.objid['r1'],x.objid['rr'])][0]
        nmx={x.objid['r0']:'R0',x.objid['r1']:'R1',x.objid['rr']:'RR'}[r.obj]; wrn(x,st,args[0],[IN(nmx,i) for i in range(9)])
    def proj(x,st,args,ins):
        q,g,gi,pt,n,lm,intr=args; v=rdn(x,st,pt,3)
        k={(x.objid['lm0'],x.objid['i0']):0,(x.objid['lm1'],x.objid['i1']):1}.get((lm.obj,intr.obj))
        if k is None or n!=1: raise direct.Undecided('projection with mixed models')
        wrn(x,st,q,[p(k,0,v),p(k,1,v)]); return 1
    h=direct.H(mods,{'mrcal_R_from_r_full':rin,'mrcal_project':proj}); o=h.obj('maps',4*2*W*Hh*2,'out'); lm0=h.ints('lm0',[ENUM['PINHOLE']]+[0]*8); lm1=h.ints('lm1',[ENUM['CAHVORE']]+[0]*8)
    a=[o,lm0,h.dbl('i0',4),h.dbl('r0',3),lm1,h.dbl('i1',4),h.dbl('r1',3),ENUM[model],h.dbl('fxycxy',4),h.ints('size',[W,Hh]),h.dbl('rr',3)]; h.ex.objid={n:q.obj for n,q in h.objs.items()}
    done=h.call('mrcal_rectification_maps',a)
    if model not in('LATLON','PINHOLE'):
        return direct.check(h,done,'mrcal_rectification_maps<%s>'%model,lambda st:{'ret':S.R(st.ret)},[('unsupported model',{'ret':S.ZERO},True)])
    w={'ret':S.ONE}
    M=lambda n: [[IN(n,3*i+j) for j in range(3)] for i in range(3)]
    RR=M('RR')
    for k in 0,1:
        Rk=M('R%d'%k); Rc=[[dot(Rk[i],RR[j]) for j in range(3)] for i in range(3)]
        for i in range(Hh):
            for j in range(W):
                x,y=(S.const(j)-f[2])/f[0],(S.const(i)-f[3])/f[1]
                v=[x,y,S.ONE] if model=='PINHOLE' else [S.sin(x),S.cos(x)*S.sin(y),S.cos(x)*S.cos(y)]
                for c in 0,1: w['map[%d,%d,%d,%d]'%(k,i,j,c)]=p(k,c,[dot(Rc[n],v) for n in range(3)])
    def outs(st):
        r={'ret':S.R(st.ret)}
        for k in 0,1:
            for i in range(Hh):
                for j in range(W):
                    for c in 0,1: r['map[%d,%d,%d,%d]'%(k,i,j,c)]=S.R(h.rd(st,'maps',4*(((k*Hh+i)*W+j)*2+c),F4B))
        return r
    return direct.check(h,done,'mrcal_rectification_maps<%s> %dx%d'%(model,W,Hh),outs,[('maps',w,True)])
def dense_run(mods,model,W,Hh,pi,pj,pad):
    """one pixel with a symbolic disparity, the others unmatched (0)"""
    raw=isym('raw'); scale=isym('scale'); dmin,dmax=isym('dmin'),isym('dmax'); f=F4()
    s_r,s_d=8*(W+pad),2*(W+pad)
    h=direct.H(mods); rd=h.obj('range.data',s_r*Hh,'out'); dd=h.obj('disp.data',s_d*Hh,'in',lambda off,ty: raw if off==pi*s_d+2*pj else 0)
    ri=h.fields('range',24,{0:W,4:Hh,8:s_r,16:rd}); di=h.fields('disp',24,{0:W,4:Hh,8:s_d,16:dd})
    h.assume(icmp('le',1,scale),icmp('le',0,raw),icmp('le',raw,65535),icmp('le',0,dmin),icmp('le',0,dmax),icmp('le',dmin,65535),icmp('le',dmax,65535),icmp('le',scale,65535))
    done=h.call('mrcal_stereo_range_dense',[ri,di,scale,dmin,dmax,ENUM[model],h.dbl('fxycxy',4),IN('baseline')])
    R=S.R; d=R(raw)/R(scale); sane=S.icmp('lt',dmin,dmax); bound=lambda v: R(v)
    rng_=range_spec(model,d,[S.const(pj),S.const(pi)],f,base()); P=lambda i,j: 'range[%d,%d]'%(i,j)
    zero={P(i,j):S.ZERO for i in range(Hh) for j in range(W)}
    ok=cand(S.icmp('lt',0,raw),S.icmp('le',dmin,raw),S.icmp('le',raw,dmax))
    cs=[('range',dict(zero,ret=S.ONE,**{P(pi,pj):rng_}),cand(sane,ok)),('sentinel',dict(zero,ret=S.ONE),cand(sane,cnot(ok))),('error',{'ret':S.ZERO},cnot(sane))]
    def outs(st):
        o={'ret':S.R(st.ret)}
        for i in range(Hh):
            for j in range(W):
                try: o[P(i,j)]=h.rd(st,'range.data',s_r*i+8*j)
                except direct.Undecided: pass
        return o
    return direct.check(h,done,'mrcal_stereo_range_dense<%s> %dx%d pixel (%d,%d) padding %d'%(model,W,Hh,pj,pi,pad),outs,cs)
def cxy_run(mods,n):
    f,ta,fov=[S.sym(x) for x in('f','ta','fov')]; c=S.cos(fov*DEG); C_=[S.sym('C%d'%k) for k in range(n)]; K=S.const(2)*ta
    def roots(x,st,args,ins):
        out,N,co=args; wrn(x,st,Ptr(x.objid['ghost'],0),rdn(x,st,co,4)); wrn(x,st,out,C_); st.meta['N']=N; return n
    h=direct.H(mods,{'roots_real_polynomial':roots}); o=h.dbl('cxy',1,'out'); h.obj('ghost',32,'out'); h.ex.objid={k:q.obj for k,q in h.objs.items()}
    val=[c*(S.ONE-K*r-r*r) for r in C_]; sz=[(ta*f+r*f)*S.const(2)+S.ONE for r in C_]
    h.assume(*[rcmp('lt',S.from_double(-1.7e308),v) for v in val])     # finite arithmetic
    done=h.call('compute_pinhole_cxy',[o,f,ta,fov])
    ok=[cand(rcmp('le',S.from_double(-1e-9),v),rcmp('lt',S.ZERO,z)) for v,z in zip(val,sz)]
    m=c*c-S.ONE; co=[K*K+S.ONE+K*K/m,K*2+K*4/m if False else S.const(2)*K+S.const(4)*K/m,K*K+S.const(2)+S.const(4)/m,S.const(2)*K]
    w={'coefficient %d'%i:e for i,e in enumerate(co)}
    cs=[('root %d'%k,dict(w,ret=S.ONE,cxy=C_[k]*f),cand(ok[k],*[cor(cnot(ok[j]),rcmp('le',val[j],val[k])) for j in range(n) if j!=k])) for k in range(n)]+[('no usable root',dict(w,ret=S.ZERO),cand(*[cnot(x) for x in ok]))]
    def outs(st):
        r={'ret':S.R(st.ret)}
        for i in range(4): r['coefficient %d'%i]=h.rd(st,'ghost',8*i)
        if st.o(o.obj).written: r['cxy']=h.rd(st,'cxy',0)
        return r
    return direct.check(h,done,'compute_pinhole_cxy, %d real roots'%n,outs,cs,named=dict([('v%d'%k,v) for k,v in enumerate(val)]+[('z%d'%k,z) for k,z in enumerate(sz)]))
def cxy_lemma():
    """the polynomial: with a=(-C,1) the left and b=(K+C,1) the right edge of the image, cos^2 of the angle between them"""
    def fn():
        C0,K,c2=[S.sym(x) for x in('C','K','c2')]; a=[-C0,S.ONE]; b=[K+C0,S.ONE]; lhs=dot(a,b)*dot(a,b)-c2*dot(a,a)*dot(b,b)
        k2=S.ONE/(c2-S.ONE); co=[K*K+S.ONE+K*K*k2,S.const(2)*K+S.const(4)*K*k2,K*K+S.const(2)+S.const(4)*k2,S.const(2)*K]
        p=co[0]+co[1]*C0+co[2]*C0*C0+co[3]*C0*C0*C0+C0*C0*C0*C0
        ok=prove.pit([(lhs,(S.ONE-c2)*p)],1)
        return [Res('proved' if ok[0] is True else 'undecided','pinhole field of view: the roots make the edges of the image span the requested angle','pit')],set(),0
    return Task('lemma: pinhole field of view',fn)
# ---------------------------------------------------------------- bounded stand-in: the real library against numpy
def Rod(r):
    th=np.linalg.norm(r)
    if th<1e-12: return np.eye(3)
    k=r/th; Kx=np.array([[0,-k[2],k[1]],[k[2],0,-k[0]],[-k[1],k[0],0]]); return np.eye(3)+np.sin(th)*Kx+(1-np.cos(th))*Kx@Kx
def dp(a): return a.ctypes.data_as(ctypes.c_void_p)
def lmbuf(name):
    b=np.zeros(64,np.uint8); b[:4].view(np.int32)[0]=ENUM[name]; return b
def np_project(lib,name,intr,v):
    v=np.ascontiguousarray(v,dtype=float).reshape(-1,3); q=np.zeros((len(v),2)); b=lmbuf(name); lib.mrcal_project(dp(q),None,None,dp(v),ctypes.c_int(len(v)),dp(b),dp(intr)); return q
def unproj(model,f,q):
    x,y=(q[0]-f[2])/f[0],(q[1]-f[3])/f[1]
    return np.array([x,y,1.]) if model=='PINHOLE' else np.array([np.sin(x),np.cos(x)*np.sin(y),np.cos(x)*np.cos(y)]) if model=='LATLON' else np.array([np.cos(y)*np.sin(x),np.sin(y),np.cos(y)*np.cos(x)])
def bounded_stereo(lib,seed=1,n=250):
    rng=np.random.default_rng(seed); cnt=[0]; cd=ctypes.c_double
    class Bad(Exception): pass
    def eq(env,what,got,want,tol=1e-6):
        cnt[0]+=1; got=np.asarray(got,float); want=np.asarray(want,float)
        if got.shape!=want.shape or not np.all(np.abs(got-want)<=tol*(1+np.abs(want))): raise Bad(env,what,got.tolist(),want.tolist())
    def density(model,az,R,G):
        a,e=az*np.pi/180
        if model=='LATLON': v=[np.sin(a),np.cos(a)*np.sin(e),np.cos(a)*np.cos(e)]; da=[np.cos(a),-np.sin(a)*np.sin(e),-np.sin(a)*np.cos(e)]; de=[0,np.cos(a)*np.cos(e),-np.cos(a)*np.sin(e)]
        elif model=='LONLAT': v=[np.cos(e)*np.sin(a),np.sin(e),np.cos(e)*np.cos(a)]; da=[np.cos(e)*np.cos(a),0,-np.cos(e)*np.sin(a)]; de=[-np.sin(e)*np.sin(a),np.cos(e),-np.sin(e)*np.cos(a)]
        else: v=[np.tan(a),np.tan(e),1.]; da=[1/np.cos(a)**2,0,0]; de=[0,1/np.cos(e)**2,0]
        v0=R@np.array(v); x,y,z=v0; J=np.array([[G[0]/z,0,-G[0]*x/z**2],[0,G[1]/z,-G[1]*y/z**2]])
        return [np.linalg.norm(J@R@np.array(d))*np.pi/180 for d in(da,de)]
    def one_system(k):
        model='LATLON' if k%2 else 'PINHOLE'; rt0=np.r_[rng.uniform(-.6,.6,3),rng.uniform(-3,3,3)]; rt1=np.r_[rt0[:3]+rng.uniform(-.15,.15,3),rng.uniform(-3,3,3)]
        kind=k%13; auto=bool(rng.integers(2)); fov=rng.uniform(20,80,2); az=rng.uniform(-30,30,2); ppd=rng.choice([-1.,-.7,8.,11.5],2); margin=float(rng.choice([10.,5.])); cam='PINHOLE'; G=np.array([1000.,1100,500,400]); err=None
        R0,R1=Rod(rt0[:3]),Rod(rt1[:3])
        # camera 1 at a chosen place of camera 0
        off=np.array([rng.uniform(.3,2)*rng.choice([1,1,1,-1]),rng.uniform(-.3,.3),rng.uniform(-1.2,1.2)*(1 if k%3 else 2.5)])
        if kind==3: off=off*1e-8; err='baseline'
        if kind==5: ppd[rng.integers(2)]=0; err='ppd'
        if kind==7: fov[rng.integers(2)]=rng.choice([0.,-3.]); err='fov'
        c=R0.T@(off-rt0[3:]); rt1[3:]=-R1@c      # camera 1's centre is at off in camera 0
        if kind==9: model='LONLAT'; err='model'
        R01=R0@R1.T; t=-R01@rt1[3:]+rt0[3:]; b=np.linalg.norm(t); 
        lm=lmbuf(cam); isz=np.zeros(2,np.uint32); fc=np.zeros(4); rt=np.zeros(6); bl=np.zeros(1); pa,pe=ppd[:1].copy(),ppd[1:].copy(); fv=fov.copy(); a0=az.copy()
        env={'model':model,'rt_cam0_ref':rt0.tolist(),'rt_cam1_ref':rt1.tolist(),'ppd':ppd.tolist(),'fov_deg':fov.tolist(),'azel0_deg':az.tolist(),'az0_autodetect':auto,'margin':margin}
        right=t/max(b,1e-300); f01=R01[:,2]+np.array([0,0,1.]); fp=f01@right; fwd=f01-fp*right; fwd=fwd/np.linalg.norm(fwd); M=np.array([right,np.cross(fwd,right),fwd])
        if not err and auto:
            z=np.arcsin(fp/np.linalg.norm(f01))*180/np.pi; lo,hi=z-fov[0]/2+90-margin,90-margin-z-fov[0]/2
            if min(abs(lo+1e-3),abs(hi+1e-3))<1e-5: return
            if lo>-1e-3 and hi>-1e-3: wz=z
            elif fov[0]>180-2*margin: err='azimuth'
            elif not lo>-1e-3: wz=-90+margin+fov[0]/2
            else: wz=90-margin-fov[0]/2
        elif not err:
            wz=az[0]; lo,hi=wz-fov[0]/2+90-margin+1e-3,90-margin+1e-3-wz-fov[0]/2
            if not(lo>0 and hi>0): err='azimuth'
        if not err:
            a,e=wz*np.pi/180,az[1]*np.pi/180; v=M.T@unproj(model,[1,1,0,0],[np.tan(a),np.tan(e)] if model=='PINHOLE' else [a,e])
            if v[2]<.2: return
        ret=lib.mrcal_rectified_system2(dp(isz),dp(fc),dp(rt),dp(bl),dp(pa),dp(pe),dp(fv),dp(a0),cd(margin),dp(lm),dp(G),dp(rt0),dp(rt1),ctypes.c_int(ENUM[model]),*[ctypes.c_bool(x) for x in(auto,0,0,0)])
        ret=ret&1
        eq(env,'mrcal_rectified_system2: ok (%s)'%err,ret,0 if err else 1)
        if err: return
        eq(env,'baseline',bl[0],b); eq(env,'azel0',a0,[wz,az[1]]); Rr=Rod(rt[:3]); eq(env,'R_rect0_ref',Rr,M@R0,1e-5); eq(env,'t_rect0_ref',rt[3:],M@rt0[3:],1e-5)
        want=density(model,np.array([wz,az[1]]),M.T,G); want=[-p*w if p<0 else p for p,w in zip(ppd,want)]
        if model=='LATLON':
            nn=[np.floor(x*y+.5) for x,y in zip(fov,want)]
            if any(abs(x*y-np.floor(x*y)-.5)<1e-6 for x,y in zip(fov,want)): return
            want=[x/y for x,y in zip(nn,fov)]
        eq(env,'pixels_per_deg',[pa[0],pe[0]],want); a,e=a0*np.pi/180
        if model=='LATLON': eq(env,'imagersize',isz,nn); eq(env,'fxy',fc[:2],np.array(want)*180/np.pi); eq(env,'image center',(np.array(nn)-1)/2,[a*fc[0]+fc[2],e*fc[1]+fc[3]])
        else:
            eq(env,'fxy',fc[:2],[want[0]*180/np.pi*np.cos(a)**2,want[1]*180/np.pi*np.cos(e)**2])
            for i,z in enumerate((a,e)):
                x0=-fc[2+i]/fc[i]; x1=2*np.tan(z)-x0; eq(env,'field of view along axis %d'%i,np.arctan(x1)-np.arctan(x0),fov[i]*np.pi/180,1e-5)
                s=(np.tan(z)*fc[i]+fc[2+i])*2
                if abs(s-np.floor(s)-.5)>1e-6: eq(env,'imagersize axis %d'%i,isz[i],np.floor(s+.5)+1)
    def one_resolution(k):
        model=['LATLON','LONLAT','PINHOLE','STEREOGRAPHIC'][k%4]; R=Rod(rng.uniform(-.5,.5,3)); G=np.array([1000.,1100,500,400]); fov=rng.uniform(20,80,2); az=rng.uniform(-25,25,2); ppd=rng.choice([-1.,-.7,-2.,9.,11.5],2)
        pa,pe=ppd[:1].copy(),ppd[1:].copy(); lm=lmbuf('PINHOLE'); Rc=np.ascontiguousarray(R); env={'model':model,'R_cam0_rect0':R.tolist(),'azel_fov_deg':fov.tolist(),'azel0_deg':az.tolist(),'ppd':ppd.tolist()}
        ret=lib.mrcal_rectified_resolution(dp(pa),dp(pe),dp(lm),dp(G),dp(fov),dp(az),dp(Rc),ctypes.c_int(ENUM[model]))&1
        neg=bool((ppd<0).any()); eq(env,'mrcal_rectified_resolution: ok',ret,0 if model=='STEREOGRAPHIC' and neg else 1)
        if not ret: return
        w=[-p*d if p<0 else p for p,d in zip(ppd,density(model,az,R,G))] if neg else ppd
        if model in('LATLON','LONLAT'):
            if any(abs(x*y-np.floor(x*y)-.5)<1e-6 for x,y in zip(fov,w)): return
            w=[np.floor(x*y+.5)/x for x,y in zip(fov,w)]
        eq(env,'mrcal_rectified_resolution: pixels_per_deg',[pa[0],pe[0]],w)
    def one_maps(k):
        model='LATLON' if k%2 else 'PINHOLE'; W,Hh=int(rng.integers(1,9)),int(rng.integers(1,7)); f=np.array([rng.uniform(5,15),rng.uniform(5,15),(W-1)/2+rng.uniform(-1,1),(Hh-1)/2+rng.uniform(-1,1)]); r0,r1,rr=[rng.uniform(-.1,.1,3) for _ in range(3)]
        G0,G1=np.array([1000.,1100,500,400]),np.array([900.,800,450,380,.01,.02,.003,-.001]); m0,m1=lmbuf('PINHOLE'),lmbuf('OPENCV4'); maps=np.full((2,Hh,W,2),np.nan,np.float32); isz=np.array([W,Hh],np.uint32)
        env={'model':model,'size':[W,Hh],'fxycxy':f.tolist(),'r_cam0_ref':r0.tolist(),'r_cam1_ref':r1.tolist(),'r_rect0_ref':rr.tolist()}
        ret=lib.mrcal_rectification_maps(dp(maps),dp(m0),dp(G0),dp(r0),dp(m1),dp(G1),dp(r1),ctypes.c_int(ENUM[model]),dp(f),dp(isz),dp(rr))&1; eq(env,'mrcal_rectification_maps: ok',ret,1)
        v=np.array([[unproj(model,f,(j,i)) for j in range(W)] for i in range(Hh)])
        for c,(r,nm_,G) in enumerate(((r0,'PINHOLE',G0),(r1,'OPENCV4',G1))): eq(env,'rectification map %d'%c,maps[c],np_project(lib,nm_,G,v@(Rod(r)@Rod(rr).T).T).reshape(Hh,W,2),1e-5)
    def one_dense(k):
        model='LATLON' if k%2 else 'PINHOLE'; W,Hh=int(rng.integers(1,6)),int(rng.integers(1,5)); pd,pr=int(rng.integers(0,4)),int(rng.integers(0,3)); d=np.zeros((Hh,W+pd),np.uint16); d[:,:W]=rng.choice([0,1,40,41,160,300,301,20000,40000,65535],(Hh,W)); r=np.full((Hh,W+pr),-7.)
        lo,hi=[(0,65535),(40,300),(41,40000),(5,5)][k%4]; sc=int(rng.choice([1,16])); f=np.array([1000.,1100,500,400]); b=rng.uniform(.1,3); I=lambda a,e: (ctypes.c_uint64*3)(W|(Hh<<32),a.strides[0],a.ctypes.data)
        env={'model':model,'disparity':d.tolist(),'scale':sc,'min':lo,'max':hi}
        ret=lib.mrcal_stereo_range_dense(I(r,8),I(d,2),ctypes.c_uint16(sc),ctypes.c_uint16(lo),ctypes.c_uint16(hi),ctypes.c_int(ENUM[model]),dp(f),cd(b))&1; eq(env,'mrcal_stereo_range_dense: ok',ret,int(lo<hi))
        if not ret: return
        eq(env,'padding of the range image',r[:,W:],np.full((Hh,pr),-7.))
        D=d[:,:W].astype(float)/sc; u=(np.arange(W)-f[2])/f[0]; v=((np.arange(Hh)-f[3])/f[1])[:,None]
        with np.errstate(all='ignore'): w=b*np.cos(u-D/f[0])/np.sin(D/f[0]) if model=='LATLON' else b/(D/f[0])*np.sqrt(u*u+v*v+1)
        w=np.where((d[:,:W]==0)|(d[:,:W]<lo)|(d[:,:W]>hi),0.,w+0*v); eq(env,'mrcal_stereo_range_dense: range',r[:,:W],w)
    try:
        for k in range(n):
            for f in one_system,one_resolution,one_maps,one_dense: f(k)
    except Bad as e: return cnt[0],(e.args[0],e.args[1],e.args[2],e.args[3])
    return cnt[0],None
def sys2_tasks(mods,lib=None):
    out=[sys2_lemmas()]
    for m in 'LATLON','PINHOLE':
        for auto in 0,1: out.append(Task('mrcal_rectified_system2<%s,%s>'%(m,'az0 detected' if auto else 'az0 given'),lambda m=m,auto=auto: sys2_run(mods,m,auto)))
    for m in 'LATLON','LONLAT','PINHOLE','STEREOGRAPHIC': out.append(Task('mrcal_rectified_resolution<%s>'%m,lambda m=m: res_run(mods,m)))
    for m,W,Hh in ('LATLON',4,3),('PINHOLE',4,3),('LONLAT',2,2): out.append(Task('mrcal_rectification_maps<%s> (bounded: %dx%d image)'%(m,W,Hh),lambda m=m,W=W,Hh=Hh: maps_run(mods,m,W,Hh)))
    for m in 'PINHOLE','LATLON':
        for (i,j),pad in zip([(0,0),(0,2),(1,1)],[0,1,3]): out.append(Task('mrcal_stereo_range_dense<%s> (bounded: 3x2 image), pixel (%d,%d)'%(m,j,i),lambda m=m,i=i,j=j,pad=pad: dense_run(mods,m,3,2,i,j,pad)))
    out.append(cxy_lemma())
    for n in 0,1,2,3,4: out.append(Task('compute_pinhole_cxy, %d real roots'%n,lambda n=n: cxy_run(mods,n)))
    for t in out:
        if not t.label.startswith('lemma') and not t.fallback: t.fallback=lambda: bounded_stereo(lib,report.SEED)
    return out
def c14(thorough):
    read_enum(); lib=C.load_lib(); mods=build.modules(['stereo.c','mrcal.c','poseutils.c']); out=[geometry()]
    for m in 'PINHOLE','LATLON':
        con,cs=sparse(m); out+=cases.tasks(mods,con,lib,cs)
    return out+sys2_tasks(mods,lib)
