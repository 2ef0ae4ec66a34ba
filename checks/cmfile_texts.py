"""Texts of camera models (plain Python, used from the driver of the Python package also): writers of valid variants and of malformed ones."""
import random, struct
LM=[('LENSMODEL_PINHOLE',4),('LENSMODEL_STEREOGRAPHIC',4),('LENSMODEL_LONLAT',4),('LENSMODEL_LATLON',4),('LENSMODEL_OPENCV4',8),('LENSMODEL_OPENCV5',9),('LENSMODEL_OPENCV8',12),('LENSMODEL_OPENCV12',16),('LENSMODEL_CAHVOR',9),('LENSMODEL_CAHVORE_linearity=0.37',12),('LENSMODEL_CAHVORE_linearity=-0.25',12),
 ('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=120',44),('LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=11_Ny=8_fov_x_deg=200',180),('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=30_Ny=20_fov_x_deg=170',1204)]
def dbl(rng,pos=False):
    r=rng.random()
    if r<.15: v=float(rng.randint(-3000,3000))
    elif r<.5: v=rng.uniform(-1,1)*10**rng.uniform(-6,6)
    elif r<.6: v=rng.choice((0.,-0.,1/3,2/3,.1,1e-300,-1e300,5e-324,2.2250738585072014e-308,1.7976931348623157e308,123456789.123456789,1e22,1e23,9007199254740993.,4.35,.3-.1))
    else:
        while True:
            v=struct.unpack('<d',struct.pack('<Q',rng.getrandbits(64)))[0]
            if v==v and abs(v)<=1.7976931348623157e308: break
    if pos: v=abs(v)
    if pos and v==0: v=1.5
    return v
class M:
    def __init__(s,rng,core_pos=True,lm=None):
        s.lm,n=lm or rng.choice(LM)
        s.intr=[dbl(rng,core_pos and i<2) for i in range(n)]; s.rt=[dbl(rng) for _ in range(6)]
        s.size=[rng.choice((1,2,640,6000,65536,2**31-1,rng.randint(1,10000))) for _ in range(2)]
def entries(m,fmt=repr):
    return [['lensmodel',["'%s'"%m.lm]],['intrinsics',['[']+sum([[fmt(v),','] for v in m.intr],[])[:-1]+[']']],['extrinsics',['[']+sum([[fmt(v),','] for v in m.rt],[])[:-1]+[']']],['imagersize',['[','%d'%m.size[0],',','%d'%m.size[1],']']]]
def render(ent,rng=None,trail=True,q="'",tail=True):
    """a text with these entries; with rng, spaces and comments are thrown in wherever they are allowed"""
    t=['{']
    for i,(k,v) in enumerate(ent):
        t+=[q+k+q,':']+v
        if i<len(ent)-1 or trail: t.append(',')
    t.append('}')
    def sp():
        if rng is None: return ' '
        return rng.choice(('','',' ','\n','  \t ','\r\n','# hello [1,2] } \n','\n\n# \'lensmodel\': 3,\n # again\n'))
    out=sp()
    for x in t[:-1]: out+=x+sp()
    return out+t[-1]+(sp() if tail else '')+'\n'
UNKNOWN=[["'note'",["'a note'"]],["'x'",['1']],["'x'",['-1.5e-3']],["'valid_intrinsics_region'",['[','[','1.5',',','2',']',',','[','3e2',',','-4',']',',',']']],["'icam_intrinsics'",['0']],["'optimization_inputs'",["b'P)h>@6aWAK2mkfg|NsC0|NsC0|NsC0|NsC000000)#+-;<=>?^_`{}~'"]]]
def variant(m,rng):
    e=entries(m,rng.choice((repr,lambda v:'%.17g'%v,lambda v:'%.16e'%v,lambda v:'%.20g'%v)))
    if rng.random()<.5: e[2][0]='rt_cam_ref'
    x=e[1:]
    if rng.random()<.4:
        x.append([('extrinsics' if e[2][0]=='rt_cam_ref' else 'rt_cam_ref'),e[2][1]])
    u=[[k[1:-1],v] for k,v in rng.sample(UNKNOWN,rng.randint(0,4)) ]
    seen=set(); u=[a for a in u if not (a[0] in seen or seen.add(a[0]))]
    x+=u; rng.shuffle(x)
    p=[a for a in x if a[0] not in('intrinsics',) and rng.random()<.3]
    x=p+[e[0]]+[a for a in x if a not in p]
    return render(x,rng,rng.random()<.7,rng.choice("'\""))
BADNUM=['abc','nan','inf','-','.','1.2.3','1e','--1','1 2','1 , , 2','0x','[1]','','1;']
BADNUM_C=["'1'",'1e999','-1e400','NaN','Infinity','1_000','0x10','True','None','+-1','e5','1e+']
BADUINT=['-1','0','1.5','1e3','abc','','1 2','nan','4294967296','99999999999999999999999']
BADLENS=['LENSMODEL_NOSUCH','PINHOL','','LENSMODEL_SPLINED_STEREOGRAPHIC','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5','LENSMODEL_CAHVORE','LENSMODEL_PINHOLEX','LENSMODEL_OPENCV','LENSMODEL_SPLINED_STEREOGRAPHIC_order=a_Nx=5_Ny=4_fov_x_deg=120']
def malformed(m,rng,lang):
    """(what is wrong, text)"""
    e=entries(m); n=rng.randint(0,15)
    if n in(0,1):
        t=render(e,rng,tail=False); cut=rng.randrange(t.rindex('}')) if rng.random()<.7 else rng.randrange(max(t.rindex('}')-40,0),t.rindex('}'))
        return 'truncated',t[:cut]
    if n==2: return 'garbage at the end',render(e,rng)+rng.choice(('x','}','{ }','1','{',',',']',"'a': 1"))
    if n in(3,4):
        i=rng.randrange(4); return 'no '+e[i][0],render(e[:i]+e[i+1:],rng)
    if n==5:
        i=rng.randrange(1,4); v=e[i][1]; e[i]=[e[i][0],v[:1]+v[3:]]; return 'too few values in '+e[i][0],render(e,rng)
    if n==6:
        i=rng.randrange(1,4); v=e[i][1]; e[i]=[e[i][0],v[:-1]+[',','1',']']]; return 'too many values in '+e[i][0],render(e,rng)
    if n in(7,8):
        i=rng.randrange(1,3); v=list(e[i][1]); j=1+2*rng.randrange(len(v)//2); b=rng.choice(BADNUM+(BADNUM_C if lang=='c' else [])); v[j]=b; e[i]=[e[i][0],v]
        if b=='' and j==len(v)-2: v[j]='x'
        return 'the number %r in %s'%(v[j],e[i][0]),render(e,None)
    if n==9:
        b=rng.choice(BADUINT if lang=='c' else ['-1','0','1.5','abc','','1 2','nan']); v=list(e[3][1]); j=rng.choice((1,3)); v[j]=b
        if b=='' and j==3: v[j]='x'
        e[3]=[e[3][0],v]; return 'the image size %r'%v[j],render(e,None)
    if n==10: e[0]=['lensmodel',["'%s'"%rng.choice(BADLENS)]]; return 'lens model '+e[0][1][0],render(e,rng)
    if n==11:
        t=render(e,None); s=rng.choice('[]:{}') ; i=rng.choice([k for k,c in enumerate(t) if c==s]); return 'missing %r at %d'%(s,i),t[:i]+t[i+1:]
    if n==12:
        i=rng.randrange(len(e)-1); t=render(e,None); k="'%s' :"%e[i+1][0]; j=t.index(k); j=t.rindex(',',0,j); return 'no comma before '+e[i+1][0],t[:j]+t[j+1:]
    if n==13:
        i=rng.randrange(1,4); v=list(e[i][1]); j=2*rng.randrange(1,len(v)//2); v[j]=rng.choice((' ',';',',,',':')); e[i]=[e[i][0],v]; return 'the separator %r in %s'%(v[j],e[i][0]),render(e,None)
    if n==14: e[rng.randrange(1,4)][1]=[rng.choice(("'abc'",'5','-2.5'))]; return 'a value of the wrong type',render(e,rng)
    return 'no model at all',rng.choice(('','\n','# nothing\n','hello','{','}','[]','3','{ }',"'lensmodel': 'LENSMODEL_PINHOLE'"))
def malformed_c(m,rng):
    if rng.random()<.8: return malformed(m,rng,'c')
    e=entries(m); n=rng.randint(0,3)
    if n==0:
        i=rng.choice((0,1,3)); e.append(e[i]); return 'repeated '+e[i][0],render(e,rng)
    if n==1:
        rt=list(m.rt); j=rng.randrange(6); rt[j]=(rt[j] if abs(rt[j])<1e6 else 0)+rng.choice((1,-.5)); 
        if abs(rt[j]-m.rt[j])<.1: rt[j]=m.rt[j]/2
        e.append(['rt_cam_ref',['[']+sum([[repr(v),','] for v in rt],[])[:-1]+[']']]); return 'two different extrinsics',render(e,rng)
    if n==2:
        e.append(['unknown',rng.choice((['[','1',',','[','2',']'],['[','1',']',']'],['[','x',']'],['xyz'],["'abc"]))]); return 'unreadable value of an unknown key',render(e,None)
    return 'intrinsics before the lens model',render([e[1],e[0]]+e[2:],rng)
