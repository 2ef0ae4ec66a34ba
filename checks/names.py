"""C15: lens model names, configurations, parameter counts and metadata (mrcal.c)."""
import ctypes, random, re, math, subprocess, sym as S, build, contract as C, report, prove, direct, loops
from report import Task
from contract import Res, Undecided
from execu import Ptr, NULL, Fork, KB
from sym import isym, icmp, iadd, imul, cand, cnot
D8=('double',); I32=('int',32); I16=('int',16); I8=('int',8)
PAR={'PINHOLE':4,'STEREOGRAPHIC':4,'LONLAT':4,'LATLON':4,'OPENCV4':8,'OPENCV5':9,'OPENCV8':12,'OPENCV12':16,'CAHVOR':9,'CAHVORE':12,'SPLINED_STEREOGRAPHIC':None}
CFG={'CAHVORE':['linearity'],'SPLINED_STEREOGRAPHIC':['order','Nx','Ny','fov_x_deg']}
INV={'BADCONFIG':0,'MISSINGCONFIG':0,'TYPE':0}
BEHIND={'SPLINED_STEREOGRAPHIC','STEREOGRAPHIC','LONLAT','LATLON'}
ENUM={}; OFF={}; SIZE=[16]; BIT={}
def probe():
    d=build.scratch(); p=[]
    for m in PAR: p.append('printf("E %s %%d\\n",(int)MRCAL_LENSMODEL_%s);'%(m,m))
    for m in INV: p.append('printf("I %s %%d\\n",(int)MRCAL_LENSMODEL_INVALID_%s);'%(m,m))
    for m,fs in CFG.items():
        for f in fs: p.append('printf("O %s.%s %%d\\n",(int)offsetof(mrcal_lensmodel_t,LENSMODEL_%s__config.%s));'%(m,f,m,f))
    for b in 'has_core','can_project_behind_camera','has_gradients','noncentral':
        p.append('{mrcal_lensmodel_metadata_t m; memset(&m,0,sizeof m); m.%s=1; unsigned char b[16]={0}; memcpy(b,&m,sizeof m); printf("B %s %%d\\n",b[0]); printf("M size %%d\\n",(int)sizeof m);}'%(b,b))
    p.append('printf("S size %d\\n",(int)sizeof(mrcal_lensmodel_t));')
    open(d+'/pn.c','w').write('#include <stdio.h>\n#include <stddef.h>\n#include <string.h>\n#include "mrcal.h"\nint main(void){'+''.join(p)+'}')
    build.sh(['gcc','-w']+build.inc()+[d+'/pn.c','-o',d+'/pn'])
    for l in subprocess.run([d+'/pn'],capture_output=True,text=True).stdout.split('\n'):
        if not l: continue
        k,a,b=l.split(); b=int(b)
        {'E':ENUM,'I':INV,'O':OFF,'B':BIT,'M':{},'S':{}}[k][a]=b
        if k=='S': SIZE[0]=b
        if k=='M' and b!=1: raise RuntimeError('mrcal_lensmodel_metadata_t is not one byte')
# ---------------------------------------------------------------- the C library, as contracts
def cstr(x,st,m,p,limit=4000):
    """the bytes of a constant string"""
    out=[]
    for k in range(limit):
        b=x.load(st,m,I8,Ptr(p.obj,iadd(p.off,k)))
        if not isinstance(b,int): raise Undecided('not a constant string')
        b&=255
        if b==0: return bytes(out).decode()
        out.append(b)
    raise Undecided('unterminated string')
def const(x,st,m,p):
    try: return cstr(x,st,m,p)
    except Undecided: return None
def eqchars(x,st,m,p,text,nul):
    """condition: the text at p starts with text (and ends there)"""
    cs=[]
    for k,ch in enumerate(list(text.encode())+([0] if nul else [])):
        b=x.load(st,m,I8,Ptr(p.obj,iadd(p.off,k))); cs.append(icmp('eq',b,ch if ch<128 else ch-256))
        if cs[-1] is False: return False
    return cand(*cs)
def decide(st,c):
    if c is True or c is False: return c
    if c in st.pset or loops.iproves(st.path,c): return True
    if cnot(c) in st.pset or loops.iproves(st.path,cnot(c)): return False
    raise Fork(c)
PF=re.compile(r'%(%|(\d*)(\.\d+|\.\*)?(hh|h|ll|l|j|z|t)?([diufFeEgGn s]))')
def pieces(fmt):
    """printf/scanf format as [('lit',text) | ('cv',spec)]"""
    out=[]; pos=0
    for m in PF.finditer(fmt):
        if m.start()>pos: out.append(('lit',fmt[pos:m.start()]))
        out.append(('lit','%') if m.group(1)=='%' else ('cv',m.group(0)[1:])); pos=m.end()
    if '%' in fmt[pos:]: raise Undecided('format %r'%fmt)
    if pos<len(fmt): out.append(('lit',fmt[pos:]))
    r=[]
    for k,t in out:
        if r and k=='lit' and r[-1][0]=='lit': r[-1]=('lit',r[-1][1]+t)
        else: r.append((k,t))
    return r
def lib(h):
    def strcmp(x,st,a,ins):
        for p,q in((a[0],a[1]),(a[1],a[0])):
            t=const(x,st,h.m,q)
            if t is not None: return 0 if decide(st,eqchars(x,st,h.m,p,t,True)) else 1
        raise Undecided('strcmp of two variable strings')
    def strncmp(x,st,a,ins):
        n=a[2]
        if not isinstance(n,int): raise Undecided('strncmp length')
        for p,q in((a[0],a[1]),(a[1],a[0])):
            t=const(x,st,h.m,q)
            if t is not None: return 0 if decide(st,eqchars(x,st,h.m,p,t[:n],n>len(t))) else 1
        raise Undecided('strncmp of two variable strings')
    def strlen(x,st,a,ins): return len(cstr(x,st,h.m,a[0]).encode())
    def snprintf(x,st,a,ins):
        ps=pieces(cstr(x,st,h.m,a[2])); args=list(a[3:]); toks=[]
        for k,t in ps:
            if k=='lit': toks.append(('lit',t))
            elif t.endswith('s'): toks.append(('lit',cstr(x,st,h.m,args.pop(0))))
            else: toks.append(('cv',t,args.pop(0)))
        n=sum(len(t[1]) for t in toks if t[0]=='lit'); ln=n
        for t in toks:
            if t[0]=='cv': ln=iadd(ln,isym('len(%s)'%(t[2],)))
        st.log.append(('print',a[0],a[1],toks,ln)); return ln
    def sscanf(x,st,a,ins):
        ps=pieces(cstr(x,st,h.m,a[1])); args=list(a[2:]); k=sum(1 for e in st.log if e[0]=='scan'); conv=[t for c_,t in ps if c_=='cv']; nf=sum(1 for t in conv if t!='n')
        if len(args)!=len(conv): raise Undecided('sscanf arguments')
        if any(t=='n' for t in conv[:-1]) or not conv or conv[-1]!='n' or ps[-1]!=('cv','n'): pn=False
        else: pn=True
        full=decide(st,icmp('eq',isym('all fields found%d'%k),1))
        if not full:
            st.log.append(('scan',a[0],ps,False)); return isym('fields found%d'%k) if not st.assume(cand(icmp('le',-1,isym('fields found%d'%k)),icmp('lt',isym('fields found%d'%k),nf))) is False else 0
        for j,(t,p) in enumerate(zip(conv,args)):
            nm='scanned%d[%d]'%(k,j); t0=t.lstrip('0123456789')
            if t=='n': x.store(st,h.m,I32,isym('end%d'%k),p); st.assume(icmp('le',0,isym('end%d'%k)))
            elif t0 in('hd','hu','hi'): x.store(st,h.m,I16,isym(nm),p); st.assume(cand(icmp('le',0,isym(nm)),icmp('le',isym(nm),65535)))
            elif t0 in('d','u','i'): x.store(st,h.m,I32,isym(nm),p); st.assume(cand(icmp('le',-2**31,isym(nm)),icmp('lt',isym(nm),2**31)))
            elif t0 in('ld','lld','jd','lu','llu'): x.store(st,h.m,('int',64),isym(nm),p); st.assume(cand(icmp('le',-2**63,isym(nm)),icmp('lt',isym(nm),2**63)))
            elif t0 in('lf','lg','le'): x.store(st,h.m,D8,S.sym(nm),p)
            else: raise Undecided('sscanf conversion '+t)
        st.log.append(('scan',a[0],ps,True)); return nf
    def nop(x,st,a,ins): return 0
    h.ex.over.update({'strcmp':strcmp,'strncmp':strncmp,'strlen':strlen,'snprintf':snprintf,'__isoc99_sscanf':sscanf,'sscanf':sscanf,'fprintf':nop,'printf':nop,'__isoc23_sscanf':sscanf})
def exact(spec):
    """the conversion stores the number written, for every text of the field that it accepts, or saturates beyond 2^31 (never wraps)"""
    m=re.fullmatch(r'(\d*)(hh|h|ll|l|j)?([diu])',spec)
    if m:
        w=int(m.group(1) or 0); bits={'h':16,'hh':8,None:32}.get(m.group(2),64)
        if m.group(3)=='u': return False     # a sign is accepted and wraps
        return bits==64 or (0<w<=(9 if bits==32 else 4 if bits==16 else 2))
    return spec in('lf','lg','le')
def digits(spec,n):
    """the conversion can read an n-digit number"""
    m=re.match(r'\d+',spec); return not m or int(m.group())>=n
def prints(spec,real):
    """the printed text reads back as exactly the same number"""
    if real:
        m=re.fullmatch(r'\.(\d+)([gGeE])',spec); return bool(m) and (int(m.group(1))>=17 if m.group(2) in'gG' else int(m.group(1))>=16)
    return spec in('u','d','i','hu')
# ---------------------------------------------------------------- obligations
def full(m): return 'LENSMODEL_'+m
def name_tokens(st):
    ev=[e for e in st.log if e[0]=='print']
    if len(ev)!=1: raise Undecided('%d prints'%len(ev))
    return ev[0]
def merge(toks):
    r=[]
    for t in toks:
        if r and t[0]=='lit' and r[-1][0]=='lit': r[-1]=('lit',r[-1][1]+t[1])
        else: r.append(t)
    return [t for t in r if t!=('lit','')]
def model_obj(h,m,role='in'):
    cells={0:m if isinstance(m,int) else ENUM[m]}; pre=[]; want=[]
    for f in CFG.get(m,[]):
        if m=='CAHVORE': cells[OFF[m+'.'+f]]=S.sym(f); want.append(S.sym(f))
        else: cells[OFF[m+'.'+f]]=isym(f); pre.append(cand(icmp('le',0,isym(f)),icmp('le',isym(f),65535))); want.append(isym(f))
    p=h.fields('model',SIZE[0],cells,role); h.assume(*pre); return p,want
def finish(h,done,L,rs,fn):
    for k,st in enumerate(done):
        if st.viol: rs.append(Res('undecided',L+' path %d: memory safety and frame'%k,'engine',str(st.viol[0])[:300])); continue
        try: fn(k,st,lambda lab,ok,det='': rs.append(Res('proved' if ok else 'undecided','%s path %d: %s'%(L,k,lab),'engine, z3',det)))
        except Undecided as e: rs.append(Res('undecided','%s path %d'%(L,k),'engine',str(e)[:300]))
    if not done: rs.append(Res('undecided',L,'vacuity','no path returns'))
    return rs,h.ex.called,len(done)
PRINTED={}
def t_name(mods,m):
    L='mrcal_lensmodel_name<%s>'%m; h=direct.H(mods); lib(h); out=h.obj('out',None,'out'); mp,want=model_obj(h,m); size=isym('size'); h.assume(icmp('le',0,size),icmp('lt',size,2**31))
    done=h.call('mrcal_lensmodel_name',[out,size,mp])
    def chk(k,st,put):
        _,p,n,toks,ln=name_tokens(st); toks=merge(toks)
        put('one write of at most size bytes to out',p.obj==out.obj and p.off==0 and loops.iproves(st.path,icmp('eq',n,size)))
        lits=[full(m)]
        for f in CFG.get(m,[]): lits[-1]+='_%s='%f; lits.append('')
        exp=[]; it=iter(want)
        for j,l in enumerate(lits):
            if l: exp.append(('lit',l))
            if j<len(lits)-1: exp.append(('cv',next(it)))
        got=[('lit',t[1]) if t[0]=='lit' else ('cv',t[2]) for t in toks]
        ok=len(got)==len(exp) and all(a[0]==b[0] and (a[1]==b[1] if a[0]=='lit' or not hasattr(b[1],'op') else prove.pit([(S.R(a[1]),S.R(b[1]))],1)[0] is True) for a,b in zip(got,exp))
        put('the text is the name followed by _field=value of every field',ok,str(toks)[:300])
        for t in toks:
            if t[0]=='cv': put('field printed so that reading it gives the same value (%s)'%t[1],prints(t[1],m=='CAHVORE'))
        r=st.ret if not isinstance(st.ret,bool) else int(st.ret)
        fits=icmp('lt',ln,size)
        put('true exactly if the whole name fits in the buffer',(r==1 and loops.iproves(st.path,fits)) or (r==0 and loops.iproves(st.path,cnot(fits))) or (not isinstance(r,int) and r is not None and (r is fits or str(r)==str(fits))),str(r))
    return finish(h,done,L,[],chk)
def t_name_bad(mods):
    rs=[]; call=set(); n=0
    for v in [-4,-3,-2,-1,max(ENUM.values())+1,1000]:
        L='mrcal_lensmodel_name<invalid type %d>'%v; h=direct.H(mods); lib(h); out=h.obj('out',None,'out'); mp=h.fields('model',SIZE[0],{0:v},'in')
        r,c_,k=finish(h,h.call('mrcal_lensmodel_name',[out,100,mp]),L,[],lambda k,st,put: put('reports failure',st.ret in(0,False))); rs+=r; call|=c_; n+=k
        h=direct.H(mods); lib(h); mp=h.fields('model',SIZE[0],{0:v},'in')
        r,c_,k=finish(h,h.call('mrcal_lensmodel_name_unconfigured',[mp]),'mrcal_lensmodel_name_unconfigured<invalid type %d>'%v,[],lambda k,st,put: put('NULL',st.ret==NULL)); rs+=r; call|=c_
        h=direct.H(mods); lib(h); mp=h.fields('model',SIZE[0],{0:v},'in')
        r,c_,k=finish(h,h.call('mrcal_lensmodel_num_params',[mp]),'mrcal_lensmodel_num_params<invalid type %d>'%v,[],lambda k,st,put: put('negative',isinstance(st.ret,int) and S_i32(st.ret)<0)); rs+=r; call|=c_
    return rs,call,n
def S_i32(v): return v-2**32 if v>=2**31 else v
def unconf(m): return full(m)+''.join('_%s=...'%f for f in CFG.get(m,[]))
def t_info(mods,m):
    rs=[]; call=set(); n=0
    def run(f,chk,pre=None):
        nonlocal rs,call,n
        h=direct.H(mods); lib(h); mp,_=model_obj(h,m)
        if pre: h.assume(*pre)
        L='%s<%s>'%(f,m); r,c_,k=finish(h,h.call(f,[mp]),L,[],lambda k,st,put: chk(h,st,put)); rs+=r; call|=c_; n+=k
    run('mrcal_lensmodel_name_unconfigured',lambda h,st,put: put('the name with a template of every field',cstr(h.ex,st,h.m,st.ret)==unconf(m)))
    if m!='SPLINED_STEREOGRAPHIC': run('mrcal_lensmodel_num_params',lambda h,st,put: put('number of parameters',st.ret==PAR[m],str(st.ret)))
    else:
        Np=iadd(imul(2,imul(isym('Nx'),isym('Ny'))),4)
        run('mrcal_lensmodel_num_params',lambda h,st,put: put('number of parameters is 4+2 Nx Ny',loops.iproves(st.path,icmp('eq',st.ret,Np)),str(st.ret)),[icmp('le',Np,2**31-1)])
    bits=BIT['has_core']|BIT['has_gradients']|(BIT['can_project_behind_camera'] if m in BEHIND else 0)|(BIT['noncentral'] if m=='CAHVORE' else 0)
    run('mrcal_lensmodel_metadata',lambda h,st,put: put('metadata',(st.ret&15==bits) if isinstance(st.ret,int) else (isinstance(st.ret,KB) and st.ret.m&15==15 and st.ret.v&15==bits),str(st.ret)))
    return rs,call,n
def t_list(mods):
    L='mrcal_supported_lensmodel_names'; h=direct.H(mods); lib(h)
    def chk(k,st,put):
        got=[]
        for j in range(40):
            p=h.ex.load(st,h.m,('ptr',),Ptr(st.ret.obj,iadd(st.ret.off,8*j)))
            if p==NULL: break
            got.append(cstr(h.ex,st,h.m,p))
        put('lists exactly the supported models, ending with NULL',sorted(got)==sorted(unconf(m) for m in PAR) and p==NULL,str(got)[:300])
    return finish(h,h.call(L,[]),L,[],chk)
def nm(k): return isym('name[%d]'%k)
def starts(t,nul=False): return cand(*[icmp('eq',nm(k),b) for k,b in enumerate(list(t.encode())+([0] if nul else []))])
def t_from(mods,fname):
    """symbolic text of any length"""
    typ=fname=='mrcal_lensmodel_type_from_name'; h=direct.H(mods); lib(h); rs=[]
    def init(off,ty):
        if ty!=I8: raise Undecided('text read as %s'%(ty,))
        return nm(off) if isinstance(off,int) else isym('name[%s]'%(off,))
    name=h.obj('name',None,'in',init); out=None if typ else h.obj('model',SIZE[0],'out')
    def reader(x,st,o,off,ty):
        v=init(off,ty); st.assume(cand(icmp('le',-128,v),icmp('le',v,127))); return v
    h.st.mem[name.obj].init=reader
    done=h.call(fname,[name] if typ else [out,name])
    seen=set()
    def outs(st): return None if typ else h.ex.load(st,h.m,I32,Ptr(out.obj,0))
    def chk(k,st,put):
        P=lambda c_: loops.iproves(st.path,c_)
        if not loops.iconsistent(st.path): return
        ret=st.ret if typ else int(st.ret); ty=S_i32(ret) if typ else S_i32(outs(st)); scans=[e for e in st.log if e[0]=='scan']
        if typ or ret==0:
            if ty==INV['TYPE']:
                seen.add('unknown')
                put('unknown name: none of the supported names',all(P(cnot(starts(full(m),True))) for m in PAR) and all(P(cnot(starts(full(m)+'_'))) for m in CFG)); return
        if not typ and ret==0:
            if ty==INV['MISSINGCONFIG']: seen.add('missing'); put('configuration missing',any(P(starts(full(m),True)) for m in CFG)); return
            if ty==INV['BADCONFIG']:
                m=[m for m in CFG if P(starts(full(m)+'_'))]; put('bad configuration: a configured name',len(m)==1); m=m[0]; seen.add('bad '+m)
                put('the configuration was scanned',len(scans)==1)
                if scans[0][3]:
                    bad=cnot(cand(icmp('eq',isym('name[%s]'%(iadd(len(full(m)),isym('end0')),)),0),*([cand(icmp('le',0,isym('scanned0[%d]'%j)),icmp('le',isym('scanned0[%d]'%j),65535)) for j in range(4)] if m!='CAHVORE' else [])))
                    put('rejected only for trailing text or a value out of range',P(bad),str(st.path[-3:])[:200])
                return
            put('documented error value',False,str(ty)); return
        mm=[m for m in PAR if ENUM[m]==ty]
        if not mm or (not typ and ret!=1): put('type returned',False,str((ret,ty))); return
        m=mm[0]
        if typ:
            put('type of the name',P(starts(full(m),True)) if m not in CFG else P(S.cor(starts(full(m),True),starts(full(m)+'_')))); seen.add(m+(' bare' if m in CFG and P(starts(full(m),True)) else '')); return
        seen.add(m)
        if m not in CFG: put('name is exactly that of the model',P(starts(full(m),True)) and not scans); return
        put('name of the model followed by _',P(starts(full(m)+'_'))); put('one complete scan of the configuration',len(scans)==1 and scans[0][3])
        _,p,ps,_=scans[0]; put('scanned from right after the name',p.obj==name.obj and p.off==len(full(m)))
        lit=[t for c_,t in ps if c_=='lit']; cv=[t for c_,t in ps if c_=='cv']
        put('fields in order, then the end',[c_ for c_,t in ps]==['lit','cv']*len(CFG[m])+['cv'] and lit==['_%s='%f for f in CFG[m]] and cv[-1]=='n',str(ps))
        for f,t in zip(CFG[m],cv): put('field %s is read without wrapping, over its whole range (%s)'%(f,t),exact(t) and (m=='CAHVORE' or digits(t,5)))
        put('nothing follows the configuration',P(icmp('eq',isym('name[%s]'%(iadd(len(full(m)),isym('end0')),)),0)))
        for j,f in enumerate(CFG[m]):
            v=h.ex.load(st,h.m,D8 if m=='CAHVORE' else I16,Ptr(out.obj,OFF[m+'.'+f])); s='scanned0[%d]'%j
            if m=='CAHVORE': put('field %s'%f,prove.pit([(S.R(v),S.sym(s))],1)[0] is True)
            else: put('field %s'%f,P(icmp('eq',v,isym(s))) and P(cand(icmp('le',0,isym(s)),icmp('le',isym(s),65535))))
    r=finish(h,done,fname,rs,chk)
    need={'unknown'}|set(PAR)|(set() if typ else {'missing','bad CAHVORE','bad SPLINED_STEREOGRAPHIC'})|({m+' bare' for m in CFG} if typ else set())
    rs.append(Res('proved' if need<=seen else 'undecided',fname+': every outcome occurs','engine',str(need-seen))); return r
def t_null(mods):
    h=direct.H(mods); lib(h); out=h.obj('model',SIZE[0],'out')
    r,c_,n=finish(h,h.call('mrcal_lensmodel_from_name',[out,NULL]),'mrcal_lensmodel_from_name<NULL>',[],lambda k,st,put: put('rejected as unknown',st.ret in(0,False) and S_i32(h.ex.load(st,h.m,I32,Ptr(out.obj,0)))==INV['TYPE']))
    h2=direct.H(mods); lib(h2)
    r2,c2,n2=finish(h2,h2.call('mrcal_lensmodel_type_from_name',[NULL]),'mrcal_lensmodel_type_from_name<NULL>',[],lambda k,st,put: put('unknown',S_i32(st.ret)==INV['TYPE']))
    return r+r2,c_|c2,n+n2
# ---------------------------------------------------------------- bounded
INTF=r'[ \t\n\v\f\r]*([+-]?\d{1,9})'; FLTF=r'[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)'
RX={'SPLINED_STEREOGRAPHIC':'_order='+INTF+'_Nx='+INTF+'_Ny='+INTF+'_fov_x_deg='+INTF,'CAHVORE':'_linearity='+FLTF}
def oracle(s):
    for m in PAR:
        if m not in CFG:
            if s==full(m): return 1,ENUM[m],()
            continue
        if s==full(m): return 0,INV['MISSINGCONFIG'],None
        if s.startswith(full(m)+'_'):
            g=re.fullmatch(RX[m],s[len(full(m)):])
            if not g: return 0,INV['BADCONFIG'],None
            v=tuple((float if m=='CAHVORE' else int)(x) for x in g.groups())
            if m!='CAHVORE' and not all(0<=x<=65535 for x in v): return 0,INV['BADCONFIG'],None
            return 1,ENUM[m],v
    return 0,INV['TYPE'],None
def otype(s):
    for m in PAR:
        if s==full(m) or (m in CFG and s.startswith(full(m)+'_')): return ENUM[m]
    return INV['TYPE']
def bounded(lib_,seed=1,n=1500):
    import struct
    R=random.Random(seed); cnt=0
    for f in ('mrcal_lensmodel_name','mrcal_lensmodel_from_name'): getattr(lib_,f).restype=ctypes.c_bool
    lib_.mrcal_lensmodel_name_unconfigured.restype=ctypes.c_char_p; lib_.mrcal_supported_lensmodel_names.restype=ctypes.POINTER(ctypes.c_char_p); lib_.mrcal_lensmodel_metadata.restype=ctypes.c_uint8
    inv={v:k for k,v in ENUM.items()}
    def fields(b,m): return tuple(struct.unpack_from('<d' if m=='CAHVORE' else '<H',b,OFF[m+'.'+f])[0] for f in CFG.get(m,[]))
    def mk(m,v):
        b=ctypes.create_string_buffer(SIZE[0]); struct.pack_into('<i',b,0,ENUM[m])
        for f,x in zip(CFG.get(m,[]),v): struct.pack_into('<d' if m=='CAHVORE' else '<H',b,OFF[m+'.'+f],x)
        return b
    def rnd(m):
        if m=='CAHVORE': return (R.choice([0.,1.,-.5,.1,1/3,R.uniform(-2,2),1e-7*R.random(),12345.678901234]),)
        return tuple(R.choice([0,1,3,65535,R.randrange(65536),R.randrange(100)]) for _ in CFG.get(m,[]))
    names=[]; p=lib_.mrcal_supported_lensmodel_names(); j=0
    while p[j] is not None and j<40: names.append(p[j].decode()); j+=1
    if sorted(names)!=sorted(map(unconf,PAR)): return 1,({},'list of supported models',names,sorted(map(unconf,PAR)))
    for k in range(n):
        m=list(PAR)[k%len(PAR)]; v=rnd(m); b=mk(m,v); env={'model':m,'configuration':v}; buf=ctypes.create_string_buffer(b'\xee'*300,300); cnt+=1
        if lib_.mrcal_lensmodel_name_unconfigured(b)!=unconf(m).encode(): return cnt,(env,'unconfigured name',str(lib_.mrcal_lensmodel_name_unconfigured(b)),unconf(m))
        if not lib_.mrcal_lensmodel_name(buf,250,b): return cnt,(env,'name fits',False,True)
        s=buf.value.decode(); env['name']=s; b2=ctypes.create_string_buffer(b'\x55'*SIZE[0],SIZE[0])
        if not lib_.mrcal_lensmodel_from_name(b2,s.encode()): return cnt,(env,'the name is accepted',False,True)
        g=(inv.get(struct.unpack_from('<i',b2,0)[0]),fields(b2,m))
        if g!=(m,v): return cnt,(env,'round trip',g,(m,v))
        z=R.choice([0,1,len(s)-1,len(s),len(s)+1,len(s)+2]); bf=ctypes.create_string_buffer(b'\xee'*300,300); ok=lib_.mrcal_lensmodel_name(bf,z,b)
        if bool(ok)!=(z>len(s)) or bf.raw[max(z,0):]!=b'\xee'*(300-max(z,0)) or (ok and bf.value.decode()!=s): return cnt,(dict(env,size=z),'buffer of given size',bool(ok),z>len(s))
        if m!='SPLINED_STEREOGRAPHIC' or 2*v[1]*v[2]+4<2**31:
            w=PAR[m] if PAR[m] is not None else 4+2*v[1]*v[2]; g=lib_.mrcal_lensmodel_num_params(b)
            if g!=w: return cnt,(env,'number of parameters',g,w)
        w=BIT['has_core']|BIT['has_gradients']|(BIT['can_project_behind_camera'] if m in BEHIND else 0)|(BIT['noncentral'] if m=='CAHVORE' else 0); g=lib_.mrcal_lensmodel_metadata(b)&15
        if g!=w: return cnt,(env,'metadata',g,w)
        # mutated names
        q=s; mu=k%7
        if mu==0: q=s+R.choice(['_','x',' ','_Nx=3','0','\n'])
        if mu==1: q=s[:R.randrange(len(s)+1)]
        if mu==2: i=R.randrange(len(s)); q=s[:i]+R.choice('_=xX01 -+.')+s[i+1:]
        if mu==3: q=re.sub(r'=-?[\d.e-]+',lambda g: '='+R.choice(['70000','-1','65536','65535','00012',' 7','+8','','x','1e3','99999999999999999999','4294967299']),s,count=R.choice([1,2,0]))
        if mu==4: q=R.choice(['',' ']) + R.choice(['lensmodel_pinhole','PINHOLE','LENSMODEL_','LENSMODEL_OPENCV','LENSMODEL_OPENCV44','LENSMODEL_CAHVOR_','LENSMODEL_CAHVORE','LENSMODEL_CAHVORE_','LENSMODEL_CAHVOREX','LENSMODEL_SPLINED_STEREOGRAPHIC','LENSMODEL_SPLINED_STEREOGRAPHIC_','LENSMODEL_PINHOLE_','LENSMODEL_SPLINED'])
        if mu==5: q=s.replace('_Ny','_Nz').replace('linearity','Linearity').replace('_PIN','_pin')
        want=oracle(q)
        if '\0' in q: continue
        b3=ctypes.create_string_buffer(b'\x55'*SIZE[0],SIZE[0]); ok=int(lib_.mrcal_lensmodel_from_name(b3,q.encode())); ty=struct.unpack_from('<i',b3,0)[0]; env={'name':q}; cnt+=1
        got=(ok,ty,fields(b3,inv[ty]) if ok and ty in inv else None)
        if want[1]==ENUM['CAHVORE'] and want[0]==1 and got[:2]==want[:2] and got[2]==want[2]: pass
        elif got!=want: return cnt,(env,'name parsed',got,want)
        g=lib_.mrcal_lensmodel_type_from_name(q.encode())
        if g!=otype(q): return cnt,(env,'type of the name',g,otype(q))
    if lib_.mrcal_lensmodel_from_name(b3,None) or struct.unpack_from('<i',b3,0)[0]!=INV['TYPE']: return cnt,({'name':None},'NULL name',True,False)
    return cnt,None
def tasks(thorough):
    probe(); mods=build.modules(['mrcal.c']); L=C.load_lib(); out=[]
    for m in PAR: out+=[Task('mrcal_lensmodel_name<%s>'%m,lambda m=m: t_name(mods,m)),Task('parameters, metadata, template<%s>'%m,lambda m=m: t_info(mods,m))]
    out+=[Task('invalid types',lambda: t_name_bad(mods)),Task('supported names',lambda: t_list(mods)),Task('NULL names',lambda: t_null(mods))]
    out+=[Task(f,lambda f=f: t_from(mods,f)) for f in('mrcal_lensmodel_from_name','mrcal_lensmodel_type_from_name')]
    for t in out: t.fallback=lambda: bounded(L,report.SEED)
    return out
