"""C19: pixel access and cropping (image.h), pixel conversions (image.c), color maps (stereo.c)."""
import sym as S, build, contract as C, report, prove, direct, loops, execu, ctypes, os, numpy as np
from report import Task
from contract import Res, Undecided
from execu import Obj, Ptr, NULL
from sym import isym, icmp, iadd, imul, cand, cnot, rcmp
I64=('int',64); I32=('int',32); I16=('int',16); I8=('int',8); D8=('double',); F4=('float',)
TYPES=[('uint8','uint8_t',1),('uint16','uint16_t',2),('bgr','mrcal_bgr_t',3),('int8','int8_t',1),('int16','int16_t',2),('int32','int32_t',4),('uint32','uint32_t',4),('int64','int64_t',8),('uint64','uint64_t',8),('float','float',4),('double','double',8)]
def wrap_src():
    t='#include "image.h"\n'
    for n,T,_ in TYPES:
        t+='''void* w_at_%s(mrcal_image_%s_t* im,int x,int y){ return (void*)mrcal_image_%s_at(im,x,y); }
const void* w_at_const_%s(const mrcal_image_%s_t* im,int x,int y){ return (const void*)mrcal_image_%s_at_const(im,x,y); }
void w_crop_%s(mrcal_image_%s_t* out,mrcal_image_%s_t* im,int x0,int y0,int w,int h){ *out=mrcal_image_%s_crop(im,x0,y0,w,h); }
'''%((n,)*10)
    return t
def wrap_c():
    p=build.scratch()+'/image_wrap.c'
    if not os.path.exists(p): open(p,'w').write(wrap_src())
    return p
W_,H_,ST=isym('w'),isym('h'),isym('stride')
def run_access(mods,fn,n,sz,thorough):
    """pixel (x,y) is sizeof(T)*x + stride*y bytes from the data, for every stride (rows may be padded to any number of bytes)"""
    rs=[]; h=direct.H(mods); x,y=isym('x'),isym('y'); lim=2**31-1
    data=h.obj('data',None,'inout'); im=h.fields('image',24,{0:W_,4:H_,8:ST,16:data})
    h.assume(*[c for v in(x,W_) for c in(icmp('le',0,v),icmp('le',v,65535))]+[c for v in(y,H_) for c in(icmp('le',0,v),icmp('le',v,65535))]+[icmp('le',0,ST),icmp('le',ST,lim)])
    L='mrcal_image_%s_%s'%(n,fn)
    if fn=='crop':
        w2,h2=isym('w2'),isym('h2'); out=h.obj('out',24,'out')
        done=h.call('w_crop_'+n,[out,im,x,y,w2,h2])
    else: done=h.call('w_%s_%s'%(fn,n),[im,x,y])
    want=iadd(imul(x,sz),imul(y,ST))
    for st in done:
        if st.viol: rs.append(Res('undecided',L+': memory safety','engine',str(st.viol[0])[:200])); continue
        if fn=='crop':
            p=h.rd(st,'out',16,('ptr',)); g=[h.rd(st,'out',o,I32) for o in(0,4,8)]
            rs.append(Res('proved' if g==[w2,h2,ST] else 'undecided',L+': size and stride of the crop','engine',str(g)))
        else: p=st.ret
        ok=isinstance(p,Ptr) and p.obj==data.obj and p.off==want
        rs.append(Res('proved' if ok else 'undecided',L+': address of pixel (x,y)','engine',str(p)))
        rs.append(Res('proved' if not st.o(data.obj).cells else 'undecided',L+': the image is not touched','engine'))
    if fn=='crop':
        # a pixel of the crop is the pixel of the image at the offset position: stays inside when the rectangle does
        import z3
        a,b,X,Y,s=z3.Ints('a b X Y s'); w,hh,w3,h3,xx,yy=z3.Ints('w h w2 h2 x y'); sv=z3.Solver(); sv.set('timeout',10000)
        sv.add((sz*xx+s*yy)+(sz*a+s*b)!=sz*(xx+a)+s*(yy+b)); rs.append(Res('proved' if sv.check()==z3.unsat else 'undecided',L+': pixel (a,b) of the crop is pixel (x0+a,y0+b) of the image','z3'))
    if not rs: rs.append(Res('undecided',L,'vacuity','no path'))
    return rs,h.ex.called,len(done)
def run_swap(mods,w,hgt):
    """bgr_tofrom_rgb: swaps channels 0 and 2 of every pixel, and nothing else"""
    h=direct.H(mods); L='bgr_tofrom_rgb<%dx%d>'%(w,hgt); st_=3*w+5; rs=[]
    data=h.obj('data',None,'inout',lambda off,ty: isym('byte%s'%off)); im=h.fields('image',24,{0:w,4:hgt,8:st_,16:data})
    done=h.call('bgr_tofrom_rgb',[im])
    for st in done:
        if st.viol: rs.append(Res('undecided',L+': memory safety','engine',str(st.viol[0])[:200])); continue
        good=all(h.rd(st,'data',y*st_+3*x+c,I8)==isym('byte%d'%(y*st_+3*x+2-c)) for y in range(hgt) for x in range(w) for c in range(3))
        inside={y*st_+b for y in range(hgt) for b in range(3*w)}
        rs.append(Res('bounded' if good else 'undecided',L+': channels swapped','engine')); rs.append(Res('bounded' if set(st.o(data.obj).cells)<=inside else 'undecided',L+': only the pixels are touched','engine'))
    if not rs: rs.append(Res('undecided',L,'vacuity','no path'))
    return rs,h.ex.called,len(done)
def minmax_cases(vals,lo0=None,hi0=None): pass
def run_color(mods,Tn,isint,automin,automax,autof,w=2,hgt=1,size=8):
    """mrcal_apply_color_map_T: what each pixel maps to, for arbitrary pixel values"""
    L='mrcal_apply_color_map_%s<%s%s%s,%dx%d>'%(Tn,'auto min,' if automin else '','auto max,' if automax else '','default functions' if autof else 'given functions',w,hgt); rs=[]
    sz={'uint8':1,'double':8,'float':4,'int32':4,'uint16':2,'int16':2}[Tn]; ty=D8 if Tn=='double' else F4 if Tn=='float' else ('int',8*sz)
    def V(i): return isym('v%d'%i) if isint else S.sym('v%d'%i)
    rng={'uint8':(0,255),'uint16':(0,65535),'int16':(-32768,32767),'int32':(-2**31,2**31-1)}.get(Tn)
    istr=w*sz+(sz if w>1 else 0); ostr=3*w+2; calls=[]
    def o_formula(x,st,a,ins):
        st.log.append((a[0],a[1],a[2])); return 1
    h=direct.H(mods,over={'gnuplot_color_formula':o_formula})
    def init(off,t):
        y,r=divmod(off,istr); return V(y*w+r//sz)
    din=h.obj('in_data',None,'in',init); dout=h.obj('out_data',None,'inout')
    iin=h.fields('in',24,{0:w,4:hgt,8:istr,16:din}); iout=h.fields('out',24,{0:w,4:hgt,8:ostr,16:dout})
    mn,mx=(isym('in_min'),isym('in_max')) if isint else (S.sym('in_min'),S.sym('in_max'))
    allv=[V(i) for i in range(w*hgt)]
    if rng: h.assume(*[c for v in allv+[mn,mx] for c in(icmp('le',rng[0],v),icmp('le',v,rng[1]))])
    else:
        big=S.const((2-2**-23)*2.**127) if Tn=='float' else S.const(S.Fraction(1.7976931348623157e308)) if hasattr(S,'Fraction') else S.const(1.7976931348623157e308)
        h.assume(*[c for v in allv for c in(rcmp('le',S.neg(big),v),rcmp('le',v,big))])
    fr,fg,fb=isym('fr'),isym('fg'),isym('fb')
    done=h.call('mrcal_apply_color_map_'+Tn,[iout,iin,int(automin),int(automax),int(autof),mn,mx,fr,fg,fb])
    fs=(7,5,15) if autof else (fr,fg,fb); R=S.R
    import cases as CA
    for k,st in enumerate(done):
        pl='%s path %d: '%(L,k)
        if st.viol: rs.append(Res('undecided',pl+'memory safety','engine',str(st.viol[0])[:200])); continue
        cond=[c for c in st.path if c is not True]; chk=lambda g: CA.implied(realall(cond),g,timeout=5000)
        if CA.implied(realall(cond),False if False else S.cnot(True),timeout=3000): continue
        good=st.ret in(1,True) and len(st.log)==3*w*hgt
        rs.append(Res('proved' if good else 'undecided',pl+'three channels per pixel','engine',str(len(st.log))))
        if not good: continue
        lo=None; hi=None
        if automin: lo=[i for i in range(w*hgt) if all(i==j or chk(rcmp('le',R(allv[i]),R(allv[j]))) for j in range(w*hgt))]
        if automax: hi=[i for i in range(w*hgt) if all(i==j or chk(rcmp('le',R(allv[j]),R(allv[i]))) for j in range(w*hgt))]
        if (automin and not lo) or (automax and not hi): rs.append(Res('undecided',pl+'minimum and maximum of the image','z3')); continue
        MN=R(allv[lo[0]]) if automin else R(mn); MX=R(allv[hi[0]]) if automax else R(mx)
        for i in range(w*hgt):
            y,x=divmod(i,w)
            for c in range(3):
                p,f,v=st.log[3*i+c]; ch=p.off-(y*ostr+3*x) if isinstance(p,Ptr) and p.obj==dout.obj and isinstance(p.off,int) else None
                okc=ch in(0,1,2) and f==fs[2-ch]
                e=R(allv[i]); v=R(v)
                if v is S.ZERO: okv=chk(rcmp('le',e,MN))
                elif v is S.ONE: okv=chk(cand(rcmp('le',MX,e),rcmp('lt',MN,e)))
                else: okv=prove.pit([(v*(MX-MN),e-MN)],1)[0] is True and chk(cand(rcmp('lt',MN,e),rcmp('lt',e,MX)))
                rs.append(Res('proved' if okc and okv else 'undecided','%spixel %d, call %d: position in the range, channel and function'%(pl,i,c),'pit, z3',str((ch,f,S.show(v)[:100]))))
            if {st.log[3*i+c][0].off for c in range(3)}!={y*ostr+3*x+c for c in range(3)}: rs.append(Res('undecided',pl+'every channel of pixel %d is set'%i,'engine'))
    if not rs: rs.append(Res('undecided',L,'vacuity','no path'))
    return rs,h.ex.called,len(done)
def realall(cs):
    """integer comparisons as comparisons of reals"""
    out=[]
    for c in cs:
        out.append(rall(c))
    return out
def rall(c):
    if isinstance(c,bool) or not hasattr(c,'op'): return c
    if c.op=='i<': return rcmp('le',S.i2r(c.a)+S.ONE,S.ZERO)
    if c.op=='i<=': return rcmp('le',S.i2r(c.a),S.ZERO)
    if c.op=='i==': return rcmp('eq',S.i2r(c.a),S.ZERO)
    if c.op=='not':
        a=c.a[0]
        if a.op=='i<': return rcmp('le',S.ZERO,S.i2r(a.a))
        if a.op=='i<=': return rcmp('le',S.ONE,S.i2r(a.a))
        return cnot(rall(a))
    if c.op=='and': return cand(*[rall(x) for x in c.a])
    if c.op=='or': return S.cor(*[rall(x) for x in c.a])
    return c
def run_stretch(mods,w,hgt):
    """a 16-bit image loaded as 8-bit: the darkest pixel maps to 0, the brightest to 255, linearly, rounded"""
    L='stretch_equalization_uint8_from_uint16<%dx%d>'%(w,hgt); rs=[]; n=w*hgt; istr=2*w+2; ostr=w+1
    V=[isym('v%d'%i) for i in range(n)]; h=direct.H(mods)
    def init(off,t):
        y,r=divmod(off,istr); return V[y*w+r//2]
    din=h.obj('in_data',None,'in',init); dout=h.obj('out_data',None,'inout')
    iin=h.fields('in',24,{0:w,4:hgt,8:istr,16:din}); iout=h.fields('out',24,{0:w,4:hgt,8:ostr,16:dout})
    h.assume(*[c for v in V for c in(icmp('le',0,v),icmp('le',v,65535))])
    done=h.call('stretch_equalization_uint8_from_uint16',[iout,iin])
    import cases as CA
    for k,st in enumerate(done):
        pl='%s path %d: '%(L,k)
        if st.viol: rs.append(Res('undecided',pl+'memory safety','engine',str(st.viol[0])[:200])); continue
        cond=[c for c in st.path if c is not True]
        if not loops.iconsistent(cond): continue
        ip=lambda g: loops.iproves(cond,g)
        lo=[i for i in range(n) if all(i==j or ip(icmp('le',V[i],V[j])) for j in range(n))]; hi=[i for i in range(n) if all(i==j or ip(icmp('le',V[j],V[i])) for j in range(n))]
        if not lo or not hi: rs.append(Res('undecided',pl+'minimum and maximum','z3')); continue
        const=ip(icmp('eq',V[lo[0]],V[hi[0]])); off=set(st.o(dout.obj).cells)
        rs.append(Res('bounded' if off=={y*ostr+x for y in range(hgt) for x in range(w)} else 'undecided',pl+'exactly the pixels are written','engine'))
        m={}
        for i in range(n):
            for j in range(i):
                if ip(icmp('eq',V[i],V[j])): m[S.R(V[i])]=S.R(V[j]); break
        for i in range(n):
            for cv in(0,65535):
                if ip(icmp('eq',V[i],cv)): m[S.R(V[i])]=S.const(cv)
        sub=lambda e: S.subst([e],m)[0] if m else e
        for i in range(n):
            y,x=divmod(i,w); v=h.rd(st,'out_data',y*ostr+x,I8)
            half=S.div(S.ONE,S.const(2))
            if isinstance(v,int): good=v==0 and ip(icmp('eq',V[i],V[lo[0]])) or v in(255,-1) and not const and ip(icmp('eq',V[i],V[hi[0]]))
            elif const: good=prove.pit([(sub(pre(v)),half)],1)[0] is True
            else: good=prove.pit([(sub((pre(v)-half)*(S.R(V[hi[0]])-S.R(V[lo[0]]))),sub((S.R(V[i])-S.R(V[lo[0]]))*S.const(255)))],1)[0] is True
            rs.append(Res('bounded' if good else 'undecided',pl+'pixel %d'%i,'pit',str(v)[:200]))
    if not rs: rs.append(Res('undecided',L,'vacuity','no path'))
    return rs,h.ex.called,len(done)
def pre(v):
    """the real number whose conversion to an integer v is"""
    (at,)=S.iatoms(v)
    while at not in S.FTOI:
        if isinstance(at,tuple) and len(at)==2 and str(at[0]).startswith(('trunc','zext')): 
            (at,)=S.iatoms(at[1])
        else: raise Undecided('not a converted real: %s'%(at,))
    return S.FTOI[at]
# ---------------------------------------------------------------- bounded: the compiled code
class Im(ctypes.Structure): _fields_=[('w',ctypes.c_int),('h',ctypes.c_int),('stride',ctypes.c_int),('data',ctypes.c_void_p)]
def mk(a,stride,itemsize):
    """an Im over a fresh buffer with rows of the given stride; a: (h,w) or (h,w,3)"""
    h,w=a.shape[:2]; b=np.full(h*stride+16,0xA5,np.uint8); row=w*itemsize
    for y in range(h): b[y*stride:y*stride+row]=np.ascontiguousarray(a[y]).view(np.uint8).ravel()
    return Im(w,h,stride,b.ctypes.data),b
def rdback(im,dt,ch=1):
    n=im.stride*im.h; b=np.ctypeslib.as_array(ctypes.cast(im.data,ctypes.POINTER(ctypes.c_uint8)),(n,)).copy(); it=np.dtype(dt).itemsize
    r=np.stack([b[y*im.stride:y*im.stride+im.w*it*ch].view(dt) for y in range(im.h)]); return r.reshape(im.h,im.w,ch) if ch>1 else r
def formula(f,x):
    if f<0: x,f=1-x,-f
    pi=np.pi; a=np.abs; s,c=np.sin,np.cos
    T={0:lambda:0*x,1:lambda:.5+0*x,2:lambda:1+0*x,3:lambda:x,4:lambda:x**2,5:lambda:x**3,6:lambda:x**4,7:lambda:np.sqrt(x),8:lambda:x**.25,9:lambda:s(pi/2*x),10:lambda:c(pi/2*x),11:lambda:a(x-.5),12:lambda:(2*x-1)**2,13:lambda:s(pi*x),14:lambda:a(c(pi*x)),
       15:lambda:s(2*pi*x),16:lambda:c(2*pi*x),17:lambda:a(s(2*pi*x)),18:lambda:a(c(2*pi*x)),19:lambda:a(s(4*pi*x)),20:lambda:a(c(4*pi*x)),21:lambda:3*x,22:lambda:3*x-1,23:lambda:3*x-2,24:lambda:a(3*x-1),25:lambda:a(3*x-2),26:lambda:(3*x-1)/2,27:lambda:(3*x-2)/2,28:lambda:a((3*x-1)/2),29:lambda:a((3*x-2)/2),
       30:lambda:np.where(x<=.25,0,np.where(x>=.57,1,x/.32-.78125)),31:lambda:np.where(x<=.42,0,np.where(x>=.92,1,2*x-.84)),32:lambda:np.where(x<=.42,4*x,np.where(x<=.92,-2*x+1.84,x/.08-11.5)),33:lambda:a(2*x-.5),34:lambda:2*x,35:lambda:2*x-.5,36:lambda:2*x-1}
    return np.clip(T[f](),0,1)
def bounded(lib,seed=1,n=250):
    rng=np.random.default_rng(seed); cnt=0; d=build.scratch()+'/img%d'%os.getpid(); os.makedirs(d,exist_ok=True); B=ctypes.byref
    for nme,T,sz in TYPES:
        at,atc,crop=getattr(lib,'w_at_'+nme),getattr(lib,'w_at_const_'+nme),getattr(lib,'w_crop_'+nme); at.restype=atc.restype=ctypes.c_void_p
        for k in range(40):
            w,h=int(rng.integers(1,30)),int(rng.integers(1,30)); st=w*sz+int(rng.integers(0,9))*int(rng.choice([1,sz])); im=Im(w,h,st,1<<40)
            if k%10==0: im=Im(60000,60000,60000*sz,1<<40); w,h,st=60000,60000,60000*sz
            x,y=int(rng.integers(0,w)),int(rng.integers(0,h)); want=(1<<40)+y*st+x*sz; env={'type':nme,'w':w,'h':h,'stride':st,'x':x,'y':y}; cnt+=3
            for f,l in((at,'at'),(atc,'at_const')):
                g=f(B(im),x,y)
                if g!=want: return cnt,(env,'mrcal_image_%s_%s: offset of the pixel'%(nme,l),g-(1<<40),want-(1<<40))
            o=Im(); cw,ch=int(rng.integers(0,w-x+1)),int(rng.integers(0,h-y+1)); crop(B(o),B(im),x,y,cw,ch)
            if (o.w,o.h,o.stride,o.data)!=(cw,ch,st,want): return cnt,(dict(env,cw=cw,ch=ch),'mrcal_image_%s_crop'%nme,(o.w,o.h,o.stride,(o.data or 0)-(1<<40)),(cw,ch,st,want-(1<<40)))
    B1=lib.mrcal_image_uint8_save; 
    for nm_ in('uint8','uint16','bgr'):
        for f in('save','load'): getattr(lib,'mrcal_image_%s_%s'%(nm_,f)).restype=ctypes.c_bool
    lib.mrcal_image_anytype_load.restype=ctypes.c_bool; dn=os.open(os.devnull,os.O_WRONLY); free=ctypes.CDLL(None).free; free.argtypes=[ctypes.c_void_p]
    for k in range(120):
        nme,exts,dt,ch,pad=[('uint8',('png','pgm','PNG'),np.uint8,1,int(rng.integers(0,6))),('uint16',('png',),np.uint16,1,2*int(rng.integers(0,4))),('bgr',('png','ppm'),np.uint8,3,int(rng.integers(0,6)))][k%3]
        w,h=int(rng.integers(1,20)),int(rng.integers(1,20)); a=rng.integers(0,256 if dt==np.uint8 else 65536,(h,w,3) if ch==3 else (h,w)).astype(dt); it=np.dtype(dt).itemsize*ch; im,b=mk(a,w*it+pad,it); b0=b.copy(); ext=str(rng.choice(exts)); fn=(d+'/im.'+ext).encode()
        ok=getattr(lib,'mrcal_image_%s_save'%nme)(fn,B(im)); env={'type':nme,'format':ext,'w':w,'h':h,'row padding':pad,'image':a.tolist()}; cnt+=1
        if not ok: return cnt,(env,'save',bool(ok),True)
        if not np.array_equal(b,b0): return cnt,(env,'saving changed the image',None,None)
        o=Im(); ok=getattr(lib,'mrcal_image_%s_load'%nme)(B(o),fn)
        if not ok or (o.w,o.h)!=(w,h): return cnt,(env,'load',(bool(ok),o.w,o.h),(True,w,h))
        g=rdback(o,dt,ch); free(o.data)
        if not np.array_equal(g,a): return cnt,(env,'pixels of the loaded image',g.tolist(),a.tolist())
        o=Im(); bpp,chn=ctypes.c_int(0),ctypes.c_int(0); ok=lib.mrcal_image_anytype_load(B(o),B(bpp),B(chn),fn)
        if not ok or (bpp.value,chn.value)!=(8*it,ch): return cnt,(env,'anytype load',(bool(ok),bpp.value,chn.value),(True,8*it,ch))
        g=rdback(o,dt,ch); free(o.data)
        if not np.array_equal(g,a): return cnt,(env,'pixels of the loaded image (any type)',g.tolist(),a.tolist())
        if nme=='uint16':
            o=Im(); ok=lib.mrcal_image_uint8_load(B(o),fn)
            if not ok or (o.w,o.h)!=(w,h) or not o.data: return cnt,(env,'16-bit image loaded as 8-bit',(bool(ok),o.w,o.h),(True,w,h))
            g=rdback(o,np.uint8); free(o.data); A=a.astype(float); r=A.max()-A.min(); wv=(A-A.min())*255/r if r else 0*A
            if not ok or np.abs(g-wv).max()>.5+1e-3: return cnt,(env,'16-bit image loaded as 8-bit',g.tolist(),np.round(wv).tolist())
            err=os.dup(2); os.dup2(dn,2); ok=lib.mrcal_image_bgr_load(B(o),fn); os.dup2(err,2); os.close(err)
            if ok: return cnt,(env,'a 16-bit image is not loaded as a color image',True,False)
    for f in range(-36,37):
        for nme,T,dt in(('double','double',np.float64),('float','float',np.float32)):
            x=np.linspace(0,1,41).astype(dt); x=x+0; im,b=mk((x*7-9).reshape(1,-1),x.nbytes,x.itemsize); o,ob=mk(np.zeros((1,41,3),np.uint8),41*3+2,3)
            F=getattr(lib,'mrcal_apply_color_map_'+nme); F.restype=ctypes.c_bool; cf=ctypes.c_double if nme=='double' else ctypes.c_float
            ok=F(B(o),B(im),True,True,False,cf(0),cf(0),f,3,-3); g=rdback(o,np.uint8,3)[0]; cnt+=123
            for c,ff in((2,f),(1,3),(0,-3)):
                w=255*formula(ff,x.astype(float)); e=np.abs(g[:,c]-w)
                if f in(30,31,32,-30,-31,-32): e=np.minimum(e,0*e+.5) if False else e
                if not ok or (e>.51).sum()>(2 if ff in(30,31,32,-30,-31,-32) else 0): 
                    j=int(np.argmax(e)); return cnt,({'formula':ff,'x':float(x[j]),'type':nme},'mrcal_apply_color_map_%s: color of a pixel'%nme,int(g[j,c]),float(w[j]))
    for k in range(n):
        nme,T,sz=[t for t in TYPES if t[0]!='bgr'][k%10]; dt=np.dtype(nme if nme not in('float','double') else {'float':'f4','double':'f8'}[nme]); w,h=int(rng.integers(1,7)),int(rng.integers(1,5))
        if dt.kind in'iu':
            ii=np.iinfo(dt); lo,hi=[(ii.min,ii.max),(0,50),(ii.min,ii.min+9),(ii.max-9,ii.max)][k//10%4]; a=rng.integers(lo,hi,(h,w),endpoint=True,dtype=dt)
        else: a=(rng.uniform(-1,1,(h,w))*10.**rng.integers(-3,30)+rng.choice([0,-5,5])).astype(dt)
        am,ax=bool(k&1) if k%4 else True,bool(k&2) if k%4 else True; mn,mx=sorted([a.ravel()[0],a.ravel()[-1]]) ; mn=a.min() if am else mn; mx=a.max() if ax else mx
        im,b=mk(a,w*sz+sz*int(rng.integers(0,3)),sz); o,ob=mk(np.zeros((h,w,3),np.uint8),3*w+int(rng.integers(0,4)),3)
        F=getattr(lib,'mrcal_apply_color_map_'+nme); F.restype=ctypes.c_bool; cf=getattr(ctypes,'c_'+nme); z=0
        ok=F(B(o),B(im),am,ax,False,cf(z if am else mn.item()),cf(z if ax else mx.item()),3,-3,4); g=rdback(o,np.uint8,3).astype(float)
        A=[[int(v) if dt.kind in'iu' else float(v) for v in r] for r in a]; M,X=(int(mn),int(mx)) if dt.kind in'iu' else (float(mn),float(mx)); cnt+=1
        for y in range(h):
            for x in range(w):
                v=A[y][x]; t=0. if v<=M else 1. if v>=X else (v-M)/(X-M)
                for c,wv in((2,255*t),(1,255*(1-t)),(0,255*t*t)):
                    if not ok or abs(g[y,x,c]-wv)>.52: return cnt,({'type':nme,'image':a.tolist(),'auto_min':am,'auto_max':ax,'min':M,'max':X,'pixel':[x,y],'channel':c},'mrcal_apply_color_map_%s: color of a pixel'%nme,float(g[y,x,c]),wv)
    return cnt,None
def tasks(thorough):
    p=wrap_c(); mods=build.modules([(p,('-I'+build.gendir(),)),'image.c','stereo.c'])
    lib=ctypes.CDLL(build.replay_lib(extra_c=[p],tag='_img')); fb=lambda: bounded(lib,report.SEED); out=[]
    for n,T,sz in TYPES:
        for fn in('at','at_const','crop'): out.append(Task('mrcal_image_%s_%s'%(n,fn),lambda fn=fn,n=n,sz=sz: run_access(mods,fn,n,sz,thorough)))
    out.append(Task('bgr_tofrom_rgb<3x2>',lambda: run_swap(mods,3,2)))
    out.append(Task('stretch_equalization_uint8_from_uint16<3x1>',lambda: run_stretch(mods,3,1))); out.append(Task('stretch_equalization_uint8_from_uint16<1x2>',lambda: run_stretch(mods,1,2)))
    for Tn,isint in(('double',0),('float',0),('uint8',1),('uint16',1),('int16',1),('int32',1)):
        for am,ax,af in((1,1,1),(0,0,0),(1,0,1),(0,1,0)): out.append(Task('mrcal_apply_color_map_%s<%d%d%d>'%(Tn,am,ax,af),lambda Tn=Tn,i=isint,am=am,ax=ax,af=af: run_color(mods,Tn,i,am,ax,af)))
    def bt():
        k,v=bounded(lib,report.SEED,100)
        if v: raise Undecided('differs')
        return [Res('bounded','saved images load with the same pixels; color formulas','compiled code, %d comparisons'%k)],set(),0
    out.append(Task('image files and color formulas (bounded)',bt))
    for t in out: t.fallback=fb
    return out
