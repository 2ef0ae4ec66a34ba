"""Run by the system's Python with the package built from the current tree: writes and reads models with mrcal.cameramodel, and crosses
files with the C library.  Prints one line of JSON."""
import sys, os, json, random, io, ctypes, warnings
warnings.simplefilter('ignore')
here,scratch,libpath,off,seed,n=sys.argv[1:7]; off=json.loads(off); seed=int(seed); n=int(n)
sys.path.insert(0,here)
import numpy as np, cmfile_texts as T, mrcal
L=ctypes.CDLL(libpath); L.mrcal_read_cameramodel_string.restype=ctypes.c_void_p; L.mrcal_read_cameramodel_file.restype=ctypes.c_void_p; L.mrcal_write_cameramodel_file.restype=ctypes.c_bool; L.mrcal_lensmodel_from_name.restype=ctypes.c_bool
# stderr is not interesting
def bits(a): return (np.array(a,dtype=float)+0.).tobytes() # -0 and 0 are the same number
def cread(p,N):
    if not p: return None
    buf=ctypes.string_at(p,off['intrinsics']+8*N)
    nm=ctypes.create_string_buffer(1024); L.mrcal_lensmodel_name(nm,1024,ctypes.c_void_p(p+off['lensmodel']))
    r=(nm.value.decode(),bits(np.frombuffer(buf[off['intrinsics']:])),bits(np.frombuffer(buf[off['rt']:off['rt']+48])),list(np.frombuffer(buf[off['imagersize']:off['imagersize']+8],dtype=np.uint32)))
    q=ctypes.c_void_p(p); L.mrcal_free_cameramodel(ctypes.byref(q)); return r
def pread(m): return (m.intrinsics()[0],bits(m.intrinsics()[1]),bits(m.rt_cam_ref()),[int(x) for x in m.imagersize()])
def main():
    cnt=0; f=scratch+'/m.cameramodel'
    for it in range(n):
        rng=random.Random(seed*7919+it); m=T.M(rng,lm=T.LM[it%len(T.LM)] if it<len(T.LM) else None); N=len(m.intr)
        want=(m.lm,bits(m.intr),bits(m.rt),m.size)
        def e(what,text,got): return cnt,(dict(seed=seed,model=it,lensmodel=m.lm,intrinsics=m.intr[:20],rt_cam_ref=m.rt,imagersize=m.size,text=(text or '')[:3000]),what,repr(got)[:2000],repr(want)[:2000])
        # Python writer
        M=mrcal.cameramodel(intrinsics=(m.lm,np.array(m.intr)),imagersize=np.array(m.size) if rng.random()<.5 else m.size,rt_cam_ref=np.array(m.rt))
        if rng.random()<.3: M.valid_intrinsics_region(np.array([[10.123456789,20],[300,25.3],[310,.3],[1e-5,1],[10.123456789,20]]))
        for how in ('write','write note','file object','str'):
            if how=='write': M.write(f)
            elif how=='write note': M.write(f,note="a note\n with 'lensmodel': } [ two lines")
            elif how=='file object':
                with open(f,'w') as h: M.write(h)
            else:
                with open(f,'w') as h: h.write(str(M))
            text=open(f).read(); cnt+=1
            try:
                if how=='str': g=pread(mrcal.cameramodel(io.StringIO(text)))
                else: g=pread(mrcal.cameramodel(f))
            except Exception as x: g=repr(x)
            if g!=want: return e('Python writer (%s), Python reader'%how,text,g)
            for fn,arg in ((L.mrcal_read_cameramodel_file,(f.encode(),)),(L.mrcal_read_cameramodel_string,(text.encode(),0))):
                g=cread(fn(*arg),N); cnt+=1
                if g!=want: return e('Python writer (%s), C reader'%how,text,g)
        # C writer
        buf=ctypes.create_string_buffer(off['intrinsics']+8*N); ctypes.memmove(ctypes.addressof(buf)+off['intrinsics'],want[1],8*N); ctypes.memmove(ctypes.addressof(buf)+off['rt'],want[2],48); ctypes.memmove(ctypes.addressof(buf)+off['imagersize'],np.array(m.size,dtype=np.uint32).tobytes(),8)
        if not L.mrcal_lensmodel_from_name(ctypes.c_void_p(ctypes.addressof(buf)+off['lensmodel']),m.lm.encode()): continue
        if L.mrcal_write_cameramodel_file(f.encode(),buf):
            try: g=pread(mrcal.cameramodel(f))
            except Exception as x: g=repr(x)
            cnt+=1
            if g!=want: return e('C writer, Python reader',open(f).read(),g)
        # valid texts
        for _ in range(2):
            text=T.render(T.entries(m,rng.choice((repr,lambda v:'%.17g'%v,lambda v:'%.16e'%v))),rng,rng.random()<.7,rng.choice("'\"")); cnt+=1
            try: g=pread(mrcal.cameramodel(io.StringIO(text.lstrip())))
            except Exception as x: g=repr(x)
            if g!=want: return e('Python reader of a valid model',text,g)
        # malformed texts
        for _ in range(6):
            what,text=T.malformed(m,rng,'py')
            if not text.strip(): continue
            text=text.lstrip(' \t'); cnt+=1
            try: g=pread(mrcal.cameramodel(io.StringIO(text)))
            except Exception as x: continue
            return e('Python reader accepts a malformed model (%s)'%what,text,g)
    return cnt,None
r=main()
print('RESULT '+json.dumps(r))
