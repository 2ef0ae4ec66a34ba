"""Compiles what a check needs from /repo's current tracked sources into a scratch
directory that is removed at exit: LLVM IR (verified text) and, for replay, a
shared library of the same sources."""
import os, subprocess, tempfile, shutil, atexit, sys, threading
from concurrent.futures import ThreadPoolExecutor
import ir
REPO=os.environ.get('VERIF_REPO','/repo')
LLVM='/usr/lib/llvm-18/bin/'
_scratch=None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch=tempfile.mkdtemp(prefix='verif_')
        atexit.register(lambda: shutil.rmtree(_scratch,ignore_errors=True))
    return _scratch
class BuildError(Exception): pass
def sh(cmd,env=None,cwd=None,timeout=600):
    e=dict(os.environ); e['CPATH']='/usr/include/suitesparse'; e.update(env or {})
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=e,cwd=cwd,timeout=timeout)
    if r.returncode: raise BuildError(' '.join(cmd)+'\n'+r.stderr.decode()[-2000:])
    return r.stdout
_gen=None
_lock=threading.Lock()
def gendir():
    """generated headers/sources, made fresh from the tracked generators"""
    global _gen
    with _lock:
        if _gen is None:
            # a fresh mirror of the hand-written sources, with the generated files made
            # anew (stale build products in /repo are not looked at)
            d=scratch()+'/src'; os.makedirs(d+'/minimath',exist_ok=True)
            for sub in ('','minimath/'):
                for f in os.listdir(REPO+'/'+sub):
                    if f.endswith(('.c','.cc','.h','.hh','.re','.pl')) and 'GENERATED' not in f and 'generated' not in f and not f.endswith('.docstring.h'):
                        shutil.copy(REPO+'/'+sub+f,d+'/'+sub+f)
            h=sh(['perl',d+'/minimath/minimath_generate.pl'],cwd=d+'/minimath')
            open(d+'/minimath/minimath_generated.h','wb').write(h)
            if os.path.exists(d+'/cameramodel-parser.re'):
                sh(['re2c','cameramodel-parser.re','-o','cameramodel-parser_GENERATED.c'],cwd=d)
            _gen=d
    return _gen
def src(f):
    return gendir()+'/'+f
FLAGS=['-w','-O0','-g0','-Xclang','-disable-O0-optnone','-fno-discard-value-names','-ffp-contract=off','-fno-exceptions','-fPIC','-S','-emit-llvm']
def inc(): return ['-I'+gendir(),'-DMRBUILD_VERSION="x"']
def compile_ir(f,extra=(),tag='',passes='sroa'):
    base=scratch()+'/'+os.path.basename(f)+tag
    cxx=f.endswith('.cc') or f.endswith('.cpp')
    cc=['clang++-18','-std=c++11'] if cxx else ['clang-18','--std=gnu11']
    path=f if f.startswith('/') else src(f)
    sh(cc+FLAGS+inc()+list(extra)+[path,'-o',base+'.ll'])
    sh([LLVM+'opt','-passes='+passes,'-S',base+'.ll','-o',base+'.s.ll'])
    return base+'.s.ll'
def modules(files):
    gendir()
    with ThreadPoolExecutor(8) as p:
        paths=list(p.map(lambda f: compile_ir(*f) if isinstance(f,tuple) else compile_ir(f),files))
    return [ir.Module(x) for x in paths]
LIB=['mrcal.c','opencv.c','uncertainty.c','image.c','stereo.c','poseutils.c','poseutils-opencv.c','poseutils-uses-autodiff.cc','triangulation.cc','cahvore.cc','traverse-sensor-links.c','heap.cc','cameramodel-parser_GENERATED.c']
_so=None
def replay_lib(opt='-O1',extra_c=None,tag=''):
    """shared library of the real sources, for concrete replay"""
    global _so
    if _so and not extra_c: return _so
    d=scratch()+'/so'+tag; os.makedirs(d,exist_ok=True); gendir()
    pyinc=sh(['python3-config','--includes']).decode().split()
    def one(f):
        o=d+'/'+os.path.basename(f)+'.o'
        cxx=f.endswith('.cc')
        cc=['g++','-std=c++11'] if cxx else ['gcc','--std=gnu11']
        sh(cc+['-w',opt,'-fPIC','-c']+inc()+['-I'+gendir()]+pyinc+[src(f) if not f.startswith('/') else f,'-o',o]); return o
    with ThreadPoolExecutor(8) as p: os_=list(p.map(one,LIB+list(extra_c or [])))
    so=d+'/libmrcal_replay.so'
    sh(['g++','-shared']+os_+['-o',so,'-ldogleg','-lstb','-lpng','-ljpeg','-llapack','-lm'])
    if not extra_c: _so=so
    return so
_py=None
def pypkg():
    """the Python package, built from the tracked sources (contents of the working tree) in the scratch directory; for bounded checks.
    Returns the directory to put on sys.path of /usr/bin/python3"""
    global _py
    if _py: return _py
    d=scratch()+'/pypkg'; os.makedirs(d)
    files=sh(['git','-c','safe.directory=*','-C',REPO,'ls-files','-z','-co','--exclude-standard']).split(b'\0') if os.path.exists(REPO+'/.git') else [os.path.relpath(os.path.join(r,f),REPO).encode() for r,_,fs in os.walk(REPO) for f in fs if not f.endswith(('.so','.o','.d')) and 'GENERATED' not in f]
    for f in files:
        f=f.decode()
        if f and os.path.isfile(REPO+'/'+f):
            os.makedirs(os.path.dirname(d+'/'+f),exist_ok=True); shutil.copy2(REPO+'/'+f,d+'/'+f)
    suf=sh(['/usr/bin/python3','-c','import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))']).decode().strip()
    t=['mrcal/_mrcal'+suf]+['mrcal/_%s_npsp%s'%(f[:-len('-genpywrap.py')],suf) for f in sorted(os.listdir(d)) if f.endswith('-genpywrap.py') and not f.startswith('elas')]
    env={'HOME':scratch(),'LC_ALL':'C.UTF-8','PATH':'/usr/bin:/bin:/usr/sbin:/sbin'}
    sh(['make','-j8','NM=nm']+t,env=env,cwd=d,timeout=800)
    _py=d
    return d
