"""C24: point primitives (basic-geometry.h) and the dense small-matrix kernels
(minimath*, minimath-extra.h, the strided kernels of poseutils.c).
The contracts of the generated library follow from the function names: every function
the current headers define whose name falls in a documented family is put under
contract; a trivial extern wrapper per function ("w_NAME", same parameters, one call)
makes the static functions reachable."""
import re, itertools, ctypes
import sym as S, build, contract as C, report, loops, prove
from sym import *
from execu import *
from contract import *
from contract import Res
from report import Task

def headers():
    out={}
    for h in 'minimath/minimath_generated.h','minimath/minimath.h','minimath/minimath-extra.h','basic-geometry.h','poseutils.c':
        t=open(build.src(h)).read(); t=re.sub(r'/\*.*?\*/','',t,flags=re.S); t=re.sub(r'//[^\n]*','',t)
        t=re.sub(r'#if 0.*?#endif','',t,flags=re.S)
        for m in re.finditer(r'^static\s+(?:inline\s+)?(\w+)\s+(\w+)\(([^)]*)\)\s*\{',t,re.M):
            ps=[' '.join(p.split()) for p in m.group(3).split(',')]
            out[m.group(2)]=(m.group(1),ps,h)
    return out
def kinds(ps):
    r=''
    for p in ps:
        r+= 'c' if re.match(r'const double ?\*',p) else 'p' if re.match(r'double ?\*',p) else 'i' if re.match(r'(const )?int ',p) else 'd' if re.match(r'(const )?double ',p) else '?'
    return r
# ---- specification of a matrix argument
def gen(M,r,c): return lambda i,j: IN(M,i*c+j)
def gent(M,r,c): return lambda i,j: IN(M,j*r+i)     # (r,c) matrix whose transpose is stored
def symix(n,i,j):
    if i>j: i,j=j,i
    return i*n-i*(i-1)//2+(j-i)
def symm(M,n): return lambda i,j: IN(M,symix(n,i,j))
def ut(M,n): return lambda i,j: IN(M,symix(n,i,j)) if i<=j else S.ZERO
def lt(M,n): return lambda i,j: IN(M,i*(i+1)//2+j) if j<=i else S.ZERO
def sumE(x):
    r=S.ZERO
    for a in x: r=r+a
    return r
def mm(a,b,n,m,l): return lambda i,j: sumE(a(i,k)*b(k,j) for k in range(m))
def matE(f,n,m): return [[f(i,j) for j in range(m)] for i in range(n)]
def det(a,n):
    if n==1: return a(0,0)
    return sumE((S.const(1) if j%2==0 else S.const(-1))*a(0,j)*det(lambda i,k,j=j: a(i+1,k+(k>=j)),n-1) for j in range(n))
def eq(name,ix,want): return ('%s == spec'%nm(name,*ix),OUT(name,*ix),want,'value')

class K:
    """one function: parameters in order"""
    def __init__(s,name,args,clauses,**kw): s.name=name; s.args=args; s.clauses=clauses; s.kw=kw

def generated(h):
    out=[]
    for n,(ret,ps,hd) in sorted(h.items()):
        k=kinds(ps)
        m=re.match(r'mul_(vec|genN)(\d)_(?:(gen)(\d)(\d)(t?)|(sym)(\d)(\d))(_vout|_vaccum|)(_scaled|)$',n)
        if m:
            many=m[1]=='genN'; d=int(m[2]); sc=bool(m[11]); vo=m[10]
            if m[3]:
                r,c=int(m[4]),int(m[5]); nel=r*c
                if m[6]: din,dout=c,r; M=gent('m',din,dout)     # v * stored^T : (r,c) stored
                else: din,dout=r,c; M=gen('m',r,c)
            else: din=dout=int(m[8]); M=symm('m',din); nel=din*(din+1)//2
            want=('i' if many else '')+('cc' if vo else 'pc')+('p' if vo else '')+('d' if sc else '')
            if k!=want or d!=din: continue
            pre=['N'] if many else []; px=('e',) if many else ()
            tgt={'_vout':'vout','_vaccum':'vaccum','':'v'}[vo]
            args=([Count('N')] if many else [])
            args.append(Arr('v',tuple(pre+[din if vo else max(din,dout)]),'in' if vo else 'inout',strided=False)); args.append(Arr('m',(nel,),strided=False))
            if vo: args.append(Arr(tgt,tuple(pre+[dout]),'out' if vo=='_vout' else 'inout',strided=False))
            if sc: args.append(Dbl('scale'))
            def cl(cfg,M=M,din=din,dout=dout,px=px,tgt=tgt,sc=sc,vo=vo):
                o=[]
                for j in range(dout):
                    e=sumE(IN('v',*px,i)*M(i,j) for i in range(din))
                    if sc: e=e*IN('scale')
                    if vo=='_vaccum': e=e+IN(tgt,*px,j)
                    o.append(eq(tgt,px+(j,),e))
                return o
            out.append(K(n,args,cl,loops=many)); continue
        m=re.match(r'(add|sub)_vec(_vout|_vaccum|)(_scaled|)$',n)
        if m:
            sc=bool(m[3]); vo=m[2]
            if k!='i'+('cc' if vo else 'pc')+('p' if vo else '')+('d' if sc else ''): continue
            tgt={'_vout':'vout','_vaccum':'vaccum','':'a'}[vo]
            args=[Count('N'),Arr('a',('N',),'in' if vo else 'inout',strided=False),Arr('b',('N',),strided=False)]
            if vo: args.append(Arr(tgt,('N',),'out' if vo=='_vout' else 'inout',strided=False))
            if sc: args.append(Dbl('scale'))
            def cl(cfg,sg=S.const(1 if m[1]=='add' else -1),sc=sc,vo=vo,tgt=tgt):
                b=IN('b','e')*sg
                if sc: b=b*IN('scale')
                e=IN('a','e')+b
                if vo=='_vaccum': e=e+IN(tgt,'e')
                return [eq(tgt,('e',),e)]
            out.append(K(n,args,cl,loops=True)); continue
        m=re.match(r'cofactors_(sym|ut|lt)(\d)$',n)
        if (m or n=='cofactors_gen33') and ret=='double':
            d=int(m[2]) if m else 3; kd=m[1] if m else 'gen'; ne=d*(d+1)//2 if m else 9
            if k!=('cp' if m else 'pc'): continue
            args=[Arr('m',(ne,),strided=False),Arr('c',(ne,),'out',strided=False)]
            if not m: args=args[::-1]
            def cl(cfg,d=d,kd=kd,ne=ne):
                A={'sym':symm,'ut':ut,'lt':lt}[kd]('m',d) if kd!='gen' else gen('m',3,3)
                def O(i,j):
                    if kd=='sym': return OUT('c',symix(d,i,j))
                    if kd=='ut': return OUT('c',symix(d,i,j)) if i<=j else S.ZERO
                    if kd=='lt': return OUT('c',i*(i+1)//2+j) if j<=i else S.ZERO
                    return OUT('c',i*d+j)
                D_=det(A,d); o=[('ret == det(M)',OUT('ret'),D_,'value')]
                P=mm(A,O,d,d,d)
                for i in range(d):
                    for j in range(d): o.append(('(M C)[%d,%d] == det(M) I'%(i,j),P(i,j),D_ if i==j else S.ZERO,'value'))
                return o
            out.append(K(n,args,cl,ctype_ret=ctypes.c_double)); continue
    # single functions
    A33=lambda s,x: symm(x,3)
    def one(n,ps,args,cl,**kw):
        if n in h and kinds(h[n][1])==ps: out.append(K(n,args,cl,**kw))
    a=lambda n,d,role='in': Arr(n,(d,),role,strided=False)
    one('mul_ut3_ut3','ccp',[a('a',6),a('b',6),a('ab',6,'out')],lambda cfg:[eq('ab',(symix(3,i,j),),mm(ut('a',3),ut('b',3),3,3,3)(i,j)) for i in range(3) for j in range(i,3)])
    one('mul_sym33_sym33_scaled_out','ccpd',[a('a',6),a('b',6),a('o',9,'out'),Dbl('scale')],lambda cfg:[eq('o',(3*i+j,),IN('scale')*mm(symm('a',3),symm('b',3),3,3,3)(i,j)) for i in range(3) for j in range(3)])
    one('mul_sym33_sym33_sym33_vout','ccp',[a('a',6),a('b',6),a('o',6,'out')],lambda cfg:[eq('o',(symix(3,i,j),),mm(mm(symm('a',3),symm('b',3),3,3,3),symm('a',3),3,3,3)(i,j)) for i in range(3) for j in range(i,3)])
    one('outerproduct3','cp',[a('v',3),a('P',6,'out')],lambda cfg:[eq('P',(symix(3,i,j),),IN('v',i)*IN('v',j)) for i in range(3) for j in range(i,3)])
    one('outerproduct3_scaled','cpd',[a('v',3),a('P',6,'out'),Dbl('scale')],lambda cfg:[eq('P',(symix(3,i,j),),IN('scale')*IN('v',i)*IN('v',j)) for i in range(3) for j in range(i,3)])
    one('conj_3','ccc',[a('a',3),a('s',6),a('b',3)],lambda cfg:[('ret == a^T S b',OUT('ret'),sumE(IN('a',i)*symm('s',3)(i,j)*IN('b',j) for i in range(3) for j in range(3)),'value')],ctype_ret=ctypes.c_double)
    one('gen33_transpose','p',[a('m',9,'inout')],lambda cfg:[eq('m',(3*i+j,),IN('m',3*j+i)) for i in range(3) for j in range(3)])
    one('gen33_transpose_vout','cp',[a('m',9),a('o',9,'out')],lambda cfg:[eq('o',(3*i+j,),IN('m',3*j+i)) for i in range(3) for j in range(3)])
    one('inner3','cc',[a('a',3),a('b',3)],lambda cfg:[('ret == a.b',OUT('ret'),sumE(IN('a',i)*IN('b',i) for i in range(3)),'value')],ctype_ret=ctypes.c_double)
    return out

def points(h):
    """basic-geometry.h: structs by value -> wrapper with double* arguments"""
    out=[]; txt=''
    spec={'inner':('s',lambda a,b,d: [sumE(a[i]*b[i] for i in range(d))]),'norm2':('s',lambda a,b,d: [sumE(a[i]*a[i] for i in range(d))]),
          'add':('v',lambda a,b,d: [a[i]+b[i] for i in range(d)]),'sub':('v',lambda a,b,d: [a[i]-b[i] for i in range(d)]),
          'scale':('v',lambda a,b,d: [a[i]*b for i in range(d)]),
          'mag':('s',lambda a,b,d: [S.sqrt(sumE(a[i]*a[i] for i in range(d)))]),
          'cross':('v',lambda a,b,d: [a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3] for i in range(3)])}
    src=open(build.src('basic-geometry.h')).read()
    for d in 2,3:
        for op,(rk,f) in spec.items():
            n='mrcal_point%d_%s'%(d,op)
            if not re.search(r'\b%s\b'%n,src) or (op=='cross' and d==2): continue
            un=op in('norm2','mag'); w='w_'+n; T='mrcal_point%d_t'%d
            txt+='void %s(double* o, const double* a%s){ %s A; for(int i=0;i<%d;i++) A.xyz[i]=a[i]; '.replace('A.xyz','A.'+'xyz'[:d])%(w,', double b' if op=='scale' else '' if un else ', const double* b',T,d)
            if not un and op!='scale': txt+='%s B; for(int i=0;i<%d;i++) B.%s[i]=b[i]; '%(T,d,'xyz'[:d])
            call='%s(A%s)'%(n,', b' if op=='scale' else '' if un else ', B')
            if rk=='s': txt+='o[0]=%s; }\n'%call
            else: txt+='%s R=%s; for(int i=0;i<%d;i++) o[i]=R.%s[i]; }\n'%(T,call,d,'xyz'[:d])
            if op=='mag':
                # a macro: it has to expand to something that compiles
                pf=build.scratch()+'/w_%s.c'%n; open(pf,'w').write('#include <math.h>\n#include "mrcal.h"\n'+txt[txt.rindex('void w_'):])
                try: build.sh(['gcc','--std=gnu11','-Werror=implicit-function-declaration','-fPIC','-c']+build.inc()+[pf,'-o',pf+'.o'])
                except build.BuildError as e:
                    txt=txt[:txt.rindex('void w_')]; out.append(Task(n,lambda n=n,e=e: ([Res('failed',n+' : the macro does not compile','compiler',str(e)[-300:])],set(),0))); continue
            args=[Arr('o',(1 if rk=='s' else d,),'out',strided=False),Arr('a',(d,),strided=False)]
            if op=='scale': args.append(Dbl('b'))
            elif not un: args.append(Arr('b',(d,),strided=False))
            def cl(cfg,f=f,d=d,op=op,un=un):
                b=IN('b') if op=='scale' else None if un else [IN('b',i) for i in range(d)]
                return [eq('o',(i,),x) for i,x in enumerate(f([IN('a',i) for i in range(d)],b,d))]
            out.append(K(n,args,cl))
    return out,txt

class EArr(Arr):
    """strides are passed in elements"""
    def __init__(s,*a,**k): Arr.__init__(s,*a,**k); s.elems=True
class RArr(Arr):
    """byte strides, 0 is not special"""
    def __init__(s,*a,**k): Arr.__init__(s,*a,**k); s.real=True
def extra(h):
    """minimath-extra.h: symbolic element strides; dimensions and block offsets enumerated"""
    out=[]; txt=''
    def w(n,sig,call):
        nonlocal txt
        txt+='void w_%s(%s){ %s; }\n'%(n,sig,call)
    P='double* P, int p0, int p1'; A='const double* A, int a0, int a1'; B='const double* B, int b0, int b1'
    for suf in '','_accum':
        f='mul_genNM_genML'+suf
        if f in h and kinds(h[f][1])=='piiiiiciiciid':
            for N,M,L in itertools.product((1,2,3),(1,2,3,4),(1,2,3)):
                if (N,M,L) in((2,4,2),(1,4,2),(3,4,2)): continue
                n='%s_%d%d%d'%(f,N,M,L)
                w(n,P+','+A+','+B+', double scale','%s(P,p0,p1,%d,%d,%d,A,a0,a1,B,b0,b1,scale)'%(f,N,M,L))
                def cl(cfg,N=N,M=M,L=L,acc=bool(suf)):
                    return [eq('P',(i,j),IN('scale')*sumE(IN('A',i,k)*IN('B',k,j) for k in range(M))+(IN('P',i,j) if acc else S.ZERO)) for i in range(N) for j in range(L)]
                out.append(K(n,[EArr('P',(N,L),'inout' if suf else 'out'),EArr('A',(N,M)),EArr('B',(M,L)),Dbl('scale')],cl,layouts=('contig','strided')))
    offs=[(0,0),(0,3),(3,0),(3,3)]
    def s66(M): return lambda i,j: IN(M,symix(6,i,j))
    if kinds(h.get('mul_gen33_gen33insym66',('',[],''))[1])=='piiciiciid':
        for bi,bj in offs:
            n='mul_gen33_gen33insym66_%d%d'%(bi,bj); w(n,P+','+A+',const double* B, double scale','mul_gen33_gen33insym66(P,p0,p1,A,a0,a1,B,%d,%d,scale)'%(bi,bj))
            out.append(K(n,[EArr('P',(3,3),'out'),EArr('A',(3,3)),Arr('B',(21,),strided=False),Dbl('scale')],
              lambda cfg,bi=bi,bj=bj:[eq('P',(i,j),IN('scale')*sumE(IN('A',i,k)*s66('B')(k+bi,j+bj) for k in range(3))) for i in range(3) for j in range(3)],layouts=('contig','strided')))
    if kinds(h.get('set_gen33_from_gen33insym66_accum',('',[],''))[1])=='piiciid':
        for bi,bj in offs:
            n='set_gen33_from_gen33insym66_accum_%d%d'%(bi,bj); w(n,P+',const double* B, double scale','set_gen33_from_gen33insym66_accum(P,p0,p1,B,%d,%d,scale)'%(bi,bj))
            out.append(K(n,[EArr('P',(3,3),'inout'),Arr('B',(21,),strided=False),Dbl('scale')],
              lambda cfg,bi=bi,bj=bj:[eq('P',(i,j),IN('P',i,j)+IN('scale')*s66('B')(i+bi,j+bj)) for i in range(3) for j in range(3)],layouts=('contig','strided')))
    # into the upper triangle of a sym66: only the entries of the block on or above the diagonal
    def tri(val,bi,bj):
        o=[]
        for r in range(6):
            for c in range(r,6):
                e=IN('P',symix(6,r,c)); i,j=r-bi,c-bj
                if 0<=i<3 and 0<=j<3: e=e+val(i,j)
                o.append(eq('P',(symix(6,r,c),),e))
        return o
    if kinds(h.get('mul_gen33_gen33_into33insym66_accum',('',[],''))[1])=='piiciiciid':
        for bi,bj in [x for x in offs if x!=(3,0)]:
            n='mul_gen33_gen33_into33insym66_accum_%d%d'%(bi,bj); w(n,'double* P,'+A+','+B+', double scale','mul_gen33_gen33_into33insym66_accum(P,%d,%d,A,a0,a1,B,b0,b1,scale)'%(bi,bj))
            out.append(K(n,[Arr('P',(21,),'inout',strided=False),EArr('A',(3,3)),EArr('B',(3,3)),Dbl('scale')],
              lambda cfg,bi=bi,bj=bj: tri(lambda i,j: IN('scale')*sumE(IN('A',i,k)*IN('B',k,j) for k in range(3)),bi,bj),layouts=('contig','strided')))
    if kinds(h.get('set_33insym66_from_gen33_accum',('',[],''))[1])=='piiciid':
        for bi,bj in [x for x in offs if x!=(3,0)]:
            n='set_33insym66_from_gen33_accum_%d%d'%(bi,bj); w(n,'double* P,'+A+', double scale','set_33insym66_from_gen33_accum(P,%d,%d,A,a0,a1,scale)'%(bi,bj))
            out.append(K(n,[Arr('P',(21,),'inout',strided=False),EArr('A',(3,3)),Dbl('scale')],
              lambda cfg,bi=bi,bj=bj: tri(lambda i,j: IN('scale')*IN('A',i,j),bi,bj),layouts=('contig','strided')))
    if kinds(h.get('mul_vec6_sym66_scaled_strided',('',[],''))[1])=='picd':
        w('mul_vec6_sym66_scaled_strided','double* v,int v0,const double* s,double scale','mul_vec6_sym66_scaled_strided(v,v0,s,scale)')
        out.append(K('mul_vec6_sym66_scaled_strided',[EArr('v',(6,),'inout'),Arr('s',(21,),strided=False),Dbl('scale')],
           lambda cfg:[eq('v',(j,),IN('scale')*sumE(IN('v',i)*s66('s')(i,j) for i in range(6))) for j in range(6)],layouts=('contig','strided')))
    if kinds(h.get('mul_genN6_sym66_scaled_strided',('',[],''))[1])=='ipiicd':
        for N in 1,2,3:
            n='mul_genN6_sym66_scaled_strided_%d'%N; w(n,'double* v,int v0,int v1,const double* s,double scale','mul_genN6_sym66_scaled_strided(%d,v,v0,v1,s,scale)'%N)
            out.append(K(n,[EArr('v',(N,6),'inout'),Arr('s',(21,),strided=False),Dbl('scale')],
              lambda cfg,N=N:[eq('v',(r,j),IN('scale')*sumE(IN('v',r,i)*s66('s')(i,j) for i in range(6))) for r in range(N) for j in range(6)],layouts=('contig','strided')))
    return out,txt
def strided(h):
    """the strided 3x3 kernels of poseutils.c (byte strides), including the in-place forms they document"""
    src=open(build.src('poseutils.c')).read(); out=[]; txt=''
    for t0,t1 in itertools.product(('','t'),repeat=2):
        n='mul_gen33%s_gen33%s_vout_full'%(t0,t1)
        if n not in h or kinds(h[n][1])!='piiciicii': continue
        txt+='void w_%s(double* o,int o0,int o1,const double* a,int a0,int a1,const double* b,int b0,int b1){ %s(o,o0,o1,a,a0,a1,b,b0,b1); }\n'%(n,n)
        def cl(cfg,t0=t0,t1=t1):
            a=lambda i,j: IN('a',*((j,i) if t0 else (i,j))); b=lambda i,j: IN('b',*((j,i) if t1 else (i,j)))
            return [eq('o',(i,j),sumE(a(i,k)*b(k,j) for k in range(3))) for i in range(3) for j in range(3)]
        out.append(K(n,[RArr('o',(3,3),'out'),RArr('a',(3,3)),RArr('b',(3,3))],cl,layouts=('contig','strided'),inplace=({'o':'a'},{'o':'b'})))
    macros=re.findall(r'^#define\s+(mul_vec3_gen33(t?)_(vout|vaccum)(_scaled|)_full)\(([^)]*)\)',src,re.M)
    for n,t,kind,sc,ps in macros:
        ps=[x.strip() for x in ps.replace('\\','').split(',')]
        if len(ps)!=7+bool(sc): continue
        txt+='void w_%s(double* o,int o0,const double* v,int v0,const double* m,int m0,int m1%s){ %s(o,o0,v,v0,m,m0,m1%s); }\n'%(n,', double scale' if sc else '',n,', scale' if sc else '')
        def cl(cfg,t=t,kind=kind,sc=sc):
            m=lambda i,j: IN('m',*((j,i) if t else (i,j))); o=[]
            for j in range(3):
                e=sumE(IN('v',i)*m(i,j) for i in range(3))
                if sc: e=e*IN('scale')
                if kind=='vaccum': e=e+(IN('v',j) if cfg.alias.get('o') else IN('o',j))
                o.append(eq('o',(j,),e))
            return o
        out.append(K(n,[RArr('o',(3,),'out' if kind=='vout' else 'inout'),RArr('v',(3,)),RArr('m',(3,3))]+([Dbl('scale')] if sc else []),cl,layouts=('contig','strided'),inplace=({'o':'v'},)))
    return out,txt


def wrappers(h,ks):
    out=''
    for k in ks:
        ret,ps,_=h[k.name]; names=[re.search(r'(\w+)(\[\d*\])?$',p).group(1) for p in ps]
        out+='%s w_%s(%s){ %s%s(%s); }\n'%(ret,k.name,', '.join(ps).replace('restrict',''),'' if ret=='void' else 'return ',k.name,', '.join(names))
    return out
def sum_tasks(mods,lib,h):
    """dot_vec / norm2_vec, any length: the returned value is the sum over all elements (loop summary)"""
    out=[]
    for n,ps in ('dot_vec','icc'),('norm2_vec','ic'):
        if n not in h or kinds(h[n][1])!=ps: continue
        def fn(n=n,ps=ps):
            L=n+' : any length'
            try:
                ex=Exec(mods); st=State(); N=isym('N'); st.assume(icmp('le',0,N)); ex.loop_handler=loops.handler; vals=[N]
                for nm_ in 'ab'[:len(ps)-1]:
                    o=Obj(nm_,None,'input')
                    def init(x,s,o,off,ty,nm_=nm_):
                        e,c=rowof(off,8)
                        if e is None or c or not loops.iproves(s.path,S.cand(icmp('le',0,e),icmp('lt',e,isym('N')))): s.viol.append(('read outside',repr(off))); return x.undef(ty,'f')
                        return loops.elem(nm_,e)
                    o.init=init; o.policy='check'; o.readonly=True; st.add_obj(o); vals.append(Ptr(o.id,0))
                ex.call(st,'w_'+n,vals); done=ex.run(st)+ex.loop_viols
            except (Undecided,S.SymError,KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError) as e:
                return [Res('undecided',L,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
            rs=[]
            for k,s in enumerate(done):
                if not loops.iconsistent(s.path): continue
                if s.viol: rs.append(Res('failed',L+' : '+str(s.viol[0]),'symbolic execution')); continue
                r=s.ret; lb=L+' path %d : ret == sum_i a[i] b[i]'%k
                if isinstance(r,E) and r.op=='s' and r.a in loops.SUMS:
                    t,kn,trip=loops.SUMS[r.a]; i=isym(kn) if isinstance(kn,str) else kn
                    spec=loops.elem('a',i)*loops.elem('b' if ps=='icc' else 'a',i)
                    ok=prove.pit([(t,spec)],1)[0] is True and loops.iproves(s.path,icmp('eq',trip,isym('N')))
                    rs.append(Res('proved' if ok else 'failed',lb,'pit + z3'))
                elif isinstance(r,E) and r.op=='c' and r.a==0:
                    rs.append(Res('proved' if loops.iproves(s.path,icmp('eq',isym('N'),0)) else 'failed',lb+' (empty)','z3'))
                else: rs.append(Res('undecided',lb,'symbolic execution',repr(r)[:100]))
            if not rs: rs=[Res('undecided',L,'vacuity')]
            return rs,ex.called,len(done)
        def fb(n=n,ps=ps):
            rng=np.random.default_rng(3); f=getattr(lib,'w_'+n); f.restype=ctypes.c_double; c=0
            for N in range(0,12):
                a=rng.standard_normal(N+1); b=rng.standard_normal(N+1)
                got=f(N,*[x.ctypes.data_as(ctypes.c_void_p) for x in (a,b)[:len(ps)-1]]); want=float(np.dot(a[:N],(b if ps=='icc' else a)[:N])); c+=1
                if not abs(got-want)<1e-10: return c,({'n':N,'a':list(a),'b':list(b)},n,got,want)
            return c,None
        out.append(Task(n,fn,fb))
    return out
def det_orth_tasks(mods,lib,h):
    """det_orthonormal33(m) for every orthonormal m: m = [r0; r1; s r0 x r1], s=+-1 its determinant"""
    n='det_orthonormal33'
    if n not in h or kinds(h[n][1])!='c': return []
    def fn():
        L=n
        ex=Exec(mods); st=State(); o=Obj('m',None,'input'); o.readonly=True; o.policy='check'
        def init(x,s,o,off,ty):
            if not(isinstance(off,int) and off%8==0 and 0<=off<72): s.viol.append(('read outside',repr(off))); return x.undef(ty,'f')
            return IN('m',off//8)
        o.init=init; st.add_obj(o)
        try: ex.call(st,'w_'+n,[Ptr(o.id,0)]); done=ex.run(st)
        except (Undecided,S.SymError,KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError) as e:
            return [Res('undecided',L,'symbolic execution','%s: %s'%(type(e).__name__,e))],set(),0
        m=[IN('m',i) for i in range(9)]; rs=[]
        cr=[m[1]*m[5]-m[2]*m[4],m[2]*m[3]-m[0]*m[5],m[0]*m[4]-m[1]*m[3]]
        ab=[IN('x',i) for i in range(3)]
        for sgn in 1,-1:
            for k,s in enumerate(done):
                if s.viol: rs.append(Res('failed',L+' : '+str(s.viol[0]),'symbolic execution')); continue
                # lemma used (orthonormal m, det m = s): row0 x row1 = s row2, |row2|=1
                facts=[rcmp('eq',c,S.const(sgn)*m[6+i]) for i,c in enumerate(cr)]+[rcmp('eq',m[6]*m[6]+m[7]*m[7]+m[8]*m[8],S.ONE)]
                lb='%s path %d det=%+d'%(L,k,sgn)
                ret=s.ret if isinstance(s.ret,E) else S.const(s.ret)
                # the products of row0,row1 only occur in the cross products: abstract those
                sb={c:S.const(sgn)*m[6+i] for i,c in enumerate(cr)}; pth=[C.csub(c,sb) for c in s.path]
                r='unsat' if any(c is False for c in pth) else prove.z3_check([c for c in pth if c is not True]+facts[3:]+[cnot(rcmp('eq',ret,S.const(sgn)))],10000)
                if r!='unsat': r=prove.z3_check(list(s.path)+facts+[cnot(rcmp('eq',ret,S.const(sgn)))],10000)
                rs.append(Res({'unsat':'proved','sat':'failed'}.get(r,'undecided'),lb,'z3',''))
        return rs,ex.called,len(done)
    def fb():
        rng=np.random.default_rng(4); f=getattr(lib,'w_'+n); f.restype=ctypes.c_double; c=0
        for t in range(400):
            q,_=np.linalg.qr(rng.standard_normal((3,3)))
            if t%4==3: q=np.eye(3)[list(rng.permutation(3))]*rng.choice([-1,1],3)[:,None]
            if t%2: q=-q
            q=np.ascontiguousarray(q); got=f(q.ctypes.data_as(ctypes.c_void_p)); want=round(np.linalg.det(q)); c+=1
            if got!=want: return c,({'m':q.ravel().tolist()},n,got,want)
        return c,None
    return [Task(n,fn,fb)]
def tasks(thorough):
    h=headers(); d=build.scratch(); G=generated(h)
    G1=[k for k in G if k.name!='inner3']; Gp=[k for k in G if k.name=='inner3']
    X,xt=extra(h); Pn,pt=points(h); Sd,st=strided(h); Gw=G1+[K(n,0,0) for n in('dot_vec','norm2_vec','det_orthonormal33') if n in h]
    open(d+'/w_linalg.c','w').write('#include <math.h>\n#include "mrcal.h"\n#include "minimath/minimath.h"\n#include "minimath/minimath-extra.h"\n'+wrappers(h,Gw)+xt+pt)
    open(d+'/w_poseutils.c','w').write('#include "poseutils.c"\n'+wrappers(h,Gp)+st)
    mods=build.modules([d+'/w_linalg.c',d+'/w_poseutils.c'])
    so=d+'/libw.so'; build.sh(['gcc','--std=gnu11','-w','-O1','-fPIC','-shared']+build.inc()+[d+'/w_linalg.c',d+'/w_poseutils.c',build.replay_lib(),'-o',so,'-lm'])
    lib=ctypes.CDLL(so); out=[]
    for k in G+X+Pn+Sd:
        if isinstance(k,Task): out.append(k); continue
        con=Contract('w_'+k.name,k.args,k.clauses,name=k.name,**dict({'layouts':('contig',)},**k.kw))
        con.nbounded=20
        out+=report.contract_tasks(mods,con,lib,thorough)
    return out+sum_tasks(mods,lib,h)+det_orth_tasks(mods,lib,h)
