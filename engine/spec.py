"""Mathematical specification functions over exact reals."""
import sym as S
from sym import E,R
from contract import IN,OUT,D,idx,nm
def vec(name,n=3,o=0): return [IN(name,o+i) for i in range(n)]
def mat(name,r=3,c=3,o=0): return [[IN(name,o+i,j) for j in range(c)] for i in range(r)]
def dot(a,b):
    r=S.ZERO
    for x,y in zip(a,b): r=r+x*y
    return r
def cross(a,b): return [a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
def mv(M,v): return [dot(r,v) for r in M]
def mm(A,B): return [[dot(r,[B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for r in A]
def T(M): return [list(x) for x in zip(*M)]
def vneg(v): return [-x for x in v]
def vadd(a,b): return [x+y for x,y in zip(a,b)]
def vsub(a,b): return [x-y for x,y in zip(a,b)]
def vsc(k,a): return [k*x for x in a]
def norm2(v): return dot(v,v)
def rodrigues(r):
    """rotation matrix of a Rodrigues vector: R = cos I + sin/th [r]x + (1-cos)/th^2 r r'"""
    th=S.sqrt(norm2(r)); c,s=S.cos(th),S.sin(th)
    a=s/th; b=(S.ONE-c)/(th*th)
    K=[[S.ZERO,-r[2],r[1]],[r[2],S.ZERO,-r[0]],[-r[1],r[0],S.ZERO]]
    return [[(c if i==j else S.ZERO)+a*K[i][j]+b*r[i]*r[j] for j in range(3)] for i in range(3)]
I3=[[S.ONE if i==j else S.ZERO for j in range(3)] for i in range(3)]
def vals(name,spec,o=0,kind='value'):
    """clauses name[o+i..]==spec (nested list)"""
    out=[]
    def rec(ix,s):
        if isinstance(s,(list,tuple)):
            for k,x in enumerate(s): rec(ix+(k+(o if not ix else 0),),x)
        else: out.append(('%s == spec'%nm(name,*ix),OUT(name,*ix),R(s),kind))
    rec((),spec); return out
def grads(J,spec,ins,kind='grad',jidx=None):
    """clauses J[i.., j..] == d spec_i / d ins_j.  spec: list of E (or list of lists); ins: list of (index tuple, symbol)"""
    flat=[]
    def rec(ix,s):
        if isinstance(s,(list,tuple)):
            for k,x in enumerate(s): rec(ix+(k,),x)
        else: flat.append((ix,s))
    rec((),spec); out=[]
    for jx,sy in ins:
        d=S.diff([s for _,s in flat],sy)
        for (ix,_),v in zip(flat,d):
            k=ix+tuple(jx)
            out.append(('%s == d/d%s'%(nm(J,*k),sy.a),OUT(J,*k),v,kind))
    return out
def gradsD(J,outs,ins,kind='grad'):
    """J == derivative of the function's own reported value"""
    out=[]
    for ix,o in outs:
        for jx,sy in ins:
            k=tuple(ix)+tuple(jx)
            out.append(('%s == d%s/d%s'%(nm(J,*k),o.a[4:],sy.a),OUT(J,*k),D(o,sy),kind))
    return out
