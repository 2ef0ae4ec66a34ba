"""Interval bounds of expressions implied by a conjunction of conditions (sound: every
step is rounded outwards)."""
import math
from sym import E, Cond, topo
INF=float('inf')
def dn(x): return x if x in(INF,-INF) else x-abs(x)*4e-16-1e-300
def up(x): return x if x in(INF,-INF) else x+abs(x)*4e-16+1e-300
def mulb(a,b):
    if a==0 or b==0: return 0.
    return a*b
class Iv:
    def __init__(s): s.b={}; s.bad=False; s.keep=[]
    def get(s,e): return s.b.get(e.id,(-INF,INF))
    def narrow(s,e,lo,hi):
        a,b=s.get(e); a=max(a,lo); b=min(b,hi)
        if a>b: s.bad=True
        s.b[e.id]=(a,b); s.keep.append(e)
    def fwd1(s,e):
        op=e.op
        if op=='c':
            f=float(e.a); return dn(f),up(f)
        if op=='s':
            if e.a=='$pi': return 3.141592653589793,3.1415926535897936
            return -INF,INF
        if op=='i': return -INF,INF
        if op=='neg':
            l,h=s.get(e.a[0]); return -h,-l
        if op=='+':
            a,b=s.get(e.a[0]),s.get(e.a[1]); return dn(a[0]+b[0]),up(a[1]+b[1])
        if op=='*':
            if e.a[0].id==e.a[1].id:
                l,h=s.get(e.a[0]); m=max(abs(l),abs(h)); n=0. if l<=0<=h else min(abs(l),abs(h))
                return max(0.,dn(n*n)),up(m*m)
            a,b=s.get(e.a[0]),s.get(e.a[1])
            v=[mulb(x,y) for x in a for y in b]; return dn(min(v)),up(max(v))
        if op=='/':
            a,b=s.get(e.a[0]),s.get(e.a[1])
            if b[0]<=0<=b[1]: return -INF,INF
            i=(1/b[1] if b[1] not in(INF,-INF) else 0.,1/b[0] if b[0] not in(INF,-INF) else 0.)
            v=[mulb(x,y) for x in a for y in i]; return dn(min(v)),up(max(v))
        n=e.a[0]; l,h=s.get(e.a[1])
        if n=='sqrt': return (dn(math.sqrt(l)) if 0<l<INF else 0.),(up(math.sqrt(h)) if 0<=h<INF else INF)
        if n=='fabs': return (0. if l<=0<=h else min(abs(l),abs(h))),max(abs(l),abs(h))
        if n in('cos','sin'):
            if n=='cos' and -3.14<=l and h<=3.14:
                m=max(abs(l),abs(h)); k=0. if l<=0<=h else min(abs(l),abs(h))
                return dn(math.cos(m))-1e-15,min(1.,up(math.cos(k))+1e-15)
            if n=='sin' and -1.57<=l and h<=1.57: return dn(math.sin(l)),up(math.sin(h))
            return -1.,1.
        if n=='acos': return 0.,3.1415926535897936
        if n in('asin',): return -1.5707963267948968,1.5707963267948968
        if n=='atan2': return -3.1415926535897936,3.1415926535897936
        if n=='exp': return 0.,INF
        return -INF,INF
    def fwd(s,roots):
        for e in topo(roots):
            l,h=s.fwd1(e); s.narrow(e,l,h)
    def back(s,e):
        """push the bound of e to its operands"""
        st=[e]
        while st:
            e=st.pop(); l,h=s.get(e); op=e.op
            if op=='neg': x=e.a[0]; s.narrow(x,-h,-l); st.append(x)
            elif op=='+':
                for x,y in((e.a[0],e.a[1]),(e.a[1],e.a[0])):
                    o=s.get(y); s.narrow(x,dn(l-o[1]) if l>-INF and o[1]<INF else -INF,up(h-o[0]) if h<INF and o[0]>-INF else INF); st.append(x)
            elif op=='*':
                if e.a[0].id==e.a[1].id:
                    if 0<=h<INF:
                        m=up(math.sqrt(h)); s.narrow(e.a[0],-m,m); st.append(e.a[0])
                        if l>0:
                            m=dn(math.sqrt(l)); a,b=s.get(e.a[0])
                            if a>-m: s.narrow(e.a[0],m,INF)
                            if b<m: s.narrow(e.a[0],-INF,-m)
                else:
                    for x,y in((e.a[0],e.a[1]),(e.a[1],e.a[0])):
                        if y.op=='c' and y.a!=0:
                            f=float(y.a); a,b=(l/f if l not in(INF,-INF) else l*(1 if f>0 else -1)),(h/f if h not in(INF,-INF) else h*(1 if f>0 else -1))
                            if f<0: a,b=b,a
                            s.narrow(x,dn(a),up(b)); st.append(x)
            elif op=='f':
                n=e.a[0]; x=e.a[1]
                if n=='sqrt': s.narrow(x,0. if l<=0 else dn(l*l),up(h*h)); st.append(x)
                elif n=='fabs':
                    if h>=0: s.narrow(x,-h,h)
                    if l>0:
                        a,b=s.get(x)
                        if a>-l: s.narrow(x,l,INF)
                        if b<l: s.narrow(x,-INF,-l)
                    st.append(x)
def flat(conds):
    for c in conds:
        if isinstance(c,Cond) and c.op=='and': yield from flat(c.a)
        elif isinstance(c,Cond): yield c
        elif c is False: yield c
def bounds(conds,extra=()):
    s=Iv(); cs=[]
    for c in flat(conds):
        if c is False: s.bad=True; return s
        if c.op in('r<','r<=','r=='): cs.append(c)
    roots=[c.a for c in cs]+list(extra)
    for it in range(3):
        s.fwd(roots)
        for c in cs:
            if c.op=='r<' and s.get(c.a)[0]>=0 and s.get(c.a)[0]>1e-280: s.bad=True
            s.narrow(c.a,-INF if c.op!='r==' else 0.,0.); s.back(c.a)
        if s.bad: return s
    s.fwd(roots)
    return s
def infeasible(conds): return bounds(conds).bad
def upper(conds,m):
    s=bounds(conds,[m])
    if s.bad: return -1.
    h=s.get(m)[1]
    return h if h<INF else None
