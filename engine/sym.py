"""Symbolic values.
 E   : exact real expression DAG (hash-consed)
 IP  : integer polynomial over named integer atoms
 Cond: boolean conditions over E / IP
Machine doubles are treated as mathematical reals; double literals are read as
the simplest rational / decimal / rational multiple of pi that rounds to them.
"""
from fractions import Fraction
import math

class SymError(Exception): pass

# =============================================================== reals
class E:
    __slots__=('op','a','id','_d')
    def __add__(s,o): return add(s,R(o))
    def __radd__(s,o): return add(R(o),s)
    def __sub__(s,o): return add(s,neg(R(o)))
    def __rsub__(s,o): return add(R(o),neg(s))
    def __mul__(s,o): return mul(s,R(o))
    def __rmul__(s,o): return mul(R(o),s)
    def __truediv__(s,o): return div(s,R(o))
    def __rtruediv__(s,o): return div(R(o),s)
    def __neg__(s): return neg(s)
    def __pow__(s,n):
        assert isinstance(n,int)
        if n<0: return div(ONE,s**(-n))
        r=ONE
        for _ in range(n): r=mul(r,s)
        return r
    def __repr__(s): return show(s)
    def isc(s): return s.op=='c'

_tab={}
_cnt=[0]
def _mk(op,a):
    k=(op,a) if op in('c','s') else (op,)+tuple(x.id if isinstance(x,E) else x for x in a)
    r=_tab.get(k)
    if r is None:
        r=E(); r.op=op; r.a=a; _cnt[0]+=1; r.id=_cnt[0]; r._d=None
        _tab[k]=r
    return r
def const(f): return _mk('c',f if isinstance(f,Fraction) else Fraction(f))
ZERO=const(0); ONE=const(1); MONE=const(-1); TWO=const(2); HALF=const(Fraction(1,2))
def sym(name): return _mk('s',name)
PI=_mk('s','$pi')

_fl={}
_PIF=[(n,m) for m in (1,2,3,4,6,8,180,360) for n in (1,-1,2,-2,3,-3,4,-4,180,-180)]
def from_double(d):
    r=_fl.get(d)
    if r is not None: return r
    if d!=d or d in(float('inf'),float('-inf')):
        r=_mk('s','$nan' if d!=d else ('$inf' if d>0 else '$ninf'))
        _fl[d]=r; return r
    f=Fraction(repr(d))
    if d!=0 and len(repr(d).replace('-','').replace('.','').lstrip('0'))>=14:
        done=False
        for n,m in _PIF:
            if d==math.pi*n/m or d==math.pi/m*n or (n==1 and d==1./(math.pi)*0):
                r=mul(const(Fraction(n,m)),PI); done=True; break
        if not done:
            for n,m in((180,1),(1,1),(2,1),(1,2)):
                if d==n/math.pi/m:
                    r=div(const(Fraction(n,m)),PI); done=True; break
        if not done:
            g=Fraction(d).limit_denominator(4096)
            if float(g.numerator)/float(g.denominator)==d: f=g
            r=const(f)
    else: r=const(f)
    _fl[d]=r
    return r
def R(x):
    if isinstance(x,E): return x
    if isinstance(x,IP): return i2r(x)
    if isinstance(x,bool): return const(int(x))
    if isinstance(x,(int,Fraction)): return const(x)
    if isinstance(x,float): return from_double(x)
    raise SymError("R(%r)"%(x,))

def add(a,b):
    if a.op=='c':
        if b.op=='c': return const(a.a+b.a)
        if a.a==0: return b
    elif b.op=='c' and b.a==0: return a
    if a.op=='neg' and a.a[0] is b: return ZERO
    if b.op=='neg' and b.a[0] is a: return ZERO
    if a.id>b.id: a,b=b,a
    return _mk('+',(a,b))
def neg(a):
    if a.op=='c': return const(-a.a)
    if a.op=='neg': return a.a[0]
    return _mk('neg',(a,))
def sub(a,b): return add(a,neg(b))
def mul(a,b):
    if a.op=='c':
        if b.op=='c': return const(a.a*b.a)
        if a.a==0: return ZERO
        if a.a==1: return b
        if a.a==-1: return neg(b)
    elif b.op=='c':
        if b.a==0: return ZERO
        if b.a==1: return a
        if b.a==-1: return neg(a)
    if a.op=='neg': return neg(mul(a.a[0],b))
    if b.op=='neg': return neg(mul(a,b.a[0]))
    if a.id>b.id: a,b=b,a
    return _mk('*',(a,b))
def div(a,b):
    if b.op=='c':
        if b.a==0: return _mk('/',(a,b))     # undefined; never provable
        return mul(a,const(1/b.a))
    if a.op=='c' and a.a==0: return ZERO
    if a is b: return ONE
    if b.op=='neg': return neg(div(a,b.a[0]))
    if a.op=='neg': return neg(div(a.a[0],b))
    return _mk('/',(a,b))
def _isqrt_frac(f):
    if f<0: return None
    n=math.isqrt(f.numerator); d=math.isqrt(f.denominator)
    if n*n==f.numerator and d*d==f.denominator: return Fraction(n,d)
    return None
def pi_mult(x):
    """x == q*pi -> q"""
    if x is PI: return Fraction(1)
    if x.op=='c' and x.a==0: return Fraction(0)
    if x.op=='*' :
        p,q=x.a
        if p.op=='c' and q is PI: return p.a
        if q.op=='c' and p is PI: return q.a
    if x.op=='neg':
        q=pi_mult(x.a[0]); return None if q is None else -q
    return None
_SIN={Fraction(0):ZERO,Fraction(1,2):ONE,Fraction(1):ZERO,Fraction(3,2):MONE}
def sqrt(x):
    if x.op=='c':
        r=_isqrt_frac(x.a)
        if r is not None: return const(r)
    return _mk('f',('sqrt',x))
def sin(x):
    q=pi_mult(x)
    if q is not None and (q%2) in _SIN: return _SIN[q%2]
    if x.op=='neg': return neg(sin(x.a[0]))
    if x.op=='c' and x.a<0: return neg(sin(const(-x.a)))
    if x.op=='+':
        a,b=x.a
        return sin(a)*cos(b)+cos(a)*sin(b)
    return _mk('f',('sin',x))
def cos(x):
    q=pi_mult(x)
    if q is not None and ((q+Fraction(1,2))%2) in _SIN: return _SIN[(q+Fraction(1,2))%2]
    if x.op=='neg': return cos(x.a[0])
    if x.op=='c' and x.a<0: return cos(const(-x.a))
    if x.op=='+':
        a,b=x.a
        return cos(a)*cos(b)-sin(a)*sin(b)
    return _mk('f',('cos',x))
def tan(x): return sin(x)/cos(x)
def fn(name,*args):
    args=tuple(R(a) for a in args)
    if name=='sqrt': return sqrt(*args)
    if name=='sin': return sin(*args)
    if name=='cos': return cos(*args)
    if name=='tan': return tan(*args)
    if name=='fabs' and args[0].op=='c': return const(abs(args[0].a))
    if name=='atan':  return fn('atan2',args[0],ONE)
    if name=='hypot': return sqrt(args[0]*args[0]+args[1]*args[1])
    if name in('floor','ceil','round','trunc') and args[0].op=='c':
        f=args[0].a
        v={'floor':math.floor,'ceil':math.ceil,'trunc':int,
           'round':lambda f:(math.floor(abs(f)+Fraction(1,2))*(1 if f>=0 else -1))}[name](f)
        return const(v)
    return _mk('f',(name,)+args)
FTOI={}     # id -> the real number that was converted to an integer (conversion taken in range)
def ftoi_real(at):
    v=FTOI[at]; return v if v.op=='f' and v.a[0] in('round','floor','ceil','trunc') else fn('trunc',v)
def i2r(x):
    if isinstance(x,int): return const(x)
    r=ZERO
    for mon,c in x.terms():
        t=const(c)
        for at,p in mon:
            for _ in range(p): t=mul(t,ftoi_real(at) if at in FTOI else _mk('i',(at,)))
        r=add(r,t)
    return r
def show(e,depth=7):
    if e.op=='c': return str(e.a)
    if e.op=='s': return e.a
    if e.op=='i': return 'i2r(%s)'%(e.a[0],)
    if depth==0: return '...'
    if e.op=='neg': return '-(%s)'%show(e.a[0],depth-1)
    if e.op in '+*/': return '(%s%s%s)'%(show(e.a[0],depth-1),e.op,show(e.a[1],depth-1))
    return '%s(%s)'%(e.a[0],','.join(show(x,depth-1) for x in e.a[1:]))
def kids(e):
    if e.op in('c','s','i'): return ()
    if e.op=='f': return e.a[1:]
    return e.a
def topo(roots):
    """children-first order of the DAG"""
    seen=set(); out=[]
    st=[(r,False) for r in reversed(roots)]
    while st:
        e,done=st.pop()
        if done: out.append(e); continue
        if e.id in seen: continue
        seen.add(e.id); st.append((e,True))
        for k in kids(e):
            if k.id not in seen: st.append((k,False))
    return out
def symbols(roots):
    return [e for e in topo(roots) if e.op in('s','i')]
def subst(roots,m):
    """m: {E symbol/node: E}"""
    memo={k.id:v for k,v in m.items()}
    for e in topo(roots):
        if e.id in memo: continue
        ks=kids(e)
        nk=[memo[k.id] for k in ks]
        if all(x is y for x,y in zip(ks,nk)): memo[e.id]=e; continue
        memo[e.id]=rebuild(e,nk)
    return [memo[r.id] for r in roots]
def rebuild(e,nk):
    if e.op=='+': return add(*nk)
    if e.op=='*': return mul(*nk)
    if e.op=='/': return div(*nk)
    if e.op=='neg': return neg(*nk)
    return fn(e.a[0],*nk)

def diff(roots,v):
    """d root / d v for each root (v: symbol E)"""
    D={}
    for e in topo(roots):
        if e.op in('c','i'): D[e.id]=ZERO
        elif e.op=='s': D[e.id]=ONE if e is v else ZERO
        elif e.op=='+': D[e.id]=add(D[e.a[0].id],D[e.a[1].id])
        elif e.op=='neg': D[e.id]=neg(D[e.a[0].id])
        elif e.op=='*':
            a,b=e.a; D[e.id]=add(mul(D[a.id],b),mul(a,D[b.id]))
        elif e.op=='/':
            a,b=e.a
            da,db=D[a.id],D[b.id]
            if db is ZERO: D[e.id]=div(da,b)
            else: D[e.id]=div(sub(da,mul(e,db)),b)
        else:
            n=e.a[0]; x=e.a[1]; dx=D[x.id]
            if n=='sqrt': D[e.id]=ZERO if dx is ZERO else div(dx,mul(TWO,e))
            elif n=='sin': D[e.id]=mul(cos(x),dx)
            elif n=='cos': D[e.id]=neg(mul(sin(x),dx))
            elif n=='acos': D[e.id]=ZERO if dx is ZERO else neg(div(dx,sqrt(ONE-x*x)))
            elif n=='asin': D[e.id]=ZERO if dx is ZERO else div(dx,sqrt(ONE-x*x))
            elif n=='atan2':
                y,xx=e.a[1],e.a[2]; dy,dxx=D[y.id],D[xx.id]
                if dy is ZERO and dxx is ZERO: D[e.id]=ZERO
                else: D[e.id]=div(sub(mul(dy,xx),mul(y,dxx)),add(mul(xx,xx),mul(y,y)))
            elif n=='exp': D[e.id]=mul(e,dx)
            elif n=='log': D[e.id]=div(dx,x)
            else:
                if all(D[k.id] is ZERO for k in kids(e)): D[e.id]=ZERO
                elif n.startswith('uf:'): D[e.id]=mul(fn(n+"'",x),dx)      # an opaque differentiable function of one variable
                elif n in('floor','ceil','round','trunc','$ftoi'): D[e.id]=ZERO   # a.e.
                elif n=='fabs': D[e.id]=mul(div(x,e),dx)
                else: raise SymError('diff of %s'%n)
    return [D[r.id] for r in roots]

# =============================================================== ints
class IP:
    """integer polynomial; terms {monomial:coef}; monomial: sorted tuple of (atom,power).
    atoms are strings (symbols) or opaque tuples ('op',...)"""
    __slots__=('t','_h')
    def __init__(self,t): self.t=t; self._h=None
    def terms(self): return self.t.items()
    def key(self):
        if self._h is None: self._h=frozenset(self.t.items())
        return self._h
    def __hash__(self): return hash(self.key())
    def __eq__(self,o): return isinstance(o,IP) and self.t==o.t
    def __repr__(self):
        def m(mon,c):
            s='*'.join((str(a) if p==1 else '%s^%d'%(a,p)) for a,p in mon)
            if not mon: return str(c)
            return s if c==1 else '%d*%s'%(c,s)
        return '+'.join(m(mon,c) for mon,c in sorted(self.t.items(),key=str))
    def __add__(s,o): return iadd(s,o)
    __radd__=__add__
    def __sub__(s,o): return iadd(s,imul(o,-1))
    def __rsub__(s,o): return iadd(o,imul(s,-1))
    def __mul__(s,o): return imul(s,o)
    __rmul__=__mul__
    def __neg__(s): return imul(s,-1)
    def __le__(s,o): return icmp('le',s,o)
    def __lt__(s,o): return icmp('lt',s,o)
    def __ge__(s,o): return icmp('le',o,s)
    def __gt__(s,o): return icmp('lt',o,s)
def isym(name): return IP({((name,1),):1})
def iatom(at): return IP({((at,1),):1})
def _n(t):
    t={k:v for k,v in t.items() if v}
    if not t: return 0
    if len(t)==1 and () in t: return t[()]
    return IP(t)
def _t(x): return x.t if isinstance(x,IP) else ({():x} if x else {})
def iadd(a,b):
    if isinstance(a,int) and isinstance(b,int): return a+b
    t=dict(_t(a))
    for k,v in _t(b).items(): t[k]=t.get(k,0)+v
    return _n(t)
def imul(a,b):
    if isinstance(a,int) and isinstance(b,int): return a*b
    t={}
    for k1,v1 in _t(a).items():
        for k2,v2 in _t(b).items():
            d={}
            for at,p in k1+k2: d[at]=d.get(at,0)+p
            k=tuple(sorted(d.items(),key=lambda x:(str(x[0]),x[1])))
            t[k]=t.get(k,0)+v1*v2
    return _n(t)
def iatoms(x):
    s=set()
    if isinstance(x,IP):
        for mon in x.t:
            for at,_ in mon:
                s.add(at)
    return s
def isubst(x,m):
    if not isinstance(x,IP): return x
    if not any(at in m or isinstance(at,tuple) for at in iatoms(x)): return x
    r=0
    for mon,c in x.t.items():
        t=c
        for at,p in mon:
            if at in m: v=m[at]
            elif isinstance(at,tuple):
                v=iopq(at[0],*[isubst(z,m) if isinstance(z,(IP,int)) else z for z in at[1:]])
            else: v=iatom(at)
            for _ in range(p): t=imul(t,v)
        r=iadd(r,t)
    return r
def iopq(op,*args):
    """opaque integer operators sdiv, srem, and, or, shl, ..., folded when concrete"""
    if all(isinstance(z,int) for z in args):
        a=args
        if op=='sdiv':
            if a[1]==0: raise SymError('div by 0')
            q=abs(a[0])//abs(a[1]); return q if (a[0]<0)==(a[1]<0) else -q
        if op=='srem':
            q=abs(a[0])%abs(a[1]); return q if a[0]>=0 else -q
        if op=='and': return a[0]&a[1]
        if op=='or': return a[0]|a[1]
        if op=='xor': return a[0]^a[1]
        if op=='shl': return a[0]<<a[1]
        if op=='ashr': return a[0]>>a[1]
    # exact division
    if op=='sdiv' and isinstance(args[1],int) and isinstance(args[0],IP):
        if all(c%args[1]==0 for c in args[0].t.values()):
            return _n({k:c//args[1] for k,c in args[0].t.items()})
    if op=='srem' and isinstance(args[1],int) and isinstance(args[0],IP):
        if all(c%args[1]==0 for c in args[0].t.values()): return 0
    if op=='shl' and isinstance(args[1],int): return imul(args[0],1<<args[1])
    return iatom((op,)+args)

# =============================================================== conditions
class Cond:
    """op: 'r<=','r<','r==' (E vs 0) ; 'i<=','i<','i==' (IP vs 0); 'and','or','not' ; 'atom'"""
    __slots__=('op','a')
    def __init__(s,op,a): s.op=op; s.a=a
    def key(s):
        if s.op[0]=='r' and s.op in('r<=','r<','r=='): return (s.op,s.a.id)
        if s.op in('i<=','i<','i=='): return (s.op,s.a.key())
        if s.op in('and','or','not'): return (s.op,)+tuple(x.key() for x in s.a)
        return (s.op,s.a)
    def __hash__(s): return hash(s.key())
    def __eq__(s,o): return isinstance(o,Cond) and s.key()==o.key()
    def __repr__(s):
        if s.op in('r<=','r<','r==','i<=','i<','i=='): return '%r %s 0'%(s.a,s.op[1:])
        if s.op=='not': return '!(%r)'%(s.a[0],)
        if s.op in('and','or'): return '('+(' && ' if s.op=='and' else ' || ').join(map(repr,s.a))+')'
        return '%s:%s'%(s.op,s.a)
def rcmp(op,a,b):
    """op in lt le eq"""
    d=sub(R(a),R(b))
    if d.op=='c':
        return {'lt':d.a<0,'le':d.a<=0,'eq':d.a==0}[op]
    return Cond({'lt':'r<','le':'r<=','eq':'r=='}[op],d)
def icmp(op,a,b):
    d=iadd(a,imul(b,-1))
    if isinstance(d,int): return {'lt':d<0,'le':d<=0,'eq':d==0}[op]
    if op=='eq':
        # canonical sign
        k=min(d.t,key=str)
        if d.t[k]<0: d=imul(d,-1)
        import math as _m
        g=0
        for k,c in d.t.items():
            if k!=(): g=_m.gcd(g,c)
        c0=d.t.get((),0)
        if g>1:
            if c0%g: return False
            d=_n({k:c//g for k,c in d.t.items()})
    return Cond({'lt':'i<','le':'i<=','eq':'i=='}[op],d)
def cnot(c):
    if isinstance(c,bool): return not c
    if c.op=='not': return c.a[0]
    if c.op=='r<': return Cond('r<=',neg(c.a))
    if c.op=='r<=': return Cond('r<',neg(c.a))
    if c.op=='i<': return Cond('i<=',imul(c.a,-1))
    if c.op=='i<=': return Cond('i<',imul(c.a,-1))
    if c.op=='and': return cor(*[cnot(x) for x in c.a])
    if c.op=='or': return cand(*[cnot(x) for x in c.a])
    return Cond('not',(c,))
def cand(*cs):
    out=[]
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c)
    if not out: return True
    if len(out)==1: return out[0]
    return Cond('and',tuple(out))
def cor(*cs):
    out=[]
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c)
    if not out: return False
    if len(out)==1: return out[0]
    return Cond('or',tuple(out))
