"""Back ends that discharge the real-arithmetic obligations.

identity back end ("pit"): an obligation A == B over exact reals is decided by
  evaluating both DAGs in the prime field F_p, p = 2^127-1, at random points
  (Schwartz-Zippel). sqrt/sin/cos/acos/asin/atan2 are interpreted as algebraic
  functions (sqrt: a memoised random root; sin/cos: a memoised point of the unit
  circle, with the addition theorem for integer multiples and halves), every
  other function is uninterpreted (memoised by argument value).  A refutation is
  a genuine algebraic counter-model; an acceptance errs with probability below
  deg/2^127 per sample.
series back end: the same over truncated Laurent series in a parameter, for the
  agreement order of near-singular branches.
z3 back end: inequalities / feasibility, integers.
numeric back end: numpy / mpmath evaluation, for replay only.
"""
import random, math
from fractions import Fraction
import sym as S
from sym import E, IP, Cond, topo, kids

P=(1<<127)-1
class Retry(Exception): pass

def inv(a):
    a%=P
    if a==0: raise Retry('div0')
    return pow(a,-1,P)

_SQT={}
for _a in range(1,17):
    for _b in range(1,17):
        if math.gcd(_a,_b)==1: _SQT[_a*_a*pow(_b*_b,-1,P)%P]=_a*pow(_b,-1,P)%P
class Mod:
    def __init__(s,rng):
        s.rng=rng; s.symv={}; s.sq={}; s.ang=[]; s.un={}; s.acosm={}; s.at2={}
        s.val={}
    def rnd(s): return s.rng.randrange(1,P)
    def sqrt(s,x):
        if x==0: return 0
        r=s.sq.get(x)
        if r is None:
            r=_SQT.get(x)             # rational squares: the positive root
            if r is None:
                r=pow(x,(P+1)//4,P)
                if r*r%P!=x: raise Retry('nonresidue')
                # sqrt(k^2 y)=k sqrt(y), sqrt(y z)=sqrt(y)sqrt(z), sqrt(y/z)=sqrt(y)/sqrt(z)  (y,z>=0, k>0 rational)
                h=s._related(x)
                if h is not None: r=h
                elif s.rng.random()<.5: r=P-r
            s.sq[x]=r
        return r
    def _related(s,x):
        ks=list(s.sq.items())[:40]
        ix=None
        for y,ry in ks:
            t=x*inv(y)%P
            k=_SQT.get(t)
            if k is not None: return ry*k%P
            k=_SQT.get(x*y%P)
            if k is not None: return k*inv(ry)%P
        if len(ks)<=14:
            for i,(y,ry) in enumerate(ks):
                t=x*inv(y)%P
                for z,rz in ks[i:]:
                    k=_SQT.get(t*inv(z)%P)
                    if k is not None: return ry*rz*k%P
                for z,rz in ks:
                    if z==y: continue
                    k=_SQT.get(t*z%P)
                    if k is not None: return ry*k*inv(rz)%P
        return None
    # angles: list of [value, cos, sin]
    def newangle(s,v,c=None,sn=None):
        if c is None:
            # base v/4 : random point on circle
            t=s.rnd(); d=inv(1+t*t)
            c=(1-t*t)*d%P; sn=2*t*d%P
            v=v*inv(4)%P
        s.ang.append([v,c,sn])
        return len(s.ang)-1
    @staticmethod
    def mult(k,c,sn):
        if k<0: sn=-sn; k=-k
        rc,rs=1,0
        for _ in range(k): rc,rs=(rc*c-rs*sn)%P,(rs*c+rc*sn)%P
        return rc,rs
    def trig(s,v):
        if v==0: return 1,0
        r=s.trig1(v)
        if r: return r
        pi=s.symv.get('$pi')
        if pi is not None:
            for k in(1,-1,2,-2,3,-3,4,-4):
                w=(v-k*pi)%P
                if w==0: return (P-1 if k%2 else 1),0
                r=s.trig1(w)
                if r: return (r if k%2==0 else ((-r[0])%P,(-r[1])%P))
            w=(2*v-pi)%P      # pi/2 + x
            if w==0: return 0,1
            for k in(1,-1,3,-3):
                r=s.trig1((v-k*pi*inv(2))%P)
                if r:
                    c,sn=r; return ((-sn)%P,c) if k%4==1 else (sn,(-c)%P)
        r=s.anglesum(v)
        if r: return r
        i=s.newangle(v); a=s.ang[i]
        return s.mult(4,a[1],a[2])
    def anglesum(s,v):
        """v as the sum of small multiples of two known angles"""
        n=len(s.ang)
        if n<2 or n>24: return None
        tab={}
        for i,a in enumerate(s.ang):
            for k in range(-16,17):
                if k: tab.setdefault(k*a[0]%P,(i,k))
        for i,a in enumerate(s.ang):
            for k in range(-16,17):
                if not k: continue
                t=tab.get((v-k*a[0])%P)
                if t and t[0]!=i:
                    c1,s1=s.mult(k,a[1],a[2]); b=s.ang[t[0]]; c2,s2=s.mult(t[1],b[1],b[2])
                    return (c1*c2-s1*s2)%P,(s1*c2+c1*s2)%P
        return None
    def trig1(s,v):
        for a in s.ang:
            r=v*inv(a[0])%P
            for sg in(1,-1):
                q=r if sg==1 else P-r
                if q<=64: return s.mult(sg*q,a[1],a[2])
            # halves
            for h in(2,4,8):
                q=r*h%P
                for sg in(1,-1):
                    qq=q if sg==1 else P-q
                    if qq<=64:
                        # refine base to a/h
                        hh=h
                        while hh>1:
                            c2=s.sqrt((1+a[1])*inv(2)%P); 
                            if c2==0: raise Retry('half')
                            s2=a[2]*inv(2*c2)%P
                            a[0]=a[0]*inv(2)%P; a[1]=c2; a[2]=s2; hh//=2
                        return s.mult(sg*qq,a[1],a[2])
        return None
    def acos(s,x):
        r=s.acosm.get(x)
        if r is None:
            if x==1: return 0
            # acos(-x)=pi-acos(x) is left uninterpreted
            r=s.rnd(); s.acosm[x]=r
            s.newangle(r,x,s.sqrt((1-x*x)%P))
        return r
    def asin(s,x):
        if x==0: return 0
        k=('asin',x)
        r=s.acosm.get(k)
        if r is None:
            n=s.acosm.get(('asin',(P-x)%P))
            if n is not None: r=(P-n)%P
            else:
                r=s.rnd(); s.newangle(r,s.sqrt((1-x*x)%P),x)
            s.acosm[k]=r
        return r
    def atan2(s,y,x):
        if y==0 and x==0: raise Retry('atan2(0,0)')
        h=s.sqrt((x*x+y*y)%P)
        if h==0: raise Retry('h0')
        ih=inv(h); c,sn=x*ih%P,y*ih%P
        k=(c,sn)
        r=s.at2.get(k)
        if r is None:
            n=s.at2.get((c,(P-sn)%P))
            if sn==0 and c==1: r=0
            elif n is not None: r=(P-n)%P
            else:
                r=s.rnd(); s.newangle(r,c,sn)
            s.at2[k]=r
        return r
    def fnv(s,name,args):
        if name=='sqrt': return s.sqrt(args[0])
        if name=='fabs': return s.sqrt(args[0]*args[0]%P)
        if name=='sin': return s.trig(args[0])[1]
        if name=='cos': return s.trig(args[0])[0]
        if name=='acos': return s.acos(args[0])
        if name=='asin': return s.asin(args[0])
        if name=='atan2': return s.atan2(*args)
        if name=='pow' and False: pass
        k=(name,)+tuple(args)
        r=s.un.get(k)
        if r is None: r=s.un[k]=s.rnd()
        return r
    def symval(s,a):
        r=s.symv.get(a)
        if r is None: r=s.symv[a]=s.rnd()
        return r
    def eval(s,roots):
        val=s.val
        for e in topo_cached(roots,val):
            op=e.op
            if op=='c': f=e.a; v=f.numerator%P if f.denominator==1 else f.numerator*inv(f.denominator)%P
            elif op in('s','i'): v=s.symval(e.a if op=='s' else ('i',)+tuple(e.a))
            elif op=='+': v=(val[e.a[0].id]+val[e.a[1].id])%P
            elif op=='*': v=val[e.a[0].id]*val[e.a[1].id]%P
            elif op=='neg': v=-val[e.a[0].id]%P
            elif op=='/': v=val[e.a[0].id]*inv(val[e.a[1].id])%P
            else: v=s.fnv(e.a[0],[val[k.id] for k in e.a[1:]])
            val[e.id]=v
        return [val[r.id] for r in roots]

def topo_cached(roots,have):
    out=[]; seen=set(); st=[(r,False) for r in reversed(roots)]
    while st:
        e,done=st.pop()
        if done: out.append(e); continue
        if e.id in seen or e.id in have: continue
        seen.add(e.id); st.append((e,True))
        for k in kids(e):
            if k.id not in seen and k.id not in have: st.append((k,False))
    return out

STAT={'pit_samples':0,'pit_retries':0}
def pit(pairs,seed=1,samples=3,max_tries=1000,pin=None,roots_hint=()):
    """pairs: [(A,B)]; returns list of bool (identity accepted).
    None entries: could not be evaluated"""
    n=len(pairs); ok=[None]*n
    rng=random.Random(seed)
    todo=[i for i in range(n) if pairs[i][0] is not pairs[i][1]]
    for i in range(n):
        if pairs[i][0] is pairs[i][1]: ok[i]=True
    roots=[]
    for i in todo: roots+=[pairs[i][0],pairs[i][1]]
    if not roots: return ok
    got=0; tries=0
    res={i:True for i in todo}
    while got<samples and tries<max_tries:
        tries+=1
        m=Mod(rng)
        if pin:
            for k,v in pin.items(): m.symv[k]=v if not callable(v) else v(rng)
        try:
            for h in roots_hint:           # proved nonnegative: sqrt(h^2)=h
                v=m.eval([h])[0]; m.sq[v*v%P]=v
            vals=m.eval(roots)
        except Retry: continue
        got+=1
        for j,i in enumerate(todo):
            if vals[2*j]!=vals[2*j+1]: res[i]=False
    STAT['pit_samples']+=got; STAT['pit_retries']+=tries-got
    if got<samples:
        # one by one, in case a single root is singular
        if len(todo)>1:
            for i in todo: ok[i]=pit([pairs[i]],seed,samples,100,pin,roots_hint)[0]
            return ok
        return ok
    for i in todo: ok[i]=res[i]
    return ok

# ------------------------------------------------------------------ series
class Ser:
    """eps^v * (c[0]+c[1] eps+...), len(c)=precision"""
    __slots__=('v','c')
    def __init__(s,v,c):
        i=0
        while i<len(c) and c[i]==0: i+=1
        s.v=v+i; s.c=c[i:]
    def coef(s,k):
        if k<s.v: return 0
        if k-s.v<len(s.c): return s.c[k-s.v]
        return None
def s_add(a,b):
    ea=a.v+len(a.c); eb=b.v+len(b.c); e=min(ea,eb)
    v=min(a.v,b.v)
    if e<=v: return Ser(e,[])
    return Ser(v,[((a.coef(k) or 0)+(b.coef(k) or 0))%P for k in range(v,e)])
def s_neg(a): return Ser(a.v,[-x%P for x in a.c])
def s_mul(a,b):
    n=min(len(a.c),len(b.c)); v=a.v+b.v
    c=[0]*n
    for i in range(n):
        x=a.c[i]
        if x:
            for j in range(n-i): c[i+j]+=x*b.c[j]
    return Ser(v,[x%P for x in c])
def s_inv(b):
    if not b.c: raise Retry('series div 0')
    i0=inv(b.c[0]); n=len(b.c); r=[i0]
    for k in range(1,n):
        r.append(-i0*sum(b.c[j]*r[k-j] for j in range(1,k+1))%P)
    return Ser(-b.v,r)
class SerEval(Mod):
    def __init__(s,rng,epsmap,prec=14):
        """epsmap: symbol-name -> list of coefficients callable(rng)->list"""
        super().__init__(rng); s.prec=prec; s.epsmap=epsmap; s.sval={}; s.sersym={}
        s.exact=None
    def k(s,x): return Ser(0,[x]+[0]*(s.prec-1)) if x else Ser(10**6,[])
    def ssqrt(s,a):
        if not a.c:
            if a.v>=10**5: return a
            raise Retry('sqrt of 0 series')
        if a.v%2: raise Retry('odd sqrt')
        r=[s.sqrt(a.c[0])]; i2=inv(2*r[0])
        for k in range(1,len(a.c)):
            r.append((a.c[k]-sum(r[j]*r[k-j] for j in range(1,k)))*i2%P)
        return Ser(a.v//2,r)
    def strig(s,a):
        # constant part
        if a.v<0: raise Retry('trig of pole')
        n=s.prec
        c0=a.coef(0) or 0
        d=Ser(a.v,list(a.c)) if c0==0 else Ser(1,[a.coef(k) for k in range(1,a.v+len(a.c))])
        if c0!=0 and not d.c and len(a.c)==1: d=Ser(1,[])
        # sin d, cos d by Taylor
        if not d.c and d.v>=10**5: sd,cd=s.k(0),s.k(1)
        else:
            sd=s.k(0); cd=s.k(1); t=s.k(1); k=0
            while True:
                k+=1
                t=s_mul(t,d); t=Ser(t.v,[x*inv(k)%P for x in t.c])
                if t.v>=n+2 or k>n+2: break
                if k%2: sd=s_add(sd,t if k%4==1 else s_neg(t))
                else: cd=s_add(cd,t if k%4==0 else s_neg(t))
        if c0==0: return cd,sd
        cc,ss=s.trig(c0)
        cc,ss=s.k(cc),s.k(ss)
        return s_add(s_mul(cc,cd),s_neg(s_mul(ss,sd))), s_add(s_mul(ss,cd),s_mul(cc,sd))
    def sdiff(s,a): return Ser(a.v-1,[(a.v+i)*x%P for i,x in enumerate(a.c)])
    def sint(s,a,c0):
        if a.v<0 and any((a.v+i)==-1 and x for i,x in enumerate(a.c)): raise Retry('log')
        if a.v<0: raise Retry('pole integral')
        r=Ser(a.v+1,[x*inv(a.v+i+1)%P for i,x in enumerate(a.c)])
        return s_add(s.k(c0),r) if c0 else r
    def sfn(s,name,a):
        if name=='sqrt': return s.ssqrt(a[0])
        if name=='fabs': return s.ssqrt(s_mul(a[0],a[0]))
        if name=='sin': return s.strig(a[0])[1]
        if name=='cos': return s.strig(a[0])[0]
        if name in('acos','asin'):
            x=a[0]
            w=s_add(s.k(1),s_neg(s_mul(x,x)))
            x0=x.coef(0) or 0
            if x.v<0: raise Retry('acos pole')
            d=s_mul(s.sdiff(x),s_inv(s.ssqrt(w)))
            return s.sint(s_neg(d) if name=='acos' else d, s.acos(x0) if name=='acos' else s.asin(x0))
        if name=='atan2':
            y,x=a
            h=s_add(s_mul(x,x),s_mul(y,y))
            num=s_add(s_mul(s.sdiff(y),x),s_neg(s_mul(s.sdiff(x),y)))
            y0,x0=y.coef(0) or 0,x.coef(0) or 0
            if x.v<0 or y.v<0: raise Retry('atan2 pole')
            if x0==0 and y0==0:
                # common scale eps^m
                m=min(x.v,y.v); y0,x0=y.coef(m),x.coef(m)
            c0=0 if y0==0 else s.atan2(y0,x0)
            return s.sint(s_mul(num,s_inv(h)),c0)
        if all(len(x.c)==0 or (x.v==0 and not any(x.c[1:])) for x in a):
            return s.k(s.fnv(name,[x.coef(0) or 0 for x in a]))
        raise Retry('series of '+name)
    def sev(s,roots):
        val=s.sval
        for e in topo_cached(roots,val):
            op=e.op
            if op=='c':
                f=e.a; v=s.k(f.numerator*inv(f.denominator)%P)
            elif op in('s','i'):
                k=e.a if op=='s' else ('i',)+tuple(e.a)
                if k in s.epsmap:
                    if k not in s.sersym:
                        v0,cs=s.epsmap[k](s.rng)
                        s.sersym[k]=Ser(v0,list(cs)+[0]*(s.prec-len(cs)))
                    v=s.sersym[k]
                else: v=s.k(s.symval(k))
            elif op=='+': v=s_add(val[e.a[0].id],val[e.a[1].id])
            elif op=='*':
                a,b=val[e.a[0].id],val[e.a[1].id]
                if (not a.c and a.v>=10**5) or (not b.c and b.v>=10**5): v=s.k(0)
                else: v=s_mul(a,b)
            elif op=='neg': v=s_neg(val[e.a[0].id])
            elif op=='/':
                a,b=val[e.a[0].id],val[e.a[1].id]
                if not a.c and a.v>=10**5: v=a
                else: v=s_mul(a,s_inv(b))
            else: v=s.sfn(e.a[0],[val[k.id] for k in e.a[1:]])
            val[e.id]=v
        return [val[r.id] for r in roots]
def series_order(pairs,epsnames,seed=1,prec=14,samples=2,max_tries=400,lin=True):
    """lowest power of eps at which A and B differ when every symbol of epsnames is
    scaled by eps (eps*random); returns list of ints (>=prec-ish means no difference
    seen) or None"""
    rng=random.Random(seed)
    n=len(pairs); best=[None]*n; got=0; tries=0
    roots=[x for p in pairs for x in p]
    while got<samples and tries<max_tries:
        tries+=1
        m=SerEval(rng,{k:(lambda r:(1,[r.randrange(1,P)])) for k in epsnames},prec)
        try: v=m.sev(roots)
        except Retry: continue
        got+=1
        for i in range(n):
            d=s_add(v[2*i],s_neg(v[2*i+1]))
            o=d.v if d.c else min(d.v,v[2*i].v+len(v[2*i].c) if v[2*i].v<10**5 else 10**6)
            best[i]=o if best[i] is None else min(best[i],o)
    return best if got==samples else [None]*n

# ------------------------------------------------------------------ numeric
import numpy as np
UNFN={}   # numeric meaning of functions that are uninterpreted in proofs (concrete runs only)
class NumPy:
    """vectorised double evaluation. env: name-> array"""
    def __init__(s,env,n): s.env=env; s.n=n; s.val={}; s.un={}
    def ev(s,roots):
        val=s.val
        with np.errstate(all='ignore'):
            for e in topo_cached(roots,val):
                op=e.op
                if op=='c': v=float(e.a)
                elif op=='s':
                    if e.a=='$pi': v=math.pi
                    elif e.a=='$nan': v=float('nan')
                    elif e.a=='$inf': v=float('inf')
                    elif e.a=='$ninf': v=-float('inf')
                    else: v=s.env[e.a]
                elif op=='i': v=s.env[('i',)+tuple(e.a)]
                elif op=='+': v=val[e.a[0].id]+val[e.a[1].id]
                elif op=='*': v=val[e.a[0].id]*val[e.a[1].id]
                elif op=='neg': v=-val[e.a[0].id]
                elif op=='/': v=np.divide(val[e.a[0].id],val[e.a[1].id])
                else:
                    f={'sqrt':np.sqrt,'sin':np.sin,'cos':np.cos,'acos':np.arccos,'asin':np.arcsin,'atan2':np.arctan2,'exp':np.exp,'log':np.log,
                       'fabs':np.abs,'floor':np.floor,'ceil':np.ceil,'round':lambda x:np.sign(x)*np.floor(np.abs(x)+.5),'trunc':np.trunc,'pow':np.power}.get(e.a[0])
                    if f is None and e.a[0] in UNFN: f=np.vectorize(lambda *a,g=UNFN[e.a[0]]: float(g(*a)),otypes=[float])
                    if f is None: raise Retry('numeric '+e.a[0])
                    v=f(*[val[k.id] for k in e.a[1:]])
                val[e.id]=v
        return [np.broadcast_to(np.asarray(val[r.id],dtype=float),(s.n,)) for r in roots]
    def cond(s,c):
        if isinstance(c,bool): return np.full(s.n,c)
        if c.op in('r<','r<=','r=='):
            v=s.ev([c.a])[0]
            return {'r<':v<0,'r<=':v<=0,'r==':v==0}[c.op]
        if c.op in('i<','i<=','i=='):
            v=s.int(c.a); return {'i<':v<0,'i<=':v<=0,'i==':v==0}[c.op]
        if c.op=='not': return ~s.cond(c.a[0])
        if c.op=='and':
            r=s.cond(c.a[0])
            for x in c.a[1:]: r=r&s.cond(x)
            return r
        if c.op=='or':
            r=s.cond(c.a[0])
            for x in c.a[1:]: r=r|s.cond(x)
            return r
        raise Retry('cond')
    def int(s,p):
        if isinstance(p,int): return np.full(s.n,p)
        r=np.zeros(s.n)
        for mon,c in p.t.items():
            t=np.full(s.n,float(c))
            for at,pw in mon: t=t*s.env[('i',at)]**pw
            r=r+t
        return r
def csyms(c):
    if isinstance(c,bool): return []
    if c.op in('r<','r<=','r=='): return [c.a]
    if c.op in('and','or','not'):
        r=[]
        for x in c.a: r+=csyms(x)
        return r
    return []
def mp_eval(roots,env,dps=50):
    import mpmath as mp
    val={}
    with mp.workdps(dps):
        for e in topo(roots):
            op=e.op
            if op=='c': v=mp.mpf(e.a.numerator)/e.a.denominator
            elif op=='s':
                v=mp.pi+0 if e.a=='$pi' else mp.mpf('nan') if e.a.startswith('$') and e.a not in env else mp.mpf(env[e.a])
            elif op=='i': v=mp.mpf(env[('i',)+tuple(e.a)])
            elif op=='+': v=val[e.a[0].id]+val[e.a[1].id]
            elif op=='*': v=val[e.a[0].id]*val[e.a[1].id]
            elif op=='neg': v=-val[e.a[0].id]
            elif op=='/':
                d=val[e.a[1].id]; v=val[e.a[0].id]/d if d!=0 else mp.mpf('nan')
            else:
                a=[val[k.id] for k in e.a[1:]]
                n=e.a[0]
                try:
                    v=UNFN[n](*a) if n in UNFN else {'sqrt':mp.sqrt,'sin':mp.sin,'cos':mp.cos,'acos':mp.acos,'asin':mp.asin,'atan2':mp.atan2,'exp':mp.exp,'log':mp.log,'fabs':abs,'floor':mp.floor,'ceil':mp.ceil,'round':lambda x: mp.floor(abs(x)+mp.mpf(1)/2)*mp.sign(x),'pow':mp.power,'trunc':lambda x: mp.floor(abs(x))*mp.sign(x)}[n](*a)
                except (ValueError,ZeroDivisionError): v=mp.mpf('nan')
                if isinstance(v,mp.mpc):
                    v=v.real if abs(v.imag)<mp.mpf(10)**(-dps//2) else mp.mpf('nan')
            val[e.id]=v
        return [val[r.id] for r in roots]

# ------------------------------------------------------------------ z3
import z3
class Z3:
    """real/integer conditions -> z3. trig atoms are abstracted with c^2+s^2=1; sqrt by its definition"""
    def __init__(s): s.rm={}; s.im={}; s.ax=[]; s.memo={}; s.tr={}
    def isy(s,at):
        v=s.im.get(at)
        if v is None:
            if isinstance(at,tuple) and at[0] in('sdiv','srem') :
                a,b=[s.ip(x) for x in at[1:]]
                q=z3.Int('q%d'%len(s.im)); r=z3.Int('r%d'%len(s.im))
                s.ax+= [a==b*q+r, z3.Implies(a>=0,z3.And(r>=0,z3.Implies(b>0,r<b))), z3.Implies(a<=0,z3.And(r<=0,z3.Implies(b>0,-r<b)))]
                v=q if at[0]=='sdiv' else r
                s.im[('sdiv',)+at[1:]]=q; s.im[('srem',)+at[1:]]=r
            elif isinstance(at,tuple) and at[0]=='ashr' and isinstance(at[2],int):
                a=s.ip(at[1]); q=z3.Int('q%d'%len(s.im)); s.ax+=[q*(1<<at[2])<=a, a<(q+1)*(1<<at[2])]; v=q
            else: v=z3.Int('i%d_%s'%(len(s.im),at if isinstance(at,str) else at[0]))
            s.im[at]=v
            if at in S.FTOI: s.ax.append(z3.ToReal(v)==s.real(S.ftoi_real(at)))
        return v
    def ip(s,p):
        if isinstance(p,int): return z3.IntVal(p)
        r=None
        for mon,c in p.t.items():
            t=z3.IntVal(c)
            for at,k in mon:
                for _ in range(k): t=t*s.isy(at)
            r=t if r is None else r+t
        return r if r is not None else z3.IntVal(0)
    def real(s,root):
        for e in topo([root]):
            if e.id in s.memo: continue
            op=e.op
            if op=='c': v=z3.RealVal(str(e.a))
            elif op=='s':
                v=z3.Real(e.a)
                if e.a=='$pi': s.ax+=[v>z3.RealVal('3.14159265358979323846'),v<z3.RealVal('3.14159265358979323847')]
            elif op=='i': v=z3.ToReal(s.isy(e.a[0]))
            elif op=='+': v=s.memo[e.a[0].id]+s.memo[e.a[1].id]
            elif op=='*': v=s.memo[e.a[0].id]*s.memo[e.a[1].id]
            elif op=='neg': v=-s.memo[e.a[0].id]
            elif op=='/':
                d=s.memo[e.a[1].id]; v=z3.Real('d%d'%e.id); s.ax+=[z3.Implies(d!=0,v*d==s.memo[e.a[0].id])]
            else:
                a=[s.memo[k.id] for k in e.a[1:]]; n=e.a[0]
                v=z3.Real('f%d_%s'%(e.id,n))
                if n=='sqrt': s.ax+=[v>=0,z3.Implies(a[0]>=0,v*v==a[0])]
                elif n=='fabs': s.ax+=[v>=0,z3.Or(v==a[0],v==-a[0])]
                elif n in('sin','cos'):
                    k=e.a[1].id; p=s.tr.setdefault(k,{}); p[n]=v
                    s.ax+=[v<=1,v>=-1]
                    if len(p)==2: s.ax+=[p['sin']*p['sin']+p['cos']*p['cos']==1]
                elif n=='floor': s.ax+=[v<=a[0],a[0]<v+1,z3.IsInt(v)]
                elif n=='ceil': s.ax+=[v>=a[0],a[0]>v-1,z3.IsInt(v)]
                elif n=='round': s.ax+=[2*v<=2*a[0]+1,2*v>=2*a[0]-1,z3.IsInt(v)]
                elif n=='trunc': s.ax+=[v<a[0]+1,v>a[0]-1,z3.Implies(a[0]>=0,z3.And(v>=0,v<=a[0])),z3.Implies(a[0]<=0,z3.And(v<=0,v>=a[0])),z3.IsInt(v)]
            s.memo[e.id]=v
        return s.memo[root.id]
    def cond(s,c):
        if isinstance(c,bool): return z3.BoolVal(c)
        if c.op in('r<','r<=','r=='):
            v=s.real(c.a); return {'r<':v<0,'r<=':v<=0,'r==':v==0}[c.op]
        if c.op in('i<','i<=','i=='):
            v=s.ip(c.a); return {'i<':v<0,'i<=':v<=0,'i==':v==0}[c.op]
        if c.op=='not': return z3.Not(s.cond(c.a[0]))
        if c.op=='and': return z3.And(*[s.cond(x) for x in c.a])
        if c.op=='or': return z3.Or(*[s.cond(x) for x in c.a])
        return z3.Bool('a_%s'%(c.a,))
ZT={'n':0,'t':0.,'unknown':0}
def z3_check(conds,timeout=5000,model=False):
    """'sat' / 'unsat' / 'unknown'"""
    import time
    t=time.time()
    z=Z3(); f=[z.cond(c) for c in conds]
    sv=z3.Solver(); sv.set('timeout',timeout); sv.add(*f); sv.add(*z.ax)
    r=str(sv.check()); ZT['n']+=1; ZT['t']+=time.time()-t
    if r=='unknown': ZT['unknown']+=1
    if model: return r,(sv.model() if r=='sat' else None),z
    return r
class Z3L(Z3):
    """integer monomials of degree >1 are opaque (sound for unsat)"""
    def ip(s,p):
        if isinstance(p,int): return z3.IntVal(p)
        r=None
        for mon,c in p.t.items():
            if not mon: t=z3.IntVal(c)
            elif len(mon)==1 and mon[0][1]==1: t=z3.IntVal(c)*s.isy(mon[0][0])
            else:
                v=s.im.get(('mon',mon))
                if v is None: v=s.im[('mon',mon)]=z3.Int('m%d'%len(s.im))
                t=z3.IntVal(c)*v
            r=t if r is None else r+t
        return r if r is not None else z3.IntVal(0)
def z3_linear_unsat(conds,timeout=2000):
    import time
    t=time.time(); z=Z3L(); f=[z.cond(c) for c in conds]
    sv=z3.Solver(); sv.set('timeout',timeout); sv.add(*f); sv.add(*z.ax)
    r=sv.check()==z3.unsat; ZT['n']+=1; ZT['t']+=time.time()-t
    return r
def z3_implies(hyp,goal,timeout=5000):
    """True proved, False refuted, None unknown"""
    if goal is True: return True
    r=z3_check(list(hyp)+[S.cnot(goal)],timeout)
    return True if r=='unsat' else False if r=='sat' else None
