"""Parser for the textual LLVM IR (clang-18) that the real C / C++ sources of
/repo compile to. Only the subset clang emits for this codebase at
-O0 + SROA is supported; anything else raises IRError (the check then ends as
"undecided", never as a pass)."""
import re, struct

class IRError(Exception): pass

# ---------------------------------------------------------------- types
# ('int',n) ('double',) ('float',) ('ptr',) ('void',) ('array',n,T)
# ('struct',(T,..),packed) ('named',name) ('vec',n,T) ('label',) ('metadata',)
_tok = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # char array constant
 | "(?:[^"\\]|\\.)*"
 | [%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)
 | ![a-zA-Z0-9_.]*
 | \#\d+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d*(?:[eE][-+]?\d+)?
 | -?\d+
 | \.\.\.
 | [a-zA-Z_][a-zA-Z0-9_.]*
 | [(){}\[\]<>,=*:|]
''', re.X)

def tokenize(s):
    out=[]; pos=0; n=len(s)
    for m in _tok.finditer(s):
        if s[pos:m.start()].strip():
            if s[pos:m.start()].strip().startswith(';'): return out
            raise IRError("lex: %r in %r"%(s[pos:m.start()],s))
        pos=m.end(); out.append(m.group(0))
    rest=s[pos:].strip()
    if rest and not rest.startswith(';'): raise IRError("lex tail %r"%rest)
    return out

PARAM_ATTRS={'noundef','nonnull','signext','zeroext','noalias','nocapture','readonly','writeonly','readnone',
 'returned','immarg','inreg','nest','swiftself','dead_on_unwind','writable','noreturn','nofree','allocptr'}
SKIP_WITH_PAREN={'dereferenceable','dereferenceable_or_null','sret','byval','elementtype','align','memory','captures','range','initializes'}
LINKAGE={'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external',
 'dso_local','dso_preemptable','hidden','protected','default','unnamed_addr','local_unnamed_addr','dllimport','dllexport','thread_local'}

class P:
    def __init__(self,toks,mod): self.t=toks; self.i=0; self.mod=mod
    def peek(self,k=0): return self.t[self.i+k] if self.i+k<len(self.t) else None
    def next(self):
        x=self.t[self.i]; self.i+=1; return x
    def eat(self,x):
        if self.peek()==x: self.i+=1; return True
        return False
    def expect(self,x):
        if not self.eat(x): raise IRError("expected %r got %r in %r"%(x,self.peek(),' '.join(self.t)))
    def type(self):
        t=self.next()
        if t=='void': r=('void',)
        elif t=='double': r=('double',)
        elif t=='float': r=('float',)
        elif t=='ptr': r=('ptr',)
        elif t=='label': r=('label',)
        elif t=='metadata': r=('metadata',)
        elif t=='x86_fp80': r=('x86_fp80',)
        elif re.fullmatch(r'i\d+',t): r=('int',int(t[1:]))
        elif t[0]=='%': r=('named',t[1:].strip('"'))
        elif t=='[':
            n=int(self.next()); self.expect('x'); e=self.type(); self.expect(']'); r=('array',n,e)
        elif t=='{':
            r=self._struct(False)
        elif t=='<':
            if self.peek()=='{':
                self.next(); r=self._struct(True); self.expect('>')
            else:
                n=int(self.next()); self.expect('x'); e=self.type(); self.expect('>'); r=('vec',n,e)
        else: raise IRError("type? %r in %r"%(t,' '.join(self.t)))
        # function type
        if self.peek()=='(' and r[0] not in ('label',):
            # only used in call instrs w/ varargs: ty (args...)
            depth=0; j=self.i
            self.next(); depth=1
            while depth:
                x=self.next()
                if x=='(':depth+=1
                elif x==')':depth-=1
            r=('func',r)
        return r
    def _struct(self,packed):
        fs=[]
        if not self.eat('}'):
            while True:
                fs.append(self.type())
                if self.eat('}'): break
                self.expect(',')
        return ('struct',tuple(fs),packed)
    def skip_attrs(self):
        attrs={}
        while True:
            t=self.peek()
            if t is None: return attrs
            if t in PARAM_ATTRS: self.next(); attrs[t]=True
            elif t in SKIP_WITH_PAREN:
                self.next()
                if self.peek()=='(':
                    self.next(); depth=1; j0=self.i
                    if t in('sret','byval'):
                        attrs[t]=self.type(); self.expect(')')
                        continue
                    while depth:
                        x=self.next()
                        if x=='(':depth+=1
                        elif x==')':depth-=1
                elif t=='align': self.next()
            elif t[0]=='#': self.next()
            else: return attrs
    # constants / operands of known type -> operand
    # operand: ('v',name) local | ('c',pyvalue) | ('g',name) | ('undef',) | ('null',) | ('agg',[ops]) | ('zero',) | ('ce',op,...)
    def operand(self,ty):
        t=self.next()
        if t[0]=='%': return ('v',t[1:].strip('"'))
        if t[0]=='@': return ('g',t[1:].strip('"'))
        if t=='true': return ('c',1)
        if t=='false': return ('c',0)
        if t=='null': return ('null',)
        if t in('undef','poison'): return ('undef',)
        if t=='zeroinitializer': return ('zero',)
        if t=='none': return ('zero',)
        if t.startswith('c"'):
            s=t[2:-1]; b=bytearray(); i=0
            while i<len(s):
                if s[i]=='\\':
                    if s[i+1]=='\\': b.append(92); i+=2
                    else: b.append(int(s[i+1:i+3],16)); i+=3
                else: b.append(ord(s[i])); i+=1
            return ('bytes',bytes(b))
        if t in('[','{') or (t=='<'):
            close={'[':']','{':'}','<':'>'}[t]
            if t=='<' and self.peek()=='{': self.next(); close='}'; pk=True
            else: pk=False
            ops=[]
            if not self.eat(close):
                while True:
                    et=self.type(); ops.append((et,self.operand(et)))
                    if self.eat(close): break
                    self.expect(',')
            if pk: self.expect('>')
            return ('agg',ops)
        if t in('getelementptr',):
            inb=self.eat('inbounds'); self.expect('(')
            bt=self.type(); self.expect(',')
            args=[]
            while True:
                et=self.type(); args.append((et,self.operand(et)))
                if self.eat(')'): break
                self.expect(',')
            return ('ce_gep',bt,args)
        if t in('ptrtoint','inttoptr','bitcast','trunc','zext','sext'):
            self.expect('('); et=self.type(); o=self.operand(et); self.expect('to'); tt=self.type(); self.expect(')')
            return ('ce_cast',t,et,o,tt)
        if t in ('sub','add','mul'):
            while self.peek() in('nuw','nsw'): self.next()
            self.expect('('); et=self.type(); a=self.operand(et); self.expect(','); et2=self.type(); b=self.operand(et2); self.expect(')')
            return ('ce_bin',t,et,a,b)
        if ty[0] in('double','float'):
            if t.startswith('0x'):
                return ('c',struct.unpack('>d',bytes.fromhex(t[2:].zfill(16)))[0])
            return ('c',float(t))
        if ty[0]=='int':
            return ('c',int(t))
        raise IRError("operand? %r (type %r) in %r"%(t,ty,' '.join(self.t)))
    def typed_operand(self):
        ty=self.type(); attrs=self.skip_attrs()
        return ty,self.operand(ty)

class Function:
    __slots__=("_loops","_defs",'name','rettype','params','blocks','lines','parsed','mod','vararg','labels','order','entry','info')
    def __init__(self): self.parsed=False; self.info={}

class Instr:
    __slots__=('op','dst','ty','a','line')
    def __init__(self,op,dst,ty,a,line): self.op=op; self.dst=dst; self.ty=ty; self.a=a; self.line=line
    def __repr__(self): return "%s = %s %r"%(self.dst,self.op,self.a)

class Module:
    def __init__(self,path=None):
        self.types={}; self.globals={}; self.funcs={}; self.decls=set()
        self._sz={}
        if path: self.load(path)
    def load(self,path):
        lines=open(path,encoding='latin1').read().split('\n')
        i=0; n=len(lines)
        while i<n:
            l=lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm,rest=l.split(' = type ',1)
                if rest.strip()=='opaque': self.types[nm[1:].strip('"')]=('struct',(),False)
                else: self.types[nm[1:].strip('"')]=P(tokenize(rest),self).type()
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('define'):
                f=Function(); f.mod=self
                hdr=l; j=i+1; body=[]
                while lines[j]!='}': body.append(lines[j]); j+=1
                self._header(hdr,f); f.lines=body
                # internal duplicates across modules are not merged: one Module per TU
                self.funcs[f.name]=f
                i=j
            elif l.startswith('declare'):
                m=re.search(r'@([-\w$.]+)\(',l)
                if m: self.decls.add(m.group(1))
            i+=1
    def _global(self,l):
        nm,rest=l.split(' = ',1)
        toks=tokenize(rest); p=P(toks,self)
        name=nm[1:].strip('"')
        const=False
        ext=False
        while True:
            t=p.peek()
            if t in LINKAGE:
                if t in('external','extern_weak'): ext=True
                p.next()
                if t=='thread_local' and p.peek()=='(':
                    while p.next()!=')': pass
            elif t in('addrspace','comdat'): p.next()
            elif t in('global','constant'): const=(t=='constant'); p.next(); break
            elif t=='alias':
                p.next(); p.type(); p.expect(','); ty=p.type(); o=p.operand(ty)
                self.globals[name]=('alias',o); return
            else: raise IRError('global? '+l[:200])
        ty=p.type()
        init=None
        if not ext and p.peek() not in (None,','): init=p.operand(ty)
        self.globals[name]=(ty,init,const)
    def _header(self,l,f):
        toks=tokenize(l.rstrip('{ ')); p=P(toks,self)
        p.expect('define')
        while p.peek() in LINKAGE: p.next()
        p.skip_attrs()
        f.rettype=p.type()
        n=p.next(); assert n[0]=='@',l
        f.name=n[1:].strip('"')
        p.expect('('); f.params=[]; f.vararg=False
        k=0
        if not p.eat(')'):
            while True:
                if p.eat('...'): f.vararg=True; p.expect(')'); break
                ty=p.type(); attrs=p.skip_attrs()
                if p.peek() and p.peek()[0]=='%': nm=p.next()[1:].strip('"')
                else: nm=str(k)
                f.params.append((ty,nm,attrs)); k+=1
                if p.eat(')'): break
                p.expect(',')
    # ---- layout
    def resolve(self,ty):
        while ty[0]=='named': ty=self.types[ty[1]]
        return ty
    def align(self,ty):
        ty=self.resolve(ty)
        k=ty[0]
        if k=='int': return max(1,min(8,(ty[1]+7)//8)) if ty[1] not in (24,40,48,56) else {24:4,40:8,48:8,56:8}[ty[1]]
        if k in('double','ptr'): return 8
        if k=='float': return 4
        if k=='x86_fp80': return 16
        if k=='array': return self.align(ty[2])
        if k=='vec': return self.size(ty)
        if k=='struct':
            if ty[2]: return 1
            return max([self.align(x) for x in ty[1]] or [1])
        raise IRError('align %r'%(ty,))
    def size(self,ty):
        if ty in self._sz: return self._sz[ty]
        r=self._size(ty); self._sz[ty]=r; return r
    def _size(self,ty):
        ty=self.resolve(ty); k=ty[0]
        if k=='int':
            b=(ty[1]+7)//8
            s=1
            while s<b: s*=2
            return s
        if k in('double','ptr'): return 8
        if k=='float': return 4
        if k=='x86_fp80': return 16
        if k=='array': return ty[1]*self.size(ty[2])
        if k=='vec': return ty[1]*self.size(ty[2])
        if k=='struct':
            return self.offsets(ty)[1]
        raise IRError('size %r'%(ty,))
    def offsets(self,ty):
        ty=self.resolve(ty); o=0; offs=[]
        al=1
        for f in ty[1]:
            a=1 if ty[2] else self.align(f)
            al=max(al,a)
            o=(o+a-1)//a*a; offs.append(o); o+=self.size(f)
        o=(o+al-1)//al*al
        return offs,o
    # ---- function bodies
    def get(self,name):
        f=self.funcs.get(name)
        if f is None: return None
        if not f.parsed: self._parse_body(f)
        return f
    def _parse_body(self,f):
        # implicit numbering: with -fno-discard-value-names almost everything is
        # named; unnamed values use numbers written explicitly in the text.
        f.blocks={}; f.order=[]
        cur=None; entry=None
        lines=[]
        # join multi-line switch
        buf=None
        for l in f.lines:
            if buf is not None:
                buf+=' '+l.strip()
                if l.strip()==']': lines.append(buf); buf=None
                continue
            s=l.strip()
            if s.startswith('switch ') and s.endswith('['): buf=s; continue
            lines.append(l)
        for l in lines:
            if not l.strip() or l.strip().startswith(';'): continue
            if not l.startswith(' ') and not l.startswith('switch'):
                m=re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):',l)
                if not m: raise IRError('label? '+l)
                cur=m.group(1).strip('"'); f.blocks[cur]=[]; f.order.append(cur); continue
            if cur is None:
                cur='%entry_implicit'; f.blocks[cur]=[]; f.order.append(cur)
            f.blocks[cur].append(self._instr(l.strip()))
        f.entry=f.order[0]
        if f.entry=='%entry_implicit':
            # implicit label number == number of params (unnamed)
            pass
        f.parsed=True
    def _instr(self,l):
        # strip metadata
        l0=l
        l=re.sub(r',\s*![\w.]+\s+![\w]+','',l)
        toks=tokenize(l); p=P(toks,self)
        dst=None
        if len(toks)>1 and toks[1]=='=':
            dst=toks[0][1:].strip('"'); p.i=2
        op=p.next()
        I=lambda ty,a: Instr(op,dst,ty,a,l0)
        if op in('tail','notail','musttail'): op=p.next()
        if op=='alloca':
            p.eat('inalloca'); ty=p.type(); n=None; 
            if p.eat(','):
                if p.peek()!='align':
                    n=p.typed_operand()
            return I(ty,n)
        if op=='load':
            p.eat('volatile'); ty=p.type(); p.expect(','); _,o=p.typed_operand(); return I(ty,o)
        if op=='store':
            p.eat('volatile'); ty,o=p.typed_operand(); p.expect(','); _,ptr=p.typed_operand(); return I(ty,(o,ptr))
        if op=='getelementptr':
            while p.peek() in('inbounds','nuw','nusw'): p.next()
            bt=p.type(); args=[]
            while p.eat(','):
                args.append(p.typed_operand())
            return I(bt,args)
        if op in('add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor',
                 'fadd','fsub','fmul','fdiv','frem'):
            flags=[]
            while p.peek() in('nuw','nsw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint'): flags.append(p.next())
            ty=p.type(); a=p.operand(ty); p.expect(','); b=p.operand(ty); return I(ty,(a,b,tuple(flags)))
        if op=='fneg':
            ty=p.type(); return I(ty,p.operand(ty))
        if op in('icmp','fcmp'):
            pred=p.next(); ty=p.type(); a=p.operand(ty); p.expect(','); b=p.operand(ty); return I(ty,(pred,a,b))
        if op in('sext','zext','trunc','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','ptrtoint','inttoptr','bitcast'):
            p.eat('nneg')
            ty=p.type(); o=p.operand(ty); p.expect('to'); tt=p.type(); return I(tt,(ty,o))
        if op=='select':
            ct,c=p.typed_operand(); p.expect(','); ty,a=p.typed_operand(); p.expect(','); _,b=p.typed_operand(); return I(ty,(c,a,b))
        if op=='phi':
            ty=p.type(); inc=[]
            while True:
                p.expect('['); v=p.operand(ty); p.expect(','); b=p.next()[1:].strip('"'); p.expect(']'); inc.append((b,v))
                if not p.eat(','): break
            return I(ty,dict(inc))
        if op=='br':
            if p.eat('label'):
                return I(None,(p.next()[1:].strip('"'),))
            ty,c=p.typed_operand(); p.expect(','); p.expect('label'); a=p.next()[1:].strip('"'); p.expect(','); p.expect('label'); b=p.next()[1:].strip('"')
            return I(None,(c,a,b))
        if op=='switch':
            ty,c=p.typed_operand(); p.expect(','); p.expect('label'); d=p.next()[1:].strip('"'); p.expect('[')
            cases=[]
            while not p.eat(']'):
                t2=p.type(); v=p.operand(t2); p.expect(','); p.expect('label'); cases.append((v[1],p.next()[1:].strip('"')))
            return I(ty,(c,d,cases))
        if op=='ret':
            ty=p.type()
            if ty[0]=='void': return I(ty,None)
            return I(ty,p.operand(ty))
        if op=='call':
            while p.peek() in('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            p.skip_attrs()
            while p.peek() in LINKAGE: p.next()
            ty=p.type()
            if ty[0]=='func': ty=ty[1]
            t=p.next()
            if t[0]=='@': callee=('g',t[1:].strip('"'))
            elif t[0]=='%': callee=('v',t[1:].strip('"'))
            elif t=='asm': return Instr('asm',dst,ty,l0,l0)
            else: raise IRError('call? '+l)
            p.expect('('); args=[]
            if not p.eat(')'):
                while True:
                    at=p.type(); attrs=p.skip_attrs()
                    if at[0]=='metadata':
                        # skip
                        while p.peek() not in(',',')'): p.next()
                        args.append((at,None,attrs))
                    else:
                        args.append((at,p.operand(at),attrs))
                    if p.eat(')'): break
                    p.expect(',')
            return Instr('call',dst,ty,(callee,args),l0)
        if op=='unreachable': return I(None,None)
        if op in('extractvalue',):
            ty,o=p.typed_operand(); idx=[]
            while p.eat(','): idx.append(int(p.next()))
            return I(ty,(o,idx))
        if op=='insertvalue':
            ty,o=p.typed_operand(); p.expect(','); t2,v=p.typed_operand(); idx=[]
            while p.eat(','): idx.append(int(p.next()))
            return I(ty,(o,v,idx,t2))
        if op=='freeze':
            ty,o=p.typed_operand(); return I(ty,o)
        raise IRError('instr? '+l0)
