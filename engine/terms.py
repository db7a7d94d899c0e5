"""Real/integer term language, formulas, z3 bridge and numeric evaluation.

Poly  : canonical sum of monomials  {mono: Fraction};  mono = tuple of (Atom, exponent Fraction), sorted by atom id
Atom  : interned symbolic quantity (variables, ln(..), sum(..), sequence elements ...)
F     : formulas over Poly
"""
from fractions import Fraction as Q
import itertools, math
import z3

class Unsupported(Exception): pass

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__=('id','kind','args','sort','lvl','_h')
    def __repr__(self): return show_atom(self)
    def __lt__(self,o): return self.id<o.id
_tab={}
_ids=itertools.count()
def atom(kind,*args,sort='real'):
    key=(kind,args,sort)
    a=_tab.get(key)
    if a is None:
        a=Atom(); a.id=next(_ids); a.kind=kind; a.args=args; a.sort=sort
        a.lvl=_level(args)
        if kind in('sum','prod','fold','lam','max'): a.lvl=max(a.lvl,0)+0
        _tab[key]=a
    return a
def _level(args):
    m=0
    for x in args:
        if isinstance(x,Poly): m=max(m,x.lvl())
        elif isinstance(x,F): m=max(m,x.lvl())
        elif isinstance(x,Atom): m=max(m,x.lvl)
        elif isinstance(x,tuple): m=max(m,_level(x))
        elif isinstance(x,str) and x.startswith('#'): m=max(m,int(x[1:])+1)
    return m

class Poly:
    __slots__=('t','_h','_l','_c')
    def __init__(self,t):
        self.t=t; self._h=None; self._l=None; self._c=None
    def __hash__(self):
        if self._h is None: self._h=hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self,o):
        if isinstance(o,Poly): return self.t==o.t
        if isinstance(o,(int,Q)): return self.t==const(o).t
        return NotImplemented
    def lvl(self):
        if self._l is None:
            m=0
            for mo in self.t:
                for a,_ in mo: m=max(m,a.lvl)
            self._l=m
        return self._l
    def __add__(self,o):
        o=P(o); r=dict(self.t)
        for m,c in o.t.items():
            v=r.get(m,0)+c
            if v==0: r.pop(m,None)
            else: r[m]=v
        return Poly(r)
    __radd__=__add__
    def __neg__(self): return Poly({m:-c for m,c in self.t.items()})
    def __sub__(self,o): return self+(-P(o))
    def __rsub__(self,o): return P(o)+(-self)
    def __mul__(self,o):
        o=P(o); r={}
        extra=None
        for m1,c1 in self.t.items():
            for m2,c2 in o.t.items():
                m,fix=mono_mul(m1,m2)
                c=c1*c2
                if fix is None:
                    v=r.get(m,0)+c
                    if v==0: r.pop(m,None)
                    else: r[m]=v
                else:
                    x=Poly({m:c})
                    for f in fix: x=x*f
                    extra=x if extra is None else extra+x
        p=Poly(r)
        return p if extra is None else p+extra
    __rmul__=__mul__
    def __truediv__(self,o): return self*inv(P(o))
    def __rtruediv__(self,o): return P(o)*inv(self)
    def __pow__(self,n):
        if isinstance(n,int):
            if n>=0:
                r=ONE
                for _ in range(n): r=r*self
                return r
            return inv(self)**(-n)
        return ppow(self,Q(n))
    def isconst(self): return not self.t or (len(self.t)==1 and () in self.t)
    def cval(self):
        if not self.t: return Q(0)
        if len(self.t)==1 and () in self.t: return self.t[()]
        return None
    def atoms(self):
        s=set()
        for m in self.t:
            for a,_ in m: s.add(a)
        return s
    def isint(self):
        for m,c in self.t.items():
            if c.denominator!=1: return False
            for a,e in m:
                if a.sort!='int' or e.denominator!=1 or e<0: return False
        return True
    def __repr__(self): return show(self)
    # comparison builders
    def le(self,o): return F_le(self-P(o))
    def lt(self,o): return F_lt(self-P(o))
    def ge(self,o): return F_le(P(o)-self)
    def gt(self,o): return F_lt(P(o)-self)
    def eq(self,o): return F_eq(self-P(o))
    def ne(self,o): return Not(F_eq(self-P(o)))

def mono_mul(m1,m2):
    if not m1: return m2,None
    if not m2: return m1,None
    d=dict(m1)
    for a,e in m2:
        v=d.get(a,0)+e
        if v==0: d.pop(a,None)
        else: d[a]=v
    fix=None
    for a in list(d):
        if a.kind=='P' and d[a]>=1:
            n=int(math.floor(d[a])); rest=d[a]-n
            if rest==0: d.pop(a)
            else: d[a]=rest
            fix=fix or []
            fix.extend([a.args[0]]*n)
    return tuple(sorted(d.items(),key=lambda x:x[0].id)),fix

def const(c): 
    c=Q(c)
    return Poly({():c}) if c!=0 else Poly({})
ZERO=const(0); ONE=const(1)
def P(x):
    if isinstance(x,Poly): return x
    if isinstance(x,Atom): return Poly({((x,Q(1)),):Q(1)})
    if isinstance(x,float): return const(Q(repr(x)))
    return const(x)
def var(name,sort='real'): return P(atom('var',name,sort=sort))
def ivar(name): return var(name,'int')
def bvar(l): return P(atom('var','#%d'%l,sort='int'))

def content(p):
    """p = c * mono * q with q having leading coefficient 1 and no common monomial"""
    items=list(p.t.items())
    # common monomial: only over atoms present in all monos with integer part min exponent
    com=None
    for m,_ in items:
        d=dict(m)
        if com is None: com=d
        else:
            n={}
            for a in set(com)|set(d):
                e1=com.get(a,Q(0)); e2=d.get(a,Q(0))
                e=min(e1,e2)
                if e!=0: n[a]=e
            com=n
    mono=tuple(sorted(com.items(),key=lambda x:x[0].id))
    invm=tuple((a,-e) for a,e in mono)
    q=p*Poly({invm:Q(1)}) if mono else p
    lead=max(q.t.items(),key=lambda kv:mkey(kv[0]))[1]
    c=lead
    if c<0: pass
    q=Poly({m:x/c for m,x in q.t.items()})
    return c,mono,q
def mkey(m): return (sum(e for _,e in m),tuple((-a.id,e) for a,e in m))

def inv(p):
    c=p.cval()
    if c is not None:
        if c==0: raise ZeroDivisionError
        return const(1/c)
    if len(p.t)==1:
        (m,c),=p.t.items()
        return Poly({tuple((a,-e) for a,e in m):1/c}) if all(not(a.kind=='P' and -e>=1) for a,e in m) else (Poly({tuple((a,-e) for a,e in m if a.kind!='P'):1/c})*_pp([(a,-e) for a,e in m if a.kind=='P']))
    c,mono,q=content(p)
    r=Poly({((atom('P',q),Q(-1)),):1/c})
    if mono: r=r*inv(Poly({mono:Q(1)}))
    return r
def _pp(l):
    r=ONE
    for a,e in l:
        if e>=1:
            n=int(math.floor(e))
            for _ in range(n): r=r*a.args[0]
            e=e-n
        if e!=0: r=r*Poly({((a,e),):Q(1)})
    return r
def ppow(p,e):
    """p**e for rational e; p assumed to be in the domain (>=0)"""
    e=Q(e)
    if e.denominator==1: return p**int(e)
    c=p.cval()
    if c is not None:
        if c==0: return ZERO
        if c==1: return ONE
        r=ONE
        for pr,k in factor_q(c).items():
            r=r*prime_pow(pr,k*e)
        return r
    if len(p.t)==1:
        (m,c),=p.t.items()
        if c==1 and len(m)==1 and m[0][1]==1: return Poly({((m[0][0],e),):Q(1)})
    n=math.floor(e)
    a=atom('P',p)
    r=Poly({((a,e-n),):Q(1)})
    return r*(p**int(n)) if n else r
def prime_pow(pr,e):
    n=math.floor(e); fr=e-n
    r=const(Q(pr)**int(n))
    if fr: r=r*Poly({((atom('P',const(pr)),fr),):Q(1)})
    return r
def factor_q(q):
    r={}
    for s,n in ((1,abs(q.numerator)),(-1,q.denominator)):
        if n>10**24: r[n]=r.get(n,0)+s; continue
        d=2
        while d*d<=n and d<200000:
            while n%d==0: r[d]=r.get(d,0)+s; n//=d
            d+=1
        if n>1: r[n]=r.get(n,0)+s
    return {k:Q(v) for k,v in r.items() if v}

# elementary functions (raw constructors)
PI=P(atom('pi'))
def ln(p):
    p=P(p)
    if p==ONE: return ZERO
    return P(atom('ln',p))
def exp(p):
    p=P(p)
    r=ONE
    for m,c in p.t.items():
        r=r*Poly({((atom('exp',Poly({m:Q(1)})),c),):Q(1)})
    return r
def sqrt(p): return ppow(P(p),Q(1,2))
def lgamma(p):
    p=P(p); return P(atom('lgamma',p))
def fn(name,*args,sort='real'): return P(atom('fn',name,*[P(a) if isinstance(a,(int,Q,Poly,Atom)) else a for a in args],sort=sort))
def elem(seq,idx,sort='real'): return P(atom('elem',seq,P(idx),sort=sort))
def ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a==b: return a
    if c.k=='not': c,a,b=c.a[0],b,a
    return P(atom('ite',c,a,b,sort='int' if a.isint() and b.isint() else 'real'))
_NEST=[0]
def _binder(kind,lo,hi,f):
    # f : Poly(index) -> Poly
    mk=900+_NEST[0]; _NEST[0]+=1      # distinct marker per nesting depth (no capture)
    try: probe=f(bvar(mk))
    finally: _NEST[0]-=1
    l=_lvl_wo(probe,mk)
    body=subst(probe,{atom('var','#%d'%mk,sort='int'):bvar(l)})
    return P(atom(kind,'#%d'%l,P(lo),P(hi),body,sort='int' if body.isint() else 'real'))
def _lvl_wo(p,n):
    m=0
    def go(x):
        nonlocal m
        if isinstance(x,Poly):
            for mo in x.t:
                for a,_ in mo: go(a)
        elif isinstance(x,Atom):
            for y in x.args: go(y)
        elif isinstance(x,F):
            for y in x.a: go(y)
        elif isinstance(x,tuple):
            for y in x: go(y)
        elif isinstance(x,str) and x[:1]=='#' and x[1:].isdigit():
            k=int(x[1:])
            if k<500: m=max(m,k+1)
    go(p)
    return m
def Sum(lo,hi,f): return _binder('sum',lo,hi,f)
def Prod(lo,hi,f): return _binder('prod',lo,hi,f)
def Max(lo,hi,f): return _binder('max',lo,hi,f)

# ---------------------------------------------------------------- formulas
class F:
    __slots__=('k','a','_h')
    def __init__(self,k,*a): self.k=k; self.a=a; self._h=None
    def __hash__(self):
        if self._h is None: self._h=hash((self.k,self.a))
        return self._h
    def __eq__(self,o): return isinstance(o,F) and self.k==o.k and self.a==o.a
    def lvl(self): return _level(self.a)
    def __and__(self,o): return And(self,o)
    def __or__(self,o): return Or(self,o)
    def __invert__(self): return Not(self)
    def __repr__(self):
        k=self.k
        if k=='le': return '(%r <= 0)'%self.a[0]
        if k=='lt': return '(%r < 0)'%self.a[0]
        if k=='eq': return '(%r = 0)'%self.a[0]
        if k=='b': return str(self.a[0])
        return '%s(%s)'%(k,', '.join(map(repr,self.a)))
TRUE=F('true'); FALSE=F('false')
def B(x): return x if isinstance(x,F) else (TRUE if x else FALSE)
def F_le(p):
    c=p.cval()
    return F('le',p) if c is None else B(c<=0)
def F_lt(p):
    c=p.cval()
    return F('lt',p) if c is None else B(c<0)
def F_eq(p):
    c=p.cval()
    if c is not None: return B(c==0)
    # sign-normalise
    lead=max(p.t.items(),key=lambda kv:mkey(kv[0]))[1]
    return F('eq',p if lead>0 else -p)
def Not(f):
    if f.k=='true': return FALSE
    if f.k=='false': return TRUE
    if f.k=='not': return f.a[0]
    if f.k=='le': return F_lt(-f.a[0])
    if f.k=='lt': return F_le(-f.a[0])
    if f.k=='and': return Or(*[Not(x) for x in f.a])
    if f.k=='or': return And(*[Not(x) for x in f.a])
    return F('not',f)
def And(*fs):
    out=[]
    for f in fs:
        f=B(f)
        if f.k=='false': return FALSE
        if f.k=='true': continue
        if f.k=='and': out.extend(x for x in f.a if x not in out)
        elif f not in out: out.append(f)
    if not out: return TRUE
    return out[0] if len(out)==1 else F('and',*out)
def Or(*fs):
    out=[]
    for f in fs:
        f=B(f)
        if f.k=='true': return TRUE
        if f.k=='false': continue
        if f.k=='or': out.extend(x for x in f.a if x not in out)
        elif f not in out: out.append(f)
    if not out: return FALSE
    return out[0] if len(out)==1 else F('or',*out)
def Implies(a,b): return Or(Not(a),b)
def bvarF(name): return F('b',name)
def IsInt(p):
    return TRUE if p.isint() else F('isint',p)
def Forall(lo,hi,f):
    mk=900+_NEST[0]; _NEST[0]+=1
    try: g=f(bvar(mk))
    finally: _NEST[0]-=1
    if g.k=='true': return TRUE
    l=_lvl_wo(g,mk)
    g=substF(g,{atom('var','#%d'%mk,sort='int'):bvar(l)})
    return F('forall','#%d'%l,P(lo),P(hi),g)

# ---------------------------------------------------------------- substitution
def subst(p,mp):
    """mp: Atom->Poly"""
    memo={}
    def sp(p):
        if p in memo: return memo[p]
        r=ZERO
        changed=False
        for m,c in p.t.items():
            if any(dep(a) for a,_ in m):
                changed=True
                x=const(c)
                for a,e in m:
                    y=sa(a)
                    x=x*mypow(y,e)
                r=r+x
            else: r=r+Poly({m:c})
        if not changed: r=p
        memo[p]=r
        return r
    dmemo={}
    def dep(a):
        if a in dmemo: return dmemo[a]
        r=a in mp or any(depx(x) for x in a.args)
        dmemo[a]=r
        return r
    def depx(x):
        if isinstance(x,Poly): return any(dep(a) for m in x.t for a,_ in m)
        if isinstance(x,Atom): return dep(x)
        if isinstance(x,F): return any(depx(y) for y in x.a)
        if isinstance(x,tuple): return any(depx(y) for y in x)
        return False
    amemo={}
    def sa(a):
        if a in mp: return mp[a]
        if not dep(a): return P(a)
        if a in amemo: return amemo[a]
        args=tuple(sx(x) for x in a.args)
        r=rebuild(a,args)
        amemo[a]=r
        return r
    def sx(x):
        if isinstance(x,Poly): return sp(x)
        if isinstance(x,F): return sF(x)
        if isinstance(x,tuple): return tuple(sx(y) for y in x)
        if isinstance(x,Atom):
            y=sa(x)
            return y
        return x
    def sF(f):
        if f.k in('le','lt','eq'): return {'le':F_le,'lt':F_lt,'eq':F_eq}[f.k](sp(f.a[0]))
        if f.k=='and': return And(*[sF(x) for x in f.a])
        if f.k=='or': return Or(*[sF(x) for x in f.a])
        if f.k=='not': return Not(sF(f.a[0]))
        if f.k in('true','false','b'): return f
        if f.k=='isint': return IsInt(sp(f.a[0]))
        return F(f.k,*[sx(x) for x in f.a])
    if isinstance(p,F): return sF(p)
    return sp(p)
substF=subst
def mypow(y,e):
    e=Q(e)
    if e.denominator==1: return y**int(e)
    return ppow(y,e)
def rebuild(a,args):
    k=a.kind
    if k=='P': return args[0]   # exponent applied by caller
    if k=='ln': return ln(args[0])
    if k=='exp': return exp(args[0])
    if k=='ite': return ite(*args)
    if k=='fn': 
        return P(atom('fn',*args,sort=a.sort))
    return P(atom(k,*args,sort=a.sort))

# ---------------------------------------------------------------- printing
def show(p):
    if not p.t: return '0'
    out=[]
    for m,c in sorted(p.t.items(),key=lambda kv:[(a.id,e) for a,e in kv[0]]):
        fs=[]
        for a,e in m: fs.append(show_atom(a)+('' if e==1 else '^%s'%(e if e.denominator==1 and e>0 else '(%s)'%e)))
        if c!=1 or not fs: fs.insert(0,str(c))
        out.append('*'.join(fs))
    return ' + '.join(out)
def show_atom(a):
    if a.kind=='var': return a.args[0]
    if a.kind=='P': return '(%s)'%show(a.args[0])
    if a.kind=='elem': return '%s[%s]'%(a.args[0],show(a.args[1]))
    if a.kind=='fn': return '%s(%s)'%(a.args[0],','.join(map(repr,a.args[1:])))
    if a.kind=='pi': return 'pi'
    return '%s(%s)'%(a.kind,', '.join(x if isinstance(x,str) else repr(x) for x in a.args))

# ---------------------------------------------------------------- z3 bridge
class Z3:
    """one solver per context; atoms become constants, auxiliary axioms are collected on the way"""
    def __init__(self,timeout=2000):
        self.s=z3.Solver(); self.s.set('rlimit',timeout*3000); self.s.set('timeout',timeout*6)   # rlimit: load-independent
        self.c={}; self.n=0; self.time=0.0
        self.bound={}
    def atom(self,a):
        if a in self.c: return self.c[a]
        n='%s_%d'%(a.kind,a.id)
        if a.kind=='var': n=a.args[0]
        x=z3.Int(n) if a.sort=='int' else z3.Real(n)
        r=z3.ToReal(x) if a.sort=='int' else x
        self.c[a]=r
        S=self.s
        k=a.kind
        if k=='exp': S.add(x>0)
        elif k=='pi': S.add(x>z3.Q(314159265,10**8),x<z3.Q(314159266,10**8))
        elif k=='P':
            y=self.poly(a.args[0]); S.add(x==y)
        elif k=='ln':
            y=self.poly(a.args[0])
            S.add(z3.Implies(y>0,z3.And(x<=y-1,z3.Implies(y>1,x>0),z3.Implies(y<1,x<0),z3.Implies(y==1,x==0))))
            c=a.args[0].cval()
            if c is not None and c>0:
                v=Q(math.log(c)).limit_denominator(10**12)
                S.add(x>z3.Q((v-Q(1,10**9)).numerator,(v-Q(1,10**9)).denominator),x<z3.Q((v+Q(1,10**9)).numerator,(v+Q(1,10**9)).denominator))
        elif k=='ite':
            cnd=self.form(a.args[0]); S.add(z3.If(cnd,r==self.poly(a.args[1]),r==self.poly(a.args[2])))
        elif k=='fn':
            nm=a.args[0]
            if nm=='floor':
                y=self.poly(a.args[1]); S.add(r<=y,y<r+1)
            elif nm=='trunc':
                y=self.poly(a.args[1]); S.add(z3.If(y>=0,z3.And(r<=y,y<r+1),z3.And(r>=y,y>r-1)))
            elif nm in('sin','cos'): S.add(x>=-1,x<=1)
            elif nm=='abs':
                y=self.poly(a.args[1]); S.add(r==z3.If(y>=0,y,-y))
            elif nm in('idiv',):
                y=self.poly(a.args[1]); d=self.poly(a.args[2]); S.add(z3.Implies(z3.And(y>=0,d>0),z3.And(r*d<=y,y<r*d+d,r>=0)))
        return r
    def power(self,a,e):
        r=self.atom(a)
        if e.denominator==1:
            n=int(e)
            if n>0:
                x=r
                for _ in range(n-1): x=x*r
                return x
            y=self.aux(('inv',a),lambda v:z3.Implies(r!=0,v*r==1))
            x=y
            for _ in range(-n-1): x=x*y
            return x
        if e.denominator==2:
            s=self.aux(('sqrt',a),lambda v:z3.And(z3.Implies(r>=0,z3.And(v>=0,v*v==r)),z3.Implies(r>0,v>0)))
            n=int(e.numerator)
            if n<0:
                y=self.aux(('isqrt',a),lambda v:z3.Implies(s!=0,v*s==1)); b=y; n=-n
            else: b=s
            x=b
            for _ in range(n-1): x=x*b
            return x
        return self.aux(('pow',a,e),lambda v:z3.Implies(r>0,v>0))
    def aux(self,key,ax):
        if key in self.c: return self.c[key]
        self.n+=1
        v=z3.Real('aux%d'%self.n); self.c[key]=v
        self.s.add(ax(v))
        return v
    def poly(self,p):
        if p._c is not None and p._c[0] is self: return p._c[1]
        ts=[]
        for m,c in p.t.items():
            x=None
            for a,e in m:
                y=self.power(a,e); x=y if x is None else x*y
            k=z3.Q(c.numerator,c.denominator)
            ts.append(k if x is None else (x if c==1 else k*x))
        r=z3.Sum(ts) if len(ts)>1 else (ts[0] if ts else z3.RealVal(0))
        p._c=(self,r)
        return r
    def form(self,f):
        k=f.k
        if k=='true': return z3.BoolVal(True)
        if k=='false': return z3.BoolVal(False)
        if k=='le': return self.poly(f.a[0])<=0
        if k=='lt': return self.poly(f.a[0])<0
        if k=='eq': return self.poly(f.a[0])==0
        if k=='and': return z3.And(*[self.form(x) for x in f.a])
        if k=='or': return z3.Or(*[self.form(x) for x in f.a])
        if k=='not': return z3.Not(self.form(f.a[0]))
        if k=='b': return z3.Bool(str(f.a[0]))
        if k=='isint':
            if f.a[0].isint(): return z3.BoolVal(True)
            key=('isint',f.a[0])
            if key not in self.c: self.n+=1; self.c[key]=z3.Bool('isint%d'%self.n)
            return self.c[key]
        if k in('forall','exists'):
            key=('F',f)
            if key not in self.c: 
                self.n+=1; self.c[key]=z3.Bool('%s%d'%(k,self.n))
            return self.c[key]
        raise Unsupported('form '+k)
class LinZ3(Z3):
    """linear abstraction: non-linear monomials and non-variable atoms are opaque; integer polynomials stay integer"""
    def atom(self,a):
        if a in self.c: return self.c[a]
        n='%s_%d'%(a.kind,a.id)
        if a.kind=='var': n=a.args[0]
        r=z3.Int(n) if a.sort=='int' else z3.Real(n)
        self.c[a]=r
        return r
    def poly(self,p):
        isint=p.isint()
        ts=[]
        for m,c in p.t.items():
            if not m:
                ts.append(z3.IntVal(c.numerator) if isint else z3.Q(c.numerator,c.denominator)); continue
            if len(m)==1 and m[0][1]==1: x=self.atom(m[0][0])
            else:
                if m not in self.c:
                    self.n+=1; self.c[m]=z3.Int('nl%d'%self.n) if isint else z3.Real('nl%d'%self.n)
                x=self.c[m]
            if not isint and x.is_int(): x=z3.ToReal(x)
            k=z3.IntVal(c.numerator) if isint else z3.Q(c.numerator,c.denominator)
            ts.append(x if c==1 else k*x)
        if not ts: return z3.IntVal(0)
        return z3.Sum(ts) if len(ts)>1 else ts[0]
STATS={'z3_queries':0,'z3_time':0.0}
import time as _time
class Ctx:
    """a set of assumptions with a prover"""
    def __init__(self,facts=(),timeout=2000):
        self.facts=list(facts); self.z=None; self.memo={}; self.timeout=timeout; self.n=0
    def child(self,*fs):
        return Ctx(self.facts+[f for f in fs if f is not TRUE],self.timeout)
    def solver(self):
        if self.z is None:
            self.z=Z3(self.timeout); self.n=0
        while self.n<len(self.facts):
            self.z.s.add(self.z.form(self.facts[self.n])); self.n+=1
        return self.z
    def check(self,f):
        """'sat'/'unsat'/'unknown' of facts & f"""
        if f is FALSE: return 'unsat'
        key=f
        if key in self.memo: return self.memo[key]
        z=self.solver()
        zf=z.form(f)
        t=_time.time()
        z.s.push()
        # note: axioms for new atoms are added in z.form above (outside push)
        z.s.add(zf)
        r=str(z.s.check())
        z.s.pop()
        if r=='unknown':
            lz=LinZ3(self.timeout)
            try:
                for g in self.facts: lz.s.add(lz.form(g))
                lz.s.add(lz.form(f))
                if str(lz.s.check())=='unsat': r='unsat'
            except Unsupported: pass
        STATS['z3_queries']+=1; STATS['z3_time']+=_time.time()-t
        self.memo[key]=r
        return r
    def proves(self,f):
        if f is TRUE: return True
        if f in self.facts: return True
        return self.check(Not(f))=='unsat'
    def feasible(self,f=TRUE): return self.check(f)!='unsat'
    def model(self,f=TRUE):
        z=self.solver(); zf=z.form(f)
        z.s.push(); z.s.add(zf)
        m=z.s.model() if z.s.check()==z3.sat else None
        z.s.pop()
        return m,z
