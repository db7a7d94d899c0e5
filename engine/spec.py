"""Contract language used by contracts/*.py"""
from terms import *
from vals import *
import vals, summ
class Cases:
    def __init__(self,*cs): self.cs=list(cs)     # (cond, value) evaluated top-down
class Known:
    """a recorded defect: the code is known to return `actual` where the property demands `wanted`"""
    def __init__(self,wanted,actual,what): self.wanted=wanted; self.actual=actual; self.what=what
class _P: 
    def __repr__(self): return 'PANIC'
PANIC=_P()
class _A:
    def __repr__(self): return 'ANY'
ANY=_A()      # deliberately unconstrained (outside the property)
class Some:
    def __init__(self,v): self.v=v
class Ok_:
    def __init__(self,v): self.v=v
class Err_:
    def __init__(self,v=ANY): self.v=v
class SeqS:
    """expected sequence: length and element function"""
    def __init__(self,len_,f): self.len=P(len_); self.f=f
class Var:
    """enum variant value by index"""
    def __init__(self,v,f): self.v=v; self.f=f
class Pred:
    """post-condition given as a predicate over the symbolic result: f(value)->list[(label, F or (Poly,Poly))]"""
    def __init__(self,f): self.f=f
class Dep:
    """post-condition that depends on the path (which constructor an algebraic argument has): sym(ex,st)->spec, num(env)->spec"""
    def __init__(self,sym,num=None): self.sym=sym; self.num=num
class Approx:
    """a value specified up to a documented absolute tolerance (only used for asymptotic series of ln Gamma)"""
    def __init__(self,v,tol): self.v=v; self.tol=Q(tol)
class SArg:
    """slice argument as seen by contracts"""
    def __init__(self,name,seq,get): self.name=name; self.len=seq.len; self._g=get
    def __getitem__(self,i): return self._g(P(i))
    def sum(self,f=lambda x:x): return Sum(ZERO,self.len,lambda i:f(self[i]))
    def all(self,f): return Forall(ZERO,self.len,lambda i:f(self[i]))
CONTRACTS=[]
class Contract: pass
def C(name,root,post,pre=None,fns=(),gen=None,tol=1e-7,title='',lemmas=None,timeout=150,exact_f32=False,bounded=None,conf=True,setup=None,oracle=None,n=None,maxlen=6,paths=None,bounds=None,nbad=4000):
    c=Contract(); c.name=name; c.root='root_'+root; c.post=post; c.pre=pre or (lambda *a:[]); c.fns=list(fns); c.gen=gen or {}; c.tol=tol; c.title=title; c.lemmas=lemmas or []
    c.timeout=timeout; c.bounded=bounded; c.conf=conf; c.setup=setup; c.oracle=oracle; c.n=n; c.maxlen=maxlen; c.paths=paths; c.bounds=bounds; c.nbad=nbad
    CONTRACTS.append(c)
    return c
LN2PI=ln(2*PI)
def lfact(k): return lgamma(P(k)+1)
def xlogy(x,y): return ite(F('eq',P(x)),ZERO,P(x)*ln(y)) 

def S_F(c): return c if isinstance(c,F) else (TRUE if c else FALSE)
