"""Symbolic values of the MIR executor."""
from terms import *
class Fork(Exception):
    def __init__(self,f,loop=False,meta=None): self.f=f; self.loop=loop; self.meta=meta or {}
class Panic(Exception):
    def __init__(self,msg): self.msg=msg
class Infeasible(Exception): pass
class Fl:
    __slots__=('k','p')
    def __init__(self,k,p=None): self.k=k; self.p=p
    def __eq__(self,o): return isinstance(o,Fl) and self.k==o.k and self.p==o.p
    def __hash__(self): return hash((self.k,self.p))
    def __repr__(self): return {'fin':repr(self.p),'pinf':'+inf','ninf':'-inf','nan':'NaN'}[self.k]
def fin(p): return Fl('fin',P(p))
PINF=Fl('pinf'); NINF=Fl('ninf'); NAN=Fl('nan')
class Agg:
    """struct / tuple / enum variant / closure"""
    __slots__=('v','f')
    def __init__(self,v,f): self.v=v; self.f=tuple(f)
    def __eq__(self,o): return isinstance(o,Agg) and self.v==o.v and self.f==o.f
    def __hash__(self): return hash((self.v,self.f))
    def __repr__(self): return 'A%d%r'%(self.v,self.f)
UNIT=Agg(0,())
class Arr:
    """concrete-length array or list"""
    __slots__=('e',)
    def __init__(self,e): self.e=tuple(e)
    def __eq__(self,o): return isinstance(o,Arr) and self.e==o.e
    def __hash__(self): return hash(self.e)
    def __repr__(self): return 'Arr%r'%(self.e,)
class Ptr:
    __slots__=('c','p','m')
    def __init__(self,c,p=(),m=None): self.c=c; self.p=tuple(p); self.m=m
    def __eq__(self,o): return isinstance(o,Ptr) and self.c==o.c and self.p==o.p
    def __hash__(self): return hash((self.c,self.p))
    def __repr__(self): return '&%s%s'%(self.c,''.join(map(str,self.p)))
class DynPtr:
    """fat pointer to dyn Trait: underlying pointer + concrete type id"""
    __slots__=('p','t')
    def __init__(self,p,t): self.p=p; self.t=t
    def __eq__(self,o): return isinstance(o,DynPtr) and self.p==o.p and self.t==o.t
    def __hash__(self): return hash((self.p,self.t))
    def __repr__(self): return 'dyn%r'%self.p
class FnV:
    __slots__=('i',)
    def __init__(self,i): self.i=i
    def __eq__(self,o): return isinstance(o,FnV) and self.i==o.i
    def __hash__(self): return hash(self.i)
class Undef:
    def __init__(self,why): self.why=why
    def __repr__(self): return 'UNDEF(%s)'%self.why
class StrV:
    """string: tuple of pieces; piece = python str or ('d',value,spec) displayed value or opaque name"""
    __slots__=('s',)
    def __init__(self,s):
        out=[]
        for x in s:
            if isinstance(x,str):
                if not x: continue
                if out and isinstance(out[-1],str): out[-1]+=x; continue
            out.append(x)
        self.s=tuple(out)
    def __eq__(self,o): return isinstance(o,StrV) and self.s==o.s
    def __hash__(self): return hash(self.s)
    def __repr__(self): return 'Str%r'%(self.s,)
    def lit(self):
        if not self.s: return ''
        return self.s[0] if len(self.s)==1 and isinstance(self.s[0],str) else None
class Opq:
    """opaque value of an uninteresting type, compared by name"""
    __slots__=('n','d')
    def __init__(self,n,d=None): self.n=n; self.d=d
    def __eq__(self,o): return isinstance(o,Opq) and self.n==o.n and self.d==o.d
    def __hash__(self): return hash((self.n,self.d))
    def __repr__(self): return 'Opq(%s%s)'%(self.n,'' if self.d is None else ','+repr(self.d))
class FnU:
    """an arbitrary function: uninterpreted, identified by name and (term) arguments"""
    __slots__=('n','a')
    def __init__(self,n,a=()): self.n=n; self.a=tuple(a)
    def __eq__(self,o): return isinstance(o,FnU) and self.n==o.n and self.a==o.a
    def __hash__(self): return hash((self.n,self.a))
    def __repr__(self): return 'fn %s%r'%(self.n,self.a)
class Lazy:
    """not-yet-inspected value of an algebraic datatype"""
    __slots__=('t','n')
    def __init__(self,t,n): self.t=t; self.n=n
    def __eq__(self,o): return isinstance(o,Lazy) and self.n==o.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return 'Lazy(%s)'%self.n
HAVOC_MAP={}
LAZYIDX={}      # element of a sequence of algebraic values -> (sequence, index)
# ---- sequences (value semantics)
class Seq:
    """abstract sequence of values: len + get"""
    def mapv(self,g): raise Unsupported('mapv '+type(self).__name__)
class InSeq(Seq):
    """input sequence; make(idx)->value"""
    def __init__(self,name,len_,make): self.name=name; self.len=len_; self.make=make
    def get(self,ex,st,i): return self.make(i)
    def __eq__(self,o): return isinstance(o,InSeq) and self.name==o.name
    def __hash__(self): return hash(self.name)
    def mapv(self,g): return self
    def __repr__(self): return 'In(%s)'%self.name
class LSeq(Seq):
    def __init__(self,l): self.l=tuple(l); self.len=const(len(self.l))
    def get(self,ex,st,i):
        c=i.cval()
        if c is not None:
            return self.l[int(c)]
        for k in range(len(self.l)-1):
            if st.decide(i.eq(k)): return self.l[k]
        return self.l[-1]
    def __eq__(self,o): return isinstance(o,LSeq) and self.l==o.l
    def __hash__(self): return hash(self.l)
    def mapv(self,g): return LSeq([g(x) for x in self.l])
    def __repr__(self): return 'L%r'%(self.l,)
class GenSeq(Seq):
    """values tmpl[b := idx], 0<=idx<len"""
    def __init__(self,len_,b,tmpl): self.len=len_; self.b=b; self.t=tmpl
    def get(self,ex,st,i): return map_value(self.t,lambda p:subst(p,{self.b:i}))
    def __eq__(self,o): return isinstance(o,GenSeq) and self.len==o.len and self.b is o.b and self.t==o.t
    def __hash__(self): return hash((self.len,self.b))
    def mapv(self,g): return GenSeq(g.poly(self.len),self.b,g(self.t))
    def __repr__(self): return 'Gen[%r: %s<%r]'%(self.t,self.b,self.len)
class CGenSeq(Seq):
    """element idx is the first template whose condition (both in b := idx) holds"""
    def __init__(self,len_,b,cases): self.len=len_; self.b=b; self.c=tuple(cases)
    def get(self,ex,st,i):
        m={self.b:i}
        for c,t in self.c[:-1]:
            if st.decide(subst(c,m)): return map_value(t,lambda p:subst(p,m))
        return map_value(self.c[-1][1],lambda p:subst(p,m))
    def __eq__(self,o): return isinstance(o,CGenSeq) and self.len==o.len and self.b is o.b and self.c==o.c
    def __hash__(self): return hash((self.len,self.b,'c'))
    def mapv(self,g): return CGenSeq(g.poly(self.len),self.b,[(g(c),g(t)) for c,t in self.c])
    def __repr__(self): return 'CGen[%r: %s<%r]'%(self.c,self.b,self.len)
class CatSeq(Seq):
    def __init__(self,a,b): self.a=a; self.b=b; self.len=a.len+b.len
    def get(self,ex,st,i):
        if st.decide(i.lt(self.a.len)): return self.a.get(ex,st,i)
        return self.b.get(ex,st,i-self.a.len)
    def __eq__(self,o): return isinstance(o,CatSeq) and self.a==o.a and self.b==o.b
    def __hash__(self): return hash((self.a,self.b))
    def mapv(self,g): return cat(self.a.mapv(g),self.b.mapv(g))
    def __repr__(self): return '%r++%r'%(self.a,self.b)
class HavocSeq(Seq):
    def __init__(self,name,len_,orig=None,probe=False,reads=None): self.name=name; self.len=len_; self.orig=orig; self.probe=probe; self.reads=reads
    def get(self,ex,st,i):
        if self.orig is not None:
            v=self.orig.get(ex,st,i)
            if isinstance(v,Fl) and v.k=='fin':
                if self.probe: return fin(P(atom('elem','havoc!'+self.name,i,sort='real')))     # find out what the loop does with it
                if self.reads is not None: self.reads.append(i); return v      # not yet overwritten (checked by the loop rule)
        raise Unsupported('read of a vector being built in a loop')
    def __eq__(self,o): return isinstance(o,HavocSeq) and self.name==o.name
    def __hash__(self): return hash(self.name)
    def mapv(self,g):
        if self.name in HAVOC_MAP: return HAVOC_MAP[self.name]
        return HavocSeq(self.name,g.poly(self.len),self.orig,self.probe,self.reads)
class RepSeq(Seq):
    def __init__(self,len_,v): self.len=len_; self.v=v
    def get(self,ex,st,i): return self.v
    def __eq__(self,o): return isinstance(o,RepSeq) and self.len==o.len and self.v==o.v
    def __hash__(self): return hash((self.len,))
    def mapv(self,g): return RepSeq(g.poly(self.len),g(self.v))
    def __repr__(self): return 'Rep(%r;%r)'%(self.v,self.len)
class UpdSeq(Seq):
    def __init__(self,base,i,v): self.base=base; self.i=i; self.v=v; self.len=base.len
    def get(self,ex,st,i):
        if st.decide(i.eq(self.i)): return self.v
        return self.base.get(ex,st,i)
    def __eq__(self,o): return isinstance(o,UpdSeq) and self.base==o.base and self.i==o.i and self.v==o.v
    def __hash__(self): return hash((self.base,self.i))
    def mapv(self,g): return UpdSeq(self.base.mapv(g),g.poly(self.i),g(self.v))
class SubSeq(Seq):
    def __init__(self,base,off,len_): self.base=base; self.off=off; self.len=len_
    def get(self,ex,st,i): return self.base.get(ex,st,i+self.off)
    def __eq__(self,o): return isinstance(o,SubSeq) and self.base==o.base and self.off==o.off and self.len==o.len
    def __hash__(self): return hash((self.base,self.off))
    def mapv(self,g): return SubSeq(self.base.mapv(g),g.poly(self.off),g.poly(self.len))
class RevSeq(Seq):
    def __init__(self,base): self.base=base; self.len=base.len
    def get(self,ex,st,i): return self.base.get(ex,st,self.len-1-i)
    def __eq__(self,o): return isinstance(o,RevSeq) and self.base==o.base
    def __hash__(self): return hash(('rev',self.base))
    def mapv(self,g): return RevSeq(self.base.mapv(g))
# iterator sources
class RefSeq(Seq):
    """elements are references into the sequence at location loc"""
    def __init__(self,ptr,len_): self.ptr=ptr; self.len=len_
    def get(self,ex,st,i): return Ptr(self.ptr.c,self.ptr.p+(('i',i),))
    def __eq__(self,o): return isinstance(o,RefSeq) and self.ptr==o.ptr
    def __hash__(self): return hash(self.ptr)
    def mapv(self,g): return RefSeq(g(self.ptr),g.poly(self.len))
class RangeSeq(Seq):
    def __init__(self,lo,len_): self.lo=lo; self.len=len_
    def get(self,ex,st,i): return self.lo+i
    def __eq__(self,o): return isinstance(o,RangeSeq) and self.lo==o.lo and self.len==o.len
    def __hash__(self): return hash(self.lo)
    def mapv(self,g): return RangeSeq(g.poly(self.lo),g.poly(self.len))
class MapSeq(Seq):
    """f applied to base elements; cell holds the closure"""
    def __init__(self,base,cell,fty): self.base=base; self.cell=cell; self.fty=fty; self.len=base.len
    def get(self,ex,st,i):
        x=self.base.get(ex,st,i)
        return ex.apply(st,Ptr(self.cell),self.fty,[x])
    def __eq__(self,o): return isinstance(o,MapSeq) and self.base==o.base and self.cell==o.cell
    def __hash__(self): return hash(self.cell)
    def mapv(self,g): return MapSeq(self.base.mapv(g),self.cell,self.fty)
class FnSeq(Seq):
    """python-level map"""
    def __init__(self,bases,f,key,len_): self.bases=tuple(bases); self.f=f; self.key=key; self.len=len_
    def get(self,ex,st,i): return self.f(ex,st,i,[b.get(ex,st,i) for b in self.bases])
    def __eq__(self,o): return isinstance(o,FnSeq) and self.key==o.key and self.bases==o.bases and self.len==o.len
    def __hash__(self): return hash((self.key,))
    def mapv(self,g): return FnSeq([b.mapv(g) for b in self.bases],self.f,self.key,g.poly(self.len))
class It:
    """iterator over seq[pos..end)"""
    __slots__=('s','pos','end','flt')
    def __init__(self,s,pos=ZERO,end=None,flt=()): self.s=s; self.pos=pos; self.end=s.len if end is None else end; self.flt=flt
    def __eq__(self,o): return isinstance(o,It) and self.s==o.s and self.pos==o.pos and self.end==o.end and self.flt==o.flt
    def __hash__(self): return hash((self.pos,self.end))
    def __repr__(self): return 'It(%r,%r..%r)'%(self.s,self.pos,self.end)
    def remaining(self):
        s=self.s
        if self.pos==ZERO and self.end==s.len: return s
        return SubSeq(s,self.pos,self.end-self.pos)
class VecV:
    """Vec<T> contents / slices: a sequence value in a cell"""
    __slots__=('s',)
    def __init__(self,s): self.s=s
    def __eq__(self,o): return isinstance(o,VecV) and self.s==o.s
    def __hash__(self): return hash(self.s)
    def __repr__(self): return 'Vec(%r)'%self.s
class MapV:
    """HashMap: entries [(key,val)] over an unknown (or empty) base"""
    __slots__=('e','base')
    def __init__(self,e,base=None): self.e=tuple(e); self.base=base
    def __eq__(self,o): return isinstance(o,MapV) and self.e==o.e and self.base==o.base
    def __hash__(self): return hash(self.e)
    def __repr__(self): return 'Map(%r,%r)'%(self.e,self.base)
def cat(a,b):
    if isinstance(a,LSeq) and isinstance(b,LSeq): return LSeq(a.l+b.l)
    if a.len==ZERO: return b
    if b.len==ZERO: return a
    if isinstance(a,CatSeq) and isinstance(a.b,LSeq) and isinstance(b,LSeq): return CatSeq(a.a,LSeq(a.b.l+b.l))
    return CatSeq(a,b)

class _G:
    def __init__(self,f): self.f=f
    def poly(self,p): return self.f(p)
    def __call__(self,v): return map_value(v,self.f)
def map_value(v,f):
    """apply f to every Poly / F inside value v"""
    if isinstance(v,Poly): return f(v)
    if isinstance(v,F): return f(v)
    if isinstance(v,Fl): return v if v.p is None else Fl(v.k,f(v.p))
    if isinstance(v,Agg): return Agg(v.v,[map_value(x,f) for x in v.f])
    if isinstance(v,Arr): return Arr([map_value(x,f) for x in v.e])
    if isinstance(v,Ptr): return Ptr(v.c,tuple(('i',f(x[1])) if x[0]=='i' else (('sub',f(x[1]),f(x[2])) if x[0]=='sub' else x) for x in v.p),v.m)
    if isinstance(v,DynPtr): return DynPtr(map_value(v.p,f),v.t)
    if isinstance(v,It): return It(v.s.mapv(_G(f)),f(v.pos),f(v.end),v.flt)
    if isinstance(v,VecV): return VecV(v.s.mapv(_G(f)))
    if isinstance(v,StrV): return StrV([x if isinstance(x,str) else tuple(map_value(y,f) if not isinstance(y,str) else y for y in x) for x in v.s])
    if isinstance(v,MapV): return MapV([(map_value(k,f),map_value(x,f)) for k,x in v.e],v.base)
    if isinstance(v,tuple): return tuple(map_value(x,f) for x in v)
    if isinstance(v,FnU): return FnU(v.n,[map_value(x,f) for x in v.a])
    if isinstance(v,Opq): return Opq(v.n,map_value(v.d,f) if isinstance(v.d,(tuple,Poly,F,Fl,Agg)) else v.d)
    return v
class StrSet(Seq):
    """a list of strings after sort (and dedup): stage 0 sorted, 1 sorted and without duplicates, 2 a set in no order, 3 a list in no order; base gives the members"""
    def __init__(self,base,st): self.base=base; self.st=st; self.len=base.len if st==0 else P(atom('fn','ndistinct' if st!=3 else 'noccur',repr(base),sort='int'))
    def get(self,ex,st,i): raise Unsupported('element of a sorted list')
    def __eq__(self,o): return isinstance(o,StrSet) and self.base==o.base and self.st==o.st
    def __hash__(self): return hash(('strset',self.st))
    def mapv(self,g): return StrSet(self.base.mapv(g),self.st)
    def __repr__(self): return '%s(%r)'%('sorted dedup set list'.split()[self.st],self.base)
    def members(self):
        out=[]
        def go(b):
            if isinstance(b,CatSeq): go(b.a); go(b.b)
            elif isinstance(b,LSeq): out.extend(repr(x) for x in b.l)
            elif isinstance(b,InSeq): out.append(b.name)
            else: raise Unsupported('members of %r'%(b,))
        go(self.base)
        return set(out)
