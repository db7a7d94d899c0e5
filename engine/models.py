"""Assumed contracts of std / dependency functions (the trusted base of the VC generator)."""
import re
from terms import *
from vals import *
from exec import INLINE, Call, Exec, flatten
import exec as X
import summ
from summ import py_loop

class Models:
    def __init__(self): self.exact={}; self.pats=[]; self.memo={}
    def lookup(self,d,iname):
        k=(d,iname)
        if k in self.memo: return self.memo[k]
        r=self.exact.get(d)
        if r is None:
            for p,h,on in self.pats:
                if p.search(d if on=='d' else iname): r=h; break
        self.memo[k]=r
        return r
    def on(self,*ds):
        def w(h):
            for d in ds: self.exact[d]=h
            return h
        return w
    def pat(self,*ps,on='d'):
        def w(h):
            for p in ps: self.pats.append((re.compile(p),h,on))
            return h
        return w
M=Models()
def some(v): return Agg(1,(v,))
NONE=Agg(0,())
def ok(v): return Agg(0,(v,))
def err(v): return Agg(1,(v,))
ORD={-1:Agg(0,()),0:Agg(1,()),1:Agg(2,())}

# ------------------------------------------------------------------ floats
I=r'(std|core)::intrinsics::'
def un(name,f):
    M.pat(r'^%s%s$'%(I,name),r'^(std|core)::f64::<impl f64>::%s$'%name)(f)
    M.pat(r'^%s%s::<f64>$'%(I,name),r'^(std|core)::f64::<impl f64>::%s$'%name,on='n')(f)
def a0(c): return c.args[0]
@M.pat(I+r'(log|logf64)$')
def _(c): return c.ex.fln(c.st,c.args[0])
@M.pat(I+r'(exp|expf64)$')
def _(c): return c.ex.fexp(c.st,c.args[0])
@M.pat(I+r'(sqrt|sqrtf64)$')
def _(c): return c.ex.fsqrt(c.st,c.args[0])
@M.pat(I+r'(log2|log2f64)$')
def _(c):
    r=c.ex.fln(c.st,c.args[0]); return fin(r.p/ln(const(2))) if r.k=='fin' else r
@M.pat(I+r'(log10|log10f64)$')
def _(c):
    r=c.ex.fln(c.st,c.args[0]); return fin(r.p/ln(const(10))) if r.k=='fin' else r
@M.pat(I+r'(exp2|exp2f64)$')
def _(c):
    a=c.args[0]
    return c.ex.fpow(c.st,fin(const(2)),a)
@M.pat(I+r'(sin|cos)(f64)?$')
def _(c):
    nm='sin' if '::sin' in c.d else 'cos'
    return fin(fn(nm,c.args[0].p)) if c.args[0].k=='fin' else NAN
@M.pat(I+r'(fabs|fabsf64)$',r'<impl f64>::abs$')
def _(c):
    a=c.args[0]
    if a.k!='fin': return NAN if a.k=='nan' else PINF
    if c.st.known(a.p.ge(0)) is True: return a
    if c.st.known(a.p.le(0)) is True: return fin(-a.p)
    return fin(fn('abs',a.p))
@M.pat(I+r'(floor|ceil|trunc|round|rint|round_ties_even|nearbyint)(f64)?$')
def _(c):
    nm=re.search(r'(floor|ceil|trunc|round)',c.d).group(1)
    a=c.args[0]
    if a.k!='fin': return a
    if a.p.isint(): return a
    if nm=='ceil': return fin(-fn('floor',-a.p,sort='int'))
    return fin(fn(nm,a.p,sort='int'))
@M.pat(I+r'(powf|powf64|pow)$')
def _(c): return c.ex.fpow(c.st,c.args[0],c.args[1])
@M.pat(I+r'(powi|powif64)$')
def _(c):
    n=c.args[1].cval()
    if n is None:
        return powi_sym(c,c.args[0],c.args[1])
    return c.ex.fpowi(c.st,c.args[0],int(n))
def powi_sym(c,a,n):
    if a.k!='fin': raise Unsupported('powi of special')
    if c.st.decide(n.ge(0)): return fin(summ.ipow(a.p,n))
    if c.st.decide(a.p.eq(0)): return PINF
    return fin(1/summ.ipow(a.p,-n))
@M.pat(I+r'(maxnumf64|maxnum|maximum_number_nsz_f64|maxnum_f64|maximum_number.*)$',r'<impl f64>::max$',r'num_traits::Float::max$',r'num_traits::float::Float::max$')
def _(c): return fmaxmin(c,1)
@M.pat(I+r'(minnumf64|minnum|minimum_number.*)$',r'<impl f64>::min$',r'num_traits::Float::min$',r'num_traits::float::Float::min$')
def _(c): return fmaxmin(c,-1)
def fmaxmin(c,s):
    a,b=c.args
    if a.k=='nan': return b
    if b.k=='nan': return a
    f=c.ex.fcmp('Lt',a,b) if s>0 else c.ex.fcmp('Gt',a,b)
    return b if c.st.decide(f) else a
@M.pat(r'^(std|core)::f64::<impl f64>::(tan|sinh|cosh|tanh|atan|asin|acos|cbrt)$',on='n')
def _(c):
    nm=c.n.rsplit('::',1)[1]
    a=c.args[0]
    if a.k=='fin': return fin(fn(nm,a.p))
    raise Unsupported(nm+' of special')
@M.pat(r'^(std|core)::f64::<impl f64>::(ln_1p)$',on='n')
def _(c):
    a=c.args[0]
    return c.ex.fln(c.st,c.ex.fbin(c.st,'Add',a,fin(ONE)))
@M.pat(r'^(std|core)::f64::<impl f64>::(exp_m1)$',on='n')
def _(c):
    return c.ex.fbin(c.st,'Sub',c.ex.fexp(c.st,c.args[0]),fin(ONE))
@M.pat(r'^(std|core)::f64::<impl f64>::(ln_gamma|gamma)$',on='n')
def _(c):
    a=c.args[0]
    if a.k=='fin' and c.st.decide(a.p.gt(0)):
        r=fin(lgamma(a.p))
        if c.n.endswith('::gamma'): return fin(exp(r.p))
        return Agg(0,(r,const(1)))
    raise Unsupported('gamma of nonpositive')
@M.pat(r'^<f64 as special::(gamma::)?Gamma>::(ln_gamma|gamma)$',on='n')
def _(c):
    a=c.args[0]
    while isinstance(a,Ptr): a=c.ex.read(c.st,a.c,a.p)
    w=(lambda v:Agg(0,(v,const(1)))) if c.n.endswith('ln_gamma') else (lambda v:v)
    if a.k=='nan': return w(NAN)
    if a.k=='pinf': return w(PINF)
    if a.k=='fin' and c.st.decide(a.p.gt(0)):
        r=lgamma(a.p)
        return w(fin(r)) if c.n.endswith('ln_gamma') else fin(exp(r))
    if a.k=='fin' and c.st.decide(a.p.eq(0)): return w(PINF)
    raise Unsupported('ln_gamma of a negative argument')
@M.pat(r'^(std|core)::f64::<impl f64>::mul_add$',on='n')
def _(c): return c.ex.fbin(c.st,'Add',c.ex.fbin(c.st,'Mul',c.args[0],c.args[1]),c.args[2])
@M.pat(I+r'(fma|fmaf64)$')
def _(c): return c.ex.fbin(c.st,'Add',c.ex.fbin(c.st,'Mul',c.args[0],c.args[1]),c.args[2])
@M.pat(r'<impl f64>::total_cmp$')
def _(c):
    a=c.deref(c.args[0]);b=c.deref(c.args[1])
    return fcmp3(c,a,b)
def fcmp3(c,a,b):
    if c.st.decide(c.ex.fcmp('Lt',a,b)): return ORD[-1]
    if c.st.decide(c.ex.fcmp('Eq',a,b)): return ORD[0]
    return ORD[1]
@M.pat(r'<impl f64>::to_bits$')
def _(c): return c.ex.to_bits(c.args[0])
@M.pat(r'<impl f64>::from_bits$')
def _(c): return c.ex.from_bits(c.args[0])
@M.pat(r'<impl f64>::is_finite$',on='n')
def _(c): return B(c.args[0].k=='fin')
@M.pat(r'<impl f64>::is_infinite$',on='n')
def _(c): return B(c.args[0].k in('pinf','ninf'))
@M.pat(r'<impl f64>::signum$',on='n')
def _(c):
    a=c.args[0]
    if a.k=='fin': return fin(ONE) if c.st.decide(a.p.ge(0)) else fin(const(-1))
    return {'pinf':fin(ONE),'ninf':fin(-ONE),'nan':NAN}[a.k]
@M.pat(r'<impl f64>::is_sign_(negative|positive)$',on='n')
def _(c):
    a=c.args[0]; neg='negative' in c.n
    if a.k=='fin': return a.p.lt(0) if neg else a.p.ge(0)
    return B((a.k=='ninf')==neg)
@M.pat(r'^<f64 as num_traits::float::Float>::(is_finite|classify|integer_decode|is_normal)$',on='n')
def _(c):
    if c.n.endswith('is_finite'): return B(c.args[0].k=='fin')
    raise Unsupported(c.n)
@M.pat(r'std::cmp::PartialOrd::partial_cmp$')
def _(c):
    a=c.deref(c.args[0]);b=c.deref(c.args[1])
    if isinstance(a,Fl):
        if a.k=='nan' or b.k=='nan': return NONE
        return some(fcmp3(c,a,b))
    return INLINE
# f64::fract etc. fall through to their MIR
@M.pat(I+r'(size_of|size_of_val|align_of_val|align_of|min_align_of|needs_drop|size_of_type_id)$')
def _(c): return const(8) if 'needs' not in c.d else FALSE
@M.pat(I+r'(assert_inhabited|assert_zero_valid|cold_path|assume|assert_mem_uninitialized_valid)$')
def _(c): return UNIT
@M.pat(I+r'integer_(min|max)(::<\w+>)?$')
def _(c):
    t=c.ex.T[c.dty]; return const(X.IMIN(t) if 'integer_min' in c.d else X.IMAX(t))
@M.pat(I+r'(likely|unlikely|black_box)$',r'std::hint::black_box$')
def _(c): return c.args[0]
@M.pat(r'::precondition_check$')
def _(c): return UNIT
@M.pat(I+r'ub_checks$',I+'contract_checks$')
def _(c): return FALSE

# ------------------------------------------------------------------ clone / eq / default of modelled values
def simple(v): return isinstance(v,(Poly,Fl,F,StrV,VecV,MapV,Opq,Lazy,It))
@M.on('std::clone::Clone::clone')
def _(c):
    v=c.args[0]
    if isinstance(v,Ptr):
        w=c.ex.read(c.st,v.c,v.p)
        t=c.aty(0); et=c.ex.T[t['e']] if t and 'e' in t else None
        if isinstance(w,(Poly,Fl,F,StrV,MapV,Opq,Lazy,It,FnV)): return w
        if isinstance(w,VecV): return w
        if isinstance(w,Ptr):
            # Box<T>: deep copy ; &T: same pointer
            if et is not None and et['k']=='adt' and et.get('box'):
                inner=c.ex.read(c.st,w.c,w.p)
                return Ptr(c.st.alloc(deep_clone(c,inner,et['a'][0])))
            return w
        if isinstance(w,Arr) and all(isinstance(x,(Poly,Fl,F)) for x in w.e): return w
        if isinstance(w,Agg) and et is not None and et['k']=='adt' and only_std_clone(c,et): return deep_clone(c,w,t['e'])
        return INLINE
    if isinstance(v,StrV): return v
    return INLINE
def only_std_clone(c,t):
    return t['n'].startswith('std::') or t['n'].startswith('core::') or t['n'].startswith('alloc::')
def deep_clone(c,v,ty):
    t=c.ex.T[ty]
    if isinstance(v,Ptr):
        if t['k']=='adt' and t.get('box'):
            return Ptr(c.st.alloc(deep_clone(c,c.ex.read(c.st,v.c,v.p),t['a'][0])))
        return v
    if isinstance(v,Agg):
        if t['k']=='adt': return Agg(v.v,[deep_clone(c,x,ft) for x,(fn,ft) in zip(v.f,t['v'][v.v]['f'])])
        if t['k']=='tuple': return Agg(v.v,[deep_clone(c,x,ft) for x,ft in zip(v.f,t['f'])])
    return v
@M.on('std::borrow::ToOwned::to_owned','std::string::ToString::to_string')
def _(c):
    v=c.deref(c.args[0])
    if isinstance(v,StrV): return v
    if isinstance(v,(Poly,Fl)) : return StrV([('d',v,'')])
    if isinstance(v,VecV): return v
    if isinstance(v,Arr): return VecV(LSeq(v.e))
    return INLINE
@M.on('std::cmp::PartialEq::eq','std::cmp::PartialEq::ne')
def _(c):
    a=c.deref(c.args[0]); b=c.deref(c.args[1])
    r=None
    if isinstance(a,StrV) and isinstance(b,StrV): r=str_eq(c,a,b)
    elif isinstance(a,Fl) and isinstance(b,Fl): r=c.ex.fcmp('Eq',a,b)
    elif isinstance(a,Poly) and isinstance(b,Poly): r=a.eq(b)
    elif isinstance(a,Opq) and isinstance(b,Opq): r=B(a==b)
    if r is None:
        if c.d.endswith('::ne') and c.t.get('i') is None: raise Unsupported('ne')
        return INLINE
    return r if c.d.endswith('::eq') else Not(r)
def str_eq(c,a,b):
    if a.s==b.s: return TRUE
    la,lb=a.lit(),b.lit()
    if la is not None and lb is not None: return B(la==lb)
    return F('b','streq(%r,%r)'%tuple(sorted([repr(a),repr(b)])))
# ------------------------------------------------------------------ box / refs
@M.on('std::boxed::Box::<T>::new','std::sync::Arc::<T>::new','std::rc::Rc::<T>::new','std::boxed::box_new','alloc::boxed::box_new')
def _(c): return Ptr(c.st.alloc(c.args[0]))
@M.pat(r'^std::(boxed::Box|sync::Arc|rc::Rc)::<.*>::new$',on='n')
def _(c): return Ptr(c.st.alloc(c.args[0]))
@M.on('std::convert::AsRef::as_ref','std::borrow::Borrow::borrow','std::ops::Deref::deref','std::ops::DerefMut::deref_mut','std::convert::AsMut::as_mut','std::borrow::BorrowMut::borrow_mut')
def _(c):
    v=c.args[0]
    if isinstance(v,StrV) or isinstance(v,Opq) and v.n.startswith('static:'): return v
    if isinstance(v,Ptr):
        w=c.ex.read(c.st,v.c,v.p)
        if isinstance(w,(Ptr,DynPtr)): return w
        if isinstance(w,StrV): return w
        if isinstance(w,VecV): return v
        if isinstance(w,Opq) and w.n.startswith('static:'): return v
        if isinstance(w,Agg) and w.v==0 and 'RefMut' in c.n or 'Ref<' in c.n: return w.f[0] if isinstance(w,Agg) else w
        if isinstance(w,Agg) and 'MutexGuard' in c.n: return w.f[0]
    return INLINE
@M.pat(r'^std::boxed::box_new')
def _(c): return Ptr(c.st.alloc(c.args[0]))
@M.pat(r'^std::cell::RefCell::<T>::(borrow|borrow_mut)$')
def _(c):
    # RefCell<T>: modelled as transparent wrapper; borrow flag checks are not modelled
    p=c.args[0]
    return Agg(0,(Ptr(p.c,p.p+(('f',0),)),))
@M.pat(r'^std::cell::RefCell::<T>::new$',r'^std::cell::(Cell|UnsafeCell)::<T>::new$')
def _(c): return Agg(0,(c.args[0],))
@M.pat(r'^std::cell::RefCell::<T>::into_inner$')
def _(c): return c.args[0].f[0]
@M.pat(r'^std::alloc::Allocator::deallocate$',r'^<std::boxed::Box<.*> as std::ops::Drop>::drop$',r'^std::mem::drop$',r'^core::mem::drop$',r'^std::mem::forget$',r'^std::ptr::drop_in_place$')
def _(c): return UNIT
@M.pat(r'^std::mem::(replace|take|swap)$')
def _(c):
    p=c.args[0]
    if c.d.endswith('replace'):
        o=c.ex.read(c.st,p.c,p.p); c.ex.write(c.st,p.c,p.p,c.args[1]); return o
    if c.d.endswith('swap'):
        q=c.args[1]; a=c.ex.read(c.st,p.c,p.p); b=c.ex.read(c.st,q.c,q.p)
        c.ex.write(c.st,p.c,p.p,b); c.ex.write(c.st,q.c,q.p,a); return UNIT
    o=c.ex.read(c.st,p.c,p.p)
    if isinstance(o,VecV): c.ex.write(c.st,p.c,p.p,VecV(LSeq(()))); return o
    if isinstance(o,StrV): c.ex.write(c.st,p.c,p.p,StrV([])); return o
    return INLINE
@M.pat(r'^std::ptr::eq$',r'^std::ptr::addr_eq$')
def _(c):
    h=c.ex.prog.hooks.get('ptr_eq')
    if h: return h(c)
    return B(c.args[0]==c.args[1])
# ------------------------------------------------------------------ panics
@M.pat(r'^(std::rt|core::panicking|std::panicking|core::rt)::(begin_panic|panic)',r'^core::option::(unwrap_failed|expect_failed)',r'^std::option::(unwrap_failed|expect_failed)',r'^(core|std)::result::unwrap_failed',r'^core::slice::index::',r'^std::alloc::handle_alloc_error',r'^(core|std)::panicking',r'^std::process::(abort|exit)')
def _(c): raise X.Panic(c.d)
# ------------------------------------------------------------------ Fn traits
@M.on('std::ops::Fn::call','std::ops::FnMut::call_mut','std::ops::FnOnce::call_once')
def _(c):
    tup=c.args[1]
    return c.ex.apply(c.st,c.args[0],c.atys[0] if c.atys[0] is not None else c.t['a'][0],list(tup.f))
# ------------------------------------------------------------------ slices / vec
def seq_at(c,v):
    """sequence behind a &[T] / &Vec<T> / &[T;N] argument"""
    while isinstance(v,Ptr): v=c.ex.read(c.st,v.c,v.p)
    if isinstance(v,DynPtr): return seq_at(c,v.p)
    return c.ex.as_seq(v)
def tgt(c,v):
    """innermost pointer to the sequence container"""
    while True:
        w=c.ex.read(c.st,v.c,v.p)
        if isinstance(w,Ptr): v=w
        else: return v
@M.pat(r'<impl \[T\]>::len$',r'^std::vec::Vec::<T, A>::len$',r'^std::vec::Vec::<T>::len$')
def _(c): return seq_at(c,c.args[0]).len
@M.pat(r'<impl \[T\]>::is_empty$',r'^std::vec::Vec::<T, A>::is_empty$')
def _(c): return seq_at(c,c.args[0]).len.eq(0)
@M.pat(r'<impl \[T\]>::(iter|iter_mut)$')
def _(c):
    p=tgt(c,c.args[0]); return It(RefSeq(p,seq_at(c,p).len))
@M.pat(r'<impl \[T\]>::(first|last)$')
def _(c):
    p=tgt(c,c.args[0]); n=seq_at(c,p).len
    if c.st.decide(n.le(0)): return NONE
    return some(Ptr(p.c,p.p+(('i',ZERO if c.d.endswith('first') else n-1),)))
@M.pat(r'<impl \[T\]>::(get|get_mut)$')
def _(c):
    p=tgt(c,c.args[0]); n=seq_at(c,p).len; i=c.args[1]
    if not isinstance(i,Poly):
        i=i
        raise Unsupported('get range')
    if c.st.decide(i.lt(n)): return some(Ptr(p.c,p.p+(('i',i),)))
    return NONE
@M.pat(r'<impl \[T\]>::(get_unchecked)$')
def _(c):
    p=tgt(c,c.args[0]); return Ptr(p.c,p.p+(('i',c.args[1]),))
@M.pat(r'<impl \[T\]>::to_vec$',r'<impl \[T\]>::into_vec$',r'^std::slice::<impl \[T\]>::(to_vec|into_vec)')
def _(c): return VecV(seq_at(c,c.args[0]))
@M.pat(r'<impl \[T\]>::windows$')
def _(c):
    p=tgt(c,c.args[0]); n=seq_at(c,p).len; w=c.args[1]
    if c.st.decide(n.lt(w)): return It(LSeq(()))
    return It(FnSeq((RepSeq(n-w+1,p),RepSeq(n-w+1,w)),lambda ex,st,i,xs:Ptr(xs[0].c,xs[0].p+(('sub',i,i+xs[1]),)),('win',),n-w+1))
def quotient(m,w):
    """m / w when every term of m is a multiple of the single term w"""
    if len(w.t)!=1: return None
    (mw,cw),=w.t.items(); r=ZERO
    for mm,cm in m.t.items():
        d=dict(mm)
        for a,e in mw:
            d[a]=d.get(a,0)-e
            if d[a]<0: return None
        q=cm/cw
        if q.denominator!=1: return None
        x=const(q)
        for a,e in d.items():
            for _ in range(int(e)): x=x*P(a)
        r=r+x
    return r
@M.pat(r'<impl \[T\]>::(chunks|chunks_exact)$')
def _(c):
    p=tgt(c,c.args[0]); n=seq_at(c,p).len; w=c.args[1]; k=None
    if c.st.decide(w.eq(0)): raise X.Panic('chunk size')
    cn,cw=n.cval(),w.cval()
    if cn is not None and cw is not None and int(cn)%int(cw):
        l=[Ptr(p.c,p.p+(('sub',const(i),const(min(i+int(cw),int(cn)))),)) for i in range(0,int(cn),int(cw))]
        return It(LSeq(l[:-1] if c.d.endswith('exact') else l))
    ms=[n]
    for f in c.st.pc:
        if f.k=='eq' and len(n.t)==1:
            e=f.a[0]; (mn,_),=n.t.items(); co=e.t.get(mn)
            if co in(1,-1): ms.append(n-e*const(co))
    for m in ms:
        k=quotient(m,w)
        if k is not None: break
    if k is None: raise Unsupported('chunks of a slice whose length is not a known multiple')
    return It(FnSeq((RepSeq(k,p),RepSeq(k,w)),lambda ex,st,i,xs:Ptr(xs[0].c,xs[0].p+(('sub',i*xs[1],(i+1)*xs[1]),)),('chunk',),k))
@M.pat(r'<impl \[T\]>::split_at$')
def _(c):
    p=tgt(c,c.args[0]); n=seq_at(c,p).len; m=c.args[1]
    if not c.st.decide(m.le(n)): raise X.Panic('split_at')
    return Agg(0,(Ptr(p.c,p.p+(('sub',ZERO,m),)),Ptr(p.c,p.p+(('sub',m,n),))))
@M.pat(r'<impl \[T\]>::(split_first|split_last)$')
def _(c):
    p=tgt(c,c.args[0]); n=seq_at(c,p).len
    if c.st.decide(n.le(0)): return NONE
    if c.d.endswith('first'): return some(Agg(0,(Ptr(p.c,p.p+(('i',ZERO),)),Ptr(p.c,p.p+(('sub',const(1),n),)))))
    return some(Agg(0,(Ptr(p.c,p.p+(('i',n-1),)),Ptr(p.c,p.p+(('sub',ZERO,n-1),)))))
@M.pat(r'<impl \[T\]>::reverse$')
def _(c):
    p=tgt(c,c.args[0]); s=seq_at(c,p)
    c.ex.write(c.st,p.c,p.p,VecV(LSeq(s.l[::-1]) if isinstance(s,LSeq) else RevSeq(s))); return UNIT
@M.on('std::ops::Index::index','std::ops::IndexMut::index_mut')
def _(c):
    v=c.args[0]
    if isinstance(v,StrV): return str_slice(c,v,c.args[1])
    if isinstance(v,Ptr):
        w=c.deref(v)
        if isinstance(w,StrV): return str_slice(c,w,c.args[1])
        w=c.ex.read(c.st,tgt(c,v).c,tgt(c,v).p)
        if isinstance(w,(VecV,Arr)):
            p=tgt(c,v); n=seq_at(c,p).len; i=c.args[1]
            if isinstance(i,Poly):
                if not c.st.decide(And(i.ge(0),i.lt(n))): raise X.Panic('index out of bounds')
                return Ptr(p.c,p.p+(('i',i),))
            lo,hi=rng(c,i,n,1)
            if not c.st.decide(And(lo.le(hi),hi.le(n))): raise X.Panic('slice index')
            return Ptr(p.c,p.p+(('sub',lo,hi),))
        if isinstance(w,MapV): return map_index(c,w)
    return INLINE
def rng(c,i,n,k):
    t=c.ex.T[c.atys[k]]['n'].rsplit('::',1)[1] if c.atys[k] is not None else 'Range'
    if t=='RangeFull': return ZERO,n
    if t=='RangeFrom': return i.f[0],n
    if t=='RangeTo': return ZERO,i.f[0]
    if t=='RangeToInclusive': return ZERO,i.f[0]+1
    if t=='RangeInclusive': return i.f[0],i.f[1]+1
    return i.f[0],i.f[1]
@M.pat(r'^std::vec::Vec::<T>::(new|with_capacity)$',r'^std::vec::Vec::<T, A>::(new_in|with_capacity_in)$',r'^std::vec::Vec::<T>::default')
def _(c): return VecV(LSeq(()))
@M.pat(r'^std::vec::from_elem$')
def _(c):
    n=c.args[1].cval()
    return VecV(LSeq([c.args[0]]*int(n)) if n is not None and n<=64 else RepSeq(c.args[1],c.args[0]))
@M.pat(r'^std::vec::Vec::<T, A>::push$')
def _(c):
    p=c.args[0]; v=c.ex.read(c.st,p.c,p.p)
    c.ex.write(c.st,p.c,p.p,VecV(cat(v.s,LSeq([c.args[1]])))); return UNIT
@M.pat(r'^std::vec::Vec::<T, A>::pop$')
def _(c):
    p=c.args[0]; s=c.ex.read(c.st,p.c,p.p).s
    if c.st.decide(s.len.le(0)): return NONE
    if isinstance(s,LSeq): c.ex.write(c.st,p.c,p.p,VecV(LSeq(s.l[:-1]))); return some(s.l[-1])
    v=s.get(c.ex,c.st,s.len-1)
    c.ex.write(c.st,p.c,p.p,VecV(SubSeq(s,ZERO,s.len-1))); return some(v)
@M.pat(r'^std::vec::Vec::<T, A>::(as_slice|as_mut_slice|as_ptr|into_boxed_slice|leak)$')
def _(c): return c.args[0]
@M.pat(r'^std::vec::Vec::<T, A>::(clear|truncate)$')
def _(c):
    p=c.args[0]
    if c.d.endswith('clear'): c.ex.write(c.st,p.c,p.p,VecV(LSeq(()))); return UNIT
    raise Unsupported('truncate')
@M.pat(r'^std::vec::Vec::<T, A>::(reserve|shrink_to_fit|reserve_exact)$')
def _(c): return UNIT
@M.pat(r'^std::vec::Vec::<T, A>::(extend_from_slice|append)$')
def _(c):
    p=c.args[0]; v=c.ex.read(c.st,p.c,p.p); s=seq_at(c,c.args[1])
    c.ex.write(c.st,p.c,p.p,VecV(cat(v.s,s)))
    if c.d.endswith('append'): c.ex.write(c.st,c.args[1].c,c.args[1].p,VecV(LSeq(())))
    return UNIT
@M.on('std::iter::Extend::extend')
def _(c):
    if isinstance(c.args[0],Ptr) and isinstance(c.ex.read(c.st,*(lambda p:(p.c,p.p))(tgt(c,c.args[0]))),MapV): return map_extend(c)
    p=c.args[0]; v=c.ex.read(c.st,p.c,p.p)
    if isinstance(v,VecV):
        it=to_iter(c,c.args[1],1)
        s=collect_seq(c,it)
        v=c.ex.read(c.st,p.c,p.p)
        if isinstance(v.s,StrSet) or isinstance(s,StrSet):
            a,b=(x.base if isinstance(x,StrSet) else x for x in (v.s,s))
            if not _strs(a) or not _strs(b): raise Unsupported('extend %r'%(v.s,))
            isset=re.match(r'<std::collections::(HashSet|BTreeSet)<',c.n) is not None
            c.ex.write(c.st,p.c,p.p,VecV(StrSet(cat(a,b),v.s.st if isset else 3))); return UNIT
        c.ex.write(c.st,p.c,p.p,VecV(cat(v.s,s))); return UNIT
    return INLINE
@M.pat(r'^std::vec::Vec::<T, A>::(insert|remove|swap_remove)$')
def _(c):
    p=c.args[0]; s=c.ex.read(c.st,p.c,p.p).s; i=c.args[1].cval()
    if not isinstance(s,LSeq) or i is None: raise Unsupported('vec insert/remove')
    l=list(s.l); i=int(i)
    if c.d.endswith('insert'): l.insert(i,c.args[2]); r=UNIT
    else: r=l.pop(i) if c.d.endswith('::remove') else None
    if r is None: r=l[i]; l[i]=l[-1]; l.pop()
    c.ex.write(c.st,p.c,p.p,VecV(LSeq(l))); return r
# ------------------------------------------------------------------ iterators
def to_iter(c,v,k=None):
    if isinstance(v,It): return v
    if isinstance(v,VecV): return It(v.s)
    if isinstance(v,Arr): return It(LSeq(v.e))
    if isinstance(v,Ptr):
        w=c.ex.read(c.st,v.c,v.p)
        if isinstance(w,It): return ('byref',v)
        if isinstance(w,(VecV,Arr)): return It(RefSeq(v,c.ex.as_seq(w).len))
        if isinstance(w,Ptr): return to_iter(c,w)
        if isinstance(w,MapV): return map_iter(c,v,w)
    if isinstance(v,MapV): return It(LSeq([Agg(0,(k,x)) for k,x in map_entries(c,v)]))
    t=c.ex.T[c.atys[k]] if k is not None and c.atys[k] is not None else None
    if t is not None and t['k']=='adt':
        n=t['n'].rsplit('::',1)[1]
        if n=='Range' and isinstance(v,Agg): return range_iter(c,v.f[0],v.f[1])
        if n=='RangeInclusive' and isinstance(v,Agg): return range_iter(c,v.f[0],v.f[1]+1)
        if n=='Option' and isinstance(v,Agg): return It(LSeq(v.f if v.v==1 else ()))
    raise Unsupported('into_iter of %r'%(v,))
def range_iter(c,lo,hi):
    if not isinstance(lo,Poly): raise Unsupported('range of non-int')
    if c.st.decide(lo.le(hi)): return It(RangeSeq(lo,hi-lo))
    return It(LSeq(()))
@M.on('std::iter::IntoIterator::into_iter')
def _(c):
    v=c.args[0]
    try: r=to_iter(c,v,0)
    except Unsupported:
        return INLINE
    return v if isinstance(r,tuple) else r
def it_next(c,p,back=False):
    """p pointer to an It; returns element or None (python)"""
    ex,st=c.ex,c.st
    it=ex.read(st,p.c,p.p)
    if isinstance(it,Ptr): return it_next(c,it,back)
    if isinstance(it,Agg):
        # Range value stored in place
        lo,hi=it.f[0],it.f[1]
        inc=len(it.f)==3
        if st.decide(lo.le(hi) if inc else lo.lt(hi),True): 
            if back:
                ex.write(st,p.c,p.p,Agg(it.v,(lo,hi-1)+it.f[2:])); return hi if inc else hi-1
            ex.write(st,p.c,p.p,Agg(it.v,(lo+1,hi)+it.f[2:])); return lo
        return None
    if not isinstance(it,It): raise Unsupported('next on %r'%(it,))
    while True:
        if not st.decide(it.pos.lt(it.end),True): return None
        if back:
            v=ex.seq_get(st,it.s,it.end-1); it=It(it.s,it.pos,it.end-1,it.flt)
        else:
            v=ex.seq_get(st,it.s,it.pos); it=It(it.s,it.pos+1,it.end,it.flt)
        ex.write(st,p.c,p.p,it)
        keep=True
        for kind,cell,fty in it.flt:
            if kind=='filter':
                pc=st.alloc(v)
                if not st.decide(ex.apply(st,Ptr(cell),fty,[Ptr(pc)])): keep=False; break
            elif kind=='filter_map':
                r=ex.apply(st,Ptr(cell),fty,[v])
                if r.v==0: keep=False; break
                v=r.f[0]
            elif kind=='map': v=ex.apply(st,Ptr(cell),fty,[v])
        if keep: return v
        if it.pos.cval() is None or it.end.cval() is None: raise SkipElem()
class SkipElem(Exception): pass
@M.on('std::iter::Iterator::next','std::iter::DoubleEndedIterator::next_back')
def _(c):
    v=c.args[0]
    w=c.ex.read(c.st,v.c,v.p)
    while isinstance(w,Ptr): v=w; w=c.ex.read(c.st,v.c,v.p)
    if isinstance(w,It) or (isinstance(w,Agg) and re.search(r'Range(Inclusive)?<',c.n)):
        if isinstance(w,Agg) and not isinstance(w.f[0],Poly): return INLINE
        try: r=it_next(c,v,c.d.endswith('back'))
        except SkipElem: raise Unsupported('filtering iterator over a symbolic-length sequence')
        return NONE if r is None else some(r)
    return INLINE
def selfit(c):
    v=c.args[0]
    if isinstance(v,It): return v
    r=to_iter(c,v,0)
    if isinstance(r,tuple):
        p=r[1]; it=c.ex.read(c.st,p.c,p.p)
        # by_ref consumption: only total consumption is supported
        c.ex.write(c.st,p.c,p.p,It(it.s,it.end,it.end,it.flt))
        return it
    return r
A='std::iter::Iterator::'
def itm(name):
    def w(h):
        def g(c):
            try: it=selfit(c)
            except Unsupported: return INLINE
            return h(c,it)
        M.exact[A+name]=g
        return h
    return w
def base(it):
    if it.flt: raise Unsupported('adapter over filtered iterator')
    return it.remaining()
@itm('map')
def _(c,it):
    cell=c.st.alloc(c.args[1])
    if it.flt: return It(it.s,it.pos,it.end,it.flt+(('map',cell,c.atys[1]),))
    return It(MapSeq(base(it),cell,c.atys[1]))
@itm('filter')
def _(c,it): return It(it.s,it.pos,it.end,it.flt+(('filter',c.st.alloc(c.args[1]),c.atys[1]),))
@itm('filter_map')
def _(c,it): return It(it.s,it.pos,it.end,it.flt+(('filter_map',c.st.alloc(c.args[1]),c.atys[1]),))
def deref1(ex,st,i,xs):
    v=xs[0]
    return ex.read(st,v.c,v.p) if isinstance(v,Ptr) else v
@itm('copied')
def _(c,it): return It(FnSeq((base(it),),deref1,'deref',base(it).len))
@itm('cloned')
def _(c,it): return It(FnSeq((base(it),),lambda ex,st,i,xs:deep_clone(c,deref1(ex,st,i,xs),c.ex.T[c.dty]['a'][1]) if False else deref1(ex,st,i,xs),'deref',base(it).len))
@itm('enumerate')
def _(c,it):
    return It(FnSeq((base(it),),lambda ex,st,i,xs:Agg(0,(i,xs[0])),'enum',base(it).len))
@itm('zip')
def _(c,it):
    o=to_iter(c,c.args[1],1)
    a,b=base(it),base(o)
    if a.len==b.len: n=a.len
    else: n=a.len if c.st.decide(a.len.le(b.len)) else b.len
    return It(FnSeq((a,b),lambda ex,st,i,xs:Agg(0,tuple(xs)),'zip',n))
@itm('rev')
def _(c,it): return It(RevSeq(base(it)))
@itm('skip')
def _(c,it):
    s=base(it); n=c.args[1]
    if c.st.decide(n.le(s.len)): return It(SubSeq(s,n,s.len-n))
    return It(LSeq(()))
@itm('take')
def _(c,it):
    s=base(it); n=c.args[1]
    if c.st.decide(n.le(s.len)): return It(SubSeq(s,ZERO,n))
    return It(s)
@itm('chain')
def _(c,it): return It(cat(base(it),base(to_iter(c,c.args[1],1))))
@itm('by_ref')
def _(c,it): return c.args[0]
@itm('peekable')
def _(c,it): return it
@itm('fuse')
def _(c,it): return it
@itm('step_by')
def _(c,it):
    s=base(it); k=c.args[1].cval()
    if k==1: return It(s)
    n=s.len.cval()
    if n is not None and k is not None: return It(LSeq([s.get(c.ex,c.st,const(i)) for i in range(0,int(n),int(k))]))
    raise Unsupported('step_by')
@itm('size_hint')
def _(c,it): return Agg(0,(it.end-it.pos,some(it.end-it.pos)))
@itm('count')
def _(c,it): return consume(c,it,[ZERO],lambda ex,st,vals,x:[vals[0]+1],lambda vals:vals[0])
def consume(c,it,init,body,res,tag=''):
    """loop: for x in it { acc = body(acc,x) }"""
    def b(ex,st,vals):
        cell=vals[0]
        try: x=it_next(Call(ex,st,c.t,c.d,c.n,c.args,c.atys,c.dty),cell)
        except SkipElem: return ('cont',vals)
        if x is None: return ('exit',res(list(vals[1:])))
        r=body(ex,st,list(vals[1:]),x)
        if isinstance(r,tuple): return ('exit',r[1])
        return ('cont',(cell,)+tuple(r))
    icell=c.st.alloc(it)
    return py_loop(c.ex,c.st,(Ptr(icell),)+tuple(init),b,c.n.split('::')[-1]+'@'+c.d.split('::')[-1]+tag)
def addv(ex,st,a,b):
    while isinstance(b,Ptr): b=ex.read(st,b.c,b.p)
    if isinstance(a,Fl): return ex.fbin(st,'Add',a,b)
    return a+b
def mulv(ex,st,a,b):
    while isinstance(b,Ptr): b=ex.read(st,b.c,b.p)
    if isinstance(a,Fl): return ex.fbin(st,'Mul',a,b)
    return a*b
def zero_of(c,ty):
    t=c.ex.T[ty]
    if t['k']=='float': return fin(ZERO),fin(ONE)
    if t['k']=='int': return ZERO,ONE
    return None,None
@itm('sum')
def _(c,it):
    z,_o=zero_of(c,c.dty) if c.dty is not None else (None,None)
    if z is None: return INLINE
    return consume(c,it,[z],lambda ex,st,v,x:[addv(ex,st,v[0],x)],lambda v:v[0])
@itm('product')
def _(c,it):
    _z,o=zero_of(c,c.dty) if c.dty is not None else (None,None)
    if o is None: return INLINE
    return consume(c,it,[o],lambda ex,st,v,x:[mulv(ex,st,v[0],x)],lambda v:v[0])
@M.pat(r'^std::iter::(Sum::sum|Product::product)$')
def _(c):
    v=c.args[0]
    if not isinstance(v,It): return INLINE
    z,o=zero_of(c,c.dty)
    if z is None: return INLINE
    if c.d.endswith('sum'): return consume(c,v,[z],lambda ex,st,a,x:[addv(ex,st,a[0],x)],lambda a:a[0])
    return consume(c,v,[o],lambda ex,st,a,x:[mulv(ex,st,a[0],x)],lambda a:a[0])
@itm('fold')
def _(c,it):
    f=Ptr(c.st.alloc(c.args[2])); fty=c.atys[2]
    return consume(c,it,[c.args[1]],lambda ex,st,v,x:[ex.apply(st,f,fty,[v[0],x])],lambda v:v[0])
@itm('for_each')
def _(c,it):
    f=Ptr(c.st.alloc(c.args[1])); fty=c.atys[1]
    def b(ex,st,v,x): ex.apply(st,f,fty,[x]); return v
    return consume(c,it,[],b,lambda v:UNIT)
@itm('reduce')
def _(c,it):
    f=Ptr(c.st.alloc(c.args[1])); fty=c.atys[1]
    if not c.st.decide(it.pos.lt(it.end)): return NONE
    p=Ptr(c.st.alloc(it)); x=it_next(c,p)
    it2=c.ex.read(c.st,p.c,p.p)
    return some(consume(c,it2,[x],lambda ex,st,v,y:[ex.apply(st,f,fty,[v[0],y])],lambda v:v[0]))
@itm('all')
def _(c,it):
    f=Ptr(c.st.alloc(c.args[1])); fty=c.atys[1]
    def b(ex,st,v,x):
        if st.decide(ex.apply(st,f,fty,[x])): return v
        return ('exit',FALSE)
    return consume(c,it,[],b,lambda v:TRUE)
@itm('any')
def _(c,it):
    f=Ptr(c.st.alloc(c.args[1])); fty=c.atys[1]
    def b(ex,st,v,x):
        if st.decide(ex.apply(st,f,fty,[x])): return ('exit',TRUE)
        return v
    return consume(c,it,[],b,lambda v:FALSE)
@itm('find')
def _(c,it):
    f=Ptr(c.st.alloc(c.args[1])); fty=c.atys[1]
    def b(ex,st,v,x):
        if st.decide(ex.apply(st,f,fty,[Ptr(st.alloc(x))])): return ('exit',some(x))
        return v
    return consume(c,it,[],b,lambda v:NONE)
@itm('position')
def _(c,it):
    f=Ptr(c.st.alloc(c.args[1])); fty=c.atys[1]
    def b(ex,st,v,x):
        if st.decide(ex.apply(st,f,fty,[x])): return ('exit',some(v[0]))
        return [v[0]+1]
    return consume(c,it,[ZERO],b,lambda v:NONE)
@itm('last')
def _(c,it):
    if c.st.decide(it.pos.lt(it.end)): return some(c.ex.seq_get(c.st,it.s,it.end-1))
    return NONE
@itm('nth')
def _(c,it):
    p=c.args[0]; n=c.args[1]
    if isinstance(p,Ptr):
        q=p
        while isinstance(c.ex.read(c.st,q.c,q.p),Ptr): q=c.ex.read(c.st,q.c,q.p)
        if c.st.decide((it.pos+n).lt(it.end)):
            v=c.ex.seq_get(c.st,it.s,it.pos+n); c.ex.write(c.st,q.c,q.p,It(it.s,it.pos+n+1,it.end,it.flt)); return some(v)
        return NONE
    raise Unsupported('nth')
@itm('max_by')
def _(c,it): return minmax(c,it,1)
@itm('min_by')
def _(c,it): return minmax(c,it,-1)
def minmax(c,it,s):
    f=Ptr(c.st.alloc(c.args[1])); fty=c.atys[1]
    if not c.st.decide(it.pos.lt(it.end)): return NONE
    p=Ptr(c.st.alloc(it)); x=it_next(c,p)
    it2=c.ex.read(c.st,p.c,p.p)
    def b(ex,st,v,y):
        o=ex.apply(st,f,fty,[Ptr(st.alloc(v[0])),Ptr(st.alloc(y))])
        # max_by keeps the last max, min_by the first min
        if s>0: return [v[0]] if o.v==2 else [y]
        return [y] if o.v==2 else [v[0]]
    return some(consume(c,it2,[x],b,lambda v:v[0]))
@itm('max')
def _(c,it): return intmm(c,it,1)
@itm('min')
def _(c,it): return intmm(c,it,-1)
def intmm(c,it,s):
    if not c.st.decide(it.pos.lt(it.end)): return NONE
    p=Ptr(c.st.alloc(it)); x=it_next(c,p); it2=c.ex.read(c.st,p.c,p.p)
    def b(ex,st,v,y):
        a=v[0]; pa=c.deref(a); pb=c.deref(y)
        if not isinstance(pa,Poly): raise Unsupported('max of non-int')
        return [y] if st.decide(pb.ge(pa) if s>0 else pb.lt(pa)) else [a]
    return some(consume(c,it2,[x],b,lambda v:v[0]))
@itm('collect')
def _(c,it): return collect(c,it,c.dty)
@M.on('std::iter::FromIterator::from_iter')
def _(c): 
    try: it=to_iter(c,c.args[0],0)
    except Unsupported: return INLINE
    return collect(c,it,c.dty)
def collect(c,it,dty):
    t=c.ex.T[dty]; n=t['n'] if t['k']=='adt' else ''
    if n.endswith('vec::Vec'): return VecV(collect_seq(c,it))
    if n.endswith('::Result') or n.endswith('::Option'):
        isres=n.endswith('::Result'); good=0 if isres else 1
        inner=c.ex.T[t['a'][0]]
        if inner['k']=='adt' and inner['n'].endswith('vec::Vec'):
            def b(ex,st,v,x):
                if isinstance(x,Lazy): raise Unsupported('lazy result')
                if x.v==good:
                    vec=v[0]; return [VecV(cat(vec.s,LSeq([x.f[0]])))]
                return ('exit',x)
            return consume(c,it,[VecV(LSeq(()))],b,lambda v:Agg(good,(v[0],)))
    if n.endswith('::String'):
        def b(ex,st,v,x):
            x=c.deref(x)
            if not isinstance(x,StrV): raise Unsupported('collect string of %r'%(x,))
            return [StrV(v[0].s+x.s)]
        return consume(c,it,[StrV([])],b,lambda v:v[0])
    if n.endswith('HashMap') or n.endswith('BTreeMap'):
        def b(ex,st,v,x):
            k=st.alloc(v[0]); 
            return [map_set(c,v[0],x.f[0],x.f[1])]
        return consume(c,it,[MapV(())],b,lambda v:v[0])
    if n.endswith('Box'):
        return Ptr(c.st.alloc(VecV(collect_seq(c,it))))
    if n.endswith(('HashSet','BTreeSet')) and isinstance(it,It) and it.pos==ZERO and it.end==it.s.len and not it.flt and (isinstance(it.s,StrSet) or _strs(it.s)):
        return VecV(StrSet(it.s.base if isinstance(it.s,StrSet) else it.s,1 if n.endswith('BTreeSet') else 2))
    raise Unsupported('collect into '+n)
def collect_seq(c,it):
    if isinstance(it,It) and isinstance(it.s,StrSet) and it.pos==ZERO and it.end==it.s.len and not it.flt:
        b=it.s.base
        if it.s.st==1 and isinstance(b,LSeq) and all(isinstance(x,StrV) and x.lit() is not None for x in b.l): return LSeq([StrV([x]) for x in sorted({x.lit() for x in b.l})])
        return it.s
    return consume(c,it,[VecV(LSeq(()))],lambda ex,st,v,x:[VecV(cat(v[0].s,LSeq([x])))],lambda v:v[0]).s
@M.on('std::iter::ExactSizeIterator::len')
def _(c):
    it=c.deref(c.args[0])
    return it.end-it.pos if isinstance(it,It) else INLINE
@M.on('std::iter::once','std::iter::empty','std::iter::repeat')
def _(c):
    if c.d.endswith('once'): return It(LSeq([c.args[0]]))
    if c.d.endswith('empty'): return It(LSeq(()))
    raise Unsupported(c.d)
@M.pat(r'^std::iter::(zip)$')
def _(c):
    a=base(to_iter(c,c.args[0],0)); b=base(to_iter(c,c.args[1],1))
    n=a.len if c.st.decide(a.len.le(b.len)) else b.len
    return It(FnSeq((a,b),lambda ex,st,i,xs:Agg(0,tuple(xs)),'zip',n))
@M.pat(r'^std::ops::RangeInclusive::<Idx>::new$')
def _(c): return Agg(0,(c.args[0],c.args[1],FALSE))
@M.pat(r'^std::ops::RangeInclusive::<Idx>::contains$',r'^std::ops::Range::<Idx>::contains$',r'^std::ops::RangeBounds::contains$')
def _(c): return INLINE
@M.pat(r'^std::array::<impl \[T; N\]>::map$')
def _(c):
    f=Ptr(c.st.alloc(c.args[1]))
    return Arr([c.ex.apply(c.st,f,c.atys[1],[x]) for x in c.args[0].e])
@M.pat(r'^std::array::from_fn$')
def _(c):
    t=c.ex.T[c.dty]; f=Ptr(c.st.alloc(c.args[0]))
    return Arr([c.ex.apply(c.st,f,c.atys[0],[const(i)]) for i in range(t['n'])])
@M.pat(r'<impl \[T; N\]>::(as_slice|each_ref)$')
def _(c): return c.args[0]
# ------------------------------------------------------------------ integers
@M.pat(r'<impl (u|i)(8|16|32|64|size|128)>::(saturating_sub|saturating_add|wrapping_sub|wrapping_add|wrapping_mul|abs|unsigned_abs|abs_diff|pow|checked_add|checked_sub|checked_mul)$',on='n')
def _(c):
    a=c.args[0]; op=c.n.rsplit('::',1)[1]; t=c.ex.T[c.dty]
    b=c.args[1] if len(c.args)>1 else None
    if op=='saturating_sub':
        lo=X.IMIN(t)
        return a-b if c.st.decide((a-b).ge(lo)) else const(lo)
    if op=='saturating_add':
        hi=X.IMAX(t)
        return a+b if c.st.decide((a+b).le(hi)) else const(hi)
    if op in('abs','unsigned_abs'): return a if c.st.decide(a.ge(0)) else -a
    if op=='abs_diff': return a-b if c.st.decide(a.ge(b)) else b-a
    if op=='pow':
        n=b.cval()
        if n is not None: return a**int(n)
        return INLINE
    if op.startswith('wrapping'):
        r={'wrapping_sub':lambda:a-b,'wrapping_add':lambda:a+b,'wrapping_mul':lambda:a*b}[op]()
        if c.st.decide(And(r.ge(X.IMIN(t)),r.le(X.IMAX(t)))): return r
        raise Unsupported('wrapping arithmetic')
    if op.startswith('checked'):
        it=c.ex.T[c.atys[0]]
        r={'checked_sub':lambda:a-b,'checked_add':lambda:a+b,'checked_mul':lambda:a*b}[op]()
        return some(r) if c.st.decide(And(r.ge(X.IMIN(it)),r.le(X.IMAX(it)))) else NONE
    return INLINE
@M.on('std::cmp::Ord::min','std::cmp::Ord::max','std::cmp::min','std::cmp::max')
def _(c):
    a,b=c.args
    if isinstance(a,Poly):
        if c.d.endswith('min'): return a if c.st.decide(a.le(b)) else b
        return b if c.st.decide(a.le(b)) else a
    return INLINE
@M.on('std::cmp::Ord::cmp')
def _(c):
    a=c.deref(c.args[0]);b=c.deref(c.args[1])
    if isinstance(a,Poly):
        if c.st.decide(a.lt(b)): return ORD[-1]
        return ORD[0] if c.st.decide(a.eq(b)) else ORD[1]
    return INLINE
# ------------------------------------------------------------------ hash maps
def key_eq(c,a,b):
    a=c.deref(a); b=c.deref(b)
    if a==b: return TRUE
    if isinstance(a,Poly): return a.eq(b)
    if isinstance(a,Fl): return c.ex.fcmp('Eq',a,b)
    if isinstance(a,StrV): return str_eq(c,a,b)
    if isinstance(a,Agg) and isinstance(b,Agg):
        if a.v!=b.v: return FALSE
        return And(*[key_eq(c,x,y) for x,y in zip(a.f,b.f)])
    if isinstance(a,VecV) and isinstance(b,VecV) and isinstance(a.s,LSeq) and isinstance(b.s,LSeq):
        if len(a.s.l)!=len(b.s.l): return FALSE
        return And(*[key_eq(c,x,y) for x,y in zip(a.s.l,b.s.l)])
    raise Unsupported('map key %r'%(a,))
def map_find(c,m,k,p=None):
    for i in range(len(m.e)-1,-1,-1):
        if c.st.decide(key_eq(c,m.e[i][0],k)): return i
    if m.base is not None: 
        # arbitrary contents under the contract's representation invariant: the key may be present (then its value
        # satisfies the invariant given by ex.mapspec) or absent
        h=getattr(c.ex,'mapspec',None)
        if h is None or p is None: raise Unsupported('lookup in an arbitrary map')
        kv=c.deref(k)
        bn,bi=m.base if isinstance(m.base,tuple) else (m.base,None)
        if bi is None and '>' in bn:          # one arbitrary map laid over another
            for layer in bn.split('>'):
                if c.st.decide(fn('mapin:'+layer,*map_keyterm(kv),sort='int').ge(1)): break
            else: return None
            v=h(c.st,layer,kv)
            m=c.ex.read(c.st,p.c,p.p); c.ex.write(c.st,p.c,p.p,MapV(tuple(m.e)+((kv,v),),m.base))
            return len(m.e)
        if not c.st.decide(fn('mapin:'+str(bn),*(([bi] if bi is not None else [])+map_keyterm(kv)),sort='int').ge(1)): return None
        v=h(c.st,m.base,kv)
        m=c.ex.read(c.st,p.c,p.p); c.ex.write(c.st,p.c,p.p,MapV(tuple(m.e)+((kv,v),),m.base))
        return len(m.e)
    return None
def map_keyterm(k):
    if isinstance(k,StrV): return [repr(k)]
    if isinstance(k,Agg) and any(isinstance(x,StrV) for x in k.f): return [repr(k)]
    return flatten(k)
def map_set(c,m,k,v):
    i=map_find(c,m,k)
    e=list(m.e)
    if i is not None: e[i]=(e[i][0],v)
    else: e.append((k,v))
    return MapV(e,m.base)
def map_entries(c,m):
    if m.base is not None: raise Unsupported('iteration over an arbitrary map %r %r'%(m.base,m.e))
    return m.e
def map_iter(c,p,m):
    if m.base is not None and not m.e and not isinstance(m.base,tuple):     # the entries of an arbitrary map, in some order
        L=ivar('len(map:%s)'%m.base); c.st.assume(L.ge(0)); c.st.assume(L.le(1<<40)); nm=m.base; st0=c.st
        def mk(i): raise Unsupported('map entry')
        s=InSeq('mapent:'+nm,L,mk)
        s.get=lambda ex,st,i: Agg(0,(Ptr(st.alloc(StrV([('s','mapkey:%s[%s]'%(nm,show(i)))]))),Ptr(st.alloc(fin(elem('mapent:'+nm,i))))))
        return It(s)
    return It(LSeq([Agg(0,(Ptr(c.st.alloc(k)),Ptr(p.c,p.p+(('mv',i),)))) for i,(k,v) in enumerate(map_entries(c,m))]))
def map_extend(c):
    p=tgt(c,c.args[0]); m=c.ex.read(c.st,p.c,p.p); it=c.args[1]
    if isinstance(it,Ptr): it=c.ex.read(c.st,it.c,it.p)
    if isinstance(it,MapV): it=map_iter(c,Ptr(c.st.alloc(it)),it)
    if not isinstance(it,It): raise Unsupported('extend a map by %r'%(it,))
    base=it.s
    while not isinstance(base,(InSeq,LSeq)): base=base.base
    if isinstance(base,LSeq):
        def b(ex,st,v,x): return [map_set(c,v[0],x.f[0],x.f[1])]
        r=consume(c,it,[m],b,lambda v:v[0]); c.ex.write(c.st,p.c,p.p,r); return UNIT
    if not base.name.startswith('mapent:') or it.flt or it.pos!=ZERO or it.end!=it.s.len: raise Unsupported('extend a map by part of an iterator')
    nm=base.name[7:]; i=c.st.fresh('ext','int'); x=it.s.get(c.ex,c.st,i)
    k=c.deref(x.f[0]); v=c.deref(x.f[1])
    if k!=StrV([('s','mapkey:%s[%s]'%(nm,show(i)))]) or not isinstance(v,Fl) or v!=fin(elem('mapent:'+nm,i)): raise Unsupported('extend a map by changed entries')
    h=getattr(c.ex,'mapspec',None)
    if isinstance(m.base,tuple) or h is None: raise Unsupported('overlay on a family of maps')
    if any(y!=h(c.st,m.base,q) for q,y in m.e): raise Unsupported('overlay on a changed map')
    c.ex.write(c.st,p.c,p.p,MapV((),nm+'>'+m.base if m.base else nm)); return UNIT
HM=r'^std::collections::(HashMap|BTreeMap|hash::map::HashMap|hash_map::HashMap)::<[^>]*>::'
@M.pat(HM+r'(new|with_capacity|with_hasher)$')
def _(c): return MapV(())
@M.pat(HM+r'(get|get_mut)$')
def _(c):
    p=tgt(c,c.args[0]); m=c.ex.read(c.st,p.c,p.p)
    i=map_find(c,m,c.args[1],p)
    if i is None: return NONE
    return some(Ptr(p.c,p.p+(('mv',i),)))
@M.pat(HM+r'entry$')
def _(c): return Opq('entry',(c.args[0],c.args[1]))
EN=r'^std::collections::(hash_map|btree_map|hash::map|btree::map::entry)::Entry::<[^>]*>::'
def entry_slot(c,e):
    p=tgt(c,e.d[0]); m=c.ex.read(c.st,p.c,p.p); i=map_find(c,m,e.d[1],p)
    return p,i
@M.pat(EN+r'(or_insert|or_insert_with|or_default)$')
def _(c):
    e=c.args[0]
    if not isinstance(e,Opq) or e.n!='entry': return INLINE
    p,i=entry_slot(c,e)
    if i is None:
        if c.d.endswith('or_insert'): v=c.args[1]
        elif c.d.endswith('with'): v=c.ex.apply(c.st,Ptr(c.st.alloc(c.args[1])),c.atys[1],[])
        else: raise Unsupported('default entry')
        m=c.ex.read(c.st,p.c,p.p); i=len(m.e); c.ex.write(c.st,p.c,p.p,MapV(tuple(m.e)+((e.d[1],v),),m.base))
    return Ptr(p.c,p.p+(('mv',i),))
@M.pat(EN+r'and_modify$')
def _(c):
    e=c.args[0]
    if not isinstance(e,Opq) or e.n!='entry': return INLINE
    p,i=entry_slot(c,e)
    if i is not None: c.ex.apply(c.st,Ptr(c.st.alloc(c.args[1])),c.atys[1],[Ptr(p.c,p.p+(('mv',i),))])
    return e
@M.pat(HM+r'contains_key$')
def _(c):
    p=tgt(c,c.args[0]); return B(map_find(c,c.ex.read(c.st,p.c,p.p),c.args[1],p) is not None)
@M.pat(HM+r'insert$')
def _(c):
    p=tgt(c,c.args[0]); m=c.ex.read(c.st,p.c,p.p)
    i=map_find(c,m,c.args[1],p); m=c.ex.read(c.st,p.c,p.p)
    old=NONE if i is None else some(m.e[i][1])
    e=list(m.e)
    if i is None: e.append((c.args[1],c.args[2]))
    else: e[i]=(e[i][0],c.args[2])
    c.ex.write(c.st,p.c,p.p,MapV(e,m.base)); return old
@M.pat(HM+r'remove$')
def _(c):
    p=tgt(c,c.args[0]); m=c.ex.read(c.st,p.c,p.p); i=map_find(c,m,c.args[1])
    if i is None: return NONE
    e=list(m.e); k,v=e.pop(i)
    if m.base is not None: raise Unsupported('removal from an arbitrary map')
    c.ex.write(c.st,p.c,p.p,MapV(e,m.base)); return some(v)
@M.pat(HM+r'(len)$')
def _(c): return const(len(map_entries(c,c.deref(c.args[0]))))
@M.pat(HM+r'is_empty$')
def _(c): return B(len(map_entries(c,c.deref(c.args[0])))==0)
@M.pat(HM+r'clear$')
def _(c): c.ex.write(c.st,c.args[0].c,c.args[0].p,MapV(())); return UNIT
@M.pat(HM+r'(keys|values|iter|into_iter|drain)$')
def _(c):
    p=tgt(c,c.args[0]) if isinstance(c.args[0],Ptr) else Ptr(c.st.alloc(c.args[0]))
    m=c.ex.read(c.st,p.c,p.p); es=None if m.base is not None else map_entries(c,m)
    if es is None and not c.d.endswith(('iter','into_iter')): map_entries(c,m)
    if c.d.endswith('keys'): return It(LSeq([Ptr(c.st.alloc(k)) for k,v in es]))
    if c.d.endswith('values'): return It(LSeq([Ptr(p.c,p.p+(('mv',i),)) for i in range(len(es))]))
    return map_iter(c,p,m)
def map_index(c,w):
    p=tgt(c,c.args[0]); i=map_find(c,w,c.args[1],p)
    if i is None: raise X.Panic('map index')
    return Ptr(p.c,p.p+(('mv',i),))
_oproj=Exec.proj
def _proj(self,st,v,e):
    if e[0]=='mv':
        if isinstance(v,MapV): return v.e[e[1]][1]
        raise Unsupported('mv on %r'%(v,))
    return _oproj(self,st,v,e)
Exec.proj=_proj
_oupd=Exec.upd
def _upd(self,st,v,path,val):
    if path and path[0][0]=='mv' and isinstance(v,MapV):
        e=list(v.e); k,x=e[path[0][1]]; e[path[0][1]]=(k,self.upd(st,x,path[1:],val)); return MapV(e,v.base)
    return _oupd(self,st,v,path,val)
Exec.upd=_upd
@M.pat(r'^std::default::Default::default$')
def _(c):
    t=c.ex.T[c.dty]
    if t['k']=='adt':
        n=t['n']
        if n.endswith('HashMap'): return MapV(())
        if n.endswith('vec::Vec'): return VecV(LSeq(()))
        if n.endswith('::String'): return StrV([])
    if t['k']=='float': return fin(ZERO)
    if t['k']=='int': return ZERO
    return INLINE
@M.pat(I+r'float_to_int_unchecked$')
def _(c):
    """like a cast, but undefined unless the truncated value fits the integer type: that is an obligation of the caller"""
    v=c.args[0]; t=c.ex.T[c.dty]; lo,hi=X.IMIN(t),X.IMAX(t)
    if not isinstance(v,Fl) or v.k!='fin' or not c.st.decide(And(v.p.gt(lo-1),v.p.lt(hi+1))): raise X.Panic('undefined behaviour: float_to_int_unchecked of a value that does not fit')
    if v.p.cval() is not None: return const(int(v.p.cval()))
    return v.p if v.p.isint() else P(atom('fn','trunc',v.p,sort='int'))
# ------------------------------------------------------------------ strings (templates)
@M.pat(r'^std::string::String::(new|with_capacity)$')
def _(c): return StrV([])
@M.pat(r'^std::string::String::(as_str|into_boxed_str|as_mut_str)$',r'<impl str>::(to_string|to_owned|into_string|as_str)$',r'^std::string::String::into_string$')
def _(c): return c.deref(c.args[0])
@M.pat(r'^std::string::String::(push_str|push)$')
def _(c):
    p=c.args[0]; s=c.ex.read(c.st,p.c,p.p); a=c.deref(c.args[1])
    if isinstance(a,Poly): a=StrV([chr(int(a.cval()))])
    c.ex.write(c.st,p.c,p.p,StrV(s.s+a.s)); return UNIT
@M.on('std::convert::From::from','std::convert::Into::into')
def _(c):
    v=c.args[0]
    if isinstance(v,Arr) and re.match(r'<std::collections::(HashSet|BTreeSet)<std::string::String> as std::convert::From<\[',c.n) and all(isinstance(x,StrV) for x in v.e):
        return VecV(StrSet(LSeq(v.e),1 if 'BTreeSet' in c.n else 2))
    if isinstance(v,StrV): 
        t=c.ex.T[c.dty] if c.dty is not None else None
        if t is not None and t['k']=='adt' and t['n'].endswith('::String'): return v
        if c.dty is not None and t['k']=='adt' and t.get('box'): return INLINE
    if isinstance(v,Ptr):
        w=c.deref(v)
        if isinstance(w,StrV): return w
    return INLINE
def str_cut(c,s,p):
    """split at byte offset p, given as so many bytes from the start or from the end"""
    acc=ZERO; ps=list(s.s)
    for i,x in enumerate(ps+['']):
        d=(p-acc).cval()
        if d is not None and d==0: return StrV(ps[:i]),StrV(ps[i:])
        if d is not None and isinstance(x,str) and 0<d<=len(x.encode()):
            b=x.encode(); k=int(d)
            try: return StrV(ps[:i]+[b[:k].decode()]),StrV([b[k:].decode()]+ps[i+1:])
            except UnicodeDecodeError: raise X.Panic('byte index is no character boundary')
        if i<len(ps): acc=acc+c.ex.str_len(c.st,StrV([x]))
    if (p-acc).cval() is not None and (p-acc).cval()>0: raise X.Panic('byte index out of bounds')
    raise Unsupported('string index')
def str_slice(c,s,i):
    lo,hi=rng(c,i,c.ex.str_len(c.st,s),1)
    n=c.ex.str_len(c.st,s)
    if not c.st.decide(And(lo.le(hi),hi.le(n))): raise X.Panic('string slice')
    a,_=str_cut(c,s,hi); return str_cut(c,a,lo)[1]
def _strarg(c,v):
    v=c.deref(v)
    while isinstance(v,Ptr): v=c.ex.read(c.st,v.c,v.p)
    return v
def _pat(c,p):
    p=_strarg(c,p)
    if isinstance(p,Poly) and p.cval() is not None: p=StrV([chr(int(p.cval()))])
    if not isinstance(p,StrV) or p.lit() is None: raise Unsupported('string pattern')
    return p.lit()
def _ends(c,s,p):
    if not p: return TRUE
    if not s.s: return FALSE
    x=s.s[-1]
    if isinstance(x,str):
        if len(x)>=len(p) or not p.endswith(x): return TRUE if x.endswith(p) else FALSE
        raise Unsupported('ends_with across pieces')
    if x[0]=='whole' and getattr(c.ex,'bracketed',False): return B(p==')') if len(p)==1 else F('b','ends(%r,%r)'%(p,x))
    return F('b','ends(%r,%r)'%(p,x))
@M.pat(r'<impl str>::ends_with',on='n')
def _(c):
    s=_strarg(c,c.args[0]); p=_pat(c,c.args[1])
    if not isinstance(s,StrV): raise Unsupported('ends_with')
    return _ends(c,s,p)
def _trim(c,s,l,r):
    if not isinstance(s,StrV): raise Unsupported('trim')
    ps=list(s.s)
    def ok(x): return x[0] in('d','whole')        # printed numbers and terms have no blanks around them
    if ps and l:
        if isinstance(ps[0],str):
            q=ps[0].lstrip()
            if not q and len(ps)>1 and not ok(ps[1]): raise Unsupported('trim')
            ps[0]=q
        elif not ok(ps[0]): raise Unsupported('trim')
    if ps and r:
        if isinstance(ps[-1],str):
            q=ps[-1].rstrip()
            if not q and len(ps)>1 and not ok(ps[-2]): raise Unsupported('trim')
            ps[-1]=q
        elif not ok(ps[-1]): raise Unsupported('trim')
    return StrV(ps)
@M.pat(r'<impl str>::(trim|trim_start|trim_end)$')
def _(c):
    d=c.d.rsplit('::',1)[1]
    return _trim(c,_strarg(c,c.args[0]),d!='trim_end',d!='trim_start')
@M.pat(r'<impl str>::strip_(prefix|suffix)',on='n')
def _(c):
    s=_strarg(c,c.args[0]); p=_pat(c,c.args[1]); pre='strip_prefix' in c.n
    if not isinstance(s,StrV): raise Unsupported('strip')
    n=len(p.encode()); L=c.ex.str_len(c.st,s)
    if pre:
        x=s.s[0] if s.s else ''
        if not isinstance(x,str) or len(x)<len(p) and p.startswith(x) and len(s.s)>1: raise Unsupported('strip_prefix across pieces')
        if not x.startswith(p): return Agg(0,())
        return Agg(1,(str_cut(c,s,const(n))[1],))
    if not c.st.decide(_ends(c,s,p)): return Agg(0,())
    return Agg(1,(str_cut(c,s,L-n)[0],))
@M.pat(r'<impl str>::get$',r'<impl str>::get::<')
def _(c):
    s=_strarg(c,c.args[0])
    if not isinstance(s,StrV): return INLINE
    try: return Agg(1,(str_slice(c,s,c.args[1]),))
    except X.Panic: return Agg(0,())
@M.pat(r'<impl str>::split_at$')
def _(c): return Agg(0,str_cut(c,_strarg(c,c.args[0]),c.args[1]))
@M.pat(r'<impl str>::(is_empty)$')
def _(c):
    s=_strarg(c,c.args[0])
    if not isinstance(s,StrV): return INLINE
    return B(not s.s) if not s.s or any(isinstance(x,str) for x in s.s) else c.ex.str_len(c.st,s).eq(0)
@M.pat(r'^std::string::String::(len|is_empty)$',r'<impl str>::len$')
def _(c):
    s=_strarg(c,c.args[0])
    if not isinstance(s,StrV): return INLINE
    n=c.ex.str_len(c.st,s)
    return n if c.d.endswith('len') else n.eq(0)
@M.pat(r'<impl str>::(char_indices|chars|bytes)$')
def _(c):
    """the characters, with their byte offsets. A printed term (piece 'whole') is passed over: see the bounded contract on bracketed texts"""
    s=_strarg(c,c.args[0])
    if not isinstance(s,StrV): return INLINE
    acc=ZERO; out=[]; d=c.d.rsplit('::',1)[1]
    for x in s.s:
        if isinstance(x,str):
            for ch in x:
                if d=='bytes': out+=[const(b) for b in ch.encode()]
                else: out.append(Agg(0,(acc,const(ord(ch)))) if d=='char_indices' else const(ord(ch)))
                acc=acc+len(ch.encode())
        elif x[0]=='whole' and d=='char_indices' and getattr(c.ex,'bracketed',False):
            acc=acc+c.ex.str_len(c.st,StrV([x]))
        else: raise Unsupported('characters of %r'%(x,))
    return It(LSeq(out))
@M.pat(r'<impl str>::starts_with',on='n')
def _(c):
    s=c.deref(c.args[0]); p=c.deref(c.args[1])
    while isinstance(p,Ptr): p=c.ex.read(c.st,p.c,p.p)
    if isinstance(p,Poly) and p.cval() is not None: p=StrV([chr(int(p.cval()))])
    if not isinstance(s,StrV) or not isinstance(p,StrV) or not p.lit(): raise Unsupported('starts_with')
    p=p.lit()
    if not s.s: return FALSE
    x=s.s[0]
    if isinstance(x,str):
        if len(x)>=len(p) or not p.startswith(x): return TRUE if x.startswith(p) else FALSE
        raise Unsupported('starts_with across pieces')
    if x[0]=='d':
        if p=='-' and x[2] in('','?') and isinstance(x[1],Fl) and x[1].k=='fin': return x[1].p.lt(0)
        if p=='-' and x[2] in('','?') and isinstance(x[1],Poly): return x[1].lt(0)
        raise Unsupported('starts_with on a printed value')
    return F('b','starts(%r,%r)'%(p,x))
@M.pat(r'<impl str>::parse',on='n')
def _(c):
    """reading back what Display wrote (std: Display of a float is the shortest text that parses back to it)"""
    s=c.deref(c.args[0]); t=c.ex.T[c.dty]
    if isinstance(s,StrV) and len(s.s)==1 and not isinstance(s.s[0],str) and s.s[0][0]=='d' and s.s[0][2] in('','?') and isinstance(s.s[0][1],Fl): return ok(s.s[0][1])
    if isinstance(s,StrV) and s.lit() is not None and t['k']=='adt' and 'f64' in str(t.get('s','')):
        l=s.lit()
        if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?',l): return ok(fin(const(Q(float(l)))))
        if re.fullmatch(r'[+-]?(inf|infinity|nan)',l,re.I): raise Unsupported('parse of %r'%l)
        return err(Opq('ParseFloatError',l))
    raise Unsupported('parse of %r'%(s,))
# ------------------------------------------------------------------ formatting (format_args! templates, see core::fmt::Arguments)
class FArg:
    __slots__=('v','k')
    def __init__(self,v,k): self.v=v; self.k=k
def fmt_piece(c,a,spec):
    v=c.deref(a.v)
    while isinstance(v,Ptr): v=c.ex.read(c.st,v.c,v.p)
    full=spec+('?' if a.k=='debug' else 'e' if 'exp' in a.k else '')
    if isinstance(v,StrV) and full=='': return list(v.s)
    if isinstance(v,Poly) and full=='' and v.cval() is not None and v.isint(): return [str(int(v.cval()))]
    return [('d',v,full)]
@M.pat(r'^core::fmt::rt::Argument::<.*>::new_(display|debug|lower_exp|upper_exp|lower_hex)')
def _(c):
    k=re.search(r'new_(\w+)',c.d).group(1)
    return FArg(c.args[0],k)
@M.pat(r"^std::fmt::Arguments::<.*>::(from_str|from_str_nonconst)$")
def _(c): return c.deref(c.args[0])
def decode_template(b):
    """[(str) | (argindex, spec)]"""
    out=[];i=0;ai=0
    while True:
        n=b[i]; i+=1
        if n==0: return out
        if n<0x80: out.append(bytes(b[i:i+n]).decode()); i+=n
        elif n==0x80:
            L=b[i]|b[i+1]<<8; i+=2; out.append(bytes(b[i:i+L]).decode()); i+=L
        else:
            fl=w=pr=None
            if n!=0xC0:
                if n&1: fl=int.from_bytes(bytes(b[i:i+4]),'little'); i+=4
                if n&2: w=int.from_bytes(bytes(b[i:i+2]),'little'); i+=2
                if n&4: pr=int.from_bytes(bytes(b[i:i+2]),'little'); i+=2
                if n&8: ai=int.from_bytes(bytes(b[i:i+2]),'little'); i+=2
                if n&48: raise Unsupported('dynamic width/precision')
            sp=''
            if fl is not None and fl&0x00FFFFFF not in(0,0x20): sp+='#%x'%fl
            if w: sp+='w%d'%w
            if pr is not None: sp+='.%d'%pr
            out.append((ai,sp)); ai+=1
@M.pat(r"^std::fmt::Arguments::<.*>::new$")
def _(c):
    t=c.deref(c.args[0])
    while isinstance(t,Ptr): t=c.ex.read(c.st,t.c,t.p)
    if isinstance(t,StrV): b=t.lit().encode('latin1')
    elif isinstance(t,Arr): b=[int(x.cval()) for x in t.e]
    elif isinstance(t,VecV): b=[int(x.cval()) for x in t.s.e]
    else: b=t
    args=c.deref(c.args[1])
    while isinstance(args,Ptr): args=c.ex.read(c.st,args.c,args.p)
    e=args.e if isinstance(args,Arr) else args.s.e
    ps=[]
    for x in decode_template(b):
        if isinstance(x,str): ps.append(x)
        else: ps+=fmt_piece(c,e[x[0]],x[1])
    return StrV(ps)
@M.pat(r"^std::fmt::format$",r"^alloc::fmt::format$",r'^(std|alloc)::fmt::format::format_inner$')
def _(c): return c.deref(c.args[0])
@M.pat(r'^std::io::_e?print$')
def _(c): return UNIT      # what is written to the standard streams is not part of any property
@M.pat(r'^std::string::String::new$',on='n')
def _(c): return StrV(())
def _emptystr(w):
    """the bytes of a String that owns nothing yet"""
    def z(x): return all(z(y) for y in x.f) if isinstance(x,Agg) else isinstance(x,Poly) and x.cval()==0
    return isinstance(w,Agg) and w.v==0 and len(w.f)==1 and isinstance(w.f[0],Agg) and len(w.f[0].f)==2 and z(w)
def _fmt_out(c,f):
    """the string behind a formatter (core::fmt: everything printed is handed on to the writer it was made for)"""
    v=f
    while isinstance(v,Ptr):
        w=c.ex.read(c.st,v.c,v.p)
        if isinstance(w,StrV): return v
        if _emptystr(w): c.ex.write(c.st,v.c,v.p,StrV(())); return v
        v=w
    if isinstance(v,Agg):
        for x in v.f:
            while isinstance(x,Agg) and len(x.f)==1: x=x.f[0]
            if isinstance(x,DynPtr): x=x.p
            if isinstance(x,Ptr):
                r=_fmt_out(c,x)
                if r is not None: return r
    return None
@M.pat(r'^(std|core)::fmt::Formatter::<.*>::(write_fmt|write_str)$',r'^<(std|core)::fmt::Formatter<.*> as (std|core)::fmt::Write>::(write_fmt|write_str)$')
def _(c):
    p=_fmt_out(c,c.args[0])
    if p is None: raise Unsupported('formatter that writes to no string: %r'%(c.deref(c.args[0]),))
    x=c.deref(c.args[1])
    while isinstance(x,Ptr): x=c.ex.read(c.st,x.c,x.p)
    if not isinstance(x,StrV): raise Unsupported('printed text %r'%(x,))
    c.ex.write(c.st,p.c,p.p,StrV(c.ex.read(c.st,p.c,p.p).s+x.s)); return Agg(0,(UNIT,))
@M.pat(r'^(std|core)::fmt::Formatter::<.*>::write_char$',r'^<(std|core)::fmt::Formatter<.*> as (std|core)::fmt::Write>::write_char$')
def _(c):
    p=_fmt_out(c,c.args[0]); x=c.args[1]
    if p is None or not isinstance(x,Poly) or x.cval() is None: raise Unsupported('write_char')
    c.ex.write(c.st,p.c,p.p,StrV(c.ex.read(c.st,p.c,p.p).s+StrV([chr(int(x.cval()))]).s)); return Agg(0,(UNIT,))
@M.on('std::fmt::Display::fmt')
def _(c):
    """printing a value into the formatter at hand, when it is not reached through format_args"""
    v=c.deref(c.args[0])
    while isinstance(v,Ptr): v=c.ex.read(c.st,v.c,v.p)
    if not isinstance(v,(StrV,Fl,Poly)): return INLINE
    p=_fmt_out(c,c.args[1])
    if p is None: raise Unsupported('formatter that writes to no string')
    c.ex.write(c.st,p.c,p.p,StrV(c.ex.read(c.st,p.c,p.p).s+StrV(fmt_piece(c,FArg(v,'display'),'')).s)); return Agg(0,(UNIT,))
@M.pat(r'^<std::string::String as (std|core)::fmt::Write>::(write_fmt|write_str|write_char)$',on='n')
def _(c):
    p=c.args[0]; x=c.deref(c.args[1])
    while isinstance(x,Ptr): x=c.ex.read(c.st,x.c,x.p)
    if isinstance(x,Poly) and x.cval() is not None: x=StrV([chr(int(x.cval()))])
    s=c.ex.read(c.st,p.c,p.p)
    if not isinstance(x,StrV) or not isinstance(s,StrV): raise Unsupported('write to a string')
    c.ex.write(c.st,p.c,p.p,StrV(s.s+x.s)); return Agg(0,(UNIT,))
@M.pat(r'^<\[.*\] as (std|alloc)::slice::(Concat|Join)<.*>>::(concat|join)$',r'^(std|alloc|core)::slice::<impl \[.*\]>::(concat|join)(::<.*>)?$')
def _(c):
    v=c.deref(c.args[0])
    while isinstance(v,Ptr): v=c.ex.read(c.st,v.c,v.p)
    e=v.e if isinstance(v,Arr) else v.s.l if isinstance(v,VecV) and isinstance(v.s,LSeq) else None
    if e is None: return INLINE
    L=[]
    for x in e:
        while isinstance(x,Ptr): x=c.ex.read(c.st,x.c,x.p)
        if not isinstance(x,StrV): return INLINE
        L.append(x)
    sep=StrV([])
    if len(c.args)>1:
        sep=c.args[1]
        while isinstance(sep,Ptr): sep=c.ex.read(c.st,sep.c,sep.p)
        if not isinstance(sep,StrV): return INLINE
    o=[]
    for i,x in enumerate(L):
        if i: o+=list(sep.s)
        o+=list(x.s)
    return StrV(o)
# vec![a, b, ...]: a box is allocated uninitialised, the array is written into it, then it becomes a Vec
@M.pat(r'^std::boxed::Box::<.*>::new_uninit$',on='n')
def _(c): return Ptr(c.st.alloc(Undef('uninitialised box')))
@M.pat(r'^std::boxed::box_assume_init_into_vec_unsafe',on='n')
def _(c):
    v=c.args[0]
    while isinstance(v,(Ptr,Agg)):
        if isinstance(v,Ptr): v=c.ex.read(c.st,v.c,v.p)
        else:
            d=[x for x in v.f if not isinstance(x,Undef)]
            if len(d)!=1: raise Unsupported('vec! contents %r'%(v,))
            v=d[0]
    if not isinstance(v,Arr): raise Unsupported('vec! contents %r'%(v,))
    return VecV(LSeq(v.e))
# ------------------------------------------------------------------ sorted lists of strings
def _strs(s): return isinstance(s,LSeq) and all(isinstance(x,StrV) for x in s.l) or isinstance(s,InSeq) and s.name.startswith('fv(') or isinstance(s,CatSeq) and _strs(s.a) and _strs(s.b)
@M.pat(r'<impl \[T\]>::(sort|sort_unstable)$')
def _(c):
    p=tgt(c,c.args[0]); v=c.ex.read(c.st,p.c,p.p)
    if isinstance(v,VecV) and isinstance(v.s,StrSet):
        if v.s.st==3: c.ex.write(c.st,p.c,p.p,VecV(StrSet(v.s.base,0)))
        if v.s.st!=2: return UNIT
        b=v.s.base
        if isinstance(b,LSeq) and all(x.lit() is not None for x in b.l): c.ex.write(c.st,p.c,p.p,VecV(LSeq([StrV([x]) for x in sorted({x.lit() for x in b.l})])))
        else: c.ex.write(c.st,p.c,p.p,VecV(StrSet(b,1)))
        return UNIT
    if not isinstance(v,VecV) or not _strs(v.s): return INLINE
    c.ex.write(c.st,p.c,p.p,VecV(StrSet(v.s,0))); return UNIT
@M.pat(r'^std::collections::(HashSet|BTreeSet)::<std::string::String>::(new|with_capacity)$',on='n')
def _(c): return VecV(StrSet(LSeq(()),1 if 'BTreeSet' in c.n else 2))
@M.pat(r'^std::collections::(HashSet|BTreeSet)::<std::string::String>::insert$',on='n')
def _(c):
    p=tgt(c,c.args[0]); v=c.ex.read(c.st,p.c,p.p); x=c.deref(c.args[1])
    if not isinstance(x,StrV): raise Unsupported('element of a set of strings %r'%(x,))
    c.ex.write(c.st,p.c,p.p,VecV(StrSet(cat(v.s.base,LSeq((x,))),v.s.st)))
    return F('b','inserted(%r)'%(x,))
@M.pat(r'^std::vec::Vec::<.*>::dedup$')
def _(c):
    p=tgt(c,c.args[0]); v=c.ex.read(c.st,p.c,p.p)
    if not isinstance(v,VecV) or not isinstance(v.s,StrSet): return INLINE
    if v.s.st==3: raise Unsupported('dedup of a list in no order')
    c.ex.write(c.st,p.c,p.p,VecV(StrSet(v.s.base,1 if v.s.st==0 else v.s.st))); return UNIT

# ------------------------------------------------------------------ global state behind locks
# A lock is taken on whatever the other threads left there: every acquisition sees arbitrary contents of which only the
# contract's invariant (ex.lockspec(st, static name, type, k): the k-th acquisition) is known.
@M.pat(r'^std::sync::LazyLock::<.*>::force$')
def _(c): return c.args[0]
@M.pat(r'^(std::sync::(poison::)?(mutex::)?)?Mutex::<.*>::lock$',r'^std::sync::Mutex::<T>::lock$',on='n')
def _(c):
    w=c.deref(c.args[0]); h=getattr(c.ex,'lockspec',None)
    if not(isinstance(w,Opq) and w.n.startswith('static:')) or h is None: raise Unsupported('lock of %r'%(w,))
    nm=w.n[7:]
    if ('held',nm) in c.st.meta: raise X.Panic('deadlock: %s is locked while this thread holds it'%nm)
    k=sum(1 for x in c.st.meta if x[0]=='lock')
    if c.st.decide(F('b','poisoned(%s)'%nm)): return err(Opq('poison',nm))
    cell=c.st.alloc(h(c.st,nm,k)); c.st.meta[('lock',k)]=(nm,cell); c.st.meta[('held',nm)]=True
    return ok(Agg(0,(Ptr(cell),Opq('guard',nm))))
