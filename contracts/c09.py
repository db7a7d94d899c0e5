from distspec import *
for nm in CONT+DISC:
    d=DIST[nm]
    gen=dict(d.gen); gx=d.gen.get('x')
    if gx: gen['xs']=lambda r,*,gx=gx:[gx(r) for _ in range(r.choice([0,1,1,2,3,5,8]))]
    C(nm+'_batch','c09_%s_batch'%nm,lambda *a,d=d:SeqS(a[-1].len,lambda i:Cases((d.supp(*a[:-1],a[-1][i]),d.ld(*a[:-1],a[-1][i])),(TRUE,NINF))),pre=lambda *a,d=d:d.valid(*a[:-1]),gen=gen,title='batch evaluation gives the element-wise densities in order')
    C(nm+'_one','c09_%s_at'%nm,lambda *a,d=d:Cases((d.supp(*a),d.ld(*a)),(TRUE,NINF)),pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='single evaluation helper')
# ---- arbitrary measures, caching
from opaque import *
import vals
G=dict(fns=OPQ,gen={'p':lambda r:r.gauss(0,2),'q':lambda r:r.gauss(0,2),'x':lambda r:r.choice([0,1,2,3,7]),'y':lambda r:r.choice([0,1,2,3,7]),'z':lambda r:r.choice([0,1,2,3,7])})
def rel(a,b): return Cases((And(INF(*a),INF(*b)),ANY),(INF(*a),NINF),(INF(*b),PINF),(TRUE,LD(*a)-LD(*b)))
C('opq_batch','c09_opq_batch',lambda p,xs:SeqS(xs.len,lambda i:LDC(1,p,xs[i])),title='every measure: batch evaluation is element-wise and in order',fns=OPQ,gen={'p':lambda r:r.gauss(0,2)})
C('opq_one','c09_opq_one',lambda p,x:LDC(1,p,x),title='every measure: single evaluation helper',fns=OPQ,gen={'p':lambda r:r.gauss(0,2)})
C('cached_four','c09_cached_four',lambda p,q,x,y,z:(rel((1,p,x),(2,q,x)),rel((1,p,y),(2,q,y)),rel((1,p,x),(2,q,x)),rel((1,p,z),(2,q,z))),title='four queries against one cache (with and without repeats)',**G)
C('cached_conv','c09_cached_conv',lambda p,q,x:(rel((1,p,x),(2,q,x)),)*2,title='cached(): first and repeated query',**G)
C('cached_new','c09_cached_new',lambda p,q:(p,q),title='the wrapper keeps measure and base',**G)
# the representation invariant of the cache: every stored value is the uncached value of its key
CACHE={}
def _val(st,p,q,k):
    a,b=INF(1,p,k),INF(2,q,k)
    if st.decide(a): return NAN if st.decide(b) else NINF
    if st.decide(b): return PINF
    return fin(LD(1,p,k)-LD(2,q,k))
def _setup(ex,st,args,view):
    def spec(st,base,kv): return _val(st,CACHE['p'],CACHE['q'],P(kv))
    ex.mapspec=spec
    CACHE['p']=CACHE['q']=None
    # the measures inside the (arbitrary) wrapper
    w=ex.read(st,args[0].c,args[0].p)
    CACHE['root']=args[0]
    names={}
    def walk(v,d=0):
        if isinstance(v,Lazy): v=ex.lazy_val(st,v)
        if isinstance(v,Agg):
            for x in v.f: walk(x,d+1)
        if isinstance(v,Fl): names[show(v.p)]=v.p
    walk(w)
    for n,p in names.items():
        if 'Opq' in n:
            CACHE['p' if CACHE['p'] is None else 'q']=p
def _maps(ex,st):
    out=[]
    def go(v):
        if isinstance(v,Lazy): v=st.lazy.get(v.n)
        if isinstance(v,MapV): out.append(v)
        if isinstance(v,Agg):
            for x in v.f: go(x)
        if isinstance(v,tuple):
            for x in v: go(x)
    for v in st.cells.values(): go(v)
    return out
def chk(ex,st,val,k):
    """val is the uncached value of key k"""
    a,b=INF(1,CACHE['p'],k),INF(2,CACHE['q'],k)
    if not isinstance(val,Fl): return FALSE
    if val.k=='nan': return And(a,b)
    if val.k=='ninf': return And(a,Not(b))
    if val.k=='pinf': return And(b,Not(a))
    return And(Not(a),Not(b),val.p.eq(LD(1,CACHE['p'],k)-LD(2,CACHE['q'],k)))
def inv(x):
    def f(ex,st,val):
        out=[('result',chk(ex,st,val,P(x)))]
        ms=_maps(ex,st)
        out.append(('cache present',len(ms)>=1))
        for m in ms:
            for i,(k,v) in enumerate(m.e):
                while isinstance(k,Ptr): k=ex.read(st,k.c,k.p)
                out.append(('invariant of stored entry',chk(ex,st,v,P(k))))
        return out
    return Pred(f)
C('cached_any','c09_cached_any',lambda c,x:inv(x),title='any cache state satisfying the invariant: the answer is the uncached one and the invariant is kept (so it holds after every query sequence)',fns=OPQ,setup=_setup,conf=False)
