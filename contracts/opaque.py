"""contracts of the arbitrary component measures and functions of harness/src/opaque.rs: they are left uninterpreted,
so everything proved about a combinator holds for every component. NUM holds the same bodies for companion runs."""
from distspec import *
import re, mpmath, norm
from summ import Exists
def INF(k,p,x): return fn('opq_inf',k,p,x,sort='int').ge(1)     # the component has log-density -inf here
def LD(k,p,x): return fn('opq_ld',k,p,x)
def SUPP(k,p,x): return fn('opq_supp',k,p,x,sort='int').ge(1)
def OF(k,x): return fn('opq_f',k,x)
def OG(k,x,y): return fn('opq_g',k,x,y)
def LDC(k,p,x): return Cases((INF(k,p,x),NINF),(TRUE,LD(k,p,x)))
def _fl(v):
    if isinstance(v,Fl):
        return v.p if v.k=='fin' else None
    return P(v)
SP={'pinf':const(Q(10)**400),'ninf':-const(Q(10)**400),'nan':const(Q(10)**401)}
def _x(v):
    """argument of an uninterpreted function; non-finite values are passed as distinguished constants"""
    if isinstance(v,Fl): return v.p if v.k=='fin' else SP[v.k]
    return P(v)
def _h_ld(c):
    k,p,x=map(_x,c.args[:3])
    return NINF if c.st.decide(INF(k,p,x)) else fin(LD(k,p,x))
def _h_supp(c):
    k,p,x=map(_x,c.args[:3]); return SUPP(k,p,x)
def _h_f(c): return fin(OF(*map(_x,c.args[:2])))
def _h_g(c): return fin(OG(*map(_x,c.args[:3])))
OPQ=[(re.compile(r'opaque::opq_ld'),_h_ld),(re.compile(r'opaque::opq_supp'),_h_supp),(re.compile(r'opaque::opq_f'),_h_f),(re.compile(r'opaque::opq_g'),_h_g)]
m=mpmath
norm.NUM.update({'opq_ld':lambda k,p,x:m.sin(x*m.mpf(0.7)+p)*(1+k)-m.mpf(0.1)*(x-p)*(x-p),'opq_inf':lambda k,p,x:1 if x<p-3 else 0,'opq_supp':lambda k,p,x:1 if x>=p-3 else 0,
 'opq_f':lambda k,x:m.cos(x*(m.mpf(0.3)+k))+x/4,'opq_g':lambda k,x,y:m.cos(x*(m.mpf(0.3)+k))/2+y/4})
