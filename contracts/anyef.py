"""an arbitrary exponential family (harness/src/ef.rs: Fam): natural parameter, log-partition, statistic and base measure are uninterpreted"""
from opaque import *
XG={'xs':lambda r:[r.choice([-4.,-1.,0.,.5,2.,6.]) for _ in range(r.choice([0,1,2,3,5]))],'ys':lambda r:[r.choice([-4.,-1.,0.,.5,2.,6.]) for _ in range(r.choice([0,1,2,3,5]))],'ps':lambda r:[r.gauss(0,2) for _ in range(r.choice([0,1,2,3,3,3,5]))],'p':lambda r:r.gauss(0,2),'q':lambda r:r.gauss(0,2),'x':lambda r:r.choice([-4.,-1.,0.,.5,2.,6.])}
ETA=lambda p:(OF(11,p),OF(12,p)); A_=lambda p:OF(13,p); T_=lambda x:(OF(14,x),OF(15,x))
def body(p,x): return ETA(p)[0]*T_(x)[0]+ETA(p)[1]*T_(x)[1]-A_(p)+LD(1,p,x)
def one(p,x): return Cases((INF(1,p,x),NINF),(TRUE,body(p,x)))
def anyinf(p,xs): return Exists(ZERO,xs.len,lambda i:INF(1,p,xs[i]))
def joint(p,xs): return Cases((anyinf(p,xs),NINF),(TRUE,xs.sum(lambda x:body(p,x))))
