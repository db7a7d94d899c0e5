from distspec import *
for nm in CONT+DISC:
    d=DIST[nm]; n=d.np
    C(nm+'_at','c07_%s_at'%nm,lambda *a,d=d:Cases((d.supp(*a),Approx(d.ld(*a),ST) if d.name=='poisson' else d.ld(*a)),(TRUE,NINF)),pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='density with respect to the root measure')
    def wpost(*a,d=d,n=n):
        p,q,x=a[:n],a[n:2*n],a[2*n]
        s1=S_F(d.supp(*p,x)); s2=S_F(d.supp(*q,x))
        return Cases((And(s1,s2),d.ld(*p,x)-d.ld(*q,x)),(And(s1,Not(s2)),PINF),(And(Not(s1),s2),NINF),(TRUE,ANY))
    gen=dict(d.gen)
    for k in d.params:
        if k in gen: gen[k+'2']=gen[k]
    C(nm+'_wrt','c07_%s_wrt'%nm,wpost,pre=lambda *a,d=d,n=n:d.valid(*a[:n])+d.valid(*a[n:2*n]),gen=gen,title='relative density of two members is the difference of log-densities')

# ---- arbitrary measures
from opaque import *
xx={'x':lambda r:r.choice([-4.,-1.,0.,.5,2.,6.]),'p':lambda r:r.gauss(0,2),'q':lambda r:r.gauss(0,2)}
def rel(a,b):
    """log-density of a with respect to b, for points of b's support (elsewhere only +inf is defined)"""
    return Cases((And(INF(*a),INF(*b)),ANY),(INF(*a),NINF),(INF(*b),PINF),(TRUE,LD(*a)-LD(*b)))
K=dict(fns=OPQ,gen=xx)
C('opq_at','c07_opq_at',lambda p,x:LDC(1,p,x),title='every measure: density with respect to its root',**K)
for s in('ff','ft','tf','tt'): C('opq_'+s,'c07_opq_'+s,lambda p,q,x:rel((1,p,x),(2,q,x)),title='every pair of measures: relative density is the difference',**K)
C('opq_same','c07_opq_same',lambda p,q,x:rel((1,p,x),(1,q,x)),title='two members of one family',**K)
C('opq_self','c07_opq_self',lambda p,x:Cases((INF(1,p,x),ANY),(TRUE,ZERO)),title='a measure has log-density 0 with respect to itself',**K)
C('opq_leb','c07_opq_leb',lambda p,x:LDC(1,p,x),title='with respect to the root',**K)
C('opq_leb_inv','c07_opq_leb_inv',lambda p,x:Cases((INF(1,p,x),PINF),(TRUE,-LD(1,p,x))),title='of the root with respect to a measure',**K)
C('opq_rewrt','c07_opq_rewrt',lambda p,q,r,x:rel((1,p,x),(3,r,x)),title='wrt applied twice: the last base counts',**K)
C('opq_chain','c07_opq_chain',lambda p,q,r,x:Cases((Or(INF(1,p,x),INF(2,q,x),INF(3,r,x)),ANY),(TRUE,(LD(1,p,x)-LD(3,r,x),ZERO))),title='chain rule and antisymmetry',**K)
C('opq_access','c07_opq_access',lambda p,q:(p,q),title='accessors',**K)
C('opq_clone','c07_opq_clone',lambda p,q,x:rel((1,p,x),(2,q,x)),title='clones evaluate alike',**K)
C('zst_at','c07_zst_at',lambda x:LDC(9,0,x),title='measure type without data',**K)
C('zst_wrt','c07_zst_wrt',lambda p,x:rel((9,0,x),(2,p,x)),title='measure type without data',**K)
C('shared','c07_shared',lambda p,q,x:Cases((Or(INF(1,p,x),INF(2,q,x)),NINF),(TRUE,LD(1,p,x)+LD(2,q,x))),title='pair with a shared root: both densities accumulated',**K)
C('primitives','c07_primitives',lambda x,k:(ZERO,ZERO,True,True),title='primitive measures')
