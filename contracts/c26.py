"""change of variables and the automatic-differentiation layer"""
from distspec import *
from opaque import *
K=dict(fns=OPQ,gen={'p':lambda r:r.gauss(0,1.5),'q':lambda r:r.gauss(0,1.5),'x':lambda r:r.gauss(0,2.5)})
def rel(a,b): return Cases((And(INF(*a),INF(*b)),ANY),(INF(*a),NINF),(INF(*b),PINF),(TRUE,LD(*a)-LD(*b)))
def vec(k): return lambda r:[r.choice([r.gauss(0,3),r.choice([0.,1.,-1.,.1,1/3,1e9+.25])]) for _ in range(k)]
def rv(lo=0): return lambda r:[r.gauss(0,2) for _ in range(r.randrange(lo,5))]
def ga(r,out=None): return [r.gauss(0,2) for _ in range(r.randrange(0,10))]
def lin(a,b,x,m,n): return SeqS(P(n),lambda i:b[i]+Sum(ZERO,P(m),lambda j:a[i*P(m)+j]*x[j]))
def linf(a,b,x):
    m,n=len(x),len(b); return [b[i]+sum((a[i*m+j]*x[j] for j in range(m)),ZERO) for i in range(n)]
C('linear','c26_linear',lambda a,b,x:Cases((Not(a.len.eq(b.len*x.len)),PANIC),(TRUE,lin(a,b,x,x.len,b.len))),pre=lambda a,b,x:[x.len.le(1<<20),b.len.le(1<<20)],gen={'a':ga,'b':rv(),'x':rv()},title='linear transformation of any size: A x + b; panics when the sizes disagree')
for k,m,n in(('22',2,2),('23',2,3),('32',3,2)):
    C('linear'+k,'c26_linear'+k,linf,gen={'a':vec(m*n),'b':vec(n),'x':vec(m)},title='linear transformation from %d to %d dimensions'%(m,n))
C('linear_dims','c26_linear_dims',lambda a,b,m,n:Cases((Or(Not(a.len.eq(m*n)),Not(b.len.eq(n))),PANIC),(TRUE,(m,n))),pre=lambda a,b,m,n:[m.le(1<<20),n.le(1<<20)],gen={'a':ga,'b':rv(),'m':lambda r:r.randrange(0,4),'n':lambda r:r.randrange(0,4)},title='constructor: sizes checked, dimensions kept')
C('linear_input','c26_linear_input',lambda a,b,x:Cases((Not(x.len.eq(2)),PANIC),(TRUE,P(3))),gen={'a':vec(6),'b':vec(3),'x':rv()},title='input of the wrong size panics')
C('comp','c26_comp',lambda p,x:SeqS(x.len,lambda i:OG(2,p,x[i])),fns=OPQ,gen={'p':f_real,'x':rv()},title='component-wise transformation by an arbitrary function, any size')
C('comp_input','c26_comp_input',lambda x,n:Cases((Not(x.len.eq(n)),PANIC),(TRUE,n)),fns=OPQ,gen={'x':rv(),'n':lambda r:r.randrange(0,5)},title='input of the wrong size panics')
C('comp_dims','c26_comp_dims',lambda n:(n,n),fns=OPQ,title='dimensions')
C('measure','c26_measure',lambda p,q,x:(p,SeqS(x.len,lambda i:OG(2,q,x[i]))),fns=OPQ,gen={'p':f_real,'q':f_real,'x':rv()},title='a transformed measure keeps its base measure and its transformation')
C('at_ad','c26_at_ad',lambda p,x:(LDC(1,p,x),LDC(1,p,x)),title='at_ad is at, for every measure',**K)
C('at_ad_wrt','c26_at_ad_wrt',lambda p,q,x:rel((1,p,x),(2,q,x)),title='at_ad is at for relative densities',**K)
C('value','c26_value',lambda p,q,x:(LDC(1,p,x),rel((1,p,x),(2,q,x))),title='the value part of value_and_grad is the log-density',**K)
C('with','c26_with',lambda p,x:(LDC(1,p,x),LDC(1,p,x)),title='with_reverse_ad and with_forward_ad leave the measure unchanged',**K)
LJ='LinearTransform::log_abs_det_jacobian is 0 whatever the matrix'; CJ='ComponentwiseTransform::log_abs_det_jacobian is 0 whatever the function'; VG='value_and_grad returns the value in place of the gradient'
def det(a): return a[0]*a[3]-a[1]*a[2]
C('linear_jac','c26_linear_jac',lambda a,b,x:Known(ln(det(a)**2)*HALF,ZERO,LJ),pre=lambda a,b,x:[Or(det(a).gt(0),det(a).lt(0))],gen={'a':vec(4),'b':vec(2)},title='log |det A| of a linear transformation')
C('comp_jac','c26_comp_jac',lambda k,x:Known(ln(k**2)*HALF,ZERO,CJ),pre=lambda k,x:[Or(k.gt(0),k.lt(0))],title='log-Jacobian of v -> k v')
C('grad','c26_grad',lambda p,x:Known(p-x,-ln(2*PI)/2-(x-p)**2/2,VG),gen={'p':f_real,'x':f_real},title='gradient of a normal log-density')
