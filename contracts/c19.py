from symb import *
from printing import *
from summ import ipow
import c16 as _c
del CONTRACTS[:]
_c.direct('c19','de','DirectEval'); _c.stats('c19'); _c.pretty('c19')
C('wrap','c19_wrap',lambda a:(a,a,a),title='the expression wrapper keeps its representation')
def gcs(r): return [float(r.choice([0,1,-1,2,.5,-3,r.gauss(0,2)])) for _ in range(r.choice([0,1,1,2,2,3,4,5,7,9,12]))]
GP=dict(coeffs=gcs,roots=gcs,x=lambda r:r.choice([0.0,1.0,-1.0,2.0,r.gauss(0,1.5)]))
def poly_(cs,x): return Sum(ZERO,cs.len,lambda i:cs[i]*ipow(x,i))
C('horner','c19_horner',poly_,gen=GP,title='horner evaluates sum c_i x^i, any degree')
C('hornerx','c19_hornerx',poly_,gen=GP,title='horner_expr evaluates sum c_i x^i, any degree')
C('deriv','c19_deriv',lambda cs,x:Sum(ONE,cs.len,lambda i:i*cs[i]*ipow(x,i-1)),gen=GP,title='horner_derivative evaluates sum i c_i x^(i-1)')
C('roots','c19_roots',lambda rs,x:Prod(ZERO,rs.len,lambda i:x-rs[i]),gen=GP,title='from_roots evaluates the product of (x - r_i), any number of roots')
