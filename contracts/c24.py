"""numeric conversions and vector helpers: a value that fits the target type keeps its value (fractions are cut off for
integers), any other becomes the default or the given fallback"""
from distspec import *
E53=1<<53
def big(r): return r.choice([0.,1.,-1.,.5,-.5,.99,-.99,-1.5,2.5,1e6,4294967295.,4294967295.5,4294967296.,1.8446744073709552e19,1.8446744073709550e19,9.223372036854775807e18,-9.223372036854775808e18,-9.3e18,1e300,-1e300,r.gauss(0,1e5)])
def ki(r): return r.choice([0,1,-1,5,-7,(1<<32)-1,1<<32,(1<<40)+3,-(1<<40),E53,-E53])
def ku(r): return abs(ki(r))
def tr(a): return P(atom('fn','trunc',a,sort='int'))
def fit(a,lo,hi,v,other): return Cases((And(a.gt(lo),a.lt(hi)),v),(TRUE,other))
def rng(k): return [k.le(E53),k.ge(-E53)]
C('ff','c24_ff',lambda a:a,title='f64 to f64 keeps the value')
C('uf','c24_uf',lambda k:k,pre=rng,gen={'k':ku},title='u64 to f64 keeps the value (up to 2^53)')
C('if','c24_if',lambda k:k,pre=rng,gen={'k':ki},title='i64 to f64 keeps the value (up to 2^53)')
C('fu','c24_fu',lambda a:fit(a,-1,1<<64,tr(a),ZERO),gen={'a':big},title='f64 to u64: cut off, or the default when it does not fit')
C('fi','c24_fi',lambda a:Cases((And(a.ge(-(1<<63)),a.lt(1<<63)),tr(a)),(TRUE,ZERO)),gen={'a':big},title='f64 to i64: cut off, or the default when it does not fit')
C('fu32','c24_fu32',lambda a:fit(a,-1,1<<32,tr(a),ZERO),gen={'a':big},title='f64 to u32: cut off, or the default when it does not fit')
C('uu','c24_uu',lambda k:k,pre=rng,gen={'k':ku},title='u64 to u64 keeps the value (up to 2^53)')
C('iu','c24_iu',lambda k:fit(k,-1,1<<64,k,ZERO),pre=rng,gen={'k':ki},title='i64 to u64: default for negative numbers')
C('or_ff','c24_or_ff',lambda a,b:a,title='conversion with fallback keeps the value')
C('or_fu','c24_or_fu',lambda a,b:fit(a,-1,1<<64,tr(a),b),gen={'a':big},title='conversion with fallback: fallback exactly when the value does not fit')
C('or_iu32','c24_or_iu32',lambda a,b:fit(a,-1,1<<32,a,b),pre=lambda a,b:rng(a),gen={'a':ki},title='conversion with fallback: fallback exactly when the value does not fit')
C('fconv','c24_fconv',lambda a:Ok_(a),title='float conversion keeps the value')
C('const','c24_const',lambda a:a,title='float_constant is the constant')
C('inf','c24_inf',lambda neg,b,k:Cases((neg,(NINF,NINF,ZERO,k,NINF,NINF)),(TRUE,(PINF,PINF,ZERO,k,PINF,PINF))),title='infinities')
C('nan','c24_nan',lambda b,k:(NAN,NAN,ZERO,k,NAN,NAN),title='NaN')
for n in(1,2,5): C('sub%d'%n,'c24_sub%d'%n,lambda a,b:[x-y for x,y in zip(a,b)],title='array_sub is the component-wise difference (%d components)'%n)
