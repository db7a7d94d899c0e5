from opaque import *
g={'theta':lambda r:r.gauss(0,2)}
# an arbitrary decomposition: any number of terms, each an arbitrary function
n='d.'
def LEN(f): return var('len(d.LogDensityDecomposition.%s)'%f,sort='int') if False else ivar('len(d.LogDensityDecomposition.%s)'%f)
def DT(i,x): return fn('u:d.LogDensityDecomposition.data_terms.compute',i,x)
def PT(i,t): return fn('u:d.LogDensityDecomposition.param_terms.compute',i,t)
def MT(i,x,t): return fn('u:d.LogDensityDecomposition.mixed_terms.compute',i,x,t)
def SD(x): return Sum(ZERO,LEN('data_terms'),lambda i:DT(i,x))
def SP_(t): return Sum(ZERO,LEN('param_terms'),lambda i:PT(i,t))
def SM(x,t): return Sum(ZERO,LEN('mixed_terms'),lambda i:MT(i,x,t))
def SC(): return Sum(ZERO,LEN('constant_terms'),lambda i:elem('d.LogDensityDecomposition.constant_terms',i))
def EV(x,t): return SD(x)+SP_(t)+SM(x,t)+SC()
K=dict(fns=OPQ,conf=False)
C('any_eval','c08_any_eval',lambda d,x,t:EV(x,t),title='every decomposition evaluates to the sum of its terms',**K)
C('any_iid','c08_any_iid',lambda d,xs,t:xs.sum(lambda x:EV(x,t)),title='the IID evaluation is the sum over the samples',**K)
C('any_parts','c08_any_parts',lambda d,x,t:(SD(x),SP_(t),SC()),title='partial sums',**K)
C('any_add_data','c08_any_add_data',lambda d,x,t:EV(x,t)+OF(1,x),title='adding a data term',**K)
C('any_add_param','c08_any_add_param',lambda d,x,t:EV(x,t)+OF(1,t),title='adding a parameter term',**K)
C('any_add_mixed','c08_any_add_mixed',lambda d,x,t:EV(x,t)+OG(1,x,t),title='adding a mixed term',**K)
C('any_add_const','c08_any_add_const',lambda d,c,x,t:EV(x,t)+c,title='adding a constant',**K)
B=lambda c,e,x,t:OF(1,x)+OF(2,x)+OF(3,t)+OF(4,t)+OG(1,x,t)+OG(2,x,t)+c+e
G=dict(fns=OPQ,gen=g)
C('built_eval','c08_built_eval',B,title='builder keeps every term in its group',**G)
C('built_iid','c08_built_iid',lambda c,e,xs,t:xs.sum(lambda x:B(c,e,x,t)),title='builder, IID',**G)
C('built_parts','c08_built_parts',lambda c,e,x,t:(OF(1,x)+OF(2,x),OF(3,t)+OF(4,t),c+e),title='builder, partial sums',**G)
C('empty','c08_empty',lambda x,t,xs:(ZERO,ZERO),title='empty decomposition')
for nm in('normal','cauchy','studentt'):
    d=DIST[nm]; np_=d.np
    g={k:v for k,v in d.gen.items() if k!='x'}
    for k in('s0','n0'): g[k]=lambda r:math.exp(r.gauss(0,1))
    C(nm+'_dec','c08_%s_dec'%nm,lambda *a,d=d,n=np_:d.ld(*a[n:]),pre=lambda *a,d=d,n=np_:d.valid(*a[:n])+d.valid(*a[n:2*n]),gen=g,title='the decomposition, evaluated at any parameters, is the log-density at those parameters')
    C(nm+'_deciid','c08_%s_deciid'%nm,lambda *a,d=d,n=np_:a[-1].sum(lambda x:d.ld(*a[n:-1],x)),pre=lambda *a,d=d,n=np_:d.valid(*a[:n])+d.valid(*a[n:2*n]),gen=g,title='its IID evaluation is the sum of log-densities')
C('normal_decparts','c08_normal_decparts',lambda m0,s0,mu,s,x:(-LN2PI/2,-ln(s)),pre=lambda m0,s0,mu,s,x:[P(s0).gt(0),P(s).gt(0)],gen={'s0':f_pos,'sigma':f_pos},title='grouping of the terms')
