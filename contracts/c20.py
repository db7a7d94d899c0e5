from distspec import *
MV={'exponential':lambda r:(1/r,1/r**2),'gamma':lambda a,b:(a/b,a/b**2),'beta':lambda a,b:(a/(a+b),a*b/((a+b)**2*(a+b+1))),
 'chisq':lambda k:(k,2*k),'binomial':lambda n,p:(n*p,n*p*(1-p)),'negbin':lambda r,p:(r*p/(1-p),r*p/(1-p)**2),
 'geometric':lambda p:(1/p,(1-p)/p**2),'bernoulli':lambda p:(p,p*(1-p)),
 'categorical':lambda q:(Sum(ZERO,q.len,lambda i:i*q[i]),Sum(ZERO,q.len,lambda i:i*i*q[i])-Sum(ZERO,q.len,lambda i:i*q[i])**2)}
for nm,f in MV.items():
    d=DIST[nm]
    pre={'binomial':lambda n,p:[p.ge(0),p.le(1)],'bernoulli':lambda p:[p.ge(0),p.le(1)],'geometric':lambda p:[p.gt(0),p.le(1)]}.get(nm,d.valid)
    C(nm+'_mv','c20_%s_mv'%nm,f,pre=pre,gen=d.gen,title='mean and variance')
V=lambda nm:dict(pre=DIST[nm].valid,gen=DIST[nm].gen,title='parameter accessors')
C('normal_acc','c20_normal_acc',lambda m,s:(s**2,m,s,s),**V('normal'))
C('cauchy_acc','c20_cauchy_acc',lambda l,s:(l,s),**V('cauchy'))
C('cauchy_std','c20_cauchy_std',lambda:(ZERO,ONE))
C('chisq_acc','c20_chisq_acc',lambda k:(k/2,P(HALF)),**V('chisq'))
C('gamma_acc','c20_gamma_acc',lambda a,b:(a,b,1/b),**V('gamma'))
C('gamma_fss','c20_gamma_fss',lambda a,s:(a,1/s,s),pre=lambda a,s:pos(a,s),gen={'shape':f_pos,'scale':f_pos},title='shape/scale constructor')
C('studentt_acc','c20_studentt_acc',lambda n:n,**V('studentt'))
C('bernoulli_acc','c20_bernoulli_acc',lambda p:ln(p)-ln(1-p),**V('bernoulli'))
C('binomial_acc','c20_binomial_acc',lambda n,p:ln(p)-ln(1-p),**V('binomial'))
C('geometric_acc','c20_geometric_acc',lambda p:1-p,**V('geometric'))
C('negbin_acc','c20_negbin_acc',lambda r,p:(ln(p)-ln(1-p),1-p),**V('negbin'))
C('categorical_uniform','c20_categorical_uniform',lambda k:Cases((k.gt(0),(k,SeqS(k,lambda i:1/k))),(TRUE,PANIC)),pre=lambda k:[k.le(1<<20)],gen={'k':lambda r:r.choice([0,1,2,3,7,100])},title='uniform constructor')
Z1=(ZERO,ONE)
C('defaults','c20_defaults',lambda:(Z1,ONE,(ONE,ONE),(ONE,ONE),ONE),title='default distributions: standard normal, Exp(1), Gamma(1,1), Beta(1,1), chi-squared(1)')
C('defaults2','c20_defaults2',lambda:(Z1,ONE,P(HALF),P(HALF),ONE),title='default distributions: standard Cauchy, t(1), Bernoulli(1/2), Geometric(1/2), Poisson(1)')
C('params','c20_params',lambda m,s,n:((m,s),(m,s),n),pre=lambda m,s,n:pos(s,n),gen={'sd':f_pos,'nu':f_pos},title='params() are the parameters the distribution was made with')
