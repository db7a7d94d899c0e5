"""Textbook specifications of the distributions, written from the definitions (not from the code)."""
from spec import *
HALF=Q(1,2)
class D: pass
def mk(name,params,valid,supp,ld,x='f',**kw):
    d=D(); d.name=name; d.params=params; d.np=len(params); d.valid=valid; d.supp=supp; d.ld=ld; d.x=x
    for k,v in kw.items(): setattr(d,k,v)
    return d
def pos(*a): return [F('lt',-x) for x in a]
def unit(p): return [p.gt(0),p.lt(1)]
T_=lambda *a:[TRUE]
def always(*a): return TRUE
DIST={}
def add(d): DIST[d.name]=d; return d
def f_pos(r): return math.exp(r.gauss(0,1.2)) if r.random()<.85 else r.choice([1e-3,1e3,4e4,math.exp(r.gauss(0,5))])       # now and then far out: overflow and cancellation are not part of the proofs
import math
f_unit=lambda r:r.choice([0.5,0.25,0.1,0.9,r.random(),r.random(),r.random(),0.01,0.99,1e-6,1-1e-6])
f_real=lambda r:r.choice([0.0,1.0,-1.0,r.gauss(0,1),r.gauss(0,1),r.gauss(0,5),r.gauss(0,5),r.gauss(0,300)])
k_small=lambda r:r.choice([0,1,2,3,4,5,r.randrange(0,30),r.randrange(0,300)])
add(mk('normal',['mean','sd'],lambda m,s:pos(s),lambda m,s,x:TRUE,
   lambda m,s,x: -(x-m)**2/(2*s**2)-ln(s)-LN2PI/2, gen={'mean':f_real,'sd':f_pos,'x':f_real}))
add(mk('stdnormal',[],lambda:[],lambda x:TRUE,lambda x:-x**2/2-LN2PI/2,gen={'x':f_real}))
add(mk('exponential',['rate'],lambda r:pos(r),lambda r,x:x.ge(0),lambda r,x: ln(r)-r*x,gen={'rate':f_pos}))
add(mk('gamma',['shape','rate'],lambda a,b:pos(a,b),lambda a,b,x:x.gt(0),
   lambda a,b,x: a*ln(b)-lgamma(a)+(a-1)*ln(x)-b*x,gen={'shape':f_pos,'rate':f_pos}))
add(mk('beta',['alpha','beta'],lambda a,b:pos(a,b),lambda a,b,x:And(x.gt(0),x.lt(1)),
   lambda a,b,x:(a-1)*ln(x)+(b-1)*ln(1-x)+lgamma(a+b)-lgamma(a)-lgamma(b),gen={'alpha':f_pos,'beta':f_pos,'x':lambda r:r.choice([r.random()]*6+[0.0,1.0,-.5,1.5])}))
add(mk('chisq',['k'],lambda k:pos(k),lambda k,x:x.gt(0),
   lambda k,x:(k/2-1)*ln(x)-x/2-(k/2)*ln(P(2))-lgamma(k/2),gen={'k':f_pos}))
add(mk('cauchy',['loc','scale'],lambda l,s:pos(s),lambda l,s,x:TRUE,
   lambda l,s,x:-ln(PI)-ln(s)-ln(1+((x-l)/s)**2),gen={'loc':f_real,'scale':f_pos}))
add(mk('studentt',['nu'],lambda n:pos(n),lambda n,x:TRUE,
   lambda n,x:lgamma((n+1)/2)-lgamma(n/2)-HALF*ln(n*PI)-(n+1)/2*ln(1+x**2/n),gen={'nu':f_pos}))
add(mk('poisson',['rate'],lambda r:pos(r),lambda r,k:TRUE,
   lambda r,k:k*ln(r)-r-lfact(k),x='i',gen={'rate':f_pos,'x':k_small}))
def lchoose(n,k): return lfact(n)-lfact(k)-lfact(n-k)
add(mk('binomial',['n','p'],lambda n,p:unit(p),lambda n,p,k:k.le(n),
   lambda n,p,k:lchoose(n,k)+k*ln(p)+(n-k)*ln(1-p),x='i',
   coef=lambda n,p,k:lchoose(n,k),
   gen={'n':lambda r:r.choice([1,2,3,5,10,20,60,r.randrange(1,300)]),'p':f_unit,'x':k_small}))
add(mk('negbin',['r','p'],lambda r,p:[r.gt(0)]+unit(p),lambda r,p,k:TRUE,
   lambda r,p,k:lgamma(P(r)+k)-lfact(k)-lgamma(P(r))+k*ln(p)+r*ln(1-p),x='i',
   coef=lambda r,p,k:lgamma(P(r)+k)-lfact(k)-lgamma(P(r)),
   gen={'r':lambda r:r.choice([1,2,3,5,10,20,60,r.randrange(1,300)]),'p':f_unit,'x':k_small}))
add(mk('geometric',['p'],lambda p:unit(p),lambda p,k:k.ge(1),
   lambda p,k:(k-1)*ln(1-p)+ln(p),x='i',gen={'p':f_unit,'x':k_small}))
add(mk('bernoulli',['p'],lambda p:unit(p),lambda p,k:k.le(1),
   lambda p,k:ite(F('eq',P(k)),ln(1-p),ln(p)),x='i',gen={'p':f_unit,'x':lambda r:r.choice([0,1,0,1,2,255,r.randrange(256)])}))
def g_probs(r):
    n=r.choice([1,2,2,3,3,4,5,8]); w=[r.random()+.02 for _ in range(n)]; s=sum(w); w=[x/s for x in w]
    return w
add(mk('categorical',['probs'],lambda q:[q.len.gt(0),q.all(lambda x:x.gt(0)),F('eq',q.sum()-1)],lambda q,k:k.lt(q.len),
   lambda q,k:ln(q[k]),x='i',gen={'probs':g_probs,'probs2':g_probs,'x':lambda r:r.choice([0,0,1,1,2,3,7,9])}))
CONT=['normal','exponential','gamma','beta','chisq','cauchy','studentt']
DISC=['poisson','binomial','negbin','geometric','bernoulli','categorical']

# exponential-family pieces (natural parameter, log-partition, sufficient statistic, log base measure) as documented
def ef(nm,nat,A,T,h=lambda *a:ZERO): 
    d=DIST[nm]; d.nat=nat; d.A=A; d.T=T; d.h=h
ef('normal',lambda m,s:[m/s**2,-HALF/s**2],lambda m,s:m**2/(2*s**2)+ln(s)+LN2PI/2,lambda m,s,x:[x,x**2])
ef('stdnormal',lambda:[ZERO,P(-HALF)],lambda:LN2PI/2,lambda x:[x,x**2])
ef('exponential',lambda r:[-r],lambda r:-ln(r),lambda r,x:[x])
ef('gamma',lambda a,b:[a-1,-b],lambda a,b:lgamma(a)-a*ln(b),lambda a,b,x:[ln(x),x])
ef('beta',lambda a,b:[a-1,b-1],lambda a,b:lgamma(a)+lgamma(b)-lgamma(a+b),lambda a,b,x:[ln(x),ln(1-x)])
ef('chisq',lambda k:[k/2-1,P(-HALF)],lambda k:lgamma(k/2)+k/2*ln(P(2)),lambda k,x:[ln(x),x])
ef('poisson',lambda r:[ln(r)],lambda r:r,lambda r,k:[k],lambda r,k:-lfact(k))
ef('binomial',lambda n,p:[ln(p)-ln(1-p)],lambda n,p:-n*ln(1-p),lambda n,p,k:[k],lambda n,p,k:lchoose(n,k))
ef('negbin',lambda r,p:[ln(p)],lambda r,p:-r*ln(1-p),lambda r,p,k:[k],lambda r,p,k:lgamma(P(r)+k)-lfact(k)-lgamma(P(r)))
ef('geometric',lambda p:[ln(1-p)],lambda p:ln(1-p)-ln(p),lambda p,k:[k])
ef('bernoulli',lambda p:[ln(p)-ln(1-p)],lambda p:-ln(1-p),lambda p,k:[k])
ef('categorical',lambda q:SeqS(q.len-1,lambda i:ln(q[i])-ln(q[q.len-1])),lambda q:-ln(q[q.len-1]),
   lambda q,k:SeqS(q.len-1,lambda i:ite(F('eq',i-k),ONE,ZERO)))
EF=['normal','stdnormal','exponential','gamma','beta','chisq','poisson','binomial','negbin','geometric','bernoulli','categorical']
NBK='NegativeBinomial natural parameter is the log-odds ln(p/(1-p)) where the density needs ln p (pinned by tests/negative_binomial_test.rs)'
NB_ETA=lambda p:ln(p)-ln(1-p)
ST=Q(1,10**10)   # documented accuracy of the Stirling branch of log k! (factorial.rs: error < 1e-10 for k >= 10)
