from norm import *
x=var('x');p=var('p');s=var('s');k=ivar('k')
c=ICtx([p.gt(0),p.lt(1),s.gt(0),k.ge(0)])
def t(e): 
    r=is_zero(e,c); print(r[:2],'' if r[0] else r[2])
t(ln(p/(1-p))-ln(p)+ln(1-p))
t(ln(s*s)-2*ln(s))
t(Q(1,2)*ln(2*PI*s*s)-Q(1,2)*ln(2*PI)-ln(s))
t(exp(ln(p))-p)
t((x/s)*(x/s)-x*x/(s*s))
t(ln(1-p*p)-ln(1-p)-ln(1+p))
t(exp(x+s)-exp(x)*exp(s))
t(lgamma(k+1)-Sum(1,k+1,lambda j:ln(j)))
n=ivar('n'); c.facts.append(n.ge(0))
xs=lambda j:elem('xs',j)
t(Sum(0,n,lambda j:(xs(j)-p)**2)-Sum(0,n,lambda j:xs(j)**2)+2*p*Sum(0,n,lambda j:xs(j))-n*p*p)
t(1/(1+exp(-x))-exp(x)/(1+exp(x)))
t(ln(p/s+1)-ln(p+s)+ln(s))
t(sqrt(s)**2-s); t(sqrt(s*s)-s); t(sqrt(x*x)-x)
t(1/(p/(1-p))-(1-p)/p)
t(ln(1+exp(x))-x-ln(1+exp(-x)))
