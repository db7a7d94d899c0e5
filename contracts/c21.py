from distspec import *
closed=lambda p:And(p.ge(0),p.le(1))
OK={'normal':lambda m,s:s.gt(0),'exponential':lambda r:r.gt(0),'gamma':lambda a,b:And(a.gt(0),b.gt(0)),'beta':lambda a,b:And(a.gt(0),b.gt(0)),
 'chisq':lambda k:k.gt(0),'cauchy':lambda l,s:s.gt(0),'studentt':lambda n:n.gt(0),'poisson':lambda r:r.gt(0),
 'binomial':lambda n,p:closed(p),'negbin':lambda r,p:And(r.gt(0),p.gt(0),p.lt(1)),'geometric':lambda p:And(p.gt(0),p.le(1)),'bernoulli':lambda p:closed(p)}
f_any=lambda r:r.choice([0.0,1.0,-1.0,0.5,r.gauss(0,2),-0.0,1.0000000001,-1e-300,2.0,r.random()])
for nm,ok in OK.items():
    d=DIST[nm]
    gen={k:(f_any if not(k in('n','r')) else (lambda r:r.choice([0,1,2,10]))) for k in d.params}
    C(nm+'_new','c21_%s_new'%nm,lambda *a,ok=ok:Cases((ok(*a),TRUE),(TRUE,PANIC)),gen=gen,title='constructor accepts exactly the documented parameter domain')
def g_bad(r):
    w=g_probs(r)
    z=r.random()
    if z<.2: return []
    if z<.4: w[0]+=.1
    elif z<.6 and len(w)>1: w[0]+=w[1]+.1; w[1]=-.1
    return w
C('categorical_new','c21_categorical_new',lambda q:Cases((q.len.eq(0),PANIC),(Not(q.all(lambda x:x.ge(0))),PANIC),(F('eq',q.sum()-1),TRUE),(Or(q.sum().gt(1+Q(2,10**10)),q.sum().lt(1-Q(2,10**10))),PANIC),(TRUE,ANY)),gen={'probs':g_bad},title='constructor demands non-negative probabilities summing to one')
