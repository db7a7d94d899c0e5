from distspec import *
KB='Binomial log-density omits log C(n,k)'
for nm in DISC:
    d=DIST[nm]
    def post(*a,d=d):
        return Cases((d.supp(*a),d.ld(*a)),(TRUE,NINF))
    C(nm+'_ld','c02_%s_ld'%nm,post,pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='log-pmf of %s equals the textbook formula, -inf off support'%nm)
# parameters on the boundary that the constructors accept: a point mass
one=lambda x:(lambda r:x)
def edge(nm,tag,pre,post,**g):
    gen=dict(DIST[nm].gen); gen.update(g)
    C('%s_%s'%(nm,tag),'c02_%s_ld'%nm,post,pre=pre,gen=gen,title='boundary parameter: all mass in one point')
edge('binomial','p0',lambda n,p,k:[p.eq(0)],lambda n,p,k:Cases((k.eq(0),ZERO),(TRUE,NINF)),p=one(0.0))
edge('binomial','p1',lambda n,p,k:[p.eq(1)],lambda n,p,k:Cases((k.eq(n),ZERO),(TRUE,NINF)),p=one(1.0))
edge('geometric','p1',lambda p,k:[p.eq(1)],lambda p,k:Cases((k.eq(1),ZERO),(TRUE,NINF)),p=one(1.0))
edge('bernoulli','p0',lambda p,k:[p.eq(0)],lambda p,k:Cases((k.eq(0),ZERO),(TRUE,NINF)),p=one(0.0))
edge('bernoulli','p1',lambda p,k:[p.eq(1)],lambda p,k:Cases((k.eq(1),ZERO),(TRUE,NINF)),p=one(1.0))
C('categorical_zeros','c02_categorical_ld',lambda q,k:Cases((And(k.lt(q.len),q[k].gt(0)),ln(q[k])),(TRUE,NINF)),pre=lambda q,k:[q.len.gt(0),q.all(lambda x:x.ge(0)),F('eq',q.sum()-1)],
  gen={'probs':lambda r:r.choice([[1.0],[0.0,1.0],[1.0,0.0],[.5,0.0,.5],[0.25,0.75]]),'x':lambda r:r.choice([0,1,2,3,7])},title='categories of probability zero are allowed')
