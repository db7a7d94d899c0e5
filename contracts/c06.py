from distspec import *
from modular import LOGFACT
for nm in DIST:
    d=DIST[nm]; n=d.np
    def supp(a,d=d): return a[-1].all(lambda x:S_F(d.supp(*a[:-1],x)))
    def total(a,d=d): return a[-1].sum(lambda x:d.ld(*a[:-1],x))
    pv=lambda *a,d=d:d.valid(*a[:-1])
    gen=dict(d.gen); gx=d.gen.get('x')
    if gx: gen['xs']=lambda r,*,gx=gx:[gx(r) for _ in range(r.choice([0,1,1,2,3,5,8]))]
    elif d.x=='f': gen['xs']=lambda r:[math.exp(r.gauss(0,1))*(-1 if r.random()<.05 else 1) for _ in range(r.choice([0,1,1,2,3,5,8]))]
    kws=dict(pre=lambda *a,d=d,supp=supp:d.valid(*a[:-1])+[S_F(supp(a))],gen=gen,fns=LOGFACT)
    kw=dict(pre=pv,gen=gen,fns=LOGFACT)
    ef_=nm in EF and nm!='categorical'
    def joint(off):
        def post(*a,supp=supp,total=total,nm=nm,d=d,off=off):
            v=total(a)
            if nm=='negbin':
                r,p,xs=a; v=Known(v,xs.sum(lambda k:d.h(r,p,k)+k*NB_ETA(p)-d.A(r,p)),NBK)
            return Cases((a[-1].len.eq(0),ZERO),(supp(a),v),(TRUE,off))
        return post
    if ef_:
        C(nm+'_iid','c06_%s_iid'%nm,joint(ANY),title='joint exponential-family density of a sample is the sum over its elements',**kws)
        C(nm+'_iidld','c06_%s_iidld'%nm,joint(NINF),title='joint log-density of a sample; -inf off support',**kw)
        C(nm+'_iidsupp','c06_%s_iidsupp'%nm,lambda *a,supp=supp:S_F(supp(a)),title='a sample is supported iff every element is',**kw)
        if nm not in('poisson','binomial','negbin'):
            C(nm+'_iidef','c06_%s_iidef'%nm,joint(ANY),title='exponential-family evaluation of the IID distribution',**kws)
            C(nm+'_iidstat','c06_%s_iidstat'%nm,lambda *a,d=d:Cases((a[-1].len.eq(0),[ZERO]*2 if d.name not in('exponential','poisson','geometric','bernoulli') else [ZERO]),(TRUE,[a[-1].sum(lambda x,i=i:d.T(*a[:-1],x)[i]) for i in range(len(d.T(*a[:-1],ONE)))])),
              pre=lambda *a,d=d:d.valid(*a[:-1])+[a[-1].all(lambda x:S_F(d.supp(*a[:-1],x)))],gen=gen,title='sufficient statistic of a sample is the sum')
            C(nm+'_iidbase','c06_%s_iidbase'%nm,lambda *a,d=d:a[-1].sum(lambda x:d.h(*a[:-1],x)),title='base measure of a sample is the sum',**kw)
    if nm!='stdnormal':
        C(nm+'_fallback','c06_%s_fallback'%nm,lambda *a,supp=supp,total=total:Cases((supp(a),total(a)),(TRUE,NINF)),title='element-wise joint density',**kw)
for nm in('normal','cauchy','studentt'):
    d=DIST[nm]
    C(nm+'_inh','c06_%s_inh'%nm,lambda *a,d=d:a[-1].sum(lambda x:d.ld(*a[:-1],x)),pre=lambda *a,d=d:d.valid(*a[:-1]),gen=dict(d.gen,xs=lambda r:[r.gauss(0,2) for _ in range(r.choice([0,1,1,2,3,5,8]))]),title='log_density_iid is the sum over the elements')
C('logfact','c11_logfact',lambda k:Approx(lfact(k),ST),gen={'k':k_small},title='log k! (contract used for its callers)')

from opaque import *
xg={'xs':lambda r:[r.choice([-4.,-1.,0.,.5,2.,6.]) for _ in range(r.choice([0,1,2,3,5]))],'p':lambda r:r.gauss(0,2)}
C('opq_fallback','c06_opq_fallback',lambda p,xs:Cases((xs.len.eq(0),ZERO),(Exists(ZERO,xs.len,lambda i:INF(1,p,xs[i])),NINF),(TRUE,xs.sum(lambda x:LD(1,p,x)))),fns=OPQ,gen=xg,title='every measure: joint density is the sum over elements')
C('opq_supp','c06_opq_supp',lambda p,xs:xs.all(lambda x:SUPP(1,p,x)),fns=OPQ,gen=xg,title='every measure: sample support')

C('opq_iidbase','c06_opq_iidbase',lambda p,xs:Cases((Exists(ZERO,xs.len,lambda i:INF(1,p,xs[i])),NINF),(TRUE,xs.sum(lambda x:LD(1,p,x)))),fns=OPQ,gen=xg,title='every base measure: base term of a sample is the sum over elements')
C('opq_basesupp','c06_opq_basesupp',lambda p,xs:xs.all(lambda x:SUPP(1,p,x)),fns=OPQ,gen=xg,title='every base measure: support of a sample')

# every exponential family
from anyef import *
AE=dict(fns=OPQ,gen=XG)
for k in('iid','iidef'): C('any_'+k,'c06_any_'+k,joint,title='every exponential family: joint density of a sample is the sum over its elements',**AE)
C('any_iidld','c06_any_iidld',lambda p,xs:Cases((Not(xs.all(lambda x:SUPP(1,p,x))),NINF),(anyinf(p,xs),NINF),(TRUE,xs.sum(lambda x:body(p,x)))),title='every exponential family: joint log-density; -inf off support',**AE)
C('any_iidstat','c06_any_iidstat',lambda p,xs:[xs.sum(lambda x:T_(x)[0]),xs.sum(lambda x:T_(x)[1])],title='every exponential family: statistic of a sample is the sum',**AE)
C('any_nested','c06_any_nested',lambda p,xs,ys:Cases((Or(anyinf(p,xs),anyinf(p,ys)),NINF),(TRUE,xs.sum(lambda x:body(p,x))+ys.sum(lambda x:body(p,x)))),title='samples of samples: every observation counts once',**AE)
C('any_nestedef','c06_any_nestedef',joint,title='samples of samples',**AE)
_n=DIST['normal']
C('normal_nested','c06_normal_nested',lambda m,s,xs,ys:xs.sum(lambda x:_n.ld(m,s,x))+ys.sum(lambda x:_n.ld(m,s,x)),pre=lambda m,s,xs,ys:_n.valid(m,s),gen={'mean':f_real,'sd':f_pos,'xs':lambda r:[r.gauss(0,2) for _ in range(r.choice([0,1,2,3]))],'ys':lambda r:[r.gauss(0,2) for _ in range(r.choice([0,1,2,3]))]},title='samples of samples')
