from distspec import *
for nm in EF:
    d=DIST[nm]
    def nat(*a,d=d,nm=nm):
        v=d.nat(*a)
        if nm=='negbin': return [Known(v[0],NB_ETA(a[1]),NBK)]
        return v
    pv=lambda *a,d=d:d.valid(*a)
    pvx=lambda *a,d=d:d.valid(*a[:-1])
    pvs=lambda *a,d=d:d.valid(*a[:-1])+[S_F(d.supp(*a))]
    C(nm+'_nat','c05_%s_nat'%nm,lambda *a,d=d,nat=nat:(nat(*a),d.A(*a)),pre=pv,gen=d.gen,title='natural parameters and log-partition')
    C(nm+'_tonat','c05_%s_tonat'%nm,lambda *a,nat=nat:nat(*a),pre=pv,gen=d.gen,title='natural parameters')
    C(nm+'_logpart','c05_%s_logpart'%nm,lambda *a,d=d:d.A(*a),pre=pv,gen=d.gen,title='log-partition')
    C(nm+'_stat','c05_%s_stat'%nm,lambda *a,d=d:d.T(*a),pre=pvs,gen=d.gen,title='sufficient statistic')
    C(nm+'_base','c05_%s_base'%nm,lambda *a,d=d,nm=nm:Approx(d.h(*a),ST) if nm=='poisson' else d.h(*a),pre=pvs,gen=d.gen,title='log base measure')
    if nm not in('binomial','negbin','stdnormal'):
        C(nm+'_rtrip','c05_%s_rtrip'%nm,lambda *a,d=d:d.ld(*a),pre=pvs,gen=d.gen,title='distribution rebuilt from its natural parameters has the same density')

from opaque import *
from anyef import ETA, A_, XG
C('any_tonat','c05_any_tonat',lambda p:([ETA(p)[0],ETA(p)[1]],A_(p)),fns=OPQ,gen=XG,title='every exponential family: accessors of natural parameter and log-partition')
