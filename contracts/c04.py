from distspec import *
for nm in EF:
    d=DIST[nm]
    def want(*a,d=d): return d.ld(*a)
    def post(*a,d=d,nm=nm):
        if nm=='negbin':
            r,p,k=a; v=Known(d.ld(*a),d.h(*a)+k*NB_ETA(p)-d.A(r,p),NBK)
        else: v=Approx(d.ld(*a),ST) if nm=='poisson' else d.ld(*a)
        return Cases((d.supp(*a),v),(TRUE,NINF if nm=='categorical' else ANY))
    for k in('efld','fn'):
        C(nm+'_'+k,'c04_%s_%s'%(nm,k),post,pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='exponential-family evaluation of %s equals its log-density'%nm)

# every exponential family with two natural parameters (all its functions uninterpreted)
from opaque import *
from anyef import one, XG
for k in('efld','fn'): C('any_'+k,'c04_any_'+k,one,fns=OPQ,gen=XG,title='every exponential family: eta.T - A + log h')
