from distspec import *
for nm in CONT:
    d=DIST[nm]
    def post(*a,d=d):
        return Cases((d.supp(*a),d.ld(*a)),(TRUE,NINF))
    C(nm+'_ld','c01_%s_ld'%nm,post,pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='log-density of %s equals the textbook formula, -inf off support'%nm)
for nm in('cauchy','studentt'):
    d=DIST[nm]
    C(nm+'_logpdf','c01_%s_logpdf'%nm,lambda *a,d=d:d.ld(*a),pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='direct log-density method')
