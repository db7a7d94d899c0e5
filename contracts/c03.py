from distspec import *
for nm in DIST:
    d=DIST[nm]
    C(nm+'_support','c03_%s_support'%nm,lambda *a,d=d:S_F(d.supp(*a)),pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='support test of %s is the textbook support'%nm)
