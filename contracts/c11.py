from distspec import *
kk=lambda r:r.choice([0,1,2,3,4,5,r.randrange(0,22),r.randrange(0,300),r.randrange(0,100000)])
C('logfact','c11_logfact',lambda k:Approx(lfact(k),ST),gen={'k':kk},title='log k! by table (k<=20) and corrected Stirling series (every larger k), within 1e-10')
C('factorial_ld','c11_factorial_ld',lambda k:Approx(-lfact(k),ST),gen={'k':kk},title='factorial base measure is 1/k!')
nk=dict(gen={'n':kk,'r':lambda r:1+kk(r),'k':kk},tol=1e-9)
C('logbinom','c11_logbinom',lambda n,k:Cases((k.le(n),lchoose(n,k)),(TRUE,NINF)),title='log binomial coefficient; -inf for k>n',**nk)
C('binom_ld','c11_binom_ld',lambda n,k:Cases((k.le(n),lchoose(n,k)),(TRUE,NINF)),title='binomial-coefficient base measure',**nk)
C('binom_supp','c11_binom_supp',lambda n,k:k.le(n),title='support of the binomial-coefficient base measure is 0..=n',**nk)
nb=lambda r,k:lgamma(P(r)+k)-lfact(k)-lgamma(P(r))
C('lognegbinom','c11_lognegbinom',nb,pre=lambda r,k:[r.gt(0)],title='log negative-binomial coefficient',**nk)
C('negbinom_ld','c11_negbinom_ld',nb,pre=lambda r,k:[r.gt(0)],title='negative-binomial base measure',**nk)
for n in('factorial','negbinom','counting','lebesgue'): C(n+'_supp','c11_%s_supp'%n,lambda *a:True,gen={'k':kk},title='supported everywhere')
for n in('counting','counting2','lebesgue','lebesgue2'): C(n+'_ld','c11_%s_ld'%n,lambda *a:ZERO,gen={'k':kk},title='a root measure has density one with respect to itself')
