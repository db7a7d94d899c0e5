from opaque import *
from anyef import *
gx=XG
from modular import LOGFACT
TWO=ONE+1
def same(r,prev):
    return [r.gauss(0,2) for _ in range(len(prev[0]))] if r.random()<.9 else [1.0]
# ---- the families of the library
for nm in EF:
    d=DIST[nm]; n=d.np
    def post(*a,d=d,nm=nm):
        if nm=='negbin':
            r,p,k=a; v=Known(d.ld(*a),d.h(*a)+k*NB_ETA(p)-d.A(r,p),NBK)
        else: v=Approx(d.ld(*a),ST) if nm=='poisson' else d.ld(*a)
        return Cases((d.supp(*a),v),(TRUE,ANY))
    for k in('zo','zot'):
        C(nm+'_'+k,'c17_%s_%s'%(nm,k),post,pre=lambda *a,d=d:d.valid(*a[:-1]),gen=d.gen,title='zero-overhead evaluator of %s equals its log-density'%nm)
    if nm in('stdnormal','categorical'): continue
    def wpost(*a,d=d,n=n,nm=nm):
        p,q,x=a[:n],a[n:2*n],a[2*n]
        v=d.ld(*p,x)-d.ld(*q,x)
        if nm=='negbin': v=Known(v,d.h(*p,x)+x*NB_ETA(p[1])-d.A(*p)-d.ld(*q,x),NBK)
        elif nm=='poisson': v=Approx(v,2*ST)
        return Cases((And(S_F(d.supp(*p,x)),S_F(d.supp(*q,x))),v),(TRUE,ANY))
    gen=dict(d.gen)
    for k in d.params:
        if k in gen: gen[k+'2']=gen[k]
    C(nm+'_zow','c17_%s_zow'%nm,wpost,pre=lambda *a,d=d,n=n:d.valid(*a[:n])+d.valid(*a[n:2*n]),gen=gen,fns=LOGFACT if nm in('poisson','binomial') else (),title='zero-overhead relative evaluator of %s is the difference of log-densities'%nm)
    if nm=='normal': C('normal_zowt','c17_normal_zowt',wpost,pre=lambda *a,d=d,n=n:d.valid(*a[:n])+d.valid(*a[n:2*n]),gen=gen,title='the same through the trait method')
d1,d2=DIST['exponential'],DIST['gamma']
C('exp_gamma_zow','c17_exp_gamma_zow',lambda r,a,b,x:Cases((x.gt(0),d1.ld(r,x)-d2.ld(a,b,x)),(TRUE,ANY)),pre=lambda r,a,b,x:d1.valid(r)+d2.valid(a,b),gen={'rate':f_pos,'shape2':f_pos,'rate2':f_pos,'x':f_pos},title='two different families')
for nm in('normal','exponential','gamma','bernoulli','geometric','beta','chisq'):
    d=DIST[nm]
    gen=dict(d.gen); g1=d.gen.get('x') or (f_pos if d.x=='f' else k_small)
    gen['xs']=lambda r,*,g1=g1:[g1(r) for _ in range(r.choice([0,1,1,2,3,5,8]))]
    C(nm+'_iidzo','c17_%s_iidzo'%nm,lambda *a,d=d:a[-1].sum(lambda x:d.ld(*a[:-1],x)),pre=lambda *a,d=d:d.valid(*a[:-1])+[a[-1].all(lambda x:S_F(d.supp(*a[:-1],x)))],gen=gen,title='zero-overhead evaluator of a sample of any size')
# ---- every exponential family with two natural parameters (all its functions uninterpreted)
from anyef import *
ANYEF=[('c17','any_zo',one),('c17','any_iidzo',joint),('c17','any_iidzot',joint),
 ('c17','any_zow',lambda p,q,x:Cases((INF(2,q,x),ANY),(INF(1,p,x),NINF),(TRUE,body(p,x)-LD(2,q,x)))),
 ('c17','any_iidzow',lambda p,q,xs:Cases((Or(anyinf(p,xs),anyinf(q,xs),Not(xs.all(lambda x:SUPP(1,q,x)))),ANY),(TRUE,xs.sum(lambda x:body(p,x))-xs.sum(lambda x:body(q,x)))))]
K=dict(fns=OPQ,gen=gx)
for _,nm,f in ANYEF: C(nm,'c17_'+nm,f,title='every exponential family: '+nm,**K)
# ---- inlined kernels
nd,ed=DIST['normal'],DIST['exponential']
C('inl_normal','c17_inl_normal',lambda m,s,x:nd.ld(m,s,x),pre=lambda m,s,x:nd.valid(m,s),gen={'mu':f_real,'sigma':f_pos,'x':f_real},title='inlined normal kernel is the normal log-density')
C('inl_exponential','c17_inl_exponential',lambda l,x:Cases((x.ge(0),ed.ld(l,x)),(TRUE,NINF)),pre=lambda l,x:ed.valid(l),gen={'lambda':f_pos,'x':f_real},title='inlined exponential kernel is the exponential log-density')
# ---- array helpers
C('add_arrays','c17_add_arrays',lambda a,b,c,d,e,f:[a+d,b+e,c+f],title='element-wise sum')
C('default_array','c17_default_array',lambda:[ZERO]*3,title='zero array')
for k in('sum_arrays','sum_stats'): C(k,'c17_'+k,lambda xs:[xs.sum(lambda x:OF(1,x)),xs.sum(lambda x:OF(2,x))],title='sum of any number of arrays, slot by slot',**K)
g2=dict(gx); g2['xs']=lambda r,prev:same(r,prev)
def dot(ps,xs): return Sum(ZERO,ps.len,lambda i:ps[i]*xs[i])
def eqlen(ps,xs): return [ps.len.eq(xs.len)]
C('ef_dot','c17_ef_dot',dot,pre=eqlen,gen=g2,title='dot product of any length')
C('ef_sum2','c17_ef_sum2',lambda xs,ys:SeqS(xs.len,lambda i:xs[i]+ys[i]),pre=eqlen,gen={'ys':same},title='sum of statistics')
C('ef_sum0','c17_ef_sum0',lambda:ZERO,title='no statistics')
# ---- final-tagless formulas
def lenchk(f): return lambda ps,xs,*r:Cases((ps.len.eq(xs.len),f(ps,xs,*r)),(TRUE,PANIC))
for k in('ft_dot','ft_efdot'): C(k,'c17_'+k,lenchk(dot),gen=g2,title='dot product of any length; lengths must agree')
C('ft_ld','c17_ft_ld',lenchk(lambda ps,xs,a,h:dot(ps,xs)-a+h),gen=g2,title='exponential-family log-density')
C('ft_iid','c17_ft_iid',lenchk(lambda ps,xs,a,n,h:dot(ps,xs)-n*a+h),gen=g2,title='exponential-family log-density of a sample')
C('ft_logistic','c17_ft_logistic',lambda x:1/(1+exp(-x)),title='logistic function')
C('ft_softplus','c17_ft_softplus',lambda x:ln(1+exp(x)),gen={'x':lambda r:r.gauss(0,20)},title='softplus')
C('ft_lse','c17_ft_lse',lambda xs:Cases((xs.len.eq(0),NINF),(xs.len.eq(1),xs[ZERO]),(TRUE,ln(xs.sum(lambda x:exp(x))))),gen=gx,title='log of the sum of exponentials, any number of terms')
C('ft_sum','c17_ft_sum',lambda n,xs:SeqS(xs.len,lambda i:xs[i]+OF(1,xs[i])),title='sum of statistics',**K)
C('ft_stdnormal','c17_ft_stdnormal',lambda x:nd.ld(ZERO,ONE,x),title='standard normal formula')
C('ft_normal','c17_ft_normal',lambda x,m,s:nd.ld(m,s,x),pre=lambda x,m,s:[s.gt(0)],gen={'mu':f_real,'sigma':f_pos,'x':f_real},title='normal formula')
C('ft_exponential','c17_ft_exponential',lambda x,l:ed.ld(l,x),pre=lambda x,l:[l.gt(0)],gen={'lambda':f_pos,'x':f_pos},title='exponential formula')
for k in('ft_sumn','ef_sumn'): C(k,'c17_'+k,lambda xs:Cases((xs.len.eq(0),SeqS(ZERO,lambda i:ZERO)),(TRUE,SeqS(TWO,lambda i:ite(F('eq',i),xs.sum(lambda x:OF(1,x)),xs.sum(lambda x:OF(2,x)))))),title='sum of any number of statistics vectors',**K)
C('logfact','c11_logfact',lambda k:Approx(lfact(k),ST),gen={'k':k_small},title='log k! (contract used for its callers)')
PK='patterns::poisson_log_density subtracts ln x instead of ln x! (its own note calls the term simplified), so it is wrong for x = 0 and x >= 3'
C('ft_poisson','c17_ft_poisson',lambda x,l:Cases((x.eq(0),Known(-l,PINF,PK)),(TRUE,Known(x*ln(l)-l-lgamma(x+1),x*ln(l)-l-ln(x),PK))),pre=lambda x,l:[x.ge(0),l.gt(0)],gen={'x':lambda r:float(r.choice([0,1,2,3,4,7,20])),'lambda':f_pos},title='Poisson formula')
