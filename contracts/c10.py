from opaque import *
r_=lambda r:r.gauss(0,2)
g={k:r_ for k in('p','q','r')}; g['x']=g['y']=g['z']=lambda r:r.choice([-4.,-1.,0.,.5,2.,6.,120.,r.gauss(0,2)])
K=dict(fns=OPQ,gen=g)
def both(a,b,more=ZERO): return Cases((Or(INF(*a),INF(*b)),NINF),(TRUE,LD(*a)+LD(*b)+more))
for nm in('ld','ext','at'): C('product_'+nm,'c10_product_'+nm,lambda p,q,x,y:both((1,p,x),(2,q,y)),title='product of arbitrary measures: sum of the component log-densities',**K)
C('product_supp','c10_product_supp',lambda p,q,x,y:And(SUPP(1,p,x),SUPP(2,q,y)),title='support of a product',**K)
C('product_nested','c10_product_nested',lambda p,q,r,x,y,z:Cases((Or(INF(1,p,x),INF(2,q,y),INF(3,r,z)),NINF),(TRUE,LD(1,p,x)+LD(2,q,y)+LD(3,r,z))),title='product of three',**K)
# mixtures
def probs(n,r):
    w=[r.random()+.01 for _ in range(n)]; s=sum(w); return [x/s for x in w]
gm=dict(ps=lambda r:[r.gauss(0,2) for _ in range(r.choice([1,1,2,3,5]))],x=lambda r:r.choice([0.,.5,2.,6.,7.,90.,300.]))
gm['ws']=lambda r,out:probs(len(out[0]),r)
gm0=dict(gm); gm0['ws']=lambda r,out:[x if r.random()<.7 else 0.0 for x in probs(len(out[0]),r)]; gm0['x']=lambda r:r.choice([-4.,-1.,0.,.5,2.,120.])
def mixsum(ps,ws,x): return Sum(ZERO,ps.len,lambda i:ws[i]*exp(LD(1,ps[i],x)))
C('mixture_pos','c10_mixture_ld',lambda ps,ws,x:ln(mixsum(ps,ws,x)),pre=lambda ps,ws,x:[ps.len.gt(0),ps.len.eq(ws.len),ws.all(lambda w:w.gt(0)),ps.all(lambda p:Not(INF(1,p,x)))],fns=OPQ,gen=gm,title='mixture of any number of arbitrary components: log of the weighted sum of densities')
def dead(ps,ws,x,i): return Or(ws[i].eq(0),INF(1,ps[i],x))
C('mixture_noinf','c10_mixture_ld',lambda ps,ws,x:NINF,pre=lambda ps,ws,x:[ps.len.eq(ws.len),ws.all(lambda w:w.gt(0)),ps.all(lambda p:INF(1,p,x))],fns=OPQ,gen=dict(gm,x=lambda r:-40.),title='no component has mass at x (any number of components)')
C('mixture_nowt','c10_mixture_ld',lambda ps,ws,x:NINF,pre=lambda ps,ws,x:[ps.len.eq(ws.len),ws.all(lambda w:w.eq(0))],fns=OPQ,gen=dict(gm,ws=lambda r,out:[0.0]*len(out[0])),title='all weights zero (any number of components)')
def three(ps,ws,x): return Cases((And(*[dead(ps,ws,x,i) for i in range(3)]),NINF),(TRUE,ln(sum((ite(INF(1,ps[i],x),ZERO,ws[i]*exp(LD(1,ps[i],x))) for i in range(3)),ZERO))))
C('mixture_three','c10_mixture_three',three,pre=lambda ps,ws,x:[P(w).ge(0) for w in ws],fns=OPQ,gen=dict(ps=lambda r:[r.gauss(0,2) for _ in range(3)],ws=lambda r:[r.choice([0.0,r.random(),r.random()]) for _ in range(3)],x=gm0['x']),title='zero weights and components without mass at x',bounded='three components (all patterns of zero weights and missing mass)')
C('mixture_supp','c10_mixture_supp',lambda ps,ws,x:Exists(ZERO,ps.len,lambda i:And(ws[i].gt(0),SUPP(1,ps[i],x))),pre=lambda ps,ws,x:[ps.len.eq(ws.len)],fns=OPQ,gen=gm0,title='support of a mixture')
C('mixture_new','c10_mixture_new',lambda ps,ws:Cases((Not(ps.len.eq(ws.len)),PANIC),(Or((ws.sum()-1).ge(Q(1,10**10)),(1-ws.sum()).ge(Q(1,10**10))),PANIC),(TRUE,(ps.len,ws.len))),fns=OPQ,gen=dict(ps=gm['ps'],ws=lambda r,out:r.choice([probs(len(out[0]),r),probs(len(out[0])+1,r),[.3]*len(out[0])])),title='constructor validation',conf=True)
C('mixture_uniform','c10_mixture_uniform',lambda ps:Cases((ps.len.eq(0),PANIC),(TRUE,SeqS(ps.len,lambda i:1/ps.len))),fns=OPQ,gen=gm,title='uniform mixture')
def two(p,q,v,w,x):
    a=ite(INF(1,p,x),ZERO,v/(v+w)*exp(LD(1,p,x))); b=ite(INF(1,q,x),ZERO,w/(v+w)*exp(LD(1,q,x)))
    return Cases((And(INF(1,p,x),INF(1,q,x)),NINF),(INF(1,p,x),ln(w/(v+w))+LD(1,q,x)),(INF(1,q,x),ln(v/(v+w))+LD(1,p,x)),(TRUE,ln(v*exp(LD(1,p,x))+w*exp(LD(1,q,x)))-ln(v+w)))
gp=dict(g,v=lambda r:math.exp(r.gauss(0,1)),w=lambda r:math.exp(r.gauss(0,1)))
C('mixture_two','c10_mixture_two',two,pre=lambda p,q,v,w,x:pos(v,w),fns=OPQ,gen=gp,title='two-component mixture')
C('mixture_utwo','c10_mixture_utwo',lambda p,q,x:two(p,q,ONE,ONE,x),fns=OPQ,gen=g,title='uniform two-component mixture')
C('mixture_macro','c10_mixture_macro',lambda p,q,r,x:ln(exp(LD(1,p,x))/4+exp(LD(1,q,x))/4+exp(LD(1,r,x))/2),pre=lambda p,q,r,x:[Not(INF(1,t,x)) for t in(p,q,r)],fns=OPQ,gen=g,title='macro')
# pushforward
def push(p,y): return Cases((INF(1,p,OF(2,y)),NINF),(TRUE,LD(1,p,OF(2,y))+OF(3,y)))
C('push_ld','c10_push_ld',push,title='change of variables for arbitrary transformation',**K)
C('push_ext','c10_push_ext',push,title='change of variables (fluent)',**K)
C('push_supp','c10_push_supp',lambda p,y:SUPP(1,p,OF(2,y)),title='support of a pushforward',**K)
gx=dict(x=lambda r:r.gauss(0,2)); gpos=dict(x=f_pos)
C('tr_log','c10_tr_log',lambda x:(ln(x),exp(x),x),pre=lambda x:pos(x),gen=gpos,title='log transformation, inverse, log-Jacobian')
C('tr_exp','c10_tr_exp',lambda x:(exp(x),ln(x),-ln(x)),pre=lambda x:pos(x),gen=gpos,title='exp transformation')
C('tr_linear','c10_tr_linear',lambda a,b,x:(a*x+b,(x-b)/a,Cases((a.gt(0),-ln(a)),(TRUE,-ln(-a)))),pre=lambda a,b,x:[Not(a.eq(0))],title='linear transformation')
C('tr_logit','c10_tr_logit',lambda x:ln(x)-ln(1-x),pre=lambda x:[x.gt(0),x.lt(1)],gen=dict(x=f_unit),title='logit')
C('tr_logit_inv','c10_tr_logit_inv',lambda x:(exp(x)/(1+exp(x)),x-2*ln(1+exp(x))),gen=gx,title='inverse logit and its log-Jacobian')
C('tr_round','c10_tr_round',lambda a,b,x:(x,x,x),pre=lambda a,b,x:[Not(a.eq(0))],gen=dict(gx,a=lambda r:r.choice([2.,-3.,.5])),title='inverse after forward (forward after inverse for logit) is the identity')
C('lognormal','c10_lognormal',lambda m,s,y:-(ln(y)-m)**2/(2*s**2)-ln(s)-LN2PI/2-ln(y),pre=lambda m,s,y:pos(s,y),gen=dict(mu=f_real,sigma=f_pos,y=f_pos),title='log-normal as a pushforward')
C('push_linear','c10_push_linear',lambda p,a,b,y:Cases((INF(1,p,(y-b)/a),NINF),(a.gt(0),LD(1,p,(y-b)/a)-ln(a)),(TRUE,LD(1,p,(y-b)/a)-ln(-a))),pre=lambda p,a,b,y:[Not(a.eq(0))],fns=OPQ,gen=dict(g,a=lambda r:r.choice([2.,-3.,.5])),title='linear pushforward of an arbitrary measure')
C('push_logit','c10_push_logit',lambda p,y:Cases((INF(1,p,exp(y)/(1+exp(y))),NINF),(TRUE,LD(1,p,exp(y)/(1+exp(y)))+y-2*ln(1+exp(y)))),title='logit pushforward of an arbitrary measure',**K)
# derived
wt=lambda p,w,x:Cases((INF(1,p,x),NINF),(TRUE,LD(1,p,x)+w))
C('weighted_ld','c10_weighted_ld',wt,title='weighted measure adds its log-weight',**K)
C('weighted_supp','c10_weighted_supp',lambda p,w,x:SUPP(1,p,x),title='support of a weighted measure',**K)
C('integral_ld','c10_integral_ld',lambda p,x:Cases((INF(1,p,x),NINF),(TRUE,LD(1,p,x)+OF(1,x))),title='integral measure adds its log-density function',**K)
C('integral_supp','c10_integral_supp',lambda p,x:SUPP(1,p,x),title='support of an integral measure',**K)
C('dirac_supp','c10_dirac_supp',lambda p,x:p.eq(x),title='point mass',gen=dict(p=lambda r:r.choice([0,1,2]),x=lambda r:r.choice([0,1,2])))
C('dirac_supp_f','c10_dirac_supp_f',lambda p,x:p.eq(x),title='point mass',gen=dict(p=lambda r:r.choice([0.,1.,2.]),x=lambda r:r.choice([0.,1.,2.])))
