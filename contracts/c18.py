from symb import *
_n=len(CONTRACTS); import c22 as _c; del CONTRACTS[_n:]
from c22 import HD,N,Kc,sp,dep
E0=Env([],('vars',None))
def setup(ex,st,args,view):
    """loops that build an expression: the expression stands for its value under the variables"""
    use_maps(ex,st)
    def denote(ex,st,v):
        r=D(ex,st,v,E0)
        return None if isinstance(r,Er) or r is NFV else r
    ex.denote=denote; ex.denote_err=lambda n:XERR(n,E0)
    ex.exprty=None
K=dict(setup=setup,n=150,timeout=300)
def look(ex,st,nm): return lookup(ex,st,nm,E0)
def npdf(x,mu,s): return -LN2PI/2-ln(s)-(x-mu)**2/(2*s**2)
class Miss(Exception): pass
def values(ex,st,*names):
    r=[look(ex,st,n) for n in names]
    if any(x is None for x in r): raise Miss()
    return [x.p for x in r]
def guard(f):
    def g(ex,st,*a):
        try: return f(ex,st,*a)
        except Miss: return Err_()
    return g
def pos(s,v): return Cases((s.le(0),Err_()),(TRUE,Ok_(v)))
def twice(v): return (v,v)
# numeric side
NPDF=lambda x,mu,s:['Sub',['Neg',['Add',['Mul',['Const',.5],['Ln',['Const',2*math.pi]]],['Ln',s]]],['Div',['Mul',['Const',.5],['Pow',['Sub',x,mu],['Const',2.0]]],['Pow',s,['Const',2.0]]]]
def V(n): return ['Var',n]
def KC(x): return ['Const',x]
def num(tree,times=1,lax=False):
    def f(g):
        t=tree(g); h=num_eval(t,g['vars'],lax)
        return h if times==1 else (lambda real,_: isinstance(real,tuple) and len(real)==times and all(h(r,_) for r in real))
    return f
def gv(r,prev):
    d={k:r.gauss(0,2) for k in 'xyz' if r.random()<.9}
    for t in prev:
        if isinstance(t,str) and r.random()<.95: d[t]=r.choice([1,1,1,-1])*math.exp(r.gauss(0,1.5)) if r.random()<.9 else 0.0
    return d
G=dict(vars=gv)
def gname(k): return lambda r:k if r.random()<.8 else r.choice(['x','mu','sigma','tau'])
GN=dict(G,x=gname('x'),mu=gname('mu'),sigma=gname('sigma'),tau=gname('tau'),name=gname('mu'))
def s_lik(ex,st,x,mu,sg,_):
    a,b,c=values(ex,st,x,mu,sg); v=pos(c,npdf(a,b,c)); return twice(v)
C('likelihood','c18_likelihood',dep(guard2:=(lambda f:(lambda ex,st,*a: f(ex,st,*a)))(lambda ex,st,*a: _two(s_lik,ex,st,*a)),num(lambda g:NPDF(V(g['x']),V(g['mu']),V(g['sigma'])),2)),fns=HD,gen=GN,title='the normal likelihood is the Gaussian log-density of the named variables',**K)
def _two(f,ex,st,*a):
    try: return f(ex,st,*a)
    except Miss: return (Err_(),Err_())
def s_prior(ex,st,n,m0,s0,_):
    a,=values(ex,st,n); return twice(pos(P(s0),npdf(a,P(m0),P(s0))))
C('prior','c18_prior',dep(lambda ex,st,*a:_two(s_prior,ex,st,*a),num(lambda g:NPDF(V(g['name']),KC(g['mean']),KC(g['sd'])),2)),fns=HD,gen=GN,title='the normal prior is the Gaussian log-density of the parameter',**K)
C('posterior','c18_posterior',dep(lambda ex,st,a,b,_:twice(sp(D(ex,st,N('Add',a,b),E0))),num(lambda g:['Add',g['a'],g['b']],2,True)),fns=HD,title='the posterior is the sum of likelihood and prior',**K)
def s_hier(ex,st,x,mu,sg,tau,m0,s0,_):
    a,b,c,d=values(ex,st,x,mu,sg,tau); s0=P(s0)
    return Cases((Or(c.le(0),s0.le(0)),Err_()),(TRUE,Ok_(npdf(a,b,c)+npdf(b,P(m0),s0)+npdf(d,ZERO,s0))))
C('hierarchical','c18_hierarchical',dep(guard(s_hier),num(lambda g:['Add',['Add',NPDF(V(g['x']),V(g['mu']),V(g['sigma'])),NPDF(V(g['mu']),KC(g['m0']),KC(g['s0']))],NPDF(V(g['tau']),KC(0.0),KC(g['s0']))])),fns=HD,gen=GN,title='the hierarchical model is likelihood plus both priors',**K)
C('variable','c18_variable',dep(guard(lambda ex,st,n,_:Ok_(values(ex,st,n)[0])),num(lambda g:V(g['name']))),fns=HD,gen=GN,title='a variable',**K)
def s_nodes(f): return lambda ex,st,*a: sp(D(ex,st,f(*a[:-1]),E0))
def sub3(f):
    """a closed formula over three operand expressions"""
    def g(ex,st,x,mu,sg,_):
        rs=[D(ex,st,v,E0) for v in(x,mu,sg)]
        if any(r is NFV for r in rs): return ANY
        if any(isinstance(r,Er) for r in rs): return Err_()
        if any(r.k!='fin' for r in rs): return ANY
        return f(*[r.p for r in rs])
    return g
C('normal','c18_normal',dep(sub3(lambda x,m,s:pos(s,npdf(x,m,s))),num(lambda g:NPDF(g['x'],g['mu'],g['sigma']),lax=True)),fns=HD,title='normal_log_pdf of any three expressions',**K)
KER=lambda g:['Exp',['Neg',['Div',['Mul',KC(.5),['Pow',['Sub',g['x'],g['mu']],KC(2.0)]],['Pow',g['sigma'],KC(2.0)]]]]
C('kernel','c18_kernel',dep(sub3(lambda x,m,s:Cases((s.eq(0),Err_()),(TRUE,Ok_(exp(-(x-m)**2/(2*s**2)))))),num(KER,lax=True)),fns=HD,title='gaussian_kernel is exp(-(x-mu)^2/(2 sigma^2))',**K)
def s_curves(ex,st,x,_):
    r=D(ex,st,x,E0)
    if isinstance(r,Er): return (Err_(),Err_())
    if r is NFV or r.k!='fin': return ANY
    return (Ok_(1/(1+exp(-r.p))),Ok_(ln(1+exp(r.p))))
def n_curves(g):
    a=num_eval(['Div',KC(1.0),['Add',KC(1.0),['Exp',['Neg',g['x']]]]],g['vars']); b=num_eval(['Ln',['Add',KC(1.0),['Exp',g['x']]]],g['vars'])
    return lambda real,_: isinstance(real,tuple) and len(real)==2 and a(real[0],_) and b(real[1],_)
C('curves','c18_curves',dep(s_curves,n_curves),fns=HD,title='logistic and softplus',**K)
def s_poly(ex,st,x,cs,_):
    r=D(ex,st,x,E0)
    if isinstance(r,Er): return Cases((cs.len.le(1),Ok_(cs.sum())),(TRUE,Err_()))
    if r is NFV or r.k!='fin': return ANY
    if st.decide(r.p.gt(0)): pw=lambda i:exp(i*ln(r.p))
    elif st.decide(r.p.eq(0)): pw=lambda i:ZERO
    else: pw=lambda i:P(atom('fn','pow',r.p,i))
    return Ok_(Sum(ZERO,cs.len,lambda i:ite(i.eq(0),cs[i],ite(i.eq(1),cs[i]*r.p,cs[i]*pw(i)))))
def n_poly(g):
    t=KC(0.0)
    for i,c in enumerate(g['coeffs']): t=['Add',t,['Mul',KC(c),['Pow',g['x'],KC(float(i))]] if i>1 else ['Mul',KC(c),g['x']] if i else KC(c)]
    return num_eval(t,g['vars'],True)
def definedx(ex,st,args,view): setup(ex,st,args,view); st.assume(Not(XERR('x',E0)))
C('poly','c18_poly',dep(s_poly,n_poly),fns=HD,title='the polynomial builder is the sum of c_i x^i',maxlen=5,**dict(K,setup=definedx))
def mixsetup(ex,st,args,view):
    setup(ex,st,args,view); st.assume(mapin(('vars',None),view[0]))
MPRE=lambda x,w,mu,sd,_:[w.all(lambda v:v.gt(0)),sd.all(lambda v:v.gt(0))]
def s_mix(ex,st,x,w,mu,sd,_):
    a=look(ex,st,x).p
    return Cases((Or(Not(w.len.eq(mu.len)),Not(mu.len.eq(sd.len))),PANIC),(w.len.eq(0),Ok_(NINF)),(TRUE,Ok_(ln(Sum(ZERO,w.len,lambda i:w[i]*exp(npdf(a,mu[i],sd[i])))))))
def n_mix(g):
    if not len(g['w'])==len(g['mu'])==len(g['sd']): return lambda real,_: real=='PANIC' or real==PANIC
    if not g['w']: return lambda real,_: real==(-math.inf,)
    t=KC(0.0)
    for a,b,c in zip(g['w'],g['mu'],g['sd']): t=['Add',t,['Exp',['Add',['Ln',KC(a)],NPDF(V(g['x']),KC(b),KC(c))]]]
    return num_eval(['Ln',t],g['vars'],False)
def glist(f,base='w'):
    def h(r,prev):
        n=len(prev[1]) if r.random()<.9 else r.randint(0,4)
        return [f(r) for _ in range(n)]
    return h
GM=dict(x=lambda r:'x',w=lambda r:[math.exp(r.gauss(-1,1)) for _ in range(r.randint(0,5))],mu=glist(lambda r:r.gauss(0,3)),sd=glist(lambda r:math.exp(r.gauss(0,.7))),vars=lambda r,prev:{prev[0]:r.gauss(0,3)})
C('mixture','c18_mixture',dep(s_mix,n_mix),pre=MPRE,fns=HD,gen=GM,title='the mixture likelihood is the log of the weighted sum of Gaussian densities, for any number of components',maxlen=5,**dict(K,setup=mixsetup))

def CV(i): return fn('xval','parts.1',i,*E0.terms())
def CE(i): return fn('xerr','parts.1',i,*E0.terms(),sort='int').ge(1)
def s_old(ex,st,ps,_): return Cases((ps.len.eq(0),Ok_(NINF)),(TRUE,Ok_(ln(Sum(ZERO,ps.len,lambda i:ps[i][0]*exp(CV(i)))))))
def n_old(g):
    if not g['parts']: return lambda real,_: real==(-math.inf,)
    t=KC(0.0)
    for a,e in g['parts']: t=['Add',t,['Exp',['Add',['Ln',KC(a)],e]]]
    return num_eval(['Ln',t],g['vars'])
from check import rnd_expr
C('mixold','c18_mixold',dep(s_old,n_old),fns=HD,gen=dict(parts=lambda r:[[math.exp(r.gauss(-1,1)),rnd_expr(r,[],2)] for _ in range(r.randint(0,4))]),maxlen=5,pre=lambda ps,_:[Forall(ZERO,ps.len,lambda i:And(ps[i][0].gt(0),Not(CE(i))))],title='mixture of arbitrary component expressions',**K)
