from symb import *
from printing import *
import c22 as _c; 
del CONTRACTS[:]
import c15
J_=[c for c in CONTRACTS]; del CONTRACTS[:]
from c15 import VR_,ALL,SIZE
E0=Env([],('vars',None))
def fl(v): return v if isinstance(v,Fl) else fin(v)
def op2(o): return lambda ex,st,a,b: ex.fpow(st,fl(a),fl(b)) if o=='Pow' else ex.fbin(st,o,fl(a),fl(b))
def fdep(sym,num=None): return lambda *a: Dep(lambda ex,st:sym(ex,st,*a),num)
def numtree(t):
    """float semantics of one operation, on the companion side"""
    def f(g):
        try: v,e=c15.ndj(t(g),{})
        except Exception: raise Skip()
        return lambda real,_: c15.closej(real,v,e)
    return f
OPN={'add':'Add','sub':'Sub','mul':'Mul','div':'Div','pow':'Pow'}
UN={'neg':'Neg','ln':'Ln','exp':'Exp','sqrt':'Sqrt','sin':'Sin','cos':'Cos'}
def un(o,ex,st,a):
    a=fl(a)
    if o=='Neg': return ex.fneg(a)
    if o=='Exp': return ex.fexp(st,a)
    if o=='Ln': return ex.fln(st,a)
    if o=='Sqrt': return ex.fsqrt(st,a)
    return fin(fn(o.lower(),a.p))
def k2(x,y): return x,y
def direct(P_,k,what):
    C(k+'_arith','%s_%s_arith'%(P_,k),fdep(lambda ex,st,a,b:[op2(o)(ex,st,a,b) for o in('Add','Sub','Mul','Div')],lambda g:div4(g['a'],g['b'])),title=what+': + - * /')
    C(k+'_pow','%s_%s_pow'%(P_,k),fdep(lambda ex,st,a,b:op2('Pow')(ex,st,a,b),lambda g:pown(g['a'],g['b'])),title=what+': powers')
    C(k+'_un','%s_%s_un'%(P_,k),fdep(lambda ex,st,a:[un(o,ex,st,a) for o in('Neg','Exp','Sin','Cos')]+[fl(a)],lambda g:un4(g['a'])),title=what+': negation, exp, sin, cos, constants')
    for o in('ln','sqrt'): C(k+'_'+o,'%s_%s_%s'%(P_,k,o),fdep(lambda ex,st,a,o=o:un(UN[o],ex,st,a),lambda g,o=o:one(o,g['a'])),title='%s: %s'%(what,o))
    C(k+'_var','%s_%s_var'%(P_,k),lambda name,a:a,title=what+': a variable is its value')
def near(x,y):
    if x!=x or y!=y: return x!=x and y!=y
    if math.isinf(x) or math.isinf(y): return x==y
    return abs(x-y)<=1e-12*max(abs(x),abs(y))+1e-300
def fdiv(a,b): return a/b if b else math.nan if a==0 or a!=a else math.copysign(math.inf,a)*math.copysign(1,b)
def div4(a,b):
    a,b=float(a),float(b); w=[a+b,a-b,a*b,fdiv(a,b)]
    return lambda real,_: isinstance(real,list) and len(real)==4 and all(map(near,real,w))
def pown(a,b):
    try: w=math.pow(float(a),float(b))
    except OverflowError: raise Skip()
    except ValueError: w=math.inf if a==0 else math.nan
    return lambda real,_: isinstance(real,float) and near(real,w)
def un4(a):
    a=float(a)
    if a>700 or abs(a)>1e6: raise Skip()
    w=[-a,math.exp(a),math.sin(a),math.cos(a),a]
    return lambda real,_: isinstance(real,list) and len(real)==5 and all(map(near,real,w))
def one(o,a):
    a=float(a)
    w=(math.nan if a<0 else math.sqrt(a)) if o=='sqrt' else math.nan if a<0 else -math.inf if a==0 else math.log(a)
    return lambda real,_: isinstance(real,float) and near(real,w)
def stats(P_):
    for k in('logistic','sigmoid'): C('de_'+k,'%s_de_%s'%(P_,k),lambda a:1/(1+exp(-a)),title=k+' = 1/(1+exp(-x))')
    C('de_softplus','%s_de_softplus'%P_,lambda a:ln(1+exp(a)),title='softplus = ln(1+exp x)')
# ------------------------------------------------------------------ printing
def PT(v): return ['P',v.s[0]] if isinstance(v,StrV) and len(v.s)==1 else None
def one_(): return ['N',ONE]
def curves(l): 
    e=['Div',one_(),['Add',one_(),['Exp',['Neg',l]]]]
    return {'logistic':e,'sigmoid':e,'softplus':['Ln',['Add',one_(),['Exp',l]]]}
def pretty(P_):
    G2=dict(l=g_text,r=g_text)
    for f,o in OPN.items():
        C('pp_'+f,'%s_pp_%s'%(P_,f),lambda l,r,o=o:Dep(lambda ex,st:printed([o,PT(l),PT(r)]),lambda g:printed_n([o,rd(g['l']),rd(g['r'])])),gen=G2,title='printed %s reads back as that expression'%f)
    for f,o in UN.items():
        C('pp_'+f,'%s_pp_%s'%(P_,f),lambda l,o=o:Dep(lambda ex,st:printed([o,PT(l)]),lambda g:printed_n([o,rd(g['l'])])),gen=G2,title='printed %s reads back as that expression'%f)
    for f in('logistic','softplus','sigmoid'):
        C('pp_'+f,'%s_pp_%s'%(P_,f),lambda l,f=f:Dep(lambda ex,st:printed(curves(PT(l))[f]),lambda g:printed_n(curves(rd(g['l']))[f])),gen=G2,title='printed %s reads back as its formula'%f)
    C('pp_var','%s_pp_var'%P_,lambda l:Dep(lambda ex,st:Pred(lambda ex,st,v:[('the name',all(raw(ex,st,x)==l for x in v.f))]),lambda g:lambda real,_:list(real)==[g['l']]*2),title='a variable prints as its name')
    C('pp_const','%s_pp_const'%P_,lambda c:Dep(lambda ex,st:printed(['N',c]),lambda g:lambda real,_:isinstance(real,str) and float(real.strip('()'))==float(g['c'])),title='a constant prints as its value')
    C('pp_powc','%s_pp_powc'%P_,lambda c,r:Dep(lambda ex,st:printed(['Pow',['N',c],PT(r)]),lambda g:printed_n(['Pow',['N',P(Q(float(g['c'])))],rd(g['r'])])),gen=dict(r=g_text,c=lambda r:float(r.randint(-9,9))),title='a power of a constant, also of a negative one, reads back as that power')
for k,w in(('de','DirectEval'),('fe','ExpFamEval'),('ve','DistributionEval')): direct('c16',k,w)
stats('c16'); pretty('c16')
# ------------------------------------------------------------------ JITEval: the node denotes the operation on what its operands denote
def setupR(ex,st,args=None,view=None): use_maps(ex,st); ex.vnames=VR_
KR=dict(setup=setupR,n=80,timeout=300)
class Nd:
    """a node of the specification over argument nodes"""
    def __init__(self,o,*a): self.o=o; self.a=a
def mk(o,*a): return Agg(VR_.index(o),tuple(x if isinstance(x,(Agg,Lazy)) else x for x in a))
def denotes(f):
    """post: the resulting node denotes what the node f(args) denotes, in every environment"""
    def post(*args):
        def sym(ex,st):
            want=f(*args)
            def pred(ex,st,val):
                a=D(ex,st,val,E0); b=D(ex,st,want,E0)
                if b is NFV: return []
                if isinstance(b,Er): return [('undefined where the expression is',isinstance(a,Er) or a is NFV)]
                if not isinstance(a,Fl) or a.k!=b.k: return [('value',(False,None,'%r, specified %r'%(a,b)))]
                return [('value',(a.p,b.p))] if b.k=='fin' else []
            return Pred(pred)
        return Dep(sym,None)
    return post
def ntree(f,names):
    """companion: both trees evaluated at random points"""
    def num(g):
        want=f(*[g[k] for k in names])
        vs=sorted(c15.tvars(want)|{'x','y','z'})
        def p(real,_):
            if not isinstance(real,list): return False
            r=random.Random(5); tot=0
            for _i in range(6):
                env={k:r.gauss(0,2) if r.random()<.5 else math.exp(r.gauss(0,1)) for k in vs}
                try: v,e=c15.ndj(want,env)
                except Exception: continue
                try: w,e2=c15.ndj(real,env)
                except Exception: return False
                if isinstance(v,float) and not math.isfinite(v): continue
                if abs(v-w)>1000*(e+e2)+1e-12*abs(v): return False
            return True
        return p
    return num
import random
def JT(nm,names,f,title,pre=None,**k):
    def post(*a):
        d=denotes(lambda *x:f(mk,*x))(*a); d.num=ntree(lambda *x:f(lambda o,*y:[o,*y],*x),names); return d
    C('jt_'+nm,k.pop('root','c16_jt_'+nm),post,title=title,**dict(KR,**k))
for f,o in OPN.items(): JT(f,('l','r'),lambda N,l,r,o=o:N(o,l,r),'the node built for %s'%f)
for f,o in UN.items(): JT(f,('l',),lambda N,l,o=o:N(o,l),'the node built for %s'%f)
def KN(N,v): return N('Const',fin(P(v)) if N is mk else float(v))
jlog=lambda N,l:N('Div',KN(N,1),N('Add',KN(N,1),N('Exp',N('Neg',l))))
JT('logistic',('l',),jlog,'logistic over any expression'); JT('sigmoid',('l',),jlog,'sigmoid over any expression')
JT('softplus',('l',),lambda N,l:N('Ln',N('Add',KN(N,1),N('Exp',l))),'softplus over any expression')
JT('const',('c',),lambda N,c:N('Const',fin(P(c)) if N is mk else float(c)),'a constant keeps its value')
C('jt_var','c16_jt_var',lambda name:Dep(lambda ex,st:Pred(lambda ex,st,v:[('the variable',all(isinstance(x,Agg) and x.v==1 and deref(ex,st,x.f[0])==name for x in v.f))]),lambda g:lambda real,_:list(real)==[['Var',g['name']]]*2),title='a variable keeps its name',**KR)
# ------------------------------------------------------------------ properties of the built expressions (structural induction)
def h_ind(fname,atomname):
    def h(c):
        v=sub_of(True,c)
        if v is None: return INLINE
        p=fn(atomname,v.n,sort='int'); c.st.assume(p.ge(0)); c.st.assume(p.le(1<<40)); return p
    return (re.compile(r'JITRepr::%s$'%fname),h)
def s_cost(at,leaf,cost):
    def sym(ex,st,e):
        x=node(ex,st,e)
        if isinstance(x,Lazy): return ANY
        o=VR_[x.v]
        if o in('Const','Var'): return P(leaf(o))
        return cost(o)+sum((fn(at,raw(ex,st,y).n,sort='int') for y in x.f),ZERO)
    return lambda e:Dep(lambda ex,st:sym(ex,st,e),lambda g:const(ncost(g['e'],leaf,cost)))
def ncost(t,leaf,cost): return leaf(t[0]) if t[0] in('Const','Var') else cost(t[0])+sum(ncost(x,leaf,cost) for x in t[1:])
TR=('Ln','Exp','Sqrt','Sin','Cos')
C('jr_complexity','c16_jr_complexity',s_cost('jcpx',lambda o:1,lambda o:3 if o in TR else 1),fns=[h_ind('estimate_complexity','jcpx')],title='estimate_complexity counts operations (elementary functions as 3)',**KR)
C('jr_constants','c16_jr_constants',s_cost('jcon',lambda o:1 if o=='Const' else 0,lambda o:0),fns=[h_ind('count_constants','jcon')],title='count_constants counts the constants',**KR)
def JV(ex,st,v):
    x=node(ex,st,v)
    if isinstance(x,Lazy): return {'fv(%s)'%x.n}
    o=VR_[x.v]
    if o=='Var': return {repr(deref(ex,st,x.f[0]))}
    if o=='Const': return set()
    return set().union(*[JV(ex,st,y) for y in x.f])
def h_jcollect(c):
    v=sub_of(True,c)
    if v is None: return INLINE
    n='fv(%s)'%v.n; L=ivar('len(%s)'%n); c.st.assume(L.ge(0)); c.st.assume(L.le(1<<40))
    p=c.args[1]; w=c.ex.read(c.st,p.c,p.p)
    while isinstance(w,Ptr): p=w; w=c.ex.read(c.st,p.c,p.p)
    q=InSeq(n,L,lambda i:StrV([('s','%s[%s]'%(n,show(i)))]))
    c.ex.write(c.st,p.c,p.p,VecV(StrSet(cat(w.s.base,q),w.s.st) if isinstance(w.s,StrSet) else cat(w.s,q))); return UNIT
def h_jvars(c):
    v=sub_of(True,c)
    if v is None: return INLINE
    n='fv(%s)'%v.n; L=ivar('len(%s)'%n); c.st.assume(L.ge(0)); c.st.assume(L.le(1<<40))
    return VecV(StrSet(InSeq(n,L,lambda i:StrV([('s','%s[%s]'%(n,show(i)))])),2))
C('jr_variables','c16_jr_variables',lambda e:Dep(lambda ex,st:(lambda want:Pred(lambda ex,st,val:[('exactly the variables',isinstance(val,VecV) and isinstance(val.s,StrSet) and val.s.st==1 and val.s.members()==want or isinstance(val,VecV) and isinstance(val.s,LSeq) and not val.s.l and not want)]))(JV(ex,st,e)),lambda g:lambda real,_:real==sorted(c15.tvars(g['e']))),fns=[(re.compile(r'JITRepr::collect_variables_recursive$'),h_jcollect),(re.compile(r'JITRepr::collect_variables$'),h_jvars)],title='collect_variables is the set of variables',**KR)
# ------------------------------------------------------------------ density formulas over any interpreter
nd_,ed_=DIST['normal'],DIST['exponential']
def NP(N,x,mu,s): return N('Sub',N('Sub',N('Neg',N('Mul',KN(N,.5),N('Ln',TPI(N)))),N('Ln',s)),N('Mul',KN(N,.5),N('Mul',N('Div',N('Sub',x,mu),s),N('Div',N('Sub',x,mu),s))))
def TPI(N): return N('Const',fin(2*PI)) if N is mk else KN(N,2*math.pi)
def KPI(N): return N('Const',fin(PI)) if N is mk else KN(N,math.pi)
cau=lambda x,l,s:-ln(PI)-ln(s)-ln(1+((x-l)/s)**2)
GC={'loc':f_real,'scale':f_pos,'mu':f_real,'sigma':f_pos,'rate':f_pos,'x':f_real}
for k,w in(('fp','exponential-family'),('dp','distribution')):
    C(k+'_stdnormal','c16_%s_stdnormal_de'%k,lambda x:nd_.ld(ZERO,ONE,x),title=w+' formula: standard normal')
    C(k+'_normal','c16_%s_normal_de'%k,lambda x,m,s:nd_.ld(m,s,x),pre=lambda x,m,s:[s.gt(0)],gen=GC,title=w+' formula: normal')
    C(k+'_exponential','c16_%s_exponential_de'%k,lambda x,l:ed_.ld(l,x),pre=lambda x,l:[l.gt(0),x.ge(0)],gen=dict(GC,x=f_pos),title=w+' formula: exponential')
    JT(k+'_stdnormal',('x',),lambda N,x:NP(N,x,KN(N,0),KN(N,1)),w+' formula over nodes: standard normal',root='c16_%s_stdnormal_jt'%k)
    JT(k+'_normal',('x','mu','sigma'),NP,w+' formula over nodes: normal',root='c16_%s_normal_jt'%k)
    JT(k+'_exponential',('x','rate'),lambda N,x,r:N('Sub',N('Ln',r),N('Mul',r,x)),w+' formula over nodes: exponential',root='c16_%s_exponential_jt'%k)
C('dp_cauchy','c16_dp_cauchy_de',cau,pre=lambda x,l,s:[s.gt(0)],gen=GC,title='Cauchy formula')
JT('dp_cauchy',('x','loc','scale'),lambda N,x,l,s:N('Sub',N('Sub',N('Neg',N('Ln',KPI(N))),N('Ln',s)),N('Ln',N('Add',KN(N,1),N('Mul',N('Div',N('Sub',x,l),s),N('Div',N('Sub',x,l),s))))),'Cauchy formula over nodes',root='c16_dp_cauchy_jt')
C('ve_normal','c16_ve_normal',lambda x,m,s:nd_.ld(m,s,x),pre=lambda x,m,s:[s.gt(0)],gen=GC,title='DistributionEval normal')
C('ve_exponential','c16_ve_exponential',lambda x,l:Cases((x.ge(0),ed_.ld(l,x)),(TRUE,NINF)),pre=lambda x,l:[l.gt(0)],gen=GC,title='DistributionEval exponential')
gd_=DIST['gamma']
C('ve_gamma','c16_ve_gamma',lambda x,a,b:Cases((x.gt(0),a*ln(b)-lgamma(a)+(a-1)*ln(x)-b*x),(TRUE,NINF)),pre=lambda x,a,b:[a.gt(0),b.gt(0)],gen=dict(shape=f_pos,rate=f_pos,x=f_real),title='DistributionEval gamma')
C('ve_lgamma','c16_ve_lgamma',lambda x:lgamma(x),pre=lambda x:[x.gt(0)],gen=dict(x=lambda r:math.exp(r.gauss(1,2))),title='DistributionEval log-gamma')
# ------------------------------------------------------------------ one generic definition, two interpreters
C('agree_quad','c16_agree_quad',lambda x,a,b,c:Ok_((a*x**2+b*x+c,a*x**2+b*x+c)),fns=ALL,title='a generic quadratic: direct value = compiled value',**KR)
C('agree_auto','c16_agree_auto',lambda x,y:Ok_(y-x),fns=ALL,title='compile takes its arguments in the order of their names',**KR)
