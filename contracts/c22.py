from symb import *
_n=len(CONTRACTS); import c13 as _s; del CONTRACTS[_n:]      # the contract of simplify itself is property C13
K=dict(setup=use_maps,n=150,timeout=300)
def dep(sym,num): return lambda *a:Dep(lambda ex,st:sym(ex,st,*a),num)
# ---- symbolic log-densities: the expression under its parameters overridden by the given variables
LAY=('vars>params',None)
def s_env(mk,strict=True,open_=False):
    def f(ex,st,e,params,*a):
        if open_ and isinstance(node(ex,st,e),Lazy): ex.is_variant(st,raw(ex,st,e),0)
        r=D(ex,st,e,mk(*a))
        if isinstance(r,Er) and (not strict or zlit(ex,st,e)): return ANY
        if not strict and not(r is NFV) and r.k!='fin': return ANY
        return spec_of(r)
    return f
def n_env(mk): return lambda g:num_eval(g['e'],mk(g))
both=(lambda vars_:Env([],LAY),lambda g:dict(g['params'],**g['vars']))
one=(lambda name,v:Env([(name,fin(v))],('params',None)),lambda g:dict(g['params'],**{g['name']:g['value']}))
def n_def(mk):
    """only where the expression is defined"""
    def f(g):
        try: v,e=nd(g['e'],mk(g))
        except NErr: raise Skip()
        return lambda real,_: isinstance(real,tuple) and len(real)==1 and close(real[0],v,e)
    return f
for p,t in(('','SymbolicLogDensity'),('j','CustomSymbolicLogDensity')):
    C(p+'eval','c22_%seval'%p,dep(s_env(both[0]),n_env(both[1])),fns=[h_eval(),HV],title='%s::evaluate: variables override parameters'%t,**K)
    C(p+'single','c22_%ssingle'%p,dep(s_env(one[0]),n_env(one[1])),fns=[h_eval(),HV],title='%s::evaluate_single: the variable overrides a parameter of its name'%t,**K)
    C(p+'simplified','c22_%ssimplified'%p,dep(s_env(both[0],False),n_def(both[1])),fns=[_s.HS0,_s.HF,HV],title='%s::simplify keeps the value'%t,**K)
# substitution: t(c) stands for the substituted subterm c; by the contract on the recursive call it denotes, for all
# variables, what c denotes with the parameters taking precedence
SUBB=('params>vars',None)
def h_subst(c):
    v=raw(c.ex,c.st,c.args[1])
    if isinstance(v,Lazy) and v.n=='e' and not c.st.meta.get(('subst-entered',)):
        c.st.meta[('subst-entered',)]=v; return INLINE
    if not isinstance(v,Lazy) or v.n=='e': raise Unsupported('recursion of substitution on an expression that is no subterm')
    t=Lazy(v.t,'t(%s)'%v.n); c.st.meta[('subst',t.n)]=v; return t
HSUB=(re.compile(r'SymbolicLogDensity::substitute_expr$'),h_subst)
def view_e(st): return st.meta[('subst-entered',)]
def D_final(mk):
    def h(c):
        ex,st=c.ex,c.st; e=raw(ex,st,view_e(st))
        if isinstance(node(ex,st,e),Lazy): ex.is_variant(st,e,0)
        want=D(ex,st,e,mk())
        if isinstance(want,Er) or want is NFV or want.k!='fin': return Opq('undef','')
        return result(D(ex,st,raw(ex,st,c.args[0]),env_of(ex,st,c.args[1])))
    return re.compile(r'Expr::evaluate$'),h
C('subst','c22_subst',dep(s_env(lambda *a:Env([],SUBB),False,True),n_def(lambda g:dict(g['vars'],**g['params']))),fns=[HSUB,D_final(lambda:Env([],SUBB)),HV],title='substituting the parameters keeps the value',**K)
# ---- building: each constructor and operator builds the node it names
def N(o,*a): return Agg(V_.index(o),tuple(a))
def Kc(x): return N('Const',fin(P(x)))
def h_den(c):
    r=D(c.ex,c.st,raw(c.ex,c.st,c.args[0]),env_of(c.ex,c.st,c.args[1]) if isinstance(raw(c.ex,c.st,c.args[1]),MapV) else single_env(c))
    return Opq('nonfinite','') if r is NFV else result(r)
HD=[(re.compile(r'Expr::evaluate$'),h_den),(re.compile(r'Expr::evaluate_single_var$'),h_den),HV]
def sp(r): return ANY if r is NFV else Err_() if isinstance(r,Er) else Ok_(r)
def trees(f,tn,names,mkenv=None,env=None):
    """f(*args) -> trees expected; tn(g) -> the same as lists"""
    def sym(ex,st,*a):
        ev=mkenv(*a) if mkenv else Env([],('vars',None))
        r=[sp(D(ex,st,t,ev)) for t in f(*a)]
        return tuple(r) if len(r)>1 else r[0]
    def num(g):
        e=env(g) if env else g['vars']; fs=[num_eval(t,e) for t in tn(*[g[k] for k in names])]
        if len(fs)==1: return fs[0]
        return lambda real,_: isinstance(real,tuple) and len(real)==len(fs) and all(f(r,_) for f,r in zip(fs,real))
    return dep(sym,num)
BIN=('Add','Sub','Mul','Div','Pow')
def T(name,f,tn,names,title,**k): C(name,'c22_'+name,trees(f,tn,names,**k),fns=HD,title=title,**K)
T('ops',lambda a,b,_:[N(o,a,b) for o in BIN],lambda a,b:[[o,a,b] for o in BIN],('a','b'),'a+b, a-b, a*b, a/b, a.powf(b) denote what they say')
T('ctors',lambda a,b,_:[N(o,a,b) for o in BIN],lambda a,b:[[o,a,b] for o in BIN],('a','b'),'the binary constructors')
T('opsr',lambda a,c,_:[N(o,a,Kc(c)) for o in BIN],lambda a,c:[[o,a,['Const',c]] for o in BIN],('a','c'),'operators with a number on the right')
T('opsl',lambda a,c,_:[N(o,Kc(c),a) for o in BIN[:4]],lambda a,c:[[o,['Const',c],a] for o in BIN[:4]],('a','c'),'operators with a number on the left')
U=('Ln','Exp','Sqrt','Neg','Sin','Cos')
T('unary',lambda a,_:[N(o,a) for o in U],lambda a:[[o,a] for o in U],('a',),'the unary constructors')
T('unary2',lambda a,_:[N(o,a) for o in U[:4]],lambda a:[[o,a] for o in U[:4]],('a',),'natural_log, exponential, square_root, negation')
T('powers',lambda a,_:[N('Pow',a,Kc(2)),N('Pow',a,Kc(3)),N('Sqrt',N('Pow',a,Kc(2)))],lambda a:[['Pow',a,['Const',2.0]],['Pow',a,['Const',3.0]],['Sqrt',['Pow',a,['Const',2.0]]]],('a',),'square, cube, abs')
T('leaves',lambda name,c,i,_:[Kc(c),Kc(c),Kc(i)]+[N('Var',name)]*3,lambda name,c,i:[['Const',c],['Const',c],['Const',float(i)]]+[['Var',name]]*3,('name','c','i'),'constants and variables')
# ---- the ready-made terms, as closed formulas of the variable
def s_quad(name,mu,sg,v): return Cases((P(sg).eq(0),Err_()),(TRUE,Ok_(-(P(v)-P(mu))**2/(2*P(sg)**2))))
C('quadratic','c22_quadratic',s_quad,fns=HD,title='quadratic_term is -(x-mu)^2/(2 sigma^2)',**K)
C('linear','c22_linear',lambda name,k,v:Ok_(P(k)*P(v)),fns=HD,title='linear_term is coeff x',**K)
C('normconst','c22_normconst',lambda sg,name,v:Cases((P(sg).le(0),Err_()),(TRUE,Ok_(-LN2PI/2-ln(sg)))),fns=HD,title='log_normal_constant is -ln(2 pi)/2 - ln sigma',**K)
