from symb import *
K=dict(setup=use_maps,n=150,timeout=300)
def nozero(ex,st,args,view): use_maps(ex,st); st.assume(Not(F('b','zlit(e)')))
KB=dict(K,setup=nozero)
def on(f):
    """post-condition over the expression argument: f(ex,st,e,*other args)"""
    def post(e,*a): return Dep(lambda ex,st:f(ex,st,e,*a))
    return post
def dep(sym,num):
    def post(e,*a): return Dep(lambda ex,st:sym(ex,st,e,*a),num)
    return post
def s_eval(ex,st,e,vars_):
    r=D(ex,st,e,Env([],('vars',None)))
    if isinstance(r,Er) and zlit(ex,st,e): return ANY
    return spec_of(r)
C('eval','c12_eval',dep(s_eval,lambda g:num_eval(g['e'],g['vars'])),fns=[h_eval(True)],title='evaluate returns the value of the expression, or an error exactly where it is undefined',**K)
def env1(name,v): return Env([(name,fin(v))])
def num1(f): return lambda g:f(g['e'],{g['name']:g['value']},g)
C('single','c12_single',dep(lambda ex,st,e,name,v:spec_of(D(ex,st,e,env1(name,v))),num1(lambda t,env,g:num_eval(t,env,False))),fns=[h_single(True)],title='evaluate_single_var is evaluate with that one variable bound',**K)
def s_opt(ex,st,e,name,v):
    r=Dv(ex,st,e,env1(name,v))
    def f(ex,st,val):
        if not isinstance(val,Agg): return [('shape',False)]
        if val.v==0: return []
        if r is NFV: return []
        if isinstance(r,Er): return [('Some where the expression is undefined',False)]
        x=val.f[0]
        if not isinstance(x,Fl) or x.k!=r.k: return [('kind',False)]
        return [('value',(x.p,r.p))] if r.k=='fin' else []
    return Pred(f)
def n_opt(t,env,g):
    def f(real,_):
        if real=='None': return True
        return num_eval(t,env)(real,_)
    return f
C('poly','c12_poly',dep(s_opt,num1(n_opt)),fns=[h_some('evaluate_polynomial',True)],title='evaluate_polynomial, where it answers, answers the value',**K)
def s_coeffs(ex,st,e,name,v):
    r=Dv(ex,st,e,env1(name,v))
    def f(ex,st,val):
        if not isinstance(val,Agg): return [('shape',False)]
        if val.v==0: return []
        if r is NFV: return []
        if isinstance(r,Er) or r.k!='fin': return [('Some where the expression is undefined',False)]
        a,b=val.f[0].f
        if a.k!='fin' or b.k!='fin': return [('kind',False)]
        return [('value',(a.p*P(v)+b.p,r.p))]
    return Pred(f)
def n_coeffs(t,env,g):
    def f(real,_):
        if real=='None': return True
        try: v,e=nd(t,env)
        except NErr: return False
        a,b=real[0]
        return abs(m.mpf(a)*g['value']+m.mpf(b)-v)<=1000*e+(abs(m.mpf(a)*g['value'])+abs(b)+abs(v))*m.mpf(10)**-12
    return f
C('coeffs','c12_coeffs',dep(s_coeffs,num1(n_coeffs)),fns=[h_coeffs(True)],title='the extracted (a, b) satisfy value = a x + b for every x',**K)
C('linear','c12_linear',dep(s_opt,num1(n_opt)),fns=[h_coeffs()],title='evaluate_linear, where it answers, answers the value',**K)
def s_smart(ex,st,e,name,v): return spec_of(Dv(ex,st,e,env1(name,v)))
C('smart','c12_smart',dep(s_smart,num1(lambda t,env,g:num_eval(t,env,False))),fns=[h_some('evaluate_linear'),h_some('evaluate_polynomial'),h_single()],title='evaluate_smart agrees with the plain evaluation',**K)
# ---- element-wise evaluation
def batch(env_at,seq):
    def sym(ex,st,e,*a):
        n=raw(ex,st,e).n; xs=a[seq]
        err=lambda i:XERR(n,env_at(a,i))
        return Cases((Exists(ZERO,xs.len,err),Err_()),(TRUE,Ok_(SeqS(xs.len,lambda i:XVAL(n,env_at(a,i))))))
    return sym
from summ import Exists
bs=batch(lambda a,i:env1(a[0],a[1][i]),1)
nb=lambda g:num_batch(g['e'],[{g['name']:v} for v in g['values']])
C('batch','c12_batch',dep(bs,nb),fns=[h_eval()],title='evaluate_batch is evaluate at each value',**KB)
C('batchopt','c12_batchopt',dep(bs,nb),fns=[h_eval(),h_single(),HV],title='evaluate_batch_optimized is evaluate at each value',**KB)

C('batchvars','c12_batchvars',dep(lambda ex,st,e,sets:Cases((Exists(ZERO,sets.len,lambda i:XERR('e',Env([],('sets',i)))),Err_()),(TRUE,Ok_(SeqS(sets.len,lambda i:XVAL('e',Env([],('sets',i))))))),lambda g:num_batch(g['e'],g['sets'])),fns=[h_eval()],title='evaluate_batch_vars is evaluate under each environment',**KB)
def s_grid(ex,st,e,xn,xs,yn,ys):
    def env(k,i):
        ex_=(yn_,fin(ys[k])); ey=(xn_,fin(xs[i]))   # equal names: the key that is already there keeps the last value
        return Env([(yn_,fin(xs[i]))] if same else [ex_,ey])
    xn_=xn; yn_=yn; same=st.decide(str_eq(None,xn,yn))
    return Cases((Exists(ZERO,ys.len,lambda k:Exists(ZERO,xs.len,lambda i:XERR('e',env(k,i)))),Err_()),(TRUE,Ok_(SeqS(ys.len,lambda k:SeqS(xs.len,lambda i:XVAL('e',env(k,i)))))))
def n_grid(g):
    if not g["xs"] or not g["ys"]: return lambda real,_: isinstance(real,tuple)
    es=[[dict([(g['yn'],y)]+[(g['xn'],x)]) for x in g['xs']] for y in g['ys']]
    flat=num_batch(g['e'],[e for r in es for e in r])
    def f(real,_):
        if not isinstance(real,tuple): return flat(real,_)
        return [len(r) for r in real[0]]==[len(r) for r in es] and flat(([x for r in real[0] for x in r],),_)
    return f
C('grid','c12_grid',dep(s_grid,n_grid),fns=[h_eval()],title='evaluate_grid[k][i] is evaluate at (x_i, y_k)',**KB)
def h_cpx(c):
    v=sub_of(True,c)
    if v is None: return INLINE
    p=fn('xcpx',v.n,sort='int'); c.st.assume(p.ge(0)); c.st.assume(p.le(1<<40)); return p
def s_cpx(ex,st,e):
    x=node(ex,st,e)
    if isinstance(x,Lazy) or V_[x.v] in('Const','Var'): return ZERO
    return 1+sum((fn('xcpx',raw(ex,st,y).n,sort='int') for y in x.f),ZERO)
def ncpx(t): return 0 if t[0] in('Const','Var') else 1+sum(map(ncpx,t[1:]))
C('complexity','c12_complexity',dep(s_cpx,lambda g:const(ncpx(g['e']))),fns=[(re.compile(r'Expr::complexity$'),h_cpx)],title='complexity counts the operations',**K)
def FV(ex,st,v):
    """the list of variable occurrences of a node, as the members of a set"""
    x=node(ex,st,v)
    if isinstance(x,Lazy): return {'fv(%s)'%x.n}
    if V_[x.v]=='Var': return {repr(deref(ex,st,x.f[0]))}
    if V_[x.v]=='Const': return set()
    return set().union(*[FV(ex,st,y) for y in x.f])
def h_collect(c):
    v=sub_of(True,c)
    if v is None: return INLINE
    n='fv(%s)'%v.n; L=ivar('len(%s)'%n); c.st.assume(L.ge(0)); c.st.assume(L.le(1<<40))
    p=c.args[1]; w=c.ex.read(c.st,p.c,p.p)
    while isinstance(w,Ptr): p=w; w=c.ex.read(c.st,p.c,p.p)
    q=InSeq(n,L,lambda i:StrV([('s','%s[%s]'%(n,show(i)))]))
    c.ex.write(c.st,p.c,p.p,VecV(StrSet(cat(w.s.base,q),w.s.st) if isinstance(w.s,StrSet) else cat(w.s,q))); return UNIT
def h_vars(c):
    v=sub_of(True,c)
    if v is None: return INLINE
    n='fv(%s)'%v.n; L=ivar('len(%s)'%n); c.st.assume(L.ge(0)); c.st.assume(L.le(1<<40))
    return VecV(StrSet(InSeq(n,L,lambda i:StrV([('s','%s[%s]'%(n,show(i)))])),1))
def s_vars(ex,st,e):
    want=FV(ex,st,e)
    return Pred(lambda ex,st,val:[('sorted, without duplicates, exactly the variables',isinstance(val,VecV) and isinstance(val.s,StrSet) and val.s.st==1 and val.s.members()==want or isinstance(val,VecV) and isinstance(val.s,LSeq) and not val.s.l and not want)])
def nvars(t): return {t[1]} if t[0]=='Var' else set() if t[0]=='Const' else set().union(*map(nvars,t[1:]))
C('variables','c12_variables',dep(s_vars,lambda g:lambda real,_:real==sorted(nvars(g['e']))),fns=[(re.compile(r'Expr::collect_variables$'),h_collect),(re.compile(r'Expr::variables$'),h_vars)],title='variables lists every variable once, in order',**K)
