from symb import *
K=dict(setup=use_maps,n=400,timeout=300)
# the simplified form of a subterm: a fresh expression s(c); by simplify's own contract (on the recursive call) it denotes
# what c denotes wherever c is defined; so D of c is read off the (possibly inspected) shape of s(c)
def h_simplify(c):
    v=raw(c.ex,c.st,c.args[0])
    if isinstance(v,Lazy) and v.n=='e': return INLINE
    if isinstance(v,Lazy):
        s=Lazy(v.t,'s(%s)'%v.n); c.st.meta[('simp_of',v.n)]=s
    else:
        s=Lazy(c.dty,'sb%d'%sum(1 for x in c.st.meta if x[0]=='simp_built')); c.st.meta[('simp_built',s.n)]=v
    return s
HS=(re.compile(r'Expr::simplify$'),h_simplify)
def same(ex,st,a,b):
    """structural equality of two expressions, opened as far as their shapes are known"""
    x,y=raw(ex,st,a),raw(ex,st,b)
    if isinstance(x,Lazy) and isinstance(y,Lazy) and x.n==y.n: return True
    p,q=node(ex,st,x),node(ex,st,y)
    if isinstance(p,Agg) or isinstance(q,Agg):
        if not isinstance(p,Agg): x,y,p,q=y,x,q,p
        if isinstance(q,Lazy) and not ex.is_variant(st,q,p.v): return False
        q=node(ex,st,y)
        if p.v!=q.v: return False
        if V_[p.v]=='Const': return st.decide(ex.fcmp('Eq',p.f[0],q.f[0]))
        if V_[p.v]=='Var': return st.decide(str_eq(None,deref(ex,st,p.f[0]),deref(ex,st,q.f[0])))
        return all(same(ex,st,u,v) for u,v in zip(p.f,q.f))
    if not st.decide(F('b','same(%s,%s)'%(x.n,y.n))): return False
    st.meta[('same',x.n)]=y
    return True
def h_same(c): return TRUE if same(c.ex,c.st,c.args[0],c.args[1]) else FALSE
HE=(re.compile(r'<symbolic_math::(expr::)?Expr as std::cmp::PartialEq>::eq$'),h_same)
def h_simplify0(c):
    """as a caller sees simplify: nothing is inlined"""
    v=raw(c.ex,c.st,c.args[0]); s=Lazy(v.t,'s(%s)'%v.n); c.st.meta[('simp_of',v.n)]=s; return s
HS0=(HS[0],h_simplify0)
def h_final(c):
    """the simplified expression, evaluated: its denotation, where the original has one"""
    e=Lazy(None,'e'); ex,st=c.ex,c.st
    env=env_of(ex,st,c.args[1])
    want=D(ex,st,e,env)
    if isinstance(want,Er) or want is NFV or want.k!='fin': return Opq('undef','')
    return result(D(ex,st,raw(ex,st,c.args[0]),env))
HF=(re.compile(r'Expr::evaluate$'),h_final)
def s_simp(ex,st,e,vars_):
    r=D(ex,st,e,Env([],('vars',None)))
    if isinstance(r,Er): return ANY
    if not(r is NFV) and r.k!='fin': return ANY
    return spec_of(r)
def n_simp(g):
    try: v,e=nd(g['e'],g['vars'])
    except NErr: raise Skip()
    return lambda real,_: isinstance(real,tuple) and len(real)==1 and close(real[0],v,e)
def post(e,*a): return Dep(lambda ex,st:s_simp(ex,st,e,*a),n_simp)
C('simplify','c13_simplify',post,fns=[HS,HE,HF],title='simplify keeps the value wherever the expression is defined',**K)
# the derived equality the rules x+x, x-x, x*x, x/x rely on: true only for structurally equal expressions
def h_eq_own(c):
    a,b=raw(c.ex,c.st,c.args[0]),raw(c.ex,c.st,c.args[1])
    if isinstance(a,Lazy) and a.n=='a': return INLINE
    return h_same(c)
def s_eq(ex,st,a,b):
    if isinstance(node(ex,st,a),Agg) or isinstance(node(ex,st,b),Agg):
        w=same(ex,st,a,b)
        return Pred(lambda ex,st,val:[('equal exactly if structurally equal',val if w else Not(val))])
    return Pred(lambda ex,st,val:[('not equal',Not(val))])
C('eq','c13_eq',lambda a,b:Dep(lambda ex,st:s_eq(ex,st,a,b),lambda g:g['a']==g['b']),fns=[(HE[0],h_eq_own)],setup=use_maps,timeout=200,title='the derived equality of expressions is structural equality')
