"""the denotation of symbolic expressions: one strict, total semantics against which every evaluator, transformer and
compiler of /repo is specified. An unresolved subterm n is left uninterpreted: xerr(n,env) says whether it is undefined
there, xval(n,env) is its value; so a proof over one constructor level plus the function's own contract on strict
subterms (structural induction) covers expressions of every size."""
from distspec import *
import re, math, mpmath
import exec as X
from exec import INLINE
from models import str_eq
from norm import EvalError
m=mpmath
V_=['Const','Var','Add','Sub','Mul','Div','Pow','Ln','Exp','Sqrt','Sin','Cos','Neg']
class Er:
    """undefined; p: acceptable error payloads (None: any)"""
    def __init__(self,p): self.p=p
class _NF: pass
NFV=_NF()      # an intermediate value is infinite or NaN: outside the property
def nf(a): return a is NFV or isinstance(a,Fl) and a.k!='fin'
class Env:
    """entries [(StrV key, Fl)] (latest last) over an optional arbitrary base (name, index)"""
    def __init__(self,e,base=None): self.e=list(e); self.base=base
    def terms(self):
        d={}
        for k,v in self.e: d[repr(k)]=v
        out=[]
        for k in sorted(d): out+=[k,tval(d[k])]
        if self.base is not None: out+=['base:'+self.base[0]]+([self.base[1]] if self.base[1] is not None else [])
        return out
def tval(v):
    if isinstance(v,Fl):
        if v.k!='fin': raise Unsupported('non-finite value in an environment')
        return v.p
    return P(v)
def mapval(base,key):
    bn,bi=base
    return fin(fn('mapval:'+bn,*([bi] if bi is not None else []),repr(key)))
def mapin(base,key):
    bn,bi=base
    return fn('mapin:'+bn,*([bi] if bi is not None else []),repr(key),sort='int').ge(1)
def nbase(b): return None if b is None else (b if isinstance(b,tuple) else (b,None))
def env_of(ex,st,v):
    while isinstance(v,Ptr): v=ex.read(st,v.c,v.p)
    if not isinstance(v,MapV): raise Unsupported('environment %r'%(v,))
    b=nbase(v.base); e=[]
    for k,x in v.e:
        while isinstance(k,Ptr): k=ex.read(st,k.c,k.p)
        while isinstance(x,Ptr): x=ex.read(st,x.c,x.p)
        if b is not None and isinstance(x,Fl) and any(x==mapval(y,k) for y in layers(b)): continue     # a remembered lookup
        e.append((k,x))
    return Env(e,b)
def use_maps(ex,st,args=None,view=None): ex.mapspec=lambda st,base,key: mapval(nbase(base),key)
def raw(ex,st,v):
    while isinstance(v,Ptr): v=ex.read(st,v.c,v.p)
    return v
def node(ex,st,v):
    v=raw(ex,st,v)
    if isinstance(v,Lazy): return st.lazy.get(v.n,v)
    return v
def who(n): return list(vals.LAZYIDX[n]) if n in vals.LAZYIDX else [n]
def XERR(n,env): return fn('xerr',*who(n),*env.terms(),sort='int').ge(1)
def XVAL(n,env): return fn('xval',*who(n),*env.terms())
def deref(ex,st,k):
    while isinstance(k,Ptr): k=ex.read(st,k.c,k.p)
    return k
def lookup(ex,st,name,env):
    for k,v in reversed(env.e):
        if st.decide(str_eq(None,name,k)): return v
    if env.base is not None:
        for b in layers(env.base):
            if st.decide(mapin(b,name)): return mapval(b,name)
    return None
def layers(b): return [b] if b[1] is not None else [(x,None) for x in b[0].split('>')]
def D(ex,st,v,env):
    x=node(ex,st,v)
    w=raw(ex,st,v)
    if isinstance(w,Lazy):
        s=st.meta.get(('simp_of',w.n))
        if s is not None:       # the contract of simplify: its result denotes what its argument denotes, wherever that is defined
            if st.decide(XERR(w.n,env)): return Er([Opq('err',w.n)])
            r=D(ex,st,s,env)
            if isinstance(r,Er): raise X.Infeasible()
            return r
        s=st.meta.get(('simp_built',w.n))
        if s is not None:
            r=D(ex,st,s,env)
            if r is NFV: return r
            if not isinstance(r,Er):
                if isinstance(x,Lazy): return r
                q=D(ex,st,x,env)
                if isinstance(q,Er) or q is NFV or q.k!=r.k: raise X.Infeasible()
                if q.k=='fin': st.assume(q.p.eq(r.p))
                return r
        s=st.meta.get(('subst',w.n))
        if s is not None:       # the contract of parameter substitution, under any values of the variables
            if env.e or env.base!=('vars',None): raise Unsupported('environment of a substituted expression')
            return D(ex,st,s,Env([],('params>vars',None)))
        s=st.meta.get(('same',w.n))
        if s is not None: return D(ex,st,s,env)
    if isinstance(x,Lazy):
        if st.decide(XERR(x.n,env)): return Er([Opq('err',x.n)])
        s=st.meta.get(('den',x.n))
        if s is not None: return s(env)
        return fin(XVAL(x.n,env))
    if not isinstance(x,Agg): raise Unsupported('expression %r'%(x,))
    o=getattr(ex,'vnames',V_)[x.v]
    if o=='Const':
        c=x.f[0]; return c if isinstance(c,Fl) else fin(c)
    if o=='Var':
        nm=deref(ex,st,x.f[0]); r=lookup(ex,st,nm,env)
        return Er([Agg(0,(nm,))]) if r is None else r
    a=D(ex,st,x.f[0],env)
    if nf(a): return NFV
    if o in('Add','Sub','Mul','Div','Pow'):
        b=D(ex,st,x.f[1],env)
        if nf(b): return NFV
        if isinstance(a,Er) or isinstance(b,Er):
            ps=[y for z in(a,b) if isinstance(z,Er) for y in z.p]
            if o=='Div' and isinstance(b,Fl) and b.k=='fin' and st.decide(b.p.eq(0)): ps.append(Agg(1,()))
            return Er(ps)
        if o=='Div':
            if b.k=='fin' and st.decide(b.p.eq(0)): return Er([Agg(1,())])
            return ex.fbin(st,'Div',a,b)
        if o=='Pow': return ex.fpow(st,a,b)
        return ex.fbin(st,o,a,b)
    if isinstance(a,Er): return a
    if o=='Ln':
        if st.decide(ex.fcmp('Le',a,fin(ZERO))): return Er([Agg(2,(a,))])
        return ex.fln(st,a)
    if o=='Exp': return ex.fexp(st,a)
    if o=='Sqrt':
        if st.decide(ex.fcmp('Lt',a,fin(ZERO))): return Er([Agg(3,(a,))])
        return ex.fsqrt(st,a)
    if o in('Sin','Cos'):
        if a.k!='fin': return NAN
        return fin(fn(o.lower(),a.p))
    if o=='Neg': return ex.fneg(a)
def zlit(ex,st,v):
    """has a product with a literal zero factor somewhere: its evaluation may skip (and so not report) undefined parts"""
    x=node(ex,st,v)
    if isinstance(x,Lazy): return st.decide(F('b','zlit(%s)'%x.n))
    o=getattr(ex,'vnames',V_)[x.v]
    if o in('Const','Var'): return False
    if o=='Mul':
        for y in x.f:
            r=raw(ex,st,y)
            if isinstance(r,Lazy): ex.is_variant(st,r,0)
            z=node(ex,st,y)
            if isinstance(z,Agg) and z.v==0 and st.decide(P(z.f[0].p).eq(0)): return True
    return any(zlit(ex,st,y) for y in x.f)
def spec_of(r):
    if r is NFV: return ANY
    if isinstance(r,Er): return Err_(r.p)
    return Ok_(r)
def result(r):
    """MIR value of a Result<f64, EvalError>"""
    if r is NFV: raise X.Infeasible()
    if isinstance(r,Er): return Agg(1,(r.p[0] if len(r.p)==1 else Opq('err',tuple(sorted(map(repr,r.p)))),))
    return Agg(0,(r,))
def sub_of(own,c,i=0):
    """INLINE if this is the entry call of the function being proved; the node otherwise (must be a strict subterm)"""
    v=raw(c.ex,c.st,c.args[i])
    if own and isinstance(v,Lazy) and v.n=='e': return None
    if own and not isinstance(v,Lazy): raise Unsupported('recursion on a constructed expression')
    return v
# ------------------------------------------------------------------ contracts of the evaluators
def h_eval(own=False,strict=False):
    def h(c):
        v=sub_of(own,c)
        if v is None: return INLINE
        env=env_of(c.ex,c.st,c.args[1]); r=D(c.ex,c.st,v,env)
        if isinstance(r,Er) and not strict and zlit(c.ex,c.st,v):
            k=v.n if isinstance(v,Lazy) else 'c'
            if c.st.decide(F('b','zout(%s,%r)'%(k,env.terms()))): return Agg(0,(fin(fn('zval',k,*env.terms())),))
        return result(r)
    return re.compile(r'Expr::evaluate$'),h
def single_env(c): return Env([(c.deref(c.args[1]),c.args[2])])
def h_single(own=False):
    def h(c):
        v=sub_of(own,c)
        if v is None: return INLINE
        return result(D(c.ex,c.st,v,single_env(c)))
    return re.compile(r'Expr::evaluate_single_var$'),h
def h_some(fname,own=False):
    """Some(r) only where the expression is defined, and then r is its value"""
    def h(c):
        v=sub_of(own,c)
        if v is None: return INLINE
        if not isinstance(v,Lazy): raise Unsupported(fname+' on a constructed expression')
        if not c.st.decide(F('b','%s_some(%s,%r)'%(fname,v.n,c.deref(c.args[1])))): return Agg(0,())
        r=D(c.ex,c.st,v,single_env(c))
        if isinstance(r,Er) or r is NFV: raise X.Infeasible()
        return Agg(1,(r,))
    return re.compile(r'Expr::%s$'%fname),h
def LA(n,nm): return fn('linA',n,repr(nm))
def LB(n,nm): return fn('linB',n,repr(nm))
def h_coeffs(own=False):
    """Some((a,b)) only if the expression is defined for every value v of the variable and equals a*v+b"""
    def h(c):
        v=sub_of(own,c)
        if v is None: return INLINE
        if not isinstance(v,Lazy): raise Unsupported('linear coefficients of a constructed expression')
        nm=c.deref(c.args[1])
        if not c.st.decide(F('b','lin_some(%s,%r)'%(v.n,nm))): return Agg(0,())
        n=v.n; k0=repr(nm)
        def den(env):
            if [repr(k) for k,_ in env.e]!=[k0] or env.base is not None: return fin(XVAL(n,env))
            return fin(LA(n,nm)*tval(env.e[-1][1])+LB(n,nm))
        c.st.meta[('den',n)]=den; c.st.meta[('lin',n)]=nm
        return Agg(1,(Agg(0,(fin(LA(n,nm)),fin(LB(n,nm)))),))
    return re.compile(r'Expr::extract_linear_coefficients$'),h
def Dv(ex,st,v,env):
    """as D, with the facts recorded by h_coeffs"""
    for k in list(st.meta):
        if k[0]=='lin': 
            f=Not(XERR(k[1],env))
            st.assume(f)
    return D(ex,st,v,env)
# ------------------------------------------------------------------ numeric side: trees are nested lists
from check import Skip
EPS=mpmath.mpf(2)**-52
JACC=None      # accuracy of the elementary functions, where they are not the library's (relative to max(1,|value|))
class NErr(Exception):
    def __init__(self,k): self.k=k
def nlit0(t): return t[0]=='Mul' and any(x==['Const',0.0] for x in t[1:]) or (t[0] not in('Const','Var') and any(nlit0(x) for x in t[1:]))
def nd(t,env):
    if JACC:
        v,e=nd_(t,env); q=JACC.get(t[0],0)
        if t[0]=='Pow' and t[2][0]!='Const' : q=1e-10*(1+abs(nd_(t[2],env)[0]))
        elif t[0]=='Pow': q=1e-10*(1+abs(m.mpf(t[2][1])))
        return v,e+q*(max(1,abs(v)) if t[0] in('Ln','Sin','Cos') else abs(v))
    return nd_(t,env)
def nd_(t,env):
    """(value, error bound of a float evaluation); NErr where undefined; Skip where it cannot be judged"""
    o=t[0]
    if o=='Const': return m.mpf(t[1]),m.mpf(0)
    if o=='Var':
        if t[1] not in env: raise NErr('UndefinedVariable')
        return m.mpf(env[t[1]]),m.mpf(0)
    rs=[];er=None;sk=None
    for x in t[1:]:
        try: rs.append(nd(x,env))
        except NErr as e: er=er or e
        except Skip as s: sk=s
    if sk: raise sk
    if er: raise er
    a,ea=rs[0]
    if len(rs)==2: b,eb=rs[1]
    def ck(v,e):
        if isinstance(v,m.mpc): raise Skip()
        if abs(v)>m.mpf(10)**250 or (v!=0 and abs(v)<m.mpf(10)**-250) or not m.isfinite(v): raise Skip()
        return v,e+4*EPS*abs(v)
    if o=='Add': v=a+b; return v,ea+eb+EPS*(abs(a)+abs(b))
    if o=='Sub': v=a-b; return v,ea+eb+EPS*(abs(a)+abs(b))
    if o=='Mul': return ck(a*b,abs(a)*eb+abs(b)*ea+ea*eb) if a*b!=0 else (m.mpf(0),abs(a)*eb+abs(b)*ea+ea*eb)
    if o=='Div':
        if b==0 and eb==0: raise NErr('DivisionByZero')
        if abs(b)<=1000*eb: raise Skip()
        v=a/b; return ck(v,(ea+abs(v)*eb)/(abs(b)-eb)) if v else (v,ea/(abs(b)-eb))
    if o=='Pow':
        if abs(b)>m.mpf(10)**9 : raise Skip()
        if eb==0 and b==int(b):
            n=int(b)
            if n==0: return m.mpf(1),m.mpf(0)
            if a==0 and n>0 and ea==0: return m.mpf(0),m.mpf(0)
            if abs(a)<=1000*ea or a==0 or abs(n)>10**6: raise Skip()
            v=a**n; return ck(v,abs(v)*abs(n)*2*ea/abs(a)+abs(v)*EPS*8)
        if a<=1000*ea or a<=0: raise Skip()
        if abs(b)*m.log(a)>700: raise Skip()
        v=a**b; return ck(v,abs(v)*(2*abs(b)*ea/a+2*abs(m.log(a))*eb+EPS*(8+abs(b*m.log(a)))))
    if o=='Ln':
        if ea==0 and a<=0 or a+1000*ea<0: raise NErr('InvalidLogarithm')
        if a<=1000*ea: raise Skip()
        v=m.log(a); return v,2*ea/a+4*EPS*abs(v)
    if o=='Exp':
        if abs(a)>500: raise Skip()
        v=m.exp(a); return ck(v,v*(2*ea+4*EPS))
    if o=='Sqrt':
        if a<0 and a+1000*ea<0: raise NErr('InvalidSquareRoot')
        if a==0 and ea==0: return a,ea
        if a<=1000*ea: raise Skip()
        v=m.sqrt(a); return ck(v,ea/v)
    if o in('Sin','Cos'):
        if abs(a)>1e6: raise Skip()
        v=(m.sin if o=='Sin' else m.cos)(a); return v,ea+4*EPS
    if o=='Neg': return -a,ea
def close(real,v,e):
    if not isinstance(real,float) or real!=real or abs(real)==math.inf: return False
    return abs(m.mpf(real)-v)<=1000*e+abs(v)*m.mpf(10)**-12+m.mpf('1e-290')
def num_eval(t,env,lax=True):
    """specification of a compiled run returning Result<f64,_>"""
    try: v,e=nd(t,env)
    except NErr:
        if lax and nlit0(t): raise Skip()
        return lambda real,_: real=='Err'
    return lambda real,_: isinstance(real,tuple) and len(real)==1 and close(real[0],v,e)
def num_batch(t,envs):
    es=[]
    for env in envs:
        try: es.append(nd(t,env))
        except NErr:
            if nlit0(t): raise Skip()
            return lambda real,_: real=='Err'
    return lambda real,_: isinstance(real,tuple) and len(real)==1 and isinstance(real[0],list) and len(real[0])==len(es) and all(close(r,*x) for r,x in zip(real[0],es))

def h_variables(c):
    """some list of names (what it contains is the subject of its own contract)"""
    v=raw(c.ex,c.st,c.args[0]); k='vars(%s)'%getattr(v,'n','c')
    L=ivar('len(%s)'%k); c.st.assume(L.ge(0)); c.st.assume(L.le(1<<40))
    return VecV(InSeq(k,L,lambda i:StrV([('s','%s[%s]'%(k,show(i)))])))
HV=(re.compile(r'Expr::variables$'),h_variables)
