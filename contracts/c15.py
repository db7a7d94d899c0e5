from symb import *
import symb as _sy
# ------------------------------------------------------------------ code generation: every CLIF value stands for a term
# ('arg',i) ('f64const',v) ('fadd',a,b) ... over the arguments of the generated function; ('sub',n,env): a subexpression
# compiled by contract. The last return_ is what the function computes; calling its address evaluates that term.
VR_=['Const','Var','Add','Sub','Mul','Div','Pow','Neg','Ln','Exp','Sqrt','Sin','Cos']
def clv(*t): return Opq('clv',tuple(t))
def term(c,v):
    v=c.deref(v)
    if not(isinstance(v,Opq) and v.n=='clv'): raise Unsupported('CLIF value %r'%(v,))
    return v
OPS2=('fadd','fsub','fmul','fdiv','band','bor','bxor','isub','iadd','fmin','fmax','fcopysign')
OPS1=('sqrt','fneg','fabs','floor','ceil','nearest','trunc')
FNS=[]
def fnm(rx):
    def w(h): FNS.append((re.compile(rx),h)); return h
    return w
def opq(n): return lambda c:Opq(n,'')
for rx,h in((r'default_libcall_names$',opq('libcalls')),(r'^cranelift_jit::\w*.*JITBuilder::new$',lambda c:Agg(0,(Opq('jitbuilder',''),))),(r'JITModule::new$',opq('jitmodule')),
            (r'FunctionBuilderContext::new$',opq('fbctx')),(r'Instant::now$',opq('instant')),(r'AbiParam::new$',opq('abiparam')),
            (r'as cranelift_module::module::Module>::declare_function$',lambda c:Agg(0,(Opq('funcid',''),))),(r'MemFlags::new$',opq('memflags')),
            (r'JITModule::finalize_definitions$',lambda c:Agg(0,(UNIT,))),(r'FunctionBuilder::<.*>::create_block$',opq('block')),
            (r'^symbolic_math::jit::estimate_speedup$',lambda c:fin(P(c.st.fresh('speedup')))),
            (r'FunctionBuilder::<.*>::(switch_to_block|append_block_params_for_function_params|seal_all_blocks|finalize)$',lambda c:UNIT)):
    FNS.append((re.compile(rx),h))
@fnm(r'Instant::elapsed$')
def _(c): return Opq('duration','')
@fnm(r'Duration::as_micros$')
def _(c):
    v=c.st.fresh('micros','int'); v=v if isinstance(v,Poly) else P(v); c.st.assume(v.ge(0)); c.st.assume(v.lt(1<<62)); return v
@fnm(r'as cranelift_module::module::Module>::make_signature$')
def _(c): return Agg(0,(VecV(LSeq(())),VecV(LSeq(())),Opq('callconv','')))
@fnm(r'ir::function::Function::new$')
def _(c): return Opq('func','')
@fnm(r'Function as std::ops::DerefMut>::deref_mut$')
def _(c):
    cell=c.st.meta.get(('stencil',))
    if cell is None: cell=c.st.alloc(Agg(0,[UNIT]*24)); c.st.meta[('stencil',)]=cell
    return Ptr(cell)
@fnm(r'cranelift_codegen::context::Context::new$')
def _(c): return Agg(0,[UNIT]*24)
@fnm(r'FunctionBuilder::<.*>::new$')
def _(c):
    c.st.meta[('ret',)]=None
    return Opq('fb','')
def sigparams(c):
    cell=c.st.meta.get(('stencil',))
    if cell is None: raise Unsupported('function without a signature')
    for x in c.st.cells[cell].f:
        if isinstance(x,Agg) and len(x.f)==3 and isinstance(x.f[0],VecV):
            n=x.f[0].s.len.cval()
            if n is None: raise Unsupported('number of parameters')
            if x.f[1].s.len.cval()!=1: raise Unsupported('number of results')
            return int(n)
    raise Unsupported('function without a signature')
@fnm(r'FunctionBuilder::<.*>::block_params$')
def _(c): return Ptr(c.st.alloc(Arr([clv('arg',i) for i in range(sigparams(c))])))
@fnm(r'FunctionBuilder::<.*>::ins$')
def _(c): return Opq('ins','')
@fnm(r'as cranelift_module::module::Module>::define_function$')
def _(c):
    if c.st.meta.get(('ret',)) is None: raise Unsupported('function without a result')
    c.st.meta[('defined',)]=c.st.meta[('ret',)]
    return Agg(0,(UNIT,))
@fnm(r'JITModule::get_finalized_function$')
def _(c):
    n,t=c.st.meta[('defined',)]
    return Opq('code',(n,t))
@fnm(r'FuncInstBuilder.* as cranelift_codegen::ir::builder::InstBuilder<.*>>::(\w+)')
def _(c):
    op=re.search(r'InstBuilder<[^>]*>>::(\w+)',c.n).group(1); a=c.args[1:]
    if op=='return_':
        l=c.deref(a[0]); l=c.ex.as_seq(l) if not isinstance(l,(Arr,LSeq)) else l
        xs=l.e if isinstance(l,Arr) else [l.get(c.ex,c.st,const(i)) for i in range(int(l.len.cval()))]
        if len(xs)!=1: raise Unsupported('several results')
        c.st.meta[('ret',)]=(sigparams(c),term(c,xs[0])); return Opq('inst','')
    if op=='f64const': 
        v=a[0]
        return clv('f64const',v)
    if op in OPS2: return clv(op,term(c,a[0]),term(c,a[1]))
    if op in OPS1: return clv(op,term(c,a[0]))
    if op=='iconst': return clv(op,str(ty_bits(c,a[0])),P(a[1]))
    if op in('ushr_imm','ishl_imm','sshr_imm','band_imm','iadd_imm'): return clv(op,term(c,a[0]),P(a[1]))
    if op in('bor_imm','bxor_imm'): return clv(op[:-4],term(c,a[0]),clv('iconst','i64',P(a[1])))
    if op=='irsub_imm': return clv('isub',clv('iconst','i64',P(a[1])),term(c,a[0]))
    if op=='icmp_imm': return clv('icmp',cc_name(c,'icmp',a[0]),term(c,a[1]),clv('iconst','i64',P(a[2])))
    if op=='bitcast': return clv(op,str(ty_bits(c,a[0])),term(c,a[2]))
    if op in('fcvt_from_sint','fcvt_to_sint','fcvt_to_sint_sat','sextend','uextend','ireduce'): return clv(op,str(ty_bits(c,a[0])),term(c,a[1]))
    if op in('fcmp','icmp'): return clv(op,cc_name(c,op,a[0]),term(c,a[1]),term(c,a[2]))
    if op=='select': return clv(op,term(c,a[0]),term(c,a[1]),term(c,a[2]))
    raise Unsupported('instruction '+op)
CC={'fcmp':('ordered','unordered','eq','ne','one','ueq','lt','le','gt','ge','ult','ule','ugt','uge'),'icmp':('eq','ne','slt','sge','sgt','sle','ult','uge','ugt','ule')}
def cc_name(c,op,v):
    v=c.deref(v)
    if isinstance(v,Agg): return CC[op][v.v]
    raise Unsupported('condition code %r'%(v,))
def ty_bits(c,v):
    """cranelift types::Type(u16): I32 0x76, I64 0x77, F64 0x7b in this version"""
    v=c.deref(v)
    while isinstance(v,Agg): v=v.f[0]
    n=P(v).cval()
    r={0x74:'i8',0x75:'i16',0x76:'i32',0x77:'i64',0x7a:'f32',0x7b:'f64'}.get(int(n)) if n is not None else None
    if r is None: raise Unsupported('CLIF type %r'%(v,))
    return r
# ------------------------------------------------------------------ IEEE evaluation of a generated term (exact reals, as everywhere)
class Undef_(Exception): pass
def E(ex,st,t,args):
    def ev(v):
        o=v.d
        k=o[0]
        if k=='arg': return args[o[1]]
        if k=='f64const': return o[1]
        if k=='sub':
            r=D(ex,st,o[1],penv(o[2],ev))
            if isinstance(r,Er) or r is NFV: raise Undef_()
            return r
        if k in('fadd','fsub','fmul','fdiv'): 
            return ex.fbin(st,{'fadd':'Add','fsub':'Sub','fmul':'Mul','fdiv':'Div'}[k],ev(o[1]),ev(o[2]))
        if k=='sqrt': return ex.fsqrt(st,ev(o[1]))
        if k=='fneg': return ex.fneg(ev(o[1]))
        if k=='fabs':
            a=ev(o[1])
            if a.k=='fin': return a if st.decide(a.p.ge(0)) else fin(-a.p)
            return NAN if a.k=='nan' else PINF
        if k=='floor':
            a=ev(o[1]); return a if a.k!='fin' or a.p.isint() else fin(fn('floor',a.p))
        if k=='LN': return ex.fln(st,ev(o[1]))
        if k=='EXP': return ex.fexp(st,ev(o[1]))
        if k=='POW': return ex.fpow(st,ev(o[1]),ev(o[2]))
        if k in('SIN','COS'):
            a=ev(o[1]); return fin(fn(k.lower(),a.p)) if a.k=='fin' else NAN
        if k=='select': return ev(o[2]) if cond(o[1]) else ev(o[3])
        raise Unsupported('CLIF term '+k)
    def cond(v):
        o=v.d
        if o[0]=='fcmp':
            a,b=ev(o[2]),ev(o[3])
            op={'eq':'Eq','ne':'Ne','lt':'Lt','le':'Le','gt':'Gt','ge':'Ge'}.get(o[1])
            if op is None: raise Unsupported('fcmp '+o[1])
            return st.decide(ex.fcmp(op,a,b))
        raise Unsupported('CLIF condition '+o[0])
    return ev(t)
def penv(e,ev):
    """the environment at run time of a compile-time map name -> CLIF value over a base of constants"""
    es,base=e
    return Env([(k,ev(v) if isinstance(v,Opq) else v) for k,v in es],(base,None) if base else None)
_old=X.Exec.call_opaque
def call_opaque(self,st,o,args):
    if o.n=='code':
        n,t=o.d
        if getattr(self,'rawcode',None): return Opq('rawcode',(n,t))
        if n!=len(args): raise Unsupported('native code of %d arguments called with %d'%(n,len(args)))
        try: return E(self,st,t,[a if isinstance(a,Fl) else fin(P(a)) for a in args])
        except Undef_: return Opq('undefined','')
    return _old(self,st,o,args)
if not hasattr(X.Exec,'_c15'): X.Exec._c15=1; X.Exec.call_opaque=call_opaque
# ------------------------------------------------------------------ the compiler of an expression, by structural induction
def KN(n,env): return fn('known',*who(n),*env.terms(),sort='int').ge(1)
def known(ex,st,v,env):
    """every variable of the expression has a value"""
    x=node(ex,st,v)
    if isinstance(x,Lazy): return st.decide(KN(x.n,env))
    o=getattr(ex,'vnames',V_)[x.v]
    if o=='Const': return True
    if o=='Var': return lookup_in(ex,st,deref(ex,st,x.f[0]),env)
    r=[known(ex,st,y,env) for y in x.f]
    return all(r)
def lookup_in(ex,st,nm,env):
    for k,v in reversed(env.e):
        if st.decide(str_eq(None,nm,k)): return True
    if env.base is not None: return st.decide(mapin(env.base,nm))
    return False
class KEnv:
    """compile-time environment: names only (values are CLIF terms)"""
    def __init__(self,e,base): self.e=e; self.base=base
    def terms(self): return sorted(repr(k) for k,_ in self.e)+(['base:'+self.base[0]] if self.base else [])
def cenv(c,vm,cm=None):
    m_=c.deref(vm)
    if not isinstance(m_,MapV) or m_.base: raise Unsupported('variable map %r'%(m_,))
    es=[(c.deref(k),c.deref(v)) for k,v in m_.e]; base=None
    if cm is not None:
        k_=c.deref(cm)
        if not isinstance(k_,MapV): raise Unsupported('constants %r'%(k_,))
        b=nbase(k_.base); pre=[(c.deref(k),c.deref(v)) for k,v in k_.e if not(b and isinstance(c.deref(v),Fl) and c.deref(v)==mapval(b,c.deref(k)))]
        es=pre+es; base=b
        if b and b[1] is not None: raise Unsupported('constants base')
    return KEnv(es,base)
def h_gen(rx,nargs,leaf=False):
    def h(c):
        v=raw(c.ex,c.st,c.args[0 if nargs==2 else 1])
        if not leaf and isinstance(v,Lazy) and v.n in('e','g','symbolic.0') and not c.st.meta.get(('entered',v.n)):
            c.st.meta[('entered',v.n)]=True; return INLINE
        if isinstance(v,Agg): return INLINE
        if not isinstance(v,Lazy) or v.n in('e','g') and not leaf: raise Unsupported('code generation for a constructed expression')
        env=cenv(c,c.args[2],c.args[3] if nargs==4 else None)
        if not known(c.ex,c.st,v,env): return Agg(1,(Opq('jiterr',''),))
        return Agg(0,(clv('sub',v,(tuple(env.e),env.base[0] if env.base else '')),))
    return re.compile(rx),h
HG=[h_gen(r'generate_clif_from_expr_with_vars$',4),h_gen(r'JITRepr::generate_ir$',2)]
def h_prim(name,k):
    def h(c): return Agg(0,(clv(k,*[term(c,a) for a in c.args[1:]]),))
    return re.compile(r'::%s$'%name),h
PRIM=[h_prim('generate_accurate_ln_call','LN'),h_prim('generate_exp_call','EXP'),h_prim('generate_pow_call','POW'),h_prim('generate_sin_call','SIN'),h_prim('generate_cos_call','COS')]
def h_size(c):
    v=c.st.fresh('size','int'); v=v if isinstance(v,Poly) else P(v); c.st.assume(v.ge(0)); c.st.assume(v.le(1<<40)); return v
SIZE=[(re.compile(r'::estimate_expr_instructions$|Expr::complexity$|JITRepr::(estimate_complexity|count_constants)$'),h_size)]
def h_from(c):
    a=c.deref(c.args[0]); es=[]
    for p in a.e:
        k,v=p.f
        for i,(k2,_) in enumerate(es):
            if c.st.decide(str_eq(None,c.deref(k),c.deref(k2))): es[i]=(k2,v); break
        else: es.append((k,v))
    return MapV(es)
MLEN=[(re.compile(r'HashMap<std::string::String, f64> as std::convert::From<\['),h_from),(re.compile(r'HashMap::<std::string::String, f64>::len$'),h_size)]
ALL=FNS+HG+PRIM+SIZE+MLEN
# ------------------------------------------------------------------ what compiled code returns
def canon(ex,st,env):
    es=[]
    for k,v in env.e:
        for i,(k2,_) in enumerate(es):
            if st.decide(str_eq(None,k,k2)): es[i]=(k2,v); break
        else: es.append((k,v))
    return type(env)(es,env.base)
def s_jit(mk,some_=False,opt=None):
    def sym(ex,st,e,*a):
        env=canon(ex,st,mk(*a))
        if not known(ex,st,e,KEnv(env.e,env.base)): return Err_()
        r=D(ex,st,e,env)
        if isinstance(r,Er) or r is NFV: return ANY
        return Ok_(Some(r)) if some_ else Ok_(r)
    return sym
ACC={'Ln':1e-10,'Exp':1e-10,'Sin':1e-10,'Cos':1e-10}
def ndj(t,env):
    """nd with the accuracy of the generated elementary functions"""
    _sy.JACC=ACC
    try: return nd(t,env)
    finally: _sy.JACC=None
def tvars(t): return {t[1]} if t[0]=='Var' else set() if t[0]=='Const' else set().union(*[tvars(x) for x in t[1:]])
def closej(real,v,e): return isinstance(real,float) and real==real and abs(real)!=math.inf and abs(m.mpf(real)-v)<=1000*e+abs(v)*m.mpf(10)**-9+m.mpf('1e-290')
def n_jit(mk,some_=False):
    def num(g):
        env=mk(g); t=g['e']
        if tvars(t)-set(env): return lambda real,_: real=='Err'
        try: v,e=ndj(t,env)
        except NErr: raise Skip()
        def f(real,_):
            if not(isinstance(real,tuple) and len(real)==1): return False
            r=real[0]
            if some_:
                if not(isinstance(r,tuple) and len(r)==1): return False
                r=r[0]
            return closej(r,v,e)
        return f
    return num
def setupE(ex,st,args=None,view=None): use_maps(ex,st)
def setupR(ex,st,args=None,view=None): use_maps(ex,st); ex.vnames=VR_
KE=dict(setup=setupE,n=120,timeout=300,fns=ALL)
KR=dict(setup=setupR,n=120,timeout=300,fns=ALL)
def dep(sym,num): return lambda *a:Dep(lambda ex,st:sym(ex,st,*a),num)
def J(name,names,vals,title,base='consts',some_=False,K=KE,**k):
    """names: argument names holding variable names (or literal strings) in binding order, vals: argument names of the numbers"""
    order=None
    def mk(*a):
        g=dict(zip(J.sig[name],a)); e=[]
        for n,v in zip(names,vals): e.append((g[n] if n in g else StrV([n]),fin(P(g[v]))))
        return Env(e,(base,None) if base else None)
    def mkn(g):
        d=dict(g[base]) if base else {}
        for n,v in zip(names,vals): d[g[n] if n in g else n]=g[v]
        return d
    if len(names)>2:        # aliasing of argument names is covered by the two-argument contracts
        sup=(k.get('setup') or K['setup'])
        def setup(ex,st,args,view):
            sup(ex,st,args,view); g=dict(zip(J.sig[name],view[1:])); ns=[g[n] if n in g else StrV([n]) for n in names]
            for i in range(len(ns)):
                for j in range(i): st.assume(Not(str_eq(None,ns[i],ns[j])))
        k=dict(k,setup=setup)
    C('jit_'+name,'c15_'+name,dep(s_jit(mk,some_),n_jit(mkn,some_)),title=title,**dict(K,**k))
J.sig={'single':('x','consts','a'),'param':('x','t','consts','a','b'),'params2':('x','t','u','consts','a','b','c'),'params3':('x','t','u','w','consts','a','b','c','d'),
 'tsingle':('x','a'),'tparam':('x','t','a','b'),'tparams':('x','t','u','a','b','c'),'tsig':('x','t','a','b'),'tconst':('x','k','v','a'),
 'batch0':('consts',),'batch2':('x','t','consts','a','b'),'batch3':('x','t','u','consts','a','b','c'),'batch4':('x','y','t','u','consts','a','b','c','d'),
 'batch6':('x','consts','v0','v1','v2','v3','v4','v5'),'batch8':('x','consts','v0','v1','v2','v3','v4','v5','v6','v7'),
 'bposterior':('x','t','consts','a','b'),'blikelihood':('x','t','consts','a','b'),'bprior':('t','u','consts','a','b')}
J('single',('x',),('a',),'compiled one-argument function = value of the expression')
J('param',('x','t'),('a','b'),'compiled f(x,theta) = value of the expression')
J('params2',('x','t','u'),('a','b','c'),'compiled f(x,theta1,theta2) = value of the expression')
J('params3',('x','t','u','w'),('a','b','c','d'),'compiled f(x,theta1..3) = value of the expression')
J('batch0',(),(),'compiled constant, called with no arguments')
J('batch2',('x','t'),('a','b'),'call_batch on one data and one parameter value')
J('batch3',('x','t','u'),('a','b','c'),'call_batch on one data and two parameter values')
J('batch4',('x','y','t','u'),('a','b','c','d'),'call_batch on two data and two parameter values')
J('batch6',('x','b','c','t','u','w'),('v0','v1','v2','v3','v4','v5'),'call_batch on three data and three parameter values')
J('batch8',('a','b','c','t','u','w','z','x'),('v0','v1','v2','v3','v4','v5','v6','v7'),'call_batch on three data and five parameter values')
J('bposterior',('x','t'),('a','b'),'compiled posterior = value of the expression',some_=True)
J('blikelihood',('x','t'),('a','b'),'compiled likelihood = value of the expression',some_=True)
J('bprior',('t','u'),('a','b'),'compiled prior = value of the expression',some_=True)
J('tsingle',('x',),('a',),'final-tagless: compile_single_var',base=None,K=KR)
J('tparam',('x','t'),('a','b'),'final-tagless: compile_data_param',base=None,K=KR)
J('tparams',('x','t','u'),('a','b','c'),'final-tagless: compile_data_params',base=None,K=KR)
J('tsig',('x','t'),('a','b'),'final-tagless: compile_with_signature',base=None,K=KR)
J('tconst',('x','k'),('a','v'),'final-tagless: compile_with_constants (a constant overrides an argument of its name)',base=None,K=KR)
C('jit_wrongcall','c15_wrongcall',lambda e,x,t,consts,a:Dep(lambda ex,st:PANIC if known(ex,st,e,canon(ex,st,KEnv([(x,None),(t,None)],('consts',None)))) else Err_(),lambda g:(lambda real,_:real==('Err' if tvars(g['e'])-{g['x'],g['t']}-set(g['consts']) else 'PANIC'))),title='calling a two-argument function with one argument is refused',**KE)

# ---- custom log-densities: the parameters as constants, the first variable that is not a parameter as the argument
def vnames(n): return [StrV([('s','var%d'%i)]) for i in range(n)]
def h_vars(n): return (re.compile(r'Expr::variables$'),lambda c:VecV(LSeq(vnames(n))))
class REnv(Env):
    """an environment some of whose base entries have been asked for already"""
    def __init__(self,e,base,rem): self.core=Env(e,base); self.e=rem+list(e); self.base=base
    def terms(self): return self.core.terms()
class KREnv(KEnv):
    def __init__(self,r): self.r=r; self.e=r.e; self.base=r.base
    def terms(self): return KEnv(self.r.core.e,self.base).terms()
def custom_env(ex,st,n,a):
    b=('params',None); ns=vnames(n); rem=[]
    for w in ns:
        if not st.decide(mapin(b,w)): return REnv([(w,fin(P(a)))],b,rem)
        rem.append((w,mapval(b,w)))
    return REnv([],b,rem)
def s_custom(n):
    def sym(ex,st,e,params,a):
        env=custom_env(ex,st,n,a)
        if not known(ex,st,e,KREnv(env)): return Err_()
        r=D(ex,st,e,env)
        return ANY if isinstance(r,Er) or r is NFV else Ok_(r)
    return sym
def n_custom(g):
    free=[x for x in sorted(tvars(g['e'])) if x not in g['params']]
    if len(free)>1: return lambda real,_: real=='Err'
    return n_jit(lambda g:dict(g['params'],**{x:g['a'] for x in free}))(dict(g,e=g['e']))
def setupC(n):
    def f(ex,st,args=None,view=None):
        use_maps(ex,st); ns=vnames(n)
        for i in range(n):
            for j in range(i): st.assume(Not(str_eq(None,ns[i],ns[j])))
    return f
for n in range(4):
    C('jit_custom%d'%n,'c15_custom',dep(s_custom(n),n_custom),title='compile_custom_expression: the first free variable is the argument (%d distinct names in the expression)'%n,**dict(KE,setup=setupC(n),fns=[h_vars(n)]+ALL,bounded='expressions with %d distinct variable names (any size)'%n,n=120 if n==2 else 1))
    C('jit_customjit%d'%n,'c15_customjit',dep(s_custom(n),n_custom),title='compile_custom_jit of a distribution is compile_custom_expression of its formula (%d distinct names)'%n,**dict(KE,setup=setupC(n),fns=[h_vars(n)]+ALL,bounded='expressions with %d distinct variable names (any size)'%n,n=120 if n==2 else 1))

# ------------------------------------------------------------------ the generated elementary functions
import clif as CF, os
DBG=os.environ.get('CLIFDBG')
from fractions import Fraction as Fr
mpm=CF.mpmath
def prim(name,analyse):
    """name: root; analyse(term) -> [(label,bool)]"""
    def setup(ex,st,args=None,view=None): use_maps(ex,st); ex.rawcode=True
    def f(ex,st,v):
        v=st.lazy.get(v.n,v) if isinstance(v,Lazy) else v
        if not(isinstance(v,Agg) and v.v==0 and isinstance(v.f[0],Opq) and v.f[0].n=='rawcode'): return [('compiled code',False)]
        n,t=v.f[0].d
        with mpm.workdps(75):
            try: return analyse(t)
            except CF.Unk as e: raise Unsupported('CLIF term: %s'%e)
    return setup,lambda *a:Pred(f)
def same(a,b): return a==b or a!=a and b!=b
def near(a,b,tol): return same(a,b) or abs(a-b)<=tol*max(1.0,abs(b))
def at(t,pts,ref,tol,rel=False):
    r=[]
    for x in pts:
        y=CF.concrete(t,[x]); w=ref(x)
        r.append(('at %r'%x,(same(y,w) or abs(y-w)<=tol*(abs(w) if rel else max(1.0,abs(w))),'evaluation','%r instead of %r'%(y,w))))
    return r
def err(e,tol):
    if DBG: print('worst',mpm.nstr(e,5))
    return bool(e<=tol),'taylor model','error bound %s exceeds %g'%(mpm.nstr(e,6),tol)
def sgn(piece): return '(%s,%s)'%tuple('%.6g'%float(q) if abs(q)<Fr(2)**1024 else 'inf' if q>0 else '-inf' for q in piece)
BIG=Fr(2)**1024; MINP=Fr(2)**-1022
def an_ln(t):
    L2=mpm.log(2)
    def target(cell,v,m0,h):
        if isinstance(v,float): return mpm.inf
        if v.K is not None: raise CF.Unk('result of ln')
        dev=(abs(mpm.mpf(v.b)/CF.ONE_-L2)+mpm.mpf(v.rb)/CF.ONE_) if cell.Mlo!=cell.Mhi else 0
        d=v.a-CF.t_ln(m0,h)
        if cell.Mlo==cell.Mhi: d=CF.TM([cell.flat(v).c[0]]+cell.flat(v).c[1:],cell.flat(v).r,v.a.h)-CF.t_ln(m0,h)-CF.cst(Fr(CF.mpfx(cell.Mlo*L2),CF.ONE_),v.a.h)
        return CF.bound(d)+dev*1100
    def piece(pc):
        if pc[1]<=0:
            v=CF.Cell('per',pc,CF.ONE_//8,CF.var(Fr(1),CF.ONE_//8),mpm.mpf(1),1,0,-1,0,None).val(t)
            return isinstance(v,float) and v!=v,'taylor model','not NaN'
        return err(CF.dyadic(t,pc,target),1e-11)
    ps,pts=CF.by_piece(t,[-BIG,Fr(0),MINP,Fr(1),BIG],piece)
    ref=lambda x: math.nan if x!=x or x<0 else -math.inf if x==0 else math.inf if x==math.inf else float(mpm.log(x))
    return [('ln on '+sgn(p_),ok) for p_,ok in ps]+at(t,[float(q) for q in pts if abs(q)<BIG]+[-0.0,-1.0,-math.inf,math.inf,math.nan,5e-324,-5e-324,1.7976931348623157e308],ref,1e-11)
def an_exp(t):
    L2=mpm.log(2)
    def target(cell,v,q,j,s0,h):
        if isinstance(v,float): return mpm.inf
        T=CF.t_exp(s0,h); lo=mpm.mpf(T.rng()[0])/CF.ONE_
        if q==0: return CF.bound(cell.flat(v)-T*CF.cst(Fr(2)**j,v.a.h))/(lo*mpm.mpf(2)**j)
        if v.K is None or (v.K[0]!=j or v.K[1]!=q): return mpm.inf
        return CF.bound(v.a-T)/lo
    def piece(pc):
        lo,hi=(float(q) if abs(q)<BIG else math.inf if q>0 else -math.inf for q in pc)
        if hi<=-708.0 or lo>=709.7:
            if lo>=709.7827128933841 or hi<=-708.3964185322642:
                v=CF.Cell('per',pc,CF.ONE_//8,CF.var(Fr(1),CF.ONE_//8),mpm.mpf(1),1,0,-1,0,None).val(t)
                return v==math.inf if lo>0 else not isinstance(v,float) and v.q==0,'taylor model','%r'%v
            return None
        return err(CF.periodic(t,pc,L2,target),1e-11)
    ps,pts=CF.by_piece(t,[-BIG,Fr(-708.3964185322642),Fr(-708),Fr(709.7),Fr(709.7827128933841),BIG],piece)
    def ref(x):
        if x!=x: return x
        return math.inf if x>709.7827128933841 else 0.0 if x<-745 else float(mpm.exp(x))
    return [('exp on '+sgn(p_),ok) for p_,ok in ps if ok is not None]+at(t,[0.0,-0.0,1.0,-1.0,math.inf,-math.inf,-1e9,1e9,1e300,-1e300,math.nan,-709.0,-745.0,710.0,-708.0,709.0]+[k*0.6931471805599453 for k in range(-30,31)],ref,1e-11)
def an_trig(phase):
    def an(t):
        def target(cell,v,q,j,s0,h):
            if isinstance(v,float) or v.K is not None: return mpm.inf
            if q not in(0,4): raise CF.Unk('quadrant')
            return CF.bound(cell.flat(v)-CF.t_sin(s0,h,j+phase))
        ps,pts=CF.by_piece(t,[Fr(-10**6),Fr(0),Fr(10**6)],lambda pc:err(CF.periodic(t,pc,mpm.pi/2,target),1e-10))
        ref=lambda x:float(mpm.sin(mpm.mpf(x)) if phase==0 else mpm.cos(mpm.mpf(x))) if abs(x)<math.inf else math.nan
        return [(('sin','cos')[phase]+' on '+sgn(p_),ok) for p_,ok in ps]+at(t,[0.0,-0.0,math.inf,-math.inf,math.nan]+[k*math.pi/8 for k in range(-40,41)],ref,1e-10)
    return an
def mkprim(nm,an,gen,ref,tol,title):
    su,post=prim(nm,an)
    def num(x): return lambda real,_:isinstance(real,tuple) and len(real)==1 and (same(real[0],ref(x)) or abs(real[0]-ref(x))<=tol(x,ref(x)))
    C('jit_gen_'+nm,'c15_'+nm,lambda x:Dep(lambda ex,st:post().f and post(),lambda g:num(g['x'])),title=title,gen={'x':gen},setup=su,n=400,timeout=300,fns=FNS+SIZE+MLEN)
def rexp(x): return float(x) if x!=x else math.inf if x>709.782 else 0.0 if x<-708.3 else math.exp(x)
def rln(x): return math.nan if x!=x or x<0 else -math.inf if x==0 else math.log(x)
G_ANY=lambda r:r.choice([0.0,-0.0,1.0,-1.0,2.0,0.5,math.inf,-math.inf,math.nan,5e-324,1e-310,r.gauss(0,1),r.gauss(0,100),math.exp(r.gauss(0,200)),1e300])
G_TRIG=lambda r:r.choice([0.0,1.0,-1.0,math.inf,math.nan,r.gauss(0,1),r.gauss(0,100),r.gauss(0,1e5),r.randrange(-50,50)*math.pi/4])
mkprim('ln',an_ln,G_ANY,rln,lambda x,w:1.05e-11+1e-15*abs(w),'generated ln: |code-ln x| <= 1e-11 for every positive x, special values as documented')
mkprim('exp',an_exp,lambda r:r.choice([G_ANY(r),r.uniform(-700,700)]),rexp,lambda x,w:1e-290+abs(w)*(1.05e-11+5e-16*abs(x)),'generated exp: relative error <= 1e-11 on [-708,709.7], +inf above, 0 below')
mkprim('sin',an_trig(0),G_TRIG,lambda x:math.sin(x) if abs(x)<math.inf else math.nan,lambda x,w:1.05e-10+4e-16*abs(x),'generated sin: |code-sin x| <= 1e-10 for |x| <= 10^6')
mkprim('cos',an_trig(1),G_TRIG,lambda x:math.cos(x) if abs(x)<math.inf else math.nan,lambda x,w:1.05e-10+4e-16*abs(x),'generated cos: |code-cos x| <= 1e-10 for |x| <= 10^6')

def s_pow(ex,st,x,y):
    y=P(y); x=P(x)
    if st.decide(F('eq',y)): return Ok_(fin(ONE))
    if st.decide(x.gt(0)): return Ok_(ex.fexp(st,fin(y*ln(x))))
    if st.decide(F('eq',x)): return Ok_(fin(ZERO) if st.decide(y.gt(0)) else PINF)
    if not st.decide(F('eq',fn('floor',y)-y)): return Ok_(NAN)
    r=ex.fexp(st,fin(y*ln(-x)))
    return Ok_(r if st.decide(F('eq',fn('floor',y/2)-y/2)) else ex.fneg(r))
def n_pow(g):
    x,y=g['x'],g['y']
    def f(real,_):
        if not(isinstance(real,tuple) and len(real)==1): return False
        try: w=1.0 if y==0 else math.nan if x<0 and y!=math.floor(y) else math.inf if x==0 and y<0 else math.pow(x,y)
        except OverflowError: w=math.inf if x>0 or y%2==0 else -math.inf
        r=real[0]
        if w!=w: return r!=r
        if abs(w)<1e-307: return abs(r)<1e-307
        return r==w or abs(r-w)<=abs(w)*(1e-9+1e-13*abs(y)*100)
    return f
C('jit_gen_pow','c15_pow',lambda x,y:Dep(lambda ex,st:s_pow(ex,st,x,y),n_pow),title='generated x^y: sign and special cases over exp(y*ln|x|)',
  gen={'x':lambda r:r.choice([0.0,1.0,-1.0,2.0,-2.0,r.gauss(0,3),math.exp(r.gauss(0,5))]),'y':lambda r:r.choice([0.0,1.0,-1.0,2.0,3.0,-2.0,-3.0,.5,-.5,float(r.randrange(-20,20)),r.gauss(0,3)])},
  setup=setupE,n=400,timeout=300,fns=FNS+[p_ for p_ in PRIM if 'pow' not in p_[0].pattern]+SIZE+MLEN)
def s_mixed(ex,st,e,g,x,t,a,b):
    env=canon(ex,st,Env([(x,fin(P(a))),(t,fin(P(b)))],('consts',None))); k=KEnv(env.e,env.base)
    if not known(ex,st,e,k) or not known(ex,st,g,k): return Err_()
    r=[]
    for v in(e,g):
        w=D(ex,st,v,env); r.append(ANY if isinstance(w,Er) or w is NFV else w)
    return Ok_((Some(r[0]),Some(r[1]),None))
def n_mixed(d):
    env=dict(d['consts'],**{d['x']:d['a'],d['t']:d['b']})
    if (tvars(d['e'])|tvars(d['g']))-set(env): return lambda real,_:real=='Err'
    try: w=[ndj(d[k],env) for k in('e','g')]
    except NErr: raise Skip()
    def f(real,_):
        if not(isinstance(real,tuple) and len(real)==1 and isinstance(real[0],(tuple,list)) and len(real[0])==3): return False
        p,l,n=real[0]
        ok=lambda o,w_:isinstance(o,tuple) and len(o)==1 and closej(o[0],*w_)
        return ok(p,w[0]) and ok(l,w[1]) and n in(None,'None')
    return f
C('jit_bmixed','c15_bmixed',lambda e,g,x,t,consts,a,b:Dep(lambda ex,st:s_mixed(ex,st,e,g,x,t,a,b),lambda d:n_mixed(d)),title='posterior and likelihood of one optimizer stay apart; a prior never compiled is absent',**dict(KE,fns=FNS+[h_gen(r'generate_clif_from_expr_with_vars$',4,True)]+PRIM+SIZE+MLEN))
