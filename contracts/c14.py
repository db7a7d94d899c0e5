from symb import *
_n=len(CONTRACTS); import c13 as _s; del CONTRACTS[_n:]      # the contract of simplify itself is property C13
def dep(sym,num=None): return lambda *a:Dep(lambda ex,st:sym(ex,st,*a),num)
# ---- the invariant of the caches. A key is the text of its expression (and variables); it determines them when it is
# their Debug rendering (contract `key`: every constructor prints its own name and all of its fields)
def dbg(k):
    """the value a key string renders, if it renders exactly one value with Debug"""
    v=[x for x in k.s if not isinstance(x,str)] if isinstance(k,StrV) else []
    return v[0][1] if len(v)==1 and v[0][0]=='d' and v[0][2]=='?' else None
def setup(ex,st,args,view):
    use_maps(ex,st); base0=ex.mapspec
    def mapspec(st,base,key):
        b=nbase(base)
        if b[0]=='cache:simp':      # a stored simplification denotes what its key denotes, wherever that is defined
            e=dbg(key); t=Lazy(raw(ex,st,args[0]).t if isinstance(raw(ex,st,args[0]),Lazy) else None,'c%d(%s)'%(b[1].cval(),e.n if isinstance(e,Lazy) else 'any'))
            if isinstance(e,Lazy): st.meta[('denotes',t.n)]=e
            return t
        if b[0]=='cache:eval':
            e,v=[dbg(deref(ex,st,x)) for x in key.f]
            if not isinstance(e,Lazy) or not isinstance(v,MapV): return fin(fn('unrelated',b[1]))
            r=evaluated(ex,st,e,env_of(ex,st,v))
            if r.v==1: raise X.Infeasible()
            return r.f[0]
        return base0(st,base,key)
    ex.mapspec=mapspec
    def lockspec(st,nm,k):
        nm=nm.split('::')[-1]
        if nm=='SIMPLIFICATION_CACHE': return MapV((),('cache:simp',const(k)))
        if nm=='EVALUATION_CACHE': return MapV((),('cache:eval',const(k)))
        if nm=='CACHE_STATS':
            vs=[]
            for f in STATS_:
                p=ivar('%s@%d'%(f,k)); st.assume(p.ge(0)); st.assume(p.lt(1<<62)); vs.append(p)
            return Agg(0,vs)
        raise Unsupported('lock of '+nm)
    ex.lockspec=lockspec
STATS_=('sh','sm','eh','em')
def evaluated(ex,st,e,env):
    r=D(ex,st,e,env)
    if isinstance(r,Er) and zlit(ex,st,e):
        if st.decide(F('b','zout(%s,%r)'%(e.n,env.terms()))): return Agg(0,(fin(fn('zval',e.n,*env.terms())),))
    return result(r)
def locks(st): return [(k[1],)+st.meta[k] for k in sorted(x for x in st.meta if x[0]=='lock')]
def kept(ex,st):
    """what was written into the caches satisfies their invariant; every call is counted once"""
    out=[]; hits=misses=0; counted=False
    for k,nm,cell in locks(st):
        nm=nm.split('::')[-1]; m=st.cells[cell]
        if nm=='CACHE_STATS':
            counted=True
            d=[P(x)-ivar('%s@%d'%(f,k)) for f,x in zip(STATS_,m.f)]; out.append((k,d)); continue
        for key,v in m.e:
            key=deref(ex,st,key)
            if nm=='SIMPLIFICATION_CACHE':
                e=dbg(key)
                if not isinstance(e,Lazy): yield ('the key of the simplification cache determines the expression',False); continue
                v=raw(ex,st,v); s=st.meta.get(('denotes',v.n)) if isinstance(v,Lazy) else None
                yield 'the stored simplification is that of its key',isinstance(s,Lazy) and s.n==e.n or isinstance(v,Lazy) and v.n==e.n
            else:
                e,vs=[dbg(deref(ex,st,x)) for x in key.f]
                if not isinstance(e,Lazy) or not isinstance(vs,MapV): yield 'the key of the evaluation cache determines expression and variables',False; continue
                r=evaluated(ex,st,e,env_of(ex,st,vs))
                if r.v==1 or r.f[0].k!='fin': yield 'only values are stored',r.v==0; continue
                yield 'the stored value is that of its key',(v.p,r.f[0].p)
def result_and_state(f,kind):
    def sym(ex,st,e,*a):
        want=f(ex,st,e,*a)
        def g(ex,st,val):
            out=list(kept(ex,st))
            out+=counts(ex,st,kind)
            if want is ANY: return out
            if isinstance(want,Err_): return out+[('an error',val.v==1)]
            x=val.f[0] if val.v==0 else None
            if x is None or x.k!=want.v.k: return out+[('a value of the right kind',False)]
            return out+([('value',(x.p,want.v.p))] if x.k=='fin' else [])
        return Pred(g)
    return sym
def counts(ex,st,kind):
    L=[x for x in locks(st)]; hit=None; d=[ZERO]*4; n=0
    for k,nm,cell in L:
        if nm.endswith('CACHE_STATS'):
            d=[x+P(y)-ivar('%s@%d'%(f,k)) for x,f,y in zip(d,STATS_,st.cells[cell].f)]; n+=1
    o=2*(kind=='eval'); out=[]
    if n==0 : return [('statistics are only skipped if poisoned',st.decide(F('b','poisoned(symbolic_math::expr::CACHE_STATS)')))]
    for j in range(4):
        if j not in(o,o+1): out.append(('the other counters are untouched',(d[j],ZERO)))
    # a hit is an answer taken from the cache
    hit=any(nm.endswith('_CACHE') and any(True for _ in st.cells[c].e) and not wrote(st,k) for k,nm,c in L)
    return out+[('counted once',(d[o]+d[o+1],P(1))),('counted as what it was',(d[o],P(1 if hit else 0)))]
def wrote(st,k): return ('computed',) in st.meta
def computed(h):
    def g(c): c.st.meta[('computed',)]=True; return h(c)
    return g
def h_simplify(c):
    v=raw(c.ex,c.st,c.args[0]); s=Lazy(v.t,'s(%s)'%v.n)
    c.st.meta[('computed',)]=True; c.st.meta[('denotes',s.n)]=v; return s
def h_final(c):
    ex,st=c.ex,c.st; v=raw(ex,st,c.args[0]); e=st.meta.get(('denotes',v.n)) if isinstance(v,Lazy) else None
    r=D(ex,st,e if e is not None else v,env_of(ex,st,c.args[1]))
    if e is not None and (isinstance(r,Er) or r is NFV or r.k!='fin'): return Opq('undef','')
    return result(r)
HF=(_s.HF[0],h_final)
HSc=(_s.HS0[0],h_simplify)
def h_ev(c):
    """the plain evaluation, and the final evaluation of a simplified expression"""
    c.st.meta[('computed',)]=True
    v=raw(c.ex,c.st,c.args[0]); return evaluated(c.ex,c.st,v,env_of(c.ex,c.st,c.args[1]))
def s_eval(ex,st,e,vars_):
    r=D(ex,st,e,Env([],('vars',None)))
    if isinstance(r,Er) and zlit(ex,st,e) or r is NFV: return ANY
    return Err_() if isinstance(r,Er) else Ok_(r)
def s_simp(ex,st,e,vars_):
    r=D(ex,st,e,Env([],('vars',None)))
    if isinstance(r,Er) or r is NFV or r.k!='fin': return ANY
    return Ok_(r)
K=dict(setup=setup,n=150,timeout=300)
C('eval','c14_eval',dep(result_and_state(s_eval,'eval'),lambda g:num_eval(g['e'],g['vars'])),fns=[(re.compile(r'Expr::evaluate$'),h_ev)],title='evaluate_cached returns what evaluate returns, whatever the cache holds',**K)
C('simp','c14_simp',dep(result_and_state(s_simp,'simp'),_s.n_simp),fns=[HSc,HF],title='simplify_cached keeps the value, whatever the cache holds',**K)
# ---- several calls in a row, starting from empty caches: names that look like other expressions
TXT=['2','(x + y)','x','ln(x)','(-x)','1','y','(x * y)']
def disp(t):
    o=t[0]
    if o=='Var': return t[1]
    if o=='Const':
        v=t[1]; return str(int(v)) if v==int(v) and abs(v)<1e15 else repr(v)
    x=[disp(y) for y in t[1:]]
    b={'Add':'+','Sub':'-','Mul':'*','Div':'/'}
    return '(%s %s %s)'%(x[0],b[o],x[1]) if o in b else '(%s^%s)'%tuple(x) if o=='Pow' else '(-%s)'%x[0] if o=='Neg' else '%s(%s)'%(o.lower(),x[0])
from check import rnd_expr
def g_a(r): return rnd_expr(r,[],r.choice([0,1,1,2,3]))
def g_b(r,prev):
    a=prev[0]; z=r.random()
    if z<.5: return ['Var',disp(a)]
    if z<.7: return a
    return g_a(r)
def g_vars(r,prev):
    d={k:r.choice([0.5,1.5,2.5,-1.0]) for k in('x','y','z')}
    for t in prev[:2]:
        if t[0]=='Var': d[t[1]]=r.gauss(0,2)
    return d
def n_evals(g):
    fs=[num_eval(t,e) for t,e in((g['a'],g['vars']),(g['b'],g['vars']),(g['a'],g['other']),(g['a'],g['vars']))]
    return lambda real,_: isinstance(real,tuple) and len(real)==4 and all(f(r,_) for f,r in zip(fs,real))
def n_simps(g):
    def one(t):
        try: v,e=nd(t,g['vars'])
        except NErr: return lambda r:True
        return lambda r: isinstance(r,tuple) and len(r)==1 and close(r[0],v,e)
    fs=[one(g['a']),one(g['b']),one(g['a'])]
    return lambda real,_: isinstance(real,tuple) and len(real)==3 and all(f(r) for f,r in zip(fs,real))
def s_seq(es):
    def sym(ex,st,a,b,*envs):
        ws=[]
        for k,i in es:
            r=D(ex,st,(a,b)[k],env_of(ex,st,envs[i])); ws.append(r)
        def f(ex,st,val):
            out=list(kept(ex,st))
            for r,v in zip(ws,val.f):
                if r is NFV: continue
                if isinstance(r,Er): 
                    if 'simp' not in sym.kind: out.append(('an error',isinstance(v,Agg) and v.v==1))
                    continue
                ok_=isinstance(v,Agg) and v.v==0 and v.f[0].k==r.k
                out.append(('a value',ok_))
                if ok_ and r.k=='fin': out.append(('value',(v.f[0].p,r.p)))
            return out
        return Pred(f)
    return sym
def nozlit(ex,st,args,view): setup(ex,st,args,view); st.assume(Not(F('b','zlit(a)'))); st.assume(Not(F('b','zlit(b)'))); [st.assume(Not(F('b','poisoned(symbolic_math::expr::%s)'%x))) for x in('SIMPLIFICATION_CACHE','EVALUATION_CACHE','CACHE_STATS')]
ev=s_seq([(0,0),(1,0),(0,1),(0,0)]); ev.kind='eval'; sv=s_seq([(0,0),(1,0),(0,0)]); sv.kind='simp'
G=dict(a=g_a,b=g_b,vars=g_vars,other=lambda r,prev:{k:r.gauss(0,1) for k in('x','y','z')} if r.random()<.6 else {k:v+r.choice([1e-6,1e-8,3e-10]) for k,v in prev[2].items()})
KS=dict(K,setup=nozlit,gen=G,n=200)
C('evals','c14_evals',dep(ev,n_evals),fns=[(re.compile(r'Expr::evaluate$'),h_ev)],title='a sequence of cached evaluations',**KS)
C('simps','c14_simps',dep(sv,n_simps),fns=[HSc,HF],title='a sequence of cached simplifications',**KS)
# ---- the key: Debug of an expression prints the constructor and every field (core::fmt prints them apart; assumed)
def h_tuple(c):
    n=deref(c.ex,c.st,c.args[1]); fs=[]
    for x in c.args[2:]:
        if isinstance(x,DynPtr): x=x.p if hasattr(x,'p') else x
        fs.append(x)
    c.st.meta[('fmt',sum(1 for k in c.st.meta if k[0]=='fmt'))]=(n,fs); return Opq('fmtres','')
def s_key(ex,st,e,f):
    x=node(ex,st,e)
    if isinstance(x,Lazy): return Pred(lambda ex,st,val:[('the constructor is inspected',False)])
    def g(ex,st,val):
        r=[st.meta[k] for k in sorted(k for k in st.meta if k[0]=='fmt')]
        if len(r)!=1 or not isinstance(r[0][0],StrV): return [('one tuple is printed',False)]
        nm,fs=r[0]
        def same(a,b):
            a=raw(ex,st,a); b=raw(ex,st,b)
            return a==b if not isinstance(a,Lazy) else isinstance(b,Lazy) and a.n==b.n
        return [('its own name',NAMES.setdefault(nm.lit(),x.v)==x.v),('all fields in order',len(fs)==len(x.f) and all(same(a,b) for a,b in zip(fs,x.f)))]
    return Pred(g)
NAMES={}
C('key','c14_key',dep(s_key),fns=[(re.compile(r'Formatter::<.*>::debug_tuple_field\d_finish$|Formatter::debug_tuple_field\d_finish$'),h_tuple)],setup=use_maps,conf=False,title='the Debug text of an expression determines it')
# ---- statistics and clearing
def s_clear(ex,st):
    def g(ex,st,val):
        L=[(nm.split('::')[-1],c) for _,nm,c in locks(st)]
        first={}
        for nm,c in L: first.setdefault(nm,c)
        out=[]
        for nm in('SIMPLIFICATION_CACHE','EVALUATION_CACHE'):
            out.append((nm+' is emptied',nm in first and st.cells[first[nm]]==MapV(())))
        out.append(('counters reset',all(isinstance(x,Poly) and x==ZERO for x in st.cells[first['CACHE_STATS']].f) if 'CACHE_STATS' in first else False))
        last=[c for nm,c in L if nm=='CACHE_STATS'][-1]
        return out+[('reported as they are',(P(a),P(b))) for a,b in zip(val.f,st.cells[last].f)]
    return Pred(g)
def noclear(ex,st,args,view): setup(ex,st,args,view); [st.assume(Not(F('b','poisoned(symbolic_math::expr::%s)'%x))) for x in('SIMPLIFICATION_CACHE','EVALUATION_CACHE','CACHE_STATS')]
C('clear','c14_clear',dep(s_clear,lambda g:[0,0,0,0]),setup=noclear,n=10,title='clearing empties both caches and the counters')
C('stats','c14_stats',dep(lambda ex,st:Pred(lambda ex,st,val:[('as they are',(P(a),P(b))) for a,b in zip(val.f,st.cells[locks(st)[0][2]].f)])),setup=noclear,conf=False,title='the statistics are reported as they are')
def rate(h,m): return Cases((And(P(h).eq(0),P(m).eq(0)),ZERO),(TRUE,P(h)*inv(P(h)+P(m))))
C('rates','c14_rates',lambda a,b,c,d:(rate(a,b),rate(c,d)),pre=lambda a,b,c,d:[(P(a)+P(b)).lt(1<<52),(P(c)+P(d)).lt(1<<52)],title='hit rates are hits over calls, 0 if none')
