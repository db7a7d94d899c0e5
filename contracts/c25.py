"""equality saturation: every rewrite rule handed to egglog keeps the value of whatever it rewrites, the expression is handed
over exactly, and what comes back is read exactly"""
from symb import *
from check import rnd_expr
import check
from vals import LSeq,VecV
ARITY={'Const':['f64'],'Var':['String'],'Add':2,'Sub':2,'Mul':2,'Div':2,'Pow':2,'Ln':1,'Exp':1,'Sqrt':1,'Sin':1,'Cos':1,'Neg':1}
class Bad(Exception): pass
# ---------------------------------------------------------------- reading s-expressions (of text pieces)
def lex(ps):
    out=[]
    def q(i,j,buf):
        """inside a string, from piece i offset j"""
        while i<len(ps):
            x=ps[i]
            if not isinstance(x,str): buf.append(x); i+=1; j=0; continue
            while j<len(x):
                if x[j]=='"': return i,j+1
                if x[j]=='\\': raise Bad('escape in a string')
                buf.append(x[j]); j+=1
            i+=1; j=0
        raise Bad('string without end')
    i=j=0
    while i<len(ps):
        x=ps[i]
        if not isinstance(x,str):
            if x[0]=='whole' : out.append(x)
            elif x[0]=='d': out.append(('num',x[1],x[2]))
            else: raise Bad('text %r'%(x,))
            i+=1; j=0; continue
        if j>=len(x): i+=1; j=0; continue
        ch=x[j]
        if ch.isspace(): j+=1
        elif ch==';':
            while j<len(x) and x[j]!='\n': j+=1
            if j>=len(x) and i+1<len(ps): raise Bad('something within a comment')
        elif ch in'()': out.append(ch); j+=1
        elif ch=='"':
            buf=[]; i,j=q(i,j+1,buf); out.append(('str',StrV(buf)))
        else:
            k=j
            while k<len(x) and not x[k].isspace() and x[k] not in'();"': k+=1
            if k==len(x) and i+1<len(ps) and not isinstance(ps[i+1],str): raise Bad('word runs into %r'%(ps[i+1],))
            out.append(('w',x[j:k])); j=k
    return out
def sexps(tk):
    st=[[]]
    for t in tk:
        if t=='(': st.append([])
        elif t==')':
            if len(st)<2: raise Bad('unbalanced )')
            x=st.pop(); st[-1].append(x)
        else: st[-1].append(t)
    if len(st)!=1: raise Bad('unbalanced (')
    return st[0]
def w(x): return x[1] if isinstance(x,tuple) and x[0]=='w' else None
def num(x):
    try: return Q(x) if not any(ch in x for ch in'infan') else None
    except (ValueError,ZeroDivisionError): return None
def isfloat(x): return num(x) is not None and not re.fullmatch(r'-?\d+',x)      # egglog reads digits alone as an i64
# ---------------------------------------------------------------- what a rule means
class Undef(Exception): pass
def intcls(st,n):
    """'e','o' or None: is the exponent an even integer, an odd one, or no integer"""
    c=n.cval()
    if c is not None: return None if c.denominator!=1 else 'eo'[int(c)%2]
    def ask(k,p):
        if st.known(p.eq(0)) is True: return 'e'
        if not st.decide(F('b','integer(%s)'%show(p))): return None
        return 'e' if st.decide(F('b','even(%s)'%show(p))) else 'o'
    at=sorted(n.atoms(),key=repr)
    if all(a.kind=='var' for a in at) and all(c.denominator==1 for c in n.t.values()) and all(e.denominator==1 and e>0 if isinstance(e,Q) else e>0 for mm in n.t for _,e in mm):
        cl={a:ask(a,P(a)) for a in at}
        if all(cl.values()):
            par=0
            for mm,c in n.t.items():
                if all(cl[a]=='o' for a,_ in mm): par+=int(c)
            return 'eo'[par%2]
        if len(n.t)==1 and n==P(at[0]) or sum(v is None for v in cl.values())==1 and all(sum(e for _,e in mm)==1 for mm in n.t): return None
    return ask(None,n)
def trig(o,p):
    if p==ZERO: return ZERO if o=='sin' else ONE
    neg=min(p.t.items(),key=lambda t:repr(t[0]))[1]<0
    r=fn(o,-p if neg else p)
    return -r if neg and o=='sin' else r
def V(st,t,env):
    """value of a term of the rewriting language, as reals; Undef where it has none"""
    x=w(t)
    if x is not None:
        if x.startswith('?') or x in env: return env.setdefault(x,var('p_'+x.strip('?')))
        c=num(x)
        if c is None: raise Bad('word %s'%x)
        return P(c)
    if not isinstance(t,list) or not t: raise Bad('term %r'%(t,))
    o=w(t[0]); a=[V(st,y,env) for y in t[1:]]
    if o=='Const': return a[0]
    if o in('+','Add'): return a[0]+a[1]
    if o in('-','Sub') and len(a)==2: return a[0]-a[1]
    if o in('*','Mul'): return a[0]*a[1]
    if o in('neg','Neg'): return -a[0]
    if o in('/','Div'):
        if st.decide(a[1].eq(0)): raise Undef()
        return a[0]/a[1]
    if o=='Exp': return exp(a[0])
    if o=='Ln':
        if not st.decide(a[0].gt(0)): raise Undef()
        return ln(a[0])
    if o=='Sqrt':
        if st.decide(a[0].gt(0)): return exp(ln(a[0])/2)
        if st.decide(a[0].eq(0)): return ZERO
        raise Undef()
    if o in('Sin','Cos'): return trig(o.lower(),a[0])
    if o=='Pow':
        b,n=a
        zs={x for x in n.atoms() if st.known(P(x).eq(0)) is True}
        n=Poly({mm:k for mm,k in n.t.items() if not any(x in zs for x,_ in mm)}) if zs else n
        c=n.cval()
        if c is not None and c.denominator==1 and abs(c)<=16:
            if c<0 and st.decide(b.eq(0)): raise Undef()
            return b**int(c)
        if st.decide(b.gt(0)): return exp(n*ln(b))
        if st.decide(n.eq(0)):
            if intcls(st,n)!='e': raise X.Infeasible()
            return ONE
        if st.decide(b.eq(0)):
            if st.decide(n.gt(0)): return ZERO
            raise Undef()
        k=intcls(st,n)
        if k is None: raise Undef()
        r=exp(n*ln(-b))
        return r if k=='e' else -r
    raise Bad('constructor %s'%o)
def guard(st,g,env):
    """a side condition that must hold for the rule to fire, as far as it is understood (ignoring one only makes more cases)"""
    o=w(g[0])
    def rem(x):
        if isinstance(x,list) and w(x[0])=='abs': r=rem(x[1]); return r and (r[0],r[1],True)
        if isinstance(x,list) and w(x[0])=='%' and num(w(x[2]) or 'x') in(1,2): return V(st,x[1],env),int(num(w(x[2]))),False
    if o in('=','!=') and len(g)==3:
        for x,y in((g[1],g[2]),(g[2],g[1])):
            r=rem(x)
            if r is not None and w(y) is not None and num(w(y))==0:
                k=intcls(st,r[0])
                if o=='!=' and not r[2]: return        # egglog compares bits: -4.0 % 2.0 is -0.0, which is not 0.0
                if (k=='e' or k=='o' and r[1]==1)!=(o=='='): raise X.Infeasible()
                return
        try: a,b=V(st,g[1],env),V(st,g[2],env)
        except (Undef,Bad): return
        if st.decide(a.eq(b))!=(o=='='): raise X.Infeasible()
    elif o in('<','>','<=','>='):
        try: a,b=V(st,g[1],env),V(st,g[2],env)
        except (Undef,Bad): return
        if not st.decide({'<':a.lt,'>':a.gt,'<=':a.le,'>=':a.ge}[o](b)): raise X.Infeasible()
def pyth(p):
    """sin^2 = 1-cos^2"""
    ch=True
    while ch:
        ch=False; r=ZERO
        for mm,c in p.t.items():
            for i,(a,e) in enumerate(mm):
                if a.kind=='fn' and a.args[0]=='sin' and e>=2:
                    co=fn('cos',a.args[1]); rest=Poly({tuple(x for j,x in enumerate(mm) if j!=i):c}); ch=True
                    r=r+rest*(P(a)**int(e-2) if e>2 else ONE)*(1-co*co); break
            else: r=r+Poly({mm:c})
        p=r
    return p
def txt(t):
    if isinstance(t,list): return '('+' '.join(map(txt,t))+')'
    return w(t) or repr(t)
def rules_of(texts):
    """(lhs, rhs, guards) of every rule, and what is wrong with the rest of the program"""
    rs=[]; bad=[]; decl={}
    for T in texts:
        try: cs=sexps(lex(T.s))
        except Bad as er: bad.append(str(er)); continue
        for c in cs:
            o=w(c[0]) if isinstance(c,list) and c else None
            if o=='datatype':
                for k in c[2:]:
                    decl[w(k[0])]=[w(y) for y in k[1:] if not (w(y) or '').startswith(':')]
                for k,v in decl.items():
                    want=ARITY.get(k)
                    if want is not None and v!=(want if isinstance(want,list) else [w(c[1])]*want): bad.append('constructor %s is declared with %r'%(k,v))
            elif o in('rewrite','birewrite'):
                g=[];i=3
                while i+1<len(c):
                    if w(c[i])==':when': g=c[i+1]
                    i+=2
                rs.append((c[1],c[2],g))
                if o=='birewrite': rs.append((c[2],c[1],g))
            elif o in('run','run-schedule','let','extract','set-option','check','print-stats','query-extract','push','pop','ruleset'): pass
            else: bad.append('command %s'%o)
    bad+=['constructor %s is not declared'%k for k in ARITY if k not in decl]
    return rs,bad
def texts(st): return [st.meta[k] for k in sorted((k for k in st.meta if isinstance(k,tuple) and k[0]=='eg'),key=lambda k:k[1])]
def p_rules(ex,st,val):
    rs,bad=rules_of(texts(st))
    for i,(l,r,gs) in enumerate(rs):
        if not st.decide(F('b','rule(%d)'%i)): continue
        nm='%s -> %s'%(txt(l),txt(r)); env={}
        try:
            try:
                a=V(st,l,env)
                for g in gs: guard(st,g,env)
            except Undef: raise X.Infeasible()
            free=set(env)
            try: b=V(st,r,env)
            except Undef: return [(nm,(False,None,'undefined where the left side has a value'))]
            if set(env)-free: return [(nm,(False,None,'variable only on the right'))]
        except Bad as er: return [(nm,(False,None,str(er)))]
        d=pyth(a)-pyth(b)
        if not d==ZERO and l not in BADL: BADL.append(l)      # aims the search for a failing input
        return [(nm,(d,ZERO))]
    return [('program',(not bad,'structural','; '.join(bad)))]
# ---------------------------------------------------------------- contracts of the pieces and of egglog
def subterm(c):
    for i,a in enumerate(c.args):
        v=raw(c.ex,c.st,a)
        if isinstance(v,Lazy): return v
def whole1(c):
    for a in c.args:
        v=raw(c.ex,c.st,a)
        if isinstance(v,StrV) and len(v.s)==1 and not isinstance(v.s[0],str) and v.s[0][0]=='whole': return v.s[0][1]
def tyname(c):
    t=c.ex.T[c.dty]; return str(t.get('n','')) if t['k']=='adt' else ''
def okty(c,want):
    """is the payload of the returned Result or Option of the wanted type"""
    t=c.ex.T[c.dty]
    return any(str(c.ex.T[f].get('n','')).endswith(want) for v in t['v'] for f in [x[1] if isinstance(x,list) else x.get('t') if isinstance(x,dict) else x for x in v['f']] if isinstance(f,int) and c.ex.T[f]['k']=='adt')
def lone(c):
    """is the expression or the text the only thing passed (an optimiser aside): otherwise it is a helper, run on its own body"""
    n=0
    for a in c.args:
        v=raw(c.ex,c.st,a)
        if not(isinstance(v,Agg) and isinstance(a,Ptr) and not isinstance(v,Lazy)): n+=1
    return n==1
def h_opt(tops):
    """the two translations, on strict subterms and their texts (induction)"""
    def h(c):
        if not lone(c): return INLINE
        n=tyname(c); v=subterm(c)
        if v is not None and v.n not in tops:
            if n.endswith('::String'): return StrV([('whole',v.n)])
            if n.endswith('::Result') and okty(c,'::String'): return Agg(0,(StrV([('whole',v.n)]),))
        s=whole1(c)
        if s is not None and n.endswith('::Option') and okty(c,'Expr'):
            if not c.st.decide(F('b','reads(%s)'%s)): return Agg(0,())
            return Agg(1,(Lazy(None,s),))
        return INLINE
    return re.compile(r'(^|[:<])optimization::|EgglogOptimizer'),h
def h_new(c): return Opq('egraph',())
H_NEW=(re.compile(r'egglog::EGraph as std::default::Default>::default$'),h_new)
def h_run(expand,small=()):
    """what is assumed of egglog: a program that declares what it uses is run; extract answers with the text of some term r that
    the rules make equal to the term asked for"""
    def h(c):
        st=c.st; T=c.args[2]
        while isinstance(T,Ptr): T=c.ex.read(st,T.c,T.p)
        if not isinstance(T,StrV): raise Unsupported('egglog program %r'%(T,))
        k=len(texts(st)); st.meta[('eg',k)]=T
        out=[]
        try: cs=sexps(lex(T.s))
        except Bad: return Agg(1,(Opq('parse error',''),))
        for cmd in cs:
            o=w(cmd[0]) if isinstance(cmd,list) and cmd else None
            if o=='let':
                if any(('let',w(cmd[1]))==q[:2] for q in st.meta if isinstance(q,tuple)): return Agg(1,(Opq('bound twice',''),))
                st.meta[('let',w(cmd[1]))]=cmd[2]
            elif o=='extract':
                e=st.meta.get(('let',w(cmd[1]))) if w(cmd[1]) else cmd[1]
                if e is None: return Agg(1,(Opq('unbound',''),))
                if ('ran',) not in st.meta: pass
                if e in small: out.append(StrV([txt_(e)])); continue
                st.meta[('asked',)]=e
                out.append(StrV(rtext(c) if expand else [('whole','r')]))
            elif o=='run': st.meta[('ran',)]=True
        return Agg(0,(VecV(LSeq(out)),))
    return re.compile(r'EGraph::parse_and_run_program$'),h
def txt_(e): return '(Var "w")'
def rtext(c):
    ex,st=c.ex,c.st
    r=Lazy(ex.te,'r')
    for k in range(13):
        if ex.is_variant(st,r,k): break
    x=st.lazy['r']; o=getattr(ex,'vnames',V_)[x.v]
    if o=='Const':
        v=x.f[0]
        if not isinstance(v,Fl) or v.k!='fin': raise X.Infeasible()
        return ['(Const ',('d',v,'?'),')']
    if o=='Var': return ['(Var "']+list(deref(ex,st,x.f[0]).s)+['")']
    ps=['(%s'%o]
    for y in x.f: ps+=[' ',('whole',raw(ex,st,y).n)]
    return ps+[')']
# ---------------------------------------------------------------- the whole run
def tree(ex,st,t,tops):
    """the expression a program text denotes, as (constructor, parts...)"""
    if isinstance(t,tuple) and t[0]=='whole': return ('sub',t[1])
    if not isinstance(t,list) or not t: raise Bad('%r'%(t,))
    o=w(t[0])
    if o=='Const':
        x=t[1]
        if isinstance(x,tuple) and x[0]=='num':
            if x[2] not in('?','e') or not isinstance(x[1],Fl): raise Bad('number printed with format %r'%x[2])
            return ('Const',x[1])
        if w(x) is None or not isfloat(w(x)): raise Bad('constant %r'%(x,))
        return ('Const',fin(P(num(w(x)))))
    if o=='Var':
        if not(isinstance(t[1],tuple) and t[1][0]=='str'): raise Bad('variable %r'%(t[1],))
        return ('Var',t[1][1])
    if o not in ARITY or len(t)-1!=ARITY[o]: raise Bad('%s with %d parts'%(o,len(t)-1))
    return (o,)+tuple(tree(ex,st,y,tops) for y in t[1:])
def shape(ex,st,v):
    r=raw(ex,st,v); x=node(ex,st,r)
    if isinstance(x,Lazy): return ('sub',x.n)
    if not isinstance(x,Agg): raise Bad('expression %r'%(x,))
    o=getattr(ex,'vnames',V_)[x.v]
    if o=='Const': return (o,x.f[0] if isinstance(x.f[0],Fl) else fin(x.f[0]))
    if o=='Var': return (o,deref(ex,st,x.f[0]))
    out=[o]
    for y in x.f:
        r=raw(ex,st,y)
        out.append(('sub',r.n) if isinstance(r,Lazy) else shape(ex,st,r))
    return tuple(out)
def p_opt(top):
    def g(ex,st,val):
        obs=[]
        if not(isinstance(val,Agg) and val.v==1 and len(val.f)==1): return [('an expression is returned',(False,None,repr(val)[:200]))]
        try:
            e=shape(ex,st,Lazy(None,top))
            q=st.meta.get(('asked',))
            if q is not None:
                a=tree(ex,st,q,(top,))
                obs.append(('the expression handed to egglog',(a==e,'structural','%r handed over as %r'%(e,a))))
            else: obs.append(('egglog is asked',(True,'structural')))
            got=shape(ex,st,val.f[0]); r=shape(ex,st,Lazy(None,'r'))
            obs.append(('the expression or what egglog answered',(got==e or q is not None and got==r,'structural','returned %r for %r, answer %r'%(got,e,r))))
        except Bad as er: obs.append(('readable',(False,None,str(er))))
        return obs
    return Pred(g)
# ---------------------------------------------------------------- compiled runs
_LHS=None
BADL=[]
def lhs():
    """left sides of the rules, read from the compiled code, to aim the runs"""
    global _LHS
    if _LHS is None:
        _LHS=[]
        def walk(x):
            if isinstance(x,str):
                if '(rewrite' in x:
                    try: _LHS.extend(y[0] for y in rules_of([StrV([x])])[0])
                    except Exception: pass
            elif isinstance(x,dict):
                for y in x.values(): walk(y)
            elif isinstance(x,list):
                for y in x: walk(y)
        for i in check.PROG.insts:
            if 'optimization' in i['n'] and i.get('b'): walk(i['b'])
    return _LHS
CS=[0.0,1.0,2.0,-1.0,0.5,3.0,-2.0,0.25,0.04,1e-7,1.5,100.0,-0.125,7.03]
def gexpr(r):
    L=lhs()
    if L and r.random()<.7:
        t=r.choice(BADL if BADL and r.random()<.8 else L); env={}
        def leaf():
            own=[v for v in env.values() if isinstance(v,list)]
            if own and r.random()<.35:
                if r.random()<.4: return r.choice(own)
                return [r.choice(['Mul','Div','Add','Sub']),r.choice(own),r.choice(own+[['Var','y']])]
            return r.choice([['Var','x'],['Var','y'],['Var','x'],['Const',r.choice(CS)],['Neg',['Var','x']],['Mul',['Var','x'],['Var','x']],['Pow',['Var','x'],['Const',2.0]],['Exp',['Var','y']]])
        def go(t,const=False):
            x=w(t)
            if x is not None:
                if x not in env: env[x]=(r.choice(CS) if const else leaf()) if x.startswith('?') else float(num(x))
                return env[x]
            o=w(t[0])
            if o=='Const':
                y=go(t[1],True); return ['Const',y if isinstance(y,float) else 2.0]
            return [o]+[go(y) for y in t[1:]]
        try:
            e=go(t)
            if r.random()<.3: e=r.choice([lambda e:['Add',e,['Var','y']],lambda e:['Ln',e],lambda e:['Sub',['Var','y'],e],lambda e:['Pow',e,['Const',r.choice([.5,2.,3.])]],lambda e:['Exp',e]])(e)
            return e
        except Exception: pass
    return rnd_expr(r,[],r.choice([0,1,2,2]))
def names(t,acc):
    if t[0]=='Var': acc.add(t[1])
    elif t[0]!='Const':
        for x in t[1:]: names(x,acc)
    return acc
def finite(t): return t[0]!='Const' and (t[0]=='Var' or all(finite(x) for x in t[1:])) or t[0]=='Const' and math.isfinite(t[1]) and (t[1]==0 or 1e-30<abs(t[1])<1e30)
PTS=[-2.25,1.75,-.6,.4,3.0,-1.0]
def n_opt(e):
    if not finite(e): raise Skip()
    ns=sorted(names(e,set())); envs=[]
    if any(not re.fullmatch(r'[A-Za-z_]\w*',x) for x in ns): raise Skip()
    for i in range(len(PTS)):
        env={x:PTS[(i+3*j)%len(PTS)] for j,x in enumerate(ns)}
        try: envs.append((env,nd(e,env)))
        except (NErr,Skip): pass
    if not envs: raise Skip()
    def h(real,_):
        if real=='ABORT': raise Skip()        # saturation ran out of its memory or time: no answer, so no wrong answer
        if not isinstance(real,tuple) or len(real)!=1 or not isinstance(real[0],list): return False
        for env,(v,er) in envs:
            try: y,ey=nd(real[0],env)
            except NErr: return False
            except Skip: continue
            if abs(y-v)>1000*(er+ey)+abs(v)*m.mpf(10)**-9+m.mpf(10)**-200: return False
        return True
    return h
K=dict(gen={'e':gexpr},n=60,nbad=500,timeout=300)
def setup(ex,st,args=None,view=None): 
    ex.bracketed=True; ex.te=raw(ex,st,args[0]).t
def rulepost(e): return Dep(lambda ex,st:Pred(p_rules),lambda g:n_opt(g['e']))
C('rules','c25_opt',rulepost,fns=[H_NEW,h_run(False),h_opt(())],setup=setup,title='every rewrite rule keeps the value wherever its left side has one',**K)
optpost=lambda e:Dep(lambda ex,st:p_opt('e'),lambda g:n_opt(g['e']))
C('give','c25_opt',optpost,fns=[H_NEW,h_run(False),h_opt(('e',))],setup=setup,title='optimize hands the expression over exactly',**K)
def rterms():
    x,y,c=['Var','x'],['Var','y_1'],['Const',-2.5]; B_=['Add','Mul','Sub','Div','Pow']; U_=['Ln','Exp','Sin','Cos','Neg']
    out=[]
    for i,o in enumerate(B_):
        for j,p in enumerate(B_):
            out.append([o,[p,x,c],[B_[(i+j)%5],y,x]] if (i+j)%2 else [o,x,[p,[U_[j],y],c]])
        out.append([o,[U_[i],[B_[(i+1)%5],x,y]],[U_[(i+2)%5],c]]); out.append([o,[o,[o,x,y],c],['Const',3.0]]); out.append([o,c,[o,x,[o,y,['Sqrt',x]]]])
    for i,u in enumerate(U_): out.append([u,[U_[(i+2)%5],[B_[i],[U_[(i+1)%5],x],y]]])
    return out
RT=rterms()
def rlit(t): return '(Const %r)'%t[1] if t[0]=='Const' else '(Var "%s")'%t[1] if t[0]=='Var' else '(%s)'%' '.join([t[0]]+[rlit(y) for y in t[1:]])
def tshape(t): return ('Const',fin(const(Q(t[1])))) if t[0]=='Const' else ('Var',StrV([t[1]])) if t[0]=='Var' else (t[0],)+tuple(tshape(y) for y in t[1:])
def p_terms(ex,st,val):
    t=RT[st.meta[('term',)]]
    if not(isinstance(val,Agg) and val.v==1 and len(val.f)==1): return [('an expression is returned',(False,None,repr(val)[:200]))]
    try: got=shape(ex,st,val.f[0])
    except Bad as er: return [('readable',(False,None,str(er)))]
    return [('reads %s'%rlit(t),(got in(('sub','e'),tshape(t)),'structural','%r'%(got,)))]
def h_terms():
    pat,run=h_run(False)
    def h(c):
        v=run(c)
        if isinstance(v,Agg) and v.v==0 and v.f[0].s==LSeq([StrV([('whole','r')])]):
            for i in range(len(RT)-1):
                if c.st.decide(F('b','term(%d)'%i)): break
            else: i=len(RT)-1
            c.st.meta[('term',)]=i
            return Agg(0,(VecV(LSeq([StrV([rlit(RT[i])])])),))
        return v
    return pat,h
C('take','c25_opt',optpost,fns=[H_NEW,h_run(True),h_opt(())],setup=setup,title='optimize returns the expression or what the answer reads as',**K)
C('terms','c25_opt',lambda e:Dep(lambda ex,st:Pred(p_terms),lambda g:n_opt(g['e'])),fns=[H_NEW,h_terms(),h_opt(())],setup=setup,bounded='%d answers of nesting depth 2 to 4: the scan for the end of an operand (parse_binary_args) is run on their whole text; the other contracts pass over the text of an operand there'%len(RT),title='answers with nested operands are read exactly',**K)
