"""printed formulas of symbolic expressions: the text is read with the precedences of its notation (plain, Python, LaTeX)
and must denote the expression. A printed subexpression c stands for every text the contract allows for its constructor:
where the constructor prints unprotected (sum, product, sign, power) it is replaced by a generic text of that shape (a difference reads like a sum, e^{..} like a
power: one of each is enough), so a missing pair of parentheses shows as a different value. Induction over the constructor: one level per proof."""
from symb import *
from printing import Bad
def leaf(n,k=''): return fn('text',n,k)
LX={'display':re.compile(r'(\s+)|(\d+\.?\d*|\.\d+)|([-+*/^(),])|([A-Za-z_]\w*)'),
    'python':re.compile(r'(\s+)|(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|(\*\*|[-+*/(),])|([A-Za-z_][\w.]*)'),
    'latex':re.compile(r'(\s+)|(\d+\.?\d*|\.\d+)|(\\left\(|\\right\)|[-+^(){}])|(\\[A-Za-z]+|[A-Za-z_]\w*)')}
def lexk(s,kind):
    out=[];i=0
    while i<len(s):
        q=LX[kind].match(s,i)
        if not q: raise Bad('cannot read %r'%s[i:i+20])
        i=q.end()
        if q.group(1): out.append(('sp',None))
        elif q.group(2): out.append(('N',P(Q(float(q.group(2))))))
        elif q.group(3):
            o=q.group(3); out.append(('op',{'**':'^','\\left(':'(','\\right)':')'}.get(o,o)))
        else: out.append(('id',q.group(4)))
    return out
FNS={'display':{'ln':'Ln','exp':'Exp','sqrt':'Sqrt','sin':'Sin','cos':'Cos'},
     'python':{'math.log':'Ln','math.exp':'Exp','math.sqrt':'Sqrt','math.sin':'Sin','math.cos':'Cos'},
     'latex':{'\\ln':'Ln','\\sin':'Sin','\\cos':'Cos','\\exp':'Exp'}}
def unglue(tk):
    """two names or numbers without anything between them would read as one (a number before a name is a product)"""
    out=[];prev=None
    for t in tk:
        if t[0]=='sp': prev=None; continue
        w=t[0] in('N','D','P','id') and not(t[0]=='id' and t[1][0]=='\\')
        if w and prev is not None and not(prev=='N' and t[0] in('P','id')): raise Bad('texts run together')
        out.append(t); prev=t[0] if w else ('c' if t[0]=='id' else None)
        if prev=='c': prev=None
    return out
class Rd:
    """reads tokens to the value (a polynomial over opaque atoms)"""
    def __init__(self,t,kind): self.t=t; self.i=0; self.k=kind
    def pk(self,*ops): return self.i<len(self.t) and self.t[self.i][0]=='op' and self.t[self.i][1] in ops
    def nx(self):
        if self.i>=len(self.t): raise Bad('text ends early')
        self.i+=1; return self.t[self.i-1]
    def need(self,o):
        if self.nx()!=('op',o): raise Bad('expected '+o)
    def expr(self):
        a=self.term()
        while self.pk('+','-'):
            o=self.nx()[1]; b=self.term(); a=a+b if o=='+' else a-b
        return a
    def term(self):
        a=self.unary()
        while True:
            if self.k!='latex' and self.pk('*'): self.nx(); a=a*self.unary()
            elif self.k!='latex' and self.pk('/'): self.nx(); a=fn('Div',a,self.unary())
            elif self.k=='latex' and self.i<len(self.t) and self.t[self.i]==('id','\\cdot'): self.nx(); a=a*self.unary()
            elif self.k=='latex' and self.i<len(self.t) and (self.t[self.i][0] in('N','D','P','id')): a=a*self.power()
            else: return a
    def unary(self):
        if self.pk('-'): self.nx(); return -self.unary()
        return self.power()
    def power(self):
        if self.k=='latex' and self.i+1<len(self.t) and self.t[self.i]==('id','e') and self.t[self.i+1]==('op','^'):
            self.nx(); self.nx(); a=self.group(); r=fn('Exp',a)
        else:
            a=self.atom()
            if not self.pk('^'): return a
            self.nx()
            r=fn('Pow',a,self.group() if self.k=='latex' else self.unary())
        if self.k=='latex' and self.pk('^'): raise Bad('double superscript')
        return r
    def group(self):
        self.need('{'); a=self.expr(); self.need('}'); return a
    def atom(self):
        k,v=self.nx()
        if k in('N','D','P'): return v
        if k=='id':
            if self.k=='latex' and v=='\\frac': a=self.group(); return fn('Div',a,self.group())
            if self.k=='latex' and v=='\\sqrt': return fn('Sqrt',self.group())
            f=FNS[self.k].get(v)
            if f is not None: self.need('('); a=self.expr(); self.need(')'); return fn(f,a)
            if v[0]=='\\' : raise Bad('unknown command '+v)
            return leaf(v)
        if (k,v)==('op','('): a=self.expr(); self.need(')'); return a
        raise Bad('unexpected %r'%(v,))
def readk(tk,kind):
    r=Rd(unglue(tk),kind); a=r.expr()
    if r.i!=len(r.t): raise Bad('text continues after the formula')
    return a
O=lambda o:('op',o)
# ---- value of a tree, and the shape class of its text
def tval_(t):
    o=t[0]
    if o=='Const': return P(Q(t[1])) if not isinstance(t[1],Poly) else t[1]
    if o=='Var': return leaf(t[1])
    a=[tval_(x) for x in t[1:]]
    return comb(o,a)
def comb(o,a):
    if o=='Add': return a[0]+a[1]
    if o=='Sub': return a[0]-a[1]
    if o=='Mul': return a[0]*a[1]
    if o=='Neg': return -a[0]
    return fn(o,*a)
def cls(ex,st,v):
    """the shape a subexpression prints in"""
    r=raw(ex,st,v); x=node(ex,st,r)
    if isinstance(x,Lazy):
        for k in range(13):
            if ex.is_variant(st,r,k): break
        x=node(ex,st,r)
    return x,getattr(ex,'vnames',V_)[x.v]
def number(st,p):
    return ([O('-'),('N',-p)],p) if st.decide(p.lt(0)) else ([('N',p)],p)
LEVELS=['atom','power','unary','term','expr']
ROOT={'display':'root_c23_display','python':'root_c23_python','latex':'root_c23_latex'}
_SH={}
DIG={}   # constructors whose text may start with a digit (matters where a number before a name is a product)
def level(tk,kind):
    tk=unglue(tk)
    for l in LEVELS:
        r=Rd(tk,kind)
        try: getattr(r,l)()
        except Bad: continue
        if r.i==len(tk): return l
    raise Bad('not a formula')
def shapes(kind):
    """candidate invariant: how loosely the text of each constructor may read. Chosen by looking at what the compiled code
    prints for small operands, and then proved (every text has at most the level of its constructor) and used of the parts"""
    if kind not in _SH:
        from check import real_batch
        ops=[['Var','x'],['Const',2.0],['Const',-3.0],['Const',1.0],['Const',-1.0],['Const',0.5]]; v=ops[0]
        ops+=[[o,v,v] for o in('Add','Sub','Mul','Div','Pow')]+[[o,v] for o in('Neg','Exp','Ln','Sqrt')]
        ts=[['Const',c] for c in(2.0,-3.0,0.5,-0.5,1e300)]+[v]+[[o,x,y] for o in('Add','Sub','Mul','Div','Pow') for x in ops for y in ops]+[[o,x] for o in('Ln','Exp','Sqrt','Sin','Cos','Neg') for x in ops]
        d={};DIG[kind]=set()
        for t,r in zip(ts,real_batch(ROOT[kind],[[t] for t in ts])):
            if isinstance(r,str) and r[:1].isdigit(): DIG[kind].add(t[0])
            try: l=LEVELS.index(level(lexk(r,kind),kind))
            except (Bad,TypeError): l=4
            d[t[0]]=max(d.get(t[0],0),l)
        d={o:LEVELS[l] for o,l in d.items()}
        if d['Const']!='atom': d['Const']='unary'
        _SH[kind]=d
    return _SH[kind]
def part(ex,st,v,kind):
    """(tokens, value) of the printed subexpression v: a generic text of the shape of its constructor"""
    r=raw(ex,st,v); n=r.n; sh=shapes(kind)
    x=node(ex,st,r)
    if isinstance(x,Lazy):
        for k,o in enumerate(getattr(ex,'vnames',V_)):
            if (sh[o]!='atom' or o=='Const' or o in DIG[kind]) and ex.is_variant(st,r,k): x=node(ex,st,r); break
    l='atom' if isinstance(x,Lazy) else sh[getattr(ex,'vnames',V_)[x.v]]
    if isinstance(x,Agg) and getattr(ex,'vnames',V_)[x.v]=='Const':
        c=x.f[0]
        if not isinstance(c,Fl) or c.k!='fin': raise X.Infeasible()
        return number(st,c.p) if l!='atom' else ([('P',c.p)],c.p)
    A,B=leaf(n,'1'),leaf(n,'2'); a,b=('P',A),('P',B); sp=('sp',None)
    def alt(w): return st.decide(F('b','prints(%s,%s)'%(n,w)))
    if isinstance(x,Agg) and getattr(ex,'vnames',V_)[x.v] in DIG[kind]: a=('D',A)   # a text that may start with a digit
    if l=='expr':
        if alt('sum'): return [a,sp,O('+'),sp,b],A+B
        l='term'
    if l=='term':
        if alt('prod'): return [a,sp,('id','\\cdot') if kind=='latex' else O('*'),sp,b],A*B
        if kind!='latex' and alt('quot'): return [a,sp,O('/'),sp,b],fn('Div',A,B)
        if kind=='latex' and alt('num'): return [('N',A),b],A*B
        l='unary'
    if l=='unary':
        if alt('neg'): return [O('-'),a],-A
        l='power'
    if l=='power':
        if kind=='latex':
            if alt('pow'): return [a,O('^'),O('{'),b,O('}')],fn('Pow',A,B)
        elif alt('pow'): return [a,O('^'),b],fn('Pow',A,B)
    return [a],A
def fits(tk,o,c,kind): return LEVELS.index(level(tk,kind))<=LEVELS.index(shapes(kind)[o])
def s_print(kind,pre=(),post_=()):
    def f(ex,st,e,*a):
        def g(ex,st,val):
            v=raw(ex,st,val)
            if not isinstance(v,StrV): return [('a text',False)]
            ps=list(v.s); tk=[]; want=None
            def whole(y): return ('whole',raw(ex,st,y[1]).n,'display') if not isinstance(y,str) and y[0]=='d' and y[2]=='' and isinstance(raw(ex,st,y[1]),Lazy) else y
            ps=[whole(y) for y in ps]
            try:
                for y in (pre if not callable(pre) else pre(*a)):
                    if not ps: raise Bad('text ends early')
                    if isinstance(y,str) and isinstance(ps[0],str) and ps[0].startswith(y):
                        ps[0]=ps[0][len(y):]
                        if not ps[0]: ps.pop(0)
                    elif ps[0]==y: ps.pop(0)
                    else: raise Bad('does not start with %r'%(y,))
                for y in post_:
                    if not ps or not isinstance(ps[-1],str) or not ps[-1].endswith(y): raise Bad('does not end with %r'%y)
                    ps[-1]=ps[-1][:-len(y)]
                    if not ps[-1]: ps.pop()
                if len(ps)==1 and not isinstance(ps[0],str) and ps[0][0]=='whole' and ps[0][1]==raw(ex,st,e).n:
                    return [('the text of the expression',ps[0][2]==kind)]
            except Bad as er: return [('readable',(False,None,'%r: %s'%(v,er)))]
            x,o=cls(ex,st,e)
            env={}
            def pt(y):
                r=raw(ex,st,y)
                if r.n not in env: env[r.n]=part(ex,st,r,kind)
                return env[r.n]
            if o=='Const':
                if not isinstance(x.f[0],Fl) or x.f[0].k!='fin': raise X.Infeasible()
                want=x.f[0].p
            elif o!='Var': want=comb(o,[pt(y)[1] for y in x.f])
            try:
                for y in ps:
                    if isinstance(y,str): tk+=lexk(y,kind)
                    elif y[0]=='whole':
                        if y[2]!=kind: raise Bad('a part printed in another notation')
                        for z in x.f:
                            if not isinstance(z,(Fl,StrV)) and raw(ex,st,z).n==y[1]: tk+=pt(z)[0]; break
                        else: raise Bad('text of something else')
                    elif y[0]=='d' and y[2]=='' :
                        c=y[1]
                        if isinstance(c,Fl) and c.k=='fin': tk+=number(st,c.p)[0]
                        elif isinstance(c,Poly): tk+=number(st,c)[0]
                        else: raise Bad('value %r'%(y,))
                    else:
                        if o!='Var' or StrV([y])!=deref(ex,st,x.f[0]): raise Bad('text of something else %r'%(y,))
                        tk.append(('P',leaf('name'))); want=leaf('name')
                got=readk(tk,kind)
            except Bad as er: return [('readable',(False,None,'%r: %s'%(v,er)))]
            if want is None: return [('the name',False)]
            if kind=='latex' and o!='Const' and tk and unglue(tk)[0][0] in('N','D') and o not in DIG[kind]: return [('shape of its text',(False,None,'%r starts with a number'%(v,)))]
            return [('reads as the expression',(got,want)),('shape of its text',(fits(tk,o,x,kind),'structural','%r'%(v,)))]
        return Pred(g)
    return f
def n_print(kind,pre='',suf=''):
    def f(g):
        t=g['e']
        p=pre if not callable(pre) else pre(g)
        def bad(t): return t[0]=='Const' and not math.isfinite(t[1]) or t[0]=='Var' and t[1]=='e' or t[0] not in('Const','Var') and any(bad(x) for x in t[1:])
        if bad(t): raise Skip()
        def h(real,_):
            if not isinstance(real,str) or not real.startswith(p) or not real.endswith(suf): return False
            s=real[len(p):len(real)-len(suf)]
            try: return readk(lexk(s,kind),kind)==tval_(t)
            except Bad: return False
        return h
    return f
def dep(sym,num): return lambda *a:Dep(lambda ex,st:sym(ex,st,*a),num)
def h_rec(name,kind):
    def h(c):
        v=raw(c.ex,c.st,c.args[0])
        if isinstance(v,Lazy) and v.n=='e' and not c.st.meta.get('entered'): c.st.meta['entered']=True; return INLINE
        if not isinstance(v,Lazy) or v.n=='e': raise Unsupported('printing something that is no subterm')
        return StrV([('whole',v.n,kind)])
    return re.compile(r'Expr::%s$'%name),h
def h_whole(name,kind):
    def h(c):
        v=raw(c.ex,c.st,c.args[0])
        return StrV([('whole',v.n,kind)])
    return re.compile(r'Expr::%s$'%name),h
def h_fmt(c):
    """a subterm printed into the formatter at hand: its text is appended"""
    from models import _fmt_out
    v=raw(c.ex,c.st,c.args[0])
    if not isinstance(v,Lazy): return INLINE
    if v.n=='e':
        if c.st.meta.get('entered'): raise Unsupported('printing something that is no subterm')
        c.st.meta['entered']=True; return INLINE
    p=_fmt_out(c,c.args[1])
    if p is None: raise Unsupported('formatter that writes to no string')
    c.ex.write(c.st,p.c,p.p,StrV(c.ex.read(c.st,p.c,p.p).s+StrV([('whole',v.n,'display')]).s)); return Agg(0,(UNIT,))
H_FMT=[(re.compile(r'Expr as .*Display>::fmt$'),h_fmt)]
BIG=[1e19,-4e25,1e300,0.1,1e-7,12345678901.0,3.0000000001,-9007199254740993.0,1e10,9.999999999e9,-0.3]
def ge(r):
    from check import rnd_expr
    def go(t):
        if t[0]=='Const': return ['Const',r.choice(BIG)] if r.random()<.15 else t
        return t if t[0]=='Var' else [t[0]]+[go(x) for x in t[1:]]
    return go(rnd_expr(r,[],r.choice([0,1,2,2,3])))
K=dict(n=150,timeout=300)
C('latex','c23_latex',dep(s_print('latex'),n_print('latex')),fns=[h_rec('to_latex','latex')],gen={'e':ge},title='to_latex reads as the expression',**K)
C('python','c23_python',dep(s_print('python'),n_print('python')),fns=[h_rec('to_python','python')],gen={'e':ge},title='to_python reads as the expression',**K)
C('display','c23_display',dep(s_print('display'),n_print('display')),fns=H_FMT,gen={'e':ge},title='Display reads as the expression',**K)
C('pretty','c23_pretty',dep(s_print('display'),n_print('display')),fns=H_FMT,gen={'e':ge},title='PrettyExpr prints what Display prints',**K)
C('dlatex','c23_dlatex',dep(s_print('latex',('$',),('$',)),n_print('latex','$','$')),fns=[h_whole('to_latex','latex')],gen={'e':ge},title='display::latex is the LaTeX of the expression between dollars',**K)
C('dpython','c23_dpython',dep(s_print('python',('lambda vars: ',)),n_print('python','lambda vars: ')),fns=[h_whole('to_python','python')],gen={'e':ge},title='display::python is the Python of the expression',**K)
def s_eq(ex,st,lhs,e): return s_print('display',lambda l:list(deref(ex,st,l).s)+[' = '])(ex,st,e,lhs)
C('equation','c23_equation',dep(s_eq,n_print('display',lambda g:g['lhs']+' = ')),gen={'e':ge,'lhs':lambda r:r.choice(['y','f(x)','log p'])},title='display::equation',**K)
