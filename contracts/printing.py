"""reading printed formulas: a text denotes what a reader with the usual precedences gets from it (^ binds tighter than
unary minus, then * and /, then + and -). Pieces of unknown text (printed operands) are single atoms, or negative literals."""
from symb import *
def NEGS(piece): return F('b','starts(%r,%r)'%('-',piece))
def tokens(ex,st,s):
    """tokens of a StrV; unknown pieces become ('P',name), negative ones a minus sign and ('A',name)"""
    out=[]
    for p in s.s:
        if isinstance(p,str): out+=lex(p); continue
        if p[0]=='d':
            if p[2] not in('','?') or not isinstance(p[1],Fl) or p[1].k!='fin': raise Unsupported('printed value %r'%(p,))
            if st.decide(p[1].p.lt(0)): out+=[('op','-'),('N',-p[1].p)]
            else: out.append(('N',p[1].p))
        else:
            if st.decide(NEGS(p)): out+=[('op','-'),('A',p)]
            else: out.append(('P',p))
    return out
LEX=re.compile(r'\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|(\*\*|[-+*/^(),])|([A-Za-z_][\w.]*))')
class Bad(Exception): pass
def lex(s):
    out=[];i=0
    s=s.rstrip()
    while i<len(s):
        m=LEX.match(s,i)
        if not m: raise Bad('cannot read %r'%s[i:])
        i=m.end()
        if m.group(1): out.append(('N',P(Q(m.group(1)))))
        elif m.group(2): out.append(('op','^' if m.group(2)=='**' else m.group(2)))
        else: out.append(('id',m.group(3)))
    return out
FN={'ln':'Ln','log':'Ln','exp':'Exp','sqrt':'Sqrt','sin':'Sin','cos':'Cos'}
class Reader:
    def __init__(self,t): self.t=t; self.i=0
    def pk(self,*ops): return self.i<len(self.t) and self.t[self.i][0]=='op' and self.t[self.i][1] in ops
    def nx(self):
        if self.i>=len(self.t): raise Bad('text ends early')
        self.i+=1; return self.t[self.i-1]
    def need(self,o):
        if self.nx()!=('op',o): raise Bad('expected '+o)
    def expr(self):
        a=self.term()
        while self.pk('+','-'): o=self.nx()[1]; a=['Add' if o=='+' else 'Sub',a,self.term()]
        return a
    def term(self):
        a=self.unary()
        while self.pk('*','/'): o=self.nx()[1]; a=['Mul' if o=='*' else 'Div',a,self.unary()]
        return a
    def unary(self):
        if self.pk('-'):
            self.nx(); a=self.unary()
            if a[0]=='A': return ['P',a[1]]
            if a[0]=='N' : return ['N',-a[1]]
            return ['Neg',a]
        a=self.atom()
        if self.pk('^'): self.nx(); return ['Pow',a,self.unary()]
        return a
    def atom(self):
        k,v=self.nx()
        if k in('N','P','A'): return [k,v]
        if k=='id':
            if v.split('.')[-1] in FN and self.pk('('):
                self.nx(); a=self.expr(); self.need(')'); return [FN[v.split('.')[-1]],a]
            return ['V',v]
        if (k,v)==('op','('): a=self.expr(); self.need(')'); return a
        raise Bad('unexpected %r'%(v,))
def read(tk):
    r=Reader(tk); a=r.expr()
    if r.i!=len(tk): raise Bad('text continues after the formula')
    return a
def closed(tk):
    """can stand in any operand position"""
    r=Reader(tk)
    try: r.atom()
    except Bad: return False
    return r.i==len(tk)
def canon_t(a):
    """a negated literal and a negative literal are the same"""
    if a[0]=='Neg':
        x=canon_t(a[1])
        return ['N',-x[1]] if x[0]=='N' else ['Neg',x]
    return [a[0]]+[canon_t(x) if isinstance(x,list) else x for x in a[1:]]
def same_t(st,a,b):
    if a[0]!=b[0] or len(a)!=len(b): return False
    for x,y in zip(a[1:],b[1:]):
        if isinstance(x,list):
            if not isinstance(y,list) or not same_t(st,x,y): return False
        elif isinstance(x,Poly):
            if not isinstance(y,Poly) or (x!=y if st is None else not is_zero_(x-y,st)): return False
        elif x!=y: return False
    return True
def is_zero_(p,st):
    from norm import is_zero
    return is_zero(p,st.ctx)[0]
def printed(want,closed_=True):
    """the result reads as `want` and can be an operand again"""
    def f(ex,st,val):
        v=raw(ex,st,val)
        if not isinstance(v,StrV): return [('a text',False)]
        try:
            tk=tokens(ex,st,v); got=canon_t(read(tk))
        except Bad as e: return [('readable',(False,None,'%r: %s'%(v,e)))]
        w=canon_t(want)
        return [('reads as the expression',(bool(same_t(st,got,w)),'structural','%r reads as %r, not %r'%(v,got,w))),
                ('usable as an operand',(not closed_ or closed(tk) or neglit(tk),'structural','%r'%(v,)))]
    return Pred(f)
def neglit(tk): return len(tk)==2 and tk[0]==('op','-') and tk[1][0] in('N','A')
def rd(s): return canon_t(read(lex(s)))
def printed_n(want,closed_=True):
    def f(real,_):
        if not isinstance(real,str): return False
        try: tk=lex(real); got=canon_t(read(tk))
        except Bad: return False
        return same_t(None,got,canon_t(want)) and (not closed_ or closed(tk) or neglit(tk))
    return f
# printed operands for the companion runs
def sh(t):
    o=t[0]
    if o=='Const':
        v=t[1]; return str(int(v)) if v==int(v) and abs(v)<1e15 else repr(v)
    if o=='Var': return t[1]
    if o=='Neg': return '(-%s)'%sh(t[1])
    if len(t)==3:
        b=sh(t[1])
        if o=='Pow' and b[0]=='-': b='(%s)'%b
        return '(%s %s %s)'%(b,{'Add':'+','Sub':'-','Mul':'*','Div':'/','Pow':'^'}[o],sh(t[2]))
    return '%s(%s)'%(o.lower(),sh(t[1]))
def g_text(r):
    from check import rnd_expr
    return sh(rnd_expr(r,[],r.choice([0,0,1,2,3])))
