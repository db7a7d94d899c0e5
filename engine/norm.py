"""Normalisation of terms under assumptions + equality decision + numeric evaluation (mpmath)."""
from fractions import Fraction as Q
import math
from terms import *
import mpmath, sympy

def all_atoms(x,acc):
    if isinstance(x,Poly):
        for m in x.t:
            for a,_ in m: all_atoms(a,acc)
    elif isinstance(x,Atom):
        if x in acc: return acc
        acc.add(x)
        for y in x.args: all_atoms(y,acc)
    elif isinstance(x,F):
        for y in x.a: all_atoms(y,acc)
    elif isinstance(x,tuple):
        for y in x: all_atoms(y,acc)
    return acc

_SUMSTACK=[]
def idxargs(a):
    """index positions of an atom that quantified facts are instantiated at"""
    if a.kind=='elem': return [(('elem',a.args[0]),a.args[1])]
    if a.kind=='fn' and a.args[0] in('xerr','xval','mapin:sets'):
        return [((a.args[0],i)+tuple(x for x in a.args[1:] if not isinstance(x,Poly)),y) for i,y in enumerate(a.args[1:]) if isinstance(y,Poly) and (len(y.atoms())!=1 or next(iter(y.atoms())).kind!='elem')]
    return []
class ICtx(Ctx):
    """Ctx with trigger-based instantiation of 'forall' facts on sequence elements and lemma instances"""
    def __init__(self,facts=(),timeout=2000,lemmas=()):
        super().__init__(facts,timeout); self.done=set(); self.seen=set(); self.lemmas=list(lemmas)
        self.fa=[f for f in facts if f.k=='forall']
        self.sums={}; self.busy=False; self.ufs={}; self.ud=set()
    def child(self,*fs):
        c=ICtx(self.facts+[f for f in fs if f is not TRUE],self.timeout,self.lemmas)
        return c
    def inst(self,f):
        acc=set(); all_atoms(f,acc)
        self._inst(acc)
    def _inst(self,acc):
        todo=[a for a in acc if a not in self.seen]
        for a in todo:
            self.seen.add(a)
            for l in self.lemmas:
                for g in l(a): 
                    if g not in self.facts: self.facts.append(g); self.inst(g)
            if a.kind=='elem' or a.kind=='fn' or a.kind=='var':
                for fa in self.fa: self.inst_one(fa,a)
            if a.kind=='sum': self.inst_sum(a)
            if a.kind=='fn' and isinstance(a.args[0],str) and a.args[0].startswith(('opq_','u:','mapin:')):   # congruence of uninterpreted functions
                for o in self.ufs.setdefault((a.args[0],len(a.args)),[]):
                    if not all(isinstance(x,Poly) and isinstance(y,Poly) or x==y for x,y in zip(a.args[1:],o.args[1:])): continue
                    ds=[x-y for x,y in zip(a.args[1:],o.args[1:]) if isinstance(x,Poly) and x!=y]
                    if any(d.cval() is not None for d in ds): continue
                    g=Or(*[Not(F_eq(d)) for d in ds],F_eq(P(a)-P(o)))
                    if g not in self.facts: self.facts.append(g); self.inst(g)
                self.ufs[(a.args[0],len(a.args))].append(a)
    def inst_sum(self,a):
        """sign of a sum from the sign of its body; relation between sums of the same body"""
        bn,lo,hi,body=a.args
        if body.cval() is not None: return
        g=Implies(hi.le(lo),F_eq(P(a)))
        if g not in self.facts: self.facts.append(g)
        key=(bn,lo,body)
        for hi2,a2 in self.sums.get(key,[]):
            d=(hi-hi2).cval()
            if d is None or abs(d)>4 or d.denominator!=1: continue
            (h,S,B)=(hi2,a2,a) if d>0 else (hi,a,a2)
            b=atom('var',bn,sort='int')
            e=P(B)-P(S)
            for i in range(int(abs(d))): e=e-subst(body,{b:h+i})
            g=Implies(lo.le(h),F_eq(e))
            if g not in self.facts: self.facts.append(g); self.inst(g)
        self.sums.setdefault(key,[]).append((hi,a))
        if len(_SUMSTACK)>2: return
        b=P(atom('var',bn,sort='int'))
        _SUMSTACK.append(a)
        try:
            cx=ICtx([f for f in self.facts if not any(x.kind=='sum' for x in all_atoms(f,set()))]+[b.ge(lo),b.lt(hi)],self.timeout,self.lemmas)
            n=Norm(cx)
            try: bb=n.norm(body)
            except Unsupported: bb=body
            if n.pos(bb): g=[P(a).ge(0),Implies(lo.lt(hi),P(a).gt(0))]
            elif n.nonneg(bb): g=[P(a).ge(0)]
            else: g=[]
        finally: _SUMSTACK.pop()
        for x in g:
            if x not in self.facts: self.facts.append(x)
    def known_norm(self,f):
        """truth of f after normalising its terms (exp(ln x) etc.)"""
        if self.busy or f.k not in('le','lt','eq'): return None
        if not any(a.kind in('exp','ln','P','sum','prod','fn','ite') for a in all_atoms(f,set())): return None
        key=('kn',f)
        if key in self.memo: return self.memo[key]
        self.busy=True
        r=None
        try:
            n=Norm(self)
            p=n.norm(f.a[0])
            num,den=clear(p)
            if den!=ONE and n.pos(den): p=n.norm(num)
            if p!=f.a[0]:
                g={'le':F_le,'lt':F_lt,'eq':F_eq}[f.k](p)
                if g.k=='true' or self.proves(g): r=True
                elif g.k=='false' or self.proves(Not(g)): r=False
        except Unsupported: pass
        finally: self.busy=False
        self.memo[key]=r
        return r
    def inst_one(self,fa,a):
        bn,lo,hi,body=fa.a
        b=atom('var',bn,sort='int')
        trig=set(); all_atoms(body,trig)
        mine=dict(idxargs(a))
        if not mine: return
        for t in trig:
            for tk,ti in idxargs(t):
                if tk not in mine: continue
                # idx of trigger must be b + const or linear
                d=ti-P(b)
                if b in d.atoms(): continue
                idx=mine[tk]-d
                if any(x.kind=='var' and x.args[0].startswith('#') and x.args[0]==bn and False for x in idx.atoms()): continue
                key=(fa,idx)
                if key in self.done: continue
                self.done.add(key)
                g=Implies(And(lo.le(idx),idx.lt(hi)),subst(body,{b:idx}))
                if g not in self.facts:
                    self.facts.append(g); self.inst(g)
    def solver(self):
        i=0
        while i<len(self.facts):
            f=self.facts[i]; i+=1
            if f.k=='not' and f.a[0].k=='forall' and f not in self.seen:
                bn,lo,hi,body=f.a[0].a
                w=ivar('wit!%d'%WIT.setdefault(f,len(WIT)))
                for g in(lo.le(w),w.lt(hi),Not(subst(body,{atom('var',bn,sort='int'):w}))):
                    if g not in self.facts: self.facts.append(g)
            if f.k!='forall': 
                if f not in self.seen:
                    self.seen.add(f); self.inst(f)
        return super().solver()
    def check(self,f):
        if f is FALSE: return 'unsat'
        if f not in self.memo: self.inst(f)
        return super().check(f)
    def proves(self,f):
        if has_forall(f):
            key=('pr',f)
            if key not in self.memo: self.memo[key]=self._proves_q(f)
            return self.memo[key]
        r=super().proves(f)
        if not r and any(g.k in('or','and') and has_forall(g) and g not in self.ud for g in self.facts):
            n=len(self.facts); self.inst(f); self.unit()
            if len(self.facts)>n: self.memo={}; r=super().proves(f)
        return r
    def unit(self):
        # quantified disjuncts whose alternatives are refuted become facts
        i=0
        while i<len(self.facts):
            f=self.facts[i]; i+=1
            if f.k not in('or','and') or not has_forall(f) or f in self.ud: continue
            if f.k=='and':
                self.ud.add(f); new=list(f.a)
            else:
                live=[x for x in f.a if has_forall(x) or not super(ICtx,self).proves(Not(x))]
                if len(live)!=1: continue
                self.ud.add(f); new=live
            for g in new:
                if g in self.facts: continue
                self.facts.append(g); self.memo={}
                if g.k=='forall':
                    self.fa.append(g)
                    for a in list(self.seen):
                        if isinstance(a,Atom): self.inst_one(g,a)
                else: self.inst(g)
    def _proves_q(self,f):
        if f in self.facts: return True
        self.solver(); self.unit()
        if f.k=='forall':
            bn,lo,hi,body=f.a
            n=1+max([0]+[int(a.args[0][3:]) for x in self.facts+[f] for a in all_atoms(x,set()) if a.kind=='var' and a.args[0].startswith('sk!')])
            k=ivar('sk!%d'%n)
            c=self.child(lo.le(k),k.lt(hi))
            if c.check(TRUE)=='unsat': return True
            bd=atom('var',bn,sort='int')
            if c.proves(subst(body,{bd:k})): return True
            # the first indices one by one (peeled iterations), the rest generically
            if lo.cval() is not None and any(a.kind=='elem' for a in all_atoms(body,set())):
                for p in(1,2):
                    c0=self.child((lo+p-1).lt(hi))
                    if c0.check(TRUE)!='unsat' and not c0.proves(subst(body,{bd:lo+p-1})): break
                    c=self.child((lo+p).le(k),k.lt(hi))
                    if c.check(TRUE)=='unsat' or c.proves(subst(body,{bd:k})): return True
            return False
        if f.k=='and': return all(self.proves(x) for x in f.a)
        if f.k=='or':
            for i,x in enumerate(f.a):
                if has_forall(x):
                    return self.child(*[Not(y) for j,y in enumerate(f.a) if j!=i]).proves(x)
        if f.k=='not' and f.a[0].k=='forall':
            bn,lo,hi,body=f.a[0].a
            bd=atom('var',bn,sort='int')
            names={k for a in all_atoms(body,set()) for k,i in idxargs(a) if bd in i.atoms()}
            cand=[lo,hi-1]
            for x in self.facts:
                if x.k=='forall': continue
                for a in all_atoms(x,set()):
                    for k,i in idxargs(a):
                        if k in names and i not in cand: cand.append(i)
            for w in cand:
                if any(x.kind=='var' and x.args[0].startswith('#') for x in w.atoms()): continue
                if self.proves(And(lo.le(w),w.lt(hi),Not(subst(body,{bd:w})))): return True
        if f in self.facts: return True
        return self.check(Not(f))=='unsat'

WIT={}
def has_forall(f): return f.k=='forall' or (f.k in('and','or','not') and any(has_forall(x) for x in f.a))
def pins_of(facts):
    """integer variables whose value is fixed by bounds among the facts"""
    lo={};hi={};ne={}
    for f in facts:
        if f.k=='not' and f.a[0].k=='eq':
            t=f.a[0].a[0].t
            ms=[m for m in t if m]
            if len(ms)==1 and len(t)<=2 and len(ms[0])==1 and ms[0][0][1]==1: ne.setdefault(ms[0][0][0],set()).add(-t.get((),Q(0))/t[ms[0]])
        if f.k not in('le','lt','eq'): continue
        t=f.a[0].t
        if len(t)>2: continue
        ms=[m for m in t if m]
        if len(ms)!=1 or len(ms[0])!=1 or ms[0][0][1]!=1: continue
        a=ms[0][0][0]
        if a.kind!='var' or not P(a).isint(): continue
        c=t[ms[0]]; k=-t.get((),Q(0))/c
        if f.k=='eq': 
            lo[a]=max(lo.get(a,k),k); hi[a]=min(hi.get(a,k),k)
        elif c>0:
            k=math.ceil(k)-1 if f.k=='lt' else math.floor(k)
            hi[a]=min(hi.get(a,k),k)
        else:
            k=math.floor(k)+1 if f.k=='lt' else math.ceil(k)
            lo[a]=max(lo.get(a,k),k)
    for a,v in ne.items():
        while a in lo and lo[a] in v and not(a in hi and lo[a]>hi[a]): lo[a]+=1
        while a in hi and hi[a] in v and not(a in lo and lo[a]>hi[a]): hi[a]-=1
    return {a:const(Q(lo[a])) for a in lo if a in hi and lo[a]==hi[a]}
class Norm:
    def __init__(self,ctx):
        self.ctx=ctx; self.memo={}; self.budget=4000
        self.pins=pins_of(ctx.facts)
    def pos(self,p):
        c=p.cval()
        if c is not None: return c>0
        if len(p.t)==1:
            (m,c),=p.t.items()
            if c>0 and all(a.kind in('exp','pi') or (a.kind=='P' and e.denominator!=1 and a.args[0].cval() is not None) for a,e in m): return True
        return self.ctx.proves(p.gt(0))
    def nonneg(self,p):
        c=p.cval()
        if c is not None: return c>=0
        return self.ctx.proves(p.ge(0))
    def neg(self,p):
        c=p.cval()
        if c is not None: return c<0
        return self.ctx.proves(p.lt(0))
    def norm(self,p):
        if p in self.memo: return self.memo[p]
        self.budget-=1
        if self.budget<0: raise Unsupported('normaliser budget')
        r=ZERO
        for m,c in p.t.items():
            x=const(c)
            for a,e in m:
                x=x*self.atom_pow(a,e)
            r=r+x
        self.memo[p]=r
        if r!=p and r not in self.memo: self.memo[r]=r
        return r
    def atom_pow(self,a,e):
        k=a.kind
        if k=='var' and a in self.pins: return self.ppow(self.pins[a],e)
        if k in('var','pi'): return Poly({((a,e),):Q(1)})
        if k=='P': return self.ppow(self.norm(a.args[0]),e)
        y=self.atom(a)
        return self.ppow(y,e)
    def ppow(self,p,e):
        e=Q(e)
        if e.denominator==1 and (e>0 or p.cval()is not None): return p**int(e)
        if e==0: return ONE
        if p.cval() is not None:
            if p.cval()==0: 
                if e>0: return ZERO
                return P(atom('bad0'))
            if p.cval()>0: return ppow(p,e)
        if len(p.t)==1:
            (m,c),=p.t.items()
            if len(m)==1 and c==1:
                b,eb=m[0]
                if eb==1: 
                    return Poly({((b,e),):Q(1)}) if b.kind!='P' else ppow(b.args[0],e)
            if e.denominator==1: return p**int(e)
            # distribute when factors positive
            r=ONE; rest=None; cc=c; rest_m=[]
            for b,eb in m:
                bp=P(b) if b.kind!='P' else b.args[0]
                if self.pos(bp): r=r*(Poly({((b,eb*e),):Q(1)}) if b.kind!='P' else ppow(bp,eb*e))
                elif self.neg(bp) and eb.denominator==1:
                    if eb%2: cc=-cc
                    r=r*self.ppow(-bp,eb*e)
                elif eb.denominator==1 and eb%2==0 and self.nonneg(bp): r=r*ppow(bp,eb*e)
                else: rest_m.append((b,eb))
            if not rest_m and cc>0: return r*ppow(const(cc),e)
            if rest_m:
                ac=abs(cc)
                inner=Poly({tuple(rest_m):cc/ac})
                if (cc>0) and len(rest_m)==1 and rest_m[0][1]==1: return r*ppow(const(ac),e)*ppow(inner,e)
                return r*ppow(const(ac),e)*ppow(inner,e)
            return ppow(p,e)
        p=self.frac(p)
        num,den=p
        if den==ONE:
            c,mono,q=content(num)
            if e.denominator==1:
                return self.polypow(num,e)
            fs=self.factors(num)
            return self.pow_factors(fs,e,num)
        if e.denominator==1:
            return self.polypow(num,e)*self.polypow(den,-e)
        fs=self.factors(num)+[(f,-k) for f,k in self.factors(den)]
        return self.pow_factors(fs,e,num*inv(den))
    def polypow(self,p,e):
        n=int(e)
        if n>=0: return p**n
        r=ONE
        for f,k in self.factors(p): 
            r=r*(inv(f)**(int(k)*-n)) if k.denominator==1 else r*ppow(f,k*n)
        return r
    def pow_factors(self,fs,e,orig):
        r=ONE; c=Q(1); rest=ONE
        for f,k in fs:
            if f.cval() is not None: c*=f.cval()**int(k); continue
            if self.pos(f): r=r*ppow(f,k*e) if not(len(f.t)==1) else r*self.ppow(f,k*e)
            elif self.neg(f):
                if k%2: c=-c
                r=r*ppow(-f,k*e)
            elif k.denominator==1 and k%2==0 and self.nonneg(f): r=r*ppow(f,k*e)
            else: rest=rest*(f**int(k))
        if rest==ONE and c>0: return r*ppow(const(c),e)
        if rest!=ONE:
            if c<0: rest=-rest; c=-c
            return r*ppow(const(c),e)*ppow(rest,e)
        return ppow(orig,e)
    # rational form
    def frac(self,p):
        """p = num/den with P-atoms of negative integer exponent cleared"""
        return clear(p)
    def factors(self,p):
        """factor list [(Poly,exp)] with product == p ; sign/constant included"""
        if p.cval() is not None: return [(p,Q(1))]
        c,mono,q=content(p)
        out=[]
        if c!=1: out.append((const(c),Q(1)))
        for a,e in mono: out.append((P(a) if a.kind!='P' else a.args[0],e))
        if q!=ONE:
            out+=sym_factor(q)
        return out
    def atom(self,a):
        k=a.kind
        if k in('var','pi','bad0'): return P(a)
        if k=='ln': return self.ln(self.norm(a.args[0]))
        if k=='exp': return self.exp(self.norm(a.args[0]))
        if k=='lgamma': return self.lgamma(self.norm(a.args[0]))
        if k=='elem': return P(atom('elem',a.args[0],self.norm(a.args[1]),sort=a.sort))
        if k=='ite':
            c=a.args[0]
            if self.ctx.proves(c): return self.norm(a.args[1])
            if self.ctx.proves(Not(c)): return self.norm(a.args[2])
            if c.k=='and' and len(c.a)<=4:
                return self.norm(ite(c.a[0],ite(And(*c.a[1:]),a.args[1],a.args[2]),a.args[2]))
            if c.k=='or' and len(c.a)<=4:
                return self.norm(ite(c.a[0],a.args[1],ite(Or(*c.a[1:]),a.args[1],a.args[2])))
            cc=self.ctx.child(c); nc=self.ctx.child(Not(c))
            e1,v1=self.cond_pin(c,cc); e2,v2=self.cond_pin(Not(c),nc)
            A,Bv=a.args[1],a.args[2]
            if v1 is not None: A=subst(A,{e1:v1})
            if v2 is not None: Bv=subst(Bv,{e2:v2})
            n1=Norm(cc); n2=Norm(nc)
            x=n1.norm(A); y=n2.norm(Bv)
            if x==y: return x
            if v1 is not None:
                if n1.norm(subst(y,{e1:v1}))==x: return y
                if e1 is e2 and v2 is not None and v1.cval() is not None and v2.cval() is not None and v1!=v2: return x+(y-x)*(P(e1)-v1)*const(1/(v2-v1).cval())
            if v2 is not None and n2.norm(subst(x,{e2:v2}))==y: return x
            if x.cval() is not None and self.empty(y,cc)==x: return y
            if y.cval() is not None and self.empty(x,nc)==y: return x
            return ite(self.normF(c),x,y)
        if k in('sum','prod','max'): return self.bind(a)
        if k=='fn':
            nm=a.args[0]
            args=[self.norm(x) if isinstance(x,Poly) else x for x in a.args[1:]]
            return self.fn(nm,args,a.sort)
        return P(atom(k,*[self.norm(x) if isinstance(x,Poly) else x for x in a.args],sort=a.sort))
    def empty(self,p,ctx):
        """p with the sums whose range is empty under ctx removed"""
        z=[a for a in p.atoms() if a.kind in('sum','prod') and a.args[1]==ZERO and ctx.proves(a.args[2].le(0))]
        return subst(p,{a:ZERO if a.kind=='sum' else ONE for a in z}) if z else None
    def cond_pin(self,c,ctx):
        """the integer atom of c whose value is fixed under c (with the other facts), and that value"""
        neg=False
        if c.k=='not': c=c.a[0]; neg=True
        if c.k not in('le','lt','eq'): return None,None
        q=c.a[0]
        ms=[m for m in q.t if m]
        if len(ms)!=1 and c.k=='eq' and not neg:
            for want in('elem','var'):
                for m in sorted(ms,key=lambda m:show(Poly({m:Q(1)}))):
                    if len(m)==1 and m[0][1]==1 and m[0][0].kind==want and abs(q.t[m])==1 and not any(m2 is not m and any(depends(b,m[0][0]) for b,_ in m2) for m2 in ms):
                        return m[0][0],(Poly({m:Q(1)})-q*const(1/q.t[m]))
        if len(ms)!=1 or len(ms[0])!=1 or ms[0][0][1]!=1: return None,None
        a=ms[0][0][0]
        if a.kind not in('var','elem') or a.sort!='int': return None,None
        k=-q.t.get((),Q(0))/q.t[ms[0]]
        f=math.floor(k)
        for v in ((f,) if c.k=='eq' and not neg else (f,f+1,f-1)):
            if ctx.proves(P(a).eq(v)): return a,const(v)
        return a,None
    def normF(self,f):
        if f.k in('le','lt','eq'): 
            return {'le':F_le,'lt':F_lt,'eq':F_eq}[f.k](self.norm(f.a[0]))
        if f.k=='and': return And(*[self.normF(x) for x in f.a])
        if f.k=='or': return Or(*[self.normF(x) for x in f.a])
        if f.k=='not': return Not(self.normF(f.a[0]))
        return f
    def fn(self,nm,args,sort):
        if nm=='ipow':
            c=args[1].cval()
            if c is not None and c.denominator==1 and 0<=c<=64:
                r=ONE
                for _ in range(int(c)): r=r*args[0]
                return r
        if nm=='abs':
            if self.nonneg(args[0]): return args[0]
            if self.neg(args[0]): return -args[0]
            n1=-args[0]
            if show(n1)<show(args[0]): args=[n1]
        if nm in('trunc','floor') :
            c=args[0].cval()
            if c is not None: return const(math.floor(c) if (nm=='floor' or c>=0) else -math.floor(-c))
            if args[0].isint() or any(g.k=='isint' and g.a[0]==args[0] for g in self.ctx.facts): return args[0]
        if nm in('sin','cos','tan'):
            c=args[0].cval()
            if c==0: return const(1 if nm=='cos' else 0)
            n1=-args[0]
            if show(n1)<show(args[0]):
                r=P(atom('fn',nm,n1,sort=sort))
                return r if nm=='cos' else -r
        return P(atom('fn',nm,*args,sort=sort))
    def ln(self,p):
        if p==ONE: return ZERO
        c=p.cval()
        if c is not None:
            if c<=0: return P(atom('ln',p))
            r=ZERO
            for pr,k in factor_q(c).items(): r=r+const(k)*P(atom('ln',const(pr)))
            return r
        num,den=clear(p)
        fs=self.factors(num)+[(f,-k) for f,k in self.factors(den)]
        if len(fs)==1 and fs[0][1]==1:
            f=fs[0][0]
            if len(f.t)==1:
                (m,c),=f.t.items()
                if c==1 and len(m)==1 and m[0][0].kind=='exp' : return m[0][1]*m[0][0].args[0]
            if f==p: return P(atom('ln',p))
            return self.ln1(f)
        cst=Q(1); r=ZERO; rest=ONE
        for f,k in fs:
            if f.cval() is not None: cst*=f.cval()**int(k); continue
            if self.pos(f): r=r+const(k)*self.ln1(f)
            elif self.neg(f):
                if k.denominator!=1: return P(atom('ln',p))
                if k%2: cst=-cst
                r=r+const(k)*self.ln1(-f)
            else: rest=rest*mypow(f,k)
        if cst<0: rest=-rest; cst=-cst
        if rest!=ONE:
            r=r+P(atom('ln',rest))
            if rest.cval() is not None: return P(atom('ln',p))
        if cst!=1: r=r+self.ln(const(cst))
        return r
    def ln1(self,f):
        if len(f.t)==1:
            (m,c),=f.t.items()
            if c==1 and len(m)==1:
                a,e=m[0]
                if a.kind=='exp': return e*a.args[0]
                if a.kind=='P': return e*self.ln1(a.args[0])
                if a.kind=='prod':
                    bn,lo,hi,body=a.args
                    return self.norm(e*P(atom('sum',bn,lo,hi,ln(body))))
                if e!=1: return e*self.ln1(P(a))
        if f.cval() is not None: return self.ln(f)
        return P(atom('ln',f))
    def exp(self,p):
        if p==ZERO: return ONE
        r=ONE
        for m,c in p.t.items():
            if len(m)==1 and m[0][1]==1 and m[0][0].kind=='ln':
                r=r*self.ppow(m[0][0].args[0],c)
            else:
                r=r*Poly({((atom('exp',Poly({m:Q(1)})),c),):Q(1)})
        return r
    def lgamma(self,p):
        c=p.cval()
        if c is not None and c.denominator==1 and 0<c<=40:
            return self.ln(const(math.factorial(int(c)-1)))
        if c is not None and c.denominator==2 and 0<c<=40:
            # lgamma(1/2)=ln(pi)/2
            z=c; acc=ZERO
            while z>Q(1,2): z=z-1; acc=acc+self.ln(const(z))
            return acc+Q(1,2)*P(atom('ln',PI))
        k=p.t.get((),Q(0))
        q=p
        acc=ZERO; n=0
        while k>1 and n<60:
            if not self.pos(q-1): break
            q=q-1; acc=acc+self.ln(q); k-=1; n+=1
        while k<=0 and n<60:
            if not self.pos(q): break
            acc=acc-self.ln(q); q=q+1; k+=1; n+=1
        return P(atom('lgamma',q))+acc
    def bind(self,a):
        k=a.kind
        bn,lo,hi,body=a.args
        lo=self.norm(lo); hi=self.norm(hi)
        d=(hi-lo).cval()
        b=atom('var',bn,sort='int')
        if d is not None and d<=0: return ZERO if k=='sum' else ONE
        if d is not None and d<=64 and k in('sum','prod'):
            r=ZERO if k=='sum' else ONE
            for i in range(int(d)):
                x=subst(body,{b:lo+i})
                r=r+x if k=='sum' else r*x
            return self.norm(r)
        if lo!=ZERO:
            body=subst(body,{b:P(b)+lo}); hi=hi-lo; lo=ZERO
        # index must be distinct from surrounding bound variables: guaranteed by level naming
        cx=self.ctx.child(P(b).ge(0),P(b).lt(hi))
        body=Norm(cx).norm(body)
        body=self.try_reverse(body,b,hi)
        if k=='sum':
            r=ZERO
            nn=self.nonneg(hi)
            groups={}
            for m,c in body.t.items():
                sp=self.split_ite(b,hi,m) if nn else None
                if sp is not None:
                    r=r+c*sp; continue
                dep=tuple((x,e) for x,e in m if depends(x,b)); ind=tuple((x,e) for x,e in m if not depends(x,b))
                groups.setdefault(dep,ZERO); groups[dep]=groups[dep]+Poly({ind:c})
            for dep,co in groups.items():
                if not dep:
                    if nn: r=r+co*hi
                    else: r=r+co*P(atom('sum',bn,lo,hi,ONE,sort='int'))
                    continue
                r=r+co*self.sum1(b,hi,Poly({dep:Q(1)}))
            return r
        if k=='prod':
            return P(atom('prod',self.lvl(body,b),lo,hi,self.relvl(body,b),sort=a.sort))
        # max: extract independent additive part
        ind=Poly({m:c for m,c in body.t.items() if not any(depends(x,b) for x,_ in m)})
        dep=body-ind
        if dep==ZERO: return ind
        return ind+P(atom('max',self.lvl(dep,b),lo,hi,self.relvl(dep,b),sort='real'))
    def split_ite(self,b,hi,m):
        """sum over b<hi of a monomial containing an if-then-else on the index: split the range (or the single point) where the condition holds"""
        for x,e in m:
            if x.kind!='ite' or e!=1: continue
            cnd,u,v=x.args
            if cnd.k=='not': cnd,u,v=cnd.a[0],v,u
            if cnd.k not in('eq','lt','le'): continue
            p=cnd.a[0]
            co=p.t.get(((b,Q(1)),))
            if co is None or abs(co)!=1: continue
            rest=p-co*P(b)
            if depends(rest,b): continue
            oth=Poly({tuple((y,q) for y,q in m if y is not x):Q(1)})
            if cnd.k=='eq':
                pt=rest*(-co)
                if not pt.isint(): continue
                inr=And(pt.ge(0),pt.lt(hi))
                val=subst(oth*(u-v),{b:pt})
                z=ite(inr,val,ZERO)
                if self.ctx.proves(inr): z=val
                elif self.ctx.proves(Not(inr)): z=ZERO
                return self.norm(P(atom('sum',self.lvl(oth*v,b),ZERO,hi,self.relvl(oth*v,b),sort='real')))+self.norm(z) if v!=ZERO else self.norm(z)
            if co==1:
                t=-rest if cnd.k=='lt' else -rest+1      # true for b<t
                lo_,hi_=u,v
            else:
                t=rest+1 if cnd.k=='lt' else rest        # true for b>=t  (lt: rest-b<0 -> b>rest)
                lo_,hi_=v,u
            if not t.isint(): continue
            S=lambda n,body:self.norm(P(atom('sum',self.lvl(body,b),ZERO,n,self.relvl(body,b),sort='real'))) if body!=ZERO else ZERO
            if self.ctx.proves(t.le(0)): return S(hi,oth*hi_)
            if self.ctx.proves(t.ge(hi)): return S(hi,oth*lo_)
            if self.ctx.proves(t.ge(0)) and self.ctx.proves(t.le(hi)):
                return S(t,oth*lo_)+S(hi-t,subst(oth*hi_,{b:P(b)+t}))
        return None
    def try_reverse(self,body,b,hi):
        acc=set(); all_atoms(body,acc)
        ids=[a.args[1] for a in acc if a.kind=='elem' and depends(a,b)]
        if ids and all(((((b,Q(1)),),Q(-1)) in i.t.items()) for i in ids):
            return subst(body,{b:hi-1-P(b)})
        return body
    def lvl(self,body,b): 
        return '#%d'%self._l(body,b)
    def _l(self,body,b):
        # level = 1+max level of bound variables inside other than b
        m=0
        acc=set(); all_atoms(body,acc)
        for a in acc:
            if a.kind in('sum','prod','max','fold'): m=max(m,int(a.args[0][1:])+1)
        return m
    def relvl(self,body,b):
        l=self._l(body,b)
        nb=atom('var','#%d'%l,sort='int')
        return body if nb is b else subst(body,{b:P(nb)})
    def sum1(self,b,hi,mono):
        (m,c),=mono.t.items()
        # sum_{j<h} ln(j+1) = lgamma(h+1)
        if len(m)==1 and m[0][1]==1 and m[0][0].kind=='ln':
            s=m[0][0].args[0]-P(b)
            if b not in s.atoms() and self.pos(s):
                # sum ln(j+s) = lgamma(h+s)-lgamma(s)
                return self.norm(lgamma(hi+s))-self.norm(lgamma(s))
        if m==((b,Q(1)),): return hi*(hi-1)*Q(1,2)
        if m==((b,Q(2)),): return hi*(hi-1)*(2*hi-1)*Q(1,6)
        w=self.swap_sums(b,hi,m)
        if w is not None: return w
        body=Poly({m:Q(1)})
        return P(atom('sum',self.lvl(body,b),ZERO,hi,self.relvl(body,b),sort='real'))
    def swap_sums(self,b,hi,m):
        """nested sums with independent ranges: the range that prints first is put outside"""
        ss=[x for x,e in m if x.kind=='sum' and e==1 and depends(x,b)]
        if len(ss)!=1: return None
        s=ss[0]; sn,slo,shi,sbody=s.args
        if slo!=ZERO or depends(shi,b) or show(shi)>=show(hi): return None
        t=atom('var','swap!'+sn,sort='int')
        full=Poly({tuple((x,e) for x,e in m if x is not s):Q(1)})*subst(sbody,{atom('var',sn,sort='int'):P(t)})
        if len(full.t)!=1 or any(x.kind=='var' and x is not t and x.args[0].startswith('swap!') for x in all_atoms(full,set())): return None
        (fm,c),=full.t.items()
        dep=Poly({tuple((x,e) for x,e in fm if depends(x,b)):Q(1)}); ind=Poly({tuple((x,e) for x,e in fm if not depends(x,b)):c})
        body=ind*P(atom('sum',self.lvl(dep,b),ZERO,hi,self.relvl(dep,b),sort='real'))
        if len(body.t)!=1: return None
        (fm,c),=body.t.items()
        dep=Poly({tuple((x,e) for x,e in fm if depends(x,t)):Q(1)}); ind=Poly({tuple((x,e) for x,e in fm if not depends(x,t)):c})
        return ind*P(atom('sum',self.lvl(dep,t),ZERO,shi,self.relvl(dep,t),sort='real'))

def depends(x,b):
    if isinstance(x,Atom):
        if x is b: return True
        return any(depends(y,b) for y in x.args)
    if isinstance(x,Poly): return any(depends(a,b) for m in x.t for a,_ in m)
    if isinstance(x,F): return any(depends(y,b) for y in x.a)
    if isinstance(x,tuple): return any(depends(y,b) for y in x)
    return False

def clear(p):
    """clear P-atom denominators: p = num/den"""
    dens={}
    for m in p.t:
        for a,e in m:
            if a.kind=='P' and e<0:
                n=-math.floor(e)
                dens[a]=max(dens.get(a,0),n)
    if not dens: return p,ONE
    den=ONE
    num=p
    for a,n in dens.items():
        den=den*(a.args[0]**n)
    # multiply carefully: exponent bookkeeping per monomial
    num=ZERO
    for m,c in p.t.items():
        d=dict(m); extra=ONE; x=Poly({():c})
        mm=[]
        for a,n in dens.items():
            e=d.pop(a,Q(0))+n
            f=math.floor(e); fr=e-f
            extra=extra*(a.args[0]**f)
            if fr: mm.append((a,fr))
        mono=tuple(sorted(list(d.items())+mm,key=lambda z:z[0].id))
        num=num+Poly({mono:c})*extra
    if any(a.kind=='P' and e<0 for m in num.t for a,e in m):
        n2,d2=clear(num)
        return n2,den*d2
    return num,den

_fmemo={}
def sym_factor(q):
    """factor primitive polynomial q via sympy if exponents are nonnegative integers"""
    if q in _fmemo: return _fmemo[q]
    r=[(q,Q(1))]
    ats=sorted(q.atoms())
    if len(ats)<=6 and len(q.t)<=40 and all(e.denominator==1 and e>0 for m in q.t for _,e in m):
        deg=max(sum(e for _,e in m) for m in q.t)
        if deg>1:
            syms={a:sympy.Symbol('s%d'%i) for i,a in enumerate(ats)}
            ex=sum(sympy.Rational(c.numerator,c.denominator)*sympy.prod([syms[a]**int(e) for a,e in m]) for m,c in q.t.items())
            try:
                c,fl=sympy.factor_list(ex,*syms.values())
                if len(fl)>1 or fl[0][1]>1:
                    r=[]
                    cc=Q(int(c.p),int(c.q))
                    back={str(s):a for a,s in syms.items()}
                    for f,k in fl:
                        pf=sympy.Poly(f,*syms.values())
                        d={}
                        for mon,co in pf.terms():
                            d[tuple(sorted(((a,Q(e)) for a,e in zip(ats,mon) if e),key=lambda z:z[0].id))]=Q(int(co.p),int(co.q))
                        pf=Poly(d)
                        c2,mm,pq=content(pf)
                        assert not mm or True
                        cc*=c2**k
                        if mm: pq=pq*Poly({mm:Q(1)})
                        r.append((pq,Q(k)))
                    if cc!=1: r.append((const(cc),Q(1)))
            except Exception as e:
                r=[(q,Q(1))]
    _fmemo[q]=r
    return r

def is_zero(p,ctx,depth=0):
    """returns (bool, how, residual)"""
    if p==ZERO: return True,'syntactic',ZERO
    n=Norm(ctx)
    r=n.norm(p)
    for _ in range(3):
        if r==ZERO: return True,'normaliser',ZERO
        num,den=clear(r)
        r2=Norm(ctx).norm(num)
        if r2==ZERO: return True,'normaliser',ZERO
        if r2==r: break
        r=r2
    sb=unify_sums([r],ctx)
    if sb:
        r2=Norm(ctx).norm(subst(r,sb)); num,_=clear(r2); r2=Norm(ctx).norm(num)
        if r2==ZERO: return True,'normaliser',ZERO
    if ctx.proves(F_eq(r)): return True,'z3',ZERO
    # equalities from the context
    z,how,r3=by_eqs(r,ctx)
    if z: return True,how,ZERO
    if depth<5:
        its=sorted((a for a in all_atoms(r,set()) if a.kind=='ite'),key=show_atom)
        for a in its:
            c=a.args[0]
            if any(x.kind=='var' and x.args[0].startswith('#') for x in all_atoms(c,set())): continue
            if c.k=='b' : continue
            for f in(c,Not(c)):
                k=ctx.child(f)
                if k.check(TRUE)=='unsat': continue
                z,_,_=is_zero(p,k,depth+1)
                if not z: break
            else: return True,'case split',ZERO
            break
        z=small_int(r,ctx,depth) or pointwise(r,ctx,depth)
        if z: return True,'case split',ZERO
    return False,None,r
def small_int(r,ctx,depth):
    """an integer inside lgamma that the facts confine to a few values: one case per value"""
    if any(a.kind in('sum','prod','max') for a in all_atoms(r,set())): return False
    vs=sorted({x for a in all_atoms(r,set()) if a.kind=='lgamma' for x in a.args[0].atoms() if x.kind in('var','elem') and x.sort=='int' and not(x.kind=='var' and x.args[0].startswith('#'))},key=show_atom)
    for x in vs:
        k=next((k for k in range(4) if ctx.proves(P(x).le(k))),None)
        if k is None or not ctx.proves(P(x).ge(0)): continue
        for v in range(k+1):
            c=ctx.child(P(x).eq(v))
            if c.check(TRUE)=='unsat': continue
            if not is_zero(subst(r,{x:const(v)}),c,depth+1)[0]: return False
        return True
    return False
def pointwise(r,ctx,depth):
    """a sum is zero if each of its terms is"""
    sums=[a for a in r.atoms() if a.kind=='sum' and a.args[1]==ZERO]
    if not sums or depth>=3: return False
    hi=sums[0].args[2]; t=atom('var','pt!%d'%depth,sort='int')
    h=next(iter(hi.t.items()),None) if len(hi.t)==1 else None
    h=h[0][0][0] if h and h[1]==1 and len(h[0])==1 and h[0][0][1]==1 else None
    body=ZERO; rest=ZERO
    for m,c in r.t.items():
        ss=[a for a,e in m if a in sums]
        if len(ss)==1 and ss[0].args[2]==hi and all(e==1 for a,e in m if a is ss[0]):
            o=Poly({tuple((a,e) for a,e in m if a is not ss[0]):c})
            body=body+o*subst(ss[0].args[3],{atom('var',ss[0].args[0],sort='int'):P(t)})
        elif h is not None and not ss and any(a is h and e==1 for a,e in m):
            body=body+Poly({tuple((a,e) for a,e in m if a is not h):c})
        else: rest=rest+Poly({m:c})
    if not ctx.proves(hi.ge(0)): return False
    if rest!=ZERO and not is_zero(rest,ctx,depth+1)[0]: return False
    return is_zero(body,ctx.child(P(t).ge(0),P(t).lt(hi)),depth+1)[0]
def eq_rewrites(ctx,r):
    ctx.proves(F_eq(r))      # instantiates the facts about the atoms of r
    eqs=[f.a[0] for f in ctx.facts if f.k=='eq']
    for f in list(ctx.facts):
        if f.k=='le' and len(f.a[0].t)<=3 and all(a.kind in('var','elem','fn') for m in f.a[0].t for a,_ in m) and f.a[0] not in eqs and -f.a[0] not in eqs and ctx.proves(f.a[0].ge(0)): eqs.append(f.a[0])
        if f.k=='or':       # guarded equations whose guard holds
            q=[x for x in f.a if x.k=='eq']
            if len(q)==1 and q[0].a[0] not in eqs and all(ctx.proves(Not(x)) for x in f.a if x.k!='eq'): eqs.append(q[0].a[0])
    def simple(e):
        ms=[m for m in e.t if m]
        return (0 if len(ms)==1 and len(ms[0])==1 and ms[0][0][0].kind in('var','elem') else 1) if len(ms)==1 else 2
    eqs.sort(key=simple)
    return eqs
def _shift(a):
    """(c, body'): the sum ranges over absolute positions [c, c+hi) of body' (element accesses start at the bound index itself)"""
    bn,lo,hi,body=a.args
    b=atom('var',bn,sort='int'); acc=set(); all_atoms(body,acc)
    cs=[]
    for e in acc:
        if e.kind!='elem' or not depends(e,b): continue
        i=e.args[1]; co=i.t.get(((b,Q(1)),))
        if co!=1 or depends(i-P(b),b): return None
        cs.append((i-P(b)).t.get((),Q(0)))
    if not cs: return None
    c=min(cs)
    if c.denominator!=1: return None
    return c,(subst(body,{b:P(b)-c}) if c else body)
def unify_sums(polys,ctx):
    """rewrite sums of the same body (up to a shift of the index) whose limits differ by constants in terms of their common range"""
    groups={}
    for p in polys:
        for a in all_atoms(p,set()):
            if a.kind not in('sum','prod') or a.args[1]!=ZERO: continue
            sh=_shift(a); c,body=sh if sh else (Q(0),a.args[3])
            groups.setdefault((a.kind,a.args[0],body),{})[a]=c
    sb={}
    for (kd,bn,body),g in groups.items():
        if len(g)<2: continue
        it=sorted(g.items(),key=lambda q:show_atom(q[0]))
        h0=it[0][0].args[2]+it[0][1]
        ds=[(c,(x.args[2]+c-h0).cval(),x) for x,c in it]       # [c, h0+d)
        ds=[(c,d,x) for c,d,x in ds if d is not None and d.denominator==1 and abs(d)<=8 and abs(c)<=8]
        if len(ds)<2: continue
        L=max(c for c,_,_ in ds); H=h0+min(d for _,d,_ in ds)
        if not ctx.proves((H-L).ge(0)): continue
        b=atom('var',bn,sort='int')
        bl=subst(body,{b:P(b)+L}) if L else body
        base=P(atom(kd,bn,ZERO,H-L,bl,sort='real')) if H-L!=ZERO else ZERO if kd=='sum' else ONE
        put=(lambda e,x:e+x) if kd=='sum' else (lambda e,x:e*x)
        for c,d,x in ds:
            e=base
            for i in range(int(L-c)): e=put(e,subst(body,{b:const(c+i)}))
            for i in range(int((h0+d-H).cval())): e=put(e,subst(body,{b:H+i}))
            if e!=P(x): sb[x]=e
    return sb
def by_eqs(r,ctx):
    eqs=eq_rewrites(ctx,r)
    if not eqs: return False,None,r
    r3=r
    rank={'sum':0,'elem':1,'var':2}
    subs=[]
    def ky(q):
        m=q[0]
        if not m: return (9,0,'')
        a=m[0][0]
        return (rank.get(a.kind,8),-len(show(a.args[2])) if a.kind=='sum' else (1 if a.kind=='var' and a.args[0].startswith('len(') else 0),show_atom(a))
    i=0
    while i<len(eqs):
        sb=unify_sums(eqs[i:]+[r3],ctx)
        if sb:
            r3=subst(r3,sb)
            for j in range(i,len(eqs)): eqs[j]=subst(eqs[j],sb)
        e=Norm(ctx).norm(eqs[i]) if i else eqs[i]
        i+=1
        if e==ZERO: continue
        for m,c in sorted(e.t.items(),key=ky):
            if len(m)==1 and m[0][1]==1 and m[0][0].kind in rank and not any(a==m[0][0] or depends(a,m[0][0]) for mm in e.t if mm!=m for a,_ in mm):
                sb={m[0][0]:P(m[0][0])-e*(1/c)}
                r3=subst(r3,sb); subs.append(sb)
                for j in range(i,len(eqs)): eqs[j]=subst(eqs[j],sb)
                break
    if r3!=r:
        r3=Norm(ctx).norm(r3)
        for sb in subs: r3=subst(r3,sb)
        num,_=clear(Norm(ctx).norm(r3)); r3=Norm(ctx).norm(num)
        if r3==ZERO: return True,'normaliser',ZERO
        if ctx.proves(F_eq(r3)): return True,'z3',ZERO
    return False,None,r3


def eval_poly(p,env):
    """numeric evaluation; env: name -> mpf / list"""
    tot=mpmath.mpf(0)
    for m,c in p.t.items():
        x=mpmath.mpf(c.numerator)/c.denominator
        for a,e in m:
            v=eval_atom(a,env)
            if e.denominator==1: x=x*v**int(e)
            else: x=x*mpmath.power(v,mpmath.mpf(e.numerator)/e.denominator)
        tot+=x
    return tot
class EvalError(Exception): pass
NUM={}   # numeric bodies of uninterpreted functions (companion runs)
def eval_atom(a,env):
    k=a.kind
    if k=='var':
        if a.args[0] not in env: raise EvalError(a.args[0])
        return mpmath.mpf(env[a.args[0]])
    if k=='pi': return mpmath.pi()
    if k=='P': return eval_poly(a.args[0],env)
    if k=='ln': 
        v=eval_poly(a.args[0],env)
        if v<=0: raise EvalError('ln domain')
        return mpmath.log(v)
    if k=='exp': return mpmath.exp(eval_poly(a.args[0],env))
    if k=='lgamma': return mpmath.loggamma(eval_poly(a.args[0],env))
    if k=='elem':
        s=env[a.args[0]]; i=int(eval_poly(a.args[1],env))
        if not 0<=i<len(s): raise EvalError('index')
        return mpmath.mpf(s[i])
    if k=='ite': return eval_poly(a.args[1],env) if eval_F(a.args[0],env) else eval_poly(a.args[2],env)
    if k in('sum','prod','max'):
        bn,lo,hi,body=a.args
        l=int(eval_poly(lo,env)); h=int(eval_poly(hi,env))
        if h-l>100000: raise EvalError('range')
        r=mpmath.mpf(0 if k=='sum' else 1) if k!='max' else None
        for i in range(l,h):
            v=eval_poly(body,dict(env,**{bn:i}))
            r=r+v if k=='sum' else r*v if k=='prod' else (v if r is None or v>r else r)
        if r is None: raise EvalError('max of empty')
        return r
    if k=='fn':
        nm=a.args[0]
        if nm in env and callable(env[nm]): return env[nm](*[eval_poly(x,env) if isinstance(x,Poly) else x for x in a.args[1:]])
        vs=[eval_poly(x,env) if isinstance(x,Poly) else x for x in a.args[1:]]
        if nm in NUM: return NUM[nm](*vs)
        f={'sin':mpmath.sin,'cos':mpmath.cos,'tan':mpmath.tan,'floor':mpmath.floor,'abs':abs,'tanh':mpmath.tanh,'atan':mpmath.atan,'asin':mpmath.asin,'acos':mpmath.acos,'sinh':mpmath.sinh,'cosh':mpmath.cosh,
           'trunc':lambda v:mpmath.floor(v) if v>=0 else mpmath.ceil(v),'ceil':mpmath.ceil,'round':lambda v:mpmath.sign(v)*mpmath.floor(abs(v)+0.5),'pow':mpmath.power,'log1p':mpmath.log1p,'expm1':mpmath.expm1,
           'ipow':lambda v,k:mpmath.mpf(1) if k==0 else mpmath.power(v,int(k)),'len':None}.get(nm)
        if f is None: raise EvalError('fn '+nm)
        return f(*vs)
    raise EvalError(k)
def eval_F(f,env):
    k=f.k
    if k=='true': return True
    if k=='false': return False
    if k=='le': return eval_poly(f.a[0],env)<=0
    if k=='lt': return eval_poly(f.a[0],env)<0
    if k=='eq': return eval_poly(f.a[0],env)==0
    if k=='and': return all(eval_F(x,env) for x in f.a)
    if k=='or': return any(eval_F(x,env) for x in f.a)
    if k=='not': return not eval_F(f.a[0],env)
    if k=='isint': return mpmath.isint(eval_poly(f.a[0],env))
    if k=='forall':
        bn,lo,hi,b=f.a
        return all(eval_F(b,dict(env,**{bn:i})) for i in range(int(eval_poly(lo,env)),int(eval_poly(hi,env))))
    if k=='exists':
        bn,lo,hi,b=f.a
        return any(eval_F(b,dict(env,**{bn:i})) for i in range(int(eval_poly(lo,env)),int(eval_poly(hi,env))))
    if k=='b':
        if f.a[0] in env: return bool(env[f.a[0]])
    raise EvalError(k)
