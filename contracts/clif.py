"""Accuracy of a generated elementary function, decided on its CLIF term by Taylor models.
The term is what the real generator emitted (symbolic execution of /repo's code); nothing here looks at how it is written.
x is split at every constant it is compared with; inside a piece x = s + N*P (the integer N is whatever the term itself rounds
a multiple of x to; P = ln 2 or pi/2) or x = m*2^k; s or m is cut into small intervals, values are Taylor models in s (or m)
plus a multiple of the integer, in fixed point with a rigorous remainder. Real arithmetic: f64 rounding of + - * / is idealised."""
import struct, math
from fractions import Fraction as Fr
import mpmath
S=230; ONE_=1<<S; ORD=13
class Unk(Exception): pass
class Split(Exception): pass
class NeedMod(Exception): pass
def fx(q):
    """Fraction -> fixed point, error in ulps (0 if exact)"""
    n=q.numerator<<S; r=n//q.denominator
    return r,0 if r*q.denominator==n else 1
def mpfx(v): return int(mpmath.floor(mpmath.ldexp(v,S)))
def mul_(a,b):
    p=a*b; r=p>>S
    return r,0 if (r<<S)==p else 1
class TM:
    """sum c_i t^i +- rad, |t|<=h"""
    __slots__=('c','r','h')
    def __init__(s,c,r,h): s.c=c; s.r=r; s.h=h
    def const(s): return all(x==0 for x in s.c[1:])
    def exact(s): return s.r==0 and s.const()
    def rng(s):
        d=s.r; hp=ONE_
        for x in s.c[1:]:
            hp=((hp*s.h)>>S)+1
            if x: d+=((abs(x)*hp)>>S)+1
        return s.c[0]-d,s.c[0]+d
    def mag(s): lo,hi=s.rng(); return max(abs(lo),abs(hi))
    def __neg__(s): return TM([-x for x in s.c],s.r,s.h)
    def __add__(s,o): return TM([a+b for a,b in zip(s.c,o.c)],s.r+o.r,s.h)
    def __sub__(s,o): return s+(-o)
    def __mul__(s,o):
        c=[0]*(ORD+1); r=0; hp=[ONE_]
        for _ in range(2*ORD): hp.append(((hp[-1]*s.h)>>S)+1)
        for i,a in enumerate(s.c):
            if not a: continue
            for j,b in enumerate(o.c):
                if not b: continue
                p,e=mul_(a,b)
                if i+j<=ORD: c[i+j]+=p; r+=e
                else: r+=((abs(p)*hp[i+j])>>S)+1+e
        if s.r or o.r:
            r+=((s.mag()*o.r)>>S)+((o.mag()*s.r)>>S)+((s.r*o.r)>>S)+3
        return TM(c,r,s.h)
    def __truediv__(s,o):
        lo,hi=o.rng()
        if lo<=0<=hi: raise Unk('division by a range containing 0')
        d0=o.c[0]; q=[]
        for n in range(ORD+1):
            v=s.c[n]-sum(mul_(o.c[k],q[n-k])[0] for k in range(1,n+1))
            q.append((v<<S)//d0)
        t=TM(q,0,s.h); res=s-t*o
        return TM(q,((res.mag()<<S)//min(abs(lo),abs(hi)))+2,s.h)
def cst(q,h):
    v,e=fx(q); return TM([v]+[0]*ORD,e,h)
def var(mid,h):
    v,e=fx(mid); return TM([v,ONE_]+[0]*(ORD-1),e,h)
# targets as Taylor models
def t_series(f,s0,h,bnd):
    """f(i)=i-th Taylor coefficient at s0 (mpf); bnd bounds |f^(ORD+1)|/(ORD+1)! near s0"""
    return TM([mpfx(f(i)) for i in range(ORD+1)],2*(ORD+2)+mpfx(bnd*mpmath.mpf(h)**(ORD+1))+1,int(mpmath.ceil(mpmath.ldexp(h,S))))
def t_exp(s0,h): e=mpmath.exp(s0); return t_series(lambda i:e/mpmath.factorial(i),s0,h,mpmath.exp(s0+h)/mpmath.factorial(ORD+1))
def t_sin(s0,h,sh=0): return t_series(lambda i:mpmath.sin(s0+(i+sh)*mpmath.pi/2)/mpmath.factorial(i),s0,h,1/mpmath.factorial(ORD+1))
def t_ln(m0,h): return t_series(lambda i:mpmath.log(m0) if i==0 else (-1)**(i+1)/(i*m0**i),m0,h,1/((ORD+1)*(m0-h)**(ORD+1)))
# ------------------------------------------------------------------ concrete evaluation (IEEE)
def bits(x): return struct.unpack('<q',struct.pack('<d',x))[0]
def unbits(i): return struct.unpack('<d',struct.pack('<q',((i+(1<<63))%(1<<64))-(1<<63)))[0]
def wrap(i,n=64): return ((i+(1<<(n-1)))%(1<<n))-(1<<(n-1))
def fconst(v):
    """f64 constant -> Fraction | float (inf, nan) | mpf (a mathematical constant)"""
    if v.k!='fin': return {'nan':math.nan,'+inf':math.inf,'-inf':-math.inf,'inf':math.inf,'ninf':-math.inf,'pinf':math.inf}[v.k]
    c=v.p.cval()
    if c is not None: return Fr(float(Fr(int(c.numerator),int(c.denominator))))   # the f64 whose shortest decimal this is
    import norm
    with mpmath.workdps(90): return norm.eval_poly(v.p,{})
def fl(v):
    q=fconst(v); return float(q)
def concrete(t,args):
    memo={}
    def ev(v):
        if id(v) not in memo: memo[id(v)]=ev_(v.d)
        return memo[id(v)]
    def ev_(o):
        k=o[0]
        if k=='arg': return args[o[1]]
        if k=='f64const': return fl(o[1])
        if k=='iconst': return wrap(int(o[2].cval()),64 if o[1]=='i64' else 32)
        if k in('fadd','fsub','fmul','fdiv'):
            a,b=ev(o[1]),ev(o[2])
            if k=='fadd': return a+b
            if k=='fsub': return a-b
            if k=='fmul': return a*b
            if b==0: return math.nan if a==0 or a!=a else math.copysign(math.inf,a)*math.copysign(1,b)
            try: return a/b
            except OverflowError: return math.inf
        if k=='fneg': return -ev(o[1])
        if k=='fabs': return abs(ev(o[1]))
        if k in('fmin','fmax'):
            a,b=ev(o[1]),ev(o[2]); return math.nan if a!=a or b!=b else (min if k=='fmin' else max)(a,b)
        if k=='sqrt': a=ev(o[1]); return math.nan if a!=a or a<0 else math.sqrt(a)
        if k in('floor','ceil','nearest','trunc'):
            a=ev(o[1])
            if a!=a or abs(a)==math.inf: return a
            return math.copysign(float({'floor':math.floor,'ceil':math.ceil,'nearest':round,'trunc':math.trunc}[k](a)),a)
        if k=='fcmp':
            a,b=ev(o[2]),ev(o[3])
            return {'eq':a==b,'ne':a!=b,'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b,'ordered':a==a and b==b,'unordered':a!=a or b!=b,'one':a<b or a>b,'ueq':not(a<b or a>b),'ult':not a>=b,'ule':not a>b,'ugt':not a<=b,'uge':not a<b}[o[1]]
        if k=='icmp':
            a,b=ev(o[2]),ev(o[3])
            if o[1][0]=='u': a%=1<<64; b%=1<<64
            return {'eq':a==b,'ne':a!=b,'slt':a<b,'sge':a>=b,'sgt':a>b,'sle':a<=b,'ult':a<b,'uge':a>=b,'ugt':a>b,'ule':a<=b}[o[1]]
        if k=='select': return ev(o[2]) if ev(o[1]) else ev(o[3])
        if k=='bitcast':
            a=ev(o[2]); return bits(a) if o[1]=='i64' else unbits(a)
        if k=='band': return wrap(ev(o[1])&ev(o[2]))
        if k=='bor': return wrap(ev(o[1])|ev(o[2]))
        if k=='bxor': return wrap(ev(o[1])^ev(o[2]))
        if k=='iadd': return wrap(ev(o[1])+ev(o[2]))
        if k=='isub': return wrap(ev(o[1])-ev(o[2]))
        if k=='iadd_imm': return wrap(ev(o[1])+int(o[2].cval()))
        if k=='band_imm': return wrap(ev(o[1])&int(o[2].cval()))
        if k=='ushr_imm': return wrap((ev(o[1])%(1<<64))>>int(o[2].cval()))
        if k=='sshr_imm': return ev(o[1])>>int(o[2].cval())
        if k=='ishl_imm': return wrap(ev(o[1])<<int(o[2].cval()))
        if k in('sextend','uextend','ireduce'): return ev(o[2])
        if k=='fcvt_from_sint': return float(ev(o[2]))
        if k in('fcvt_to_sint_sat','fcvt_to_sint'):
            a=ev(o[2]); n=32 if o[1]=='i32' else 64
            if a!=a:
                if k=='fcvt_to_sint': raise Unk('trap: conversion of NaN')
                return 0
            lim=1<<(n-1)
            if k=='fcvt_to_sint' and not -lim-1<a<lim: raise Unk('trap: conversion overflow')
            return max(-lim,min(lim-1,int(a) if abs(a)<1e30 else (lim if a>0 else -lim)))
        raise Unk('CLIF '+k)
    return ev(t)
# ------------------------------------------------------------------ abstract evaluation on one cell
class V:
    """real a(t)+b*M (b fixed point, rb its error); lin: the value is lin*x with this Fraction/mpf; sc: times 2^(al+be*M)"""
    __slots__=('a','b','rb','lin','K','q')
    def __init__(s,a,b=0,rb=0,lin=None,K=None,q=None): s.a=a; s.b=b; s.rb=rb; s.lin=lin; s.K=K; s.q=q
class Cell:
    """one cell: x=s+P*(q*M+j) (mode 'per') or x=m*2^M (mode 'exp'); M in [Mlo,Mhi]; piece=(lo,hi) of x"""
    def __init__(s,mode,piece,h,tvar,P,q,j,Mlo,Mhi,rounds):
        s.mode=mode; s.piece=piece; s.h=h; s.tvar=tvar; s.P=P; s.qM=q; s.j=j; s.Mlo=Mlo; s.Mhi=Mhi; s.rounds=rounds; s.excl=set(); s.memo={}
    def c(s,q):
        if isinstance(q,float): return q
        if isinstance(q,Fr): return V(cst(q,s.h),q=q)
        v=mpfx(q); return V(TM([v]+[0]*ORD,2,s.h))
    def flat(s,v):
        """absorb the multiple of M into the remainder"""
        if isinstance(v,float): raise Unk('special value in arithmetic')
        if v.K is not None and v.K!=(0,0):
            if s.Mlo==s.Mhi:
                k=v.K[0]+v.K[1]*s.Mlo; f=cst(Fr(2)**k,s.h); return v.a*f
            raise Unk('scaled value in arithmetic')
        if not v.b and not v.rb: return v.a
        Mm=max(abs(s.Mlo),abs(s.Mhi)); return TM(v.a.c,v.a.r+(abs(v.b)+v.rb)*Mm,s.h)
    def val(s,v):
        if id(v) not in s.memo: s.memo[id(v)]=s.ev(v.d)
        return s.memo[id(v)]
    def i_rng(s,i):
        x=[i[0]+i[1]*s.Mlo,i[0]+i[1]*s.Mhi]; return min(x),max(x)
    def ev(s,o):
        k=o[0]; val=s.val
        if k=='arg':
            if s.mode=='exp': return V(s.tvar,K=(0,1),lin=Fr(1))
            v=mpfx(s.P); return V(s.tvar+TM([v*s.j]+[0]*ORD,2*abs(s.j),s.h),v*s.qM,2*abs(s.qM),lin=Fr(1))
        if k=='f64const': return s.c(fconst(o[1]))
        if k=='iconst': return ('i',(wrap(int(o[2].cval())),0))
        if k in('fadd','fsub'):
            a,b=val(o[1]),val(o[2])
            if k=='fsub': b=-b if isinstance(b,float) else s.neg(b)
            if isinstance(a,float) or isinstance(b,float): raise Unk('special value in arithmetic')
            if a.K is None and b.K is None: return V(a.a+b.a,a.b+b.b,a.rb+b.rb,q=a.q+b.q if a.q is not None and b.q is not None else None)
            return V(s.flat(a)+s.flat(b))
        if k=='fmul':
            a,b=val(o[1]),val(o[2])
            if isinstance(a,float) or isinstance(b,float): raise Unk('special value in arithmetic')
            for u,w in((a,b),(b,a)):
                if w.q is not None:
                    q=w.q; lin=u.lin*q if isinstance(u.lin,Fr) else None
                    if u.K is not None and u.K!=(0,0):
                        p=pow2(q)
                        if p is None and s.Mlo!=s.Mhi: raise Unk('scaled value in arithmetic')
                        if p is not None: return V(u.a,K=(u.K[0]+p,u.K[1]),lin=lin)
                        return V(s.flat(u)*w.a,lin=lin)
                    x,e=mul_(u.b,w.a.c[0]); return V(u.a*w.a,x,e+((u.rb*abs(w.a.c[0]))>>S)+(1 if u.rb else 0)+(abs(u.b)>>S)*w.a.r+w.a.r,lin=lin,q=u.q*q if u.q is not None else None)
            for u,w in((a,b),(b,a)):
                if w.a.const() and not w.b and not w.rb and w.K is None and u.K is None:   # a mathematical constant
                    x,e=mul_(u.b,w.a.c[0]); return V(u.a*w.a,x,e+((u.rb*abs(w.a.c[0]))>>S)+1+((abs(u.b)*w.a.r)>>S)+1,lin=('m',w.a.c[0]) if u.lin==1 else None)
            return V(s.flat(a)*s.flat(b))
        if k=='fdiv':
            a,b=val(o[1]),val(o[2])
            if isinstance(a,float) or isinstance(b,float): raise Unk('special value in arithmetic')
            if b.q is not None and b.q and a.K is None: return s.ev_mulc(a,1/b.q)
            return V(s.flat(a)/s.flat(b))
        if k=='fneg':
            a=val(o[1]); return -a if isinstance(a,float) else s.neg(a)
        if k=='fabs':
            a=val(o[1])
            if isinstance(a,float): return abs(a)
            if a.K is not None: return a
            if a.lin==1:
                if s.piece[0]>=0: return a
                if s.piece[1]<=0: return s.neg(a)
                raise Split(Fr(0))
            lo,hi=s.flat(a).rng()
            if lo>=0: return a
            if hi<=0: return s.neg(a)
            raise Unk('fabs of an undetermined sign')
        if k in('floor','ceil','nearest','trunc'):
            a=val(o[1])
            if isinstance(a,float): return a
            if a.lin is not None and s.mode=='per':
                if (k,linval(a.lin))!=s.rounds: raise Unk('two different range reductions')
                return V(cst(Fr(s.j),s.h),s.qM<<S,0,q=Fr(s.j) if not s.qM else None)
            if a.K is not None: raise Unk('rounding of a scaled value')
            b=Fr(a.b,ONE_)
            if a.rb or b.denominator>64: raise Unk('rounding of an undetermined value')
            if b.denominator!=1 and s.Mlo!=s.Mhi: raise NeedMod(b.denominator)
            lo,hi=a.a.rng(); lo,hi=Fr(lo,ONE_),Fr(hi,ONE_)
            g={'floor':math.floor,'ceil':math.ceil,'nearest':round,'trunc':math.trunc}[k]
            if s.Mlo==s.Mhi: lo+=b*s.Mlo; hi+=b*s.Mlo; b=Fr(0)
            elif k=='trunc': raise Unk('trunc')
            if g(lo)!=g(hi): raise Unk('rounding of an undetermined value')
            return V(cst(Fr(g(lo)),s.h),int(b)<<S,0,q=Fr(g(lo)) if not b else None)
        if k=='fcmp': return s.fcmp(o[1],val(o[2]),val(o[3]))
        if k=='icmp':
            a,b=val(o[2]),val(o[3])
            if a[0]!='i' or b[0]!='i': raise Unk('icmp on bits')
            d=(a[1][0]-b[1][0],a[1][1]-b[1][1]); lo,hi=s.i_rng(d); cc=o[1].lstrip('su') if o[1] not in('eq','ne') else o[1]
            if o[1][0]=='u' : raise Unk('unsigned comparison')
            if cc in('eq','ne'):
                if lo==hi==0: r=True
                elif lo>0 or hi<0: r=False
                else:
                    if d[0]%d[1]==0: s.excl.add((-d[0]//d[1])*s.qM+s.j)
                    r=False
                return r==(cc=='eq')
            for c_,t_,f_ in(('lt',hi<0,lo>=0),('ge',lo>=0,hi<0),('gt',lo>0,hi<=0),('le',hi<=0,lo>0)):
                if c_==cc:
                    if t_: return True
                    if f_: return False
            raise Unk('undetermined integer comparison')
        if k=='select':
            c=val(o[1])
            if not isinstance(c,bool): raise Unk('select')
            return val(o[2]) if c else val(o[3])
        if k=='bitcast':
            a=val(o[2])
            if o[1]=='i64':
                if isinstance(a,float): return ('i',(bits(a),0))
                K=a.K or (0,0); t=a.a if a.K is not None else s.flat(a)
                if t.rng()[0]<=0: raise Unk('bits of a number of undetermined sign')
                return ('bits',K,t)
            if a[0]=='bits': return V(a[2],K=a[1])
            if a[0]=='i' and not a[1][1]: return s.c(Fr(unbits(a[1][0])))
            raise Unk('bitcast')
        if k in('band','bor','iadd','isub','bxor','band_imm'):
            a=val(o[1]); b=('i',(wrap(int(o[2].cval())),0)) if k=='band_imm' else val(o[2])
            if k=='band_imm': k='band'
            if isinstance(a,bool) and isinstance(b,bool) and k in('band','bor','bxor'): return a&b if k=='band' else a|b if k=='bor' else a!=b
            if isinstance(a,(bool,V,float)) or isinstance(b,(bool,V,float)): raise Unk('bit operation '+k)
            if a[0]=='i' and b[0]=='i':
                if k in('iadd','isub'): g=1 if k=='iadd' else -1; return ('i',(a[1][0]+g*b[1][0],a[1][1]+g*b[1][1]))
                if not a[1][1] and not b[1][1]: return ('i',({'band':a[1][0]&b[1][0],'bor':a[1][0]|b[1][0],'bxor':a[1][0]^b[1][0]}[k],0))
                for (x,y) in((a,b),(b,a)):
                    m=y[1][0]
                    if k=='band' and not y[1][1] and m>=0 and m&(m+1)==0 and 0<=s.i_rng(x[1])[0] and s.i_rng(x[1])[1]<=m: return x     # a mask that keeps every bit
            if b[0] in('bits','mf') and k!='isub': a,b=b,a
            cb=b[1][0]%(1<<64) if b[0]=='i' and not b[1][1] else None
            if k=='band' and a[0]=='bits' and cb is not None:
                s.fields(a)
                if cb in(0x7FF0000000000000,0xFFF0000000000000): return ('ef',(a[1][0]+1023,a[1][1]))
                if cb==0x000FFFFFFFFFFFFF: return ('mf',a[2])
                if cb==0x7FFFFFFFFFFFFFFF: return a
            if k in('bor','iadd') and a[0]=='mf' and cb is not None and cb%(1<<52)==0 and 0<(cb>>52)<2047: return ('bits',((cb>>52)-1023,0),a[1])
            if k=='iadd' and a[0]=='bits' and b[0]=='ish': return ('bits',(a[1][0]+b[1][0],a[1][1]+b[1][1]),a[2])
            if k=='isub' and a[0]=='bits' and b[0]=='ish': return ('bits',(a[1][0]-b[1][0],a[1][1]-b[1][1]),a[2])
            raise Unk('bit operation '+k)
        if k in('ushr_imm','sshr_imm'):
            a=val(o[1]); n=int(o[2].cval())
            if a[0]=='bits': s.fields(a)
            if a[0] in('ef','bits') and n==52: 
                return ('i',a[1] if a[0]=='ef' else (a[1][0]+1023,a[1][1]))
            raise Unk('shift')
        if k=='ishl_imm':
            a=val(o[1]); n=int(o[2].cval())
            if a[0]=='i' and n==52: return ('ish',a[1])
            raise Unk('shift')
        if k=='iadd_imm':
            a=val(o[1])
            if a[0]=='i': return ('i',(a[1][0]+int(o[2].cval()),a[1][1]))
            raise Unk('iadd_imm')
        if k in('sextend','ireduce'):
            a=val(o[2])
            if a[0]!='i' or not -2**31<=s.i_rng(a[1])[0]<=s.i_rng(a[1])[1]<2**31: raise Unk('width change')
            return a
        if k=='fcvt_from_sint':
            a=val(o[2])
            if a[0]!='i': raise Unk('fcvt_from_sint')
            return V(cst(Fr(a[1][0]),s.h),a[1][1]<<S,0,q=Fr(a[1][0]) if not a[1][1] else None)
        if k in('fcvt_to_sint_sat','fcvt_to_sint'):
            a=val(o[2])
            if isinstance(a,float): raise Unk('conversion of a special value')
            if a.K is not None or not a.a.exact() or a.rb or a.a.c[0]%ONE_ or a.b%ONE_: raise Unk('conversion of a non-integer')
            i=(a.a.c[0]>>S,a.b>>S); lo,hi=s.i_rng(i); lim=1<<(31 if o[1]=='i32' else 63)
            if not -lim<=lo<=hi<lim: raise Unk('saturating conversion')
            return ('i',i)
        raise Unk('CLIF '+k)
    def fields(s,a):
        """exponent and mantissa bits are those of the scaled value: 1 <= t <= 2, normal"""
        lo,hi=a[2].rng(); sl=1<<(S-100)
        if lo<ONE_-sl or hi>2*ONE_+sl: raise Unk('bit fields of a value outside [1,2]')
        elo,ehi=s.i_rng(a[1])
        if elo<-1022 or ehi>1023: raise Unk('bit fields of a subnormal number')
    def ev_mulc(s,u,q):
        w=s.c(q); x,e=mul_(u.b,w.a.c[0])
        return V(u.a*w.a,x,e+((u.rb*abs(w.a.c[0]))>>S)+1+((abs(u.b)*w.a.r)>>S)+1,lin=u.lin*q if isinstance(u.lin,Fr) else None)
    def neg(s,v):
        if v.K is not None: return V(-v.a,K=v.K)
        return V(-v.a,-v.b,v.rb,lin=-v.lin if isinstance(v.lin,Fr) else None,q=-v.q if v.q is not None else None)
    def fcmp(s,cc,a,b):
        if cc in('ordered','unordered'):
            n=any(isinstance(v,float) and v!=v for v in(a,b)); return n==(cc=='unordered')
        if cc[0]=='u' and cc!='unordered': cc=cc[1:]
        if cc=='one': cc='ne'
        if isinstance(a,float) and isinstance(b,float): return {'eq':a==b,'ne':a!=b,'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[cc]
        if isinstance(a,float) or isinstance(b,float):
            x,y=(math.copysign(1,a),0) if isinstance(a,float) else (0,math.copysign(1,b))
            if (isinstance(a,float) and a!=a) or (isinstance(b,float) and b!=b): return cc=='ne'
            return {'eq':False,'ne':True,'lt':x<y,'le':x<y,'gt':x>y,'ge':x>y}[cc]
        for u,w,fl_ in((a,b,False),(b,a,True)):
            if u.lin==1 and w.q is not None:      # x against a constant: pieces are open, so equality is excluded
                if s.piece[0]<w.q<s.piece[1]: raise Split(w.q)
                less=s.piece[1]<=w.q
                if fl_: less=not less
                return {'eq':False,'ne':True,'lt':less,'le':less,'gt':not less,'ge':not less}[cc]
        if a.K is not None or b.K is not None: raise Unk('comparison of a scaled value')
        d=V(a.a-b.a,a.b-b.b,a.rb+b.rb)
        if d.a.exact() and not d.rb and not d.b and d.a.c[0]==0: return cc in('eq','le','ge')
        lo,hi=s.flat(d).rng()
        if lo>0: return cc in('ne','gt','ge')
        if hi<0: return cc in('ne','lt','le')
        if d.a.exact() and not d.rb and d.b and cc in('eq','ne') and d.a.c[0]%d.b==0 and s.qM:
            s.excl.add((-d.a.c[0]//d.b)*s.qM+s.j); return cc=='ne'
        raise Unk('undetermined comparison')
def linval(l): return l if isinstance(l,Fr) else Fr(l[1],ONE_)
def pow2(q):
    q=Fr(q)
    if q<=0: return None
    n=q.numerator.bit_length()-q.denominator.bit_length()
    for k in(n-1,n,n+1):
        if q==Fr(2)**k: return k
    return None
# ------------------------------------------------------------------ the driver
def reduction(t):
    """the (rounding mode, coefficient) that defines N: the rounding of a multiple of x"""
    found=set(); memo={}
    def lin(v):
        if id(v) in memo: return memo[id(v)]
        memo[id(v)]=None; o=v.d; r=None
        if o[0]=='arg': r=Fr(1)
        elif o[0] in('fmul','fdiv'):
            a,b=lin(o[1]),lin(o[2]); ca=fconst(o[1].d[1]) if o[1].d[0]=='f64const' else None; cb=fconst(o[2].d[1]) if o[2].d[0]=='f64const' else None
            f=lambda x: x if isinstance(x,Fr) else Fr(mpfx(x),ONE_)
            if a is not None and cb is not None and not isinstance(cb,float): r=a*f(cb) if o[0]=='fmul' else a/f(cb)
            elif b is not None and ca is not None and o[0]=='fmul' and not isinstance(ca,float): r=b*f(ca)
        elif o[0]=='fneg':
            a=lin(o[1]); r=-a if a is not None else None
        elif o[0] in('floor','ceil','nearest','trunc'):
            a=lin(o[1])
            if a is not None: found.add((o[0],a))
        else:
            for x in o[1:]:
                if hasattr(x,'n') and getattr(x,'n',None)=='clv': lin(x)
        if o[0] in('fmul','fdiv','fadd','fsub','fneg','floor'):
            for x in o[1:]:
                if hasattr(x,'n'): lin(x)
        memo[id(v)]=r; return r
    lin(t); return found
def mpf_(q): return mpmath.mpf(q.numerator)/q.denominator
def periodic(t,piece,P,target,cells=64):
    """x=s+P*N on the piece; target(cell, value, N-description, s0, h) -> error (relative to what it says); returns worst error"""
    red=reduction(t)
    if len(red)!=1: raise Unk('range reduction not found: %d'%len(red))
    mode,c=next(iter(red)); cq=mpf_(c)
    lo,hi=mpf_(piece[0]),mpf_(piece[1])
    f0,f1={'floor':(0,1),'nearest':(-mpmath.mpf(1)/2,mpmath.mpf(1)/2)}.get(mode,(None,None))
    if f0 is None or c<=0: raise Unk('range reduction by '+mode)
    rnd=lambda v:int(mpmath.floor(v)) if mode=='floor' else int(mpmath.nint(v))
    N0,N1=rnd(lo*cq),rnd(hi*cq); d=abs(1/cq-P)*max(abs(N0),abs(N1))+mpmath.mpf(10)**-40
    s0,s1=f0/cq-d,f1/cq+d; worst=mpmath.mpf(0)
    todo=[('all',None)]; q=1; done=set()
    while todo:
        case=todo.pop()
        if case in done: continue
        done.add(case)
        try:
            excl=set()
            for i in range(cells):
                a=s0+(s1-s0)*i/cells; b=s0+(s1-s0)*(i+1)/cells; mid=Fr(int(mpmath.floor(mpmath.ldexp((a+b)/2,60))),1<<60); h=(b-a)/2+mpmath.ldexp(1,-58)
                H=int(mpmath.ceil(mpmath.ldexp(h,S)))
                if case[0]=='all': sub=[(q,j,(N0-j)//q,-((j-N1)//q)) for j in range(q)]
                else: sub=[(0,case[1],0,0)]
                for qq,j,m0,m1 in sub:
                    cell=Cell('per',piece,H,var(mid,H),P,qq,j,m0,m1,(mode,c))
                    v=cell.val(t); e=target(cell,v,qq,j,mpf_(mid),h)
                    worst=max(worst,e); excl|={n for n in cell.excl if N0<=n<=N1}
            todo+=[('N',n) for n in excl]
        except NeedMod as e:
            q=q*int(str(e)); todo.append(('all',None)); done.discard(('all',None))
            if q>64: raise Unk('modulus')
    return worst
def dyadic(t,piece,target,cells=128):
    """x=m*2^k on the piece (a subset of the positive numbers)"""
    def lg(q):
        n=q.numerator.bit_length()-q.denominator.bit_length()
        while Fr(2)**n>q: n-=1
        while Fr(2)**(n+1)<=q: n+=1
        return n
    k0=-1074 if piece[0]<=0 else lg(piece[0])
    k1=1023 if piece[1]>=Fr(2)**1024 else lg(piece[1])
    if piece[1]==Fr(2)**k1: k1-=1
    worst=mpmath.mpf(0); todo=[None]; done=set()
    while todo:
        fixed=todo.pop()
        if fixed in done: continue
        done.add(fixed)
        for i in range(cells):
            mid=Fr(2*cells+2*i+1,2*cells); h=mpmath.mpf(1)/(2*cells); H=int(mpmath.ldexp(h,S))
            cell=Cell('exp',piece,H,var(mid,H),None,1,0,*( (k0,k1) if fixed is None else (fixed,fixed)),None)
            v=cell.val(t); worst=max(worst,target(cell,v,mpf_(mid),h))
            todo+=[n for n in cell.excl if k0<=n<=k1]
    return worst
def by_piece(t,dom,f):
    """split the domain at the constants x is compared with: [(piece, f(piece))], [points]"""
    pts=sorted(dom)
    while True:
        try: return [((a,b),f((a,b))) for a,b in zip(pts,pts[1:])],pts
        except Split as e: pts=sorted(set(pts)|{e.args[0]})
def bound(tm): return mpmath.mpf(tm.mag())/ONE_
