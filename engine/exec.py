import vals
"""Symbolic executor / VC generator over the dumped MIR of the real code."""
import json, re, math, struct, sys
from terms import *
from norm import ICtx, Norm, all_atoms, is_zero, depends
from vals import *
sys.setrecursionlimit(20000)

KNOWN=None
def known_consts():
    global KNOWN
    if KNOWN is not None: return KNOWN
    L=[]
    two=const(2)
    def add(p,x): L.append((x,p))
    pi=math.pi
    add(PI,pi); add(2*PI,2*pi); add(PI/2,pi/2); add(PI/3,pi/3); add(PI/4,pi/4); add(PI/6,pi/6); add(PI/8,pi/8); add(1/PI,1/pi); add(2/PI,2/pi)
    add(ln(two),math.log(2)); add(ln(const(10)),math.log(10)); add(ln(PI),math.log(pi)); add(ln(2*PI),math.log(2*pi)); add(Q(1,2)*ln(2*PI),0.5*math.log(2*pi)); add(Q(1,2)*ln(PI),0.5*math.log(pi))
    import mpmath
    for k in range(3,41): add(ln(const(math.factorial(k))),float(mpmath.log(math.factorial(k))))
    add(sqrt(2*PI),math.sqrt(2*pi)); add(1/sqrt(2*PI),1/math.sqrt(2*pi)); add(sqrt(PI),math.sqrt(pi)); add(1/sqrt(PI),1/math.sqrt(pi)); add(2/sqrt(PI),2/math.sqrt(pi))
    add(sqrt(two),math.sqrt(2)); add(1/sqrt(two),math.sqrt(0.5)); add(exp(ONE),math.e); add(1/ln(two),1/math.log(2)); add(1/ln(const(10)),1/math.log(10)); add(sqrt(const(3)),math.sqrt(3))
    KNOWN=L
    return L
def float_const(s,n=8):
    if s in('inf',): return PINF
    if s=='-inf': return NINF
    if s in('NaN','nan','-NaN'): return NAN
    x=float(s); q=Q(s) if abs(x)<2**53 else Q(x)   # beyond 2^53 the shortest decimal is not the value
    if q.denominator>10**7:
        for v,p in known_consts():
            for sg in(1,-1):
                if abs(x-sg*v)<=2.3e-16*abs(v)*(1 if n==8 else 3e8): return fin(p if sg==1 else -p)
    return fin(const(q))

IMIN=lambda t:-(1<<(t['w']-1)) if t['s'] else 0
IMAX=lambda t:(1<<(t['w']-1))-1 if t['s'] else (1<<t['w'])-1

class Frame:
    __slots__=('inst','body','loc','bb','si','dest','ret','loops','depthmark')
    def copy(self):
        f=Frame(); f.inst=self.inst; f.body=self.body; f.loc=dict(self.loc); f.bb=self.bb; f.si=self.si; f.dest=self.dest; f.ret=self.ret; f.loops=dict(self.loops); f.depthmark=self.depthmark
        return f
class State:
    def __init__(self,ex):
        self.ex=ex; self.cells={}; self.frames=[]; self.pc=[]; self._ctx=None; self.nf=0; self.lazy={}; self.meta={}; self.result=None; self.trace=[]
        self.lemmas=ex.lemmas; self.steps=0
    def copy(self):
        s=State.__new__(State); s.ex=self.ex; s.cells=dict(self.cells); s.frames=[f.copy() for f in self.frames]; s.pc=list(self.pc); s._ctx=self._ctx; s.nf=self.nf; s.lazy=dict(self.lazy); s.meta=dict(self.meta); s.result=self.result; s.trace=self.trace; s.lemmas=self.lemmas; s.steps=self.steps
        return s
    def become(self,o):
        for k in('cells','frames','pc','_ctx','nf','lazy','meta','result','trace','lemmas','steps'): setattr(self,k,getattr(o,k))
    @property
    def ctx(self):
        if self._ctx is None: self._ctx=ICtx(self.pc,self.ex.timeout,self.lemmas)
        return self._ctx
    def assume(self,f):
        if f is TRUE: return
        if f.k=='and':
            for x in f.a: self.assume(x)
            return
        if f in self.pc: return
        self.pc.append(f); self._ctx=None
    def known(self,f):
        if f is TRUE or f.k=='true': return True
        if f is FALSE or f.k=='false': return False
        if f in self.pc: return True
        n=Not(f)
        if n in self.pc: return False
        if f.k=='b': return None
        if f.k=='isint':
            ints={x.a[0] for x in self.pc if x.k=='isint'}
            def isi(a): return P(a).isint() or P(a) in ints
            if all(c.denominator==1 and all(e.denominator==1 and e>0 and isi(a) for a,e in m) for m,c in f.a[0].t.items()): return True
            return None
        if self.ctx.proves(f): return True
        if self.ctx.proves(n): return False
        if hasattr(self.ctx,'known_norm'): return self.ctx.known_norm(f)
        return None
    def decide(self,f,loop=False):
        if f.k in('and','or'):
            # short-circuit to keep facts atomic
            k=self.known(f)
            if k is not None: return k
            for x in f.a:
                v=self.decide(x,loop)
                if f.k=='and' and not v: return False
                if f.k=='or' and v: return True
            return f.k=='and'
        k=self.known(f)
        if k is None: raise Fork(f,loop)
        return k
    def alloc(self,v):
        self.nf+=1; c='c%d'%self.nf; self.cells[c]=v
        return c
    def fresh(self,base,sort='real'):
        self.nf+=1
        js=self.meta.get('js')
        if js: return P(atom('fn','fresh:%s$%d'%(base,self.nf),*js,sort=sort))
        return var('%s$%d'%(base,self.nf),sort)

class Exec:
    def __init__(self,prog,models,contracts=(),timeout=2000,lemmas=()):
        self.prog=prog; self.T=prog.types; self.models=models; self.contracts=list(contracts); self.timeout=timeout; self.lemmas=list(lemmas)
        self.used_contracts=set(); self.used_models=set(); self.inlined=set(); self.max_steps=400000; self.deadline=None; self.iter_loops=0; self.summaries=[]
        self.lazy_make=None; self.max_paths=3000; self.root=None
    # ------------------------------------------------ types
    def place_ty(self,fr,pl):
        t=fr.body['locals'][pl[0]]
        for e in pl[1]:
            if e[0]=='*':
                tt=self.T[t]; t=tt.get('e',None)
                if t is None and tt['k']=='adt' and tt.get('box'): t=tt['a'][0]
            elif e[0]=='.': t=e[2]
            elif e[0] in('i','c'): t=self.T[t]['e']
        return t
    def op_ty(self,fr,op):
        if op[0] in('cp','mv'): return self.place_ty(fr,op[1])
        if op[0]=='k': return op[1][0]
        return None
    # ------------------------------------------------ memory
    def proj(self,st,v,e):
        k=e[0]
        if isinstance(v,Lazy): v=self.lazy_val(st,v)
        if k=='f':
            if isinstance(v,Agg):
                if e[1]<len(v.f): return v.f[e[1]]
                raise Unsupported('field %d of %r'%(e[1],v))
            if isinstance(v,(Ptr,DynPtr,FnV,StrV)): return v
            if isinstance(v,Undef): return v
            raise Unsupported('field of %r'%(v,))
        if k=='i':
            if isinstance(v,VecV): return self.seq_get(st,v.s,e[1])
            if isinstance(v,Arr):
                c=e[1].cval()
                if c is not None:
                    if not 0<=c<len(v.e): raise Panic('index out of bounds')
                    return v.e[int(c)]
                for j in range(len(v.e)-1):
                    if st.decide(e[1].eq(j)): return v.e[j]
                return v.e[-1]
            raise Unsupported('index of %r'%(v,))
        if k=='sub':
            s=self.as_seq(v)
            if isinstance(s,LSeq) and e[1].cval() is not None and e[2].cval() is not None:
                return VecV(LSeq(s.l[int(e[1].cval()):int(e[2].cval())]))
            return VecV(SubSeq(s,e[1],e[2]-e[1]))
        if k=='strsub': return v
        raise Unsupported('proj %r'%(e,))
    def seq_get(self,st,s,i):
        i=i if isinstance(i,Poly) else P(i)
        return s.get(self,st,i)
    def as_seq(self,v):
        if isinstance(v,VecV): return v.s
        if isinstance(v,Arr): return LSeq(v.e)
        raise Unsupported('not a sequence: %r'%(v,))
    def lazy_val(self,st,v):
        r=st.lazy.get(v.n)
        if r is None:
            t=self.T[v.t]
            if t['k']=='adt' and len(t['v'])==1:
                r=self.lazy_variant(st,v,0)
            elif t['k']=='tuple':
                r=Agg(0,[self.fresh_value(st,f,'%s.%d'%(v.n,i)) for i,f in enumerate(t['f'])]); st.lazy[v.n]=r
            else: raise Unsupported('uninspected lazy %r'%v)
        return r
    def lazy_variant(self,st,v,vi):
        t=self.T[v.t]
        fs=t['v'][vi]['f']
        r=Agg(vi,[self.fresh_value(st,ft,'%s.%s.%s'%(v.n,t['v'][vi]['n'],fn)) for fn,ft in fs])
        st.lazy[v.n]=r
        if len(t['v'])>3 and ('allowed',v.n) not in st.meta: st.assume(self.disc_atom(st,v).eq(vi))
        h=self.prog.hooks.get('lazy_refined')
        if h: h(self,st,v,vi,r)
        return r
    def fresh_value(self,st,ty,name):
        """an arbitrary value of type ty"""
        t=self.T[ty]; k=t['k']
        if k=='float': return fin(var(name))
        if k=='int':
            p=ivar(name); st.assume(p.ge(IMIN(t))); st.assume(p.le(IMAX(t))); return p
        if k=='bool': return bvarF(name)
        if k=='char':
            p=ivar(name); st.assume(p.ge(0)); st.assume(p.le(0x10ffff)); return p
        if k=='tuple': return Agg(0,[self.fresh_value(st,f,'%s.%d'%(name,i)) for i,f in enumerate(t['f'])])
        if k=='array':
            return Arr([self.fresh_value(st,t['e'],'%s[%d]'%(name,i)) for i in range(t['n'])])
        if k in('ref','ptr'):
            e=self.T[t['e']]
            if e['k']=='str': return StrV([('s',name)])
            if e['k'] in('slice',): return Ptr(self.newcell(st,VecV(self.in_seq(st,e['e'],name))))
            return Ptr(self.newcell(st,self.fresh_value(st,t['e'],name)))
        if k=='slice': return VecV(self.in_seq(st,t['e'],name))
        if k=='str': return StrV([('s',name)])
        if k=='adt':
            n=t['n']
            if t.get('box'): return Ptr(self.newcell(st,self.fresh_value(st,t['a'][0],name)))
            if n.endswith('::String'): return StrV([('s',name)])
            if n.endswith('vec::Vec') or n=='std::vec::Vec': return VecV(self.in_seq(st,t['a'][0],name))
            if n.endswith('PhantomData'): return Agg(0,())
            if n.endswith('cell::RefCell') or n.endswith('cell::Cell'): return Agg(0,(self.fresh_value(st,t['a'][0],name),))
            if n.endswith('HashMap'): return MapV((),name)
            return Lazy(ty,name)
        if k=='fnptr': return FnU(name)
        if k=='closure':
            u=self.T[t['u']]
            return Agg(0,[self.fresh_value(st,f,'%s.u%d'%(name,i)) for i,f in enumerate(u['f'])])
        raise Unsupported('fresh value of type %s'%json.dumps(t)[:100])
    def newcell(self,st,v): return st.alloc(v)
    def in_seq(self,st,ety,name):
        L=ivar('len(%s)'%name); st.assume(L.ge(0)); st.assume(L.le(1<<40))
        t=self.T[ety]; k=t['k']
        if k=='float': return InSeq(name,L,lambda i:fin(elem(name,i)))
        if k=='int':
            b=bvar(0); e=elem(name,b,'int')
            st.assume(F('forall','#0',ZERO,L,And(e.ge(IMIN(t)),e.le(IMAX(t)))))
            return InSeq(name,L,lambda i:elem(name,i,'int'))
        if k=='bool': return InSeq(name,L,lambda i:F('eq',elem(name,i,'int')-1))
        if k=='tuple' and all(self.T[f]['k']=='float' for f in t['f']): return InSeq(name,L,lambda i:Agg(0,[fin(elem('%s.%d'%(name,j),i)) for j in range(len(t['f']))]))
        if k=='tuple' and all(self.T[f]['k'] in('float','adt') for f in t['f']):
            def mk(i):
                r=[]
                for j,f in enumerate(t['f']):
                    if self.T[f]['k']=='float': r.append(fin(elem('%s.%d'%(name,j),i)))
                    else:
                        n='%s.%d[%s]'%(name,j,show(i)); vals.LAZYIDX[n]=('%s.%d'%(name,j),i); r.append(Lazy(f,n))
                return Agg(0,r)
            return InSeq(name,L,mk)
        if k=='array' and self.T[t['e']]['k']=='float': return InSeq(name,L,lambda i:Arr([fin(elem('%s.%d'%(name,j),i)) for j in range(t['n'])]))
        if k=='adt' and len(t['v'])==1 and any(self.T[ft]['k']=='fnptr' for _,ft in t['v'][0]['f']):
            def el(i):
                fs=[]
                for fn_,ft in t['v'][0]['f']:
                    tk=self.T[ft]['k']; nm='%s.%s'%(name,fn_)
                    fs.append(FnU(nm,(i,)) if tk=='fnptr' else fin(elem(nm,i)) if tk=='float' else Opq('field:'+nm,i))
                return Agg(0,fs)
            return InSeq(name,L,el)
        if k=='adt' and t['n'].endswith('HashMap'): return InSeq(name,L,lambda i:MapV((),(name,i)))
        return InSeq(name,L,lambda i:Lazy(ety,'%s[%s]'%(name,show(i))))
    def read(self,st,c,path):
        if c not in st.cells: raise Unsupported('dangling cell '+str(c))
        v=st.cells[c]
        for e in path: v=self.proj(st,v,e)
        return v
    def write(self,st,c,path,val):
        if not path: st.cells[c]=val; return
        st.cells[c]=self.upd(st,st.cells.get(c,Undef('new')),path,val)
    def upd(self,st,v,path,val):
        if not path: return val
        e=path[0]
        if isinstance(v,Lazy): v=self.lazy_val(st,v)
        if e[0]=='f':
            if isinstance(v,Undef): v=Agg(0,[Undef('f')]*(e[1]+1))
            if isinstance(v,Agg):
                l=list(v.f)
                while len(l)<=e[1]: l.append(Undef('f'))
                l[e[1]]=self.upd(st,l[e[1]],path[1:],val)
                return Agg(v.v,l)
            if isinstance(v,Ptr): return self.upd(st,v,path[1:],val)
        if e[0]=='i':
            if isinstance(v,Arr):
                c=e[1].cval()
                if c is None:
                    for j in range(len(v.e)):
                        if j==len(v.e)-1 or st.decide(e[1].eq(j)): c=j; break
                l=list(v.e); l[int(c)]=self.upd(st,l[int(c)],path[1:],val); return Arr(l)
            if isinstance(v,VecV):
                c=e[1].cval()
                if isinstance(v.s,LSeq) and c is not None:
                    l=list(v.s.l); l[int(c)]=self.upd(st,l[int(c)],path[1:],val); return VecV(LSeq(l))
                if isinstance(v.s,RepSeq) and c is not None and v.s.len.cval() is not None and v.s.len.cval()<=16:
                    return self.upd(st,VecV(LSeq((v.s.v,)*int(v.s.len.cval()))),path,val)
                old=self.seq_get(st,v.s,e[1]) if path[1:] else None
                return VecV(UpdSeq(v.s.base if isinstance(v.s,UpdSeq) and v.s.i==e[1] else v.s,e[1],self.upd(st,old,path[1:],val)))
        if e[0]=='sub':
            s=self.as_seq(v)
            if len(path)>1 and path[1][0]=='i':
                return self.upd(st,v,(('i',path[1][1]+e[1]),)+tuple(path[2:]),val)
        raise Unsupported('write %r into %r'%(path,v))
    def resolve(self,st,fr,pl):
        c=fr.loc.get(pl[0])
        if c is None:
            c=st.alloc(Undef('local')); fr.loc[pl[0]]=c
        path=(); val=None
        for e in pl[1]:
            k=e[0]
            if k=='*':
                v=self.read(st,c,path) if c is not None else val
                if isinstance(v,Lazy): v=self.lazy_val(st,v)
                if isinstance(v,DynPtr): v=v.p
                if isinstance(v,Ptr): c,path,val=v.c,v.p,None
                elif isinstance(v,Undef): raise Unsupported('deref of '+v.why)
                else: c,val=None,v
            elif k=='.':
                if c is not None:
                    v=self.read(st,c,path)
                    if isinstance(v,(Ptr,DynPtr)): continue
                    path=path+(('f',e[1]),)
                else: val=self.proj(st,val,('f',e[1]))
            elif k=='i':
                idx=self.read(st,fr.loc[e[1]],())
                if c is not None: path=path+(('i',idx),)
                else: val=self.proj(st,val,('i',idx))
            elif k=='c':
                v=self.read(st,c,path) if c is not None else val
                n=self.as_seq(v).len
                idx=n-e[1] if e[3] else const(e[1])
                if c is not None: path=path+(('i',idx),)
                else: val=self.proj(st,val,('i',idx))
            elif k=='s':
                v=self.read(st,c,path) if c is not None else val
                n=self.as_seq(v).len
                pe=('sub',const(e[1]),n-e[2] if e[3] else const(e[2]))
                if c is not None: path=path+(pe,)
                else: val=self.proj(st,val,pe)
            elif k=='d':
                v=self.read(st,c,path) if c is not None else val
                if isinstance(v,Lazy) and v.n not in st.lazy: self.refine(st,v,e[1])
        return c,path,val
    def refine(self,st,v,vi): return self.lazy_variant(st,v,vi)
    def readp(self,st,fr,pl):
        c,path,val=self.resolve(st,fr,pl)
        v=val if c is None else self.read(st,c,path)
        return v
    def writep(self,st,fr,pl,v):
        c,path,val=self.resolve(st,fr,pl)
        if c is None: raise Unsupported('write through value')
        self.write(st,c,path,v)
    # ------------------------------------------------ operands
    def operand(self,st,fr,op):
        if op[0] in('cp','mv'):
            v=self.readp(st,fr,op[1])
            if isinstance(v,Undef): raise Unsupported('read of undefined value (%s)'%v.why)
            return v
        if op[0]=='k': return self.const(st,op[1][0],op[1][1])
        if op[0]=='rt': return FALSE     # runtime UB checks of the standard library
        raise Unsupported('operand '+str(op[0]))
    def const(self,st,ty,c):
        k=c['c'] if c else None
        t=self.T[ty]
        if k=='bool': return B(bool(c['v']))
        if k in('int','char'): return const(c['v'])
        if k=='float': return float_const(c['v'],c['n'])
        if k=='str': return StrV([c['v']])
        if k=='zst':
            if t['k']=='array': return Arr(())
            return self.zst(ty)
        if k=='tuple': return Agg(0,[self.const(st,ft,x) for ft,x in zip(t['f'],c['f'])])
        if k=='array': return Arr([self.const(st,t['e'],x) for x in c['f']])
        if k=='bytes': return Arr([const(x) for x in c['v']])
        if k=='ref':
            v=self.const(st,t['e'],c['v'])
            if isinstance(v,StrV): return v
            return Ptr(st.alloc(v))
        if k=='sliceref':
            e=self.T[t['e']]
            return Ptr(st.alloc(VecV(LSeq([self.const(st,e['e'],x) for x in c['f']]))))
        if k=='adt':
            if t['n'].endswith('::String'): return StrV([''])
            if t['n'].endswith('vec::Vec'): return VecV(LSeq(()))
            fs=t['v'][c['vi']]['f']
            return Agg(c['vi'],[self.const(st,ft,x) for (fn,ft),x in zip(fs,c['f'])])
        if k=='fn': return FnV(c['i'])
        if k=='static': return Opq('static:'+c['n'])
        return Opq('const:%s'%json.dumps(c)[:60])
    def zst(self,ty):
        t=self.T[ty]
        if t['k']=='adt':
            if not t['v']: return UNIT
            return Agg(0,[self.zst(ft) for fn,ft in t['v'][0]['f']])
        if t['k']=='tuple': return Agg(0,[self.zst(f) for f in t['f']])
        if t['k']=='fndef': return FnV(t['i'])
        return UNIT
    # ------------------------------------------------ rvalues
    def rvalue(self,st,fr,rv,dty):
        k=rv[0]
        if k=='use': return self.operand(st,fr,rv[1])
        if k in('ref','addr'):
            pl=rv[1]
            c,path,val=self.resolve(st,fr,pl)
            if c is None:
                if isinstance(val,(StrV,FnV,Opq)): return val
                return Ptr(st.alloc(val))
            v0=pl[1] and pl[1][-1][0]=='*'
            if v0:
                # reborrow: keep fat pointer identity
                b=self.readp(st,fr,[pl[0],pl[1][:-1]])
                if isinstance(b,(DynPtr,)): return b
            return Ptr(c,path)
        if k=='bin': return self.binop(st,rv[1],self.operand(st,fr,rv[2]),self.operand(st,fr,rv[3]),self.op_ty(fr,rv[2]))
        if k=='chk':
            a=self.operand(st,fr,rv[2]); b=self.operand(st,fr,rv[3]); t=self.T[self.op_ty(fr,rv[2])]
            r=self.iarith(st,rv[1],a,b,t)
            return Agg(0,(r,Not(And(r.ge(IMIN(t)),r.le(IMAX(t))))))
        if k=='un':
            a=self.operand(st,fr,rv[2])
            if rv[1]=='Not':
                if isinstance(a,F): return Not(a)
                t=self.T[self.op_ty(fr,rv[2])]
                return (const(-1)-a) if t['s'] else const(IMAX(t))-a
            if rv[1]=='Neg': return self.fneg(a) if isinstance(a,Fl) else -a
            if rv[1]=='PtrMetadata': return self.ptr_len(st,a)
            raise Unsupported('unop '+rv[1])
        if k=='cast': return self.cast(st,fr,rv[1],self.operand(st,fr,rv[2]),self.op_ty(fr,rv[2]),rv[3])
        if k=='disc':
            v=self.readp(st,fr,rv[1]); ty=self.place_ty(fr,rv[1])
            return self.discr(st,v,ty)
        if k=='len':
            v=self.readp(st,fr,rv[1]); return self.as_seq(v).len
        if k=='rep':
            v=self.operand(st,fr,rv[1])
            if rv[2]>4096: return VecV(RepSeq(const(rv[2]),v))
            return Arr([v]*rv[2])
        if k=='agg':
            ops=[self.operand(st,fr,o) for o in rv[4]]
            if rv[1]=='array': return Arr(ops)
            if rv[1]=='rawptr': return ops[0]
            if rv[1]=='adt':
                t=self.T[rv[2]]
                if t['ak']=='union': return ops[0]
                if t['ak']=='struct' and (t['n'].endswith('::NonNull') or t['n'].endswith('::Unique')) : return ops[0]
                h=self.prog.hooks.get('agg_adt')
                return Agg(rv[3],ops)
            return Agg(0,ops)
        raise Unsupported('rvalue '+k)
    def discr(self,st,v,ty):
        t=self.T[ty]
        if isinstance(v,Lazy):
            if v.n in st.lazy: v=st.lazy[v.n]
            elif t['k']=='adt' and len(t['v'])>3 and ('allowed',v.n) not in st.meta and all(x['d']==i for i,x in enumerate(t['v'])):
                return self.disc_atom(st,v)
            else:
                vi=self.lazy_choose(st,v,t)
                v=self.lazy_variant(st,v,vi)
        if isinstance(v,Agg):
            if t['k']=='adt' and t['ak']=='enum': 
                d=t['v'][v.v]['d']
                if d>=1<<127: d-=1<<128
                return const(d)
            return ZERO
        raise Unsupported('discriminant of %r'%(v,))
    def disc_atom(self,st,v):
        # the constructor is left open until a switch tests it, and then only split as far as the switch tells it apart
        d=ivar('disc(%s)'%v.n)
        if ('disc',d) not in st.meta:
            st.meta[('disc',d)]=v; st.assume(d.ge(0)); st.assume(d.le(len(self.T[v.t]['v'])-1))
        return d
    def is_variant(self,st,v,k):
        if v.n in st.lazy: return st.lazy[v.n].v==k
        if not st.decide(self.disc_atom(st,v).eq(k)): return False
        if v.n not in st.lazy: self.lazy_variant(st,v,k)
        return True
    def lazy_choose(self,st,v,t):
        n=len(t['v'])
        allowed=st.meta.get(('allowed',v.n))
        idx=list(range(n)) if allowed is None else list(allowed)
        for i in idx[:-1]:
            if st.decide(F('b','is(%s,%s)'%(v.n,t['v'][i]['n']))): return i
        return idx[-1]
    def ptr_len(self,st,a):
        if isinstance(a,Ptr):
            v=self.read(st,a.c,a.p)
            if isinstance(v,StrV): return self.str_len(st,v)
            return self.as_seq(v).len
        if isinstance(a,StrV): return self.str_len(st,a)
        raise Unsupported('metadata of %r'%(a,))
    def str_len(self,st,v):
        l=v.lit()
        if l is not None: return const(len(l.encode()))
        t=ZERO
        for x in v.s:
            n=const(len(x.encode())) if isinstance(x,str) else P(atom('fn','strlen',repr(StrV([x])),sort='int'))
            if not isinstance(x,str): st.assume(n.ge(0)); st.assume(n.le(1<<40))
            t=t+n
        return t
    def iarith(self,st,op,a,b,t):
        if op.startswith('Add'): return a+b
        if op.startswith('Sub'): return a-b
        if op.startswith('Mul'): return a*b
        raise Unsupported('checked '+op)
    def binop(self,st,op,a,b,ty):
        if isinstance(a,Fl) or isinstance(b,Fl): return self.fbin(st,op,a,b)
        if isinstance(a,F):
            if op=='Eq': return Or(And(a,b),And(Not(a),Not(b)))
            if op=='Ne': return Or(And(a,Not(b)),And(Not(a),b))
            if op=='BitAnd': return And(a,b)
            if op=='BitOr': return Or(a,b)
            if op=='BitXor': return Or(And(a,Not(b)),And(Not(a),b))
            if op in('Lt','Le','Gt','Ge'):
                return {'Lt':And(Not(a),b),'Le':Or(Not(a),b),'Gt':And(a,Not(b)),'Ge':Or(a,Not(b))}[op]
        if isinstance(a,Poly) and isinstance(b,Poly):
            t=self.T[ty] if ty is not None else None
            if op in('Eq','Ne','Lt','Le','Gt','Ge'): return {'Eq':a.eq,'Ne':a.ne,'Lt':a.lt,'Le':a.le,'Gt':a.gt,'Ge':a.ge}[op](b)
            if op in('Add','Sub','Mul'):
                r=self.iarith(st,op,a,b,t)
                if t and t['k']=='int' and not(st.decide(And(r.ge(IMIN(t)),r.le(IMAX(t))))):
                    raise Unsupported('wrapping arithmetic')
                return r
            if op in('AddUnchecked','SubUnchecked','MulUnchecked'): return self.iarith(st,op,a,b,t)
            ca,cb=a.cval(),b.cval()
            if op in('Div','Rem'):
                if ca is not None and cb is not None and cb!=0:
                    ia,ib=int(ca),int(cb); q=abs(ia)//abs(ib)*(1 if (ia>=0)==(ib>=0) else -1)
                    return const(q if op=='Div' else ia-q*ib)
                if st.decide(a.ge(0)) and st.decide(b.gt(0)):
                    q=P(atom('fn','idiv',a,b,sort='int'))
                    return q if op=='Div' else a-q*b
            if ca is not None and cb is not None:
                ia,ib=int(ca),int(cb)
                if op=='BitAnd': return const(ia&ib)
                if op=='BitOr': return const(ia|ib)
                if op=='BitXor': return const(ia^ib)
                if op.startswith('Shl'):
                    w=t['w']; m=(ia<<ib)&((1<<w)-1)
                    if t['s'] and m>>(w-1): m-=1<<w
                    return const(m)
                if op.startswith('Shr'): return const(ia>>ib)
                if op=='Cmp': return Agg(0 if ia<ib else 1 if ia==ib else 2,())
            if op.startswith('Shl') and cb is not None:
                r=a*(1<<int(cb))
                if t and not st.decide(And(r.ge(IMIN(t)),r.le(IMAX(t)))): raise Unsupported('wrapping shl')
                return r
            if op.startswith('Shr') and cb is not None and st.decide(a.ge(0)): return P(atom('fn','idiv',a,const(1<<int(cb)),sort='int'))
            if op=='BitAnd' and cb is not None and (int(cb)&(int(cb)+1))==0 and st.decide(a.ge(0)):
                m=int(cb)+1
                return a-P(atom('fn','idiv',a,const(m),sort='int'))*m
            if op=='Cmp':
                if st.decide(a.lt(b)): return Agg(0,())
                return Agg(1,()) if st.decide(a.eq(b)) else Agg(2,())
        if isinstance(a,(Ptr,DynPtr)) and op in('Eq','Ne'):
            r=B(a==b)
            return r if op=='Eq' else Not(r)
        if isinstance(a,Agg) and isinstance(b,Agg) and op in('Eq','Ne') and not a.f: 
            r=B(a==b); return r if op=='Eq' else Not(r)
        raise Unsupported('binop %s %r %r'%(op,a,b))
    # ------------------------------------------------ floats
    def fneg(self,a):
        return {'fin':lambda:fin(-a.p),'pinf':lambda:NINF,'ninf':lambda:PINF,'nan':lambda:NAN}[a.k]()
    def sign(self,st,p):
        if st.decide(p.gt(0)): return 1
        if st.decide(p.eq(0)): return 0
        return -1
    def fbin(self,st,op,a,b):
        if op in('Lt','Le','Gt','Ge','Eq','Ne'): return self.fcmp(op,a,b)
        if a.k=='nan' or b.k=='nan': return NAN
        if op=='Add':
            if a.k=='fin' and b.k=='fin': return fin(a.p+b.p)
            if a.k=='fin': return b
            if b.k=='fin': return a
            return a if a.k==b.k else NAN
        if op=='Sub': return self.fbin(st,'Add',a,self.fneg(b))
        if op=='Mul':
            if a.k=='fin' and b.k=='fin': return fin(a.p*b.p)
            sa=self.sign(st,a.p) if a.k=='fin' else (1 if a.k=='pinf' else -1)
            sb=self.sign(st,b.p) if b.k=='fin' else (1 if b.k=='pinf' else -1)
            if sa*sb==0: return NAN
            return PINF if sa*sb>0 else NINF
        if op=='Div':
            if a.k=='fin' and b.k=='fin':
                if b.p.cval() is None and st.decide(b.p.eq(0)) or b.p.cval()==0:
                    s=self.sign(st,a.p)
                    return NAN if s==0 else (PINF if s>0 else NINF)
                return fin(a.p/b.p)
            if b.k!='fin': return NAN if a.k!='fin' else fin(ZERO)
            s=self.sign(st,b.p); sa=1 if a.k=='pinf' else -1
            return PINF if sa*(s or 1)>0 else NINF
        if op=='Rem':
            if a.k=='fin' and b.k=='fin' and not st.decide(b.p.eq(0)):
                q=P(atom('fn','trunc',a.p/b.p,sort='int'))
                return fin(a.p-q*b.p)
            return NAN
        raise Unsupported('fbin '+op)
    def fcmp(self,op,a,b):
        if a.k=='nan' or b.k=='nan': return B(op=='Ne')
        if a.k=='fin' and b.k=='fin' and op in('Eq','Ne') and (not a.p.t or not b.p.t):
            t=[m[0][0] for m,c in (a.p-b.p).t.items() if len(m)==1 and m[0][0].kind=='fn' and m[0][0].args[0]=='trunc']
            if len(t)==1 and (a.p-b.p) in(P(t[0])-t[0].args[1],t[0].args[1]-P(t[0])):
                f=IsInt(t[0].args[1]); return f if op=='Eq' else Not(f)
        if a.k=='fin' and b.k=='fin': return {'Eq':a.p.eq,'Ne':a.p.ne,'Lt':a.p.lt,'Le':a.p.le,'Gt':a.p.gt,'Ge':a.p.ge}[op](b.p)
        r={'ninf':-1,'fin':0,'pinf':1}; x,y=r[a.k],r[b.k]
        return B({'Eq':x==y,'Ne':x!=y,'Lt':x<y,'Le':x<=y,'Gt':x>y,'Ge':x>=y}[op])
    def fln(self,st,a):
        if a.k=='nan' or a.k=='ninf': return NAN
        if a.k=='pinf': return PINF
        if a.p.cval() is not None:
            c=a.p.cval()
            if c==0: return NINF
            if c<0: return NAN
            return fin(ln(a.p))
        if st.decide(a.p.gt(0)): return fin(ln(a.p))
        if st.decide(a.p.eq(0)): return NINF
        return NAN
    def fexp(self,st,a):
        return {'nan':NAN,'pinf':PINF,'ninf':fin(ZERO)}.get(a.k) or fin(exp(a.p))
    def fsqrt(self,st,a):
        if a.k in('nan','ninf'): return NAN
        if a.k=='pinf': return PINF
        if st.decide(a.p.ge(0)): return fin(sqrt(a.p))
        return NAN
    def fpowi(self,st,a,n):
        if n==0: return fin(ONE)
        if a.k!='fin':
            if a.k=='nan': return NAN
            if a.k=='pinf': return PINF if n>0 else fin(ZERO)
            return (fin(ZERO) if n<0 else (PINF if n%2==0 else NINF))
        if n<0:
            if st.decide(a.p.eq(0)): return PINF
        return fin(a.p**n)
    def fpow(self,st,a,b):
        if b.k=='fin' and b.p.cval() is not None:
            c=b.p.cval()
            if c.denominator==1 and abs(c)<=64: return self.fpowi(st,a,int(c))
            if a.k=='fin' and c.denominator in(2,) and abs(c)<=20:
                if st.decide(a.p.gt(0)): return fin(ppow(a.p,c))
                if st.decide(a.p.eq(0)): return fin(ZERO) if c>0 else PINF
                return NAN
        if b.k=='fin' and st.known(b.p.eq(0)) is True: return fin(ONE)
        if b.k=='fin' and len(b.p.t)==1 and len(b.p.atoms())==1:     # an exponent the path pins to a constant
            for f in st.pc:
                if f.k=='eq' and f.a[0].atoms()==b.p.atoms():
                    z=f.a[0]-b.p
                    for d in (z,f.a[0]+b.p):
                        c=d.cval()
                        if c is not None:
                            c=-c if d is z else c
                            if st.known(b.p.eq(c)) is True: return self.fpow(st,a,fin(const(c)))
        if a.k=='fin' and b.k=='fin' and len(a.p.t)==1:              # (y^c)^b = y^(c b) for integer c, b
            (mm,cc),=a.p.t.items()
            if cc==1 and len(mm)==1 and mm[0][1]==1 and mm[0][0].kind=='fn' and mm[0][0].args[0]=='pow' and (b.p.isint() or st.known(F('isint',b.p)) is True):
                return fin(P(atom('fn','pow',mm[0][0].args[1],mm[0][0].args[2]*b.p)))
        if a.k=='fin' and b.k=='fin':
            if a.p==ONE: return fin(ONE)
            if st.decide(a.p.gt(0)): return fin(exp(b.p*ln(a.p)))
            if st.decide(b.p.eq(0)): return fin(ONE)
            if st.decide(a.p.eq(0)): return fin(ZERO) if st.decide(b.p.gt(0)) else PINF
            # negative base: defined for integer exponents only
            if b.p.isint() or st.decide(F('isint',b.p)): return fin(P(atom('fn','pow',a.p,b.p)))
            return NAN
        raise Unsupported('pow %r %r'%(a,b))
    def cast(self,st,fr,kind,v,sty,dty):
        t=self.T[dty]; s=self.T[sty] if sty is not None else None
        if kind.startswith('IntToFloat'): return fin(v)
        if kind.startswith('FloatToFloat'):
            if t.get('n')=='F32' and s is not None and s.get('n')=='F64' and v.k=='fin' and not getattr(self,'ideal32',False):
                c=v.p.cval()
                import struct
                if c is not None and abs(c)<10**38 and Q(struct.unpack('f',struct.pack('f',float(c)))[0])==c: return v
                return fin(fn('f32',v.p))       # rounded to single precision
            return v
        if kind.startswith('FloatToInt'):
            lo,hi=IMIN(t),IMAX(t)
            if v.k=='nan': return ZERO
            if v.k=='pinf': return const(hi)
            if v.k=='ninf': return const(lo)
            c=v.p.cval()
            if c is not None: return const(max(lo,min(hi,int(c))))
            if st.decide(v.p.lt(lo)): return const(lo)
            if st.decide(v.p.gt(hi)): return const(hi)
            if v.p.isint(): return v.p
            return P(atom('fn','trunc',v.p,sort='int'))
        if kind.startswith('IntToInt'):
            if isinstance(v,F): v=ite(v,ONE,ZERO)
            if isinstance(v,Agg): v=self.discr(st,v,sty)
            if t['k']=='char' or s['k']=='char': return v
            c=v.cval()
            if c is not None:
                m=int(c)&((1<<t['w'])-1)
                if t['s'] and m>>(t['w']-1): m-=1<<t['w']
                return const(m)
            if st.decide(And(v.ge(IMIN(t)),v.le(IMAX(t)))): return v
            w=1<<t['w']
            if s and s['k']=='int' and not t['s'] and s['s'] and s['w']==t['w']: return v+w
            if s and s['k']=='int' and t['s'] and not s['s'] and s['w']==t['w']: return v-w
            if st.decide(v.ge(0)):
                q=v-P(atom('fn','idiv',v,const(w),sort='int'))*w
                if not t['s']: return q
                return q if st.decide(q.lt(w//2)) else q-w
            raise Unsupported('truncating integer cast')
        if 'Unsize' in kind:
            d=self.T[t['e']] if 'e' in t else (self.T[t['a'][0]] if t['k']=='adt' and t['a'] else None)
            if d is not None and d['k']=='dyn':
                src=s['e'] if 'e' in s else s['a'][0]
                return DynPtr(v,src) if not isinstance(v,DynPtr) else v
            return v
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            if s['k']=='fndef': return FnV(s['i'])
            if s['k']=='closure': return FnV(s.get('once') if s.get('fn') is None else s['fn'])
            return v
        if kind=='Transmute' and s is not None:
            if isinstance(v,Fl) and t['k']=='int': return self.to_bits(v)
            if isinstance(v,Poly) and t['k']=='float': return self.from_bits(v)
            if isinstance(v,Ptr) and t['k']=='int': raise Unsupported('pointer to int')
            return v
        return v
    def to_bits(self,v):
        if v.k=='fin':
            return P(atom('fn','bits',v.p,sort='int'))
        return const({'pinf':0x7ff0<<48,'ninf':0xfff0<<48,'nan':0x7ff8<<48}[v.k])
    def from_bits(self,v):
        c=v.cval()
        if c is not None:
            return float_const(repr(struct.unpack('<d',struct.pack('<Q',int(c)))[0]))
        if len(v.t)==1:
            (m,c),=v.t.items()
            if c==1 and len(m)==1 and m[0][0].kind=='fn' and m[0][0].args[0]=='bits': return fin(m[0][0].args[1])
        raise Unsupported('from_bits')
    # ------------------------------------------------ calls
    def push(self,st,inst,args,dest,ret):
        i=self.prog.insts[inst]; b=i['b']
        if b is None: raise Unsupported('no body: '+i['n'])
        fr=Frame(); fr.inst=inst; fr.body=b; fr.loc={}; fr.bb=0; fr.si=-1; fr.dest=dest; fr.ret=ret; fr.loops={}; fr.depthmark=None
        n=b['n']
        if b['spread'] is not None:
            sp=b['spread']
            # callers pass the tuple untupled for rust-call; re-tuple if needed
            if len(args)!=n: args=args[:sp-1]+[Agg(0,args[sp-1:])]
        elif len(args)!=n:
            if len(args)==2 and isinstance(args[1],Agg): args=[args[0]]+list(args[1].f)
            elif len(args)==2 and n==1: args=args[:1]
            elif n==len(args)+1 and '{closure#' in i['n'].rsplit('::',1)[-1]:   # non-capturing closure called through a function pointer
                args=[Ptr(st.alloc(UNIT)) if self.T[b['locals'][1]]['k'] in('ref','ptr') else UNIT]+list(args)
        if len(args)!=n: raise Unsupported('arity %s %d!=%d'%(i['n'],len(args),n))
        for k,a in enumerate(args): fr.loc[k+1]=st.alloc(a)
        st.frames.append(fr)
        if len(st.frames)>120: raise Unsupported('call depth')
        self.inlined.add(inst)
    def call_inst(self,st,inst,args):
        """run an instance to completion in st (Forks propagate); return its value"""
        d=len(st.frames)
        cell=st.alloc(Undef('ret'))
        self.push(st,inst,args,(cell,()),None)
        self.run(st,d)
        return st.cells[cell]
    def apply(self,st,f,fty,args):
        """call callable value f of type fty (f may be a pointer to the callable)"""
        t=self.T[fty]
        while t['k'] in('ref','ptr') or (t['k']=='adt' and t.get('box')):
            if isinstance(f,DynPtr): break
            fty=t['e'] if 'e' in t else t['a'][0]; t=self.T[fty]
            if isinstance(f,Ptr):
                inner=self.read(st,f.c,f.p)
                if isinstance(inner,(DynPtr,)): f=inner
                elif isinstance(inner,Ptr) and t['k'] in('ref','ptr','adt'): f=inner
        if isinstance(f,Ptr) and isinstance(self.read(st,f.c,f.p),DynPtr): f=self.read(st,f.c,f.p)
        if isinstance(f,DynPtr): return self.apply(st,f.p,f.t,args)
        if t['k']=='dyn' : raise Unsupported('dyn call on %r'%(f,))
        h=self.prog.hooks.get('apply')
        if isinstance(f,Opq) or (isinstance(f,Ptr) and isinstance(self.read(st,f.c,f.p),Opq)):
            o=f if isinstance(f,Opq) else self.read(st,f.c,f.p)
            return self.call_opaque(st,o,args)
        if t['k']=='fndef':
            return self.call_fn(st,t,args,[None]*len(args),None)
        if t['k']=='fnptr':
            v=f
            if isinstance(v,Ptr): v=self.read(st,v.c,v.p)
            if isinstance(v,FnV): return self.call_id(st,v.i,args)
            if isinstance(v,FnU): return self.call_fnu(st,v,args)
            raise Unsupported('fnptr %r'%(v,))
        if t['k']=='closure':
            for key in('fn','mut','once'):
                i=t.get(key)
                if i is not None and self.prog.insts[i]['b'] is not None:
                    byref=self.self_by_ref(i)
                    if byref and not isinstance(f,Ptr): f=Ptr(st.alloc(f))
                    if not byref and isinstance(f,Ptr): f=self.read(st,f.c,f.p)
                    return self.call_inst(st,i,[f]+list(args))
        raise Unsupported('apply %s'%json.dumps(t)[:120])
    def self_by_ref(self,i):
        b=self.prog.insts[i]['b']
        return self.T[b['locals'][1]]['k'] in('ref','ptr')
    def call_fnu(self,st,v,args):
        ps=[]
        for a in args:
            while isinstance(a,Ptr): a=self.read(st,a.c,a.p)
            ps.extend(flatten(a))
        return fin(fn('u:'+v.n,*v.a,*ps))
    def call_opaque(self,st,o,args):
        """uninterpreted function value: Opq('ufn', name)"""
        if o.n=='ufn':
            ps=[]
            for a in args:
                while isinstance(a,Ptr): a=self.read(st,a.c,a.p)
                ps.extend(flatten(a))
            return fin(fn('u:'+o.d,*ps))
        raise Unsupported('opaque call %r'%o)
    def call_id(self,st,i,args):
        n=self.prog.insts[i]['n']
        return self.call_fn(st,{'k':'fndef','d':n,'a':[],'i':i},args,[None]*len(args),None)
    def call_fn(self,st,t,args,atys,dty):
        """call a fndef type from a model, nested"""
        r=self.dispatch(st,t,args,atys,dty)
        if r is not INLINE: return r
        return self.call_inst(st,t['i'],list(args))
    def dispatch(self,st,t,args,atys,dty):
        d=t['d']; iname=self.prog.insts[t['i']]['n'] if t.get('i') is not None else d
        call=Call(self,st,t,d,iname,args,atys,dty)
        for pat,h in self.contracts:
            if pat.search(iname) and not (t.get('i') is not None and t['i']==self.root and not st.meta.get('inbody')):
                r=h(call)
                if r is not INLINE:
                    self.used_contracts.add(iname)
                    return r
        m=self.models.lookup(d,iname)
        if m is not None:
            r=m(call)
            if r is not INLINE:
                self.used_models.add(d)
                return r
        if t.get('i') is None: raise Unsupported('unresolved call '+d)
        ins=self.prog.insts[t['i']]
        if ins['b'] is None:
            r=self.ctor(ins['n'],args,dty)
            if r is not None: return r
            raise Unsupported('no model for '+iname+' ['+d+']')
        return INLINE
    def ctor(self,n,args,dty):
        """a tuple constructor used as a function"""
        ty,_,v=n.rpartition('::')
        ts=[self.T[dty]] if dty is not None else self.T
        if isinstance(ts,dict): ts=list(ts.values())
        c=[(i,t) for t in ts if t['k']=='adt' and str(t.get('n',''))==ty for i,x in enumerate(t['v']) if (x.get('n') if isinstance(x,dict) else x[0])==v and len(x['f'])==len(args)]
        return Agg(c[0][0],tuple(args)) if len({i for i,_ in c})==1 else None
    # ------------------------------------------------ stepping
    def run(self,st,depth,stop=None):
        """run until frame count == depth (returned) or stop(st) is true at a block start. Fork propagates with st at a re-executable point"""
        while len(st.frames)>depth:
            fr=st.frames[-1]
            if fr.si==-1:
                if stop is not None and len(st.frames)==depth+1:
                    r=stop(fr)
                    if r: return r
                self.enter_block(st,fr)
                fr.si=0
            st.steps+=1
            if st.steps>self.max_steps: raise Unsupported('step budget')
            if self.deadline and (st.steps&63)==0 and _time.time()>self.deadline: raise Unsupported('time budget')
            blk=fr.body['blocks'][fr.bb]
            ss=blk['s']
            if fr.si<len(ss):
                s=ss[fr.si]
                if s[0]=='=':
                    try:
                        v=self.rvalue(st,fr,s[2],None)
                        self.writep(st,fr,s[1],v)
                    except Fork as f:
                        self.body_fork(st,f,depth)
                        continue
                elif s[0]=='dead':
                    c=fr.loc.pop(s[1],None)
                elif s[0]=='assume':
                    v=self.operand(st,fr,s[1]); st.assume(v)
                elif s[0]=='setd':
                    v=self.readp(st,fr,s[1]); self.writep(st,fr,s[1],Agg(s[2],v.f if isinstance(v,Agg) else ()))
                elif s[0]=='copyno': raise Unsupported('copy_nonoverlapping')
                fr.si+=1
                continue
            rs=st.meta.get('resum')
            if rs is not None and rs[0]==(fr.inst,fr.bb,len(st.frames)):
                self.loop_fork(st,Fork(rs[1],True),depth)
                continue
            try: self.term(st,fr,blk['t'],depth)
            except Fork as f:
                self.loop_fork(st,f,depth)
        return 'ret'
    def enter_block(self,st,fr):
        li=self.prog.loops(fr.inst)
        if fr.bb in li.headers and fr.depthmark!=('at',fr.bb):
            n,_o,snap0=fr.loops.get(fr.bb,(0,None,None))
            snap=st.copy()
            snap.frames[-1].depthmark=('at',fr.bb)
            fr.loops[fr.bb]=(n+1,snap,snap0 or snap)
            if n>400: raise Unsupported('loop unrolling limit in '+self.prog.insts[fr.inst]['n'])
        fr.depthmark=None
        # leaving loops resets their counters
        for h in list(fr.loops):
            if fr.bb not in li.loops[h]: del fr.loops[h]
    def loop_fork(self,st,f,depth):
        """a Fork surfaced at the terminator of the top frame; decide whether to summarise a loop"""
        fr=st.frames[-1]
        li=self.prog.loops(fr.inst)
        inn=[h for h in fr.loops if fr.bb in li.loops[h]]
        if not inn or st.meta.get(('nosum',fr.inst,fr.bb,len(st.frames))): return self.body_fork(st,f,depth)
        h=min(inn,key=lambda h:len(li.loops[h]))
        isnext=f.loop
        t=fr.body['blocks'][fr.bb]['t']
        if not isnext:
            if t[0]!='switch' or h in li.has_next(self,h): return self.body_fork(st,f,depth)
            succ=[x[1] for x in t[2]]+[t[3]]
            if all(x in li.loops[h] for x in succ): return self.body_fork(st,f,depth)
        self.loop_sum(st,f,fr,h,len(st.frames)-1,True)
    def body_fork(self,st,f,depth):
        """a data fork; inside a loop that has already been unrolled a few times, try to summarise the whole loop instead"""
        for d in range(len(st.frames)-1,depth-1,-1):
            fr=st.frames[d]
            li=self.prog.loops(fr.inst)
            inn=[h for h in fr.loops if fr.bb in li.loops[h] and fr.loops[h][0]>=4]
            if not inn or st.meta.get(('nosumb',fr.inst,d)): continue
            h=min(inn,key=lambda h:len(li.loops[h]))
            if st.meta.get(('bodyfail',fr.inst,h,d)): continue
            try: self.loop_sum(st,f,fr,h,d,False); return
            except (Peel,Unsupported):
                st.meta[('bodyfail',fr.inst,h,d)]=1
        raise f
    def loop_sum(self,st,f,fr,h,d,top):
        li=self.prog.loops(fr.inst)
        snap1=fr.loops[h][1]; snap0=fr.loops[h][2]
        inst=fr.inst
        if len(snap1.frames)-1!=d: raise Unsupported('loop snapshot depth')
        L=li.loops[h]; bb0=fr.bb
        # resumable: the step may be re-entered after a Fork in the middle of an iteration
        def start(s):
            s.frames[-1].depthmark=('at',h); s.frames[-1].si=-1; s.frames[-1].bb=h
            s.frames[-1].loops.pop(h,None)
            if top: s.meta[('nosum',inst,bb0,d+1)]=1
            else: s.meta[('nosumb',inst,d)]=1
            s.meta.pop(('it',d),None)
        def resume(s):
            def stop2(fx):
                if fx.bb==h and s.meta.get(('it',d)) : return 'cont'
                s.meta[('it',d)]=1
                if fx.bb not in L: return 'exit'
            return self.run(s,d,stop2)
        def finish(s):
            s.meta.pop(('nosum',inst,bb0,d+1),None); s.meta.pop(('it',d),None); s.meta.pop(('nosumb',inst,d),None)
        try:
            # prefer a summary from the first iteration; fall back to the current one (earlier iterations peeled)
            out=None
            for sn in ([snap0] if snap0 is not snap1 else [])+[snap1]:
                snap=sn.copy()
                for ff in st.pc: snap.assume(ff)
                snap.meta.pop('resum',None)
                for kk,vv in st.meta.items():
                    if isinstance(kk,tuple) and kk and kk[0]=='py': snap.meta.setdefault(kk,vv)
                try: out=self.summarise(snap,start,resume,finish,'%s:bb%d'%(self.prog.insts[inst]['n'],h)); break
                except (Peel,Unsupported):
                    if sn is snap1: raise
        except Peel:
            if not top: raise
            st.meta.pop('resum',None)
            if st.known(f.f) is not None:
                self.term(st,fr,fr.body['blocks'][fr.bb]['t'],d)
                return
            raise Fork(f.f,False)
        except Fork as g:
            if not top: raise Unsupported('fork while summarising')
            g.meta=dict(g.meta); g.meta['resum']=((inst,bb0,d+1),f.f); g.loop=False
            raise g
        out.meta.pop('resum',None)
        st.become(out)
    # ---- exploring
    def explore(self,st,resume,limit=None):
        """all leaves [(state, kind)] ; kind: return value of resume or ('panic',msg)"""
        work=[st]; out=[]
        n=0
        while work:
            s=work.pop()
            n+=1
            if n>(limit or self.max_paths): raise Unsupported('path budget')
            if self.deadline and _time.time()>self.deadline: raise Unsupported('time budget')
            snap=None
            try:
                k=resume(s)
                out.append((s,k))
            except Fork as f:
                s.meta.update(f.meta); a=s.copy(); b=s
                a.assume(f.f); b.assume(Not(f.f))
                # deterministic order: true branch first
                if self.feas(b): work.append(b)
                if self.feas(a): work.append(a)
            except Panic as p:
                out.append((s,('panic',p.msg)))
            except Infeasible: pass
        return out
    def release(self,st,fr,t):
        """dropping a lock guard (possibly inside another value) unlocks"""
        try: v=self.readp(st,fr,t[1])
        except Exception: return
        def walk(v):
            if isinstance(v,Agg):
                for x in v.f:
                    if isinstance(x,Opq) and x.n=='guard': st.meta.pop(('held',x.d),None)
                    walk(x)
        walk(v)
    def feas(self,s): return s.ctx.check(TRUE)!='unsat' if s.pc else True
    def term(self,st,fr,t,depth):
        k=t[0]
        if k=='goto': fr.bb=t[1]; fr.si=-1
        elif k=='switch':
            v=self.operand(st,fr,t[1])
            fr.bb=self.switch(st,v,t[2],t[3]); fr.si=-1
        elif k=='ret':
            v=st.cells.get(fr.loc.get(0),UNIT) if 0 in fr.loc else UNIT
            if isinstance(v,Undef): v=UNIT
            st.frames.pop()
            if fr.dest is not None: self.write(st,fr.dest[0],fr.dest[1],v)
            if st.frames and fr.ret is not None:
                st.frames[-1].bb=fr.ret; st.frames[-1].si=-1
        elif k=='drop':
            if any(x[0]=='held' for x in st.meta): self.release(st,fr,t)
            fr.bb=t[2]; fr.si=-1
        elif k=='assert':
            v=self.operand(st,fr,t[1])
            if not t[2]: v=Not(v)
            if st.decide(v): fr.bb=t[4]; fr.si=-1
            else: raise Panic(t[3])
        elif k=='call': self.call(st,fr,t)
        elif k=='unreach': raise Infeasible()
        elif k=='abort': raise Panic('abort')
        else: raise Unsupported('terminator '+k)
    def switch(self,st,v,br,other):
        if isinstance(v,F):
            zero=[b for x,b in br if x==0]; one=[b for x,b in br if x==1]
            if st.decide(v): return one[0] if one else other
            return zero[0] if zero else other
        if isinstance(v,Poly):
            c=v.cval()
            if c is not None:
                for x,b in br:
                    if x==c or (c<0 and x==c+(1<<128)) or (c<0 and x in(c+(1<<64),c+(1<<8),c+(1<<32),c+(1<<16))): return b
                return other
            lz=st.meta.get(('disc',v))
            if lz is not None and lz.n in st.lazy:
                for x,b in br:
                    if x==st.lazy[lz.n].v: return b
                return other
            for x,b in br:
                if st.decide(v.eq(x)):
                    if lz is not None: self.lazy_variant(st,lz,x)
                    return b
            return other
        raise Unsupported('switch on %r'%(v,))
    def call(self,st,fr,t):
        snap=st.copy()
        try: self._call(st,fr,t)
        except Fork as f:
            st.become(snap); st.meta.update(f.meta); raise
    def _call(self,st,fr,t):
        args=[self.operand(st,fr,a) for a in t[2]]
        atys=[self.op_ty(fr,a) for a in t[2]]
        f=t[1]
        fty=self.T[self.op_ty(fr,f)]
        if fty['k']!='fndef':
            v=self.operand(st,fr,f)
            if isinstance(v,FnV): fty={'k':'fndef','d':self.prog.insts[v.i]['n'],'a':[],'i':v.i}
            elif isinstance(v,(Opq,FnU)):
                r=self.call_fnu(st,v,args) if isinstance(v,FnU) else self.call_opaque(st,v,args); self.writep(st,fr,t[3],r); fr.bb=t[4]; fr.si=-1; return
            else: raise Unsupported('indirect call')
        depth=len(st.frames)
        r=self.dispatch(st,fty,args,atys,self.place_ty(fr,t[3]))
        if t[4] is None and r is not INLINE:
            raise Panic('diverging '+fty['d'])
        if r is INLINE:
            c,path,val=self.resolve(st,fr,t[3])
            self.push(st,fty['i'],args,(c,path),t[4])
            if t[4] is None: st.frames[-1].ret=None
            return
        fr=st.frames[-1]
        self.writep(st,fr,t[3],r)
        fr.bb=t[4]; fr.si=-1

class Peel(Exception): pass
class _Inline: pass
INLINE=_Inline()
class Call:
    __slots__=('ex','st','t','d','n','args','atys','dty')
    def __init__(self,ex,st,t,d,n,args,atys,dty): self.ex=ex; self.st=st; self.t=t; self.d=d; self.n=n; self.args=args; self.atys=atys; self.dty=dty
    def deref(self,v):
        while isinstance(v,Ptr): v=self.ex.read(self.st,v.c,v.p)
        return v
    def aty(self,i):
        return self.ex.T[self.atys[i]] if self.atys[i] is not None else None
def flatten(v):
    if isinstance(v,Poly): return [v]
    if isinstance(v,Fl):
        if v.k!='fin': raise Unsupported('special float passed to opaque function')
        return [v.p]
    if isinstance(v,F): return [ite(v,ONE,ZERO)]
    if isinstance(v,(Agg,)): return [y for x in v.f for y in flatten(x)]
    if isinstance(v,Arr): return [y for x in v.e for y in flatten(x)]
    raise Unsupported('flatten %r'%(v,))
import time as _time

class LoopInfo:
    def __init__(self,body):
        n=len(body['blocks'])
        succ=[]
        for b in body['blocks']:
            t=b['t']; k=t[0]
            if k=='goto': s=[t[1]]
            elif k=='switch': s=[x[1] for x in t[2]]+[t[3]]
            elif k=='drop': s=[t[2]]
            elif k=='call': s=[t[4]] if t[4] is not None else []
            elif k=='assert': s=[t[4]]
            else: s=[]
            succ.append(s)
        self.succ=succ
        # dominators (iterative)
        order=[];seen=set()
        stack=[(0,iter(succ[0]))];seen.add(0)
        while stack:
            b,it=stack[-1]
            for s in it:
                if s not in seen: seen.add(s); stack.append((s,iter(succ[s]))); break
            else: order.append(b); stack.pop()
        order.reverse()
        idx={b:i for i,b in enumerate(order)}
        preds={b:[] for b in order}
        for b in order:
            for s in succ[b]: preds[s].append(b)
        idom={0:0}; ch=True
        while ch:
            ch=False
            for b in order[1:]:
                new=None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new=p
                        else:
                            x,y=p,new
                            while x!=y:
                                while idx[x]>idx[y]: x=idom[x]
                                while idx[y]>idx[x]: y=idom[y]
                            new=x
                if idom.get(b)!=new: idom[b]=new; ch=True
        self.loops={}
        def dom(a,b):
            while True:
                if a==b: return True
                if b==0: return False
                b=idom[b]
        for b in order:
            for s in succ[b]:
                if dom(s,b):
                    L=self.loops.setdefault(s,{s})
                    work=[b]
                    while work:
                        x=work.pop()
                        if x in L: continue
                        L.add(x); work.extend(preds[x])
        self.headers=set(self.loops)
        self.body=body; self._hn=None
    def has_next(self,ex,h):
        if self._hn is None:
            self._hn=set()
            for hh,L in self.loops.items():
                for b in L:
                    t=self.body['blocks'][b]['t']
                    if t[0]=='call' and t[1][0]=='k':
                        ft=ex.T[t[1][1][0]]
                        if ft['k']=='fndef' and ft['d'].endswith('Iterator::next'): self._hn.add(hh)
        return self._hn
class Prog:
    def __init__(self,path):
        d=json.load(open(path))
        self.types=d['types']; self.insts=d['insts']; self.roots={n:i for n,i in d['roots']}
        self._loops={}; self.hooks={}
    def loops(self,i):
        if i not in self._loops: self._loops[i]=LoopInfo(self.insts[i]['b'])
        return self._loops[i]
    def find(self,pat):
        r=re.compile(pat)
        return [i for i,x in enumerate(self.insts) if r.search(x['n'])]
