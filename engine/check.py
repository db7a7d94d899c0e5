"""check PROPERTY [quick|thorough]  -- decides one property from /repo's current source"""
import sys, os, json, time, subprocess, re, random, hashlib, importlib, math, traceback, struct, fcntl, signal
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/engine'); sys.path.insert(0,V+'/contracts')
import multiprocessing as mp
BUILD=V+'/build'
def log(*a): print(*a,file=sys.stderr,flush=True)
# ---------------------------------------------------------------- building
CRATES=['measures-core','measures-combinators','measures-distributions','measures-exponential-family','measures-bayesian','symbolic-math','mathjit']
def src_hash():
    h=hashlib.sha256()
    for c in CRATES:
        for d,ds,fs in os.walk('/repo/'+c):
            ds[:]=sorted(x for x in ds if x not in('target','.git'))
            for f in sorted(fs):
                if f.endswith(('.rs','.toml')):
                    p=os.path.join(d,f); h.update(p.encode()); h.update(open(p,'rb').read())
    for f in('Cargo.toml','Cargo.lock'):
        if os.path.exists('/repo/'+f): h.update(open('/repo/'+f,'rb').read())
    return h.hexdigest()
def sh(cmd,env=None,timeout=800,cwd=None):
    e=dict(os.environ); e.update(env or {})
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=e,cwd=cwd,timeout=timeout,text=True)
    return r.returncode,r.stdout
def fresh_target(target,h,env):
    """cargo decides by mtime; make it rebuild the path crates whenever their content differs from what this target was built from"""
    mark='%s/%s/.srchash'%(BUILD,target)
    old=open(mark).read() if os.path.exists(mark) else None
    if old!=h:
        if os.path.isdir('%s/%s/debug'%(BUILD,target)):
            args=[]
            for c in CRATES+['harness']: args+=['-p',c]
            sh(['cargo','clean','--offline']+args,env,cwd=V+'/harness')
    return mark
def build_dump(prefixes,out):
    h=src_hash()
    env={'CARGO_TARGET_DIR':BUILD+'/check','RUSTUP_TOOLCHAIN':'nightly','CARGO_NET_OFFLINE':'true'}
    mark=fresh_target('check',h,env)
    rc,o=sh([V+'/dump.sh',V+'/harness','harness',out],{'MIRDUMP_ROOTS':';'.join(prefixes)})
    if rc!=0 or not os.path.exists(out): raise SystemExit('build of the checked crate failed:\n'+o[-4000:])
    open(mark,'w').write(h)
def build_replay():
    import genreplay
    genreplay.main()
    h=src_hash()
    env={'CARGO_TARGET_DIR':BUILD+'/replay','RUSTUP_TOOLCHAIN':'nightly','CARGO_NET_OFFLINE':'true','CARGO_INCREMENTAL':'0','RUSTFLAGS':'-Awarnings'}
    mark=fresh_target('replay',h,env)
    rc,o=sh(['cargo','build','--offline','--bin','replay'],env,cwd=V+'/harness')
    if rc!=0: raise SystemExit('build of the replay binary failed:\n'+o[-4000:])
    open(mark,'w').write(h)
REPLAY=BUILD+'/replay/debug/replay'
import ctypes
_libc=ctypes.CDLL(None)
def _die_with_parent():
    _libc.prctl(1,9)
    import resource
    resource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30))      # a run that needs more is cut off (reported as ABORT)
# ---------------------------------------------------------------- running the real code
def enc(v):
    if isinstance(v,bool): return 'true' if v else 'false'
    if isinstance(v,float):
        return 'x%016x'%struct.unpack('<Q',struct.pack('<d',v))[0]
    if isinstance(v,int): return str(v)
    if isinstance(v,str): return 's'+v.encode().hex()
    if isinstance(v,dict): return enc([[k,x] for k,x in v.items()])
    if isinstance(v,(list,tuple)): return '['+','.join(enc(x) for x in v)+']'
    raise TypeError(v)
def dec(s):
    s=s.strip()
    v,i=_dec(s,0)
    return v
def _dec(s,i):
    if s[i] in '[(':
        end={'[':']','(':')'}[s[i]]; out=[]; i+=1
        while s[i]!=end:
            v,i=_dec(s,i); out.append(v)
            if s[i]==',': i+=1
        return (out if end==']' else tuple(out)),i+1
    j=i
    while j<len(s) and s[j] not in ',])': j+=1
    t=s[i:j]
    if t.startswith('x'): return struct.unpack('<d',struct.pack('<Q',int(t[1:],16)))[0],j
    if t=='true': return True,j
    if t=='false': return False,j
    if t.startswith('s'): return bytes.fromhex(t[1:]).decode(),j
    if t in('None','PANIC','ok','Err'): return t,j
    return int(t),j
def real_batch(root,argsl,timeout=120):
    """run the compiled code on each argument list; returns list of decoded results ('PANIC' on panic)"""
    inp=''.join(root+'\t'+'\t'.join(enc(a) for a in args)+'\n' for args in argsl)
    out=[];todo=inp
    n=len(argsl)
    lines=inp.splitlines()
    while len(out)<n:
        try:
            r=subprocess.run([REPLAY],input='\n'.join(lines[len(out):])+'\n',stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=timeout,preexec_fn=_die_with_parent)
            got=r.stdout
        except subprocess.TimeoutExpired as e:
            got=(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or '')
        got=[x[1:] for x in got.split('\n') if x.startswith('@')]
        out+= [dec(x) for x in got[:n-len(out)]]
        if len(out)<n: out.append('ABORT')
    return out
# ---------------------------------------------------------------- numeric comparison
import mpmath
mpmath.mp.dps=40
from terms import *
from vals import *
from norm import eval_poly, eval_F, EvalError, is_zero, ICtx
import exec as X, models, summ
import spec as S
from spec import *
def absval_poly(p,env):
    t=mpmath.mpf(0)
    for m,c in p.t.items(): t+=abs(eval_poly(Poly({m:c}),env))
    return t
def deep(p,env):
    """(value, scale): 2^-53*scale is about the rounding error of evaluating the expression as written"""
    V=mpmath.mpf(0);S_=mpmath.mpf(0)
    for m,c in p.t.items():
        x=mpmath.mpf(c.numerator)/c.denominator; sx=abs(x)
        for a,e in m:
            v,s=deep_atom(a,env); e_=mpmath.mpf(e.numerator)/e.denominator
            if e>=1: f=mpmath.power(v,e_) if e.denominator!=1 else v**int(e); sf=max(s,abs(v))**e_
            else:
                f=v**int(e) if e.denominator==1 else mpmath.power(v,e_); sf=abs(f)*max(1,abs(e_)*s/abs(v)) if v else s
            x=x*f; sx=sx*sf
        V+=x; S_+=sx
    return V,S_
def deep_atom(a,env):
    from norm import eval_atom
    k=a.kind
    if k=='P': return deep(a.args[0],env)
    if k in('ln','exp','lgamma'):
        v,s=deep(a.args[0],env); r=eval_atom(a,env)
        if k=='ln': return r,abs(r)+s/abs(v)
        if k=='exp': return r,abs(r)*(1+s)
        return r,abs(r)+s*(1+abs(mpmath.digamma(v)))
    if k=='ite': return deep(a.args[1] if eval_F(a.args[0],env) else a.args[2],env)
    if k=='sum':
        bn,lo,hi,body=a.args
        V=mpmath.mpf(0);S_=mpmath.mpf(0)
        for i in range(int(eval_poly(lo,env)),int(eval_poly(hi,env))):
            v,s=deep(body,dict(env,**{bn:i})); V+=v; S_+=s
        return V,S_
    v=eval_atom(a,env)
    s=abs(v)
    if k=='fn': 
        for x in a.args[1:]:
            if isinstance(x,Poly): s+=deep(x,env)[1]
    return v,s
class Skip(Exception): pass
def extreme(x):
    """magnitudes at which f64 over/underflow (not modelled) may decide the result"""
    if isinstance(x,float): return x==x and x!=0 and abs(x)!=math.inf and not 1e-75<abs(x)<1e75
    if isinstance(x,(list,tuple)): return any(extreme(y) for y in x)
    if isinstance(x,dict): return any(extreme(y) for y in x.values())
    return False
PERT=lambda:[]
SLACK=1     # when every obligation is discharged the exact value is proved: runs then only look for gross numeric failures
def perturbed(infos,args,r):
    def mv(x):
        if isinstance(x,float) and x==x and abs(x)<1e300 and not(abs(x)<1e6 and x*64==int(x*64)): return x*(1+r.choice([-1,1,2,-2])*2.0**-51)
        if isinstance(x,(list,tuple)): return type(x)(mv(y) for y in x)
        return x
    memo=[]
    def go():
        if not memo: memo.append([to_env(infos,mv(args)) for _ in range(3)])
        return memo[0]
    return go
def same_num(real,exp,env,tol):
    """does the real result agree with the specified one? raises Skip if it cannot be judged"""
    if isinstance(exp,(Cases,Dep)): exp=num_case(exp,env)
    if callable(exp) and not isinstance(exp,type): return exp(real,env)
    if exp is ANY: return True
    if isinstance(exp,Approx): return same_num(real,exp.v,env,max(tol,float(exp.tol)))
    if isinstance(exp,Known):
        return same_num(real,exp.wanted,env,tol) or same_num(real,exp.actual,env,tol)
    if real=='ABORT': return False
    if exp is PANIC: return real=='PANIC'
    if real=='PANIC': return False
    if isinstance(exp,Fl) and exp.k=='fin': exp=exp.p
    if isinstance(exp,Fl):
        if not isinstance(real,float): return False
        return {'ninf':real==-math.inf,'pinf':real==math.inf,'nan':real!=real}[exp.k]
    if isinstance(exp,(int,Q)) and not isinstance(exp,bool): exp=P(exp)
    if isinstance(exp,Poly):
        try: e=eval_poly(exp,env)
        except (EvalError,ZeroDivisionError,ValueError,OverflowError): raise Skip()
        if isinstance(e,mpmath.mpc):
            raise Skip()
        if isinstance(real,bool): return False
        if isinstance(real,int): return mpmath.mpf(real)==e
        if not isinstance(real,float): return False
        if abs(e)>mpmath.mpf(10)**300: raise Skip()
        if real!=real or abs(real)==math.inf: return False
        try: sc=absval_poly(exp,env)
        except Exception: sc=abs(e)
        d=abs(mpmath.mpf(real)-e)
        if d<=SLACK*tol*(abs(e)+sc)+mpmath.mpf('1e-290'): return True
        try:
            if d<=SLACK*deep(exp,env)[1]*mpmath.mpf(2)**-47: return True
        except Exception: pass
        # ill-conditioned points are not judged: the specified value itself moves this much when the inputs move by a rounding error
        try: spread=max([abs(eval_poly(exp,v)-e) for v in PERT()]+[0])
        except (EvalError,ZeroDivisionError,ValueError,OverflowError,TypeError): return False
        return d<=256*SLACK*spread
    if isinstance(exp,bool): return real==exp
    if isinstance(exp,F): 
        try: return real==eval_F(exp,env)
        except EvalError: raise Skip()
    if isinstance(exp,str): return real==exp
    if isinstance(exp,(list,tuple)):
        return isinstance(real,(list,tuple)) and len(real)==len(exp) and all(same_num(r,x,env,tol) for r,x in zip(real,exp))
    if isinstance(exp,SeqS):
        n=int(eval_poly(exp.len,env))
        if not isinstance(real,(list,tuple)) or len(real)!=n: return False
        return all(same_num(real[i],num_case(exp.f(const(i)),env),env,tol) for i in range(n))
    if isinstance(exp,Some): return isinstance(real,tuple) and len(real)==1 and same_num(real[0],exp.v,env,tol)
    if isinstance(exp,Ok_): return isinstance(real,tuple) and len(real)==1 and same_num(real[0],exp.v,env,tol)
    if isinstance(exp,Err_): return real=='Err'
    if exp is None: return real=='None'
    if isinstance(exp,Pred): raise Skip()
    raise Skip()
def num_case(exp,env):
    while isinstance(exp,(Cases,Dep)):
        if isinstance(exp,Dep):
            if exp.num is None: raise Skip()
            exp=exp.num(env); continue
        for c,v in exp.cs:
            if c is True or eval_F(S_B(c),env): exp=v; break
        else: raise Skip()
    return exp
def S_B(c): return c if isinstance(c,F) else (TRUE if c else FALSE)
# ---------------------------------------------------------------- argument handling
CMAX=1<<53        # counts: u64 and usize arguments up to 2^53, where the conversion to f64 is exact
class ArgInfo: pass
def make_args(ex,st,inst):
    """symbolic arguments of a root, plus what the contract sees and how to sample them"""
    b=ex.prog.insts[inst]['b']; T=ex.T
    names={}
    for nm in b['names'] or []:
        try: names.setdefault(nm[0],nm[1])
        except Exception: pass
    vals_=[];view=[];infos=[]
    for k in range(b['n']):
        ty=b['locals'][k+1]; t=T[ty]; nm=names.get(k+1,'a%d'%k); nm=nm if isinstance(nm,str) else 'a%d'%k
        a=ArgInfo(); a.name=nm; a.ty=ty; a.kind=None
        v=ex.fresh_value(st,ty,nm); a.v=v
        if isinstance(v,Fl): a.kind='f'; w=v.p
        elif isinstance(v,Poly):
            a.kind='i'; a.lo,a.hi=X.IMIN(t) if t['k']=='int' else 0,X.IMAX(t) if t['k']=='int' else 0x10ffff; w=v
            if a.hi==(1<<64)-1: a.hi=CMAX; st.assume(v.le(CMAX))
        elif isinstance(v,F): a.kind='b'; w=v
        elif isinstance(v,Arr) : a.kind='arr'; w=[x.p if isinstance(x,Fl) else x for x in v.e]; a.el='f' if v.e and isinstance(v.e[0],Fl) else 'i'; a.n=len(v.e)
        elif isinstance(v,StrV): a.kind='s'; w=v
        elif isinstance(v,Ptr) and isinstance(st.cells[v.c],Arr):
            vv=st.cells[v.c]; a.kind='arr'; w=[x.p if isinstance(x,Fl) else x for x in vv.e]; a.el='f' if vv.e and isinstance(vv.e[0],Fl) else 'i'; a.n=len(vv.e)
        elif isinstance(v,VecV) or (isinstance(v,Ptr) and isinstance(st.cells[v.c],VecV)):
            s=v.s if isinstance(v,VecV) else st.cells[v.c].s
            et=T[t['e']]['e'] if t['k']=='ref' else t['a'][0]; et=T[et]
            a.kind='seq'; a.el={'float':'f','int':'i','bool':'b'}.get(et['k'],'x')
            if a.el=='x' and et.get('n','').endswith('HashMap'): a.el='m'
            if a.el=='x' and et['k']=='tuple': a.el='t%d'%len(et['f'])
            if a.el=='x' and et['k']=='array': a.el='a%d'%et['n']
            if a.el=='i':
                a.lo,a.hi=X.IMIN(et),X.IMAX(et)
                if a.hi==(1<<64)-1:
                    a.hi=CMAX; e=s.get(ex,st,P(atom('var','#0',sort='int')))
                    st.assume(F('forall','#0',ZERO,s.len,e.le(CMAX)))
            def get(i,s=s):
                x=s.get(ex,st,i)
                if isinstance(x,Fl): return x.p
                if isinstance(x,Agg): return tuple(y.p if isinstance(y,Fl) else y for y in x.f)
                if isinstance(x,Arr): return tuple(y.p if isinstance(y,Fl) else y for y in x.e)
                return x
            w=SArg(nm,s,get)
        elif t['k']=='adt' and t['n'].endswith(('Expr','JITRepr')) or t['k']=='ref' and T[t['e']].get('n','').endswith(('Expr','JITRepr')): a.kind='expr'; w=v
        elif isinstance(v,MapV) or isinstance(v,Ptr) and isinstance(st.cells[v.c],MapV): a.kind='map'; w=v
        else: a.kind='x'; w=v
        vals_.append(v); view.append(w); infos.append(a)
    return vals_,view,infos
FP=[0.0,1.0,-1.0,0.5,2.0,-2.0,3.0,0.25,1.5,4.0,5.0,10.0,0.1,-0.5,1e-3,7.0,100.0,0.75,12.0,0.9]
IP=[0,1,2,3,4,5,6,7,8,9,10,11,12,13,15,16,17,19,20,21,22,25,29,30,31,32,33,49,50,51,64,65,99,100,101,127,128,150,169,170,171,172,200,255,256,300,500,999,1000,1001,2000,5000,10000]
def rnd_f(r,pool):
    z=r.random()
    if pool and z<0.30: 
        x=r.choice(pool)
        return x if r.random()<.6 else (math.nextafter(x,math.inf) if x else 1e-9) if r.random()<.3 else x+r.choice([-1,1,0.5,-0.5,1e-3,1e-6])
    if z<0.45: return r.choice(FP)
    if z<0.65: return r.random()
    if z<0.85: return r.gauss(0,1)*r.choice([1,1,3,10,100])
    return math.exp(r.gauss(0,3))
XB=('Add','Sub','Mul','Div','Pow'); XU=('Ln','Exp','Sqrt','Sin','Cos','Neg')
XC=[0.0,1.0,-1.0,2.0,0.5,-2.0,3.0,4.0,0.25,-0.5,10.0,1.5]; XP=XC+[5.0,6.0,7.0,8.0,-3.0,-4.0,-5.0,-7.0,-1.5,2.5]
def rnd_expr(r,fp,d):
    if d==0 or r.random()<.12: return ['Const',r.choice(XC) if r.random()<.85 else rnd_f(r,fp)] if r.random()<.45 else ['Var',r.choice('xxxyz')]
    if r.random()<.68:
        o=r.choice(XB+('Add','Mul','Sub')); a=rnd_expr(r,fp,d-1)
        return [o,a,a if r.random()<.08 else ['Const',r.choice(XP)] if o=='Pow' and r.random()<.7 else rnd_expr(r,fp,d-1)]
    return [r.choice(XU),rnd_expr(r,fp,d-1)]
def rnd_i(r,pool,lo,hi):
    z=r.random()
    if pool and z<0.3: x=int(r.choice(pool))+r.choice([0,0,0,1,-1])
    elif z<0.8: x=r.choice(IP)
    elif z<0.97: x=int(math.exp(r.random()*8))
    else: x=int(math.exp(r.random()*20))
    if lo<0 and r.random()<.3: x=-x
    return max(lo,min(hi,x))
def sample(infos,r,fp,ip,gen,maxlen,wild=False):
    out=[]
    for a in infos:
        if a.name in gen and not(wild and a.kind in('f','i') and r.random()<.5):
            g=gen[a.name]; out.append(g(r,out) if g.__code__.co_argcount==2 else g(r)); continue
        k=a.kind
        if k=='f': out.append(rnd_f(r,fp))
        elif k=='i': out.append(rnd_i(r,ip,a.lo,a.hi))
        elif k=='b': out.append(r.random()<.5)
        elif k=='arr': out.append([rnd_f(r,fp) if a.el=='f' else rnd_i(r,ip,0,1<<30) for _ in range(a.n)])
        elif k=='seq':
            n=r.choice([0,1,1,2,2,3,3,4,5,maxlen,r.randrange(0,2*maxlen+1)])
            if a.el=='f': out.append([rnd_f(r,fp) for _ in range(n)])
            elif a.el=='i': out.append([rnd_i(r,ip,a.lo,a.hi) for _ in range(n)])
            elif a.el=='b': out.append([r.random()<.5 for _ in range(n)])
            elif a.el=='m': out.append([{k:rnd_f(r,fp) for k in ('x','y','z') if r.random()<.8} for _ in range(n)])
            elif a.el[0] in 'ta': out.append([tuple(rnd_f(r,fp) for _ in range(int(a.el[1:]))) for _ in range(n)])
            else: raise Skip()
        elif k=='expr': out.append(rnd_expr(r,fp,r.choice([1,2,2,3,3,4])))
        elif k=='map': out.append({k:rnd_f(r,fp) for k in ('x','y','z') if r.random()<.8})
        elif k=='s': out.append(r.choice(['x','y','','a b','foo','x1']))
        else: raise Skip()
    return out
def to_env(infos,args):
    env={}
    for a,v in zip(infos,args):
        if a.kind=='f': env[a.name]=mpmath.mpf(v)
        elif a.kind=='i': env[a.name]=v
        elif a.kind=='b': env[a.name]=v
        elif a.kind in('expr','map','s'): env[a.name]=v
        elif a.kind=='arr':
            for i,x in enumerate(v): env['%s[%d]'%(a.name,i)]=mpmath.mpf(x) if isinstance(x,float) else x
        elif a.kind=='seq':
            env['len(%s)'%a.name]=len(v)
            if a.el=='m': env[a.name]=v; continue
            if a.el[0] in 'ta' and len(a.el)>1:
                env[a.name]=v
                for j in range(int(a.el[1:])): env['%s.%d'%(a.name,j)]=[x[j] if isinstance(x[j],list) else mpmath.mpf(x[j]) for x in v]
            else: env[a.name]=[mpmath.mpf(x) if isinstance(x,float) else (1 if x is True else 0 if x is False else x) for x in v]
    return env
def consts_of(fs,fp,ip):
    """numeric constants appearing in formulas/terms"""
    seen=set()
    def walk(x):
        if isinstance(x,Poly):
            for m,c in x.t.items():
                if abs(c)<10**15: seen.add(c); 
                if x.t.get(()) is not None and m and c!=0: seen.add(-x.t[()]/c)
                for a,e in m:
                    for y in a.args: walk(y)
        elif isinstance(x,F):
            for y in x.a: walk(y)
        elif isinstance(x,tuple):
            for y in x: walk(y)
    for f in fs: walk(f)
    for c in seen:
        if abs(c)<=10**6: fp.append(float(c))
        if c.denominator==1: ip.append(int(c))
# ---------------------------------------------------------------- verification of one contract
class Ob:
    __slots__=('label','ok','how','detail')
    def __init__(self,label,ok,how,detail=''): self.label=label; self.ok=ok; self.how=how; self.detail=detail
def split(ex,st,spec,fn):
    """explore a specification-side computation that may need case splits; yields (state, leaf)"""
    out=[]
    cell=[None]
    def go(s):
        return ('spec',fn(s))
    return ex.explore(st,go)
THETA=var('stirling!theta')
def quant(f): return f.k=='forall' or (f.k in('and','or','not') and any(quant(x) for x in f.a))
def approx_zero(d,tol,ctx):
    """|d| <= tol, replacing ln Gamma(X) (X-1 >= 10 provable) by its Stirling series with the enclosed remainder
       ln Gamma(X) = ln k + (k-1/2) ln k - k + ln(2 pi)/2 + 1/(12k) - 1/(360k^3) + 1/(1260k^5) - theta/(1680k^7), k=X-1, 0<=theta<=1"""
    z,how,res=is_zero(d,ctx)
    if z: return z,how,res
    lg=[a for a in d.atoms() if a.kind=='lgamma']
    if len(lg)!=1: return False,None,res
    X_=lg[0].args[0]; k=X_-1
    lo=None
    for b in(10,12,16,20,21,22,30,50,100):
        if ctx.proves(k.ge(b)): lo=b
    if lo is None: return False,None,res
    ser=ln(k)+(k-Q(1,2))*ln(k)-k+ln(2*PI)/2+1/(12*k)-1/(360*k**3)+1/(1260*k**5)-THETA/(1680*k**7)
    r=subst(d,{lg[0]:ser})
    z,how,res=is_zero(r,ctx)
    if z: return True,'stirling enclosure',res
    th=next(iter(THETA.atoms())); ks=k.atoms()
    if len(k.t)!=1 or len(ks)!=1: return False,None,res
    ka=next(iter(ks)); tot=Q(0)
    for m,c in res.t.items():
        e=Q(0)
        for a,x in m:
            if a is th and x==1: continue
            if a is ka and x<=0: e=x; continue
            return False,None,res
        if e.denominator!=1: return False,None,res
        tot+=abs(c)*Q(lo)**int(e)
    return tot<=tol,'stirling enclosure',res
def obligations(ex,st,val,exp,label,obs,depth=0):
    """prove that the code's value equals the specified one on this path"""
    if exp is ANY: return
    if isinstance(exp,Cases):
        cs=exp.cs; neg=[]
        rest=st
        for i,(c,v) in enumerate(cs):
            c=S_B(c)
            s=rest.copy(); s.assume(c)
            if c is not FALSE and s.ctx.check(TRUE)!='unsat' and not(quant(c) and rest.ctx.proves(Not(c))):
                obligations(ex,s,val,v,label+'/case%d'%i,obs,depth+1)
            if c is TRUE: rest=None; break
            if quant(c) and rest.ctx.proves(c): rest=None; break
            rest=rest.copy(); rest.assume(Not(c))
            if rest.ctx.check(TRUE)=='unsat': rest=None; break
        if rest is not None: obs.append(Ob(label+'/exhaustive',False,None,'specification cases do not cover this path: %r'%(rest.pc,)))
        return
    if isinstance(exp,Known):
        o1=[];obligations(ex,st,val,exp.wanted,label,o1)
        if all(o.ok for o in o1): obs.extend(o1); return
        o2=[];obligations(ex,st,val,exp.actual,label+'/known',o2)
        for o in o2: o.how=(o.how or '')+'|KNOWN|'+exp.what if o.ok else o.how
        obs.extend(o2 if all(o.ok for o in o2) else o1)
        return
    if isinstance(exp,Approx):
        if isinstance(val,Fl) and val.k=='fin':
            ok,how,res=approx_zero(val.p-P(exp.v),exp.tol,st.ctx)
            obs.append(Ob(label,ok,how,'' if ok else 'code: %s ; specified within %g: %s ; residual: %s'%(show(val.p)[:600],float(exp.tol),show(P(exp.v))[:600],show(res)[:400]))); return
        exp=exp.v
    if isinstance(exp,Fl) and exp.k=='fin': exp=exp.p
    if isinstance(exp,(int,Q)) and not isinstance(exp,bool): exp=P(exp)
    while isinstance(val,Ptr) and not isinstance(exp,Pred): val=ex.read(st,val.c,val.p)
    if isinstance(val,Lazy) and not isinstance(exp,(Pred,)): val=st.lazy.get(val.n,val)
    if isinstance(exp,Dep):
        for s2,k in ex.explore(st.copy(),lambda s:('dep',exp.sym(ex,s))): obligations(ex,s2,val,k[1],label,obs,depth)
        return
    if isinstance(exp,Pred):
        for st,kk in ex.explore(st.copy(),lambda s:('pred',exp.f(ex,s,val))):
         for lb,f in kk[1]:
             if isinstance(f,tuple) and isinstance(f[0],bool): obs.append(Ob(label+'/'+lb,f[0],f[1],'' if f[0] else (f[2] if len(f)>2 else repr(val)[:300])))
             elif isinstance(f,tuple):
                 z,how,res=is_zero(f[0]-f[1],st.ctx); obs.append(Ob(label+'/'+lb,z,how,'' if z else 'residual %s'%show(res)[:400]))
             elif isinstance(f,bool): obs.append(Ob(label+'/'+lb,f,'structural','' if f else repr(val)[:300]))
             else:
                 z=st.ctx.proves(f); obs.append(Ob(label+'/'+lb,z,'z3',repr(f)[:300]))
        return
    if isinstance(exp,Fl):
        good=isinstance(val,Fl) and val.k==exp.k
        obs.append(Ob(label,good,'structural','' if good else 'code returns %r, specified %r'%(val,exp))); return
    if isinstance(exp,Poly):
        if isinstance(val,Fl) and val.k=='fin': v=val.p
        elif isinstance(val,Poly): v=val
        else: obs.append(Ob(label,False,None,'code returns %r, specified %s'%(val,show(exp)))); return
        z,how,res=is_zero(v-exp,st.ctx)
        obs.append(Ob(label,z,how,'' if z else 'code: %s ; specified: %s ; residual: %s'%(show(v)[:600],show(exp)[:600],show(res)[:400]))); return
    if isinstance(exp,bool): exp=S_B(exp)
    if isinstance(exp,F):
        if not isinstance(val,F): obs.append(Ob(label,False,None,'code returns %r'%(val,))); return
        if val==exp: obs.append(Ob(label,True,'syntactic')); return
        a=st.ctx.proves(Or(Not(val),exp)); b=st.ctx.proves(Or(val,Not(exp)))
        obs.append(Ob(label,a and b,'z3','' if a and b else 'code: %r specified: %r'%(val,exp))); return
    if isinstance(exp,(list,tuple)):
        es=None
        if isinstance(val,Agg): es=val.f
        elif isinstance(val,Arr): es=val.e
        elif isinstance(val,VecV):
            n=val.s.len
            if not st.ctx.proves(n.eq(len(exp))): obs.append(Ob(label+'/len',False,None,'length %s, specified %d'%(show(n),len(exp)))); return
            es=None
            for s,k in ex.explore(st.copy(),lambda s:('v',[ex.seq_get(s,val.s,const(i)) for i in range(len(exp))])):
                for i,(x,e) in enumerate(zip(k[1],exp)): obligations(ex,s,x,e,'%s[%d]'%(label,i),obs)
            return
        if es is None or len(es)!=len(exp): obs.append(Ob(label,False,None,'shape mismatch: code returns %r'%(val,))); return
        for i,(x,e) in enumerate(zip(es,exp)): obligations(ex,st,x,e,'%s.%d'%(label,i),obs)
        return
    if isinstance(exp,SeqS):
        if isinstance(val,Arr): val=VecV(LSeq(val.e))
        if not isinstance(val,VecV): obs.append(Ob(label,False,None,'not a sequence: %r'%(val,))); return
        z,how,res=is_zero(val.s.len-exp.len,st.ctx)
        obs.append(Ob(label+'/len',z,how,'' if z else 'length %s, specified %s'%(show(val.s.len),show(exp.len))))
        k=ivar('k!%d'%depth)
        s=st.copy(); s.assume(k.ge(0)); s.assume(k.lt(exp.len))
        if s.ctx.check(TRUE)=='unsat': return
        for s2,r in ex.explore(s,lambda s:('v',ex.seq_get(s,val.s,k))):
            obligations(ex,s2,r[1],exp.f(k),label+'[k]',obs,depth+1)
        return
    if isinstance(exp,(Some,Ok_)):
        want=1 if isinstance(exp,Some) else 0
        if isinstance(val,Agg) and val.v==want and len(val.f)==1: obligations(ex,st,val.f[0],exp.v,label+'.some',obs)
        else: obs.append(Ob(label,False,None,'code returns %r'%(val,)))
        return
    if isinstance(exp,Err_):
        good=isinstance(val,Agg) and val.v==1
        if good and isinstance(exp.v,list):
            def same(a,b):
                while isinstance(a,Ptr): a=ex.read(st,a.c,a.p)
                if isinstance(a,Lazy): a=st.lazy.get(a.n,a)
                if isinstance(a,Opq) or isinstance(b,Opq) or isinstance(a,StrV): return a==b or isinstance(a,Opq) and isinstance(a.d,tuple) and all(any(repr(y)==z for y in exp.v) for z in a.d)
                if isinstance(a,Fl) and isinstance(b,Fl): return a==b or a.k==b.k=='fin' and bool(is_zero(a.p-b.p,st.ctx)[0])
                if isinstance(a,Agg) and isinstance(b,Agg): return a.v==b.v and len(a.f)==len(b.f) and all(same(x,y) for x,y in zip(a.f,b.f))
                return a==b
            good=any(same(val.f[0],x) for x in exp.v)
        obs.append(Ob(label,good,'structural','' if good else 'code returns %r'%(val,))); return
    if exp is None:
        good=isinstance(val,Agg) and val.v==0 and not val.f; obs.append(Ob(label,good,'structural','' if good else 'code returns %r'%(val,))); return
    if isinstance(exp,str):
        good=isinstance(val,StrV) and val.lit()==exp; obs.append(Ob(label,good,'structural','' if good else 'code returns %r'%(val,))); return
    obs.append(Ob(label,False,None,'unsupported specification value %r'%(exp,)))
PROG=None
def alarm(s):
    def h(a,b): raise Unsupported('time budget exceeded')
    signal.signal(signal.SIGALRM,h); signal.setitimer(signal.ITIMER_REAL,s,7 if s else 0)
def verify(c,tier,seed):
    """returns a result dict"""
    t0=time.time()
    R={'name':c.name,'title':c.title,'root':c.root,'obs':[],'known':[],'fail':[],'unsupported':None,'paths':0,'inlined':[],'contracts':[],'models':[],'loops':0,'wall':0,'conf':0,'cex':None,'bounded':c.bounded}
    STATS['z3_queries']=0; STATS['z3_time']=0.0
    p=PROG
    if c.root not in p.roots:
        R['unsupported']='root %s missing from the dump'%c.root; return R
    ex=X.Exec(p,models.M,contracts=c.fns,lemmas=c.lemmas); ex.root=p.roots[c.root]; ex.ideal32='f32' in c.root
    ex.deadline=t0+c.timeout
    if c.paths: ex.max_paths=c.paths
    st=X.State(ex)
    fp=[];ip=[]
    args,view,infos=make_args(ex,st,ex.root)
    if c.setup: c.setup(ex,st,args,view)
    pre=[S_B(f) for f in c.pre(*view)]
    for f in pre: st.assume(f)
    expv=None
    fails=[]   # (path condition, detail, label)
    alarm(c.timeout+15)
    try:
        expv=c.post(*view)
        if st.ctx.check(TRUE)=='unsat': raise Unsupported('contract precondition is unsatisfiable (vacuous)')
        rc=st.alloc(UNIT)
        ex.push(st,ex.root,args,(rc,()),None); st.frames[-1].ret=None
        leaves=ex.explore(st,lambda s:ex.run(s,0))
        R['paths']=len(leaves)
        if not leaves: raise Unsupported('no feasible path (vacuous)')
        for i,(s,k) in enumerate(leaves):
            obs=[]
            if isinstance(k,tuple) and k[0]=='panic':
                # allowed only where the specification says PANIC/ANY
                panic_obs(ex,s,expv,k[1],'path%d'%i,obs)
            else:
                obligations(ex,s,s.cells[rc],no_panic(expv),'path%d'%i,obs)
            for o in obs:
                R['obs'].append((o.label,bool(o.ok),o.how))
                if o.how and '|KNOWN|' in o.how and o.ok: R['known'].append(o.how.split('|KNOWN|')[1])
                if not o.ok: fails.append((list(s.pc),o.detail,o.label,s.cells.get(rc)))
    except Unsupported as e:
        R['unsupported']=str(e)
    except RecursionError as e:
        R['unsupported']='recursion limit'
    except Exception as e:
        R['unsupported']='engine error: %s'%(traceback.format_exc()[-1500:])
    finally: alarm(0)
    R['inlined']=sorted({p.insts[i]['n'] for i in ex.inlined})
    R['contracts']=sorted(ex.used_contracts); R['models']=sorted(ex.used_models); R['loops']=len(ex.summaries)
    R['z3_queries']=STATS['z3_queries']; R['z3_time']=STATS['z3_time']
    R['fail']=[(d,l,[repr(f) for f in pc]) for pc,d,l,v in fails]
    # ---------------- real runs
    for pc,d,l,v in fails:
        consts_of(pc,fp,ip)
        if v is not None:
            try: map_value(v,lambda q:(consts_of([q],fp,ip),q)[1])
            except Exception: pass
    bodyconsts(p,ex,fp,ip)
    r=random.Random(hash_seed(seed,c.name))
    bad=bool(fails) or R['unsupported'] is not None
    global SLACK
    SLACK=1 if bad else int(os.environ.get("VP_SLACK") or 4096)
    n=(c.n or 40)*(1 if tier=='quick' else 20)
    if os.environ.get('VP_HAMMER'):
        h=random.Random(seed); fp+=[h.choice([1,-1])*math.exp(h.gauss(0,8)) for _ in range(6)]; ip+=[int(math.exp(h.random()*20)) for _ in range(6)]; n*=5
    if bad: n=c.nbad
    alarm(150)
    try:
        R['conf'],R['cex']=conform(c,infos,pre,expv,view,r,fp,ip,n,fails if bad else [],ex,300 if bad else 60)
    except Skip: pass
    except Exception as e: R['conf_err']=traceback.format_exc()[-800:]
    finally: alarm(0)
    R['wall']=time.time()-t0
    return R
def hash_seed(seed,name): return int(hashlib.sha256(('%s:%s'%(seed,name)).encode()).hexdigest()[:12],16)
def no_panic(e): return e
def panic_obs(ex,s,exp,msg,label,obs):
    if exp is PANIC or exp is ANY: obs.append(Ob(label+'/panic',True,'structural')); return
    if isinstance(exp,Known):
        o1=[];panic_obs(ex,s,exp.wanted,msg,label,o1)
        if all(o.ok for o in o1): obs.extend(o1); return
        o2=[];panic_obs(ex,s,exp.actual,msg,label,o2)
        if all(o.ok for o in o2):
            for o in o2: o.how='structural|KNOWN|'+exp.what
            obs.extend(o2); return
        obs.extend(o1); return
    if isinstance(exp,Dep):
        for s2,k in ex.explore(s.copy(),lambda t:('dep',exp.sym(ex,t))): panic_obs(ex,s2,k[1],msg,label,obs)
        return
    if isinstance(exp,Cases):
        rest=s
        for i,(c,v) in enumerate(exp.cs):
            c=S_B(c)
            x=rest.copy(); x.assume(c)
            if c is not FALSE and x.ctx.check(TRUE)!='unsat': panic_obs(ex,x,v,msg,label+'/case%d'%i,obs)
            if c is TRUE: return
            rest=rest.copy(); rest.assume(Not(c))
            if rest.ctx.check(TRUE)=='unsat': return
        return
    obs.append(Ob(label+'/panic',False,None,'code panics (%s) where a value is specified; path %r'%(msg,s.pc[-4:])))
def bodyconsts(p,ex,fp,ip):
    seen=0
    def walk(x):
        if isinstance(x,dict):
            if x.get('c') in('int','float') and 'v' in x:
                try:
                    v=float(x['v'])
                    if abs(v)<=(1e15 if x['c']=='float' else 1e6) and v==v: fp.append(v)
                    if x['c']=='int' and abs(int(x['v']))<1<<40: ip.append(int(x['v']))
                    elif v==int(v): ip.append(int(v))
                except Exception: pass
            for y in x.values(): walk(y)
        elif isinstance(x,list):
            for y in x: walk(y)
    for i in ex.inlined:
        n=p.insts[i]['n']
        if any(k in n for k in('measures','symbolic_math','mathjit','harness')): walk(p.insts[i]['b']['blocks'])
    fp[:]=sorted(set(fp)); ip[:]=sorted(set(ip))
LONG={150:300,300:1500,301:5000,500:2049,501:66000,502:4097,503:70001}
def conform(c,infos,pre,expv,view,r,fp,ip,n,fails,ex,budget):
    """run the compiled code against the specification; returns (number compared, counterexample or None)"""
    if not c.conf or expv is None: return 0,None
    global PERT
    t0=time.time()
    cand=[]; wild=budget>100
    # solver-proposed inputs for failing paths
    for pc,d,l,v in fails:
        for k in range(3):
            a=model_args(infos,pc,r,fp,ip,c)
            if a is not None: cand.append(a)
    tried=0
    cnt=0
    while (cnt<n or cand) and time.time()-t0<budget:
        batch=[]
        while len(batch)<200 and tried<n*60+20000 and (cand or cnt+len(batch)<n) and time.time()-t0<budget:
            tried+=1
            if cand: a=cand.pop()
            else:
                a=sample(infos,r,fp,ip,c.gen,c.maxlen,wild and tried%3==0)
                if wild and tried in LONG and c.maxlen>5:    # a few long sequences
                    a=[(x*(LONG[tried]//len(x)+1))[:LONG[tried]] if i.kind=='seq' and isinstance(x,list) and x else x for i,x in zip(infos,a)]
            env=to_env(infos,a)
            try:
                if not all(eval_F(f,env) for f in pre): continue
            except (EvalError,ZeroDivisionError,OverflowError,ValueError,TypeError): continue
            batch.append((a,env))
        if not batch: break
        res=real_batch(c.root,[a for a,_ in batch])
        for (a,env),real in zip(batch,res):
            try:
                e=num_case(expv,env)
                if e is ANY: continue
                PERT=perturbed(infos,a,random.Random(7))
                if extreme(a): continue
                okk=same_num(real,e,env,c.tol)
            except (Skip,EvalError,ZeroDivisionError,OverflowError,ValueError): continue
            cnt+=1
            if not okk:     # confirm on a run of its own before reporting
                real=real_batch(c.root,[a])[0]
                if same_num(real,e,env,c.tol): continue
                try: es=str(mpmath.nstr(eval_poly(e,env),17)) if isinstance(e,Poly) else repr(e)
                except Exception: es=repr(e)
                return cnt,{'root':c.root,'args':a,'encoded':[enc(x) for x in a],'real':repr(real),'specified':es[:500]}
    return cnt,None
def model_args(infos,pc,r,fp,ip,c):
    """turn a solver model of a path condition into concrete arguments"""
    import z3
    ctx=ICtx(list(pc),2000)
    z=ctx.solver()
    # randomise: pin some variables
    try:
        if z.s.check()!=z3.sat: return None
        m=z.s.model()
    except Exception: return None
    base=None
    try: base=sample(infos,r,fp,ip,c.gen,c.maxlen)
    except Skip: return None
    def num(v,isint):
        if v is None: return None
        try:
            if z3.is_algebraic_value(v): v=v.approx(20)
            q=Q(v.numerator_as_long(),v.denominator_as_long()) if z3.is_rational_value(v) else Q(v.as_long())
        except Exception: return None
        return int(q) if isint else float(q)
    def getv(at):
        if at not in z.c: return None
        v=m.eval(z.c[at]); return v
    out=[]
    for a,bv in zip(infos,base):
        if a.kind in('f','i'):
            at=next(iter(a.v.p.atoms())) if a.kind=='f' else next(iter(a.v.atoms()))
            v=num(getv(at),a.kind=='i')
            out.append(v if v is not None else bv)
        elif a.kind=='seq':
            L=num(getv(atom('var','len(%s)'%a.name,sort='int')),True)
            L=len(bv) if L is None else min(L,40)
            lst=list(bv)
            while len(lst)<L:
                try: lst+= [x for x in sample([a],r,fp,ip,{},8)[0]] or ([1.0] if a.el=='f' else [1])
                except Skip: return None
            lst=lst[:L]
            for at in list(z.c):
                if isinstance(at,Atom) and at.kind=='elem' and at.args[0]==a.name:
                    i=at.args[1].cval()
                    if i is None:
                        try: i=num(m.eval(z.poly(at.args[1])),True)
                        except Exception: i=None
                    v=num(getv(at),a.el=='i')
                    if i is not None and v is not None and 0<=i<L: lst[int(i)]=v
            out.append(lst)
        else: out.append(bv)
    return out
TOTAL=720
def _worker(w,i,tier,seed):
    try: R=verify(CONTRACTS[i],tier,seed)
    except Exception as e: R=dead(CONTRACTS[i],'engine error: '+traceback.format_exc()[-800:])
    try: w.send(R)
    except Exception: w.send(dead(CONTRACTS[i],'result not transferable'))
    w.close(); os._exit(0)
def dead(c,why):
    return {'name':c.name,'title':c.title,'root':c.root,'obs':[],'known':[],'fail':[],'unsupported':why,'paths':0,'inlined':[],'contracts':[],'models':[],'loops':0,'wall':0,'conf':0,'cex':None,'bounded':c.bounded,'z3_queries':0,'z3_time':0.0}
def run_all(cs,tier,seed,deadline):
    # one process per contract, at most 8 at a time; a process past its own limit, or past the check's, is ended and reported
    todo=list(range(len(cs))); live={}
    from multiprocessing.connection import wait
    while todo or live:
        while todo and len(live)<8 and time.time()<deadline-20:
            i=todo.pop(0); r,w=mp.Pipe(False); q=mp.Process(target=_worker,args=(w,i,tier,seed)); q.start(); w.close(); live[r]=(i,q,time.time()+cs[i].timeout+200)
        if todo and time.time()>=deadline-20:
            for i in todo: yield dead(cs[i],'time budget of the whole check exceeded before this contract was reached')
            todo=[]
        for r in wait(list(live),timeout=2):
            i,q,_=live.pop(r)
            try: R=r.recv()
            except EOFError: R=dead(cs[i],'verifier process died')
            q.join(5); r.close()
            if R['cex']: deadline=min(deadline,time.time()+45)   # violated on a concrete input: the remaining contracts get little more time
            yield R
        now=time.time()
        for r in list(live):
            i,q,d=live[r]
            if now>min(d,deadline):
                live.pop(r); q.kill(); q.join(); r.close(); yield dead(cs[i],'time budget exceeded (process ended)')
# ---------------------------------------------------------------- main
def main():
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    only=sys.argv[3] if len(sys.argv)>3 else None
    t0=time.time()
    os.makedirs(V+'/evidence/replay',exist_ok=True)
    if prop=='_warm':
        build_replay(); build_dump(['root_c01_normal_ld'],BUILD+'/dump_warm.json'); return
    mod=importlib.import_module(prop.lower())
    cs=S.CONTRACTS
    if only: 
        cs[:]=[c for c in cs if re.search(only,c.name)]
    prefixes=sorted({c.root for c in cs})
    out='%s/dump_%s.json'%(BUILD,prop)
    os.makedirs(BUILD,exist_ok=True)
    lock=open(BUILD+'/.lock','w'); fcntl.flock(lock,fcntl.LOCK_EX)
    import threading
    err=[]
    def th():
        try: build_replay()
        except SystemExit as e: err.append(str(e))
    tt=threading.Thread(target=th); tt.start()
    build_dump(prefixes,out)
    tt.join()
    if err: raise SystemExit(err[0])
    fcntl.flock(lock,fcntl.LOCK_UN)
    tb=time.time()-t0
    global PROG
    PROG=X.Prog(out)
    if hasattr(mod,'install'): mod.install(PROG)
    res=[]
    for R in run_all(cs,tier,seed,t0+TOTAL):
        res.append(R)
        if os.environ.get('VDBG') or only:
            log('%-34s paths %d obs %d/%d loops %d conf %d %.1fs %s'%(R['name'],R['paths'],sum(o[1] for o in R['obs']),len(R['obs']),R['loops'],R['conf'],R['wall'],('UNSUPPORTED '+R['unsupported']) if R['unsupported'] else ''))
            for d,l,pc in R['fail'][:3]: log('    FAIL',l,d[:1500],'\n      path',pc[-6:])
            if R['cex']: log('    CEX',R['cex'])
            if R.get('conf_err'): log('   conf error',R['conf_err'])
    res.sort(key=lambda R:R['name'])
    finish(prop,tier,seed,res,t0,tb,mod)
def finish(prop,tier,seed,res,t0,tb,mod):
    viol=[];known=[]
    for R in res:
        for k in R['known']:
            if k not in known: known.append(k)
        if R['cex'] or R['fail'] or R['unsupported'] or (not R['obs']):
            path='%s/evidence/replay/%s.%s.txt'%(V,prop,R['name'])
            with open(path,'w') as f:
                f.write('property %s, contract %s (%s)\nentry point: harness::%s\n'%(prop,R['name'],R['title'],R['root']))
                if R['cex']:
                    f.write('\nReal code run (compiled from /repo):\n  args      %r\n  returned  %s\n  specified %s\nreplay: printf %%s\\\\n "%s" | %s\n'%(R['cex']['args'],R['cex']['real'],R['cex']['specified'],R['root']+'\\t'+'\\t'.join(R['cex']['encoded']),REPLAY))
                if R['unsupported']: f.write('\nThe verifier could not generate/discharge the obligations: %s\n'%R['unsupported'])
                for d,l,pc in R['fail'][:12]: f.write('\nfailed obligation %s\n  %s\n  path condition: %s\n'%(l,d,pc))
                if R['cex']: print('counterexample %s: args %s returned %s specified %s'%(R['name'],repr(R['cex']['args'])[:300],R['cex']['real'][:120],R['cex']['specified'][:120]))
            viol.append((R['name'],path,bool(R['cex'])))
    obs=[(R['name'],)+tuple(o) for R in res for o in R['obs']]
    bounded=[R['name'] for R in res if R['bounded']]
    pro=[o for o in obs if o[0] not in bounded]
    back={}
    for o in pro:
        if o[2]:
            h=(o[3] or '?').split('|')[0]; back[h]=back.get(h,0)+1
    inl=sorted({n for R in res for n in R['inlined']})
    repo_fns=[n for n in inl if re.search(r'measures|symbolic_math|mathjit',n)]
    mods=sorted({m for R in res for m in R['models']})
    ev={'property':prop,'tier':tier,'seed':seed,'level':getattr(mod,'LEVEL','proof'),
     'coverage':{'obligations':len(pro),'discharged':sum(1 for o in pro if o[2]),
       'checker_cmd':'./check %s %s'%(prop,tier),
       'trusted_base':['rustc nightly MIR construction and monomorphisation','/verif/mirdump (MIR to JSON)','/verif/engine (VC generator, loop summariser, real-algebra normaliser)','z3 (via python z3-solver)','sympy factor/expand (polynomial arithmetic inside the normaliser)']+['assumed contract: '+m for m in mods],
       'contracts':[{'name':R['name'],'title':R['title'],'entry':R['root'],'paths':R['paths'],'obligations':len(R['obs']),'discharged':sum(1 for o in R['obs'] if o[1]),'loops_summarised':R['loops'],'modular_contracts_used':R['contracts'],'z3_queries':R.get('z3_queries'),'z3_seconds':round(R.get('z3_time',0),2),'seconds':round(R['wall'],2),'companion_runs':R['conf'],'bounded':R['bounded']} for R in res],
       'discharged_by':back,
       'functions_symbolically_executed':len(inl),'repo_functions_under_contract':repo_fns,
       'z3_queries':sum(R.get('z3_queries') or 0 for R in res),'solver_seconds':round(sum(R.get('z3_time') or 0 for R in res),2),
       'bounded_companion':{'what':'compiled code run against the same specification on sampled inputs (bounded, not counted as proved)','runs':sum(R['conf'] for R in res)},
       'bounded_contracts':bounded,'build_seconds':round(tb,1)},
     'assumptions':ASSUME+getattr(mod,'ASSUME',[]),
     'wall_s':round(time.time()-t0,1),'violations':len(viol)}
    json.dump(ev,open('%s/evidence/%s.json'%(V,prop),'w'),indent=1)
    kf={}
    try:
        for l in open(V+'/known_findings.txt'):
            m=re.match(r'(\S+): property=(\S+) (.*)',l.strip())
            if m and m.group(1).startswith('KNOWN'): kf.setdefault(m.group(2),[]).append(m.group(3))
    except FileNotFoundError: pass
    for k in known:
        if any(x.startswith(k) for x in kf.get(prop,[])): print('KNOWN-FINDING: property=%s %s'%(prop,k))
        else:
            path='%s/evidence/replay/%s.known.txt'%(V,prop); open(path,'w').write('deviation not in known_findings.txt: '+k+'\n'); viol.append((k,path,True))
    print('%s %s: %d contracts, %d/%d obligations discharged (%s), %d companion runs, %.0fs'%(prop,tier,len(res),ev['coverage']['discharged'],len(pro),', '.join('%s %d'%x for x in sorted(back.items())),ev['coverage']['bounded_companion']['runs'],time.time()-t0))
    viol.sort(key=lambda v:not v[2])
    if any(c for n,p,c in viol):      # the property is violated on a concrete input; contracts that failed without one are listed, not repeated as violations
        for n,p,c in viol:
            if not c: print('also not discharged: contract %s (%s)'%(n,p))
        viol=[v for v in viol if v[2]]
    for n,p,c in viol: print('VIOLATION property=%s replay=%s%s'%(prop,p,'' if c else ' no-failing-input-found'))
    sys.stdout.flush()
    sys.exit(1 if viol else 0)
ASSUME=['f64/f32 arithmetic is treated as exact real arithmetic extended with +inf, -inf, NaN (rounding, overflow and signed zero are not modelled; the bounded companion run compares the compiled code with the specification in 40-digit arithmetic)',
 'u64/usize/... are mathematical integers within their range; every checked operation is an obligation not to overflow',
 'integer to float conversion is exact (integer arguments up to 2^53)',
 'float-literal constants equal to a well-known constant (pi, ln 2, 1/2 ln(2 pi), ...) to the last place denote that constant',
 'std/libm functions listed in trusted_base behave as their mathematical specification',
 'slice lengths are at most 2^50']
if __name__=='__main__': 
    if os.environ.get('PYTHONHASHSEED')is None:
        os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)
    sys.modules.setdefault('check',sys.modules['__main__'])
    main()
