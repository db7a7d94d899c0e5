"""Loop summarisation: synthesise and check an inductive closed form for every cell a loop changes."""
import re
from terms import *
from norm import ICtx, Norm, all_atoms, is_zero, depends
from vals import *
import vals
from exec import Exec, Peel, Call, INLINE
import exec as X

def diff(a,b,path,out):
    """leaf paths where values a and b differ"""
    if a is b or (type(a)==type(b) and not isinstance(a,Undef) and a==b): return
    if isinstance(a,Agg) and isinstance(b,Agg) and a.v==b.v and len(a.f)==len(b.f):
        for i,(x,y) in enumerate(zip(a.f,b.f)): diff(x,y,path+(('f',i),),out)
        return
    if isinstance(a,Arr) and isinstance(b,Arr) and len(a.e)==len(b.e):
        for i,(x,y) in enumerate(zip(a.e,b.e)): diff(x,y,path+(('i',const(i)),),out)
        return
    if isinstance(a,MapV) and isinstance(b,MapV) and a.base==b.base and len(a.e)==len(b.e) and all(x[0]==y[0] for x,y in zip(a.e,b.e)):
        for i,(x,y) in enumerate(zip(a.e,b.e)): diff(x[1],y[1],path+(('mv',i),),out)
        return
    if isinstance(a,VecV) and isinstance(b,VecV):
        if isinstance(a.s,UpdSeq) and isinstance(b.s,UpdSeq) and a.s.base==b.s.base and a.s.i==b.s.i:
            diff(a.s.v,b.s.v,path+(('i',a.s.i),),out); return
        x,y=small(a.s),small(b.s)
        if x and y and len(x)==len(y):
            for i,(u,v) in enumerate(zip(x,y)): diff(u,v,path+(('ei',i),),out)
            return
    out.append((path,a,b))
def small(q):
    """elements of a short vector (assigned slot by slot in a loop)"""
    if isinstance(q,LSeq) and len(q.l)<=16: return q.l
    if isinstance(q,RepSeq) and q.len.cval() is not None and q.len.cval()<=16: return (q.v,)*int(q.len.cval())
    return None
def getp(v,path):
    for e in path:
        if e[0]=='mv': v=v.e[e[1]][1]; continue
        if e[0]=='ei': v=small(v.s)[e[1]]; continue
        if isinstance(v,VecV):        # one element of a vector, held by the update on top of it
            if not(isinstance(v.s,UpdSeq) and v.s.i==e[1]): raise Unsupported('vector element in a loop')
            v=v.s.v; continue
        v=v.f[e[1]] if e[0]=='f' else v.e[int(e[1].cval())]
    return v
def setp(v,path,x):
    if not path: return x
    e=path[0]
    if e[0]=='mv':
        l=list(v.e); k,y=l[e[1]]; l[e[1]]=(k,setp(y,path[1:],x)); return MapV(l,v.base)
    if e[0]=='ei':
        l=list(small(v.s)); l[e[1]]=setp(l[e[1]],path[1:],x); return VecV(LSeq(l))
    if e[0]=='f':
        l=list(v.f); l[e[1]]=setp(l[e[1]],path[1:],x); return Agg(v.v,l)
    if isinstance(v,VecV):
        if path[1:]: raise Unsupported('vector element in a loop')
        b=v.s
        while isinstance(b,UpdSeq) and b.i==e[1]: b=b.base
        return VecV(UpdSeq(b,e[1],x))
    l=list(v.e); k=int(e[1].cval()); l[k]=setp(l[k],path[1:],x); return Arr(l)
def vatoms(v):
    acc=set()
    def f(p): all_atoms(p,acc); return p
    map_value(v,f)
    return acc

class Leaf:  # a changed location
    pass
def summarise(ex,S,start,resume,finish,tag):
    ex.iter_loops+=1
    base=S.nf
    npc=len(S.pc)
    changed={}   # (cell,path) -> original value in S
    resume0=resume
    def resume(s):
        """as the given one; at the end of an iteration the symbolic expressions that were accumulated are replaced by what they denote"""
        keys=s.meta.get(('expracc',tag,base))
        if not keys: return resume0(s)
        snap=s.copy(); k=resume0(s)
        if k!='cont': return k
        try:
            for key in keys:
                r=ex.denote(ex,s,getp(s.cells[key[0]],key[1]))
                if r is None: raise Unsupported('accumulated expression without a value in loop '+tag)
                s.meta[('accden',key)]=r
        except X.Fork as f:
            s.become(snap); s.meta.update(f.meta); raise
        return k
    noelem=set()
    while True:
        for rnd in range(8):
            G=S.copy(); start(G)
            H={}
            for (c,path),v in changed.items():
                H[(c,path)]=havoc(ex,G,c,path,v)
            G.meta[('expracc',tag,base)]=tuple(k for k,h in H.items() if h[0]=='expr')
            leaves=ex.explore(G.copy(),resume)
            conts=[s for s,k in leaves if k=='cont']
            if not conts:
                if _os.environ.get('VDBG'): print('leaves',[(k,s.pc[-3:]) for s,k in leaves],G.pc,changed)
                raise Peel(_dbg())
            new={}
            for s in conts:
                # cells visible at the header: those existing in S
                for c,v in S.cells.items():
                    if c not in s.cells: continue
                    d=[]; diff(G.cells[c],s.cells[c],(),d)
                    for path,x,y in d:
                        if any(cc==c and path[:len(pp)]==pp for (cc,pp) in changed): continue
                        new[(c,path)]=getp(S.cells[c],path)
            # drop new entries that are prefixed by others
            if not new: break
            for k in list(new):
                for k2 in list(changed):
                    if k2[0]==k[0] and k2[1][:len(k[1])]==k[1]: del changed[k2]
            changed.update(new)
        else: raise Unsupported('loop summary did not stabilise '+tag)
        # a vector of which every iteration updates the same element: that element is the accumulator
        again=False
        for key,h in list(H.items()):
            if h[0]!='vec' or key in noelem: continue
            us=[getp(s.cells[key[0]],key[1]) for s in conts]
            qs=[u.s for u in us if isinstance(u,VecV) and isinstance(u.s,UpdSeq) and isinstance(u.s.base,HavocSeq) and u.s.base.name==h[1]]
            ot=[u for u in us if isinstance(u,VecV) and isinstance(u.s,HavocSeq) and u.s.name==h[1]]
            if not qs or len(qs)+len(ot)!=len(us) or any(q.i!=qs[0].i for q in qs): continue
            noelem.add(key); wi=qs[0].i
            have=set()
            for v in S.cells.values(): have|=vatoms(v)
            if not atoms_of(wi)<=have or any(a in atoms_of(wi) for hh in H.values() for a in hh[3]): continue
            v0=changed[key]
            e0=v0.s.get(ex,S,wi)
            if not isinstance(e0,(Fl,Poly)): continue
            S.cells[key[0]]=setp(S.cells[key[0]],key[1]+(('i',wi),),e0)
            del changed[key]; changed[(key[0],key[1]+(('i',wi),))]=e0; again=True
        if not again: break
    # locals whose cell binding changed (re-created each iteration) are per-iteration temporaries
    # ---- induction variables
    jn='j%d!%s'%(len(S.frames),base)
    j=ivar(jn)
    ind={}
    for key,h in H.items():
        if h[0]=='int':
            deltas=set()
            for s in conts:
                nv=getp(s.cells[key[0]],key[1])
                deltas.add(nv-h[1] if isinstance(nv,Poly) else None)
            if len(deltas)==1 and None not in deltas:
                d=next(iter(deltas))
                if d.cval() is not None: ind[key]=('int',d); continue
                if not (d.atoms()&{x for hh in H.values() for x in hh[3]}) and not any(a.kind=='elem' and str(a.args[0]).startswith('havoc!') for a in atoms_of(d)): ind[key]=('int',d)
        elif h[0]=='it':
            ds=set()
            for s in conts:
                nv=getp(s.cells[key[0]],key[1])
                if isinstance(nv,It) and nv.s==changed[key].s: ds.add((nv.pos-h[1],nv.end-h[2]))
                else: ds.add(None)
            if len(ds)==1 and None not in ds: ind[key]=('it',next(iter(ds)))
            else: raise Unsupported('iterator update in loop '+tag)
    # vectors of which an iteration overwrites elements (and pushes none)
    inpl=set()
    for key,h in H.items():
        if h[0]!='vec': continue
        us=[getp(s.cells[key[0]],key[1]) for s in conts]
        us=[u.s for u in us if isinstance(u,VecV)]
        if any(isinstance(q,UpdSeq) for q in us) and len(us)==len(conts) and all(isinstance(q.base if isinstance(q,UpdSeq) else q,HavocSeq) and (q.base if isinstance(q,UpdSeq) else q).name==h[1] for q in us): inpl.add(key)
    # ---- generic iteration with induction variables in closed form
    G=S.copy(); start(G)
    G.assume(j.ge(0))
    G.meta['js']=tuple(G.meta.get('js',()))+(j,)
    H={}
    for key,v in changed.items():
        if key in ind:
            k,d=ind[key]
            if k=='int': nv=v+d*j
            else: nv=It(v.s,v.pos+d[0]*j,v.end+d[1]*j,v.flt)
            G.cells[key[0]]=setp(G.cells[key[0]],key[1],nv)
        else: H[key]=havoc(ex,G,key[0],key[1],v,[] if key in inpl else None)
        if key not in ind and key not in inpl and H[key][0]=='vec':     # elements of a vector being built cannot be read
            q=getp(G.cells[key[0]],key[1]).s; q.orig=None; q.probe=False
    G.meta[('expracc',tag,base)]=tuple(k for k,h in H.items() if h[0]=='expr')
    syms={a:key for key,h in H.items() for a in h[3]}
    leaves=ex.explore(G.copy(),resume)
    conts=[s for s,k in leaves if k=='cont']
    exits=[(s,k) for s,k in leaves if k!='cont']
    if not conts: raise Peel(_dbg())
    ngp=len(G.pc)
    def upd_(s,key): return getp(s.cells[key[0]],key[1])
    def extra(s): return [f for f in s.pc[ngp:]]
    # ---- find guard exits
    ja=next(iter(j.atoms()))
    def only_j(f):
        acc=set(); all_atoms(f,acc)
        return not any(a in syms for a in acc) and not any(a.kind=='elem' and depends(a,ja) for a in acc)
    N=None; guard=[]; early=[]
    cand=[]
    for s,k in exits:
        fs=extra(s)
        if fs and all(only_j(f) for f in fs) and not(isinstance(k,tuple) and k[0]=='panic'):
            cand.append((s,k,fs))
        else: early.append((s,k,fs))
    for s,k,fs in cand:
        b=None
        for f in fs:
            if f.k in('le','lt'):
                p=f.a[0]
                co=p.t.get(((ja,Q(1)),),None)
                rest=p-const(co or 0)*j
                if co is not None and co<0 and ja not in rest.atoms() and not depends(rest,ja):
                    if co==-1:
                        bb=rest if f.k=='le' else rest+1
                        if not bb.isint(): bb=None
                        b=bb if bb is not None else b
        if b is None: early.append((s,k,fs)); continue
        guard.append((s,k,fs,b))
    if len(guard)!=1: raise Peel(_dbg())
    gs,gk,gfs,b=guard[0]
    if S.decide(b.le(0)): N=ZERO
    else: N=b
    # ---- an accumulator that some iteration moves to an infinity / NaN, which must then be absorbing
    absb={}
    for key,h in H.items():
        if h[0]!='fin': continue
        ks={upd_(s,key).k for s in conts if isinstance(upd_(s,key),Fl)}-{'fin'}
        if ks:
            if len(ks)>1: raise Unsupported('accumulator leaves the reals in several ways in loop '+tag)
            absb[key]=Fl(next(iter(ks)))
    if absb:
        if len(absb)>1: raise Unsupported('accumulators leave the reals in loop '+tag)
        (akey,K),=absb.items()
        gs0={Not(f) for f in gfs}
        cK=[And(*[f for f in extra(s) if f not in gs0]) for s in conts if upd_(s,akey).k!='fin']
        if any(a in syms for c in cK for a in atoms_of(c)): raise Unsupported('accumulator leaves the reals depending on an accumulator in loop '+tag)
        allfin=Forall(ZERO,N,lambda i:And(*[Not(subst(c,{ja:i})) for c in cK]))
        if S.decide(allfin):
            conts=[s for s in conts if upd_(s,akey).k=='fin']
            if not conts: raise Peel(_dbg())
        else:
            if early: raise Unsupported('accumulator leaves the reals in loop with early exits '+tag)
            G2=S.copy(); start(G2); G2.assume(j.ge(0))
            G2.meta['js']=tuple(G2.meta.get('js',()))+(j,)
            for key,v in changed.items():
                if key in ind:
                    k,d=ind[key]
                    nv=v+d*j if k=='int' else It(v.s,v.pos+d[0]*j,v.end+d[1]*j,v.flt)
                elif key==akey: nv=K
                else: nv=Undef('loop-carried value next to one that left the reals in '+tag)
                G2.cells[key[0]]=setp(G2.cells[key[0]],key[1],nv)
            n2=len(G2.pc); ex2=[]
            for s,k in ex.explore(G2.copy(),resume):
                if k=='cont':
                    for key in changed:
                        a_=upd_(s,key)
                        if key==akey:
                            if a_!=K: raise Unsupported('non-absorbing special value in loop '+tag)
                        elif key in ind:
                            k_,d=ind[key]; h0=upd_(G2,key)
                            if k_=='int' and a_!=h0+d or k_=='it' and (a_.pos,a_.end)!=(h0.pos+d[0],h0.end+d[1]): raise Unsupported('induction variable in loop '+tag)
                else: ex2.append((s,k))
            if len(ex2)!=1 or [f for f in ex2[0][0].pc[n2:]]!=list(gfs): raise Unsupported('special-value loop exit differs in '+tag)
            E,k=ex2[0]; E=E.copy()
            m={ja:N}
            ext=E.pc[npc:]; E.pc=E.pc[:npc]; E._ctx=None
            for f in [N.ge(0)]+ext: E.assume(subst(f,m))
            for c in list(E.cells): E.cells[c]=map_value(E.cells[c],lambda p:subst(p,m))
            if 'js' in E.meta: E.meta['js']=S.meta.get('js',())
            finish(E); E.nf=max(E.nf,S.nf)+1
            ex.summaries.append((tag,len(conts),len(exits),['absorbing']))
            for f in S.pc[npc:]: E.assume(f)
            if isinstance(k,tuple) and k[0]=='panic':
                S.become(E); raise X.Panic(k[1])
            return E,k
    # ---- closed forms
    guardneg=Not(And(*gfs))
    def jfacts(js): return [js.ge(0),js.lt(N)]
    closed={}    # key -> function(jpoly)->value
    subst_sym={} # atom -> function(jpoly)->Poly
    gset=set()
    for f in gfs: gset.add(Not(f))
    def cond_of(s): return And(*[f for f in extra(s) if f not in gset])
    pend=dict(H)
    def upd(s,key): return s.meta[('accden',key)] if H[key][0]=='expr' else getp(s.cells[key[0]],key[1])
    def resolve_poly(p):
        """replace already solved accumulator symbols by their closed form at j"""
        m={a:subst_sym[a](j) for a in atoms_of(p) if a in subst_sym}
        return subst(p,m) if m else p
    def free(p,extra_ok=()):
        return not any(a in syms and a not in subst_sym and a not in extra_ok for a in atoms_of(p))
    def ite_merge(items):
        # items: [(cond,value Poly)]
        r=items[-1][1]
        for c,v in reversed(items[:-1]): r=ite(c,v,r)
        return r
    progress=True
    while pend and progress:
        progress=False
        for key,h in list(pend.items()):
            v0=changed[key]
            kind=h[0]
            if kind in('int','fin','expr'):
                a=h[3][0]; ap=P(a)
                ups=[]
                ok=True
                for s in conts:
                    nv=upd(s,key)
                    if kind in('fin','expr'):
                        if not isinstance(nv,Fl) or nv.k!='fin': ok=False; break
                        nv=nv.p
                    if not isinstance(nv,Poly): ok=False; break
                    ups.append((cond_of(s),nv))
                if not ok: raise Unsupported('accumulator leaves the reals in loop '+tag)
                v0p=v0.p if kind=='fin' else h[2] if kind=='expr' else v0
                conds_free=all(free(c) for c,_ in ups)
                ds=[(c,nv-ap) for c,nv in ups]
                if conds_free and all(free(d) and not depends(d,a) for c,d in ds):
                    g=ite_merge([(resolve_poly(c),resolve_poly(d)) for c,d in ds])
                    f=lambda t,g=g,v0p=v0p: v0p+Sum(ZERO,t,lambda i:subst(g,{ja:i}))
                elif conds_free and all(linear(nv,a) is not None for c,nv in ups) and all(free(x) for c,nv in ups for x in linear(nv,a)):
                    hs=[(c,)+linear(nv,a) for c,nv in ups]
                    hh=ite_merge([(resolve_poly(c),resolve_poly(x)) for c,x,y in hs]); kk=ite_merge([(resolve_poly(c),resolve_poly(y)) for c,x,y in hs])
                    if kk==ZERO:
                        f=lambda t,hh=hh,v0p=v0p: v0p*(Prod(ZERO,t,lambda i:subst(hh,{ja:i})) if depends(hh,ja) else ipow(hh,t))
                    elif not depends(hh,ja):
                        f=lambda t,hh=hh,kk=kk,v0p=v0p: v0p*ipow(hh,t)+Sum(ZERO,t,lambda i:subst(kk,{ja:i})*ipow(hh,t-1-i))
                    else: continue
                else:
                    mm=maxpat(ups,a,free)
                    if mm is None: continue
                    g=resolve_poly(mm[1])
                    if mm[0]=='max': f=lambda t,g=g,v0p=v0p: fmax(v0p,Max(ZERO,t,lambda i:subst(g,{ja:i})),t)
                    else: f=lambda t,g=g,v0p=v0p: -fmax(-v0p,Max(ZERO,t,lambda i:subst(-g,{ja:i})),t)
                subst_sym[a]=f
                closed[key]=(lambda t,f=f: fin(f(t))) if kind in('fin','expr') else f
                del pend[key]; progress=True
            elif kind=='vec':
                ups=[upd(s,key) for s in conts]
                if h[2] is not None:
                    s0=changed[key].s; wi=None; tm=[]
                    for s,u in zip(conts,ups):
                        q=u.s if isinstance(u,VecV) else None
                        if isinstance(q,HavocSeq) and q.name==h[1]: tm.append((cond_of(s),None)); continue
                        if not(isinstance(q,UpdSeq) and isinstance(q.base,HavocSeq) and q.base.name==h[1]) or wi not in(None,q.i): raise Unsupported('vector update in loop '+tag)
                        wi=q.i; tm.append((cond_of(s),q.v))
                    if wi is None: raise Unsupported('vector update in loop '+tag)
                    w0=wi-j
                    if any(a in syms for a in atoms_of(wi)) or depends(w0,ja) or not G.copy().ctx.child(j.lt(N)).proves(And(w0.ge(0),*[(r-wi).ge(0) for r in h[2]])): raise Unsupported('vector elements read after they were overwritten in loop '+tag)
                    vls=[(c,v if v is not None else s0.get(ex,G,wi)) for c,v in tm]
                    at=[vatoms(v)|atoms_of(c) for c,v in vls]
                    if any(a in syms and a not in subst_sym for s_ in at for a in s_): continue
                    lv=[int(a.args[0][1:]) for _,v in vls for a in vatoms(v) if a.kind=='var' and re.fullmatch(r'#8\d\d',a.args[0])]
                    bv=atom('var','#%d'%(max(lv)+1 if lv else 800),sort='int')
                    def inst2(val):
                        m={a:subst_sym[a](j) for a in vatoms(val) if a in subst_sym}
                        val=map_value(val,lambda p:subst(p,m)) if m else val
                        return map_value(val,lambda p:subst(p,{ja:P(bv)}))
                    tmpl=inst2(merge_vals(vls))
                    def f(t,tmpl=tmpl,s0=s0,bv=bv,w0=w0):
                        r=GenSeq(t,bv,tmpl)
                        if w0!=ZERO: r=cat(SubSeq(s0,ZERO,w0),r)
                        rest=s0.len-w0-t
                        return VecV(r if rest==ZERO else cat(r,SubSeq(s0,w0+t,rest)))
                    closed[key]=f
                    del pend[key]; progress=True
                    continue
                tm=[]
                for s,u in zip(conts,ups):
                    q=u.s if isinstance(u,VecV) else None
                    if isinstance(q,CatSeq) and isinstance(q.a,HavocSeq) and q.a.name==h[1] and isinstance(q.b,LSeq): tm.append((cond_of(s),q.b.l))
                    else: tm=None; break
                if tm is None: raise Unsupported('vector update in loop '+tag)
                if len({len(l) for c,l in tm})!=1 or len(tm[0][1])!=1:
                    raise Unsupported('variable pushes in loop '+tag)
                vls=[(c,l[0]) for c,l in tm]
                at=[vatoms(v)|atoms_of(c) for c,v in vls]
                if any(a in syms and a not in subst_sym for s_ in at for a in s_): continue
                lv=[int(a.args[0][1:]) for _,v in vls for a in vatoms(v) if a.kind=='var' and re.fullmatch(r'#8\d\d',a.args[0])]
                bv=atom('var','#%d'%(max(lv)+1 if lv else 800),sort='int')      # no capture by inner sequences
                s0=changed[key].s
                def inst(val):
                    m={}
                    for a in vatoms(val):
                        if a in subst_sym: m[a]=subst_sym[a](j)
                    val=map_value(val,lambda p:subst(p,m)) if m else val
                    return map_value(val,lambda p:subst(p,{ja:P(bv)}))
                try: val=merge_vals(vls)
                except Unsupported: val=None
                if val is not None:
                    tmpl=inst(val)
                    closed[key]=lambda t,tmpl=tmpl,s0=s0,bv=bv: VecV(cat(s0,GenSeq(t,bv,tmpl)))
                else:
                    cs=[(inst(c),inst(v)) for c,v in vls]
                    closed[key]=lambda t,cs=cs,s0=s0,bv=bv: VecV(cat(s0,CGenSeq(t,bv,cs)))
                lenatom=h[3][0]
                subst_sym[lenatom]=lambda t,s0=s0: s0.len+t
                del pend[key]; progress=True
            elif kind=='bool':
                ups=[(cond_of(s),upd(s,key)) for s in conts]
                a=h[3][0]
                # monotone flags: becomes c0 under cond, unchanged otherwise
                setc=[];ok=True
                for c,nv in ups:
                    if nv==h[1]: continue
                    if nv in(TRUE,FALSE): setc.append((c,nv))
                    else: ok=False
                if ok and len({v for c,v in setc})==1 and all(free(c) for c,_ in ups):
                    cc=resolve_poly(Or(*[c for c,_ in setc])); val=setc[0][1]
                    def f(t,cc=cc,val=val,v0=v0):
                        ex_=Exists(ZERO,t,lambda i:subst(cc,{ja:i}))
                        return Or(v0,ex_) if val is TRUE else And(v0,Not(ex_))
                    closed[key]=f; subst_sym[a]=None
                    del pend[key]; progress=True
    for key in pend: closed[key]=lambda t,key=key: Undef('loop-carried value without closed form in '+tag)
    bad={a for key in pend for a in H[key][3]}
    results=[]
    def build(s,k,t,facts,name):
        m={ja:t}
        for a,f in subst_sym.items():
            if f is not None: m[a]=f(t)
        E=s.copy()
        for key,h in H.items():
            if h[0]=='expr':
                if key in pend: raise Unsupported('accumulated expression without closed form in '+tag)
                E.meta[('den',h[1])]=lambda env,r=closed[key](t): r
        E.meta.pop(('expracc',tag,base),None)
        ext=E.pc[npc:]
        E.pc=E.pc[:npc]; E._ctx=None
        hv={H[key][1]:closed[key](t).s for key in H if H[key][0]=='vec' and key not in pend}
        bm={H[key][1]:closed[key](t) for key in H if H[key][0]=='bool' and key not in pend}
        vals.HAVOC_MAP=hv
        def sub(p):
            if bad and any(a in bad for a in atoms_of(p)): raise _Bad()
            if isinstance(p,F) and bm: p=subb(p,bm)
            return subst(p,m)
        for f in facts: E.assume(f)
        for f in ext:
            if any(a in bad for a in atoms_of(f)): continue
            E.assume(subst(f,m))
        for c in list(E.cells):
            v=E.cells[c]
            try: E.cells[c]=map_value(v,sub)
            except _Bad: E.cells[c]=Undef('loop-carried value without closed form in '+tag)
        vals.HAVOC_MAP={}
        if 'js' in E.meta: E.meta['js']=S.meta.get('js',())
        finish(E)
        E.nf=max(E.nf,S.nf)+1
        return (E,k,name)
    nonneg=[N.ge(0)]
    # early exits as conditions
    def ecs(t):
        out=[]
        for s,k,fs in early:
            c=And(*[f for f in fs if f not in gset])
            if not free(c): raise Unsupported('early exit depends on accumulator in '+tag)
            out.append(subst(resolve_poly(c),{ja:t}))
        return out
    def ecx(t):
        # as ecs, closed over the witnesses of inner loops (for use under a quantifier)
        return [exq(list(c.a) if c.k=='and' else [c]) for c in ecs(t)]
    early=[(s,k,fs) for s,k,fs in early]
    if early:
        facts=nonneg+[Forall(ZERO,N,lambda i:Not(Or(*ecx(i))))]
    else: facts=nonneg
    # unchanged cells of guard exit: values at header come from gs itself
    results.append(build(gs,gk,N,facts,'done'))
    for i,(s,k,fs) in enumerate(early):
        jj=ivar('%s_e%d'%(jn,i))
        fc=nonneg+[jj.ge(0),jj.lt(N)]
        if N is ZERO or N==ZERO: continue
        fc.append(Forall(ZERO,jj,lambda t:Not(Or(*ecx(t)))))
        fc.append(And(*ecs(jj)[i:i+1]))
        results.append(build(s,k,jj,fc,'early%d'%i))
    feas=[r for r in results if ex.feas(r[0])]
    if not feas: raise X.Infeasible()
    ex.summaries.append((tag,len(conts),len(exits),[repr(k[1]) for k in closed]))
    pick=None
    for E,k,name in feas[:-1]:
        if S.decide(F('b','exit[%s#%s]:%s'%(tag.split('::')[-1],base,name))): pick=(E,k,name); break
    if pick is None: pick=feas[-1]
    E,k,name=pick
    for f in S.pc[npc:]: E.assume(f)
    if isinstance(k,tuple) and k[0]=='panic':
        S.become(E); raise X.Panic(k[1])
    return E,k
class _Bad(Exception): pass
def exq(fs):
    """the conjunction of fs with every inner-loop witness s (0 <= s < hi) quantified existentially; the choice literals that only
    name which result of the inner loop was taken are dropped, since the remaining conditions determine it"""
    fs=[f for f in fs if not((f.k=='b' or f.k=='not' and f.a[0].k=='b') and (f.a[0] if f.k=='b' else f.a[0].a[0]).startswith('exit['))]
    wit=sorted({a for f in fs for a in atoms_of(f) if a.kind=='var' and re.fullmatch(r'j\d+!\d+_e\d+',a.args[0])},key=repr)
    for w in wit:
        mine=[f for f in fs if w in atoms_of(f)]; rest=[f for f in fs if w not in atoms_of(f)]
        hi=None
        for f in mine:
            if f.k=='lt':
                p=P(w)-f.a[0]
                if w not in p.atoms(): hi=p; hf=f; break
        if hi is None: continue
        ge=P(w).ge(0)
        body=[f for f in mine if f is not hf and f!=hf and f!=ge]
        core=[f for f in body if not(f.k=='forall' and f.a[2]==P(w)) and f!=F_le(P(w)-(1<<50))]
        first=[f for f in body if f.k=='forall' and f.a[2]==P(w)]
        if not(len(first)==1 and first[0].a[1]==ZERO and subst(first[0].a[3],{atom('var',first[0].a[0],sort='int'):P(w)})==Not(And(*core))): core=[f for f in body]
        # (the first index with a property exists iff some index has it)
        fs=rest+[Exists(ZERO,hi,lambda i:And(*[subst(f,{w:i}) for f in core]))]
    return And(*fs)
def subb(f,bm):
    if f in bm: return bm[f]
    if f.k=='and': return And(*[subb(x,bm) for x in f.a])
    if f.k=='or': return Or(*[subb(x,bm) for x in f.a])
    if f.k=='not': return Not(subb(f.a[0],bm))
    return f
def Exists(lo,hi,f): return Not(Forall(lo,hi,lambda i:Not(f(i))))
def atoms_of(x):
    acc=set(); all_atoms(x,acc); return acc
def ipow(h,t):
    c=t.cval()
    if c is not None and c.denominator==1 and 0<=c<=64: return h**int(c)
    if h==ONE: return ONE
    return P(atom('fn','ipow',h,t))
def fmax(a,b,t): return P(atom('fn','max2',a,b,t))
def linear(p,a):
    """p = x*a + y"""
    x=ZERO;y=ZERO
    for m,c in p.t.items():
        e=dict(m).get(a,0)
        if e==1:
            mm=tuple((b,q) for b,q in m if b is not a)
            if any(depends(b,a) for b,_ in mm): return None
            x=x+Poly({mm:c})
        elif e==0:
            if any(depends(b,a) for b,_ in m): return None
            y=y+Poly({m:c})
        else: return None
    return x,y
def maxpat(ups,a,free):
    keep=[(c,v) for c,v in ups if v==P(a)]
    rep=[(c,v) for c,v in ups if v!=P(a)]
    if len(keep)<1 or len(rep)<1: return None
    vs={v for c,v in rep}
    if len(vs)!=1: return None
    v=next(iter(vs))
    if depends(v,a): return None
    for c,_ in rep:
        cs=c.a if c.k=='and' else (c,)
        if any(f in(F_lt(P(a)-v),F_le(P(a)-v)) for f in cs): kind='max'
        elif any(f in(F_lt(v-P(a)),F_le(v-P(a))) for f in cs): kind='min'
        else: return None
    for c,_ in keep:
        cs=c.a if c.k=='and' else (c,)
        if kind=='max' and not any(f in(F_lt(v-P(a)),F_le(v-P(a)),F_eq(v-P(a))) for f in cs): return None
        if kind=='min' and not any(f in(F_lt(P(a)-v),F_le(P(a)-v),F_eq(v-P(a))) for f in cs): return None
    return kind,v
def havoc(ex,G,c,path,v,inpl=None):
    nm='h%s%s'%(c,''.join('.%s'%(e[1] if e[0] in('f','mv','ei') else show(e[1])) for e in path))
    if isinstance(v,Poly):
        x=ivar(nm); r=('int',x,None,list(x.atoms())); nv=x
    elif isinstance(v,Fl):
        if v.k!='fin': raise Peel(_dbg())
        x=var(nm); r=('fin',x,None,list(x.atoms())); nv=fin(x)
    elif isinstance(v,It):
        a=ivar(nm+'.pos'); b=ivar(nm+'.end')
        # keep the end symbolic only if it moves; optimistic: both fresh
        nv=It(v.s,a,b,v.flt); r=('it',a,b,list(a.atoms())+list(b.atoms()))
        G.assume(a.ge(0)); G.assume(b.le(v.s.len)); 
    elif isinstance(v,VecV):
        if inpl is not None: nv=VecV(HavocSeq(nm,v.s.len,v.s,False,inpl)); r=('vec',nm,inpl,[])
        else:
            l=ivar(nm+'.len'); nv=VecV(HavocSeq(nm,l,v.s,True)); r=('vec',nm,None,list(l.atoms()))
            G.assume(l.ge(0)); G.assume(l.le(1<<50))
    elif isinstance(v,F):
        f=F('b',nm); nv=f; r=('bool',f,None,[atom('var',nm)])
    elif isinstance(v,(Agg,Lazy)) and getattr(ex,'denote',None):   # a symbolic expression being built: stands for its value
        r0=ex.denote(ex,G,v)
        if r0 is None or r0.k!='fin': raise Peel(_dbg())
        x=var(nm); n='acc!'+nm+'!%d'%G.nf; nv=Lazy(ex.exprty,n); G.meta[('den',n)]=lambda env: fin(x); r=('expr',n,r0.p,list(x.atoms()))
        G.assume(Not(ex.denote_err(n)))
    elif isinstance(v,MapV): raise Peel(_dbg())      # the map gains keys in the first iterations
    else:
        nv=Undef('overwritten in loop'); r=('undef',None,None,[])
    G.cells[c]=setp(G.cells[c],path,nv)
    return r
def merge_vals(items):
    if len(items)==1: return items[0][1]
    vs=[v for c,v in items]
    if all(v==vs[0] for v in vs): return vs[0]
    if all(isinstance(v,Fl) and v.k=='fin' for v in vs):
        r=vs[-1].p
        for c,v in reversed(items[:-1]): r=ite(c,v.p,r)
        return fin(r)
    if all(isinstance(v,Poly) for v in vs):
        r=vs[-1]
        for c,v in reversed(items[:-1]): r=ite(c,v,r)
        return r
    if all(isinstance(v,F) for v in vs):
        return Or(*[And(c,v) for c,v in items])
    if all(isinstance(v,Agg) and v.v==vs[0].v and len(v.f)==len(vs[0].f) for v in vs):
        return Agg(vs[0].v,[merge_vals([(c,v.f[i]) for c,v in items]) for i in range(len(vs[0].f))])
    if all(isinstance(v,Arr) and len(v.e)==len(vs[0].e) for v in vs):
        return Arr([merge_vals([(c,v.e[i]) for c,v in items]) for i in range(len(vs[0].e))])
    raise Unsupported('cannot merge branch values')
def _summ(self,S,start,resume,finish,tag):
    E,k=summarise(self,S,start,resume,finish,tag)
    return E
Exec.summarise=_summ

# ---- python level loops used by the iterator contracts
def py_loop(ex,st,vals,body,tag):
    """body(ex,st,vals)-> ('cont',vals) | ('exit',result).  Runs concretely when possible, else summarises.
    returns (result, st) with st updated in place"""
    cell=st.alloc(Agg(0,tuple(vals)))
    rcell=st.alloc(UNIT)
    def one(s):
        snap=s.copy()
        try:
            r=body(ex,s,s.cells[cell].f)
        except X.Fork as g:
            s.become(snap); s.meta.update(g.meta); raise
        if r[0]=='cont': s.cells[cell]=Agg(0,tuple(r[1])); return 'cont'
        s.cells[rcell]=r[1]; return 'exit'
    n=0; skip=None; snap0=None
    while True:
        snap=st.copy()
        if snap0 is None: snap0=snap
        key=('py',cell,n,tag)
        try:
            if key in st.meta and skip!=n: raise X.Fork(st.meta[key],True)
            k=one(st)
            if k=='exit': return st.cells[rcell]
            n+=1
            if n>400: raise Unsupported('loop unrolling limit '+tag)
        except X.Fork as f:
            if not f.loop and (n<3 or st.meta.get(('pybf',cell))): raise
            try:
                for sn in ([snap0] if snap0 is not snap else [])+[snap]:
                    sp=sn.copy()
                    for ff in st.pc: sp.assume(ff)
                    for ff in snap.pc: sp.assume(ff)
                    sp.meta.update(snap.meta); sp.meta.pop(key,None)
                    try: E,k=summarise(ex,sp,lambda s:None,one,lambda s:None,tag); break
                    except (Peel,Unsupported):
                        if sn is snap: raise
            except Peel:
                if not f.loop: st.meta[('pybf',cell)]=1; raise f
                if st.known(f.f) is not None: skip=n; continue
                raise X.Fork(f.f,False)
            except Unsupported:
                if not f.loop: st.meta[('pybf',cell)]=1; raise f
                raise
            except X.Fork as g:
                if not f.loop: st.meta[('pybf',cell)]=1; raise f
                g.meta=dict(g.meta); g.meta[key]=f.f; g.loop=False
                raise g
            for ff in snap.pc:
                pass
            st.become(E)
            if k=='exit': return st.cells[rcell]
            raise Unsupported('python loop exit '+tag)
import os as _os, traceback as _tb
def _dbg():
    if _os.environ.get('VDBG'): print('PEEL at',_tb.extract_stack()[-2].lineno)
    return ''
