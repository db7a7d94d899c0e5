"""generate harness/src/bin/replay.rs from the root_* signatures"""
import re,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    arms=[]
    for f in sorted(glob.glob(V+'/harness/src/*.rs')):
        m=os.path.basename(f)[:-3]
        if m=='lib': continue
        for name,args in re.findall(r'^pub fn (root_\w+)\(([^)]*(?:\([^)]*\)[^)]*)*)\)(?= ->| \{)',open(f).read(),re.M):
            tys=split(args)
            ok=True; ex=[]; pre=[]
            for i,t in enumerate(tys):
                g=conv(t,i)
                if g is None: ok=False; break
                pre.append(g[0]); ex.append(g[1])
            if not ok: continue
            arms.append('"%s" => { %s show(&harness::%s::%s(%s)) }'%(name,' '.join(pre),m,name,', '.join(ex)))
    src=open(V+'/harness/replay_head.rs').read()+'fn dispatch(f: &str, a: &[V]) -> String {\n match f {\n  '+'\n  '.join(arms)+'\n  _ => "UNKNOWN".to_string(),\n }\n}\n'
    p=V+'/harness/src/bin/replay.rs'
    os.makedirs(os.path.dirname(p),exist_ok=True)
    if not os.path.exists(p) or open(p).read()!=src: open(p,'w').write(src)
def split(a):
    out=[];d=0;cur=''
    for ch in a:
        if ch in '([<': d+=1
        if ch in ')]>': d-=1
        if ch==',' and d==0: out.append(cur); cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur)
    return [x.split(':',1)[1].strip() for x in out]
def conv(t,i):
    v='a%d'%i
    if t in('f64','f32','u64','u32','u8','usize','i64','i32','bool','char'): return 'let %s: %s = a[%d].to_%s();'%(v,t,i,t),v
    if t=='&str': return 'let %s = a[%d].to_s();'%(v,i),'&'+v
    if t=='&f64': return 'let %s = a[%d].to_f64();'%(v,i),'&'+v
    m=re.fullmatch(r'&\[(f64|f32|u64|u8|usize|bool)\]',t)
    if m: return 'let %s: Vec<%s> = a[%d].list().iter().map(|x| x.to_%s()).collect();'%(v,m.group(1),i,m.group(1)),'&'+v
    m=re.fullmatch(r'\[(f64|u64|usize); (\d+)\]',t)
    if m: return 'let %s: Vec<%s> = a[%d].list().iter().map(|x| x.to_%s()).collect();'%(v,m.group(1),i,m.group(1)),'[%s]'%', '.join('%s[%d]'%(v,j) for j in range(int(m.group(2))))
    m=re.fullmatch(r'&\[\(f64, f64\)\]',t)
    if m: return 'let %s: Vec<(f64,f64)> = a[%d].list().iter().map(|x| {let l=x.list(); (l[0].to_f64(),l[1].to_f64())}).collect();'%(v,i),'&'+v
    m=re.fullmatch(r'&\[\[f64; (\d+)\]\]',t)
    if m:
        n=int(m.group(1)); return 'let %s: Vec<[f64;%d]> = a[%d].list().iter().map(|x| {let l=x.list(); [%s]}).collect();'%(v,n,i,', '.join('l[%d].to_f64()'%j for j in range(n))),'&'+v
    if t in('&HashMap<String, f64>','HashMap<String, f64>'): return 'let %s: std::collections::HashMap<String,f64> = a[%d].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect();'%(v,i),('&' if t[0]=='&' else '')+v
    if t=='&[HashMap<String, f64>]': return 'let %s: Vec<std::collections::HashMap<String,f64>> = a[%d].list().iter().map(|m| m.list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect()).collect();'%(v,i),'&'+v
    if t=='&[(f64, Expr)]': return 'let %s: Vec<(f64, symbolic_math::Expr)> = a[%d].list().iter().map(|x| {let l=x.list(); (l[0].to_f64(), l[1].expr())}).collect();'%(v,i),'&'+v
    if t in('Expr','symbolic_math::Expr','&Expr','&symbolic_math::Expr'): return 'let %s = a[%d].expr();'%(v,i),('&' if t[0]=='&' else '')+v
    if t in('JITRepr','&JITRepr'): return 'let %s = a[%d].repr();'%(v,i),('&' if t[0]=='&' else '')+v
    return None
if __name__=='__main__': main()
