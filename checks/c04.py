"""C04: diagnostics go to the caller's stream, and only when verbose."""
from util import *
import extract
CONSOLE={'_ZSt4cerr':'std::cerr','_ZSt4cout':'std::cout','_ZSt4clog':'std::clog'}
PRINTF=re.compile(r'^(printf|puts|putchar|vprintf|perror|fprintf|fputs|fputc|fwrite)$')

def stream_args(f):
    ps,const=params(f.dem)
    if ps is None: return []
    off=len(f.args)-len(ps)
    out=[]
    for k,p in enumerate(ps):
        if re.match(r'std::(basic_)?ostream(<.*>)?\s*\*$',p) and 0<=off<=2: out.append(k+off)
    return out

class Guard(Client):
    """ts: True once something was sent to the caller's stream"""
    def __init__(s,arg,callees): s.arg=('a',arg);s.callees=callees;s.uses=[];s.rets=[];s.n=0
    def keep(s,k,v): return k==s.arg
    def track_phi(s,i): return i.d['t'] in('i1','ptr')
    def step(s,F,i,facts,ts):
        if i.op in('call','invoke'):
            n=F.fn.callee(i)
            for k,o in enumerate(i.o):
                if F.key(o)!=s.arg: continue
                if k in s.callees(i): ts='told'; continue     # handed on as a pointer
                s.n+=1
                v=F.ev(o,facts)
                if v!='nn': s.uses.append((i,F.path()))
                if v=='null': return []
                ts='told'
            return [(facts,ts)]
        if i.op=='load' and F.key(i.o[0])==s.arg and F.ev(i.o[0],facts)!='nn':
            s.n+=1;s.uses.append((i,F.path()))
        return None
    def exit(s,F,i,facts,ts): s.rets.append((F.ev(i.o[0],facts) if i.o else None,ts,i,F.path()))

def run(ctx):
    ctx.rule('null-state dataflow: on every path the optional diagnostic stream of a reader or writer is used only where it was tested to be present')
    ctx.rule('every return of a failure by a reader or writer is preceded, when the stream is present, by a use of it')
    ctx.rule('no code reachable from a reader or writer refers to the console streams or the C console functions')
    p=ctx.view('inl')
    def callees(i):
        r=[]
        for n in p.impls(i): r+=stream_args(p.by[n])
        if not r and 'callee' not in i.d and i.op!='load':
            pass
        return set(r)
    for f in p.fns:
        if not f.file.startswith('src/lib/io') or f.suffix: continue
        for a in stream_args(f):
            ctx.touch(f);RT=RTerms(f)
            c=Guard(a,callees);F=Flow(f,c,RT);F.run('silent')
            ctx.decide(not c.uses,'guarded','%s:guarded'%f.short,'the diagnostic stream is used without having been tested for presence',c.uses[0][0].loc if c.uses else '',c.uses[0][1] if c.uses else ())
            c=Guard(a,callees);F=Flow(f,c,RT);F.run('silent',{('a',a):'nn'})
            if not re.match(r'Partio::(read|write)[A-Z]',f.short): continue
            ptr=f.d.get('rett','')
            for v,ts,i,path in c.rets:
                if v in('null',0): ctx.decide(ts=='told','reported','%s:reported'%f.short,'fails without reporting anything to the diagnostic stream',i.loc,path)
    # console
    raw=p
    roots=[f for f in raw.fns if re.match(r'Partio::(read|write)[A-Z]\w*$',f.short) and stream_args(f)]
    api=[f for f in raw.fns if re.match(r'Partio::(read|write|readHeaders|readCached|readCachedHeaders|freeCached|beginCachedAccess|endCachedAccess|computeClustering)$',f.short) and f.file.startswith('src/lib/') and f not in roots]
    if len(api)<5: raise AnalysisBroken('only %d entry points found'%len(api))
    codecs=list(roots);roots+=api
    if len(codecs)<20: raise AnalysisBroken('only %d readers and writers found'%len(roots))
    own,_=reachable(raw,codecs)
    live,calls=reachable(raw,roots)
    seen=set(live)
    nfn=0
    for n in sorted(seen):
        f=raw.by[n];ctx.touch(f);T=Terms(f);bad=[];nfn+=1
        if not f.file.startswith('src/'): continue
        if n not in own and re.match(r'Partio::ParticlesSimple(Interleave)?::(sort|find\w+|dataInternal\w*)$',f.short):
            if not ctx.assume or 'position' not in ctx.assume[-1]: ctx.assume.append('the container\'s own diagnostics about a missing position or a missing sort are not reached: clustering looks the position up and sorts first')
            continue
        for i in f.insts():
            if i.op in('call','invoke') and PRINTF.match(f.callee(i)):
                bad.append((f.callee(i),lit(f,T,i),i));continue
            for o in operands(i):
                t=T.op(o)
                if t[0]=='glob' and t[1] in CONSOLE: bad.append((CONSOLE[t[1]],lit(f,T,i),i))
        if bad:
            # blocks no caller can reach with the constants all callers pass
            init=constargs(raw,f,calls,{r.name for r in roots})
            F=Flow(f,FieldConst(raw,live),None);vis=F.run(0,init)
            bad=[(s,l,i) for s,l,i in bad if vis[i.bb]]
        if re.search(r'::dataInternal$',f.short): ctx.assume.append('the container\'s own out-of-range diagnostic is not reached: readers and writers index within the particle count');continue
        for s,l,i in bad:
            ctx.bad('%s:%s:%s'%(os.path.basename(f.file),s,l),'prints %r on %s although reading and writing report only to the caller\'s stream'%(l,s),i.loc,'console')
        if not bad: ctx.ok('console',f.short)
    ctx.need('guarded',10);ctx.need('console',50)

class FieldConst(Client):
    """loads of fields that every store in the reachable program sets to one constant"""
    memo={}
    def __init__(s,p,live):
        k=id(live)
        if k not in s.memo:
            v=collections.defaultdict(set)
            for n in live:
                f=p.by[n];T=Terms(f)
                for i in f.insts():
                    if i.op=='store':
                        a=T.op(i.o[1])
                        if a[0]=='fld': v[a[2]].add(i.o[0][1] if i.o[0][0]=='c' else None)
                    elif i.op in('call','invoke'):
                        for o in i.o:
                            a=T.op(o)
                            if a[0]=='fld': v[a[2]].add(None)
            s.memo[k]={n:next(iter(x)) for n,x in v.items() if len(x)==1 and None not in x}
        s.c=s.memo[k]
    def keep(s,k,v): return True
    def step(s,F,i,facts,ts):
        if i.op=='load':
            a=F.T.op(i.o[0])
            if a[0]=='fld' and a[2] in s.c:
                f=dict(facts);f[i.id]=s.c[a[2]];F.rel.add(i.id);return [(f,ts)]
        return None

def reachable(p,roots):
    """rapid type analysis: functions reachable from roots, with the call sites of each"""
    tabs=set();prev=None
    R={f.name for f in roots};cache={}
    def liveblocks(f):
        if prev is None: return None
        ini=constargs(p,f,prev,R)
        if not ini: return None
        k=(f.name,tuple(sorted(ini.items())))
        if k not in cache:
            v=Flow(f,Client(),None).run(0,ini);cache[k]={b for b,x in enumerate(v) if x}
        return cache[k]
    inp={}
    for f in p.fns:
        c=f.short.rsplit('::',1)[0]
        for i in f.calls():
            m=re.search(r'basic_streambuf::set([gp])$',f.callee(i))
            if m and any(o[0] not in('n','c','z') for o in i.o[1:]): inp.setdefault(m.group(1),set()).add(c)
    def slotlive(c,n):
        m=p.by[n].short.split('::')[-1] if n in p.by else ''
        if re.match('underflow|uflow|pbackfail|showmanyc|xsgetn',m): return c in inp.get('g',())
        if re.match('overflow|xsputn',m): return c in inp.get('p',())
        return True
    for rnd in range(8):
        seen={f.name for f in roots};st=list(roots);new=set();calls=collections.defaultdict(list)
        def reach(n):
            if n in p.by and n not in seen: seen.add(n);st.append(p.by[n])
        own=collections.defaultdict(set)
        for c in p.vt:
            for sl,v in p.vt[c].items():
                if v[0]=='g': own[v[1]].add(c)
        while st:
            f=st.pop();lb=liveblocks(f)
            for i in f.calls():
                if lb is not None and i.bb not in lb: continue
                for n in p.impls(i):
                    if 'callee' not in i.d and not(own[n]&tabs): continue
                    reach(n);calls[n].append(i)
            for i in f.insts():
                for o in operands(i):
                    if o[0] not in('g','ge'): continue
                    n=o[1] if o[0]=='g' else (o[1][1] if o[1][0]=='g' else '')
                    if not(i.op in('call','invoke') and i.d.get('callee')==n): reach(n)
                    if n.startswith('_ZTV'):
                        c=p.globals[n]['dem'].replace('vtable for ','');new.add(c)
                        if not c.startswith('Partio::Particle'):     # reached from inside the standard library
                            for v in p.vt.get(c,{}).values():
                                if v[0]=='g' and slotlive(c,v[1]): reach(v[1]);calls[v[1]].append(None)
        if new<=tabs and prev is not None and {k:len(v) for k,v in prev.items()}=={k:len(v) for k,v in calls.items()}: break
        tabs|=new;prev=calls
    return seen,calls

def constargs(p,f,calls,roots,depth=0):
    if f.name in roots or depth>4 or not calls.get(f.name): return {}
    out=None
    for i in calls[f.name]:
        if i is None: return {}
        g=i.fn;ini=constargs(p,g,calls,roots,depth+1)
        F=Flow(g,Client(),None);F.init_keys=set()
        d={('a',k):v for k,v in((k,F.ev(o,ini)) for k,o in enumerate(i.o)) if isinstance(v,int)}
        out=d if out is None else {k:v for k,v in out.items() if d.get(k)==v}
    return out or {}

def lit(f,T,i):
    """first string literal sent down the chain that starts at i"""
    for k in range(6):
        for o in i.o:
            t=T.op(o)
            if t[0]=='str': return t[1].rstrip(b'\0').decode('latin1').strip()
        nx=[u for u in f.users.get(i.id,()) if u.op in('call','invoke')]
        if not nx: break
        i=nx[0]
    return ''
