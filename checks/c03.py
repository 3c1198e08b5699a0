"""C03: resources acquired by a call are released exactly once on every way out."""
from flow import *

ACQ=re.compile(r'^(Partio::create|Partio::createInterleave|Partio::clone|Partio::cloneSchema|operator new(\[\])?|malloc|calloc|strdup|fopen|virt:\w+::clone\w*|Partio::Gzip_In|Partio::Gzip_Out)$')
REL=re.compile(r'^(virt:\w+::(release|~)|operator delete(\[\])?|free|fclose|(Partio::)?\w+::release|virt:#.*)$')
UPCTOR=re.compile(r'^std::(unique_ptr|shared_ptr)::(unique_ptr|shared_ptr|reset|operator=)$')
CTOR=re.compile(r'::(\w+)::\1$|^(\w+)::\2$')
ZINIT={'deflateInit_':'deflateEnd','inflateInit_':'inflateEnd','deflateInit2_':'deflateEnd','inflateInit2_':'inflateEnd'}
ZEND={'deflateEnd','inflateEnd'}
LOCK=re.compile(r'^(Partio::\w*Mutex::lock|std::(recursive_)?mutex::lock|pthread_(mutex|spin)_lock)$')
UNLOCK=re.compile(r'^(Partio::\w*Mutex::unlock|std::(recursive_)?mutex::unlock|pthread_(mutex|spin)_unlock)$')

class Res(Client):
    def __init__(s,ctx,fn,RT,label):
        s.ctx=ctx;s.fn=fn;s.RT=RT;s.label=label;s.sites={};s.n=collections.Counter()
    def desc(s,site):
        if isinstance(site,int):
            i=s.fn.inst[site]; n=s.fn.callee(i); same=[x for x in s.fn.calls() if s.fn.callee(x)==n]
            v=i.d.get('v') or ''
            return '%s%s'%(n.replace('Partio::',''),'')
        return str(site[1])
    def sitek(s,site):
        if not isinstance(site,int): return str(site[1])
        i=s.fn.inst[site]; return s.desc(site)
    def track_phi(s,i): return i.d['t']=='ptr'
    def keep(s,k,v): return False
    def report(s,F,kind,site,msg,i):
        loc=s.fn.inst[site].loc if isinstance(site,int) else ''
        pth=F.path()
        last=pth[-1] if pth else ''
        key='%s:%s:%s'%(s.label,kind,s.sitek(site))
        s.ctx.bad(key,'%s: %s acquired at %s %s'%(s.fn.short,s.desc(site),loc,msg),i.loc,'resource path',pth)
    def ts_get(s,ts,k):
        for a,b in ts:
            if a==k: return b
        return None
    def ts_set(s,ts,k,v):
        r=[(a,b) for a,b in ts if a!=k]
        if v is not None: r.append((k,v))
        return frozenset(r)
    def aliases(s,F,facts,site):
        return [k for k,v in facts.items() if v==('res',site)]
    def resof(s,F,o,facts):
        v=F.ev(o,facts)
        if isinstance(v,tuple) and v[0]=='res': return v[1]
        # interior pointers
        x=s.fn.val(o)
        while x is not None and x.op=='getelementptr':
            v=F.ev(x.d['base'],facts)
            if isinstance(v,tuple) and v[0]=='res': return v[1]
            x=s.fn.val(x.d['base'])
        return None
    def step(s,F,i,facts,ts):
        fn=s.fn
        if i.op in('call','invoke'):
            n=fn.callee(i)
            if n.startswith('llvm.') and not n.startswith('llvm.mem'): return None
            # z streams
            if n in ZINIT:
                k=('z',show(split(F.T.op(i.o[0]))[0],fn,3),str(F.T.op(i.o[0])))
                if split(F.T.op(i.o[0]))[0][0]!='alloca': return None     # member stream: owned by the object
                if s.ts_get(ts,k) is not None: s.report(F,'reinit',k,'is initialised again while still active',i)
                f=dict(facts)
                s.n['acquire']+=1
                a=dict(f);a[i.id]=0
                b=dict(f);b[i.id]=('ne',0)
                s.F_keep(F,i.id)
                return [(a,s.ts_set(ts,k,'held')),(b,s.ts_set(ts,k,None))]
            if n in ZEND:
                if split(F.T.op(i.o[0]))[0][0]!='alloca': return None
                k=('z',show(split(F.T.op(i.o[0]))[0],fn,3),str(F.T.op(i.o[0])))
                if s.ts_get(ts,k)!='held': s.report(F,'endtwice',k,'is ended although not active',i)
                return [(facts,s.ts_set(ts,k,None))]
            if LOCK.match(n):
                k=('lock',show(split(F.T.op(i.o[0]))[0],fn,3))
                s.n['acquire']+=1
                if s.ts_get(ts,k)=='held': s.report(F,'relock',k,'is locked again while held (self-deadlock)',i)
                return [(facts,s.ts_set(ts,k,'held'))]
            if UNLOCK.match(n):
                k=('lock',show(split(F.T.op(i.o[0]))[0],fn,3))
                if s.ts_get(ts,k)!='held': s.report(F,'unlock',k,'is unlocked while not held',i)
                return [(facts,s.ts_set(ts,k,None))]
            if n=='realloc':
                return None
            if ACQ.match(n):
                # the object from an earlier iteration must be gone
                st=s.ts_get(ts,i.id)
                if st=='held': s.report(F,'lost',i.id,'is overwritten by a new one while still owned',i)
                s.n['acquire']+=1
                f={k:v for k,v in facts.items() if v!=('res',i.id)}
                f[i.id]=('res',i.id)
                return [(f,s.ts_set(ts,i.id,'held'))]
            if n in('Partio::read','virt:'): return None
            out_ts=ts
            relarg=None
            if REL.match(n) and i.o:
                r=F.ev(i.o[0],facts)
                if r=='null' and n.startswith('virt'): s.null(F,n,i)
                if isinstance(r,tuple) and r[0]=='res':
                    site=r[1]
                    st=s.ts_get(ts,site)
                    if st=='released': s.report(F,'double',site,'is released twice',i)
                    s.n['release']+=1
                    return [(facts,s.ts_set(ts,site,'released'))]
            for k,o in enumerate(i.o):
                v=F.ev(o,facts)
                if k==0 and n.startswith('virt:') and v=='null': s.null(F,n,i)
                site=s.resof(F,o,facts)
                if site is None: continue
                st=s.ts_get(out_ts,site)
                if st=='released':
                    s.report(F,'uaf',site,'is used (%s) after it was released'%n,i)
                if UPCTOR.match(n) and k>0: out_ts=s.ts_set(out_ts,site,None)
            if 'vclass' not in i.d and 'callee' not in i.d: pass
            s.n['use']+=1
            if out_ts!=ts: return [(facts,out_ts)]
            return None
        if i.op=='store':
            v=F.ev(i.o[0],facts)
            if isinstance(v,tuple) and v[0]=='res':
                root,_=split(F.T.op(i.o[1]))
                # the pointer now lives in an object: its owner is responsible from here on
                if s.ts_get(ts,v[1])=='released': return None
                return [(facts,s.ts_set(ts,v[1],None))]
            site=s.resof(F,i.o[1],facts)
            if site is not None and s.ts_get(ts,site)=='released': s.report(F,'uaf',site,'is written after it was released',i)
            if F.ev(i.o[1],facts)=='null': s.null(F,'store',i)
            return None
        if i.op=='load':
            site=s.resof(F,i.o[0],facts)
            if site is not None and s.ts_get(ts,site)=='released': s.report(F,'uaf',site,'is read after it was released',i)
            if F.ev(i.o[0],facts)=='null': s.null(F,'load',i)
            return None
        return None
    def null(s,F,n,i):
        s.ctx.bad('%s:null:%s'%(s.label,n),'%s: %s through a pointer that is null on this path'%(s.fn.short,n),i.loc,'null use',F.path())
    def F_keep(s,F,k): F.rel.add(k)
    def edge(s,F,b,t,facts,ts): return ts
    def exit(s,F,i,facts,ts):
        ret=F.ev(i.o[0],facts) if i.o else None
        s.n['exit']+=1
        for site,st in ts:
            if st!='held': 
                if ret==('res',site): s.report(F,'retrel',site,'is returned after it was released',i)
                continue
            if ret==('res',site): continue
            if isinstance(site,tuple) and site[0]=='lock': s.report(F,'locked',site,'is still locked on return',i)
            else: s.report(F,'leak',site,'is neither released nor handed over on this way out',i)

def targets(ctx):
    inl=ctx.view('inl');spec=ctx.view('spec')
    out=[]
    seen=set()
    for f in spec.fns:
        if f.suffix in('H0','H1'): out.append(f); seen.add(f.short)
    import extract
    for f in extract.roots((ctx.view('raw'),inl)):
        if f.suffix or not f.file.startswith('src/lib/') or f.short in seen: continue
        if LOCK.match(f.short) or UNLOCK.match(f.short): continue
        out.append(f)
    return out

def run(ctx):
    ctx.rule('typestate over every path: each acquisition (particle object, heap buffer, zlib stream, lock) is released or handed over exactly once before every return, and never used afterwards')
    ctx.rule('owned members: what a destructor deletes is deleted or known to be null on every path through it, and is not overwritten by any other method before that')
    tot=collections.Counter()
    for f in targets(ctx):
        has=any(ACQ.match(f.callee(i)) or f.callee(i) in ZINIT or LOCK.match(f.callee(i)) for i in f.calls())
        nul=has or f.suffix
        if not nul: continue
        RT=None
        cl=Res(ctx,f,RT,f.short.replace('Partio::','')); F=Flow(f,cl,None)
        F.run(frozenset())
        ctx.touch(f)
        tot.update(cl.n)
        ctx.ok('function decided','%s%s: %d acquisitions, %d exits'%(f.short,'.'+f.suffix if f.suffix else '',cl.n['acquire'],cl.n['exit']))
    owned(ctx)
    ctx.counts['abstract acquisitions']=tot['acquire'];ctx.counts['abstract exits']=tot['exit']
    ctx.need('function decided',25); ctx.need('abstract acquisitions',40)

FREE=re.compile(r'^(operator delete(\[\])?|free|realloc|virt:.*)$')
def fieldof(T,o):
    t=T.op(o)
    return t[1][2] if t[0]=='load' and t[1][0]=='fld' and t[1][1]==('arg',0) else None

class Own(Client):
    """ts: the owned members known to hold nothing (released, or tested to be null) on this path"""
    def __init__(s,T,own,dtor): s.T=T;s.own=own;s.dtor=dtor;s.bad=[];s.n=0;s.ends=[];s.flags={}
    def keep(s,k,v): return isinstance(k,int) and s.fn.inst[k].op=='load' and(fieldof(s.T,['i',k]) in s.own or k in s.flags)
    def track_phi(s,i): return i.d['t'] in('i1','ptr')
    def step(s,F,i,facts,ts):
        if i.op in('call','invoke') and FREE.match(F.fn.callee(i)) and i.o:
            f=fieldof(s.T,i.o[0])
            if f in s.own and(not F.fn.callee(i).startswith('virt') or s.dtor): return [(facts,ts|{f})]
        if i.op=='store':
            a=s.T.op(i.o[1])
            if a[0]=='fld' and a[1]==('arg',0) and a[2] in s.own:
                s.n+=1
                v=F.ev(i.o[0],facts)
                if a[2] not in ts and not s.dtor: s.bad.append((a[2],i,F.path()))
                return [(facts,ts|{a[2]} if v=='null' else ts-{a[2]})]
        return None
    def edge(s,F,b,t,facts,ts):
        for k,v in facts.items():
            if v=='null' and isinstance(k,int) and F.fn.inst[k].op=='load':
                f=fieldof(s.T,['i',k])
                if f in s.own: ts=ts|{f}
        if s.dtor:
            for k,v in facts.items():
                if isinstance(k,int) and k in s.flags: ts=ts|{('flag',s.flags[k],0 if v in(0,'null') else 1)}
        return ts
    def exit(s,F,i,facts,ts):
        if s.dtor:
            for f in s.own:
                s.n+=1
                s.ends.append((f,f in ts,{x[1:] for x in ts if isinstance(x,tuple)}))
                if f not in ts: s.bad.append((f,i,F.path()))

def flagged(cl,x):
    """whether one member decides which way out of the destructor releases x"""
    E=[(r,fl) for f,r,fl in cl.ends if f==x]
    for n,v in {y for r,fl in E for y in fl}:
        if all(((n,1-v) in fl) if r else ((n,v) in fl) for r,fl in E): return True
    return False

def owned(ctx):
    p=ctx.view('inl')
    cls={}
    for f in p.fns:
        m=re.match(r'(.*)::~\w+$',f.short)
        if not m or not f.file.startswith('src/lib/') or f.suffix or 'thunk' in f.dem: continue
        T=Terms(f)
        own={fieldof(T,i.o[0]) for i in f.calls() if i.o and re.match(r'operator delete|free$|virt:',f.callee(i))}-{None}
        if own: cls.setdefault(m.group(1),[set(),[]]);cls[m.group(1)][0]|=own;cls[m.group(1)][1].append(f)
    for c,(own,ds) in sorted(cls.items()):
        last=c.split('::')[-1]
        for f in ds+[g for g in p.fns if g.short.startswith(c+'::') and g not in ds and not g.suffix and g.short[len(c)+2:]!=last]:
            dtor=f in ds;T=Terms(f)
            if not dtor and not any(i.op=='store' and T.op(i.o[1])[0]=='fld' and T.op(i.o[1])[1]==('arg',0) and T.op(i.o[1])[2] in own for i in f.insts()): continue
            if '~' in f.short and not dtor: continue
            cl=Own(T,own,dtor);cl.fn=f;F=Flow(f,cl,None)
            F.rel|={i.id for i in f.insts() if i.op=='load' and fieldof(T,['i',i.id]) in own}
            if dtor:
                for i in f.insts():
                    x=fieldof(T,['i',i.id]) if i.op=='load' else fieldof(T,i.o[0]) if i.op=='trunc' and i.d['t']=='i1' else None
                    if x and x not in own and i.d['t'] in('i1','i8','ptr'): cl.flags[i.id]=x
                F.rel|=set(cl.flags)
            try: F.run(frozenset())
            except AnalysisBroken: ctx.und('owned member',f.short);continue
            ctx.touch(f)
            badf={x[0] for x in cl.bad}
            for x in sorted(own-badf): ctx.ok('owned member','%s.%s in %s'%(last,x,f.short))
            for x in sorted(badf):
                _,i,path=[y for y in cl.bad if y[0]==x][0]
                later=[j for j in f.calls() if j.o and FREE.match(f.callee(j)) and fieldof(T,j.o[0])==x and i.op=='store' and reaches(f,i.bb,j.bb)]
                if dtor and flagged(cl,x): ctx.ok('owned member','%s.%s in %s, by an ownership flag'%(last,x,f.short));continue
                ctx.bad('%s:owned:%s'%(f.short.replace('Partio::',''),x),'%s %s while it may still own what it points to'%(f.short,'leaves without releasing '+x if dtor else 'overwrites '+x),i.loc,'owned member',path)

def reaches(f,a,b):
    seen=set();w=[a]
    while w:
        x=w.pop()
        if x==b: return True
        for y in f.succ[x]:
            if y not in seen: seen.add(y);w.append(y)
    return False
