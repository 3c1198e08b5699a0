"""C08: shared mutable state of the library is synchronised."""
from util import *
import extract
LOCK=re.compile(r'^(Partio::\w*Mutex::lock|std::(recursive_|shared_)?mutex::lock|pthread_(mutex|spin)_lock|std::__mutex_base::lock)$')
UNLOCK=re.compile(r'^(Partio::\w*Mutex::unlock|std::(recursive_|shared_)?mutex::unlock|pthread_(mutex|spin)_unlock)$')
RAII=re.compile(r'^std::(lock_guard|unique_lock|scoped_lock)::(lock_guard|unique_lock|scoped_lock)$')
RAIID=re.compile(r'^std::(lock_guard|unique_lock|scoped_lock)::~')
UNSAFE=re.compile(r'^(strtok|rand|srand|localtime|gmtime|asctime|ctime|setlocale|tmpnam|drand48|lrand48|random|srandom|std::locale::global|readdir)$')
IGN=re.compile(r'^llvm\.(dbg|lifetime|experimental)')

def arg_reads_only(fn,i,k):
    """may the callee write through pointer argument k?  False when the declared type forbids it"""
    d=i.d
    n=fn.callee(i)
    if n.startswith('llvm.mem'): return k!=0
    if n in('memcmp','strcmp','strlen','memchr','strncmp','strcasecmp'): return True
    if n in('memcpy','memmove','strcpy','strncpy'): return k!=0
    dem=d.get('dem','')
    if not dem: return False
    ps,const=params(dem)
    if ps is None: return False
    off=len(i.o)-len(ps)         # this / sret come first
    if k<off:
        if const: return True
        last=n.split('::')[-1]
        return bool(re.match(r'(find|end|begin|count|size|empty|lower_bound|upper_bound|at|rfind|c_str|data|length|get)$',last)) and n.startswith('std::')
    t=ps[k-off]
    return bool(re.search(r'const\s*[&*]$',t)) or not re.search(r'[&*]$',t)

class Acc(object):
    __slots__=('fn','i','kind','held','passed','init','g','path','gate','root')

class Discipline(object):
    """a lock is given back on every way out and not asked for again by whoever holds it"""
    def __init__(s,ctx,raw):
        s.ctx=ctx;s.raw=raw;s.memo={};s.seen=set()
        s.own=collections.defaultdict(dict)      # function -> mutex global -> lock site, non-recursive mutexes only
        s.attr=any(f.callee(i)=='pthread_mutex_init' and i.o[1][0] not in('n','c','z') for f in raw.fns if f.short.startswith('Partio::') for i in f.calls())
        for f in raw.fns:
            if not f.file.startswith('src/'): continue
            T=None
            for i in f.calls():
                n=f.callee(i)
                k=0 if LOCK.match(n) else 1 if RAII.match(n) and len(i.o)>1 else None
                if k is None or s.recursive(f,i): continue
                T=T or Terms(f)
                r,p=split(T.op(i.o[k]))
                if r[0]=='glob': s.own[f.name][show(r,f,3)+''.join('.'+str(x[1]) for x in p if x[0]=='f')]=i
    def recursive(s,f,i):
        return 'recursive' in f.callee(i) or 'recursive' in i.d.get('dem','') or s.attr and f.callee(i).startswith(('Partio::','pthread_'))
    def below(s,n):
        """locks taken by a function or by anything it may call"""
        if n in s.memo: return s.memo[n]
        out={};seen={n};st=[(n,())]
        while st:
            m,tr=st.pop();f=s.raw.by.get(m)
            if f is None: continue
            for k,i in s.own.get(m,{}).items(): out.setdefault(k,(i,tr+(f.short,)))
            for i in f.calls():
                for t in s.raw.impls(i):
                    if t not in seen: seen.add(t);st.append((t,tr+(f.short,)))
            for i in f.insts():
                for o in operands(i):
                    t=o[1] if o[0]=='g' else None
                    if t in s.raw.by and t not in seen and s.raw.by[t].file.startswith('src/'): seen.add(t);st.append((t,tr+(f.short,)))
        s.memo[n]=out
        return out
    def taken(s,c,i,k,again,F):
        if s.recursive(c.fn,i): return
        s.ctx.decide(not again,'lock not held','relock:%s'%c.fn.short,'%s takes the lock %s while already holding it, so it waits for itself'%(c.fn.short,k),i.loc,F.path())
        if not again: s.seen.add(k)
    def called(s,c,i,held,F):
        for t in s.raw.impls(i):
            f=s.raw.by.get(t)
            if f is None or not f.file.startswith('src/'): continue
            b=s.below(t)
            for k in held:
                if not isinstance(k,str): continue
                w=b.get(k)
                if k in s.seen or w: s.ctx.decide(not w,'call under lock','relock:%s:%s'%(c.fn.short,k),'%s calls %s while holding the lock %s, and %s takes it again: the thread waits for itself'%(c.fn.short,f.short,k,' -> '.join(w[1][-4:]) if w else ''),i.loc,F.path())
    def left(s,c,i,held,F):
        L=[x for x in held if isinstance(x,str) and not any(isinstance(y,tuple) and y[2]==x for y in held)]
        for k in L: s.ctx.bad('unreleased:%s'%c.fn.short,'%s can return while still holding the lock %s, so the next caller waits for ever'%(c.fn.short,k),i.loc,'lock released',F.path())
        if not L and c.fn.name not in s.done: s.done.add(c.fn.name);s.ctx.ok('lock released','%s: nothing held at its return'%c.fn.short)
    done=set()

class LC(Client):
    D=None
    def __init__(s,fn,T,glob,out):
        s.fn=fn;s.T=T;s.glob=glob;s.out=out;s.F=None
        s.acc={}
        R=RTerms(fn); s.RT=R
        for i in fn.insts():
            if i.op=='load': g=s.gl(i.o[0]); 
            elif i.op=='store': g=s.gl(i.o[1])
            else: g=None
            if g:
                at='atomic' in i.d
                if not at: s.acc.setdefault(i.id,[]).append((g,'r' if i.op=='load' else 'w'))
            if i.op in('call','invoke') and not IGN.match(fn.callee(i)) and not LOCK.match(fn.callee(i)) and not UNLOCK.match(fn.callee(i)):
                for k,a in enumerate(i.o):
                    g=s.gl(a)
                    if g: s.acc.setdefault(i.id,[]).append((g,'r' if arg_reads_only(fn,i,k) else 'w'))
    def gl(s,o):
        """global object a pointer operand points into"""
        out=set()
        for t in value_leaves(s.fn,s.RT,s.RT.op(o)):
            r,_=split(t)
            # an iterator / reference obtained from a container of the object
            n=0
            while r[0]=='call' and n<4 and re.search(r'::(operator\[\]|at|find|begin|end|operator_arrow|operator\*|front|back|data|lower_bound)$',r[1]) and r[2]:
                r,_=split(r[2][0]);n+=1
            if r[0]=='load' and n==0: continue
            if r[0]=='glob' and r[1] in s.glob: out.add(r[1])
        return min(out) if out else None
    def lk(s,o):
        r,p=split(s.T.op(o))
        return show(r,s.fn,3)+''.join('.'+str(x[1]) for x in p if x[0]=='f')
    def step(s,F,i,facts,ts):
        held,passed,init=ts
        if i.op in('call','invoke'):
            n=s.fn.callee(i)
            if LOCK.match(n):
                k=s.lk(i.o[0])
                if s.D: s.D.taken(s,i,k,k in held,F)
                return [(facts,(held|{k},passed,init))]
            if UNLOCK.match(n):
                k=s.lk(i.o[0]); return [(facts,(frozenset(x for x in held if x!=k),passed|{k},init))]
            if re.match(r'^std::unique_lock::(un)?lock$',n):
                g=s.lk(i.o[0]); ks=frozenset(x[2] for x in held|passed if isinstance(x,tuple) and x[1]==g)
                if n.endswith('unlock'): return [(facts,(frozenset(x for x in held if x not in ks and not(isinstance(x,tuple) and x[1]==g)),passed|ks|frozenset(x for x in held if isinstance(x,tuple) and x[1]==g),init))]
                return [(facts,(held|ks|frozenset(x for x in passed if isinstance(x,tuple) and x[1]==g),passed,init))]
            if RAII.match(n) and len(i.o)>1 and 'defer_lock' in i.d.get('dem',''):
                return [(facts,(held,passed|{('g',s.lk(i.o[0]),s.lk(i.o[1]))},init))]
            if RAII.match(n) and len(i.o)>1:
                if s.D and 'adopt_lock' not in i.d.get('dem',''): s.D.taken(s,i,s.lk(i.o[1]),s.lk(i.o[1]) in held,F)
                return [(facts,(held|{s.lk(i.o[1]),('g',s.lk(i.o[0]),s.lk(i.o[1]))},passed,init))]
            if RAIID.match(n):
                g=s.lk(i.o[0]); ks=[x[2] for x in held if isinstance(x,tuple) and x[1]==g]
                return [(facts,(frozenset(x for x in held if x not in ks and not(isinstance(x,tuple) and x[1]==g)),passed|frozenset(ks),init))]
            if n=='__cxa_guard_acquire':
                k=i.o[0][1] if i.o[0][0]=='g' else '?'
                F.rel.add(i.id)
                a=dict(facts);a[i.id]=('ne',0);b=dict(facts);b[i.id]=0
                return [(a,(held,passed,init|{k})),(b,(held,passed|{'guard:'+k},init))]
            if n=='__cxa_guard_release':
                k=i.o[0][1] if i.o[0][0]=='g' else '?'
                return [(facts,(held,passed|{'guard:'+k},init-{k}))]
            if UNSAFE.match(n): s.out.append(('unsafe',n,i,F.path()))
            if s.D and held: s.D.called(s,i,held,F)
        if i.op=='ret' and s.D: s.D.left(s,i,held,F)
        for g,kind in s.acc.get(i.id,()):
            a=Acc();a.fn=s.fn;a.i=i;a.kind=kind;a.g=g
            a.held=frozenset(x for x in held if isinstance(x,str));a.passed=passed;a.init=bool(init);a.path=F.path();a.gate=None
            s.out.append(a)
        return None

def run(ctx):
    ctx.rule('every global or function-local static of the library that is written after start-up is accessed only while one common lock is held (or inside the guarded one-time initialisation, or read after passing through the critical section whose check gates all writes)')
    ctx.rule('no library function calls a C library function with hidden shared state')
    inl=ctx.view('inl')
    glob={}
    for g in inl.d['globals']:
        n=g['name']
        if g.get('const') or 'str' in g or not g.get('def') or n.startswith(('_ZTV','_ZTI','_ZTS','_ZTT','_ZTC','_ZGV','llvm.','__const','.str','_ZStL8__ioinit')): continue
        if re.search(r'Mutex|mutex|pthread|atomic|once_flag|ios_base::Init',g['ty']) or g.get('tls'): continue
        if not str(g.get('file','')).startswith(extract.REPO+'/src/lib'): continue
        glob[n]=g
    acc=[]
    ctx.rule('a lock taken by a library function is released on every way to its return, and no lock is taken again by the function that holds it or by anything it may call, unless the mutex is recursive')
    D=Discipline(ctx,ctx.view('raw'));D.done=set()
    rts=[f for f in inl.fns if f.file.startswith('src/lib/') and not re.match(r'__cxx_global_var_init|_GLOBAL__',f.name)]
    rr=set(f.name for f in extract.roots((ctx.view('raw'),inl)))
    nf=0
    for f in rts:
        if f.name not in rr: continue
        uses=any(o[0] in('g',) and o[1] in glob or (o[0]=='ge' and o[1][0]=='g' and o[1][1] in glob) for i in f.insts() for o in operands(i)) or any(UNSAFE.match(f.callee(i)) for i in f.calls())
        nf+=1
        locks=any(LOCK.match(f.callee(i)) or RAII.match(f.callee(i)) for i in f.calls())
        last=f.short.split('::')
        wrapper=len(last)>1 and (last[-1].lstrip('~')==last[-2] or re.match(r'(try_?)?(un)?lock|acquire|enter|release$|leave$',last[-1],re.I))
        if not uses and (wrapper or not locks): continue
        ctx.touch(f)
        cl=LC(f,Terms(f),glob,acc)
        if locks and not wrapper: cl.D=D
        F=Flow(f,cl,cl.RT);F.run((frozenset(),frozenset(),frozenset()))
    ctx.ok('functions scanned','%d library functions'%nf)
    for a in acc:
        if isinstance(a,tuple): ctx.bad('unsafe:%s:%s'%(a[2].fn.short,a[1]),'%s calls %s, which uses hidden shared state'%(a[2].fn.short,a[1]),a[2].loc,'unsafe libc call',a[3])
    acc=[a for a in acc if not isinstance(a,tuple)]
    u={}
    for a in acc: u.setdefault((a.g,a.i.fn.name,a.i.id,a.kind,a.held,a.init,a.passed if a.kind=='r' else 0),a)
    acc=list(u.values())
    by=collections.defaultdict(list)
    for a in acc: by[a.g].append(a)
    nw=0
    for g,L in sorted(by.items()):
        nm=glob[g].get('dem',g).replace('[abi:cxx11]','')
        writes=[a for a in L if a.kind=='w' and not a.init]
        if not writes:
            ctx.ok('read-only static','%s: %d accesses, none writes after initialisation'%(nm,len(L))); continue
        nw+=1
        common=None
        for a in writes: common=a.held if common is None else common&a.held
        for a in writes:
            ctx.decide(bool(a.held) and bool(common),'locked write','%s:write:%s'%(nm,a.fn.short),'%s is written in %s %s'%(nm,a.fn.short,'without a lock' if not a.held else 'under a different lock than elsewhere'),a.i.loc,a.path)
        reads=[a for a in L if a.kind=='r']
        for a in reads:
            if a.init: continue
            ok=bool(common and a.held&common)
            why='%s is read in %s without the lock that protects its writes'%(nm,a.fn.short)
            if not ok and common and (a.passed&common):
                # published: every write is gated by a check made under the same lock
                ok=all(gated(w,common,by) for w in writes)
                why='%s is read in %s after its lock was released, but it may be written again later'%(nm,a.fn.short)
            ctx.decide(ok,'locked read','%s:read:%s'%(nm,a.fn.short),why,a.i.loc,a.path)
    ctx.counts['statics with run-time writes']=nw
    member_locks(ctx,inl)

class MC(LC):
    """stores to members of objects that carry their own mutex"""
    def __init__(s,ctx,fn):
        s.ctx=ctx;s.fn=fn;s.T=Terms(fn);s.out=[];s.acc={};s.n=0;s.locks=set()
    def step(s,F,i,facts,ts):
        if i.op in('call','invoke') and LOCK.match(s.fn.callee(i)): s.locks.add(split(s.T.op(i.o[0]))[0])
        if i.op=='store':
            r,p=split(s.T.op(i.o[1]))
            if r==('arg',0) and p and p[-1][0]=='f' and i.o[0][0]!='c':
                s.out.append((p[-1][1],bool(ts[0]),i,F.path()))
        return LC.step(s,F,i,facts,ts)

def member_locks(ctx,inl):
    """a method that publishes a member under its object's mutex does so at every store of it"""
    by=collections.defaultdict(list)
    for f in inl.fns:
        if not f.file.startswith('src/lib/') or not any(LOCK.match(f.callee(i)) for i in f.calls()): continue
        cls=f.short.rsplit('::',1)[0]
        if f.short.endswith(cls.split('::')[-1]): continue
        c=MC(ctx,f);F=Flow(f,c,None);F.run((frozenset(),frozenset(),frozenset()))
        if ('arg',0) not in c.locks: continue
        ctx.touch(f)
        for fld,h,i,path in c.out: by[(cls,fld)].append((f,h,i,path))
    # the shared search structure is published only while the object's mutex is held
    for m in('Partio::ParticlesSimple','Partio::ParticlesSimpleInterleave'):
        for f in inl.fns:
            if f.short!=m+'::sort': continue
            L=by.get((m,'kdtree'))
            if not L:
                st=[i for i in f.insts() if i.op=='store' and split(Terms(f).op(i.o[1]))[1][-1:]==(('f','kdtree'),)]
                for i in st: ctx.bad('%s::kdtree:%s'%(m,'sort'),'%s publishes the search tree without holding the object\'s mutex'%f.short,i.loc,'locked member write')
                if not st: ctx.assume.append('%s: publication of the search tree not recognised'%f.short)
            for ff,h,i,path in L or ():
                ctx.decide(h,'locked member write','%s::kdtree:%s'%(m,'sort'),'%s publishes the search tree without holding the object\'s mutex'%ff.short,i.loc,path)

def gated(w,common,by):
    """is the write control dependent on a flag that is only touched under the common lock?"""
    fn=w.i.fn
    RT=RTerms(fn)
    for (b,t) in fn.cdep_closure(w.i.bb):
        br=fn.blocks[b][-1]
        if not br.o: continue
        for x in atoms(RT.op(br.o[0])):
            r=None
            if x[0]=='load': r=split(x[1])[0]
            elif x[0]=='call' and re.search(r'::(empty|size)$',x[1]) and x[2]: r=split(x[2][0])[0]
            if r is not None and r[0]=='glob' and r[1] in by:
                if all(a.held&common for a in by[r[1]] if a.i.bb==b or a.kind=='w'): return True
    return False
