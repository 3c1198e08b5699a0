"""C21: iterating a particle set visits every particle once and accessors point at its values."""
from obj import *
import extract,os

def canon(t):
    """iterator members by role"""
    return t
def run(c):
    c.rule('effect summaries of every member of the iterator and accessor templates, of the functions that make iterators and of the end-of-block callbacks: default = invalid; constructor, copy and assignment keep provider, position and end; ++ advances by one and asks the provider for the next block exactly when the end is passed; comparison by provider and position; accessor address = base + stride*position')
    c.assume.append('both iterator kinds and the float/int/vector accessors are instantiated explicitly (tool/inst.cpp) so that members the library does not use are analysed too')
    drv=os.path.join(extract.VERIF,'tool/inst.cpp')
    prog=c.view('inl',sources=extract.lib_sources()+[drv],tag='inst');O=Obj(c,prog)
    for kind in('true','false'):
        R=iterator(c,O,prog,kind)
        if R: makers(c,O,prog,kind,R)
    accessor(c,O,prog)
    c.need('iterator',8);c.need('block',2);c.need('accessor address',4)

def fn(prog,rx,np=None):
    out=[]
    for f in prog.fns:
        if re.match(rx,f.dem) and 'thunk' not in f.dem: out.append(f)
    return out
def P(O,f,cls='none'):
    it,ps=O.paths(f,cls)
    if ps is None: return it,None
    return it,[p for p in ps if p.end==('ret',)]

def iterator(c,O,prog,kind):
    K='ParticleIterator<%s>'%kind;pre=r'^Partio::ParticleIterator<%s>::'%kind
    who='iterator' if kind=='false' else 'const_iterator'
    def one(rx,what):
        fs=fn(prog,pre+rx)
        if len(fs)!=1: c.und('iterator','%s: %s not found'%(who,what));return None
        it,ps=P(O,fs[0])
        if ps is None: c.und('iterator','%s: %s has too many paths'%(who,what));return None
        return fs[0],it,ps
    def L(f): return '%s:%d'%(f.file,f.line)
    # roles from the three-argument constructor
    r=one(r'ParticleIterator\(Partio::Provider','constructor from a provider')
    if not r: return None
    f,it,ps=r
    roles={}
    for p in ps:
        for e in p.ev:
            if e[0]=='store' and e[2][0]=='arg' and e[2][1] in(1,2,3) and it.root(e[1])==('arg',0): roles.setdefault(e[2][1],e[1])
    if set(roles)!={1,2,3}: 
        miss=[n for k,n in((1,'provider'),(2,'position'),(3,'end')) if k not in roles]
        if any(e[0]=='call' for p in ps for e in p.ev) : c.und('iterator',who+' constructor form');return None
        c.bad(who+' constructor','the constructor of %s drops its %s'%(who,', '.join(miss)),L(f),'iterator');return None
    c.ok('iterator',who+' constructor keeps provider, position and end')
    Pr,Ix,En=roles[1],roles[2],roles[3]
    if len({Pr,Ix,En})!=3: c.bad(who+' constructor','the constructor of %s stores two arguments in one member'%who,L(f),'iterator');return None
    def at(role,base):
        def r(x):
            if x==('arg',0): return base
            return tuple(r(y) if isinstance(y,tuple) else y for y in x)
        return r(role)
    def val(it,p,role,base): return it.load(at(role,base),p)
    def init(role,base): return ('load',at(role,base))
    # default: invalid
    r=one(r'ParticleIterator\(\)$','default constructor')
    if r:
        f,it,ps=r
        for p in ps:
            v=val(it,p,Pr,('arg',0))
            tri(c,v==('null',),v[0]in('arg','load','call','uninit'),'iterator',who+' default is invalid','a default %s has provider %s'%(who,fmt(v)),L(f))
    # copy and assignment
    for rx,nm in((r'ParticleIterator\(Partio::ParticleIterator<%s> const&\)'%kind,'copy'),(r'operator=\(Partio::ParticleIterator<%s> const&\)'%kind,'assignment')):
        r=one(rx,nm)
        if not r: continue
        f,it,ps=r
        for p in ps:
            if p.has(cmpc('eq',('arg',0),('arg',1)))>0: 
                c.decide(not any(e[0]=='store' for e in p.ev),'iterator','%s self-%s'%(who,nm),'%s of a %s to itself changes it'%(nm,who),L(f)) if nm=='assignment' else None
                continue
            for role,n in((Pr,'provider'),(Ix,'position'),(En,'end')):
                v=val(it,p,role,('arg',0));w=init(role,('arg',1))
                tri(c,v==w,plain(v),'iterator','%s %s %s'%(who,nm,n),'%s of a %s gives it %s as %s'%(nm,who,fmt(v),n),L(f))
    # valid
    fs=fn(prog,pre+r'valid\(')
    for f in fs:
        it,ps=P(O,f)
        if ps is None: c.und('iterator',who+' valid');continue
        table(c,ps,[(init(Pr,('arg',0)),2),(init(Ix,('arg',0)),2),(init(En,('arg',0)),2)],lambda v:v[0],'iterator',who+' valid',
            lambda v,r:'valid() of a %s %s provider is %d'%(who,'with a' if v[0] else 'without',r),L(f),it)
    # increments
    for post in(False,True):
        nm='postfix' if post else 'prefix'
        r=one(r'operator\+\+\(%s\)$'%('int' if post else ''),nm+' increment')
        if not r: continue
        f,it,ps=r
        me=('arg',1) if post else ('arg',0)
        old=init(Ix,me);new=add(old,ONE)
        for p in ps:
            calls=[e for e in p.ev if e[0]=='call' and re.search(r'setupIteratorNextBlock',e[1])]
            other=[e for e in p.ev if e[0]=='call' and e not in calls and len(e)>5] or [e for e in p.ev if e[0]=='loop']
            key='%s %s increment'%(who,nm)
            ixs=[e for e in p.ev if e[0]=='store' and e[1]==at(Ix,me)]
            pos=ixs[0][2] if ixs else old
            if other and not calls: c.und('iterator',key+' calls '+str(other[0][1])[:60]);continue
            if not ixs and not calls:
                c.bad(key,'%s ++ leaves the position of %s unchanged'%(nm,who),L(f),'iterator',[fmt(x) for x,_ in p.cond]);continue
            last=[e[2] for e in p.ev if e[0]=='store' and e[1]==at(Ix,me)]
            tri(c,last[-1]==new if last else False,all(plain(x) for x in last) if last else True,'iterator',key,'%s ++ moves %s to %s'%(nm,who,fmt(last[-1]) if last else 'nowhere'),L(f))
            beyond=p.has(cmpc('ult',init(En,me),new));nul=p.has(cmpc('eq',init(Pr,me),('null',)))
            if not beyond:
                e2=p.has(cmpc('eq',old,init(En,me)))or p.has(cmpc('ule',init(En,me),old))
                beyond=e2
            if calls:
                if beyond<0: c.bad(key+' end','%s ++ leaves the block of %s before its end'%(nm,who),calls[0][3],'iterator',[fmt(x) for x,_ in p.cond])
                elif beyond==0: weird(c,p,key,who,nm,En,Ix,me,at,calls[0][3])
                elif nul>0: c.bad(key+' null','%s ++ calls the provider of an invalid %s'%(nm,who),calls[0][3],'iterator')
                elif any(a==me for a in calls[0][2]): c.ok('iterator',key+' asks the provider for the next block')
                else: c.bad(key+' block','%s ++ advances another iterator than the incremented one'%nm,calls[0][3],'iterator')
            else:
                if beyond>0 and nul<=0 and p.has(cmpc('ne',init(Pr,me),('null',)))>=0 and nul!=1: 
                    if nul==0: weird(c,p,key,who,nm,En,Ix,me,at,L(f))
                    else: c.bad(key+' end','%s ++ passes the end of the block of %s without asking for the next'%(nm,who),L(f),'iterator',[fmt(x) for x,_ in p.cond])
                elif beyond<0 or nul>0: c.ok('iterator',key+' stays inside the block')
                else: weird(c,p,key,who,nm,En,Ix,me,at,L(f))
            if post:
                for role,n in((Pr,'provider'),(Ix,'position'),(En,'end')):
                    v=val(it,p,role,('arg',0))
                    tri(c,v==init(role,me),plain(v),'iterator',key+' returns old '+n,'postfix ++ of %s returns %s as %s'%(who,fmt(v),n),L(f))
            else: tri(c,p.ret==me,plain(p.ret),'iterator',key+' returns itself','prefix ++ of %s returns %s'%(who,fmt(p.ret)),L(f))
    # comparison
    for op,eq in((r'operator==\(',True),(r'operator!=\(',False)):
        fs=fn(prog,pre+op)
        for f in fs:
            it,ps=P(O,f)
            if ps is None: c.und('iterator',who+' comparison');continue
            a,b=('arg',0),('arg',1)
            nm='==' if eq else '!=';key='%s %s'%(who,nm)
            table(c,ps,[(init(Pr,a),3),(init(Ix,a),2),(init(Pr,b),3),(init(Ix,b),2)],
                lambda v: None if v[0]==0 and v[2]==0 else int((v[0]==v[2] and v[1]==v[3])==eq),'iterator',key,
                lambda v,r: '%s of two %ss is %d when their providers are %s and their positions are %s'%(nm,who,r,'equal' if v[0]==v[2] else 'different','equal' if v[1]==v[3] else 'different'),L(f),it)
    # accessors are set up when registered
    r=one(r'addAccessor\(','addAccessor')
    if r:
        f,it,ps=r
        for p in ps:
            calls=[e for e in p.ev if e[0]=='call' and e[1].endswith('setupAccessor')]
            nul=p.has(cmpc('eq',init(Pr,('arg',0)),('null',)))
            if nul>0: c.decide(not calls,'iterator',who+' addAccessor invalid','addAccessor calls the provider of an invalid '+who,L(f))
            elif calls: c.decide(calls[0][2][0]==init(Pr,('arg',0)) and ('arg',1) in calls[0][2],'iterator',who+' addAccessor','addAccessor of %s does not set up the accessor it is given'%who,L(f))
            elif not any(e[0]=='call' for e in p.ev): c.bad(who+' addAccessor','addAccessor of %s leaves the accessor without address'%who,L(f),'iterator',[fmt(x) for x,_ in p.cond])
            else: c.und('iterator',who+' addAccessor form')
    return at,Pr,Ix,En,who
def table(c,ps,vars_,want,kind,key,msg,loc,it):
    """decide a predicate by its decision table over equal/different/absent inputs"""
    import itertools,c11
    seen=False
    for v in itertools.product(*[range(n) for _,n in vars_]):
        env={t:x for (t,_),x in zip(vars_,v)};env[('null',)]=0
        w=want(v)
        if w is None: continue
        for p in ps:
            q=[c11.ev(x,env) for x,_ in p.cond]
            if 0 in q: continue
            r=p.ret
            if r[0]=='call' and r[1].endswith('operator=='):   # a comparison by the sibling operator
                c.und(kind,key+' by '+r[1]);return
            r=c11.ev(r,env)
            if None in q or r is None: c.und(kind,key+' returns '+fmt(p.ret));return
            seen=True
            if r!=w: c.bad(key,msg(v,r),loc,kind,[fmt(x) for x,_ in p.cond]);return
    if seen: c.ok(kind,key)
    else: c.und(kind,key)
def weird(c,p,key,who,nm,En,Ix,me,at,loc):
    """the block test is not the canonical one: decide it when it compares position and end only"""
    import itertools
    N=('load',at(Ix,me));E=('load',at(En,me))
    rel=[x for x,_ in p.cond if any(t in(N,E) for t in subterms(x))]
    called=any(e[0]=='call' and re.search('NextBlock',e[1]) for e in p.ev)
    import c11
    for i in range(0,6):
        for e in range(0,6):
            if i>e: continue
            v=[c11.ev(x,{N:i,E:e}) for x in rel]
            if None in v: c.und('iterator',key+' decides on '+str([fmt(x) for x in rel]));return
            if all(v) and called!=(i+1>e):
                c.bad(key+' end','%s ++ of %s %s the next block when the position is %d and the end is %d'%(nm,who,'asks for' if called else 'does not ask for',i,e),loc,'iterator',[fmt(x) for x in rel]);return
    c.ok('iterator',key+' block test')
def plain(t):
    return t is not None and not any(x[0] in('unk','alt','phi','val','call','resv') for x in subterms(t))
def tri(c,ok,known,kind,key,msg,loc):
    if ok: c.ok(kind,key)
    elif known: c.bad(key,msg,loc,kind)
    else: c.und(kind,key+': '+msg)

def makers(c,O,prog,kind,R):
    """begin, end, addParticles, end of block in every class"""
    at,Pr,Ix,En,who=R;const=kind=='true'
    base='Partio::ParticlesData' if const else 'Partio::ParticlesDataMutable'
    inv=lambda it,p,b: it.load(at(Pr,b),p)==('null',)
    # end() is invalid
    for f in O.methods(base,'end'):
        it,ps=P(O,f,base)
        for p in ps or ():
            v=it.load(at(Pr,('arg',0)),p)
            tri(c,v==('null',),plain(v),'end','%s end()'%who,'end() of the %s has provider %s'%(who,fmt(v)),'%s:%d'%(f.file,f.line))
    # begin() starts at particle 0
    for f in O.methods(base,'begin'):
        it,ps=P(O,f,base)
        for p in ps or ():
            cs=[e for e in p.ev if e[0]=='call' and re.search(r'setup(Const)?Iterator$',e[1])]
            if len(cs)!=1: c.und('begin',who+' begin form');continue
            ix=cs[0][2][-1]
            tri(c,ix==ZERO,ix[0]=='const','begin',who+' begin()','begin() starts the %s at particle %s'%(who,fmt(ix)),'%s:%d'%(f.file,f.line))
    for cls in O.classes:
        short=cls.split('::')[-1]
        if stores_nothing(O,cls):
            for n in(['setupConstIterator'] if const else ['setupIterator','addParticles']):
                f=O.method(cls,n)
                if f is None: continue
                it,ps=P(O,f,cls)
                for p in ps or ():
                    v=it.load(at(Pr,('arg',0)),p)
                    tri(c,v==('null',),plain(v),'block','%s::%s of a header'%(short,n),'%s::%s gives a valid iterator although a header stores no particles'%(short,n),'%s:%d'%(f.file,f.line))
            continue
        name='setupConstIterator' if const else 'setupIterator'
        for f in O.methods(cls,name):
            if 'thunk' in f.dem: continue
            it,ps=P(O,f,cls)
            if ps is None: c.und('block',short+'::'+name);continue
            ix=O.par(f,0);cnt=O.field_of(cls,'numParticles');loc='%s:%d'%(f.file,f.line)
            made(c,O,it,ps,f,cls,at,Pr,Ix,En,ix,cnt,ZERO,short+'::'+name,loc)
        if not const:
            f=O.method(cls,'addParticles')
            if f is not None:
                it,ps=P(O,f,cls);cnt=O.field_of(cls,'numParticles')
                if ps is not None and cnt is not None:
                    made(c,O,it,ps,f,cls,at,Pr,Ix,En,('load',O_back(O,f,cnt)),cnt,O.par(f,0),short+'::addParticles','%s:%d'%(f.file,f.line))
        for f in O.methods(cls,'setupIteratorNextBlock'):
            if 'thunk' in f.dem or ('<%s>'%kind) not in f.dem: continue
            it,ps=P(O,f,cls)
            if ps is None: c.und('block',short+' next block');continue
            a=O.par(f,0)
            for p in ps:
                if any(t[0]=='alloca' for x,_ in p.cond for t in subterms(x)) and p.has(cmpc('eq',*[t for x,_ in p.cond for t in x[2:]][:2]))>0: continue   # a local is never the caller's iterator
                v=it.load(at(Pr,a),p)
                tri(c,v==('null',),plain(v),'block','%s %s next block'%(short,who),'%s does not end a %s that passes the last particle (provider %s)'%(short,who,fmt(v)),'%s:%d'%(f.file,f.line))
def stores_nothing(O,cls):
    """a header-only set: its dataInternal never gives an address"""
    f=O.method(cls,'dataInternal')
    if f is None: return False
    it,ps=O.paths(f,cls)
    return ps is not None and all(p.ret in(('null',),None,ZERO) or p.end!=('ret',) for p in ps)
def O_back(O,f,t):
    me=O.this(f)
    def r(x):
        if x==('this',): return me
        return tuple(r(y) if isinstance(y,tuple) else y for y in x)
    return r(t)
def made(c,O,it,ps,f,cls,at,Pr,Ix,En,first,cnt,added,who,loc):
    dst=('arg',0);me=O.this(f)
    import c11
    if cnt is None:
        for p in ps:
            v=it.load(at(Pr,dst),p)
            tri(c,v==('null',),False,'block',who+' of a set without values','',loc)
        return
    C=('load',O_back(O,f,cnt));total=add(C,added)
    for p in ps:
        v=it.load(at(Pr,dst),p)
        conds=[c11.unver(x) for x,_ in p.cond]
        rel=[x for x in conds if any(t in(C,first,added) for t in subterms(x) if t[0]!='const')]
        # which states reach this path: counts and first index small
        states=[];und=False
        for cc in range(0,5):
            for k in range(0,5):
                env={C:cc}
                if added!=ZERO: env[added]=k
                if first!=C: env[first]=k
                fi=c11.ev(first,env);tot=c11.ev(total,env)
                if fi is None or tot is None: und=True;continue
                okk=True
                for x in rel:
                    if any(t[0]=='load' and t not in env for t in subterms(x)) : continue   # a capacity test
                    q=c11.ev(x,env)
                    if q is None: und=True;okk=False;break
                    if not q: okk=False;break
                if okk and (first==C or fi<=tot) : states.append((fi,tot))
        if und and not states: c.und('block',who+' decides on '+str([fmt(x) for x in rel]));continue
        if v==('null',):
            w=[s for s in states if s[0]<s[1]]
            c.decide(not w,'block',who+' hands out its particles','%s gives an invalid iterator when particles %s exist'%(who,w and '%d to %d'%(w[0][0],w[0][1]-1)),loc,[fmt(x) for x in conds])
            continue
        if not plain(v): c.und('block',who+' provider '+fmt(v));continue
        # a valid iterator
        w=[s for s in states if s[0]>=s[1]]
        c.decide(not w,'block',who+' valid only with particles','%s gives a valid iterator at position %s of a set with %s particles'%(who,w and w[0][0],w and w[0][1]),loc,[fmt(x) for x in conds])
        i=c11.unver(it.load(at(Ix,dst),p));e=c11.unver(it.load(at(En,dst),p))
        tri(c,i==first,plain(i),'block',who+' starts at the first particle','%s starts at %s instead of %s'%(who,fmt(i),fmt(first)),loc)
        tri(c,e==sub(total,ONE),plain(e),'block',who+' ends at the last particle','%s ends at %s, the last particle is %s'%(who,fmt(e),fmt(sub(total,ONE))),loc)
        r=it.root(v)
        tri(c,r==me,r[0]in('arg','glob','null'),'block',who+' provider','%s makes %s the provider'%(who,fmt(v)),loc)

def accessor(c,O,prog):
    import c11
    N=c11.Norm(4)
    fs=fn(prog,r'^(.* )?Partio::ParticleAccessor::(raw|data)<')
    ct=fn(prog,r'^Partio::ParticleAccessor::ParticleAccessor\(Partio::ParticleAttribute const&\)')
    for f in ct:
        it,ps=P(O,f)
        for p in ps or ():
            for n in('attributeIndex','count'):
                v=it.load(('fld',('arg',0),n),p)
                tri(c,v==('load',('fld',('arg',1),n)),plain(v),'accessor','accessor '+n,'a new accessor has %s %s'%(n,fmt(v)),'%s:%d'%(f.file,f.line))
    for f in fs:
        it,ps=P(O,f);m=re.search(r'(raw|data)<([^,]*),',f.dem.replace('Partio::Data<','Data<'))
        who=re.sub(r'.*ParticleAccessor::','',f.dem)[:60]
        for p in ps or ():
            b,o=N.ptr(p.ret)
            # the position is the only public member of the iterator
            okb=b==('load',('fld',('arg',0),'basePointer'))
            k=[x for m_ in o for x in m_]
            ixs=[x for x in k if x[0]=='load' and it.root(x[1])==('arg',1)]
            st=('load',('arg',0))
            good=okb and len(o)==1 and list(o.values())==[1] and sorted(k,key=repr)==sorted([st]+ixs,key=repr) and len(ixs)==1 and ixs[0][1]!=('arg',1)
            tri(c,good,plain(p.ret) ,'accessor address',who,'%s returns %s'%(who,fmt(p.ret)),'%s:%d'%(f.file,f.line))
