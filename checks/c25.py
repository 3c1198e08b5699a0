"""C25: a handle that a failed add or lookup left invalid is never used; no component past an attribute's count is touched."""
from flow import *
import re,os,collections,itertools
import extract
HANDLE=re.compile(r'(?:^|[^\w])Partio::(Particle|Fixed)Attribute\b|class\.Partio::(Particle|Fixed)Attribute\b')
ADD=re.compile(r'^(virt:\w+|Partio::\w+)::add(Fixed)?Attribute$')
GET=re.compile(r'^(virt:\w+|Partio::Particles\w*)::(fixedA|a)ttributeInfo$')
USE=re.compile(r'^(virt:\w+|Partio::Particles\w*|Partio::ParticleHeaders)::((fixedD|d)ata(Internal|InternalMultiple|AsFloat|Write|)|get|set|setFixed|getFixed|(fixedI|i)ndexedStrs|register(Fixed)?IndexedStr|lookup(Fixed)?IndexedStr|set(Fixed)?IndexedStr|(fixedD|d)ata(Write)?)$')
BIND=re.compile(r'^Partio::ParticleIterator::addAccessor$|^virt:\w+::setupAccessor$')
NEW=re.compile(r'^(operator new|Partio::create|Partio::createInterleave|Partio::clone|Partio::cloneSchema)$')
NUM=re.compile(r'num(Fixed)?Attributes$')
PUSH=re.compile(r'^std::vector::(push_back|emplace_back)$')
PRED={'eq':lambda a,b:a==b,'ne':lambda a,b:a!=b,'slt':lambda a,b:a<b,'sle':lambda a,b:a<=b,'sgt':lambda a,b:a>b,'sge':lambda a,b:a>=b,
      'ult':lambda a,b:(a%2**32)<(b%2**32),'ule':lambda a,b:(a%2**32)<=(b%2**32),'ugt':lambda a,b:(a%2**32)>(b%2**32),'uge':lambda a,b:(a%2**32)>=(b%2**32)}
INVALID={'type':0,'count':0,'attributeIndex':-1}

def strip(fn,o):
    while o[0]=='i':
        x=fn.inst[o[1]]
        if x.op in('bitcast','freeze','zext','sext','trunc'): o=x.o[0];continue
        if x.op in('call','invoke') and fn.callee(x) in('std::forward','std::move','std::addressof','std::__addressof') and x.o: o=x.o[0];continue
        break
    return o

class Keys(object):
    """where a handle (or accessor) lives"""
    def __init__(s,fn):
        s.fn=fn
        s.vecof={}
    def root(s,o,d=0):
        """the container an operand designates"""
        o=strip(s.fn,o)
        if o[0]=='a': return ('p',o[1])
        if o[0]=='g': return ('g',o[1])
        if o[0]!='i': return None
        x=s.fn.inst[o[1]]
        if x.op=='alloca': return ('l',x.id)
        if x.op=='getelementptr' and d<6:
            b=s.key(x.d['base'],d+1)
            f=tuple(p[3] for p in x.d['path'] if p[0]=='f' and not p[3].startswith('base:'))
            return ('f',b,f) if b is not None and f else b
        if x.op=='load' and d<6:
            # a reference kept in a variable
            v=s.only(x.o[0])
            return s.root(v,d+1) if v is not None else None
        return None
    def only(s,o):
        o=strip(s.fn,o)
        if o[0]!='i' or s.fn.inst[o[1]].op!='alloca': return None
        st=[u for u in s.fn.users[o[1]] if u.op=='store' and strip(s.fn,u.o[1])==o]
        return st[0].o[0] if len(st)==1 else None
    def idx(s,o):
        o=strip(s.fn,o)
        return ('c',o[1]) if o[0]=='c' else ('i',o[1]) if o[0]=='i' else ('a',o[1]) if o[0]=='a' else None
    def key(s,o,d=0):
        fn=s.fn
        o=strip(fn,o)
        if o[0]=='a': return ('p',o[1])
        if o[0]=='g': return ('g',o[1])
        if o[0]!='i' or d>8: return None
        x=fn.inst[o[1]]
        if x.op=='alloca': return ('l',x.id)
        if x.op=='getelementptr':
            b=s.key(x.d['base'],d+1)
            if b is None: return None
            f=tuple(p[3] for p in x.d['path'] if p[0]=='f' and not p[3].startswith('base:') and not HANDLE.search(p[1]) )
            if any(p[0]=='x' and not(p[1][0]=='c' and p[1][1]==0) for p in x.d['path']):
                q=[p for p in x.d['path'] if p[0]=='x' and not(p[1][0]=='c' and p[1][1]==0)]
                b=('e',b,s.idx(q[0][1]))
            return ('f',b,f) if f else b
        if x.op in('call','invoke'):
            n=fn.callee(x)
            if re.search(r'^std::(vector|array|deque)::(operator\[\]|at)$',n):
                r=s.root(x.o[0]);return ('e',r,s.idx(x.o[1])) if r is not None else None
            if re.search(r'^std::(vector|deque)::(back|front)$',n):
                r=s.root(x.o[0]);return ('e',r,n[-5:].strip(':')) if r is not None else None
            return None
        if x.op=='load':
            v=s.only(x.o[0])
            if v is not None: return s.key(v,d+1)
            # *iterator: the pointer kept inside a local iterator
            b=strip(fn,x.o[0])
            r=s.iter(b)
            return ('e',r,'it') if r is not None else None
        if x.op=='phi':
            ks={s.key(v,d+1) for b,v in x.d['in'] if strip(fn,v)!=('i',x.id)}
            if len(ks)==1: return ks.pop()
            rs={k[1] if k and k[0]=='e' else None for k in ks}
            if len(rs)==1 and None not in rs: return ('e',rs.pop(),'it')
        return None
    def iter(s,o):
        fn=s.fn
        while o[0]=='i' and fn.inst[o[1]].op=='getelementptr': o=strip(fn,fn.inst[o[1]].d['base'])
        if o[0]!='i' or fn.inst[o[1]].op!='alloca': return None
        rs=set()
        for u in s.fn.insts():
            if u.op!='store': continue
            t=strip(fn,u.o[1])
            while t[0]=='i' and fn.inst[t[1]].op=='getelementptr': t=strip(fn,fn.inst[t[1]].d['base'])
            if t!=o: continue
            v=strip(fn,u.o[0])
            if v[0]=='i' and fn.inst[v[1]].op in('call','invoke') and re.search(r'::(c?begin)$',fn.callee(fn.inst[v[1]])):
                rs.add(s.root(fn.inst[v[1]].o[0]))
        return rs.pop() if len(rs)==1 else None

class Names(object):
    """whether the name given to addAttribute can depend on anything but constants"""
    def __init__(s,fn): s.fn=fn;s.K=Keys(fn);s.memo={}
    def kind(s,o):
        """'const' value | ('same',) constants only | None: anything"""
        fn=s.fn;o=strip(fn,o)
        st=fn.prog.string(o[1]) if o[0]=='g' else None
        if st is not None: return ('str',bytes(st).rstrip(b'\0'))
        if s.consts(o): return ('consts',)
        return None
    def consts(s,o,seen=None,d=0):
        seen=set() if seen is None else seen
        fn=s.fn;o=strip(fn,o)
        if o[0]=='g': return fn.prog.string(o[1]) is not None
        if o[0] in('c','n','z','u'): return True
        if o[0]!='i' or d>12: return False
        if o[1] in seen: return True
        seen.add(o[1])
        x=fn.inst[o[1]]
        if x.op=='alloca':
            for u in fn.users[x.id]:
                if u.op=='load' or u.op=='getelementptr': 
                    continue
                if u.op=='store':
                    if not s.consts(u.o[0],seen,d+1): return False
                elif u.op in('call','invoke'):
                    n=fn.callee(u)
                    if re.search(r'istream|getline|::read|virt:|^Partio::',n) : return False
                    if not n.startswith(('std::','llvm.','__gnu')): return False
                    for v in u.o:
                        v=strip(fn,v)
                        if v!=o and not s.consts(v,seen,d+1): return False
            return True
        if x.op=='getelementptr': return s.consts(x.d['base'],seen,d+1)
        if x.op in('call','invoke'):
            n=fn.callee(x)
            if n.startswith('std::') and not re.search(r'istream|getline',n): return all(s.consts(v,seen,d+1) if not s.isint(v) else True for v in x.o)
            return False
        if x.op=='load': return s.consts(x.o[0],seen,d+1)
        if x.op in('phi',): return all(s.consts(v,seen,d+1) for b,v in x.d['in'])
        if x.op=='select': return all(s.consts(v,seen,d+1) for v in x.o[1:])
        if x.op in('add','sub','mul'): return True
        return False
    def isint(s,v):
        v=strip(s.fn,v)
        return v[0]=='i' and s.fn.inst[v[1]].d.get('t','').startswith('i') or v[0]=='c'
    def ident(s,o):
        """key of the string object a name pointer comes from"""
        fn=s.fn;o=strip(fn,o)
        if o[0]=='g': return o[0],o[1]
        if o[0]=='i':
            x=fn.inst[o[1]]
            if x.op in('call','invoke') and re.search(r'::(c_str|data)$',fn.callee(x)) and x.o: return s.obj(x.o[0])
        return s.obj(o)
    def obj(s,o):
        fn=s.fn;o=strip(fn,o)
        if o[0]=='i':
            x=fn.inst[o[1]]
            if x.op=='getelementptr':
                b=s.obj(x.d['base']);f=tuple(p[3] for p in x.d['path'] if p[0]=='f' and not p[3].startswith('base:'))
                return ('f',b,f)
            if x.op in('call','invoke'):
                k=s.K.key(o)
                if k is not None: return k
        return tuple(o)

class CFlow(Flow):
    """conditions computed again from values that did not change are the same condition"""
    def __init__(s,fn,client):
        s.can={}
        Flow.__init__(s,fn,client)
        s._canon()
        Flow._relevant(s)
        s.rel={s.can.get(k,k) if isinstance(k,int) else k for k in s.rel}|set(s.rel)
        s.rel|={s.can.get(x.id,x.id) for x in fn.insts() if x.id in s.can}
        reps=set(s.can.values())
        for L in s.live: L|=reps
    def key(s,o):
        k=Flow.key(s,o)
        return s.can.get(k,k) if isinstance(k,int) else k
    def _canon(s):
        fn=s.fn
        base={}
        def root(o):
            f=[]
            while o[0]=='i':
                x=fn.inst[o[1]]
                if x.op in('bitcast',): o=x.o[0];continue
                if x.op=='getelementptr':
                    for p in x.d['path']:
                        if p[0]=='x' and p[1][0]!='c': return None
                    f.append(tuple((p[0],p[3] if p[0]=='f' else p[1][1],p[4] if p[0]=='f' else p[2]) for p in x.d['path']));o=x.d['base'];continue
                if x.op=='alloca': return x.id,tuple(f)
                return None
            return None
        derived=collections.defaultdict(set)
        groups=collections.defaultdict(list);writers=collections.defaultdict(list)
        dm={}
        for x in fn.insts():
            if x.op=='alloca': dm[x.id]=x.id
        ch=True
        while ch:
            ch=False
            for x in fn.insts():
                if x.id in dm: continue
                b=x.d.get('base') if x.op=='getelementptr' else x.o[0] if x.op=='bitcast' else None
                if b and b[0]=='i' and b[1] in dm: dm[x.id]=dm[b[1]];ch=True
        for bi,b in enumerate(fn.blocks):
            for pos,x in enumerate(b):
                if x.op=='load':
                    r=root(x.o[0])
                    if r is not None: groups[(r,x.d.get('size'))].append((bi,pos,x))
                elif x.op in('store','call','invoke'):
                    for j,o in enumerate(x.o):
                        if o[0]=='i' and o[1] in dm:
                            if x.op=='store' and j==0: writers[dm[o[1]]].append((None,None,x));continue
                            if x.op!='store' and (fn.callee(x).startswith('llvm.lifetime') or fn.callee(x).startswith('llvm.dbg')): continue
                            writers[dm[o[1]]].append((bi,pos,x))
        reach=s._reach()
        for (r,sz),L in groups.items():
            if len(L)<2: continue
            W=writers[r[0]]
            if any(w[0] is None for w in W): continue
            def between(p,q):
                (ab,ap,_),(bb,bp,_)=p,q
                for wb,wp,w in W:
                    if (wb in reach[ab] or wb==ab and wp>ap) and (bb in reach[wb] or bb==wb and bp>wp): return True
                return False
            cl=[]
            for x in L:
                for k in cl:
                    if not any(between(x,y) or between(y,x) for y in k): k.append(x);break
                else: cl.append([x])
            for k in cl:
                if len(k)>1:
                    for bi,pos,x in k: s.can[x.id]=k[0][2].id
        # pure functions of the same operands
        num={};ch=True
        for _ in range(3):
            num={}
            for x in fn.insts():
                if x.op in('icmp','and','or','xor','add','sub','lshr','shl'):
                    ks=tuple(('i',s.can.get(strip(fn,o)[1],strip(fn,o)[1])) if strip(fn,o)[0]=='i' else tuple(o[:2]) for o in x.o)
                    if not any(k[0]=='i' and k[1] in set(s.can.values()) for k in ks): continue
                    t=(x.op,x.d.get('pred'),ks)
                    if t in num: s.can[x.id]=num[t]
                    else: num[t]=x.id;s.can.setdefault(x.id,x.id)
    def _reach(s):
        fn=s.fn;n=len(fn.blocks);out=[]
        for b in range(n):
            seen=set();st=list(fn.succ[b])
            while st:
                t=st.pop()
                if t in seen: continue
                seen.add(t);st+=fn.succ[t]
            out.append(seen)
        return out
    def refine(s,o,val,facts):
        f=Flow.refine(s,o,val,facts)
        if o[0]=='i':
            x=s.fn.inst[o[1]]
            if x.id in s.can or x.id in s.c.lookups:
                f=dict(f);f[s.can.get(x.id,x.id)]=int(val)
        return f

BYTES=re.compile(r'^(llvm\.)?mem(cpy|move)|^std::(basic_)?ostream::write$|^std::(basic_)?istream::read$')
def limit(fn,o):
    """largest value of a loop counter with a constant limit, or the constant itself"""
    o=strip(fn,o)
    if o[0]=='c': return o[1]
    if o[0]!='i': return None
    x=fn.inst[o[1]]
    if x.op!='phi': return None
    # runs from a constant up by one
    ok=False
    for b,v in x.d['in']:
        v=strip(fn,v)
        if v[0]=='c': continue
        if v[0]=='i' and fn.inst[v[1]].op=='add' and strip(fn,fn.inst[v[1]].o[0])==o and fn.inst[v[1]].o[1][0]=='c' and fn.inst[v[1]].o[1][1]==1: ok=True
        else: return None
    if not ok: return None
    for b in fn.blocks:
        for u in b:
            if u.op=='icmp' and strip(fn,u.o[0])==o and u.o[1][0]=='c':
                if u.d['pred'] in('slt','ult','ne'): return u.o[1][1]-1
                if u.d['pred'] in('sle','ule'): return u.o[1][1]
    return None
def reach(fn,i,perparticle):
    """bytes of one particle's attribute that are touched through the data pointer i, as far as they are constant: (bytes, instruction)"""
    best=(0,None);seen=set();st=[(i.id,0,perparticle)]
    while st:
        v,off,pp=st.pop()
        if (v,off,pp) in seen or len(seen)>4000: continue
        seen.add((v,off,pp))
        for u in fn.users[v]:
            if u.op=='getelementptr' and u.d['base']==['i',v] or u.op=='getelementptr' and tuple(u.d['base'])==('i',v):
                o2=off;p2=pp;bad=False
                for p in u.d['path']:
                    if p[0]=='f': o2+=p[4]
                    else:
                        l=limit(fn,p[1])
                        if l is None or l<0:
                            if p2 : p2=False;continue
                            bad=True;break
                        o2+=l*p[2]
                if not bad: st.append((u.id,o2,p2))
            elif u.op in('bitcast','phi','select','freeze'): st.append((u.id,off,pp))
            elif u.op=='load' and not pp:
                if off+u.d.get('size',0)>best[0]: best=(off+u.d.get('size',0),u)
            elif u.op=='store':
                if tuple(u.o[1])==('i',v):
                    if not pp and off+u.d.get('size',0)>best[0]: best=(off+u.d.get('size',0),u)
                elif u.o[1][0]=='i' and fn.inst[u.o[1][1]].op=='alloca':
                    for w in fn.users[u.o[1][1]]:
                        if w.op=='load' and w.d.get('size')==8: st.append((w.id,off,pp))
            elif u.op in('call','invoke') and not pp and BYTES.match(fn.callee(u)) and len(u.o)>2:
                n=strip(fn,u.o[2])
                if n[0]=='c' and off+n[1]>best[0]: best=(off+n[1],u)
    return best

class An(Client):
    def __init__(s,c,fn,prog,summ,badparam=None,depth=0):
        s.c=c;s.fn=fn;s.prog=prog;s.summ=summ;s.bp=badparam;s.depth=depth
        s.K=Keys(fn);s.N=Names(fn);s.lookups=set();s.found=[];s.used=collections.OrderedDict();s.unds=[]
        s.keym={};s.need={};s.short=collections.OrderedDict()
        for i in fn.insts():
            if i.op in('call','invoke') and USE.match(fn.callee(i)) and re.search(r'[dD]ata(Internal|Write|)$',fn.callee(i)): r=reach(fn,i,False)
            elif i.op=='load' and i.d.get('size')==8 and s.basep(i) is not None: r=reach(fn,i,True)
            else: continue
            if r[0]>4: s.need[i.id]=r
        adds=[i for i in fn.calls() if ADD.match(fn.callee(i)) and i.d.get('sret') is not None]
        ks=[s.N.kind([o for j,o in enumerate(i.o) if j!=i.d['sret']][1]) for i in adds]
        s.consts={k[1] for k in ks if k is not None and k[0]=='str'}   # names that comparisons matter for
        s.copies=any(k is None and s.local(s.setkey([o for j,o in enumerate(i.o) if j!=i.d['sret']][0])) for i,k in zip(adds,ks))
    def key(s,o):
        t=tuple(o)
        if t not in s.keym: s.keym[t]=s.K.key(o)
        return s.keym[t]
    def keep(s,k,v): return k in s.lookups
    def basep(s,i):
        """the accessor whose data pointer is loaded"""
        p=strip(s.fn,i.o[0])
        if p[0]!='i': return None
        g=s.fn.inst[p[1]]
        if g.op!='getelementptr': return None
        f=[q for q in g.d['path'] if q[0]=='f']
        return g.d['base'] if f and f[-1][3]=='basePointer' and f[-1][1].endswith('ParticleAccessor') else None
    # how many components a handle is known to have
    def least(s,ts,k): return max([f[2] for f in ts if f[0]=='cmin' and f[1]==k] or [0])
    def setleast(s,ts,k,n,of=None):
        # k changes: what follows it is on its own
        ts=frozenset(f for f in ts if not(f[0]=='cmin' and f[1]==k or f[0]=='clnk' and k in f[1:]))
        if n and s.need: ts=ts|{('cmin',k,n)}
        if of is not None and s.need: ts=ts|{('clnk',k,of)}|{('clnk',k,f[2]) for f in ts if f[0]=='clnk' and f[1]==of}
        return ts
    def learn(s,ts,k,n):
        for j in {k}|{f[1] for f in ts if f[0]=='clnk' and f[2]==k}:
            if n>s.least(ts,j): ts=frozenset(f for f in ts if not(f[0]=='cmin' and f[1]==j))|{('cmin',j,n)}
        return ts
    def access(s,F,i,o,ts):
        k=s.key(o)
        if k is None or k[0] in('p','e','g'): n=None
        else: n=s.least(ts,k)
        need,at=s.need[i.id]
        if n is None: s.short.setdefault(i.id,('und',need,at,()))
        elif n*4<need:
            if s.short.get(i.id,('',))[0]!='bad': s.short[i.id]=('bad',need,at,F.path())
        else: s.short.setdefault(i.id,('ok',need,at,()))
    # state: frozenset of facts
    def ishandle(s,o):
        """is this operand the address of a handle or accessor object?"""
        k=s.key(o)
        return k
    def status(s,ts,k,facts,d=0):
        """'ok' | 'bad' | 'und' with the reason"""
        if k is None: return ('und',None)
        if k[0]=='p':
            if ('okp',k) in ts: return ('ok',None)
            return ('bad','the handle the caller passed') if s.bp==k[1] else ('ok',None)
        if k[0]=='g': return ('und',None)
        if ('ok',k) in ts: return ('ok',None)
        for f in ts:
            if f[0]=='src' and f[1]==k and d<4:
                return s.status(ts,f[2],facts,d+1)
        for f in ts:
            if f[0]=='pend' and f[1]==k:
                v=facts.get(f[2])
                if v in(1,-1) or isinstance(v,tuple) and v==('ne',0): return ('ok',None)
                return ('bad','looked up at %s, which may have failed'%s.fn.inst[f[2]].loc)
        for f in ts:
            if f[0]=='badat' and f[1]==k: return ('bad',f[2])
        if k[0]=='e':
            if ('eok',k[1],k[2]) in ts: return ('ok',None)
            if k[2]!='back' and any(f[0]=='eok' and f[2]==k[2] and f[2] is not None for f in ts): return ('ok',None)
            for f in sorted(ts,key=str):
                if f[0]=='vbad' and f[1]==k[1]: return ('bad',f[3])
            if k[1][0]=='p': return ('ok',None)
            return ('ok',None) if ('vec',k[1]) in ts else ('und',None)
        if k[0]=='f':
            if k[1] is not None and k[1][0]=='e':
                for f in sorted(ts,key=str):
                    if f[0]=='vbad' and f[1]==k[1][1]: return ('bad',f[3])
            return ('und',None)
        return ('und',None)
    def setst(s,ts,k,st,why=None,src=None):
        if k is None: return ts
        n=set(f for f in ts if not(f[0] in('ok','pend','badat','src') and f[1]==k))
        if k[0] in('l','f') or k[0]=='e' and k[2] not in('it',):
            if st=='ok': n.add(('ok',k))
            elif st=='bad':
                n.add(('badat',k,why))
            elif st=='src': n.add(('src',k,src))
        if k[0]=='e' and st=='ok':
            n=set(f for f in n if not(f[0]=='vbad' and f[1]==k[1]))   # elements filled one by one
            n.add(('vec',k[1]))
        if k[0]=='e' and st=='bad': n.add(('vbad',k[1],k,why))
        return frozenset(n)
    def assign(s,ts,dst,src,facts):
        sk=s.key(src);dk=s.key(dst)
        if dk is None: return ts
        if dk!=sk: ts=s.setleast(ts,dk,s.least(ts,sk),sk)
        ho=[f[2] for f in ts if f[0]=='hof' and f[1]==sk]
        ts=frozenset(f for f in ts if not(f[0]=='hof' and f[1]==dk))|{('hof',dk,h) for h in ho}
        st,why=s.status(ts,sk,facts)
        if st=='ok': return s.setst(ts,dk,'ok')
        if st=='bad':
            if dk[0]=='e': return s.setst(ts,dk,'bad',why)
            # follows the original while it exists
            ts=s.setst(ts,dk,'bad',why)
            return ts
        return frozenset(f for f in ts if not(f[0] in('ok','pend','badat','src') and f[1]==dk))
    def nameof(s,o,ts):
        """(set, lookup) when the name is that of a handle looked up by index there"""
        k=s.N.ident(o)
        if not(isinstance(k,tuple) and len(k)==3 and k[0]=='f' and k[2] and k[2][-1]=='name'): return None
        h=s.K.key(s.handleof(o))
        for f in ts:
            if f[0]=='hof' and f[1]==h: return f[2]
            if f[0]=='vhof' and h is not None and h[0]=='e' and f[1]==h[1]: return f[2]
        return None
    def handleof(s,o):
        fn=s.fn;o=strip(fn,o)
        for _ in range(6):
            if o[0]!='i': return o
            x=fn.inst[o[1]]
            if x.op in('call','invoke') and re.search(r'::(c_str|data)$',fn.callee(x)) and x.o: o=strip(fn,x.o[0]);continue
            if x.op=='getelementptr' and any(p[0]=='f' and p[3]=='name' for p in x.d['path']): return x.d['base']
            return o
        return o
    def fresh(s,ts,setk,nk,ident,hk=None):
        """None when the name cannot be taken, else the reason it can"""
        if ('abs',setk,ident) in ts: return None
        if hk is not None and s.local(setk):
            if ('spent',hk,setk) in ts: return 'an attribute of that name was added before'
            ne={f[2] for f in ts if f[0]=='nne' and f[1]==hk}
            for f in ts:
                if f[0]!='nm' or f[1]!=setk: continue
                if isinstance(f[2],tuple) and f[2][1]==hk: continue
                if isinstance(f[2],bytes) and f[2] in ne: continue
                return 'the name may be taken by one added before'
            return None
        if nk is not None and nk[0]=='consts': return None
        names=[f for f in ts if f[0]=='nm' and f[1]==setk]
        if nk is not None and nk[0]=='str':
            if not s.local(setk):
                return 'the set may already have an attribute of that name'
            for f in names:
                if f[2]==nk[1] : return 'the name was added before'
                if isinstance(f[2],tuple) and nk[1] in f[2][4]: continue
                if f[2]=='*' or isinstance(f[2],tuple): return 'an attribute of that name may have been copied from a file or another set before'
            return None
        return 'its name comes from outside and may be taken'
    def local(s,setk,seen=None):
        if setk is None: return False
        seen=seen or set()
        if setk in seen: return True
        seen.add(setk)
        if setk[0]!='i': return False
        x=s.fn.inst[setk[1]]
        if x.op in('call','invoke'): return bool(NEW.match(s.fn.callee(x))) and s.fn.callee(x) not in('Partio::clone','Partio::cloneSchema')
        if x.op=='phi': return all(v[0] in('n',) or s.local(s.setkey(v),seen) for b,v in x.d['in'])
        if x.op=='select': return all(s.local(s.setkey(v),seen) for v in x.o[1:])
        if x.op=='load':
            st=s.stores(x.o[0])
            return bool(st) and all(v[0]=='n' or s.local(s.setkey(v),seen) for v in st)
        return False
    def stores(s,o):
        o=strip(s.fn,o)
        if o[0]!='i' or s.fn.inst[o[1]].op!='alloca': return []
        return [u.o[0] for u in s.fn.users[o[1]] if u.op=='store' and strip(s.fn,u.o[1])==o]
    def setkey(s,o):
        fn=s.fn;o=strip(fn,o)
        for _ in range(10):
            if o[0]!='i': break
            x=fn.inst[o[1]]
            if x.op=='getelementptr' : o=strip(fn,x.d['base']);continue
            if x.op=='load':
                v=s.K.only(x.o[0])
                if v is not None: o=strip(fn,v);continue
                return ('i',('m',)+tuple(strip(fn,x.o[0]))[1:]) if False else ('m',)+tuple(strip(fn,x.o[0]))
            break
        return tuple(o)
    # ---- one instruction
    def step(s,F,i,facts,ts):
        if i.op=='alloca' :
            return None
        if i.op not in('call','invoke'):
            if i.id in s.need: s.access(F,i,s.basep(i),ts)
            return None
        fn=s.fn;n=fn.callee(i);dem=i.d.get('dem','')
        if ADD.match(n) and i.d.get('sret') is not None:
            k=i.d['sret'];a=[o for j,o in enumerate(i.o) if j!=k]
            setk=s.setkey(a[0]);nk=s.N.kind(a[1]);idn=s.N.ident(a[1])
            hk=s.nameof(a[1],ts)
            why=s.fresh(ts,setk,nk,idn,hk)
            n2=set(f for f in ts if not(f[0]=='abs' and f[1]==setk and f[2]==idn))
            if hk is not None:
                old=[f for f in n2 if f[0]=='nm' and f[1]==setk and isinstance(f[2],tuple) and f[2][:4]==('of',hk,i.id,'x')]
                ex=frozenset(f[2] for f in n2 if f[0]=='nne' and f[1]==hk)
                for f in old: n2.discard(f);ex&=f[2][4]
                n2.add(('nm',setk,('of',hk,i.id,'x',ex)));n2.add(('spent',hk,setk))
            else: n2.add(('nm',setk,nk[1] if nk is not None and nk[0]=='str' else '*' if nk is None else 'consts'))
            ts=frozenset(n2)
            d=s.key(i.o[k])
            if d is not None: ts=s.setleast(ts,d,a[3][1] if len(a)>3 and a[3][0]=='c' else 0)
            s.used.setdefault(('add',i.id),why)
            if why: ts=s.setst(ts,d,'bad','the result of %s at %s: %s'%(n.split('::')[-1],i.loc,why))
            else: ts=s.setst(ts,d,'ok')
            return [(facts,ts)]
        if GET.match(n):
            if len(i.o)<3: return None
            d=s.key(i.o[-1])
            if d is not None: ts=s.setleast(ts,d,0)
            if re.search(r'\(char const\*|\(this: ',dem) or s.byname(i):
                prev,why=s.status(ts,d,facts)
                s.lookups.add(i.id)
                n2=set(f for f in ts if not(f[0]=='pend' and (f[1]==d or f[2]==i.id)))
                if d is not None: n2.add(('pend',d,i.id))
                n2=set(f for f in n2 if not(f[0]=='abq' and f[3]==i.id))
                n2.add(('abq',s.setkey(i.o[0]),s.N.ident(i.o[1]),i.id))
                # keep what the handle was before: a failed lookup leaves it alone
                facts=dict(facts);facts.pop(i.id,None)
                if d is not None and prev!='ok':
                    n2=set(f for f in n2 if not(f[0] in('badat','src') and f[1]==d))
                return [(facts,frozenset(n2))]
            hk=(s.setkey(i.o[0]),i.id)
            ts=frozenset(f for f in ts if not(f[0] in('nne','spent') and f[1]==hk) and not(f[0]=='hof' and f[1]==d))
            if d is not None and s.copies: ts=ts|{('hof',d,hk)}
            g=s.inrange(i)
            if g is None: s.lookups.add(i.id)
            if g is True: return [(facts,s.setst(ts,d,'ok'))]
            if g is False: return [(facts,s.setst(ts,d,'bad','the lookup at %s, whose index is not bounded by the number of attributes'%i.loc))]
            n2=set(f for f in ts if not(f[0]=='pend' and f[1]==d))
            if d is not None: n2.add(('pend',d,i.id))
            return [(facts,frozenset(n2))]
        if re.match(r'^Partio::(Particle|Fixed)Attribute::(Particle|Fixed)Attribute$',n) :
            d=s.key(i.o[0])
            if len(i.o)==1: return [(facts,s.setst(ts,d,'bad','a handle that was never looked up'))]
            return [(facts,s.assign(ts,i.o[0],i.o[1],facts))]
        if re.match(r'^Partio::(ParticleAttribute|FixedAttribute|ParticleAccessor)::operator=$',n):
            return [(facts,s.assign(ts,i.o[0],i.o[1],facts))]
        if n.startswith('llvm.memcpy') and s.accessor(i.o[0]): return [(facts,s.assign(ts,i.o[0],i.o[1],facts))]
        if n=='Partio::ParticleAccessor::ParticleAccessor' and len(i.o)>=2:
            d,sk=s.key(i.o[0]),s.key(i.o[1])
            if d is None or sk is None: return None
            ts=s.setleast(ts,d,s.least(ts,sk),sk)
            st,why=s.status(ts,sk,facts)
            if st=='bad' : return [(facts,s.setst(ts,d,'src',None,sk) if sk[0]!='e' or sk[2] not in('it','back') else s.setst(ts,d,'bad',why))]
            return [(facts,s.setst(ts,d,st))] if st=='ok' else [(facts,ts)]
        if PUSH.match(n) and len(i.o)>1 and re.search(r'(Attribute|Accessor)\b',dem):
            r=s.K.root(i.o[0])
            if r is None: return None
            sk=s.key(i.o[1]);st,why=s.status(ts,sk,facts)
            n2=set(ts)
            n2=set(f for f in n2 if not(f[0] in('eok','ok','badat') and (f[1]==r and f[0]=='eok' or isinstance(f[1],tuple) and len(f[1])==3 and f[1][0]=='e' and f[1][1]==r and f[1][2]=='back')))
            ho={f[2] for f in n2 if f[0]=='hof' and f[1]==sk}
            n2=set(f for f in n2 if not(f[0]=='vhof' and f[1]==r))|{('vhof',r,h) for h in ho}
            if st=='ok': n2.add(('vec',r))
            elif st=='bad':
                src=sk
                n2.add(('vbad',r,src,why));n2.add(('vec',r))
            return [(facts,frozenset(n2))]
        if re.match(r'^std::vector::vector$',n) and i.o and re.search(r'(Attribute|Accessor)\b',dem.split('(')[0]):
            r=s.K.root(i.o[0])
            if r is None: return None
            n2=set(f for f in ts if not(f[0] in('vec','vbad','eok') and f[1]==r))
            if re.search(r'\(unsigned (long|int)',dem) and s.filled(r): n2.add(('vec',r))
            elif re.search(r'\(unsigned (long|int)',dem): n2.add(('vbad',r,None,'an element of a vector of handles that was never filled'))
            elif len(i.o)>=2 and re.search(r'\(std::vector<',dem):
                r2=s.K.root(i.o[1]);b=[f for f in ts if f[0]=='vbad' and f[1]==r2]
                for f in b: n2.add(('vbad',r)+f[2:])
                if r2 is not None and ('vec',r2) in ts: n2.add(('vec',r))
            else: n2.add(('vec',r))
            return [(facts,frozenset(n2))]
        if re.match(r'^std::vector::resize$',n) and re.search(r'(Attribute|Accessor)\b',dem.split('(')[0]):
            r=s.K.root(i.o[0])
            if r is not None and not s.filled(r): return [(facts,ts|{('vbad',r,None,'an element of a vector of handles that was never filled')})]
        if re.search(r'::~(ParticleAttribute|FixedAttribute|ParticleAccessor)$',n) and i.o:
            k=s.key(i.o[0])
            return [(facts,frozenset(f for f in ts if not(f[0] in('ok','badat','pend','src','cmin') and f[1]==k) and not(f[0]=='clnk' and k in f[1:])))]
        if n=='std::vector::~vector' and i.o:
            r=s.K.root(i.o[0])
            return [(facts,frozenset(f for f in ts if not(f[0] in('vec','vbad','eok') and f[1]==r)))]
        if re.search(r'^std::(basic_string|string)::(operator=|operator\+=|append|assign|clear|push_back|insert|erase|resize|~)|istream|getline',n) and i.o:
            ks={s.N.obj(o) for o in i.o[:2]}
            if any(f[0]=='abs' and f[2] in ks for f in ts): return [(facts,frozenset(f for f in ts if not(f[0]=='abs' and f[2] in ks)))]
            return None
        u=s.useop(i,n,dem)
        if i.id in s.need and u: s.access(F,i,u[0],ts)
        for o in u:
            k=s.key(o);st,why=s.status(ts,k,facts)
            kk=('use',i.id)
            if st=='bad':
                if s.used.get(kk)is None or s.used[kk][0]!='bad': s.used[kk]=('bad',why,F.path());
            else: s.used.setdefault(kk,(st,why,()))
        if not u and s.depth<4: return s.inner(F,i,n,dem,facts,ts)
        return None
    def accessor(s,o):
        o=strip(s.fn,o)
        return o[0]=='i' and s.fn.inst[o[1]].op=='alloca' and 'ParticleAccessor' in s.fn.inst[o[1]].d.get('aty','') and '[' not in s.fn.inst[o[1]].d.get('aty','')
    def filled(s,r):
        """some lookup puts handles into the elements of this container"""
        for i in s.fn.calls():
            if GET.match(s.fn.callee(i)) and len(i.o)>2:
                k=s.key(i.o[-1])
                if k is not None and k[0]=='e' and k[1]==r: return True
        return False
    def byname(s,i):
        o=strip(s.fn,i.o[1])
        if o[0]=='g': return True
        if o[0]=='c': return False
        if o[0]=='a': return s.fn.args[o[1]][0]=='ptr' if s.fn.args and isinstance(s.fn.args[o[1]],(list,tuple)) else False
        if o[0]=='i': return s.fn.inst[o[1]].d.get('t')=='ptr'
        return False
    def useop(s,i,n,dem):
        if USE.match(n):
            out=[]
            for o in i.o[1:] if i.d.get('sret')!=0 else i.o[2:]:
                k=s.key(o)
                if s.handleobj(o,k,i,n): out.append(o);break
            return out
        if BIND.match(n): return [i.o[-1]] if i.o else []
        return []
    def handleobj(s,o,k,i,n):
        return s.fn.callee(i)==n and (k is not None or True) and o is i.o[1 if i.d.get('sret')!=0 else 2]
    def inner(s,F,i,n,dem,facts,ts):
        """a call of a function of the repository that takes the handle by reference"""
        g=s.prog.by.get(i.d.get('callee',''))
        if g is None: return None
        for j,o in enumerate(i.o):
            k=s.key(o)
            if k is None or j>=len(g.args): continue
            if not any(f[0] in('badat','pend','src') and f[1]==k or f[0]=='vbad' and k[0]=='e' and f[1]==k[1] for f in ts): continue
            st,why=s.status(ts,k,facts)
            if st!='bad': continue
            m=(g.name,j)
            if m not in s.summ:
                s.summ[m]=False
                a=An(s.c,g,s.prog,s.summ,j,s.depth+1)
                try: CFlow(g,a).run(frozenset())
                except AnalysisBroken: pass
                s.summ[m]=any(x[0]=='bad' for kk,x in a.used.items() if kk[0]=='use')
            kk=('use',i.id)
            if s.summ[m]:
                if s.used.get(kk) is None or s.used[kk][0]!='bad': s.used[kk]=('bad',why,F.path())
            else: s.used.setdefault(kk,('ok',None,()))
        return None
    def inrange(s,i):
        """index lookup: True bounded by the number of attributes of the set, False not, None undecided"""
        fn=s.fn
        ix=strip(fn,i.o[1])
        if ix[0]=='c': return None
        if ix[0]=='a': return None
        b0=fn.block_of[i.id] if hasattr(fn,'block_of') else None
        fam={ix[1]}
        for u in fn.insts():
            if u.op=='icmp':
                for a,b,p in((u.o[0],u.o[1],u.d['pred']),(u.o[1],u.o[0],T_SWAP[u.d['pred']])):
                    if strip(fn,a)==ix and p in('slt','ult','ne','sge','uge','eq'):
                        if s.isnum(b): return True
                        return None
        return None
    def isnum(s,o,d=0):
        fn=s.fn;o=strip(fn,o)
        if o[0]!='i' or d>5: return False
        x=fn.inst[o[1]]
        if x.op in('call','invoke'): return bool(NUM.search(fn.callee(x))) or bool(re.search(r'::size$',fn.callee(x)))
        if x.op=='phi': return all(s.isnum(v,d+1) for b,v in x.d['in'])
        if x.op=='load':
            st=s.stores(x.o[0]);return bool(st) and all(s.isnum(v,d+1) for v in st)
        return False
    # ---- branches
    def atoms(s,o,val,d=0,eqv=None):
        """conditions that hold when operand o is val: (icmp, truth)"""
        o=strip(s.fn,o)
        if o[0]!='i' or d>8: return []
        x=s.fn.inst[o[1]]
        if x.op=='phi': return s.atoms(('i',eqv[x.id]),val,d+1,eqv) if eqv and x.id in eqv else []
        if x.op=='icmp':
            a,b=x.o
            p=x.d['pred']
            # (bool) compare with zero
            if b[0]=='c' and b[1]==0 and a[0]=='i' and p in('eq','ne') and s.fn.inst[strip(s.fn,a)[1]].op in('icmp','and','or','xor','select','phi') if strip(s.fn,a)[0]=='i' else False:
                return s.atoms(a,val if p=='ne' else not val,d+1,eqv)
            return [(x,val)]
        if x.op=='xor' and x.o[1][0]=='c': return s.atoms(x.o[0],not val,d+1,eqv)
        if x.op=='and' and val or x.op=='or' and not val: return s.atoms(x.o[0],val,d+1,eqv)+s.atoms(x.o[1],val,d+1,eqv)
        if x.op=='select':
            c,a,b=x.o
            if val and b[0]=='c' and b[1]==0: return s.atoms(c,True,d+1,eqv)+s.atoms(a,True,d+1,eqv)
            if not val and a[0]=='c' and a[1]!=0: return s.atoms(c,False,d+1,eqv)+s.atoms(b,False,d+1,eqv)
        return []
    def field(s,o):
        """(key of the handle, field) when o is a load of a handle's field"""
        o=strip(s.fn,o)
        if o[0]!='i': return None
        x=s.fn.inst[o[1]]
        if x.op!='load': return None
        p=strip(s.fn,x.o[0])
        if p[0]!='i':
            return None
        g=s.fn.inst[p[1]]
        if g.op=='getelementptr':
            f=[q for q in g.d['path'] if q[0]=='f']
            if f and HANDLE.search(f[-1][1]) and f[-1][3] in INVALID: return s.key(g.d['base']),f[-1][3]
            return None
        # the first field, reached without an address computation
        if x.d.get('size')==4 and (g.op in('call','invoke') or g.op=='alloca'):
            if g.op=='alloca':
                if HANDLE.search(g.d.get('aty','')) : return s.key(p),'type'
                return None
            if re.search(r'Attribute\b',g.d.get('dem','').split('(')[0]): return s.key(p),'type'
        return None
    def nonneg(s,o,d=0):
        o=strip(s.fn,o)
        if o[0]=='c': return o[1]>=0
        if o[0]!='i' or d>3: return False
        x=s.fn.inst[o[1]]
        if x.op=='phi': return all(v[0]=='c' and v[1]>=0 or v[0]=='i' and s.fn.inst[strip(s.fn,v)[1]].op=='add' for b,v in x.d['in'] if v[0] in('c','i')) and any(v[0]=='c' for b,v in x.d['in'])
        return False
    def excludes(s,x,val):
        """keys of handles that are valid when icmp x is val"""
        out=[]
        p=x.d['pred']
        if not val: p=NEG[p]
        for a,b,q in((x.o[0],x.o[1],p),(x.o[1],x.o[0],T_SWAP[p])):
            f=s.field(a)
            if f is None or f[0] is None: continue
            inv=INVALID[f[1]]
            bb=strip(s.fn,b)
            if bb[0]=='c':
                if not PRED[q](inv,bb[1]): out.append(f[0])
            else:
                g=s.field(b)
                if g is not None and g[1]==f[1] and q=='eq': out.append(('same',f[0],g[0]))
                elif f[1]=='count' and q in('sgt','ugt') and s.nonneg(bb): out.append(f[0])
        return out
    def counted(s,x,val):
        """(handle, components it must have) when icmp x is val"""
        out=[];p=x.d['pred']
        if not val: p=NEG[p]
        for a,b,q in((x.o[0],x.o[1],p),(x.o[1],x.o[0],T_SWAP[p])):
            f=s.field(a);b=strip(s.fn,b)
            if f is None or f[0] is None or f[1]!='count' or b[0]!='c': continue
            if q in('eq','sge','uge'): out.append((f[0],b[1]))
            elif q in('sgt','ugt'): out.append((f[0],b[1]+1))
        return out
    def valid(s,ts,k):
        if isinstance(k,tuple) and k and k[0]=='same': return ts
        if k is None: return ts
        if k[0]=='p': return ts|{('okp',k)}
        n=set(f for f in ts if not(f[0] in('pend','badat','src') and f[1]==k))
        if k[0]=='e':
            n.add(('eok',k[1],k[2]))
            if k[2]=='back':
                n=set(f for f in n if not(f[0]=='vbad' and f[1]==k[1]))
                n.add(('vec',k[1]))
        else: n.add(('ok',k))
        # what was copied from it
        n=set(f for f in n if not(f[0]=='vbad' and f[2]==k))
        return frozenset(n)
    def edge(s,F,b,t,facts,ts):
        fn=s.fn;term=fn.blocks[b][-1]
        if term.op=='br' and term.o and term.d['succ'][0]!=term.d['succ'][1]:
            v=term.d['succ'][0]==t
            q=s.compared(term.o[0],v)
            if q is not None:
                hk=s.nameof(q[0],ts)
                if hk is not None and q[1] in s.consts: ts=ts|{('nne',hk,q[1])}
            for x,val in s.atoms(term.o[0],v,0,{f[1]:f[2] for f in ts if f[0]=='eqv'}):
                for k in s.excludes(x,val): ts=s.valid(ts,k)
                if s.need:
                    for k,n in s.counted(x,val):
                        ts=s.learn(ts,k,n)
        elif term.op=='switch':
            f=s.field(term.o[0])
            if f is not None and f[0] is not None:
                vs=[v for v,tt in term.d['cases'] if tt==t]
                inv=INVALID[f[1]]
                if t!=term.d['default'] and inv not in vs or t==term.d['default'] and inv in [v for v,tt in term.d['cases']] and inv not in vs: ts=s.valid(ts,f[0])
        # lookups that are now decided
        for f in sorted(ts,key=str):
            if f[0]=='pend':
                v=facts.get(f[2])
                if v is None: continue
                ok=v in(1,-1) or v==('ne',0)
                if ok: ts=s.setst(ts,f[1],'ok')
                elif v==0:
                    ts=frozenset(g for g in ts if g!=f)|{('badat',f[1],'looked up at %s, which failed'%fn.inst[f[2]].loc)}
            elif f[0]=='abq':
                v=facts.get(f[3])
                if v is None: continue
                ts=frozenset(g for g in ts if g!=f)
                if v==0: ts=ts|{('abs',f[1],f[2])}
        # flags that keep the outcome of a test
        for x,o in s.flags(b,t):
            ts=frozenset(f for f in ts if not(f[0]=='eqv' and f[1]==x))
            if o is None: continue
            if s.fn.inst[o].op=='phi':
                e=[f[2] for f in ts if f[0]=='eqv' and f[1]==o]
                if not e: continue
                o=e[0]
            ts=ts|{('eqv',x,o)}
        # a new round of a loop: elements selected by the old index are no longer known
        ph={x.id for x in fn.blocks[t] if x.op=='phi'}
        if ph:
            der=s.derived(t,ph)
            ts=frozenset(f for f in ts if not(f[0]=='eok' and isinstance(f[2],tuple) and f[2][0]=='i' and f[2][1] in der) and not(f[0] in('ok','badat','pend') and isinstance(f[1],tuple) and f[1][0]=='e' and isinstance(f[1][2],tuple) and f[1][2][0]=='i' and f[1][2][1] in der))
        ts=frozenset(f for f in ts if not(f[0]=='eok' and f[2]=='it' and len(fn.pred[t])>1))
        return ts
    def compared(s,o,val):
        """(string operand, constant) when o being val means that they differ"""
        fn=s.fn;o=strip(fn,o)
        for _ in range(4):
            if o[0]!='i': return None
            x=fn.inst[o[1]]
            if x.op=='xor' and x.o[1][0]=='c': o=strip(fn,x.o[0]);val=not val;continue
            if x.op=='icmp' and x.o[1][0]=='c' and x.o[1][1]==0 and x.d['pred'] in('eq','ne') and strip(fn,x.o[0])[0]=='i' and fn.inst[strip(fn,x.o[0])[1]].op in('call','invoke'):
                y=fn.inst[strip(fn,x.o[0])[1]];n=fn.callee(y)
                if re.search(r'::compare$|^strcmp$',n): differ=(x.d['pred']=='ne')==val
                elif n=='std::operator==': differ=(x.d['pred']=='eq')==val
                elif n=='std::operator!=': differ=(x.d['pred']=='ne')==val
                else: return None
                break
            if x.op in('call','invoke') and fn.callee(x) in('std::operator==','std::operator!='):
                y=x;differ=(fn.callee(x)=='std::operator!=')==val;break
            return None
        else: return None
        if not differ or len(y.o)<2: return None
        for a,b in((y.o[0],y.o[1]),(y.o[1],y.o[0])):
            k=s.N.kind(b)
            if k is not None and k[0]=='str': return a,k[1]
        return None
    def flags(s,b,t):
        m=s.__dict__.setdefault('_flags',{})
        if m.get('own') is None:
            # phis whose value may be the outcome of a test of a handle
            own=set();ch=True
            while ch:
                ch=False
                for x in s.fn.insts():
                    if x.op!='phi' or x.id in own: continue
                    for p,v in x.d['in']:
                        v=strip(s.fn,v)
                        if v[0]!='i': continue
                        if v[1] in own or any(s.counted(y,w) or s.excludes(y,w) for tv in(True,False) for y,w in s.atoms(v,tv)): own.add(x.id);ch=True;break
            m['own']=own
        if (b,t) not in m:
            out=[]
            for x in s.fn.blocks[t]:
                if x.op!='phi': break
                if x.id not in m['own']: continue
                v=[strip(s.fn,v) for p,v in x.d['in'] if p==b]
                out.append((x.id,v[0][1] if v and v[0][0]=='i' else None))
            m[(b,t)]=out
        return m[(b,t)]
    def derived(s,t,ph):
        m=s.__dict__.setdefault('_der',{})
        if t not in m:
            d=set(ph);ch=True
            while ch:
                ch=False
                for x in s.fn.insts():
                    if x.id in d or x.op not in('add','sub','zext','sext','trunc'): continue
                    if any(o[0]=='i' and o[1] in d for o in x.o): d.add(x.id);ch=True
            m[t]=d
        return m[t]

T_SWAP={'eq':'eq','ne':'ne','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}

def analyse(c,p,only=None):
    summ={}
    n=0
    for fn in p.fns:
        if not fn.blocks or not fn.file or not re.match(r'src/(lib|tools)/',fn.file): continue
        if only and not only(fn): continue
        if not any(ADD.match(fn.callee(i)) or GET.match(fn.callee(i)) or USE.match(fn.callee(i)) or BIND.match(fn.callee(i)) for i in fn.calls()): continue
        if re.match(r'^Partio::(ParticleHeaders|ParticleIterator|ParticleAccessor|Helper)::',fn.short): continue
        # what the handles are made of; callers answer for the handle they pass
        if re.match(r'^Partio::Particles\w+::',fn.short) and not any(GET.match(fn.callee(i)) or ADD.match(fn.callee(i)) for i in fn.calls()): continue
        for noflags in(False,True):
            a=An(c,fn,p,summ)
            if noflags: a.flags=lambda b,t: []
            try: CFlow(fn,a).run(frozenset());break
            except AnalysisBroken as e: a=None;why=e
        if a is None:
            c.und('handle use','%s: %s'%(fn.short,why));continue
        c.touch(fn);n+=1
        yield fn,a

def run(c):
    c.rule('the handle an addAttribute, addFixedAttribute or attributeInfo call leaves is used (data, strings, accessors) only on paths where the call cannot have failed or the handle was tested')
    p=c.view('inl')
    for fn,a in analyse(c,p): report(c,fn,a)
    for tool in('partattr','partinfo','partconvert'):
        src=extract.REPO+'/src/tools/%s.cpp'%tool
        if not os.path.exists(src): continue
        q=c.view('inl',sources=extract.lib_sources()+[src],tag='lib+'+tool)
        for fn,a in analyse(c,q,lambda f:f.file.startswith('src/tools/')): report(c,fn,a,tool+' ')

def report(c,fn,a,tag=''):
    for k,(st,need,at,path) in a.short.items():
        i=fn.inst[k]
        what='%s%s: %d components through %s'%(tag,fn.short,(need+3)//4,i.loc)
        if st=='bad':
            c.bad('%s%s components at %s'%(tag,fn.short,at.loc.rsplit(':',1)[0].split('/')[-1]+'#%d'%need) ,'%d components of an attribute are used whose count was not tested'%((need+3)//4),at.loc,'component use',path)
        elif st=='ok': c.ok('component use',what)
        else: c.und('component use',what)
    cnt=collections.Counter()
    for k,x in a.used.items():
        i=fn.inst[k[1]]
        if k[0]=='add':
            continue
        n=fn.callee(i).split('::')[-1]
        cnt[n]+=1
        what='%s%s: %s of %s'%(tag,fn.short,n,i.loc)
        if x[0]=='bad':
            c.bad('%s%s %s'%(tag,fn.short,n)+('' if cnt[n]==1 else ' #%d'%cnt[n]),'%s uses an invalid handle: %s'%(n,x[1]),i.loc,'handle use',x[2])
        elif x[0]=='ok': c.ok('handle use',what)
        else: c.und('handle use',what)
