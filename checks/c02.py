"""C02: what a header-only read declares does not depend on the mode (non-interference)."""
from util import *
from obj import *
from c11 import unver
import c12

SCHEMA=re.compile(r'^virt:\w+::(addAttribute|addFixedAttribute|addParticles?)$')
MK=re.compile(r'^(operator new|Partio::create\w*|Partio::\w+::clone\w*)$')
SOP=re.compile(r'^(std::(basic_)?(istream|ifstream|iostream)::(?!tellg|eof|gcount|peek|good|fail|bad|rdbuf)\w+|std::operator_shr|std::getline|std::basic_ios::(clear|setstate))$')

class Graph(object):
    """the flow graph of one reader without the ways out that return null; blocks that only
    dispatch on a constant chosen by a predecessor (clean-up code) are split per choice"""
    CAP=6000
    def __init__(s,fn):
        s.fn=fn
        s.K=s.choice()
        s.nodes=[];s.idx={};s.sc=[]
        st=[s.node(0,())]
        while st:
            n=st.pop();b,env=s.nodes[n]
            for t,e in s.step(b,env):
                k=(t,e)
                if k not in s.idx:
                    m=s.node(t,e);st.append(m)
                    if len(s.nodes)>s.CAP: raise AnalysisBroken('%s: too many states'%fn.short)
                if s.idx[k] not in s.sc[n]: s.sc[n].append(s.idx[k])
        # drop ways out that give no particle set
        good=set()
        for n,(b,env) in enumerate(s.nodes):
            t=fn.blocks[b][-1]
            if t.op=='ret' and s.val(t.o[0],dict(env))!='null': good.add(n)
        pred=[[] for _ in s.nodes]
        for n,ss in enumerate(s.sc):
            for t in ss: pred[t].append(n)
        live=set();w=list(good)
        while w:
            x=w.pop()
            if x in live: continue
            live.add(x);w.extend(pred[x])
        s.live=live;s.rets=good
        s.succ=[[t for t in ss if t in live] if n in live else [] for n,ss in enumerate(s.sc)]
        s.pred=[[p for p in pred[n] if p in live] if n in live else [] for n in range(len(s.nodes))]
        s._pdom()
        s._cdep()
    def node(s,b,env):
        s.idx[(b,env)]=len(s.nodes);s.nodes.append((b,env));s.sc.append([]);return len(s.nodes)-1
    def choice(s):
        """phis of constants that decide a branch or whether null is returned"""
        fn=s.fn;K=set();w=[]
        def roots(o):
            x=fn.val(o)
            if x is None: return
            if x.op=='phi': w.append(x)
            elif x.op in('icmp','trunc','zext','xor','freeze'):
                for q in x.o: roots(q)
        for i in fn.insts():
            if i.op in('br','switch','ret') and i.o: roots(i.o[0])
        seen=set()
        while w:
            x=w.pop()
            if x.id in seen: continue
            seen.add(x.id)
            vs=[v for b,v in x.d['in']]
            if x.bb in fn.loops: continue
            if any(v[0] in('c','n') for v in vs): K.add(x.id)
            for v in vs:
                y=fn.val(v)
                if y is not None and y.op=='phi': w.append(y);K.add(x.id)
        # a null that reaches the return through further phis
        return K
    def val(s,o,env):
        if o[0]=='c': return o[1]
        if o[0]=='n': return 'null'
        if o[0]=='z': return 0
        x=s.fn.val(o)
        if x is None: return None
        if x.op=='phi': return env.get(x.id)
        if x.op in('trunc','zext','sext','freeze'): return s.val(x.o[0],env)
        if x.op=='icmp':
            a,b=s.val(x.o[0],env),s.val(x.o[1],env)
            if isinstance(a,int) and isinstance(b,int):
                return {'eq':a==b,'ne':a!=b}.get(x.d['pred'])
            return None
        if x.op=='xor':
            a,b=s.val(x.o[0],env),s.val(x.o[1],env)
            if isinstance(a,int) and b in(1,-1): return not a
        return None
    def step(s,b,env):
        fn=s.fn;e=dict(env);t=fn.blocks[b][-1]
        outs=fn.succ[b]
        if t.op=='br' and t.o:
            v=s.val(t.o[0],e)
            if v is not None and not isinstance(v,str): outs=[t.d['succ'][0 if v else 1]]
        elif t.op=='switch':
            v=s.val(t.o[0],e)
            if isinstance(v,int):
                outs=[t.d['default']]
                for c,d in t.d['cases']:
                    if c==v: outs=[d]
        for x in outs:
            e2=dict(e)
            for i in fn.blocks[x]:
                if i.op!='phi': break
                e2.pop(i.id,None)
                if i.id in s.K:
                    for p,v in i.d['in']:
                        if p==b:
                            r=s.val(v,e)
                            if r is not None: e2[i.id]=r
            L=s.livein(x)
            yield x,tuple(sorted((k,v) for k,v in e2.items() if k in L))
    def livein(s,b):
        if not hasattr(s,'_li'):
            fn=s.fn;n=len(fn.blocks);use=[set() for _ in range(n)];de=[set() for _ in range(n)];pin=[collections.defaultdict(set) for _ in range(n)]
            def phis(o,acc):
                x=fn.val(o)
                if x is None: return
                if x.op=='phi': acc.add(x.id)
                elif x.op in('icmp','trunc','zext','xor','freeze'):
                    for q in x.o: phis(q,acc)
            for bi,L in enumerate(fn.blocks):
                for i in L:
                    if i.op=='phi':
                        de[bi].add(i.id)
                        for p,v in i.d['in']: phis(v,pin[bi][p])
                t=L[-1]
                if t.op in('br','switch','ret') and t.o: phis(t.o[0],use[bi])
            li=[set() for _ in range(n)];ch=True
            while ch:
                ch=False
                for bi in range(n-1,-1,-1):
                    out=set(use[bi])
                    for t in fn.succ[bi]: out|=(li[t]-de[t])|pin[t].get(bi,set())
                    new=out
                    if new!=li[bi]: li[bi]=new;ch=True
            s._li=[li[b]|de[b] for b in range(n)]
            # a phi is live in its own block as long as something later uses it
            s._li=[{k for k in li[b]} for b in range(n)]
        return s._li[b]
    def _pdom(s):
        order=[];seen={-1}
        rs=lambda n: sorted(s.rets) if n==-1 else s.pred[n]
        st=[(-1,iter(rs(-1)))]
        while st:
            n,it=st[-1]
            for m in it:
                if m not in seen: seen.add(m);st.append((m,iter(rs(m))));break
            else: order.append(n);st.pop()
        pred={b:list(s.succ[b]) for b in range(len(s.nodes))}
        for e in s.rets: pred[e]=[-1]
        pred[-1]=[]
        s.pdom=_idom(order[::-1],pred,-1)
    def _cdep(s):
        cd=collections.defaultdict(set)
        for a in s.live:
            ss=s.succ[a]
            if len(ss)<2: continue
            stop=s.pdom.get(a,-1)
            for t in ss:
                x=t
                while x!=stop and x!=-1:
                    cd[x].add((a,t))
                    nx=s.pdom.get(x,-1)
                    if nx==x: break
                    x=nx
        s.cd=cd;s._cl={}
    def closure(s,n):
        if n not in s._cl:
            out=set();st=[n];seen={n}
            while st:
                x=st.pop()
                for (a,t) in s.cd[x]:
                    out.add((a,t))
                    if a not in seen: seen.add(a);st.append(a)
            s._cl[n]=out
        return s._cl[n]
    def reach(s,n):
        seen=set();st=[n]
        while st:
            x=st.pop()
            if x in seen: continue
            seen.add(x);st.extend(s.succ[x])
        return seen

from core import _idom

# ---------------------------------------------------------------- amounts of input
def padd(a,b,k=1):
    r=dict(a)
    for m,c in b.items():
        r[m]=r.get(m,0)+k*c
        if not r[m]: del r[m]
    return r
def pmul(a,b):
    r={}
    for m,c in a.items():
        for n,d in b.items():
            k=tuple(sorted(m+n,key=repr));r[k]=r.get(k,0)+c*d
            if not r[k]: del r[k]
    return r
def poly(t,sub):
    if t[0]=='const': return {():t[1]} if t[1] else {}
    if t[0] in('add','sub') and len(t)==3: return padd(poly(t[1],sub),poly(t[2],sub),1 if t[0]=='add' else -1)
    if t[0]=='mul' and len(t)==3: return pmul(poly(t[1],sub),poly(t[2],sub))
    if t[0]=='shl' and len(t)==3 and t[2][0]=='const': return pmul(poly(t[1],sub),{():1<<t[2][1]})
    if t[0]=='or' and len(t)==3 and t[2]==('const',0): return poly(t[1],sub)
    r=sub(t)
    if r is not None: return r
    return {(noid(t),):1}
def pshow(p,fn):
    if not p: return '0'
    return ' + '.join('*'.join(([str(c)] if c!=1 or not m else [])+[show(x,fn,4) for x in m]) for m,c in sorted(p.items(),key=repr))

class Undecided(Exception): pass

class Reader(object):
    def __init__(s,c,f,arg):
        s.c=c;s.f=f;s.arg=arg;s.T=Terms(f);s.RT=RTerms(f);s.G=Graph(f)
        s.name=f.short.split('::')[-1]
        s.bn=collections.defaultdict(list)
        for n in s.G.live: s.bn[s.G.nodes[n][0]].append(n)
        s.taint()
    # ------------------------------------------------------------------ taint
    def taint(s):
        f=s.f;G=s.G
        s.hard=set();s.soft=set()       # instructions whose value depends on the mode
        changed=True;rounds=0
        while changed and rounds<20:
            changed=False;rounds+=1
            s.modes={}
            for n in G.live:
                t=f.blocks[G.nodes[n][0]][-1]
                if len(G.succ[n])>1 and t.o:
                    k=s.kind(t.o[0])
                    if k: s.modes[n]=k
            s.D={n:frozenset((a,t) for a,t in G.closure(n) if a in s.modes) for n in G.live}
            s.BD={}
            for b,ns in s.bn.items():
                s.BD[b]=frozenset.intersection(*[s.D[n] for n in ns]) if ns else frozenset()
            for b,L in enumerate(f.blocks):
                if b not in s.bn: continue
                for i in L:
                    k=s.tainted(i)
                    if k=='hard' and i.id not in s.hard: s.hard.add(i.id);changed=True
                    elif k=='soft' and i.id not in s.soft and i.id not in s.hard: s.soft.add(i.id);changed=True
    def kind(s,o):
        if o[0]=='a' and o[1]==s.arg: return 'hard'
        if o[0]=='i': return 'hard' if o[1] in s.hard else 'soft' if o[1] in s.soft else None
        return None
    def worst(s,ks):
        ks=list(ks)
        return 'hard' if 'hard' in ks else 'soft' if 'soft' in ks else None
    def isobj(s,i):
        """a phi/select choosing between freshly made particle sets"""
        vs=[v for b,v in i.d['in']] if i.op=='phi' else i.o[1:]
        for v in vs:
            x=s.f.val(v)
            if x is None or x.op not in('call','invoke') or not MK.match(s.f.callee(x)): return False
        return bool(vs)
    def tainted(s,i):
        f=s.f;G=s.G
        if i.op=='phi':
            if i.d['t']=='ptr' and s.isobj(i): return None
            k=s.worst(s.kind(v) for b,v in i.d['in'])
            if k: return k
            if len({tuple(map(str,v)) for b,v in i.d['in']})<2: return None
            for n in s.bn[i.bb]:
                edges=[]
                for p in G.pred[n]:
                    pb=G.nodes[p][0]
                    e=set(s.D[p])
                    if p in s.modes: e.add((p,n))
                    for b,v in i.d['in']:
                        if b==pb: edges.append((e-s.D[n],tuple(map(str,v))))
                found=[s.modes[m] for e,v in edges for (m,t) in e if any(v2!=v and (m,t) not in e2 for e2,v2 in edges)]
                if found: return s.worst(found)
            # split clean-up blocks: compare the incoming edges of all copies
            return None
        if i.op=='select':
            if i.d['t']=='ptr' and s.isobj(i): return None
            k=s.kind(i.o[0])
            return s.worst([k]+[s.kind(o) for o in i.o[1:]])
        if i.op=='load':
            k=s.kind(i.o[0])
            if k: return k
            a=s.T.op(i.o[0]);r,p=split(a)
            if r[0]=='alloca': return s.memdef(a,i)
            return None
        if i.op in('call','invoke'):
            n=f.callee(i)
            if SCHEMA.match(n) or n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'): return None
            k=s.worst(s.kind(o) for o in i.o)
            if k: return k
            for o in i.o:
                a=s.T.op(o);r,p=split(a)
                if r[0]=='alloca' and not s.isstream(r) and s.memdef(a,i): return 'soft'
            return None
        if i.op in('br','switch','ret','alloca','store'): return None
        return s.worst(s.kind(o) for o in operands(i))
    def isstream(s,r):
        return r[0]=='alloca' and re.search(r'unique_ptr|stream',s.f.inst[r[1]].d.get('aty',''))
    def memdef(s,a,at):
        """does a value stored only in one mode reach this read?"""
        k=None
        for d in s.RT.mem.defs(a,at):
            if d[0]=='entry' or d[1].bb not in s.BD: continue
            x=d[1]
            if any(s.D[n]-D2 for n in s.bn[x.bb] for D2 in [s.D[m] for m in s.bn[at.bb]][:1]): 
                # written under a mode the read is not under
                k=s.worst([k,'hard' if d[0]=='store' else 'soft'])
            elif d[0]=='store': k=s.worst([k,s.kind(x.o[0])])
            elif SCHEMA.match(s.f.callee(x)) : pass
            else: k=s.worst([k]+['soft' for o in x.o if s.kind(o)])
        return k
    # ------------------------------------------------------------------ schema operations
    def schema(s):
        f=s.f;ops=[i for i in f.calls() if SCHEMA.match(f.callee(i)) and i.bb in s.bn]
        side=lambda i: frozenset((G.nodes[m][0],G.nodes[t][0]) for n in s.bn[i.bb] for m,t in s.D[n])
        G=s.G;done=set();out=[]
        for i in ops:
            m=f.callee(i).split('::')[-1]; args=[o for k,o in enumerate(i.o) if k!=i.d.get('sret',-1)][1:]
            if i.d.get('sret') is None and f.callee(i).split('::')[-1] in('addAttribute','addFixedAttribute'): args=i.o[2:]
            out.append((i,m,args,side(i)))
        for i,m,args,sd in out:
            what='%s %s(%s)'%(s.name,m,', '.join(show(s.RT.op(a),f,3) for a in args))
            key='%s:%s:%s'%(s.name,m,','.join(show(noid(s.T.op(a)),f,2) for a in args)[:80])
            modes={s.modes[mm] for n in s.bn[i.bb] for mm,t in s.D[n]}
            if sd:
                # the same declaration on the other side
                hb={m0 for m0,t0 in sd}
                cand=[x for x in out if x[1]==m and x[0] is not i and x[3] and {a for a,b in x[3]}==hb and x[3]!=sd and f.loops_of(x[0].bb)==f.loops_of(i.bb)]
                same=[x for x in cand if [noid(s.RT.op(a)) for a in x[2]]==[noid(s.RT.op(a)) for a in args]]
                if same: s.c.ok('declaration independent of the mode',what+' made alike in both modes');continue
                if cand: 
                    consts=lambda A:[t for t in(s.RT.op(a) for a in A) if t[0] in('const','str')]
                    def variant(a,b):
                        """a is b, except on some way where it is a constant"""
                        x=f.val(a)
                        if x is None or x.op!='phi' or any(x.bb==h for h in f.loops_of(x.bb)): return False
                        vs=[v for _,v in x.d['in']]
                        return any(v==b for v in vs) and any(v[0]=='c' and v!=b for v in vs)
                    if len(cand)==1 and len(args)==len(cand[0][2]) and any(variant(a,b) or variant(b,a) for a,b in zip(args,cand[0][2])):
                        s.c.bad(key,'%s: %s is given another value in one of the two modes'%(f.short,m),i.loc,'declaration independent of the mode')
                    elif len(cand)==1 and [s.RT.op(a)[0] for a in cand[0][2]]==[s.RT.op(a)[0] for a in args] and consts(args)!=consts(cand[0][2]):
                        s.c.bad(key,'%s: %s differs between the two modes'%(f.short,m),i.loc,'declaration independent of the mode')
                    else: s.c.und('declaration independent of the mode',what)
                    continue
                if 'hard' in modes:
                    s.c.bad(key,'%s: %s is done in only one of full and header-only reading'%(f.short,what),i.loc,'declaration independent of the mode',
                      ['%s -> %s'%(f.blocks[a][-1].loc,f.blocks[b][0].loc) for a,b in sorted(sd)])
                else: s.c.und('declaration independent of the mode',what)
                continue
            ks=[(a,s.kind(a)) for a in args if s.kind(a)]
            for a in args:
                r,p=split(s.T.op(a))
                if r[0]=='alloca' and s.memdef(s.T.op(a),i): ks.append((a,'soft'))
            if any(k=='hard' for a,k in ks):
                s.c.bad(key,'%s: %s is given a value that depends on whether only headers are read'%(f.short,what),i.loc,'declaration independent of the mode')
            elif ks: s.c.und('declaration independent of the mode',what)
            else: s.c.ok('declaration independent of the mode',what)
        return out
    # ------------------------------------------------------------------ input consumed
    def sub(s,t):
        f=s.f
        if t[0]=='call' and re.match(r'virt:\w+::numParticles$',t[1]) and len(t)>3:
            n=s.count(f.inst[t[3]].bb)
            if n is not None: return n
        return None
    def count(s,b):
        """the number of particles at block b: the one addition that dominates it, if no other reaches it"""
        f=s.f
        ap=[i for i in f.calls() if re.match(r'virt:\w+::addParticles?$',f.callee(i)) and b in f.reach(i.bb)]
        if len(ap)==1 and f.callee(ap[0]).endswith('addParticles') and not f.loops_of(ap[0].bb) and f.dominates(ap[0].bb,b): return poly(s.RT.op(ap[0].o[-1]),s.sub)
        return None
    def N(s,b):
        n=s.count(b)
        if n is None: raise Undecided('number of particles')
        return n
    def amount(s,blocks,m,t):
        """bytes taken from the input by the blocks controlled by the edge m->t"""
        f=s.f;tot={}
        used=False
        for b in sorted(blocks):
            for i in f.blocks[b]:
                if i.op not in('call','invoke'): continue
                n=f.callee(i)
                if not SOP.match(n): continue
                if not s.onstream(i): continue
                used=True
                mn=n.split('::')[-1]
                if mn=='read': a=s.RT.op(i.o[2])
                elif mn=='ignore': a=s.RT.op(i.o[1])
                elif mn=='get' and len(i.o)==2: a=('const',1)
                else: raise Undecided(n)
                hs=[h for h in f.loops_of(b) if h in blocks]
                # executed once per iteration of the innermost loop
                for (q,tt) in f.cdep_closure(b):
                    if q in blocks and q not in s.pureb and not(any(q in f.loops[h] and any(x not in f.loops[h] for x in f.succ[q]) for h in hs)):
                        raise Undecided('conditional input at %s'%i.loc)
                p=None
                if hs:
                    dr=s.drain(hs[-1],i,a)
                    if dr is not None: p=dr;hs=hs[:-1]
                if p is None: p=poly(a,s.sub)
                for h in hs[::-1]: p=pmul(p,s.trips(h))
                tot=padd(tot,p)
        return tot,used
    def onstream(s,i):
        for o in i.o[:1]:
            t=s.T.op(o)
            for x in atoms(t):
                if x[0]=='alloca' and s.isstream(x): return True
                if x[0]=='deref': return True
        return False
    def exits(s,h):
        f=s.f;body=f.loops[h];out=[]
        for b in body:
            for t in f.succ[b]:
                if t not in body: out.append((b,t))
        return out
    def trips(s,h):
        f=s.f
        # for(it=begin; it!=end; ++it)
        ex=[]
        for b,t in s.exits(h):
            br=f.blocks[b][-1]
            if br.op!='br' or not br.o: raise Undecided('loop exit')
            c,pol=norm_cond(s.RT.op(br.o[0]),br.d['succ'][0]==t)
            if c[0]=='call' and re.search(r'basic_ios::(operator bool|operator!|good|fail|eof|bad)$',c[1]): continue   # stops when the input failed
            ex.append((b,c,pol))
        if len(ex)!=1: raise Undecided('loop with %d exits'%len(ex))
        b,c,pol=ex[0]
        if c[0]=='call' and re.search(r'ParticleIterator::operator(!=|==)$',c[1]):
            inc=[i for x in f.loops[h] for i in f.blocks[x] if i.op in('call','invoke') and f.callee(i).endswith('ParticleIterator::operator++')]
            if len(inc)==1 and f.loops_of(inc[0].bb)==f.loops_of(h): return s.N(h)
            raise Undecided('iterator loop')
        cn,other=trip(f,s.RT,h)
        cn=[x for x in cn if x[0]==b]
        if len(cn)!=1: raise Undecided('loop at %s'%f.blocks[h][-1].loc)
        return poly(cn[0][1],s.sub)
    def drain(s,h,i,a):
        """while(v>0){ take min(v,k); v-=what was taken (or k); } takes v in all"""
        f=s.f
        mins=set()
        def ismin(t,v):
            if t[0]=='select' and t[1][0]=='cmp':
                p,x,y=t[1][1:];A,B=t[2],t[3]
                if noid(x)==noid(B) and noid(y)==noid(A): x,y=y,x;p=SWAP[p]
                if noid(x)==noid(A) and noid(y)==noid(B) and p in('slt','ult','sle','ule'):
                    if A==v: return B
                    if B==v: return A
            if t[0]=='call' and re.match(r'llvm\.[us]min',t[1]):
                if t[2][0]==v: return t[2][1]
                if t[2][1]==v: return t[2][0]
            return None
        body=f.loops[h]
        for x in f.blocks[h]:
            if x.op!='phi': break
            v=('phi',x.id)
            ini=[w for b,w in x.d['in'] if b not in body];lat=[w for b,w in x.d['in'] if b in body]
            if len(ini)!=1 or not lat: continue
            d=None;good=True
            for w in lat:
                t=s.RT.op(w)
                if t[0]=='sub' and t[1]==v: e=t[2]
                elif t[0]=='add' and t[1]==v and t[2][0]=='const' and t[2][1]<0: e=('const',-t[2][1])
                else: good=False;break
                if d is not None and noid(d)!=noid(e): good=False
                d=e
            if not good or d is None: continue
            k=ismin(a,v)
            if not(k is not None and (noid(d)==noid(a) or noid(d)==noid(k)) or (noid(d)==noid(a) and a==('const',1))): continue
            cond=False
            for b,t in s.exits(h):
                br=f.blocks[b][-1]
                if br.op!='br' or not br.o: cond=None;break
                c,pol=norm_cond(s.RT.op(br.o[0]),br.d['succ'][0]!=t)
                if c[0]=='call' and re.search(r'basic_ios::(operator bool|operator!|good|fail|eof|bad)$',c[1]): continue
                if c[0]=='cmp':
                    pr=c[1] if pol else NEG[c[1]];p,q=c[2],c[3]
                    if p[0]=='const': p,q=q,p;pr=SWAP[pr]
                    if p==v and q==('const',0) and pr in('sgt','ugt','ne'): cond=True;continue
                    if p==v and q==('const',1) and pr in('sge','uge'): cond=True;continue
                cond=None;break
            if cond: 
                s.narrow.append((ini[0],x))
                return poly(s.RT.op(ini[0]),s.sub)
        return None
    def wraps(s,o):
        """a product of two run-time values computed in 32 bits"""
        st=[o];seen=set()
        while st:
            x=s.f.val(st.pop())
            if x is None or x.id in seen: continue
            seen.add(x.id)
            if x.op=='mul' and x.d['t']=='i32' and all(s.T.op(q)[0]!='const' for q in x.o): return x
            if x.op in('mul','add','sub','shl','zext','sext','trunc','phi','select'): st.extend(q for q in operands(x))
        return None
    def rounded(s,A,B):
        """side A takes a quotient of something side B takes whole, and nothing checks that nothing is left over"""
        f=s.f
        def subs(t):
            yield t
            if isinstance(t,tuple):
                for x in t:
                    if isinstance(x,tuple):
                        for y in subs(x): yield y
        whole={noid(b) for b in B}
        for a in A:
            for t in subs(a):
                if len(t)==3 and t[0] in('udiv','sdiv') and noid(t[1]) in whole:
                    if any(i.op in('urem','srem') and noid(s.RT.op(i.o[0]))==noid(t[1]) for i in f.insts()): continue
                    return t
        return None
    def side(s,m,h):
        """the successor taken at mode branch m when headersOnly is h"""
        f=s.f
        def ev(o):
            if o[0]=='a' and o[1]==s.arg: return h
            if o[0]=='c': return o[1]
            x=f.val(o)
            if x is None: return None
            if x.op in('zext','trunc','freeze'): return ev(x.o[0])
            if x.op=='phi' and len({tuple(map(str,v)) for b,v in x.d['in']})==1: return ev(x.d['in'][0][1])
            if x.op in('icmp','xor'):
                a,b=ev(x.o[0]),ev(x.o[1])
                if a is None or b is None: return None
                if x.op=='xor': return (a^b)&1
                return {'eq':a==b,'ne':a!=b}.get(x.d['pred'])
            return None
        b=s.G.nodes[m][0];br=f.blocks[b][-1]
        if br.op!='br': return None
        v=ev(br.o[0])
        if v is None: return None
        t=br.d['succ'][0 if v else 1]
        for n in s.G.succ[m]:
            if s.G.nodes[n][0]==t: return n
        return None
    def has(s,n,what):
        return any(i.op in('call','invoke') and what(i) for i in s.f.blocks[s.G.nodes[n][0]])
    def early(s,pure,isin):
        """a loop that takes input and is left early in only one mode"""
        f=s.f;G=s.G;out=set()
        B=lambda n: G.nodes[n][0]
        for m in pure:
            for h in f.loops_of(B(m)):
                body=f.loops[h]
                if not any(isin(i) for b in body for i in f.blocks[b] if i.op in('call','invoke')): continue
                R=[]
                for v in(0,1):
                    N=set();E=set();st=[s.side(m,v)]
                    while st:
                        x=st.pop()
                        if x in N: continue
                        if B(x) not in body: E.add(x);continue
                        if B(x)==h: continue
                        N.add(x)
                        for y in G.succ[x]: st.append(y)
                    if B(s.side(m,v)) not in body: N=set();E={s.side(m,v)}
                    R.append((N,E))
                for v in(0,1):
                    P=R[v][0]-R[1-v][0];Q=R[1-v][0]-R[v][0]
                    ex=[(x,y) for x in P for y in G.succ[x] if B(y) not in body]+([(m,s.side(m,v))] if B(s.side(m,v)) not in body else [])
                    oth=[(x,y) for x in Q for y in G.succ[x] if B(y) not in body] or B(s.side(m,1-v)) not in body
                    if not ex or oth: continue
                    # nothing goes on after the loop, or nothing is declared there
                    if not any(s.has(n,lambda i: SCHEMA.match(f.callee(i))) for x,y in ex for n in G.reach(y)): continue
                    norm=set()
                    for b,t in s.exits(h):
                        for n in G.idx.values():
                            if n in G.live and B(n)==b and not any(n==x for x,_ in ex):
                                for y in G.succ[n]:
                                    if B(y)==t: norm|={y}|set(G.reach(y))
                    priv=set(P)
                    for x,y in ex: priv|={n for n in {y}|set(G.reach(y)) if n not in norm}
                    cl=set()
                    for x,y in ex:
                        br=f.blocks[B(x)][-1]
                        cl|={q for q,t in f.cdep_closure(B(x))}|{B(x)}
                    st8=any(f.blocks[q][-1].op=='br' and f.blocks[q][-1].o and any(a[0]=='call' and re.search(r'basic_ios::(operator bool|operator!|good|fail|eof|bad)$',a[1]) for a in s.atoms_of(s.RT.op(f.blocks[q][-1].o[0]))) for q in cl if q in {B(n) for n in P})
                    who='%s at %s'%(s.name,f.blocks[B(m)][-1].loc)
                    out.add(h)
                    if st8 or any(isin(i) for n in priv for i in f.blocks[B(n)] if i.op in('call','invoke')):
                        s.c.und('input left in the same place',who+': a loop left early in one mode');continue
                    s.c.bad('%s:input:loop left early'%s.name,'%s: a loop that takes input is left early in only one of full and header-only reading'%f.short,f.blocks[B(m)][-1].loc,'input left in the same place')
        return out
    def atoms_of(s,t):
        st=[t]
        while st:
            x=st.pop()
            if not isinstance(x,tuple): continue
            if x and isinstance(x[0],str): yield x
            st.extend(y for y in x if isinstance(y,tuple))
    def balance(s):
        f=s.f;G=s.G;done=set()
        isop=lambda i: SCHEMA.match(f.callee(i)) or SOP.match(f.callee(i)) and s.onstream(i)
        hard=sorted(m for m in s.modes if s.modes[m]=='hard')
        pure=[m for m in hard if s.side(m,0) is not None and s.side(m,1) is not None]
        s.pureb={G.nodes[m][0] for m in pure}
        nxt={};inner=set()
        s.early(pure,lambda i: SOP.match(f.callee(i)) and s.onstream(i))
        for m in pure:
            # the mode branch that follows with nothing shared in between
            j=G.pdom.get(m,-1)
            seen=set();st=[j] if j!=-1 else [];hit=set();shared=False
            while st:
                x=st.pop()
                if x in seen: continue
                seen.add(x)
                if s.has(x,isop): shared=True
                if x in s.modes: hit.add(x);continue
                st.extend(G.succ[x])
            if len(hit)==1 and not shared and next(iter(hit)) in pure:
                h=hit.pop()
                y=j
                while y not in(-1,h): y=G.pdom.get(y,-1)
                if y==h and h!=m: nxt[m]=h
        after=set(nxt.values())
        for m0 in hard:
            if m0 in after or m0 in inner: continue
            chain=[m0]
            while chain[-1] in nxt and nxt[chain[-1]] not in chain: chain.append(nxt[chain[-1]])
            m=m0;mb=G.nodes[m][0]
            j=G.pdom.get(chain[-1],-1)
            if j==-1: continue
            if not any(s.has(n,lambda i: SCHEMA.match(f.callee(i))) for n in G.reach(j)): continue
            if mb in done: continue
            done.add(mb)
            s.narrow=[];who='%s at %s'%(s.name,f.blocks[mb][-1].loc)
            key='%s:input:%s'%(s.name,show(noid(s.T.op(f.blocks[mb][-1].o[0])),f,2))
            try:
                parts=[]
                for h in(0,1):
                    L=[];inside=set()
                    for m in chain:
                        t=s.side(m,h)
                        if t is None: raise Undecided('condition at %s'%f.blocks[G.nodes[m][0]][-1].loc)
                        end=G.pdom.get(m,-1);N=set();st=[t]
                        while st:
                            x=st.pop()
                            if x==end or x in N: continue
                            N.add(x)
                            if x in pure: inner.add(x);st.append(s.side(x,h))
                            else: st.extend(G.succ[x])
                        L.append(({G.nodes[n][0] for n in N},m,t))
                    parts.append(L)
                inner-=set(chain)
                for (R,m,t),(R2,m2,t2) in zip(*parts):
                    if any(SOP.match(f.callee(i)) and s.onstream(i) for b in R&R2 for i in f.blocks[b] if i.op in('call','invoke')): raise Undecided('code shared by both modes')
                ops=[[f.callee(i).split('::')[-1] for R,m,t in L for b in sorted(R) for i in f.blocks[b] if i.op in('call','invoke') and SOP.match(f.callee(i)) and s.onstream(i)] for L in parts]
                if not any(ops): s.c.ok('input left in the same place',who+': no input taken in either mode');continue
                if not all(ops) and any(x in('seekg','putback','unget') for q in ops for x in q):
                    s.c.bad(key+':position','%s: the input is repositioned in only one of full and header-only reading'%f.short,f.blocks[mb][-1].loc,'input left in the same place');continue
                ps=[]
                for L in parts:
                    p={}
                    for R,m,t in L: p=padd(p,s.amount(R,m,t)[0])
                    ps.append(p)
            except Undecided as e:
                s.c.und('input left in the same place','%s: %s'%(who,e));continue
            if ps[0]!=ps[1]:
                at=[{x for mm in p for x in mm} for p in ps]
                priv=[at[0]-at[1],at[1]-at[0]]
                opaque=any(y[0] in('phi','maystore','select','call','load','rec') for A in priv for x in A for y in(x[1:] if x[0]=='alt' else [x])) or all(priv)
                msg='%s: full and header-only reading go on at different places of the file: %s bytes against %s'%(f.short,pshow(ps[0],f),pshow(ps[1],f))
                if any(s.rounded(A,B) for A,B in(priv,priv[::-1])): opaque=False
                if opaque: s.c.und('input left in the same place',msg)
                else: s.c.bad(key,msg,f.blocks[mb][-1].loc,'input left in the same place')
                continue
            w=[x for x in(s.wraps(o) for o,_ in s.narrow) if x is not None]
            for L in parts:
                for R,m,t in L:
                    for b in sorted(R):
                        for i in f.blocks[b]:
                            if i.op in('call','invoke') and f.callee(i) in('std::istream::ignore','std::istream::read'):
                                x=s.wraps(i.o[1 if f.callee(i).endswith('ignore') else 2])
                                if x is not None: w.append(x)
            if w: s.c.bad(key+':32 bit','%s: the amount of data skipped is multiplied in 32 bits, so a large file is left at a different place than a full read leaves it'%f.short,w[0].loc,'input left in the same place')
            else: s.c.ok('input left in the same place','%s: %s bytes either way'%(who,pshow(ps[0],f)))

def counting(c,prog):
    """every set counts the particles it is told of, the header-only one included"""
    O=Obj(c,prog)
    for cls in O.classes:
        short=cls.split('::')[-1]
        F=O.field_of(cls,'numParticles')
        if F is None: c.und('particle count',short+'::numParticles');continue
        for name in('addParticle','addParticles'):
            f=O.method(cls,name);it,ps=O.paths(f,cls) if f else (None,None)
            who='%s::%s'%(short,name)
            if ps is None: c.und('particle count',who);continue
            me=O.this(f)
            a=(F[0],me)+F[2:] if F[0]=='fld' and F[1]==('this',) else None
            if a is None: c.und('particle count',who);continue
            n=('const',1) if name=='addParticle' else O.par(f,0)
            for p in ps:
                if p.end!=('ret',): continue
                v=unver(it.load(a,p));w=add(('load',a),n)
                if v==w: c.ok('particle count',who)
                elif any(x[0] not in('lin','const','load','fld','arg') for x in subterms(v)): c.und('particle count',who+' makes it '+fmt(v))
                else: c.bad(who+':count','%s makes the number of particles %s instead of %s'%(who,fmt(v),fmt(w)),'%s:%d'%(f.file,f.line),'particle count')

def run(c):
    c.rule('non-interference: in every reader, no declaration (addAttribute, addFixedAttribute, addParticles) is control- or data-dependent on headersOnly, on any way that returns a particle set; where the modes read differently before a later declaration, both take the same number of bytes')
    c.rule('the two kinds of sets the modes fill record declarations alike (the adders and lookups of each class, as in C12) and count particles alike')
    prog=c.view('inl')
    n=0
    for f in prog.fns:
        m=re.match(r'^Partio::read[A-Z0-9]+$',f.short)
        if not m or len(f.args)!=3 or f.args[1][0] not in('i1','i8') or not f.file.startswith('src/lib/io/') or f.suffix: continue
        c.touch(f)
        R=Reader(c,f,1)
        n+=1
        R.schema();R.balance()
        c.ok('reader analysed',f.short)
    c.need('reader analysed',8)
    c.need('declaration independent of the mode',15)
    counting(c,prog)
    c12.run(c)
