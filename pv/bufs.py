"""Byte offsets of pointers inside the object they were formed from, as intervals.

Extends the interval analysis: a pointer all of whose definitions come from one object of the function
(a local array or struct, or the result of one allocation) is an integer, its distance in bytes from the
start of that object, and is refined on branch edges the same way; the value last stored to or loaded
from a fixed place of a local object is kept until something may overwrite it, and a branch on a variable
that was set to a constant on some of the ways into it selects those ways."""
import re
from ranges import *
HEAP=re.compile(r'^(operator new(\[\])?|operator_new(_arr)?|malloc|_Znam|_Znwm)')

def params(dem):
    """parameter types of a demangled name"""
    d=0
    i=dem.rfind(')')
    if i<0: return []
    j=i
    while j>=0:
        if dem[j]==')': d+=1
        if dem[j]=='(':
            d-=1
            if d==0: break
        j-=1
    out=[];cur='';d=0
    for ch in dem[j+1:i]:
        if ch in '<([': d+=1
        if ch in '>)]': d-=1
        if ch==',' and d==0: out.append(cur.strip());cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out

class Bufs(Ranges):
    def prepare(s):
        fn=s.fn
        s.objs={}                       # root id -> (kind, size or size operand)
        roots={}
        for i in fn.insts():
            if i.op=='alloca': s.objs[i.id]=('local',i.d.get('size'));roots[i.id]=i.id
            elif i.op in('call','invoke') and i.d.get('t')=='ptr' and HEAP.match(s.cname(i)):
                s.objs[i.id]=('heap',i.o[0]);roots[i.id]=i.id
        def of(o):
            if o[0]=='i': return roots.get(o[1],'?')
            if o[0] in('n','z','u'): return None
            return 'many'
        ch=True
        while ch:
            ch=False
            for i in fn.insts():
                if i.id in s.objs or i.d.get('t')!='ptr': continue
                if i.op=='getelementptr': src=[i.d['base']]
                elif i.op in('bitcast','freeze'): src=[i.o[0]]
                elif i.op=='phi': src=[v for _,v in i.d['in']]
                elif i.op=='select': src=i.o[1:]
                else: src=None
                if src is None: r='many'
                else:
                    rs={of(o) for o in src}-{'?',None}
                    r='many' if len(rs)>1 or 'many' in rs else (rs.pop() if rs else '?')
                if roots.get(i.id,'?')!=r and roots.get(i.id)!='many': roots[i.id]=r;ch=True
        s.root={k:v for k,v in roots.items() if isinstance(v,int)}
        for k in s.root: s.w[k]=64
        # objects whose address is stored somewhere
        s.esc=set()
        for i in fn.insts():
            if i.op=='store' and i.o[0][0]=='i' and i.o[0][1] in s.root: s.esc.add(s.root[i.o[0][1]])
        s.calls={}
    def cname(s,i):
        try: return s.fn.callee(i) or ''
        except Exception: return ''
    def extra(s):
        e=set()
        for k,(kind,z) in s.objs.items():
            if kind=='local' and isinstance(z,int): e|={z,z-1,z+1}
        return e
    def rootof(s,o): return s.root.get(o[1]) if o[0]=='i' else None
    def calc(s,i,env):
        if i.id in s.known: return s.known[i.id]
        if i.id in s.objs: return (0,0)
        if i.op=='getelementptr':
            b=s.ev(i.d['base'],env)
            if b is None or i.id not in s.root: return top(64)
            lo,hi=b
            for p in i.d['path']:
                if p[0]=='f':
                    lo+=p[4];hi+=p[4]
                else:
                    r=s.ev(p[1],env)
                    if r is None: return top(64)
                    lo+=r[0]*p[2];hi+=r[1]*p[2]
            return s.fit((lo,hi),64)
        if i.op=='sub':
            x=[s.fn.val(o) for o in i.o]
            if all(y is not None and y.op=='ptrtoint' for y in x):
                a,b=(s.rootof(y.o[0]) for y in x)
                if a is not None and a==b:
                    u,v=s.ev(x[0].o[0],env),s.ev(x[1].o[0],env)
                    if u and v: return s.fit((u[0]-v[1],u[1]-v[0]),64)
            if any(y is not None and y.op=='ptrtoint' for y in x): return top(64)
        if i.op in('bitcast','freeze') and i.id in s.root:
            return s.ev(i.o[0],env) or top(64)
        if i.op=='select' and i.id in s.root:
            x,y=s.ev(i.o[1],env),s.ev(i.o[2],env)
            return (min(x[0],y[0]),max(x[1],y[1])) if x and y else top(64)
        if i.op=='ptrtoint': return top(s.w[i.id])
        if i.op=='load':
            k=s.place(i.o[0],env,s.w[i.id])
            if k is not None and ('m',k) in env: return env['m',k]
            m=s.minof(i,env)
            if m is not None: return m
        if i.op in('call','invoke') and re.match(r'llvm\.(u|s)(min|max)',s.cname(i)):
            return s.minmax(s.cname(i)[5]=='u',s.cname(i)[6:9],[s.ev(o,env) for o in i.o],s.w[i.id])
        return Ranges.calc(s,i,env)
    def minmax(s,uns,kind,rs,w):
        if any(r is None for r in rs): return top(w)
        if uns:
            if kind=='min':
                h=[r[1] for r in rs if r[0]>=0]
                return (0,min(h)) if h else top(w)
            if all(r[0]>=0 for r in rs): return (max(r[0] for r in rs),max(r[1] for r in rs))
            return top(w)
        if kind=='min': return (min(r[0] for r in rs),min(r[1] for r in rs))
        return (max(r[0] for r in rs),max(r[1] for r in rs))
    def minof(s,i,env):
        """what std::min(a,b) or std::max(a,b), which return a reference, refers to"""
        x=s.fn.val(i.o[0])
        if x is None or x.op not in('call','invoke') or s.cname(x) not in('std::min','std::max'): return None
        dem=x.d.get('dem','');w=s.w[i.id];rs=[]
        for o in x.o[:2]: rs.append(s.content(o,env,w))
        return s.minmax('unsigned' in dem,s.cname(x)[5:8],rs,w)
    def content(s,o,env,w):
        if o[0]=='g':
            g=s.fn.prog.globals.get(o[1]) if hasattr(s.fn.prog,'globals') else None
            if g and g.get('const') and g.get('init') and g['init'][0]=='c': return (g['init'][1],)*2
            return top(w)
        k=s.place(o,env,w)
        if k is not None and ('m',k) in env: return env['m',k]
        return top(w)
    # places of local objects with a known content
    def place(s,o,env,w):
        r=s.rootof(o)
        if r is None or s.objs[r][0]!='local': return None
        e=s.ev(o,env)
        if e is None or e[0]!=e[1]: return None
        return (r,e[0],w)
    def kill(s,env,root,lo=None,hi=None):
        for k in [k for k in env if isinstance(k,tuple) and k[0] in('m','s')]:
            p=k[-1]
            if p[0]==root and (lo is None or (p[1]<hi and lo<p[1]+max(1,p[2]//8))): del env[k]
    def block(s,b,env):
        for i in s.fn.blocks[b]:
            if i.op=='phi': continue
            if i.id in s.w:
                env[i.id]=s.calc(i,env)
                if i.op=='load':
                    k=s.place(i.o[0],env,s.w[i.id])
                    if k is not None: env['m',k]=env[i.id];env['s',i.id,k]=(0,0)
            if i.op=='store':
                o=i.o[1];r=s.rootof(o);z=i.d.get('size') or 8
                if r is None:
                    for q in s.esc: s.kill(env,q)
                else:
                    e=s.ev(o,env)
                    if e: s.kill(env,r,e[0],e[1]+z)
                    else: s.kill(env,r)
                    v=s.ev(i.o[0],env) if not(i.o[0][0]=='i' and i.o[0][1] in s.root) else None
                    if v and e and e[0]==e[1] and z in(1,2,4,8) and s.objs[r][0]=='local': env['m',(r,e[0],z*8)]=s.fit(v,z*8)
            elif i.op in('call','invoke'):
                n=s.cname(i)
                if re.match(r'llvm\.(lifetime|dbg|assume|umul|smul|uadd|sadd|usub|ssub|[us](min|max)|expect|stack)',n) or n in('std::min','std::max'): continue
                ps=params(i.d.get('dem',''));k0=len(i.o)-len(ps)
                for k,o in enumerate(i.o):
                    r=s.rootof(o)
                    if r is None: continue
                    if k0>=0 and k>=k0 and re.search(r'const ?[*&]$',ps[k-k0]) and r not in s.esc: continue
                    if n.startswith('llvm.memcpy') and k==1 and s.rootof(i.o[0])!=r: continue
                    s.kill(env,r)
                if not n.startswith('llvm.'):
                    for q in s.esc: s.kill(env,q)
        return env
    def meet(s,env,o,lo,hi,d=0):
        n=Ranges.meet(s,env,o,lo,hi,d)
        if n is None or o[0]!='i': return n
        x=s.fn.inst[o[1]]
        if x.op=='load':
            for k in [k for k in n if isinstance(k,tuple) and k[0]=='s' and k[1]==x.id]:
                n=dict(n) if n is env else n
                n['m',k[2]]=n[o[1]]
        if x.op=='getelementptr' and x.id in s.root and d<6 and x.id in n:
            c=0
            for p in x.d['path']:
                if p[0]=='f': c+=p[4]
                elif p[1][0]=='c': c+=p[1][1]*p[2]
                else: return n
            return s.meet(n,x.d['base'],n[x.id][0]-c,n[x.id][1]-c,d+1)
        return n
    def refine(s,o,val,env,d=0):
        if o[0]=='i':
            x=s.fn.inst[o[1]]
            if x.op=='icmp':
                a,b=s.rootof(x.o[0]),s.rootof(x.o[1])
                if (a is not None or b is not None) and a!=b: return env
        return Ranges.refine(s,o,val,env,d)
    def edge(s,b,t,env):
        L=s.fn.blocks[b];term=L[-1]
        if term.op=='br' and term.o and term.d['succ'][0]!=term.d['succ'][1] and L and L[0].op=='phi' and b not in s.fn.loops:
            keep=s.ways(L,term.o[0],t==term.d['succ'][0])
            if keep is not None:
                e=None
                for p in keep:
                    q=s.eo.get((p,b))
                    if q is None: continue
                    e=q if e is None else s.join(e,q)
                if e is None: return None
                env=s.block(b,dict(e))
        return Ranges.edge(s,b,t,env)
    def phied(s,b):
        L=s.fn.blocks[b]
        return b not in s.fn.loops and bool(L) and L[0].op=='phi' and L[-1].op=='br' and bool(L[-1].o)
    def ways(s,L,cond,val):
        """the predecessors from which this branch can go this way, when a phi of constants decides it"""
        x=s.fn.val(cond)
        if x is None or x.bb!=L[0].bb: return None
        if x.op=='phi' and x.d.get('t')=='i1':
            return [p for p,v in x.d['in'] if v[0] not in('c','z') or bool(v[1] if v[0]=='c' else 0)==val]
        if x.op!='icmp' or x.d['pred'] not in('eq','ne'): return None
        y=s.fn.val(x.o[0]);c=x.o[1]
        if y is None or y.op!='phi' or y.bb!=L[0].bb or c[0] not in('c','z'): return None
        cv=c[1] if c[0]=='c' else 0
        want=(x.d['pred']=='eq')==val
        return [p for p,v in y.d['in'] if v[0] not in('c','z') or ((v[1] if v[0]=='c' else 0)==cv)==want]
    def at_env(s,i):
        b=i.bb
        if b not in s.env: return None
        env=dict(s.env[b])
        k=s.fn.blocks[b].index(i)
        L=s.fn.blocks[b]
        save=s.fn.blocks[b];s.fn.blocks[b]=L[:k]
        try: env=s.block(b,env)
        finally: s.fn.blocks[b]=save
        return env
    def at(s,i,o):
        env=s.at_env(i)
        return None if env is None else s.ev(o,env)
