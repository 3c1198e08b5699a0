"""Interval analysis of the integer SSA values of a function: forward dataflow, values refined on
branch edges, widened to the constants of the function at loop heads.  Signed view of each width."""
import re
NEG={'eq':'ne','ne':'eq','slt':'sge','sge':'slt','sgt':'sle','sle':'sgt','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt'}
SWAP={'eq':'eq','ne':'ne','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}

def width(t):
    m=re.match(r'i(\d+)$',t or '')
    return int(m.group(1)) if m else None
def top(w): return (-(1<<(w-1)),(1<<(w-1))-1)

class Ranges(object):
    def __init__(s,fn,known=None):
        s.fn=fn;s.known=known or {}
        s.w={}
        for L in fn.blocks:
            for i in L:
                w=width(i.d.get('t'))
                if w: s.w[i.id]=w
        s.prepare()
        s.live=s.liveness()
        cs={0,1,-1}
        for L in fn.blocks:
            for i in L:
                if i.op in('icmp','switch'):
                    for o in i.o:
                        if o[0]=='c' and isinstance(o[1],int): cs|={o[1]-1,o[1],o[1]+1}
        s.cs=sorted(cs|s.extra())
        s.run()
    def prepare(s): pass
    def phied(s,b): return False
    def extra(s): return set()
    def liveness(s):
        fn=s.fn;n=len(fn.blocks);use=[set() for _ in range(n)];de=[set() for _ in range(n)]
        def ops(i):
            for o in i.o: yield o
            if i.op=='getelementptr':
                yield i.d['base']
                for p in i.d['path']:
                    if p[0]!='f': yield p[1]
        # keep what a used value is made of, so that it can be refined through
        def chain(o,acc,d=0):
            if o[0]!='i' or d>6 or o[1] in acc: return
            acc.add(o[1]);x=fn.inst[o[1]]
            if x.op in('zext','sext','trunc','add','sub','icmp','xor','freeze','mul','and','or'):
                for q in x.o: chain(q,acc,d+1)
        ph=[{} for _ in range(n)]
        for b,L in enumerate(fn.blocks):
            for i in L:
                if i.op=='phi':
                    for p,v in i.d['in']: a=set();chain(v,a);ph[b].setdefault(p,set()).update(a)
                    de[b].add(i.id);continue
                for o in ops(i):
                    a=set();chain(o,a);use[b]|={x for x in a if x not in de[b]}
                de[b].add(i.id)
        live=[set() for _ in range(n)];ch=True
        while ch:
            ch=False
            for b in range(n-1,-1,-1):
                out=set()
                for t in fn.succ[b]: out|=live[t]|ph[t].get(b,set())
                new=use[b]|(out-de[b])
                if new!=live[b]: live[b]=new;ch=True
        s.ph=ph
        return live
    def ev(s,o,env):
        if o[0]=='c' and isinstance(o[1],int): return (o[1],o[1])
        if o[0]=='z': return (0,0)
        if o[0]=='i':
            if o[1] in env: return env[o[1]]
            w=s.w.get(o[1])
            return top(w) if w else None
        if o[0]=='a' and ('a',o[1]) in env: return env['a',o[1]]
        return None
    def fit(s,r,w):
        t=top(w)
        if r is None or r[0]<t[0] or r[1]>t[1]: return t
        return r
    def fits(s,i,r,w):
        """a sum or product that is undefined when it overflows stays within its type"""
        if not i.d.get('nsw') or r is None: return s.fit(r,w)
        t=top(w);return (min(max(r[0],t[0]),t[1]),max(min(r[1],t[1]),t[0]))
    def calc(s,i,env):
        w=s.w[i.id]
        if i.id in s.known: return s.known[i.id]
        a=s.ev(i.o[0],env) if i.o else None
        b=s.ev(i.o[1],env) if len(i.o)>1 else None
        op=i.op
        if op in('sext','trunc','freeze'): return s.fit(a,w) if a else top(w)
        if op=='zext':
            x=s.fn.val(i.o[0]);sw=s.w.get(x.id) if x is not None else None
            if a and a[0]>=0: return a
            if sw: return (0,(1<<sw)-1) if sw<w else top(w)
            return (0,1) if a is None and False else top(w)
        if op=='add' and a and b: return s.fits(i,(a[0]+b[0],a[1]+b[1]),w)
        if op=='sub' and a and b: return s.fits(i,(a[0]-b[1],a[1]-b[0]),w)
        if op in('mul','shl') and a and b:
            if op=='shl':
                if b[0]!=b[1] or not 0<=b[0]<w: return top(w)
                b=(1<<b[0],1<<b[0])
            xs=[x*y for x in a for y in b];return s.fits(i,(min(xs),max(xs)),w)
        if op in('udiv','lshr') and a and b and b[0]==b[1] and a[0]>=0:
            d=b[0] if op=='udiv' else 1<<b[0]
            if d>0: return (a[0]//d,a[1]//d)
        if op=='sdiv' and a and b and b[0]==b[1] and b[0]>0 and a[0]>=0: return (a[0]//b[0],a[1]//b[0])
        if op in('urem','srem') and b and b[0]==b[1] and b[0]>0:
            if op=='urem' or (a and a[0]>=0): return (0,b[0]-1)
            return (1-b[0],b[0]-1)
        if op=='and':
            x=[x[1] for x in(a,b) if x and x[0]>=0]
            if x: return (0,min(x))
        if op=='select':
            x,y=s.arm(i,1,env),s.arm(i,2,env)
            if x and y: return (min(x[0],y[0]),max(x[1],y[1]))
        if op in('call','invoke'):
            n=s.fn.callee(i)
            if n in('std::min','std::max'): return top(w)
        if op=='load' and w==8: return top(8)
        return top(w)
    def arm(s,i,k,env):
        """one arm of a select, under the condition that selects it"""
        e=s.refine(i.o[0],k==1,env)
        return s.ev(i.o[k],env if e is None else e)
    def meet(s,env,o,lo,hi,d=0):
        """env with o known to be within; None if impossible"""
        r=s.ev(o,env)
        if r is None:
            if o[0]=='a':
                env=dict(env);env['a',o[1]]=(lo,hi);return env
            return env
        n=(max(r[0],lo),min(r[1],hi))
        if n[0]>n[1]: return None
        if o[0]!='i': return env
        env=dict(env);env[o[1]]=n
        x=s.fn.inst[o[1]]
        if d<6:
            if x.op in('sext','freeze'): return s.meet(env,x.o[0],n[0],n[1],d+1)
            if x.op=='zext':
                sw=None;y=s.fn.val(x.o[0])
                if y is not None: sw=s.w.get(y.id)
                if sw and n[0]>=0 and n[1]<(1<<(sw-1)): return s.meet(env,x.o[0],n[0],n[1],d+1)
                return env
            if x.op=='trunc':
                y=s.ev(x.o[0],env)
                if y and y[0]>=top(s.w[x.id])[0] and y[1]<=top(s.w[x.id])[1]: return s.meet(env,x.o[0],n[0],n[1],d+1)
            if x.op in('add','sub') and x.o[1][0]=='c' and isinstance(x.o[1][1],int):
                c=x.o[1][1]*(1 if x.op=='add' else -1);y=s.ev(x.o[0],env);t=top(s.w[x.id])
                if y and y[0]+c>=t[0] and y[1]+c<=t[1]: return s.meet(env,x.o[0],n[0]-c,n[1]-c,d+1)
        return env
    def refine(s,o,val,env,d=0):
        if o[0]!='i' or d>6: return env
        x=s.fn.inst[o[1]]
        if x.op=='freeze': return s.refine(x.o[0],val,env,d+1)
        if x.op=='xor' and x.o[1][0]=='c' and x.d.get('t')=='i1': return s.refine(x.o[0],not val,env,d+1)
        if x.op=='and' and x.d.get('t')=='i1' and val:
            env=s.refine(x.o[0],True,env,d+1)
            return s.refine(x.o[1],True,env,d+1) if env is not None else None
        if x.op=='or' and x.d.get('t')=='i1' and not val:
            env=s.refine(x.o[0],False,env,d+1)
            return s.refine(x.o[1],False,env,d+1) if env is not None else None
        if x.op!='icmp': return env
        p=x.d['pred']
        if not val: p=NEG[p]
        a,b=x.o[0],x.o[1]
        for u,v,q in((a,b,p),(b,a,SWAP[p])):
            r=s.ev(v,env);m=s.ev(u,env)
            if r is None: continue
            INF=1<<70
            if q[0]=='u':
                if m is None and u[0]!='a': continue
                if m and m[0]>=0 and r[0]>=0: q='s'+q[1:]
                elif q in('ult','ule') and r[0]>=0: 
                    env=s.meet(env,u,0,r[1]-(q=='ult'))
                    if env is None: return None
                    continue
                else: continue
            if q=='eq': env=s.meet(env,u,r[0],r[1])
            elif q=='ne':
                if r[0]==r[1] and m:
                    if m[0]==r[0]: env=s.meet(env,u,m[0]+1,INF)
                    elif m[1]==r[0]: env=s.meet(env,u,-INF,m[1]-1)
            elif q=='slt': env=s.meet(env,u,-INF,r[1]-1)
            elif q=='sle': env=s.meet(env,u,-INF,r[1])
            elif q=='sgt': env=s.meet(env,u,r[0]+1,INF)
            elif q=='sge': env=s.meet(env,u,r[0],INF)
            if env is None: return None
        return env
    def block(s,b,env):
        for i in s.fn.blocks[b]:
            if i.op=='phi' or i.id not in s.w: continue
            env[i.id]=s.calc(i,env)
        return env
    def edge(s,b,t,env):
        term=s.fn.blocks[b][-1]
        if term.op=='br' and term.o:
            x,y=term.d['succ']
            if x!=y: env=s.refine(term.o[0],t==x,env)
        elif term.op=='switch':
            vs=[v for v,q in term.d['cases'] if q==t]
            if t!=term.d['default'] and vs and all(isinstance(v,int) for v in vs): env=s.meet(env,term.o[0],min(vs),max(vs))
        if env is None: return None
        new={}
        for i in s.fn.blocks[t]:
            if i.op!='phi': break
            if i.id not in s.w: continue
            for p,v in i.d['in']:
                if p==b:
                    r=s.ev(v,env);new[i.id]=r if r is not None else top(s.w[i.id]);break
        L=s.live[t]|s.ph[t].get(b,set())
        env={k:v for k,v in env.items() if k in L or isinstance(k,tuple)}
        env.update(new)
        return env
    def join(s,a,b): return {k:(min(a[k][0],b[k][0]),max(a[k][1],b[k][1])) for k in a if k in b}
    def widen(s,a,b,w):
        r={}
        for k in a:
            if k not in b: continue
            lo,hi=a[k];l2,h2=b[k]
            if l2<lo:
                c=[x for x in s.cs if x<=l2];lo=c[-1] if c and w<8 else -(1<<80)
            if h2>hi:
                c=[x for x in s.cs if x>=h2];hi=c[0] if c and w<8 else 1<<80
            kw=s.w.get(k)
            if kw: t=top(kw);lo,hi=max(lo,t[0]),min(hi,t[1])
            r[k]=(lo,hi)
        return r
    def run(s):
        fn=s.fn
        s.env={0:dict(s.known_args())};cnt={};work=[0];s.eo={}
        heads=set(fn.loops) if hasattr(fn,'loops') else set()
        it=0
        while work:
            it+=1
            if it>20000: break
            b=work.pop(0);env=s.block(b,dict(s.env[b]))
            for t in dict.fromkeys(fn.succ[b]):
                e=s.edge(b,t,env)
                if e!=s.eo.get((b,t)):
                    s.eo[b,t]=e
                    if t in s.env and s.phied(t) and t not in work: work.append(t)
                if e is None: continue
                if t not in s.env: s.env[t]=e
                else:
                    j=s.join(s.env[t],e)
                    if j==s.env[t]: continue
                    cnt[t]=cnt.get(t,0)+1
                    if t in heads and cnt[t]>2 or cnt[t]>30: j=s.widen(s.env[t],j,cnt[t])
                    if j==s.env[t]: continue
                    s.env[t]=j
                if t not in work: work.append(t)
        # one descending sweep: loop counters regain the bounds of their conditions
        for _ in range(2):
            new={0:s.env[0]}
            for b in sorted(s.env):
                env=s.block(b,dict(s.env[b]))
                for t in dict.fromkeys(fn.succ[b]):
                    e=s.edge(b,t,env)
                    if e is None: continue
                    new[t]=e if t not in new else s.join(new[t],e)
            for b in new:
                if b in s.env:
                    m={}
                    for k,v in new[b].items():
                        o=s.env[b].get(k)
                        m[k]=v if o is None else (max(v[0],o[0]),min(v[1],o[1]))
                    s.env[b]=m
            for b in list(s.env):
                if b not in new: del s.env[b]
    def known_args(s): return {('a',k[1]):v for k,v in s.known.items() if isinstance(k,tuple)}
    def at(s,i,o):
        """range of operand o just before instruction i"""
        b=next(b for b,L in enumerate(s.fn.blocks) if any(x is i for x in L))
        if b not in s.env: return None
        env=dict(s.env[b])
        for x in s.fn.blocks[b]:
            if x is i: break
            if x.op=='phi' or x.id not in s.w: continue
            env[x.id]=s.calc(x,env)
        return s.ev(o,env)
    def reachable(s,i):
        b=next(b for b,L in enumerate(s.fn.blocks) if any(x is i for x in L))
        return b in s.env
