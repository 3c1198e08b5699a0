"""Path-sensitive effect summaries.

A function is read as the set of its acyclic control-flow paths; along each path
values are numbered symbolically (loads see what the path stored before), standard
containers and strings are modelled by their abstract state (size, present keys,
contents), and the stores and calls with an effect are recorded in order.  A loop
is summarised by one generic iteration: everything it may change is havocked, the
effects of its body appear inside a ('loop', ...) event, and analysis continues
from its exits.  Nothing is executed and no solver is used; a branch is pruned only
when its condition is literally decided by an earlier one on the same path."""
from util import *

class TooMany(Exception): pass

def mklin(acc):
    acc={k:v for k,v in acc.items() if v}
    c=acc.pop(1,0)
    if not acc: return ('const',c)
    if c==0 and len(acc)==1:
        (t,k),=acc.items()
        if k==1: return t
    return ('lin',c,tuple(sorted(acc.items(),key=repr)))
def tolin(t):
    if t[0]=='const': return collections.Counter({1:t[1]})
    if t[0]=='lin':
        d=collections.Counter({1:t[1]})
        for k,v in t[2]: d[k]+=v
        return d
    return collections.Counter({t:1})
def add(a,b,sign=1):
    x=tolin(a)
    for k,v in tolin(b).items(): x[k]+=sign*v
    return mklin(x)
def sub(a,b): return add(a,b,-1)
def scale(a,k):
    return mklin({t:v*k for t,v in tolin(a).items()})
ONE=('const',1);ZERO=('const',0)
def mul(a,b):
    if a[0]=='const': return scale(b,a[1])
    if b[0]=='const': return scale(a,b[1])
    f=[]
    for x in(a,b): f+=list(x[1]) if x[0]=='mul' else [x]
    return ('mul',tuple(sorted(f,key=repr)))

def cmpc(pred,a,b):
    """canonical comparison"""
    if a[0] in('null','const') and b[0] not in('null','const'): a,b=b,a;pred=SWAP[pred]
    if a[0]=='const' and b[0]=='const':
        x,y=a[1],b[1]
        r={'eq':x==y,'ne':x!=y,'slt':x<y,'sgt':x>y,'sle':x<=y,'sge':x>=y}.get(pred)
        if r is None and x>=0 and y>=0: r={'ult':x<y,'ugt':x>y,'ule':x<=y,'uge':x>=y}.get(pred)
        if r is not None: return ('const',int(r))
    if a==b: return ('const',int(pred in('eq','sle','sge','ule','uge')))
    if a[0]=='elem' and b[0]=='elem' and a[1]==b[1]: return cmpc(pred,a[2],b[2])
    # canonical order for eq/ne, and strict predicates only
    if pred in('sgt','ugt','sge','uge'): a,b=b,a;pred=SWAP[pred]
    if pred in('eq','ne') and repr(a)>repr(b) and b[0] not in('null','const'): a,b=b,a
    return ('cmp',pred,a,b)
def notc(c):
    if c[0]=='const': return ('const',1-(c[1]&1))
    if c[0]=='cmp': return cmpc(NEG[c[1]],c[2],c[3])
    if c[0]=='not': return c[1]
    return ('not',c)

class Path(object):
    __slots__=('env','mem','cond','ev','ret','end','hav','n','frame','stop')
    def __init__(s):
        s.env={};s.mem={};s.cond=[];s.ev=[];s.ret=None;s.end=None;s.hav=();s.n=[0];s.frame=0;s.stop=None
    def copy(s):
        p=Path();p.env=dict(s.env);p.mem=dict(s.mem);p.cond=list(s.cond);p.ev=list(s.ev);p.ret=s.ret
        p.hav=s.hav;p.n=s.n;p.frame=s.frame;p.stop=s.stop
        return p
    def has(s,c):
        """+1 condition known true, -1 known false, 0 unknown"""
        if c[0]=='const': return 1 if c[1]&1 else -1
        if c[0] in('and','or') and len(c)==3:
            h=[s.has(s_truth(x)) for x in c[1:]];w=1 if c[0]=='and' else -1
            if h==[w,w]: return w
            if -w in h: return -w
        n=notc(c)
        for x in s.cond:
            if x[0]==c: return 1
            if x[0]==n: return -1
        if c[0]=='cmp':
            # null-ness of fresh objects, and constants fixed by an equality
            for x,_ in s.cond:
                if x[0]=='cmp' and x[1]=='eq':
                    for u,v in((x[2],x[3]),(x[3],x[2])):
                        if v[0] in('const','null') and u in(c[2],c[3]):
                            y=cmpc(c[1],v if c[2]==u else c[2],v if c[3]==u else c[3])
                            if y[0]=='const': return 1 if y[1] else -1
            # a strict order settles the weaker one and equality
            for x,_ in s.cond:
                if x[0]=='cmp' and x[1] in('slt','ult') and (x[2],x[3])==(c[2],c[3]):
                    if c[1] in('sle','ule','ne') : return 1
                    if c[1]=='eq': return -1
                if x[0]=='cmp' and x[1] in('slt','ult') and (x[3],x[2])==(c[2],c[3]):
                    if c[1] in('slt','ult','sle','ule','eq'): return -1
                    if c[1]=='ne': return 1
            # bounds by constants
            if c[1] in('slt','sle','ult','ule','eq','ne'):
                for u,v,sw in((c[2],c[3],0),(c[3],c[2],1)):
                    if v[0]!='const': continue
                    lo,hi=s.bounds(u)
                    if c[1] in('ult','ule') and (lo is None or lo<0): continue
                    if c[1] in('eq','ne'):
                        if (hi is not None and hi<v[1]) or (lo is not None and lo>v[1]): return -1 if c[1]=='eq' else 1
                        continue
                    strict=c[1] in('slt','ult')
                    if not sw:
                        if hi is not None and (hi<v[1] or (not strict and hi<=v[1])): return 1
                        if lo is not None and (lo>v[1] or (strict and lo>=v[1])): return -1
                    else:
                        if lo is not None and (lo>v[1] or (not strict and lo>=v[1])): return 1
                        if hi is not None and (hi<v[1] or (strict and hi<=v[1])): return -1
        return 0
    def bounds(s,u):
        lo=hi=None
        if u[0]=='size': lo=0
        for x,_ in s.cond:
            if x[0]!='cmp': continue
            p,a,b=x[1:]
            if a==u and b[0]=='const':
                if p=='slt': hi=b[1]-1 if hi is None else min(hi,b[1]-1)
                if p=='sle': hi=b[1] if hi is None else min(hi,b[1])
                if p=='eq': lo=hi=b[1]
            elif b==u and a[0]=='const':
                if p=='slt': lo=a[1]+1 if lo is None else max(lo,a[1]+1)
                if p=='sle': lo=a[1] if lo is None else max(lo,a[1])
        return lo,hi

STRING=r'std::basic_string'
CT=re.compile(r'^std::(vector|map|unordered_map|set|deque|basic_string|pair|list)::')
IGN=re.compile(r'^(llvm\.(dbg|lifetime|assume|type\.test|stacksave|stackrestore|experimental|prefetch)|std::__new_allocator|std::allocator|std::new_allocator|__gnu_cxx::new_allocator|std::basic_string::~|std::ios_base|__assert_fail)')
OUTPUT=re.compile(r'^(std::operator_shl|std::ostream::(operator_shl|flush|put|write)|printf|fprintf|puts|putchar|std::flush|std::endl)$')
ITER=re.compile(r'^(std::(_Rb_tree_(const_)?iterator|_Node_(const_)?iterator|__detail::_Node_(const_)?iterator)|std::__detail::\w+)::')
FRESH=re.compile(r'^(operator new(\[\])?|malloc|calloc|realloc)$')

def s_truth(c):
    if c[0]=='cmp' and c[1]=='ne' and c[3]==ZERO and c[2][0] in('cmp','not','absent','present','fcmp','and1','or1'): return c[2]
    if c[0]=='cmp' and c[1]=='eq' and c[3]==ZERO and c[2][0] in('cmp','not','absent','present','fcmp','and1','or1'): return notc(c[2])
    return c

class Interp(object):
    """summaries of one function; `nested` decides which calls are followed"""
    LIMIT=1500
    def __init__(s,prog,nested=None,depth=4,limit=None):
        s.prog=prog;s.nested=nested;s.depth=depth;s.limit=limit or s.LIMIT;s.count=0;s.fid=0
        s.loopmod={};s.ivroot={};s.noalias=set();s.pending=None;s.alts={};s.psnap=None;s.lentry={};s.aty={};s.lnext={}
    # ---- entry
    def run_joined(s,fn):
        """summaries with the paths joined where they reach an outermost loop: differing values become
        ('alt',k), whose guarded values are in s.alts[k]; differing events become one 'join' event"""
        s.count=0;s.ivroot={};s.alts={};s.pending={};s.top=None
        p=Path();s.fid+=1;fr=s.fid;s.topfr=fr;p.frame=fr
        for k in range(len(fn.args)): p.env[('a',k)]=('arg',k)
        s.noalias={('arg',0)} if fn.args and fn.args[0][2] else set()
        out=s.walk(fn,0,None,p,0,fr,())
        order=s.rpo(fn)
        while s.pending:
            h=min(s.pending,key=lambda b:order.get(b,0))
            q=s.join([x for x in s.pending.pop(h)])
            out+=s.loop(fn,h,'@joined',q,0,fr,())
        s.pending=None
        return out
    def rpo(s,fn):
        seen=set();post=[];st=[(0,0)]
        seen.add(0)
        def succ(b):
            t=fn.blocks[b][-1]
            if t.op=='br': return list(t.d['succ'])
            if t.op=='switch': return [d for _,d in t.d['cases']]+[t.d['default']]
            return []
        while st:
            b,k=st.pop();ss=succ(b)
            if k<len(ss):
                st.append((b,k+1))
                if ss[k] not in seen: seen.add(ss[k]);st.append((ss[k],0))
            else: post.append(b)
        return {b:i for i,b in enumerate(reversed(post))}
    def join(s,ps):
        if len(ps)==1: return ps[0]
        q=ps[0].copy();rest=ps[1:]
        common=[x for x in ps[0].cond if all(any(y[0]==x[0] for y in r.cond) for r in rest)]
        cs={x[0] for x in common}
        guards=[tuple(x[0] for x in r.cond if x[0] not in cs) for r in ps]
        def alt(vals):
            if all(v==vals[0] for v in vals): return vals[0]
            k=len(s.alts)
            if any(v is None for v in vals): return ('unk','join',k,len(s.alts))
            s.alts[k]=tuple(zip(guards,vals));return ('alt',k)
        for k in set(q.env)|{k for r in rest for k in r.env}:
            q.env[k]=alt([r.env.get(k) for r in ps])
        for k in set(q.mem)|{k for r in rest for k in r.mem}:
            vs=[r.mem.get(k) for r in ps]
            if all(v==vs[0] for v in vs): q.mem[k]=vs[0];continue
            if k[0] in('obj',) or any(v is None for v in vs): q.mem.pop(k,None);continue
            q.mem[k]=alt(vs)
        q.cond=common
        n=0
        while all(len(r.ev)>n and r.ev[n]==ps[0].ev[n] for r in ps): n+=1
        q.ev=list(ps[0].ev[:n])
        tails=tuple((g,tuple(r.ev[n:])) for g,r in zip(guards,ps))
        if any(e for _,e in tails): q.ev.append(('join',tails))
        if any(r.hav!=q.hav for r in rest): 
            q.n[0]+=1;q.hav=q.hav+((q.n[0],None),)
        return q
    def run(s,fn,args=None,this=None):
        p=Path()
        A=list(args) if args is not None else [('arg',k) for k in range(len(fn.args))]
        s.count=0;s.ivroot={};s.noalias=set()
        if args is None and fn.args and fn.args[0][2]: s.noalias.add(('arg',0))
        return s.call(fn,A,p,0)
    def call(s,fn,args,p,depth):
        s.fid+=1
        p=p.copy();p.env={};fr=s.fid;p.frame=fr
        for k,a in enumerate(args): p.env[('a',k)]=a
        return s.walk(fn,0,None,p,depth,fr,())
    # ---- operands
    def op(s,fn,o,p):
        k=o[0]
        if k=='i':
            v=p.env.get(o[1])
            if v is None: v=('unk',fn.short,o[1],p.frame)
            return v
        if k=='a': return p.env.get(('a',o[1]),('arg',o[1]))
        if k=='c': return ('const',o[1]&1) if len(o)>2 and o[2]==1 else ('const',o[1])
        if k=='f': return ('fconst',o[1])
        if k=='n': return ('null',)
        if k=='z': return ZERO
        if k=='g':
            st=s.prog.string(o[1])
            return ('str',st) if st is not None else ('glob',o[1])
        if k=='ge':
            b=s.op(fn,o[1],p)
            return s.off(b,o[2])
        if k=='u': return ('undef',)
        return tuple(str(x) for x in o)
    def off(s,b,n):
        if n==0: return b
        if b[0]=='off': return s.off(b[1],b[2]+n)
        return ('off',b,n)
    # ---- addresses
    def gep(s,fn,i,p):
        b=s.op(fn,i.d['base'],p)
        for q in i.d['path']:
            if q[0]=='f':
                if q[3].startswith('base:') and q[4]==0: continue
                if b[0]=='mnode' and q[4]>0: b=('mat',b[1],b[2]);continue
                if q[4]==0: continue
                if q[3].startswith('base:'): b=s.off(b,q[4]);continue
                b=('fld',b,q[3])
            else:
                x=s.op(fn,q[1],p)
                if x==ZERO: continue
                if b[0]=='idx' and b[3]==q[2]: b=('idx',b[1],add(b[2],x),q[2])
                elif b[0]=='elem': b=('elem',b[1],add(b[2],x))
                else: b=('idx',b,x,q[2])
                if b[0]=='idx' and b[2]==ZERO: b=b[1]
        return b
    # ---- memory
    def root(s,a):
        while a[0] in('fld','idx','off'): a=a[1]
        return a
    def load(s,a,p):
        if a in p.mem:
            v=p.mem[a]
            if v[0]=='insv':
                h=p.has(('present',v[1],v[2]))
                if h<0: return v[3]
                if h>0: return ('load',('mat',v[1],v[2]))
            return v
        r=s.root(a)
        if r[0]=='glob' and r==a:
            g=s.prog.globals.get(a[1])
            if g and g.get('const') and 'init' in g and len(g['init'])==1 and g['init'][0][2][0]=='c': return ('const',g['init'][0][2][1])
        b=a
        while True:
            if ('obj',b) in p.mem:
                o=p.mem[('obj',b)]
                if o[0]=='copy': return s.load(s.rebase(a,b,o[1]),p) if not o[2] else ('load',s.rebase(a,b,o[1]))
                if o[0]=='zero': return ZERO
                if o[0]=='attr0': return ('attr0',s.rel(a,b))
                if o[0]=='res': return ('resv',s.rel(a,b))+o
                if r[0]=='alloca': return ('uninit',a)
            if b[0] not in('fld','idx','off'): break
            b=b[1]
        if r[0]=='alloca': return ('uninit',a)
        v=s.ver(a,p)
        return ('load',a) if not v else ('load',a,v)
    def rebase(s,a,old,new):
        if a==old: return new
        return a[:1]+(s.rebase(a[1],old,new),)+a[2:]
    def base(s,r):
        """object a moving pointer points into"""
        n=0
        while r[0]=='iv' and n<8:
            n+=1
            e=s.ivroot.get(r)
            if e is None: return r
            r=s.root(e)
        return r
    def under(s,a,b):
        """address a is b or inside b"""
        while True:
            if a==b: return True
            if a[0] in('fld','idx','off'): a=a[1]
            else: return False
    def kill(s,a,p):
        for k in list(p.mem):
            x=k[1] if k[0] in('obj','S','size') else k
            if x==a or s.under(x,a): del p.mem[k]
    def store(s,a,v,p,ev=True):
        r=s.root(a)
        for k in list(p.mem):
            if k[0] in('obj','S','size'): continue
            if k==a: continue
            if s.may(k,a): del p.mem[k]
        p.mem[a]=v
    def may(s,x,y):
        rx,ry=s.root(x),s.root(y)
        if 'iv' in(rx[0],ry[0]):
            bx,by=s.base(rx),s.base(ry)
            if bx==by: return True
            for q in(bx,by):
                if q[0] in('alloca','fresh') or q in s.noalias: return False
        if rx!=ry and (rx in s.noalias or ry in s.noalias): return False
        if rx==ry:
            fx=[];fy=[]
            a=x
            while a[0] in('fld','idx','off'): fx.append(a[0:1]+a[2:]);a=a[1]
            a=y
            while a[0] in('fld','idx','off'): fy.append(a[0:1]+a[2:]);a=a[1]
            for u,v in zip(reversed(fx),reversed(fy)):
                if u==v: continue
                if u[0]=='fld' and v[0]=='fld': return False
                if u[0]=='idx' and v[0]=='idx' and u[2]==v[2]:
                    d=sub(u[1],v[1])
                    return not(d[0]=='const' and d[1]!=0)
                if u[0]=='off' and v[0]=='off': return False
                return True
            return len(fx)!=len(fy) and any(q[0]=='idx' for q in fx+fy)
        for q in(rx,ry):
            if q[0]=='alloca' : return False
        if rx[0]=='elem' and ry[0]=='elem':
            if rx[1]!=ry[1]: return False
            d=sub(rx[2],ry[2])
            return not(d[0]=='const' and d[1]!=0)
        if rx[0]=='mat' and ry[0]=='mat' : return rx[1]==ry[1]
        if rx[0] in('elem','mat') or ry[0] in('elem','mat'): return False
        if rx[0]=='glob' and ry[0]=='glob': return False
        if 'fresh' in(rx[0],ry[0]): return False
        # different base pointers: distinct named members do not overlap
        fx=x[2] if x[0]=='fld' else None;fy=y[2] if y[0]=='fld' else None
        if fx and fy and fx!=fy: return False
        if (fx is None)!=(fy is None): return False
        return True
    def ver(s,a,p):
        """version of memory not written on this path: the last havoc that may touch it"""
        for v,what in reversed(p.hav):
            if what is None: return v
            for w in what:
                if s.touches(w,a): return v
        return 0
    def touches(s,w,a):
        if w[0]=='T':
            x=a[1] if a[0]=='size' else a
            while True:
                if x==w[1]: return True
                if x[0] in('fld','idx','off','elem','mat'): x=x[1]
                else: return False
        if w[0]=='size' or a[0]=='size': return w[0]=='size' and a[0]=='size' and w[1]==a[1]
        if w[0]=='S' : return a[0]!='size' and s.under(a,w[1])
        return w==a or s.under(a,w) or s.may(w,a)
    def havoc(s,p,what=None,keep=()):
        """forget non-local memory (all of it, or the given addresses)"""
        p.n[0]+=1;p.hav=p.hav+((p.n[0],None if what is None else tuple(what)),)
        for k in list(p.mem):
            x=k[1] if k[0] in('obj','S','size') else k
            r=s.root(x)
            if r[0]=='alloca': continue
            if what is None and r in s.noalias and r not in keep: continue
            if what is None or any(s.touches(w,k if k[0]=='size' else x) for w in what): del p.mem[k]
    # ---- strings and objects
    def strval(s,a,p):
        """content of a string argument: const char* term or std::string address"""
        if ('S',a) in p.mem: return p.mem[('S',a)]
        r=a
        while True:
            o=p.mem.get(('obj',r))
            if o is not None and o[0]=='copy': return s.strval(s.rebase(a,r,o[1]),p) if not o[2] else ('chars',s.rebase(a,r,o[1]))
            if o is not None and o[0] in('attr0','zero'): return ('str',b'')
            if r[0] not in('fld','idx','off'): break
            r=r[1]
        if a[0]=='alloca' and a in p.mem and p.mem[a][0] not in('uninit','unk'): return s.strval(p.mem[a],p)
        if a[0]=='pairv': return a
        if a[0]=='mnode': return a[2]   # the key found
        if a[0]=='chars': return a
        if a[0]=='str': return ('str',a[1].rstrip(b'\0'))
        return a if a[0] in('arg',) else ('chars',a)
    def size(s,a,p):
        if ('size',a) in p.mem: return p.mem[('size',a)]
        r=a
        while True:
            o=p.mem.get(('obj',r))
            if o is not None:
                if o[0]=='copy' and not o[2]: return s.size(s.rebase(a,r,o[1]),p)
                if o[0]=='zero': return ZERO
            if r[0] not in('fld','idx','off'): break
            r=r[1]
        if s.root(a)[0]=='alloca': return ('size',a)
        v=s.ver(('size',a),p)
        return ('size',a) if not v else ('size',a,v)
    def snap(s,a,p):
        """contents of the object at address a as {path: value}"""
        out={}
        o=p.mem.get(('obj',a))
        if o is not None: out['*']=o
        for k,v in p.mem.items():
            if k[0]=='size': continue
            if k[0]=='obj':
                if k[1]!=a and s.under(k[1],a): out[s.rel(k[1],a)+'.*']=v
                continue
            x=k[1] if k[0]=='S' else k
            if s.under(x,a): out[s.rel(x,a)]=v
        return tuple(sorted(out.items(),key=repr))
    def rel(s,x,a):
        f=[]
        while x!=a:
            f.append(x[2] if x[0]=='fld' else x[0:1]+x[2:]);x=x[1]
        return '.'.join(q if isinstance(q,str) else show(q[1]) for q in reversed(f))
    def copyobj(s,dst,src,p):
        items=[]
        for k,v in list(p.mem.items()):
            x=k[1] if k[0] in('obj','S','size') else k
            if s.under(x,src):
                n=s.rebase(x,src,dst)
                items.append(((k[0],n) if k[0] in('obj','S','size') else n,v))
        s.kill(dst,p)
        o=p.mem.get(('obj',src))
        if o is None and s.root(src)[0]!='alloca': p.mem[('obj',dst)]=('copy',src,0)
        for k,v in items: p.mem[k]=v
    # ---- events
    def event(s,p,kind,*a): p.ev.append((kind,)+a)
    # ---- walking
    def walk(s,fn,b,prev,p,depth,fr,loops,start=0):
        """finished paths from block b"""
        out=[]
        work=[(b,prev,p,start)]
        while work:
            b,prev,p,k0=work.pop()
            if k0==0:
                if b in fn.loops and (fr,b) not in loops:
                    if s.pending is not None and not loops and depth==0 and fr==s.topfr:
                        s.phis(fn,b,prev,p);s.pending.setdefault(b,[]).append(p);continue
                    out+=s.loop(fn,b,prev,p,depth,fr,loops)
                    continue
                if loops and loops[-1][0]==fr:
                    h=loops[-1][1]
                    if b==h and prev is not None and prev in fn.loops[h]:
                        p.end=('back',h);out.append(p);continue
                    if b not in fn.loops[h]:
                        p.end=('leave',h,b,prev);out.append(p);continue
                s.phis(fn,b,prev,p)
            done=False
            for k in range(k0,len(fn.blocks[b])):
                i=fn.blocks[b][k]
                if i.op=='phi': continue
                r=s.step(fn,i,p,depth,fr)
                if r is not None:
                    # several continuations
                    for q in r:
                        if q.end: out.append(q)
                        else: work.append((b,prev,q,k+1))
                    done=True;break
            if done: continue
            t=fn.blocks[b][-1]
            if t.op=='ret':
                p.ret=s.op(fn,t.o[0],p) if t.o else None
                p.end=('ret',);out.append(p)
            elif t.op=='br' and not t.o: work.append((t.d['succ'][0],b,p,0))
            elif t.op=='br':
                c=s.truth(s.op(fn,t.o[0],p))
                h=p.has(c)
                T,F=t.d['succ']
                alts=[]
                if T==F: alts=[(T,p)]
                else:
                    if h>=0:
                        q=p.copy() if h==0 else p
                        if h==0: s.assume(q,c,t)
                        alts.append((T,q))
                    if h<=0:
                        q=p
                        if h==0: s.assume(q,notc(c),t)
                        alts.append((F,q))
                for x,q in reversed(alts): work.append((x,b,q,0))
            elif t.op=='switch':
                v=s.op(fn,t.o[0],p)
                cs=[(cmpc('eq',v,('const',c)),d) for c,d in t.d['cases']]
                q=p.copy();dead=False
                for c,d in cs:
                    h=q.has(c)
                    if h>0 or h==0:
                        r=q.copy();
                        if h==0: s.assume(r,c,t)
                        work.append((d,b,r,0))
                    if h>0: dead=True;break
                    if h==0: s.assume(q,notc(c),t)
                if not dead: work.append((t.d['default'],b,q,0))
            elif t.op=='unreachable': p.end=('stop',);out.append(p)
            else: p.end=('stop',);out.append(p)
            s.count+=1
            if s.count>s.limit*20 or len(work)+len(out)>s.limit: raise TooMany(fn.short)
        return out
    def truth(s,c): return s_truth(c)
    def assume(s,p,c,t):
        c=s.truth(c)
        # a conjunction is the facts it is made of
        st=[c]
        while st:
            x=st.pop()
            if x[0]=='and' and len(x)==3: st+=[s.truth(x[2]),s.truth(x[1])];continue
            if x[0]=='not' and x[1][0]=='or' and len(x[1])==3: st+=[s.truth(('not',x[1][2])),s.truth(('not',x[1][1]))];continue
            p.cond.append((x,t.loc))
    def phis(s,fn,b,prev,p):
        new={}
        for i in fn.blocks[b]:
            if i.op!='phi': break
            for q,v in i.d['in']:
                if q==prev: new[i.id]=s.op(fn,v,p);break
            else: new[i.id]=('unk',fn.short,i.id,p.frame)
        p.env.update(new)
    # ---- loops
    def modset(s,fn,h):
        """SSA headers and whether memory may change in loop h"""
        return fn.loops[h]
    def loop(s,fn,h,prev,p,depth,fr,loops):
        body=fn.loops[h]
        # values on entry
        if prev!='@joined': s.phis(fn,h,prev,p)
        entry={i.id:p.env[i.id] for i in fn.blocks[h] if i.op=='phi'}
        p.n[0]+=1;ver=p.n[0]
        pre=p.copy()
        s.lentry.setdefault((fr,h),[]).append({k[1]:v for k,v in pre.mem.items() if k[0]=='size'})
        # first pass: what does the body change?
        n0=len(pre.ev)
        what=None
        for attempt in(0,1):
            probe=pre.copy()
            for k in entry:
                me=('iv',h,fr,k);s.ivroot[me]=entry[k]
                # a pointer walking over a container is read as a running index
                probe.env[k]=('elem',entry[k][1],me) if entry[k][0]=='elem' else me
            s.smash(fn,body,probe,fr,ver,what)
            res=s.walk_body(fn,h,probe,depth,fr,loops)
            if attempt: break
            what=set()
            for q in res:
                w=s.written(q.ev[n0:])
                if w is None: what=None;break
                what|=w
            if what is None: break
        back=[q for q in res if q.end==('back',h)]
        # induction: phi value after one iteration
        step={}
        for k in entry:
            ds=set()
            for q in back:
                nv=s.backval(fn,h,k,q)
                ds.add(nv)
            if len(ds)==1: step[k]=ds.pop()
        bodies=[]
        out=[]
        inv={}
        for k in entry:
            v=step.get(k)
            if v is None: inv[k]=None;continue
            me=('iv',h,fr,k)
            if entry[k][0]=='elem':
                inv[k]=sub(v[2],me) if v[0]=='elem' and v[1]==entry[k][1] else None
            elif v[0]=='idx' and v[1]==me: inv[k]=('ptrstep',scale(v[2],v[3]))
            elif v[0]=='off' and v[1]==me: inv[k]=('ptrstep',('const',v[2]))
            else: inv[k]=sub(v,me)
        for q in back: bodies.append((tuple(x for x in q.cond[len(pre.cond):]),tuple(q.ev[n0:])))
        info={'header':h,'fn':fn.short,'entry':{k:v for k,v in entry.items()},'step':inv,'fr':fr}
        for k in entry:
            if entry[k][0]=='elem': entry[k]=entry[k][2]
        bodies=tuple(bodies)
        # value of every loop variable after each body path
        nx=[{('iv',h,fr,k):s.backval(fn,h,k,q) for k in entry} for q in back]
        s.lnext[id(bodies)]=(bodies,nx)
        lv=('loop',tuple(sorted(((('iv',h,fr,k),entry[k],inv[k]) for k in entry),key=repr)),bodies,fn.blocks[h][-1].loc)
        for q in res:
            if q.end==('back',h): continue
            # the path leaves the loop on some iteration
            evs=q.ev[n0:]
            q.ev=q.ev[:n0]+[lv+(('partial',tuple(evs)),)]+list(evs) if evs or bodies else q.ev[:n0]
            if q.end[0]=='leave':
                x,pb=q.end[2],q.end[3];q.end=None
                out+=s.walk(fn,x,pb,q,depth,fr,loops)
            else: out.append(q)
        return out
    def backval(s,fn,h,k,q):
        i=fn.inst[k]
        for b,v in i.d['in']:
            if b==q.stop: return s.op(fn,v,q)
        return None
    def walk_body(s,fn,h,p,depth,fr,loops):
        out=[]
        L=loops+((fr,h),)
        # execute header without re-reading the phis
        res=s._walk_from_header(fn,h,p,depth,fr,L)
        return res
    def _walk_from_header(s,fn,h,p,depth,fr,L):
        p.env['@skipphi']=h
        out=[];work=[(h,None,p,0,True)]
        # same engine: step the header block by hand, then use walk for successors
        first=True
        pend=[(p,0)]
        while pend:
            q,k0=pend.pop()
            cont=True
            for k in range(k0,len(fn.blocks[h])):
                i=fn.blocks[h][k]
                if i.op=='phi': continue
                r=s.step(fn,i,q,depth,fr)
                if r is not None:
                    for z in r:
                        if z.end: out.append(z)
                        else: pend.append((z,k+1))
                    cont=False;break
            if not cont: continue
            t=fn.blocks[h][-1]
            nxt=[]
            if t.op=='ret':
                q.ret=s.op(fn,t.o[0],q) if t.o else None;q.end=('ret',);out.append(q);continue
            if t.op=='br' and not t.o: nxt=[(t.d['succ'][0],q)]
            elif t.op=='br':
                c=s.truth(s.op(fn,t.o[0],q));hh=q.has(c);T,F=t.d['succ']
                if hh>=0:
                    z=q.copy()
                    if hh==0: s.assume(z,c,t)
                    nxt.append((T,z))
                if hh<=0:
                    z=q
                    if hh==0: s.assume(z,notc(c),t)
                    nxt.append((F,z))
            elif t.op=='switch':
                for c,d in [(x[0],x[1]) for x in t.d['cases']]+[(None,t.d['default'])]:
                    z=q.copy()
                    if c is not None: s.assume(z,cmpc('eq',s.op(fn,t.o[0],q),('const',c)),t)
                    nxt.append((d,z))
            else: q.end=('stop',);out.append(q);continue
            for x,z in nxt:
                if x==h and True:
                    z.end=('back',h);z.stop=h;out.append(z);continue
                if x not in fn.loops[h]: z.end=('leave',h,x,h);out.append(z);continue
                for r in s.walk(fn,x,h,z,depth,fr,L): out.append(r)
        return out
    def written(s,ev):
        out=set()
        for e in ev:
            k=e[0]
            if k=='store': out.add(e[1])
            elif k=='setstr': out.add(('S',e[1]))
            elif k in('push','resize'): out.add(('size',e[1]))
            elif k in('memcpy','memset','copy'): out.add(e[1])
            elif k=='free': pass
            elif k in('mtouch',): pass
            elif k in('mins','merase','mclear'): out.add(('mat',e[1],('any',)))
            elif k=='out': pass
            elif k=='call':
                if e[2] is not None and len(e)>5:   # not a pure call
                    n=e[1];W=WRITES.get(n)
                    if FRESH.match(n): continue
                    if W is None and e[6]:
                        for x in e[2]:
                            if x[0] not in('const','str','null','undef'): out.add(('T',x))
                        continue
                    if W is None: return None
                    for x in W:
                        if x<len(e[2]): out.add(('S',e[2][x]))
            elif k=='loop':
                for c,b in e[2]:
                    w=s.written(b)
                    if w is None: return None
                    out|=w
                for t in e[4:]:
                    if t[0]=='partial':
                        w=s.written(t[1])
                        if w is None: return None
                        out|=w
        return out
    def smash(s,fn,body,p,fr,ver,what=None):
        """forget everything the loop body may store to"""
        calls=False;addrs=[]
        for b in body:
            for i in fn.blocks[b]:
                if i.op=='store':
                    addrs.append(i.o[1])
                elif i.op in('call','invoke'):
                    n=fn.callee(i)
                    if IGN.match(n) or OUTPUT.match(n) or s.pure(n) : 
                        for o in i.o[:1]: 
                            if n.startswith('std::basic_string::basic_string'): addrs.append(o)
                        if i.d.get('sret') is not None: addrs.append(i.o[i.d['sret']])
                        continue
                    calls=True
                    for o in i.o: addrs.append(o)
        heap=calls
        for o in addrs:
            r=o
            n=0
            while r[0]=='i' and n<40:
                x=fn.inst[r[1]];n+=1
                if x.op=='getelementptr': r=x.d['base']
                elif x.op in('bitcast','addrspacecast'): r=x.o[0]
                else: break
            if r[0]=='i':
                x=fn.inst[r[1]]
                if x.op=='alloca':
                    a=p.env.get(x.id)
                    if a is not None:
                        s.kill(a,p);p.mem[('obj',a)]=('loopval',ver)
                    continue
                a=p.env.get(x.id)
                if a is not None and s.root(a)[0]=='alloca': s.kill(s.root(a),p);p.mem[('obj',s.root(a))]=('loopval',ver);continue
            heap=True
        if heap and (what is None or what): s.havoc(p,what)
    # ---- one instruction; returns None or a list of continuations
    def step(s,fn,i,p,depth,fr):
        op=i.op;E=p.env
        if op in('br','switch','ret','unreachable','resume'):
            if op=='br' or op=='switch': p.stop=i.bb
            return None
        if op in CASTS: E[i.id]=s.op(fn,i.o[0],p);return None
        if op=='alloca':
            E[i.id]=('alloca',fn.inst[i.id].d.get('v') or 'tmp',fr,i.id);s.aty[E[i.id]]=i.d.get('aty','');return None
        if op=='getelementptr': E[i.id]=s.gep(fn,i,p);return None
        if op=='load':
            E[i.id]=s.load(s.op(fn,i.o[0],p),p);return None
        if op=='store':
            a=s.op(fn,i.o[1],p);v=s.op(fn,i.o[0],p)
            old=s.load(a,p) if s.root(a)[0]!='alloca' else None
            s.store(a,v,p)
            if s.root(a)[0]!='alloca': s.event(p,'store',a,v,i.loc)
            return None
        if op in('add','sub','mul'):
            a,b=s.op(fn,i.o[0],p),s.op(fn,i.o[1],p)
            E[i.id]=add(a,b) if op=='add' else sub(a,b) if op=='sub' else mul(a,b);return None
        if op=='shl':
            a,b=s.op(fn,i.o[0],p),s.op(fn,i.o[1],p)
            E[i.id]=scale(a,1<<b[1]) if b[0]=='const' and 0<=b[1]<62 else ('shl',a,b);return None
        if op=='icmp':
            E[i.id]=s.truth(cmpc(i.d['pred'],s.op(fn,i.o[0],p),s.op(fn,i.o[1],p)));return None
        if op=='fcmp':
            E[i.id]=('fcmp',i.d['pred'],s.op(fn,i.o[0],p),s.op(fn,i.o[1],p));return None
        if op=='xor':
            a,b=s.op(fn,i.o[0],p),s.op(fn,i.o[1],p)
            if i.d.get('t')=='i1' and b[0]=='const' and b[1]&1: E[i.id]=notc(a)
            else: E[i.id]=('xor',a,b)
            return None
        if op=='select':
            c=s.truth(s.op(fn,i.o[0],p));h=p.has(c)
            if h>0: E[i.id]=s.op(fn,i.o[1],p);return None
            if h<0: E[i.id]=s.op(fn,i.o[2],p);return None
            a,b=s.op(fn,i.o[1],p),s.op(fn,i.o[2],p)
            if a==b: E[i.id]=a;return None
            q=p.copy();s.assume(q,c,i);q.env[i.id]=a
            s.assume(p,notc(c),i);E[i.id]=b
            return [q,p]
        if op in('call','invoke'): return s.docall(fn,i,p,depth,fr)
        if op=='extractvalue':
            v=s.op(fn,i.o[0],p)
            if v[0]=='call' and v[1].endswith('mul.with.overflow'):
                # sizes are assumed not to overflow
                E[i.id]=mul(*v[2][:2]) if list(i.d.get('idx',()))==[0] else ZERO;return None
        E[i.id]=(op,)+tuple(s.op(fn,o,p) for o in i.o)
        return None
    def elsize(s,i): return None
    def pure(s,n): return PURE.match(n) is not None or n in('std::vector::max_size','std::abs','frexp','sqrt','std::sqrt','isspace','strchr','strstr')
    def docall(s,fn,i,p,depth,fr):
        n=fn.callee(i);E=p.env
        a=[s.op(fn,o,p) for o in i.o]
        loc=i.loc
        if IGN.match(n): E[i.id]=('undef',);return None
        if OUTPUT.match(n):
            E[i.id]=a[0] if a else ('undef',);s.event(p,'out',n,tuple(a[1:]),loc);return None
        if n in('std::unique_ptr::get',): E[i.id]=s.load(a[0],p);return None
        if IDENTITY.match(n) and a: E[i.id]=a[0];return None
        r=s.model(fn,i,n,a,p,loc)
        if r is not None:
            if isinstance(r,list): return r
            E[i.id]=r;return None
        # follow repository code when asked to
        if s.nested and depth<s.depth:
            t=s.nested(fn,i,n,a)
            if t is not None:
                outs=[]
                saved=p.env;frame=p.frame
                for q in s.call(t,a,p,depth+1):
                    if q.end and q.end[0]=='ret':
                        q.env=dict(saved);q.frame=frame;q.end=None
                        q.env[i.id]=q.ret if q.ret is not None else ('undef',);q.ret=None
                        outs.append(q)
                    else: outs.append(q)
                return outs
        if s.pure(n):
            d=[]
            for x in a:
                d.append(x)
            E[i.id]=('call',n,tuple(d)) if not p.hav else ('call',n,tuple(d),p.hav[-1][0])
            if i.d.get('sret') is not None:
                dst=a[i.d['sret']];s.kill(dst,p);p.n[0]+=1;p.mem[('obj',dst)]=('res',n,tuple(x for k,x in enumerate(a) if k!=i.d['sret']),p.n[0])
            s.event(p,'call',n,tuple(a),loc,E[i.id])
            if s.psnap is not None: s.psnap[id(p.ev[-1])]=(p.ev[-1],tuple(s.snap(x,p) if s.root(x)[0]=='alloca' else () for x in a))
            return None
        p.n[0]+=1
        E[i.id]=('fresh' if FRESH.match(n) else 'call',n,tuple(a),p.n[0])
        W=WRITES.get(n)
        snaps=tuple(s.snap(x,p) if s.root(x)[0]=='alloca' else () for x in a)
        for k,x in enumerate(a):
            if W is not None and k not in W: continue
            if s.root(x)[0]=='alloca':
                s.kill(x,p);p.mem[('obj',x)]=('res',n,tuple(a),p.n[0],k)
        s.event(p,'call',n,tuple(a),loc,E[i.id],'callee' in i.d and i.d['callee'] not in s.prog.by,snaps)
        if W is None and not FRESH.match(n):
            ext='callee' in i.d and i.d['callee'] not in s.prog.by
            if ext: s.havoc(p,[('T',x) for x in a if s.root(x)[0]!='alloca' and x[0] not in('const','str','null','undef')])
            else: s.havoc(p,None,tuple(s.root(x) for x in a))
        return None
    # ---- library models
    def key(s,a,p): return s.strval(a,p)
    def model(s,fn,i,n,a,p,loc):
        if n.startswith(STRING+'::basic_string'):
            if len(a)==1: p.mem[('S',a[0])]=('str',b'');return ('undef',)
            v=s.strval(a[1],p);s.kill(a[0],p);p.mem[('S',a[0])]=v if len(a)<4 else ('strpart',v)+tuple(a[2:3]);return ('undef',)
        if n==STRING+'::operator=' or n==STRING+'::assign' and len(a)==2:
            v=s.strval(a[1],p);p.mem[('S',a[0])]=v
            if s.root(a[0])[0]!='alloca': s.event(p,'setstr',a[0],v,loc)
            return a[0]
        if n in(STRING+'::c_str',STRING+'::data'):
            v=s.strval(a[0],p);return v if v[0] in('chars','str','arg') else ('chars',a[0])
        if n.startswith(STRING+'::~'): return ('undef',)
        m=re.match(r'^std::(vector|deque)::(.*)$',n)
        if m:
            v=a[0] if a else None;f=m.group(2)
            if f=='size': return s.size(v,p)
            if f=='empty': return cmpc('eq',s.size(v,p),ZERO)
            if f in('operator[]','at'):
                if f=='at' or True: return ('elem',v,a[1])
            if f=='back': return ('elem',v,sub(s.size(v,p),ONE))
            if f in('end','cend'): return ('elem',v,s.size(v,p))
            if f in('front','data','begin','cbegin'): return ('elem',v,ZERO)
            if f in('push_back','emplace_back'):
                sz=s.size(v,p)
                val=None
                if len(a)>1:
                    x=a[1];t=s.snap(x,p)
                    val=p.mem.get(x) if not re.match(r'^[^(]*std::vector<(Partio::|std::pair|\(anonymous)',i.d.get('dem','')) else None
                    if val is None and ('S',x) in p.mem: val=p.mem[('S',x)]
                    if val is None: val=('val',x,t) if t else (('ref',x) if s.root(x)[0]!='alloca' else ('val',x,t))
                else: val=('default',)
                s.event(p,'push',v,val,sz,loc)
                if len(a)>1: s.copyobj(('elem',v,sz),a[1],p)
                p.mem[('size',v)]=add(sz,ONE)
                if f=='emplace_back': return ('elem',v,sz)
                return ('undef',)
            if f=='resize':
                s.event(p,'resize',v,a[1],s.size(v,p),loc);p.mem[('size',v)]=a[1];return ('undef',)
            if f=='clear':
                s.event(p,'resize',v,ZERO,s.size(v,p),loc);p.mem[('size',v)]=ZERO;return ('undef',)
            if f=='pop_back':
                z=sub(s.size(v,p),ONE);s.event(p,'resize',v,z,s.size(v,p),loc);p.mem[('size',v)]=z;return ('undef',)
            if f in('reserve','shrink_to_fit'): return ('undef',)
            if f=='vector':
                if len(a)==1: s.kill(v,p);p.mem[('size',v)]=ZERO;return ('undef',)
                if len(a)>=2: s.kill(v,p)
                if len(a)>=2 and re.search(r'::vector\((unsigned long|unsigned int|size_t|std::size_t)\b',i.d.get('dem','')):
                    p.mem[('size',v)]=a[1]
                    if s.psnap is not None: s.event(p,'vnew',v,a[1],loc)
                return ('undef',)
            if f.startswith('~'): return ('undef',)
            return None
        m=re.match(r'^std::(unordered_map|map)::(.*)$',n)
        if m:
            v=a[0];f=m.group(2)
            if f=='find': return ('find',v,s.key(a[1],p))
            if f in('end','cend'): return ('mend',v)
            if f in('count','contains'): return ('present',v,s.key(a[1],p))
            if f in('operator[]',):
                k=s.key(a[1],p);s.event(p,'mtouch',v,k,loc);return ('mat',v,k)
            if f=='at': return ('mat',v,s.key(a[1],p))
            if f in('insert','emplace','insert_or_assign','try_emplace'):
                if len(a)>=3: k=s.key(a[1],p);val=s.load(a[2],p) if a[2][0] in('alloca','fld','elem') else a[2]
                else:
                    # a pair built in place
                    k=p.mem.get(('S',a[1]));val=p.mem.get(('fld',a[1],'second'),p.mem.get(('fld',a[1],'#1')))
                    pk=p.mem.get(('pair',a[1]))
                    if pk: k,val=pk
                s.event(p,'mins',v,k,val,f,loc)
                if k is not None and val is not None:
                    if f=='insert_or_assign' or ('mat',v,k) not in p.mem and (p.has(('present',v,k))<0 or any(e[0]=='mclear' and e[1]==v or e[0]=='merase' and e[1:3]==(v,k) for e in p.ev)): p.mem[('mat',v,k)]=val
                    elif ('mat',v,k) not in p.mem: p.mem[('mat',v,k)]=('insv',v,k,val)
                return ('minsret',v,k)
            if f=='erase':
                x=a[1]
                if x[0]=='find': s.event(p,'merase',v,x[2],'iter',loc)
                else:
                    q=s.iterval(x,p)
                    if q is not None and q[0]=='find': s.event(p,'merase',v,q[2],'iter',loc)
                    else: s.event(p,'merase',v,s.key(x,p),'key',loc)
                for k in list(p.mem):
                    if k[0]=='mat' and k[1]==v: del p.mem[k]
                return ('undef',)
            if f=='clear': s.event(p,'mclear',v,loc);return ('undef',)
            if f in('size',): return s.size(v,p)
            if f=='empty': return cmpc('eq',s.size(v,p),ZERO)
            if f in('map','unordered_map'):
                if len(a)==1: p.mem[('size',v)]=ZERO
                return ('undef',)
            if f.startswith('~'): return ('undef',)
            return None
        if n=='std::make_pair' and i.d.get('sret') is None and len(a)==2:
            return ('pairv',s.load(a[0],p),s.load(a[1],p))
        if n=='std::unique_ptr::reset' and len(a)==2: p.mem[a[0]]=a[1];return ('undef',)
        if n=='std::unique_ptr::unique_ptr': p.mem[a[0]]=a[1] if len(a)==2 and a[1][0] in('fresh','arg','null','call') else ('null',);return ('undef',)
        if n in('std::unique_ptr::operator[]','std::unique_ptr::operator_arrow','std::unique_ptr::operator*') and a:
            b=s.load(a[0],p)
            return ('idx',b,a[1],s.elsize(i)) if len(a)==2 and s.elsize(i) else b if len(a)==1 else None
        if n in('std::make_pair','std::pair::pair') and i.d.get('sret') is not None or n=='std::pair::pair':
            if len(a)>=3:
                k=s.key(a[1],p) if ('S',a[1]) in p.mem or a[1][0] in('arg','str','chars','fld') else p.mem.get(a[1],a[1])
                val=s.load(a[2],p) if a[2][0] in('alloca','fld','elem') else a[2]
                p.mem[('pair',a[0])]=(k,val);return ('undef',)
            if len(a)==2:
                q=p.mem.get(('pair',a[1]))
                if q: p.mem[('pair',a[0])]=q
                return ('undef',)
        if re.match(r'^std::(__detail::)?operator(==|!=)$',n) and len(a)==2 or ITER.match(n) and re.search(r'operator(==|!=)$',n):
            x,y=s.iterval(a[0],p),s.iterval(a[1],p)
            c=None
            for u,w in((x,y),(y,x)):
                if u is not None and w is not None and u[0]=='find' and w[0]=='mend' and u[1]==w[1]: c=('present',u[1],u[2])
            if c is not None:
                if ('mat',c[1],c[2]) in p.mem and any(e[0] in('mtouch','mins') and e[1]==c[1] and e[2]==c[2] for e in p.ev): c=ONE
                return c if n.endswith('!=') else notc(c)
            if n.startswith('std::operator') :
                t=(s.strval(a[0],p),s.strval(a[1],p))
                c=('streq',)+tuple(sorted(t,key=repr))
                return c if n.endswith('==') else notc(c)
            return None
        if ITER.match(n):
            if re.search(r'::operator(_arrow|\*)$',n):
                x=s.iterval(a[0],p)
                if x is not None and x[0]=='find': return ('mnode',x[1],x[2])
                return None
            if re.search(r'(_Rb_tree_(const_)?iterator|_Node_(const_)?iterator)$',n) or n.endswith('operator='):
                if len(a)>=2:
                    x=s.iterval(a[1],p)
                    p.mem[a[0]]=x if x is not None else ('unk','iter',0,0)
                    return ('undef',)
        if n.startswith(('llvm.memcpy','llvm.memmove')) or n in('memcpy','memmove','std::memcpy'):
            if s.root(a[0])[0]=='alloca':
                s.copyobj(a[0],a[1],p)
                return a[0]
            s.event(p,'memcpy',a[0],a[1],a[2],loc)
            return a[0]
        if n.startswith('llvm.memset') or n=='memset':
            if s.root(a[0])[0]=='alloca':
                s.kill(a[0],p);p.mem[('obj',a[0])]=('zero',) if a[1]==ZERO else ('fill',a[1])
                return a[0]
            s.kill(a[0],p)
            if a[1]==ZERO: p.mem[('obj',a[0])]=('zero',)
            s.event(p,'memset',a[0],a[1],a[2],loc)
            return a[0]
        m=re.match(r'^Partio::(Particle|Fixed)Attribute::((Particle|Fixed)Attribute|operator=)$',n)
        if m:
            if len(a)==1:
                s.kill(a[0],p);p.mem[('obj',a[0])]=('attr0',);return ('undef',)
            if len(a)==2:
                o=p.mem.get(('obj',a[1]))
                s.copyobj(a[0],a[1],p)
                if s.root(a[0])[0]!='alloca': s.event(p,'copy',a[0],a[1],loc,s.snap(a[1],p))
                return a[0]
        if n=='Partio::TypeSize': return ('call',n,tuple(a))
        if re.match(r'^llvm\.(u|s)(min|max)$',n): return ('call',n,tuple(sorted(a,key=repr)))
        if n in('free','operator delete','operator delete[]'):
            s.event(p,'free',a[0],loc);return ('undef',)
        return None
    def iterval(s,a,p):
        if a[0] in('find','mend'): return a
        v=p.mem.get(a)
        if v is not None and v[0] in('find','mend'): return v
        o=p.mem.get(('obj',a))
        if o is not None and o[0]=='copy': return s.iterval(o[1],p)
        return None

def devirt(prog,cls=None):
    """follow virtual calls on `this` when the class has a single implementation, and
    direct calls of repository functions that survived inlining"""
    def f(fn,i,n,a):
        if 'vclass' in i.d:
            t=prog.impls(i)
            if cls is not None:
                t=[x for x in t if prog.by[x].short.startswith('Partio::'+cls+'::')]
            elif len(t)!=1: return None
            return prog.by[t[0]] if len(t)==1 else None
        if 'callee' in i.d and i.d['callee'] in prog.by:
            g=prog.by[i.d['callee']]
            if re.match(r'src/lib/(core/|io/\.\./core/|[^/]*\.h)',g.file) and not re.match(r'^Partio::(TypeSize|TypeName|create|freeCached)',g.short) : return g
        return None
    return f

def fmt(t,depth=8):
    if not isinstance(t,tuple): return str(t)
    if not t: return '()'
    if depth==0: return '…'
    f=lambda x:fmt(x,depth-1);k=t[0]
    if k=='arg': return 'arg%d'%t[1]
    if k=='const': return str(t[1])
    if k=='lin': return '('+' + '.join(([str(t[1])] if t[1] else [])+[(f(x) if c==1 else '%d*%s'%(c,f(x))) for x,c in t[2]])+')'
    if k=='mul': return '*'.join(f(x) for x in t[1])
    if k=='load': return '*%s%s'%(f(t[1]),'' if len(t)<3 else "'%d"%t[2])
    if k=='fld': return '%s.%s'%(f(t[1]),t[2])
    if k=='elem': return '%s[%s]'%(f(t[1]),f(t[2]))
    if k=='idx': return '%s[%s*%d]'%(f(t[1]),f(t[2]),t[3])
    if k=='off': return '%s+%d'%(f(t[1]),t[2])
    if k=='mat': return '%s{%s}'%(f(t[1]),f(t[2]))
    if k=='mnode': return '%s.node{%s}'%(f(t[1]),f(t[2]))
    if k=='size': return '|%s|%s'%(f(t[1]),'' if len(t)<3 else "'%d"%t[2])
    if k=='alloca': return '&%s%s'%(t[1],t[3])
    if k=='glob': return '@'+t[1]
    if k=='str': return repr(t[1].decode('latin1'))
    if k=='cmp': return '(%s %s %s)'%(f(t[2]),t[1],f(t[3]))
    if k=='iv': return 'i%d'%t[3]
    if k in('call','fresh'): return '%s(%s)%s'%(t[1].replace('std::','').replace('Partio::',''),', '.join(f(x) for x in t[2]),'' if len(t)<4 else '#%s'%(t[3],))
    return '%s(%s)'%(k if isinstance(k,str) else f(k),', '.join(f(x) for x in t[1:]))

def dumppaths(ps):
    for k,p in enumerate(ps):
        print(' path %d %s ret %s'%(k,p.end,fmt(p.ret) if p.ret else ''))
        for c,l in p.cond: print('    if',fmt(c))
        dumpev(p.ev,'    ')
def dumpev(ev,ind):
    for e in ev:
        if e[0]=='loop':
            print(ind+'LOOP',[(fmt(x),fmt(y),fmt(z) if z else None) for x,y,z in e[1]])
            for c,b in e[2]:
                print(ind+'   iter if',[fmt(x[0]) for x in c]);dumpev(b,ind+'      ')
        elif e[0]!='out': print(ind+e[0],[fmt(x) if isinstance(x,tuple) else x for x in e[1:]])
