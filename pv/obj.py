"""Roles of the particle-set classes' members, found from what their methods do."""
from paths import *

BASE='Partio::ParticlesInfo'
class Obj(object):
    def __init__(s,c,prog):
        s.c=c;s.prog=prog;s.memo={}
        s.classes=[k for k in prog.all_derived('Partio::ParticlesDataMutable') if s.concrete(k)]
    def concrete(s,k):
        v=s.prog.vt.get(k)
        return bool(v) and not any(x and x[0]=='g' and '__cxa_pure_virtual' in x[1] for x in v.values())
    def methods(s,cls,name,pred=None):
        out=[f for f in s.prog.find(cls+'::'+name)]
        return [f for f in out if pred is None or pred(f)]
    def method(s,cls,name,*types):
        """the overload of cls::name whose parameter types start with the given ones; follows
        the vtable when the class inherits it"""
        for f in s.methods(cls,name):
            ps,_=params(f.dem)
            if ps is None: continue
            if len(ps)>=len(types) and all(t in q for t,q in zip(types,ps)): return f
        return None
    def paths(s,f,cls,limit=None):
        k=(f.name,cls)
        if k not in s.memo:
            it=Interp(s.prog,devirt(s.prog,cls.split('::')[-1]),limit=limit)
            try: r=it.run(f)
            except TooMany: r=None
            s.memo[k]=(it,r);s.c.touch(f)
        return s.memo[k]
    def arg(s,f,n):
        """term of the n-th source parameter (0 = this for methods)"""
        sr=1 if f.args and f.args[0][1] in('agg.result',) or f.d.get('sret') is not None else 0
        return ('arg',n+sr)
    def hasret(s,f):
        for k,a in enumerate(f.args):
            if a[1]=='this': return k
        return 0
    def this(s,f): return ('arg',s.hasret(f))
    def par(s,f,n): return ('arg',s.hasret(f)+1+n)
    def size_of(s,cls,name):
        """the container whose size a getter returns"""
        f=s.method(cls,name)
        if f is None: return None
        it,ps=s.paths(f,cls)
        rs=set(p.ret for p in ps or ())
        if len(rs)==1:
            r=rs.pop()
            if r and r[0]=='size': return s.norm(f,r[1])
        return None
    def field_of(s,cls,name):
        f=s.method(cls,name)
        if f is None: return None
        it,ps=s.paths(f,cls)
        rs=set(p.ret for p in ps or ())
        if len(rs)==1:
            r=rs.pop()
            if r and r[0]=='load': return s.norm(f,r[1])
        return None
    def norm(s,f,t):
        """replace this-argument by ('this',)"""
        me=s.this(f)
        def r(x):
            if x==me: return ('this',)
            return tuple(r(y) if isinstance(y,tuple) else y for y in x)
        return r(t)
    def under_this(s,f,a):
        """is the address inside the object (or something it owns)?"""
        me=s.this(f)
        while True:
            if a==me: return True
            if a[0] in('fld','idx','off','elem','mat'): a=a[1]
            elif a[0]=='load': a=a[1]
            else: return False
MUT=('store','setstr','push','resize','memcpy','memset','copy','mtouch','mins','merase','mclear','free')
def flat(ev,inloop=False):
    """effects of a path, loop bodies included once: (event, in loop?)"""
    for e in ev:
        if e[0]=='loop':
            for c,b in e[2]:
                for x in flat(b,True): yield x
        else: yield e,inloop
def subterms(t):
    st=[t]
    while st:
        x=st.pop()
        if not isinstance(x,tuple): continue
        if x and isinstance(x[0],str): yield x
        st.extend(y for y in x if isinstance(y,tuple))
