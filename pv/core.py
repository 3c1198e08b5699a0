"""Program model over the JSON printed by pvx: CFG, SSA, dominators, control
dependence, loops, canonical value terms, virtual-call resolution."""
import json, os, re, subprocess, hashlib, sys, collections

class AnalysisBroken(Exception):
    """An anchor or rule instance the analysis needs is not there."""

def strip_template(s):
    out=[];d=0
    for ch in s:
        if ch=='<': d+=1
        elif ch=='>': d-=1
        elif d==0: out.append(ch)
    return ''.join(out)

def _name_part(d):
    """Demangled signature -> qualified name with template arguments (no params, no return type)."""
    d=re.sub(r'\(anonymous namespace\)::','anon::',d)
    d=d.replace('operator()','operator_call').replace('operator<<','operator_shl').replace('operator>>','operator_shr')
    d=d.replace('operator->','operator_arrow').replace('operator<','operator_lt').replace('operator>','operator_gt')
    depth=0; end=len(d)
    for i,ch in enumerate(d):
        if ch=='<': depth+=1
        elif ch=='>': depth-=1
        elif ch=='(' and depth==0:
            end=i;break
    d=d[:end]
    # drop the return type: last space at depth 0
    depth=0; start=0
    for i,ch in enumerate(d):
        if ch=='<': depth+=1
        elif ch=='>': depth-=1
        elif ch==' ' and depth==0 and not d[:i].endswith('operator') and not d[i+1:].startswith(('new','delete','[]')):
            start=i+1
    return d[start:].replace('[abi:cxx11]','')

class Inst(object):
    __slots__=('id','op','d','bb','fn','pos')
    def __init__(s,d,bb,fn,pos):
        s.id=d['id'];s.op=d['op'];s.d=d;s.bb=bb;s.fn=fn;s.pos=pos
    @property
    def t(s): return s.d['t']
    @property
    def o(s): return s.d.get('o',[])
    @property
    def loc(s):
        l=s.d.get('l')
        if not l: return '?'
        return '%s:%d'%(relp(l[0]),l[1])
    def __repr__(s): return '<%s %%%d %s>'%(s.op,s.id,s.loc)

REPO='/repo'
def relp(p):
    return p[len(REPO)+1:] if p.startswith(REPO+'/') else p

class Fn(object):
    def __init__(s,d,prog):
        s.prog=prog; s.d=d; s.name=d['name']; s.dem=d['dem']; s.args=d['args']
        s.qual=_name_part(s.dem); s.short=strip_template(s.qual)
        m=re.search(r'\(\.([\w]+)\)$',s.dem) or re.search(r'\[clone \.([\w]+)\]',s.dem)
        s.suffix=m.group(1) if m else ''
        s.file=relp(d.get('file','')); s.line=d.get('line',0)
        s.blocks=[]; s.inst={}
        for bi,b in enumerate(d['blocks']):
            L=[]
            for pi,i in enumerate(b):
                x=Inst(i,bi,s,pi); L.append(x); s.inst[x.id]=x
            s.blocks.append(L)
        n=len(s.blocks)
        s.succ=[s._succ(b) for b in s.blocks]
        s.pred=[[] for _ in range(n)]
        for i,ss in enumerate(s.succ):
            for t in ss: 
                if i not in s.pred[t]: s.pred[t].append(i)
        s._users=None; s._idom=None; s._term={}
        s._loops=None; s._cd=None; s._pdom=None
    def __repr__(s): return '<Fn %s>'%s.short
    def _succ(s,b):
        t=b[-1]
        if t.op=='br': r=t.d['succ']
        elif t.op=='switch': r=[t.d['default']]+[c[1] for c in t.d['cases']]
        else: r=[]
        out=[]
        for x in r:
            if x not in out: out.append(x)
        return out
    def insts(s):
        for b in s.blocks:
            for i in b: yield i
    def calls(s):
        for i in s.insts():
            if i.op in('call','invoke'): yield i
    @property
    def users(s):
        if s._users is None:
            u=collections.defaultdict(list)
            for i in s.insts():
                for v in operands(i):
                    if v[0]=='i': u[v[1]].append(i)
            s._users=u
        return s._users
    # ---- dominators (iterative)
    def rpo(s):
        seen=set();order=[]
        st=[(0,iter(s.succ[0]))];seen.add(0)
        while st:
            n,it=st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m);st.append((m,iter(s.succ[m])));break
            else:
                order.append(n);st.pop()
        return order[::-1]
    @property
    def idom(s):
        if s._idom is None: s._idom=_idom(s.rpo(),s.pred,0)
        return s._idom
    def dominates(s,a,b):
        """block a dominates block b"""
        idom=s.idom
        if b not in idom: return True
        while True:
            if a==b: return True
            if idom[b]==b: return False
            b=idom[b]
    def inst_dominates(s,a,b):
        if a.bb==b.bb: return a.pos<b.pos
        return s.dominates(a.bb,b.bb)
    def exits(s):
        return [i for i,ss in enumerate(s.succ) if not ss]
    @property
    def pdom(s):
        """immediate post-dominators, virtual exit = -1"""
        if s._pdom is None:
            n=len(s.blocks)
            rs=[list(p) for p in s.pred]; 
            succ2=[list(x) for x in s.succ]
            ex=[i for i in s.exits() if s.blocks[i][-1].op=='ret'] 
            allex=s.exits()
            # reverse graph: node -1 -> exits
            order=[];seen=set([-1])
            def rsucc(n):
                return allex if n==-1 else s.pred[n]
            st=[(-1,iter(rsucc(-1)))]
            while st:
                n,it=st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m);st.append((m,iter(rsucc(m))));break
                else: order.append(n);st.pop()
            rpo=order[::-1]
            pred={b:[x for x in s.succ[b]] for b in range(len(s.blocks))}
            for e in allex: pred[e]=[-1]
            pred[-1]=[]
            s._pdom=_idom(rpo,pred,-1)
        return s._pdom
    @property
    def cdep(s):
        """block -> set of (branch block, successor) it is control dependent on (direct)"""
        if s._cd is None:
            cd=collections.defaultdict(set); pd=s.pdom
            for a,ss in enumerate(s.succ):
                if len(ss)<2: continue
                for t in ss:
                    stop=pd.get(a,-1)
                    x=t
                    while x!=stop and x!=-1:
                        cd[x].add((a,t))
                        nx=pd.get(x,-1)
                        if nx==x: break
                        x=nx
            s._cd=cd
        return s._cd
    def cdep_closure(s,b):
        """all (branch, succ) edges that transitively control block b"""
        out=set();st=[b];seen={b}
        while st:
            x=st.pop()
            for (a,t) in s.cdep[x]:
                out.add((a,t))
                if a not in seen: seen.add(a);st.append(a)
        return out
    # ---- reachability
    def reach(s,start,avoid=()):
        """blocks reachable from start (inclusive) without entering avoid"""
        seen=set();st=[start]
        while st:
            x=st.pop()
            if x in seen or x in avoid: continue
            seen.add(x);st.extend(s.succ[x])
        return seen
    # ---- natural loops
    @property
    def loops(s):
        if s._loops is None:
            L={}
            for b in s.idom:
                for t in s.succ[b]:
                    if s.dominates(t,b):
                        body=L.setdefault(t,{t})
                        st=[b]
                        while st:
                            x=st.pop()
                            if x in body: continue
                            body.add(x);st.extend(p for p in s.pred[x] if p in s.idom)
            s._loops=L
        return s._loops
    def loops_of(s,b):
        """headers of the loops containing block b, outermost first"""
        hs=[h for h,body in s.loops.items() if b in body]
        hs.sort(key=lambda h:-len(s.loops[h]))
        return hs
    # ---- callee
    def callee(s,i):
        return s.prog.callee(i)
    def val(s,o):
        return s.inst.get(o[1]) if o[0]=='i' else None

def operands(i):
    d=i.d
    for v in d.get('o',()): yield v
    if 'base' in d:
        yield d['base']
        for p in d['path']:
            if p[0]=='x': yield p[1]
    if 'in' in d:
        for b,v in d['in']: yield v
    if 'target' in d: yield d['target']
    if 'count' in d: yield d['count']

def _idom(rpo,pred,root):
    num={b:i for i,b in enumerate(rpo)}
    idom={root:root};ch=True
    def inter(a,b):
        while a!=b:
            while num[a]>num[b]: a=idom[a]
            while num[b]>num[a]: b=idom[b]
        return a
    while ch:
        ch=False
        for b in rpo:
            if b==root: continue
            ps=[p for p in pred[b] if p in idom]
            if not ps: continue
            n=ps[0]
            for p in ps[1:]: n=inter(n,p)
            if idom.get(b)!=n: idom[b]=n;ch=True
    return idom

class Program(object):
    def __init__(s,d):
        s.d=d
        s.globals={g['name']:g for g in d['globals']}
        s.structs=d['structs']
        s.fns=[Fn(f,s) for f in d['functions']]
        s.by={f.name:f for f in s.fns}
        s.bases=collections.defaultdict(list)
        for n,v in s.structs.items():
            for f in v['fields']:
                if f[0].startswith('base:'): s.bases[n].append(f[0][5:])
        s.vt={};s.vt2={}
        for g in d['globals']:
            if g['name'].startswith('_ZTV') and 'init' in g:
                cls=g['dem'].replace('vtable for ','')
                slots={}
                for off,sz,v in g['init']:
                    if off>=16: slots[(off-16)//8]=v
                s.vt[cls]=slots
                # the tables of further bases follow, each after a type-info entry
                start=None
                for off,sz,v in g['init']:
                    if v[0]=='g' and v[1].startswith('_ZTI'):
                        if off>8: start=off+8;s.vt2[cls]={}
                    elif start is not None and (off-start)//8 not in s.vt2[cls]: s.vt2[cls][(off-start)//8]=v
        s.derived=collections.defaultdict(set);s.pbase={}
        for g in d['globals']:
            if g['name'].startswith('_ZTI') and 'init' in g:
                me=g['dem'].replace('typeinfo for ','')
                for off,sz,v in g['init']:
                    if v[0]=='g' and v[1].startswith('_ZTI') and off>=16:
                        s.derived[v[2].replace('typeinfo for ','')].add(me)
                        s.pbase.setdefault(me,v[2].replace('typeinfo for ',''))
        s._cal={}
    def find(s,short,suffix=''):
        """functions with that qualified, template-free name"""
        return [f for f in s.fns if f.short==short and f.suffix==suffix]
    def one(s,short,suffix='',file=None):
        c=s.find(short,suffix)
        if file: c=[f for f in c if f.file==file]
        if len(c)!=1: raise AnalysisBroken('expected exactly one function %s%s, found %d'%(short,suffix and '.'+suffix,len(c)))
        return c[0]
    def all_derived(s,cls):
        out=[];st=[cls];seen=set()
        while st:
            x=st.pop()
            if x in seen: continue
            seen.add(x);out.append(x);st.extend(sorted(s.derived.get(x,())))
        return out
    def primary(s,c,cls):
        """does c share its first virtual table with its base cls?"""
        n=0
        while c!=cls and n<20:
            if c not in s.pbase: return False
            c=s.pbase[c];n+=1
        return True
    def vslot(s,cls,slot):
        """(method name, [implementations]) for a virtual slot"""
        impls=[];name=None
        for c in s.all_derived(cls):
            v=(s.vt if s.primary(c,cls) else s.vt2).get(c,{}).get(slot)
            if not v or v[0]!='g': continue
            if '__cxa_pure_virtual' in v[1]: continue
            q=strip_template(_name_part(v[2].replace('non-virtual thunk to ','')))
            impls.append(v[1])
            m=q.split('::')[-1]
            if m.startswith('~'): m='~'
            if name is None: name=m
        return name,impls
    def callee(s,i):
        """canonical callee name: 'std::ostream::write', 'Partio::create', or
        'virt:Class::method' for virtual calls; '' when unresolved"""
        k=(i.fn.name,i.id)
        r=s._cal.get(k)
        if r is None:
            r=s._callee(i); s._cal[k]=r
        return r
    def _callee(s,i):
        d=i.d
        if 'callee' in d:
            if d['callee'].startswith('llvm.'): return re.sub(r'\.p0.*|\.i\d+.*|\.f\d+.*','',d['callee'])
            return strip_template(_name_part(d['dem'])).replace('std::__cxx11::','std::')
        if 'vclass' in d:
            cls=d['vclass']
            cls=subprocess_demangle(cls)
            name,_=s.vslot(cls,d['vslot'])
            if name: return 'virt:%s::%s'%(cls.split('::')[-1],name)
            return 'virt:%s::#%d'%(cls,d['vslot'])
        return ''
    def impls(s,i):
        """possible repo targets of a call"""
        d=i.d
        if 'callee' in d: return [d['callee']] if d['callee'] in s.by else []
        if 'vclass' in d:
            return [n for n in s.vslot(subprocess_demangle(d['vclass']),d['vslot'])[1] if n in s.by]
        return []
    def string(s,gname):
        g=s.globals.get(gname)
        if g and 'str' in g:
            b=bytes.fromhex(g['str'])
            return b
        return None

_dm={}
def subprocess_demangle(n):
    r=_dm.get(n)
    if r is None:
        if n.startswith('_ZTS'):
            # _ZTSN6Partio20ParticlesDataMutableE
            m=n[4:]
            parts=[]
            k=0
            mm=m[1:-1] if m.startswith('N') else m
            while k<len(mm):
                q=re.match(r'(\d+)',mm[k:])
                if not q: break
                L=int(q.group(1));k+=len(q.group(1))
                parts.append(mm[k:k+L]);k+=L
            r='::'.join(parts) if parts else n
        else: r=n
        _dm[n]=r
    return r
