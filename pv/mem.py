"""Flow-sensitive reaching definitions for function-local memory, resolved value
terms (loads replaced by what was stored), loop trip counts."""
from terms import *

# calls that do not write through the pointers they are given
PURE=re.compile(r'''^(
 virt:\w+::(numParticles|numAttributes|numFixedAttributes|indexedStrs|fixedIndexedStrs|lookup\w*|dataInternal|fixedDataInternal|getParticleSizeInBytes?|begin|end|release|data|~|clone|cloneSchema)
 |std::(basic_string|vector|map|set|list|deque|array)::(size|length|c_str|data|empty|begin|end|rbegin|rend|cbegin|cend|operator\[\]|at|back|front|find|rfind|substr|count|compare|find_\w+|capacity|~\w+|operator\ basic_string_view)
 |std::operator(==|!=|_lt|_gt|_lt=|_gt=|\+)|std::operator_shl|std::ostream::(write|operator_shl|put|flush|~\w+)
 |memcmp|strcmp|strncmp|strlen|strnlen|memchr|strcasecmp|strtol|atoi|atof|printf|fprintf|puts
 |std::basic_ios::\w+|std::basic_ios::operator.*|std::istream::(tellg|eof|gcount|peek|ignore|seekg)
 |operator\ delete(\[\])?|free
 |Partio::(TypeSize|TypeName|ParticleAccessor::(raw|data)|ParticleIterator::operator!=|io::write|io::read|io::unzip)
 |virt:ParticlesDataMutable::(addAttribute|addFixedAttribute|registerIndexedStr|registerFixedIndexedStr|dataInternal|fixedDataInternal)
 |virt:ParticlesData::\w+
 |(std|__gnu_cxx)::(_Rb_tree_(const_)?iterator|_Node_(const_)?iterator|__normal_iterator|_List_iterator)::operator(_arrow|\*|==|!=)
 |__assert_fail|std::unique_ptr::(operator\ bool|get|~\w+)
 |std::(basic_ifstream|basic_ofstream)::\w+
 )$''',re.X)
# calls whose listed argument positions are written
WRITES={ 'llvm.memcpy':(0,), 'llvm.memmove':(0,), 'llvm.memset':(0,), 'memcpy':(0,), 'memset':(0,), 'memmove':(0,), 'strcpy':(0,),'strncpy':(0,),
 'std::istream::read':(1,), 'std::istream::get':(1,),'std::istream::getline':(1,),
 'Partio::endianSwap':(0,), 'Partio::ParticleAccessor::ParticleAccessor':(0,), 'Partio::ParticleAttribute::operator=':(0,), 'Partio::FixedAttribute::operator=':(0,),
 'virt:ParticlesInfo::attributeInfo':(2,), 'virt:ParticlesInfo::fixedAttributeInfo':(2,),
 'virt:ParticlesData::attributeInfo':(2,),
 'std::vector::push_back':(0,), 'std::vector::emplace_back':(0,),
}

def split(a):
    """address term -> (root, path tuple)"""
    p=[]
    while isinstance(a,tuple) and a[0] in('fld','idx','off'):
        if a[0]=='fld': p.append(('f',a[2]));a=a[1]
        elif a[0]=='idx': p.append(('x',a[2],a[3]));a=a[1]
        else: p.append(('o',a[2]));a=a[1]
    return a,tuple(reversed(p))

def path_alias(p,q):
    """'must' same, 'may' overlap, or 'no'"""
    for a,b in zip(p,q):
        if a==b: continue
        if a[0]=='f' and b[0]=='f': return 'no'
        if a[0]=='x' and b[0]=='x' and a[2]==b[2] and a[1][0]=='const' and b[1][0]=='const': return 'no'
        if a[0]=='o' and b[0]=='o': return 'no'
        return 'may'
    if len(p)==len(q): return 'must'
    # one is a prefix of the other: first field at offset 0 vs whole
    longer=p if len(p)>len(q) else q
    nxt=longer[min(len(p),len(q))]
    if nxt[0]=='x' and nxt[1][0]=='const': return 'elem'
    return 'prefix'

class Mem(object):
    def __init__(s,fn):
        s.fn=fn; s.prog=fn.prog; s.T=Terms(fn)
        s.w=[]     # per block list of (pos, inst, root, path, kind)
        s.bb=collections.defaultdict(list)
        s._r={}
        s.escaped=None
        for i in fn.insts():
            if i.op=='store':
                r,p=split(s.T.op(i.o[1])); s.bb[i.bb].append((i,r,p,'store',0))
            elif i.op in('call','invoke'):
                n=fn.callee(i)
                W=WRITES.get(n)
                if W is None and PURE.match(n):
                    if i.d.get('sret') is not None: W=(i.d['sret'],)
                    else: continue
                for k,a in enumerate(i.o):
                    if W is not None and k not in W: continue
                    t=s.T.op(a)
                    r,p=split(t)
                    if r[0] in('alloca',) or W is not None:
                        s.bb[i.bb].append((i,r,p,'call',k))
        for b in s.bb: s.bb[b].sort(key=lambda x:x[0].pos)
    def defs(s,addr,at,atbb=None):
        """definitions of memory at addr (term) reaching instruction `at`:
        list of ('store',inst) / ('call',inst,argno,alias) / ('entry',)"""
        root,path=split(addr)
        out=[];seen=set()
        st=[(at.bb,at.pos)]
        while st:
            b,pos=st.pop()
            stop=False
            for (i,r,p,kind,k) in reversed(s.bb.get(b,())):
                if pos is not None and i.pos>=pos: continue
                if r!=root: continue
                al=path_alias(p,path)
                if al=='no': continue
                if kind=='call':
                    n=s.fn.callee(i)
                    if al in('elem',) and len(p)>len(path) and n in('std::istream::read',): pass
                    out.append(('call',i,k,al))
                    if n=='Partio::endianSwap': 
                        continue           # look through: it permutes the bytes in place
                    if al in('must','prefix','elem'): stop=True;break
                    continue
                out.append(('store',i,None,al))
                if al=='must': stop=True;break
                if al=='elem' and len(p)<=len(path): stop=True;break
            if stop: continue
            if not s.fn.pred[b]: out.append(('entry',))
            for q in s.fn.pred[b]:
                if q not in seen:
                    seen.add(q);st.append((q,None))
        # dedupe
        u=[];k=set()
        for d in out:
            key=(d[0],d[1].id if len(d)>1 else 0)
            if key not in k: k.add(key);u.append(d)
        return u

class RTerms(Terms):
    """terms in which loads from local memory are resolved"""
    def __init__(s,fn,mem=None):
        Terms.__init__(s,fn); s.mem=mem or Mem(fn); s.depth=0
    def _inst(s,i):
        if i.op=='load':
            addr=s.mem.T.op(i.o[0])
            root,path=split(addr)
            if root[0]=='alloca' or root[0]=='call' or root[0]=='deref' or root[0]=='phi' or root[0]=='glob':
                ds=s.mem.defs(addr,i)
                ds=[d for d in ds if not(d[0]=='call' and s.fn.callee(d[1])=='Partio::endianSwap')]
                if root[0]!='alloca': ds=[d for d in ds if d[0]!='entry'] if all(d[0]!='entry' for d in ds) else None
                if ds:
                    alts=[]
                    for d in ds:
                        if d[0]=='store':
                            if d[3]=='must' or d[3]=='elem' or d[3]=='prefix': alts.append(s.op(d[1].o[0]))
                            else: alts.append(('maystore',s.op(d[1].o[0])))
                        elif d[0]=='call':
                            alts.append(('out',s.fn.callee(d[1]),d[1].id,d[2],path,tuple(s.op(a) for a in d[1].o)))
                        else: alts.append(('uninit',))
                    if len(alts)==1: return alts[0]
                    return ('alt',)+tuple(alts)
            return ('load',s.op(i.o[0]))
        return Terms._inst(s,i)

def atoms(t,out=None,seen=None):
    """all sub-terms"""
    if out is None: out=[];seen=set()
    if not isinstance(t,tuple) or id(t) in seen: return out
    seen.add(id(t))
    if t and isinstance(t[0],str): out.append(t);rest=t[1:]
    else: rest=t
    for x in rest:
        if isinstance(x,tuple): atoms(x,out,seen)
    return out

def value_leaves(fn,RT,t,seen=None,out=None):
    """terms a value can take, looking through phi, select, alt"""
    if out is None: out=[];seen=set()
    k=t[0]
    if k=='phi':
        if t[1] in seen: return out
        seen.add(t[1])
        for b,v in fn.inst[t[1]].d['in']: value_leaves(fn,RT,RT.op(v),seen,out)
    elif k=='select':
        value_leaves(fn,RT,t[2],seen,out);value_leaves(fn,RT,t[3],seen,out)
    elif k=='alt':
        for x in t[1:]: value_leaves(fn,RT,x,seen,out)
    else: out.append(t)
    return out

class Induction(object):
    """phi in a loop header stepping by a constant"""
    __slots__=('phi','init','step','header','bound','pred','trip','start')
    
def inductions(fn,RT,h):
    body=fn.loops[h]; out=[]
    for i in fn.blocks[h]:
        if i.op!='phi': break
        init=[];steps=[]
        for b,v in i.d['in']:
            if b in body: steps.append(v)
            else: init.append(v)
        if not init or not steps: continue
        ok=True;st=None
        for v in steps:
            x=fn.val(v)
            c=None
            while x is not None and x.op in('zext','sext','trunc'): x=fn.val(x.o[0])
            if x is not None and x.op in('add','sub'):
                a,b=RT.op(x.o[0]),RT.op(x.o[1])
                if a==('phi',i.id) and b[0]=='const': c=b[1] if x.op=='add' else -b[1]
                elif b==('phi',i.id) and a[0]=='const' and x.op=='add': c=a[1]
            elif x is not None and x.op=='getelementptr' and len(x.d['path'])==1:
                if RT.op(x.d['base'])==('phi',i.id) and x.d['path'][0][1][0]=='c': c=x.d['path'][0][1][1]
            if c is None or (st is not None and st!=c): ok=False;break
            st=c
        if ok and st:
            n=Induction();n.phi=i;n.step=st;n.header=h;n.start=[RT.op(v) for v in init]
            out.append(n)
    return out

def mem_inductions(fn,RT,h):
    return []

def trip(fn,RT,h):
    """(kind, term): number of iterations of loop h as 'bound - start' when every
    exit condition except early exits is a comparison of an induction variable.
    Returns list of (exit_block, count_term, induction) for counted exits and a
    list of other exit blocks."""
    body=fn.loops[h]
    inds={n.phi.id:n for n in inductions(fn,RT,h)}
    counted=[];other=[]
    for b in sorted(body):
        outs=[t for t in fn.succ[b] if t not in body]
        if not outs: continue
        term=fn.blocks[b][-1]
        c=None
        if term.op=='br' and term.o:
            stay=[t for t in fn.succ[b] if t in body]
            if len(stay)==1:
                cond=RT.op(term.o[0])
                pol=(term.d['succ'][0]==stay[0])   # loop continues when cond is true
                cond,pol=norm_cond(cond,pol)
                if cond[0]=='cmp':
                    pred,x,y=cond[1],cond[2],cond[3]
                    if not pol: pred=NEG[pred]
                    c=_count(fn,RT,inds,pred,x,y,body)
        if c: counted.append((b,)+c)
        else: other.append(b)
    return counted,other

def norm_cond(c,pol):
    while True:
        if c[0]=='xor' and len(c)==3 and c[2] in(('const',1),('const',-1)): c=c[1];pol=not pol
        elif c[0]=='cmp' and c[1]=='ne' and c[3]==('const',0) and c[2][0] in('cmp','xor','fcmp'): c=c[2]
        elif c[0]=='cmp' and c[1]=='eq' and c[3]==('const',0) and c[2][0] in('cmp','xor','fcmp'): c=c[2];pol=not pol
        else: return c,pol

def _lin(t):
    """t = base + const"""
    if t[0]=='add' and t[2][0]=='const': 
        b,c=_lin(t[1]);return b,c+t[2][1]
    if t[0]=='add' and t[1][0]=='const':
        b,c=_lin(t[2]);return b,c+t[1][1]
    if t[0]=='sub' and t[2][0]=='const':
        b,c=_lin(t[1]);return b,c-t[2][1]
    return t,0

def _count(fn,RT,inds,pred,x,y,body):
    def isind(t):
        b,c=_lin(t)
        if b[0]=='phi' and b[1] in inds: return inds[b[1]],c
        return None,0
    n,c=isind(x)
    bound=y
    if n is None:
        n,c=isind(y)
        if n is None: return None
        bound=x;pred=SWAP[pred]
    # continue while (phi + c) pred bound
    if len(n.start)!=1: return None
    s0=n.start[0]
    if s0[0]=='fconst': return None
    if n.step>0 and pred in('slt','ult','ne','sle','ule'):
        extra=(1 if pred in('sle','ule') else 0)-c
        return (mk_diff(bound,s0,extra,n.step),n)
    if n.step<0 and pred in('sgt','ugt','ne','sge','uge'):
        extra=(1 if pred in('sge','uge') else 0)+c
        return (mk_diff(s0,bound,extra,-n.step),n)
    return None

def mk_diff(hi,lo,extra,step):
    hb,hc=_lin(hi);lb,lc=_lin(lo)
    k=hc-lc+extra
    if hb[0]=='const': k+=hb[1];hb=None
    if lb[0]=='const': k-=lb[1];lb=None
    if hb is None and lb is None:
        n=k
        if step!=1: n=(k+step-1)//step
        return ('const',n)
    t=hb
    if lb is not None: t=('sub',hb if hb is not None else ('const',0),lb)
    if k: t=('add',t,('const',k))
    if step!=1: t=('sdiv',t,('const',step))
    return t
