"""C10: operations that take a particle set as const leave it unchanged."""
from util import *
from c08 import arg_reads_only
import extract
T='T'
DEREF=re.compile(r'(operator\*|operator_arrow|::base|::get|_M_ptr|::release|^std::(move|forward|addressof|__addressof))$')
LOOK=re.compile(r'^std::(vector|array|deque|list|set|map|basic_string|unordered_map|multimap|unique_ptr|shared_ptr|_Rb_tree\w*|__normal_iterator)::(begin|end|rbegin|rend|cbegin|cend|find|at|front|back|data|c_str|size|length|empty|count|lower_bound|upper_bound|equal_range|capacity|get|operator\*|operator_arrow|operator(==|!=)|base)$|^std::(vector|array|deque|basic_string)::operator\[\]$|^__gnu_cxx::__normal_iterator::')
ALG_SRC=re.compile(r'^std::(copy|copy_n|transform|accumulate|equal|distance|min_element|max_element|find|find_if|count|lower_bound|upper_bound|binary_search|for_each|lexicographical_compare|mismatch|uninitialized_copy|copy_backward|move_backward|inner_product|partial_sum)$')
DESTARG={'copy':2,'copy_n':2,'transform':None,'uninitialized_copy':2,'copy_backward':2,'partial_sum':2}
IGN=re.compile(r'^llvm\.(dbg|lifetime|experimental|assume|expect|va_)')
SYNC=re.compile(r'(mutex|Mutex|spin|lock)')
CONT=re.compile(r'^std::(vector|deque|list|set|map|basic_string|unordered_map|multimap|pair|tuple)::')
OUT=re.compile(r'::(copy|swap|splice|merge)$')
STR=re.compile(r'^std::(basic_string|basic_ostream|basic_istream|ostream|istream|basic_ios|operator_shl|operator_shr|basic_stringstream|basic_ostringstream|basic_ofstream|basic_ifstream)(::|$)')

def iter_arg(f,i,k):
    """is argument k a mutable iterator passed by value to an algorithm that may write through it?"""
    ps,const=params(i.d.get('dem',''))
    if ps is None: return False
    off=len(i.o)-len(ps)
    if k<off or re.search(r'(^|::)(__)?(operator|distance|advance|next|prev)',f.callee(i)): return False
    m=re.match(r'__gnu_cxx::__normal_iterator<(.*?)\*,',ps[k-off])
    return bool(m and not m.group(1).endswith('const') and not ps[k-off].endswith('&'))

class An(object):
    def __init__(s,c,p,classes):
        s.c=c;s.p=p;s.memo={};s.cur=set();s.bad={};s.classes=classes;s.sites=0;s.done=set()
    def summary(s,f,lev):
        """(returns T, parameters whose content may have become T)"""
        k=(f.name,lev)
        if k in s.memo: return s.memo[k]
        if k in s.cur or len(s.cur)>40: return (2 in lev,frozenset())
        s.cur.add(k)
        r=s.intra(f,lev)
        s.cur.discard(k);s.memo[k]=r
        return r
    def report(s,f,i,what):
        s.bad.setdefault((f.name,i.id),(f,i,what))
    def intra(s,f,lev):
        s.c.touch(f)
        P=collections.defaultdict(set);content=collections.defaultdict(set)
        for k,l in enumerate(lev):
            if l==2: P[('a',k)].add(T)
            elif l==1: P[('a',k)].add(('p',k));content[('p',k)].add(T)
            else: P[('a',k)].add(('p',k))
        ret=set()
        def V(o):
            if o[0]=='i': return P[('i',o[1])]
            if o[0]=='a': return P[('a',o[1])]
            if o[0]=='ge': return V(o[1])
            return set()
        def cont(S):
            r=set()
            for x in S:
                if x==T: r.add(T)
                else: r|=content[x]
            return r
        def hasT(S,seen=None):
            """does the memory of these objects lead to the particle set?"""
            st=list(S);seen=set()
            while st:
                x=st.pop()
                if x==T: return True
                if x in seen: continue
                seen.add(x);st.extend(content[x])
            return False
        ch=True;n=0
        def add(S,x):
            nonlocal ch
            if not x<=S: S|=x;ch=True
        while ch and n<30:
            ch=False;n+=1
            for i in f.insts():
                k=('i',i.id);op=i.op
                if op=='alloca': add(P[k],{('o',i.id)})
                elif op in('getelementptr',): add(P[k],V(i.d['base']))
                elif op=='phi':
                    for b,v in i.d['in']: add(P[k],V(v))
                elif op=='select':
                    add(P[k],V(i.o[1]));add(P[k],V(i.o[2]))
                elif op in('bitcast','addrspacecast','inttoptr','ptrtoint','extractvalue','insertvalue','freeze'):
                    for v in i.o: add(P[k],V(v))
                elif op=='load':
                    if i.t=='ptr' or i.t.startswith(('{','[','%')): add(P[k],cont(V(i.o[0])))
                elif op=='store':
                    a=V(i.o[1]);v=V(i.o[0])
                    if T in a: s.report(f,i,'stores into the particle set')
                    for x in a:
                        if x!=T: add(content[x],v)
                elif op in('atomicrmw','cmpxchg'):
                    if T in V(i.o[0]): s.report(f,i,'stores into the particle set')
                elif op=='ret':
                    for v in i.o: add(ret,V(v))
                elif op in('call','invoke'):
                    nm=f.callee(i)
                    if IGN.match(nm): continue
                    A=[V(o) for o in i.o]
                    if not any(hasT(x) for x in A):
                        # points-to of results in local memory still matters
                        if i.t=='ptr' and A: add(P[k],cont(A[0]) if DEREF.search(nm) else A[0])
                        if i.o and len(i.o)>1 and not s.p.impls(i):
                            for x in A[0]:
                                if x!=T:
                                    for y in A[1:]: add(content[x],cont(y))
                        continue
                    im=s.p.impls(i)
                    if im:
                        lv=tuple(2 if T in x else 1 if hasT(x) else 0 for x in A)
                        for n2 in im:
                            g=s.p.by[n2]
                            m=len(g.args);l2=(lv+(0,)*m)[:m]
                            rt,grow=s.summary(g,l2)
                            if rt: add(P[k],{T})
                            for a in grow:
                                if a<len(A):
                                    for x in A[a]:
                                        if x!=T: add(content[x],{T})
                        if i.t=='ptr' and A:
                            add(P[k],set(x for y in A for x in y if x!=T))
                        continue
                    s.sites+=1
                    # a library function outside the repository
                    al=ALG_SRC.match(nm)
                    for a,x in enumerate(A):
                        if T not in x: continue
                        if LOOK.match(nm) and a==0: continue
                        if al:
                            d=DESTARG.get(al.group(1),-1)
                            if d==-1 or d is not None and a!=d or d is None and a<2: continue
                        if not al and iter_arg(f,i,a) and nm.startswith('std::') and not CONT.match(nm):
                            s.report(f,i,'%s may modify the particle set'%nm);continue
                        if arg_reads_only(f,i,a) or SYNC.search(nm): continue
                        if a and CONT.match(nm) and not OUT.search(nm): continue
                        if 'callee' not in i.d and 'vclass' not in i.d: continue
                        if 'vclass' in i.d: continue
                        s.report(f,i,'%s may modify the particle set'%re.sub(r'^virt:','',nm))
                    if A:
                        if i.t=='ptr' or i.t.startswith('{'): add(P[k],cont(A[0]) if DEREF.search(nm) else A[0])
                        if nm.startswith('llvm.mem') or nm in('memcpy','memmove'):
                            for x in A[0]:
                                if x!=T: add(content[x],set(y for y in cont(A[1]) if y!=T or s.ptrs(f,i)))
                        elif not STR.match(nm):
                            for x in A[0]:
                                if x!=T:
                                    for a,y in enumerate(A[1:],1): add(content[x],set().union(*[content[z] for z in y if z!=T]) if y else set())
                                    if '*' in re.sub(r'\(.*','',i.d.get('dem','').split('>::')[0]) and T in set().union(*A[1:],set()): add(content[x],{T})
        grow=set(k for k in range(len(lev)) if lev[k]==0 and hasT(content[('p',k)]))
        return (T in ret,frozenset(grow))
    def ptrs(s,f,i):
        """may the copied bytes be pointers? (only for a structure that contains some)"""
        b=f.val(i.o[0])
        return bool(b is not None and b.op=='alloca' and re.search(r'Iterator|Accessor|_Rb_tree|vector|\bptr\b',b.d.get('aty','')))

def run(c):
    c.rule('points-to and effect analysis from every const particle-set parameter: no store, copy, container operation or callee reached from the operation writes memory that belongs to the set')
    p=c.view('raw')
    classes=set(x for x in p.all_derived('Partio::ParticlesInfo'))
    if len(classes)<5: raise AnalysisBroken('the particle-set classes were not found')
    short=set(x.split('::')[-1] for x in classes)
    a=An(c,p,classes)
    n=0
    for f in sorted(p.fns,key=lambda f:f.name):
        if not f.file.startswith('src/lib'): continue
        ps,const=params(f.dem)
        if ps is None: continue
        off=len(f.args)-len(ps)
        lev=[0]*len(f.args);tag=[]
        cls='::'.join(f.short.split('::')[:-1])
        meth=f.short.split('::')[-1]
        if const and cls in classes and off>=1 and meth!='release':
            t=[k for k in range(off) if f.args[k][1]=='this']
            if t: lev[t[0]]=2;tag.append('this')
        for k,q in enumerate(ps):
            m=re.match(r'(Partio::\w+) const\s*[&*](\s*const)?$',q)
            if m and m.group(1) in classes and meth not in('freeCached','release'): lev[k+off]=2;tag.append(f.args[k+off][1] or str(k))
        if not tag: continue
        n+=1
        before=set(a.bad)
        a.summary(f,tuple(lev))
        new=[a.bad[k] for k in a.bad if k not in before]
        if not new: c.ok('unchanged','%s(%s)'%(f.short,','.join(tag)))
        for g,i,what in new:
            c.bad('%s in %s'%(g.short,what),'%s, which promises not to change %s, reaches %s, which %s'%(f.short,','.join(tag),g.short,what),i.loc,'unchanged')
    c.need('unchanged',60)
