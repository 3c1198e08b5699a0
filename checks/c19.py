"""C19: readers and writers stay inside their fixed buffers, whatever the file says."""
from flow import *
from util import noid
NEG={"eq":"ne","ne":"eq","slt":"sge","sge":"slt","sgt":"sle","sle":"sgt","ult":"uge","uge":"ult","ugt":"ule","ule":"ugt"}
from bufs import Bufs, HEAP, params
import terms as T
LIB=re.compile(r'^src/lib/')
# callee -> (pointer argument, size argument, reads or writes)
BULK=[(r'^std::istream::(read|readsome|getline|get)$',1,2,'w'),(r'^std::(basic_)?streambuf::(sgetn|xsgetn)$',1,2,'w'),
      (r'^std::ostream::write$',1,2,'r'),(r'^std::(basic_)?streambuf::(sputn|xsputn)$',1,2,'r'),
      (r'^llvm\.(memcpy|memmove|memset)',0,2,'w'),(r'^llvm\.(memcpy|memmove)',1,2,'r'),
      (r'^(memcpy|memmove|memset|strncpy|std::mem(cpy|move|set)|std::strncpy)$',0,2,'w'),(r'^(memcpy|memmove|std::mem(cpy|move))$',1,2,'r'),
      (r'^(snprintf|vsnprintf|fgets|std::snprintf|std::fgets)$',0,1,'w')]
UNBOUND=re.compile(r'^(std::)?(strcpy|strcat|sprintf|vsprintf|gets|stpcpy)$')
RAW=re.compile(r'^std::istream::(read|readsome)$')
CSTR=re.compile(r'^(char const\*|char const\* const&|char\*)$')

class An:
    def __init__(s,c,fn):
        s.c=c;s.fn=fn;s.T=T.Terms(fn)
        s.R=None
    def ranges(s):
        if s.R is None:
            s.R=Bufs(s.fn,known=s.counts())
        return s.R
    def counts(s):
        """the component count of the attributes this function creates, when it only creates attributes of constant counts"""
        fn=s.fn;cs={0}
        for i in fn.calls():
            n=fn.callee(i)
            if n.endswith('::addAttribute') or n.endswith('::addFixedAttribute'):
                k=[o for o in i.o if o[0]=='c']
                if not k or i.o[-1][0]!='c': return {}
                cs.add(i.o[-1][1])
            elif re.search(r'ttributeInfo$|^Partio::(clone|merge|readCached)$',n) : return {}
        if len(cs)<2: return {}
        r={}
        for i in fn.insts():
            if i.op=='load' and s.iscount(i): r[i.id]=(min(cs),max(cs))
        return r
    def iscount(s,i):
        x=s.fn.val(i.o[0])
        if x is None or x.op!='getelementptr': return False
        f=[p for p in x.d['path'] if p[0]=='f']
        return bool(f) and f[-1][3]=='count' and 'ttribute' in f[-1][1]
    # ---- what limits a value
    def leaves(s,o,acc=None,d=0):
        if acc is None: acc={}
        if o[0]!='i':
            if o[0]=='a': acc[('arg',o[1])]=o
            return acc
        x=s.fn.inst[o[1]]
        if d<10 and x.op in('zext','sext','trunc','freeze','add','sub','mul','shl','and','or','lshr','ashr','ptrtoint','bitcast'):
            for q in x.o: s.leaves(q,acc,d+1)
        elif x.op=='getelementptr' and d<10:
            s.leaves(x.d['base'],acc,d+1)
            for p in x.d['path']:
                if p[0]!='f': s.leaves(p[1],acc,d+1)
        elif x.op=='alloca': pass
        elif x.op=='load' and s.once(x.o[0],x) is not None: s.leaves(s.once(x.o[0],x),acc,d+1)
        else: acc[s.T.op(o)]=o
        return acc
    def once(s,p,at):
        """the only value a local variable is ever given"""
        y=s.fn.val(p)
        if y is None or y.op!='alloca': return None
        st=[]
        for u in s.fn.users.get(y.id,[]) if isinstance(s.fn.users,dict) else s.fn.users[y.id]:
            if u.op=='store' and u.o[1]==p and u.o[0]!=p: st.append(u)
            elif u.op=='load' or (u.op=='call' and u.d.get('callee','').startswith('llvm.')): pass
            else: return None
        return st[0].o[0] if len(st)==1 else None
    def counter(s,x):
        if x.op!='phi' or x.bb not in s.fn.loops: return False
        body=s.fn.loops[x.bb]
        for p,v in x.d['in']:
            if p in body and v[0]=='i':
                seen=set();st=[(v,0)];step=False
                while st:
                    w,k=st.pop()
                    y=s.fn.val(w)
                    if y is None or (y.id,k) in seen: continue
                    if y.id==x.id:
                        if k: return True
                        continue
                    seen.add((y.id,k))
                    if y.op in('add','sub'): st+=[(q,1) for q in y.o]
                    elif y.op=='getelementptr': st.append((y.d['base'],1))
                    elif y.op in('zext','sext','trunc','freeze'): st+=[(q,k) for q in y.o]
                    elif y.op=='phi' and y.bb in body: st+=[(q,k) for _,q in y.d['in']]
                    elif y.op=='select': st+=[(q,k) for q in y.o[1:]]
        return False
    def stream(s,i):
        return any('istream' in p or 'ZipFile' in p for p in params(i.d.get('dem','')))or s.fn.callee(i).startswith('std::istream::')
    def fromfile(s,o):
        """the value was filled in by a stream read"""
        x=s.fn.val(o)
        if x is None: return False
        if x.op=='load':
            r=s.ranges().rootof(x.o[0])
            if r is None: return False
            for i in s.fn.calls():
                if s.stream(i) and not s.fn.callee(i).startswith('llvm.') and any(s.R.rootof(q)==r for q in i.o):
                    if s.fn.inst_dominates(i,x) or s.fn.loops_of(i.bb): return True
            return False
        return False
    def guards(s,b):
        """comparisons that decide whether block b is reached: (operand, operand), (operand, None) for a switch"""
        out=[]
        for cb,suc in s.fn.cdep_closure(b):
            t=s.fn.blocks[cb][-1]
            if t.op=='switch': out.append((t.o[0],None));continue
            if t.op!='br' or not t.o: continue
            x=s.fn.val(t.o[0]);val=suc==t.d['succ'][0]
            while x is not None and x.op=='xor' and x.o[1][0]=='c': x=s.fn.val(x.o[0]);val=not val
            if x is not None and x.op=='icmp' and t.d['succ'][0]!=t.d['succ'][1]:
                p=x.d['pred'] if val else NEG[x.d['pred']]
                # which side it keeps from growing
                lp=any(cb in body and any(q not in body for q in s.fn.succ[cb]) for body in s.fn.loops.values())
                if p=='eq' or p=='ne' and lp or p=='ne' and (x.o[0][0] in('c','z') or x.o[1][0] in('c','z')) : out.append((x.o[0],x.o[1]))
                elif p[1:] in('lt','le'): out.append((x.o[0],x.o[1],'l'))
                elif p[1:] in('gt','ge'): out.append((x.o[1],x.o[0],'l'))
                for q in x.o: s.phiways(q,out)
                continue
            st=[t.o[0]];seen=set()
            while st:
                x=s.fn.val(st.pop())
                if x is None or x.id in seen: continue
                seen.add(x.id)
                if x.op=='icmp':
                    out.append((x.o[0],x.o[1]))
                    for q in x.o: s.phiways(q,out)
                elif x.op in('and','or','xor','select','zext','trunc','freeze'): st+=list(x.o)
                elif x.op=='phi':
                    st+=[v for _,v in x.d['in']]
                    for p,_ in x.d['in']:
                        for g in s.closure(p):
                            tt=s.fn.blocks[g][-1]
                            if tt.op=='br' and tt.o: st.append(tt.o[0])
                            elif tt.op=='switch': out.append((tt.o[0],None))
                elif x.op in('call','invoke'): out.append((('i',x.id),'call'))
        return out
    def phiways(s,q,out):
        """what decided a variable that is set to constants on the ways into a comparison"""
        y=s.fn.val(q)
        if y is None or y.op!='phi': return
        for p,_ in y.d['in']:
            for g in s.closure(p):
                tt=s.fn.blocks[g][-1]
                if tt.op=='switch': out.append((tt.o[0],None))
                elif tt.op=='br' and tt.o:
                    z=s.fn.val(tt.o[0])
                    if z is not None and z.op=='icmp': out.append((z.o[0],z.o[1]))
    def closure(s,b):
        r=s.fn.cdep_closure(b)
        out=set()
        for x in r: out.add(x[0] if isinstance(x,tuple) else x)
        out.add(b) if False else None
        return out
    def limited(s,o,b,d=0,seen=()):
        """something bounds the value where it is used: an unproven access is then left undecided"""
        lv=s.leaves(o)
        if not lv: return True
        for t,q in lv.items():
            if t in seen: continue
            x=s.fn.val(q)
            if x is not None and x.op in('urem','srem'): continue
            if x is not None and (x.op in('call','invoke') or x.op=='load' and s.minload(x)):
                if not(s.stream(x) if x.op!='load' else False): continue
            src='counter' if x is not None and s.counter(x) else 'file' if s.fromfile(q) else 'count' if x is not None and x.op=='load' and s.iscount(x) else None
            if src is None and x is not None and x.op=='phi' and d<6:
                if all(s.limited(v,b,d+1,tuple(seen)+(t,)) for _,v in x.d['in'] if v!=q): continue
                src='phi'
            if src is None: continue
            if q[0]=='i' and x.id in s.ranges().known: continue
            ok=False
            for g in s.guards(b):
                u,v=g[:2]
                if v=='call':
                    y=s.fn.inst[u[1]]
                    if any(t in s.leaves(w) for w in y.o): ok=True
                    continue
                for m,n in((u,v),) if len(g)>2 else ((u,v),(v,u)):
                    if m is None or t not in s.leaves(m): continue
                    if n is None: ok=True;continue
                    if n[0]=='n': continue
                    if n[0] in('c','z'):
                        ok=True if not(src=='file' and n[0]=='z') else ok
                        continue
                    if d<4 and t not in s.leaves(n) and s.limited(n,b,d+1,tuple(seen)+(t,)): ok=True
                    elif t in s.leaves(n): ok=True
            if not ok: return False
        return True
    def tight(s,o,i,b):
        """the largest value is one a constant of the program lets through: it is reached"""
        env=s.ranges().at_env(i)
        if env is None: return False
        add=0;x=s.fn.val(o);d=0
        while x is not None and d<12:
            d+=1
            if x.op in('zext','sext','trunc','freeze'): o=x.o[0]
            elif x.op in('add','sub') and x.o[1][0]=='c': o=x.o[0]
            else: break
            x=s.fn.val(o)
        if x is None: return False
        r=s.R.ev(o,env)
        if r is None or r[1]>=1<<24: return False
        if x.op=='select' and any(q==['c',r[1],q[2] if len(q)>2 else None] for q in x.o[1:]): return True
        if x.op=='phi' and any(v[0]=='c' and v[1]==r[1] for _,v in x.d['in']) and not s.counter(x): return True
        if x.op in('call','invoke') and re.match(r'llvm\.[us]min',s.fn.callee(x)): return True
        t=s.T.op(o)
        for g in s.guards(b):
            if len(g)<3: continue
            m,n=g[:2]
            if n is None or s.T.op(m)!=t: continue
            k=(n[1],n[1]) if n[0]=='c' else s.R.known.get(s.fn.val(n).id) if s.fn.val(n) is not None else None
            if k and k[1] in(r[1],r[1]+1) and (n[0]=='c' or s.fn.val(n) is not None and s.fn.val(n).id in s.R.known): return True
        return False
    def minload(s,x):
        y=s.fn.val(x.o[0])
        return y is not None and y.op in('call','invoke') and s.fn.callee(y) in('std::min','std::max')
    def text(s,o,b):
        """the length of a text, which nothing compares with anything"""
        for t,q in s.leaves(o).items():
            x=s.fn.val(q)
            if x is None or x.op not in('call','invoke') or not re.search(r'^(std::)?(basic_)?string::(size|length)$|^(std::)?strlen$',s.fn.callee(x)): continue
            lt=noid(t)
            if not any(lt in {noid(k) for k in s.leaves(w)} for g in s.guards(b) for w in g[:2] if isinstance(w,(list,tuple))): return True
        return False
    def why(s,o):
        r=[]
        for t,q in s.leaves(o).items():
            x=s.fn.val(q)
            if x is None: continue
            r.append('a running count' if s.counter(x) else 'a value read from the file' if s.fromfile(q) else 'the component count of an attribute' if x.op=='load' and s.iscount(x) else None)
        r=sorted(set(x for x in r if x))
        return ' and '.join(r) or 'an unbounded value'

def subobj(A,o,env):
    """the array member of a struct a pointer lies in: (name, size, (lo,hi), (struct size, member offset)) or None"""
    fn=A.fn;lo=hi=0;R=A.ranges();d=0
    x=fn.val(o)
    while x is not None and d<10:
        d+=1
        if x.op in('bitcast','freeze'): x=fn.val(x.o[0]);continue
        if x.op=='alloca':
            # the address of a struct is that of its first member
            m=re.match(r'%"?(?:struct\.|class\.|union\.)?([^"]+)"?$',str(x.d.get('aty')))
            st=fn.prog.structs.get(m.group(1)) if m else None
            f=[f for f in (st or {}).get('fields',[]) if f[1]==0]
            if f and re.match(r'\[\d+ x ',str(f[0][3])): return (f[0][0],f[0][2],(lo,hi),(st['size'],0))
            return None
        if x.op!='getelementptr': return None
        P=x.d['path']
        for k in range(len(P)-1,-1,-1):
            q=P[k]
            if q[0]=='f':
                st=fn.prog.structs.get(q[1])
                f=[f for f in (st or {}).get('fields',[]) if f[1]==q[4]]
                if f and re.match(r'\[\d+ x ',str(f[0][3])): return (q[3],f[0][2],(lo,hi),(st['size'],q[4]))
                if q[4] or not f: return None
            else:
                r=R.ev(q[1],env)
                if r is None: return None
                lo+=r[0]*q[2];hi+=r[1]*q[2]
        x=fn.val(x.d['base'])
    return None
def run(c):
    c.rule('every array element selected by a variable index has an index proved, by interval analysis, to lie inside the array')
    c.rule('every pointer that walks a local array stays inside it, and every bulk transfer to or from a local array or a fresh allocation moves no more bytes than remain')
    c.rule('the size of an allocation is not computed by 32 bit arithmetic on values of the file that can wrap')
    c.rule('an allocation indexed by what the elements of a table say, whose size is accumulated in the loop that fills the table, is sized in every round that adds an element, from the size so far')
    c.rule('an array filled by a raw read is not used as a C string unless a terminator is stored')
    p=c.view('inl')
    seen={}
    def once(kind,i,fn,extra=''):
        k=(kind,i.loc,extra)
        return k
    done={}
    for fn in p.fns:
        if not LIB.match(fn.file): continue
        A=An(c,fn);judge_fn(c,A,fn,done)
    # one verdict for each place of the source: an inlined copy that proves it, proves it for that caller only
    for (kind,loc,what),vs in sorted(done.items()):
        fnn,v,msg,line=min(vs,key=lambda q:{'bad':0,'und':1,'ok':2}[q[1]])
        if v=='ok': c.ok(kind,'%s: %s'%(loc,msg))
        elif v=='und': c.und(kind,'%s %s: %s'%(loc,fnn,msg))
        else: c.bad('%s:%s:%s'%(fnn,kind,what),msg,line,kind)
    c.need('index into an array',8)
    c.need('bulk transfer',15)

def fieldname(fn,i):
    for p in reversed(i.d['path']):
        if p[0]=='f': return p[3]
    b=fn.val(i.d['base'])
    return (b.d.get('v') if b is not None else None) or (i.d['base'][1] if i.d['base'][0]=='g' else 'array')

def judge_fn(c,A,fn,done):
    def put(kind,i,what,v,msg):
        done.setdefault((kind,i.loc,what),[]).append((scope(fn,i),v,msg,i.loc));c.touch(fn)
    for i in fn.insts():
        if i.op=='store': zbuf(c,A,fn,i,put)
        if i.op=='getelementptr':
            P=i.d['path']
            for k,q in enumerate(P):
                if q[0]!='x' or q[1][0] in('c','z'): continue
                m=re.match(r'\[(\d+) x ',str(P[k-1][3])) if k and P[k-1][0]=='x' else None
                if k and P[k-1][0]=='f':
                    # an array member: the element count is the type of the member
                    m=None
                if not m: continue
                if re.search(r'^Partio::Data::operator',scope(fn,i)): continue
                N=int(m.group(1));R=A.ranges()
                r=R.at(i,q[1])
                if r is None: continue
                what='%s[%d]'%(fieldname(fn,i),N)
                if 0<=r[0] and r[1]<N: put('index into an array',i,what,'ok','%s indexed by %d..%d'%(what,r[0],r[1]))
                elif r[0]>=N or r[1]<0: put('index into an array',i,what,'bad','%s is indexed by %d..%d'%(what,r[0],r[1]))
                elif r[1]>=N and A.tight(q[1],i,i.bb): put('index into an array',i,what,'bad','%s is indexed by values up to %d'%(what,r[1]))
                elif A.limited(q[1],i.bb): put('index into an array',i,what,'und','%s: the index is guarded, its bound is not proved (%s..%s)'%(what,r[0],r[1]))
                else: put('index into an array',i,what,'bad','%s is indexed by %s that nothing keeps below %d'%(what,A.why(q[1]),N))
        elif i.op in('load','store'):
            o=i.o[1] if i.op=='store' else i.o[0]
            x=fn.val(o)
            if x is None or x.op=='alloca': continue
            if x.op=='getelementptr' and all(q[0]=='f' or q[1][0] in('c','z') for q in x.d['path']) and fn.val(x.d['base']) is not None and fn.val(x.d['base']).op=='alloca':
                pass
            R=A.ranges();r=R.rootof(o)
            if r is None: continue
            kind,size=R.objs[r]
            if x.op=='getelementptr' and len(x.d['path'])>1 and any(q[0]=='x' and q[1][0] not in('c','z') for q in x.d['path'][1:]): continue   # judged as an index
            z=i.d.get('size') or 1
            e=R.at(i,o)
            if e is None: continue
            name=fn.inst[r].d.get('v') or 'object'
            if kind=='local' and isinstance(size,int):
                what='%s:%d'%(name,size)
                if 0<=e[0] and e[1]+z<=size:
                    if e[0]!=e[1] or x.op=='phi': put('pointer into an array',i,what,'ok','%s: offsets %d..%d of %d bytes'%(name,e[0],e[1],size))
                elif e[0]+z>size or e[1]<0: put('pointer into an array',i,what,'bad','an access of %s at offset %d..%d, which has %d bytes'%(name,e[0],e[1],size))
                elif A.limited(o,i.bb): put('pointer into an array',i,what,'und','%s: guarded, offset %s..%s of %d bytes not proved'%(name,e[0],e[1],size))
                else: put('pointer into an array',i,what,'bad','%s of %s, which has %d bytes, at a place given by %s that nothing bounds'%('a store past the end' if i.op=='store' else 'a load past the end',name,size,A.why(o)))
            elif kind=='heap':
                heap(c,A,fn,i,o,r,z,put,name)
        elif i.op in('call','invoke'):
            n=fn.callee(i)
            R=A.ranges() if any(re.match(b[0],n) for b in BULK) or UNBOUND.match(n) else None
            for rx,pa,sa,rw in BULK:
                if not re.match(rx,n) or len(i.o)<=max(pa,sa): continue
                if n.endswith('::get') and len(i.o)<3: continue
                if n.endswith('::getline') and 'char*' not in i.d.get('dem',''): continue
                o=i.o[pa];r=R.rootof(o)
                env=R.at_env(i)
                if env is None: continue
                zr=R.ev(i.o[sa],env);sub=subobj(A,o,env)
                if sub is not None and zr is not None:
                    name,size,e,(full,at)=sub;kind='local'
                    if zr[1]==full-at and e==(0,0): continue    # the rest of the struct
                elif r is None: continue
                else:
                    kind,size=R.objs[r];name=fn.inst[r].d.get('v') or 'object'
                    e=R.ev(o,env)
                if e is None or zr is None: continue
                verb={'w':'writes','r':'reads'}[rw]
                short=n.split('::')[-1].split('.')[0] if not n.startswith('llvm.') else n.split('.')[1]
                if kind=='heap':
                    heap(c,A,fn,i,o,r,i.o[sa],put,name,short);continue
                if not isinstance(size,int): continue
                what='%s:%s'%(short,name)
                if 0<=e[0] and e[1]+zr[1]<=size: put('bulk transfer',i,what,'ok','%s %s at most %d of %d bytes of %s'%(short,verb,zr[1],size-e[1],name))
                elif e[0]+max(zr[0],0)>size and zr[0]==zr[1]: put('bulk transfer',i,what,'bad','%s %s %d bytes at offset %d of %s, which has %d'%(short,verb,zr[0],e[0],name,size))
                elif e[0]==e[1] and e[1]+zr[1]>size and A.tight(i.o[sa],i,i.bb): put('bulk transfer',i,what,'bad','%s %s up to %d bytes at offset %d of %s, which has %d'%(short,verb,zr[1],e[0],name,size))
                elif A.limited(i.o[sa],i.bb) and A.limited(o,i.bb) and not A.text(i.o[sa],i.bb): put('bulk transfer',i,what,'und','%s of %s: guarded, %s bytes of %s not proved'%(short,name,zr,size))
                else: put('bulk transfer',i,what,'bad','%s %s %s, which has %d bytes, by a length given by %s that nothing bounds'%(short,verb,name,size,A.why(i.o[sa])))
            if UNBOUND.match(n) and i.o:
                r=R.rootof(i.o[0])
                if r is not None and len(i.o)>1:
                    kind,size=R.objs[r];name=fn.inst[r].d.get('v') or 'object'
                    src=fn.prog.string(i.o[1][1]) if i.o[1][0]=='g' else None
                    if src is not None and kind=='local' and ('%' not in src):
                        l=len(src)+1
                        put('bulk transfer',i,'%s:%s'%(n,name),'ok' if l<=size else 'bad','%s of a constant of %d bytes into %s of %s'%(n,l,name,size))
                    elif 'printf' in n and src is not None and '%s' not in src:
                        put('bulk transfer',i,'%s:%s'%(n,name),'und','%s into %s'%(n,name))
                    else: put('bulk transfer',i,'%s:%s'%(n,name),'bad','%s copies a text of any length into %s'%(n,name))
            if HEAP.match(n) or re.search(r'^std::(vector|string|basic_string)::(vector|resize|reserve|basic_string|string|assign)$',n): wrap(c,A,fn,i,put);collected(c,A,fn,i,put)
            cstring(c,A,fn,i,put)
            if re.search(r'streambuf::set[gp]$',n): area(c,A,fn,i,put)
def member(A,o,name):
    x=A.fn.val(o)
    if x is None or x.op!='getelementptr': return None
    f=[q for q in x.d['path'] if q[0]=='f']
    if not f or f[-1][3] not in name: return None
    return A.T.op(x.d['base']),tuple((q[1],q[3]) for q in f[:-1]),f[-1][3]
def capacity(A,o,env):
    """(name, bytes from the pointer to the end, or None for an allocation with (object))"""
    R=A.ranges();sub=subobj(A,o,env)
    if sub is not None: return sub[0],sub[1]-sub[2][1],sub[2][0]>=0
    r=R.rootof(o)
    if r is None: return None
    e=R.ev(o,env);kind,size=R.objs[r]
    if kind=='local' and isinstance(size,int) and e: return A.fn.inst[r].d.get('v') or 'object',size-e[1],e[0]>=0
    if kind=='heap': return A.fn.inst[r].d.get('v') or 'object',('heap',r),True
    return None
def zbuf(c,A,fn,i,put):
    """the space given to zlib is not more than the buffer has"""
    m=member(A,i.o[1],('next_out','next_in'))
    if m is None: return
    R=A.ranges();env=R.at_env(i)
    if env is None: return
    cap=capacity(A,i.o[0],env)
    if cap is None: return
    av='avail_'+m[2].split('_')[1]
    st=[u for u in fn.insts() if u.op=='store' and member(A,u.o[1],(av,)) is not None and member(A,u.o[1],(av,))[:2]==m[:2] and u.bb==i.bb]
    if not st: return
    for u in st:
        what='%s:%s'%(m[2],cap[0])
        if isinstance(cap[1],tuple):
            left=dict(poly(A,R.objs[cap[1][1]][1]));off=offpoly(A,i.o[0],cap[1][1])
            if off is None: put('bytes given to zlib',i,what,'und','%s'%what);continue
            for q in(off,poly(A,u.o[0])):
                for k,v in q.items(): left[k]=left.get(k,0)-v
            rest={k:v for k,v in left.items() if v and k!=1}
            if rest: put('bytes given to zlib',i,what,'und','%s is not compared with the allocation'%what)
            else: put('bytes given to zlib',i,what,'ok' if left.get(1,0)>=0 else 'bad','%s: %s has %d bytes to spare'%(av,cap[0],left.get(1,0)))
            continue
        e2=R.at_env(u);r=R.ev(u.o[0],e2) if e2 is not None else None
        if r is None: continue
        if r[1]<=cap[1] and r[0]>=0: put('bytes given to zlib',i,what,'ok','%s at most %d of %d bytes of %s'%(av,r[1],cap[1],cap[0]))
        elif r[0]>cap[1]: put('bytes given to zlib',i,what,'bad','%s is %d, but %s has %d bytes from there'%(av,r[0],cap[0],cap[1]))
        else: put('bytes given to zlib',i,what,'und','%s into %s: the count is not proved'%(av,cap[0]))
def area(c,A,fn,i,put):
    """the get and put areas of a stream buffer lie inside its member arrays"""
    R=A.ranges();env=R.at_env(i)
    if env is None: return
    cls=fn.short.rsplit('::',1)[0]
    n=fn.callee(i);put_area=n.endswith('setp')
    slack=0
    if put_area:
        for g in fn.prog.fns:
            if g.short==cls+'::overflow' or g.short.startswith(cls) and g.short.endswith('::overflow'):
                for u in g.insts():
                    if u.op=='store' and g.val(u.o[1]) is not None and g.val(u.o[1]).op in('call','invoke') and g.callee(g.val(u.o[1])).endswith('::pptr'): slack=1
    for o in i.o[1:]:
        cap=capacity(A,o,env)
        if cap is None and put_area: cap=pbase(A,o,env,cls)
        if cap is None: continue
        what='%s:%s'%(n.split('::')[-1],cap[0])
        if isinstance(cap[1],tuple): continue
        s=slack if put_area and o is not i.o[1] else 0
        if cap[1]>=s and cap[2]: put('area of a stream buffer',i,what,'ok','%s: %d bytes behind the pointer'%(what,cap[1]))
        elif A.limited(o,i.bb) and not const(A,o,env): put('area of a stream buffer',i,what,'und','%s: not proved'%what)
        else: put('area of a stream buffer',i,what,'bad','%s: the area ends %d bytes past what %s has%s'%(n.split('::')[-1],s-cap[1],cap[0],', counting the one character overflow() stores at its end' if s else ''))
def const(A,o,env):
    x=A.fn.val(o)
    return x is not None and x.op=='getelementptr' and all(q[0]=='f' or q[1][0] in('c','z') for q in x.d['path'])
def pbase(A,o,env,cls):
    """pbase()+k, when the constructor set the put area to one member array"""
    x=A.fn.val(o);off=0
    while x is not None and x.op=='getelementptr':
        for q in x.d['path']:
            if q[0]=='f' or q[1][0] not in('c','z'): return None
            off+=(q[1][1] if q[1][0]=='c' else 0)*q[2]
        x=A.fn.val(x.d['base'])
    if x is None or x.op not in('call','invoke') or not A.fn.callee(x).endswith('::pbase'): return None
    found=set()
    for g in A.fn.prog.fns:
        if not g.short.startswith(cls+'::'): continue
        B=None
        for u in g.calls():
            if not g.callee(u).endswith('streambuf::setp'): continue
            y=g.val(u.o[1])
            if y is not None and y.op in('call','invoke') and g.callee(y).endswith('::pbase'): continue
            B=B or An(A.c,g)
            e=B.ranges().at_env(u)
            sub=subobj(B,u.o[1],e) if e is not None else None
            found.add((sub[0],sub[1]) if sub and sub[2]==(0,0) else None)
    if len(found)!=1 or None in found: return None
    n,z=found.pop()
    return n,z-off,off>=0
def scope(fn,i):
    l=i.d.get('l')
    return '%s:%s'%(os.path.basename(l[0]),l[2]) if l and len(l)>2 else fn.short

def poly(A,o,d=0):
    """linear form {term:coefficient}, constant under 1; casts of narrower values are transparent"""
    if o[0]=='c': return {1:o[1]}
    if o[0]=='z': return {1:0}
    x=A.fn.val(o)
    if x is None: return {A.T.op(o):1}
    if d<12:
        if x.op in('zext','sext','freeze','trunc'): return poly(A,x.o[0],d+1)
        if x.op in('add','sub'):
            a=dict(poly(A,x.o[0],d+1))
            for k,v in poly(A,x.o[1],d+1).items(): a[k]=a.get(k,0)+(v if x.op=='add' else -v)
            return {k:v for k,v in a.items() if v or k==1}
        if x.op in('mul','shl') and x.o[1][0]=='c':
            k=x.o[1][1] if x.op=='mul' else 1<<x.o[1][1]
            return {t:v*k for t,v in poly(A,x.o[0],d+1).items()}
        if x.op=='select' and x.o[1]==['c',-1,64]: return poly(A,x.o[2],d+1)
        if x.op=='extractvalue':
            y=A.fn.val(x.o[0])
            if y is not None and 'umul' in A.fn.callee(y) and y.o[1][0]=='c':
                return {t:v*y.o[1][1] for t,v in poly(A,y.o[0],d+1).items()}
        if x.op=='load' and A.once(x.o[0],x) is not None: return poly(A,A.once(x.o[0],x),d+1)
    return {A.T.op(o):1}
def contains(k,t):
    if k==t: return True
    return isinstance(k,tuple) and any(contains(q,t) for q in k)
def atoms(A,o,acc,d=0):
    """the choices a value is made of"""
    x=A.fn.val(o)
    if x is None or d>12: return
    if x.op in('select','load','phi'): acc.append(x)
    if x.op!='load':
        for q in x.o: atoms(A,q,acc,d+1)
def choice(A,x):
    """x is one of two values (or refers to one of two): [(operand chosen, condition, value of the condition)]"""
    if x.op=='select': return [(x.o[1],x.o[0],True),(x.o[2],x.o[0],False)]
    if x.op=='phi' and len(x.d['in'])==2:
        b=A.fn.idom.get(x.bb)
        if b is None: return None
        t=A.fn.blocks[b][-1]
        if t.op!='br' or not t.o: return None
        out=[]
        for p,v in x.d['in']:
            k=x.bb if p==b else p
            if k not in t.d['succ'] or t.d['succ'][0]==t.d['succ'][1]: return None
            out.append((v,t.o[0],k==t.d['succ'][0]))
        return out if {q[2] for q in out}=={True,False} else None
    return None
def arms(A,x,d=0):
    """values a nest of maximum choices chooses from, or None"""
    if d>6: return None
    ref=False
    if x.op=='load':
        y=A.fn.val(x.o[0])
        if y is None or y.op not in('select','phi'): return None
        ref=True
    else: y=x
    ch=choice(A,y)
    if not ch: return None
    c=A.fn.val(ch[0][1])
    if c is None or c.op!='icmp': return None
    u,v=(A.T.op(q) for q in c.o)
    big={'ult':v,'slt':v,'ule':v,'sle':v,'ugt':u,'sgt':u,'uge':u,'sge':u}.get(c.d['pred'])
    if big is None: return None
    small=u if big==v else v
    T=(lambda o:('load',A.T.op(o))) if ref else A.T.op
    out=set()
    for o,_,val in ch:
        if T(o)!=(big if val else small): return None
        if ref:
            # the smaller or larger of the chosen places, again a choice
            w=A.fn.val(o);n=None
            if w is not None and w.op in('select','phi'): n=refarms(A,w,d+1)
            out|=n if n else {T(o)}
        else:
            w=A.fn.val(o)
            while w is not None and w.op in('zext','sext','trunc','freeze'): w=A.fn.val(w.o[0])
            n=arms(A,w,d+1) if w is not None and w.op in('select','phi','load') else None
            out|=n if n else {T(o)}
    return out
def refarms(A,y,d):
    ch=choice(A,y)
    if not ch or d>6: return None
    c=A.fn.val(ch[0][1])
    if c is None or c.op!='icmp': return None
    u,v=(A.T.op(q) for q in c.o)
    big={'ult':v,'slt':v,'ule':v,'sle':v,'ugt':u,'sgt':u,'uge':u,'sge':u}.get(c.d['pred'])
    out=set()
    for o,_,val in ch:
        if big is None or ('load',A.T.op(o))!=(big if val else (u if big==v else v)): return None
        w=A.fn.val(o);n=refarms(A,w,d+1) if w is not None and w.op in('select','phi') else None
        out|=n if n else {('load',A.T.op(o))}
    return out
def largest(A,left,size):
    """max(a,b)-a counts as nothing left (it can be)"""
    acc=[];atoms(A,size,acc)
    for x in acc:
        n=arms(A,x);t=A.T.op(('i',x.id))
        if not n or not left.get(t,0)>0: continue
        for a in n:
            if left.get(a,0)<0:
                k=min(left[t],-left[a]);left[t]-=k;left[a]+=k
def stable(A,p,r,i):
    """the variables of the size keep their value between the allocation and the access"""
    fn=A.fn;a=fn.inst[r];vs=set()
    def walk(t):
        if isinstance(t,tuple):
            if t[:1]==('load',) and len(t)>1 and isinstance(t[1],tuple) and t[1][0]=='alloca': vs.add(t[1][1])
            for q in t: walk(q)
    for t in p: walk(t)
    if not vs: return True
    R=A.R
    for w in fn.insts():
        if w is a or w is i: continue
        if w.op=='store': ok=R.rootof(w.o[1]) in vs
        elif w.op in('call','invoke') and not fn.callee(w).startswith('llvm.lifetime'):
            ps=params(w.d.get('dem',''));k0=len(w.o)-len(ps)
            ok=any(R.rootof(o) in vs and not(k>=k0>=0 and re.search(r'const ?[*&]$',ps[k-k0])) for k,o in enumerate(w.o))
        else: ok=False
        if ok and between(fn,a,w,a) and between(fn,w,i,a): return False
    return True
def between(fn,x,y,cut):
    """y can follow x without passing cut again"""
    def pos(q): return fn.blocks[q.bb].index(q)
    if x.bb==y.bb and pos(x)<pos(y) and not(cut is not x and cut.bb==x.bb and pos(x)<pos(cut)<pos(y)): return True
    if cut is not x and cut.bb==x.bb and pos(cut)>pos(x): return False
    st=list(fn.succ[x.bb]);seen=set()
    while st:
        b=st.pop()
        if b in seen: continue
        seen.add(b)
        if b==y.bb and not(cut.bb==b and pos(cut)<pos(y)): return True
        if b==cut.bb: continue
        st+=fn.succ[b]
    return False
def offpoly(A,o,root,d=0):
    x=A.fn.val(o)
    if x is None or d>12: return None
    if x.id==root: return {1:0}
    if x.op in('bitcast','freeze'): return offpoly(A,x.o[0],root,d+1)
    if x.op=='getelementptr':
        a=offpoly(A,x.d['base'],root,d+1)
        if a is None: return None
        a=dict(a)
        for q in x.d['path']:
            if q[0]=='f': a[1]=a.get(1,0)+q[4]
            else:
                for k,v in poly(A,q[1]).items(): a[k]=a.get(k,0)+v*q[2]
        return a
    return None
def heap(c,A,fn,i,o,r,z,put,name,short=None):
    size=A.R.objs[r][1]
    off=offpoly(A,o,r)
    kind='bulk transfer' if short else 'element of an allocation'
    what='%s:%s'%(short or i.op,name)
    zp={1:z} if isinstance(z,int) else poly(A,z)
    if off is None:
        put(kind,i,what,'und','%s: the place inside the allocation is not a linear form'%name);return
    left=dict(poly(A,size))
    for q in(off,zp):
        for k,v in q.items(): left[k]=left.get(k,0)-v
    if not stable(A,left,r,i):
        put(kind,i,what,'und','%s: a variable of the size changes in between'%name);return
    largest(A,left,size)
    rest={k:v for k,v in left.items() if v and k!=1}
    if not rest:
        k=left.get(1,0)
        if k>=0: put(kind,i,what,'ok','%s: %d bytes left of the allocation'%(name,k))
        else: put(kind,i,what,'bad','%s reaches %d bytes past the end of %s'%(short or ('the '+i.op),-k,name))
    else:
        deep={};atoms2=[];atoms(A,size,atoms2);A.leaves(size,deep)
        for x in atoms2:
            for t in arms(A,x) or (): deep[t]=None
            A.leaves(['i',x.id],deep)
            for q in x.o:
                if x.op!='load': A.leaves(q,deep)
        need={}
        for q in (z if not isinstance(z,int) else None,):
            if q is not None: A.leaves(q,need)
        for t,q in need.items():
            if rest.get(t,0)<0 and t not in deep and A.fromfile(q) and not any(v>0 for k,v in rest.items() if contains(k,t)) and not A.limited(q,i.bb):
                put(kind,i,what,'bad','%s is filled by a length of the file that its size was not computed from'%name);return
        put(kind,i,what,'und','%s: not compared with the size of the allocation'%name)
def wrap(c,A,fn,i,put):
    """the byte count of an allocation is made of 32 bit sums or products of file values that can exceed 32 bits"""
    args=i.o if HEAP.match(fn.callee(i)) else i.o[1:]
    hit=cut=None;R=A.ranges();arith=0;seen=set()
    st=[(o,0) for o in args]
    while st:
        o,d=st.pop()
        x=fn.val(o)
        if x is None or x.id in seen or d>16: continue
        seen.add(x.id)
        if x.op=='trunc' and R.w.get(x.id)==32:
            env=R.at_env(x);a=R.ev(x.o[0],env) if env is not None else None
            if a is not None and a[0]>=0 and (1<<32)<=a[1]<(1<<62) and x.o[0][0]=='i' and any(A.fromfile(q) for q in A.leaves(x.o[0]).values()): cut=x
        if x.op in('zext','sext','freeze','trunc','select','extractvalue','and','lshr'): st+=[(q,d+1) for q in x.o]
        elif x.op=='phi':
            if d<14: st+=[(v,d+1) for _,v in x.d['in']]
        elif x.op=='load':
            v=A.once(x.o[0],x)
            if v is not None: st.append((v,d+1))
            else:
                y=fn.val(x.o[0])
                if y is not None and y.op in('call','invoke') and fn.callee(y) in('std::min','std::max'):
                    for q in y.o[:2]:
                        for u in fn.insts():
                            if u.op=='store' and u.o[1]==q: st.append((u.o[0],d+1))
                elif y is not None and y.op=='alloca':
                    for u in fn.insts():
                        if u.op=='store' and u.o[1]==x.o[0]: st.append((u.o[0],d+1))
        elif x.op in('call','invoke'):
            if 'mul.with.overflow' in fn.callee(x): st.append((x.o[0],d+1))
        elif x.op in('add','sub','mul','shl'):
            w=R.w.get(x.id)
            st+=[(q,d+1) for q in x.o]
            if w is None or w>32: continue
            arith+=1
            if x.op=='sub': continue
            env=R.at_env(x)
            if env is None: continue
            a,b=R.ev(x.o[0],env),R.ev(x.o[1],env)
            if a is None or b is None: continue
            lim=1<<w
            # unsigned magnitude
            def mag(r): return r[1] if r[0]>=0 else lim-1
            m=mag(a)+mag(b) if x.op=='add' else mag(a)*mag(b) if x.op=='mul' else mag(a)<<min(mag(b),64)
            const=[q for q in x.o if q[0]=='c' and isinstance(q[1],int)]
            if m>=lim and not(x.op=='add' and const and const[0][1]<0):
                lv={}
                for q in x.o: A.leaves(q,lv)
                # what the values of the file can reach alone
                k=[q for q in x.o if all(A.fromfile(l) for l in A.leaves(q).values())]
                fm=[mag(R.ev(q,env)) for q in k]
                if x.op=='add' and sum(fm)<lim: continue
                if x.op=='mul' and len(k)==1 and 2*fm[0]<lim: continue
                if any(A.fromfile(q) for q in lv.values()) and not all(A.limited(q,x.bb) or not A.fromfile(q) for q in lv.values()):
                    hit=x
    if hit is not None: put('size of an allocation',i,'size','bad','the size is computed in %d bits from values of the file (%s at %s), and can wrap to fewer bytes than are used'%(R.w[hit.id],hit.op,hit.loc))
    elif cut is not None: put('size of an allocation',i,'size','bad','the size is a value of the file of more than 32 bits cut to 32 (at %s), and can be fewer bytes than are used'%cut.loc)
    elif arith: put('size of an allocation',i,'size','ok','no 32 bit wrap of a file value')
ELEM=re.compile(r'^std::vector::(operator\[\]|at|back|front)$|iterator::operator(\*|->|_arrow|\[\])$')
def collected(c,A,fn,i,put):
    """the size of the allocation is accumulated while a table is filled whose elements say where it is accessed"""
    o=i.o[0] if HEAP.match(fn.callee(i)) else None
    x=fn.val(o) if o is not None else None
    while x is not None and x.op in('zext','sext','trunc','freeze'): x=fn.val(x.o[0])
    if x is None or x.op!='phi' or x.bb not in fn.loops: return
    h=x.bb;body=fn.loops[h]
    push={b for b in body if any(q.op in('call','invoke') and re.search(r'^std::vector::(push_back|emplace_back)$',fn.callee(q)) for q in fn.blocks[b])}
    if not push: return
    used=False
    for q in fn.insts():
        if q.op in('load','store'):
            a=q.o[0] if q.op=='load' else q.o[1]
            if A.R.rootof(a)==i.id and table(fn,a): used=True;break
    if not used: return
    def dep(o,m,seen):
        y=fn.val(o)
        if y is None: return False
        if y.id==x.id: return True
        if y.id in m: return m[y.id]!='other'
        if y.id in seen or y.bb not in body: return False
        seen.add(y.id)
        if y.op in('call','invoke','load'): return False
        return any(dep(q,m,seen) for q in (y.o if y.op!='phi' else [v for _,v in y.d['in']]))
    def cls(o,m):
        y=fn.val(o)
        while y is not None and y.op in('zext','sext','trunc','freeze'): y=fn.val(y.o[0])
        if y is None: return 'other'
        if y.id==x.id: return 'acc'
        if y.id in m: return m[y.id]
        return 'dep' if dep(['i',y.id],m,set()) else 'other'
    st=[(h,False,False,())];seen=set();bad=set();n=0
    while st:
        b,pu,cm,mt=s0=st.pop()
        if s0 in seen: continue
        seen.add(s0);n+=1
        if n>20000: return
        m=dict(mt);pu=pu or b in push
        t=fn.blocks[b][-1]
        if t.op in('br','switch') and t.o and dep(t.o[0],m,set()): cm=True
        for k in fn.succ[b]:
            if k==h:
                v=[v for p,v in x.d['in'] if p==b]
                k2=cls(v[0],m) if v else 'other'
                if pu and not cm and k2 in('acc','other'): bad.add(k2)
                continue
            if k not in body: continue
            m2=dict(m)
            for q in fn.blocks[k]:
                if q.op!='phi': break
                v=[v for p,v in q.d['in'] if p==b]
                if v: m2[q.id]=cls(v[0],m)
            st.append((k,pu,cm,tuple(sorted(m2.items()))))
    if 'acc' in bad: put('size of an allocation',i,'sum','bad','a round adds an element to the table that says where the allocation is accessed without counting it in its size')
    elif 'other' in bad: put('size of an allocation',i,'sum','bad','the size forgets the elements of the table before the last one')
    else: put('size of an allocation',i,'sum','ok','every element of the table is counted')
def table(fn,o):
    """the address depends on an element of a table"""
    st=[o];seen=set()
    while st:
        y=fn.val(st.pop())
        if y is None or y.id in seen or y.op=='phi': continue
        seen.add(y.id)
        if y.op in('call','invoke'):
            if ELEM.search(fn.callee(y)): return True
            continue
        st+=[q for q in y.o]
        if y.op=='getelementptr': st+=[y.d['base']]+[q[1] for q in y.d['path'] if q[0]!='f']
    return False
def cstring(c,A,fn,i,put):
    dem=i.d.get('dem','')
    n=fn.callee(i)
    libc=re.match(r'^(std::)?(strlen|strcmp|strcasecmp|strdup|strchr|strrchr|strstr|strpbrk|strspn|strcspn|ato[ifl]l?|strto\w+|puts|fputs|strcoll)$',n)
    if 'char' not in dem and not libc: return
    if n.startswith('llvm.') or any(re.match(b[0],n) for b in BULK) or re.match(r'^(std::)?(strn\w+|mem\w+|fread|fwrite|strtok\w*|operator delete)',n): return
    ps=params(dem) if not libc else ['char const*']*min(len(i.o),2 if re.search('cmp|str|coll|spn|pbrk',n) else 1)
    k0=len(i.o)-len(ps) if not libc else 0
    if k0<0: return
    if '...' in dem: return
    for k,t in enumerate(ps):
        if not CSTR.match(t): continue
        if k+1<len(ps) and re.match(r'^(unsigned )?(int|long|char)|^std::streamsize|^size_t|^char const\*$',ps[k+1]) and re.search(r'basic_string|string::|string_view|append|assign',n+dem.split('(')[0]): continue
        if k and CSTR.match(ps[k-1]) and re.search(r'string',n): continue
        o=i.o[k0+k]
        R=A.ranges();r=R.rootof(o)
        if r is None: continue
        fills=[]
        for j in fn.calls():
            m=fn.callee(j)
            if RAW.match(m) and R.rootof(j.o[1])==r: fills.append(j)
            elif re.match(r'llvm\.mem(cpy|move)',m) and R.rootof(j.o[0])==r and j.o[1][0]=='g':
                g=fn.prog.globals.get(j.o[1][1]) or {}
                if g.get('str') and not re.match(r'^(..)*?00',g['str']): fills.append(j)
        fills=[j for j in fills if reaches(fn,j,i)]
        if not fills: continue
        name=fn.inst[r].d.get('v') or 'object'
        what='%s:%s'%(name,n.split('::')[-1])
        zs=[u for u in fn.insts() if u.op=='store' and R.rootof(u.o[1])==r and u.o[0][0] in('c','z') and (u.o[0][0]=='z' or u.o[0][1]==0)]
        zs+=[j for j in fn.calls() if re.match(r'llvm\.memset|memset|std::memset',fn.callee(j)) and R.rootof(j.o[0])==r]
        env=R.at_env(i);me=R.ev(o,env) if env is not None else None
        sub=subobj(A,o,env) if env is not None else None
        def spot(u):
            e=R.at_env(u)
            return R.ev(u.o[1] if u.op=='store' else u.o[0],e) if e is not None else None
        if me is not None and R.objs[r][0]=='local':
            # a zero behind the text, inside the array; a fill that does not reach it leaves it
            end=me[1]-sub[2][0]+sub[1] if sub else 1<<62
            zs=[u for u in zs if u.op!='store' or spot(u) is None or spot(u)[1]>=me[0] and spot(u)[0]<end]
        def spoils(j,u):
            if u.op!='store' or R.objs[r][0]!='local': return True
            z=spot(u);e=R.at_env(j)
            if z is None or e is None: return True
            a=0 if fn.callee(j).startswith('llvm.') else 1
            p,q=R.ev(j.o[a],e),R.ev(j.o[a+1],e)
            return p is None or q is None or not(z[1]<p[0] or z[0]>=p[1]+q[1])
        if any(fn.inst_dominates(u,i) and not any(spoils(j,u) and between(fn,u,j,u) and between(fn,j,i,u) for j in fills) for u in zs): put('C string',i,what,'ok','%s is terminated before it is used as text'%name)
        elif zs: put('C string',i,what,'und','%s: a zero is stored, not on every way or before the read'%name)
        else: put('C string',i,what,'bad','%s is filled by a raw read and used as a zero terminated text, with no zero ever stored'%name)
def reaches(fn,a,b):
    if a.bb==b.bb and fn.blocks[a.bb].index(a)<fn.blocks[b.bb].index(b): return True
    st=list(fn.succ[a.bb]);seen=set()
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x);st+=fn.succ[x]
    return b.bb in seen
