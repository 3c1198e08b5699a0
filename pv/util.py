"""Helpers shared by the checks."""
from flow import *

def lin(t,sign=1,acc=None):
    if acc is None: acc=collections.Counter()
    if t[0]=='add' and len(t)==3: lin(t[1],sign,acc);lin(t[2],sign,acc)
    elif t[0]=='sub' and len(t)==3: lin(t[1],sign,acc);lin(t[2],-sign,acc)
    elif t[0]=='mul' and t[2][0]=='const' and t[1][0] in('add','sub'): lin(('add',t[1],('const',0)),sign,acc) if t[2][1]==1 else acc.update({t:sign})
    elif t[0]=='const': acc[1]+=sign*t[1]
    else: acc[t]+=sign
    return acc
def lineq(a,b):
    x=lin(a);y=lin(b)
    return all(x[k]==y[k] for k in set(x)|set(y))

def noid(t):
    """term without instruction ids of calls: equal for repeated calls of a getter"""
    if not isinstance(t,tuple) or not t: return t
    if t[0]=='call': return ('call',t[1],tuple(noid(x) for x in t[2]))
    return tuple(noid(x) if isinstance(x,tuple) else x for x in t)

def addr(t):
    """address term -> (root, constant byte offset, [symbolic (term,size)], fields)"""
    r,p=split(t);off=0;sym=[];fl=[]
    for x in p:
        if x[0]=='f': fl.append(x[1])
        elif x[0]=='o': off+=x[1]
        elif x[1][0]=='const': off+=x[1][1]*x[2]
        else: sym.append((x[1],x[2]))
    return r,off,sym,fl

def ub(fn,RT,t,depth=0,seen=None):
    """constant upper bound of a non-negative term, or None"""
    if seen is None: seen=set()
    if depth>12: return None
    k=t[0]
    if k=='const': return t[1]
    if k=='select':
        c=t[1]
        a,b=t[2],t[3]
        if c[0]=='cmp' and c[1] in('ult','slt','ule','sle') and noid(c[2])==noid(a) and noid(c[3])==noid(b) or \
           c[0]=='cmp' and c[1] in('ugt','sgt','uge','sge') and noid(c[2])==noid(b) and noid(c[3])==noid(a):
            x=[v for v in(ub(fn,RT,a,depth+1,seen),ub(fn,RT,b,depth+1,seen)) if v is not None]
            return min(x) if x else None
        x=[ub(fn,RT,a,depth+1,seen),ub(fn,RT,b,depth+1,seen)]
        return None if None in x else max(x)
    if k=='phi':
        if t[1] in seen: return None
        seen=seen|{t[1]}
        x=[]
        for b,v in fn.inst[t[1]].d['in']:
            tv=RT.op(v);u=ub(fn,RT,tv,depth+1,seen)
            g=guard_ub(fn,RT,tv,b,fn.inst[t[1]].bb)
            if u is None or g is not None and g<u: u=g
            x.append(u)
        return None if None in x else max(x)
    if k=='alt':
        x=[ub(fn,RT,v,depth+1,seen) for v in t[1:]]
        return None if None in x else max(x)
    if k=='call' and re.match(r'llvm\.(u|s)min',t[1]):
        x=[v for v in(ub(fn,RT,v,depth+1,seen) for v in t[2]) if v is not None]
        return min(x) if x else None
    if k=='load' and t[1][0]=='call' and t[1][1]=='std::min':
        x=[]
        return None
    if k=='and' and t[2][0]=='const' and t[2][1]>=0: return t[2][1]
    if k in('urem','srem') and t[2][0]=='const' and t[2][1]>0: return t[2][1]-1
    if k=='add':
        x=[ub(fn,RT,v,depth+1,seen) for v in t[1:]]
        return None if None in x else sum(x)
    return None

def guard_ub(fn,RT,t,b,to):
    """constant bound the branches leading over edge b->to put on term t"""
    t=noid(t);best=None
    E=set(fn.cdep_closure(b))
    if len(fn.succ[b])>1: E.add((b,to))
    for (q,s) in E:
        br=fn.blocks[q][-1]
        if br.op!='br' or not br.o: continue
        c,pol=norm_cond(RT.op(br.o[0]),br.d['succ'][0]==s)
        if c[0]!='cmp': continue
        pr=c[1] if pol else NEG[c[1]];x,y=c[2],c[3]
        if x[0]=='const': x,y=y,x;pr=SWAP[pr]
        if y[0]!='const' or noid(x)!=t: continue
        v={'slt':y[1]-1,'ult':y[1]-1,'sle':y[1],'ule':y[1],'eq':y[1]}.get(pr)
        if v is not None and (best is None or v<best): best=v
    return best

def last_store(fn,T,at,match):
    """the stores to an address satisfying `match` that reach instruction `at` (no aliasing calls considered)"""
    out=[];seen=set();st=[(at.bb,at.pos)]
    while st:
        b,pos=st.pop();hit=None
        for i in fn.blocks[b]:
            if pos is not None and i.pos>=pos: break
            if i.op=='store' and match(T.op(i.o[1])): hit=i
        if hit is not None: out.append(hit);continue
        if not fn.pred[b]: out.append(None)
        for q in fn.pred[b]:
            if q not in seen: seen.add(q);st.append((q,None))
    return out

def reaches(fn,a,b):
    """can control flow from instruction a to instruction b (b after a)?"""
    if a.bb==b.bb and a.pos<b.pos: return True
    seen=set();st=list(fn.succ[a.bb])
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        if x==b.bb: return True
        st.extend(fn.succ[x])
    return False

def params(dem):
    """parameter types of a demangled signature and whether it is a const method"""
    m=dem.rstrip()
    const=m.endswith(' const')
    if const: m=m[:-6]
    if not m.endswith(')'): return None,const
    d=0
    for k in range(len(m)-1,-1,-1):
        if m[k]==')': d+=1
        elif m[k]=='(':
            d-=1
            if d==0: break
    inner=m[k+1:-1]; out=[];d=0;cur=''
    for ch in inner:
        if ch in '<([': d+=1
        elif ch in '>)]': d-=1
        if ch==',' and d==0: out.append(cur.strip());cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out,const
