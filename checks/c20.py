"""C20: byte-order primitives."""
from flow import *
SZ={'char':1,'signed char':1,'unsigned char':1,'bool':1,'short':2,'unsigned short':2,'int':4,'unsigned int':4,'float':4,'double':8,'long':8,'unsigned long':8}
BY={'i8':1,'i16':2,'i32':4,'i64':8,'float':4,'double':8}

def affine(t,ph):
    """t = a + b*phi -> (a,b)"""
    if t==('phi',ph): return 0,1
    if t[0]=='const': return t[1],0
    if t[0] in('add','sub') and len(t)==3:
        x=affine(t[1],ph);y=affine(t[2],ph)
        if x is None or y is None: return None
        s=1 if t[0]=='add' else -1
        return x[0]+s*y[0],x[1]+s*y[1]
    if t[0]=='mul' and t[2][0]=='const':
        x=affine(t[1],ph)
        return None if x is None else (x[0]*t[2][1],x[1]*t[2][1])
    if t[0]=='xor' and t[2][0]=='const': return ('xor',t[1],t[2][1])
    return None

def byteaddr(t,ph):
    """(root, a, b) of a byte address"""
    r,p=split(t);a=b=0
    for x in p:
        if x[0]=='o': a+=x[1]
        elif x[0]=='x':
            q=affine(x[1],ph)
            if q is None or q[0]=='xor': return None
            a+=q[0]*x[2];b+=q[1]*x[2]
        else: return None
    return r,a,b

def swap_kind(f,n):
    """'reverse' | ('bad',why,loc) | None (not recognised)"""
    T=RTerms(f);val=('arg',0)
    calls=[i for i in f.calls() if not f.callee(i).startswith('llvm.dbg') and not f.callee(i).startswith('llvm.lifetime')]
    names=[f.callee(i) for i in calls]
    if n==1 :
        return 'reverse'
    for i in calls:
        if re.match(r'llvm\.bswap',f.callee(i)):
            st=[s for s in f.insts() if s.op=='store' and T.op(s.o[1])==val]
            if len(st)==1 and any(x[0]=='call' and x[3]==i.id for x in atoms(T.op(st[0].o[0]))): return 'reverse'
        if f.callee(i)=='std::reverse':
            a,b=Terms(f).op(i.o[0]),Terms(f).op(i.o[1])
            ra,pa=split(a);rb,pb=split(b)
            if ra==val and rb==val and not pa:
                d=sum(x[1]*x[2] if x[0]=='x' and isinstance(x[1],int) else (x[1][1]*x[2] if x[0]=='x' and x[1][0]=='const' else (x[1] if x[0]=='o' else 0)) for x in pb)
                return 'reverse' if d==n else ('bad','reverses %d of %d bytes'%(d,n),i.loc)
    L=list(f.loops)
    if len(L)!=1: return None
    h=L[0]
    cnt,oth=trip(f,T,h)
    if len(cnt)!=1 or oth: return None
    tr,ind=cnt[0][1],cnt[0][2]
    if tr[0]!='const' or len(ind.start)!=1 or ind.start[0][0]!='const': return None
    N=tr[1];s0=ind.start[0][1];st=ind.step;ph=ind.phi.id
    stores=[i for b in f.loops[h] for i in f.blocks[b] if i.op=='store']
    K=Terms(f)
    outside=[i for i in f.insts() if i.op=='store' and i.bb not in f.loops[h] and split(K.op(i.o[1]))[0]==val]
    if outside: return None
    # snapshot locals
    snap=set()
    for i in f.insts():
        if i.bb in f.loops[h]: continue
        if i.op=='store' and K.op(i.o[0])==('load',val) and K.op(i.o[1])[0]=='alloca' and f.inst[i.o[0][1]].d['t'] in BY and BY[f.inst[i.o[0][1]].d['t']]==n: snap.add(K.op(i.o[1]))
        if i.op=='call' and f.callee(i) in('llvm.memcpy','memcpy') and K.op(i.o[1])==val and K.op(i.o[2])==('const',n): snap.add(split(K.op(i.o[0]))[0])
    m={}
    vs=[s for s in stores if split(K.op(s.o[1]))[0]==val]
    order=sorted(vs,key=lambda i:(i.bb,i.pos))
    for it in range(N):
        x=s0+st*it
        cur={}
        for s in order:
            d=byteaddr(K.op(s.o[1]),ph)
            v=K.op(s.o[0])
            if v[0]!='load':
                # value kept in a scalar temporary
                return None
            so=byteaddr(v[1],ph)
            if d is None or so is None: return None
            di=d[1]+d[2]*x;si=so[1]+so[2]*x
            if so[0] in snap: src=si
            elif so[0]==val:
                # in place: the load must come before the stores of this iteration to be the old byte
                ld=f.val(s.o[0])
                while ld is not None and ld.op!='load': ld=f.val(ld.o[0])
                src=m.get(si,si)
                for p2 in order:
                    if p2 is s: break
                    dd=byteaddr(K.op(p2.o[1]),ph);ddi=dd[1]+dd[2]*x
                    if ddi==si and ld is not None and f.inst_dominates(p2,ld): src=cur.get(si,src)
            elif so[0][0]=='alloca':
                ds=[q for q in T.mem.defs(so[0],s) if q[0]=='store']
                if len(ds)!=1: return None
                v2=K.op(ds[0][1].o[0])
                if v2[0]!='load': return None
                s2=byteaddr(v2[1],ph)
                if s2 is None or s2[0]!=val: return None
                src=m.get(s2[1]+s2[2]*x,s2[1]+s2[2]*x)
            else: return None
            cur[di]=src
        m.update(cur)
    if not vs: return ('bad','changes nothing',f.file+':%d'%f.line)
    for k in range(n):
        if m.get(k,k)!=n-1-k: return ('bad','byte %d of the result is byte %d of the input, not byte %d'%(k,m.get(k,k),n-1-k),vs[0].loc)
    for k in m:
        if not 0<=k<n: return ('bad','touches byte %d of a %d-byte value'%(k,n),vs[0].loc)
    return 'reverse'

def targs(dem,name):
    m=re.search(r'Partio::%s<(.*)>\('%name,dem)
    return [x.strip() for x in m.group(1).split(',')] if m else None

def run(ctx):
    ctx.rule('affine byte-index analysis: every instance of the byte swap is the full reversal of its operand')
    ctx.rule('every instance of the typed stream reads and writes transfers exactly the operands\' sizes, in operand order, byte-swapped exactly for the big-endian form, without changing the caller\'s value on writes')
    p=ctx.view('inl')
    for f in p.fns:
        if f.short in('Partio::endianSwap','Partio::Swap_Endianity'):
            t=re.search(r'<(.*)>\(',f.dem).group(1);n=SZ.get(t)
            if not n: ctx.und('byte reversal',f.dem);continue
            ctx.touch(f)
            k=swap_kind(f,n)
            if k is None: ctx.und('byte reversal',f.dem);continue
            ctx.decide(k=='reverse','byte reversal','endianSwap<%s>'%t,'%s: %s'%(f.dem,k[1] if k!='reverse' else ''),k[2] if k!='reverse' else f.file)
    for f in p.fns:
        m=re.match(r'Partio::(read|write)$',f.short)
        a=targs(f.dem,m.group(1)) if m else None
        if a and a[0] in('Partio::BIGEND','Partio::LITEND'): prim(ctx,f,m.group(1),a[0].endswith('BIGEND'),a[1:])
        m=re.match(r'Partio::(Read|Write)_Primitive$',f.short)
        if m: prim(ctx,f,m.group(1).lower(),False,targs(f.dem,m.group(1)+'_Primitive'))
    ctx.need('byte reversal',1);ctx.need('typed transfer',1)

def prim(ctx,f,rw,big,types):
    if len(f.args)!=len(types)+1 or any(t not in SZ for t in types):
        ctx.und('typed transfer',f.dem);return
    if any(len(s)>1 for s in f.succ):
        ctx.und('typed transfer',f.dem);return
    ctx.touch(f)
    T=RTerms(f);K=Terms(f)
    ev=[];swapped=collections.Counter()
    seq=[i for b in sorted(f.idom,key=lambda b:len(f.rpo()) and f.rpo().index(b)) for i in f.blocks[b]]
    io=[];sw=[];byt=[]
    for i in seq:
        if i.op not in('call','invoke'):
            continue
        n=f.callee(i)
        if n in('std::istream::read','std::ostream::write'): io.append(i)
        elif n.startswith('std::istream::') or n.startswith('std::ostream::') or n in('std::operator_shl','std::operator_shr'): byt.append(i)
        elif n=='Partio::endianSwap' or n=='llvm.bswap': sw.append(i)
    key='%s<%s%s>'%(rw,'BIG:' if big else 'LIT:',','.join(types))
    bad=lambda why,loc: ctx.bad(key,'%s: %s'%(f.dem,why),loc,'typed transfer')
    if byt: 
        ctx.und('typed transfer',f.dem);return
    if len(io)!=len(types): return bad('%d transfers for %d operands'%(len(io),len(types)),f.file+':%d'%f.line)
    for k,(i,t) in enumerate(zip(io,types)):
        n=SZ[t];a=('arg',k+1)
        if K.op(i.o[0])!=('arg',0): return bad('uses another stream',i.loc)
        if K.op(i.o[2])!=('const',n): return bad('transfers %s bytes of a %d-byte operand'%(show(K.op(i.o[2]),f),n),i.loc)
        ptr=K.op(i.o[1]);root,pth=split(ptr)
        if pth: return bad('transfer does not start at the operand',i.loc)
        nsw=len([x for x in sw if split(K.op(x.o[0]))[0]==root])
        pos=[x for x in sw if split(K.op(x.o[0]))[0]==root]
        if rw=='read':
            if root!=a: return bad('operand %d is not the %d. one read'%(k+1,k+1),i.loc)
            before=[x for x in pos if f.inst_dominates(x,i)]
            if before: return bad('operand is swapped before it is read',before[0].loc)
        else:
            if root[0]=='alloca':
                v=[d for d in T.mem.defs(root,i) if d[0]=='store']
                src=T.op(v[0][1].o[0]) if len(v)==1 else None
                if src is not None and src!=('load',a): return bad('operand %d is not the %d. one written'%(k+1,k+1),i.loc)
                late=[x for x in pos if f.inst_dominates(i,x)]
                if late: return bad('operand is swapped after it was written',late[0].loc)
            elif root==a:
                if pos: return bad('the caller\'s value is swapped in place',pos[0].loc)
            else: return bad('writes something other than its operand',i.loc)
        if n>1:
            want=1 if big else 0
            if nsw%2!=want or nsw>1: return bad('operand is byte-swapped %d times in the %s form'%(nsw,'big-endian' if big else 'little-endian'),i.loc)
    ctx.ok('typed transfer',key)
