"""Effect summaries of readers and writers as sequences of input and output.

CI extends the path summaries with byte addresses inside local buffers, the pieces each
output call writes and the input each read call takes.  seq() turns the events of a path
into the items the lock-step comparison (checks/c06.py) walks over."""
from paths import *

ATTR=re.compile(r'^Partio::(Particle|Fixed)Attribute$')
OPAQUE=re.compile(r'^(Partio::\w*(Attribute|Accessor|Iterator|Particles\w*)\b|std::|__gnu|class\.std)')
GETS=('virt:ParticlesInfo::attributeInfo','virt:ParticlesInfo::fixedAttributeInfo','virt:ParticlesData::attributeInfo')
ADDS=re.compile(r'^virt:\w+::add(Fixed)?Attribute$')
RAW=re.compile(r'^Partio::ParticleAccessor::(raw|data)$')
DATA=re.compile(r'^virt:\w+::(fixedD|d)ataInternal$')
BUFR=re.compile(r'^Partio::read_buffer$')
BUFW=re.compile(r'^Partio::write_buffer$')
TSIZE={'char':1,'signed char':1,'unsigned char':1,'bool':1,'short':2,'unsigned short':2,'int':4,'unsigned int':4,'float':4,'long':8,'unsigned long':8,
  'long long':8,'unsigned long long':8,'double':8}

def bswap(v,n):
    if n==1: return v
    if v[0]=='bswap' and v[2]==n: return v[1]
    if v[0]=='const' and n in(2,4,8):
        x=int.from_bytes((v[1]&((1<<8*n)-1)).to_bytes(n,'little'),'big',signed=True);return ('const',x)
    if v[0]=='undef': return v
    return ('bswap',v,n)

class CI(Interp):
    def __init__(s,prog,nested=None,**k):
        Interp.__init__(s,prog,nested,**k);s.stsize={};s.ops={}
        s.ts=None;s.accs={}
    def isattrvec(s,v):
        return True
    def root(s,a):
        while a[0] in('fld','idx','off','at'): a=a[1]
        return a
    def under(s,a,b):
        while True:
            if a==b: return True
            if a[0] in('fld','idx','off','at'): a=a[1]
            else: return False
    def rel(s,x,a):
        f=[]
        while x!=a:
            f.append(x[2] if x[0]=='fld' else x[0:1]+x[2:]);x=x[1]
        return '.'.join(q if isinstance(q,str) else fmt(q[1]) if isinstance(q[1],tuple) else str(q[1]) for q in reversed(f))
    def at(s,b,o):
        if b[0]=='at': b,o=b[1],add(b[2],o)
        return b if o==ZERO else ('at',b,o)
    def off(s,b,n): return s.at(b,('const',n))
    def pos(s,a):
        """(base, byte offset)"""
        return (a[1],a[2]) if a[0]=='at' else (a,ZERO)
    def gep(s,fn,i,p):
        b=s.op(fn,i.d['base'],p)
        for q in i.d['path']:
            if q[0]=='f':
                if q[3].startswith('base:') and q[4]==0: continue
                if b[0]=='mnode' and q[4]>0: b=('mat',b[1],b[2]);continue
                if OPAQUE.match(q[1]) and not q[3].startswith('base:'):
                    if q[4] or ATTR.match(q[1]): b=('fld',b,q[3])
                    continue
                b=s.at(b,('const',q[4]))
            else:
                x=s.op(fn,q[1],p)
                if x==ZERO: continue
                if b[0]=='elem' and q[2]>1 and len(q)>3 and q[3] not in('i8',): b=('elem',b[1],add(b[2],x));continue
                b=s.at(b,scale(x,q[2]))
        return b
    def may(s,x,y):
        rx,ry=s.root(x),s.root(y)
        if rx==ry and all(z==rx or z[0]=='at' and z[1]==rx for z in(x,y)):
            (_,ox),(_,oy)=s.pos(x),s.pos(y);d=sub(ox,oy)
            if d[0]!='const': return True
            d=d[1]
            return (d<s.stsize.get(y,1)) if d>=0 else (-d<s.stsize.get(x,1))
        return Interp.may(s,x,y)
    def objs(s,a,p):
        """objects whose extent covers address a: (key, value, offset within)"""
        b,o=s.pos(a);out=[]
        for k,v in p.mem.items():
            if k[0]!='obj': continue
            kb,ko=s.pos(k[1])
            if kb==b: out.append((k[1],v,sub(o,ko)))
        return out
    def loadn(s,a,n,p):
        if a in p.mem:
            return Interp.load(s,a,p)
        if n==4 and (('obj',a) in p.mem or a[0]=='elem'):
            q=s.attrid(a,p)          # the type is the first member
            if q[0] in('attr','added','none') or q[0]=='elem' and s.isattrvec(q[1]):
                return q[3] if q[0]=='added' else ('const',0) if q[0]=='none' else ('af','type',q)
        if a[0]=='fld' and a[2] in('name','type','count','attributeIndex'):
            q=s.attrid(a[1],p)
            if q[0]!='attrobj':
                if q[0]=='added' and a[2] in('type','count'): return q[{'type':3,'count':4}[a[2]]]
                return ('af',a[2],q)
        best=None
        for k,v,d in s.objs(a,p):
            if v[0]=='inp':
                if d[0]=='const' and (d[1]<0 or v[2][0]=='const' and d[1]>=v[2][1]): continue
                if d[0]!='const' and len(s.objs(a,p))>1 and v[2][0]=='const' and v[2][1]<=8 : continue
                return ('in',v[1],d,n)
            if v[0]=='zero':
                if len(v)<2 or v[1][0]!='const' or d[0]=='const' and 0<=d[1]<v[1][1]: best=ZERO
                continue
            if v[0]=='mcpy':
                u=s.upper(v[2],p)
                if d[0]=='const' and (d[1]<0 or u is not None and d[1]>=u): continue
                return Interp.load(s,a,p)
            if v[0]=='bytes' and d[0]=='const' and 0<=d[1]<=len(v[1])-n: return ('const',int.from_bytes(v[1][d[1]:d[1]+n],'little',signed=True))
            if v[0]=='loopval': best=('lv',v[1],a)
        if best is not None: return best
        r=s.root(a)
        if r[0]=='glob':
            b,o=s.pos(a);g=s.bytes(b)
            if g is not None and o[0]=='const' and 0<=o[1]<=len(g)-n and s.prog.globals[b[1]].get('const'): return ('const',int.from_bytes(g[o[1]:o[1]+n],'little',signed=True))
        return Interp.load(s,a,p)
    def upper(s,n,p):
        if n[0]=='const': return n[1]
        for c in p.cond:
            c=c[0]
            if c[0]=='cmp' and c[2]==n and c[3][0]=='const' and c[1] in('ule','ult','sle','slt'): return c[3][1]
        return None
    def table(s,name,off):
        """an entry of an array that no instruction of the program writes or hands out"""
        d=s.__dict__.setdefault('_dirty',None)
        if d is None:
            d=set()
            for f in s.prog.fns:
                geps={}
                for b in f.blocks:
                    for i in b:
                        base=i.d.get('base')
                        if base and base[0]=='g': geps[i.id]=base[1]
                        elif base and base[0]=='i' and base[1] in geps: geps[i.id]=geps[base[1]]
                for b in f.blocks:
                    for i in b:
                        for n,o in enumerate(i.o or ()):
                            g=o[1] if o and o[0]=='g' else geps.get(o[1]) if o and o[0]=='i' else None
                            if g is not None and i.op!='load': d.add(g)
            s._dirty=d
        x=s.prog.globals.get(name)
        if x is None or 'init' not in x or not x.get('const') and name in d: return None
        for o,sz,v in x['init']:
            if o==off and v[0]=='c': return ('const',v[1])
        return None
    def bytes(s,g):
        if g[0]=='str': return g[1]+b'\0'
        if g[0]!='glob': return None
        x=s.prog.globals.get(g[1])
        if x and 'str' in x: return bytes.fromhex(x['str'])
        return None
    def step(s,fn,i,p,depth,fr):
        if i.op=='load':
            p.env[i.id]=s.loadn(s.op(fn,i.o[0],p),i.d.get('size',8),p);return None
        if i.op=='store':
            a=s.op(fn,i.o[1],p);s.stsize[a]=i.d.get('size',8)
            v=s.op(fn,i.o[0],p)
            s.store(a,v,p)
            if s.root(a)[0]!='alloca': s.event(p,'store',a,v,i.loc,i.d.get('size',8))
            elif v[0]=='load' and s.root(v[1])[0]=='data': s.event(p,'lset',a,v,i.loc,i.d.get('size',8))
            return None
        if i.op in('udiv','sdiv','and','lshr','ashr','or'):
            a,b=s.op(fn,i.o[0],p),s.op(fn,i.o[1],p)
            p.env[i.id]=fold(i.op,a,b);return None
        return Interp.step(s,fn,i,p,depth,fr)
    def attrid(s,a,p):
        for _ in range(6):
            if a[0]=='elem': return ('elem',a[1],a[2])
            o=p.mem.get(('obj',a))
            if o is None: break
            if o[0]=='copy': a=o[1];continue
            if o[0]=='res':
                if o[1] in GETS: return ('attr','fixed' if 'fixed' in o[1] else 'part',o[2][1])
                if ADDS.match(o[1]):
                    # (dest,) set, name, type, count
                    A=[x for x in o[2]]
                    return ('added',o[3],A[-3],A[-2],A[-1])
            if o[0]=='attr0': return ('none',)
            break
        return ('attrobj',a)
    def smash(s,fn,body,p,fr,ver,what=None):
        # a loop with a constant bound that fills an array member leaves the rest of the object alone
        keep={}
        ranges={};okroot={}
        for b in body:
            for i in fn.blocks[b]:
                if i.op=='store': self_=i.o[1]
                else: continue
                r=s.extent(fn,self_)
                if r is None: continue
                x,lo,hi=r
                a=p.env.get(x)
                if a is None: continue
                if lo is None: okroot[a]=False
                else: ranges.setdefault(a,[]).append((lo,hi+i.d.get('size',8)))
            for i in fn.blocks[b]:
                if i.op in('call','invoke'):
                    for o in i.o:
                        r=s.extent(fn,o)
                        if r and p.env.get(r[0]) is not None: okroot[p.env[r[0]]]=False
        for a,rs in ranges.items():
            if not okroot.get(a,True): continue
            for k,v in p.mem.items():
                y=k[1] if k[0] in('obj','S','size') else k
                yb,yo=s.pos(y)
                if yb!=a or yo[0]!='const': continue
                if any(lo<=yo[1]<hi for lo,hi in rs): continue
                keep[k]=v
        had=set(p.mem)
        Interp.smash(s,fn,body,p,fr,ver,what)
        for k,v in keep.items():
            p.mem[k]=v
            if v[0]=='zero' and k[1][0]=='at' and ('obj',k[1][1]) not in had: p.mem.pop(('obj',k[1][1]),None)
    def extent(s,fn,o):
        """(alloca, lowest, highest byte) an address within a local object can be, (alloca, None, None) if unknown"""
        lo=0;span=0;known=True
        for _ in range(40):
            if o[0]!='i': return None
            x=fn.inst[o[1]]
            if x.op=='alloca':
                return (x.id,lo,lo+span) if known else (x.id,None,None)
            if x.op=='getelementptr':
                for q in x.d['path']:
                    if q[0]=='f': lo+=q[4]
                    else:
                        c=q[1]
                        if c[0]=='c' and isinstance(c[1],int): lo+=c[1]*q[2];continue
                        n=s.ivlimit(fn,c)
                        if n is None: known=False
                        else: span+=(n-1)*q[2]
                o=x.d['base']
            elif x.op in('bitcast','addrspacecast'): o=x.o[0]
            else: return None
        return None
    def ivlimit(s,fn,o):
        for _ in range(4):
            if o[0]!='i': return None
            x=fn.inst[o[1]]
            if x.op in('sext','zext','trunc'): o=x.o[0];continue
            break
        if x.op!='phi': return None
        h=[b for b in fn.loops if any(i is x for i in fn.blocks[b])]
        if not h: return None
        for i in fn.blocks[h[0]]:
            if i.op=='icmp' and list(i.o[0])==['i',x.id] and i.o[1][0]=='c': return i.o[1][1]
        return None
    def input(s,p,ptr,n,loc):
        """n bytes of input at address ptr"""
        p.n[0]+=1;k=p.n[0]
        b,o=s.pos(ptr)
        for x in list(p.mem):
            y=x[1] if x[0] in('obj','S','size') else x
            if not s.under(y,b): continue
            yb,yo=s.pos(y)
            d=sub(yo,o)
            if yb==b and d[0]=='const' and n[0]=='const':
                if d[1]>=n[1]: continue
                if d[1]<0 and (x[0]=='obj' or -d[1]>=s.stsize.get(y,1)): continue
            elif x[0]=='obj' and yb==b: continue
            del p.mem[x]
        p.mem[('obj',ptr)]=('inp',k,n)
        s.event(p,'rd',k,ptr,n,loc)
        return k
    def pieces(s,ptr,n,p):
        """what the n bytes at ptr are: a list of ('val',value,size,offset) | ('raw',ptr,n) | ('bytes',b)"""
        if n[0]!='const':
            if ptr[0] in('alloca','at') and s.root(ptr)[0]=='alloca': pass
            return [('raw',ptr,n)]
        N=n[1]
        g=s.bytes(ptr)
        if g is not None and len(g)>=N: return [('bytes',g[:N])]
        r=s.root(ptr)
        if ptr in p.mem and s.stsize.get(ptr)==N: return [('val',p.mem[ptr],N)]
        if r[0]!='alloca' and r[0]!='fresh': return [('raw',ptr,n)]
        b,o=s.pos(ptr);out={}
        for k,v in p.mem.items():
            if k[0] in('obj','S','size'): continue
            kb,ko=s.pos(k)
            if kb!=b: continue
            d=sub(ko,o)
            if d[0]!='const': return [('raw',ptr,n)]
            if 0<=d[1]<N: out[d[1]]=('val',v,s.stsize.get(k,0),loc0(k))
        objs=s.objs(ptr,p);parts=[]
        zero=any(v[0]=='zero' and d[0]=='const' and d[1]>=0 for k,v,d in objs)
        # objects that start inside (memcpy, strings) or cover
        for k,v in p.mem.items():
            if k[0]!='obj': continue
            kb,ko=s.pos(k[1])
            if kb!=b: continue
            d=sub(ko,o)
            if v[0]=='bytes' and d[0]=='const' and 0<=d[1]<N: out.setdefault(d[1],('bytes',v[1]))
            elif v[0]=='loopval': return [('raw',ptr,n)]
            elif v[0]=='mcpy' and d[0]=='const' and 0<=d[1]<N: out.setdefault(d[1],('cpy',v[1],v[2]))
        pos=0;res=[]
        for d in sorted(out):
            x=out[d]
            if d<pos: return [('raw',ptr,n)]
            if d>pos: res.append(('bytes',bytes(d-pos)) if zero else ('gap',d-pos))
            if x[0]=='val':
                if not x[2] or d+x[2]>N: return [('raw',ptr,n)]
                res.append(('val',x[1],x[2]));pos=d+x[2]
            elif x[0]=='cpy':
                nx=min([q for q in out if q>d]+[N]);res.append(('field',x[1],x[2],nx-d));pos=nx
            else:
                y=x[1][:N-d];res.append(('bytes',y));pos=d+len(y)
        if pos<N: res.append(('bytes',bytes(N-pos)) if zero else ('gap',N-pos))
        if not out and not zero:
            ld=s.loadn(ptr,N,p) if N<=8 else None
            return [('val',ld,N)] if ld is not None else [('raw',ptr,n)]
        return res
    def docall(s,fn,i,p,depth,fr):
        n=fn.callee(i)
        if n=='std::operator+' and 'basic_string' in i.d.get('dem','') and i.d.get('sret') is not None:
            a=[s.op(fn,o,p) for o in i.o];k=i.d['sret'];xs=[]
            for x in a[:k]+a[k+1:]:
                v=s.strval(x,p) if x[0]!='const' else ('str',bytes([x[1]&255]))
                xs+=list(v[1]) if v[0]=='cat' else [v]
            r=Interp.docall(s,fn,i,p,depth,fr);p.mem[('S',a[k])]=('cat',tuple(xs));return r
        if n in('std::istream::read','std::istream::ignore','std::istream::seekg','std::istream::get','std::ostream::write','std::ostream::put') or BUFR.match(n) or BUFW.match(n) or n=='Partio::endianSwap' or DATA.match(n) or RAW.match(n) \
           or n.startswith(('llvm.memcpy','llvm.memmove','llvm.memset')) or n in('memcpy','std::vector::push_back','std::vector::emplace_back','Partio::TypeSize','Partio::ParticleAccessor::ParticleAccessor'):
            a=[s.op(fn,o,p) for o in i.o];loc=i.loc
            if n=='std::istream::read': s.input(p,a[1],a[2],loc);p.env[i.id]=a[0];return None
            if n=='std::istream::ignore':
                p.n[0]+=1;s.event(p,'rd',p.n[0],None,a[1] if len(a)>1 else ONE,loc);p.env[i.id]=a[0];return None
            if n=='std::istream::seekg':
                if len(a)==3 and a[2]==ONE:     # forward from here
                    p.n[0]+=1;s.event(p,'rd',p.n[0],None,a[1],loc);p.env[i.id]=a[0];return None
                return Interp.docall(s,fn,i,p,depth,fr)
            if n=='std::istream::get' and len(a)==2: s.input(p,a[1],ONE,loc);p.env[i.id]=a[0];return None
            if n=='std::ostream::write': s.event(p,'wr',tuple(s.pieces(a[1],a[2],p)),loc);p.env[i.id]=a[0];return None
            if n=='std::ostream::put': s.event(p,'wr',(('val',a[1],1),),loc);p.env[i.id]=a[0];return None
            if BUFR.match(n) and len(a)>=5: s.input(p,a[3],a[4],loc);p.n[0]+=1;p.env[i.id]=('ok',);return None
            if BUFW.match(n) and len(a)>=5:
                if a[4]!=ZERO: s.event(p,'wr',tuple(s.pieces(a[3],a[4],p)),loc)
                p.env[i.id]=('ok',);return None
            if n=='Partio::endianSwap':
                m=re.search(r'endianSwap<([^<>]*)>',i.d.get('dem',''));sz=TSIZE.get(m.group(1).strip() if m else '')
                if sz is None: return Interp.docall(s,fn,i,p,depth,fr)
                v=bswap(s.loadn(a[0],sz,p),sz);s.stsize[a[0]]=sz;s.store(a[0],v,p)
                if s.root(a[0])[0]!='alloca': s.event(p,'store',a[0],v,loc,sz)
                return None
            if DATA.match(n):
                # set, attribute, (index)
                at=s.attrid(a[1],p)
                p.env[i.id]=('data',at,a[2] if len(a)>2 else ('fixed',));return None
            if RAW.match(n):
                o=s.accattr(a[0],p)
                p.env[i.id]=('data',o,('cur',a[1]));return None
            if n=='Partio::ParticleAccessor::ParticleAccessor':
                s.kill(a[0],p);q=s.attrid(a[1],p);p.mem[('obj',a[0])]=('accof',q);p.env[('acck',a[0])]=q;s.accs.setdefault(a[0],set()).add(q);return None
            if n=='Partio::TypeSize':
                p.env[i.id]=s.typesize(a[0]);return None
            if n in('std::vector::push_back','std::vector::emplace_back') and len(a)>1:
                sz=s.size(a[0],p);d=i.d.get('dem','')
                if 'ParticleAttribute' in d or 'FixedAttribute' in d: s.event(p,'pusha',a[0],s.attrid(a[1],p),sz)
                elif 'ParticleAccessor' in d:
                    s.event(p,'pusha',a[0],s.accattr(a[1],p),sz)
                elif 'basic_string' in d: s.event(p,'pushstr',a[0],s.strval(a[1],p),sz)
                else:
                    b=a[1];snap={}
                    for k,v in p.mem.items():
                        if k[0] in('obj','S','size') : continue
                        kb,ko=s.pos(k)
                        if kb==b and ko[0]=='const': snap[ko[1]]=(v,s.stsize.get(k,0))
                    for k,v,dd in s.objs(b,p):
                        if v[0]=='inp' and dd==ZERO: snap['in']=v
                    s.event(p,'pushs',a[0],tuple(sorted(snap.items(),key=repr)),sz)
            elif (n.startswith(('llvm.mem')) or n=='memcpy') and len(a)>=3:
                g=s.bytes(a[1]);r=s.root(a[0])
                if r[0]=='alloca' and n.startswith('llvm.memset'):
                    if a[1]==ZERO:
                        s.drop(a[0],a[2],p);p.mem[('obj',('at',a[0],ZERO))]=('zero',a[2]);p.env[i.id]=a[0];return None
                elif r[0]=='alloca':
                    if g is not None and a[2][0]=='const' and len(g)>=a[2][1]:
                        s.drop(a[0],a[2],p);p.mem[('obj',a[0])]=('bytes',g[:a[2][1]]);p.env[i.id]=a[0];return None
                    if a[1][0]=='chars' or a[2][0]!='const':
                        s.drop(a[0],a[2],p);p.mem[('obj',a[0])]=('mcpy',a[1],a[2]);p.env[i.id]=a[0];return None
                    s.copybytes(a[0],a[1],a[2][1],p);p.env[i.id]=a[0];return None
        return Interp.docall(s,fn,i,p,depth,fr)
    def accattr(s,a,p):
        x=p.mem.get(('obj',a))
        if x is not None and x[0]=='accof': return x[1]
        if x is not None and x[0]=='copy': return s.accattr(x[1],p)
        x=p.env.get(('acck',a))
        if x is not None: return x
        if len(s.accs.get(a,()))==1: return next(iter(s.accs[a]))      # set up for the iterator since
        return ('acc',a)
    def drop(s,ptr,n,p):
        b,o=s.pos(ptr)
        for x in list(p.mem):
            y=x[1] if x[0] in('obj','S','size') else x
            if not s.under(y,b): continue
            yb,yo=s.pos(y);d=sub(yo,o)
            if x[0]=='obj' and not(d==ZERO): continue
            if yb==b and d[0]=='const' and n[0]=='const' and (d[1]>=n[1] or d[1]<0): continue
            if n[0]!='const' and x[0]!='obj' and yb==b and d[0]=='const' and d[1]<0: continue
            if x[0]=='obj' and p.mem[x][0]=='zero': continue
            del p.mem[x]
    def copybytes(s,dst,src,n,p):
        sb,so=s.pos(src);items=[]
        for k,v in list(p.mem.items()):
            if k[0] in('S','size'): continue
            y=k[1] if k[0]=='obj' else k
            yb,yo=s.pos(y)
            if yb!=sb: continue
            d=sub(yo,so)
            if d[0]!='const' or not(0<=d[1]<n): continue
            items.append((k[0]=='obj',s.at(dst,d),v,y))
        s.drop(dst,('const',n),p);p.mem.pop(('obj',dst),None)
        for ob,a,v,y in items:
            if ob: p.mem[('obj',a)]=v
            else: p.mem[a]=v;s.stsize[a]=s.stsize.get(y,1)
        if not items and s.root(src)[0]!='alloca': p.mem[('obj',dst)]=('copy',src,0)
    def typesize(s,t):
        if s.ts is None:
            s.ts={}
            f=[f for f in s.prog.fns if f.short=='Partio::TypeSize']
            if f:
                for k in range(8):
                    it=CI(s.prog)
                    try: ps=it.run(f[0],[('const',k)])
                    except TooMany: continue
                    rs={q.ret for q in ps if q.end==('ret',)}
                    if len(rs)==1:
                        r=rs.pop()
                        if r and r[0]=='const': s.ts[k]=r[1]
        if t[0]=='const' and t[1] in s.ts: return ('const',s.ts[t[1]])
        # all types that have a size have the same one
        v={s.ts[k] for k in s.ts if k}
        if t[0]!='const' and len(v)==1: return ('tsize',t,('const',v.pop()))
        return ('call','Partio::TypeSize',(t,))
def loc0(k): return ''
def fold(op,a,b):
    if a[0]=='const' and b[0]=='const':
        x,y=a[1],b[1]
        if op in('udiv','sdiv') and y: return ('const',int(x/y) if op=='sdiv' else x//y) if x>=0 and y>0 else (op,a,b)
        if op=='and': return ('const',x&y)
        if op=='or': return ('const',x|y)
        if op=='lshr' and x>=0: return ('const',x>>y)
        if op=='ashr': return ('const',x>>y)
    if op in('udiv','sdiv') and b[0]=='const' and b[1]>0 and a[0]!='const':
        l=tolin(a)
        if all(v%b[1]==0 for v in l.values()): return mklin(collections.Counter({k:v//b[1] for k,v in l.items()}))
    if op=='or' and b[0]=='const' and b[1]==0: return a
    return (op,a,b)
