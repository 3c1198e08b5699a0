"""C11: the storage of the particle sets always covers every particle and attribute, without overlap."""
from obj import *
AI=('load',('fld',('attr',),'attributeIndex'))

# ---- polynomials over terms
def unver(t):
    if not isinstance(t,tuple): return t
    if t and t[0]=='load' and len(t)==3: return ('load',unver(t[1]))
    if t and t[0]=='size' and len(t)==3: return ('size',unver(t[1]))
    return tuple(unver(x) for x in t)
class Norm(object):
    """polynomial normal form; the size function of the attribute types becomes its constant"""
    def __init__(s,ts): s.ts=ts
    def poly(s,t):
        if t[0]=='const': return {():t[1]} if t[1] else {}
        if t[0]=='lin':
            r={():t[1]} if t[1] else {}
            for x,k in t[2]: s.acc(r,s.poly(x),k)
            return r
        if t[0]=='mul':
            r={():1}
            for x in t[1]:
                q=s.poly(x);n={}
                for a,k in r.items():
                    for b,j in q.items():
                        m=tuple(sorted(a+b,key=repr));n[m]=n.get(m,0)+k*j
                r={k:v for k,v in n.items() if v}
            return r
        if t[0]=='call' and t[1]=='Partio::TypeSize' and s.ts is not None: return {():s.ts}
        if t[0]=='shl' and len(t)==3 and t[2][0]=='const': return s.poly(('mul',(t[1],('const',1<<t[2][1]))))
        return {(t,):1}
    def acc(s,r,q,k=1):
        for m,v in q.items():
            r[m]=r.get(m,0)+k*v
            if not r[m]: del r[m]
    def sub(s,a,b):
        r=dict(a);s.acc(r,b,-1);return r
    def add(s,a,b):
        r=dict(a);s.acc(r,b,1);return r
    def mul(s,a,b):
        n={}
        for x,k in a.items():
            for y,j in b.items():
                m=tuple(sorted(x+y,key=repr));n[m]=n.get(m,0)+k*j
        return {k:v for k,v in n.items() if v}
    def ptr(s,t):
        """(base, byte offset polynomial)"""
        off={}
        while t[0]=='idx':
            s.acc(off,s.poly(t[2]),t[3] if len(t)>3 else 1)
            t=t[1]
        return t,off
def pfmt(p):
    if not p: return '0'
    return ' + '.join(('%d'%k if not m else ('' if k==1 else '%d*'%k)+'*'.join(fmt(x) for x in m)) for m,k in sorted(p.items(),key=repr))
def nonneg(p): return all(k>=0 for k in p.values())
def coef(p,x):
    """p as A*x+B; None when x occurs otherwise"""
    A={};B={}
    for m,k in p.items():
        n=m.count(x)
        if n==0: B[m]=k
        elif n==1:
            l=list(m);l.remove(x);A[tuple(l)]=k
        else: return None,None
    return A,B

# ---- evaluation of growth conditions over small counts (their regions are bounded by lines of small slope)
def ev(t,env):
    if t in env: return env[t]
    if t[0]=='const': return t[1]
    if t[0]=='lin':
        r=t[1]
        for x,k in t[2]:
            v=ev(x,env)
            if v is None: return None
            r+=k*v
        return r
    if t[0]=='mul':
        r=1
        for x in t[1]:
            v=ev(x,env)
            if v is None: return None
            r*=v
        return r
    if t[0] in('sdiv','udiv','shl','ashr','lshr','srem','urem','and','or','xor','smax','smin','umax','umin') and len(t)==3:
        a,b=ev(t[1],env),ev(t[2],env)
        if a is None or b is None: return None
        if t[0] in('sdiv','udiv'): return int(a/b) if b and abs(a)<2**40 and a*b<0 else (a//b if b else None)
        if t[0]=='shl': return a<<b
        if t[0] in('ashr','lshr'): return a>>b
        if t[0] in('srem','urem'): return abs(a)%abs(b)*(1 if a>=0 else -1) if b else None
        return {'and':a&b,'or':a|b,'xor':a^b,'smax':max(a,b),'umax':max(a,b),'smin':min(a,b),'umin':min(a,b)}[t[0]]
    if t[0]=='max' or t[0]=='min': return None
    if t[0]=='cmp':
        a,b=ev(t[2],env),ev(t[3],env)
        if a is None or b is None: return None
        if t[1][0]=='u' and (a<0 or b<0): a%=2**32;b%=2**32
        return int({'eq':a==b,'ne':a!=b,'slt':a<b,'sle':a<=b,'sgt':a>b,'sge':a>=b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b}[t[1]])
    if t[0]=='not':
        v=ev(t[1],env)
        return None if v is None else 1-v
    return None

def typesize(c,prog):
    """the size TypeSize gives to every storable type, or None"""
    f=next((f for f in prog.fns if f.short=='Partio::TypeSize'),None)
    if f is None: return None
    try: ps=Interp(prog,devirt(prog)).run(f)
    except TooMany: return None
    out=set()
    for ty in range(1,5):
        got=[p.ret for p in ps if p.end==('ret',) and all(ev(x,{('arg',0):ty})==1 for x,_ in p.cond)]
        if len(got)!=1: return None
        v=ev(got[0],{('arg',0):ty})
        if v is None: return None
        out.add(v);c.decide(v==4,'element size','type %d'%ty,'TypeSize gives %d bytes to type %d, whose values take 4'%(v,ty),'%s:%d'%(f.file,f.line))
    return out.pop() if len(out)==1 else None

class Store(object):
    """storage of one class, per particle or fixed"""
    def __init__(s,c,O,N,cls,fixed):
        s.c=c;s.O=O;s.N=N;s.cls=cls;s.short=cls.split('::')[-1];s.fixed=fixed
        s.F=('fixed ' if fixed else '')
    def nrm(s,f,t,attr=True):
        me=s.O.this(f);at=s.O.par(f,0) if attr else None
        def r(x):
            if x==me: return ('this',)
            if x==at: return ('attr',)
            return tuple(r(y) if isinstance(y,tuple) else y for y in x)
        return unver(r(t))
    def back(s,f,t,n=None):
        """this-relative term into f's terms; the attribute index replaced by n, or by the
        position of the next entry of the table (the tables grow together: C12)"""
        me=s.O.this(f)
        def r(x):
            if x[:1]==('elem',) and x[2]==AI and n=='new':
                v=r(x[1]);return ('elem',v,('size',v))
            if x==AI and n is not None: return n
            if x==('this',): return me
            return tuple(r(y) if isinstance(y,tuple) else y for y in x)
        return r(t)
    def known(s,p):
        """are all terms plain member state, arguments and constants?"""
        for m in p:
            for x in m:
                for t in subterms(x):
                    if t[0] in('iv','unk','alt','uninit','undef','val','call','phi','select','fresh','insv'): return False
        return True

    other=None
    def address(s):
        c,O,N=s.c,s.O,s.N
        name='fixedDataInternal' if s.fixed else 'dataInternal'
        f=O.method(s.cls,name)
        if f is None: c.und('address',s.short+' has no '+name);return False
        it,ps=O.paths(f,s.cls)
        if ps is None: c.und('address',name+' has too many paths');return False
        s.f=f;loc='%s:%d'%(f.file,f.line);i=O.par(f,1) if not s.fixed else None
        forms=set();who='%s::%s'%(s.short,name)
        P=O.field_of(s.cls,'numParticles') if not s.fixed else None
        for p in ps:
            if p.end!=('ret',): continue
            if p.ret==('null',):
                if s.fixed: c.und('address',who+' returns null');continue
                cnt=s.back(f,('load',P)) if P else None
                bad=p.has(cmpc('ult',i,cnt))>0 if cnt else False
                c.decide(not bad,'address',who+' null','%s returns nothing for an index inside the set'%who,loc)
                continue
            b,off=N.ptr(p.ret);b=s.nrm(f,b)
            off={tuple(s.nrm(f,x) for x in m):k for m,k in off.items()}
            forms.add((b,tuple(sorted(off.items(),key=repr))))
            if not s.fixed:
                if P is None: c.und('address',who+': particle count unknown');continue
                cnt=s.back(f,('load',P))
                h=max(p.has(cmpc('ult',i,cnt)),p.has(cmpc('slt',i,cnt)) if p.has(cmpc('sle',ZERO,i))>0 else -1)
                conds=[x for x,_ in p.cond if any(t==i for t in subterms(x))]
                if h>0: c.ok('address',who+' requires index < number of particles')
                elif not conds or all(any(t==cnt for t in subterms(x)) or x[0]=='cmp' and any(y[0]=='const' for y in x[2:]) for x in conds): c.bad(who+' range','%s hands out an address for an index it has not compared below the number of particles'%who,loc,'address',[fmt(x) for x in conds])
                else:
                    s.other=(f,i,p,conds,who,loc)
                    c.und('address',who+' decides on %s'%[fmt(x) for x in conds])
        if len(forms)!=1: c.und('address','%s has %d address forms'%(who,len(forms)));return False
        b,off=forms.pop();off=dict(off)
        s.B=b;s.P=P
        if not s.fixed:
            S,Of=coef(off,('arg',O.par(f,1)[1]))
            if S is None: c.und('address',who+' offset is not linear in the index');return False
            s.S=S;s.Of=Of
            if not S: c.bad(who+' stride','%s does not depend on the particle index'%who,loc,'address');return False
        else: s.S={};s.Of=off
        s.sep=b[0]=='load' and b[1][0]=='elem' and b[1][2]==AI
        if not s.sep and not(b[0]=='load' and b[1][0]=='fld'): c.und('address','%s starts from %s'%(who,fmt(b)));return False
        s.D=b[1][1] if s.sep else b[1]
        if s.sep and s.Of: c.und('address',who+' adds an offset in a buffer of its own');return False
        if not s.sep and not s.Of: c.und('address',who+' adds no attribute offset');return False
        c.ok('address','%s is %s + %s'%(who,fmt(s.B),pfmt(off)))
        return True

    def load_poly(s,it,p,f,pol,n):
        """value at the end of the path of a this-relative polynomial whose atoms are loads"""
        r={():1} if False else {}
        for m,k in pol.items():
            q={():k}
            for x in m:
                if x[0]=='load': v=s.N.poly(unver(it.load(s.back(f,x[1],n),p)))
                else: v=s.N.poly(s.back(f,x,n))
                q=s.N.mul(q,v)
            s.N.acc(r,q)
        return r

    def fresh_size(s,p,v):
        """size in bytes a path asked for when it obtained buffer v"""
        for e,l in flat(p.ev):
            if e[0]=='call' and len(e)>4 and e[4]==v:
                n=e[1].split('::')[-1]
                a=e[2]
                if n in('malloc','operator new[]','operator new'): return s.N.poly(unver(a[0])),e
                if n=='calloc': return s.N.mul(s.N.poly(unver(a[0])),s.N.poly(unver(a[1]))),e
                if n=='realloc': return s.N.poly(unver(a[1])),e
        return None,None

    def adder(s,K):
        c,O,N=s.c,s.O,s.N
        name='addFixedAttribute' if s.fixed else 'addAttribute'
        f=O.method(s.cls,name,'char const*');it,ps=O.paths(f,s.cls) if f else (None,None)
        if ps is None: c.und('attribute storage',s.short+'::'+name+' not analysed');return
        A=O.size_of(s.cls,'numFixedAttributes' if s.fixed else 'numAttributes')
        if A is None: c.und('attribute storage',s.short+': attribute table unknown');return
        a=s.back(f,A);ct=O.par(f,2);ty=O.par(f,1);who='%s::%s'%(s.short,name);loc='%s:%d'%(f.file,f.line)
        esz=N.mul(N.poly(ct),{():4})
        for p in ps:
            if p.end!=('ret',) or sub(it.size(a,p),('size',a))!=ONE: continue
            cap={():1} if s.fixed else N.poly(('load',s.back(f,K)))
            # element stride
            n='new'
            tab=s.back(f,s.B[1],n)
            if s.sep:
                if not s.fixed:
                    st=s.load_poly(it,p,f,s.S,n) if not any(AI in subterms(x) and 'count' in repr(x) for m in s.S for x in m) else esz
                    if any(x[0]=='load' and x[1][0]=='fld' and x[1][1]==('attr',) for m in s.S for x in m): st=esz
                    s.same(st,esz,'attribute storage',who+' stride','%s records %s bytes per particle for the attribute, its values take %s'%(who,pfmt(st),pfmt(esz)),loc)
                else: st=esz
                buf=unver(it.load(tab,p));sz,e=s.fresh_size(p,it.load(tab,p))
                want=N.mul(cap,esz)
                if sz is None: c.und('attribute storage','%s buffer is %s'%(who,fmt(buf)));continue
                d=N.sub(sz,want)
                if nonneg(d): c.ok('attribute storage',who+' buffer covers every allocated particle')
                elif s.known(d): c.bad(who+' buffer','%s allocates %s bytes for the attribute, the set has room for particles needing %s'%(who,pfmt(sz),pfmt(want)),loc,'attribute storage')
                else: c.und('attribute storage','%s buffer size %s'%(who,pfmt(sz)))
                continue
            # one interleaved buffer
            Sfld=s.S if not s.fixed else s.fstride(it,p,f,n)
            if Sfld is None: c.und('attribute storage',who+': no stride member');continue
            old=s.load_poly0(f,Sfld);new=s.load_poly(it,p,f,Sfld,n);off=s.load_poly(it,p,f,s.Of,n)
            s.same(off,old,'attribute storage',who+' offset','%s places the attribute at byte %s of a record whose %s bytes are taken'%(who,pfmt(off),pfmt(old)),loc)
            s.same(new,N.add(old,esz),'attribute storage',who+' stride','%s makes a record %s bytes long, it needs %s'%(who,pfmt(new),pfmt(N.add(old,esz))),loc)
            bad0=s.back(f,s.B[1]);buf=it.load(bad0,p);sz,e=s.fresh_size(p,buf)
            want=N.mul(cap,N.add(old,esz))
            if sz is None:
                if unver(buf)==('load',bad0): c.bad(who+' buffer','%s keeps the old buffer for longer records'%who,loc,'attribute storage')
                else: c.und('attribute storage','%s buffer is %s'%(who,fmt(buf)))
                continue
            d=N.sub(sz,want)
            if nonneg(d): c.ok('attribute storage',who+' buffer covers every allocated particle')
            elif s.known(d): c.bad(who+' buffer','%s allocates %s bytes, the set has room for particles needing %s'%(who,pfmt(sz),pfmt(want)),loc,'attribute storage')
            else: c.und('attribute storage','%s buffer size %s'%(who,pfmt(sz)))
            s.moves(it,p,f,who,loc,buf,('load',bad0),old,N.add(old,esz),e)
    def load_poly0(s,f,pol): return {tuple(s.back(f,x) for x in m):k for m,k in pol.items()}
    def fstride(s,it,p,f,n):
        """the member holding the length of the fixed record: the one the new offset was read from"""
        off=s.load_poly(it,p,f,s.Of,n)
        me=s.O.this(f)
        if len(off)==1:
            (m,k),=off.items()
            if k==1 and len(m)==1 and m[0][0]=='load' and m[0][1][0]=='fld' and m[0][1][1]==me:
                return {(s.O.norm(f,m[0]),):1}
        return None
    def same(s,got,want,kind,key,msg,loc):
        if got==want: s.c.ok(kind,key)
        elif s.known(s.N.sub(got,want)): s.c.bad(key,msg,loc,kind)
        else: s.c.und(kind,key+': '+pfmt(got))

    def moves(s,it,p,f,who,loc,new,old,olds,news,alloc):
        """existing records are copied to their new places before the old buffer is released"""
        c,N,O=s.c,s.N,s.O
        nul=p.has(cmpc('eq',old,('null',)))
        if nul>0: c.ok('repack',who+' has nothing to copy');return
        if alloc is not None and alloc[1].split('::')[-1]=='realloc': c.und('repack',who+' reallocates in place');return
        if not s.fixed:
            cnt=s.back(f,('load',s.P))
            if p.has(cmpc('eq',cnt,ZERO))>0 or p.has(cmpc('slt',ZERO,cnt))<0: c.ok('repack',who+' has no particle to copy');return
        freed=None;seen=False
        for k,e in enumerate(p.ev):
            if e[0]=='free' and unver(e[1])==old: freed=k
            if e[0]=='free' and e[1]==new: c.bad(who+' frees new','%s frees the buffer it stores'%who,e[-1],'repack')
            cps=[]
            if e[0]=='memcpy' and s.fixed: cps=[(e,None)]
            if e[0]=='loop' and not s.fixed:
                for cs,b in e[2]:
                    for x in b:
                        if x[0]=='memcpy': cps.append((x,(e,cs)))
            for x,lp in cps:
                sb=lambda t:t
                I=('it',);cnt=None
                if lp:
                    L,cs=lp;m={}
                    for iv,en,stp in L[1]:
                        if stp[0]=='ptrstep': m[iv]=('idx',en,mul(I,stp[1]),1)
                        else: m[iv]=add(en,mul(I,stp))
                    def sb(t,m=m):
                        if t in m: return m[t]
                        if t and t[0]=='lin': 
                            r=('const',t[1])
                            for y,k in t[2]: r=add(r,scale(sb(y),k))
                            return r
                        if t and t[0]=='mul':
                            r=ONE
                            for y in t[1]: r=mul(r,sb(y))
                            return r
                        return tuple(sb(y) if isinstance(y,tuple) else y for y in t)
                    bounds=[unver(sb(y)) for y,_ in cs]
                db,do=N.ptr(unver(sb(x[1])));qb,qo=N.ptr(unver(sb(x[2])));ln=N.poly(unver(sb(x[3])))
                if db!=unver(new) or qb!=old: continue
                seen=True
                if freed is not None: c.bad(who+' copies freed','%s copies the records from a buffer it has released'%who,x[-1],'repack');continue
                if s.fixed:
                    okk=not do and not qo
                    s.decide3(okk,s.known(do) and s.known(qo),'repack',who+' copy','%s copies existing values from %s to %s'%(who,pfmt(qo),pfmt(do)),x[-1])
                else:
                    dA,dB=coef(do,I);qA,qB=coef(qo,I)
                    okk=dA==news and qA==olds and not dB and not qB
                    s.decide3(okk,dA is not None and qA is not None and all(s.known(z) for z in(dA,dB,qA,qB)),'repack',who+' copy','%s copies record i from %s to %s, records are %s and %s bytes long'%(who,pfmt(qo),pfmt(do),pfmt(olds),pfmt(news)),x[-1])
                    cntp=s.back(f,('load',s.P));full=cmpc('slt',I,cntp);full2=cmpc('ult',I,cntp)
                    diffs=[(N.sub(N.poly(y[3]),N.poly(y[2])),y) for y in bounds if y[0]=='cmp' and y[1] in('slt','ult','ne') and any(t==I for t in subterms(y))]
                    wantd=N.sub(N.poly(cntp),N.poly(I))
                    off1=[(N.sub(d_,wantd),y) for d_,y in diffs]+[(N.sub(N.mul(d_,{():-1}),wantd),y) for d_,y in diffs if y[1]=='ne']
                    if any(not z for z,y in off1): c.ok('repack',who+' copies every record')
                    elif any(set(z)=={()} for z,y in off1): c.bad(who+' count','%s copies records while %s (record %s first), the set has %s'%(who,fmt([y for z,y in off1 if set(z)=={()}][0]),fmt(I),fmt(cntp)),x[-1],'repack')
                    else:
                        lim=[y for y in bounds if y[0]=='cmp' and I in y[2:]]
                        if lim and all(s.known({(z,):1 for z in y[2:] if z!=I and z[0]!='const'}) for y in lim): c.bad(who+' count','%s copies records while %s, the set has %s'%(who,fmt(lim[0]),fmt(cntp)),x[-1],'repack')
                        else: c.und('repack',who+' record count %s'%[fmt(y) for y in bounds])
                d=N.sub(ln,olds)
                if not d: c.ok('repack',who+' copies whole records')
                elif s.known(d): c.bad(who+' length','%s copies %s bytes of each record of %s'%(who,pfmt(ln),pfmt(olds)),x[-1],'repack')
                else: c.und('repack',who+' copies %s bytes'%pfmt(ln))
        if not seen:
            if any(e[0] in('loop','memcpy','call') for e in p.ev if not(e[0]=='call' and re.search(r'alloc|free|~',e[1]))): c.und('repack',who+' copy not recognised')
            else: c.bad(who+' no copy','%s replaces the buffer without copying the existing values'%who,loc,'repack')
        if freed is None and not any(e[0]=='free' for e in p.ev): c.bad(who+' leak','%s replaces the buffer without releasing the old one'%who,loc,'repack')
    def decide3(s,ok,known,kind,key,msg,loc):
        if ok: s.c.ok(kind,key)
        elif known: s.c.bad(key,msg,loc,kind)
        else: s.c.und(kind,key)

    def grow(s,K,name):
        c,O,N=s.c,s.O,s.N
        f=O.method(s.cls,name);it,ps=O.paths(f,s.cls) if f else (None,None)
        if ps is None: c.und('growth',s.short+'::'+name+' not analysed');return
        who='%s::%s'%(s.short,name);loc='%s:%d'%(f.file,f.line)
        one=name=='addParticle'
        n=ONE if one else O.par(f,0)
        Pa=s.back(f,s.P);Ka=s.back(f,K);P=('load',Pa);Kt=('load',Ka)
        parallel=s.parallel(f)
        for p in ps:
            if p.end!=('ret',): continue
            cnt=unver(it.load(Pa,p))
            if cnt!=add(P,n):
                if cnt[0] in('load','lin','const') and not s.hasiv(cnt): c.bad(who+' count','%s makes the number of particles %s (expected %s)'%(who,fmt(cnt),fmt(add(P,n))),loc,'growth',[fmt(x) for x,_ in p.cond])
                else: c.und('growth','%s count is %s'%(who,fmt(cnt)))
                continue
            c.ok('growth',who+' counts the new particles')
            if one:
                r=p.ret
                if r==P: c.ok('growth',who+' returns the index of the new particle')
                elif r is not None and not s.hasiv(r): c.bad(who+' index','%s returns %s, the new particle is %s'%(who,fmt(r),fmt(P)),loc,'growth')
                else: c.und('growth',who+' returns '+fmt(r))
            kv=it.load(Ka,p);changed=kv!=Kt
            # capacity covers the count, given that it did before
            direct=any(x in(cmpc('sle',add(P,n),kv),cmpc('slt',P,kv) if one else None) for x,_ in p.cond)
            if direct: c.ok('growth',who+' capacity covers the particles')
            else:
                w,und=witness(p,P,Kt,n,kv,one)
                if w: c.bad(who+' capacity','%s leaves room for %s particles when the set has %d and room for %d%s'%(who,w[3],w[0],w[1],'' if one else ' and %d are added'%w[2]),loc,'growth',[fmt(x) for x,_ in p.cond])
                elif und: c.und('growth','%s capacity becomes %s'%(who,fmt(kv)))
                else: c.ok('growth',who+' capacity covers the particles')
            s.regrow(it,p,f,who,loc,Ka,kv,changed,parallel)
    def hasiv(s,t): return any(x[0] in('iv','unk','alt','phi','uninit') for x in subterms(t))
    def parallel(s,f):
        """containers with one entry per attribute"""
        g=s.O.method(s.cls,'addAttribute','char const*');it,ps=s.O.paths(g,s.cls)
        out=None
        A=s.back(g,s.O.size_of(s.cls,'numAttributes'))
        for p in ps or ():
            if p.end!=('ret',) or sub(it.size(A,p),('size',A))!=ONE: continue
            v=set(s.O.norm(g,e[1]) for e,l in flat(p.ev) if e[0]=='push' and not l)
            out=v if out is None else out&v
        return set(s.back(f,x) for x in out or ())
    def regrow(s,it,p,f,who,loc,Ka,kv,changed,parallel):
        c,N=s.c,s.N
        kp=N.poly(unver(kv))
        re_=[(k,e,None,None) for k,e in enumerate(p.ev) if e[0]=='call' and e[1].split('::')[-1]=='realloc']
        for k,e in enumerate(p.ev):
            if e[0]=='loop':
                for cs,b in e[2]:
                    for x in b:
                        if x[0]=='call' and x[1].split('::')[-1]=='realloc': re_.append((k,x,e,(cs,b)))
        if not changed:
            if re_: c.und('growth',who+' reallocates without recording it')
            return
        if not re_:
            if any(e[0] in('loop',) or e[0]=='call' for e in p.ev): c.und('growth',who+' grows by an unrecognised means')
            else: c.bad(who+' no growth','%s raises the recorded capacity without growing the storage'%who,loc,'growth',[fmt(x) for x,_ in p.cond])
            return
        for k,e,L,body in re_:
            sz=N.poly(unver(e[2][1]));old=unver(e[2][0])
            if not s.sep:
                tgt=s.back(f,s.B[1]);want=N.mul(kp,s.load_poly0(f,s.S))
                if old!=('load',tgt): c.und('growth','%s reallocates %s'%(who,fmt(old)));continue
                d=N.sub(sz,want)
                if nonneg(d): c.ok('growth',who+' grows the buffer to the capacity')
                elif s.known(d): c.bad(who+' size','%s reallocates to %s bytes, the recorded capacity needs %s'%(who,pfmt(sz),pfmt(want)),e[-1] if isinstance(e[-1],str) and ':' in e[-1] else e[3],'growth')
                else: c.und('growth',who+' reallocates '+pfmt(sz))
                fin=it.load(tgt,p)
                c.decide(fin==e[4] or p.has(cmpc('eq',e[4],('null',)))>0,'growth',who+' keeps buffer','%s does not store the reallocated buffer'%who,loc) if fin==e[4] or unver(fin)==('load',tgt) else c.und('growth',who+' buffer becomes '+fmt(fin))
                continue
            if L is None: c.und('growth',who+' reallocates outside a loop over the attributes');continue
            ivs=L[1]
            i=None
            if old[0]=='load' and old[1][0]=='elem': i=old[1][2];D=old[1][1]
            if i is None or D!=s.back(f,s.D): c.und('growth','%s reallocates %s'%(who,fmt(old)));continue
            iv=[x for x in ivs if x[0]==i]
            if not iv: c.und('growth',who+' loop index');continue
            if iv[0][1]!=ZERO or iv[0][2]!=ONE:
                if iv[0][1][0]=='const' and iv[0][2][0]=='const' : c.bad(who+' skips','%s grows the attributes from %s in steps of %s'%(who,fmt(iv[0][1]),fmt(iv[0][2])),e[3],'growth')
                else: c.und('growth',who+' loop start %s'%fmt(iv[0][1]))
                continue
            cs,b=body
            lim=[x for x,_ in cs if x[0]=='cmp' and i in x[2:] ]
            okb=[x for x in lim if x[1] in('ult','slt','ne') and (x[2]==i or x[1]=='ne') and any(y[0]=='size' and y[1] in parallel for y in map(unver,x[2:]))]
            if okb: c.ok('growth',who+' visits every attribute')
            elif any(y[0]=='lin' for x in lim for y in x[2:]): c.bad(who+' bound','%s grows attributes only while %s'%(who,fmt(lim[0])),e[3],'growth')
            else: c.und('growth',who+' loop bound %s'%[fmt(x) for x in lim])
            st={tuple(s.back(f,unver(x),i) for x in m):q for m,q in s.S.items()}
            want=N.mul(kp,st);d=N.sub(sz,want)
            if nonneg(d): c.ok('growth',who+' grows each buffer to the capacity')
            elif not any(t[0] in('unk','alt','call') for m in d for x in m for t in subterms(x)): c.bad(who+' size','%s reallocates to %s bytes, the recorded capacity needs %s'%(who,pfmt(sz),pfmt(want)),e[3],'growth')
            else: c.und('growth',who+' reallocates '+pfmt(sz))
            stored=any(x[0]=='store' and x[1]==('elem',D,i) and x[2]==e[4] for x in b)
            failed=any(x==cmpc('eq',e[4],('null',)) for x,_ in cs)
            if stored or failed and any(x[0]=='cmp' and x[1]=='ne' and ZERO in x[2:] for x,_ in cs): c.ok('growth',who+' stores each grown buffer')
            elif failed:
                nz=[x for x,_ in cs if x[0]=='cmp' and set(N.poly(unver(x[2])))|set(N.poly(unver(x[3])))>=set(sz)]
                if nz or any(x[1].split('::')[-1] in('max','smax','umax') for x in subterms(e[2][1]) if x[0]=='call'): c.und('growth',who+' keeps the old buffer when realloc returns null')
                else: c.bad(who+' freed buffer','%s keeps a pointer that realloc released when the requested size is 0'%who,e[3],'growth',[fmt(x) for x,_ in cs])
            else: c.bad(who+' lost buffer','%s does not store a reallocated buffer back'%who,e[3],'growth',[fmt(x) for x,_ in cs])

    def multiple(s):
        c,O,N=s.c,s.O,s.N
        f=O.method(s.cls,'dataInternalMultiple');it,ps=O.paths(f,s.cls) if f else (None,None)
        who=s.short+'::dataInternalMultiple'
        if ps is None: c.und('copy out',who+' not analysed');return
        loc='%s:%d'%(f.file,f.line);n=O.par(f,1);ix=O.par(f,2);out=O.par(f,4)
        wrote=False
        for p in ps:
            for e in p.ev:
                if e[0]!='loop': continue
                for cs,b in e[2]:
                    for x in b:
                        if x[0] in('memcpy',):
                            wrote=True;s.onecopy(f,who,e,cs,x,n,ix,out)
                        elif x[0]=='loop': wrote=None
            if not any(e[0] in('loop','memcpy') for e in p.ev) and p.has(cmpc('sle',n,ZERO))<=0 and wrote is False: pass
        if wrote is False: 
            if any(p.ev for p in ps): c.und('copy out',who+' copies by other means')
            else: c.bad(who+' stub','%s writes no value'%who,loc,'copy out')
        elif wrote is None: c.und('copy out',who+' copies in a nested loop')
    def onecopy(s,f,who,e,cs,x,n,ix,out):
        c,N=s.c,s.N
        iv=[v for v in e[1] if v[1]==ZERO and v[2]==ONE]
        if len(e[1])!=1 or not iv: c.und('copy out',who+' loop form');return
        i=iv[0][0];me=s.O.this(f);at=s.O.par(f,0)
        def ld(t): return s.nrm(f,t)
        db,do=N.ptr(unver(x[1]));qb,qo=N.ptr(unver(x[2]));ln=N.poly(unver(x[3]))
        do={tuple(ld(y) for y in m):k for m,k in do.items()};qo={tuple(ld(y) for y in m):k for m,k in qo.items()};ln={tuple(ld(y) for y in m):k for m,k in ln.items()}
        cnt=('load',('fld',('attr',),'count'));esz={(cnt,):4}
        sizes=[esz]+([s.S] if s.sep else [])
        if ln in sizes: c.ok('copy out',who+' copies the value of one particle')
        elif s.known(ln): c.bad(who+' length','%s copies %s bytes per particle'%(who,pfmt(ln)),x[-1],'copy out')
        else: c.und('copy out',who+' copies '+pfmt(ln))
        A,B=coef(do,i)
        if db==out and A in sizes and not B: c.ok('copy out',who+' packs the values')
        elif db==out and A is not None and s.known(A) and s.known(B): c.bad(who+' packing','%s writes value i at byte %s'%(who,pfmt(do)),x[-1],'copy out')
        else: c.und('copy out',who+' destination')
        j=('load',('idx',ix,i,8));j=ld(j)
        A,B=coef(qo,j)
        if ld(qb)==s.B and A==s.S and B==s.Of: c.ok('copy out',who+' reads the requested particle')
        elif ld(qb)==s.B and A is not None: 
            ok_=not any(t[0]=='iv' and t!=i for m in qo for y in m for t in subterms(y))
            if ok_: c.bad(who+' source','%s reads byte %s, the value of the particle is at %s'%(who,pfmt(qo),pfmt(N.add(N.mul(s.S,{(j,):1}),s.Of))),x[-1],'copy out')
            else: c.und('copy out',who+' source')
        else: c.und('copy out',who+' source '+fmt(qb))
        lim=[y for y,_ in cs if y[0]=='cmp' and i in y[2:]]
        if any(y in(cmpc('slt',i,n),cmpc('ne',i,n),cmpc('ult',i,n)) for y in lim): c.ok('copy out',who+' copies every requested particle')
        elif lim: c.bad(who+' bound','%s copies while %s'%(who,fmt(lim[0])),x[-1],'copy out') if not s.hasother(lim,i) else c.und('copy out',who+' bound')
    def hasother(s,lim,i): return any(t[0] in('iv','unk','alt','call') and t!=i for y in lim for t in subterms(y))

    def accessor(s):
        c,O,N=s.c,s.O,s.N
        for f in O.methods(s.cls,'setupAccessor'):
            if 'thunk' in f.dem: continue
            it,ps=O.paths(f,s.cls)
            if ps is None: c.und('accessor',f.dem);continue
            acc=O.par(f,1);loc='%s:%d'%(f.file,f.line);who='%s::setupAccessor%s'%(s.short,' const' if f.dem.endswith('const') else '')
            me=O.this(f)
            def ld(t):
                def r(x):
                    if x==me: return ('this',)
                    if x==acc: return ('attr',)
                    return tuple(r(y) if isinstance(y,tuple) else y for y in x)
                return unver(r(t))
            for p in ps:
                if p.end!=('ret',): continue
                b,o=N.ptr(it.load(('fld',acc,'basePointer'),p));o={tuple(ld(y) for y in m):k for m,k in o.items()};b=ld(b)
                st={tuple(ld(y) for y in m):k for m,k in N.poly(unver(it.load(acc,p))).items()}
                esz={(('load',('fld',('attr',),'count')),):4}
                if b==s.B and o==s.Of: c.ok('accessor',who+' starts at the first value')
                elif b==s.B or b==('load',('fld',('attr',),'basePointer')): c.bad(who+' base','%s starts at %s + %s, the values at %s + %s'%(who,fmt(b),pfmt(o),fmt(s.B),pfmt(s.Of)),loc,'accessor')
                elif b[0]=='load' and b[1][0] in('fld','elem'): c.bad(who+' base','%s starts at %s, the values at %s'%(who,fmt(b),fmt(s.B)),loc,'accessor')
                else: c.und('accessor',who+' base '+fmt(b))
                if st==s.S or s.sep and st==esz: c.ok('accessor',who+' steps over one particle')
                elif s.known(st): c.bad(who+' stride','%s steps %s bytes, particles are %s apart'%(who,pfmt(st),pfmt(s.S)),loc,'accessor')
                else: c.und('accessor',who+' stride '+pfmt(st))

    def destroy(s):
        c,O=s.c,s.O
        fs=[f for f in O.methods(s.cls,'~'+s.short) if 'thunk' not in f.dem]
        for f in fs:
            it,ps=O.paths(f,s.cls)
            if ps is None: c.und('release',s.short+' destructor');continue
            who='~%s'%s.short;loc='%s:%d'%(f.file,f.line)
            for p in ps:
                if p.end!=('ret',): continue
                if not s.sep:
                    fr=[e for e in p.ev if e[0]=='free' and unver(e[1])==('load',s.back(f,s.B[1]))]
                    nul=p.has(cmpc('eq',('load',s.back(f,s.B[1])),('null',)))>0
                    if len(fr)==1 or nul and not fr: c.ok('release',who+' frees the %sbuffer'%s.F)
                    elif any(e[0] in('loop',) for e in p.ev): c.und('release',who)
                    else: c.bad('%s %s'%(who,s.B[1][2]),'%s releases the %svalues %d times'%(who,s.F,len(fr)),loc,'release')
                else:
                    D=s.back(f,s.D);hit=0;other=False
                    for e in p.ev:
                        if e[0]!='loop': continue
                        for cs,b in e[2]:
                            fr=[x for x in b if x[0]=='free' and unver(x[1])[0]=='load' and unver(x[1])[1][0]=='elem' and unver(x[1])[1][1]==D]
                            if fr:
                                i=unver(fr[0][1])[1][2];iv=[v for v in e[1] if v[0]==i]
                                full=any(x[0]=='cmp' and i in x[2:] and any(y[0]=='size' and y[1] in s.parallel_any(f)|{D} for y in map(unver,x[2:])) for x,_ in cs)
                                if iv and iv[0][1]==ZERO and iv[0][2]==ONE and full and len(fr)==1: hit+=1
                                elif iv and iv[0][1]==ZERO and iv[0][2]==ONE and len(fr)==1 and s.wronglimit(f,cs,i): c.bad('%s %s count'%(who,s.D[2]),'%s releases the %svalues while %s'%(who,s.F,s.wronglimit(f,cs,i)),loc,'release');hit+=1
                                elif iv and iv[0][1][0]=='const' and iv[0][1]!=ZERO: c.bad('%s %s first'%(who,s.D[2]),'%s releases the %svalues only from attribute %s on'%(who,s.F,fmt(iv[0][1])),loc,'release');hit+=1
                                else: other=True
                        if any(x[0]=='free' for x,_ in flat([e])): pass
                    if hit==1: c.ok('release',who+' frees every %sattribute'%s.F)
                    elif other or hit==0 and any(x[0]=='free' and l and not hit for x,l in flat(p.ev) if not(unver(x[1])[0]=='load')): c.und('release',who+' loop form')
                    else: c.bad('%s %s'%(who,s.D[2]),'%s releases the %svalues %d times'%(who,s.F,hit),loc,'release')
    def wronglimit(s,f,cs,i):
        me=s.O.this(f)
        for x,_ in cs:
            if x[0]=='cmp' and i in x[2:]:
                for y in map(unver,x[2:]):
                    if y[0]=='size' and y[1][0]=='fld' and y[1][1]==me and y[1] not in s.parallel_any(f)|{s.back(f,s.D)} and s.O.norm(f,y[1]) not in s.family(): return fmt(x)
        return None
    def family(s):
        """containers that get one entry per attribute of this kind"""
        g=s.O.method(s.cls,'addFixedAttribute' if s.fixed else 'addAttribute','char const*');it,ps=s.O.paths(g,s.cls) if g else (None,None)
        out=None
        for p in ps or ():
            v=set(s.O.norm(g,e[1]) for e,l in flat(p.ev) if e[0]=='push' and not l)
            if v: out=v if out is None else out&v
        return out or set()
    def parallel_any(s,f):
        A=s.O.size_of(s.cls,'numFixedAttributes' if s.fixed else 'numAttributes')
        return {s.back(f,A)} if A else set()

def witness(p,P,K,n,kv,one):
    """smallest state for which the path leaves too little room: (count, capacity, added, new capacity)"""
    conds=[unver(x) for x,_ in p.cond]
    kv=unver(kv);und=False
    ns=[1] if one else list(range(0,25))
    rel=[x for x in conds if set(subterms(x))&{P,K,n}]
    for cc in range(0,40 if one else 25):
        for k in range(cc,cc+40 if one else cc+25):
            for nn in ns:
                env={P:cc,K:k}
                if not one: env[n]=nn
                ok=True
                for x in rel:
                    v=ev(x,env)
                    if v is None: und=True
                    elif not v: ok=False;break
                if not ok: continue
                new=ev(kv,env)
                if new is None: und=True;continue
                if new<cc+nn:
                    if und: return None,True
                    return (cc,k,nn,new),False
    return None,und

def run(c):
    c.rule('the address computed for a value, the buffer obtained for an attribute, the growth of the buffers and the copying of records are compared symbolically: address = base + stride*index + offset; buffer >= stride*capacity; capacity >= count; offset = length of the record before')
    prog=c.view('inl');O=Obj(c,prog);ts=typesize(c,prog);N=Norm(ts)
    if ts is None: c.und('element size','TypeSize not a constant per type')
    for cls in O.classes:
        short=cls.split('::')[-1]
        f=O.method(cls,'dataInternal')
        if f is None: continue
        it,ps=O.paths(f,cls)
        if ps is not None and all(p.ret in(('null',),None,ZERO) or p.end!=('ret',) for p in ps): continue   # a header-only set stores nothing
        S=Store(c,O,N,cls,False);good=S.address()
        K=None
        if good and S.P is not None:
            K=capacity(c,O,cls,S)
            if K is None: c.und('growth',short+': no recorded capacity')
            else:
                if S.other:
                    f,i,p,conds,who,loc=S.other;k=S.back(f,('load',K))
                    if p.has(cmpc('ult',i,k))>0 or p.has(cmpc('slt',i,k))>0 or p.has(cmpc('ule',i,k))>0: c.bad(who+' range','%s hands out an address for every index below the capacity %s, which is more than there are particles'%(who,fmt(K)),loc,'address')
                S.adder(K)
                for n in('addParticle','addParticles'): S.grow(K,n)
            S.multiple();S.accessor();S.destroy();writers(c,O,cls,S,K)
        X=Store(c,O,N,cls,True)
        if X.address():
            X.adder(None);X.destroy()
            if good:
                a=roots(S);b=roots(X);sh=a&b
                if sh: c.bad(short+' shared','%s keeps fixed and per-particle values through the same member %s'%(short,fmt(sorted(sh,key=repr)[0])),'%s:%d'%(X.f.file,X.f.line),'separate storage')
                else: c.ok('separate storage',short+': fixed values live apart from particle values')
    c.need('address',4);c.need('attribute storage',4);c.need('growth',8)

def roots(S):
    out={S.D}
    for pol in(S.S,S.Of):
        for m in pol:
            for x in m:
                for t in subterms(x):
                    if t[0]=='fld' and t[1]==('this',): out.add(t)
    return out

def capacity(c,O,cls,S):
    """the member the adders raise besides the count"""
    cand=None
    for n in('addParticle','addParticles'):
        f=O.method(cls,n);it,ps=O.paths(f,cls) if f else (None,None)
        if ps is None: continue
        me=O.this(f);v=set()
        for p in ps:
            for e,l in flat(p.ev):
                if e[0]=='store' and e[1][0]=='fld' and e[1][1]==me:
                    t=O.norm(f,e[1])
                    if t!=S.P and not(S.B[0]=='load' and t==S.B[1]): v.add(t)
        cand=v if cand is None else cand|v
    # an allocation must depend on it
    f=O.method(cls,'addAttribute','char const*');it,ps=O.paths(f,cls) if f else (None,None)
    dep=set()
    for p in ps or ():
        for e,l in flat(p.ev):
            if e[0]=='call' and e[1].split('::')[-1] in('malloc','calloc','realloc'):
                for t in subterms(e[2]):
                    if t[0]=='load': dep.add(O.norm(f,t[1]))
    r=[x for x in cand or () if x in dep]
    if len(cand or ())==1: return next(iter(cand))
    return r[0] if len(r)==1 else None

def writers(c,O,cls,S,K):
    """no other method changes the count, the capacity, the strides or the buffers"""
    known={'addParticle','addParticles','addAttribute','addFixedAttribute',cls.split('::')[-1],'~'+cls.split('::')[-1]}
    mem=roots(S)|{S.P}|({K} if K else set())
    for f in O.prog.fns:
        if not f.short.startswith(cls+'::') or f.short.split('::')[-1] in known or 'thunk' in f.dem: continue
        if f.file.startswith('/') : continue
        it,ps=O.paths(f,cls)
        if ps is None: continue
        for p in ps:
            for e,l in flat(p.ev):
                if e[0] in MUT and O.under_this(f,e[1]):
                    t=O.norm(f,e[1])
                    while t[0] in('elem','idx'): t=t[1]
                    if t in mem: c.und('growth','%s also changes %s'%(f.short,fmt(t)))
