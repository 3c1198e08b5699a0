"""C06: what the binary writers write is what their readers read.

The effect summaries of a writer and of its reader (pv/codec.py) are walked in lock-step:
bytes against bytes, loops against loops of the same number of rounds.  The bytes the
writer produced decide which alternative of the reader is taken; what the reader does with
them is compared with where they came from."""
from codec import *
from paths import *
import collections,itertools

KINDS={1:'VECTOR',2:'FLOAT',3:'INT',4:'INDEXEDSTR'}
PUSH=('pusha','pushs','pushstr')
STREAM=re.compile(r'basic_ios::|basic_istream::operator|::good|::fail|::eof|::bad')

import os
DBG=os.environ.get('DBG')
class Bad(Exception):
    def __init__(s,msg,loc=None,d=None): Exception.__init__(s,msg);s.msg=msg;s.loc=loc;s.d=d
class Und(Exception): pass

def rebuild(t,f):
    """apply f bottom up, canonicalising"""
    if not isinstance(t,tuple) or not t: return t
    k=t[0]
    if k in('const','str','fconst','alloca','glob','arg','null'): return f(t)
    if k=='lin':
        r=('const',t[1])
        for x,c in t[2]: r=add(r,scale(rebuild(x,f),c))
        return r
    if k=='mul':
        r=ONE
        for x in t[1]: r=mul(r,rebuild(x,f))
        return r
    if k=='iv': return f(t)
    n=tuple(rebuild(x,f) if isinstance(x,tuple) and x and isinstance(x[0],str) else tuple(rebuild(y,f) if isinstance(y,tuple) else y for y in x) if isinstance(x,tuple) else x for x in t)
    if k=='cmp': n=cmpc(*n[1:])
    elif k=='not': n=notc(n[1])
    elif k=='bswap': n=bswap(n[1],n[2])
    elif k in('udiv','sdiv','and','lshr','ashr','or') and len(n)==3: n=fold(*n)
    elif k=='at': n=n[1] if n[2]==ZERO else ('at',n[1][1],add(n[1][2],n[2])) if n[1][0]=='at' else n
    return f(n)

class Env(object):
    def __init__(s):
        s.bind={};s.iv={};s.af={};s.elems={};s.eq={};s.np=None;s.level=0;s.words=None;s.part=None;s.case=None;s.snaps=[];s.tab=None
    def copy(s):
        e=Env();e.__dict__.update({k:(dict(v) if isinstance(v,dict) else v) for k,v in s.__dict__.items()});return e
    def S(s,t): return rebuild(t,s.f)
    def f(s,t):
        k=t[0]
        if t in s.eq: return s.eq[t]
        if k=='iv': return s.iv.get(t,t)
        if k=='elem' and (t[1],t[2]) in s.elems: return s.elems[(t[1],t[2])]
        if k=='af':
            r=s.af.get(t)
            if r is not None: return r
            a=t[2]
            if a[0]=='added' and t[1] in('type','count'): return a[{'type':3,'count':4}[t[1]]]
            return t
        if k=='tsize': return t[2]
        if k=='call':
            if t[1].endswith('::numParticles'):
                if t[2] and t[2][0]==('arg',1): return ('NP',)
                if s.np is not None: return s.np
            if t[1].endswith('::numAttributes') and t[2] and t[2][0]==('arg',1): return ('NA','part')
            if t[1].endswith('::numFixedAttributes') and t[2] and t[2][0]==('arg',1): return ('NA','fixed')
            if re.search(r'basic_string::(length|size)$',t[1]): return ('len',s.chars(t[2][0]))
        if k=='strlen': return ('len',t[1])
        if k=='in': return s.inp(t)
        if k=='load':
            a=t[1];o=ZERO
            if a[0]=='at': a,o=a[1],a[2]
            if a[0]=='snapref' and o[0]=='const':
                v=s.snaps[a[1]].get(o[1])
                if v is not None: return v[0]
            if a[0]=='glob' and o[0]=='const' and s.tab is not None:
                v=s.tab(a[1],o[1])
                if v is not None: return v
            if a[0]=='data': return ('D',a[1],s.index(a[2]),o)
        if k=='data': return ('data',t[1],s.index(t[2]))
        return t
    def chars(s,a):
        return a if a[0]=='chars' else ('chars',a)
    def index(s,i):
        if i[0]=='cur' and s.part is not None: return s.part
        return i
    def inp(s,t):
        b=s.bind.get(t[1])
        if b is None: return t
        _,_,off,n=t
        if b[0]=='raw':
            ptr,ln=b[1],b[2]
            if len(b)>3: off=sub(off,b[3])
            if ptr[0]=='data' or ptr[0]=='at' and ptr[1][0]=='data':
                o=off
                if ptr[0]=='at': o=add(ptr[2],off);ptr=ptr[1]
                return ('D',ptr[1],ptr[2],o)
            return ('rawat',ptr,off,n)
        if off[0]!='const': return t
        p=0
        for x in b[1]:
            if p==off[1]:
                if x[0]=='bytes' and len(x[1])>=n: return ('const',int.from_bytes(x[1][:n],'little',signed=True))
                if x[0]=='val' and x[2]==n: return x[1]
                if x[0]=='val' and x[1][0]=='const' and x[2]>n: return ('const',int.from_bytes((x[1][1]&((1<<8*x[2])-1)).to_bytes(x[2],'little')[:n],'little',signed=True))
                return ('mixed',x,n)
            w=plen(x)
            if p<off[1]<p+w:
                if x[0]=='bytes' and off[1]+n<=p+w: return ('const',int.from_bytes(x[1][off[1]-p:off[1]-p+n],'little',signed=True))
                if x[0]=='val' and x[1][0]=='const' and off[1]+n<=p+w:
                    bs=(x[1][1]&((1<<8*x[2])-1)).to_bytes(x[2],'little');return ('const',int.from_bytes(bs[off[1]-p:off[1]-p+n],'little',signed=True))
                if x[0]=='val' and x[1]==('zero',): return ZERO
                return ('mixed',x,n)
            p+=w
        return t
def plen(x):
    return {'val':lambda:x[2],'bytes':lambda:len(x[1]),'field':lambda:x[3],'gap':lambda:x[1]}[x[0]]()

def truth(c):
    if c[0]=='const': return bool(c[1]&1)
    if c[0]=='cmp' and c[1] in('slt','ult') and c[2]==ZERO and c[3][0] in('NP','NA','len'): return None
    return None

def isio(ev,kinds):
    return any(e[0] in kinds or e[0]=='loop' and any(isio(b,kinds) for c,b in e[2]) for e in ev)
def trip(e,E):
    """number of rounds of a loop event: a term, 'iter' or None; and the counting variable"""
    ivs={x:(y,z) for x,y,z in e[1]}
    found=set()
    for c,b in e[2]:
        ok=None
        for x in c:
            x=x[0]
            if x[0]=='cmp' and x[1] in('slt','ult','ne') and x[2] in ivs and ivs[x[2]]==(ZERO,ONE): ok=(x[2],x[3]);break
            if x[0]=='cmp' and x[1] in('ne',) and x[3] in ivs and ivs[x[3]]==(ZERO,ONE): ok=(x[3],x[2]);break
            if x[0]=='cmp' and x[1] in('sle','ule') and x[2] in ivs and ivs[x[2]][1]==ONE: ok=(x[2],add(sub(x[3],ivs[x[2]][0]),ONE));break
            if x[0]=='cmp' and x[1] in('slt','ult') and x[2] in ivs and ivs[x[2]][1]==ONE: ok=(x[2],sub(x[3],ivs[x[2]][0]));break
        found.add(ok)
        if ok is None: break
    if len(found)==1 and None not in found:
        v,t=found.pop();return v,E.S(t),ivs[v][0]
    its=[x[0] for c,b in e[2] for x in c[:2] if x[0][0]=='cmp' and x[0][1]=='ne' and ('null',) in x[0][2:4] and any(y[0]=='lv' for y in x[0][2:4])]
    if e[2] and len(its)>=len(e[2]): return None,('iterator',),None
    return None,None,None
def ptrloop(e):
    """a pointer that walks from one place to another counts the rounds, and so does a counter that is stepped in the condition"""
    for x,y,z in e[1]:
        if z!=ONE or y[0]!='const': continue
        ks=set()
        for c,b in e[2]:
            k=None
            for q in c:
                q=q[0]
                if q[0]=='cmp' and q[1] in('slt','ult','ne') and q[2][0]=='lin' and q[2][2]==((x,1),) and x not in subt(q[3]): k=(q,q[2][1],q[3]);break
            ks.add(k)
        if len(ks)!=1 or None in ks: continue
        q,d,t=ks.pop();niv=x[:3]+('q%s'%(x[3],),) if len(x)>3 else x+('q',)
        m={x:add(niv,y)};nq=('cmp','slt',niv,sub(sub(t,('const',d)),y))
        bodies=tuple((tuple(((nq,)+tuple(u[1:])) if u[0]==q else (rebuild(u[0],lambda w:m.get(w,w)),)+tuple(u[1:]) for u in c),tuple(sube(u,m) for u in b)) for c,b in e[2])
        return ptrloop(('loop',tuple((a,b,g) for a,b,g in e[1] if a!=x)+((niv,ZERO,ONE),),bodies,e[3])+tuple(e[4:]))
    for x,y,z in e[1]:
        if z is not None and z[0]=='lin' and set(z[2])=={(x,-1),(z[2][0][0] if z[2][0][0]!=x else z[2][-1][0],1)} and not z[1]:
            q=[k for k,_ in z[2] if k!=x][0]
            if q[0]=='at' and q[1]==x: z=q[2]
        if z is None or z[0]!='const' or z[1]<=0 or y[0] not in('data','at'): continue
        yb,yo=(y[1],y[2]) if y[0]=='at' else (y,ZERO)
        ts=set()
        for c,b in e[2]:
            t=None
            for k in c:
                k=k[0]
                if k[0]=='cmp' and k[1] in('ne','ult') and x in k[2:4]:
                    o=k[3] if k[2]==x else k[2]
                    ob,oo=(o[1],o[2]) if o[0]=='at' else (o,ZERO)
                    if ob==yb:
                        d=sub(oo,yo);l=tolin(d)
                        if all(v%z[1]==0 for v in l.values()): t=(k,div(d,z[1]))
            ts.add(t)
        if len(ts)!=1 or None in ts: continue
        k,t=ts.pop();niv=x[:3]+('p%s'%(x[3],),) if len(x)>3 else x+('p',)
        m={x:adv(y,scale(niv,z[1])),k:('cmp','slt',niv,t)}
        bodies=tuple((tuple(((('cmp','slt',niv,t),)+tuple(q[1:])) if q[0]==k else (rebuild(q[0],lambda u:m.get(u,u)),)+tuple(q[1:]) for q in c),tuple(sube(q,m) for q in b)) for c,b in e[2])
        return ('loop',tuple((a,b,d) for a,b,d in e[1] if a!=x)+((niv,ZERO,ONE),),bodies,e[3])+tuple(e[4:])
    return e
def div(d,n):
    r=ZERO
    for k,v in tolin(d).items():
        r=add(r,('const',v//n) if k==1 else scale(k,v//n))
    return r
def delim(e):
    """a loop that reads one character per round and stops at one of them"""
    rds=[x for c,b in e[2] for x in b if x[0]=='rd']
    return bool(rds) and all(x[3]==ONE for x in rds) and not any(x[0]=='loop' for c,b in e[2] for x in b) and trip(e,Env())[1] is None and len({x[1] for x in rds})==1

class Lock(object):
    """one writer path against one reader path"""
    def __init__(s,rep,fmtname,W,R): s.rep=rep;s.fmt=fmtname;s.itW,s.itR=W,R;s.obs=[];s.wloops={};s.regs=[];s.decided=set();s.vague=[];s.near={};s.typevars={};s.named={};s.namedok=set();s.nearw={}
    def run(s,w,r):
        E=Env();s.obs=[];s.eaten=[];s.adds=0;E.snaps=s.snaps=[];E.tab=s.itR.table
        if s.body((w.cond,w.ev,0),(r.cond,r.ev,0),E,None,True) is None: return None
        for x in r.cond:
            t=E.S(x[0])
            if t[0]=='cmp' and t[1]=='eq':
                for a,b in((t[2],t[3]),(t[3],t[2])):
                    if a in s.nearw and s.nearw[a]==b:
                        e=Bad('what the reader insists on does not hold: '+s.near[a].replace('makes the record','makes its sum'));e.soft=True;raise e
        return s.obs
    def select(s,ev):
        out=[]
        for e in ev:
            if e[0] in('rd','wr','store')+PUSH: out.append(e)
            elif e[0]=='loop': out.append(ptrloop(e))
            elif e[0]=='call' and (ADDS.match(e[1]) or e[1].endswith('::addParticles')): out.append(e)
        return out
    # -- writer side: a queue of pieces
    def seq(s,W,R,E,conds=()):
        """consume items of W and R together"""
        W=list(W);q=[]
        st={'W':W,'q':q}
        for e in R: s.item(e,st,E)
        s.flushW(st,E)
        return st
    def flushW(s,st,E):
        # vectors filled after the last byte, and what is left
        while st['W']:
            e=st['W'][0]
            if e[0]=='wr' or e[0]=='loop' and isio([e],('wr',)): break
            st['W'].pop(0);s.quiet(e,E)
        rest=st['q']+[x for x in st['W'] if x[0]!='call']
        st['rest']=rest
    def quiet(s,e,E):
        if e[0]=='loop': s.collect(e,E);s.locals(e,E)
        elif e[0]=='lset': s.named.pop(e[1],None)
    def locals(s,e,E):
        """local variables a loop over the attributes fills from the attribute of a certain name"""
        got={}
        for c,b in e[2]:
            lits={z for x in c if x[0][0]=='streq' for z in x[0][1:] if z[0]=='str'}
            for x in b:
                if x[0]!='lset': continue
                d=E.S(x[2][1]);o=ZERO
                if d[0]=='at': d,o=d[1],d[2]
                z=(next(iter(lits)),d[2],o) if len(lits)==1 and d[0]=='data' else None
                got.setdefault(x[1],set()).add(z)
        s.named.update(got)
    def pull(s,st,E):
        """next output of the writer as pieces on the queue; loops come back as themselves"""
        while st['W']:
            e=st['W'][0]
            if e[0]=='wr':
                st['W'].pop(0)
                for x in e[1]:
                    if x[0]=='val': st['q'].append(('val',E.S(x[1]),x[2],e[2]))
                    elif x[0]=='raw': st['q'].append(('raw',E.S(x[1]),E.S(x[2]),e[2]))
                    elif x[0]=='field': st['q'].append(('field',E.S(x[1]),E.S(x[2]),x[3],e[2]))
                    else: st['q'].append(x)
                if st['q']: return True
                continue
            if e[0]=='loop':
                if not isio([e],('wr',)): st['W'].pop(0);s.quiet(e,E);continue
                v,t,lo=trip(e,E)
                if t is not None and t[0]=='const' and 0<=t[1]<=256:
                    st['W'].pop(0);new=[]
                    for k in range(t[1]):
                        new.append(('round',e,v,('const',k+(lo[1] if lo else 0))))
                    E.iv[v]=('const',t[1]+(lo[1] if lo else 0))
                    st['W'][:0]=new;continue
                return True
            if e[0]=='round':
                st['W'].pop(0);_,lp,v,k=e
                F=E.copy();F.iv[v]=k
                alts=s.consistent(lp[2],F,v)
                if len(alts)!=1: raise Und('which round of a writer loop')
                sub_=[]
                for x in s.select(alts[0][1]): sub_.append(sube(x,{v:k}))
                st['W'][:0]=sub_;continue
            st['W'].pop(0)
        return bool(st['q'])
    def consistent(s,alts,E,v=None):
        out=[];seen=set()
        for n,(c,b) in enumerate(alts):
            ok=True
            for x in c:
                x=x[0] if isinstance(x[0],tuple) else x
                t=E.S(x)
                if t[0]=='const' and not t[1]&1: ok=False;break
            if not ok: continue
            out.append((c,b,n))
        return out
    def take(s,n,st,E,loc):
        """n bytes off the writer's queue"""
        got=[];need=n
        while need>0:
            if not st['q'] and not (s.pull(st,E) and st['q']):
                if st['W']:
                    s.known(st['W'][0],E)
                    raise Bad('the reader takes %d more bytes where the writer has a loop'%need,loc)
                raise Bad('the reader takes %d bytes the writer does not write'%need,loc)
            x=st['q'][0]
            if x[0]=='raw':
                ln=x[2]
                if ln[0]=='const':
                    if ln[1]<=need: st['q'].pop(0);got.append(('rawb',x[1],ln[1]));need-=ln[1];continue
                    st['q'][0]=('raw',adv(x[1],('const',need)),sub(ln,('const',need)),x[3]);got.append(('rawb',x[1],need));need=0;continue
                raise Bad('the reader takes %d bytes where the writer writes %s'%(need,fmt(ln)),loc,sub(ln,('const',need)))
            w=plen(x)
            if w<=need: st['q'].pop(0);got.append(x);need-=w;continue
            if x[0]=='bytes': st['q'][0]=('bytes',x[1][need:]);got.append(('bytes',x[1][:need]));need=0;continue
            if x[0]=='val' and x[1][0]=='const':
                bs=(x[1][1]&((1<<8*x[2])-1)).to_bytes(x[2],'little')
                st['q'][0]=('bytes',bs[need:]);got.append(('bytes',bs[:need]));need=0;continue
            if x[0]=='gap': st['q'][0]=('gap',w-need);got.append(('gap',need));need=0;continue
            raise Bad('the reader takes %d bytes of a value the writer writes in %d'%(need,w),loc)
        return got
    def known(s,e,E):
        if e[0]=='loop' and trip(e,E)[1] is None: raise Und('rounds of the loop at %s'%e[3])
    def bindto(s,rid,got,E):
        for x in got:
            if x[0]=='val':
                for y in subt(x[1]):
                    if y[0]=='D': s.eaten.append(y)
            elif x[0]=='rawb': s.eatraw(x[1])
        if len(got)==1 and got[0][0]=='rawb': E.bind[rid]=('raw',got[0][1],('const',got[0][2]));return
        E.bind[rid]=('pieces',[x if x[0]!='rawb' else ('val',('rawat',x[1],ZERO,x[2]),x[2]) for x in got])
    def eatraw(s,p):
        if p[0]=='at': p=p[1]
        if p[0]=='data': s.eaten.append(('D',p[1],p[2],None))
    def lost(s,ne,no,what,loc):
        """every value taken from the file in these alternatives went somewhere"""
        seen=set()
        for o in s.obs[no:]:
            if o[0]=='value':
                for y in subt(o[3]):
                    if y[0]=='D': seen.add(y);seen.add(y[1:3])
            elif o[0]=='same': seen.add(o[2][1:3])
        for y in s.eaten[ne:]:
            if not(y in seen or y[3] is None and y[1:3] in seen):
                raise Bad('a value of the attribute%s is read and goes nowhere'%(' (%s)'%what if what else ''),loc)
    # -- reader side
    def item(s,e,st,E):
        k=e[0]
        if k=='rd':
            n=E.S(e[3]);loc=e[4]
            if n[0]=='const':
                if n[1]<=0: E.bind[e[1]]=('pieces',[]);return
                if not st['q']: s.pull(st,E)
                if not st['q'] and st['W'] and st['W'][0][0]=='loop':
                    s.known(st['W'][0],E)
                    raise Bad('the reader takes %d bytes where the writer has a loop'%n[1],loc)
                got=s.take(n[1],st,E,loc);s.bindto(e[1],got,E)
                if e[2] is not None: s.dest(e[2],E,('in',e[1],ZERO,n[1]),n,loc)
                return
            if not st['q']: s.pull(st,E)
            if st['q'] and st['q'][0][0]=='raw':
                x=st['q'][0];d=sub(x[2],n)
                if d==ZERO: st['q'].pop(0)
                else: raise Bad('the reader takes %s bytes where the writer writes %s'%(fmt(n),fmt(x[2])),loc,d) if closed(d) else Und('the reader takes %s bytes where the writer writes %s'%(fmt(n),fmt(x[2])))
                E.bind[e[1]]=('raw',x[1],x[2]);s.eatraw(x[1])
                if e[2] is not None: s.dest(e[2],E,None,n,loc,x)
                return
            if not st['q'] and st['W'] and st['W'][0][0]=='loop':
                if s.bulk(e,n,st,E): return
            if st['q'] and n[0]!='const' and closed(n):
                raise Bad('the reader takes %s bytes where the writer writes %d'%(fmt(n),plen(st['q'][0])),loc)
            raise Und('read of %s bytes at %s'%(fmt(n),loc))
        if k=='store':
            s.store(e,E);return
        if k=='pusha':
            return
        if k in('pushs','pushstr'): return
        if k=='call':
            if e[1].endswith('::addParticles'):
                n=E.S(e[2][-1]) if not isinstance(e[2][-1],str) else None
                E.np=n;s.obs.append(('np',n,e[3]))
            else: s.added(e,E)
            return
        if k=='loop': s.rloop(e,st,E)
    def added(s,e,E):
        a=e[2];s.obs.append(('add',E.S(a[-3]),E.S(a[-2]),E.S(a[-1]),e[3],E.level))
    def dest(s,ptr,E,val,n,loc,raw=None):
        d=E.S(ptr);o=ZERO
        if d[0]=='at': d,o=d[1],d[2]
        if d[0]!='data': return
        if raw is not None:
            src=raw[1];so=ZERO
            if src[0]=='at': src,so=src[1],src[2]
            if src[0]=='data': s.same(d,o,src,so,loc,E)
            else: raise Und('bulk read from %s'%fmt(src))
            return
        v=E.S(val);s.value(d,o,v,loc,E)
    def store(s,e,E):
        _,ptr,val,loc,sz=e
        d=E.S(ptr);o=ZERO
        if d[0]=='at': d,o=d[1],d[2]
        if d[0]!='data': return
        s.value(d,o,E.S(val),loc,E)
    def value(s,d,o,v,loc,E=None):
        s.obs.append(('value',d,o,v,loc))
        atoms=[x for x in subt(v) if x[0]=='D']
        if v[0]=='rawat' and v[2]==ZERO and v[1] in s.named and d[1][0]=='added' and d[1][2][0]=='str':
            for z in s.named[v[1]]:
                if z is None: continue
                if z[0][1].rstrip(b'\0')!=d[1][2][1].rstrip(b'\0'): raise Bad('values of attribute %s are read into attribute %s'%(fmt(z[0]),fmt(d[1][2])),loc)
                x=sub(o,z[2])
                if x!=ZERO and closed(x): raise Bad('component of attribute %s at byte %s is read into byte %s'%(fmt(z[0]),fmt(z[2]),fmt(o)),loc)
                if d[2]!=z[1] and pidx(d[2]) and pidx(z[1]): raise Bad('value of particle %s is read into particle %s'%(fmt(z[1]),fmt(d[2])),loc)
                s.namedok.add((z[0],fmt(z[2])))
        if v[0]=='D': s.same(d,o,('data',v[1],v[2]),v[3],loc,E);return
        w=v
        while w[0] in('and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem') and len(w)==3 and w[2][0]=='const' and w[2]!=ZERO and not(w[0]=='and' and w[2][1] in(-1,(1<<32)-1)): w=w[1]
        if w[0]=='lin' and len(w[2])==1 and (w[1] or w[2][0][1]!=1): w=w[2][0][0]
        if w is not v and w[0]=='D': raise Bad('a value is stored as %s of it'%fmt(v),loc)
        if any(x[0]=='bswap' for x in subt(v)): raise Bad('value stored with its bytes swapped',loc)
        for a in atoms: s.sameattr(d,('data',a[1],a[2]),loc)
        if not atoms and v[0]=='const' : return
    def same(s,d,o,src,so,loc,E=None):
        s.sameattr(d,src,loc)
        x=sub(o,so)
        if x!=ZERO:
            raise (Bad if closed(x,[q[0] for q in getattr(E,'recs',{}).values()]) else Und)('component at byte %s is read into byte %s'%(fmt(so),fmt(o)),loc)
        s.obs.append(('same',d,src,loc))
    def sameattr(s,d,src,loc):
        if d[2]!=src[2]:
            raise (Bad if pidx(d[2]) and pidx(src[2]) else Und)('value of particle %s is read into particle %s'%(fmt(src[2]),fmt(d[2])),loc)
        a,b=d[1],src[1]
        s.obs.append(('pair',b,a,loc))
    def rloop(s,e,st,E):
        if delim(e):
            if not st['q']: s.pull(st,E)
            if st['q'] and st['q'][0][0]=='raw':
                x=st['q'].pop(0);rid=[y for c,b in e[2] for y in b if y[0]=='rd'][0][1]
                nx=st.get('next')
                if nx is not None and nx[0]=='rd' and nx[1]==rid:
                    # the delimiter itself is read by the last, incomplete, round
                    for y in subt(x[2]):
                        if y[0]=='cmp' and all(z[0] in('cmp','len','lin','const','chars','fld','alloca','at') for z in subt(y)) and y[3][0]=='const' and y[3][1]>1 and rebuild(x[2],lambda u:ZERO if u==y else u)==('len',x[1]):
                            x=x[:2]+(('len',x[1]),)+x[3:];break    # a name that does not meet the condition
                    if x[1][0]=='chars' and x[2]==add(('len',x[1]),ONE): st['q'].insert(0,('bytes',b'\0'))
                    elif x[1][0]=='chars' and x[2]==('len',x[1]) and not (st['q'] or st['W'] and st['W'][0][0]=='wr'): raise Bad('the writer writes no terminator after the string the reader looks for one in',e[3])
                    elif x[1][0]=='chars' and x[2]==('len',x[1]) and (st['q'] or s.pull(st,E)) and st['q'] and unterminated(st['q'][0]): raise Bad('the writer writes no terminator after the string the reader looks for one in',e[3])
                    elif not(x[1][0]=='chars' and x[2]==('len',x[1])): raise Und('string at %s'%e[3])
                s.strings(x,e,E);return
            raise Und('string at %s'%e[3])
        v,t,lo=trip(e,E)
        if t is not None and t[0]=='const' and 0<=t[1]<=256 and isio([e],('rd','store')):
            for k in range(t[1]):
                F=E;kk=('const',k+(lo[1] if lo else 0));F.iv[v]=kk
                alts=s.consistent(e[2],F,v)
                if len(alts)!=1: raise Und('which round of a reader loop at %s'%e[3])
                for x in s.select(alts[0][1]): s.item(x,st,F)
            E.iv[v]=('const',t[1]+(lo[1] if lo else 0))
            return
        if not isio([e],('rd',)):
            s.noreads(e,v,t,E,st);return
        if not st['q']: s.pull(st,E)
        if st['q']:
            x=st['q'][0]
            if x[0]=='raw' and t is not None and s.unbulk(e,v,t,x,st,E): return
            if x[0]=='raw' or t is None: raise Und('loop at %s'%e[3])
            raise Bad('the reader loops %s times where the writer writes %d bytes'%(fmt(t),plen(x)),e[3])
        if not st['W']: raise Bad('the reader has a loop of %s rounds after the last byte the writer writes'%(fmt(t) if t else '?'),e[3])
        w=st['W'].pop(0);s.loops(w,e,st,E)
    def strings(s,x,e,E):
        p=x[1]
        if p[0]=='chars' and p[1][0]=='cat':
            c=p[1][1]
            if c[0][0]=='str': E.words=set(c[0][1].decode('latin1').split())
            ds=[y[0][3][1] for cc,b in e[2] for y in cc if y[0][0]=='cmp' and y[0][1]=='ne' and y[0][3][0]=='const' and 0<y[0][3][1]<256]
            if ds and c[-1][0]=='chars': raise Bad('the writer writes no character %d where the reader looks for one'%ds[0],e[3])
            if ds and c[-1][0]=='str' and c[-1][1][-1:]!=bytes([ds[0]]): raise Bad('the reader looks for character %d at the end of what the writer ends with %r'%(ds[0],c[-1][1][-1:]),e[3])
    def bulk(s,e,n,st,E):
        """a record read in one piece: the writer's loop writes it piece by piece, each at the place its counter said"""
        w=st['W'][0];wv,wt,wlo=trip(w,E)
        if n in s.near: raise Bad(s.near[n],e[4])
        if wt is None or n[0]!='iv': return False
        a=s.canon(wt);own=None
        for key,(wl,t0) in s.wloops.items():
            if n in[x for x,y,z in wl[1]]: own=wl
        if own is None: return False
        d2=s.count(s.itW,own,n)
        reg,vecs=s.regof(a)
        if d2 is None or reg is None or reg[1] is not own: return False
        E.level+=1;lv=('L',E.level);recs={}
        for label,F in s.casesof(w,E,wv,a,lv):
            F.iv[wv]=lv;v0,_,_=trip(own,E);F.iv[v0]=('slot',s.regs.index(reg))
            k=F.case[1];step=F.S(d2[k]) if d2[k] is not None else None
            walts=uniq(s.consistent(w[2],F,wv),s)
            if len(walts)!=1 or step is None: raise Und('pieces of the record at %s'%w[3])
            ws=[y for y in s.select(walts[0][1]) if y[0] in('wr','loop')]
            if len(ws)!=1 or ws[0][0]!='wr' or len(ws[0][1])!=1 or ws[0][1][0][0]!='raw': raise Und('pieces of the record at %s'%w[3])
            q=ws[0][1][0];ptr,ln=F.S(q[1]),F.S(q[2])
            d=sub(ln,step)
            if d!=ZERO: raise (Bad if closed(d) else Und)('the writer gives %s room for %s bytes and writes %s'%(label,fmt(step),fmt(ln)),w[3])
            recs[F.case]=(ptr,ln,F,lv)
        # the cases in which nothing is emitted must not advance the counter
        E.level-=1
        st['W'].pop(0)
        E.recs=dict(getattr(E,'recs',{}));E.recs[e[1]]=(n,recs,a)
        return True
    def noreads(s,e,v,t,E,st):
        rids=[k for k in getattr(E,'recs',{}) if any(x[0]=='in' and x[1]==k for y in deep((e,)) for z in y if isinstance(z,tuple) for x in subt(z))]
        if not rids or t is None: return
        rid=rids[0];cnt,recs,a=E.recs[rid]
        b=s.canon(t)
        if b!=a: raise (Bad if closed(sub(a,b)) else Und)('the record has %s pieces and %s are taken out of it'%(fmt(a),fmt(b)),e[3])
        E.level+=1;lv=('L',E.level)
        for case,(ptr,ln,F0,lv0) in recs.items():
            F=F0.copy();F.part=E.part;F.np=E.np;F.level=E.level
            for x,y in E.iv.items(): F.iv.setdefault(x,y)
            F.bind=dict(E.bind)
            for (vec,l),x in list(F.elems.items()):
                if l==lv0: F.elems[vec,lv]=x
            if v is not None: F.iv[v]=lv
            fr=lambda y:lv if y==lv0 else y
            F.bind[rid]=('raw',rebuild(ptr,fr),ln,cnt)
            alts=s.consistent(e[2],F,v);hit=0;no=len(s.obs)
            for al in alts: hit+=s.taken(al,F,case)
            if not hit: raise Bad('the reader has no case for what the writer writes for %s'%case[0],e[3])
            s.matchall(F,case[0])
        E.level-=1
    def taken(s,al,F,case):
        """stores of one alternative; inner loops over the components"""
        n=0
        for x in al[1]:
            if x[0]=='store':
                no=len(s.obs);s.store(x,F);n+=len(s.obs)>no
            elif x[0]=='loop':
                v,t,lo=trip(x,F)
                if v is None: raise Und('loop at %s'%x[3])
                G=F.copy();G.iv=dict(F.iv)
                G.level+=1;G.iv[v]=add(('L',G.level),lo) if lo is not None else ('L',G.level)
                c=case[0]
                cnt=[k for k in subt(t) if k[0]=='af']
                for al2 in s.consistent(x[2],G,v): n+=s.taken(al2,G,case)
        return n
    def unbulk(s,e,v,t,x,st,E):
        alts=s.consistent(e[2],E,v)
        if len(alts)!=1: return False
        its=s.select(alts[0][1]);rd=[y for y in its if y[0]=='rd']
        if len(rd)!=1: return False
        n=E.S(rd[0][3])
        if n[0]!='const': return False
        d=sub(mul(n,t),x[2])
        if d!=ZERO: raise (Bad if closed(d) else Und)('the reader takes %s times %s bytes where the writer writes %s'%(fmt(t),fmt(n),fmt(x[2])),e[3])
        st['q'].pop(0);s.eatraw(x[1])
        E.bind[rd[0][1]]=('raw',adv(x[1],scale(v,n[1])),n)
        for y in its:
            if y[0]!='rd': s.item(y,st,E)
            elif y[2] is not None: s.dest(y[2],E,('in',y[1],ZERO,n[1]),n,y[4])
        return True
    def loops(s,w,r,st,E):
        wv,wt,wlo=trip(w,E);rv,rt,rlo=trip(r,E)
        if wt is None or rt is None: raise Und('rounds of the loops at %s and %s'%(w[3],r[3]))
        np=('NP',)
        a=np if wt==('iterator',) else wt
        b=(E.np if E.np is not None else ('?',)) if rt==('iterator',) else rt
        a,b=s.canon(a),s.canon(b)
        d=sub(a,b);some=None
        if d!=ZERO:
            if b[0]=='cnt' and b[1] in s.wloops and s.canon(s.wloops[b[1]][1])==a: some=b
            else: raise (Bad if closed(d) else Und)('the reader loops %s times where the writer loops %s times'%(fmt(b),fmt(a)),r[3])
        E.level+=1;lv=('L',E.level)
        old=E.part
        for x in(wv,rv):
            if x is not None: E.iv[x]=lv
        if a==np: E.part=lv
        isattr=a[0]=='NA'
        cases=s.casesof(w,E,wv,a,lv)
        done=[]
        for label,F in cases:
            walts=uniq(s.consistent(w[2],F,wv),s)
            if not walts: continue
            if len(walts)>8: raise Und('alternatives of the writer loop at %s'%w[3])
            for wa in walts:
                G0=F.copy();s.facts(wa,G0)
                if some is not None:
                    n=s.often(some,wa,G0,lv);em=isio(wa[1],('wr',))
                    if n is None: raise Und('which rounds of the loop at %s count'%w[3])
                    if n!=int(em): raise Bad('the writer counts %d but writes %s%s'%(n,'one' if em else 'none',' for %s'%label if label else ''),w[3])
                    if not em: continue
                errs=[];hit=0;ne=len(s.eaten);nb=len(s.obs)
                ralts=uniq([(c,b,n) for n,(c,b) in enumerate(r[2])],s,True)
                lits=collections.defaultdict(set)
                for ra in ralts:
                    for x in ra[0]:
                        for y in subt(x[0]):
                            if y[0]=='streq': lits[tuple(z for z in y[1:] if z[0]!='str')]|={z for z in y[1:] if z[0]=='str'}
                tv={k for k,z in lits.items() if len(z)>1}
                for ra in ralts: s.typevars[id(ra[0])]=tv
                tried=0
                for ra in ralts:
                    G=G0.copy();no=len(s.obs);n0=len(s.eaten)
                    try:
                        ok=s.body(wa,ra,G,rv)
                        if ok is None: del s.obs[no:];del s.eaten[n0:];continue
                        s.bodydone(label,wa,ra,G,w,r,lv,s.obs[no:])
                        hit+=1
                        done.append((label,wa,ra,G))
                    except Bad as x:
                        del s.obs[no:];del s.eaten[n0:]
                        if possible([G.S(y[0]) for y in wa[0]+ra[0]],x.d): raise
                        errs.append(x);tried+=1
                if errs and not hit: 
                    raise errs[0]
                if errs and hit: raise Und('the reader may take another alternative: %s'%errs[0].msg)
                if not hit:
                    raise Bad('the reader has no case for what the writer writes%s'%(' for %s'%label if label else ''),r[3])
                s.lost(ne,nb,label,r[3]);del s.eaten[ne:]
        E.level-=1;E.part=old
        for x,y in((wv,wt),(rv,rt)):
            if x is not None: E.iv[x]=y
        s.after(w,r,done,E,a,lv,some)
    def often(s,cnt,wa,G,lv):
        """by how much the earlier writer loop counts a round for which this alternative is taken"""
        w0,_=s.wloops[cnt[1]];v,t,lo=trip(w0,G)
        F=G.copy();F.iv[v]=lv
        ids={x[1] for c,b in w0[2] for y in c for x in subt(y[0]) if x[0]=='af'}|{x[2] for c,b in w0[2] for y in c for x in subt(y[0]) if x[0]=='af'}
        for x,k in list(G.af.items()):
            for i in ids:
                if isinstance(i,tuple) and F.S(i)==F.S(x[2]): F.af[('af',x[1],i)]=k
        for x in wa[0]:
            y=F.S(x[0])
            if y[0] not in('const',): F.eq[y]=ONE;F.eq[notc(y)]=ZERO
        got=set()
        for c,b,n in s.consistent(w0[2],F,v):
            got.add(cnt[2][n])
        if len(got)!=1: return None
        k=got.pop()
        return k[1] if k[0]=='const' else None
    def facts(s,wa,F):
        for x in wa[0]:
            t=F.S(x[0])
            if t[0]=='cmp' and t[1]=='eq' and t[3][0]=='const' and t[2][0]=='af': F.af[t[2]]=t[3]
    def count(s,it,e,term):
        """by how much a round of loop e, per alternative, advances a counter or the size of a vector that start at zero"""
        ivs={x:(y,z) for x,y,z in e[1]}
        if term[0]=='iv':
            if term not in ivs or ivs[term][0]!=ZERO: return None
            nx=it.lnext.get(id(e[2]))
            if nx is None: return None
            return tuple(sub(q[term],term) if q.get(term) is not None else None for q in nx[1])
        if term[0]=='size':
            return tuple(('const',sum(1 for x in b if x[0]=='push' and x[1]==term[1])) for c,b in e[2])
        return None
    def canon(s,t):
        """counters the writer kept in an earlier loop, in terms of that loop"""
        if t[0] not in('iv','size'): return t
        for key,(w,wt) in s.wloops.items():
            d=s.count(s.itW,w,t)
            if d is None or None in d or t[0]=='size' and not any(x!=ZERO for x in d): continue
            if all(x==ONE for x in d) and wt is not None: return wt
            return ('cnt',key,d)
        return t
    def collect(s,e,E):
        v,t,lo=trip(e,E);s.wloops[e[3],e[1]]=(e,t)
        if t is None or v is None: return
        key=(e[3],e[1]);slot=('slot',len(s.regs));E.level+=1
        lst=[]
        E.iv[v]=slot
        for label,F in s.casesof(e,E,v):
            for wa in s.consistent(e[2],F,v):
                G=F.copy();s.facts(wa,G)
                el=s.snap(wa[1],G)
                if el: lst.append((label,wa[2],el,G.af))
        E.level-=1;E.iv[v]=t
        if lst: s.regs.append((key,e,t,lst,{}))
    def regof(s,a):
        for reg in s.regs:
            key,e,t,lst,rel=reg
            vecs={v for _,_,el,_ in lst for v in el}
            if t==a and all(len(el)==len(vecs) for _,_,el,_ in lst): return reg,vecs
            vs={v for v in vecs if s.canon(('size',v))==a}
            if vs: return reg,vs
        return None,None
    def snap(s,b,G):
        el={}
        for x in b:
            if x[0]=='pusha': el[x[1]]=G.S(x[2])
            elif x[0]=='pushstr': el[x[1]]=rebuild(x[2],G.f)
            elif x[0]=='pushs':
                d={}
                for k,v in x[2]:
                    if k=='in':
                        bd=G.bind.get(v[1]);pos=0
                        if bd is not None and bd[0]=='pieces':
                            for y in bd[1]:
                                if y[0]=='val': d.setdefault(pos,(y[1],y[2]))
                                pos+=plen(y)
                    elif v[1]: d[k]=(G.S(v[0]),v[1])
                s.snaps.append(d);el[x[1]]=('snapref',len(s.snaps)-1)
        return el
    def ren(s,t,lv,slot):
        f=lambda y:slot if y==lv else y
        if t[0]=='snapref':
            s.snaps.append({k:(rebuild(v[0],f),v[1]) for k,v in s.snaps[t[1]].items()})
            return ('snapref',len(s.snaps)-1)
        return rebuild(t,f)
    def bodydone(s,label,wa,ra,G,w,r,lv,obs):
        s.done(label,wa,ra,G,w,r,lv,obs)
    def done(s,label,wa,ra,G,w,r,lv,obs):
        adds=[o for o in obs if o[0]=='add' and o[5]==lv[1]]
        if len(adds)>1: raise Bad('the reader adds %d attributes for one of the writer%s'%(len(adds),' (%s)'%label if label else ''),adds[1][4])
        s.matchall(G,label)
    def matchall(s,G,label):
        for i,o in enumerate(s.obs):
            if o[0]=='pair':
                s.match(o[1],o[2],G,label,o[3]);s.obs[i]=('paired',)+o[1:]
    def match(s,b,a,G,label,loc):
        if b[0]=='elem' and a[0]=='added' and b[2][0]=='const' and any(b[1] in el for reg in s.regs for _,_,el,_ in reg[3]): raise Bad('values of the attribute at place %s are read into another'%fmt(b[2]),loc)
        if b[0]!='attr' or a[0]!='added': return
        if b[2][0]=='const' and a[2][0]!='str': raise Bad('values of attribute %s are read into another'%fmt(b[2]),loc)
        name,typ,cnt=a[2],a[3],a[4]
        if b[2][0]=='str':
            if name[0]=='str' and name[1].rstrip(b'\0')!=b[2][1].rstrip(b'\0'): raise Bad('values of attribute %s are read into attribute %s'%(fmt(b[2]),fmt(name)),loc)
            return
        k=G.S(('af','type',b))
        if k[0]=='const' and typ[0]=='const' and k[1] in KINDS:
            if typ[1] not in {1:(1,2),2:(1,2),3:(3,),4:(3,4)}[k[1]]: raise Bad('an attribute of type %s is read back as %s'%(KINDS[k[1]],KINDS.get(typ[1],'nothing')),loc)
            s.decided.add(('type',k[1]))
        n=G.S(('af','count',b));d=sub(G.S(cnt),n)
        if d==ZERO: s.decided.add(('count',k[1] if k[0]=='const' else 0))
        elif closed(d): raise Bad('an attribute (%s) of %s components is read back with %s'%(label,fmt(n),fmt(G.S(cnt))),loc)
        else: s.vague.append('components of the attribute read at %s'%loc)
    def after(s,w,r,done,E,a,lv,some=None):
        # vectors filled while both went through the attributes
        reg,vecs=s.regof(a)
        rvec={}
        for label,wa,ra,G in done:
            for v,x in s.snap(ra[1],G).items(): rvec.setdefault(v,[]).append(x)
        if reg is None:
            n=len(s.regs);slot=('slot',n);ren=lambda t:s.ren(t,lv,slot)
            lst=[];rel={}
            for label,wa,ra,G in done:
                el={v:ren(x) for v,x in s.snap(wa[1],G).items()}
                rr={v:ren(x) for v,x in s.snap(ra[1],G).items()}
                if not el and not rr: continue
                lst.append((label,wa[2],el,{ren(k):ren(v) for k,v in G.af.items()}));rel[label,wa[2]]=rr
            if lst:
                key=(w[3],w[1]);s.wloops[key]=(w,a);s.regs.append((key,w,a,lst,rel))
        else:
            n=s.regs.index(reg);slot=('slot',n)
            for label,wa,ra,G in done:
                for v,x in s.snap(ra[1],G).items(): reg[4].setdefault(G.case,{}).setdefault(v,s.ren(x,lv,slot))
        for v,x in rvec.items():
            if len(x)==len(done): E.eq[('size',v)]=a if some is None else ('cnt',(w[3],w[1]),tuple(ONE if isio(bb,('wr',)) else ZERO for cc,bb in w[2]))
        # counters the reader keeps: equal to the writer's when they advance alike in every case
        for x,y,z in r[1]:
            if y!=ZERO or x in E.iv or not done: continue
            nx=s.itR.lnext.get(id(r[2]))
            if nx is None: continue
            near=[]
            for key,(wl,wt) in s.wloops.items():
                for x2,y2,z2 in wl[1]:
                    if y2!=ZERO: continue
                    d2=s.count(s.itW,wl,x2)
                    if d2 is None: continue
                    ok=True
                    for label,wa,ra,G in done:
                        k=G.case[1] if G.case is not None and reg is not None else wa[2]
                        if wl is not w and (reg is None or reg[1] is not wl): ok=False;break
                        v=nx[1][ra[2]].get(x)
                        if v is None or d2[k] is None: ok=False;break
                        F=G.copy();F.eq=dict(F.eq);F.eq[x]=x2      # as they were before the round
                        if wl is not w:
                            v0=trip(wl,E)[0]
                            if v0 is not None: F.iv[v0]=('slot',s.regs.index(reg))
                        d=sub(F.S(v),x2);want=F.S(d2[k])
                        if d==want: continue
                        if d==ZERO and any(F.S(sub(c[0][3],c[0][2]))==scale(want,-1) or F.S(sub(c[0][2],c[0][3]))==want for c in ra[0] if c[0][0]=='cmp' and c[0][1] in('ule','ult','sle','slt')): continue    # the larger of the two: the round added nothing
                        ok=False
                        if want!=ONE and closed(sub(d,want)): near.append((x2,'the reader makes the record %s bytes longer for %s, the writer %s'%(fmt(d),label or 'an attribute',fmt(want))))
                        break
                    if ok: E.eq[x]=x2
            if x not in E.eq and len({y for y,_ in near})==1: s.near[x]=near[0][1];s.nearw[x]=near[0][0]
    def body(s,wa,ra,G,rv,top=False):
        """None when the writer's bytes exclude this alternative"""
        conds=[x[0] for x in ra[0]]
        lits=collections.defaultdict(set)
        for x in conds:
            for y in subt(x):
                if y[0]=='streq' and any(z[0]=='str' for z in y[1:]): lits[tuple(z for z in y[1:] if z[0]!='str')]|={z for z in y[1:] if z[0]=='str'}
        typed=s.typevars.get(id(ra[0]),())
        def excl():
            for x in conds:
                if x[0]=='cmp' and rv is not None and x[2]==rv: continue
                t=G.S(x)
                if G.words is not None: t=s.word(t,G.words,typed)
                if t[0]=='const' and not t[1]&1:
                    if DBG: print('   excluded by',fmt(x),ra[1][0][-1] if ra[1] else '')
                    return True
            return False
        st={'W':s.select(wa[1]),'q':[]}
        # the bytes read decide
        try:
            its=s.select(ra[1])
            for n,e in enumerate(its):
                st['next']=its[n+1] if n+1<len(its) else None
                s.item(e,st,G)
                if e[0]=='rd' and excl(): return None
        except (Bad,Und):
            if excl(): return None
            raise
        if excl(): return None
        s.flushW(st,G)
        s.rest=st['rest']
        if st['rest'] and not top:
            if any(x[0]!='gap' for x in st['rest']): raise Bad('the writer writes more bytes in a round than the reader takes',s.rloc(ra))
        return True
    def word(s,t,words,typed):
        neg=t[0]=='not';c=t[1] if neg else t
        if c[0]!='streq': return t
        lit=[z for z in c[1:] if z[0]=='str'];var=tuple(z for z in c[1:] if z[0]!='str')
        if len(lit)!=1 or var not in typed: return t
        v=lit[0][1].rstrip(b'\0').decode('latin1') in words
        return ('const',int(v!=neg))
    def rloc(s,ra):
        for e in ra[1]:
            if e[0]=='rd': return e[4]
        return None
    def casesof(s,w,E,wv,a=None,lv=None):
        """attribute types the rounds of a writer loop are for"""
        reg,vecs=s.regof(a) if a is not None else (None,None)
        if reg is not None and any(x[0]=='elem' and x[1] in vecs for e in deep(w[2][0][1]) for t in e if isinstance(t,tuple) for x in subt(t)):
            out=[];slot=('slot',s.regs.index(reg))
            for label,n,el,af in reg[3]:
                if not all(v in el for v in vecs): continue
                F=E.copy();F.af.update(af);F.case=(label,n)
                for v in el: F.elems[v,lv]=el[v]
                for v,x in reg[4].get((label,n),{}).items(): F.elems[v,lv]=x
                out.append((label,F))
            return out
        ids=set()
        for c,b in w[2]:
            for e in list(deep(b)):
                for t in e:
                    if isinstance(t,tuple):
                        for x in subt(t):
                            if x[0]=='af' and wv is not None and wv in list(subt(x)): ids.add(x[2])
                            if x[0]=='data' and wv is not None and wv in list(subt(x[1])): ids.add(x[1])
            for x in c:
                for y in subt(x[0]):
                    if y[0]=='af' and wv is not None and wv in list(subt(y)): ids.add(y[2])
        ids={i for i in ids if i[0] in('attr','elem')}
        if not ids: return [('',E.copy())]
        out=[]
        for k in list(KINDS)+[0]:
            F=E.copy()
            for i in ids:
                j=E.S(i)
                for q in(i,j):
                    F.af[('af','type',q)]=('const',k or 1)
                    if k==1: F.af[('af','count',q)]=('const',3)
            out.append((KINDS[k] if k else 'VECTOR of any count',F))
        return out

def adv(p,n): return ('at',p[1],add(p[2],n)) if p[0]=='at' else ('at',p,n)
def closed(d,more=()):
    """a difference of quantities that are known: not zero means different"""
    l=tolin(d);l.pop(1,None)
    return all(masked(k) or k in more or k[0]=='L' and more or k[0] in('NP','NA','len','af','cnt') or k[0]=='mul' and all(z[0] in('NP','NA','len','af','cnt') for z in k[1]) for k in l)
def unterminated(x):
    if x[0]=='bytes': return x[1][:1]!=b'\0'
    return x[0]=='val' and x[1][0]=='const' and x[2]>0 and x[1][1]&255!=0
def possible(conds,d):
    """some number of components meets all of these conditions and leaves this difference"""
    if d is None: return False
    ats={x for t in conds+[d] for x in subt(t) if x[0]=='af' and x[1]=='count'}
    if len(ats)!=1: return False
    a=ats.pop();cs=[t for t in conds if t[0]!='const']
    if any(t[0]=='const' and not t[1]&1 for t in conds): return False
    for n in range(1,65):
        f=lambda t:('const',n) if t==a else t
        if rebuild(d,f)!=ZERO and all(rebuild(t,f)[0]=='const' and rebuild(t,f)[1]&1 for t in cs if a in subt(t)) and all(a in subt(t) or t[0]=='cmp' and (t[2][0]=='L' or not any(x[0] in('in','D','rawat','af','len','call','load','elem','data','NP','NA','streq','arg','glob','fresh') for x in subt(t))) for t in cs): return True
    return False
def masked(k):
    """a number of particles, attributes or components cut short"""
    return k[0]=='and' and len(k)==3 and k[2][0]=='const' and k[2][1]&0x7fffffff!=0x7fffffff and k[1][0] in('NP','NA','len','af')
def pidx(i): return i[0] in('L','const') or i[0]=='lin' and all(k[0]=='L' for k,c in i[2])
def subt(t):
    st=[t]
    while st:
        x=st.pop()
        if not isinstance(x,tuple): continue
        if x and isinstance(x[0],str): yield x
        st.extend(y for y in x if isinstance(y,tuple))
def deep(ev):
    for e in ev:
        if e[0]=='loop':
            for c,b in e[2]:
                for x in c: yield ('cond',x[0])
                for x in deep(b): yield x
        else: yield e
def sube(e,m):
    """substitute loop variables in an event"""
    f=lambda t:m.get(t,t)
    def g(x):
        if isinstance(x,tuple):
            if x and isinstance(x[0],str) and x[0] not in('wr','rd','store','loop'): return rebuild(x,f)
            return tuple(g(y) for y in x)
        return x
    if e[0]=='loop': return ('loop',e[1],tuple((tuple((g(x[0]),)+tuple(x[1:]) for x in c),tuple(sube(y,m) for y in b)) for c,b in e[2]),e[3])
    return (e[0],)+tuple(g(x) for x in e[1:])
def uniq(alts,s,conds=False):
    """alternatives that differ only in how a value is computed count once"""
    out=[];seen={}
    for a in alts:
        k=repr(loose(s.select(a[1])))+(repr(sorted(repr(x[0]) for x in a[0] if any(y[0] in('in','streq') for y in subt(x[0])))) if conds else '')
        if k in seen: continue
        seen[k]=1;out.append(a)
    return out
def loose(ev):
    ren={}
    def g(x):
        if isinstance(x,tuple):
            if x and x[0] in('iv','lv','in'):
                if x[0]=='in': return ('in',ren.setdefault(x[1],len(ren)))+tuple(g(y) for y in x[2:])
                return ren.setdefault(x,('v',len(ren)))
            return tuple(g(y) for y in x)
        return x
    def piece(x):
        if x[0]=='val' and not(x[1][0] in('const','load','in','bswap','fconst')): return ('calc',x[2])
        return g(x)
    def one(e):
        if e[0]=='wr': return ('wr',tuple(piece(x) for x in e[1]))
        if e[0]=='rd': return ('rd',ren.setdefault(e[1],len(ren)))+tuple(g(x) for x in e[2:])
        if e[0]=='store':
            v=e[2] if e[2][0] in('const','load','in','bswap') else ('calc',tuple(sorted({x[1] for x in subt(e[2]) if x[0]=='D'} ,key=repr)))
            return ('store',g(e[1]),g(v))+tuple(e[3:])
        if e[0]=='loop': return ('loop',tuple(g(x) for x in e[1]),tuple(tuple(one(y) for y in b if y[0] in('rd','wr','store','loop')+PUSH or y[0]=='call') for c,b in e[2]),e[3])
        return g(e)
    return [one(e) for e in ev]

PAIRS=[('PDB32','Partio::writePDBHelper<32>','Partio::readPDBHelper<32>'),('PDB64','Partio::writePDBHelper<64>','Partio::readPDBHelper<64>'),
       ('PTC','Partio::writePTC','Partio::readPTC'),('PDC','Partio::writePDC','Partio::readPDC'),('PRT','Partio::writePRT','Partio::readPRT'),('BIN','Partio::writeBIN','Partio::readBIN')]

def entry(prog,name):
    r=re.compile(r'(?:^|[ ])%s\('%re.escape(name))
    fs=[f for f in prog.fns if r.search(f.dem) and '::{lambda' not in f.dem and f.blocks]
    return fs[0] if len(fs)==1 else None

def run(c):
    c.rule('the writer and the reader of a format are walked in lock-step over their effect summaries: each byte the writer emits is matched with the byte the reader takes, each loop with a loop of as many rounds, for every attribute type; what was written selects the alternative of the reader; every value must end in the same component of the same particle of the attribute read for it')
    c.assume.append('the file is read to its end without errors, by the reader of the same tree, on the byte order the writer ran on; text of attribute names is not compared; conversions between floating point widths, and the encoding of PTC normals, are not evaluated')
    prog=c.view('inl',noinline=[r'Partio::(read|write)_buffer\('])
    dv=devirt(prog)
    for fm,wn,rn in PAIRS:
        W,R=entry(prog,wn),entry(prog,rn)
        if W is None or R is None: c.und('layout','%s: writer or reader not found'%fm);continue
        c.touch(W);c.touch(R)
        try: pair(c,prog,dv,fm,W,R)
        except (Und,TooMany) as x: c.und('layout','%s: %s'%(fm,x))
    c.need('layout',1)

def pair(c,prog,dv,fm,W,R):
    iw=CI(prog,dv);ir=CI(prog,dv)
    ws=[q for q in iw.run(W,[('arg',0),('arg',1),('const',0),('null',)]) if q.end==('ret',) and q.ret==ONE]
    rs=[q for q in ir.run(R,[('arg',0),('const',0),('null',)]) if q.end==('ret',) and q.ret not in(None,('null',),ZERO)]
    loc='%s:%s'%(R.file,R.line) if hasattr(R,'line') else R.dem
    if not ws or not rs: c.und('layout','%s: no path of the writer or the reader succeeds'%fm);return
    for w in ws:
        if not isio(w.ev,('wr',)):
            if any(x[0][0]=='cmp' and x[0][1] in('eq','ne','sle') and any(y[0]=='call' and y[1].endswith('::numParticles') for y in subt(x[0])) for x in w.cond): continue
            c.und('layout','%s: a path of the writer writes nothing'%fm);continue
        res=[]
        for r in rs:
            L=Lock(None,fm,iw,ir)
            try:
                o=L.run(w,r)
                if o is None: continue
                res.append(('ok',L,r))
            except Bad as x: res.append(('bad',x,r))
            except Und as x: res.append(('und',x,r))
        oks=[x for x in res if x[0]=='ok']
        if not res:
            c.bad('%s rejected'%fm,'%s: the reader accepts nothing of what the writer writes'%fm,loc,'layout');continue
        for k,x,r in res:
            if k=='ok':
                c.ok('layout','%s: one path of the writer against one of the reader'%fm)
                nps=[o for o in x.obs if o[0]=='np']
                if len(nps)!=1: c.und('particles','%s: number of particles the reader makes'%fm)
                elif nps[0][1]==('NP',): c.ok('particles','%s: as many particles as were written'%fm)
                elif nps[0][1] is not None and closed(sub(nps[0][1],('NP',))): c.bad('%s particles'%fm,'%s: the reader makes %s particles'%(fm,fmt(nps[0][1])),nps[0][2],'particles')
                else: c.und('particles','%s: number of particles the reader makes'%fm)
                for y in sorted(x.decided): c.ok('attribute','%s: %s of %s attributes'%(fm,y[0],KINDS.get(y[1],'all')))
                for y in x.vague: c.und('attribute','%s: %s'%(fm,y))
                n=sum(1 for o in x.obs if o[0]=='same')
                for y in sorted({y[0][1].rstrip(b'\0') for y in x.namedok}): c.ok('attribute','%s: values of attribute %s'%(fm,y.decode('latin1')))
                if n: c.ok('values','%s: %d places a value is stored'%(fm,n))
            elif getattr(x,'soft',0) and oks: pass
            elif k=='und': c.und('layout','%s: %s'%(fm,x.args[0] if x.args else x))
            elif oks and any(y[0]=='call' and STREAM.search(str(y[1])) for z in r.cond for y in subt(z[0])): c.und('layout','%s: %s'%(fm,x.msg))
            else: c.bad('%s: %s'%(fm,x.msg),'%s: %s'%(fm,x.msg),x.loc or loc,'layout')
