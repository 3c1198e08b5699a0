"""C07: what the PDA and GEO writers print is, word by word, what their readers take."""
import re,sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','pv'))
from paths import *
from codec import *
import c06
from c06 import devirt,entry,subt,Und

SHL=re.compile(r'^std::(operator_shl|ostream::(operator_shl|put|write))$')
SHR=re.compile(r'^std::(operator_shr|istream::operator_shr)$')
TYPES={1:'VECTOR',2:'FLOAT',3:'INT',4:'INDEXEDSTR'}

class TI(CI):
    """CI that keeps, for text, what is printed on which stream and read from which"""
    def attrname(s,a,p):
        if a[0]=='fld' and a[2]=='name':
            q=s.attrid(a[1],p)
            return ('af','name',q)
        return None
    def docall(s,fn,i,p,depth,fr):
        n=fn.callee(i);d=i.d.get('dem','')
        if SHL.match(n):
            a=[s.op(fn,o,p) for o in i.o];loc=i.loc
            if len(a)<2: return CI.docall(s,fn,i,p,depth,fr)
            x=a[1]
            if '(*)' in d:
                g=x[1] if x[0]=='glob' else ''
                if '4endl' in g: s.event(p,'tx',a[0],('lit',b'\n'),loc)
                elif '5flush' not in g and '4ends' not in g: s.event(p,'tx',a[0],('mani',g),loc)
            elif n=='std::ostream::write': s.event(p,'tx',a[0],('raw',),loc)
            elif 'char const*' in d:
                b=s.bytes(x) if x[0] in('glob','str') else None
                if x[0]=='select': b=None
                s.event(p,'tx',a[0],('lit',b[:b.index(0)] if 0 in b else b) if b is not None else ('sv',s.strval(x,p)),loc)
            elif 'basic_string' in d:
                q=s.attrname(x,p)
                v=q if q is not None else s.strval(x,p)
                if v[0]=='str': s.event(p,'tx',a[0],('lit',v[1].rstrip(b'\0')),loc)
                else: s.event(p,'tx',a[0],('sv',v),loc)
            elif n=='std::ostream::put' or re.search(r'(, |\()(signed |unsigned )?char\)$',d):
                if x[0]=='const': s.event(p,'tx',a[0],('lit',bytes([x[1]&255])),loc)
                else: s.event(p,'tx',a[0],('chr',x),loc)
            elif '::_Set' in d or 'std::_S' in d: s.event(p,'tx',a[0],('mani',d),loc)
            else:
                m=re.search(r'operator<<\(([^()]*)\)',d);t=m.group(1) if m else '?'
                s.event(p,'tx',a[0],('val',x,t),loc)
            p.env[i.id]=a[0];return None
        if SHR.match(n):
            a=[s.op(fn,o,p) for o in i.o]
            if len(a)>=2:
                t='str' if 'basic_string' in d and 'char&)' not in d else 'chr' if re.search(r'char&\)$',d) else (re.search(r'operator>>\(([^()]*)&\)',d) or [0,'?'])[1]
                s.event(p,'tk',a[1],t,i.loc)
        return CI.docall(s,fn,i,p,depth,fr)

# ------------------------------------------------------------------ printed text
WS=b' \t\n\r\v\f'
class Glue(Exception): pass
def text(e,strm):
    return e[0]=='tx' and (strm is None or e[1]==strm)
ALT={}
def walk(ev,st=()):
    """every event with the loops around it: (event, ((ivs, conds, loc), ...))"""
    for e in ev:
        if e[0]=='loop':
            for cc,b in e[2]:
                ALT[id(b)]=e[2]
                for x in walk(b,st+((e[1],cc,e[3],id(b)),)): yield x
        else: yield e,st
def value(t,env):
    if t in env: return env[t]
    if t[0]=='const': return t[1]
    if t[0] in('zext','sext','trunc') and t[1:] and isinstance(t[1],tuple): return value(t[1],env)
    if t[0]=='lin':
        r=t[1]
        for k,c in t[2]:
            v=value(k,env)
            if v is None: return None
            r+=c*v
        return r
    return None
def truth(t,env):
    if t[0]=='not':
        r=truth(t[1],env);return None if r is None else not r
    if t[0]!='cmp': return None
    a,b=value(t[2],env),value(t[3],env)
    if a is None or b is None: return None
    return {'eq':a==b,'ne':a!=b,'slt':a<b,'ult':a<b,'sle':a<=b,'ule':a<=b}.get(t[1])
def turn(ivs,cc):
    """0: the conditions hold in the first round only, 1: in later ones only"""
    for a,b,d in ivs:
        if b!=ZERO or d!=ONE: continue
        for x in cc:
            t=x[0]
            if t[0]!='cmp': continue
            if t[2]==a and (t[1],t[3]) in((('sle'),ZERO),('ule',ZERO),('eq',ZERO),('slt',ONE),('ult',ONE)): return 0
            if t[3]==a and (t[1],t[2]) in(('slt',ZERO),('ult',ZERO),('sle',ONE),('ule',ONE)) or t[2]==a and (t[1],t[3])==('ne',ZERO): return 1
    return None
def zeros(cc):
    """sizes the conditions say are zero"""
    return {x[0][2] for x in cc if x[0][0]=='cmp' and (x[0][1],x[0][3]) in(('eq',ZERO),('ule',ZERO),('sle',ZERO))}
def glue(ev,S,strm,punct,err,dead=frozenset()):
    """states the end of the output can be in: 's' after white space, 'v' within a value, 'w' within a word, 'q' after punctuation"""
    S=set(S)
    for e in ev:
        if e[0]=='loop':
            if not any(text(x,strm) for x,_ in walk([e])): continue
            al=[(cc,b,dead|zeros(cc)) for cc,b in e[2] if not any(x in dead for a,_,_ in e[1] for x in cond(cc,a))]
            iv=[(a,b,d) for a,b,d in e[1] if b[0]=='const' and d is not None and d[0]=='const' and d[1]>0 and all(cond(cc,a) for cc,_,_ in al)]
            bs={cond(cc,a)[0] for a,_,_ in iv for cc,_,_ in al}
            if len(iv)==1 and len(bs)==1:
                # the rounds of a counted loop one after the other, for up to five of them
                a,i0,d=iv[0];B=bs.pop();res=set(S)
                for n in range(1,6):
                    if B[0]=='const' and B[1]!=i0[1]+n*d[1]: continue
                    T=set(S)
                    for i in range(n):
                        env={a:i0[1]+i*d[1],B:i0[1]+n*d[1]};U=set()
                        for cc,b,dd in al:
                            if all(truth(x[0],env) is not False for x in cc): U|=glue(b,T,strm,punct,err,dd)
                        T=U
                    res|=T
                S=res;continue
            first=[x[1:] for x in al if turn(e[1],x[0])!=1];later=[x[1:] for x in al if turn(e[1],x[0])!=0]
            run=set()
            for b,dd in first: run|=glue(b,S,strm,punct,err,dd)
            for _ in range(6):
                new=set(run)
                for b,dd in later: new|=glue(b,run,strm,punct,err,dd) if run else set()
                if new==run: break
                run=new
            S=S|run
        elif text(e,strm):
            k=e[2]
            if k[0]=='lit':
                if not k[1]: continue
                c=k[1][:1]
                if 'v' in S and c not in WS and c not in punct: err.append((e,'%r follows a value without a blank'%k[1].decode('latin1')))
                c=k[1][-1:]
                S={'s' if c in WS else 'q' if c in punct else 'w'}
            elif k[0]=='sv' and k[1][0] not in('af',) and not(k[1][0]=='chars' and k[1][1][0] in('elem','fld')): S={'u'}
            elif k[0] in('val','sv'):
                if S&{'v','w'}: err.append((e,'a value follows %s without a blank'%('another value' if 'v' in S else 'a word')))
                S={'v'}
            elif k[0]=='chr': S={'q'}
            elif k[0] in('mani',): pass
            else: raise Und('output of unknown form')
    return S
def words(ev,strm,holes):
    """text with \\1n\\2 for the n-th hole (value or loop)"""
    out=b''
    for e in ev:
        if e[0]=='loop':
            if any(text(x,strm) for x,_ in walk([e])):
                holes.append(e);out+=b' \1%d\2 '%(len(holes)-1)
        elif text(e,strm):
            k=e[2]
            if k[0]=='lit': out+=k[1]
            elif k[0]=='mani': pass
            else: holes.append(e);out+=b'\1%d\2'%(len(holes)-1)
        elif e[0] in('pusha','pushs'): holes.append(e);out+=b' \1%d\2 '%(len(holes)-1)
    return out
def wl(ev,strm,pushes=False):
    h=[];o=[]
    for w in words(ev,strm,h).split():
        parts=re.findall(rb'\x01\d+\x02|[^\x01\x02]+',w)
        for x in parts:
            if x[:1]==b'\1':
                e=h[int(x[1:-1])]
                if e[0] in('pusha','pushs'):
                    if pushes: o.append(e)
                else: o.append(e)
            else: o.append(x)
    return o
# ------------------------------------------------------------------ conditions
def typeset(cc,vec=None):
    T={1,2,3,4}
    for x in cc:
        t=x[0]
        if t[0]=='cmp' and t[3][0]=='const' and t[2][0]=='af' and t[2][1]=='type':
            if t[1]=='eq': T&={t[3][1]}
            elif t[1]=='ne': T-={t[3][1]}
            elif t[1] in('slt','ult'): T={k for k in T if k<t[3][1]}
            elif t[1] in('sle','ule'): T={k for k in T if k<=t[3][1]}
        elif t[0]=='cmp' and t[2][0]=='const' and t[3][0]=='af' and t[3][1]=='type':
            if t[1] in('slt','ult'): T={k for k in T if k>t[2][1]}
            elif t[1] in('sle','ule'): T={k for k in T if k>=t[2][1]}
    return T
def cond(cc,i):
    """bounds of iv i in the loop's conditions: the terms it is known to be less than"""
    out=[]
    for x in cc:
        t=x[0]
        if t[0]!='cmp' or t[1] not in('slt','ult','sle','ule'): continue
        l,r=t[2],t[3]
        if l!=i:
            k=sub(l,i) if l[0]=='lin' else None
            if k is None or k[0]!='const': continue
            r=sub(r,k)
        out.append(r if t[1][1:]=='lt' else add(r,ONE))
    return out
def ivof(st,t):
    for n,(ivs,cc,loc,_) in enumerate(st):
        for a,b,d in ivs:
            if a==t: return n,a,b,d,cc
    return None
def ivs_in(st,t):
    return [a for ivs,cc,loc,_ in st for a,b,d in ivs if any(x==a for x in subt(t))]
def has(t,f): return any(f(x) for x in subt(t))
def word(k): return k[1].rstrip(b'\0').decode('latin1') if k[0]=='str' else None
def streqs(cc,pol=None):
    for x in cc:
        t=x[0];n=False
        if t[0]=='not': t=t[1];n=True
        if t[0]=='streq' and (pol is None or pol!=n):
            for y in t[1:]:
                if word(y) is not None: yield word(y),t

def full(c,key,kind,what,st,i,wantf,wantname,loc):
    """iv i runs over 0..want-1 in single steps"""
    r=ivof(st,i)
    if r is None: c.und(kind,'%s: index %s'%(what,fmt(i)[:60]));return False
    n,a,b,d,cc=r
    bs=cond(cc,a)
    if b[0]!='const' or d is None or d[0]!='const': c.und(kind,'%s: form of the loop'%what);return False
    if b!=ZERO or d!=ONE:
        c.bad('%s %s'%(key,wantname),'%s: the loop over %s starts at %s and goes in steps of %s'%(what,wantname,fmt(b),fmt(d)),loc,kind);return False
    if any(wantf(x) for x in bs):
        # another bound that every round obeys
        more=[x for x in bs if not wantf(x) and all(x in cond(c2,a) for c2,_ in ALT.get(st[n][3],((cc,0),)))]
        more=[x for x in more if x[0]=='const' or has(x,wantf)]
        if more and st[n][3] in ALT:
            c.bad('%s %s'%(key,wantname),'%s: the loop over %s also ends at %s'%(what,wantname,fmt(more[0])),loc,kind);return False
        return True
    near=[x for x in bs if has(x,wantf)]
    # != as the loop's condition
    if any(x[0][0]=='cmp' and x[0][1]=='ne' and a in x[0][2:4] and any(wantf(y) for y in x[0][2:4]) for x in cc): return True
    if near or any(x[0] in('const','size','af') or isnp(x) or isna(x) or x[0]=='resv' for x in bs): c.bad('%s %s'%(key,wantname),'%s: the loop over %s ends at %s'%(what,wantname,fmt((near or bs)[0])),loc,kind)
    else: c.und(kind,'%s: bound of the loop over %s'%(what,wantname))
    return False
def elemof(X):
    if X[0]=='elem': return X[1],X[2]
    if X[0]=='acc' and X[1][0]=='elem': return X[1][1],X[1][2]
    if X[0]=='accof' : return elemof(X[1])
    return None
def isnp(x): return x[0] in('call','resv') and has(x,lambda y:y[0]=='call' and str(y[1]).endswith('numParticles')) and x[0]=='call'
def isna(x): return x[0]=='call' and str(x[1]).endswith('numAttributes')

def values(c,fm,side,ev,occ,need,npf,loc0):
    """every component of every table attribute of every particle is printed/read once, in table order.
    occ(e) -> (address, type word) for the events that move one value"""
    seen={};attrloops={};k='values'
    what='%s %s'%(fm,side);key='%s-%s'%(fm,side)
    good=True
    for e,st in walk(ev):
        o=occ(e)
        if o is None: continue
        addr,ty,loc=o
        base,off=(addr[1],addr[2]) if addr[0]=='at' else (addr,ZERO)
        if base[0]!='data': continue
        X,P=base[1],base[2]
        el=elemof(X)
        if el is None: continue
        vec,idx=el
        # attribute index
        a=ivof(st,idx)
        if a is None:
            if idx[0]=='const' or idx[0]!='lv' and ivs_in(st,idx): c.bad(key+' attribute index','%s: the value of attribute %s is taken for the attribute the loop is at'%(what,fmt(idx)),loc,k)
            else: c.und(k,'%s: attribute index %s'%(what,fmt(idx)[:60]))
            good=False;continue
        if not full(c,key+' attributes',k,what,st,idx,lambda x:x[0]=='size' ,'attributes',loc): good=False
        # component
        d=off
        ks=[i for i in ivs_in(st,off) if i!=idx]
        if len(ks)!=1:
            if off[0]=='const': c.bad(key+' component','%s: component at byte %s of every attribute'%(what,fmt(off)),loc,k)
            else: c.und(k,'%s: component offset %s'%(what,fmt(off)[:60]))
            good=False;continue
        kk=ks[0]
        if off!=scale(kk,4):
            r=sub(off,scale(kk,4))
            if r[0]=='const' or r[0]=='lin': c.bad(key+' component','%s: component k is at byte %s'%(what,fmt(off)),loc,k)
            else: c.und(k,'%s: component offset %s'%(what,fmt(off)[:60]))
            good=False;continue
        if not full(c,key+' components',k,what,st,kk,lambda x:x[0]=='af' and x[1]=='count' and (elemof(x[2]) or (0,idx))[1]==idx,'components',loc): good=False
        # particle
        if P[0]=='cur': pass
        elif ivof(st,P) is not None:
            if not full(c,key+' particles',k,what,st,P,npf,'particles',loc): good=False
        elif ivs_in(st,P): c.bad(key+' particle','%s: the value of particle %s'%(what,fmt(P)),loc,k);good=False
        else: c.und(k,'%s: particle %s'%(what,fmt(P)[:60]));good=False
        n,_,_,_,_=a
        T=typeset(st[n][1])
        if side=='writer' or ty!='?':
            for t in sorted(T):
                w='float' if t in(1,2) else 'int'
                if ty not in(w,'double' if w=='float' else 'int'):
                    if ty in('int','float','double','unsigned int','char','short','bool','long'):
                        c.bad('%s %s as %s'%(key,TYPES[t],ty),'%s: %s values are handled as %s'%(what,TYPES[t],ty),loc,k);good=False
                    else: c.und(k,'%s: %s values as %s'%(what,TYPES[t],ty));good=False
        # the alternative of the component loop
        seen.setdefault(st[n][3],[]).append((T,kk,loc))
        attrloops.setdefault(st[n][2],set()).add(st[n][3])
    if not seen: c.und(k,'%s: no value of a particle'%what);return
    # each alternative of an attribute loop handles its types, once
    def loops(ev):
        for e in ev:
            if e[0]=='loop':
                yield e
                for cc,b in e[2]:
                    for x in loops(b): yield x
    for L in loops(ev):
        ids={id(b) for cc,b in L[2]}
        if not ids&set(seen): continue
        for cc,b in L[2]:
            T=typeset(cc)&set(need)
            if id(b) in seen: 
                # one component loop, one value each round
                for M in b:
                    if M[0]!='loop': continue
                    for c2,b2 in M[2]:
                        m=sum(1 for e,s2 in walk(b2) if occ(e) is not None)
                        if m!=1 and any(i[0]==seen[id(b)][0][1] for i in M[1]):
                            c.bad(key+' values per component','%s: %d values for one component'%(what,m),M[3],k);good=False
                continue
            if T and not any(x[0][0]=='cmp' and has(x[0],lambda y:y[0]=='af' and y[1]=='count') for x in cc):
                c.bad('%s %s values'%(key,'/'.join(TYPES[t] for t in sorted(T))),'%s: no value of %s attributes'%(what,'/'.join(TYPES[t] for t in sorted(T))),L[3],k);good=False
            elif T: c.und(k,'%s: an alternative of the attribute loop without values'%what)
    if good:
        for t in sorted(need): c.ok(k,'%s: every component of every %s attribute of every particle, in order'%(what,TYPES[t]))

def wocc(strm):
    def f(e):
        if text(e,strm) and e[2][0]=='val':
            x=e[2][1]
            while x[0] in('sext','zext','fpext','sitofp'): x=x[1]
            if x[0]=='load': return x[1],e[2][2],e[3]
            if x[0]=='bits' or x[0]=='bitcast': return None
        return None
    return f
def rocc(reads):
    """values the reader stores from the stream; reads: id of the local -> type read into it"""
    def f(e):
        if e[0]=='tk' and e[1][0] in('at','data'):
            return e[1],e[2],e[3]
        if e[0]=='store':
            v=e[2]
            while v[0] in('sext','zext','fpext','sitofp','fptosi','fptoui','trunc','fptrunc'): v=v[1]
            if v[0]=='resv' and has(v,lambda y:y[0] in('res','resv') and any(isinstance(z,str) and SHR.match(z) for z in y)):
                ds=[z[1] for z in subt(v) if z[0]=='alloca']
                return e[1],reads.get(v,'?'),e[3]
            return None
        return None
    return f

# ------------------------------------------------------------------ formats
def good(ps,wr): return [q for q in ps if q.end==('ret',) and (q.ret==ONE if wr else q.ret not in(None,('null',),ZERO))]
def stream(p,fn):
    for e in p.ev:
        if e[0]=='call' and e[1]==fn and e[2]: return e[2][0]
    return None
def hasloop(e,f): return e[0]=='loop' and any(f(x) for x,_ in walk([e]))
def isname(e): return e[0]=='tx' and e[2][0]=='sv' and e[2][1][0]=='af' and e[2][1][1]=='name'
def show(e): return fmt(e[2][1])[:80] if e[0]=='tx' and e[2][0]!='raw' else 'a loop'

def glued(c,fm,w,strm,punct):
    err=[]
    glue(w.ev,{'s'},strm,punct,err,frozenset(zeros(w.cond)))
    if err:
        for e,m in err[:1]: c.bad('%s glue %s'%(fm,fname(e[3])),'%s writer: %s'%(fm,m),e[3],'words')
    else: c.ok('words','%s: every value is a word of its own'%fm)
def fname(l): return l.split(':')[0].split('/')[-1]

def consts(ps):
    K=set()
    for q in ps:
        for w,t in streqs(q.cond): K.add(w)
        for e,st in walk(q.ev):
            for x in st:
                for w,t in streqs(x[1]): K.add(w)
    return K
def lineloop(ev,strm):
    return [(n,e) for n,e in enumerate(ev) if e[0]=='loop' and any(isname(x) and text(x,strm) for x,_ in walk([e]))]
def attrloop(c,fm,e,kind):
    """the loop over the attributes of the set visits all of them"""
    for x,st in walk([e]):
        if isname(x):
            A=x[2][1][2]
            if A[0]!='attr': c.und(kind,'%s writer: whose name'%fm);return False
            i=A[2]
            if ivof(st,i) is None:
                if ivs_in(st,i): c.bad('%s-writer attribute'%fm,'%s writer: attribute %s in round i'%(fm,fmt(i)),x[3],kind)
                else: c.und(kind,'%s writer: index of the attribute'%fm)
                return False
            return full(c,'%s-writer header'%fm,kind,'%s writer, header'%fm,st,i,isna,'attributes',x[3])
    return False
def deint(t):
    """the place a term was read into, if it is a value taken from the stream"""
    for y in subt(t):
        if y[0]=='resv': return y
    return None

def pda(c,prog,dv,W,R):
    fm='PDA'
    ws=good(TI(prog,dv).run(W,[('arg',0),('arg',1),('const',0),('null',)]),True)
    rp=TI(prog,dv).run(R,[('arg',0),('const',0),('null',)]);rs=good(rp,False)
    if not ws or not rs: c.und('keywords','PDA: no successful path');return
    w=max(ws,key=lambda q:sum(1 for _ in walk(q.ev)));r=max(rs,key=lambda q:(sum(1 for e,s in walk(q.ev) if e[0]=='store' or e[0]=='tk'),len(q.ev)))
    strm=stream(w,'Partio::io::write')
    for q in ws: glued(c,fm,q,strm,b'')
    # header keywords
    letters=set();amap={}
    for e,st in walk(r.ev):
        if e[0]=='call' and e[1].endswith('::addAttribute') and len(e[2])>=4:
            n,t,k=e[2][-3:]
            l=[x for s in st for x,_ in streqs(s[1],True)]
            letters|=set(l)
            if len(l)==1 and t[0]=='const' and k[0]=='const': amap[l[0]]=(t[1],k[1],n)
            else: c.und('types','PDA reader: form of the type table')
    for e,st in walk(r.ev):
        if e[0]!='call' or not e[1].endswith('::addAttribute') or len(e[2])<4: continue
        n=e[2][-3]
        if n[0]!='chars' or elemof(n[1]) is None: continue
        i=elemof(n[1])[1];v=ivof(st,i)
        if i[0]=='const': c.bad('PDA reader name','the PDA reader gives every attribute the name of number %d'%i[1],e[3],'attributes')
        elif v is not None and v[2][0]=='const' and v[3] is not None and v[3][0]=='const': c.decide(v[2]==ZERO and v[3]==ONE,'attributes','PDA reader name','the PDA reader takes the names from %s in steps of %s'%(fmt(v[2]),fmt(v[3])),e[3])
    for e in r.ev:
        if e[0]!='loop' or not any(x[0]=='call' and x[1].endswith('::addAttribute') for cc,b in e[2] for x in b): continue
        iv=[a for a,b,d in e[1]]
        for cc,b in e[2]:
            if any(x[0]=='call' and x[1].endswith('::addAttribute') for x in b) or any(w in letters for w,_ in streqs(cc)): continue
            own=[x[0] for x in cc if any(has(x[0],lambda y:y==a) for a in iv)]
            if any(t[0]=='cmp' and t[1] in('ule','sle','eq') and has(t,lambda y:y[0]=='size') for t in own): continue
            if own: c.bad('PDA reader skips','the PDA reader makes no attribute for some names',e[3],'attributes')
            else: c.und('attributes','PDA reader: an alternative without an attribute')
    allw=[]
    W1=wl(w.ev,strm)
    lits=[x.decode('latin1') for x in W1 if isinstance(x,bytes)]
    for K in sorted(consts(rp)-letters):
        if K in lits: c.ok('keywords','PDA: %s is written'%K)
        else: c.bad('PDA keyword %s'%K,'the PDA reader waits for %s, which the writer does not write as a word'%K,W.file,'keywords')
    # sentinels of the two header loops of the reader
    sent=[]
    for e in r.ev:
        if e[0]!='loop': continue
        ks=None
        for cc,b in e[2]:
            s=set(x for x,_ in streqs(cc,False))-letters
            ks=s if ks is None else ks&s
        if ks and (not sent or sent[-1][0]!=ks): sent.append((ks,e))
    nl=lineloop(w.ev,strm)
    def at(f):
        for n,x in enumerate(W1):
            if f(x): return n
        return None
    iname=at(lambda x:not isinstance(x,bytes) and hasloop(x,lambda y:isname(y)))
    iletter=at(lambda x:not isinstance(x,bytes) and x[0]=='loop' and not hasloop(x,lambda y:text(y,strm) and y[2][0]!='lit'))
    ival=at(lambda x:not isinstance(x,bytes) and x[0]=='loop' and hasloop(x,lambda y:wocc(strm)(y) is not None))
    if len(sent)>=2 and iname is not None and iletter is not None and ival is not None:
        K1,K2=[sorted(s[0])[0] for s in sent[:2]]
        p1=at(lambda x:x==K1.encode());p2=at(lambda x:x==K2.encode())
        if p1 is not None and p2 is not None:
            c.decide(iname<p1<iletter<p2<ival,'keywords','PDA header order','the PDA writer prints names, %s, types, %s and values in another order than the reader takes them'%(K1,K2),W.file)
            nx=W1[p2+1] if p2+1<len(W1) else None
            if nx is not None and not isinstance(nx,bytes) and nx[0]=='tx' and nx[2][0]=='val':
                c.decide(isnp(nx[2][1]),'counts','PDA number of particles','the PDA writer prints %s as the number of particles'%show(nx),nx[3])
            else: c.decide(False,'counts','PDA number of particles','the number of particles does not follow %s'%K2,W.file)
            # between the count and the values the reader takes two words
            mid=W1[p2+2:ival]
            n=sum(1 for e in r.ev if e[0]=='tk' and e[2]=='str')
            if all(isinstance(x,bytes) for x in mid):
                tk=[e for e in r.ev if e[0]=='tk'];num=[i for i,e in enumerate(tk) if e[2]!='str']
                if len(num)==1: c.decide(len(tk)-num[0]-1==len(mid),'keywords','PDA words before the values','the PDA writer prints %d words between the number of particles and the values, the reader takes %d'%(len(mid),len(tk)-num[0]-1),W.file)
                else: c.und('keywords','PDA reader: words before the values')
            else: c.und('keywords','PDA writer: words before the values')
        lead=W1[:iname]
        tk=0
        for e in r.ev:
            if e[0]=='loop': break
            if e[0]=='tk': tk+=1
        if all(isinstance(x,bytes) for x in lead): c.decide(all(x.decode('latin1') in consts(rp) for x in lead) and len(lead)<=1,'keywords','PDA first word','the PDA writer starts with %s'%b' '.join(lead).decode('latin1'),W.file)
    else: c.und('keywords','PDA: form of the header')
    # which attributes are announced, and how
    tabs=[]
    if len(nl)==1:
        e=nl[0][1]
        if attrloop(c,fm,e,'attributes'):
            for cc,b in e[2]:
                nn=[x for x in b if isname(x) and text(x,strm)];pp=[x for x in b if x[0]=='pusha'];T=typeset(cc)
                if len(nn)==0 and not pp: 
                    if not T or any(has(x[0],lambda y:y[0]=='af' and y[1]=='count') for x in cc): continue
                    c.bad('PDA attribute left out','the PDA writer leaves out %s attributes'%'/'.join(TYPES[t] for t in sorted(T)),e[3],'attributes');continue
                if len(nn)!=1 or len(pp)!=1:
                    c.bad('PDA announced','%d names are printed where %d attributes are kept for the values'%(len(nn),len(pp)),e[3],'attributes');continue
                if pp[0][2]!=nn[0][2][1][2]:
                    c.bad('PDA announced','the attribute kept for the values is not the one whose name is printed',pp[0][1] if isinstance(pp[0][1],str) else e[3],'attributes');continue
                c.ok('attributes','PDA: name printed, attribute kept for its values')
                cc2=[x[0] for x in cc if has(x[0],lambda y:y[0]=='af' and y[1]=='count')]
                cnt=[n for n in range(1,33) if all(holds(t,n) is not False for t in cc2)] if all(holds(t,1) is not None for t in cc2) else None
                tabs.append((T,cnt,e[3],bool(cc2)))
    else: c.und('attributes','PDA writer: %d loops that print names'%len(nl))
    # type letters
    wmap={}
    if iletter is not None:
        L=W1[iletter]
        for cc,b in L[2]:
            T=typeset(cc);ws_=wl(b,strm)
            for t in T:
                if len(ws_)==1 and isinstance(ws_[0],bytes): wmap.setdefault(t,set()).add(ws_[0].decode('latin1'))
                else: c.bad('PDA letter %s'%TYPES[t],'the PDA writer prints %d type words for %s attributes'%(len(ws_),TYPES[t]),L[3],'types');wmap.setdefault(t,set())
        st=((L[1],L[2][0][0],L[3],id(L[2][0][1])),)
        for a,b,d in L[1]:
            if any(y==a for x in L[2][0][0] for y in subt(x[0])): full(c,'PDA letters','types','PDA writer, types',st,a,lambda x:x[0]=='size' or isna(x),'attributes',L[3]);break
    for t in (1,2,3,4):
        for l in sorted(wmap.get(t,())):
            if l not in amap:
                if amap: c.bad('PDA letter %s'%TYPES[t],'the PDA writer prints %s for %s, which the reader does not know'%(l,TYPES[t]),W.file,'types')
                continue
            rt,rc,_=amap[l];want=3 if t==4 else t
            if not c.decide(rt==want,'types','PDA letter %s'%TYPES[t],'%s attributes are written as %s and read back as %s'%(TYPES[t],l,TYPES.get(rt,rt)),R.file): continue
            for T,cnt,loc,any_ in tabs:
                if t not in T: continue
                if cnt and any_: c.decide(cnt==[rc],'types','PDA count %s'%TYPES[t],'%s attributes of %s components are written, the reader makes %d'%(TYPES[t],cnt[0] if cnt[0]!=rc else cnt[-1] if len(cnt)<8 else 'any number of',rc),loc)
                elif not any_: c.bad('PDA count %s'%TYPES[t],'%s attributes of any number of components are written with a letter that means %d'%(TYPES[t],rc),loc,'types')
                else: c.und('types','PDA writer: number of components of %s'%TYPES[t])
    values(c,fm,'writer',w.ev,wocc(strm),{1,2,3,4},isnp,W.file)
    reads={}
    for e,st in walk(r.ev): pass
    fillreads(r,reads)
    rn=lambda x:x[0]=='resv' or isnp(x)
    values(c,fm,'reader',r.ev,rocc(reads),{t for t,_,_ in amap.values()},rn,R.file)
    npread(c,fm,r,reads)
    npconst(c,fm,rs)
def fillreads(r,reads):
    """type with which each value taken from the stream was read: by the local it was read into, within the same alternative"""
    last={}
    def go(ev):
        for e in ev:
            if e[0]=='loop':
                for cc,b in e[2]: go(b)
            elif e[0]=='tk': last[e[1]]=e[2]
            elif e[0]=='store':
                v=e[2]
                while v[0] in('sext','zext','fpext','sitofp','fptosi','fptoui','trunc','fptrunc'): v=v[1]
                for y in subt(v):
                    if y[0]=='alloca' and y in last: reads[v]=last[y]
    go(r.ev)
def npconst(c,fm,rs):
    """no way through the reader makes a fixed number of particles where the file may say another"""
    for q in rs:
        for e,st in walk(q.ev):
            if e[0]=='call' and e[1].endswith('::addParticles') and e[2][-1][0]=='const':
                n=e[2][-1]
                eq=any(x[0][0]=='cmp' and(x[0][1]=='eq' and n in x[0][2:4] or n==ZERO) and has(x[0],lambda y:y[0]=='resv') for x in q.cond)
                if not eq: c.bad('%s addParticles'%fm,'the %s reader makes %d particles where the file may say another number'%(fm,n[1]),e[3],'counts')
def npread(c,fm,r,reads,src=None):
    ap=[e for e,st in walk(r.ev) if e[0]=='call' and e[1].endswith('::addParticles')]
    for e in ap:
        n=e[2][-1]
        al={y for y in subt(n) if y[0]=='alloca'}
        if src and n[0] in('resv','lv') and al&src[1] and not al&src[0]: c.bad('%s addParticles'%fm,'the %s reader makes as many particles as another number of the file says'%fm,e[3],'counts')
        elif n[0] in('resv','lv'): c.ok('counts','%s: as many particles as the file says'%fm)
        elif n[0]=='lin' and has(n,lambda y:y[0] in('resv','lv')): c.bad('%s addParticles'%fm,'the %s reader makes %s particles'%(fm,fmt(n)[:80]),e[3],'counts')
        else: c.und('counts','%s reader: number of particles'%fm)
    if len(ap)>1: c.bad('%s addParticles'%fm,'the %s reader adds particles %d times'%(fm,len(ap)),ap[1][3],'counts')

def isna1(x): return x[0]=='lin' and sub(x,('const',-1))!=x and isna(add(x,ONE))
def holds(t,n):
    """a comparison of the component count with a constant, for count n"""
    if t[0]!='cmp': return None
    v=lambda x:x[1] if x[0]=='const' else n if x[0]=='af' and x[1]=='count' else None
    a,b=v(t[2]),v(t[3])
    if a is None or b is None: return None
    return {'eq':a==b,'ne':a!=b,'slt':a<b,'ult':a<b,'sle':a<=b,'ule':a<=b}.get(t[1])
def seq(cc,w):
    """+1: the conditions say some word equals w, -1: differs, 0: not tested"""
    for x,t in streqs(cc,True):
        if x==w: return 1
    for x,t in streqs(cc,False):
        if x==w: return -1
    return 0
def quoting(c,b,strm,loc,rps):
    """the loop that prints a string character by character escapes what the reader treats specially"""
    L=[e for e in b if e[0]=='loop' and any(text(x,strm) for x,_ in walk([e]))]
    if len(L)!=1:
        if any(text(e,strm) and e[2][0]=='sv' for e in b): c.bad('GEO strings unescaped','index strings are printed as they are, quotes and backslashes in them end or change the string that is read back',loc,'strings')
        else: c.und('strings','GEO writer: form of a string')
        return
    outs=[]
    for cc,bb in L[0][2]:
        o=b''.join(e[2][1] if e[2][0]=='lit' else b'\0' for e in bb if text(e,strm));ch=[e[2][1] for e in bb if text(e,strm) and e[2][0]=='chr']
        if any(e[0]=='loop' for e in bb) or any(text(e,strm) and e[2][0] not in('lit','chr') for e in bb): c.und('strings','GEO writer: form of a string');return
        cs=[x[0] for x in cc if x[0][0]=='cmp' and x[0][1] in('eq','ne') and x[0][3][0]=='const' and x[0][3][1]!=0 and x[0][2][0] in('load','in','lv','sext','zext')]
        outs.append((o,cs))
    eqs={t[3][1] for o,cs in outs for t in cs if t[1]=='eq'}
    for v in (92,34,97,32,10):
        ps=[o for o,cs in outs if all((t[3][1]==v)==(t[1]=='eq') for t in cs) and (cs or v not in eqs)]
        if not ps: c.bad('GEO char %d dropped'%v,'character %r of an index string is not printed'%chr(v),L[0][3],'strings');continue
        for o in ps:
            if o in(b'\\\0',): c.ok('strings','GEO: %r is written as an escape'%chr(v))
            elif o==b'\0' and v not in(92,34): c.ok('strings','GEO: %r is written as it is'%chr(v))
            elif o==b'\0': c.bad('GEO char %d'%v,'%r in an index string is printed without a backslash'%chr(v),L[0][3],'strings')
            elif o==b'': c.bad('GEO char %d dropped'%v,'character %r of an index string is not printed'%chr(v),L[0][3],'strings')
            else: c.bad('GEO char %d'%v,'character %r of an index string is printed as %r'%(chr(v),o.replace(b'\0',b'<char>').decode('latin1')),L[0][3],'strings')
def unquoting(c,rs):
    """the reader's loop over a quoted string: backslash takes the next character, a quote ends it, others are kept"""
    seen=0
    for r in rs:
        for e,st in walk(r.ev):
            pass
        def go(ev):
            nonlocal seen
            for e in ev:
                if e[0]!='loop': continue
                k=seen
                for cc,b in e[2]: go(b)
                if seen>k: return
                al=[]
                for cc,b in e[2]:
                    rd=[x for x in b if x[0]=='rd'];ap=[x for x in b if x[0]=='call' and x[1] in('std::basic_string::operator+=','std::basic_string::push_back')]
                    cs=[x[0] for x in cc if x[0][0]=='cmp' and x[0][1] in('eq','ne') and x[0][2][0]=='in' and x[0][3][0]=='const']
                    al.append((rd,ap,cs))
                if not any(t[3][1]==92 for _,_,cs in al for t in cs): continue
                seen+=1
                for rd,ap,cs in al:
                    if not rd: c.und('strings','GEO reader: form of a string');continue
                    first=('in',rd[0][1],ZERO,1)
                    esc=[t for t in cs if t[2]==first and t[3][1]==92]
                    q=[t for t in cs if t[2]==first and t[3][1]==34]
                    if esc and esc[0][1]=='eq':
                        good=len(rd)==2 and len(ap)==1 and ap[0][2][1]==('in',rd[1][1],ZERO,1)
                        c.decide(good,'strings','GEO unescape','the GEO reader does not take the character after a backslash as it is',e[3])
                    elif esc:
                        good=len(rd)==1 and len(ap)==1 and ap[0][2][1]==first and (bool(q) and q[0][1]=='ne')
                        c.decide(good,'strings','GEO characters','the GEO reader does not keep every plain character of a quoted string',e[3])
                return
        go(r.ev)
        if seen: break
    if not seen: c.und('strings','GEO reader: no loop that unescapes')
def geo(c,prog,dv,W,R):
    fm='GEO'
    ws=good(TI(prog,dv).run(W,[('arg',0),('arg',1),('const',0),('null',)]),True)
    rp=TI(prog,dv).run(R,[('arg',0),('const',0),('null',)]);rs=good(rp,False)
    if not ws or not rs: c.und('keywords','GEO: no successful path');return
    strm=stream(ws[0],'Partio::io::write')
    for q in ws: glued(c,fm,q,strm,b'()"\\')
    size=lambda q:sum(1 for _ in walk(q.ev))
    K=consts(rp)
    # ---- header
    for q in ws:
        W1=wl(q.ev,strm)
        for kw,f,what in (('NPoints',isnp,'number of particles'),('NPointAttrib',isna1,'number of attributes besides the position')):
            if kw not in K: c.und('keywords','GEO reader: %s'%kw);continue
            ix=[i for i,x in enumerate(W1) if x==kw.encode()]
            if not c.decide(len(ix)>=1,'keywords','GEO keyword %s'%kw,'the GEO reader waits for %s, which the writer does not write as a word'%kw,W.file): continue
            nx=W1[ix[0]+1] if ix[0]+1<len(W1) else b''
            if isinstance(nx,bytes): c.bad('GEO %s value'%kw,'the GEO writer prints %s after %s'%(nx.decode('latin1'),kw),W.file,'counts')
            elif nx[0]=='tx' and nx[2][0]=='val': c.decide(f(nx[2][1]),'counts','GEO %s'%what,'the GEO writer prints %s as the %s'%(show(nx),what),nx[3])
            else: c.und('counts','GEO writer: %s'%what)
        if 'NPoints' in K and 'NPointAttrib' in K:
            a=[i for i,x in enumerate(W1) if x==b'NPoints'];b=[i for i,x in enumerate(W1) if x==b'NPointAttrib'];l=lineloop(q.ev,strm)
            pl=[i for i,x in enumerate(W1) if not isinstance(x,bytes) and x[0]=='loop' and any(isname(y) for y,_ in walk([x]))]
            if a and b and pl: c.decide(a[0]<b[0]<pl[0],'keywords','GEO header order','the GEO reader needs NPoints, NPointAttrib and the attributes in this order',W.file)
        if 'PointAttrib' in K:
            has_=b'PointAttrib' in W1
            skips=any(not any(seq(s[1],'PointAttrib') for e,st in walk(r.ev) for s in st) and not any(w=='PointAttrib' for w,_ in streqs(r.cond)) for r in rs)
            cs=[x[0] for x in q.cond if x[0][0]=='cmp' and any(isna(y) or isna1(y) for y in x[0][2:4])]
            def val(y,n): return y[1] if y[0]=='const' else n if isna1(y) else n+1 if isna(y) else None
            ns=[]
            for n in range(0,6):
                vs=[(t[1],val(t[2],n),val(t[3],n)) for t in cs]
                if all(x is None or y is None or {'eq':x==y,'ne':x!=y,'slt':x<y,'ult':x<y,'sle':x<=y,'ule':x<=y}.get(o,True) for o,x,y in vs): ns.append(n)
            if any(n>0 for n in ns): c.decide(has_,'keywords','GEO keyword PointAttrib','the GEO reader waits for PointAttrib, which the writer leaves out for %d attributes'%max(ns),W.file)
            if 0 in ns and skips: c.decide(not has_,'keywords','GEO PointAttrib without attributes','the GEO writer prints PointAttrib without attributes, where the reader goes on to the values',W.file)
            elif 0 in ns: c.decide(has_,'keywords','GEO keyword PointAttrib','the GEO reader always waits for PointAttrib, which the writer leaves out',W.file)
    w=max(ws,key=size);r=max(rs,key=size)
    # ---- attribute lines
    nl=lineloop(w.ev,strm);wmap={};rmap={}
    if len(nl)==1 and attrloop(c,fm,nl[0][1],'attributes'):
        L=nl[0][1]
        for cc,b in L[2]:
            pos=seq(cc,'position');T=typeset(cc);ww=wl(b,strm);pp=[e for e in b if e[0]=='pusha']
            if pos==1:
                c.decide(not ww,'attributes','GEO position line','the GEO writer prints a line for the position, which the reader does not expect',L[3]);
                continue
            if pos==0: c.und('attributes','GEO writer: an alternative of the attribute loop');continue
            if not T: continue
            tn='/'.join(TYPES[t] for t in sorted(T))
            if not ww: c.bad('GEO line %s'%tn,'the GEO writer prints no line for %s attributes'%tn,L[3],'attributes');continue
            nm=ww[0]
            if isinstance(nm,bytes) or not isname(nm): c.bad('GEO line %s'%tn,'the line of %s attributes does not start with the name'%tn,L[3],'attributes');continue
            A=nm[2][1][2]
            hp=[e for e in pp if e[2]==A]
            c.decide(len(hp)==1,'attributes','GEO attribute kept','the attribute a line was printed for is kept %d times for the values'%len(hp),L[3])
            n=ww[1] if len(ww)>1 else b''
            if isinstance(n,bytes) or n[0]!='tx' or n[2][0]!='val': c.bad('GEO components %s'%tn,'the GEO writer does not print the number of components after the name',L[3],'attributes');continue
            v=n[2][1]
            while v[0] in('zext','sext'): v=v[1]
            c.decide(v==('af','count',A),'attributes','GEO components','the GEO writer prints %s as the number of components'%show(n),n[3])
            ty=ww[2] if len(ww)>2 else b''
            if not isinstance(ty,bytes):
                c.und('types','GEO writer: type word of %s'%tn);continue
            for t in T: wmap.setdefault(t,set()).add(ty.decode('latin1'))
            rest=ww[3:]
            if ty==b'index':
                m=rest[0] if rest else b''
                if isinstance(m,bytes) or m[0]!='tx' or m[2][0]!='val': c.bad('GEO index count','the GEO writer does not print the number of index strings',L[3],'strings');continue
                sz=m[2][1]
                while sz[0] in('zext','sext','trunc'): sz=sz[1]
                if not(sz[0]=='size' and has(sz,lambda y:y[0]=='call' and 'ndexedStrs' in str(y[1]))):
                    if has(sz,lambda y:y[0]=='call' and 'ndexedStrs' in str(y[1])) or sz[0] in('const','af'): c.bad('GEO index count','the GEO writer prints %s as the number of index strings'%show(m),m[3],'strings')
                    else: c.und('strings','GEO writer: number of index strings')
                    continue
                if len(rest)!=2 or isinstance(rest[1],bytes) or rest[1][0]!='loop': c.bad('GEO index strings','the GEO writer prints something else than the index strings after their number',L[3],'strings');continue
                M=rest[1]
                for a,bb,d in M[1]:
                    if has(('x',)+tuple(x[0] for x in M[2][0][0]),lambda y:y==a): full(c,'GEO index strings','strings','GEO writer, index strings',((M[1],M[2][0][0],M[3],id(M[2][0][1])),),a,lambda x:x==sz,'strings',M[3]);break
                for c2,b2 in M[2]:
                    x=wl(b2,strm)
                    h=[];txt=words(b2,strm,h)
                    t2=re.sub(rb' ?\x01\d+\x02 ?',b'@',txt).strip()
                    if t2 in(b'"@"',b'@'):
                        if t2==b'@': c.bad('GEO strings unquoted','index strings are printed without quotes',M[3],'strings');continue
                        c.ok('strings','GEO: index strings are quoted')
                        quoting(c,b2,strm,M[3],rp)
                    else: c.bad('GEO strings quotes','index strings are printed as %s'%t2.decode('latin1'),M[3],'strings')
            else:
                if len(rest)==1 and not isinstance(rest[0],bytes) and rest[0][0]=='loop':
                    M=rest[0]
                    for c2,b2 in M[2]:
                        x=wl(b2,strm)
                        num=len(x)==1 and (re.match(rb'-?[0-9.]+$',x[0]) if isinstance(x[0],bytes) else x[0][0]=='tx' and x[0][2][0]=='val')
                        c.decide(bool(num),'attributes','GEO default values','the GEO writer prints %d words per default value'%len(x),M[3])
                    for a,bb,d in M[1]:
                        if ivof(((M[1],M[2][0][0],M[3],id(M[2][0][1])),),a) and cond(M[2][0][0],a): full(c,'GEO default values','attributes','GEO writer, default values',((M[1],M[2][0][0],M[3],id(M[2][0][1])),),a,lambda x:x==v,'components',M[3]);break
                elif rest and all(isinstance(x,bytes) or x[0]=='tx' for x in rest) or not rest: c.bad('GEO default values','the GEO writer prints %d default values whatever the number of components'%len(rest),L[3],'attributes')
                else: c.und('attributes','GEO writer: default values')
    else: c.und('attributes','GEO writer: %d loops that print names'%len(nl)) if len(nl)!=1 else None
    # ---- the reader's attribute lines
    RL=None
    for e in r.ev:
        if e[0]=='loop' and any(x[0]=='call' and x[1].endswith('::addAttribute') for cc,b in e[2] for x in b): RL=e
    if RL is None: c.und('attributes','GEO reader: no loop that adds attributes')
    else:
        for cc,b in RL[2]:
            ad=[e for e in b if e[0]=='call' and e[1].endswith('::addAttribute')]
            if len(ad)!=1: continue
            n,t,k=ad[0][2][-3:]
            pos=[x for x,_ in streqs(cc,True)]
            tks=[e for e in b if e[0]=='tk'];lead=[]
            for e in b:
                if e[0]=='loop' or e is ad[0]: break
                if e[0]=='tk': lead.append(e)
            if [e[2] for e in lead[:3]]!=['str','int','str']:
                c.und('attributes','GEO reader: order of name, count and type');continue
            if n[0]=='chars': c.decide(n[1]==lead[0][1],'attributes','GEO reader name','the GEO reader names the attribute after another word than the first of its line',ad[0][3])
            else: c.und('attributes','GEO reader: name')
            src=[y for y in subt(k) if y[0]=='alloca']
            if k[0]=='const': c.bad('GEO reader components','the GEO reader makes attributes of %d components whatever the file says'%k[1],ad[0][3],'attributes');continue
            if k[0] in('resv','lv'): c.decide(lead[1][1] in src,'attributes','GEO reader components','the GEO reader takes the number of components from another word than the second',ad[0][3])
            elif k[0]=='lin': c.bad('GEO reader components','the GEO reader makes attributes of %s components'%fmt(k)[:60],ad[0][3],'attributes')
            else: c.und('attributes','GEO reader: number of components')
            if t[0]!='const': c.und('types','GEO reader: type');continue
            for x in pos: rmap.setdefault(x,set()).add(t[1])
            pp=[e for e in b if e[0]=='pusha' and e[2][0]=='added']
            c.decide(len(pp)==1,'attributes','GEO reader keeps','the GEO reader keeps the attribute of a line %d times for the values'%len(pp),RL[3])
            lps=[e for e in b if e[0]=='loop']
            if 'index' in pos:
                if len(lead)!=4 or lead[3][2]!='int': c.bad('GEO reader index count','the GEO reader takes %d words before the index strings, 4 are written'%len(lead),RL[3],'strings');continue
                ml=[e for e in lps if any(x[0]=='call' and x[1].endswith('::registerIndexedStr') for x,_ in walk([e]))]
                if len(ml)!=1: c.und('strings','GEO reader: index strings');continue
                M=ml[0];cc2=M[2][0][0]
                for a,bb,d in M[1]:
                    if cond(cc2,a): full(c,'GEO reader index strings','strings','GEO reader, index strings',((M[1],cc2,M[3],id(M[2][0][1])),),a,lambda x:x[0] in('resv','lv') and lead[3][1] in list(subt(x)),'strings',M[3]);break
            else:
                if not t[1]: continue
                ml=[e for e in lps if any(x[0]=='tk' for x,_ in walk([e]))]
                if len(ml)!=1:
                    c.bad('GEO reader default values','the GEO reader takes the default values in %d loops'%len(ml),RL[3],'attributes') if not ml else c.und('attributes','GEO reader: default values');continue
                M=ml[0];cc2=M[2][0][0]
                for a,bb,d in M[1]:
                    if cond(cc2,a): full(c,'GEO reader default values','attributes','GEO reader, default values',((M[1],cc2,M[3],id(M[2][0][1])),),a,lambda x:x[0] in('resv','lv') and lead[1][1] in list(subt(x)),'components',M[3]);break
                for c2,b2 in M[2]: c.decide(sum(1 for e in b2 if e[0]=='tk')==1,'attributes','GEO reader default values','the GEO reader takes %d words per default value'%sum(1 for e in b2 if e[0]=='tk'),M[3])
        unquoting(c,[r])
    for t in (1,2,3,4):
        for l in sorted(wmap.get(t,())):
            if not rmap: break
            if l not in rmap: c.bad('GEO type %s'%TYPES[t],'the GEO writer prints %s for %s, which the reader does not know'%(l,TYPES[t]),W.file,'types')
            else: c.decide(rmap[l]=={t},'types','GEO type %s'%TYPES[t],'%s attributes are written as %s and read back as %s'%(TYPES[t],l,'/'.join(TYPES.get(x,str(x)) for x in sorted(rmap[l]))),R.file)
    # ---- values
    values(c,fm,'writer',w.ev,wocc(strm),{1,2,3,4},isnp,W.file)
    reads={};fillreads(r,reads)
    values(c,fm,'reader',r.ev,rocc(reads),{1,2,3,4},lambda x:x[0]=='resv' or isnp(x),R.file)
    src=(set(),set())
    for q in rs:
        for e in q.ev:
            if e[0]=='loop':
                for cc,b in e[2]:
                    for x in b:
                        if x[0]=='tk' and x[2]!='str' and x[1][0]=='alloca': src[0 if seq(cc,'NPoints')==1 else 1].add(x[1])
            elif e[0]=='tk' and e[2]!='str' and e[1][0]=='alloca': src[1].add(e[1])
    npread(c,fm,r,reads,src if src[0] else None)
    npconst(c,fm,rs)
    # ---- the particle lines: position, 1, ( values )
    def shape(ev,strm):
        """per alternative of the particle loop: words before the attribute values, after them"""
        out=[]
        for e in ev:
            if e[0]!='loop': continue
            for cc,b in e[2]:
                if strm is not None:
                    ww=wl(b,strm)
                    if not any(not isinstance(x,bytes) and x[0]=='tx' and wocc(strm)(x) for x in ww): continue
                    out.append((cc,b,ww,e[3]))
                elif any(x[0]=='tk' and any(has(x[1],lambda y:y==a) for a,_,_ in e[1]) for x in b): continue
                elif any(x[0]=='tk' and x[1][0]=='at' and x[1][1][0]=='data' and elemof(x[1][1][1]) is None for x,_ in walk(b)): out.append((cc,b,None,e[3]))
        return out
    def empty(cc):
        for x in cc:
            t=x[0]
            if t[0]=='cmp' and t[2][0]=='size' and t[3]==ZERO: 
                if t[1]=='eq': return True
                if t[1]=='ne': return False
            if t[0]=='cmp' and t[2]==ZERO and t[3][0]=='size' and t[1]=='ult': return False
        return None
    form={}
    for cc,b,ww,loc in shape(w.ev,strm):
        pre=[];post=[];inner=0
        for x in ww:
            if not isinstance(x,bytes) and x[0]=='loop': inner+=1
            elif inner: post.append(x)
            else: pre.append(x)
        vals=[x for x in pre if not isinstance(x,bytes)]
        ad=[wocc(strm)(x) for x in vals]
        if any(a is None for a in ad): c.und('position','GEO writer: position');continue
        bs=[(a[0][1],a[0][2]) if a[0][0]=='at' else (a[0],ZERO) for a in ad]
        o=[x[1] for x in bs];d=[sub(x,o[0]) for x in o]
        if len(bs)>=3:
            same=len({x[0] for x in bs})==1 or all(x[0][0]!='data' for x in bs)
            if all(x[0]=='const' for x in d): c.decide([x[1] for x in d]==[0,4,8] and (o[0]==ZERO or o[0][0]!='const'),'position','GEO position','the components of the position are printed from bytes %s'%', '.join(fmt(x) for x in o),loc)
            else: c.und('position','GEO writer: components of the position')
        else: c.bad('GEO position','the GEO writer prints %d components of the position'%len(bs),loc,'position')
        em=empty(cc)
        form.setdefault('w',[]).append((em,len([x for x in pre if x not in(b'(',)]),pre.count(b'('),post.count(b')'),inner,loc))
    for cc,b,ww,loc in shape(r.ev,None):
        n=0;p1=p2=inner=0
        for e in b:
            if e[0]=='loop':
                m=[x for x,_ in walk([e]) if x[0]=='tk']
                if not m: continue
                if any(x[1][0]=='at' and x[1][1][0]=='data' and elemof(x[1][1][1]) is None for x in m):
                    cc2=e[2][0][0];k=None
                    for a,bb,d in e[1]:
                        bd=cond(cc2,a)
                        if bd and bd[0][0]=='const' and bb==ZERO and d==ONE: k=bd[0][1]
                        if bd and m[0][1][2]!=scale(a,4): c.bad('GEO reader position','component i of the position is read to byte %s'%fmt(m[0][1][2]),e[3],'position')
                    if k is None: n=None;break
                    c.decide(k==3,'position','GEO reader position','the GEO reader takes %d components of the position'%k,e[3]);n+=k
                else: inner+=1
            elif e[0]=='tk':
                if e[2]=='chr':
                    if inner: p2+=1
                    else: p1+=1
                else: n+=1
        if n is None: c.und('position','GEO reader: position');continue
        em=empty(cc);form.setdefault('r',[]).append((em,n,p1,p2,inner,loc))
    for em in (True,False):
        a={x[1:4] if em is False else x[1:3] for x in form.get('w',[]) if x[0] in(em,None) and (em or x[4])};b={x[1:4] if em is False else x[1:3] for x in form.get('r',[]) if x[0] in(em,None) and (em or x[4])}
        if len(a)==1 and len(b)==1:
            x,y=a.pop(),b.pop()
            c.decide(x==y,'position','GEO particle line %s'%('without attributes' if em else 'with attributes'),'the GEO writer prints %d numbers and %s parentheses for a particle, the reader takes %d and %s'%(x[0],x[1:],y[0],y[1:]),form['w'][0][5])
        else: c.und('position','GEO: form of the particle lines %s attributes'%('without' if em else 'with'))

def run(c):
    c.rule('the text a writer prints, as a regular structure of words and values, is compared with the words and values its reader takes from the stream')
    c.assume.append('attribute names contain no white space; numbers are compared as places, not as decimal text; streams do not fail')
    prog=c.view('inl',noinline=[r'Partio::(read|write)_buffer\('])
    dv=devirt(prog)
    for fm,f in (('PDA',pda),('GEO',geo)):
        W,R=entry(prog,'Partio::write'+fm),entry(prog,'Partio::read'+fm)
        if W is None or R is None: c.und('keywords','%s: writer or reader not found'%fm);continue
        c.touch(W);c.touch(R)
        try: f(c,prog,dv,W,R)
        except (Und,TooMany) as x: c.und('keywords','%s: %s'%(fm,x))
    c.need('keywords',1)
