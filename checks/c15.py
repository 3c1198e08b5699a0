"""C15: what merge leaves in the base set."""
from obj import *
import c11
from c14 import short,iscall,strip,counted,loops,calls,Fn,tri,bound,root,unknown,isfield,res,STR

def tv(x,A):
    """three-valued truth of a condition under an assignment {call-number-free term: value}"""
    v=val(x,A)
    return None if v is None else bool(v)
def val(x,A):
    if x[0]=='const': return x[1]
    if x[0]=='null': return 0
    s=strip(x)
    if s in A: return A[s]
    if x[0]=='not':
        v=val(x[1],A);return None if v is None else int(not v)
    if x[0]=='alt':
        vs=set()
        for g,v in A['alts'][x[1]]:
            if not feasible(g,A): continue
            vs.add(val(v,A))
        return vs.pop() if len(vs)==1 else None
    if x[0]=='cmp':
        a,b=val(x[2],A),val(x[3],A)
        if a is None or b is None: return None
        return int({'eq':a==b,'ne':a!=b,'slt':a<b,'sle':a<=b,'ult':a<b,'ule':a<=b}[x[1]])
    if x[0] in('xor','and','or'):
        a,b=val(x[1],A),val(x[2],A)
        if x[0]=='and' and 0 in(a,b): return 0
        if a is None or b is None: return None
        return {'xor':a^b,'and':a&b,'or':a|b}[x[0]]
    if x[0]=='lin':
        t=x[1]
        for k,n in x[2]:
            v=val(k,A)
            if v is None: return None
            t+=v*n
        return t
    return None
def consistent(conds,A):
    return not any(tv(x,A) is False for x in conds)
def feasible(g,A):
    """some path with these guards can run: the guards hold, and of every earlier join some branch can"""
    if not consistent(g,A): return False
    for t in A.get('tails',{}).get(g,()):
        for e in t:
            if e[0]=='join' and not any(feasible(g2,A) for g2,_ in e[1]): return False
    return True
def tails(ev,out):
    for e in ev:
        if e[0]=='join':
            for g,t in e[1]: out.setdefault(g,[]).append(t);tails(t,out)
    return out
def field(r,rel): return strip(res(r))[:1]+(rel,)+strip(res(r))[2:]
def infoof(v,set_,names):
    return v is not None and v[0]=='res' and short(v[1]) in names and v[2] and v[2][0]==set_
def nameof(a): return ('chars',('fld',a,'name'))
def pairval(e):
    """(first, second) of a pushed pair of attributes"""
    v=e[2]
    if v[0]!='val': return None
    d=dict(v[2]);a=d.get('*');b=[x for k,x in d.items() if k!='*' and k.endswith('.*')]
    if a is None or len(b)!=1 or a[0]!='res' or b[0][0]!='res': return None
    k=[k for k in d if k!='*' and k.endswith('.*')][0]
    return a,b[0],k[:-2]
PK={'add':'addAttribute','info':'attributeInfo','num':'numAttributes'}
FK={'add':'addFixedAttribute','info':'fixedAttributeInfo','num':'numFixedAttributes'}
BASE=('arg',0);DELTA=('arg',1)

def run(c):
    c.rule('the loops of merge are matched against their contract, path by path of one generic iteration: attributes and fixed attributes only the delta has are added with its name, type and count; pairs of the same name are copied exactly when count and type agree; tokens go through the index the base gives the string; every delta particle updates the base particle with its identifiers or a new one, whose other attributes are set to zero')
    prog=c.view('inl')
    ts=c11.typesize(c,prog);N=c11.Norm(ts)
    fs=[f for f in prog.fns if f.short=='Partio::merge']
    if len(fs)!=1: c.und('attributes','merge not found');return
    F=Fn(c,prog,fs[0]);f=fs[0]
    if F.ps is None: c.und('attributes','merge has too many paths');return
    ps=[p for p in F.ps if p.end==('ret',)]
    for p in ps:
        M=Merge(c,F,p,N)
        M.attributes();M.fixed();M.strings();M.particles()
    c.need('attributes',3)

class Merge(object):
    def __init__(s,c,F,p,N):
        s.c=c;s.F=F;s.p=p;s.N=N;s.it=F.it
        s.loops=[(l,g) for l,g in loops(p.ev)]
        s.top=[l for l in p.ev if l[0]=='loop']+[l for e in p.ev if e[0]=='join' for g,t in e[1] for l in t if l[0]=='loop']
        s.tails=tails(p.ev,{});s.V=s.W=s.U=None;s.second=None
    def und(s,kind,what): s.c.und(kind,what)
    def A(s,**kw): return dict(kw,alts=s.it.alts,tails=s.tails)
    # ---- which attributes
    def attributes(s):
        c=s.c;pushes=[];s.W=None
        for l in s.top:
            for conds,ev in l[2]:
                for e in ev:
                    if e[0]=='push' and pairval(e): pushes.append((l,[x for x,_ in conds],ev,e))
        vs=set(e[1] for _,_,_,e in pushes)
        if len(vs)!=1: s.und('attributes','pairs of attributes to copy are not collected in one vector');
        else:
            s.V=vs.pop();s.second=pairval(pushes[0][3])[2]
            ws=set(w[1] for _,_,ev,_ in pushes for w in ev if w[0]=='push' and w[1]!=s.V and w[2][0] in('size','lin'))
            if len(ws)==1: s.W=ws.pop()
        addl=[l for l in s.top if any(iscall(e,PK['add'],BASE) is not None for cc,b in l[2] for e in b if e[0]=='call')]
        if not any(iscall(e,PK['add'],BASE) is not None for e in calls(s.p.ev)):
            c.bad('attributes of the delta','merge adds no attributes the base lacks',s.F.loc,'attributes')
        elif len(addl)==1: s.added(addl[0],PK,'attributes')
        else: s.und('attributes','attributes added in %d loops'%len(addl))
        common=[l for l in s.top if l not in addl and any(x[0] is l for x in pushes)]
        if s.V is None: return
        if not common: c.bad('attributes of both','merge copies no attribute that both sets have',s.F.loc,'attributes');return
        if len(common)>1: s.und('attributes','common attributes in %d loops'%len(common));return
        l=common[0]
        pr=[pairval(e) for cc,b in l[2] for e in b if e[0]=='push' and e[1]==s.V]
        a,b,_=pr[0]
        src=BASE if infoof(a,BASE,('attributeInfo',)) and len(a[2])>1 and a[2][1][0]=='iv' else DELTA if infoof(b,DELTA,('attributeInfo',)) and len(b[2])>1 and b[2][1][0]=='iv' else None
        if src is None: s.und('attributes','pairs come from elsewhere');return
        iv=bound(c,'attributes','all common attributes',l,lambda q:q[0]=='call' and short(q[1])=='numAttributes' and q[2]==(src,),'the loop over the common attributes',l[3],s.it)
        for x,y,_ in pr:
            it1=x if src==BASE else y;o=y if src==BASE else x
            oset=DELTA if src==BASE else BASE
            tri(c,infoof(x,BASE,('attributeInfo',)) and infoof(y,DELTA,('attributeInfo',)),infoof(x,DELTA,('attributeInfo',)) or infoof(y,BASE,('attributeInfo',)),'attributes','pair sides','merge pairs the attributes of the wrong sets',l[3])
            tri(c,it1[2][1]==iv,it1[2][1][0]=='const','attributes','pair index','merge pairs attribute %s every time'%fmt(it1[2][1]),l[3])
            own=('fld',it1[2][-1],'name')
            tri(c,o[2][1]==('chars',own),o[2][1][0] in('iv','const','str') or o[2][1][0]=='chars' and o[2][1][1][0]=='fld' and o[2][1][1][1][0]=='alloca','attributes','pair names','merge pairs attributes of different names: %s'%fmt(o[2][1])[:80],l[3])
        s.table(l,pr[0],lambda ev:[e for e in ev if e[0]=='push' and e[1]==s.V],'attributes','pairs',l[3])
        # string attributes are noted for translation
        s.note(l,pr[0][0])
        us=set(e[1] for cc,bb in l[2] for e in bb if e[0]=='push' and e[1]!=s.V and e[2][0]=='val' and dict(e[2][2]).get('*')==pr[0][0])
        if len(us)==1:
            s.U=us.pop()
            for cc,bb in l[2]:
                n=sum(1 for e in bb if e[0]=='push' and e[1]==s.V);m=sum(1 for e in bb if e[0]=='push' and e[1]==s.U)
                if src==BASE: c.decide(n or m,'attributes','unpaired attributes are noted','merge forgets a base attribute the delta lacks',l[3],[fmt(x[0])[:100] for x in cc])
    def table(s,l,pr,took,kind,key,loc):
        """over the types and counts of both sides: exactly the pairs of the same layout are taken"""
        c=s.c;a,b,_=pr
        ta,ca=strip(res(a)),strip(('resv','count')+a);tb,cb=strip(res(b)),strip(('resv','count')+b)
        found=('call',b[1] if b[2][1][0]=='chars' else a[1],strip((b if b[2][1][0]=='chars' else a)[2]))
        bad=[];undec=[];n=0
        np=[{strip(t):k for cc,_ in l[2] for q,_l in cc for t in subterms(q) if t[0]=='call' and short(t[1])=='numParticles'} for k in(5,0)]
        for x in range(5):
            for y in range(5):
                for eq in(3,2,4):
                    for have in(1,0):
                      for more in np if np[0] else ({},):
                        A=s.A();A.update(more);A.update({ta:x,tb:y,ca:3,cb:eq,found:have})
                        want=bool(have and eq==3 and (x==y or x in(1,2) and y in(1,2)))
                        got=set()
                        for cc,ev in l[2]:
                            if consistent([q for q,_ in cc],A): got.add(bool(took(ev)))
                        n+=1
                        if got=={want}: continue
                        if got=={not want}: bad.append((x,y,eq,have,want))
                        else: undec.append((x,y,eq,have))
        if bad:
            x,y,eq,have,want=bad[0]
            T=['NONE','VECTOR','FLOAT','INT','INDEXEDSTR']
            c.bad(key+' of the same layout','merge %s a %s attribute%s onto a %s one%s'%('does not copy' if want else 'copies',T[y],'' if have else ' the other set does not have',T[x],' of the same count' if eq==3 else ' of another count'),loc,kind)
        elif undec: s.und(kind,key+': %d of %d layouts'%(len(undec),n))
        else: c.ok(kind,key+': %d layouts'%n)
    def note(s,l,a):
        """an INDEXEDSTR pair's position in V is noted in W"""
        c=s.c;ta=strip(res(a))
        for cc,ev in l[2]:
            pv=[k for k,e in enumerate(ev) if e[0]=='push' and e[1]==s.V]
            if not pv: continue
            ws=[(k,e) for k,e in enumerate(ev) if e[0]=='push' and e[1]!=s.V and e[2][0] in('size','lin','const')]
            A=s.A();A[ta]=4;isS=consistent([x for x,_ in cc],A)
            A[ta]=3;other=consistent([x for x,_ in cc],A);A[ta]=2;other=other or consistent([x for x,_ in cc],A)
            if ws:
                k,e=ws[0];want=('size',s.V) if k<pv[0] else None
                if s.W is None: s.W=e[1]
                got=strip(e[2])
                good=got==('size',s.V) or k>pv[0] and got==strip(e[2]) and e[2]==ev[pv[0]][3]
                tri(c,(k<pv[0] or e[2]==ev[pv[0]][3]) and good and s.W==e[1],got[0] in('lin','const','size'),'attributes','string attribute noted','merge notes attribute %s instead of the pair it is adding'%fmt(got),e[4])
            elif isS and not other and s.W is not None: c.bad('string attribute noted','merge does not translate the strings of some attribute',l[3],'attributes',[fmt(x)[:100] for x,_ in cc])
            elif isS and other and s.W is not None:
                tri(c,False,not any(e[0] in('join','loop') for e in ev[:pv[0]]) and not any(short(e[1])=='registerIndexedStr' for e in calls(ev)),'attributes','string attribute noted','merge does not translate the strings of some attribute',l[3],[fmt(x)[:100] for x,_ in cc])
    def added(s,l,K,kind):
        c=s.c;loc=l[3]
        iv=bound(c,kind,'all %s of the delta'%kind,l,lambda b:b[0]=='call' and short(b[1])==K['num'] and b[2]==(DELTA,),'the loop over the %s of the delta'%kind,loc,s.it)
        for cc,ev in l[2]:
            cs=[x for x,_ in cc]
            q=[(x,True) for x in cs if x[0]=='call' and short(x[1])==K['info'] and x[2][0]==BASE]+[(x[1],False) for x in cs if x[0]=='not' and x[1][0]=='call' and short(x[1][1])==K['info'] and x[1][2][0]==BASE]
            ad=[e for e in ev if iscall(e,K['add'],BASE) is not None]
            if not q:
                if ad: tri(c,False,not any(e[0] in('loop','join') for e in ev[:ev.index(ad[0])]) and not any(x[0] in('present','not') for x in cs),kind,'new %s'%kind,'merge adds %s without looking whether the base has them'%kind,ad[0][3])
                continue
            x,have=q[0]
            own=x[2][1]
            if have:
                c.decide(not ad,kind,'%s of both are not added'%kind,'merge adds %s the base already has'%kind,loc);continue
            if not ad: c.bad('new %s'%kind,'merge leaves out some %s only the delta has'%kind,loc,kind,[fmt(y)[:100] for y in cs]);continue
            if len(ad)>1: s.und(kind,'several additions');continue
            a=iscall(ad[0],K['add'],BASE);nm,ty,ct=a[0],a[1],a[2]
            r=ty[2:] if ty[0]=='resv' else ct[2:] if ct[0]=='resv' else None
            if r is None or not infoof(r,DELTA,(K['info'],)): tri(c,False,ty[0]=='const' or ct[0]=='const' or r is not None and r[2][0]==BASE,kind,'new %s layout'%kind,'merge adds %s of type %s and count %s'%(kind,fmt(ty)[:50],fmt(ct)[:50]),ad[0][3]);continue
            tri(c,r[2][1]==iv,r[2][1][0]=='const',kind,'new %s index'%kind,'merge adds attribute %s each time'%fmt(r[2][1]),ad[0][3])
            tri(c,isfield(ty,'',r) or isfield(ty,'type',r),ty[0] in('const','resv'),kind,'new %s type'%kind,'merge adds %s with type %s'%(kind,fmt(ty)[:60]),ad[0][3])
            tri(c,isfield(ct,'count',r),ct[0] in('const','resv','lin'),kind,'new %s count'%kind,'merge adds %s with count %s'%(kind,fmt(ct)[:60]),ad[0][3])
            me=nameof(r[2][-1])
            tri(c,nm==me and own==me,nm[0]=='str' or nm[0]=='chars' and nm[1][0]=='fld' and nm!=me or own[0]=='chars' and own[1][0]=='fld' and own!=me,kind,'new %s name'%kind,'merge looks for %s and adds %s'%(fmt(own)[:50],fmt(nm)[:50]),ad[0][3])
            ar=('res',ad[0][1])
            if K is PK:
                if s.V is None: continue
                pv=[e for e in ev if e[0]=='push' and e[1]==s.V]
                if not pv: c.bad('new attributes values','merge does not copy the values of an attribute it adds',ad[0][3],kind,[fmt(y)[:100] for y in cs]);continue
                pr=pairval(pv[0])
                tri(c,pr and short(pr[0][1])==K['add'] and pr[1]==r,pr is not None,kind,'new attributes pair','merge pairs an added attribute with another one',pv[0][4])
                if pr: s.note((l[0],l[1],[(cc,ev)],l[3]),pr[0]);s.default(ev,pr[0],ad[0])
            else: s.fixedcopy(ev,cs,ad[0],None,r,'new fixed attributes')
    def zero(s,what,m,dst_ok,cnt):
        """a memcpy of zeroes over a whole value"""
        P=s.N.poly(m[3])
        ok=len(P)==1 and all(k==s.N.ts and len(t)==1 and cnt(t[0]) for t,k in P.items())
        tri(s.c,ok and dst_ok,not dst_ok or all(all(cnt(x) for x in t) for t in P),'default value',what,'merge sets %s bytes of a default value'%c11.pfmt(P)[:80],m[4])
        src=root(m[2])
        if src[0]=='alloca':
            n=[e for e in s.vnews if e[1]==src]
            if n:
                P=s.N.poly(strip(m[3]));sz=s.N.poly(strip(n[-1][2]))
                tri(s.c,any(s.N.poly(strip(x[2]))==P for x in n),all(all(x[0]!='unk' for x in t) for t in sz),'default value',what+' size','merge copies %s bytes out of a buffer of %s'%(c11.pfmt(P)[:60],c11.pfmt(sz)[:60]),m[4])
            else: tri(s.c,False,s.isarr(src),'default value',what+' size','merge copies a value of any size out of a buffer of fixed size',m[4])
    def isarr(s,a): return bool(re.match(r'^(\[\d+ x [\w ]+\]|i\d+)$',s.it.aty.get(a,'')))
    @property
    def vnews(s):
        out=[]
        def w(ev):
            for e in ev:
                if e[0]=='vnew': out.append(e)
                elif e[0]=='loop':
                    for cc,b in e[2]: w(b)
                elif e[0]=='join':
                    for g,t in e[1]: w(t)
        w(s.p.ev);return out
    def default(s,ev,a,addev):
        """the particles the base already has get a zero value"""
        c=s.c
        ls=[l for l in ev if l[0]=='loop' and any(e[0]=='memcpy' and root(e[1])[0]=='call' and short(root(e[1])[1])=='dataInternal' and root(e[1])[2][0]==BASE for cc,b in l[2] for e in b)]
        if not ls:
            if any(e[0]=='call' and len(e)>5 and not e[1].startswith('std::') and not short(e[1]) in('addAttribute','attributeInfo') for e in ev) or any(e[0]=='loop' for e in ev): s.und('default value','default of new attributes')
            else: c.bad('default of new attributes','merge leaves an added attribute of the particles of the base undefined',addev[3],'default value')
            return
        l=ls[0]
        j=bound(c,'default value','default for all particles',l,lambda b:b[0]=='call' and short(b[1])=='numParticles' and b[2]==(BASE,),'the loop setting the default',l[3],s.it)
        for cc,b in l[2]:
            m=[e for e in b if e[0]=='memcpy']
            if not m: continue
            d=root(m[0][1])
            s.zero('default of new attributes',m[0],d[2][-1]==j,lambda t:t[0]=='resv' and t[1]=='count')
    # ---- fixed attributes
    def fixed(s):
        c=s.c
        addl=[l for l in s.top if any(iscall(e,FK['add'],BASE) is not None for cc,b in l[2] for e in b if e[0]=='call')]
        if not any(iscall(e,FK['add'],BASE) is not None for e in calls(s.p.ev)): c.bad('new fixed attributes','merge adds no fixed attributes the base lacks',s.F.loc,'fixed attributes')
        elif len(addl)==1: s.added(addl[0],FK,'fixed attributes')
        else: s.und('fixed attributes','fixed attributes added in %d loops'%len(addl))
        ov=[l for l in s.top if l not in addl and any(e[0]=='call' and short(e[1])=='fixedDataInternal' and e[2][0]==BASE for e in calls([l]))]
        if not ov:
            if any(short(e[1]) in('setFixed','fixedDataInternal') and e[2][0]==BASE for l in s.top if l not in addl for e in calls([l])) : s.und('fixed attributes','override')
            else: c.bad('fixed attributes of both','merge does not take over the fixed attributes both sets have',s.F.loc,'fixed attributes')
            return
        if len(ov)>1: s.und('fixed attributes','override loops');return
        l=ov[0]
        # the two attributes
        pr=None
        for cc,ev in l[2]:
            i=[e for e in ev if e[0]=='call' and short(e[1])=='fixedAttributeInfo']
            b=[e for e in i if e[2][0]==BASE];d=[e for e in i if e[2][0]==DELTA]
            if b and d: pr=(('res',b[0][1],b[0][2],0),('res',d[0][1],d[0][2],0));break
        if pr is None: s.und('fixed attributes','override attributes');return
        def resnum(r):
            for cc,ev in l[2]:
                for x,_ in cc:
                    for t in subterms(x):
                        if t[0]=='resv' and t[3]==r[1] and t[4]==r[2]: return t[2:]
            return r
        a,b=resnum(pr[0]),resnum(pr[1])
        src=BASE if a[2][1][0]=='iv' else DELTA if b[2][1][0]=='iv' else None
        if src is None: s.und('fixed attributes','override loop');return
        it1,o=(a,b) if src==BASE else (b,a)
        iv=bound(c,'fixed attributes','all common fixed attributes',l,lambda q:q[0]=='call' and short(q[1])=='numFixedAttributes' and q[2]==(src,),'the loop over the common fixed attributes',l[3],s.it)
        tri(c,o[2][1]==nameof(it1[2][-1]),o[2][1][0] in('iv','const','str'),'fixed attributes','fixed pair names','merge pairs fixed attributes of different names',l[3])
        took=lambda ev:[e for e in calls(ev) if short(e[1])=='fixedDataInternal' and e[2][0]==BASE]
        s.table(l,(a,b,''),took,'fixed attributes','fixed pairs',l[3])
        for cc,ev in l[2]:
            if took(ev): s.fixedcopy(ev,[x for x,_ in cc],None,a,b,'common fixed attributes')
    def fixedcopy(s,ev,cs,addev,rb,rd,who):
        """fixed value of rd (delta) goes to the base attribute"""
        c=s.c;F=s.F
        def side(e,a):
            v=F.attr(e,a)
            if v is None: return None
            if v==rd: return 'd'
            if addev is not None and short(v[1])==FK['add'] or rb is not None and v==rb: return 'b'
            return 'x'
        tys=[strip(res(rd))]
        if rb is not None: tys.append(strip(res(rb)))
        for x in cs:
            for t in subterms(x):
                if t[0]=='resv' and t[1] in('','type') and short(t[3])==FK['add']: tys.append(strip(t))
        isS=consistent(cs,s.A(**{}) | {t:4 for t in tys});isN=any(consistent(cs,s.A() | {t:k for t in tys}) for k in(2,3))
        cp=[e for e in ev if e[0]=='memcpy' and root(e[1])[0]=='call' and short(root(e[1])[1])=='fixedDataInternal' and root(e[1])[2][0]==BASE]
        regs=[(e,l) for l in ev if l[0]=='loop' for cc,b in l[2] for e in b if e[0]=='call' and iscall(e,'registerFixedIndexedStr',BASE) is not None]
        if not cp and not any(e[0]=='loop' for e in ev):
            if any(x[0]=='cmp' and x[1]=='eq' and x[3][0]=='null' for x in cs): return
            c.bad(who+' value','merge does not copy the value of %s'%who,s.F.loc,'fixed attributes',[fmt(x)[:100] for x in cs]);return
        if cp and isS and not isN: c.bad(who+' tokens','merge copies the tokens of %s without translating them'%who,cp[0][4],'fixed attributes');return
        if cp and isS and isN and not regs: c.bad(who+' tokens','merge copies the tokens of string %s without translating them'%who,cp[0][4],'fixed attributes');return
        cnt=lambda t:t[0]=='resv' and t[1]=='count'
        for e in cp:
            d,sr=root(e[1]),e[2];de=[x for x in ev if x[0]=='call' and x[4]==d];se=[x for x in ev if x[0]=='call' and x[4]==sr]
            tri(c,sr[0]=='call' and short(sr[1])=='fixedDataInternal' and sr[2][0]==DELTA,sr[0]=='call' and sr[2] and sr[2][0]==BASE,'fixed attributes',who+' source','merge copies %s from %s'%(who,fmt(sr)[:60]),e[4])
            if de and se:
                x,y=side(de[0],de[0][2][1]),side(se[0],se[0][2][1])
                tri(c,x=='b' and y=='d',x is not None and y is not None,'fixed attributes',who+' attributes','merge copies another fixed attribute',e[4])
            P=s.N.poly(e[3])
            tri(c,len(P)==1 and all(k==s.N.ts and len(m)==1 and cnt(m[0]) for m,k in P.items()),all(all(cnt(x) for x in m) for m in P),'fixed attributes',who+' whole value','merge copies %s bytes of %s'%(c11.pfmt(P)[:80],who),e[4])
        if isS and not isN:
            if not regs: c.bad(who+' strings','merge does not register the strings of %s'%who,s.F.loc,'fixed attributes');return
            e,l=regs[0];a=iscall(e,'registerFixedIndexedStr',BASE)
            sv=bound(c,'fixed attributes',who+' all strings',l,lambda b:b[0]=='size' and b[1][0]=='call' and short(b[1][1])=='fixedIndexedStrs' and b[1][2][0]==DELTA,'the loop over the strings of %s'%who,l[3],s.it)
            st=a[1][1] if a[1][0]=='chars' else a[1]
            tri(c,st[0]=='elem' and st[2]==sv and st[1][0]=='call' and short(st[1][1])=='fixedIndexedStrs' and st[1][2][0]==DELTA,st[0]=='elem' and sv is not None and not unknown(st[2]),'fixed attributes',who+' strings in order','merge registers %s'%fmt(a[1])[:80],e[3])
            push=[x for cc,b in l[2] for x in b if x[0]=='push' and x[2]==e[4]]
            T=push[0][1] if push else None
            for l2 in ev:
                if l2[0]!='loop' or l2 is l: continue
                k=counted(l2)
                for cc,b in l2[2]:
                    for w in b:
                        if w[0]!='store' or root(w[1])[0]!='call' or short(root(w[1])[1])!='fixedDataInternal': continue
                        if k is None: s.und('fixed attributes',who+' token loop');continue
                        bound(c,'fixed attributes',who+' all components',l2,lambda b:b[0]=='resv' and b[1]=='count','the loop over the components of %s'%who,l2[3],s.it)
                        v=strip(w[2]);a_=w[1]
                        tri(c,a_[0]=='idx' and a_[2]==k[0] and a_[3]==4,a_[0]=='idx' and not unknown(a_[2]),'fixed attributes',who+' token place','merge stores a token at %s'%fmt(a_)[:60],w[3])
                        isv=lambda t:t[0]=='load' and t[1][0]=='idx' and t[1][2]==k[0] and t[1][1][0]=='call' and short(t[1][1][1])=='fixedDataInternal' and t[1][1][2][0]==DELTA
                        if v[0]=='load' and v[1][0]=='elem': tri(c,isv(v[1][2]) and v[1][1]==T and T is not None,isv(v[1][2]) and T is not None,'fixed attributes',who+' token value','merge translates tokens of %s by %s'%(who,fmt(v)[:60]),w[3])
                        elif isv(v):
                            out=[x for x,_ in cc if x[0]=='cmp' and any(isv(strip(t)) for t in x[2:])]
                            inside=not out or any(x[1] in('slt','ult') and isv(strip(x[2])) and x[3]!=ZERO for x in out) 
                            c.decide(not inside,'fixed attributes',who+' tokens outside the table','merge copies the tokens of %s without translating them'%who,w[3])
                        else: s.und('fixed attributes',who+' token value')
    # ---- string tables
    def strings(s):
        c=s.c;s.T=None
        if s.V is None: return
        ls=[l for l in s.top if any(e[0]=='call' and iscall(e,'registerIndexedStr',BASE) is not None for e in calls([l]))]
        if not ls: c.bad('strings','merge registers no strings of the delta in the base',s.F.loc,'strings');return
        if len(ls)>1: s.und('strings','strings registered in %d loops'%len(ls));return
        l=ls[0];k=counted(l)
        if k is None or s.W is None: s.und('strings','loop over the string attributes');return
        bound(c,'strings','all string attributes',l,lambda b:b==('size',s.W),'the loop over the string attributes',l[3],s.it)
        at=('elem',s.V,('load',('elem',s.W,k[0])))
        for cc,ev in l[2]:
            inner=[q for q in ev if q[0]=='loop' and any(iscall(e,'registerIndexedStr',BASE) is not None for e in calls([q]))]
            if len(inner)!=1: s.und('strings','inner loop');continue
            q=inner[0]
            iv=bound(c,'strings','all strings of the delta',q,lambda b:b[0]=='size' and b[1][0]=='call' and short(b[1][1])=='indexedStrs' and b[1][2][0]==DELTA,'the loop over the strings of the delta',q[3],s.it)
            if iv is None: continue
            B=None
            for e in calls(ev):
                if short(e[1])=='indexedStrs':
                    w=at if e[2][0]==BASE else ('fld',at,s.second)
                    tri(c,strip(e[2][1])==w,strip(e[2][1])[0] in('elem','fld'),'strings','string list of the attribute','merge translates by the strings of %s'%fmt(strip(e[2][1]))[:80],e[3])
            for conds,b in q[2]:
                st=[e for e in b if e[0]=='store' and e[1][0]=='mat']
                if len(st)!=1:
                    tri(c,False,not st and not any(e[0] in('push','loop','mins') for e in b),'strings','string translation','merge leaves some string of the delta without an index',q[3],[fmt(x)[:80] for x,_ in conds]);continue
                e=st[0];key=e[1][2]
                tri(c,key==('chars',iv) or key==iv,not unknown(key),'strings','translated index','merge records the index of string %s'%fmt(key),e[3])
                T=e[1][1]
                if T[0]=='mat' and strip(T[2])==nameof(at): s.T=T[1]
                elif T[0]=='mat' and strip(T[2])==nameof(('fld',at,s.second)): s.T=T[1]
                else: s.und('strings','translation table');continue
                v=strip(e[2]);mine=lambda t:t[0]=='chars' and t[1][0]=='elem' and t[1][2]==iv and t[1][1][0]=='call' and short(t[1][1][1])=='indexedStrs' and t[1][1][2][0]==DELTA
                if v[0]=='call' and short(v[1])=='registerIndexedStr':
                    tri(c,v[2][0]==BASE and strip(v[2][1])==at and mine(v[2][2]),not unknown(v[2][2]) ,'strings','registered string','merge registers %s for %s'%(fmt(v[2][2])[:60],fmt(v[2][1])[:60]),e[3])
                elif v[0]=='load' and v[1][0]=='mat':
                    tri(c,mine(strip(v[1][2])),True,'strings','found string','merge takes the index of %s'%fmt(v[1][2])[:60],e[3])
                    # the table it was found in holds the positions of the base's strings
                    fill=[('store',('mat',w[1],w[2]),w[3])+tuple(w[4:]) if w[0]=='mins' else w for z in ev if z[0]=='loop' and z is not q for c2,b2 in z[2] for w in b2 if w[0]=='store' and w[1][0]=='mat' and w[1][1]==v[1][1] or w[0]=='mins' and w[1]==v[1][1]]
                    lz=[z for z in ev if z[0]=='loop' and z is not q and any(w[0]=='store' and w[1][:2]==('mat',v[1][1]) or w[0]=='mins' and w[1]==v[1][1] for c2,b2 in z[2] for w in b2)]
                    if len(fill)==1 and len(lz)==1:
                        z=lz[0];zi=bound(c,'strings','all strings of the base',z,lambda b:b[0]=='size' and b[1][0]=='call' and short(b[1][1])=='indexedStrs' and b[1][2][0]==BASE,'the loop over the strings of the base',z[3],s.it)
                        kk=strip(fill[0][1][2])
                        tri(c,strip(fill[0][2])==zi and kk[0]=='chars' and kk[1][0]=='elem' and kk[1][2]==zi and kk[1][1][2][0]==BASE,not unknown(strip(fill[0][2])),'strings','positions of the base strings','merge takes %s for the index of base string %s'%(fmt(fill[0][2])[:40],fmt(kk)[:60]),fill[0][3])
                    else: s.und('strings','table of the base strings')
                elif v[0]=='const' or v==iv: c.bad('string index','merge maps string %s of the delta to index %s'%(fmt(iv),fmt(v)),e[3],'strings')
                else: s.und('strings','string index %s'%fmt(v)[:60])
    # ---- particles
    def idatoms(s):
        out={}
        for S,n in((BASE,'b'),(DELTA,'d')):
            for k in(0,1):
                out[n,k]=('arg',2+k)
        return out
    def assign(s,B0,B1,D0,D1):
        """facts when exactly these identifiers are usable"""
        A=s.A();seen=set()
        def visit(t):
            for x in subterms(t):
                y=strip(x)
                if y in seen: continue
                seen.add(y)
                if y[0]=='call' and short(y[1])=='attributeInfo' and y[2][1] in(('arg',2),('arg',3)):
                    A[y]=1 if {(BASE,2):B0,(BASE,3):B1,(DELTA,2):D0,(DELTA,3):D1}[y[2][0],y[2][1][1]] else 0
                if y[0]=='resv' and short(y[3])=='attributeInfo' and y[4][1] in(('arg',2),('arg',3)) and y[1] in('','type'):
                    A[y]=3
        for k in s.it.alts:
            for g,v in s.it.alts[k]:
                for x in g: visit(x)
                visit(v)
        for l in s.top:
            for cc,ev in l[2]:
                for x,_ in cc: visit(x)
        def ev(e):
            for x in e:
                if x[0]=='join':
                    for g,t in x[1]:
                        for y in g: visit(y)
                        ev(t)
        ev(s.p.ev)
        for x,_ in s.p.cond: visit(x)
        return A
    def particles(s):
        c=s.c
        ls=[l for l in s.top if any(short(e[1]) in('addParticle','addParticles') and e[2][0]==BASE for e in calls([l]))]
        if not ls:
            if any(short(e[1]) in('addParticles','addParticle') for e in calls(s.p.ev)): s.und('particles','particles added elsewhere')
            else: c.bad('particles','merge adds no particles',s.F.loc,'particles')
            return
        if len(ls)>1: s.und('particles','particle loops');return
        l=ls[0]
        i=bound(c,'particles','all particles of the delta',l,lambda b:b[0]=='call' and short(b[1])=='numParticles' and b[2]==(DELTA,),'the loop over the particles of the delta',l[3],s.it)
        if i is None: return
        inb=[e for cc,ev in l[2] for e in ev if e[0]=='call' and short(e[1])=='numParticles' and e[2]==(DELTA,) and any(e[4] in subterms(x) for x,_ in cc)]
        c.decide(not inb,'particles','number of delta particles is fixed before any is added','merge asks the delta for its size while adding particles to the base, which may be the same set',l[3])
        maps=set()
        for cc,ev in l[2]:
            for x,_ in cc:
                for t in subterms(x):
                    if t[0]=='present': maps.add(t[1])
        m=maps.pop() if len(maps)==1 else None
        for B0 in(0,1):
            for B1 in(0,1):
                for D0 in(0,1):
                    for D1 in(0,1): s.identify(l,i,m,B0,B1,D0,D1)
        for cc,ev in l[2]: s.onepath(l,i,m,[x for x,_ in cc],ev)
    def identify(s,l,i,m,B0,B1,D0,D1):
        c=s.c;A=s.assign(B0,B1,D0,D1);use=B0==D0 and B1==D1 and (B0 or B1)
        who='identifiers %s in the base, %s in the delta'%('+'.join(n for n,x in(('0',B0),('1',B1)) if x) or 'none','+'.join(n for n,x in(('0',D0),('1',D1)) if x) or 'none')
        got=set();keys=set()
        for cc,ev in l[2]:
            cs=[x for x,_ in cc]
            if not consistent(cs,A): continue
            pr=[x for x in cs if x[0]=='present'];ab=[x[1] for x in cs if x[0]=='not' and x[1][0]=='present']
            got.add(bool(pr or ab))
            for x in pr+ab: keys.add(strip(x[2]))
        if got=={bool(use)}: c.ok('identifiers',who)
        elif got=={not use}: c.bad('identifiers used','merge %s particles by identifier with %s'%('does not match' if use else 'matches',who),l[3],'identifiers');return
        else: s.und('identifiers',who);return
        if not use or m is None: return
        def comp(S,at,iv,idx):
            k=lambda t:t[0]=='load' and t[1][0]=='call' and short(t[1][1])=='dataInternal' and t[1][2][0]==S and t[1][2][2]==iv and t[1][2][1][0]=='alloca'
            return k(at)
        for key in keys:
            if key[0]!='pairv': s.und('identifiers','key form');continue
            for n,(x,on) in enumerate(zip(key[1:],(D0,D1))):
                if on: tri(c,comp(DELTA,x,i,n) and s.idof(x[1][2][1],DELTA,n),x[0]=='const' or x[0]=='load' and x[1][0]=='call' and not unknown(x[1][2][2]),'identifiers','delta key %d'%n,'merge identifies a delta particle by %s'%fmt(x)[:80],l[3])
                else: tri(c,x==ZERO,x[0]=='const','identifiers','delta key %d unused'%n,'key part %d is %s'%(n,fmt(x)[:50]),l[3])
        # the map holds every base particle
        def pick(ev):
            """loops building the map that run under A: None when some alternative lacks one"""
            r=[]
            for e in ev:
                if e[0]=='loop' and any(w[0] in('store','mins') and w[1][:2]==('mat',m) or w[0]=='mins' and w[1]==m for cc,b in e[2] for w in b): r.append(e)
                if e[0]=='join':
                    alts=[(g,t) for g,t in e[1] if feasible(g,A)]
                    subs=[pick(t) for g,t in alts]
                    if subs and all(q for q in subs): r+=subs[0]
                    elif any(subs): 
                        s.partial=True;r+=[x for q in subs for x in q][:1]
            return r
        s.partial=False
        z=pick(s.p.ev)
        if not z:
            anyl=[q for q,_ in s.loops if any(w[0]=='store' and w[1][:2]==('mat',m) or w[0]=='mins' and w[1]==m for cc,b in q[2] for w in b)]
            tri(c,False,bool(anyl),'identifiers','map of the base','merge does not collect the identifiers of the base with %s'%who,l[3]);return
        if s.partial: s.und('identifiers','map of the base on every path')
        z=z[0]
        j=bound(c,'identifiers','all particles of the base',z,lambda b:b[0]=='call' and short(b[1])=='numParticles' and b[2]==(BASE,),'the loop over the identifiers of the base',z[3],s.it)
        if j is None: return
        for cc,ev in z[2]:
            cs=[x for x,_ in cc]
            if not consistent(cs,A): continue
            st=[e for e in ev if e[0]=='store' and e[1][:2]==('mat',m)]
            if len(st)!=1: tri(c,False,not st and not any(e[0] in('mins','loop') for e in ev),'identifiers','every base particle is in the map','merge leaves out base particles from the identifier map',z[3]);continue
            key=strip(st[0][1][2])
            tri(c,st[0][2]==j,not unknown(st[0][2]),'identifiers','index of the base particle','merge records %s as the index of base particle %s'%(fmt(st[0][2]),fmt(j)),st[0][3])
            if key[0]!='pairv': s.und('identifiers','map key form');continue
            for n,(x,on) in enumerate(zip(key[1:],(B0,B1))):
                if on: tri(c,comp(BASE,x,j,n) and s.idof(x[1][2][1],BASE,n),x[0]=='const' or x[0]=='load' and x[1][0]=='call' and not unknown(x[1][2][2]),'identifiers','base key %d'%n,'merge identifies a base particle by %s'%fmt(x)[:80],st[0][3])
                else: tri(c,x==ZERO,x[0]=='const','identifiers','base key %d unused'%n,'key part %d is %s'%(n,fmt(x)[:50]),st[0][3])
    def idof(s,a,S,n):
        """the attribute object a was filled by looking up identifier n in S"""
        return any(e[2][0]==S and e[2][1]==('arg',2+n) and e[2][2]==a for e in calls(s.p.ev) if short(e[1])=='attributeInfo' and len(e[2])==3)
    def onepath(s,l,i,m,cs,ev):
        c=s.c
        pr=[x for x in cs if x[0]=='present'];ab=[x for x in cs if x[0]=='not' and x[1][0]=='present']
        ad=[e for e in ev if e[0]=='call' and short(e[1]) in('addParticle','addParticles') and e[2][0]==BASE]
        idx=None
        if len(ad)>1: c.bad('one particle','merge adds %d particles for one of the delta'%len(ad),ad[1][3],'particles');return
        if ad:
            if short(ad[0][1])!='addParticle': s.und('particles','addParticles');return
            idx=ad[0][4]
            sent=any(x[0]=='cmp' and x[1] in('eq','slt') and any(y[0]=='load' and y[1][0]=='mat' for y in x[2:]) for x in cs)
            if pr and not sent: c.bad('matching particle','merge adds a particle although the base has one with the same identifiers',ad[0][3],'particles',[fmt(x)[:80] for x in cs]);return
            c.ok('particles','a particle without a match is added')
        elif pr:
            k=[t for x in pr for t in (('load',('mat',x[1],x[2])),)]
            idx=k[0]
        else:
            tri(c,False,not any(e[0] in('join',) for e in ev),'particles','no match','merge drops a particle of the delta that has no match',l[3],[fmt(x)[:80] for x in cs]);return
        if s.V is None: return
        done=False
        for q in ev:
            if q[0]!='loop': continue
            k=counted(q)
            if k is None: s.und('particles','attribute loop');done=True;continue
            if any(e[0]=='call' and short(e[1])=='dataInternal' and e[2][0]==BASE and strip(e[2][1])==('elem',s.V,k[0]) for e in calls([q])):
                done=True;s.copyloop(q,k,i,idx)
            elif s.U is not None and any(e[0]=='call' and short(e[1])=='dataInternal' and e[2][0]==BASE and strip(e[2][1])==('elem',s.U,k[0]) for e in calls([q])):
                bound(c,'default value','all attributes of the base alone',q,lambda b:b==('size',s.U),'the loop over the attributes the delta lacks',q[3],s.it)
                for cc,b in q[2]:
                    for e in b:
                        if e[0]=='memcpy':
                            d=root(e[1]);s.zero('default of the other attributes',e,strip(d[2][2])==strip(idx),lambda t:strip(t) in(('load',('fld',('elem',s.U,k[0]),'count')),))
                if not any(e[0]=='memcpy' for cc,b in q[2] for e in b): s.und('default value','default form')
        if not done: c.bad('values of particles','merge copies no values to a particle',l[3],'particles',[fmt(x)[:80] for x in cs])
        if ad:
            us=[q for q in ev if q[0]=='loop' and s.U is not None and any(e[0]=='call' and short(e[1])=='dataInternal' and e[2][0]==BASE and strip(e[2][1])[:2]==('elem',s.U) for e in calls([q]))]
            if s.U is not None and not us: c.bad('default of the other attributes','merge leaves the attributes the delta lacks undefined in the particles it adds',ad[0][3],'default value')
            elif s.U is None:
                others=[q for q in ev if q[0]=='loop' and not any(e[0]=='call' and short(e[1])=='dataInternal' and strip(e[2][1])[:2]==('elem',s.V) for e in calls([q]))]
                tri(c,False,not others and not any(e[0]=='call' and len(e)>5 and not e[1].startswith('std::') and not e[1].startswith('virt:') for e in ev),'default value','default of the other attributes','merge leaves the attributes the delta lacks undefined in the particles it adds',ad[0][3])
    def copyloop(s,q,k,i,idx):
        c=s.c;kv=k[0]
        bound(c,'copy','all attributes',q,lambda b:b==('size',s.V),'the loop over the attributes to copy',q[3],s.it)
        at=('elem',s.V,kv);dt=('fld',at,s.second)
        typ=('load',at);cntA=('load',('fld',at,'count'));cntD=('load',('fld',dt,'count'));typD=('load',dt)
        for cc,ev in q[2]:
            cs=[x for x,_ in cc]
            S=consistent(cs,s.A() | {typ:4,typD:4});Nn=any(consistent(cs,s.A() | {typ:t,typD:t}) for t in(2,3))
            cp=[e for e in ev if e[0]=='memcpy' and root(e[1])[0]=='call' and short(root(e[1])[1])=='dataInternal' and root(e[1])[2][0]==BASE]
            direct=[l for l in ev if l[0]=='loop' and any(w[0]=='store' and root(w[1])[0]=='call' and short(root(w[1])[1])=='dataInternal' for c2,b in l[2] for w in b)]
            if not cp and not direct:
                if any(e[0]=='loop' for e in ev): s.und('copy','copy form')
                else: c.bad('every value is copied','merge does not copy a value',q[3],'copy',[fmt(x)[:80] for x in cs])
                continue
            for e in cp:
                d=root(e[1])
                tri(c,strip(d[2][1])==at,strip(d[2][1])[0] in('elem','fld','alloca'),'copy','destination attribute','merge writes to attribute %s'%fmt(d[2][1])[:60],e[4])
                tri(c,strip(d[2][2])==strip(idx),not unknown(strip(d[2][2])) ,'copy','destination particle','merge writes to particle %s'%fmt(d[2][2])[:80],e[4])
                P=s.N.poly(e[3]);cn=lambda t:strip(t) in(cntA,cntD)
                tri(c,len(P)==1 and all(x==s.N.ts and len(t)==1 and cn(t[0]) for t,x in P.items()),all(all(cn(x) for x in t) for t in P),'copy','whole value','merge copies %s bytes of a value'%c11.pfmt(P)[:80],e[4])
                sr=strip(e[2])
                if sr[0]=='call' and short(sr[1])=='dataInternal':
                    if S and not Nn: c.bad('tokens','merge copies string tokens without translating them',e[4],'copy')
                    elif S and Nn: c.bad('tokens','merge copies values of string attributes without translating them',e[4],'copy')
                    tri(c,sr[2][0]==DELTA and sr[2][1]==dt,sr[2][0]==BASE or sr[2][1]==at,'copy','source attribute','merge copies from %s'%fmt(sr)[:80],e[4])
                    tri(c,sr[2][2]==i,not unknown(sr[2][2]),'copy','source particle','merge copies from particle %s'%fmt(sr[2][2])[:60],e[4])
                else:
                    lp=[l for l in ev if l[0]=='loop' and any(w[0]=='store' and root(w[1])==root(e[2]) for c2,b in l[2] for w in b)]
                    if len(lp)!=1: s.und('copy','translated value');continue
                    s.tokens(lp[0],i,at,dt,lambda w:root(w[1])==root(e[2]))
            for l in direct: s.tokens(l,i,at,dt,lambda w:root(w[1])[0]=='call' and short(root(w[1])[1])=='dataInternal')
    def tokens(s,l,i,at,dt,mine):
        c=s.c;k=counted(l)
        if k is None: s.und('copy','token loop');return
        cn=lambda t:t in(('load',('fld',at,'count')),('load',('fld',dt,'count')))
        j=bound(c,'copy','all tokens',l,cn,'the loop over the tokens',l[3],s.it)
        if counted(l)[1][0]=='load' and not cn(counted(l)[1]): pass
        for cc,b in l[2]:
            w=[x for x in b if x[0]=='store' and mine(x)]
            if len(w)!=1: tri(c,False,not w,'copy','every token','merge skips a token',l[3]);continue
            w=w[0];a=w[1]
            pos=a[2] if a[0] in('idx','elem') else ZERO
            tri(c,pos==k[0],not unknown(pos),'copy','token place','merge stores a token at %s'%fmt(pos),w[3])
            v=strip(w[2])
            isv=lambda t:(t[0]=='chars' and isv(t[1])) or (t[0]=='load' and isv(t[1])) or t==('idx',src,k[0],4)
            src=None
            for t in subterms(v):
                if t[0]=='call' and short(t[1])=='dataInternal' and t[2][0]==DELTA: src=t
            if v[0]=='load' and v[1][0]=='mat' and v[1][1][0]=='mat':
                tab,nm,key=v[1][1][1],v[1][1][2],v[1][2]
                tri(c,s.T is not None and tab==s.T,s.T is not None,'copy','translation table','merge translates tokens by another table',w[3])
                tri(c,nm in(nameof(at),nameof(dt)),nm[0]=='chars' and nm[1][0]=='fld','copy','translation of the attribute','merge translates tokens by the strings of %s'%fmt(nm)[:60],w[3])
                tri(c,src is not None and isv(key) and src[2][1]==dt and src[2][2]==i,not any(t[0]=='unk' for t in subterms(key)),'copy','translated token','merge translates %s'%fmt(key)[:80],w[3])
            elif v[0]=='load' and src is not None and isv(v): c.bad('tokens','merge copies string tokens without translating them',w[3],'copy')
            else: s.und('copy','token value %s'%fmt(v)[:60])
