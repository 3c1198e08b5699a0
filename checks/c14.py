"""C14: a clone has the schema of the original and, when asked for, its values."""
from obj import *
import c11

PUB='Partio::'
KINDS={'fixed':dict(num='numFixedAttributes',info='fixedAttributeInfo',add='addFixedAttribute',reg='registerFixedIndexedStr',strs='fixedIndexedStrs',data='fixedDataInternal'),
       'particle':dict(num='numAttributes',info='attributeInfo',add='addAttribute',reg='registerIndexedStr',strs='indexedStrs',data='dataInternal')}
STR=('const',4)
def short(n): return n.split('::')[-1]
def enum(prog,name):
    """value of an attribute type, by how the code names it"""
    return {'NONE':0,'VECTOR':1,'FLOAT':2,'INT':3,'INDEXEDSTR':4}[name]
def iscall(e,name,obj=None):
    """the call event e calls method `name` (on obj); gives the argument list after the object"""
    if e[0]!='call' or short(e[1])!=name: return None
    a=list(e[2])
    if obj is None: return a
    for k,x in enumerate(a[:2]):
        if x==obj: return a[k+1:]
    return None
def strip(t):
    """forget call numbers and memory versions"""
    if not isinstance(t,tuple): return t
    if t and t[0]=='call' and len(t)==4: return ('call',t[1],strip(t[2]))
    if t and t[0]=='load' and len(t)==3: return ('load',strip(t[1]))
    if t and t[0]=='size' and len(t)==3: return ('size',strip(t[1]))
    if t and t[0]=='resv' and len(t)==6: return ('resv',t[1],t[2],t[3],strip(t[4]))
    return tuple(strip(x) for x in t)
def counted(lp):
    """(iv, bound, entry) of a loop that counts up by one; every body path is inside the bound"""
    for iv,e,st in lp[1]:
        if st!=ONE: continue
        bs=set()
        for conds,_ in lp[2]:
            b=None
            for x,_l in conds:
                if x[0]=='cmp' and x[1] in('slt','ult') and x[2]==iv: b=strip(x[3])
                elif x[0]=='cmp' and x[1]=='ne' and iv in x[2:]: b=strip(x[3] if x[2]==iv else x[2])
                elif x[0]=='cmp' and x[1] in('sle','ule') and x[2]==iv: b=add(strip(x[3]),ONE)
                elif x[0]=='cmp' and x[1] in('slt','ult','sle','ule') and tolin(sub(x[2],x[3])).get(iv)==1:
                    # iv + k < b
                    b=sub(iv,strip(sub(x[2],x[3])))
                    if iv in subterms(b): b=None
                    elif x[1] in('sle','ule'): b=add(b,ONE)
                if b is not None: break
            bs.add(b)
        if len(bs)==1 and None not in bs: return iv,bs.pop(),e
        if None not in bs and bs: return iv,('bounds',)+tuple(sorted(bs,key=repr)),e
    return None
def loops(ev,conds=()):
    for e in ev:
        if e[0]=='loop':
            yield e,conds
            for c,b in e[2]:
                for x in loops(b,conds+tuple(y[0] for y in c)): yield x
        elif e[0]=='join':
            for g,t in e[1]:
                for x in loops(t,conds+tuple(g)): yield x
def calls(ev):
    for e in ev:
        if e[0]=='call': yield e
        elif e[0]=='loop':
            for c,b in e[2]:
                for x in calls(b): yield x
        elif e[0]=='join':
            for g,t in e[1]:
                for x in calls(t): yield x
class Fn(object):
    """a function with its joined summaries"""
    def __init__(s,c,prog,f):
        s.c=c;s.f=f;s.loc='%s:%d'%(f.file,f.line)
        s.it=Interp(prog,devirt(prog),depth=5);s.it.psnap={}
        try: s.ps=s.it.run_joined(f)
        except TooMany: s.ps=None
        c.touch(f)
    def snaps(s,e):
        if len(e)>6: return e[6]
        r=s.it.psnap.get(id(e))
        return r[1] if r else ()
    def attr(s,e,addr):
        """what the attribute object at addr is when e is called: the ('res',...) that filled it"""
        for a,sn in zip(e[2],s.snaps(e)):
            if a==addr:
                for k,v in sn:
                    if k=='*' and v[0]=='res': return v
        return None
def res(v): return ('resv','')+v
def isfield(t,rel,r):
    """the term is member `rel` of the attribute object filled by r"""
    return t is not None and t[0]=='resv' and t[1]==rel and t[2:]==r
def unknown(t):
    return any(x[0] in('unk','alt','val','loopval','uninit','phi') for x in subterms(t)) or t[0]=='call'

def run(c):
    c.rule('the loops of clone and cloneSchema are matched against their contract, path by path of one generic iteration: every attribute of the original is added with its (mapped) name, type and count; its strings registered in order; its value copied in full, string tokens through the tokens the registration returned; every particle added once')
    prog=c.view('inl')
    ts=c11.typesize(c,prog);N=c11.Norm(ts)
    for name in('cloneSchema','clone'):
        fs=[f for f in prog.fns if f.short==PUB+name]
        if len(fs)!=1: c.und('schema',name+' not found');continue
        F=Fn(c,prog,fs[0])
        if F.ps is None: c.und('schema',name+' has too many paths');continue
        one(c,F,name,N)
    c.need('schema',4);c.need('values',2)

def conds_of(g): return [x[0] if isinstance(x[0],tuple) else x for x in g]
def one(c,F,name,N):
    src=('arg',0);withv=name=='clone';flag=('arg',1) if withv else None
    it=F.it
    for p in F.ps:
        if p.end!=('ret',): continue
        dst=p.ret
        if dst is None or dst[0]!='call': c.und('schema',name+' returns '+fmt(dst or ('null',)));return
        on=1
        if flag is not None:
            on=p.has(flag) or (1 if any(x==cmpc('ne',flag,ZERO) for x,_ in p.cond) else 0)
            if on==0 and not any(flag in subterms(x) for q in F.ps for x,_ in q.cond) and not any(flag in subterms(x) for k_ in F.it.alts for g,_ in F.it.alts[k_] for x in g):
                c.bad('clone particles flag','clone does not look at whether particles are wanted',F.loc,'particles')
        for kind,K in KINDS.items():
            want=kind=='fixed' or not withv or on>=0
            ls=[l for l,_ in loops(p.ev) if any(iscall(e,K['add'],dst) is not None for cc,b in l[2] for e in b if e[0]=='call')]
            anyadd=[e for e in calls(p.ev) if iscall(e,K['add'],dst) is not None]
            if not want:
                c.decide(not anyadd,'schema','%s without particles adds no %s attributes'%(name,kind),'%s adds %s attributes although no particles were asked for'%(name,kind),F.loc)
                continue
            if not anyadd:
                c.bad('%s %s attributes'%(name,kind),'%s drops the %s attributes'%(name,kind),F.loc,'schema')
                continue
            if len(ls)!=1: c.und('schema','%s: %s attributes added in %d loops'%(name,kind,len(ls)));continue
            schema(c,F,name,kind,K,ls[0],src,dst,withv,N,p)
        if withv:
            n=[e for e in calls(p.ev) if short(e[1]) in('addParticles','addParticle') and iscall(e,short(e[1]),dst) is not None]
            if on<0 : c.decide(not n,'particles','clone without particles','clone adds particles although none were asked for',F.loc)
            elif len(n)==1 and short(n[0][1])=='addParticles' and n[0] in p.ev:
                a=iscall(n[0],'addParticles',dst);b=strip(a[0])
                good=b[0]=='call' and short(b[1])=='numParticles' and b[2]==(src,)
                tri(c,good,not unknown(a[0]) or b[0]=='call','particles','clone adds the particles of the original','clone adds %s particles'%fmt(b),n[0][3])
            elif not n: c.bad('clone particles','clone adds no particles',F.loc,'particles')
            else:
                ws=[e for e in n if short(e[1])=='addParticles' and (lambda b:b[0] in('const','lin') and not unknown(b))(strip(iscall(e,'addParticles',dst)[0]))]
                if ws: c.bad('clone adds the particles of the original','clone adds %s particles'%fmt(strip(ws[0][2][-1])),ws[0][3],'particles')
                else:
                    # a branch that adds none, taken for reasons that are not about how many there are
                    num=lambda x:any(t[0]=='call' and short(t[1])=='numParticles' for t in subterms(x))
                    attr=lambda x:any(t[0]=='call' and short(t[1]) in('numAttributes','numFixedAttributes') for t in subterms(x))
                    w=[g for e in p.ev if e[0]=='join' and any(x in n for _,t in e[1] for x in calls(t)) for g,t in e[1] if not any(x in n for x in calls(t)) and g and any(attr(x) for x in conds_of(g)) and not any(num(x) or unknown(x) or flag in subterms(x) for x in conds_of(g))]
                    if w: c.bad('clone particles','clone adds no particles when %s'%[fmt(x) for x in conds_of(w[0])][:3],F.loc,'particles')
                    else: c.und('particles','clone adds particles in another way')
def tri(c,ok,known,kind,key,msg,loc,path=()):
    if ok: c.ok(kind,key)
    elif known: c.bad(key,msg,loc,kind,path)
    else: c.und(kind,key+': '+msg)

def bound(c,kind,key,lp,want,what,loc,it=None):
    """the loop visits exactly 0..want-1"""
    k=counted(lp)
    if k is None: c.und(kind,key+': loop form');return None
    iv,b,e=k
    if e!=ZERO:
        tri(c,False,e[0] in('const','size'),kind,key,'%s starts at %s'%(what,fmt(e)),loc);return iv
    if b[0]=='alt' and it is not None:
        vs=[strip(v) for _,v in it.alts[b[1]]]
        wrong=[v for v in vs if not want(v)]
        tri(c,not wrong,any(v[0] in('const','lin') for v in wrong),kind,key,'%s ends at %s on some paths'%(what,wrong and fmt(wrong[0])),loc);return iv
    if b[0]=='bounds':
        wrong=[v for v in b[1:] if not want(v)]
        tri(c,not wrong,any(v[0]=='const' for v in wrong),kind,key,'%s ends at %s on some paths'%(what,wrong and fmt(wrong[0])),loc);return iv
    ok=want(b)
    known=b[0] in('const','lin') and not any(t[0] in('unk','alt','val','min','smin') for t in subterms(b)) or b[0]=='call' and short(b[1]).startswith('num') or b[0]=='size'
    tri(c,ok,known,kind,key,'%s ends at %s'%(what,fmt(b)),loc)
    return iv

def schema(c,F,name,kind,K,lp,src,dst,withv,N,p):
    who='%s %s attributes'%(name,kind);loc=lp[3]
    iv=bound(c,'schema',who+' all',lp,lambda b:b[0]=='call' and short(b[1])==K['num'] and b[2]==(src,),'the loop of %s over the %s attributes'%(name,kind),loc,F.it)
    if iv is None: return
    mp=('arg',len(F.f.args)-1)
    for conds,ev in lp[2]:
        cs=[x for x,_ in conds]
        adds=[e for e in ev if iscall(e,K['add'],dst) is not None]
        if not adds:
            if any(x[0]=='not' and x[1][0]=='call' and short(x[1][1])==K['info'] for x in cs): continue   # no such attribute
            if any(e[0] in('loop','join') for e in ev): c.und('schema',who+': path without adding');continue
            c.bad(who+' kept','%s leaves out a %s attribute'%(name,kind),loc,'schema',[fmt(x)[:120] for x in cs]);continue
        if len(adds)>1: c.und('schema',who+': several additions');continue
        e=adds[0];nm,ty,ct=iscall(e,K['add'],dst)[:3]
        r=ty[2:] if ty[0]=='resv' else ct[2:] if ct[0]=='resv' else None
        if r is None or short(r[1])!=K['info'] or src not in r[2]:
            # type or count not taken from the attribute
            tri(c,False,ty[0]=='const' or ct[0]=='const','schema',who+' type and count','%s adds a %s attribute of type %s and count %s'%(name,kind,fmt(ty)[:60],fmt(ct)[:60]),e[3]);continue
        if iv not in r[2]: tri(c,False,any(x[0]=='const' for x in r[2]),'schema',who+' index','%s reads another %s attribute than the one it is at'%(name,kind),e[3]);continue
        tri(c,isfield(ty,'',r) or isfield(ty,'type',r),ty[0] in('const','resv'),'schema',who+' type','%s adds a %s attribute with type %s'%(name,kind,fmt(ty)[:80]),e[3])
        tri(c,isfield(ct,'count',r),ct[0] in('const','resv') or ct[0]=='lin','schema',who+' count','%s adds a %s attribute with count %s'%(name,kind,fmt(ct)[:80]),e[3])
        X=[x for x in r[2] if x[0]=='alloca']
        own=('chars',('fld',X[0],'name')) if X else None
        pr=[x for x in cs if x[0]=='present' or x[0]=='not' and x[1][0]=='present']
        mapped=nm[0]=='chars' and nm[1][0]=='mat' and nm[1][2]==own
        plainname=nm==own
        if not(mapped or plainname): tri(c,False,nm[0]=='str' or nm[0]=='chars' and nm[1][0]=='fld' and X and nm[1]!=own[1] ,'schema',who+' name','%s names a %s attribute %s'%(name,kind,fmt(nm)[:80]),e[3])
        else:
            inmap=any(x[0]=='present' for x in pr);notin=any(x[0]=='not' for x in pr) or any(x==cmpc('eq',mp,('null',)) for x in cs)
            if mapped: tri(c,not notin,True,'schema',who+' mapped name','%s looks up a name that is not in the map'%name,e[3])
            elif inmap: c.bad(who+' mapped name','%s ignores the map for the name of a %s attribute'%(name,kind),e[3],'schema')
            elif notin: c.ok('schema',who+' own name')
            elif any(t_==mp for cc,b in lp[2] for x,_ in cc for t_ in subterms(x)):
                # a path that never looks at the map, for reasons that have nothing to do with the name
                of=lambda x:any(t[0]=='call' and short(t[1]) in('numAttributes','numFixedAttributes','numParticles') for t in subterms(x)) and not any(t==iv for t in subterms(x)) or all(t[0] in('cmp','not','const','resv','call','arg') or isfield(t,'type',r) or isfield(t,'count',r) for t in subterms(x)) and any(isfield(t,'type',r) or isfield(t,'count',r) for t in subterms(x))
                if not any(t_==mp or t_[0] in('unk','alt') for x in cs for t_ in subterms(x)) and any(of(x) for x in cs): c.bad(who+' mapped name','%s ignores the name map for a %s attribute when %s'%(name,kind,[fmt(x)[:80] for x in cs if of(x)][:2]),e[3],'schema')
                else: c.und('schema',who+' name map')
            else: c.bad(who+' mapped name','%s ignores the name map'%name,e[3],'schema')
        if withv: values(c,F,name,kind,K,conds,ev,e,r,src,dst,iv,N,p)
def values(c,F,name,kind,K,conds,ev,addev,r,src,dst,iv,N,p):
    """the value (fixed) or the values (every particle) of the attribute are copied"""
    who='%s %s'%(name,kind);cs=[x for x,_ in conds];ra=None
    # the attribute the addition returned
    def isdst(e,a):
        v=F.attr(e,a)
        return v is not None and short(v[1])==K['add']
    def issrc(e,a):
        v=F.attr(e,a)
        return v is not None and v==r
    rty=[x for x in cs if x[0]=='cmp' and x[3]==STR or x[0]=='cmp' and x[2]==STR]
    isstr=any(x[1]=='eq' and (isty(x,r) or isadd(x,K)) for x in rty);notstr=any(x[1]=='ne' and (isty(x,r) or isadd(x,K)) for x in rty)
    failed=any(x[0]=='cmp' and any(t[0]=='resv' and short(t[3])==K['add'] and t[1] in('attributeIndex','','type') for t in x[2:]) and not(x[3]==STR or x[2]==STR) and neg(x) for x in cs)
    if failed: c.ok('values',who+' attribute that could not be added is left alone');return
    tested=any(x[0]=='cmp' and any(t_[0]=='resv' and short(t_[3])==K['add'] and t_[1] in('attributeIndex','','type') for t_ in x[2:]) and not STR in x[2:] for x in cs)
    used=any(e[0]=='call' and short(e[1]) in(K['data'],K['reg']) and iscall(e,short(e[1]),dst) is not None for e in calls(ev))
    if used and not tested:
        if any(e[0]=='join' for e in ev): c.und('values',who+' addition test')
        else: c.bad(who+' attribute that could not be added','%s uses the %s attribute even when its name was taken and it was not added'%(name,kind),addev[3],'values')
    # strings
    regs=[(e,l) for l in ev if l[0]=='loop' for cc,b in l[2] for e in b if e[0]=='call' and iscall(e,K['reg'],dst) is not None]
    V=None
    if notstr: pass
    elif not regs:
        if isstr: c.bad(who+' strings','%s does not register the strings of a %s attribute'%(name,kind),addev[3],'values');return
    if regs:
        e,l=regs[0];a=iscall(e,K['reg'],dst)
        sv=bound(c,'values',who+' all strings',l,lambda b:b[0]=='size' and b[1][0]=='call' and short(b[1][1])==K['strs'] and src in b[1][2],'the loop of %s over the strings'%name,l[3],F.it)
        tri(c,isdst(e,a[0]),issrc(e,a[0]) or F.attr(e,a[0]) is not None,'values',who+' strings attribute','%s registers strings for another attribute'%name,e[3])
        s=a[1]
        st=s[1] if s[0]=='chars' else s
        good=st[0]=='elem' and st[2]==sv and st[1][0]=='call' and short(st[1][1])==K['strs']
        tri(c,good,st[0]=='elem' and sv is not None and not unknown(st[2]) or s[0]=='str','values',who+' strings in order','%s registers %s'%(name,fmt(s)[:100]),e[3])
        push=[x for cc,b in l[2] for x in b if x[0]=='push' and x[2]==e[4]]
        if push and all(any(x[0]=='push' and x[1]==push[0][1] for x in b) for cc,b in l[2]):
            V=push[0][1]
            h=l[1][0][0]
            ent=[q.get(V) for q in F.it.lentry.get((h[2],h[1]),[])]
            if ent and all(x==ZERO for x in ent): c.ok('values',who+' token table starts empty')
            elif any(x is not None and x!=ZERO for x in ent) or any(x is None for x in ent): 
                c.bad(who+' token table','%s keeps the tokens of earlier attributes in front of those of the current one'%name,l[3],'values');V=None
    # the copying
    scope=[(ev,None,conds)]
    if kind=='particle':
        scope=[]
        for l in ev:
            if l[0]=='loop' and any(x[0]=='call' and iscall(x,K['data'],dst) is not None for cc,b in l[2] for x in b):
                j=bound(c,'values',who+' all particles',l,lambda b:b[0]=='call' and short(b[1])=='numParticles' and b[2] in((src,),(dst,)),'the loop of %s over the particles'%name,l[3],F.it)
                for cc,b in l[2]: scope.append((b,j,tuple(conds)+tuple(cc)))
        if not scope:
            if any(x[0]=='memcpy' for x in ev): c.und('values',who+' bulk copy');return
            c.bad(who+' values','%s does not copy the values of a particle attribute'%name,addev[3],'values',[fmt(x)[:100] for x in cs]);return
    for b,j,cc in scope:
        cs2=[x for x,_ in cc];isS=isstr or any(x[0]=='cmp' and x[1]=='eq' and STR in x[2:] and (isty(x,r) or isadd(x,K)) for x in cs2)
        nS=notstr or any(x[0]=='cmp' and x[1]=='ne' and STR in x[2:] and (isty(x,r) or isadd(x,K)) for x in cs2)
        cp=[e for e in b if e[0]=='memcpy' and root(e[1])[0]=='call' and short(root(e[1])[1])==K['data'] and dst in root(e[1])[2]]
        lps=[l for l in b if l[0]=='loop' and any(x[0]=='store' and root(x[1])[0]=='call' and short(root(x[1])[1])==K['data'] and dst in root(x[1])[2] for q,y in l[2] for x in y)]
        if not cp and not lps:
            if any(e[0]=='call' and e[1] not in() and len(e)>5 and not e[1].startswith('virt:') and not e[1].startswith('std::') for e in b): c.und('values',who+' copied by a call');continue
            if any(x==cmpc('eq',('const',0),('const',0)) for x in cs2): continue
            c.bad(who+' values','%s does not copy the value of a %s attribute'%(name,kind),addev[3],'values',[fmt(x)[:100] for x in cs2]);continue
        for e in cp:
            if isS:
                c.bad(who+' tokens','%s copies string tokens without translating them'%name,e[4],'values');continue
            if not nS:
                c.bad(who+' tokens','%s copies the values of string attributes without translating their tokens'%name,e[4],'values');continue
            one_copy(c,F,who,name,kind,K,e,src,dst,r,j,N,b)
        for l in lps:
            tokens(c,F,who,name,kind,K,l,src,dst,r,j,V,isS,nS)
def root(a):
    while a[0] in('idx','fld','off','elem'): a=a[1]
    return a
def neg(x):
    """the condition says the addition failed"""
    if x[1] in('slt',) and x[3]==ZERO: return True
    if x[1]=='eq' and (x[3] in(ZERO,('const',-1)) or x[2] in(ZERO,('const',-1))): return True
    if x[1]=='sle' and x[3]==('const',-1): return True
    return False
def isty(x,r): return any(isfield(t,'',r) or isfield(t,'type',r) for t in x[2:])
def isadd(x,K): return any(t[0]=='resv' and short(t[3])==K['add'] and t[1] in('','type') for t in x[2:])
def dataev(F,b,t):
    for e in b:
        if e[0]=='call' and e[4]==t: return e
    return None
def one_copy(c,F,who,name,kind,K,e,src,dst,r,j,N,b):
    d,s,n=e[1],e[2],e[3];de=find(F,b,d);se=find(F,b,s)
    loc=e[4]
    if s[0]!='call' or short(s[1])!=K['data'] or d[0]!='call': tri(c,False,False,'values',who+' copy','%s copies from %s'%(name,fmt(s)[:80]),loc);return
    tri(c,s[2][0]==src,s[2][0] in(dst,),'values',who+' copy source','%s copies a value from %s'%(name,fmt(s[2][0])),loc)
    if de and se:
        da=F.attr(de,de[2][1]);sa=F.attr(se,se[2][1])
        tri(c,sa==r,sa is not None,'values',who+' copies from the attribute','%s copies the value of another attribute'%name,loc)
        tri(c,da is not None and short(da[1])==K['add'],da is not None,'values',who+' copies to the added attribute','%s copies into another attribute'%name,loc)
    if j is not None:
        tri(c,d[2][-1]==j and s[2][-1]==j,not unknown(d[2][-1]) and not unknown(s[2][-1]),'values',who+' copies each particle to its index','%s copies particle %s to particle %s'%(name,fmt(s[2][-1]),fmt(d[2][-1])),loc)
    P=N.poly(n)
    okc=len(P)==1 and all(k==N.ts and len(m)==1 and cnt(m[0],r,K) for m,k in P.items())
    known=all(all(cnt(x,r,K) for x in m) for m in P) 
    tri(c,okc,known,'values',who+' copies whole values','%s copies %s bytes of a value of %d*count bytes'%(name,c11.pfmt(P)[:120],N.ts or 0),loc)
def cnt(t,r,K): return isfield(t,'count',r) or t[0]=='resv' and t[1]=='count' and short(t[3])==K['add']
def find(F,b,t):
    for e in b:
        if e[0]=='call' and e[4]==t: return e
    return None
def tokens(c,F,who,name,kind,K,l,src,dst,r,j,V,isS,nS):
    """dst[k] = token the string of src[k] got in the copy"""
    k=bound(c,'values',who+' all components',l,lambda b:cnt_any(b,r,K),'the loop of %s over the components'%name,l[3],F.it)
    if k is None: return
    for cc,b in l[2]:
        st=[x for x in b if x[0]=='store' and root(x[1])[0]=='call' and short(root(x[1])[1])==K['data']]
        if len(st)!=1:
            c.und('values',who+' token stores') if st else c.bad(who+' tokens','%s skips a token'%name,l[3],'values')
            continue
        e=st[0];a=e[1];v=e[2];rng=[x for x,_ in cc]
        off=a[2] if a[0]=='idx' else None
        if off is None or not(a[3]*1==4 and off==k): 
            tri(c,False,off is not None and not unknown(off),'values',who+' token place','%s stores a token at component %s'%(name,fmt(off) if off else '0'),e[3]);continue
        def isval(t):
            t=strip(t)
            return t[0]=='load' and t[1][0]=='idx' and t[1][2]==k and t[1][3]==4 and t[1][1][0]=='call' and short(t[1][1][1])==K['data'] and src in t[1][1][2]
        if j is not None:
            dd=root(a)
            tri(c,dd[2][-1]==j,not unknown(dd[2][-1]),'values',who+' tokens of each particle','%s writes the tokens of particle %s'%(name,fmt(dd[2][-1])),e[3])
        vs=strip(v)
        if vs[0]=='load' and vs[1][0]=='elem' and isval(vs[1][2]):
            tri(c,V is not None and vs[1][1]==V,True,'values',who+' tokens translated','%s translates tokens by %s, which does not hold the tokens of the registered strings'%(name,fmt(vs[1][1])),e[3])
        elif vs[0]=='load' and vs[1][0]=='elem' and (V is None or vs[1][1]==V) and not unknown(vs[1][2]) and not any(t_[0]=='load' for t_ in subterms(vs[1][2])):
            c.bad(who+' tokens translated','%s gives every particle the token number %s'%(name,fmt(vs[1][2])),e[3],'values')
        elif isval(v):
            # raw token: only for values outside the table
            out=any(x[0]=='cmp' and any(isval(t) for t in x[2:]) for x in rng)
            inside=not out or any(inrange(x,isval) for x in rng) and not any(outrange(x,isval) for x in rng)
            if inside: c.bad(who+' tokens','%s copies a string token without translating it'%name,e[3],'values',[fmt(x)[:80] for x in rng])
            else: c.ok('values',who+' token outside the table is kept')
        else: tri(c,False,vs[0]=='const' and not any(outrange(x,isval) for x in rng),'values',who+' token value','%s stores %s as a token'%(name,fmt(v)[:80]),e[3])
def inrange(x,isval): return x[0]=='cmp' and (x[1] in('slt','ult') and isval(x[2]) and x[3]!=ZERO)
def outrange(x,isval):
    return x[0]=='cmp' and (x[1]=='slt' and isval(x[2]) and x[3]==ZERO or x[1] in('sle','ule') and isval(x[3]) and x[2]!=ZERO or x[1] in('slt','ult') and isval(x[3]) and x[2]!=('const',-1))
def cnt_any(b,r,K):
    r2=strip(res(r))[2:]
    return b[0]=='resv' and b[1]=='count' and (b[2:]==r2 or short(b[3])==K['add'])
