"""C12: names and indices of attributes are in bijection, for every particle-set class."""
from obj import *

def fieldvals(it,p,base):
    """abstract value of the attribute object at address `base`"""
    o={'type':it.load(base,p),'count':it.load(('fld',base,'count'),p),'attributeIndex':it.load(('fld',base,'attributeIndex'),p)}
    o['name']=it.strval(('fld',base,'name'),p)
    return o

def rename(t,me):
    return t

CMP={'eq':lambda a,b:a==b,'ne':lambda a,b:a!=b,'slt':lambda a,b:a<b,'sle':lambda a,b:a<=b,'sgt':lambda a,b:a>b,'sge':lambda a,b:a>=b,
     'ult':lambda a,b:a%2**32<b%2**32,'ule':lambda a,b:a%2**32<=b%2**32,'ugt':lambda a,b:a%2**32>b%2**32,'uge':lambda a,b:a%2**32>=b%2**32}
def ordinary(p,ty,ct):
    """an attribute type and a count that every condition on them admits, when some condition of the path is about them"""
    cs=[x for x,_ in p.cond if any(t in(ty,ct) for t in subterms(x))]
    if not cs: return None
    def ev(x,env):
        if x[0]=='not':
            r=ev(x[1],env);return None if r is None else not r
        if x in env: return env[x]
        if x[0]=='const': return x[1]
        if x[0]=='cmp' and x[1] in CMP:
            a,b=ev(x[2],env),ev(x[3],env)
            return None if a is None or b is None else CMP[x[1]](a,b)
        if x[0] in('sext','zext','trunc') and len(x)>1 and isinstance(x[1],tuple): return ev(x[1],env)
        return None
    for k in(3,1,2,4,16,17,64,100,1000,100000,0):
        for t in(1,2,3,4):
            if all(ev(x,{ty:t,ct:k}) for x in cs): return t,k
    return None

def run(c):
    c.rule('path-sensitive effect summaries of addAttribute, addFixedAttribute, attributeInfo and fixedAttributeInfo of each concrete particle-set class, compared with the bijection they must maintain')
    prog=c.view('inl')
    O=Obj(c,prog)
    for cls in O.classes:
        short=cls.split('::')[-1]
        for kind,numm,addm,infom in(('attribute','numAttributes','addAttribute','attributeInfo'),('fixed attribute','numFixedAttributes','addFixedAttribute','fixedAttributeInfo')):
            A=O.size_of(cls,numm)
            key=lambda what: '%s::%s %s'%(short,addm,what)
            if A is None: c.und('container','%s::%s does not return the size of a container'%(short,numm));continue
            c.ok('container','%s::%s is the size of one vector'%(short,numm))
            M=index_lookup(c,O,cls,short,infom,A)
            M2=name_lookup(c,O,cls,short,infom,A)
            if M2 is None: continue
            adder(c,O,cls,short,addm,A,M2,kind)
    f=[x for x in prog.fns if x.short in('Partio::ParticleAttribute::ParticleAttribute','Partio::FixedAttribute::FixedAttribute') and len(x.args)==1]
    for x in f:
        it=Interp(prog,devirt(prog))
        try: ps=it.run(x)
        except TooMany: continue
        c.touch(x)
        for p in ps:
            t=it.load(('arg',0),p)
            c.decide(t==('const',0),'default attribute',x.short+' default type','the default attribute does not have type NONE (stored %s)'%fmt(t),'%s:%d'%(x.file,x.line))
    c.need('append',4);c.need('lookup by index',4);c.need('lookup by name',4)

def sub_this(O,f,t):
    me=O.this(f)
    def r(x):
        if x==('this',): return me
        return tuple(r(y) if isinstance(y,tuple) else y for y in x)
    return r(t)

def mutations(O,f,p):
    out=[]
    for e,inl in flat(p.ev):
        if e[0] in('call',) : continue
        if e[0] in MUT and O.under_this(f,e[1]): out.append((e,inl))
    return out

def index_lookup(c,O,cls,short,infom,A):
    f=O.method(cls,infom,'int')
    if f is None: c.und('lookup by index','%s::%s(int) not found'%(short,infom));return
    it,ps=O.paths(f,cls)
    if ps is None: c.und('lookup by index','%s::%s(int) has too many paths'%(short,infom));return
    me=O.this(f);idx=O.par(f,0);out=O.par(f,1);a=sub_this(O,f,A)
    loc='%s:%d'%(f.file,f.line)
    size=('size',a)
    for p in ps:
        if p.end!=('ret',): continue
        if p.ret not in(('const',0),('const',1)): c.und('lookup by index','%s::%s returns %s'%(short,infom,fmt(p.ret)));continue
        lo=p.has(cmpc('sle',ZERO,idx));hi=p.has(cmpc('slt',idx,size)) or p.has(cmpc('ult',idx,size))
        if p.has(cmpc('ult',idx,size))>0: lo=1;hi=1
        cp=[e for e,_ in flat(p.ev) if e[0]=='copy' and e[1]==out]
        if p.ret==('const',1):
            other=[x for x,_ in p.cond if not known_cond(x,idx,size)]
            if lo<=0 or hi<=0:
                if other and lo==0 and hi==0: c.und('lookup by index','%s::%s decides with %s'%(short,infom,fmt(other[0])));continue
                c.bad('%s::%s index range'%(short,infom),'%s::%s(index) succeeds without requiring 0 <= index < %s'%(short,infom,fmt(size)),loc,'lookup by index',[fmt(x) for x,_ in p.cond]);continue
            want=('elem',a,idx)
            v=it.load(('fld',out,'attributeIndex'),p)
            got=[e[2] for e in cp]
            if got==[want]: c.ok('lookup by index','%s::%s returns the entry at that index'%(short,infom))
            elif got and got[-1][0]=='elem': c.bad('%s::%s entry'%(short,infom),'%s::%s(index) returns %s instead of entry index'%(short,infom,fmt(got[-1])),loc,'lookup by index')
            elif not got: 
                fv=fieldvals(it,p,out)
                w={'type':('load',want),'count':('load',('fld',want,'count')),'attributeIndex':('load',('fld',want,'attributeIndex'))}
                if all(fv[k]==w[k] for k in w): c.ok('lookup by index','%s::%s copies the fields of the entry'%(short,infom))
                else: c.bad('%s::%s no entry'%(short,infom),'%s::%s(index) reports success without storing the entry'%(short,infom),loc,'lookup by index')
            else: c.und('lookup by index','%s::%s copies from %s'%(short,infom,fmt(got[-1])))
        else:
            if lo<0 or hi<0: c.ok('lookup by index','%s::%s rejects only outside the range'%(short,infom))
            else:
                other=[x for x,_ in p.cond if not known_cond(x,idx,size)]
                if other and not(lo>0 and hi>0): c.und('lookup by index','%s::%s rejects on %s'%(short,infom,fmt(other[0])))
                else: c.bad('%s::%s rejects valid'%(short,infom),'%s::%s(index) fails for an index inside 0 <= index < size'%(short,infom),loc,'lookup by index',[fmt(x) for x,_ in p.cond])

def known_cond(x,idx,size):
    if x[0]=='not': x=x[1]
    return x[0]=='cmp' and all(y in(idx,size) or y[0]=='const' for y in x[2:])

def name_lookup(c,O,cls,short,infom,A):
    """the name map, found from (and checked against) the lookup by name"""
    f=O.method(cls,infom,'char const*')
    if f is None: c.und('lookup by name','%s::%s(name) not found'%(short,infom));return None
    it,ps=O.paths(f,cls)
    if ps is None: c.und('lookup by name','%s::%s(name) has too many paths'%(short,infom));return None
    me=O.this(f);nm=O.par(f,0);out=O.par(f,1);a=sub_this(O,f,A)
    loc='%s:%d'%(f.file,f.line);M=None
    for p in ps:
        for x,_ in p.cond:
            y=x[1] if x[0]=='not' else x
            if y[0]=='present' and O.under_this(f,y[1]) and y[2]==nm: M=y[1]
    if M is None: c.und('lookup by name','%s::%s(name) does not search a map member'%(short,infom));return None
    for p in ps:
        if p.end!=('ret',): continue
        if p.ret not in(('const',0),('const',1)): c.und('lookup by name','%s::%s returns %s'%(short,infom,fmt(p.ret)));continue
        h=p.has(('present',M,nm))
        if p.ret==('const',1):
            if h<=0: c.bad('%s::%s unregistered'%(short,infom),'%s::%s(name) succeeds for a name that is not registered'%(short,infom),loc,'lookup by name',[fmt(x) for x,_ in p.cond]);continue
            got=[e[2] for e,_ in flat(p.ev) if e[0]=='copy' and e[1]==out]
            want=('elem',a,('load',('mat',M,nm)))
            if got==[want]: c.ok('lookup by name','%s::%s returns the registered entry'%(short,infom))
            elif got and got[-1][0]=='elem': c.bad('%s::%s wrong entry'%(short,infom),'%s::%s(name) returns %s instead of the entry registered for the name'%(short,infom,fmt(got[-1])),loc,'lookup by name')
            elif not got: c.bad('%s::%s no entry by name'%(short,infom),'%s::%s(name) reports success without storing the entry'%(short,infom),loc,'lookup by name')
            else: c.und('lookup by name','%s::%s copies from %s'%(short,infom,fmt(got[-1])))
        else:
            if h<0: c.ok('lookup by name','%s::%s fails only for unregistered names'%(short,infom))
            elif h>0 and len(p.cond)==1: c.bad('%s::%s fails'%(short,infom),'%s::%s(name) fails for a registered name'%(short,infom),loc,'lookup by name')
            else: c.und('lookup by name','%s::%s fails on %s'%(short,infom,[fmt(x) for x,_ in p.cond]))
    return O.norm(f,M)

def par_vectors(O,cls,A,fixed):
    """member vectors the class indexes with the attributeIndex of an attribute handle"""
    want='Fixed' if fixed else 'Particle'
    out={}
    for f in O.prog.fns:
        if not f.short.startswith(cls+'::'): continue
        ps,_=params(f.dem)
        if not ps: continue
        at=[k for k,t in enumerate(ps) if re.search(r'(Particle|Fixed)Attribute( const)?&|ParticleAccessor&',t)]
        if not at or re.search(r'::(attributeInfo|fixedAttributeInfo)$',f.short): continue
        k=at[0]
        isfixed='FixedAttribute' in ps[k]
        if isfixed!=fixed: continue
        h=O.par(f,k)
        T=Terms(f)
        for i in f.calls():
            if f.callee(i) in('std::vector::operator[]','std::vector::at'):
                t=T.inst(i.id)
                ix=t[2][1]
                if ix[0]=='load' and ix[1][0]=='fld' and ix[1][2]=='attributeIndex' and ix[1][1]==h:
                    v=t[2][0]
                    if v[0]=='fld' and v[1]==O.this(f): out[('fld',('this',),v[2])]=f
    out.pop(A,None)
    return out

def adder(c,O,cls,short,addm,A,M,kind):
    f=O.method(cls,addm,'char const*')
    if f is None: c.und('append','%s::%s not found'%(short,addm));return
    it,ps=O.paths(f,cls)
    if ps is None: c.und('append','%s::%s has too many paths'%(short,addm));return
    me=O.this(f);nm=O.par(f,0);ty=O.par(f,1);ct=O.par(f,2)
    ret=('arg',0) if me!=('arg',0) else None
    a=sub_this(O,f,A);m=sub_this(O,f,M);loc='%s:%d'%(f.file,f.line)
    S=('size',a)
    seen=False
    for p in ps:
        if p.end!=('ret',): continue
        h=p.has(('present',m,nm))
        mut=mutations(O,f,p)
        if h>0:
            ms=[e for e,_ in mut if e[0] not in('mtouch',)]
            key='%s::%s existing name'%(short,addm)
            if ms: c.bad(key,'%s::%s changes the set although the name exists (%s of %s)'%(short,addm,ms[0][0],fmt(ms[0][1])),ms[0][-1] if isinstance(ms[0][-1],str) else loc,'existing name')
            else: c.ok('existing name',key+' changes nothing')
            if ret is not None:
                v=fieldvals(it,p,ret)
                if v['type'] in(('attr0',''),ZERO): c.ok('existing name',key+' returns the default attribute')
                elif v['type'][0] in('load','uninit','undef') : c.und('existing name','%s returns %s'%(key,fmt(v['type'])))
                else: c.bad(key+' result','%s::%s returns an attribute of type %s although the name exists'%(short,addm,fmt(v['type'])),loc,'existing name')
            continue
        pushes=[e for e,inl in mut if e[0]=='push' and e[1]==a]
        sets=map_sets(mut,m)
        if not pushes and not sets and not mut:
            # some other rejection
            w=ordinary(p,ty,ct)
            if w is not None: c.bad('%s::%s refuses'%(short,addm),'%s::%s adds nothing under a new name when the type is %d and the count %d'%((short,addm)+w),loc,'append')
            elif h==0: c.und('append','%s::%s rejects on %s'%(short,addm,[fmt(x) for x,_ in p.cond][:3]))
            else:
                # rejecting a fresh name with valid arguments needs a reason about the arguments
                args=[x for x,_ in p.cond if any(t in(ty,ct) for t in subterms(x))]
                if args: c.und('append','%s::%s refuses on %s'%(short,addm,fmt(args[0])))
                else: c.bad('%s::%s refuses'%(short,addm),'%s::%s adds nothing although the name is new'%(short,addm),loc,'append')
            continue
        if h==0:
            other=[x for x,_ in p.cond if any(t==nm or t[0]=='iv' for t in subterms(x)) and (x[1] if x[0]=='not' else x)[0]!='present']
            other+=[x for x in loop_conds(p.ev) if any(t==nm for t in subterms(x))]
            if other: c.und('append','%s::%s tests the name with %s'%(short,addm,fmt(other[0])));continue
            c.bad('%s::%s duplicate'%(short,addm),'%s::%s adds the attribute without testing whether the name exists'%(short,addm),loc,'existing name');continue
        seen=True
        k0='%s::%s'%(short,addm)
        if any(inl for e,inl in mut if e[0]=='push' and e[1]==a): c.und('append',k0+' appends in a loop');continue
        n=sub(it.size(a,p),S)
        if n!=ONE: c.bad(k0+' append count','%s appends %s entries for one attribute'%(k0,fmt(n)),loc,'append');continue
        c.ok('append',k0+' appends one entry')
        v=fieldvals(it,p,('elem',a,S))
        for fld,want,txt in(('name',nm,'name'),('type',ty,'type'),('count',ct,'count'),('attributeIndex',S,'position')):
            if v[fld]==want: c.ok('append','%s entry has the given %s'%(k0,txt))
            elif v[fld][0] in('load','uninit','val','alt') and not(v[fld][0]=='load' and O.under_this(f,v[fld][1])): c.und('append','%s entry %s is %s'%(k0,txt,fmt(v[fld])))
            else: c.bad('%s entry %s'%(k0,txt),'%s stores %s as the %s of the new entry (expected %s)'%(k0,fmt(v[fld]),txt,fmt(want)),loc,'append')
        if ret is not None:
            w=fieldvals(it,p,ret)
            for fld,want,txt in(('name',nm,'name'),('type',ty,'type'),('count',ct,'count'),('attributeIndex',S,'position')):
                g=w[fld]
                if g[0]=='load' and g[1]==('elem',a,S) and fld=='type' or g==('load',('fld',('elem',a,S),fld)): g=v[fld]
                if g==want: c.ok('append','%s result has the given %s'%(k0,txt))
                elif g[0] in('load','uninit','val','chars'): c.und('append','%s result %s is %s'%(k0,txt,fmt(g)))
                else: c.bad('%s result %s'%(k0,txt),'%s returns %s as the %s (expected %s)'%(k0,fmt(g),txt,fmt(want)),loc,'append')
        if [x[0] for x in sets]!=[nm] : 
            ks=set(x[0] for x in sets)
            if not sets: c.bad(k0+' unregistered','%s does not register the name'%k0,loc,'registration')
            elif ks=={nm} : pass
            elif any(x[0] is None for x in sets): c.und('registration',k0+' registers an unrecognised key')
            else: c.bad(k0+' other name','%s registers %s besides or instead of the given name'%(k0,[fmt(x[0]) for x in sets]),loc,'registration')
        if sets:
            val=it.load(('mat',m,nm),p)
            if val==S: c.ok('registration',k0+' registers the name for the position of the entry')
            elif val[0] in('load','unk'): c.und('registration','%s registers %s'%(k0,fmt(val)))
            else: c.bad(k0+' position','%s registers the name for %s, the entry is at %s'%(k0,fmt(val),fmt(S)),loc,'registration')
        for pv,ff in sorted(par_vectors(O,cls,A,kind!='attribute').items(),key=repr):
            q=sub_this(O,f,pv)
            d=sub(it.size(q,p),('size',q))
            if d==ONE: c.ok('parallel table','%s extends %s with the attribute'%(k0,pv[2]))
            elif d[0]=='const': c.bad('%s table %s'%(k0,pv[2]),'%s adds %s entries to %s, which %s indexes by attributeIndex'%(k0,d[1],pv[2],ff.short.replace('Partio::','')),loc,'parallel table')
            else: c.und('parallel table','%s changes %s by %s'%(k0,pv[2],fmt(d)))
        extra=[e for e,_ in mut if e[0] in('merase','mclear') and e[1]==m or e[0]=='resize' and e[1]==a and not grows(e[2],S)]
        if extra: c.bad(k0+' removes','%s removes entries of existing attributes'%k0,extra[0][-1],'append')
        wr=[e for e,_ in mut if e[0] in('store','setstr','copy') and root_elem(e[1],a) and root_elem(e[1],a)[2]!=S]
        if wr: c.bad(k0+' other entry','%s writes to entry %s'%(k0,fmt(wr[0][1])),loc,'append')
    if not seen: c.und('append','%s::%s has no recognised success path'%(short,addm))

def root_elem(x,a):
    while x[0] in('fld','idx','off'): x=x[1]
    return x if x[0]=='elem' and x[1]==a else None

def map_sets(mut,m):
    """(key, value) entries written to map m"""
    out=[]
    for e,_ in mut:
        if e[0]=='store' and e[1][0]=='mat' and e[1][1]==m: out.append((e[1][2],e[2]))
        if e[0]=='mins' and e[1]==m: out.append((e[2],e[3]))
    return out

def grows(n,S):
    d=sub(n,S)
    return d[0]=='const' and d[1]>=0
def loop_conds(ev):
    for e in ev:
        if e[0]=='loop':
            for cs,b in e[2]:
                for x in cs: yield x[0] if isinstance(x[0],tuple) else x
                yield from loop_conds(b)
