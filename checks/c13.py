"""C13: the string tables of indexed-string attributes stay consistent."""
from obj import *

def norm(O,f,t):
    me=O.this(f);at=O.par(f,0)
    def r(x):
        if x==me: return ('this',)
        if x==at: return ('attr',)
        return tuple(r(y) if isinstance(y,tuple) else y for y in x)
    return r(t)
def denorm(O,f,t):
    me=O.this(f);at=O.par(f,0)
    def r(x):
        if x==('this',): return me
        if x==('attr',): return at
        return tuple(r(y) if isinstance(y,tuple) else y for y in x)
    return r(t)
def indexed_by_attr(t):
    return any(x[0]=='elem' and x[2]==('load',('fld',('attr',),'attributeIndex')) for x in subterms(t))
def conds(p): return [fmt(x) for x,_ in p.cond]
def maps_used(p):
    for x,_ in p.cond:
        y=x[1] if x[0]=='not' else x
        if y[0]=='present': yield y[1]
def other_conds(p,M,extra=()):
    """conditions that are neither presence tests nor about map values or the given terms"""
    out=[]
    for x,_ in p.cond:
        y=x[1] if x[0]=='not' else x
        if y[0]=='present': continue
        if y[0]=='cmp' and all(z[0]=='const' or z in extra or z[0]=='size' or(z[0]=='load' and z[1][0]=='mat') for z in y[2:]): continue
        out.append(x)
    return out

def kind_of_string(p,M,s):
    """every further condition of the path compares a character or the length of the string with a constant"""
    o=other_conds(p,M)
    def part(t):
        if t[0] in('sext','zext') and len(t)>1 and isinstance(t[1],tuple): return part(t[1])
        if t[0]=='load': return any(x==s for x in subterms(t[1])) and not any(x[0] in('load','call','unk','iv') for x in subterms(t[1]))
        return t[0]=='call' and t[1].split('::')[-1] in('strlen','size','length') and any(x==s for x in subterms(t))
    def ok(x):
        y=x[1] if x[0]=='not' else x
        return y[0]=='cmp' and any(part(z) for z in y[2:]) and all(part(z) or z[0]=='const' for z in y[2:])
    return bool(o) and all(ok(x) for x in o)

def run(c):
    c.rule('path-sensitive effect summaries of registerIndexedStr, lookupIndexedStr, indexedStrs, setIndexedStr and their fixed-attribute counterparts in each storing particle-set class, compared with the table contract')
    prog=c.view('inl');O=Obj(c,prog)
    seen={}
    for cls in O.classes:
        for fx in('','Fixed'):
            table(c,O,cls,fx,seen)
    c.need('lookup',6);c.need('register',6);c.need('replace',6);c.need('strings',3)

def table(c,O,cls,fx,seen):
    short=cls.split('::')[-1]
    names={'list':'fixedIndexedStrs' if fx else 'indexedStrs','lookup':'lookup%sIndexedStr'%fx,'register':'register%sIndexedStr'%fx,'set':'set%sIndexedStr'%fx}
    fn={k:O.method(cls,n) for k,n in names.items()}
    if any(f is None for f in fn.values()): c.und('strings','%s lacks %s'%(short,[names[k] for k in fn if fn[k] is None]));return
    R={}
    for k,f in fn.items():
        it,ps=O.paths(f,cls)
        if ps is None: c.und('strings','%s::%s has too many paths'%(short,names[k]));return
        R[k]=(f,it,[p for p in ps if p.end==('ret',)])
    loc={k:'%s:%d'%(f.file,f.line) for k,f in fn.items()}
    f,it,ps=R['list']
    rs=set(norm(O,f,p.ret) for p in ps)
    if all(not any(x==('this',) for x in subterms(t)) for t in rs):
        # stores no strings: a header-only set
        for k in('lookup','register','set'):
            g,_,qs=R[k]
            for p in qs:
                ms=[e for e,_ in flat(p.ev) if e[0] in MUT and O.under_this(g,e[1])]
                c.decide(not ms,'no table','%s::%s'%(short,names[k]),'%s::%s stores strings that %s never returns'%(short,names[k],names['list']),loc[k])
        return
    if len(rs)!=1: c.und('strings','%s::%s returns one of %s'%(short,names['list'],[fmt(x) for x in rs]));return
    STR=rs.pop()
    key=lambda k,w: '%s::%s %s'%(short,names[k],w)
    if not indexed_by_attr(STR):
        if any(x[0]=='elem' for x in subterms(STR)): c.bad(key('list','table'),'%s::%s returns %s, not the table of the attribute it is given'%(short,names['list'],fmt(STR)),loc['list'],'strings')
        else: c.und('strings','%s::%s returns %s'%(short,names['list'],fmt(STR)))
        return
    want='add%sAttribute'%fx
    fam=family(O,cls,STR)
    if fam and want not in fam:
        c.bad(key('list','table'),'%s::%s returns %s, which %s extends'%(short,names['list'],fmt(STR),'/'.join(sorted(fam))),loc['list'],'strings');return
    o=seen.get((short,STR))
    if o: c.bad(key('list','shared'),'%s::%s returns the table %s also uses'%(short,names['list'],o),loc['list'],'strings')
    else: c.ok('strings','%s::%s returns the attribute\'s own table'%(short,names['list']))
    seen[(short,STR)]=names['list']
    # ---- lookup
    f,it,ps=R['lookup'];s=O.par(f,1)
    Ms=set(norm(O,f,m) for p in ps for m in maps_used(p))
    if len(Ms)!=1: c.und('lookup','%s::%s searches %d maps'%(short,names['lookup'],len(Ms)));return
    M=Ms.pop();m=denorm(O,f,M)
    fam=family(O,cls,M)
    if not indexed_by_attr(M) or fam and want not in fam:
        c.bad(key('lookup','table'),'%s::%s searches %s, but the strings of the attribute are %s'%(short,names['lookup'],fmt(M),fmt(STR)),loc['lookup'],'lookup')
        return
    for p in ps:
        h=p.has(('present',m,s))
        mut=[e for e,_ in flat(p.ev) if e[0] in MUT and O.under_this(f,e[1])]
        if mut: c.bad(key('lookup','changes'),'%s::%s changes the set (%s)'%(short,names['lookup'],fmt(mut[0][1])),mut[0][-1],'lookup')
        if h>0:
            if p.ret==('load',('mat',m,s)): c.ok('lookup',key('lookup','returns the index registered for the string'))
            elif p.ret[0]=='const' and not other_conds(p,m) and not infeasible(p,m): c.bad(key('lookup','hit'),'%s::%s returns %s for a registered string'%(short,names['lookup'],fmt(p.ret)),loc['lookup'],'lookup',conds(p))
            elif p.ret[0] in('load','lin') and not other_conds(p,m): c.bad(key('lookup','hit'),'%s::%s returns %s for a registered string'%(short,names['lookup'],fmt(p.ret)),loc['lookup'],'lookup',conds(p))
            else: c.und('lookup',key('lookup','returns %s'%fmt(p.ret)))
        elif h<0:
            if p.ret==('const',-1): c.ok('lookup',key('lookup','returns -1 for an unknown string'))
            elif not other_conds(p,m): c.bad(key('lookup','miss'),'%s::%s returns %s for a string that is not registered'%(short,names['lookup'],fmt(p.ret)),loc['lookup'],'lookup',conds(p))
            else: c.und('lookup',key('lookup','miss returns %s'%fmt(p.ret)))
        else: c.und('lookup',key('lookup','decides without searching the string'))
    # ---- register
    f,it,ps=R['register'];s=O.par(f,1);m=denorm(O,f,M);v=denorm(O,f,STR);S=('size',v)
    for p in ps:
        h=p.has(('present',m,s))
        fl=list(flat(p.ev))
        mut=[e for e,_ in fl if e[0] in MUT and O.under_this(f,e[1])]
        if h>0:
            if infeasible(p,m): continue
            ms=[e for e in mut if e[0]!='mtouch']
            if ms: c.bad(key('register','existing'),'%s::%s changes the table although the string is registered (%s %s)'%(short,names['register'],ms[0][0],fmt(ms[0][1])),ms[0][-1],'register',conds(p))
            elif p.ret==('load',('mat',m,s)): c.ok('register',key('register','returns the existing index'))
            elif not other_conds(p,m): c.bad(key('register','existing result'),'%s::%s returns %s for a registered string'%(short,names['register'],fmt(p.ret)),loc['register'],'register')
            else: c.und('register',key('register','existing returns %s'%fmt(p.ret)))
            continue
        if h==0:
            o=[x for x,_ in p.cond if any(t==s or t[0]=='iv' for t in subterms(x))] or any(e[0]=='loop' for e in p.ev)
            wrong=[x for x in maps_used(p)]
            if wrong: c.bad(key('register','other map'),'%s::%s searches %s, lookup searches %s'%(short,names['register'],fmt(wrong[0]),fmt(m)),loc['register'],'register')
            elif not mut and kind_of_string(p,m,s): c.bad(key('register','refuses'),'%s::%s does not register a new string when %s'%(short,names['register'],conds(p)),loc['register'],'register')
            elif o or not mut: c.und('register',key('register','decides with %s'%conds(p)))
            else: c.bad(key('register','duplicate'),'%s::%s adds the string without testing whether it is registered'%(short,names['register']),loc['register'],'register')
            continue
        if not mut and kind_of_string(p,m,s):
            c.bad(key('register','refuses'),'%s::%s does not register a new string when %s'%(short,names['register'],conds(p)),loc['register'],'register');continue
        if not mut and other_conds(p,m): c.und('register',key('register','refuses on %s'%conds(p)));continue
        d=sub(it.size(v,p),S)
        pushes=[(e,l) for e,l in fl if e[0]=='push' and e[1]==v]
        if d!=ONE:
            if any(l for _,l in pushes) or d[0]!='const': c.und('register',key('register','grows the table by %s'%fmt(d)))
            else: c.bad(key('register','append'),'%s::%s adds %s entries to the strings of the attribute for a new string'%(short,names['register'],fmt(d)),loc['register'],'register',conds(p))
            continue
        new=it.strval(('elem',v,S),p)
        if new==s: c.ok('register',key('register','appends the string'))
        elif new[0] in('str','arg'): c.bad(key('register','content'),'%s::%s appends %s'%(short,names['register'],fmt(new)),loc['register'],'register')
        else: c.und('register',key('register','appends %s'%fmt(new)))
        judge_map(c,it,p,m,s,S,key('register','index'),'%s::%s'%(short,names['register']),loc['register'],'register',mut)
        if p.ret==S: c.ok('register',key('register','returns the new index'))
        elif sub(p.ret,S)[0]=='const' or p.ret[0]=='size': c.bad(key('register','result'),'%s::%s returns %s for a string stored at %s'%(short,names['register'],fmt(p.ret),fmt(S)),loc['register'],'register')
        elif p.ret[0]=='load' and p.ret[1]==('mat',m,s): c.ok('register',key('register','returns the index it registered'))
        else: c.und('register',key('register','returns %s'%fmt(p.ret)))
        stray(c,O,f,fl,(m,v),key('register','other'),'%s::%s'%(short,names['register']),'register',[('elem',v,S)],[s],m)
    # ---- replace
    f,it,ps=R['set'];tok=O.par(f,1);s=O.par(f,2);m=denorm(O,f,M);v=denorm(O,f,STR);S=('size',v)
    old=('chars',('elem',v,tok));changed=False
    for p in ps:
        fl=list(flat(p.ev));mut=[e for e,_ in fl if e[0] in MUT and O.under_this(f,e[1])]
        lo=p.has(cmpc('sle',ZERO,tok));hi=p.has(cmpc('slt',tok,S)) or p.has(cmpc('ult',tok,S))
        if p.has(cmpc('ult',tok,S))>0: lo=hi=1
        if not mut:
            if lo>0 and hi>0:
                same=[x for x,_ in p.cond if any(t in(s,old) for t in subterms(x))]
                if same: c.und('replace',key('set','keeps the entry on %s'%fmt(same[0])))
                else: c.bad(key('set','ignored'),'%s::%s leaves the table unchanged for a token inside it'%(short,names['set']),loc['set'],'replace',conds(p))
            elif lo<0 or hi<0: c.ok('replace',key('set','ignores a token outside the table'))
            else: c.und('replace',key('set','ignores on %s'%conds(p)))
            continue
        if lo<=0 or hi<=0:
            if other_conds(p,m,(tok,)): c.und('replace',key('set','accepts on %s'%conds(p)))
            else: c.bad(key('set','range'),'%s::%s changes the table without requiring 0 <= token < size'%(short,names['set']),loc['set'],'replace',conds(p))
            continue
        changed=True
        e1=[e for e in mut if e[0] in('setstr','copy') and e[1]==('elem',v,tok)]
        now=it.strval(('elem',v,tok),p)
        if now==s: c.ok('replace',key('set','stores the string at the token'))
        elif now==old or now[0]=='arg' or now[0]=='str': c.bad(key('set','content'),'%s::%s leaves %s at the token'%(short,names['set'],fmt(now)),loc['set'],'replace',conds(p))
        else: c.und('replace',key('set','stores %s'%fmt(now)))
        judge_map(c,it,p,m,s,tok,key('set','index'),'%s::%s'%(short,names['set']),loc['set'],'replace',mut)
        er=[k for k,e in enumerate(mut) if e[0]=='merase' and e[1]==m]
        ho=p.has(('present',m,old))
        mine=p.has(cmpc('eq',tok,('load',('mat',m,old))))
        sets=[k for k,e in enumerate(mut) if (e[0]=='store' and e[1]==('mat',m,s)) or (e[0]=='mins' and e[1]==m)]
        if er:
            e=mut[er[0]]
            if e[2]!=old:
                if e[2]==s and er[0]>max(sets,default=-1): c.bad(key('set','erases new'),'%s::%s removes the new string from the map'%(short,names['set']),e[-1],'replace')
                else: c.und('replace',key('set','erases %s'%fmt(e[2])))
            elif 'iter' in e and ho<=0: c.bad(key('set','erase end'),'%s::%s erases the search result without testing that the old string was found'%(short,names['set']),e[-1],'replace',conds(p))
            elif sets and er[0]>max(sets): c.bad(key('set','erase order'),'%s::%s removes the old string after registering the new one, which loses it when both are equal'%(short,names['set']),e[-1],'replace',conds(p))
            else: c.ok('replace',key('set','forgets the old string'))
        else:
            if ho<0 or mine<0: c.ok('replace',key('set','old string does not map to the token'))
            elif [x for x,_ in p.cond if x[0]!='cmp' and any(t in(s,old) for t in subterms(x)) and (x[1] if x[0]=='not' else x)[0]!='present']: c.und('replace',key('set','keeps the old string on %s'%conds(p)))
            elif any(l for e,l in fl if e[0] in('merase','mclear')): c.und('replace',key('set','erases in a loop'))
            else: c.bad(key('set','stale'),'%s::%s leaves the old string registered for the token'%(short,names['set']),loc['set'],'replace',conds(p))
        stray(c,O,f,fl,(m,v),key('set','other'),'%s::%s'%(short,names['set']),'replace',[('elem',v,tok)],[s,old],m)
    if not changed:
        if any(p.ev for p in ps): c.und('replace',key('set','has no recognised change'))
        else: c.bad(key('set','stub'),'%s::%s never changes the table'%(short,names['set']),loc['set'],'replace')

def family(O,cls,t):
    """which adders extend the container the table is an entry of"""
    while t[0] in('fld','idx','off'): t=t[1]
    if t[0]!='elem': return None
    out=set()
    for n in('addAttribute','addFixedAttribute'):
        f=O.method(cls,n,'char const*')
        if f is None: return None
        it,ps=O.paths(f,cls)
        if ps is None: return None
        for p in ps:
            for e,_ in flat(p.ev):
                if e[0] in('push','resize') and O.norm(f,e[1])==t[1]: out.add(n)
    return out

def infeasible(p,m):
    """paths on which a registered index is negative"""
    for x,_ in p.cond:
        if x[0]=='cmp' and x[1]=='slt' and x[2][0]=='load' and x[2][1][0]=='mat' and x[2][1][1]==m and x[3][0]=='const' and x[3][1]<=0: return True
        if x[0]=='cmp' and x[1]=='sle' and x[2][0]=='load' and x[2][1][0]=='mat' and x[2][1][1]==m and x[3][0]=='const' and x[3][1]<0: return True
        if x[0]=='cmp' and x[1]=='eq' and any(y[0]=='load' and y[1][0]=='mat' and y[1][1]==m for y in x[2:]) and any(y[0]=='const' and y[1]<0 for y in x[2:]): return True
    return False

def judge_map(c,it,p,m,s,want,key,who,loc,kind,mut):
    got=it.load(('mat',m,s),p)
    wrote=[e for e in mut if (e[0] in('store',) and e[1][0]=='mat' and e[1][1]==m) or (e[0]=='mins' and e[1]==m)]
    if got==want: c.ok(kind,key+' is registered for the string');return
    if got[0]=='insv' and got[3]==want: c.bad(key,'%s keeps the index of another entry when the string is registered already (insert does not replace)'%who,wrote[-1][-1] if wrote else loc,kind);return
    if not wrote: c.bad(key,'%s does not register the string for its index'%who,loc,kind);return
    k=[e[1][2] if e[0]=='store' else e[2] for e in wrote]
    if s not in k:
        if all(x and x[0] in('arg','chars','str') for x in k): c.bad(key,'%s registers %s instead of the string'%(who,fmt(k[0])),wrote[0][-1],kind)
        else: c.und(kind,key+' key %s'%k)
        return
    if sub(got,want)[0]=='const' or got[0]=='const' or got[0]=='size' and got!=want: c.bad(key,'%s registers the string for %s, it is stored at %s'%(who,fmt(got),fmt(want)),wrote[0][-1],kind)
    elif got==('load',('mat',m,s)) and all(e[0]=='mins' for e in wrote): c.bad(key,'%s keeps the index of another entry for the string (insert does not replace)'%who,wrote[0][-1],kind)
    else: c.und(kind,key+' value %s'%fmt(got))

def stray(c,O,f,fl,tabs,key,who,kind,elems,keys,m):
    """changes of the table other than the entry concerned"""
    for e,l in fl:
        if e[0] not in MUT or not O.under_this(f,e[1]): continue
        x=e[1]
        if e[0] in('store','setstr','copy'):
            y=x
            while y[0] in('fld','idx','off'): y=y[1]
            if y[0]=='elem' and y not in elems and y[1]==tabs[1] and not l: c.bad(key+' entry','%s writes entry %s'%(who,fmt(x)),e[-1],kind)
            elif y[0]=='mat' and y[1]==m and y[2] not in keys and not l and y[2] is not None and y[2][0] in('arg','chars','str'): c.bad(key+' key','%s changes the index of %s'%(who,fmt(y[2])),e[-1],kind)
        if e[0]=='mclear' and e[1]==m: c.bad(key+' clear','%s forgets the other strings'%who,e[-1],kind)
