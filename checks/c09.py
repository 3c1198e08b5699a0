"""C09: the cache counts every reader and frees exactly at zero."""
from flow import *
MAPW=re.compile(r'^std::(unordered_)?map::')

def origin(fn,RT,o,at):
    """('find'|'end'|'begin', map, key term, call) of an iterator argument"""
    t=RT.op(o) if isinstance(o,list) else o
    r,_=split(t)
    c=[]
    if r[0]=='alloca':
        for d in RT.mem.defs(r,at):
            if d[0]=='store': c.append(RT.op(d[1].o[0]))
            elif d[0]=='call' and MAPW.match(fn.callee(d[1])): c.append(('call',fn.callee(d[1]),tuple(RT.op(x) for x in d[1].o),d[1].id))
            elif d[0]=='call' and re.search(r'_Rb_tree_(const_)?iterator$|iterator::operator=$',fn.callee(d[1])):
                for x in d[1].o[1:]: c.append(RT.op(x))
    else: c=[t]
    out=[]
    for x in c:
        x=x[1] if x[0]=='load' else x
        if x[0]=='alloca':
            q=origin(fn,RT,x,at)
            if q: out.append(q)
            continue
        if x[0]=='call' and MAPW.match(x[1]):
            m=x[1].split('::')[-1]
            if m in('find','end','begin','cend','cbegin') and split(x[2][0])[0][0]=='glob': out.append((m.lstrip('c'),split(x[2][0])[0][1],x[2][1] if len(x[2])>1 else None,x[3]))
    kinds=set(q[0] for q in out)
    if 'find' in kinds: return [q for q in out if q[0]=='find'][0]
    return out[0] if out else None

PRED={'eq':lambda a,b:a==b,'ne':lambda a,b:a!=b}
for _q,_f in(('lt',lambda a,b:a<b),('le',lambda a,b:a<=b),('gt',lambda a,b:a>b),('ge',lambda a,b:a>=b)): PRED['s'+_q]=PRED['u'+_q]=_f

class Cache(Client):
    def __init__(s,fn,RT,cnt,tab):
        s.fn=fn;s.RT=RT;s.cnt=cnt;s.tab=tab;s.exits=[];s.unk=[]
        s.cmpz={}
    def track_phi(s,i): return i.d['t'] in('i1','ptr')
    def add(s,ts,e): return ts|{e} if e not in ts else (ts|{(e,'again')})
    def mapof(s,t):
        """global map an entry reference belongs to, and how it was obtained"""
        r,p=split(t)
        n=0
        while n<4:
            n+=1
            if r[0]=='call' and re.search(r'::(operator_arrow|operator\*)$',r[1]) and r[2]:
                q=origin(s.fn,s.RT,r[2][0],s.fn.inst[r[3]])
                if q: return q[1],q[0],q[2],p
                return None
            if r[0]=='call' and re.search(r'map::(operator\[\]|at)$',r[1]):
                g=split(r[2][0])[0]
                return (g[1],'index',r[2][1],p) if g[0]=='glob' else None
            if r[0]=='load': r,p=split(r[1]);continue
            return None
        return None
    def cntval(s,t):
        """0 when the term is the current count, k when it is count+k"""
        if t[0] in('add','sub') and t[2][0]=='const':
            x=s.cntval(t[1])
            return None if x is None else x+(t[2][1] if t[0]=='add' else -t[2][1])
        if t[0]=='load':
            m=s.mapof(t[1])
            if m and m[0]==s.cnt and (not m[3] or m[3][-1]!=('f','#0')): return 0
        return None
    def step(s,F,i,facts,ts):
        fn=s.fn
        if i.op in('call','invoke'):
            n=fn.callee(i)
            if re.match(r'^std::operator(==|!=)$',n):
                q=[origin(fn,s.RT,o,i) for o in i.o]
                q=[x for x in q if x]
                f=[x for x in q if x[0]=='find'];e=[x for x in q if x[0]=='end']
                if f and e:
                    if f[0][1]!=e[0][1]: return [(facts,s.add(ts,('mixed',)))]
                    F.rel.add(i.id)
                    a=dict(facts);a[i.id]=1;b=dict(facts);b[i.id]=0
                    fa,fb=(0,1) if n.endswith('==') else (1,0)
                    out=[]
                    for fx,v in((a,fa),(b,fb)):
                        if ('found',f[0][1],1-v) in ts: continue
                        out.append((fx,ts|{('found',f[0][1],v)}))
                    return out
                return None
            if re.search(r'map::(count|contains)$',n) and split(s.RT.op(i.o[0]))[0][0]=='glob':
                g=split(s.RT.op(i.o[0]))[0][1]
                F.rel.add(i.id)
                a=dict(facts);a[i.id]=1;b=dict(facts);b[i.id]=0
                return [(a,ts|{('found',g,1)}),(b,ts|{('found',g,0)})]
            if re.match(r'virt:\w+::(~|release)$',n):
                return [(facts,s.add(ts,('delete',F.T.op(i.o[0])[0])))]
            if re.search(r'map::erase$',n):
                g=split(s.RT.op(i.o[0]))[0]
                return [(facts,s.add(ts,('erase',g[1] if g[0]=='glob' else '?')))]
            if re.search(r'map::(insert|emplace|try_emplace|insert_or_assign)$',n):
                g=split(s.RT.op(i.o[0]))[0]
                return [(facts,s.add(ts,('insert',g[1] if g[0]=='glob' else '?')))]
            if re.search(r'map::operator\[\]$',n):
                g=split(s.RT.op(i.o[0]))[0]
                return [(facts,ts|{('touch',g[1] if g[0]=='glob' else '?')})]
            if re.search(r'map::begin$',n):
                g=split(s.RT.op(i.o[0]))[0]
                return [(facts,ts|{('scan',g[1] if g[0]=='glob' else '?')})]
            if n=='Partio::read':
                F.rel.add(i.id)
                a=dict(facts);a[i.id]=('res','read');b=dict(facts);b[i.id]='null'
                return [(a,s.add(ts,('read',i.id,1))),(b,s.add(ts,('read',i.id,0)))]
            if re.match(r'virt:\w+::sort$',n): return [(facts,s.add(ts,('sort',)))]
        if i.op=='load':
            m=s.mapof(s.RT.op(i.o[0]))
            if m and m[0]==s.tab and m[1]=='find':
                f=dict(facts);f[i.id]=('res','found');return [(f,ts)]
        if i.op=='store':
            t=s.RT.op(i.o[1]);m=s.mapof(t)
            if m and m[0]==s.cnt:
                v=s.RT.op(i.o[0]);k=s.cntval(v)
                if k is not None: return [(facts,s.add(ts,('count',k)))]
                if v[0]=='const': return [(facts,s.add(ts,('count=',v[1])))]
                return [(facts,s.add(ts,('count?',)))]
            if m and m[0]==s.tab:
                return [(facts,s.add(ts,('entry',F.ev(i.o[0],facts))))]
        return None
    def edge(s,F,b,t,facts,ts):
        fn=s.fn;br=fn.blocks[b][-1]
        if br.op=='br' and br.o and len(fn.succ[b])==2:
            c,pol=norm_cond(s.RT.op(br.o[0]),br.d['succ'][0]==t)
            if c[0]=='cmp' and c[3][0]=='const':
                k=s.cntval(c[2])
                if k is not None:
                    pr=c[1] if pol else NEG[c[1]]
                    # value of the count as stored now: c[2] = count + k, so compare count with const-k
                    x=c[3][1]-k
                    dec=('count',-1) in ts
                    # the compared expression may have been computed before the store
                    y=x if dec and k==0 else (x-1 if k==0 else c[3][1])
                    if k==-1: y=c[3][1]
                    if k==-1 or k==0:
                        if pr=='eq' and y==0 or pr in('sle','ule') and y==0 or pr in('slt','ult') and y==1: return ts|{('zero',1)}
                        if pr=='ne' and y==0 or pr in('sgt','ugt') and y==0 or pr in('sge','uge') and y==1: return ts|{('zero',0)}
                        return ts|{('zero?',pr,y)}
        return ts
    def exit(s,F,i,facts,ts): s.exits.append((ts,F.ev(i.o[0],facts) if i.o else None,F.path(),i,dict(facts)))

def run(ctx):
    ctx.rule('on every path of the cached read, a hit adds one to the entry of the object it returns, a miss stores the object with count one under its file name, a failed read stores nothing')
    ctx.rule('on every path of the cached free, an uncached object is deleted, a cached one loses one count and is deleted and removed from both tables exactly when the count reaches zero')
    p=ctx.view('inl')
    gl={}
    for g in p.d['globals']:
        if re.search(r'cachedParticlesCount',g['name']): gl['cnt']=g['name']
        elif re.search(r'cachedParticles',g['name']) and g.get('def'): gl['tab']=g['name']
    rd=p.one('Partio::readCached');fr=p.one('Partio::freeCached')
    if len(gl)<2:
        # renamed tables: take the two mutable maps the functions use
        mp=[g for g in p.d['globals'] if g.get('def') and re.search(r'map',g['ty']) and 'Caching' in str(g.get('file'))]
        for g in mp:
            if any(fr.callee(i).endswith('::find') and split(Terms(fr).op(i.o[0]))[0]==('glob',g['name']) for i in fr.calls()): gl['cnt']=g['name']
            else: gl['tab']=g['name']
        if len(gl)<2: raise AnalysisBroken('cache tables not found')
    cnt,tab=gl['cnt'],gl['tab']
    # --- freeCached
    RT=RTerms(fr);c=Cache(fr,RT,cnt,tab);F=Flow(fr,c,RT,mem_locals=True);ctx.touch(fr)
    F.run(frozenset(),{('a',0):'nn',('m',-1):0})
    und=0
    for ts,ret,path,i,_ in c.exits:
        again=[e for e in ts if e[-1]=='again']
        found=[e[2] for e in ts if e[0]=='found' and e[1]==cnt]
        dele=[e for e in ts if e[0]=='delete'];er=set(e[1] for e in ts if e[0]=='erase')
        what=', '.join(str(e) for e in sorted(ts,key=str))
        def D(cond,k,msg): ctx.decide(cond,'free path','free:'+k,'freeCached: '+msg,i.loc,path)
        if ('mixed',) in ts: D(False,'mixed','an iterator of one table is compared with the end of the other')
        if not found:
            if dele or er: D(False,'unchecked','deletes or erases without knowing whether the object is cached')
            elif not any(e[0]=='found' for e in ts): ctx.ok('free path','no lookup: nothing freed') if False else D(False,'dropped','an object is neither looked up nor freed')
            continue
        # what the count may be after the decrement, by the conditions of this path
        cond=[e for e in ts if e[0]=='zero?']
        left=[v for v in range(0,8) if all(PRED[e[1]](v,e[2]) for e in cond if e[1] in PRED)]
        if any(e[1] not in PRED or not -8<e[2]<7 for e in cond): und+=1;continue
        if found[0]==0:
            D(len(dele)==1 and not any(a[0][0]=='delete' for a in again),'uncached:delete','an object that is not in the cache is not deleted exactly once')
            D(not er and not any(e[0]=='count' for e in ts),'uncached:tables','an object that is not in the cache changes the cache tables')
        else:
            k=[e[1] for e in ts if e[0]=='count']
            z=[e[1] for e in ts if e[0]=='zero']
            if cond:
                left=[v for v in left if not z or (v==0)==(z[0]==1)]
                zs=sorted({int(v==0) for v in left})
            else: zs=[z[0]] if z else [None]
            for z in ([] if x is None else [x] for x in zs):
                if not z and k==[-1]: D(False,'zero unchecked','the count is decremented but never compared with zero')
                elif z and z[0]==1:
                    D(len(dele)==1 and not any(a[0][0]=='delete' for a in again),'zero:delete','the object is not deleted exactly once when its count reaches zero')
                    D(cnt in er,'zero:count entry','the count entry of a deleted object stays in the table')
                    D(tab in er or ('scan',tab) in ts,'zero:file entry','the file entry of a deleted object stays in the table')
                elif z:
                    D(not dele,'live:delete','an object with remaining users is deleted')
                    D(not er,'live:erase','an object with remaining users is removed from the cache')
                    D(k==[-1] and not any(a[0][0]=='count' for a in again),'live:decrement','freeing one use changes the count by %s'%(k or 'nothing'))
                elif not z: D(False,'no decrement','freeing a cached object does not change its count')
    if und: ctx.assume.append('freeCached: %d paths with an unrecognised count comparison left undecided'%und)
    if not any(fr.callee(i).endswith('map::erase') and split(RT.op(i.o[0]))[0]==('glob',tab) for i in fr.calls()):
        ctx.bad('free:zero:file entry','freeCached: no path removes the file entry',fr.file+':%d'%fr.line,'free path')
    # null
    c2=Cache(fr,RT,cnt,tab);F2=Flow(fr,c2,RT,mem_locals=True);F2.run(frozenset(),{('a',0):'null'})
    for ts,ret,path,i,_ in c2.exits:
        ctx.decide(not any(e[0]=='count' for e in ts),'free path','free:null','freeCached(null) changes a count',i.loc,path)
    # --- readCached
    RT=RTerms(rd);ctx.touch(rd);n=0
    for srt in(0,1):
        c=Cache(rd,RT,cnt,tab);F=Flow(rd,c,RT,mem_locals=True)
        F.run(frozenset(),{('a',1):srt,('a',0):'nn'})
        for ts,ret,path,i,facts in c.exits:
            n+=1
            def D(cond,k,msg): ctx.decide(cond,'read path','read:'+k,'readCached: '+msg,i.loc,path)
            found=[e[2] for e in ts if e[0]=='found' and e[1]==tab]
            rds=[e for e in ts if e[0]=='read'];again=[e for e in ts if e[-1]=='again']
            k=[e[1] for e in ts if e[0]=='count'];k1=[e[1] for e in ts if e[0]=='count=']
            if not found:
                D(False,'lookup','a path does not look the file up in the cache'); continue
            if found[0]==1:
                D(not rds,'hit:read','a cached file is read again')
                D(k==[1] and not k1 and not any(a[0][0]=='count' for a in again),'hit:count','a cache hit changes the count by %s'%((k or k1) or 'nothing'))
                if ret is not None: D(ret==('res','found'),'hit:result','a cache hit does not return the cached object')
                D(not any(e[0]=='entry' for e in ts),'hit:entry','a cache hit overwrites the file entry')
            else:
                D(len(rds)==1,'miss:read','a miss does not read the file exactly once')
                if rds and rds[0][2]==0:
                    D(not any(e[0] in('entry','insert','touch','count=','count') for e in ts),'failed:tables','a failed read leaves an entry in the cache tables')
                    D(ret=='null','failed:result','a failed read does not return null') if ret is not None else None
                elif rds:
                    ent=[e for e in ts if e[0]=='entry']; ins=[e[1] for e in ts if e[0]=='insert']
                    D((len(ent)==1 and ent[0][1] in(('res','read'),None)) or tab in ins,'miss:entry','the object read is not stored under its file name')
                    D(k1==[1] or (k==[1] and not k1) or cnt in ins,'miss:count','the object read starts with count %s'%((k1 or k) or 'unset'))
                    if ret is not None: D(ret==('res','read'),'miss:result','a miss does not return the object that was read')
                    D((('sort',) in ts)==bool(srt),'miss:sort','the object is %s although sort=%d'%('sorted' if ('sort',) in ts else 'not sorted',srt))
    for i in rd.calls():
        if rd.callee(i)=='Partio::read':
            a=[RT.op(x) for x in i.o]
            ctx.decide(a[0]==('arg',0),'read argument','read:arg:filename','readCached reads another file than asked for',i.loc)
            ctx.decide(a[1]==('arg',2),'read argument','read:arg:verbose','readCached does not pass the verbose flag on',i.loc)
            ctx.decide(a[2]==('arg',3),'read argument','read:arg:error','readCached does not report errors to the caller\'s stream',i.loc)
    # keys: the count belongs to the returned object, the entry to the file name
    for i in rd.calls():
        if rd.callee(i).endswith('map::operator[]'):
            g=split(RT.op(i.o[0]))[0]
            key=RT.op(i.o[1]);r=split(key)[0]
            if g==('glob',tab) and r[0]=='alloca':
                src=[RT.op(x) for d in RT.mem.defs(r,i) if d[0]=='call' for x in d[1].o[1:]]
                if src: ctx.decide(('arg',0) in src or any(('arg',0) in atoms(x) for x in src),'read argument','read:key','the file entry is stored under another name',i.loc)
    if not n: raise AnalysisBroken('readCached has no exits')
    ctx.need('free path',2);ctx.need('read path',6)
