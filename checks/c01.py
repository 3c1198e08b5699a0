"""C01: extension dispatch."""
from flow import *

SPEC_R={'bgeo':'BGEO','bhclassic':'BGEO','itbl':'BGEO','atbl':'BGEO','geo':'GEO','hclassic':'GEO','pdb':'PDB','pdb32':'PDB32',
 'pdb64':'PDB64','pda':'PDA','mc':'MC','ptc':'PTC','ptf':'PTC','pdc':'PDC','prt':'PRT','bin':'BIN','pts':'PTS'}
SPEC_W={k:v for k,v in SPEC_R.items() if k not in('mc','pts')}
SPEC_W['rib']='RIB'
API={'read':r'^Partio::read\(char const\*, bool, std::ostream&\)$','readHeaders':r'^Partio::readHeaders\(char const\*, bool, std::ostream&\)$',
 'write':r'^Partio::write\(char const\*, Partio::ParticlesData const&, bool, bool, std::ostream&\)$'}

def key_string(fn,RT,term,at):
    """the literal a std::string temporary was built from"""
    root,_=split(term)
    if root[0]=='str': return root[1].rstrip(b'\0').decode('latin1')
    if root[0]!='alloca': return None
    for d in RT.mem.defs(root,at):
        if d[0]=='call' and re.search(r'basic_string::(basic_string|operator=|assign)$',fn.callee(d[1])):
            for a in d[1].o[1:]:
                t=RT.op(a)
                if t[0]=='str': return t[1].rstrip(b'\0').decode('latin1')
    return None

def tables(ctx,p):
    """every association string -> codec function made anywhere in the library"""
    out=[]
    codec={}
    for f in p.fns:
        m=re.match(r'Partio::(read|write)([A-Z0-9]+)$',f.short)
        if m and len(f.args) in(3,4) and not f.suffix: codec[f.name]=(m.group(1),m.group(2))
    for f in p.fns:
        if not f.file.startswith('src/lib/'): continue
        if not any(o[0]=='g' and o[1] in codec for i in f.insts() for o in operands(i)): continue
        RT=RTerms(f)
        for i in f.insts():
            if i.op=='store' and i.o[0][0]=='g' and i.o[0][1] in codec:
                a=RT.op(i.o[1]); root,_=split(a)
                if root[0]=='call' and re.search(r'(unordered_)?map::(operator\[\]|at)$',root[1]):
                    s=key_string(f,RT,root[2][1],f.inst[root[3]])
                    out.append((s,codec[i.o[0][1]],i.loc,f))
                elif root[0]=='alloca':
                    # pair {string, function}: the string lives in the same object
                    for d in RT.mem.defs(root,i):
                        if d[0]=='call' and d[1].o:
                            s=[RT.op(x) for x in d[1].o]
                            s=[x[1].rstrip(b'\0').decode('latin1') for x in s if x[0]=='str']
                            if s: out.append((s[0],codec[i.o[0][1]],i.loc,f));break
            elif i.op in('call','invoke'):
                fs=[o[1] for o in i.o if o[0]=='g' and o[1] in codec]
                if fs:
                    ss=[key_string(f,RT,RT.op(o),i) for o in i.o if not(o[0]=='g' and o[1] in codec)]
                    ss=[x for x in ss if x]
                    if ss: out.append((ss[0],codec[fs[0]],i.loc,f))
    for g in p.d['globals']:
        ini=g.get('init')
        if not ini: continue
        for k,(off,sz,v) in enumerate(ini):
            if v[0]=='g' and v[1] in codec:
                for j in(k-1,k+1):
                    if 0<=j<len(ini) and ini[j][2][0]=='g' and p.string(ini[j][2][1]) is not None:
                        out.append((p.string(ini[j][2][1]).rstrip(b'\0').decode('latin1'),codec[v[1]],g['name'],None));break
    return out

def run(ctx):
    ctx.rule('the extension-to-codec associations extracted from the source equal the documented table in both directions')
    ctx.rule('each entry point calls the looked-up codec with its own file name, the right header flag, and the error stream exactly when verbose; compression is requested exactly when forced or the name ends in .gz')
    p=ctx.view('inl')
    T=tables(ctx,p)
    if len(T)<10: raise AnalysisBroken('codec table not recognised (%d associations)'%len(T))
    got={'read':{},'write':{}}
    for s,(d,fam),loc,f in T:
        if f: ctx.touch(f)
        if s is None: raise AnalysisBroken('codec table key at %s not recognised'%loc)
        if s in got[d] and got[d][s][0]!=fam: ctx.bad('dup:%s:%s'%(d,s),'extension "%s" is registered for %s%s and %s%s'%(s,d,got[d][s][0],d,fam),loc,'table entry')
        got[d].setdefault(s,(fam,loc))
    for d,spec in(('read',SPEC_R),('write',SPEC_W)):
        for e,fam in spec.items():
            g=got[d].get(e)
            ctx.decide(g is not None and g[0]==fam,'table entry','%s:%s->%s'%(d,e,fam),
                'extension "%s" is %s, not %s%s'%(e,'dispatched to %s%s'%(d,g[0]) if g else 'not registered for %s'%d,d,fam),g[1] if g else 'src/lib/io/ParticleIO.cpp')
        for e,(fam,loc) in got[d].items():
            # an extension outside the documented table must at least be the same format both ways
            other=got['write' if d=='read' else 'read'].get(e)
            ctx.decide(other is None or other[0]==fam,'pair entry','pair:%s:%s'%(d,e),'extension "%s" is read as %s and written as another format'%(e,fam),loc)
            if e in('mc','pts') and d=='write': ctx.bad('write:%s'%e,'read-only format "%s" has a writer'%e,loc,'table entry')
    for name,rx in API.items():
        fs=[f for f in p.fns if re.search(rx,f.dem)]
        if len(fs)!=1: raise AnalysisBroken('entry point %s not found'%name)
        api(ctx,p,name,fs[0])
    ctx.need('table entry',30); ctx.need('dispatch call',3)

def gzcmp(fn,RT):
    """instructions comparing a string with "gz": value true when equal"""
    out=[]
    for i in fn.calls():
        n=fn.callee(i)
        if any(RT.op(o)==('str',b'gz\0') for o in i.o) and re.search(r'operator==|compare|strcmp',n): out.append((i,n))
    return out

def decided_by(fn,block):
    """names of all calls whose results (through values, joins and the branches that choose between them) decide that a block runs"""
    out=set();work=[];done=set();blocks=set()
    def block_conditions(b):
        if b in blocks: return
        blocks.add(b)
        for(c,t) in fn.cdep_closure(b):
            br=fn.blocks[c][-1]
            if br.o: work.append(br.o[0])
    block_conditions(block)
    while work:
        o=work.pop()
        if o[0]!='i' or o[1] in done: continue
        done.add(o[1]); i=fn.inst.get(o[1])
        if i is None: continue
        if i.op in('call','invoke'): out.add(fn.callee(i))
        if i.op=='phi':
            for b,_ in i.d['in']: block_conditions(b)
        work+=list(operands(i))
        if i.op=='alloca':   # what is put into the object it compares
            for w in fn.insts():
                if w.op=='store' and base(fn,w.o[1])==o[1]: work.append(w.o[0])
                elif w.op in('call','invoke') and re.search(r'memcpy|memmove|operator=$|iterator::_Rb_tree',fn.callee(w)) and w.o and base(fn,w.o[0])==o[1]: work+=list(w.o[1:])
    return out

def base(fn,o):
    while o[0]=='i' and fn.inst[o[1]].op in('gep','cast','bitcast'):
        i=fn.inst[o[1]]; o=i.d['base'] if 'base' in i.d else i.o[0]
    return o[1] if o[0]=='i' else None

class DispatchClient(Client):
    def __init__(s,ctx,fn,name,RT,verb,err,force,cfg):
        s.ctx=ctx;s.fn=fn;s.name=name;s.RT=RT;s.verb=verb;s.err=err;s.force=force;s.cfg=cfg;s.calls=0
        s.gz={i.id:n for i,n in gzcmp(fn,RT)}
    def keep(s,k,v): return k in s.gz or (isinstance(k,tuple) and k[0]=='a')
    def track_phi(s,i): return i.d['t'] in('i1','i8','i32','ptr')
    def step(s,F,i,facts,ts):
        fn=s.fn
        if i.id in s.gz:     # both outcomes, remembered for the whole path
            F.rel.add(i.id);eqop='operator==' in s.gz[i.id];out=[]
            for eq in(0,1):
                f=dict(facts);f[i.id]=eq if eqop else (0 if eq else ('ne',0))
                out.append((f,(ts[0],max(ts[1],eq) if ts[1] is not None else eq)))
            return out
        if i.op in('call','invoke') and 'callee' not in i.d and 'vclass' not in i.d:
            s.calls+=1
            c=s.ctx;nm=s.name
            n=3 if nm=='write' else 3
            a=i.o
            c.decide(F.T.op(a[0])==('arg',0),'dispatch argument','%s:filename'%nm,'codec is not called with the caller\'s file name',i.loc)
            if nm!='write':
                want=1 if nm=='readHeaders' else 0
                c.decide(F.ev(a[1],facts)==want,'dispatch argument','%s:headersOnly'%nm,'%s passes headersOnly=%r'%(nm,F.ev(a[1],facts)),i.loc)
            else:
                c.decide(F.T.op(a[1])==('arg',1),'dispatch argument','write:particles','codec is not called with the caller\'s particles',i.loc)
                gzv=ts[1]
                got=F.ev(a[2],facts)
                want=1 if (s.cfg[1] or gzv) else 0
                if s.gz and gzv is not None and not isinstance(got,int): c.und('dispatch argument','write:compressed:force=%d,gz=%d'%(s.cfg[1],gzv))
                elif s.gz and gzv is not None:
                    c.decide(isinstance(got,int) and (got!=0)==bool(want),'dispatch argument','write:compressed:force=%d,gz=%d'%(s.cfg[1],gzv),
                        'compression flag is %r when forced=%d and the name %s .gz'%(got,s.cfg[1],'ends in' if gzv else 'does not end in'),i.loc,F.path())
            e=F.ev(a[-1],facts)
            c.decide(e==('nn' if s.cfg[0] else 'null'),'dispatch argument','%s:errorStream:verbose=%d'%(nm,s.cfg[0]),
                'error stream argument is %r when verbose=%d'%(e,s.cfg[0]),i.loc)
            return [(dict(facts),(ts[0]+1,ts[1]))]
    def exit(s,F,i,facts,ts):
        s.ctx.decide(ts[0]<=1,'dispatch count','%s:once'%s.name,'codec called more than once',i.loc)
        if s.name!='write' and ts[0]==0:
            v=F.ev(i.o[0],facts)
            s.ctx.decide(v=='null','no codec -> null','%s:null'%s.name,'a path that calls no codec returns a non-null result',i.loc,F.path())

def api(ctx,p,name,fn):
    ctx.touch(fn)
    RT=RTerms(fn)
    nargs=len(fn.args)
    err=('a',nargs-1);verb=('a',nargs-2);force=('a',2) if name=='write' else None
    ind=[i for i in fn.calls() if 'callee' not in i.d and 'vclass' not in i.d and not i.d.get('asm')]
    direct=[i for i in fn.calls() if re.match(r'Partio::(read|write)[A-Z]+',fn.callee(i))]
    if not ind: raise AnalysisBroken('%s: no indirect codec call'%name)
    for i in ind:
        ctx.ok('dispatch call','%s at %s'%(name,i.loc))
        deep=decided_by(fn,i.bb)
        # the lookup result (or end()) decides whether the codec is called
        look=[n for n in fn.calls() if re.search(r'map::(find|count|contains|end)$',fn.callee(n))]
        guard=any(re.search(r'map::(find|count|contains)|_Rb_tree.*(find|operator(==|!=))',n) for n in deep)
        ctx.decide(guard or not look,'lookup guard','%s:lookup guard'%name,'codec call is not guarded by the result of the table lookup',i.loc)
        # what it looks up
    for v in(0,1):
        for fo in((0,1) if name=='write' else (0,)):
            init={verb:v,err:'nn'}
            if force: init[force]=fo
            cl=DispatchClient(ctx,fn,name,RT,verb,err,force,(v,fo))
            F=Flow(fn,cl,RT); F.run((0,None),init)
            if not cl.calls: raise AnalysisBroken('%s: dispatch unreachable'%name)
    ext(ctx,fn,RT,name)

def lin(t,sign=1,acc=None):
    if acc is None: acc=collections.Counter()
    if t[0]=='add': lin(t[1],sign,acc);lin(t[2],sign,acc)
    elif t[0]=='sub': lin(t[1],sign,acc);lin(t[2],-sign,acc)
    elif t[0]=='const': acc[1]+=sign*t[1]
    else: acc[t]+=sign
    return acc
def lineq(a,b):
    x=lin(a); y=lin(b)
    for k in set(x)|set(y):
        if x[k]!=y[k]: return False
    return True

def ext(ctx,fn,RT,name):
    """shape of the extension computation, where it uses rfind/substr on the file name"""
    rf=[i for i in fn.calls() if re.search(r'basic_string::(rfind|find_last_of)$',fn.callee(i))]
    sb=[i for i in fn.calls() if re.search(r'basic_string::substr$',fn.callee(i))]
    gz=gzcmp(fn,RT)
    odd=collections.Counter()
    for i in fn.calls():
        n=fn.callee(i)
        if re.match(r'(std::)?(tolower|toupper|towlower|strcasecmp|strncasecmp|std::ctype::to(lower|upper))$',n):
            ctx.bad('%s:case'%name,'the extension is not compared as it is written: %s'%n,i.loc,'extension shape')
        if re.search(r'operator==|operator!=|basic_string::(compare|find|rfind)$|strcmp',n):
            for o in i.o:
                t=RT.op(o)
                if t[0]=='str' and re.search(rb'[A-Za-z]',t[1]):
                    l=t[1].rstrip(b'\0').decode('latin1').lstrip('.')
                    if l!='gz' and l not in SPEC_R and l not in SPEC_W: ctx.bad('%s:special:%s'%(name,l),'names ending in "%s" are treated specially'%l,i.loc,'extension shape')
        if re.search(r'map::operator\[\]$',n) and key_string(fn,RT,RT.inst(i.id)[2][1] if RT.inst(i.id)[0]=='call' else ('?',),i) is None and not any(u.op=='store' and u.o[1]==['i',i.id] for u in fn.users.get(i.id,())):
            # reading an entry creates it: fine only where the codec found is tested for presence
            ind=[j for j in fn.calls() if 'callee' not in j.d and 'vclass' not in j.d and not j.d.get('asm')]
            tested=any(j.op=='icmp' and any(o[0] in('n','z') for o in j.o) and any('map::operator[]' in str(RT.op(o)) for o in j.o) for j in fn.insts())
            if not tested: ctx.bad('%s:entry'%name,'the lookup adds an entry without a codec to the table for an unknown extension',i.loc,'lookup guard')
    if not gz: 
        allg=[i for i in fn.insts() for o in operands(i) if o[0]=='g' and (p_str(fn,o) or b'').rstrip(b'\0') in(b'gz',b'.gz')]
        ctx.decide(bool(allg),'extension shape','%s:gz'%name,'the trailing .gz is not recognised',fn.file+':%d'%fn.line)
    else: ctx.ok('extension shape','%s:gz compared'%name)
    for i in fn.calls():
        if not re.search(r'^(std::basic_string::(find|find_first_of)|strchr|memchr|index)$',fn.callee(i)) or fn.loops_of(i.bb): continue
        if not any(RT.op(x) in(('const',46),('str',b'.\0')) for x in i.o): continue
        ctx.bad('%s:first dot'%name,'the extension is looked for from the start of the name: a name with several dots gets the wrong format',i.loc,'extension shape')
    if len(rf)!=2 or len(sb)!=2: 
        ctx.assume.append('%s: extension computation is not in rfind/substr form; its offsets were not decided'%name); return
    dom=sorted(rf,key=lambda i:(len(fn.loops_of(i.bb)),i.id))
    a,b=(rf[0],rf[1]) if fn.inst_dominates(rf[0],rf[1]) else (rf[1],rf[0])
    P=RT.inst(a.id);Q=RT.inst(b.id)
    dot=[RT.op(x) for x in a.o]
    ctx.decide(any(x in(('const',46),('str',b'.\0')) for x in dot),'extension shape','%s:last dot'%name,'extension does not start at a dot',a.loc)
    ok=len(b.o)>=3 and lineq(RT.op(b.o[2]),('sub',P,('const',1))) or RT.op(b.o[0])!=RT.op(a.o[0])
    ctx.decide(ok,'extension shape','%s:previous dot'%name,'the inner extension is not searched before the last dot',b.loc)
    for i in sb:
        off=3 if i.d.get('sret') is not None else 2
        args=[RT.op(x) for x in i.o]
        st,ln=args[2],args[3] if len(args)>3 else ('const',-1)
        if lineq(st,('add',P,('const',1))): 
            ctx.decide(ln==('const',-1),'extension shape','%s:outer extension'%name,'outer extension is cut short',i.loc)
        elif lineq(st,('add',Q,('const',1))):
            ok=lineq(ln,('sub',('sub',P,Q),('const',1))) or (ln==('const',-1) and args[1]!=RT.op(a.o[0]))
            ctx.decide(ok,'extension shape','%s:inner extension'%name,'inner extension is not the text between the two dots',i.loc)
        elif lineq(st,('const',0)): pass
        else: ctx.bad('%s:extension offset'%name,'extension does not start right after a dot: %s'%show(st,fn,3),i.loc,'extension shape')
def p_str(fn,o): return fn.prog.string(o[1])
