"""C05: unopenable files and foreign files are refused."""
from util import *
import extract
from c04 import stream_args
# first bytes of a file of each format, and what the version field must satisfy
MAGIC={'BGEO':b'Bgeo','PDB':b'\x9e\x02\x00\x00','PDB32':b'\x9e\x02\x00\x00','PDB64':b'\x9e\x02\x00\x00','PDC':b'PDC ','MC':b'FOR4',
       'PRT':b'\xc0PRT\r\n\x1a\n','BIN':b'\xda\xba\xfa\x00','PTC':b'pptc'}
VERSION={'BGEO':('eq',5),'PTC':('max',2),'BIN':('max',13)}
QUERY={'std::basic_ios::operator!':1,'std::basic_ios::operator bool':0,'std::basic_ios::good':0,'std::basic_ios::fail':1,'std::basic_ios::bad':0,
       'std::basic_ios::eof':0,'std::basic_ifstream::is_open':0,'std::basic_ofstream::is_open':0,'std::basic_fstream::is_open':0}
OPEN=re.compile(r'^(Partio::(io::)?\w+|std::basic_[io]?f?stream::(open|basic_[io]?f?stream))$')
CMP=re.compile(r'^(memcmp|strcmp|strncmp|strcasecmp|bcmp|std::basic_string::compare)$')

class Force(Client):
    """all paths under the assumption that some values are known"""
    def __init__(s,force,any=False): s.any=any;s.force=force;s.rets=[];s.hit=0
    def keep(s,k,v): return True
    def track_phi(s,i): return i.d['t'] in('i1','ptr')
    def step(s,F,i,facts,ts):
        v=s.force(F,i)
        if v is not None:
            s.hit+=1;ts=1;f=dict(facts);f[i.id]=v;F.rel.add(i.id);return [(f,ts)]
        if i.op in('call','invoke') and (OPEN.match(F.fn.callee(i)) or s.any): return [(facts,1)]
        return None
    def exit(s,F,i,facts,ts):
        if ts: s.rets.append((F.ev(i.o[0],facts) if i.o else None,i,F.path()))

def run(ctx):
    ctx.rule('under the assumption that every state query of the opened stream reports failure, every reachable return of a reader is null and of a writer false')
    ctx.rule('under the assumption that the comparison of the leading bytes with the documented magic fails, every reachable return of a reader is null; the constants compared are the documented ones')
    ctx.rule('no reader reaches success without the branch that bounds the format version')
    p=ctx.view('inl')
    fns=[f for f in p.fns if not f.suffix and stream_args(f) and re.match(r'Partio::(read|write)[A-Z0-9]+$',f.short)]
    for f in fns:
        nm=re.sub(r'Partio::(read|write)','',f.short);rd=f.short.startswith('Partio::read');ctx.touch(f)
        RT=RTerms(f)
        c=Force(lambda F,i: QUERY.get(f.callee(i)) if i.op in('call','invoke') else None)
        F=Flow(f,c,RT);F.run(0)
        bad=[r for r in c.rets if r[0] not in('null',0)]
        ctx.decide(not bad,'unopenable',f.short+':open','%s although the file could not be opened'%('hands out particles' if rd else 'reports success'),bad[0][1].loc if bad else '',bad[0][2] if bad else ())
        if not rd: continue
        if nm in MAGIC: magic(ctx,p,f,RT,nm)
        if nm in VERSION: version(ctx,p,f,RT,nm)
    ctx.need('unopenable',18);ctx.need('magic',6)

def constbytes(p,f,RT,o):
    """constant bytes an argument of a comparison points to"""
    t=RT.op(o)
    while t[0] in('fld','off','idx') and t[0]!='off': t=t[1]
    if t[0]=='str': return t[1]
    g=None
    if t[0]=='glob': g=p.globals.get(t[1])
    if t[0]=='alloca':
        for i in f.insts():
            if i.op in('call','invoke') and f.callee(i) in('llvm.memcpy','memcpy') and RT.op(i.o[0])==t:
                s=RT.op(i.o[1])
                if s[0]=='str': return s[1]
                if s[0]=='glob': g=p.globals.get(s[1])
    if g:
        if 'str' in g: return bytes.fromhex(g['str'])
        if 'init' in g:
            b=bytearray()
            for off,sz,v in g['init']:
                if v[0]!='c': return None
                b+=(v[1]&((1<<8*sz)-1)).to_bytes(sz,'little')
            return bytes(b)
    return None

def magic(ctx,p,f,RT,nm):
    m=MAGIC[nm];want={int.from_bytes(m[:4],'little'),int.from_bytes(m[:4],'big')}
    other=[];sites=set()
    def order(i,o):
        """the word compared with the magic has the byte order the constant is written in"""
        v=i.o[0] if i.o[1] is o else i.o[1]
        t=T.op(v);flip=0
        while t[0] in('call','bswap') and 'bswap' in str(t[1] if t[0]=='call' else t[0]):
            x=f.val(v)
            if x is None or not x.o: return
            flip^=1;v=x.o[0];t=T.op(v)
        if t[0]!='load': return
        r,_=split(t[1]);ds=RT.mem.defs(r,i)
        if r[0]!='alloca' or not ds: return
        ns=[f.callee(d[1]) for d in ds if d[0]=='call']
        if not any('wap' in n for n in ns) and any(d[0]!='call' for d in ds) or any(not re.search(r'endianSwap|::swap$|istream::read$',n) for n in ns): return
        sw=[n for n in ns if 'istream' not in n]
        k=(o[1]&0xffffffff)
        if m[:4]==m[:4][::-1] or len(sw)>1: return
        ctx.decide((bool(sw)^bool(flip))==(k==int.from_bytes(m[:4],'big')),'magic','%s:order'%f.short,'accepts the magic number in the wrong byte order',i.loc)
    T=Terms(f)
    def force(F,i):
        if i.op=='icmp' and i.d['pred'] in('eq','ne'):
            for o in i.o:
                if o[0]=='c' and (o[1]&0xffffffff) in want: sites.add(i.id);order(i,o);return int(i.d['pred']=='ne')
        if i.op in('call','invoke'):
            n=f.callee(i)
            if CMP.match(n):
                bs=[x for x in(constbytes(p,f,RT,o) for o in i.o[:2] if o[0] in('i','g','ge')) if x is not None]
                if any(b.rstrip(b'\0')==m.rstrip(b'\0') for b in bs):
                    sites.add(i.id)
                    if len(i.o)>2:
                        l=RT.op(i.o[2])
                        if l[0]=='call' and l[1]=='strlen' and constbytes(p,f,RT,f.inst[l[3]].o[0]) is None: ctx.bad('%s:length'%f.short,'as many bytes are compared as the file has before its first zero: an empty string passes for the magic',i.loc,'magic')
                        elif l[0]=='call': ctx.und('magic',f.short)
                        else: ctx.decide(l[0]!='const' or l[1]>=len(m),'magic','%s:length'%f.short,'only %s of the %d magic bytes are compared'%(l[1],len(m)),i.loc)
                    return 1
                if len(bs)==1: return 1
            if re.match(r'std::operator(==|!=)$',n):
                t=[RT.op(o) for o in i.o]
                if any(x==('str',m+b'\0') for x in t): sites.add(i.id);return int('!=' in n)
        if i.op=='switch' : pass
        return None
    c=Force(force,True);F=Flow(f,c,RT);F.run(0)
    if not sites:
        consts={o[1]&255 for i in f.insts() if i.op=='icmp' for o in i.o if o[0]=='c'}
        if len(set(m)&consts-{0})>=3 or any((v&0xffffffff) in want for i in f.insts() if i.op=='switch' for v,_ in i.d['cases']): ctx.und('magic',f.short);return
        ctx.bad('%s:magic'%f.short,'the leading bytes are not compared with %r'%m,f.file+':%d'%f.line,'magic');return
    bad=[r for r in c.rets if r[0] not in('null',0)]
    ctx.decide(not bad,'magic',f.short+':magic','accepts a file whose leading bytes are not %r'%m,bad[0][1].loc if bad else '',bad[0][2] if bad else ())

class Ver(Client):
    def __init__(s,RT,ok,vt=None): s.RT=RT;s.ok=ok;s.vt=vt;s.rets=[]
    def track_phi(s,i): return i.d['t'] in('i1','ptr')
    def edge(s,F,b,t,facts,ts):
        br=F.fn.blocks[b][-1]
        if not ts and br.op=='br' and br.o and len(F.fn.succ[b])==2:
            c,pol=norm_cond(s.RT.op(br.o[0]),br.d['succ'][0]==t)
            if c[0]=='cmp':
                x,y,pr=c[2],c[3],c[1] if pol else NEG[c[1]]
                if x[0]=='const': x,y=y,x;pr=SWAP[pr]
                if y[0]=='const' and not any(a[0]=='call' for a in atoms(x) if isinstance(a[1],str) and not a[1].startswith('llvm')):
                    if s.ok(pr,y[1]) and(s.vt is None or vkey(x) in s.vt): return 1
        elif not ts and br.op=='switch':
            cs=[v for v,u in br.d['cases'] if u==t]
            if cs and all(s.ok('eq',v) for v in cs) and(s.vt is None or vkey(s.RT.op(br.o[0])) in s.vt): return 1
        return ts
    def exit(s,F,i,facts,ts): s.rets.append((F.ev(i.o[0],facts) if i.o else None,ts,i,F.path()))

def vkey(t):
    """a value as the place it was read from"""
    while t[0] in('zext','sext','trunc','cast') and isinstance(t[1],tuple): t=t[1]
    return str(t)

def version(ctx,p,f,RT,nm):
    k,v=VERSION[nm]
    vt={vkey(RT.op(i.o[1-j])) for i in f.insts() if i.op=='icmp' for j,o in enumerate(i.o) if o[0]=='c' and(o[1]==v or o[1]==v+1 and i.d['pred'][1:] in('lt','ge')) }
    vt|={vkey(RT.op(i.o[0])) for i in f.insts() if i.op=='switch' and any(c==v for c,_ in i.d['cases'])}
    if k=='eq': ok=lambda pr,c: pr=='eq' and c==v
    else: ok=lambda pr,c: pr in('sle','ule') and c==v or pr in('slt','ult') and c==v+1 or pr=='eq' and 0<=c<=v
    c=Ver(RT,ok,vt if k=='max' else None);F=Flow(f,c,RT);F.run(0)
    bad=[r for r in c.rets if r[0] not in('null',0) and not r[1]]
    ctx.decide(not bad,'version',f.short+':version','accepts files whose version is not %s %d'%('exactly' if k=='eq' else 'at most',v),bad[0][2].loc if bad else '',bad[0][3] if bad else ())
