"""C17: the gzip layer."""
from util import *
import extract

def fieldof(t):
    r,p=split(t)
    f=[x[1] for x in p if x[0]=='f']
    return f[-1] if f else None
def arrsize(p,cls,field):
    s=p.structs.get(cls)
    for f in (s or {}).get('fields',()):
        if f[0]==field:
            m=re.match(r'\[(\d+) x i8\]',f[3])
            return int(m.group(1)) if m else None

class Inf(Client):
    """what happens after one given return code of inflate/deflate"""
    def __init__(s,name,code,RT=None): s.name=name;s.code=code;s.RT=RT;s.handed=[];s.again=[];s.rets=[];s.ended=[];s.n=0;s.arg=None
    def keep(s,k,v): return k=='Z'
    def track_phi(s,i): return i.d['t'] in('i32','i64')
    def step(s,F,i,facts,ts):
        if i.op in('call','invoke'):
            n=F.fn.callee(i)
            if n==s.name:
                if ts: s.again.append((i,F.path())); return []
                s.n+=1
                F.rel.add(i.id);f=dict(facts);f[i.id]=s.code
                s.arg=F.ev(i.o[1],facts)
                return [(f,1)]
            if n==s.name+'End' and ts: return [(facts,ts|2)]
            if re.search(r'basic_streambuf::setg$',n):
                for sy,sz in addr(s.RT.op(i.o[3]))[2]:
                    if sy[0]=='phi': s.handed.append((F.ev(['i',sy[1]],facts),i,F.path()))
        if i.op=='store' and ts and fieldof(s.RT.op(i.o[1]))=='valid' and i.o[0][0]=='c' and i.o[0][1]==0: return [(facts,ts|4)]
        return None
    def exit(s,F,i,facts,ts):
        if ts: s.rets.append((F.ev(i.o[0],facts) if i.o else None,i,F.path(),ts))

def run(ctx):
    ctx.rule('for each return code of inflate that means end, error or no progress, no path reaches another inflate in the same refill, and error codes end the stream')
    ctx.rule('buffer extents: input is read and output inflated within the member buffers, and exactly the produced bytes are handed to the reader or written out')
    ctx.rule('a writer finishes with Z_FINISH until the stream end, then the checksum and the length of all consumed input; header fields and flags follow RFC 1952')
    p=ctx.view('inl')
    dec=[f for f in p.fns if any(f.callee(i)=='inflate' for i in f.calls()) and 'PRT' not in f.file and not f.suffix]
    dec=[f for f in dec if f.file.endswith('ZIP.cpp')]
    enc=[f for f in p.fns if any(f.callee(i)=='deflate' for i in f.calls()) and f.file.endswith('ZIP.cpp')]
    if not dec or not enc: raise AnalysisBroken('gzip codec not found')
    for f in dec: decode(ctx,p,f)
    for f in enc: encode(ctx,p,f)
    for f in p.fns:
        if f.file.endswith('ZIP.cpp') and f.short.endswith('::~ZipStreambufCompress'): finish(ctx,f)
        if f.file.endswith('ZIP.cpp') and re.search(r'::~ZipStreambuf(De)?[cC]ompress$',f.short): owner(ctx,f)
    hdr(ctx,p)
    opens(ctx,p)
    ctx.need('refill ends',6);ctx.need('finish',1)

def decode(ctx,p,f):
    ctx.touch(f);RT=RTerms(f)
    und=f.short.split('::')[-1]
    for code,name,err in((1,'Z_STREAM_END',0),(-5,'Z_BUF_ERROR',0),(2,'Z_NEED_DICT',1),(-3,'Z_DATA_ERROR',1),(-2,'Z_STREAM_ERROR',1),(-4,'Z_MEM_ERROR',1)):
        c=Inf('inflate',code,RT);F=Flow(f,c,RT);F.run(0)
        if not c.n: continue
        a=c.again[0] if c.again else None
        ctx.decide(not c.again,'refill ends','%s:%s'%(und,name),'after inflate returned %s it is called again with nothing to make progress with'%name,a[0].loc if a else '',a[1] if a else ())
        for v,i,path in c.handed:
            ctx.decide(not isinstance(v,int) or v>=0,'handed out','%s:%s:get area'%(und,name),'after %s the get area ends %r bytes past its start'%(name,v),i.loc,path)
        released(ctx,c,und,name)
        if err:
            for v,i,path,ts in c.rets:
                ctx.decide(not isinstance(v,int) or v<=0,'error ends stream','%s:%s:result'%(und,name),'after %s the refill still reports %r bytes'%(name,v),i.loc,path)
    c=Inf('inflate',0,RT);F=Flow(f,c,RT);F.run(0)
    if c.n: ctx.decide(bool(c.again),'refill continues','%s:Z_OK'%und,'inflate is not continued after Z_OK although the output buffer has room',f.file+':%d'%f.line)
    cls=f.short.rsplit('::',1)[0]
    sized=lambda fld: arrsize(p,cls,fld)
    st=lambda nm: [i for i in f.insts() if i.op=='store' and fieldof(RT.op(i.o[1]))==nm]
    # output extent
    AO=[(i,RT.op(i.o[0])) for i in st('avail_out')]; NO=[(i,RT.op(i.o[0])) for i in st('next_out')]
    start=None;room=None
    for (i,v),(j,a) in zip(AO,NO):
        r,off,sym,fl=addr(a)
        n=ub(f,RT,v)
        if not fl or sized(fl[-1]) is None or n is None: ctx.und('buffer extent',f.short+' output');continue
        ctx.decide(off+n<=sized(fl[-1]) and not sym,'buffer extent','%s:output'%und,'inflate may write %d bytes from offset %d of a %d-byte buffer'%(n,off,sized(fl[-1])),i.loc)
        start=(fl[-1],off);room=v
    # input extent
    for i in f.calls():
        if f.callee(i)!='std::istream::read': continue
        r,off,sym,fl=addr(RT.op(i.o[1]))
        if r!=('arg',0) or not fl or sized(fl[-1]) is None: continue
        n=ub(f,RT,RT.op(i.o[2]))
        if n is None: ctx.und('buffer extent',f.short+' input');continue
        ctx.decide(off+n<=sized(fl[-1]) and n>0,'buffer extent','%s:input:%s'%(und,fl[-1]),'reads %d bytes at offset %d of a %d-byte buffer'%(n,off,sized(fl[-1])),i.loc)
    for i in st('avail_in'):
        v=RT.op(i.o[0])
        ok=v[0]=='call' and v[1]=='std::istream::gcount'
        if v==('const',0): continue
        if v[0]!='call' and not any(x[0]=='call' and x[1]=='std::istream::gcount' for x in atoms(v)):
            ctx.bad('%s:avail_in'%und,'inflate is given a byte count that is not the number of bytes read',i.loc,'buffer extent')
        else: ctx.decide(ok,'buffer extent','%s:avail_in'%und,'inflate is given a byte count that is not the number of bytes read',i.loc)
    # put-back room
    for i in f.calls():
        if f.callee(i) not in('llvm.memmove','memmove','llvm.memcpy','memcpy'): continue
        r,off,sym,fl=addr(RT.op(i.o[0]))
        if not fl or sized(fl[-1]) is None: continue
        if not sym: continue
        L=collections.Counter()
        for s_,z in sym: 
            if z==1: L.update(lin(s_))
            else: L['?']=1
        neg=[k for k in L if k!=1 and L[k]]
        if len(neg)!=1 or neg[0]=='?' or L[neg[0]]!=-1: ctx.und('buffer extent',f.short+' put back');continue
        b=ub(f,RT,neg[0])
        if b is None: ctx.und('buffer extent',f.short+' put back');continue
        ctx.decide(off+L[1]-b>=0,'buffer extent','%s:put back'%und,'up to %d characters are kept for put-back in %d bytes'%(b,off+L[1]),i.loc)
    # the character returned
    if f.dem.split('(')[0].endswith(('::underflow','::uflow')):
        seen=set();work=[i.o[0] for i in f.insts() if i.op=='ret' and i.o];sx=[]
        while work:
            x=f.val(work.pop())
            if x is None or x.id in seen: continue
            seen.add(x.id)
            if x.op=='phi': work+=[v for b,v in x.d['in']]
            elif x.op=='select': work+=x.o[1:3]
            elif x.op=='sext' and (f.val(x.o[0]) is None or f.val(x.o[0]).d.get('t')=='i8'): sx.append(x)
            elif x.op in('sext','zext','trunc') : work.append(x.o[0])
        ctx.decide(not sx,'handed out','%s:character'%und,'the character is returned sign-extended: the byte 0xff reads as the end of the stream',sx[0].loc if sx else f.file+':%d'%f.line)
    # what is handed out
    for i in f.calls():
        if not re.search(r'basic_streambuf::setg$',f.callee(i)): continue
        b,g,e=[addr(RT.op(x)) for x in i.o[1:4]]
        if start is None or not g[3]: ctx.und('handed out',f.short);continue
        ctx.decide(g[3][-1]==start[0] and g[1]==start[1] and not g[2],'handed out','%s:start'%und,'the get area starts at offset %d, decoding at %d'%(g[1],start[1]),i.loc)
        leaves=[]
        for s,sz in e[2]: leaves+=value_leaves(f,RT,s)
        ok=e[1]==g[1] and len(e[2])==1 and e[2][0][1]==1
        ctx.decide(ok,'handed out','%s:end'%und,'the get area does not end at start + number of decoded bytes',i.loc)
        inf=[l for l in leaves if any(x[0]=='load' and fieldof(x[1])=='avail_out' for x in atoms(l))]
        if not inf and leaves: ctx.und('handed out',f.short+' count')
        for l in leaves:
            if inf and l[0]=='const': ctx.decide(l[1]<=0,'handed out','%s:fixed count'%und,'%d decoded bytes are handed out whatever inflate produced'%l[1],i.loc)
        # one decoded byte is data, not the end
        for x in f.insts():
            if x.op!='icmp' or not inf: continue
            t=RT.inst(x.id)
            if t[0]!='cmp' or t[3][0]!='const' or not isinstance(t[3][1],int): continue
            lv=[noid(l) for l in value_leaves(f,RT,t[2])]
            if not any(noid(l) in lv for l in inf): continue
            c1=t[3][1];v={'eq':1==c1,'ne':1!=c1,'slt':1<c1,'sle':1<=c1,'sgt':1>c1,'sge':1>=c1}.get(t[1])
            br=[b for b in f.rpo() if f.blocks[b][-1].op=='br' and f.blocks[b][-1].o and f.blocks[b][-1].o[0]==['i',x.id]]
            for b in br:
                tgt=f.blocks[b][-1].d['succ'][0 if v else 1]
                r=f.reach(tgt)|{tgt};got=set()
                for q in f.insts():
                    if q.op=='ret' and q.o:
                        y=f.val(q.o[0])
                        if y is not None and y.op=='phi':
                            for pb,o in y.d['in']:
                                if pb in r or (pb==b and y.bb==tgt): got.add(o[1] if o[0]=='c' else None)
                        else: got.add(q.o[0][1] if q.o[0][0]=='c' else None)
                if v is not None and f.dem.split('(')[0].endswith(('::underflow','::uflow')): ctx.decide(got!={-1},'handed out','%s:last byte'%und,'a single decoded byte is taken for the end of the stream',x.loc)
        for l in inf:
            L=lin(l); av=[k for k in L if k!=1]
            ctx.decide(len(av)==1 and L[av[0]]==-1 and room[0]=='const' and L[1]==room[1],'handed out','%s:count'%und,'the number of decoded bytes is computed as %s, with %s bytes of room'%(show(l,f,4),room[1] if room and room[0]=='const' else '?'),i.loc)

def released(ctx,c,und,name):
    for v,i,path,ts in c.rets:
        ctx.decide(not(ts&4) or bool(ts&2),'released','%s:%s'%(und,name),'after %s the stream is marked unusable, so its destructor skips the zlib state, which was not released'%name,i.loc,path)

def encode(ctx,p,f):
    ctx.touch(f);RT=RTerms(f);T=RT
    und=f.short.split('::')[-1];cls=f.short.rsplit('::',1)[0]
    # errors stop; Z_OK with finish continues; stream end stops
    for code,name in((-2,'Z_STREAM_ERROR'),(-5,'Z_BUF_ERROR'),(1,'Z_STREAM_END')):
        c=Inf('deflate',code,RT);F=Flow(f,c,RT);F.run(0,{('a',1):1} if und=='process' else {})
        if c.n:
            a=c.again[0] if c.again else None
            released(ctx,c,und,name)
            ctx.decide(not c.again,'refill ends','%s:%s'%(und,name),'after deflate returned %s it is called again'%name,a[0].loc if a else '',a[1] if a else ())
    d=[i for i in f.calls() if f.callee(i)=='deflate']
    for i in d:
        fl=RT.op(i.o[1])
        vals=set(x[1] if x[0]=='const' else None for x in value_leaves(f,RT,fl))
        fin='~' in und
        if fin: 
            ctx.decide(vals=={4},'finish','%s:flush'%und,'the last deflate does not finish the stream',i.loc)
            c=Inf('deflate',0,RT);F=Flow(f,c,RT);F.run(0)
            early=[r for r in c.rets]
            ctx.decide(not early,'finish','%s:until end'%und,'finishing stops before deflate reported the end of the stream',i.loc,early[0][2] if early else ())
        elif und!='process': ctx.decide(4 not in vals,'finish','%s:flush'%und,'the stream is finished while more data may follow',i.loc)
        # output reset before, written after
        for nm in('avail_out','next_out'):
            L=last_store(f,T,i,lambda a:fieldof(a)==nm)
            ctx.decide(all(x is not None for x in L),'buffer extent','%s:%s'%(und,nm),'deflate runs without a fresh %s'%nm,i.loc)
        S=[x for x in f.insts() if x.op=='store' and fieldof(T.op(x.o[1]))=='avail_out'];N=[x for x in f.insts() if x.op=='store' and fieldof(T.op(x.o[1]))=='next_out']
        for x,y in zip(S,N):
            n=ub(f,RT,RT.op(x.o[0]));r,off,sym,ff=addr(RT.op(y.o[0]))
            sz=arrsize(p,cls,ff[-1]) if ff else None
            if n is None or sz is None: ctx.und('buffer extent',f.short+' output');continue
            ctx.decide(off+n<=sz,'buffer extent','%s:out size'%und,'deflate may write %d bytes at offset %d of a %d-byte buffer'%(n,off,sz),x.loc)
        w=[x for x in f.calls() if f.callee(x)=='std::ostream::write' and reaches(f,i,x) and any(q[0]=='load' and fieldof(q[1]) in('next_out','avail_out') for q in atoms(RT.op(x.o[2])))]
        if not w:
            other=[x for x in f.calls() if re.match(r'std::ostream::(write|put|operator_shl)|std::basic_streambuf::sputn',f.callee(x)) and x.bb in f.reach(i.bb)]
            if other: ctx.und('written out',f.short)
            else: ctx.bad('%s:written'%und,'compressed bytes are never written',i.loc,'written out')
        for x in w:
            a=addr(RT.op(x.o[1]));L=lin(RT.op(x.o[2]))
            s0=addr(RT.op(N[0].o[0])) if N else None
            if s0: ctx.decide(a[3]==s0[3] and a[1]==s0[1],'written out','%s:from'%und,'output is written from another place than it was compressed to',x.loc)
            ld=[k for k in L if k!=1 and k[0]=='load' and fieldof(k[1])=='next_out']
            if ld:
                rest=[k for k in L if k!=1 and k not in ld and L[k]]
                ok=L[ld[0]]==1 and len(rest)==1 and L[rest[0]]==-1 and addr(rest[0])[3]==a[3] and L[1]==-a[1]*0 
                ctx.decide(ok and L[1]==0,'written out','%s:amount'%und,'%s bytes are written'%show(RT.op(x.o[2]),f,4),x.loc)
            # on every path from deflate to the next deflate or the normal end
    # checksum and length over the same consumed bytes
    for i in f.calls():
        if f.callee(i)!='crc32': continue
        a=[RT.op(x) for x in i.o]
        n=noid(a[2])
        ctx.decide(a[0][0]=='load' and fieldof(a[0][1]) is not None,'checksum','%s:chained'%und,'the checksum does not continue from the previous one',i.loc)
        cf=fieldof(a[0][1]) if a[0][0]=='load' else None
        st=[x for x in f.insts() if x.op=='store' and fieldof(RT.op(x.o[1]))==cf and reaches(f,i,x)]
        ctx.decide(any(RT.op(x.o[0])==('call','crc32',RT.inst(i.id)[2],i.id) for x in st),'checksum','%s:stored'%und,'the checksum is not stored back',i.loc)
        av=[noid(RT.op(x.o[0])) for x in f.insts() if x.op=='store' and fieldof(RT.op(x.o[1]))=='avail_in' and reaches(f,x,i)]
        if av: ctx.decide(any(lineq(x,n) for x in av),'checksum','%s:extent'%und,'the checksum covers %s bytes, deflate consumed %s'%(show(n,f,3),show(av[0],f,3)),i.loc)
        us=[x for x in f.insts() if x.op=='store' and fieldof(RT.op(x.o[1]))=='uncompressed_size' and RT.op(x.o[0])[0]=='add' and split(RT.op(x.o[1]))[0]==('arg',0)]
        if us: 
            v=lin(noid(RT.op(us[0].o[0])))
            want=lin(('add',noid(('load',RT.op(us[0].o[1]))),n))
            ctx.decide(all(v[k]==want[k] for k in set(v)|set(want)),'checksum','%s:length'%und,'the recorded length grows by another amount than was consumed',us[0].loc)
        else: ctx.decide(any(x.op=='store' and fieldof(RT.op(x.o[1]))=='uncompressed_size' and any(q[0]=='load' and fieldof(q[1])=='uncompressed_size' for q in atoms(RT.op(x.o[0]))) for x in f.insts()),'checksum','%s:length'%und,'the recorded length is not updated',i.loc)
        # nothing but the absence of input keeps consumed bytes out of the checksum
        ref=us[0] if us else None
        if ref is not None:
            more=set(f.cdep_closure(i.bb))-set(f.cdep_closure(ref.bb))
            for b,t in more:
                br=f.blocks[b][-1]
                if not br.o: continue
                cnd,pol=norm_cond(RT.op(br.o[0]),br.d['succ'][0]==t) if br.op=='br' else (('?',),True)
                size=lambda q:lineq(noid(q),n)
                w=None
                if cnd[0]=='cmp' and cnd[3][0]=='const' and size(cnd[2]):
                    k=cnd[3][1];pr=cnd[1] if pol else NEG[cnd[1]]
                    one={'eq':1==k,'ne':1!=k,'slt':1<k,'sle':1<=k,'sgt':1>k,'sge':1>=k,'ugt':1>k,'uge':1>=k,'ult':1<k,'ule':1<=k}[pr]
                    ctx.decide(one,'checksum','%s:every byte'%und,'a single consumed byte is left out of the checksum',i.loc)
                else: ctx.und('checksum','%s is computed under a condition'%und)
        sp=[x for x in f.calls() if re.search(r'basic_streambuf::setp$',f.callee(x)) and (reaches(f,i,x) or reaches(f,x,i))]
        ctx.decide(bool(sp),'checksum','%s:reset'%und,'the put area is not reset after its content was consumed',i.loc)
    if not any(f.callee(i)=='crc32' for i in f.calls()): ctx.bad('%s:checksum'%und,'consumed input is not added to the checksum',f.file+':%d'%f.line,'checksum')
    # the put area leaves room for the character overflow() adds
    insz=arrsize(p,cls,'in')
    for g in p.fns:
        if not g.short.startswith(cls+'::'): continue
        K=RTerms(g)
        for i in g.calls():
            if re.search(r'basic_streambuf::setp$',g.callee(i)) and insz:
                r,off,sym,fl=addr(K.op(i.o[2]));r0,off0,s0,f0=addr(K.op(i.o[1]))
                if K.op(i.o[2])==('null',) : continue
                if sym: ctx.und('put area',g.short);continue
                ctx.decide(off-off0<insz,'put area','%s:%s'%(g.short.split('::')[-1],'put area'),'the put area of %d bytes leaves no room for the overflow character in a %d-byte buffer'%(off-off0,insz),i.loc)
    if und=='overflow':
        # the character is stored before the buffer is compressed
        st=[x for x in f.insts() if x.op=='store' and split(RT.op(x.o[1]))[0][0]=='call' and 'pptr' in split(RT.op(x.o[1]))[0][1]]
        ok=any(reaches(f,x,i) for x in st for i in d)
        pb=[x for x in f.calls() if 'pbump' in f.callee(x)] 
        sp=[x for x in f.calls() if re.search('sputc|pbump',f.callee(x))]
        for x in st:
            for b,t in f.cdep_closure(x.bb):
                br=f.blocks[b][-1]
                c0=norm_cond(RT.op(br.o[0]),True)[0] if br.o else None
                if c0==('arg',1): c0=('cmp','ne',c0,('const',0))
                if c0 and c0[0]=='cmp' and c0[2]==('arg',1) and c0[3][0]=='const': ctx.decide(c0[3][1]==-1,'put area','overflow:every character','the overflowing character is added or dropped depending on a comparison with %s'%c0[3][1],x.loc)
        ctx.decide(ok and bool(sp) and all(reaches(f,x,i) for x in sp for i in d),'put area','overflow:character','the overflowing character is not added before compressing',f.file+':%d'%f.line) if st else ctx.und('put area','overflow character')

def finish(ctx,f):
    """trailer: checksum then length after the last deflate"""
    RT=RTerms(f);ctx.touch(f)
    d=[i for i in f.calls() if f.callee(i)=='deflate']
    w=[i for i in f.calls() if f.callee(i)=='std::ostream::write']
    if not d: ctx.bad('~ZipStreambufCompress:process','closing a compressed stream does not finish it',f.file+':%d'%f.line,'finish');return
    def wr(nm): return [i for i in w if fieldof(RT.op(i.o[1]))==nm and split(RT.op(i.o[1]))[0]==('arg',0)]
    c,u=wr('crc'),wr('uncompressed_size')
    if not(c and u) and any(split(RT.op(i.o[1]))[0][0]=='alloca' and RT.op(i.o[2]) in(('const',4),('const',8)) and any(reaches(f,x,i) for x in d) for i in w): ctx.und('finish','trailer from a local');return
    for nm,L in(('checksum',c),('length',u)):
        if not L: ctx.bad('~ZipStreambufCompress:%s'%nm,'the gzip trailer has no %s'%nm,f.file+':%d'%f.line,'finish')
        for i in L: ctx.decide(RT.op(i.o[2])==('const',4),'finish','trailer:%s size'%nm,'the %s in the trailer is %s bytes'%(nm,show(RT.op(i.o[2]))),i.loc)
    for a in c:
        for b in u: ctx.decide(reaches(f,a,b) and not reaches(f,b,a),'finish','trailer:order','the trailer\'s length precedes its checksum',b.loc)
        ctx.decide(all(reaches(f,x,a) and not reaches(f,a,x) for x in d),'finish','trailer:after data','the trailer is written before the data is finished',a.loc)
        # not for members of a zip archive, always otherwise
        for b,t in f.cdep_closure(a.bb):
            br=f.blocks[b][-1]
            if not br.o: continue
            at=[fieldof(x[1]) for x in atoms(RT.op(br.o[0])) if x[0]=='load' and split(x[1])[0]==('arg',0)]
            if reaches(f,f.blocks[b][-1],d[0]): continue
            ctx.decide(not(set(at)&{'uncompressed_size','crc','header_offset'}),'finish','trailer:always','the gzip trailer is left out depending on %s'%', '.join(sorted(set(x or '?' for x in at))),a.loc)
    ctx.decide(any(f.callee(i)=='deflateEnd' for i in f.calls()),'finish','deflateEnd','the deflate state is not released',f.file+':%d'%f.line)

def inflate_end(ctx,p,f,RT):
    """the inflate state is released whenever it was set up: only flags decide, no counters"""
    cls=f.short.rsplit('::',1)[0]
    count=set()
    for g in p.fns:
        if not g.short.startswith(cls+'::'): continue
        K=RTerms(g)
        for i in g.insts():
            if i.op=='store':
                t=K.op(i.o[1])
                if split(t)[0]==('arg',0) and fieldof(t) and K.op(i.o[0])[0] in('add','sub') and any(x[0]=='load' and fieldof(x[1])==fieldof(t) for x in atoms(K.op(i.o[0]))): count.add(fieldof(t))
    for i in f.calls():
        if f.callee(i)!='inflateEnd': continue
        used=set()
        for b,t in f.cdep_closure(i.bb):
            br=f.blocks[b][-1]
            if br.o: used|={fieldof(x[1]) for x in atoms(RT.op(br.o[0])) if x[0]=='load' and split(x[1])[0]==('arg',0)}
        ctx.decide(not(used&count),'released','~:inflateEnd','the zlib state is released only depending on the counter %s'%', '.join(sorted(used&count)),i.loc)
class Own(Client):
    def __init__(s,fld,RT): s.fld=fld;s.RT=RT;s.out=[]
    def keep(s,k,v): return True
    def step(s,F,i,facts,ts):
        if i.op=='load':
            nm=fieldof(s.RT.op(i.o[0]))
            if nm in s.fld and split(s.RT.op(i.o[0]))[0]==('arg',0):
                f=dict(facts);f[i.id]=s.fld[nm];F.rel.add(i.id);return [(f,ts)]
            if nm in('ostream','istream'):
                f=dict(facts);f[i.id]='nn';return [(f,ts)]
        if i.op in('call','invoke') and F.fn.callee(i).startswith('virt:') and i.o:
            t=F.T.op(i.o[0])
            if t[0]=='load' and fieldof(t[1]) in('ostream','istream'): return [(facts,ts+1)]
        return None
    def exit(s,F,i,facts,ts): s.out.append((ts,i,F.path()))
def owner(ctx,f):
    RT=RTerms(f)
    de='Decompress' in f.short
    if de: inflate_end(ctx,f.prog if hasattr(f,'prog') else ctx.view('inl'),f,RT)
    for owns in(1,0):
        fld={'part_of_zip_file':0 if owns else 1} if de else {'header':'null' if owns else 'nn'}
        c=Own(fld,RT);F=Flow(f,c,RT);F.run(0)
        for ts,i,path in c.out:
            ctx.decide(ts==(1 if owns else 0),'underlying stream','%s:own=%d'%(f.short.split('::')[-1],owns),'the underlying file stream is deleted %d times when it is %sowned'%(ts,'' if owns else 'not '),i.loc,path)

class Edges(Client):
    def __init__(s,RT): s.RT=RT;s.out=[];s.cmp=set()
    def track_phi(s,i): return i.d['t'] in('i1','i8')
    def edge(s,F,b,t,facts,ts):
        br=F.fn.blocks[b][-1]
        if br.op=='br' and br.o and len(F.fn.succ[b])==2:
            c,pol=norm_cond(s.RT.op(br.o[0]),br.d['succ'][0]==t)
            if c[0]=='cmp' and c[3][0]=='const' and (c[2][0] in('load','out') or c[3][1] in(0x8b1f,0x1f8b)):
                nm=(fieldof(c[2][1]) if c[2][0]=='load' else None) or 'first'
                pr=c[1] if pol else NEG[c[1]]
                s.cmp.add(c[3][1]&0xffff)
                if pr=='eq': return ts|{(nm,c[3][1]&0xffff)}
        return ts
    def exit(s,F,i,facts,ts): s.out.append((F.ev(i.o[0],facts) if i.o else None,ts,i,F.path()))

class HdrPaths(object):
    """the sequences of reads of the header reader for one value of the flags byte"""
    def __init__(s,f,RT,m):
        s.f=f;s.RT=RT;s.m=m;s.out=set();s.used=False;s.unk=None;s.n=0;s.where={}
    def ev(s,o,env,d=0):
        if o[0]=='c': return o[1]
        if o[0]!='i' or d>20: return None
        if o[1] in env: return env[o[1]]
        x=s.f.inst[o[1]]
        if x.op in('zext','sext','trunc','freeze','bitcast'): return s.ev(x.o[0],env,d+1)
        if x.op=='load':
            if fieldof(s.RT.op(x.o[0]))=='flags': s.used=True;return s.m
            return None
        if x.op in('and','or','add','sub','lshr','shl','xor','mul'):
            a,b=s.ev(x.o[0],env,d+1),s.ev(x.o[1],env,d+1)
            if a is None or b is None: return 0 if x.op in('and','mul') and 0 in(a,b) else None
            r={'and':a&b,'or':a|b,'add':a+b,'sub':a-b,'xor':a^b,'mul':a*b}.get(x.op)
            if r is None: r=a>>b if x.op=='lshr' else a<<b
            return r&1 if x.d.get('t')=='i1' else r
        if x.op=='icmp':
            a,b=s.ev(x.o[0],env,d+1),s.ev(x.o[1],env,d+1)
            if a is None or b is None: return None
            p=x.d['pred'];q={'eq':a==b,'ne':a!=b}.get(p)
            if q is None: q={'lt':a<b,'gt':a>b,'le':a<=b,'ge':a>=b}[p[1:]]
            return int(q)
        if x.op=='select':
            c=s.ev(x.o[0],env,d+1)
            return None if c is None else s.ev(x.o[1] if c else x.o[2],env,d+1)
        return None
    def zero(s,o,pol,env):
        """constant c when the edge says a byte that was read equals c"""
        c,pol=norm_cond(s.RT.op(o),pol)
        if c[0]!='cmp' or c[3][0]!='const': return None
        t=c[2]
        while t[0] in('zext','sext','trunc'): t=t[1]
        if t[0]=='alt':
            o_=[x for x in t[1:] if x[0]!='const']
            if len(o_)!=1 or any(x[0]=='const' and x[1]==0 for x in t[1:]): return None
            t=o_[0]
        if not(t[0]=='out' and t[1]=='std::istream::read' and t[5][2]==('const',1)) and not(t[0]=='load' and fieldof(t[1])!='flags' and split(t[1])[0][0]=='alloca'): return None
        pr=c[1] if pol else NEG[c[1]]
        return c[3][1]&255 if pr=='eq' else None
    def run(s):
        f=s.f;st=[(0,None,{},())];seen=set()
        while st:
            b,pb,env,tok=st.pop()
            vals=[]
            for i in f.blocks[b]:
                if i.op!='phi': break
                v=None
                for q,o in i.d['in']:
                    if q==pb: v=s.ev(o,env)
                vals.append((i.id,v if v is None or abs(v)<4 else None))
            env=dict(env);env.update(vals)
            k=(b,pb,tuple(sorted((x,y) for x,y in env.items() if y is not None)),tok)
            if k in seen: continue
            seen.add(k)
            if len(seen)>20000: s.unk='too many paths';return
            ret=None
            for i in f.blocks[b]:
                if i.op in('call','invoke'):
                    n=f.callee(i)
                    if n=='std::istream::read':
                        z=s.RT.op(i.o[2])
                        if z[0]!='const': s.unk='reads a variable number of bytes';return
                        if f.loops_of(b) and z[1]==1:
                            t=('b',)
                            if not tok or tok[-1]!=t: tok+=(t,)
                            s.where.setdefault('b',i)
                        elif f.loops_of(b): s.unk='reads %d bytes in a loop'%z[1];return
                        elif tok and tok[-1][0]=='r': tok=tok[:-1]+(('r',tok[-1][1]+z[1]),)
                        else: tok+=(('r',z[1]),)
                    elif n=='std::istream::ignore' and len(i.o)==3 and s.RT.op(i.o[1])[0]!='const':
                        if not tok or tok[-1]!=('b',): tok+=(('b',),)
                    elif re.match(r'std::(basic_)?istream::(?!~|sentry|operator)|std::basic_streambuf::(s|in|pub|un)',n): s.unk='uses '+n;return
                    elif not re.match(r'std::(basic_)?(ios|ostream|istream)\b|llvm\.|std::operator<<|__',n) and any(split(s.RT.op(o))[0]==('arg',1) for o in i.o if o[0] in('i','a')): s.unk='calls '+n;return
                elif i.op=='ret': ret=i
            if ret is not None:
                v=s.ev(ret.o[0],env) if ret.o else None
                if v!=0: s.out.add(tok)
                continue
            br=f.blocks[b][-1]
            ss=br.d.get('succ',())
            if br.op=='br' and br.o and len(ss)==2:
                v=s.ev(br.o[0],env)
                for k,t in enumerate(ss):
                    if v is not None and bool(v)!=(k==0): continue
                    z=s.zero(br.o[0],k==0,env) if tok and tok[-1]==('b',) and f.loops_of(b) else None
                    st.append((t,b,env,tok+(('Z',z),) if z is not None else tok))
            else:
                for t in f.succ[b]: st.append((t,b,env,tok))
def header_walk(ctx,f,RT):
    """for each combination of optional fields: what follows the fixed part, in order"""
    def norm(q):
        out=[]
        for t in q:
            if t==('b',) and out and out[-1]==t: continue
            if t[0]=='r' and out and out[-1][0]=='r': out[-1]=('r',out[-1][1]+t[1]);continue
            out.append(t)
        return tuple(out)
    names={4:'extra field',8:'name',16:'comment',2:'header checksum'}
    bound=[]
    for m in range(0,32):
        h=HdrPaths(f,RT,m);h.run()
        if h.unk or not h.used: ctx.und('header fields','GZipFileHeader::Read %s'%(h.unk or 'keeps the flags elsewhere'));return
        have='+'.join(names[k] for k in(4,8,16,2) if m&k) or 'no optional field'
        nstr=bool(m&8)+bool(m&16)
        head=[('r',10)]+([('r',2)] if m&4 else [])
        tail=[('r',2)] if m&2 else []
        full=norm(head+[('b',),('Z',0)]*nstr+tail)
        ok=set()
        for ex in((0,1) if m&4 else (0,)):
            for drop in range(3**nstr):
                # a stream that fails ends a string early
                q=list(head)+([('b',)] if ex else [])
                for k in range(nstr): q+=[[('b',),('Z',0)],[('b',)],[]][drop//3**k%3]
                ok.add(norm(q+tail))
        w=[q for q in h.out if q not in ok]
        stop=[t for q in w for t in q if t[0]=='Z' and t[1]!=0]
        say=lambda q:', '.join('%d bytes'%t[1] if t[0]=='r' else 'single bytes' if t[0]=='b' else 'up to a byte %d'%t[1] for t in q)
        key='read:fields'
        if stop: ctx.bad(key+':end','the name or comment of a gzip header is taken to end at a byte %d'%stop[0][1],f.file+':%d'%f.line,'header fields')
        elif full not in h.out or w:
            if any(t[0]=='b' for q in h.out for t in q) or not nstr: ctx.bad(key,'a gzip header with %s is read as %s; it has %s'%(have,say(sorted(w or h.out,key=repr)[0]) if (w or h.out) else 'invalid',say(full)),f.file+':%d'%f.line,'header fields')
            else: ctx.und('header fields',have)
        else: ctx.ok('header fields',have)
    # the extra field is as long as the 16 bits before it say
    for i in f.insts():
        if i.op!='icmp' : continue
        t=RT.inst(i.id)
        if t[0]!='cmp': continue
        for a,b in((t[2],t[3]),(t[3],t[2])):
            if not(a[0]=='phi' and f.loops_of(i.bb)): continue
            x=b;mask=False
            while x[0] in('zext','sext','trunc','and','lshr','udiv','sub','add','select'):
                if x[0] in('and','lshr','udiv','select'): mask=True
                if x[0] in('sub','add') and x[2][0]=='const' and x[2][1]!=0: mask=True
                if x[0]=='sext': mask=True
                x=x[1] if x[0]!='select' else x[2]
            if x[0]=='out' and x[1]=='std::istream::read' and x[5][2]==('const',2) or x[0]=='load' and split(x[1])[0][0]=='alloca' and any(f.callee(c)=='std::istream::read' and RT.op(c.o[2])==('const',2) and split(RT.op(c.o[1]))[0]==split(x[1])[0] for c in f.calls()):
                ctx.decide(not mask,'header fields','read:extra length','%s bytes of extra field are skipped, not the number its length gives'%show(b,f,4),i.loc)
def hdr(ctx,p):
    # --- reader
    rd=[f for f in p.fns if f.short.endswith('GZipFileHeader::Read')]
    for f in rd:
        ctx.touch(f);RT=RTerms(f)
        header_walk(ctx,f,RT)
        c=Edges(RT);F=Flow(f,c,RT);F.run(frozenset())
        for v,ts,i,path in c.out:
            if v==0: continue
            got={x[1] for x in ts}
            if not({0x1f,0x8b}<=c.cmp or 0x8b1f in c.cmp) and any(re.match('memcmp|strncmp|bcmp|std::',f.callee(x)) and 'cmp' in f.callee(x)+'equal' and not f.callee(x).startswith(('std::istream','std::basic_ios','std::ostream','std::operator_shl')) for x in f.calls()): ctx.und('gzip header','magic');continue
            ctx.decide({0x1f,0x8b}<=got or 0x8b1f in got or 0x1f8b in got,'gzip header','read:magic','a stream is taken for gzip without both magic bytes',i.loc,path)
            ctx.decide(8 in got,'gzip header','read:method','a stream is taken for gzip without checking the compression method',i.loc,path)
    # --- writer
    for f in p.fns:
        if not f.short.endswith('GZipFileHeader::Write'): continue
        ctx.touch(f);RT=RTerms(f)
        if any(len(x)>1 for x in f.succ): ctx.und('gzip header','write');continue
        seq=[]
        for b in f.rpo():
            for i in f.blocks[b]:
                if i.op in('call','invoke') and re.match(r'std::ostream::(write|put)$',f.callee(i)):
                    a=RT.op(i.o[1]);n=RT.op(i.o[2]) if len(i.o)>2 else ('const',1)
                    r,off,sym,fl=addr(a)
                    L=last_store(f,RT,i,lambda q:addr(q)==addr(a))
                    v=RT.op(L[0].o[0]) if L and L[0] is not None else None
                    if r[0]=='alloca':
                        d=[x for x in RT.mem.defs(r,i) if x[0]=='store'];v=RT.op(d[0][1].o[0]) if d else None
                    seq.append((n[1] if n[0]=='const' else None,v[1] if v and v[0]=='const' else None,i))
        if any(n is None for n,v,i in seq): ctx.und('gzip header','write size');continue
        ctx.decide(sum(n for n,v,i in seq)==10,'gzip header','write:size','the gzip header is %d bytes long, not 10'%sum(n for n,v,i in seq),f.file+':%d'%f.line)
        want=[(0x1f,'magic'),(0x8b,'magic'),(8,'method'),(0,'flags')]
        off=0
        for n,v,i in seq:
            if off<4 and n==1 and v is not None: ctx.decide(v&255==want[off][0],'gzip header','write:byte %d'%off,'byte %d of the gzip header (%s) is %d'%(off,want[off][1],v&255),i.loc)
            elif off<4: ctx.und('gzip header','write byte %d'%off)
            off+=n
    # raw deflate on both sides
    for f in p.fns:
        for i in f.calls():
            if f.callee(i) in('inflateInit2_','deflateInit2_') and f.file.endswith('ZIP.cpp'):
                k=1 if f.callee(i).startswith('inf') else 3
                v=RTerms(f).op(i.o[k])
                if v[0]=='const': ctx.decide(v[1]==-15,'gzip header','raw deflate:%s'%f.callee(i),'window bits %d do not select a raw deflate stream with the full window'%v[1],i.loc)
            if f.callee(i)=='inflateInit_' and f.file.endswith('ZIP.cpp'): ctx.bad('raw deflate:inflateInit','the gzip payload is read as a zlib stream',i.loc,'gzip header')

class Rew(Client):
    def __init__(s,RT): s.RT=RT;s.out=[]
    def step(s,F,i,facts,ts):
        n=F.fn.callee(i) if i.op in('call','invoke') else ''
        if n=='std::istream::read' and ts!='zip': return [(facts,'moved')]
        if n in('std::istream::seekg',):
            return [(facts,'start' if any(F.T.op(x)==('const',0) for x in i.o[1:]) or True else ts)]
        if re.search(r'basic_ifstream::(open)$',n): return [(facts,'start')]
        if 'ZIP_FILE_ISTREAM' in n or (i.op=='store' and 'ZIP_FILE_ISTREAM' in str(i.o[0])):
            if ts=='moved': s.out.append((i,F.path()))
            return [(facts,'zip')]
    def exit(s,F,i,facts,ts):
        if ts=='moved' and F.ev(i.o[0],facts)!='null': s.out.append((i,F.path()))
def opens(ctx,p):
    for f in p.fns:
        if f.short!='Partio::Gzip_In': continue
        ctx.touch(f);RT=RTerms(f)
        c=Rew(RT);F=Flow(f,c,RT);F.run('start')
        ctx.decide(not c.out,'rewound','Gzip_In','the file is handed on without being rewound after the header was examined',c.out[0][0].loc if c.out else '',c.out[0][1] if c.out else ())
