"""C18: reading and writing end for every input."""
from util import *
import extract
from c04 import stream_args, reachable
EOFQ={'std::basic_ios::operator!':1,'std::basic_ios::operator bool':0,'std::basic_ios::good':0,'std::basic_ios::fail':1,
      'std::basic_ios::eof':1,'std::istream::gcount':0,'std::istream::tellg':-1,'std::istream::peek':-1,'inflate':-5,'deflate':-5}
ITER=re.compile(r'(operator\+\+|operator--|::next|std::advance)$')
END=re.compile(r'(operator(!=|==)|::atEnd|std::operator(!=|==))$')

class Eof(Client):
    """the loop run from its header while the stream is exhausted"""
    def __init__(s,h,body,zero=(),eof=1): s.eof=eof;s.zero=zero;s.h=h;s.body=body;s.back=[];s.n=0
    def keep(s,k,v): return True
    def track_phi(s,i): return i.d['t'] in('i1','i32','i64')
    def step(s,F,i,facts,ts):
        if i.op in('call','invoke'):
            n=F.fn.callee(i);v=EOFQ.get(n)
            if n=='std::istream::get' and len(i.o)==1: v=-1
            if n=='std::basic_ios::eof': v=s.eof
            if v is not None:
                f=dict(facts);f[i.id]=v;F.rel.add(i.id);return [(f,ts)]
        if i.id in s.zero:
            f=dict(facts);f[i.id]=0;F.rel.add(i.id);return [(f,ts)]
        return None
    def edge(s,F,b,t,facts,ts):
        if t not in s.body: return None
        if t==s.h:
            if ts>=3: s.back.append((F.fn.blocks[b][-1],F.path()));return None
            return ts+1
        return ts

def classify(fn,RT,h):
    """(verdict, reason)"""
    body=fn.loops[h]
    counted,other=trip(fn,RT,h)
    latches=[b for b in fn.pred[h] if b in body]
    for c in counted:
        if all(fn.dominates(c[0],l) for l in latches) and invariant(fn,RT,c,body): return 'ok','counted'
    exits=[(b,t) for b in sorted(body) for t in fn.succ[b] if t not in body]
    if not exits and not any(fn.blocks[b][-1].op in('ret','unreachable') for b in body): return 'bad','has no exit'
    # progress of an induction variable towards an invariant bound, any predicate shape
    for b,t in exits:
        br=fn.blocks[b][-1]
        if br.op!='br' or not br.o: continue
        A=atoms(RT.op(br.o[0]))
        cs=[x for x in A if x[0]=='call' and isinstance(x[1],str)]
        if any(END.search(x[1]) for x in cs):
            if any(i.op in('call','invoke') and ITER.search(fn.callee(i)) for q in body for i in fn.blocks[q]) and all(fn.dominates(b,l) for l in latches): return 'ok','container traversal'
            # comparison of a plain pointer/iterator phi
        if any(x[0]=='phi' for x in A) and shrinking(fn,RT,h,body,br): return 'ok','monotone'
    c=Eof(h,body);F=Flow(fn,c,RT);F.run(0,{},start=h)
    if not c.back:      # failed on malformed text, the end not reached
        c=Eof(h,body,eof=0);F=Flow(fn,c,RT);F.run(0,{},start=h)
    if not c.back:
        sk=[i for q in body for i in fn.blocks[q] if i.op in('call','invoke') and re.match(r'std::istream::(seekg|unget|putback)$',fn.callee(i))]
        rd=[i for q in body for i in fn.blocks[q] if i.op in('call','invoke') and fn.callee(i) in EOFQ]
        if sk and rd: return 'bad','moves the read position by a value of the file',(sk[0],())
        return 'ok','ends with the stream'
    ind={n.phi.id for n in inductions(fn,RT,h) if n.phi.t=='ptr'}
    scan=[i for q in body for i in fn.blocks[q] if i.op=='load' and i.t=='i8' and any(x[0]=='phi' and x[1] in ind for x in atoms(RT.op(i.o[0])))]
    if scan:
        c2=Eof(h,body,{i.id for i in scan});F=Flow(fn,c2,RT);F.run(0,{},start=h)
        if not c2.back: return 'ok','ends at the end of the string'
        return 'bad','does not stop at the end of the text it scans',c2.back[0]
    v=search(fn,RT,h,body,exits)
    if v is not None: return v
    reads=[i for q in body for i in fn.blocks[q] if i.op in('call','invoke') and re.match(r'std::istream|std::getline|std::operator_shr|inflate|Partio::read|Partio::.*[rR]ead',fn.callee(i))]
    return ('bad' if reads else 'und'),'goes on after the stream has ended',c.back[0]

GROW=re.compile(r'::(push_back|emplace_back|push_front|insert|emplace|append|resize|operator\+=|addParticles?|addAttribute|addFixedAttribute|registerIndexedStr)$')
def invariant(fn,RT,c,body):
    """the bound is not a size the loop itself grows"""
    objs={x[2][0] for x in atoms(c[1]) if x[0]=='call' and len(x)>2 and x[2]}
    if not objs: return True
    for q in body:
        for i in fn.blocks[q]:
            if i.op in('call','invoke') and GROW.search(fn.callee(i)) and any(RT.op(o) in objs for o in i.o[:2]): return False
    return True


LOOKUP=re.compile(r'(::(attributeInfo|fixedAttributeInfo|find|count|lookup\w+)|access|stat)$')
def search(fn,RT,h,body,exits):
    """a loop that looks for a name not taken yet ends when every round tries another one"""
    br=[fn.blocks[b][-1] for b,t in exits if fn.blocks[b][-1].op=='br' and fn.blocks[b][-1].o]
    if len(br)!=1 or not any(x[0]=='call' and isinstance(x[1],str) and LOOKUP.search(x[1]) for x in atoms(RT.op(br[0].o[0]))): return None
    I=[i for q in body for i in fn.blocks[q]]
    if any(i.op in('call','invoke') and re.match(r'std::istream|std::getline|std::operator_shr|inflate',fn.callee(i)) for i in I): return None
    used={o[1] for i in I if i.op in('call','invoke') for o in i.o if o[0]=='i'}
    verdict=None
    for i in fn.blocks[h]:
        if i.op!='phi' or i.t=='ptr' or i.id not in reach(fn,used,body): continue
        news=[v for b,v in i.d['in'] if b in body]
        ds=set()
        for v in news: ds|=steps(fn,v,i.id,body,set())
        if ds and all(d is not None and d>0 for d in ds) or ds and all(d is not None and d<0 for d in ds):
            # reduced before every use: the names come round again
            if i.id not in reach(fn,used,body,True): return 'bad','tries only a fixed number of names and then the same ones again'
            return 'ok','tries another name each round'
        if 0 in ds: verdict=('bad','can look for the same name again')
    if any(i.op in('call','invoke') and re.search(r'operator\+=|append|push_back|insert|rand|erase|resize|next',fn.callee(i)) for i in I): return None
    keys={tuple(i.o[0]) for i in I if i.op in('call','invoke') and fn.callee(i)=='std::basic_string::operator='}
    if any(i.op in('call','invoke') and any(tuple(o) in keys for o in i.o) and not re.search(r'::(c_str|data|operator=|~\w+)$',fn.callee(i)) for i in I): return None   # made from the name before it
    if verdict: return verdict
    if any(i.op=='phi' for i in fn.blocks[h]) or any(i.op=='store' for i in I): return None
    if any(i.op in('call','invoke') and fn.callee(i)=='std::basic_string::operator=' for i in I):
        made={tuple(i.o[0]) for i in I if i.op in('call','invoke') and i.o and re.search(r'::basic_\w+$',fn.callee(i).split('<')[0])}
        if made: return 'bad','can look for the same name again'
    return None
def reach(fn,used,body,full=False):
    """values those are computed from inside the loop"""
    out=set(used);st=list(used)
    while st:
        x=fn.inst.get(st.pop())
        if x is None or x.op in('call','invoke','load'): continue
        if full and x.op in('urem','srem','and') and x.o[1][0]=='c': continue
        for o in (x.o if x.op!='phi' else [v for b,v in x.d['in']]):
            if o[0]=='i' and o[1] not in out: out.add(o[1]);st.append(o[1])
    return out
def steps(fn,v,phi,body,seen):
    """by how much this value can differ from the phi"""
    if v[0]!='i': return {None}
    if v[1]==phi: return {0}
    x=fn.inst[v[1]]
    if x.id in seen: return set()
    if x.op in('sext','zext','trunc','freeze'): return steps(fn,x.o[0],phi,body,seen|{x.id})
    if x.op in('add','sub') and x.o[1][0]=='c':
        k=x.o[1][1]*(1 if x.op=='add' else -1)
        return {None if d is None else d+k for d in steps(fn,x.o[0],phi,body,seen|{x.id})}
    if x.op=='phi': return set().union(*[steps(fn,w,phi,body,seen|{x.id}) for b,w in x.d['in']])
    if x.op=='select': return steps(fn,x.o[1],phi,body,seen|{x.id})|steps(fn,x.o[2],phi,body,seen|{x.id})
    return {None}

def shrinking(fn,RT,h,body,br):
    """a header phi whose every new value is itself shifted or divided by a constant, or a pointer chase p=next(p) into a fresh token"""
    for i in fn.blocks[h]:
        if i.op!='phi': break
        ok=True
        for b,v in i.d['in']:
            if b not in body: continue
            t=RT.op(v)
            if not(t[0] in('lshr','ashr','udiv','sdiv') and t[1]==('phi',i.id) and t[2][0]=='const' and t[2][1]>=1): 
                if not(t[0]=='call' and re.match(r'strtok',t[1])): ok=False
        if ok and any(x==('phi',i.id) for x in atoms(RT.op(br.o[0]))): return True
    return False
def run(ctx):
    ctx.rule('every loop reachable from a reader or writer runs a counted number of times, traverses a container, or leaves once the stream reports its end')
    p=ctx.view('inl')
    roots=[f for f in p.fns if re.match(r'Partio::(read|write)[A-Z0-9]+$',f.short) and stream_args(f)]
    live,_=reachable(p,roots)
    for n in sorted(live):
        f=p.by[n]
        if not f.file.startswith('src/lib/io') or not f.loops: continue
        ctx.touch(f);RT=RTerms(f)
        for h in sorted(f.loops):
            r=classify(f,RT,h)
            l=[i.loc for b in sorted(f.loops[h]) for i in f.blocks[b] if i.loc!='?'][:1]
            loc=l[0] if l else ''
            if r[0]=='ok': ctx.ok('loop ends','%s %s: %s'%(f.short,loc,r[1]))
            elif r[0]=='und': ctx.und('loop ends','%s %s: %s'%(f.short,loc,r[1]))
            else: ctx.bad('%s:loop:%s'%(f.short,r[1]),'a loop %s'%r[1],loc,'loop ends',r[2][1] if len(r)>2 else ())
