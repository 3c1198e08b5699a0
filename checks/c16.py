"""C16: numbers in the text formats do not depend on the locale of the process."""
from flow import *
NUM=re.compile(r'^(bool|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|long double|void const\*|void\*)&?$')
# C and C++ library functions that read the decimal point, or change the locale of the process
READS=re.compile(r'^(strto(d|f|ld)|ato(f)|wcsto(d|f|ld)|std::(stof|stod|stold|strto(d|f|ld)|atof)|localeconv|std::put_money|std::get_money|strtod_l|gcvt|ecvt|fcvt)$')
SETS=re.compile(r'^(setlocale|uselocale|std::locale::global|std::setlocale)$')
FMTS=re.compile(r'^(std::)?v?(f|s|sn|d|as)?(printf|scanf)$|^__(isoc\d+_)?v?(f|s|sn)?(scanf|printf)(_chk)?$|^__isoc\d+_\w*scanf$')
STR=re.compile(r'^std::(basic_)?(w)?(i|o)?(f|string|str)?stream(::|$)|^std::(istream|ostream|iostream|basic_ios|ios_base)')
def i_dem(i): return i.d.get('dem','')
class Loc:
    def __init__(s,c,prog):
        s.c=c;s.prog=prog;s.memo={}
        s.by={}
        for f in prog.fns: s.by[f.name]=f
        s.callers=collections.defaultdict(list)
        for f in prog.fns:
            for i in f.calls():
                for n in prog.impls(i): s.callers[n].append((f,i))
    def target(s,f,i):
        ns=[n for n in s.prog.impls(i) if n in s.by]
        return s.by[ns[0]] if len(ns)==1 else None
    def isbox(s,f,i): return 'unique_ptr' in f.callee(i) or 'shared_ptr' in f.callee(i)
    def fills(s,f,box):
        """the values a smart pointer is given: (instruction, operand)"""
        out=[]
        for i in f.calls():
            n=f.callee(i)
            if not i.o or i.o[0]!=box:
                # returned through memory
                continue
            if re.match(r'std::(unique|shared)_ptr::(unique_ptr|shared_ptr|reset|operator=)$',n): out.append((i,i.o[1] if len(i.o)>1 else None))
            elif s.target(f,i) is not None and i.d.get('sret'): out.append((i,'call'))
            elif s.target(f,i) is not None and s.sret(s.target(f,i)): out.append((i,'call'))
            elif re.match(r'std::make_(unique|shared)$',n): out.append((i,'fresh'))
        return out
    def sret(s,g): return bool(g.d['args']) and (g.d['args'][0][2] is True or 'sret' in str(g.d['args'][0]) or g.d['args'][0][1]=='agg.result')
    def root(s,f,o,d=0):
        """stream operand -> [origin]: ('box',operand) content of a smart pointer, ('obj',operand) an object of this function,
        ('val',instruction) what a call returned, ('arg',k), ('glob',name), None"""
        if d>20: return [None]
        if o[0]=='a': return [('arg',o[1])]
        if o[0]=='g': return [('glob',o[1])]
        if o[0]=='n': return []
        if o[0] in('ge',): return s.root(f,o[1],d+1)
        x=f.val(o)
        if x is None: return [None]
        if x.op in('bitcast','freeze'): return s.root(f,x.o[0],d+1)
        if x.op=='getelementptr': return s.root(f,x.d['base'],d+1)
        if x.op=='phi': return [r for _,v in x.d['in'] for r in s.root(f,v,d+1)]
        if x.op=='select': return s.root(f,x.o[1],d+1)+s.root(f,x.o[2],d+1)
        if x.op=='alloca': return [('obj',o)]
        if x.op=='load':
            b=x.o[0];y=f.val(b)
            if y is not None and y.op=='alloca':
                st=[i for i in f.insts() if i.op=='store' and i.o[1]==b]
                if st: return [r for i in st for r in s.root(f,i.o[0],d+1)]
            if y is not None and y.op in('getelementptr','load'): return s.root(f,b,d+1)   # vtable and virtual base offsets
            return [None]
        if x.op in('call','invoke'):
            n=f.callee(x)
            if re.match(r'std::(unique|shared)_ptr::(operator\*|operator_arrow|get|release)$',n): return [('box',x.o[0])]
            if re.search(r'operator_(shl|shr)$|::(put|write|flush|seekg|seekp|read|get|getline|unget|putback|ignore)$|^std::(move|forward|ref)$|getline$|^std::(endl|flush|ends|ws)$',n) and x.o: return s.root(f,x.o[0],d+1)
            if n=='operator new': return [('obj',o)]
            return [('val',x)]
        return [None]
    def classic(s,f,o,d=0):
        """is the locale the classic one"""
        x=f.val(o)
        if d>8: return None
        if x is None: return False if o[0]=='g' else None
        if x.op in('bitcast','getelementptr'): return s.classic(f,x.o[0] if x.op=='bitcast' else x.d['base'],d+1)
        if x.op in('call','invoke'):
            n=f.callee(x)
            if n=='std::locale::classic': return True
            if n=='std::locale::locale' and len(x.o)<2: return False
            return None
        if x.op=='alloca':
            for i in f.calls():
                # the locale a stream had before: that of the process
                if i.o and i.o[0]==o and f.callee(i).endswith('::getloc'): return False
                if i.o and i.o[0]==o and f.callee(i)=='std::locale::locale':
                    if len(i.o)==1: return False
                    if len(i.o)>=4:
                        # other, but the categories of one (numeric is the second bit)
                        a,b=s.classic(f,i.o[1],d+1),s.classic(f,i.o[2],d+1)
                        k=i.o[3][1] if i.o[3][0]=='c' else None
                        if a is True and b is True: return True
                        return None if k is None else b if k&2 else a
                    g=s.prog.globals.get(i.o[1][1]) if i.o[1][0]=='g' else None
                    if g and 'str' in g: return bytes.fromhex(g['str']).rstrip(b'\0') in(b'C',b'POSIX')
                    return s.classic(f,i.o[1],d+1)
        return None
    def imbues(s,f):
        """(instruction, origin of the stream, classic?) for every imbue in f, through helpers"""
        k=('imb',f.name)
        if k in s.memo: return s.memo[k]
        s.memo[k]=[]
        out=[]
        for i in f.calls():
            n=f.callee(i)
            if re.search(r'::imbue$',n):
                for v in s.vals(f,i): 
                    out.append((i,v,s.classic(f,i.o[2] if len(i.o)>2 and s.retmem(i) else i.o[1]) ))
                continue
            g=s.target(f,i)
            if g is None: continue
            for (j,r,ok) in s.imbues(g):
                if r and r[0] in('arg','box') and s.always(g,j,r):
                    k2=r[1] if r[0]=='arg' else r[1][1] if r[1][0]=='a' else None
                    if k2 is None or k2>=len(i.o): continue
                    if r[0]=='arg': 
                        for v in s.root(f,i.o[k2]): out.append((i,v,ok))
                    else: out.append((i,('box',i.o[k2]),ok))
        s.memo[k]=out
        return out
    def retmem(s,i):
        # imbue returns a locale through memory
        return len(i.o)>2
    def vals(s,f,i): return s.root(f,i.o[1] if s.retmem(i) else i.o[0])
    def always(s,g,j,r):
        """does the helper get there whatever it is given, but for a null stream"""
        return not s.escapes(g,None,None,[j],r)
    def nonnull(s,f,o,r,d=0):
        """what the truth of a condition says about the stream: True it is there, False it is null, None nothing"""
        x=f.val(o)
        if x is None or d>8: return None
        if x.op in('zext','trunc','freeze'): return s.nonnull(f,x.o[0],r,d+1)
        if x.op=='xor' and x.o[1][0]=='c':
            v=s.nonnull(f,x.o[0],r,d+1);return None if v is None else not v
        if x.op=='icmp':
            p=x.d['pred']
            for u,v in((0,1),(1,0)):
                if x.o[v][0]=='n' and s.isstream(f,x.o[u],r): return p=='ne'
                if x.o[v][0]=='c' and x.o[v][1]==0:
                    w=s.nonnull(f,x.o[u],r,d+1);return None if w is None else (w if p=='ne' else not w)
            return None
        if x.op in('call','invoke') and x.o:
            n=f.callee(x)
            if n in('std::unique_ptr::operator bool','std::shared_ptr::operator bool') or n.endswith('_ptr::operator bool'): return True if s.isstream(f,x.o[0],r,True) else None
            if re.search(r'operator!=$|operator==$',n) and 'nullptr_t' in i_dem(x): return (n.endswith('!=')) if s.isstream(f,x.o[0],r,True) else None
        return None
    def isstream(s,f,o,r,box=False):
        if r[0]=='box': 
            if o==r[1]: return True
            return not box and any(s.same(f,v,r) for v in s.root(f,o))
        if box and r[0]=='arg' and o==['a',r[1]]: return True
        return any(s.same(f,v,r) for v in s.root(f,o))
    def escapes(s,f,src,use,I,r):
        """is there a way from src (None: the start) to use (None: a return) past none of I, the stream not being null"""
        Iset={i.id for i in I}
        st=[(src.bb,src.pos+1)] if src is not None else [(0,0)];seen=set()
        while st:
            b,k=st.pop();stop=False
            for x in f.blocks[b][k:]:
                if x.id in Iset: stop=True;break
                if use is not None and x is use: return True
                if use is None and x.op=='ret': return True
                if src is not None and x is src: stop=True;break
            if stop: continue
            t=f.blocks[b][-1];su=list(f.succ[b])
            if t.op=='br' and t.o and len(su)==2:
                v=s.nonnull(f,t.o[0],r)
                if v is not None: su=[t.d['succ'][0 if v else 1]]
            for q in su:
                if q not in seen: seen.add(q);st.append((q,0))
        return False
    def ok(s,f,r,use,d=0):
        """is the stream of origin r set to the classic locale wherever `use` sees it: True, False(with reason), None, 'ext'"""
        if r is None or d>12: return None
        key=(f.name,str(r[:1]+((r[1].id,) if r[0]=='val' else tuple(map(str,r[1:])))),use.id if use is not None else None)
        if key in s.memo: return s.memo[key]
        s.memo[key]='ext' if r[0]=='arg' else None
        v=s._ok(f,r,use,d);s.memo[key]=v
        return v
    def same(s,f,a,b):
        if a is None or b is None: return False
        if a[0]!=b[0]: return False
        if a[0]=='val': return a[1] is b[1]
        return a[1]==b[1]
    def _ok(s,f,r,use,d):
        im=[(i,ok) for (i,v,ok) in s.imbues(f) if s.same(f,v,r)]
        good=[i for i,ok in im if ok is True];odd=any(ok is None for _,ok in im);bad=any(ok is False for _,ok in im)
        use2=None if use is not None and use.op=='ret' else use
        def done(src):
            if use is not None and any(i is use for i in good): return True
            return bool(good) and not bad and not s.escapes(f,src,use2,good,r)
        if r[0]=='box':
            if r[1][0]=='a' and not(s.sret(f) and r[1][1]==0):
                return True if done(None) else None if odd else s.up(f,r[1][1],'box',d)
            res=[]
            fl=s.fills(f,r[1])
            if not fl: return None
            for (i,o) in fl:
                if o is None: continue       # empty
                if done(i): res.append(True);continue
                if odd: res.append(None);continue
                if o=='call': res.append(s.ret(s.target(f,i),d))
                elif o=='fresh': res.append(False)
                else:
                    y=f.val(o)
                    ty=i_dem(i).split('(',1)[-1]
                    if 'unique_ptr' in ty or 'shared_ptr' in ty or f.callee(i).endswith('operator='): res.append(s.ok(f,('box',o),i,d+1))
                    else:
                        for v in s.root(f,o): res.append(s.ok(f,v,i,d+1))
            return s.meet(res)
        src=r[1] if r[0]=='val' else f.val(r[1]) if r[0]=='obj' else None
        if done(src): return True
        if odd: return None
        if r[0]=='obj': return False
        if r[0]=='val':
            g=s.target(f,r[1])
            if g is None: return None
            return s.ret(g,d)
        if r[0]=='arg': return s.up(f,r[1],'arg',d)
        if r[0]=='glob': return 'ext'
    def meet(s,res):
        if any(x is False for x in res): return False
        if any(x is None for x in res): return None
        if any(x=='ext' for x in res): return 'ext'
        return True if res else None
    def ret(s,g,d):
        if s.sret(g):
            return s.ok(g,('box',['a',0]),None,d+1) if 'unique_ptr' in g.dem.split('(')[0] or True else None
        res=[]
        for i in g.insts():
            if i.op=='ret' and i.o:
                for r in s.root(g,i.o[0]): res.append(s.ok(g,r,i,d+1))
        return s.meet(res)
    def up(s,f,k,kind,d):
        cs=[(g,i) for g,i in s.callers.get(f.name,()) if len(i.o)>k]
        if not cs: return 'ext'
        res=[]
        for g,i in cs:
            if kind=='box': res.append(s.ok(g,('box',i.o[k]),i,d+1))
            else:
                for r in s.root(g,i.o[k]): res.append(s.ok(g,r,i,d+1))
        return s.meet(res)
def params(d):
    """parameter types of a demangled signature"""
    d=re.sub(r'\) const$',')',d)
    if not d.endswith(')'): return []
    n=0
    for k in range(len(d)-1,-1,-1):
        if d[k]==')': n+=1
        elif d[k]=='(':
            n-=1
            if n==0: break
    out=[];cur='';n=0
    for ch in d[k+1:-1]:
        if ch in'<([': n+=1
        if ch in'>)]': n-=1
        if ch==',' and n==0: out.append(cur.strip());cur=''
        else: cur+=ch
    return out+([cur.strip()] if cur.strip() else [])
def run(c):
    c.rule('every number that is formatted or parsed by a stream of the library passes a stream set to the classic locale before; no function of the C library that reads the decimal point is called and the locale of the process is not changed')
    c.assume.append('streams and error streams that the caller passes in keep the locale the caller chose; the standard library formats as its locale says')
    prog=c.view('raw')
    L=Loc(c,prog)
    msg=0
    for f in prog.fns:
        if not f.file.startswith('src/lib'): continue
        n=0
        for i in f.calls():
            nm=f.callee(i)
            if re.search(r'^std::(istream|ostream)::(operator_sh[lr]|_M_insert|_M_extract)$',nm):
                ps=params(i.d.get('dem',''))
                if nm.endswith(('_M_insert','_M_extract')): ps=ps[-1:]
                if not ps or not NUM.match(ps[-1]): continue
                rs=L.root(f,i.o[0])
                res=L.meet([L.ok(f,r,i) for r in rs]) if rs else None
                if res=='ext': msg+=1;continue
                n+=1
                what='%s: a %s %s the stream'%(f.short,ps[-1].rstrip('&'),'goes to' if nm.endswith(('shl','_M_insert')) else 'comes from')
                if res is True: c.ok('number',what)
                elif res is None: c.und('number','%s (%s)'%(what,i.loc))
                else: c.bad('%s:%s'%(f.short.replace('Partio::',''),'stream'),'%s that has the locale of the process, so its text depends on it'%what,i.loc,'number')
            elif READS.match(nm): c.bad('%s:%s'%(f.short,nm),'%s: %s reads the decimal point of the process locale'%(f.short,nm),i.loc,'number')
            elif SETS.match(nm): c.bad('%s:%s'%(f.short,nm),'%s: %s changes the locale of the whole process'%(f.short,nm),i.loc,'locale')
            elif nm=='std::to_string' and re.search(r'\((float|double|long double)\)',i.d.get('dem','')): c.bad('%s:%s'%(f.short,nm),'%s: %s formats with the decimal point of the process locale'%(f.short,nm),i.loc,'number')
            elif FMTS.match(nm):
                for o in i.o:
                    g=prog.globals.get(o[1]) if o[0]=='g' else None
                    if g and 'str' in g:
                        t=bytes.fromhex(g['str']).decode('latin1')
                        if re.search(r"%[-+ #0-9.*']*(l|L|h)*[aAeEfFgG]|%[-+ #0-9.*]*'",t) and not(nm.lstrip('_').startswith(('fprintf','printf','vprintf')) and L.console(f,i)): c.bad('%s:%s'%(f.short,nm),'%s: %s with %r uses the decimal point of the process locale'%(f.short,nm,t.rstrip('\0')[:30]),i.loc,'number')
        if n: c.touch(f)
        for (i,v,ok) in L.imbues(f):
            if re.search(r'::imbue$',f.callee(i)):
                if ok is False: c.bad('%s:imbue'%f.short,'%s: a stream is given a locale that is not the classic one'%f.short,i.loc,'locale')
                elif ok: c.ok('locale','%s: the classic locale'%f.short)
    c.counts['numbers in messages to streams of the caller']=msg
    c.need('number',8)
Loc.console=lambda s,f,i: False if not i.o else (f.callee(i).lstrip('_').startswith('printf') or any('std' in str(r) for r in s.root(f,i.o[0])))
