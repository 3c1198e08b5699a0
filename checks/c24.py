"""C24: the Python module reports failures as exceptions, keeps references balanced and stays within its buffers."""
from flow import *
from ranges import Ranges
import extract
NEW=re.compile(r'^(PyTuple_New|PyList_New|PyDict_New|PySet_New|PyTuple_Pack|PyFloat_FromDouble|PyLong_From\w+|PyBool_FromLong|_?Py_BuildValue\w*|SWIG_From_\w+|SWIG_FromCharPtr\w*|SWIG_Python_NewPointerObj|PyUnicode_FromFormat|PyBytes_FromString\w*|_?Py_X?NewRef)$')
# new references that come back null for some input, with the exception set
MAYNEW=re.compile(r'^(PySequence_(GetItem|Tuple|List|Fast)|PyUnicode_AsUTF8String|PyUnicode_AsEncodedString|PyUnicode_From(String|StringAndSize|EncodedObject)|PyUnicode_Decode\w*|PyObject_(GetAttr\w*|GetItem|Str|Repr|Call\w*|GetIter)|PyNumber_\w+|PyIter_Next|PyMapping_\w+Items|PyDict_(Keys|Values|Items|Copy))$')
MAYBORROW=re.compile(r'^(PyUnicode_AsUTF8|PyUnicode_AsUTF8AndSize|PyTuple_GetItem|PyList_GetItem)$')
QUIETBORROW=re.compile(r'^(PyDict_GetItem|PyDict_GetItemString)$')
MAYINT=re.compile(r'^(PyObject_(Size|Length)|PySequence_(Size|Length)|PyMapping_(Size|Length)|PyLong_As(Long|Int|LongLong|Ssize_t|UnsignedLong\w*|Size_t|LongAndOverflow)|PyObject_IsTrue|PyArg_\w+|PyFloat_AsDouble|PyNumber_AsSsize_t)$')
STEAL={'PyTuple_SetItem':2,'PyList_SetItem':2,'PyTuple_SET_ITEM':2,'PyList_SET_ITEM':2,'PyModule_AddObject':2}
SETERR=re.compile(r'^(PyErr_(SetString|SetObject|SetNone|Format|NoMemory|BadInternalCall|BadArgument)|SWIG_Python_(SetErrorMsg|SetErrorObj|TypeError|RaiseOrModifyTypeError|AddErrMesg|AddErrorMsg|ArgFail|ArgError)|SWIG_Error)$')
NULLOK=re.compile(r'^(pv_xdecref|pv_incref|SWIG_Python_NewPointerObj|SWIG_\w+|PyErr_\w+|PyDict_Next|operator delete(\[\])?|free|llvm\..*|Partio::(cloneSchema|clone)|swig::\w+|PyUnicode_Decode\w*|PyErr_Fetch|PyErr_Restore|std::move|std::forward)$')
DATA=re.compile(r'^Partio::(ParticlesData::(data|fixedData)|ParticlesDataMutable::(dataWrite|fixedDataWrite)|ParticlesData::dataInternal)$')
OWN=re.compile(r'^(SWIG|swig|Swig|PyInit|std::|__|pv_|_p_|_wrap_SwigPy|_wrap_delete|Partio::|PyObject_TypeCheck|Py_)')
FMT={'i':32,'I':32,'d':0,'f':0,'l':64,'k':64,'L':64,'K':64,'n':64,'h':32,'H':32,'b':32,'B':32,'c':32,'s':-1,'z':-1,'y':-1,'O':-1,'N':-1,'S':-1,'U':-1}

class Py(Client):
    def __init__(s,ctx,fn,summ,where):
        s.ctx=ctx;s.fn=fn;s.summ=summ;s.where=where;s.n=collections.Counter();s.ex=set()
        s.pyret=False
    def track_phi(s,i): return True
    def keep(s,k,v): return isinstance(k,int) and s.fn.inst[k].op in('call','invoke')
    def report(s,F,kind,i,msg):
        n=s.fn.short.replace('Partio::','')
        s.ctx.bad('%s:%s:%s'%(n,kind,msg[:60]),'%s: %s'%(n,msg),s.where(i.loc),'binding path',[s.where(x) for x in F.path()])
    def get(s,ts,k):
        for a,b in ts:
            if a==k: return b
    def put(s,ts,k,v):
        r={(a,b) for a,b in ts if a!=k}
        if v is not None: r.add((k,v))
        return frozenset(r)
    def err(s,ts,v): return s.put(ts,'err',True if v else None)
    def site(s,F,o,facts):
        v=F.ev(o,facts)
        return v[1] if isinstance(v,tuple) and v[0]=='res' else None
    def fresh(s,F,i,facts,ts,ok=True,maybe=False,seterr=True):
        """a new reference: states after the call"""
        if s.get(ts,i.id)=='held': s.report(F,'leak',i,'the reference %s gave in the round before is dropped'%s.fn.callee(i))
        s.n['reference']+=1
        f={k:v for k,v in facts.items() if v!=('res',i.id)}
        f[i.id]=('res',i.id);out=[(f,s.put(ts,i.id,'held'))]
        if maybe:
            g={k:v for k,v in facts.items() if v!=('res',i.id)};g[i.id]='null'
            out.append((g,s.put(s.err(ts,True) if seterr else ts,i.id,None)))
        F.rel.add(i.id)
        return out
    def step(s,F,i,facts,ts):
        fn=s.fn
        if i.op=='load' or i.op=='store':
            o=i.o[-1]
            if F.ev(o,facts)=='null' or s.base(F,o,facts)=='null': s.report(F,'null',i,'a null result is dereferenced')
            if i.op=='store':
                k=s.site(F,i.o[0],facts)
                if k is not None and s.get(ts,k)=='held': return [(facts,s.put(ts,k,None))]
            return None
        if i.op not in('call','invoke'): return None
        n=fn.callee(i)
        if n.startswith('llvm.'): return None
        vs=[F.ev(o,facts) for o in i.o]
        if any(v=='null' or s.base(F,o,facts)=='null' for v,o in zip(vs,i.o)) and not NULLOK.match(n) and not n.startswith('_wrap_'):
            for k,(v,o) in enumerate(zip(vs,i.o)):
                if (v=='null' or s.base(F,o,facts)=='null') and s.tracked(o) and not(n in STEAL and k==STEAL[n] and False):
                    s.report(F,'null',i,'%s is given the null result of a call that failed'%n);break
        if n=='pv_decref' or n=='pv_xdecref' or n in('Py_DecRef','Py_XDECREF','Py_DECREF'):
            k=s.site(F,i.o[0],facts)
            if k is None: return None
            st=s.get(ts,k)
            if st in('released','stolen'): s.report(F,'double',i,'a reference is given up twice')
            return [(facts,s.put(ts,k,'released'))]
        if n=='pv_incref':
            k=s.site(F,i.o[0],facts)
            if k is None: return None
            st=s.get(ts,k)
            if st in('stolen','lent'): return [(facts,s.put(ts,k,'held'))]
            return None
        if n in('PyList_Append','PyDict_SetItem','PyDict_SetItemString','PySet_Add','PyObject_SetAttrString','PyObject_SetItem'):
            for o in i.o[1:]:
                k=s.site(F,o,facts)
                if k is not None: ts=s.put(ts,('shared',k),True)
            return [(facts,ts)]
        if not NULLOK.match(n) and n not in STEAL:
            for o in i.o:
                k=s.site(F,o,facts)
                if k is not None and s.get(ts,k)=='released' and not s.get(ts,('shared',k)):
                    s.report(F,'released',i,'%s is given a reference that was given up before'%n)
        if n in STEAL:
            k=s.site(F,i.o[STEAL[n]],facts) if len(i.o)>STEAL[n] else None
            if k is None: return None
            if s.get(ts,k) in('released','stolen'): s.report(F,'double',i,'a reference is given up twice')
            return [(facts,s.put(ts,k,'stolen'))]
        if SETERR.match(n):
            s.n['raise']+=1
            return [(facts,s.err(ts,True))]
        if n=='PyErr_Clear': return [(facts,s.err(ts,False))]
        if n=='PyErr_Occurred':
            f=dict(facts);f[i.id]='nn' if s.get(ts,'err') else 'null';F.rel.add(i.id);return [(f,ts)]
        if n in('PyErr_ExceptionMatches','PyErr_GivenExceptionMatches'):
            if s.get(ts,'err'): return None
            f=dict(facts);f[i.id]=0;F.rel.add(i.id);return [(f,ts)]
        if NEW.match(n): return s.fresh(F,i,facts,ts)
        if MAYNEW.match(n):
            if n.startswith('PyUnicode_Decode') and len(i.o)>2 and s.handler(i.o[-1] if not n.startswith('PyUnicode_DecodeUTF8') else i.o[2]): return s.fresh(F,i,facts,ts)
            return s.fresh(F,i,facts,ts,maybe=True)
        if MAYBORROW.match(n) or QUIETBORROW.match(n) or DATA.match(n):
            f,g=dict(facts),dict(facts);f[i.id]='nn';g[i.id]='null';F.rel.add(i.id);s.n['may fail']+=1
            return [(f,ts),(g,s.err(ts,True) if MAYBORROW.match(n) else ts)]
        if n=='PyFloat_AsDouble' and i.o and s.get(ts,('float',F.key(i.o[0]))): return None
        if MAYINT.match(n):
            s.n['may fail']+=1
            f,g=dict(facts),dict(facts);F.rel.add(i.id)
            if n!='PyFloat_AsDouble': g[i.id]=0 if n.startswith('PyArg_') else -1
            if n.startswith('PyArg_'): f[i.id]=1
            if n in('PyObject_Size','PyObject_Length','PySequence_Size','PySequence_Length','PyMapping_Size','PyMapping_Length'): f[i.id]=('ge',0)
            f.pop(i.id,None) if n.startswith('PyLong_As') else None
            return [(f,ts),(g,s.err(ts,True))]
        if n=='SWIG_Python_UnpackTuple':
            f,g=dict(facts),dict(facts);f[i.id]=('ne',0);g[i.id]=0;F.rel.add(i.id)
            return [(f,ts),(g,s.err(ts,True))]
        if n=='SWIG_Python_TypeErrorOccurred': return None
        if n in s.summ:
            out=[];F.rel.add(i.id);ret=i.d.get('t')=='ptr'
            for nul,er in sorted(s.summ[n],key=str):
                if ret and nul=='null': f=dict(facts);f[i.id]='null';out.append((f,s.err(ts,er or bool(s.get(ts,'err')))))
                elif ret and s.summ[n,'py']:
                    for f,t in s.fresh(F,i,facts,ts): out.append((f,s.err(t,er or bool(s.get(ts,'err')))))
                else:
                    f=dict(facts)
                    if ret and nul=='nn': f[i.id]='nn'
                    out.append((f,s.err(ts,er or bool(s.get(ts,'err')))))
            if not out: return []
            return out
        if n=='operator new': return None
        # anything else may keep what it is given only if it is a container's setter
        return None
    def base(s,F,o,facts):
        x=s.fn.val(o);d=0
        while x is not None and x.op in('getelementptr','bitcast') and d<10:
            b=x.d['base'] if x.op=='getelementptr' else x.o[0]
            v=F.ev(b,facts)
            if v=='null': return v
            x=s.fn.val(b);d+=1
    def tracked(s,o,d=0):
        """does the value come from a call that can fail"""
        x=s.fn.val(o)
        if x is None or d>6: return False
        if x.op in('call','invoke'):
            n=s.fn.callee(x)
            return bool(MAYNEW.match(n) or MAYBORROW.match(n) or QUIETBORROW.match(n) or DATA.match(n) or n in s.summ)
        if x.op=='phi': return any(s.tracked(v,d+1) for _,v in x.d['in'])
        if x.op=='getelementptr': return s.tracked(x.d['base'],d+1)
        if x.op in('bitcast','select'): return any(s.tracked(v,d+1) for v in x.o)
        return False
    def handler(s,o):
        """decoding with an error handler that accepts every byte"""
        x=s.fn.prog.globals.get(o[1]) if o[0]=='g' else None
        t=bytes.fromhex(x['str']).rstrip(b'\0') if x and 'str' in x else b''
        return t in(b'surrogateescape',b'replace',b'ignore',b'backslashreplace')
    def edge(s,F,b,t,facts,ts):
        term=s.fn.blocks[b][-1]
        if term.op=='br' and term.o:
            for x in s.fn.blocks[b]:
                if x.op in('call','invoke') and s.fn.callee(x)=='PyObject_TypeCheck' and facts.get(x.id) in(1,('ne',0)): ts=s.put(ts,('float',F.key(x.o[0])),True)
            x=s.fn.val(term.o[0])
            if x is not None and x.op=='icmp' and x.d['pred'] in('eq','ne'):
                # the length of something that failed is no count of an attribute
                for u,v in((0,1),(1,0)):
                    if s.neglen(F,x.o[u],facts) and x.o[v][0]=='i':
                        took=t==term.d['succ'][0] if 'succ' in term.d else None
                        if took is not None and took==(x.d['pred']=='eq'): return None
        return ts
    def neglen(s,F,o,facts):
        y=s.fn.val(o)
        while y is not None and y.op in('trunc','sext','zext'): y=s.fn.val(y.o[0])
        return y is not None and y.op in('call','invoke') and bool(re.match(r'Py\w+_(Size|Length)$',s.fn.callee(y))) and F.ev(o,facts)==-1
    def exit(s,F,i,facts,ts):
        ret=F.ev(i.o[0],facts) if i.o else None
        s.n['exit']+=1
        er=bool(s.get(ts,'err'))
        for k,st in ts:
            if isinstance(k,int) and st=='held' and ret!=('res',k): s.report(F,'leak',s.fn.inst[k],'the reference %s gives is not given up on this way out'%s.fn.callee(s.fn.inst[k]))
            if isinstance(k,int) and st=='released' and ret==('res',k): s.report(F,'double',i,'a reference is returned after it was given up')
        if s.pyret and i.o:
            nul=ret=='null' or i.o[0][0]=='n'
            if nul and not er: s.report(F,'noexc',i,'null is returned without an exception')
            elif not nul and er and (ret is not None or True): s.report(F,'pending',i,'a result is returned although an exception is pending')
        s.ex.add(('null' if ret=='null' else 'nn' if ret is not None else None,er))

def run(c):
    c.rule('every path of every function of the Python module: a null result carries an exception and a result none; each reference that is taken is given up, handed over or returned exactly once; results that can be null are tested before they are used; indices into fixed arrays stay inside')
    c.assume.append('memory does not run out; the run-time support SWIG puts in every module, the Python library and its macros are trusted; one generation of the module, by the SWIG installed here; attribute handles and objects given by Python code belong together')
    prog=extract.pyview();c.units=max(c.units,1)
    text=prog.text
    src=open(extract.REPO+'/src/py/partio.i').read().split('\n')
    idx={}
    for n,l in enumerate(src): idx.setdefault(l.strip(),n+1)
    def where(loc):
        m=re.match(r'.*wrap\.cxx:(\d+)$',loc or '')
        if not m: return loc
        l=text[int(m.group(1))-1].strip() if 0<int(m.group(1))<=len(text) else ''
        if len(l)>12 and l in idx: return 'src/py/partio.i:%d'%idx[l]
        return 'generated module (%s)'%l[:60]
    prog.globals=getattr(prog,'globals',{})
    fns=[f for f in prog.fns if not OWN.match(f.short)]
    names={f.short for f in fns}
    # callees first
    order=[];seen=set()
    byname=collections.defaultdict(list)
    for f in fns: byname[f.short].append(f)
    def visit(f,st=()):
        if f in seen or f in st: return
        for i in f.calls():
            for g in byname.get(f.callee(i),()):
                visit(g,st+(f,))
        if f not in seen: seen.add(f);order.append(f)
    for f in fns: visit(f)
    summ={}
    tot=collections.Counter()
    for f in order:
        cl=Py(c,f,summ,where)
        py=any(i.op=='ret' and i.o for i in f.insts()) and (f.short.startswith('_wrap_') or pyobj(f,prog))
        cl.pyret=py
        F=Flow(f,cl,None)
        init={}
        if f.short.startswith('_wrap_'):
            # what SWIG passes: an argument tuple, and as many objects as its dispatcher counted
            for k,a in enumerate(f.d['args']):
                if a[0]=='ptr': init[('a',k)]='nn'
            for i in f.insts():
                m=re.match(r'.*wrap\.cxx:(\d+)$',i.loc or '')
                l=text[int(m.group(1))-1] if m and int(m.group(1))<=len(text) else ''
                m=re.search(r'\(nobjs < (\d+)\)',l)
                if m: init[('a',1)]=int(m.group(1))
        F.run(frozenset(),init)
        summ.setdefault(f.short,set()).update(cl.ex);summ[f.short,'py']=py
        tot.update(cl.n)
        c.touch(f)
        c.ok('function',f.short)
        arrays(c,f,where);formats(c,f,where,prog)
    c.counts['references']=tot['reference'];c.counts['ways out']=tot['exit'];c.counts['calls that can fail']=tot['may fail']
    c.need('function',30);c.need('references',20)

def pyobj(f,prog):
    m=re.match(r'^(static )?_object ?\*',getattr(f,'dem','') or '')
    if m: return True
    # C++ functions do not carry their result type: what is returned decides
    for i in f.insts():
        if i.op in('call','invoke') and (NEW.match(f.callee(i)) or MAYNEW.match(f.callee(i))):
            st=[['i',i.id]];done=set()
            while st:
                k=st.pop()[1]
                if k in done: continue
                done.add(k)
                for x in f.insts():
                    if x.op=='ret' and x.o and x.o[0][0]=='i' and x.o[0][1]==k: return True
                    if x.op=='phi' and any(v[0]=='i' and v[1]==k for _,v in x.d['in']): st.append(['i',x.id])
                    if x.op in('bitcast','select') and any(o[0]=='i' and o[1]==k for o in x.o): st.append(['i',x.id])
    return False
LENS=re.compile(r'^(PyObject_(Size|Length)|PySequence_(Size|Length)|PyTuple_Size|PyList_Size|std::vector::size|strlen)$')
def arrays(c,f,where):
    R=None
    for i in f.insts():
        if i.op!='getelementptr': continue
        P=i.d['path']
        for k,q in enumerate(P):
            if q[0]!='x' or q[1][0]!='i': continue
            ext=None
            if k and P[k-1][0]=='x':
                m=re.match(r'\[(\d+) x ',str(P[k-1][3]))
                if m: ext=int(m.group(1))
            if k and P[k-1][0]=='f' or ext is None:
                b=P[k-1] if k else None
            if ext is None: continue
            if not any(i is f.val(x.o[-1]) for x in f.insts() if x.op in('store','load')) and True:
                pass
            R=R or Ranges(f)
            r=R.at(i,q[1])
            name=f.short
            if r is None: c.und('fixed array','%s: index at %s'%(name,where(i.loc)))
            elif r[0]>=0 and r[1]<ext: c.ok('fixed array','%s: index within %d places'%(name,ext))
            elif bylength(f,q[1]): c.bad('%s:array:%d'%(name,ext),'%s: an array of %d places is indexed up to a length that comes from outside (0 to %d)'%(name,ext,r[1]),where(i.loc),'fixed array')
            else: c.und('fixed array','%s: index at %s is in %s of %d'%(name,where(i.loc),r,ext))
def bylength(f,o):
    """is the index counted up to a length given from outside"""
    x=f.val(o);d=0
    while x is not None and (x.op in('sext','zext','trunc') or x.op in('add','sub') and x.o[1][0]=='c'): x=f.val(x.o[0])
    if x is None: return False
    for i in f.insts():
        if i.op=='icmp':
            for u,v in((i.o[0],i.o[1]),(i.o[1],i.o[0])):
                y=f.val(u)
                while y is not None and y.op in('sext','zext','trunc'): y=f.val(y.o[0])
                if y is not x: continue
                z=f.val(v);n=0
                while z is not None and z.op in('sext','zext','trunc') and n<6: z=f.val(z.o[0]);n+=1
                if z is not None and z.op in('call','invoke') and LENS.match(f.callee(z)): return True
    return False
def formats(c,f,where,prog):
    for i in f.calls():
        n=f.callee(i)
        if not re.match(r'_?Py_BuildValue',n) or not i.o: continue
        g=prog.globals.get(i.o[0][1]) if i.o[0][0]=='g' else None
        if not g or 'str' not in g: c.und('format','%s: format of %s'%(f.short,n));continue
        fmt=[x for x in bytes.fromhex(g['str']).rstrip(b'\0').decode('latin1') if x.isalpha()]
        args=i.o[1:];ok=len(fmt)==len(args)
        for x,o in zip(fmt,args):
            w=FMT.get(x);y=f.val(o)
            t=y.d.get('t') if y is not None else None
            if w is None or t is None: continue
            m=re.match(r'i(\d+)$',t)
            if m and w==32 and y.op=='trunc':
                z=f.val(y.o[0])
                if z is not None and z.d.get('t')=='i64' and z.op=='load': c.bad('%s:narrow'%f.short,'%s: a 64 bit value is handed to %s as an int'%(f.short,n),where(i.loc),'format')
            if m and (w<=0 or w!=int(m.group(1))) or t=='ptr' and w>=0 or t in('double','float') and w!=0: ok=False
        c.decide(ok,'format','%s: %s with the arguments its format says'%(f.short,n),'%s: the format %r of %s does not fit the arguments (a 64 bit index taken as an int loses its upper half)'%(f.short,''.join(fmt),n),where(i.loc))
