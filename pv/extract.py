"""Compile /repo's current sources to bitcode and extract the program views."""
import os, sys, glob, hashlib, subprocess, json, tempfile, shutil, concurrent.futures as cf
from core import Program, AnalysisBroken
import core

HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(HERE)
BUILD=os.path.join(VERIF,'build')
REPO=os.environ.get('PV_REPO','/repo')
core.REPO=REPO
PVX=os.path.join(BUILD,'pvx')
FLAGS=['-std=c++14','-DPARTIO_USE_ZLIB','-DNDEBUG','-O0','-Xclang','-disable-O0-optnone','-g',
       '-fignore-exceptions','-fno-delete-null-pointer-checks','-fvisibility=hidden','-flto','-fwhole-program-vtables','-w','-fno-access-control']
STOP=r'^Partio::(io::|read\(char|readHeaders\(char|write\(char|Gzip_|endianSwap|create|clone\(|cloneSchema|ParticleIterator|ParticleAccessor|TypeSize|TypeName|ParticleAttribute::|FixedAttribute::|ParticleHeaders::(~?)ParticleHeaders|ParticlesSimple::(~?)ParticlesSimple\(|PartioMutex::|PartioLock)'
STOP2=r'^[^<(]* Partio::(endianSwap|io::|ParticleIterator|ParticleAccessor|TypeSize)'
STDINL=[r'(^| )std::(min|max|swap|forward|move|abs|__addressof|addressof)(<|\()', r'^std::(remove_reference|enable_if|__strip)[^(]* std::(forward|move|swap)',
  r'^__gnu_cxx::__normal_iterator<', r'^[A-Za-z_ ]*__gnu_cxx::operator[^(]*\(__gnu_cxx::__normal_iterator<']

def lib_sources():
    src=sorted(glob.glob(REPO+'/src/lib/core/*.cpp')+glob.glob(REPO+'/src/lib/io/*.cpp'))
    if len(src)<10: raise AnalysisBroken('library sources not found under %s/src/lib'%REPO)
    return src

def _hash(extra=()):
    h=hashlib.sha256()
    fs=[]
    for d,_,names in os.walk(REPO+'/src'):
        for n in names:
            if n.endswith(('.cpp','.h','.i','.cxx')): fs.append(os.path.join(d,n))
    for f in sorted(fs)+[HERE+'/extract.py',VERIF+'/tool/pvx.cpp']:
        h.update(f.encode());h.update(open(f,'rb').read())
    for e in extra: h.update(str(e).encode())
    return h.hexdigest()[:24]

def ensure_tool():
    subprocess.check_call(['bash',VERIF+'/tool/build.sh'],stdout=sys.stderr)

def _run(cmd):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE)
    if p.returncode: raise AnalysisBroken('command failed: %s\n%s'%(' '.join(cmd)[:300],p.stderr.decode()[-3000:]))
    return p.stdout

def compile_bc(sources,out,defs=()):
    tmp=tempfile.mkdtemp(prefix='pvbc.',dir=BUILD)
    try:
        def one(k):
            o='%s/%d.bc'%(tmp,k)
            _run(['clang++-18']+FLAGS+list(defs)+['-I'+REPO+'/src/lib','-emit-llvm','-c',sources[k],'-o',o])
            return o
        with cf.ThreadPoolExecutor(8) as ex: objs=list(ex.map(one,range(len(sources))))
        _run(['llvm-link-18']+objs+['-o',out])
    finally: shutil.rmtree(tmp,ignore_errors=True)

READERS='BGEO GEO PDB PDB32 PDB64 PDA MC PTC PDC PRT BIN PTS'.split()
_mem={}
def view(kind,sources=None,tag='lib',noinline=()):
    """kind: 'raw' | 'inl' | 'spec' (inlined, with the readers cloned for headersOnly=false/true)"""
    key=(kind,tag)
    if key in _mem: return _mem[key]
    ensure_tool()
    src=sources or lib_sources()
    hs=_hash((tag,)+tuple(noinline))
    cd=BUILD+'/cache/'+hs; os.makedirs(cd,exist_ok=True)
    js='%s/%s.%s.json'%(cd,tag,kind)
    if not os.path.exists(js):
        bc='%s/%s.bc'%(cd,tag)
        if not os.path.exists(bc):
            compile_bc(src,bc+'.%d'%os.getpid()); os.replace(bc+'.%d'%os.getpid(),bc)
        cmd=[PVX,'--root',REPO+'/src']
        for r in STDINL: cmd+=['--inlinestd',r]
        if kind!='raw':
            cmd+=['--inline','--noinline',STOP,'--noinline',STOP2]
            for r in noinline: cmd+=['--noinline',r]
        if kind=='spec':
            for r in READERS:
                for v in (0,1): cmd+=['--spec','Partio::read%s%%1%%%d%%H%d'%(r,v,v)]
        out=_run(cmd+[bc])
        with open(js+'.%d'%os.getpid(),'wb') as f: f.write(out)
        os.replace(js+'.%d'%os.getpid(),js)
        # keep the cache small
        ds=sorted(glob.glob(BUILD+'/cache/*'),key=os.path.getmtime)
        import time
        for d in ds[:-6]:
            if time.time()-os.path.getmtime(d)>600 or len(ds)>40: shutil.rmtree(d,ignore_errors=True)
    p=Program(json.load(open(js)))
    p.units=len(src)
    _mem[key]=p
    return p

def pyview(kind='raw',noinline=()):
    """the Python module: the wrapper SWIG makes of src/py/partio.i, with the code of that file in it"""
    key=('py',kind)
    if key in _mem: return _mem[key]
    ensure_tool()
    swig=shutil.which('swig') or shutil.which('swig4.0')
    inc=sorted(glob.glob('/usr/include/python3*/Python.h'))
    if not swig or not inc: raise AnalysisBroken('swig or the Python headers are not installed')
    hs=_hash(('py',)+tuple(noinline))
    cd=BUILD+'/cache/'+hs; os.makedirs(cd,exist_ok=True)
    js='%s/py.%s.json'%(cd,kind)
    if not os.path.exists(js):
        tmp=tempfile.mkdtemp(prefix='pvpy.',dir=BUILD)
        try:
            _run([swig,'-c++','-python','-includeall','-I'+REPO+'/src/lib','-I'+REPO+'/src/py','-outdir',tmp,'-o',tmp+'/partioPYTHON_wrap.cxx',REPO+'/src/py/partio.i'])
            _run(['clang++-18']+FLAGS+['-I'+REPO+'/src/lib','-I'+REPO+'/src/py','-I'+os.path.dirname(inc[-1]),'-include',HERE+'/py/pvpy.h','-emit-llvm','-c',tmp+'/partioPYTHON_wrap.cxx','-o',tmp+'/w.bc'])
            cmd=[PVX,'--root',tmp]
            for r in STDINL: cmd+=['--inlinestd',r]
            if kind!='raw':
                cmd+=['--inline']
                for r in noinline: cmd+=['--noinline',r]
            out=_run(cmd+[tmp+'/w.bc'])
            shutil.copy(tmp+'/partioPYTHON_wrap.cxx',cd+'/partioPYTHON_wrap.cxx')
        finally: shutil.rmtree(tmp,ignore_errors=True)
        with open(js+'.%d'%os.getpid(),'wb') as f: f.write(out)
        os.replace(js+'.%d'%os.getpid(),js)
    p=Program(json.load(open(js)));p.units=1
    p.text=open(cd+'/partioPYTHON_wrap.cxx').read().split('\n')
    _mem[key]=p
    return p

def roots(ctx_views):
    """functions to analyse on their own: everything except internal/inline helpers that
    are called from other repository functions (they are analysed inside their callers)"""
    raw,inl=ctx_views
    called=set()
    for f in raw.fns:
        for i in f.calls():
            for n in raw.impls(i): 
                if n!=f.name and 'callee' in i.d: called.add(n)
    import re
    stop=re.compile(STOP);stop2=re.compile(STOP2)
    out=[]
    for f in inl.fns:
        if not f.file.startswith('src/'): continue
        if f.name in called and f.d['linkage'] in('internal','odr') and not stop.search(f.dem) and not stop2.search(f.dem): continue
        out.append(f)
    return out
