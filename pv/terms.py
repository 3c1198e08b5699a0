"""Canonical value terms."""
from core import *

CASTS={'zext','sext','trunc','bitcast','ptrtoint','inttoptr','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','freeze'}
NEG={'eq':'ne','ne':'eq','slt':'sge','sge':'slt','sgt':'sle','sle':'sgt','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt'}
SWAP={'eq':'eq','ne':'ne','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}
IDENTITY=re.compile(r'^std::(unique_ptr::(get|operator_arrow|operator\*)|forward|move|__addressof|addressof)$')

class Terms(object):
    def __init__(s,fn,keepcast=False):
        s.fn=fn;s.prog=fn.prog;s.c={};s.keepcast=keepcast
    def op(s,o):
        k=o[0]
        if k=='i': return s.inst(o[1])
        if k=='a':
            return ('arg',o[1])
        if k=='c': return ('const',o[1])
        if k=='f': return ('fconst',o[1])
        if k=='n': return ('null',)
        if k=='g':
            st=s.prog.string(o[1])
            if st is not None: return ('str',st)
            return ('glob',o[1])
        if k=='ge': 
            b=s.op(o[1])
            return ('off',b,o[2]) if o[2] else b
        if k=='z': return ('const',0)
        if k=='u': return ('undef',)
        return tuple(str(x) for x in o)
    def inst(s,i):
        if i in s.c: return s.c[i]
        s.c[i]=('rec',i)
        r=s._inst(s.fn.inst[i])
        s.c[i]=r
        return r
    def _inst(s,i):
        op=i.op
        if op in CASTS:
            x=s.op(i.o[0])
            return (op,x) if s.keepcast else x
        if op=='alloca': return ('alloca',i.id)
        if op=='load': return ('load',s.op(i.o[0]))
        if op=='getelementptr':
            b=s.op(i.d['base'])
            for p in i.d['path']:
                if p[0]=='f':
                    if p[3].startswith('base:'): continue
                    if p[4]==0 and p[3].startswith('#'): continue
                    b=('fld',b,p[3])
                else:
                    x=s.op(p[1])
                    if x==('const',0): continue
                    b=('idx',b,x,p[2])
            return b
        if op in('call','invoke'):
            n=s.prog.callee(i)
            args=tuple(s.op(a) for a in i.o)
            if IDENTITY.match(n) and args: return ('deref',args[0]) if n.startswith('std::unique_ptr') else args[0]
            return ('call',n,args,i.id)
        if op=='phi': return ('phi',i.id)
        if op=='icmp':
            return ('cmp',i.d['pred'],s.op(i.o[0]),s.op(i.o[1]))
        if op=='fcmp': return ('fcmp',i.d['pred'],s.op(i.o[0]),s.op(i.o[1]))
        if op=='select': return ('select',)+tuple(s.op(x) for x in i.o)
        if op in('extractvalue',): return ('ev',s.op(i.o[0]),tuple(i.d['idx']))
        return (op,)+tuple(s.op(x) for x in i.o)

def show(t,fn=None,depth=6):
    if not isinstance(t,tuple): return str(t)
    if not t: return '()'
    if depth==0: return '…'
    k=t[0]; sh=lambda x:show(x,fn,depth-1)
    if k=='arg': 
        if fn and t[1]<len(fn.args): return fn.args[t[1]][1] or 'arg%d'%t[1]
        return 'arg%d'%t[1]
    if k=='const': return str(t[1])
    if k=='fconst': return t[1]
    if k=='null': return 'NULL'
    if k=='str': return repr(t[1].rstrip(b'\0').decode('latin1'))
    if k=='glob': return '@'+t[1]
    if k=='load': return '*'+sh(t[1])
    if k=='deref': return 'up(%s)'%sh(t[1])
    if k=='fld': return '%s.%s'%(sh(t[1]),t[2])
    if k=='idx': return '%s[%s*%d]'%(sh(t[1]),sh(t[2]),t[3])
    if k=='off': return '%s+%d'%(sh(t[1]),t[2])
    if k=='call': return '%s#%s(%s)'%(t[1].replace('std::','').replace('Partio::','') or 'indirect',t[3] if len(t)>3 else '',', '.join(sh(x) for x in t[2]))
    if k=='alloca':
        v=fn.inst[t[1]].d.get('v') if fn else None
        return '&%s%d'%(v or 'tmp',t[1])
    if k=='phi':
        v=fn.inst[t[1]].d.get('v') if fn else None
        return '%s.phi%d'%(v or '',t[1])
    if k in('cmp','fcmp'): return '(%s %s %s)'%(sh(t[2]),t[1],sh(t[3]))
    return '%s(%s)'%(sh(k) if isinstance(k,tuple) else k,', '.join(sh(x) for x in t[1:]))

def dump(fn):
    T=Terms(fn)
    print(fn.dem,fn.file,fn.line)
    for bi,b in enumerate(fn.blocks):
        print(' B%d: preds %s loops %s'%(bi,fn.pred[bi],fn.loops_of(bi)))
        for i in b:
            l=i.loc
            if i.op in('call','invoke'): print('   %%%d %s   ; %s'%(i.id,show(T.inst(i.id),fn),l))
            elif i.op=='store': print('   store %s <- %s   ; %s'%(show(T.op(i.o[1]),fn),show(T.op(i.o[0]),fn),l))
            elif i.op=='br' and i.o: print('   br %s ? %s   ; %s'%(show(T.op(i.o[0]),fn),i.d['succ'],l))
            elif i.op=='br': print('   br',i.d['succ'])
            elif i.op=='switch': print('   switch %s %s default %d ; %s'%(show(T.op(i.o[0]),fn),i.d['cases'],i.d['default'],l))
            elif i.op=='ret': print('   ret %s'%(show(T.op(i.o[0]),fn) if i.o else ''))
            elif i.op=='phi': print('   %%%d phi %s'%(i.id,[(a,show(T.op(v),fn,2)) for a,v in i.d['in']]))
            elif i.op=='alloca': print('   %%%d alloca %s %s'%(i.id,i.d['aty'],i.d.get('v','')))
