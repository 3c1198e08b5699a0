"""Path-sensitive forward dataflow (ESP style): abstract states are sets of facts
about SSA values (constant / null / non-null / alias of a tracked object) plus a
client component.  States are merged only when equal; facts about dead values are
dropped.  Conditions decided by the facts prune the edge."""
from mem import *

class Flow(object):
    CAP=4000
    def __init__(s,fn,client,RT=None,mem_locals=False):
        s.fn=fn;s.c=client;s.RT=RT;s.use_mem=mem_locals
        s.T=Terms(fn)
        s._live()
        s._relevant()
        s.parent={}
        s.memk={}
        s._memlocals()
    # --- values ------------------------------------------------------------
    def key(s,o):
        """canonical fact key of an operand (through casts and trivial GEPs)"""
        while o[0]=='i':
            x=s.fn.inst[o[1]]
            if x.op in('bitcast','zext','sext','trunc','ptrtoint','inttoptr','freeze'): o=x.o[0];continue
            if x.op=='getelementptr' and not any(p[0]!='f' or p[4]!=0 for p in x.d['path']): o=x.d['base'];continue
            if x.op in('call','invoke') and s.fn.callee(x) in('std::forward','std::move') and x.o: o=x.o[0];continue
            break
        if o[0]=='i': return o[1]
        if o[0]=='a': return ('a',o[1])
        if o[0]=='g': return ('g',o[1])
        return None
    def ev(s,o,facts):
        if o[0]=='c': return o[1]&1 if len(o)>2 and o[2]==1 else o[1]
        if o[0] in('n','z'): return 'null' if o[0]=='n' else 0
        if o[0]=='ge': return 'nn'
        if o[0] not in('i','a','g'): return None
        k=s.key(o)
        if k is None:
            # constant behind a cast
            while o[0]=='i':
                x=s.fn.inst[o[1]]
                if x.op in('bitcast','zext','sext','trunc','ptrtoint','inttoptr','freeze'): o=x.o[0]
                elif x.op=='getelementptr': return None
                else: return None
            return s.ev(o,facts)
        if k in facts: return facts[k]
        if isinstance(k,tuple) and k[0]=='g': return 'nn'
        if isinstance(k,int):
            x=s.fn.inst[k]
            if x.op=='alloca': return 'nn'
            if x.op=='icmp': return s.ev_cmp(x,facts)
            if x.op=='select':
                c=s.ev(x.o[0],facts)
                if c in(0,): return s.ev(x.o[2],facts)
                if c in(1,-1): return s.ev(x.o[1],facts)
                a,b=s.ev(x.o[1],facts),s.ev(x.o[2],facts)
                return a if a==b else None
            if x.op=='xor':
                a,b=s.ev(x.o[0],facts),s.ev(x.o[1],facts)
                if isinstance(a,int) and b in(1,-1) and x.d.get('t')=='i1': return 0 if a else 1
            if x.op in('and','or') and x.d.get('t')=='i1':
                a,b=s.ev(x.o[0],facts),s.ev(x.o[1],facts)
                if x.op=='and' and (a==0 or b==0): return 0
                if x.op=='or' and (a in(1,-1) or b in(1,-1)): return 1
            n=s.fn.callee(x) if x.op in('call','invoke') else ''
            if n in('operator new','operator new[]','Partio::create','Partio::createInterleave'): return 'nn'
        return None
    def ev_cmp(s,x,facts):
        a,b=s.ev(x.o[0],facts),s.ev(x.o[1],facts);p=x.d['pred']
        if isinstance(b,(str,tuple)) and not isinstance(a,(str,tuple)):
            a,b=b,a;p={'slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(p,p)
        def nul(v): return True if v=='null' else False if (v=='nn' or (isinstance(v,tuple) and v[0]=='res')) else None
        if b=='null' or a=='null':
            o=a if b=='null' else b
            n=nul(o)
            if n is None: return None
            return int(n) if p=='eq' else int(not n) if p=='ne' else None
        if isinstance(a,int) and isinstance(b,int):
            try: return int({'eq':a==b,'ne':a!=b,'slt':a<b,'sgt':a>b,'sle':a<=b,'sge':a>=b}[p])
            except KeyError: 
                if a>=0 and b>=0: return int({'ult':a<b,'ugt':a>b,'ule':a<=b,'uge':a>=b}[p])
                return None
        if isinstance(a,tuple) and a[0]=='ge' and isinstance(b,int):
            if b<a[1] or (b==a[1] and p in('slt','sge')): return {'slt':0,'sle':0,'eq':0,'sgt':1,'sge':1,'ne':1}.get(p)
            return None
        if isinstance(a,tuple) and a[0]=='ne' and isinstance(b,int) and a[1]==b: return int(p=='ne') if p in('eq','ne') else None
        if isinstance(b,tuple) and b[0]=='ne' and isinstance(a,int) and b[1]==a: return int(p=='ne') if p in('eq','ne') else None
        return None
    # --- refinement ----------------------------------------------------------
    def refine(s,o,val,facts):
        """facts after operand o (i1) is known to be val"""
        if o[0]!='i': return facts
        x=s.fn.inst[o[1]]
        facts=dict(facts)
        if x.id in s.rel: facts[x.id]=int(val)
        if x.op=='freeze': return s.refine(x.o[0],val,facts)
        if x.op=='xor' and s.ev(x.o[1],facts) in(1,-1): return s.refine(x.o[0],not val,facts)
        if x.op=='icmp':
            p=x.d['pred']
            if not val: p=NEG[p]
            a,b=x.o[0],x.o[1]
            for u,v in((a,b),(b,a)):
                c=s.ev(v,facts);k=s.key(u)
                if k is None: continue
                cur=facts.get(k)
                if c=='null':
                    if p=='eq': facts[k]='null'
                    elif p=='ne' and not (isinstance(cur,tuple)): facts[k]='nn'
                    s.c_refined(k,facts.get(k),facts)
                elif isinstance(c,int):
                    if p=='eq': facts[k]=c; s.c_refined(k,c,facts)
                    elif p=='ne':
                        inner=s.fn.inst.get(k) if isinstance(k,int) else None
                        if inner is not None and inner.op in('icmp','xor','and','or') and c in(0,): 
                            return s.refine(['i',k],True,facts)
                        if isinstance(cur,tuple) and cur[0]=='ge' and c==cur[1]: facts[k]=('ge',c+1)
                        elif isinstance(cur,tuple) and cur[0]=='ge': pass
                        elif inner is not None and inner.d.get('t')=='i1': facts[k]=1-c if c in(0,1) else ('ne',c)
                        else: facts[k]=('ne',c)
                        s.c_refined(k,facts[k],facts)
            if p=='eq':
                k=s.key(a);c=s.ev(b,facts)
                inner=s.fn.inst.get(k) if isinstance(k,int) else None
                if inner is not None and inner.op in('icmp','xor') and c==0: return s.refine(['i',k],False,facts)
        return facts
    def c_refined(s,k,v,facts): pass
    # --- locals kept in memory -------------------------------------------------
    def _memlocals(s):
        """scalar locals whose address is taken: their current value is tracked as the
        fact ('m',alloca) between the calls that may write them"""
        s.mloc={};s.mkill=collections.defaultdict(list)
        if not s.use_mem: return
        fn=s.fn
        M=s.RT.mem if s.RT is not None else Mem(fn)
        for i in fn.insts():
            if i.op=='alloca' and re.match(r'(ptr|i\d+)$',i.d['aty']): s.mloc[i.id]=i
        for b,L in M.bb.items():
            for (i,r,p,kind,k) in L:
                if kind=='call' and r[0]=='alloca' and r[1] in s.mloc: s.mkill[i.id].append(r[1])
    def mem_step(s,i,f):
        if i.op=='store':
            k=s.key(i.o[1])
            if isinstance(k,int) and k in s.mloc:
                v=s.ev(i.o[0],f); f=dict(f)
                if v is None: f.pop(('m',k),None)
                else: f[('m',k)]=v
        elif i.op=='load':
            k=s.key(i.o[0])
            if isinstance(k,int) and ('m',k) in f:
                f=dict(f);f[i.id]=f[('m',k)]
        elif i.id in s.mkill:
            f=dict(f)
            for k in s.mkill[i.id]: f.pop(('m',k),None)
        return f
    # --- liveness / relevance ---------------------------------------------------
    def _live(s):
        fn=s.fn;n=len(fn.blocks)
        use=[set() for _ in range(n)];de=[set() for _ in range(n)];phi_in=[collections.defaultdict(set) for _ in range(n)]
        for b,L in enumerate(fn.blocks):
            for i in L:
                if i.op=='phi':
                    for p,v in i.d['in']:
                        if v[0] in('i','a'): phi_in[b][p].add(v[1] if v[0]=='i' else ('a',v[1]))
                    de[b].add(i.id);continue
                for v in operands(i):
                    k=v[1] if v[0]=='i' else ('a',v[1]) if v[0]=='a' else None
                    if k is not None and k not in de[b]: use[b].add(k)
                de[b].add(i.id)
        live=[set() for _ in range(n)];ch=True
        while ch:
            ch=False
            for b in range(n-1,-1,-1):
                out=set()
                for t in fn.succ[b]: out|=live[t]|phi_in[t].get(b,set())
                new=use[b]|(out-de[b])
                if new!=live[b]: live[b]=new;ch=True
        # add keys (through casts) of live values
        s.live=[]
        for b in range(n):
            K=set(live[b])|{i.id for i in fn.blocks[b] if i.op=='phi'}
            for v in sorted(K,key=str):
                if isinstance(v,int):
                    k=s.key(['i',v])
                    if k is not None: K.add(k)
                    st=[v]
                    while st:
                        x=fn.inst[st.pop()]
                        if x.op in('icmp','xor','and','or','select','freeze'):
                            for o in x.o:
                                kk=s.key(o)
                                if kk is not None and kk not in K:
                                    K.add(kk)
                                    if isinstance(kk,int): st.append(kk)
            s.live.append(K)
    def _relevant(s):
        cnt=collections.Counter()
        for i in s.fn.insts():
            if i.op in('icmp','br','switch','select'):
                for o in i.o:
                    k=s.key(o)
                    if k is not None: cnt[k]+=1
        rel={k for k,c in cnt.items() if c>=2}
        # phis feeding conditions or the return value
        work=[]
        for i in s.fn.insts():
            if i.op in('icmp','br','switch','select','ret','xor','and','or'):
                for o in i.o:
                    k=s.key(o)
                    if isinstance(k,int) and s.fn.inst[k].op=='phi': work.append(k)
        seen=set()
        while work:
            k=work.pop()
            if k in seen: continue
            seen.add(k);rel.add(k)
            for b,v in s.fn.inst[k].d['in']:
                kk=s.key(v)
                if kk is None: continue
                rel.add(kk)
                if isinstance(kk,int) and s.fn.inst[kk].op=='phi': work.append(kk)
        for i in s.fn.insts():
            if i.op=='phi' and s.c.track_phi(i): rel.add(i.id)
        s.rel=rel
    # --- run --------------------------------------------------------------------
    def keep(s,k,v): return k in s.rel or (isinstance(v,tuple) and v[0]=='res') or s.c.keep(k,v)
    def freeze(s,b,facts,ts):
        L=s.live[b]
        return (frozenset((k,v) for k,v in facts.items() if (isinstance(k,tuple) and (k[0]=='m' or k in s.init_keys)) or k in L and s.keep(k,v) or (isinstance(k,tuple) and k[0]=='a' and s.keep(k,v))),ts)
    def run(s,init_ts,init_facts=None,start=0):
        fn=s.fn
        s.init_keys=set(k for k in (init_facts or {}) if isinstance(k,tuple))
        st=s.freeze(start,init_facts or {},init_ts)
        seen=[set() for _ in fn.blocks]
        seen[start].add(st);work=[(start,st)];s.parent[(start,st)]=None
        while work:
            b,st=work.pop()
            facts=dict(st[0]);ts=st[1]
            s.cur=(b,st)
            cur=[(facts,ts)]
            for i in fn.blocks[b]:
                if i.op=='phi': continue
                if i.op in('br','switch'): break
                nxt=[]
                for f,t in cur:
                    # redefinition kills old facts about this value (previous iteration)
                    if i.id in f: f=dict(f);del f[i.id]
                    if s.use_mem: f=s.mem_step(i,f)
                    r=s.c.step(s,i,f,t)
                    if r is None: nxt.append((f,t))
                    else: nxt.extend(r)
                cur=nxt
            term=fn.blocks[b][-1]
            for f,t in cur:
                if term.op=='ret': s.c.exit(s,term,f,t);continue
                if term.op=='unreachable': continue
                for (t2,f2) in s.edges(term,f):
                    ff=s.phis(b,t2,f2)
                    ts2=s.c.edge(s,b,t2,ff,t)
                    if ts2 is None: continue
                    if ts2 is None: continue
                    ns=s.freeze(t2,ff,ts2)
                    if ns not in seen[t2]:
                        if len(seen[t2])>s.CAP: raise AnalysisBroken('%s: state cap reached in block at %s'%(fn.short,term.loc))
                        seen[t2].add(ns);s.parent[(t2,ns)]=(b,st);work.append((t2,ns))
        return seen
    def edges(s,term,f):
        if term.op=='br':
            if not term.o: return [(term.d['succ'][0],f)]
            c=s.ev(term.o[0],f); a,b=term.d['succ']
            if c is not None and isinstance(c,int): return [(a if c else b,f)]
            return [(a,s.refine(term.o[0],True,f)),(b,s.refine(term.o[0],False,f))]
        c=s.ev(term.o[0],f);out=[]
        if isinstance(c,int):
            for v,t in term.d['cases']:
                if v==c: return [(t,f)]
            return [(term.d['default'],f)]
        k=s.key(term.o[0])
        for v,t in term.d['cases']:
            g=dict(f)
            if k is not None: g[k]=v; s.c_refined(k,v,g)
            out.append((t,g))
        out.append((term.d['default'],f))
        return out
    def phis(s,b,t,f):
        new={};kill=[]
        for i in s.fn.blocks[t]:
            if i.op!='phi': break
            for p,v in i.d['in']:
                if p==b:
                    e=s.ev(v,f)
                    kill.append(i.id)
                    if e is not None: new[i.id]=e
                    break
        if not kill: return dict(f)
        g={k:v for k,v in f.items() if k not in kill}
        g.update(new)
        return g
    def path(s,extra=None,limit=14):
        """source lines of the branches taken to the current state"""
        out=[];n=s.cur;seen=0
        while n is not None and seen<400:
            seen+=1
            b=n[0]
            t=s.fn.blocks[b][-1]
            if len(s.fn.succ[b])>1: out.append(t.loc)
            n=s.parent.get(n)
        o=[]
        for l in out[::-1]:
            if not o or o[-1]!=l: o.append(l)
        return o[-limit:]

class Client(object):
    def track_phi(s,i): return False
    def keep(s,k,v): return False
    def step(s,F,i,facts,ts): return None
    def edge(s,F,b,t,facts,ts): return ts
    def exit(s,F,i,facts,ts): pass
