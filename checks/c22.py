"""C22: spatial queries: the tree keeps every particle once and a search may only skip what cannot match."""
from obj import *
from c14 import strip
import itertools,os

K='Partio::KdTree'
STOPN=re.compile(r'ComputeSubtreeSizes|BBox<|buildHeap|insertToHeap|KdTree<3>::(sort\w*|find\w*|setPoints|id|~?KdTree)\(')
def V(t,A):
    """value of a term; A gives the values of the atoms (None = not known)"""
    v=A(t)
    if v is not None: return v
    k=t[0]
    if k=='const': return t[1]
    if k=='null': return 0
    if k=='fconst':
        try: return float(t[1])
        except ValueError: return None
    if k=='lin':
        r=t[1]
        for x,n in t[2]:
            v=V(x,A)
            if v is None: return None
            r+=n*v
        return r
    if k=='mul':
        r=1
        for x in t[1]:
            v=V(x,A)
            if v is None: return None
            r*=v
        return r
    if k in('not',):
        v=V(t[1],A);return None if v is None else int(not v)
    if k=='select':
        v=V(t[1],A);return None if v is None else V(t[2] if v else t[3],A)
    if k=='call' and t[1].startswith('llvm.fmuladd') or k=='call' and t[1] in('llvm.fma','fma','fmaf','std::fma'):
        a=[V(x,A) for x in t[2]]
        return None if None in a else a[0]*a[1]+a[2]
    if k=='call' and t[1].split('::')[-1] in('fabs','fabsf','abs') or k=='call' and t[1].startswith(('llvm.fabs','llvm.abs')):
        v=V(t[2][0],A);return None if v is None else abs(v)
    if k in('cmp','fcmp'):
        a,b=V(t[2],A),V(t[3],A)
        if a is None or b is None: return None
        p=t[1]
        if k=='fcmp':
            if p in('ord','uno'): return int(p=='ord')
            p=p[1:]
        elif p[0] in'us' and len(p)==3: p=p[1:]
        return int({'eq':a==b,'ne':a!=b,'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[p])
    if k=='fneg':
        v=V(t[1],A);return None if v is None else -v
    if len(t)==3 and k in('fadd','fsub','fmul','fdiv','sdiv','udiv','srem','urem','shl','ashr','lshr','and','or','xor','and1','or1'):
        a,b=V(t[1],A),V(t[2],A)
        if k in('and','and1') and 0 in(a,b): return 0
        if a is None or b is None: return None
        try:
            if k=='fadd': return a+b
            if k=='fsub': return a-b
            if k=='fmul': return a*b
            if k=='fdiv': return a/b
            if k in('sdiv','udiv'): return abs(a)//abs(b)*(1 if a*b>=0 else -1)
            if k in('srem','urem'): return abs(a)%abs(b)*(1 if a>=0 else -1)
            if k=='shl': return a<<b
            if k in('ashr','lshr'): return a>>b
            return {'and':a&b,'and1':a&b,'or':a|b,'or1':a|b,'xor':a^b}[k]
        except (ZeroDivisionError,ValueError,TypeError): return None
    return None
def L(f): return '%s:%d'%(f.file,f.line)
def short(n): return n.split('::')[-1]
def bundle(d):
    return lambda t: d.get(t)

class Sp(object):
    def __init__(s,c):
        s.c=c;s.prog=c.view('raw');dv=devirt(s.prog);s.memo={}
        def nest(fn,i,n,a):
            t=dv(fn,i,n,a)
            return None if t is None or STOPN.search(t.dem) else t
        s.nest=nest
    def fn(s,rx):
        fs=[f for f in s.prog.fns if re.search(rx,f.dem)]
        return fs[0] if len(fs)==1 else None
    def paths(s,f):
        if f.name not in s.memo:
            it=Interp(s.prog,s.nest)
            try: ps=it.run(f)
            except TooMany: ps=None
            s.memo[f.name]=(it,ps);s.c.touch(f)
        it,ps=s.memo[f.name]
        return it,None if ps is None else [p for p in ps if p.end==('ret',)]
    def get(s,rx,kind,what):
        f=s.fn(rx)
        if f is None: s.c.und(kind,what+' not found');return None
        it,ps=s.paths(f)
        if ps is None: s.c.und(kind,what+' has too many paths');return None
        return f,it,ps
    def eff(s,p):
        return [e for e in p.ev if e[0] in MUT or e[0] in('push','loop','call')]

    # ---- boxes
    def axes(s,f,it,ps,vec,kind,what):
        """decide a per-axis function: yields (path, is loop, body) ; all three axes must be visited"""
        lps=set()
        for p in ps:
            for e in p.ev:
                if e[0]=='loop': lps.add(e[1])
        if len(lps)!=1: s.c.und(kind,what+' is not one loop over the axes');return None
        iv=[x for x in lps.pop() if x[2]==ONE]
        if len(iv)!=1: s.c.und(kind,what+' loop form');return None
        v,e0,_=iv[0]
        lo=e0
        bounds=set()
        for p in ps:
            for e in p.ev:
                if e[0]!='loop': continue
                for cc,b in e[2]:
                    for x,_l in cc:
                        if x[0]=='cmp' and x[1] in('slt','ult','ne') and v in x[2:]: bounds.add(x[3] if x[2]==v else x[2])
                        elif x[0]=='cmp' and x[1] in('sle','ule') and x[2]==v: bounds.add(add(x[3],ONE))
        if lo!=ZERO or len(bounds)!=1: s.c.und(kind,what+' loop bounds');return None
        b=bounds.pop()
        if b[0]!='const': s.c.und(kind,what+' loop bound '+fmt(b));return None
        if b!=('const',3):
            s.c.bad(what+' axes','%s covers %d of the 3 axes'%(what,b[1]),L(f),kind);return None
        return v
    def box(s):
        """BBox::set, grow, inside, intersects; gives the addresses of the bounds"""
        c=s.c;kind='box';B=r'BBox<3>::'
        r=s.get(B+r'grow\(float const\*\)',kind,'BBox::grow')
        s.lo=s.hi=None
        if r:
            f,it,ps=r
            v=s.axes(f,it,ps,('arg',1),kind,'BBox::grow')
            if v:
                P=('load',('idx',('arg',1),v,4))
                st={};forms=[]
                for p in ps:
                    for e in p.ev:
                        if e[0]!='loop': continue
                        for cc,b in e[2]:
                            forms.append((cc,b))
                            for x in b:
                                if x[0]=='store' and strip(x[2])==P: st[x[1]]=1
                # which member is the lower bound: the one replaced by a smaller value
                if len(st)==2:
                    for role in itertools.permutations(st):
                        l,h=role;okk=True
                        for a,x,y in itertools.product(range(4),range(4),range(4)):
                            if x>y: continue
                            A=bundle({P:a,('load',l):x,('load',h):y,v:0})
                            for cc,b in forms:
                                q=[V(strip(t),A) for t,_ in cc]
                                if None in q: okk=None;break
                                if 0 in q: continue
                                w={l:x,h:y}
                                for e in b:
                                    if e[0]=='store' and e[1] in w: w[e[1]]=V(strip(e[2]),A)
                                if w!={l:min(a,x),h:max(a,y)}: okk=False
                            if okk is not True: break
                        if okk: s.lo,s.hi=l,h;break
                    if s.lo is None:
                        if okk is None: c.und(kind,'BBox::grow condition form')
                        else: c.bad('BBox::grow','growing a box by a point does not leave the smaller minimum and the larger maximum',L(f),kind)
                    else: c.ok(kind,'grow takes the minimum and maximum of every axis')
                elif len(st)<2 and all(all(x[0]=='store' for x in b) for cc,b in forms): c.bad('BBox::grow','growing a box by a point changes %d of its two corners'%len(st),L(f),kind)
                else: c.und(kind,'BBox::grow form')
        if s.lo is None: return
        def member(t):
            """('lo'|'hi', object, axis) of a bound's address"""
            if t[0]!='idx': 
                b,x=t,ZERO
            else: b,x=t[1],t[2]
            lb=s.lo[1] if s.lo[0]=='idx' else s.lo;hb=s.hi[1] if s.hi[0]=='idx' else s.hi
            for n,m in sorted((('lo',lb),('hi',hb)),key=lambda x:-len(repr(x[1]))):
                o=s.unify(m,b)
                if o is not None: return n,o,x
            return None
        s.member=member
        r=s.get(B+r'set\(float const\*\)',kind,'BBox::set')
        if r:
            f,it,ps=r;v=s.axes(f,it,ps,('arg',1),kind,'BBox::set')
            if v:
                P=('load',('idx',('arg',1),v,4))
                for p in ps:
                    for e in p.ev:
                        if e[0]!='loop': continue
                        for cc,b in e[2]:
                            got={}
                            for x in b:
                                if x[0]=='store':
                                    m=member(x[1])
                                    if m and m[2]==v: got[m[0]]=strip(x[2])
                            c.decide(got=={'lo':P,'hi':P},kind,'BBox::set','setting a box to a point gives it %s'%', '.join('%s %s'%(k,fmt(x)) for k,x in sorted(got.items())) if got else 'setting a box to a point leaves it',L(f))
        for nm,obj in((r'inside\(float const\*\)',('arg',1)),(r'intersects\(Partio::BBox<3> const&\)',None)):
            r=s.get(B+nm,kind,'BBox::'+nm.split('\\')[0])
            if not r: continue
            f,it,ps=r;what='BBox::'+nm.split('\\')[0]
            v=s.axes(f,it,ps,obj,kind,what)
            if not v: continue
            good=True
            for a,b,x,y in itertools.product(range(4),repeat=4):
                if a>b or x>y or (obj is not None and x!=y): continue
                # own box [a,b]; the other is the point x or the box [x,y]
                def A(t):
                    if t==v: return 0
                    if t[0]=='load':
                        if obj is not None and t[1]==('idx',obj,v,4): return x
                        m=member(t[1])
                        if m and m[2]==v:
                            if m[1]==('arg',0): return a if m[0]=='lo' else b
                            if m[1]==('arg',1): return x if m[0]=='lo' else y
                    return None
                want=int(x<=b and y>=a)
                for p in ps:
                    lp=[e for e in p.ev if e[0]=='loop']
                    rv=V(strip(p.ret),A)
                    inl=[strip(t) for t,_ in p.cond if v in subterms(t)]
                    if rv is None: good=None;break
                    # leaving the loop early with an answer: its last iteration must justify it
                    q=[V(t,A) for t in inl if not (t[0]=='cmp' and t[1] in('sle','slt','ule','ult','eq','ne') and ('const',3) in t[2:])]
                    if None in q: good=None;break
                    if rv==0 and 0 not in q and want: good=False
                    if rv!=0:
                        for e in lp:
                            for cc,bb in e[2]:
                                q=[V(strip(t),A) for t,_ in cc]
                                if None in q: good=None;break
                                if 0 not in q and not want: good=False
                            if good is None: break
                if good is not True: break
            if good is None: c.und(kind,what+' form')
            else: c.decide(good,kind,what,'%s is wrong for an axis where the box spans [%d,%d] and the other is [%d,%d] (bounds belong to the box)'%(what,a,b,x,y),L(f))
    def unify(s,m,b):
        """the object o such that member pattern m (over arg 0) applied to o is b"""
        if m==('arg',0): return b
        if m[0]==b[0] and m[0] in('fld','idx','off') and m[2:]==b[2:]: return s.unify(m[1],b[1])
        return None

    # ---- the split
    def split(s):
        """(left, right) of a subtree of `size` nodes from the summary of the split function, by out-parameter"""
        c=s.c;s.splitname=None
        f=s.fn(r'KdTree<3>::ComputeSubtreeSizes')
        if f is None: c.und('split','split function not found');return
        it,ps=s.paths(f)
        if ps is None: c.und('split','too many paths');return
        s.splitname=f.short;s.splitfn=f
        outs=[k for k,a in enumerate(f.args) if a[0]=='ptr' and a[1]!='this']
        ins=[k for k,a in enumerate(f.args) if a[0]!='ptr']
        if len(outs)!=2 or len(ins)!=1: c.und('split','parameters');return
        tab={}
        for n in list(range(0,1100))+[2**k+d for k in range(11,20) for d in(-2,-1,0,1,2)]+[3*2**k+d for k in range(9,18) for d in(-2,-1,0,1,2)]:
            r=s.splitat(ps,outs,ins[0],n)
            if r is None: c.und('split','size %d is not decided'%n);return
            tab[n]=r
        s.tab=tab;s.outs=outs
        # which result is the left one: the only child of a two-node tree
        l,r=(0,1) if tab[2][0]>=tab[2][1] else (1,0)
        s.left,s.right=outs[l],outs[r]
        badn=[]
        for n in sorted(tab):
            if n<2: continue
            a,b=tab[n][l],tab[n][r]
            if a+b+1!=n: badn.append((n,'the subtrees of %d nodes have %d and %d'%(n,a,b)))
            elif a<1 or b<0: badn.append((n,'the subtrees of %d nodes have %d and %d'%(n,a,b)))
            elif a==1 and b>1: badn.append((n,'the right subtree of %d nodes has %d although the left has 1'%(n,b)))
        c.decide(not badn,'split','subtree sizes',badn[0][1] if badn else '',L(f))
        if not badn: c.ok('split','%d sizes up to %d'%(len(tab),max(tab)))
        s.lr={n:(tab[n][l],tab[n][r]) for n in tab}
    def splitat(s,ps,outs,sz,n):
        res=[]
        for p in ps:
            env={('arg',sz):n}
            out={}
            A=lambda t: env.get(t)
            if any(V(strip(t),A)==0 for t,_ in p.cond): continue
            # loops count one variable up while another shrinks: run the recurrence
            for e in p.ev:
                if e[0]=='loop':
                    ivs=e[1]
                    if any(x[1] is None for x in ivs): return None
                    st={}
                    for iv,e0,step in ivs:
                        v=V(strip(e0),A)
                        if v is None: return None
                        st[iv]=v
                    nx=s.paths(s.splitfn)[0].lnext.get(id(e[2]))
                    if nx is None: return None
                    for _ in range(64):
                        env.update(st);go=None
                        for (cc,b),nv in zip(e[2],nx[1]):
                            if b: return None
                            q=[V(strip(t),A) for t,_ in cc]
                            if None in q: return None
                            if 0 not in q: go=nv
                        if go is None: break
                        st2={}
                        for iv in st:
                            st2[iv]=V(strip(go[iv]),A)
                            if st2[iv] is None: return None
                        st=st2
                    else: return None
                    env.update(st)
            q=[V(strip(t),A) for t,_ in p.cond]
            if 0 in q: continue
            if None in q: return None
            for e in p.ev:
                if e[0]=='store' and e[1][0]=='arg': out[e[1][1]]=V(strip(e[2]),A)
            if set(out)!=set(outs) or None in out.values(): return None
            res.append(tuple(out[k] for k in outs))
        return res[0] if len(set(res))==1 else None
    def splitval(s,t,size,A):
        """value of a result of the split function"""
        if t[0]=='resv' and t[1]=='' and t[3]==s.splitname:
            n=V(t[4][0],A) if t[4] else None
            for x in t[4]:
                if x[0]!='alloca': n=V(x,A)
            if n not in s.lr: return None
            k=t[5] if len(t)==6 else t[-1]
            return s.lr[n][0] if k==s.left else s.lr[n][1] if k==s.right else None
        return None

def run(c):
    c.rule('effect summaries of every member of KdTree, of BBox, of the heap functions and of the particle set calls on top of them; each generic step (one tree node, one heap level, one axis) is decided by its decision table over small orders of the values it compares: subtrees partition the range, a subtree is skipped only if no point of it can match, a point is reported exactly when it matches, the heap keeps identifiers with their distances')
    c.assume.append('std::nth_element partitions the identifiers by the comparator and permutes them; coordinates are not NaN; rounding in the squared distances is not considered')
    S=Sp(c)
    S.box();S.split()
    S2=Tree(S)
    S2.setpoints();S2.sort()
    if hasattr(S,'lr') and hasattr(S2,'pts'):
        S2.subtree();S2.inbox();S2.nearest()
    S2.queries();S2.heaps();S2.sets()
    c.need('box',2);c.need('set',2)

class Tree(object):
    def __init__(s,S): s.S=S;s.c=S.c;s.next={}
    def setpoints(s):
        c=s.c;kind='points'
        r=s.S.get(r'KdTree<3>::setPoints\(',kind,'KdTree::setPoints')
        if not r: return
        f,it,ps=r;me=('arg',0);N=('arg',2)
        vecs={}
        for p in ps:
            ev=p.ev
            rs={e[1]:e[2] for e in ev if e[0]=='resize'}
            cp=[e for e in ev if e[0]=='memcpy' and strip(e[2])==('arg',1)]
            pts=cp[0][1][1] if len(cp)==1 and cp[0][1][0]=='elem' else None
            if pts is None:
                cps=[(x,l) for l in ev if l[0]=='loop' for cc,b in l[2] for x in b if x[0]=='memcpy']
                if cps or cp: c.und(kind,'copy of the points has another form')
                elif not any(e[0] in('loop','call') and e[0]!='call' for e in ev): c.bad('setPoints copy','setPoints does not copy the points',L(f),kind)
                else: c.und(kind,'copy of the points not found')
                return
            s.pts=pts
            c.decide(cp[0][3]==scale(N,12),kind,'setPoints copies every point','setPoints copies %s bytes, not 12 for each of its points'%fmt(cp[0][3]),cp[0][4])
            c.decide(rs.get(pts)==N,kind,'setPoints room','setPoints makes room for %s points'%fmt(rs.get(pts,ZERO)),L(f))
            io=[e for e in ev if e[0]=='call' and short(e[1])=='iota']
            if len(io)==1:
                a=io[0][2];ids=a[0][1] if a[0][0]=='elem' else None
                if ids is not None:
                    s.ids=ids
                    c.decide(a[0]==('elem',ids,ZERO) and a[1]==('elem',ids,N) or a[1]==('elem',ids,('size',ids)),kind,'identifiers of all points','only some of the points get an identifier',io[0][3])
                    sn=io[0][6] if len(io[0])>6 else ()
                    v=a[2] if len(a)>2 else None
                    if v is not None and v[0]=='alloca':
                        d=dict(sn[2]) if len(sn)>2 and sn[2] else {};v=d.get('*',v)
                    if v is not None and v[0]=='const': c.decide(v==ZERO,kind,'identifiers start at 0','the identifiers of the points start at %s'%fmt(v),io[0][3])
                    c.decide(rs.get(ids)==N,kind,'setPoints identifiers','setPoints makes room for %s identifiers'%fmt(rs.get(ids,ZERO)),L(f))
                else: c.und(kind,'identifier fill form')
            else: c.und(kind,'identifier fill not found')
            st=[e for e in ev if e[0]=='store' and e[1][0]=='fld' and e[1][1]==me]
            fl=[e for e in st if e[2] in(ZERO,('const',0))]
            s.flagset=[e[1] for e in fl]
            # bounding box over all points
            if p.has(cmpc('ne',N,ZERO))>0 or p.has(cmpc('slt',ZERO,N))>0:
                se=[e for e in ev if e[0]=='call' and short(e[1])=='set']
                gl=[(l,e) for l in ev if l[0]=='loop' for cc,b in l[2] for e in b if e[0]=='call' and short(e[1])=='grow']
                if len(se)==1 and len(gl)==1:
                    c.decide(se[0][2][1] in(('arg',1),('elem',pts,ZERO)),kind,'box starts at the first point','the bounding box starts at %s'%fmt(se[0][2][1]),se[0][3])
                    l,e=gl[0]
                    from c14 import counted
                    k=counted(l)
                    if k and e[2][1][0] in('elem',):
                        iv,b,e0=k;ok_=e[2][1]==('elem',pts,iv) and b==N and e0 in(ONE,ZERO) and e[2][0]==se[0][2][0]
                        if e0[0]=='const' and b[0] in('arg','lin','size') : c.decide(ok_,kind,'box covers every point','the bounding box covers the points %s to %s only'%(fmt(e0),fmt(b)),e[3])
                        else: c.und(kind,'box loop form')
                    else: c.und(kind,'box loop form')
                    s.bbox=se[0][2][0]
                else: c.und(kind,'bounding box form')
    def sort(s):
        c=s.c;kind='order'
        r=s.S.get(r'KdTree<3>::sort\(\)',kind,'KdTree::sort')
        if not r or not hasattr(s,'pts'): return
        f,it,ps=r;pts=s.pts;me=('arg',0)
        n=('size',pts)
        flags=[e[1] for p in ps for e in p.ev if e[0]=='store' and e[1][0]=='fld' and e[1][1]==me and e[2]==ONE]
        s.flag=flags[0] if flags else None
        if hasattr(s,'flagset') and s.flag is not None:
            c.decide(s.flag in s.flagset,kind,'new points are unsorted','setPoints leaves the tree marked as sorted',L(f))
        for p in ps:
            done=s.flag is not None and p.has(('load',s.flag))>0
            sub_=[e for e in p.ev if e[0]=='call' and re.search(r'KdTree::',e[1])]
            if done:
                continue
            ls=[l for l in p.ev if l[0]=='loop']
            cp=[(l,e) for l in ls for cc,b in l[2] for e in b if e[0]=='memcpy']
            for N in range(0,5):
                A=lambda t: N if t==n else (0 if s.flag is not None and t==('load',s.flag) else None)
                q=[V(strip(x),A) for x,_ in p.cond if not any(y[0]=='iv' for y in subterms(x))]
                if None in q: c.und(kind,'sort decides on '+fmt([x for x,_ in p.cond][q.index(None)] if len(q)==len(p.cond) else ZERO));return
                if 0 in q: continue
                if N>1:
                    got=[tuple(V(strip(x),A) for x in e[2][1:]) for e in sub_]
                    if len(sub_)!=1 or None in got[0]: 
                        if not sub_: c.bad('sort order','sort of %d points does not order them'%N,L(f),kind);return
                        c.und(kind,'sort call form');return
                    s.subname=sub_[0][1];s.top=got[0]
                    c.decide(got[0][:2]==(0,N),kind,'sort starts at the whole set','sort orders [%d, %d) of %d points'%(got[0][0],got[0][0]+got[0][1],N),sub_[0][3])
                if N>=2:
                    if len(cp)!=1:
                        if not cp and not any(l[2] for l in ls): c.bad('sort moves points','sort does not put the points into the order of their identifiers',L(f),kind)
                        else: c.und(kind,'sort copy form')
                        return
                    from c14 import counted
                    l,e=cp[0];k=counted(l)
                    if not k: c.und(kind,'sort copy loop');return
                    iv,b,e0=k
                    # variables that count the same way are one variable
                    same={x[0] for x in l[1] if x[2]==ONE and x[1]==e0}
                    def one(y):
                        if y in same: return iv
                        return tuple(one(z) if isinstance(z,tuple) else z for z in y)
                    d,sr=one(strip(e[1])),one(strip(e[2]))
                    if hasattr(s,'ids') and b==('size',s.ids): b=n
                    if hasattr(s,'ids'): src=('elem',pts,('load',('elem',s.ids,iv)))
                    else: src=None
                    c.decide(e0==ZERO and b==n,kind,'sort moves every point','sort moves the points %s to %s only'%(fmt(e0),fmt(b)),e[4])
                    if src is not None:
                        form=d[0]=='elem' and d[2]==iv or d[0]=='idx' and d[2]==iv
                        if d[0] in('elem','idx') and sr[0]=='elem': c.decide(form and sr==src,kind,'points follow their identifiers','sort puts %s at %s'%(fmt(sr),fmt(d)),e[4])
                        else: c.und(kind,'sort copy operands')
                    sw=[x for x in p.ev if x[0]=='call' and short(x[1]) in('swap','operator=') and pts in x[2]]
                    if not sw: c.und(kind,'sort result is not swapped in')
                    else: c.ok(kind,'sorted points replace the others')
    def subtree(s):
        c=s.c;kind='order'
        if not hasattr(s,'subname') or not hasattr(s,'ids'): c.und(kind,'subtree sort not found');return
        r=s.S.get(r'^[^(]*'+re.escape(short(s.subname))+r'\(int, int, int\)',kind,'subtree sort')
        if not r: return
        f,it,ps=r;ids=s.ids;pts=s.pts;S=s.S
        n0=100
        for size in list(range(2,18))+[30,31,32,33]:
            Lf,Rt=S.lr[size]
            for j in range(3):
                def A(t):
                    if t==('arg',1): return n0
                    if t==('arg',2): return size
                    if t==('arg',3): return j
                    if t[0]=='resv': return S.splitval(t,size,A)
                    return None
                hit=[]
                for p in ps:
                    q=[V(strip(x),A) for x,_ in p.cond]
                    if 0 in q: continue
                    if None in q: c.und(kind,'subtree sort decides on '+fmt(p.cond[q.index(None)][0]));return
                    hit.append(p)
                if len(hit)!=1: c.und(kind,'subtree sort paths for size %d'%size);return
                p=hit[0]
                nth=[e for e in p.ev if e[0]=='call' and short(e[1])=='nth_element']
                if len(nth)!=1:
                    if not nth and not any(e[0]=='call' and e[1].startswith('std::') for e in p.ev): c.bad('partition','a subtree of %d nodes is not partitioned'%size,L(f),kind)
                    else: c.und(kind,'partition form')
                    return
                a=[strip(x) for x in nth[0][2]]
                pos=[V(x[2],A) if x[0]=='elem' and x[1]==ids else None for x in a[:3]]
                if None in pos: c.und(kind,'partition operands');return
                if pos!=[n0,n0+Lf,n0+size]:
                    c.bad('partition range','the partition of a subtree of %d nodes at n orders [n+%d, n+%d) around n+%d, not [n, n+%d) around n+%d'%(size,pos[0]-n0,pos[2]-n0,pos[1]-n0,size,Lf),nth[0][3],kind);return
                if len(a)>3:
                    y=a[3];ax=None
                    if y[0]=='elem' and y[1]==pts: ax=V(y[2],A)
                    elif y[0]=='idx' and y[1]==('elem',pts,ZERO): ax=V(y[2],A)
                    if ax is None: c.und(kind,'partition comparator')
                    else: c.decide(ax==j,kind,'partition axis','a subtree of axis %d is ordered along axis %d'%(j,ax),nth[0][3])
                # root to the front
                w={};pre={}
                for e in p.ev:
                    if e[0]=='store' and e[1][0]=='elem' and e[1][1]==ids:
                        k=V(strip(e[1][2]),A);x=strip(e[2])
                        w[k]=V(x[1][2],A) if x[0]=='load' and x[1][0]=='elem' and x[1][1]==ids else None
                if any(v is None for v in w.values()) or None in w: c.und(kind,'root form');return
                at=p.ev.index(nth[0])
                if any(e[0]=='store' and e[1][0]=='elem' for e in p.ev[:at]): c.bad('root before partition','the root of a subtree is chosen before its nodes are partitioned',L(f),kind);return
                want={n0:n0+Lf,n0+Lf:n0} if Lf else {}
                w={k:v for k,v in w.items() if k!=v}
                if w!=want:
                    c.bad('root','after the partition of %d nodes, %s instead of exchanging n and n+%d'%(size,'position n+%d gets the node at n+%d'%[(k-n0,v-n0) for k,v in sorted(w.items())][0] if w else 'no root is moved to the front',Lf),L(f),kind);return
                rec=[e for e in p.ev if e[0]=='call' and e[1]==s.subname]
                if any(p.ev.index(e)<at for e in rec): c.bad('recursion','a subtree is ordered before its parent',rec[0][3],kind);return
                blocks={}
                for e in rec:
                    v=[V(strip(x),A) for x in e[2][1:]]
                    if None in v: c.und(kind,'recursion operands');return
                    blocks[(v[0],v[1])]=v[2]
                want={}
                if Lf>1: want[(n0+1,Lf)]=1
                if Rt>1: want[(n0+1+Lf,Rt)]=1
                miss=[b for b in want if b not in blocks]
                extra=[b for b in blocks if b not in want and b[1]>1]
                if miss or extra:
                    c.bad('recursion','a subtree of %d nodes at n orders %s, its subtrees are %s'%(size,', '.join('[n+%d, n+%d)'%(b[0]-n0,b[0]-n0+b[1]) for b in sorted(blocks)) or 'nothing',', '.join('[n+%d, n+%d)'%(b[0]-n0,b[0]-n0+b[1]) for b in sorted(want))),L(f),kind);return
                for b,k in blocks.items():
                    if not 0<=k<=2: c.bad('axis','axis %d follows axis %d'%(k,j),L(f),kind);return
                    s.next.setdefault(j,set()).add(k)
        c.ok(kind,'every subtree is partitioned around its root')
        for j in s.next:
            if len(s.next[j])!=1: c.bad('axis','the subtrees below axis %d use different axes'%j,L(f),kind);return
        if len(s.next)==3 and len(set(min(x) for x in s.next.values()))==3: c.ok(kind,'all three axes alternate')
        # comparator
        r=s.S.fn(r'KdTree<3>::ComparePointsById::operator\(\)')
        if r is None: c.und(kind,'comparator not found');return
        it,ps=s.S.paths(r)
        for p in ps or ():
            good=None
            for x,y in itertools.product(range(3),repeat=2):
                def A(t):
                    if t[0]=='load' and t[1][0]=='idx' and t[1][1][0]=='load':
                        if t[1][3]*1==4 and t[1][2]==scale(('arg',1),3): return x
                        if t[1][3]==4 and t[1][2]==scale(('arg',2),3): return y
                        for k,v in((1,x),(2,y)):
                            if t[1][2]==scale(('arg',k),12//t[1][3]) : return v
                    return None
                v=V(strip(p.ret),A)
                if v is None: good=None;break
                good=(good is not False) and v==int(x<y)
            if good is None: c.und(kind,'comparator form '+fmt(p.ret))
            else: c.decide(good,kind,'comparator','the comparator of the partition is not "coordinate of a < coordinate of b": '+fmt(p.ret),L(r))
    # ---- searches
    def coord(s,t,A,n0):
        """axis of a loaded coordinate of node n0"""
        if t[0]!='load': return None
        a=t[1]
        if a[0]=='elem' and a[1]==s.pts:
            v=V(a[2],A)
            return None if v is None or not 0<=v-n0<3 else v-n0
        if a[0]=='idx' and a[1][0]=='elem' and a[1][1]==s.pts and a[3]==4:
            v,w=V(a[2],A),V(a[1][2],A)
            return v if w==n0 and v is not None and 0<=v<3 else None
        return None
    def nextok(s,j,k):
        return s.next.get(j)=={k} if s.next.get(j) else None
    def recursion(s,f,p,A,size,j,n0,args,need,kind,what,env):
        """the recursive calls of a path against the subtrees that are needed"""
        c=s.c;Lf,Rt=s.S.lr.get(size,(0,0)) if size>1 else (0,0)
        blocks={'left':(n0+1,Lf),'right':(n0+1+Lf,Rt)}
        got={}
        for e in p.ev:
            if e[0]!='call' or e[1]!=f.short: continue
            a=[strip(x) for x in e[2]]
            v=[V(a[k],A) for k in args]
            if None in v: return 'und',what+' recursion operands '+fmt(a[args[v.index(None)]])
            nm=[k for k,b in blocks.items() if b==(v[0],v[1]) and b[1]>0]
            if not nm: return 'bad','%s of a node at n with %d nodes below and at it visits [n+%d, n+%d), its subtrees are [n+1, n+%d) and [n+%d, n+%d)'%(what,size,v[0]-n0,v[0]-n0+v[1],1+Lf,1+Lf,size)
            if nm[0] in got: return 'bad','%s visits a subtree twice'%what
            o=s.nextok(j,v[2])
            if o is False: return 'bad','%s continues below axis %d on axis %d, the tree is ordered on axis %d there'%(what,j,v[2],min(s.next[j]))
            got[nm[0]]=e
        for k in('left','right'):
            if need[k] and blocks[k][1]>0 and k not in got: return 'bad','%s skips the %s subtree of %d nodes although it can match: %s'%(what,k,blocks[k][1],env)
        return 'ok',got
    def inbox(s):
        c=s.c;kind='search';what='findPoints'
        r=s.S.get(r'KdTree<3>::findPoints\(std::vector.*, int, int, int\)',kind,'KdTree::findPoints on a subtree')
        if not r or s.S.lo is None: return
        f,it,ps=r;n0=100
        names=[a[1] for a in f.args]
        vecs=set(e[1] for p in ps for e in p.ev if e[0]=='push')
        if len(vecs)!=1:
            c.bad('findPoints result','findPoints does not append to its result',L(f),kind) if not vecs else c.und(kind,'findPoints result')
            return
        res=vecs.pop()
        box=('arg',2)
        for size,j in itertools.product(range(1,13),range(3)):
            for x,lo,hi,ins in itertools.product(range(4),range(4),range(4),(0,1)):
                if lo>hi or (ins and not lo<=x<=hi): continue
                def A(t):
                    if t==('arg',3): return n0
                    if t==('arg',4): return size
                    if t==('arg',5): return j
                    if t[0]=='resv': return s.S.splitval(t,size,A)
                    if t[0]=='call' and short(t[1])=='inside':
                        return ins if strip(t[2])==(box,('elem',s.pts,('arg',3))) else None
                    if t[0]=='load':
                        k=s.coord(t,A,n0)
                        if k is not None: return x if k==j else None
                        m=s.S.member(t[1])
                        if m and m[1]==box and V(m[2],A)==j: return lo if m[0]=='lo' else hi
                    return None
                hit=[]
                for p in ps:
                    q=[V(strip(y),A) for y,_ in p.cond]
                    if 0 in q: continue
                    if None in q: c.und(kind,'findPoints decides on '+fmt(p.cond[q.index(None)][0]));return
                    hit.append(p)
                if len(hit)!=1: c.und(kind,'findPoints paths');return
                p=hit[0]
                env='the split is %d, the box spans [%d,%d] on this axis'%(x,lo,hi)
                pu=[e for e in p.ev if e[0]=='push']
                if len(pu)!=ins: c.bad('findPoints report','findPoints reports a point %s the box %d times'%('inside' if ins else 'outside',len(pu)),L(f),kind,[fmt(y) for y,_ in p.cond]);return
                if pu and V(strip(pu[0][2]),A)!=n0:
                    v=V(strip(pu[0][2]),A)
                    if v is None: c.und(kind,'findPoints reports '+fmt(pu[0][2]))
                    else: c.bad('findPoints report','findPoints reports n+%d for the point at n'%(v-n0),pu[0][4],kind)
                    return
                st,m=s.recursion(f,p,A,size,j,n0,(3,4,5),{'left':x>=lo,'right':x<=hi},kind,what,env)
                if st=='und': c.und(kind,m);return
                if st=='bad': c.bad('findPoints descent',m,L(f),kind,[fmt(y) for y,_ in p.cond]);return
        c.ok(kind,'findPoints reports every node inside the box once');c.ok(kind,'findPoints skips a subtree only outside the box')
    def nearest(s):
        c=s.c;kind='search';what='findNPoints'
        r=s.S.get(r'KdTree<3>::findNPoints\(.*, int, int, int\)',kind,'KdTree::findNPoints on a subtree')
        t=s.S.get(r'KdTree<3>::findNPoints\(unsigned long\*',kind,'KdTree::findNPoints')
        if not r or not t: return
        f,it,ps=r;Q=('arg',1);n0=100
        # roles of the query members, from what the caller puts there
        tf,tit,tps=t
        inn=[(p,e) for p in tps for e in p.ev if e[0]=='call' and e[1]==f.short and len(e[2])==5]
        if not inn: c.und(kind,'findNPoints does not start a search');return
        role={}
        top=None
        for p,e in inn:
            sn=dict(e[6][1]) if len(e)>6 else {}
            for k,v in sn.items():
                v=strip(v)
                nm={('arg',1):'res',('arg',2):'dist',('arg',5):'max',ZERO:'found',('const',0):'found'}.get(v)
                if nm is None and v in(('fmul',('arg',6),('arg',6)),('mul',(('arg',6),('arg',6)))): nm='rad'
                if nm: role[nm]=k
            for k in role.values(): pass
            A0=lambda t: 7 if t[0]=='size' and t[1]==s.pts else None
            v=tuple(V(strip(x),A0) for x in e[2][2:])
            if None in v: c.und(kind,'findNPoints start '+fmt(e[4]))
            else: c.decide(v[:2]==(0,7) and (not hasattr(s,'top') or v[2]==s.top[2]),kind,'findNPoints starts at the root','findNPoints starts at node %d with %d of 7 nodes, axis %d'%v,e[3])
        miss=[x for x in('res','dist','found','max','rad') if x not in role]
        if miss:
            sn=dict(inn[0][1][6][1])
            known=all(v[0] in('arg','const','fmul','mul','fconst','load') for v in sn.values())
            if known and len(sn)>=5: c.bad('query '+miss[0],'a search is started without %s: %s'%({'res':'the result array','dist':'the distance array','found':'zero points found','max':'the number of points asked for','rad':'the square of the radius'}[miss[0]],', '.join('%s=%s'%(k,fmt(v)) for k,v in sorted(sn.items()))),inn[0][1][3],kind)
            else: c.und(kind,'query members '+', '.join(miss))
            return
        c.ok(kind,'query starts with its radius squared, its arrays and no points')
        def fld(k): return Q if k=='*' else None
        def isrole(t,nm):
            """is t the load of the query member nm"""
            if t[0]!='load': return False
            return s.rel(t[1],Q)==role[nm]
        def qcoord(t,A):
            if t[0]!='load' : return None
            a=t[1]
            if a[0]=='idx' and a[3]==4: b,x=a[1],V(a[2],A)
            else: b,x=a,0
            if b[0]=='fld' and b[1]==Q and s.rel(b,Q) not in role.values(): return x
            return None
        s.distance(f,it,ps,qcoord,n0,kind)
        lastrec={}
        for p in ps:
            nums=[e[4][3] for e in p.ev if e[0]=='call' and e[1]==f.short and e[4][0]=='call' and len(e[4])>3]
            lastrec[id(p)]=max(nums) if nums else 0
        # descent
        for size,j in itertools.product(range(1,11),range(3)):
            for x,q_,R in itertools.product((0,0.5,1,3),(0,0.5,1,3),(0,0.3,1,2,4,5,9,10)):
                def A(t):
                    if t==('arg',2): return n0
                    if t==('arg',3): return size
                    if t==('arg',4): return j
                    if t[0]=='resv': return s.S.splitval(t,size,A)
                    if t[0]=='load':
                        k=s.coord(t,A,n0)
                        if k is not None: return x if k==j else None
                        if isrole(t,'rad'): return R
                        k=qcoord(t,A)
                        if k is not None: return q_ if k==j else None
                    return None
                any_=False
                for p in ps:
                    conds=[strip(y) for y,_ in p.cond]
                    q=[V(y,A) for y in conds]
                    if 0 in q: continue
                    any_=True
                    # conditions about the point itself do not matter here
                    bad=[y for y,v in zip(conds,q) if v is None and not any(z[0]=='iv' or z[0]=='load' and(isrole(z,'found') or isrole(z,'max')) or z[0]=='call' for z in subterms(y))]
                    if bad: c.und(kind,'findNPoints decides on '+fmt(bad[0]));return
                    d=(q_-x)**2
                    need={'left':(d if q_>x else 0)<R,'right':(d if q_<x else 0)<R}
                    st,m=s.recursion(f,p,A,size,j,n0,(2,3,4),need,kind,what,'the split is %d, the query is at %d, the squared radius is %d'%(x,q_,R))
                    if st=='und': c.und(kind,m);return
                    if st=='bad': c.bad('findNPoints descent',m,L(f),kind,[fmt(y) for y,_ in p.cond]);return
                if not any_: c.und(kind,'findNPoints paths');return
        c.ok(kind,'findNPoints skips a subtree only beyond the radius')
        # insertion
        D=getattr(s,'D',None)
        if not D: return
        bh='buildHeap';ih='insertToHeap'
        resv=[]
        for R,dd,found,mx in itertools.product((3,),(2,4),range(0,4),range(1,4)):
            if found>mx: continue
            def A(t):
                if t==('arg',2): return n0
                if t==('arg',3): return 1
                if t in D: return dd
                if t[0]=='load':
                    for nm,v in(('rad',R),('found',found),('max',mx)):
                        if isrole(t,nm): return v
                return None
            for p in ps:
                conds=[strip(y) for y,_ in p.cond]
                if any(V(y,A)==0 for y in conds): continue
                rel=[(y0,y) for (y0,_),y in zip(p.cond,conds) if any(z in D for z in subterms(y)) or any(z[0]=='load' and(isrole(z,'found')or isrole(z,'max')) for z in subterms(y))]
                if any(V(y,A) is None for _,y in rel): c.und(kind,'findNPoints insertion decides on '+fmt([y for _,y in rel if V(y,A) is None][0]));return
                for y0,y in rel:
                    for z in subterms(y0):
                        if z[0]=='load' and len(z)<=3 and any(isrole(strip(z),r_) for r_ in('rad','found')):
                            if (z[2] if len(z)>2 else 0)<lastrec[id(p)]:
                                c.bad('findNPoints stale','findNPoints compares with the radius or the number of points from before it searched the subtrees',L(f),kind,[fmt(y0)]);return
                w={}
                heap=None
                for e in p.ev:
                    if e[0]=='store':
                        a=strip(e[1])
                        if a[0]=='idx' and a[1][0]=='load' and s.rel(a[1][1],Q) in(role['res'],role['dist']):
                            nm='res' if s.rel(a[1][1],Q)==role['res'] else 'dist'
                            w[(nm,V(a[2],A))]=V(strip(e[2]),A)
                        elif a[0]=='load' and s.rel(a[1],Q) in(role['res'],role['dist']):
                            w[('res' if s.rel(a[1],Q)==role['res'] else 'dist',0)]=V(strip(e[2]),A)
                        else:
                            r_=s.rel(a,Q)
                            nm=[k for k,v in role.items() if v==r_]
                            if nm: w[nm[0]]=V(strip(e[2]),A);src=strip(e[2])
                            if nm and nm[0]=='rad': w['rad']=('call',short(src[1])) if src[0]=='call' else w['rad']
                    if e[0]=='call' and short(e[1]) in(bh,ih):
                        a=[strip(z) for z in e[2]]
                        okk=a[0][0]=='load' and s.rel(a[0][1],Q)==role['res'] and a[1][0]=='load' and s.rel(a[1][1],Q)==role['dist']
                        heap=(short(e[1]),okk,tuple(V(z,A) for z in a[2:]))
                env='with %d of %d found, the point at squared distance %d and the squared radius %d'%(found,mx,dd,R)
                want={}
                wheap=None
                if dd<R:
                    if found<mx:
                        want={('res',found):n0,('dist',found):dd,'found':found+1}
                        if found+1==mx: want['rad']=('call',bh);wheap=(bh,True,(mx,))
                    else:
                        want={'rad':('call',ih)};wheap=(ih,True,(mx,n0,dd))
                if None in w.values() or any(isinstance(k,tuple) and k[1] is None for k in w): c.und(kind,'findNPoints insertion values');return
                if os.environ.get('DBG'): print(w,want,heap,wheap)
                if w!=want or heap!=wheap:
                    c.bad('findNPoints insertion','findNPoints %s: it %s'%(env,'changes '+', '.join(str(k[0])+'[%s]'%k[1] if isinstance(k,tuple) else k for k in sorted(w,key=str)) + (' and calls %s%s'%(heap[0],heap[2]) if heap else '') if w or heap else 'does nothing'),L(f),kind,[fmt(y) for y,_ in p.cond]);return
        c.ok(kind,'findNPoints keeps a nearer point and drops the farthest')
    def rel(s,a,base):
        """relative member path of an address, written as the snapshots do"""
        if a==base: return ''
        if a[0]=='fld':
            r=s.rel(a[1],base)
            if r is None: return None
            return a[2] if r=='' else r+'.'+a[2]
        if a[0]=='off':
            r=s.rel(a[1],base)
            return None if r is None else '%s+%d'%(r,a[2])
        return None
    def distance(s,f,it,ps,qcoord,n0,kind):
        """the loop that sums the squared differences over the axes"""
        c=s.c;s.D=set()
        seen=False
        P=[3,10,5];Qv=[1,4,11]
        for p in ps:
            for e in p.ev:
                if e[0]!='loop': continue
                idx=[x for x in e[1] if x[2]==ONE];acc=[x for x in e[1] if x[2]!=ONE]
                if len(idx)!=1 or len(acc)!=1: c.und(kind,'distance loop form');return
                iv,e0,_=idx[0];av,a0,_=acc[0]
                nx=it.lnext.get(id(e[2]))
                if nx is None or len(nx[1])!=1: c.und(kind,'distance loop paths');return
                bound=[x for x,_ in e[2][0][0] if iv in subterms(x)]
                for k in range(3):
                    def A(t):
                        if t==iv: return k
                        if t==av: return 1000
                        if t==('arg',2): return n0
                        if t[0]=='load':
                            y=s.coord(t,A,n0)
                            if y is not None: return P[y]
                            y=qcoord(t,A)
                            if y is not None and 0<=y<3: return Qv[y]
                        return None
                    v=V(strip(nx[1][0][av]),A)
                    if v is None: c.und(kind,'distance form');return
                    if v!=1000+(P[k]-Qv[k])**2:
                        c.bad('distance','axis %d adds %s to the squared distance, not (%d-%d) squared'%(k,v-1000,P[k],Qv[k]),e[3],kind);return
                rng=[k for k in range(-1,6) if all(V(x,lambda t: k if t==iv else None)==1 for x in bound)]
                if e0!=ZERO or not bound or not rng or rng[-1]!=2:
                    c.bad('distance axes','the squared distance covers the axes %s to %d'%(fmt(e0),rng[-1] if rng else -1),e[3],kind);return
                if V(strip(a0),lambda t:None)!=0: c.bad('distance start','the squared distance starts at %s'%fmt(a0),e[3],kind);return
                s.D.add(strip(av));seen=True
        if seen: c.ok(kind,'distance is the sum of the squares over three axes')
        else:
            # written out: the stored distance as a polynomial
            for p in ps:
                for e in p.ev:
                    if e[0]=='store' and e[1][0]=='idx' and e[1][1][0]=='load':
                        def A(t):
                            if t==('arg',2): return n0
                            if t[0]=='load':
                                y=s.coord(t,A,n0)
                                if y is not None: return P[y]
                                y=qcoord(t,A)
                                if y is not None and 0<=y<3: return Qv[y]
                            return None
                        v=V(strip(e[2]),A)
                        if v is None or v==n0: continue
                        if v!=sum((a-b)**2 for a,b in zip(P,Qv)): c.bad('distance','the squared distance of (3,10,5) and (1,4,11) comes out as %s'%v,e[3],kind);s.D=set();return
                        s.D.add(strip(e[2]));c.ok(kind,'distance is the sum of the squares over three axes')
            if not s.D: c.und(kind,'distance not found')
    # ---- entry points of the tree
    def queries(s):
        c=s.c;kind='query'
        r=s.S.get(r'KdTree<3>::findPoints\(std::vector<[^)]*, Partio::BBox<3> const&\)',kind,'KdTree::findPoints')
        if r and hasattr(s,'pts'):
            f,it,ps=r
            for p in ps:
                rec=[e for e in p.ev if e[0]=='call' and e[1]==f.short]
                for N,srt,hit in itertools.product((0,1,7),(0,1),(0,1)):
                    if N==0 and hit: continue
                    def A(t):
                        if t==('size',s.pts): return N
                        if getattr(s,'flag',None) is not None and t==('load',s.flag): return srt
                        if t[0]=='call' and short(t[1])=='intersects':
                            o=set(t[2])
                            return hit if ('arg',2) in o and len(o)==2 and (not hasattr(s,'bbox') or s.bbox in o) else None
                        return None
                    q=[V(strip(x),A) for x,_ in p.cond]
                    if 0 in q: continue
                    if None in q: c.und(kind,'findPoints decides on '+fmt(p.cond[q.index(None)][0]));break
                    if N and srt and hit:
                        if len(rec)!=1: c.bad('findPoints start','findPoints does not search a sorted tree of %d points its box meets'%N,L(f),kind,[fmt(x) for x,_ in p.cond]);continue
                        a=rec[0][2];v=tuple(V(strip(x),A) for x in a[3:])
                        if None in v: c.und(kind,'findPoints start');continue
                        c.decide(a[1]==('arg',1) and a[2]==('arg',2) and v[:2]==(0,N) and(not hasattr(s,'top') or v[2]==s.top[2]),kind,'findPoints searches the whole tree','findPoints searches %d nodes from node %d on axis %d of a tree of %d'%(v[1],v[0],v[2],N),rec[0][3])
                    elif rec and N==0: c.bad('findPoints empty','findPoints searches an empty tree',rec[0][3],kind)
                    elif rec and not srt: c.bad('findPoints unsorted','findPoints searches a tree that is not sorted',rec[0][3],kind)
        r=s.S.get(r'KdTree<3>::findNPoints\(unsigned long\*',kind,'KdTree::findNPoints')
        if r and hasattr(s,'pts'):
            f,it,ps=r
            for p in ps:
                rec=[e for e in p.ev if e[0]=='call' and e[1]==f.short and len(e[2])==5]
                for N,srt,want,rd in itertools.product((0,1,7),(0,1),(-1,0,1,4),(.5,3.)):
                    def A(t):
                        if t==('arg',6): return rd
                        if t==('size',s.pts): return N
                        if getattr(s,'flag',None) is not None and t==('load',s.flag): return srt
                        if t==('arg',5): return want
                        return None
                    q=[V(strip(x),A) for x,_ in p.cond if not any(y[0]=='iv' for y in subterms(x))]
                    if 0 in q: continue
                    if None in q: c.und(kind,'findNPoints decides on '+fmt(p.cond[0][0]));break
                    if N and srt and want>0:
                        if not rec: c.bad('findNPoints start','findNPoints does not search a sorted tree of %d points for %d'%(N,want),L(f),kind,[fmt(x) for x,_ in p.cond]);continue
                        n=strip(p.ret)
                        okr=n[0]=='resv' and f.short in n
                        st=[e for e in p.ev if e[0]=='store' and e[1]==('arg',3)]
                        v=strip(st[-1][2]) if st else None
                        sn=dict(rec[0][6][1])
                        rad=[k for k,x in sn.items() if strip(x) in(('fmul',('arg',6),('arg',6)),)]
                        if not rad:
                            other=[k for k,x in sn.items() if any(y==('arg',6) for y in subterms(x)) and V(strip(x),A) not in(None,rd*rd)]
                            if other: c.bad('findNPoints squared radius','findNPoints starts with the squared radius %s when the radius is %s'%(V(strip(sn[other[0]]),A),rd),L(f),kind,[fmt(x) for x,_ in p.cond]);continue
                        fnd=[k for k,x in sn.items() if strip(x)==ZERO]
                        if okr: c.decide(n[1] in fnd,kind,'findNPoints returns the number found','findNPoints returns the %s of the query'%n[1],L(f))
                        else: c.decide(False,kind,'findNPoints returns the number found','findNPoints returns %s'%fmt(p.ret),L(f)) if n[0]in('const','arg') else c.und(kind,'findNPoints returns '+fmt(p.ret))
                        if v is None: c.bad('findNPoints final radius','findNPoints leaves the final radius unset',L(f),kind)
                        elif v[0]=='resv' : c.decide(v[1] in rad,kind,'findNPoints final radius','findNPoints gives the %s of the query as the final squared radius'%v[1],L(f))
                        elif p.ev.index(st[-1])<p.ev.index(rec[0]) or v[0] in('fmul','arg','fconst','const'): c.bad('findNPoints final radius','findNPoints gives %s as the final squared radius whatever it found'%fmt(v),L(f),kind)
                        else: c.und(kind,'final radius '+fmt(v))
                    else:
                        if rec: 
                            if N==0 or not srt or want<1: c.bad('findNPoints %s'%('empty' if N==0 else 'unsorted' if not srt else 'none wanted'),'findNPoints searches %s'%('an empty tree' if N==0 else 'an unsorted tree' if not srt else 'for %d points'%want),rec[0][3],kind)
                            continue
                        v=V(strip(p.ret),A)
                        if v is None: c.und(kind,'findNPoints returns '+fmt(p.ret))
                        else: c.decide(v==0,kind,'findNPoints finds nothing','findNPoints returns %s without searching'%v,L(f))
                        st=[e for e in p.ev if e[0]=='store' and e[1]==('arg',3)]
                        if N==0 or want<1:
                            if not st: c.bad('findNPoints final radius','findNPoints leaves the final radius unset when the tree is empty or no points are wanted',L(f),kind,[fmt(x) for x,_ in p.cond])
                            else:
                                v=strip(st[-1][2])
                                c.decide(v==('fmul',('arg',6),('arg',6)),kind,'findNPoints final radius of nothing','findNPoints gives %s as the final squared radius'%fmt(v),L(f)) if v[0] in('fmul','arg','const','fconst') else c.und(kind,'final radius '+fmt(v))
            # the query object
            r=s.S.get(r'KdTree<3>::NearestQuery::NearestQuery\(',kind,'query constructor')
            if r:
                f,it,ps=r;v=s.S.axes(f,it,ps,None,kind,'query constructor')
                if v:
                    for p in ps:
                        for e in p.ev:
                            if e[0]!='loop': continue
                            for cc,b in e[2]:
                                st=[x for x in b if x[0]=='store']
                                okk=len(st)==1 and strip(st[0][2])==('load',('idx',('arg',3),v,4)) and st[0][1][0]=='idx' and st[0][1][2]==v and st[0][1][3]==4
                                if len(st)==1 and strip(st[0][2])[0]=='load': c.decide(okk,kind,'query centre','the query centre gets %s at %s'%(fmt(st[0][2]),fmt(st[0][1])),L(f))
                                else: c.und(kind,'query centre form')
        r=s.S.get(r'KdTree<3>::findNPoints\(std::vector.*float const\*, int, float\)',kind,'KdTree::findNPoints on vectors')
        if r:
            f,it,ps=r
            for p in ps:
                rs=[e for e in p.ev if e[0]=='resize'];cl=[e for e in p.ev if e[0]=='call' and short(e[1])=='findNPoints']
                if len(cl)!=1: c.und(kind,'findNPoints on vectors form');continue
                at=p.ev.index(cl[0]);a=cl[0][2]
                sz={};after={}
                for e in p.ev:
                    if e[0]=='resize': (sz if p.ev.index(e)<at else after)[e[1]]=strip(e[2])
                good=a[1]==('elem',('arg',1),ZERO) and a[2]==('elem',('arg',2),ZERO)
                c.decide(good and a[4:]==(('arg',3),('arg',4),('arg',5)),kind,'vector query arguments','findNPoints on vectors searches with %s'%', '.join(fmt(x) for x in a[1:]),cl[0][3])
                for v in(1,2):
                    c.decide(sz.get(('arg',v))==('arg',4),kind,'room for the result %d'%v,'findNPoints on vectors makes room for %s entries'%fmt(sz.get(('arg',v),ZERO)),cl[0][3])
                    got=after.get(('arg',v))
                    c.decide(got==strip(cl[0][4]),kind,'vector size %d'%v,'findNPoints on vectors leaves %s entries'%(fmt(got) if got else 'all'),cl[0][3])
        # identifiers
        f=s.S.fn(r'KdTree<3>::id\(int\)')
        if f is not None and hasattr(s,'ids'):
            it,ps=s.S.paths(f)
            for p in ps or (): c.decide(strip(p.ret)==('load',('elem',s.ids,('arg',1))),kind,'id of a node','id(i) gives %s'%fmt(p.ret),L(f)) if p.ret[0]=='load' else c.und(kind,'id form')
    # ---- heaps
    def heaps(s):
        c=s.c;kind='heap'
        for nm in('buildHeap','insertToHeap'):
            r=s.S.get(r'Partio::%s\('%nm,kind,nm)
            if not r: continue
            s.heap(nm,*r)
    def heap(s,nm,f,it,ps):
        c=s.c;kind='heap';ins=nm=='insertToHeap'
        RES,DST,SIZE=('arg',0),('arg',1),('arg',2)
        # the loop that walks down: its variable changes to a child
        down=None
        def find(ev,outer):
            for e in ev:
                if e[0]=='loop':
                    for iv,e0,st in e[1]:
                        if st is None: yield e,iv,e0,outer
                    for cc,b in e[2]:
                        for x in find(b,outer+((e,cc),)): yield x
        got=[x for p in ps for x in find(p.ev,())]
        if not got: c.und(kind,nm+' has no loop that descends');return
        for e,iv,e0,outer in got:
            nx=it.lnext.get(id(e[2]))
            if nx is None: c.und(kind,nm+' loop');return
            for size,cur in itertools.product(range(1,8),range(0,4)):
                if cur>=size: continue
                l,r_=2*cur+1,2*cur+2
                for dc,dl,dr,new in itertools.product((3,),(1,3,5),(2,3,6),(0,1,2,4,7) if ins else (0,)):
                    dv={cur:dc,l:dl,r_:dr}
                    def A(t):
                        if t==iv: return cur
                        if t==SIZE: return size
                        if ins and t==('arg',4): return new
                        if ins and t==('arg',3): return 77
                        if t[0]=='load':
                            a=t[1]
                            if a==DST: k=0
                            elif a[0]=='idx' and a[1]==DST and a[3]==4: k=V(a[2],A)
                            else: return None
                            if k is None: return None
                            if k>=size or k<0: return 'out'
                            return dv.get(k,0)
                        return None
                    def ok(t):
                        try: return V(t,A)
                        except TypeError: return 'out'
                    kids=[k for k in(l,r_) if k<size]
                    big=max(kids,key=lambda k: dv[k]) if kids else None
                    ties=[k for k in kids if dv[k]==dv[big]] if kids else []
                    stop=(big is None or new>dv[big]) if ins else (big is None or dv[big]<=dc)
                    tie=ins and big is not None and new==dv[big]
                    hit=[]
                    for (cc,b),nv in zip(e[2],nx[1]):
                        # the conditions of the path, in order, until one fails
                        dead=False
                        for t,_ in cc:
                            v=ok(strip(t))
                            if v is None: c.und(kind,nm+' decides on '+fmt(t));return
                            if v=='out': c.bad(nm+' bounds','%s looks at a child beyond the %d entries of the heap'%(nm,size),L(f),kind,[fmt(t)]);return
                            if v==0: dead=True;break
                        if not dead: hit.append((b,nv))
                    if len(hit)>1: c.und(kind,nm+' iteration');return
                    env='node %d of %d holds %d, its children %s%s'%(cur,size,dc,', '.join('%d'%dv[k] for k in kids) or 'do not exist',', the new distance is %d'%new if ins else '')
                    if not hit:
                        if not stop and not tie: c.bad(nm+' stop','%s stops although %s'%(nm,env),L(f),kind);return
                        continue
                    if stop and not tie: 
                        c.bad(nm+' stop','%s descends although %s'%(nm,env),L(f),kind);return
                    b,nv=hit[0]
                    n=ok(strip(nv[iv]))
                    if n is None: c.und(kind,nm+' next node');return
                    if n not in ties: c.bad(nm+' child','%s continues at node %s although %s'%(nm,n,env),L(f),kind);return
                    arr={RES:{},DST:{}}
                    for x in b:
                        if x[0]!='store': continue
                        a=strip(x[1]);base,k=(a[1],ok(a[2])) if a[0]=='idx' else (a,0)
                        y=strip(x[2])
                        if base not in arr or y[0]!='load': c.und(kind,nm+' store '+fmt(x[1]));return
                        yb,yk=(y[1][1],ok(y[1][2])) if y[1][0]=='idx' else (y[1],0)
                        if yb!=base: c.bad(nm+' arrays','%s moves %s to %s'%(nm,fmt(y),fmt(a)),L(f),kind);return
                        arr[base][k]=yk
                    for base,w in(('identifiers',arr[RES]),('distances',arr[DST])):
                        want={cur:n,n:cur}
                        if ins: okk=w.get(cur)==n and w.get(n,cur)==cur and set(w)<={cur,n}
                        else: okk=w==want
                        if not okk:
                            c.bad(nm+' '+base,'%s leaves the %s of node %d %s when its child %d moves up'%(nm,base,cur,'alone' if not w else 'wrong',n),L(f),kind);return
            # where it starts
            if ins: c.decide(V(strip(e0),lambda t:None)==0,kind,nm+' starts at the root','%s starts at node %s'%(nm,fmt(e0)),L(f))
        c.ok(kind,nm+' moves the larger child up, identifier and distance together')
        # the value it gives and, for the insertion, where the new entry goes
        for p in ps:
            rv=strip(p.ret)
            c.decide(rv in(('load',DST),('load',('idx',DST,ZERO,4))),kind,nm+' gives the largest distance','%s returns %s'%(nm,fmt(p.ret)),L(f)) if rv[0] in('load','const','arg','fconst') else (c.ok(kind,nm+' returns the new distance') if False else c.und(kind,nm+' returns '+fmt(p.ret)))
        if ins:
            iv=got[0][1]
            for p in ps:
                at=[k for k,e in enumerate(p.ev) if e[0]=='loop']
                st={}
                for e in p.ev[at[-1]+1 if at else 0:]:
                    if e[0]=='store':
                        a=strip(e[1])
                        if a[0]=='idx' and a[1] in(RES,DST): st[a[1]]=(a[2],strip(e[2]))
                        elif a in(RES,DST): st[a]=(ZERO,strip(e[2]))
                want={RES:(iv,('arg',3)),DST:(iv,('arg',4))}
                if all(x[1][0] in('arg','load','const') for x in st.values()):
                    c.decide(st==want,kind,nm+' stores the new entry','%s leaves %s'%(nm,'; '.join('%s[%s]=%s'%('identifier' if k==RES else 'distance',fmt(v[0]),fmt(v[1])) for k,v in sorted(st.items())) or 'the new entry out'),L(f))
                else: c.und(kind,nm+' final store')
        else:
            outs=set()
            for e,iv,e0,outer in got:
                for l,cc in outer: outs.add(l[1])
            for ivs in outs:
                if len(ivs)!=1: c.und(kind,nm+' outer loop');continue
                v,e0,st=ivs[0]
                if st!=('const',-1): c.und(kind,nm+' outer loop step');continue
                badn=[n for n in range(1,20) if V(strip(e0),lambda t:n if t==SIZE else None) is not None and V(strip(e0),lambda t:n if t==SIZE else None)<n//2-1]
                if V(strip(e0),lambda t:5 if t==SIZE else None) is None: c.und(kind,nm+' outer start');continue
                c.decide(not badn,kind,nm+' starts at the last parent','%s starts at node %s, %d entries have more parents'%(nm,fmt(e0),badn[0] if badn else 0),L(f))
                lo=[k for k in range(-2,4) for l,cc in got[0][3] if all(V(strip(t),lambda t:k if t==v else None) in(1,None) for t,_ in cc)]
                if lo: c.decide(min(lo)<=0,kind,nm+' reaches the root','%s ends at node %d'%(nm,min(lo)),L(f))
                # the inner walk starts at the outer node
                for e,iv,e1,outer in got: c.decide(e1==v,kind,nm+' sifts every parent','%s sifts down from %s'%(nm,fmt(e1)),L(f)) if e1[0] in('iv','const') else None
    # ---- the particle sets
    def sets(s):
        c=s.c;kind='set'
        for cls in('ParticlesSimple',):
            for rx,what,np in((r'findPoints\(','findPoints',3),(r'findNPoints\(float const\*, int, float, std::vector','findNPoints',4),(r'findNPoints\(float const\*, int, float, unsigned long\*','findNPoints on arrays',4)):
                r=s.S.get(r'Partio::%s::%s'%(cls,rx),kind,'%s::%s'%(cls,what))
                if r: s.remap(cls,what,np,*r)
            r=s.S.get(r'Partio::%s::sort\('%cls,kind,cls+'::sort')
            if r: s.setsort(cls,*r)
    def remap(s,cls,what,np,f,it,ps):
        c=s.c;kind='set'
        from c14 import counted
        pts=('arg',np);name=what.split(' ')[0]
        for p in ps:
            cl=[e for e in p.ev if e[0]=='call' and e[1]==K+'::'+name]
            if not cl:
                nul=[x for x,_ in p.cond if x[0]=='cmp' and x[1]=='eq' and ('null',) in x[2:]]
                if not nul and not any(e[0]=='call' for e in p.ev): c.bad(what+' search','%s does not search its tree'%what,L(f),kind,[fmt(x) for x,_ in p.cond])
                elif name=='findNPoints' and p.ret is not None and V(p.ret,lambda t:None)==0: c.ok(kind,what+' of an unsorted set finds nothing')
                continue
            if len(cl)>1: c.und(kind,what+' searches twice');continue
            a=cl[0][2];tree=strip(a[0]);at=p.ev.index(cl[0])
            # the arguments go to the parameters of the tree
            g=[strip(x) for x in a[1:]]
            if name=='findPoints':
                c.decide(g[0]==pts,kind,what+' result','findPoints fills %s'%fmt(g[0]),cl[0][3])
                bx=[e for e in p.ev[:at] if e[0]=='call' and 'BBox' in e[1] and e[2] and e[2][0]==g[1]]
                seq=[(short(e[1]),e[2][1] if len(e[2])>1 else None) for e in bx]
                init=[x for n,x in seq if n in('BBox','set')];gr=[x for n,x in seq if n=='grow']
                known=all(n in('BBox','set','grow') for n,_ in seq)
                if known and seq: c.decide({x for x in init+gr if x}=={('arg',1),('arg',2)} and seq[-1][0]=='grow' or len(gr)==2 and set(gr)=={('arg',1),('arg',2)},kind,what+' box','findPoints searches a box made of %s'%', '.join('%s(%s)'%(n,fmt(x) if x else '') for n,x in seq),cl[0][3])
                else: c.und(kind,what+' box')
            elif 'arrays' in what:
                want=[('arg',4),('arg',5),('arg',6),('arg',1),('arg',2),('arg',3)]
                c.decide(g==want,kind,what+' arguments','findNPoints searches with %s'%', '.join(fmt(x) for x in g),cl[0][3]) if all(x[0]=='arg' for x in g) else c.und(kind,what+' arguments')
            else:
                want=[('arg',4),('arg',5),('arg',1),('arg',2),('arg',3)]
                c.decide(g==want,kind,what+' arguments','findNPoints searches with %s'%', '.join(fmt(x) for x in g),cl[0][3]) if all(x[0]=='arg' for x in g) else c.und(kind,what+' arguments')
            # remap of exactly the new entries
            ls=[e for e in p.ev[at:] if e[0]=='loop']
            rm=[(l,e) for l in ls for cc,b in l[2] for e in b if e[0]=='store']
            if not rm:
                if not ls or all(not b for l in ls for cc,b in l[2]): c.bad(what+' identifiers','%s gives the positions in the tree, not the particles'%what,L(f),kind)
                else: c.und(kind,what+' remap form')
                continue
            if len(ls)>1 or len({(strip(e[1]),strip(e[2])) for _,e in rm})>1: c.und(kind,what+' remap form');continue
            l,e=rm[0];k=counted(l)
            if k and k[1] and k[1][0]=='bounds':
                # several bounds: some body has to run for every entry
                n0=strip(cl[0][4]) if 'arrays' in what else ('size',pts)
                miss=None
                for n,m in((1,1),(3,3),(3,5)):
                    for i in range(n):
                        A=lambda t:i if t==k[0] else n if t==n0 else m if t==('arg',2) else None
                        q=[[V(strip(x),A) for x,_ in cc] for cc,b in l[2]]
                        if all(0 in z for z in q): miss=miss or (n,m,i)
                if miss: c.bad('%s remaps up to the last'%what,'%s does not translate position %d of %d when %d were wanted'%(what,miss[2],miss[0],miss[1]),e[3],kind)
                else: c.und(kind,what+' remap bounds')
                continue
            if not k: c.und(kind,what+' remap loop');continue
            iv,b,e0=k
            if 'arrays' in what: el=('idx',pts,iv,8) if iv!=ZERO else pts;end=strip(cl[0][4])
            else: el=('elem',pts,iv);end=('size',pts)
            v=strip(e[2])
            good=strip(e[1])==el
            src=None
            if v[0]=='call' and v[1]==K+'::id': src=(strip(v[2][0]),strip(v[2][1]))
            elif v[0]=='load' and hasattr(s,'ids') and v[1][0]=='elem' and s.rel(v[1][1],tree)==s.rel(s.ids,('arg',0)): src=(tree,v[1][2])
            if src is None: c.und(kind,what+' remap value '+fmt(v));continue
            c.decide(good and src==(tree,('load',el)),kind,what+' gives particles','%s replaces %s by the particle of %s'%(what,fmt(e[1]),fmt(src[1])),e[3])
            c.decide(b==end,kind,what+' remaps up to the last','%s translates the positions up to %s only'%(what,fmt(b)),e[3]) if b[0] in('size','call','arg','const','lin') else c.und(kind,what+' remap bound')
            if name=='findPoints':
                before=e0[0]=='size' and e0[1]==pts and (len(e0)<3 or e0[2]<cl[0][4][3])
                if e0==ZERO: c.bad(what+' start','findPoints translates the entries the result had before, too',e[3],kind)
                elif e0[0]=='size' and e0[1]==pts: c.decide(before,kind,what+' remaps the new entries','findPoints starts to translate after the entries it found',e[3])
                elif e0[0]=='const': c.bad(what+' start','findPoints starts to translate at entry %d'%e0[1],e[3],kind)
                else: c.und(kind,what+' start '+fmt(e0))
            else:
                c.decide(e0==ZERO,kind,what+' remaps from the first','%s starts to translate at entry %s'%(what,fmt(e0)),e[3]) if e0[0]=='const' else c.und(kind,what+' start '+fmt(e0))
            if p.ret is not None:
                c.decide(strip(p.ret)==strip(cl[0][4]),kind,what+' returns what the tree found','%s returns %s'%(what,fmt(p.ret)),L(f)) if strip(p.ret)[0] in('call','const','fconst','arg') else c.und(kind,what+' return')
    def setsort(s,cls,f,it,ps):
        c=s.c;kind='set'
        for p in ps:
            sp=[e for e in p.ev if e[0]=='call' and e[1]==K+'::setPoints'];so=[e for e in p.ev if e[0]=='call' and e[1]==K+'::sort']
            st=[e for e in p.ev if e[0]=='store' and e[1][0]=='fld' and e[1][1]==('arg',0)]
            if not sp:
                if st: c.bad('sort tree','sort installs a tree without points',L(f),kind)
                continue
            tree=sp[0][2][0];at=p.ev.index(sp[0])
            if len(sp)>1: c.und(kind,'sort form');continue
            inst=[e for e in st if e[2]==tree]
            late=[e for e in so if e[2][0]==tree and p.ev.index(e)>at]
            if not so: c.bad('sort tree','sort of a set does not sort its tree',L(f),kind)
            else: c.decide(bool(late),kind,'sort orders the tree','sort orders the tree before it has its points',L(f))
            c.decide(bool(inst),kind,'sort installs the tree','sort of a set drops the tree it made',L(f)) if tree[0] in('call','load','fresh') else c.und(kind,'sort tree')
            n=strip(sp[0][2][2]);O=Obj(c,s.S.prog)
            cnt=[q for q in s.S.prog.find('Partio::%s::numParticles'%cls)]
            if len(cnt)==1:
                i2,p2=s.S.paths(cnt[0])
                rs=set(strip(q.ret) for q in p2 or ())
                if len(rs)==1: c.decide(n==list(rs)[0] or n[0]=='call' and short(n[1])=='numParticles',kind,'sort takes every particle','sort takes %s points'%fmt(n),sp[0][3]) if n[0] in('load','const','call','lin') else c.und(kind,'sort count')
            d=strip(sp[0][2][1])
            tests=[x for x,_ in p.cond]
            ok3=any(x[0]=='cmp' and x[1]=='eq' and ('const',3) in x[2:] for x in tests);okv=any(x[0]=='cmp' and x[1]=='eq' and ('const',1) in x[2:] for x in tests)
            pos=any(y==('str',b'position\0') or y==('str',b'position') for x in tests for y in subterms(x))
            rej=[x for x in tests if x[0]=='cmp' and x[1] in('eq','ne')]
            if pos: c.decide(ok3 and okv,kind,'sort requires three coordinates','sort takes a position attribute that is not a vector of 3',sp[0][3])
            else: c.und(kind,'position lookup')
