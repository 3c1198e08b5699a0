"""Common driver of the checks: obligations, findings, evidence, exit status."""
import os, sys, json, time, hashlib, traceback
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path.insert(0,HERE)
from core import AnalysisBroken
import extract

class Ctx(object):
    def __init__(s,pid):
        s.pid=pid; s.t0=time.time(); s.viol={}; s.obl=[]; s.functions=set(); s.files=set(); s.rules=[]
        s.assume=[]; s.undecided=[]; s.seen={}; s.counts={}; s.minimum={}
        s.tier=os.environ.get('VERIF_TIER','quick'); s.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        s.units=0
    def view(s,kind,**kw):
        p=extract.view(kind,**kw); s.units=max(s.units,p.units); return p
    def rule(s,text): s.rules.append(text)
    def touch(s,fn):
        s.functions.add(fn.short+(('.'+fn.suffix) if fn.suffix else '')); s.files.add(fn.file)
    def ok(s,kind,what): s.obl.append((kind,what,True)); s.counts[kind]=s.counts.get(kind,0)+1
    def bad(s,key,msg,loc='',kind='obligation',path=()):
        """a violated obligation; `key` identifies it independently of line numbers"""
        s.counts[kind]=s.counts.get(kind,0)+1
        if key in s.viol: return
        s.obl.append((kind,key,False))
        s.viol[key]={'key':key,'message':msg,'loc':loc,'path':list(path)}
    def und(s,kind,what):
        """an instance whose shape the rule does not recognise: reported in the evidence, neither proved nor alarmed"""
        s.undecided=getattr(s,'undecided',[]); s.undecided.append('%s: %s'%(kind,what)); s.seen[kind]=s.seen.get(kind,0)+1
    def decide(s,cond,kind,key,msg='',loc='',path=()):
        if cond: s.ok(kind,key)
        else: s.bad(key,msg or key,loc,kind,path)
        return cond
    def need(s,kind,n,why=''):
        """fail as broken when fewer than n instances of an obligation kind were found"""
        k=s.counts.get(kind,0)+s.seen.get(kind,0)
        if k<n:
            raise AnalysisBroken('%s: only %d instances of "%s" found, at least %d expected %s'%(s.pid,k,kind,n,why))

def known():
    p=VERIF+'/known_findings.json'
    if not os.path.exists(p): return []
    return json.load(open(p))['findings']

def main(pid,mod):
    c=Ctx(pid)
    try:
        mod.run(c)
        if not c.obl: raise AnalysisBroken('no obligation was generated')
    except AnalysisBroken as e:
        # a definite violation found before the anchor vanished still stands
        if not c.viol:
            print('ANALYSIS-BROKEN property=%s %s'%(pid,e)); sys.exit(3)
        print('note: analysis incomplete: %s'%e)
    kf={k['key']:k for k in known() if k['property']==pid and k.get('status')!='fixed'}
    new=[v for k,v in c.viol.items() if k not in kf]
    old=[v for k,v in c.viol.items() if k in kf]
    os.makedirs(VERIF+'/evidence',exist_ok=True)
    rp=None
    if new:
        d=VERIF+'/build/replay'; os.makedirs(d,exist_ok=True)
        rp='%s/%s.json'%(d,pid)
        json.dump({'property':pid,'repo':extract.REPO,'violations':new,
            'how':'python3 check.py %s re-derives the report from the source under /repo'%pid},open(rp,'w'),indent=1)
    nobl=len(c.obl); ndis=sum(1 for o in c.obl if o[2])
    viols=[{'key':v['key'],'message':v['message'],'loc':v['loc']} for v in new]
    samples={}
    for k,w,okk in c.obl:
        samples.setdefault(k,[])
        if len(samples[k])<int(os.environ.get('PV_SAMPLES','12')): samples[k].append(('' if okk else 'VIOLATED ')+w)
    ev={'property':pid,'tier':c.tier,'seed':c.seed,'level':'other',
        'coverage':{'explanation':'Static rules over the type-resolved LLVM IR of the current source tree: '+'; '.join(c.rules or [getattr(mod,'RULE','')]),
            'translation_units':c.units,'functions_analysed':sorted(c.functions),'files':sorted(f for f in c.files if f),
            'obligations':nobl,'discharged':ndis,'known_findings':len(old),
            'instances_by_rule':c.counts,'samples':[{'rule':k,'instances':v} for k,v in sorted(samples.items())]},
        'undecided':c.undecided,
        'assumptions':c.assume+['undecided: '+u for u in c.undecided]+getattr(mod,'ASSUME',[]),
        'wall_s':round(time.time()-c.t0,2),'violations':len(new),'violation_list':viols}
    json.dump(ev,open('%s/evidence/%s.json'%(VERIF,pid),'w'),indent=1)
    for v in old: print('KNOWN-FINDING: property=%s %s'%(pid,kf[v['key']]['what']))
    print('%s: %d translation units, %d functions, %d obligations, %d discharged, %d known findings, %.1fs'%(
        pid,c.units,len(c.functions),nobl,ndis,len(old),time.time()-c.t0))
    for k in sorted(c.counts): print('   %-40s %d'%(k,c.counts[k]))
    if new:
        for v in new:
            print('  [%s] %s\n     at %s'%(v['key'],v['message'],v['loc']))
            if v['path']: print('     path: '+' -> '.join(v['path']))
        print('VIOLATION property=%s replay=%s'%(pid,rp)); sys.exit(1)
    sys.exit(0)
