#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place, kept in step)."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]; NA=[]
def prop(id,title,statement,over,text,why,files,mech,technique,note,state=(),observe=(),level='other',na=None):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'state':[dict(zip(('name','meaning','where'),s)) for s in state],
        'mechanism':[dict(zip(('name','where'),m)) for m in mech],'observe_at':list(observe),'hook_needed':None},
      '_t':technique,'_n':note,'_l':level,'_na':na})
exec(open(V+'/tool/props.py').read())
with open(V+'/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps({k:v for k,v in p.items() if not k.startswith('_')})+'\n')
M={'version':1,'setup_cmd':'bash tool/build.sh',
 'checks':[{'property':p['id'],'quick_cmd':'python3 check.py %s'%p['id'],'thorough_cmd':'VERIF_TIER=thorough python3 check.py %s'%p['id'],
   'evidence_file':'evidence/%s.json'%p['id'],'technique':p['_t'],'level':p['_l'],'level_note':p['_n']} for p in P if not p['_na']],
 'not_applicable':[{'property':p['id'],'reason':p['_na']} for p in P if p['_na']],
 'notes':'All checks are static analyses over the LLVM IR (and, for the Python files and the SWIG interface, the syntax tree) of the current /repo sources; nothing of /repo is executed.'}
json.dump(M,open(V+'/MANIFEST.json','w'),indent=1)
