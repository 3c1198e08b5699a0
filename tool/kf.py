#!/usr/bin/env python3
"""dev helper: kf.py fixed PROP COMMIT 'what' | kf.py known PROP KEY 'what'"""
import json,sys,os
p=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/known_findings.json'
F=json.load(open(p))['findings']
k,prop,key,what=sys.argv[1:5]
if k=='fixed':
    n=sum(1 for f in F if f.get('status')=='fixed')+1
    F.append({'property':prop,'key':'fixed-%d'%n,'status':'fixed','what':'fixed: property=%s %s %s'%(prop,key,what)})
else: F.append({'property':prop,'key':key,'status':'known','what':what})
open(p,'w').write('{"findings":[\n'+',\n'.join(json.dumps(f,separators=(',',':')) for f in F)+'\n]}\n')
