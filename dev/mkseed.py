#!/usr/bin/env python3
"""dev helper: mkseed.py ID PROP 'needs' 'breaks' FILE 'old' 'new' [FILE old new ...] — writes seeded/ID/patch.diff and meta.json from substitutions"""
import sys,os,subprocess,tempfile,json,shutil
id,prop,needs,breaks=sys.argv[1:5];a=sys.argv[5:]
D='/verif/seeded/'+id;os.makedirs(D,exist_ok=True)
t=tempfile.mkdtemp(dir='/tmp')
try:
    subprocess.check_call(['git','clone','-q','--shared','/repo',t+'/r'])
    r=t+'/r'
    for f,o,n in zip(a[::3],a[1::3],a[2::3]):
        p=r+'/'+(f if f.startswith('src') else 'src/lib/'+f)
        s=open(p).read();assert s.count(o)==1,('count',s.count(o),o);open(p,'w').write(s.replace(o,n))
    d=subprocess.run(['git','-C',r,'diff'],stdout=subprocess.PIPE).stdout
    open(D+'/patch.diff','wb').write(d)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(D+'/meta.json','w'),indent=1)
    # lines removed must be original
    base=subprocess.run(['git','-C',r,'rev-list','--max-parents=0','HEAD'],stdout=subprocess.PIPE,text=True).stdout.strip()
    b={}
    for f in a[::3]:
        q=f if f.startswith('src') else 'src/lib/'+f
        txt=subprocess.run(['git','-C',r,'show',base+':'+q],stdout=subprocess.PIPE,text=True).stdout.splitlines()
        b[q]=set(txt)
    cur=None
    for l in d.decode().splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('-') and l[1:] not in b[cur]: print('NOT ORIGINAL:',l)
    if not os.path.exists(D+'/demo.sh'):
        open(D+'/demo.sh','w').write('''#!/bin/bash
# cwd: the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -g -Isrc/lib "$D/demo.cpp" -L_build/src/lib -lpartio -lz -lpthread -o "$W/demo" || exit 3
LD_LIBRARY_PATH=$PWD/_build/src/lib timeout 120 "$W/demo" "$W"
''')
finally: shutil.rmtree(t)
