#!/usr/bin/env python3
"""dev helper: apply one-line substitutions to a scratch copy of /repo/src and run checks on it.
usage: mut.py CHECK[,CHECK..] FILE 'old' 'new' [...]   (or  -p patch.diff)"""
import sys,os,shutil,subprocess,tempfile
chk=sys.argv[1].split(',')
d=tempfile.mkdtemp(prefix='mut.',dir='/tmp')
try:
    shutil.copytree('/repo/src',d+'/src',ignore=shutil.ignore_patterns('*.bgeo','*.png'))
    if sys.argv[2]=='-p':
        for x in sys.argv[3:]:
            subprocess.check_call(['patch','-s','-p1','-d',d,'-i',os.path.abspath(x)])
    elif sys.argv[2]=='-R':
        for x in sys.argv[3:]:
            df=subprocess.run(['git','-C','/repo','show',x],stdout=subprocess.PIPE).stdout
            subprocess.run(['patch','-s','-R','-p1','-d',d],input=df,check=True)
    else:
        a=sys.argv[2:]
        for f,o,n in zip(a[::3],a[1::3],a[2::3]):
            p=d+'/'+f if f.startswith('src') else d+'/src/lib/'+f
            s=open(p).read(); assert s.count(o)>=1,('not found',o); s=s.replace(o,n,1); open(p,'w').write(s)
    # compiles?
    if os.environ.get('KEEP'):
        subprocess.run(os.environ['KEEP'],shell=True,env=dict(os.environ,PV_REPO=d));sys.exit()
    for c in chk:
        r=subprocess.run(['python3','/verif/check.py',c],cwd='/verif',env=dict(os.environ,PV_REPO=d),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        print(c,'rc',r.returncode)
        out=[l[:230] for l in r.stdout.splitlines() if l.startswith('  [') or l.startswith('ANALYSIS') or 'Error' in l or 'error:' in l]
        print('\n'.join(out[:8]))
finally: shutil.rmtree(d)
