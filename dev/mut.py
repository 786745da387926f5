#!/usr/bin/env python3
"""mut.py IDS < spec: lines 'file@@old@@new' (\\n escapes); apply each separately and run checks in scratch copy"""
import sys,subprocess,shutil,os,concurrent.futures
ids=sys.argv[1].split(',')
specs=[]
for blk in sys.stdin.read().split('\n====\n'):
    blk=blk.strip('\n')
    if blk: specs.append(blk)
def one(i,blk):
    d='/tmp/dev/w%d'%i
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d)
    for x in ('src','include','Makefile.am'):
        s='/repo/'+x
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s,d+'/'+x)
    for edit in blk.split('\n++\n'):
        f,old,new=edit.split('@@')
        f=f.strip()
        p=d+'/src/'+f if not os.path.exists(d+'/'+f) else d+'/'+f
        t=open(p).read()
        if t.count(old)<1: return 'NOMATCH: %r'%old
        t=t.replace(old,new,1)
        open(p,'w').write(t)
    os.symlink('/repo/third_party', d+'/third_party')
    # synth compile
    env=dict(os.environ,VERIF_REPO=d,VERIF_NOWRITE='1')
    r=subprocess.run(['python3','/verif/check.py']+ids,env=env,capture_output=True,text=True)
    out=[l for l in r.stdout.splitlines() if True and not l.startswith('OK') and not l.startswith('KNOWN')]
    shutil.rmtree(d,ignore_errors=True)
    return 'rc=%d\n  '%r.returncode+'\n  '.join(out[:20])+r.stderr[-800:]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for blk,res in zip(specs,ex.map(lambda t:one(*t),enumerate(specs))):
        print('#',blk[:160].replace('\n','\\n')); print('  ',res)
