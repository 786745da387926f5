#!/usr/bin/env python3
"""mut2.py < spec: blocks separated by ==== ; first line '@P01,P02 note'; then edits as in mut.py.  One line per block."""
import sys,subprocess,shutil,os,concurrent.futures
specs=[b.strip('\n') for b in sys.stdin.read().split('\n====\n') if b.strip('\n')]
def one(i,blk):
    head,_,blk=blk.partition('\n')
    ids,_,note=head[1:].partition(' ')
    d='/tmp/dev/v%d'%i
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for x in ('src','include','Makefile.am'):
        s='/repo/'+x
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s,d+'/'+x)
    for edit in blk.split('\n++\n'):
        f,old,new=edit.split('@@'); f=f.strip()
        p=d+'/src/'+f if not os.path.exists(d+'/'+f) else d+'/'+f
        t=open(p).read()
        if t.count(old)<1: return ids,note,'NOMATCH',old[:60]
        open(p,'w').write(t.replace(old,new,1))
    os.symlink('/repo/third_party', d+'/third_party')
    env=dict(os.environ,VERIF_REPO=d,VERIF_NOWRITE='1')
    r=subprocess.run(['python3','/verif/check.py']+ids.split(','),env=env,capture_output=True,text=True)
    vi=[l.split()[1].split('=')[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    first=[l for l in r.stdout.splitlines() if ': [' in l][:1]
    shutil.rmtree(d,ignore_errors=True)
    return ids,note,'rc=%d'%r.returncode,','.join(vi)+' '+(first[0][:110] if first else r.stderr[-200:].replace('\n',' '))
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for i,res in enumerate(ex.map(lambda t:one(*t),enumerate(specs))):
        print(i,*res,sep=' | ')
