"""mkseed.py file.seed : sections ==id/prop/needs/breaks/edit/demo.cpp|demo.sh"""
import sys,os,subprocess,json,re
DEMO='''#!/bin/bash
# builds and runs demo.cpp against the built library, in a scratch directory
D=$(dirname "$(realpath "$0")")
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w %s-I/repo/src -I/repo/include "$D/demo.cpp" -o "$T/demo" \\
  /repo/_build/src/.libs/libfuxedo.a -lpthread -ldl %s|| exit 3
cd "$T" && timeout 100 ./demo
'''
SCR='/tmp/mkseed.repo'      # never in /repo: a vcheck may be running
subprocess.run(['rm','-rf',SCR]); subprocess.run(['git','clone','-q','/repo',SCR],check=True)
for path in sys.argv[1:]:
    t=open(path).read()
    for blk in re.split(r'^#### ',t,flags=re.M)[1:]:
        sec={}
        head,_,rest=blk.partition('\n')
        sid,prop=head.split()
        cur=None
        for part in re.split(r'^== ',rest,flags=re.M)[1:]:
            k,_,v=part.partition('\n'); sec.setdefault(k.strip(),[]).append(v)
        d='/verif/seeded/'+sid; os.makedirs(d,exist_ok=True)
        for e in sec['edit']:
            f,old,new=e.split('@@'); f=f.strip()
            old=old.strip('\n'); new=new.rstrip('\n')
            new=new[1:] if new.startswith('\n') else new
            p=SCR+'/'+f; s=open(p).read()
            assert s.count(old)==1,(sid,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',SCR,'diff'],capture_output=True,text=True).stdout
        subprocess.run(['git','-C',SCR,'checkout','-q','--','.'],check=True)
        open(d+'/patch.diff','w').write(diff)
        opts=sec.get('opts',[''])[0].strip(); libs=sec.get('libs',[''])[0].strip()
        if 'demo.sh' in sec: open(d+'/demo.sh','w').write(sec['demo.sh'][0])
        else: open(d+'/demo.sh','w').write(DEMO%(opts+' ' if opts else '',libs+' ' if libs else ''))
        os.chmod(d+'/demo.sh',0o755)
        for k in sec:
            if k.startswith('file '): open(d+'/'+k[5:],'w').write(sec[k][0])
        if 'demo.cpp' in sec: open(d+'/demo.cpp','w').write(sec['demo.cpp'][0])
        json.dump({'property':prop,'needs':' '.join(sec['needs'][0].split()),'what_it_breaks':' '.join(sec['breaks'][0].split())},open(d+'/meta.json','w'),indent=1)
        print(sid)
