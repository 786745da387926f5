#!/bin/bash
# seedcheck.sh SEEDDIR [notest] : full confirmation of a seeded bug in a private copy
S=$(realpath $1); ID=$(basename $S); W=/tmp/sc/$ID; 
rm -rf "$W"; mkdir -p $W; cp -a /repo $W/repo; cp -a $S $W/seed
cat > $W/run.sh <<E2
mount --bind $W/repo /repo; cd /repo
P=\$(python3 -c "import json;print(json.load(open('$W/seed/meta.json'))['property'])")
bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo "BASE BUILD FAILED"
timeout 300 bash $W/seed/demo.sh >$W/d0.log 2>&1; echo "demo base rc=\$?"
git apply $W/seed/patch.diff || echo "APPLY FAILED"
bash /opt/vp/build.sh >$W/b1.log 2>&1 || echo "BUILD FAILED"
timeout 300 bash $W/seed/demo.sh >$W/d1.log 2>&1; echo "demo patched rc=\$? : \$(tail -1 $W/d1.log | cut -c1-150)"
if [ "$2" != notest ]; then bash /opt/vp/test.sh $W/o.json >$W/t.log 2>&1; grep -a "^FAIL" $W/t.log | head -3; tail -1 $W/t.log; fi
cd /verif; timeout 900 python3 check.py \$P >$W/c.log 2>&1; echo "check \$P rc=\$? : \$(grep -v '^    ' $W/c.log | head -1 | cut -c1-250)"
E2
unshare -m -i -p -f --mount-proc bash $W/run.sh 2>&1 | sed "s/^/$ID: /"
for f in d0 d1 c; do cp $W/$f.log /tmp/dev/$ID.$f.log; done
rm -rf "$W"
