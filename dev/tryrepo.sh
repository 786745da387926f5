#!/bin/bash
# build + test the working tree of /repo in a private copy
W=/tmp/sc/try$$; mkdir -p $W; cp -a /repo $W/repo
unshare -m -i -p -f --mount-proc bash -c "mount --bind $W/repo /repo; bash /opt/vp/build.sh >$W/b.log 2>&1 || { grep -E 'error|Error' $W/b.log | head; echo BUILD FAILED; }; bash /opt/vp/test.sh $W/o.json >$W/t.log 2>&1; grep -a '^FAIL' $W/t.log; tail -1 $W/t.log; cp -r /repo/_build/_results /tmp/dev/results 2>/dev/null; true"
rm -rf "$W"
