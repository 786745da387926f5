#!/bin/bash
# pickle of the current facts
cd /verif; python3 - <<'P'
import sys,pickle; sys.setrecursionlimit(100000)
from sa import facts
pickle.dump(facts.load(),open('/tmp/dev/facts.pkl','wb'))
P
