#!/usr/bin/env python3-vt
"""tools/goal.py world name substring: print the goal and the last path facts of an obligation (proof engineering aid)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import run as R
w = R.load_world(sys.argv[1])
vf = R.make(w)
vf.ghost_hits = set()
n = sys.argv[2]
if n in w.lemmas:
    vf.cur_lemmas_used = set()
    vf.prove_lemma(w.lemmas[n])
else:
    vf.verify(w.contracts[n])
for o in vf.obls:
    if sys.argv[3] in o.name:
        print('=====', o.name)
        for p in o.pc[-int(sys.argv[4]) if len(sys.argv) > 4 else -5:]:
            print('   ', str(p)[:600])
        print('GOAL', o.goal)
