#!/usr/bin/env python3-vt
"""tools/vac.py world name label: unsat core of a vacuous program point (proof engineering aid)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc import run as R, solve
w = R.load_world(sys.argv[1])
vf = R.make(w)
vf.ghost_hits = set()
n = sys.argv[2]
vf.verify(w.contracts[n])
axs = solve.AxiomSet(vf.th.axioms + [('lemma ' + l, vf.lemma_axiom(w.lemmas[l])) for l in w.contracts[n].lemmas])
for c in vf.covers:
    if sys.argv[3] in str(c[1]):
        pc = c[2][0]
        fs = list(pc)
        rel = [('AX ' + nm, f) for nm, f in axs.relevant(fs)] + [('PC', f) for f in fs]
        s = z3.Solver()
        s.set('auto_config', False); s.set('mbqi', False); s.set('timeout', 20000); s.set('core.minimize', True)
        for i, (nm, f) in enumerate(rel):
            s.assert_and_track(f, 'f%d' % i)
        r = s.check()
        print(c[1], r)
        if r == z3.unsat:
            for x in s.unsat_core():
                nm, f = rel[int(str(x)[1:])]
                print('--', nm, str(f)[:700])
            break
