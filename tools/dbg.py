#!/usr/bin/env python3-vt
"""tools/dbg.py world name substring [timeout]: quantifier-instantiation profile of one obligation (proof engineering aid)."""
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc import run as R, solve
w = R.load_world(sys.argv[1])
vf = R.make(w)
vf.ghost_hits = set()
n = sys.argv[2]
if n in w.lemmas:
    vf.cur_lemmas_used = set()
    vf.prove_lemma(w.lemmas[n])
    lem = w.lemmas[n].uses
else:
    vf.verify(w.contracts[n])
    lem = w.contracts[n].lemmas
axs = solve.AxiomSet(vf.th.axioms + [('lemma ' + l, vf.lemma_axiom(w.lemmas[l])) for l in lem])
to = sys.argv[4] if len(sys.argv) > 4 else '5'
for o in vf.obls:
    if sys.argv[3] in o.name:
        fs = list(o.pc) + [z3.Not(o.goal)]
        rel = [f for _, f in axs.relevant(fs)]
        s = z3.Solver()
        s.add(rel)
        s.add(fs)
        txt = '(set-option :auto_config false)(set-option :smt.mbqi false)(set-option :smt.qi.eager_threshold 100)(set-option :smt.arith.solver 2)(set-option :smt.qi.profile true)\n' + s.to_smt2()
        open('/tmp/dbg.smt2', 'w').write(txt)
        print(o.name, len(rel), len(fs))
        r = subprocess.run(['z3', '-t:' + str(int(to)*1000), '/tmp/dbg.smt2'], capture_output=True, text=True)
        print(r.stdout[:200])
        c = {}
        for l in (r.stdout + r.stderr).split('\n'):
            m = re.match(r'\[quantifier_instances\]\s+(\S+)\s*:\s*(\d+)', l)
            if m:
                c[m.group(1)] = c.get(m.group(1), 0) + int(m.group(2))
        for k, v in sorted(c.items(), key=lambda x: -x[1])[:25]:
            print('   ', k, v)
        if '-p' in sys.argv:
            for f in o.pc:
                print('  PC', str(f)[:300].replace('\n', ' '))
            print('  GOAL', str(o.goal)[:600])
        break
