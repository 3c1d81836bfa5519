#!/usr/bin/env python3-vt
"""tools/slow.py PID [sec]: obligations of a property that take long to discharge (all run in parallel)."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import props
p = props.PROPS[sys.argv[1]]
lim = float(sys.argv[2]) if len(sys.argv) > 2 else 8
import re
for w, ns in p['worlds'].items():
    r = subprocess.run(['python3-vt', '-m', 'pyvc.run', w, *(ns or []), '-t', '40', '-j', '8', '-v'], capture_output=True, text=True)
    cur = ''
    for l in r.stdout.split('\n'):
        if l.startswith(('fn ', 'lemma ')):
            cur = l
        m = re.search(r'(z3|cvc5)\S* (\d+\.\d+)s$', l)
        if 'FAIL' in l or 'VACUOUS' in l or 'ERROR' in l or (m and float(m.group(2)) > lim):
            print(w, '|', cur, '|', l[:200])
