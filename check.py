#!/usr/bin/env python3-vt
"""check.py <property id> [--thorough]: decide one property on /repo's current source.

1. generate every proof obligation of the property's contracts from the current source and discharge it;
2. run the same contracts as executable oracles against the real code (bounded cross-check, also the witness finder);
3. report.  Exit 0: every obligation discharged and no witness.  Exit 1 with a VIOLATION line otherwise.
"""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def start_concrete(mod, tier, seed, budget):
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.Popen([PY, os.path.join(HERE, 'concrete', 'runner.py'), mod, '--seed', str(seed), '--tier', tier, '--budget', str(budget), '--out', out],
                         cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    return p, out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from props import PROPS
    P = PROPS[pid]
    from pyvc import run as R
    budget = P.get('budget', 40) * (8 if tier == 'thorough' else 1)
    conc = start_concrete(P['concrete'], tier, seed, budget) if P.get('concrete') else None

    # ---- proofs
    tasks, worlds = [], {}
    timeout = 60.0 if tier == 'thorough' else 20.0
    gen_errors = []
    for wname, only in P['worlds'].items():
        try:
            w = R.load_world(wname)
        except Exception:
            gen_errors.append((wname, 'contracts do not load: ' + traceback.format_exc()[-800:]))
            continue
        worlds[wname] = w
        names = list(w.contracts) if only is None else list(only)
        lem = R.lemma_closure(w, names)
        for n in names:
            if n in w.lemmas:
                continue
            c = w.contracts[n]
            if c.trusted or c.inline:
                continue
            k = P.get('split', {}).get(n, 2)
            for part in range(k):
                tasks.append((wname, 'fn', n, part, k, timeout, {}))
        for n in lem:
            tasks.append((wname, 'lemma', n, 0, 1, timeout, {}))
    deadline = t0 + (P.get('limit', 600) if tier == 'quick' else 3000)
    results = R.run_tasks(tasks, min(8, os.cpu_count() or 4), deadline)

    # ---- concrete cross-check
    cres = None
    if conc:
        p, out = conc
        try:
            txt, _ = p.communicate(timeout=budget * 3 + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            txt, _ = p.communicate()
        try:
            cres = json.load(open(out))
        except Exception:
            cres = {'error': 'the concrete run died: ' + (txt or '')[-1500:], 'evaluations': 0, 'failures': []}
        os.unlink(out)

    # ---- verdict
    nobl = ndis = 0
    failed, backends, solver_s, fns, byfn = [], {}, 0.0, set(), {}
    inlined, dropped, externs, trusted = set(), set(), set(), set()
    for wname, w in worlds.items():
        for c in w.contracts.values():
            if c.trusted:
                trusted.add('%s: assumed contract (%s)' % (c.name, c.trusted))
        for n, f, why in w.axioms_:
            trusted.add('axiom %s: %s' % (n, why))
    for x, e in gen_errors:
        failed.append((x, 'world', 'error', e))
    for r in results:
        if r['error']:
            failed.append((r['name'], 'generation of the obligations', 'error', r['error']))
            continue
        nobl += len(r['results'])
        if r['kind'] == 'fn':
            fns.add(r['name'])
        for fn, name, st, be, sec, det in r['results']:
            solver_s += sec
            b = byfn.setdefault(r['name'], [0, 0])
            b[0] += 1
            if st == 'proved':
                ndis += 1
                b[1] += 1
                backends[be] = backends.get(be, 0) + 1
            else:
                failed.append((r['name'], name, st, det))
        for fn, lbl, ok in r['covers']:
            if not ok:
                failed.append((fn, 'vacuity: %s is contradictory' % lbl, 'vacuous', ''))
        inlined |= set(r['inlined'])
        dropped |= set(r['dropped'])
        externs |= set(r['externs'])
    if nobl == 0 and not failed:
        failed.append(('-', 'no obligations were generated', 'error', ''))
    # failures are one per obligation name
    kn = [k for k in known()['known'] if k['property'] == pid]
    conc_fail = (cres or {}).get('failures', [])
    unlisted = []
    hit = set()
    for f in conc_fail:
        k = next((k for k in kn if k.get('key') == f.get('key')), None)
        if k:
            hit.add(k['key'])
        else:
            unlisted.append(f)
    for k in kn:
        if k.get('key') in (cres or {}).get('known_confirmed', []) or k['key'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    viol = 0
    if unlisted:
        f = unlisted[0]
        rp = replay(pid, P['concrete'], f, failed)
        print('property %s: the real code fails: %s' % (pid, f['error'][:600]))
        for x in failed[:12]:
            print('  failed obligation: %s: %s (%s)' % (x[0], x[1], x[2]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        viol = len(unlisted)
    elif failed or (cres is not None and cres.get('error')):
        if cres is not None and cres.get('error'):
            failed.append(('concrete', 'cross-check did not run', 'error', cres['error']))
        rp = replay(pid, P.get('concrete'), None, failed)
        for x in failed[:12]:
            print('  failed obligation: %s: %s (%s) %s' % (x[0], x[1], x[2], ' '.join(x[3].split())[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        viol = len(failed)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'cd /verif && python3-vt check.py %s  (pyvc obligation generator; z3 %s, cvc5 1.1.2)' % (pid, R.z3.get_version_string()),
            'trusted_base': sorted(trusted) + [
                'pyvc: translation of the supported Python subset to verification conditions (validated by the concrete cross-check and by broken-body tests)',
                'pyvc/theory.py: axioms of finite sequences, sets, maps, boxing (checked against CPython by pyvc/selfcheck.py in setup)',
                'z3 and cvc5'],
            'functions_under_contract': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(byfn.items()) if k in fns},
            'lemmas': sorted({r['name'] for r in results if r['kind'] == 'lemma'}),
            'inlined_from_source': sorted(inlined),
            'backends': backends, 'solver_seconds': round(solver_s, 1),
            'failed': ['%s: %s (%s)' % (a, b, c) for a, b, c, _ in failed][:50],
            'bounded_cross_check': {k: v for k, v in (cres or {}).items() if k not in ('failures',)},
        },
        'assumptions': P.get('assumptions', []) + ['library calls modelled without a body: ' + ', '.join(sorted(externs))] * bool(externs)
        + ['not modelled (dropped from the extraction): ' + x for x in sorted(dropped)]
        + ['integers are mathematical (as in Python); floats are treated as reals', 'partial correctness: termination is proved only where a variant is stated'],
        'wall_s': round(time.time() - t0, 2), 'violations': viol,
    }
    if cres:
        for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples'):
            if k in cres:
                ev['coverage'][k] = cres[k]
    os.makedirs('evidence', exist_ok=True)
    with open('evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations over %d functions, %d concrete cases, %.0fs' % (pid, ndis, nobl, len(fns), (cres or {}).get('evaluations', 0), time.time() - t0))
    sys.exit(1 if viol else 0)


def replay(pid, mod, f, failed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.json' % pid)
    r = {'property': pid, 'failed_obligations': [dict(function=a, obligation=b, status=c, output=d_) for a, b, c, d_ in failed[:40]]}
    if f is not None:
        r['case'] = f['case']
        r['error'] = f['error']
        r['run'] = 'PYTHONPATH=%s %s %s/concrete/runner.py %s --replay %s' % (REPO, PY, HERE, mod, p)
    else:
        r['verifier'] = 'the obligations above were discharged on the unchanged tree and are not any more; no failing input was found'
    with open(p, 'w') as fh:
        json.dump(r, fh, indent=1)
    return p


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        # the check itself broke on this tree: reported as an undecided obligation, never as silence
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        tb = traceback.format_exc()
        rp = replay(pid, None, None, [('check', 'run of the check', 'error', tb)])
        print(tb)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        sys.exit(1)
