#!/usr/bin/env python3
"""Planted bugs.  seed.py new <spec.py>: write seeded/<id>/ from the specs in the file (list SEEDS of dicts);
seed.py try <id..>: confirm in a scratch copy (applies, tests pass, demo 0/nonzero) and run the property's check against it."""
import json, os, shutil, subprocess, sys, tempfile, difflib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        patch = ''
        byfile = {}
        for f, a, b in s['edits']:
            src = byfile.get(f) or open(os.path.join(REPO, f)).read()
            assert src.count(a) == 1, (s['id'], f, a, src.count(a))
            byfile[f] = src.replace(a, b)
        tmp = tempfile.mkdtemp()
        for f, b in byfile.items():
            p = os.path.join(tmp, 'b', f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(b)
            p = os.path.join(tmp, 'a', f); os.makedirs(os.path.dirname(p), exist_ok=True); shutil.copy(os.path.join(REPO, f), p)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=tmp, capture_output=True, text=True)
            patch += r.stdout
        shutil.rmtree(tmp)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run with cwd = the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('wrote', s['id'])


def tryit(ids, skip_tests=False, skip_check=False):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            r = os.path.join(w, 'repo')
            subprocess.run(['cp', '-a', REPO, r], check=True)
            a = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
            p = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
            b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
            out = '%s (%s): demo clean=%d planted=%d apply=%d' % (i, meta['property'], a.returncode, b.returncode, p.returncode)
            if a.returncode: out += '\n   ' + a.stderr[-400:]
            if not skip_tests:
                t = os.path.join(w, 'o.json')
                env = dict(os.environ, PYTHONPATH=r)
                # the registered test command reads /repo; here the same tests run in the copy
                x = subprocess.run('cd %s/tests && for f in test_*.py; do timeout 300 /opt/venv/bin/python -W ignore -m pytest -q -x --no-header $f 2>&1 | tail -40; done' % r, shell=True, capture_output=True, text=True, env=env) if False else \
                    subprocess.run(['bash', HERE + '/tools/tests_in.sh', r, t], capture_output=True, text=True, env=env)
                try:
                    bad = stable - set(json.load(open(t))['passed'])
                    out += ' stable-broken=%s' % (sorted(bad) or 'none')
                except Exception as e:
                    out += ' tests did not run: ' + x.stdout[-300:] + x.stderr[-300:]
            if not skip_check:
                c = subprocess.run(['python3-vt', HERE + '/check.py', meta['property']], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r))
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                out += '\n   check rc=%d %s' % (c.returncode, v[0] if v else 'MISSED')
                out += '\n   ' + '\n   '.join(l[:200] for l in c.stdout.splitlines()[:4])
            print(out, flush=True)
        finally:
            shutil.rmtree(w)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(sys.argv[2])
    else:
        args = [x for x in sys.argv[2:] if not x.startswith('-')]
        tryit(args or sorted(os.listdir(HERE + '/seeded')), '-t' in sys.argv, '-c' in sys.argv)
