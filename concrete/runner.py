"""Concrete cross-check: evaluates contract oracles on the real code; also replays a recorded case.

A module c<NN>.py defines  RULE (text), cases(ctx) -> iterable of literal cases, check(case) -> None | error text,
and optionally nontrivial(case) -> bool, key(case, error) -> identifier used by known_findings.json.
"""
import argparse
import ast
import contextlib
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class Ctx:
    def __init__(self, seed, tier, budget):
        self.seed, self.tier, self.budget = seed, tier, budget
        self.rng = random.Random(seed)
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self):
        return self.budget - (time.time() - self.t0)


class CaseTimeout(BaseException):
    pass


def run_case(mod, case, limit=90):
    def onalarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            random.seed(12345)
            return mod.check(case)
    except CaseTimeout:
        return 'no answer within %d s' % limit
    except SystemExit as e:
        return 'unexpected SystemExit: %s' % (e,)
    except Exception:
        return 'unexpected exception: ' + traceback.format_exc()[-1200:]
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mod')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=40)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        case = ast.literal_eval(json.load(open(a.replay))['case'])
        mod = importlib.import_module(a.mod)
        err = run_case(mod, case)
        print('case:', case)
        print('FAILS: ' + err if err else 'holds')
        sys.exit(1 if err else 0)
    ctx = Ctx(a.seed, a.tier, a.budget)
    res = {'evaluations': 0, 'failures': [], 'samples': [], 'seconds': 0, 'known_confirmed': []}
    try:
        mod = importlib.import_module(a.mod)
    except BaseException:
        # the code under test does not even import: every case fails
        res['failures'].append({'case': "'import'", 'error': 'import failed: ' + traceback.format_exc()[-1500:], 'key': None})
        json.dump(res, open(a.out, 'w'))
        return
    res['rule'] = mod.RULE
    seen = set()
    try:
        for case in mod.cases(ctx):
            if ctx.left() < 0:
                res['stopped'] = 'time budget'
                break
            res['evaluations'] += 1
            txt = repr(case)
            if txt not in seen and (not hasattr(mod, 'nontrivial') or mod.nontrivial(case)):
                seen.add(txt)
            if len(res['samples']) < 3 and res['evaluations'] % 7 == 3:
                res['samples'].append(txt[:400])
            err = run_case(mod, case)
            if err:
                k = mod.key(case, err) if hasattr(mod, 'key') else None
                if k is not None and k in res['known_confirmed']:
                    continue
                res['failures'].append({'case': txt, 'error': err, 'key': k})
                if k is not None:
                    res['known_confirmed'].append(k)
                if len([f for f in res['failures'] if f['key'] is None]) >= 1:
                    break
    except BaseException:
        res['error'] = 'case generator: ' + traceback.format_exc()[-1500:]
    res['distinct_nontrivial'] = len(seen)
    res['seconds'] = round(time.time() - ctx.t0, 1)
    json.dump(res, open(a.out, 'w'))


if __name__ == '__main__':
    main()
