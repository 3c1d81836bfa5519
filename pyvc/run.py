"""Verify a world: generate obligations from the current source and discharge them in parallel."""
import importlib
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import sys
import time
import traceback
import z3
from .source import Source
from .theory import Theory
from .stmtx import Verifier
from .exec import Unsupported
from . import solve


def load_world(modname):
    mod, *args = modname.split(':')
    m = importlib.import_module('contracts.' + mod)
    return m.world(*args)


def make(world):
    return Verifier(world, Source(), Theory())


def lemma_closure(w, names):
    text = []
    for n in names:
        if n in w.lemmas:
            text.append(n)
            continue
        c = w.contracts[n]
        text.append(repr(c.lemmas) + repr(c.ghost) + repr(c.ensures))
    need = set(w.default_lemmas)
    changed = True
    pool = ' '.join(text)
    import re
    todo = [l for l in w.lemmas if l in need or re.search(r'\b%s\b' % re.escape(l), pool)]
    while todo:
        l = todo.pop()
        need.add(l)
        lm = w.lemmas[l]
        t = repr(lm.uses) + repr(lm.hints)
        todo += [x for x in w.lemmas if x not in need and re.search(r'\b%s\b' % re.escape(x), t)]
    return [l for l in w.lemmas if l in need]


def task(args):
    """generate one contract's (or lemma's) obligations and discharge a share of them"""
    modname, kind, name, part, nparts, timeout, opts = args
    t0 = time.time()
    out = dict(kind=kind, name=name, part=part, results=[], error=None, covers=[], inlined=[], used=[], dropped=[], externs=[])
    try:
        w = load_world(modname)
        vf = make(w)
        vf.ghost_hits = set()
        if kind == 'lemma':
            vf.cur_lemmas_used = set()
            vf.prove_lemma(w.lemmas[name])
            lem = w.lemmas[name].uses
            order = list(w.lemmas)
            for l in set(lem) | vf.cur_lemmas_used:
                if order.index(l) >= order.index(name):
                    raise Unsupported('lemma %s uses %s, which is not proved before it' % (name, l))
        else:
            c = w.contracts[name]
            vf.verify(c)
            lem = list(c.lemmas)
            for hk in c.ghost:
                if hk.startswith(('before:', 'after:')) and (c.name, hk) not in vf.ghost_hits:
                    raise Unsupported('ghost hook %r matches no statement' % hk)
        gen = time.time() - t0
        order = list(w.lemmas)
        lem = list(dict.fromkeys(lem + [l for l in w.default_lemmas if l != name and (kind != 'lemma' or order.index(l) < order.index(name))]))
        extra = []
        for l in lem:
            extra.append(('lemma ' + l, vf.lemma_axiom(w.lemmas[l])))
        from .exec import State
        for n, f, _ in w.axioms_:
            st = State()
            vf.abstract_heap(st, None)
            b = vf.specb(f, st)
            # quantify over the heap it mentions
            from .stmtx import occurs
            hs = [h for h in st.heap.values() if occurs(h, b)]
            extra.append(('axiom ' + n, z3.ForAll(hs, b) if hs else b))
        axs = solve.AxiomSet(vf.th.axioms + extra)
        nfail = 0 if not opts.get('all') else -10**9
        for i, o in enumerate(vf.obls):
            if i % nparts != part:
                continue
            if nfail >= 3:
                out['results'].append((o.fn, o.name, 'not attempted', '-', 0.0, 'three obligations of this share failed already'))
                continue
            st, be, sec, det = solve.discharge(axs, o.pc, o.goal, o.timeout or timeout, opts.get('cvc5', True))
            out['results'].append((o.fn, o.name, st, be, sec, det))
            nfail += st != 'proved'
        if part == 0:
            for fn, lbl, pcs in vf.covers:
                ok = solve.consistent(axs, pcs)
                out['covers'].append((fn, lbl, ok))
        out['total'] = len(vf.obls)
        out['gen'] = gen
        out['inlined'] = sorted(vf.inlined)
        out['used'] = sorted(vf.used_contracts)
        out['dropped'] = sorted(vf.dropped)
        out['externs'] = sorted(vf.used_externs)
    except Unsupported as e:
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
        out['error'] = 'unsupported: %s' % e
    except Exception as e:
        out['error'] = 'internal: %s\n%s' % (e, '\n'.join(l for l in traceback.format_exc().split('\n') if '^^^' not in l and l.startswith('  File'))[-700:])
    out['wall'] = time.time() - t0
    return out


def _child(conn, t):
    try:
        conn.send(task(t))
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, jobs, deadline=None, retries=2):
    """one forked process per task, no locks shared between them; a process that dies without an answer is started again"""
    ctx = mp.get_context('fork')
    todo = [(t, 0) for t in reversed(tasks)]
    live, res = {}, []

    def dead(t, why):
        res.append(dict(kind=t[1], name=t[2], part=t[3], results=[], error=why, covers=[], inlined=[], used=[], dropped=[], externs=[], total=0, gen=0, wall=0))
    while todo or live:
        if deadline and time.time() > deadline:
            for c, (p, t, n) in live.items():
                p.kill()
                dead(t, 'not finished within the time limit of the check')
            for t, n in todo:
                dead(t, 'not finished within the time limit of the check')
            break
        while todo and len(live) < jobs:
            t, n = todo.pop()
            r, wr = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(wr, t))
            p.start()
            wr.close()
            live[r] = (p, t, n)
        for c in mpc.wait(list(live), 1.0):
            p, t, n = live.pop(c)
            try:
                res.append(c.recv())
            except Exception:
                if n < retries:
                    todo.append((t, n + 1))
                else:
                    dead(t, 'the prover process ended without an answer')
            c.close()
            p.join()
    return res


def verify_world(modname, only=None, timeout=10.0, jobs=8, opts=None, lemmas=True, split=None):
    w = load_world(modname)
    tasks = []
    for n, c in w.contracts.items():
        if c.trusted or c.inline or (only and n not in only):
            continue
        k = (split or {}).get(n, 3)
        for p in range(k):
            tasks.append((modname, 'fn', n, p, k, timeout, opts or {}))
    if lemmas:
        for n in w.lemmas:
            if only and n not in only:
                continue
            tasks.append((modname, 'lemma', n, 0, 1, timeout, opts or {}))
    if jobs > 1:
        res = run_tasks(tasks, jobs)
    else:
        res = [task(t) for t in tasks]
    return w, res


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('world')
    ap.add_argument('only', nargs='*')
    ap.add_argument('-t', type=float, default=10)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    w, res = verify_world(a.world, set(a.only), a.t, a.j, {'all': True})
    bad = 0
    byname = {}
    for r in res:
        byname.setdefault((r['kind'], r['name']), []).append(r)
    for (k, n), rs in sorted(byname.items()):
        err = [r['error'] for r in rs if r['error']]
        if err:
            print('ERROR %s %s: %s' % (k, n, err[0]))
            bad += 1
            continue
        allr = [x for r in rs for x in r['results']]
        np = sum(1 for x in allr if x[2] == 'proved')
        print('%s %s: %d/%d  wall %.1fs gen %.1fs' % (k, n, np, len(allr), max(r['wall'] for r in rs), rs[0]['gen']))
        for x in allr:
            if x[2] != 'proved':
                bad += 1
                print('   FAIL', x[1], '|', x[2], '%.1fs' % x[4], x[5][:300 if not a.v else 3000])
            elif a.v:
                print('   ok', x[1], x[3], '%.2fs' % x[4])
        for r in rs:
            for fn, lbl, ok in r['covers']:
                if not ok:
                    bad += 1
                    print('   VACUOUS', fn, lbl)
    sys.exit(1 if bad else 0)
