"""Discharging obligations: z3 (E-matching), z3 with model-based instantiation, then cvc5."""
import re
import time
import z3


def mk_solver(timeout, mbqi=False, seed=0):
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout * 1000))
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    s.set('smt.random_seed', seed)
    s.set('smt.qi.eager_threshold', 100.0)
    s.set('smt.arith.solver', 2)
    return s


def symbols(f, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    todo = [f]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
            for k in range(t.num_patterns()):
                todo.append(t.pattern(k))
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo += t.children()
    return out


class AxiomSet:
    """axioms filtered by the sorts and symbols an obligation can reach"""

    def __init__(self, axioms):
        self.ax = []
        for n, f in axioms:
            self.ax.append((n, f, trig_symbols(f)))

        self.spec = {n.split('.')[1] for n, _ in axioms if n.startswith('spec.')}
        self.spec |= {n + '_lim' for n in self.spec}

    def slice(self, pc, goal):
        """hypotheses without the quantified ones about specification functions the goal does not speak about (None: no such)"""
        if not self.spec:
            return None
        g = symbols(goal) & self.spec
        g = {x[:-4] if x.endswith('_lim') else x for x in g}
        keep = []
        for f in pc:
            m = {x[:-4] if x.endswith('_lim') else x for x in symbols(f) & self.spec}
            if m <= g or m & g:
                keep.append(f)
        return keep if len(keep) < len(pc) else None

    def relevant(self, formulas):
        syms = set()
        seen = set()
        for f in formulas:
            symbols(f, seen, syms)
        chosen, pending = [], list(self.ax)
        changed = True
        while changed:
            changed = False
            rest = []
            for n, f, alts in pending:
                # usable when one of its triggers is made of reachable symbols
                if alts is None or any(a <= syms for a in alts):
                    chosen.append((n, f))
                    new = symbols(f) - syms
                    if new:
                        syms |= new
                        changed = True
                else:
                    rest.append((n, f, alts))
            pending = rest
        return chosen


def trig_symbols(f):
    if not z3.is_quantifier(f) or f.num_patterns() == 0:
        return None
    out = []
    for k in range(f.num_patterns()):
        out.append(frozenset(symbols(f.pattern(k)) - {'pattern'}))
    return out


def discharge(axioms, pc, goal, timeout=10.0, allow_cvc5=True):
    """-> (status, backend, seconds, detail)"""
    t0 = time.time()
    if z3.is_true(goal):
        return 'proved', 'simplifier', 0.0, ''
    fs = list(pc) + [z3.Not(goal)]
    rel = [f for _, f in axioms.relevant(fs)]
    detail = ''
    sl = axioms.slice(pc, goal)
    if sl is not None:
        fs1 = sl + [z3.Not(goal)]
        s = mk_solver(min(timeout, 2.0))
        s.add([f for _, f in axioms.relevant(fs1)])
        s.add(fs1)
        if s.check() == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
    plans = [(False, 0, min(timeout, 4.0)), (False, 7, timeout), (True, 0, min(timeout, 6.0))]
    for n, (mbqi, seed, to) in enumerate(plans):
        if n == 1 and allow_cvc5:
            r, d = cvc5_check(rel, fs, min(timeout, 4.0))
            if r == 'unsat':
                return 'proved', 'cvc5', time.time() - t0, ''
        s = mk_solver(to, mbqi, seed)
        s.add(rel)
        s.add(fs)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3' + ('-mbqi' if mbqi else ''), time.time() - t0, ''
        if r == z3.sat:
            return 'refuted', 'z3', time.time() - t0, 'z3 model:\n' + str(s.model())[:4000]
        detail = 'z3: unknown (%s)' % s.reason_unknown()
    if allow_cvc5:
        r, d = cvc5_check(rel, fs, timeout)
        if r == 'unsat':
            return 'proved', 'cvc5', time.time() - t0, ''
        detail += '; cvc5: ' + r + ' ' + d
    return 'unknown', 'z3+cvc5', time.time() - t0, detail


def cvc5_check(rel, fs, timeout):
    import subprocess
    import tempfile
    import os
    s = z3.Solver()
    s.add(rel)
    s.add(fs)
    txt = '(set-logic ALL)\n' + re.sub(r':qid (\|?)', r':qid \1q__', s.to_smt2())
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 5)
            o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ('error ' + r.stderr.strip()[:200])
            return (o if o in ('sat', 'unsat', 'unknown') else 'error'), (o[:200] if o not in ('sat', 'unsat', 'unknown') else '')
        except subprocess.TimeoutExpired:
            return 'timeout', ''
    finally:
        os.unlink(p)


def consistent(axioms, pcs, timeout=1.5):
    """vacuity guard: at least one of the path conditions is not refutable"""
    for pc in pcs:
        s = mk_solver(timeout)
        s.add([f for _, f in axioms.relevant(pc)])
        s.add(pc)
        if s.check() != z3.unsat:
            return True
    return False
