import random
from lib import *
from aalpy.automata import (Mdp, MdpState, MarkovChain, McState, StochasticMealyMachine, StochasticMealyState, Onfsm, OnfsmState, NDMooreMachine, NDMooreState)

RULE = ('machines of the five kinds with zero-probability entries, repeated targets and outputs; histories of steps and demanded outputs under chosen random values (including the extreme value 0.0); '
        'reference: the literal transition table')
ND = ('mdp', 'mc', 'smm', 'onfsm', 'ndmoore')
EXTREME = (0.0, 1 - 2 ** -53, 0.5, 2 ** -53, 0.25, 0.1)


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(ND)
        n = rng.randint(1, 5)
        al = rng.choice(ALPHABETS) if kind != 'mc' else ('-',)
        outs = rng.choice([(0, 1), ('x', 'y', ''), (None, 'a', 'b'), ('a',)])
        rows = []
        for i in range(n):
            tr = []
            for a in al:
                if rng.random() < .15:
                    continue
                k = rng.randint(1, 4)
                ws = [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(k)]
                if not sum(ws):
                    ws[rng.randrange(k)] = 1
                tr.append((a, tuple((rng.randrange(n), rng.choice(outs), w / sum(ws)) for w in ws)))
            rows.append((rng.choice(outs), tuple(tr)))
        ops = tuple((rng.choice(['step', 'step', 'to', 'reset', 'set', 'out']), rng.choice(al), rng.choice(outs + ('zz',)), rng.choice(EXTREME + (rng.random(),)), rng.randrange(n)) for _ in range(rng.randint(1, 8)))
        yield (kind, tuple(rows), ops)


def nontrivial(case):
    return len(case[1]) > 1 and len(case[2]) > 1


def build_nd(kind, rows):
    S = {'mdp': MdpState, 'mc': McState, 'ndmoore': NDMooreState}.get(kind)
    ss = [S('s%d' % i, r[0]) if S else {'smm': StochasticMealyState, 'onfsm': OnfsmState}[kind]('s%d' % i) for i, r in enumerate(rows)]
    for s, (o, tr) in zip(ss, rows):
        for a, ts in tr:
            for t, o, p in ts:
                if kind == 'mdp':
                    s.transitions[a].append((ss[t], p))
                elif kind == 'mc':
                    s.transitions.append((ss[t], p))
                elif kind == 'smm':
                    s.transitions[a].append((ss[t], o, p))
                elif kind == 'onfsm':
                    s.add_transition(a, o, ss[t])
                else:
                    s.transitions[a].append(ss[t])
    return {'mdp': Mdp, 'mc': MarkovChain, 'smm': StochasticMealyMachine, 'onfsm': Onfsm, 'ndmoore': NDMooreMachine}[kind](ss[0], list(ss)), ss


def check(case):
    kind, rows, ops = case
    M, ss = build_nd(kind, rows)
    ix = {id(s): i for i, s in enumerate(ss)}
    cur = 0
    real = random.random
    for o, a, out, r, k in ops:
        ts = dict(rows[cur][1]).get(a, ())
        if o == 'reset':
            M.reset_to_initial()
            cur = 0
        elif o == 'set':
            M.current_state = ss[k]
            cur = k
        elif o == 'out':
            if kind == 'onfsm':
                g = M.outputs_on_input(a)
                if sorted(map(repr, g)) != sorted(repr(t[1]) for t in ts):
                    return 'outputs_on_input(%r) = %r, recorded: %r' % (a, g, ts)
            if kind == 'mdp':
                if M.step(None) != rows[cur][0]:
                    return 'step(None) does not return the output of the state'
        elif o == 'to' and kind != 'ndmoore':
            lab = [t[1] if kind in ('smm', 'onfsm') else rows[t[0]][0] for t in ts]
            g = M.step_to(out) if kind == 'mc' else M.step_to(a, out)
            hit = [t[0] for t, l in zip(ts, lab) if l == out]
            if hit:
                if g != out or ix.get(id(M.current_state)) not in hit:
                    return 'step_to(%r, %r) from %d returned %r in state %r, candidates %r' % (a, out, cur, g, ix.get(id(M.current_state)), hit)
                cur = ix[id(M.current_state)]
            elif g is not None or ix.get(id(M.current_state)) != cur:
                return 'step_to(%r, %r) from %d returned %r in state %r, but there is no such transition' % (a, out, cur, g, ix.get(id(M.current_state)))
        elif o == 'step':
            if not ts and kind != 'mc':
                continue
            random.seed(hash((a, cur, k)) if False else (k * 7 + cur))
            random.random = lambda: r
            inst = random._inst
            saved = inst.random if 'random' in vars(inst) else None
            random.choices, oc = (lambda *x, **y: _choices(r, *x, **y)), random.choices
            try:
                g = M.step() if kind == 'mc' else M.step(a)
            finally:
                random.random, random.choices = real, oc
            now = ix.get(id(M.current_state))
            if not ts:
                if now != cur or g != rows[cur][0]:
                    return 'step in an absorbing state moved to %r, output %r' % (now, g)
                continue
            ok = [t for t in ts if t[0] == now and (kind in ('onfsm', 'ndmoore') or t[2] > 0) and (t[1] if kind in ('smm', 'onfsm') else rows[t[0]][0]) == g]
            if not ok:
                return 'step(%r) from %d went to %r with output %r (random value %r); recorded: %r' % (a, cur, now, g, r, ts)
            cur = now
    for s, (o, tr) in zip(ss, rows):
        got = {a: list(v) for a, v in s.transitions.items() if v} if kind != 'mc' else {'-': list(s.transitions)} if s.transitions else {}
        want = {a: [(ss[t], p) if kind in ('mdp', 'mc') else (ss[t], x, p) if kind == 'smm' else (x, ss[t]) if kind == 'onfsm' else ss[t] for t, x, p in ts] for a, ts in tr}
        if got != want:
            return 'the transitions were altered'
    return None


def _choices(r, population, weights=None, *, cum_weights=None, k=1):
    """random.choices with a chosen random value"""
    x = random.Random(0)
    x.random = lambda: r
    return x.choices(population, weights, cum_weights=cum_weights, k=k)
