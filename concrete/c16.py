import copy
import random
from lib import *
from c21 import build_nd
from aalpy.automata import Dfa, MarkovChain, Mdp
from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
from aalpy.utils.HelperFunctions import make_input_complete, dfa_from_moore, mc_from_mdp

RULE = ('make_input_complete in both modes on partial machines of the seven kinds against the literal table; Moore to DFA, MDP to Markov chain and stochastic Mealy to MDP conversions against '
        'word-by-word execution and trace distributions of the literal machine up to length 4')
ND = ('mdp', 'smm', 'onfsm', 'ndmoore')


def nd_rows(rng, n, al, outs):
    rows = []
    for i in range(n):
        tr = []
        for a in al:
            if rng.random() < .3:
                continue
            k = rng.randint(1, 3)
            seen, ts = set(), []
            for _ in range(k):
                t = (rng.randrange(n), rng.choice(outs))
                if t not in seen:
                    seen.add(t)
                    ts.append(t)
            ws = [rng.choice([1, 2, 3]) for _ in ts]
            tr.append((a, tuple(t + (w / sum(ws),) for t, w in zip(ts, ws))))
        rows.append((rng.choice(outs), tuple(tr)))
    return tuple(rows)


def cases(ctx):
    rng = ctx.rng
    while True:
        al = rng.choice(ALPHABETS)
        n = rng.randint(1, 5)
        mode = rng.choice(['self_loop', 'sink_state'])
        what = rng.choice(['det', 'det', 'nd', 'nd', 'dfa', 'mc', 'smm', 'smm'])
        if what == 'det':
            yield ('det', mode, rand_machine(rng, rng.choice(KINDS), n, al, complete=False))
        elif what == 'nd':
            yield ('nd', mode, (rng.choice(ND), nd_rows(rng, n, al, rng.choice([(0, 1), ('x', '', None), ('epsilon', 'sink_state')]))))
        elif what == 'dfa':
            yield ('dfa', None, rand_machine(rng, 'moore', n, al, outs=rng.choice([(True, False), (True, False, None), (0, 1)]), complete=rng.random() < .5))
        elif what == 'mc':
            one = (rng.choice(al),) if rng.random() < .5 else al
            yield ('mc', rng.choice(one) if len(one) > 1 or rng.random() < .5 else None, ('mdp', nd_rows(rng, n, one, (0, 1, 'x'))))
        else:
            yield ('smm', None, ('smm', nd_rows(rng, n, al, rng.choice([('x', 'y', ''), (0, None), ('a',), (0, '0', 'None', None), (1, '1')]))))


def nontrivial(case):
    return len(case[2][-1]) > 1


def _dist(step, s, w):
    """distribution over (outputs...) of a word from a state; step(s, a) = [(next, out, p)]"""
    d = {((), s): 1.0}
    for a in w:
        e = {}
        for (o, x), p in d.items():
            for y, out, q in step(x, a):
                k = (o + (repr(out),), y)
                e[k] = e.get(k, 0) + p * q
        d = e
    r = {}
    for (o, x), p in d.items():
        r[o] = r.get(o, 0) + p
    return {k: round(v, 9) for k, v in r.items() if v > 1e-12}


def _complete_check(kind, M, ss, before, al, mode, mk, eps):
    full = all(set(b) == set(al) for b in before)
    R = make_input_complete(M, mode)
    if R is not M:
        return 'another machine was returned'
    want_states = list(ss)
    sink = None
    if not full and mode == 'sink_state':
        if len(M.states) != len(ss) + 1:
            return 'expected one sink state, the machine now has %d states (before: %d)' % (len(M.states), len(ss))
        sink = M.states[-1]
        want_states.append(sink)
    if [id(x) for x in M.states] != [id(x) for x in want_states]:
        return 'the states of the machine changed'
    if M.initial_state is not ss[0] and kind in ND:
        return 'the initial state changed'
    for s, b in zip(want_states, before + [{}]):
        t = {} if s is not sink else None
        for a in al:
            want = b[a] if a in b else mk(sink if mode == 'sink_state' else s)
            if a not in s.transitions or (s.transitions[a] if kind in KINDS else list(s.transitions[a])) != want:
                return 'transition %r of state %r is %r, expected %r' % (a, s.state_id, s.transitions.get(a), want)
            if kind == 'mealy' and s.output_fun.get(a) != (eps[id(s)][a] if id(s) in eps and a in eps[id(s)] else 'epsilon'):
                return 'output of %r in state %r is %r' % (a, s.state_id, s.output_fun.get(a))
        if set(s.transitions) != set(al):
            return 'the state %r has transitions for %r, the alphabet is %r' % (s.state_id, list(s.transitions), al)
    if sink is not None:
        lab = {'dfa': 'is_accepting', 'moore': 'output', 'mdp': 'output', 'ndmoore': 'output'}.get(kind)
        if lab and getattr(sink, lab) != (False if kind == 'dfa' else 'sink_state'):
            return 'the label of the sink state is %r' % (getattr(sink, lab),)
    return None


def check(case):
    what, par, m = case
    if what == 'det':
        M, ss = build(m)
        before = [dict(s.transitions) for s in ss]
        labs = [m_label(m, i) for i in range(len(ss))]
        eps = {id(s): dict(s.output_fun) for s in ss} if m[0] == 'mealy' else {}
        e = _complete_check(m[0], M, ss, before, m_alphabet(m), par, lambda t: t, eps)
        if e:
            return e
        if M.initial_state is not ss[m[1]] or m[0] != 'mealy' and [s.output for s in ss] != labs:
            return 'initial state or labels changed'
        return None
    if what == 'nd':
        kind, rows = m
        M, ss = build_nd(kind, rows)
        before = [{a: list(v) for a, v in s.transitions.items()} for s in ss]
        al = []
        for r in rows:
            for a, _ in r[1]:
                if a not in al:
                    al.append(a)
        mk = {'mdp': lambda t: [(t, 1.0)], 'smm': lambda t: [(t, 'epsilon', 1.0)], 'onfsm': lambda t: [('epsilon', t)], 'ndmoore': lambda t: [t]}[kind]
        return _complete_check(kind, M, ss, before, al, par, mk, {})
    if what == 'dfa':
        M, ss = build(m)
        D = dfa_from_moore(M)
        if not isinstance(D, Dfa) or len(D.states) != len(ss):
            return 'not a DFA with the same number of states'
        for w in words(m_alphabet(m), 4):
            s, d = m[1], D.initial_state
            for a in w:
                s = m_next(m, s, a)
                d = d.transitions.get(a)
                if (s is None) != (d is None):
                    return 'word %r is defined in one machine only' % (w,)
                if s is None:
                    break
            if s is not None:
                want = m_label(m, s)
                if d.is_accepting != (False if want is None else want) or d not in D.states:
                    return 'word %r: Moore output %r, DFA answer %r' % (w, want, d.is_accepting)
        return None
    kind, rows = m
    M, ss = build_nd(kind, rows)
    al = []
    for r in rows:
        for a, _ in r[1]:
            if a not in al:
                al.append(a)
    if what == 'mc':
        sym = par
        if sym is None:
            if len(al) != 1:
                try:
                    mc_from_mdp(M)
                except ValueError:
                    return None
                return 'an MDP with %d inputs was converted without naming one' % len(al)
            sym = al[0]
        elif not al:
            return None
        C = mc_from_mdp(M, par)
        if not isinstance(C, MarkovChain) or len(C.states) != len(ss):
            return 'not a Markov chain with the same number of states'
        mp = {s.state_id: s for s in C.states}
        for s, (o, tr) in zip(ss, rows):
            c = mp[s.state_id]
            want = [(mp[ss[t].state_id], p) for t, _, p in dict(tr).get(sym, ())]
            if c.output != o or list(c.transitions) != want:
                return 'state %r: output %r, transitions %r; expected %r, %r' % (s.state_id, c.output, c.transitions, o, want)
        return None if C.initial_state is mp[ss[0].state_id] else 'initial state'
    D = smm_to_mdp_conversion(M)
    if not isinstance(D, Mdp) or D.initial_state not in D.states:
        return 'not an MDP'

    seen = [D.initial_state]
    for x in seen:
        for ts in x.transitions.values():
            seen += [t for t, _ in ts if not any(t is y for y in seen)]
    if any(not any(x is y for y in D.states) for x in seen) or len({id(x) for x in D.states}) != len(D.states):
        return 'a state of the MDP is missing from its list of states, or occurs twice'

    def st1(i, a):
        return dict(rows[i][1]).get(a, ())

    def st2(s, a):
        return [(t, t.output, p) for t, p in s.transitions.get(a, ())] if True else None
    for w in words(al, 3):
        a, b = _dist(st1, 0, w), _dist(st2, D.initial_state, w)
        if a != b:
            return 'the distribution of the outputs of %r is %r in the stochastic Mealy machine and %r in the MDP' % (w, a, b)
    return None
