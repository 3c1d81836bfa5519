import random
from lib import *
from aalpy.base import SUL
from aalpy.learning_algs.deterministic.ObservationTree import ObservationTree
from aalpy.learning_algs.deterministic.Apartness import Apartness

RULE = ('random machines of every deterministic kind, random observation words inserted into a real ObservationTree; every word up to length 4 looked up, '
        'every pair of tree nodes tested for apartness and every witness compared with a reference on the literal set of observations; also against random hypotheses; contradictory words inserted')
OUTS = [(0, 1), ('x', '', 2), (False, True)]


def cases(ctx):
    rng = ctx.rng
    while True:
        al = rng.choice(ALPHABETS)
        kind = rng.choice(KINDS)
        outs = (False, True) if kind == 'dfa' else rng.choice(OUTS)
        m = rand_machine(rng, kind, rng.randint(1, 4), al, outs=outs)
        ws = tuple(rand_word(rng, al, 5) for _ in range(rng.randint(1, 5)))
        h = rand_machine(rng, kind, rng.randint(1, 4), al, outs=outs)
        bad = None
        if rng.random() < .4:
            w = rng.choice(ws)
            if w:
                i = rng.randrange(len(w))
                bad = (w, i)
        yield (m, al, ws, h, bad, rng.randrange(10 ** 6))


def nontrivial(case):
    return sum(len(w) for w in case[2]) > 4


def key(case, err):
    return (case[0][0], str(err)[:25])


class S(SUL):
    def __init__(self, m):
        super().__init__()
        self.m = m

    def pre(self): self.s = self.m[1]
    def post(self): pass

    def step(self, a):
        o = m_out(self.m, self.s, a)
        if a is not None:
            self.s = m_next(self.m, self.s, a)
        return o


def check(case):
    m, al, ws, hm, bad, seed = case
    rng = random.Random(seed)
    al = list(al)
    kind = m[0]
    t = ObservationTree(al, S(m), kind, None, 'SepSeq')
    known = {(): m_label(m, m[1]) if kind != 'mealy' else None}
    for w in ws:
        o, _ = m_run(m, m[1], w)
        t.insert_observation(list(w) if rng.random() < .5 else tuple(w), o)
        for i in range(len(w)):
            known[w[:i + 1]] = o[i]
        for _ in range(3):
            t.get_or_compute_witness(t.get_successor(rng.choice(list(known))), t.get_successor(rng.choice(list(known))))
    if bad:
        w, i = bad
        o, _ = m_run(m, m[1], w)
        o = list(o)
        o[i] = 'other'
        try:
            t.insert_observation(list(w), o)
            return 'contradicting observation %r -> %r accepted' % (w, o)
        except Exception as e:
            if type(e) is not Exception:
                return 'contradicting observation: %r' % (e,)
    try:
        t.insert_observation(al[:1], [])
        return 'lengths differ but accepted'
    except ValueError:
        pass
    for w in words(al, 4):
        exp = [known[w[:i + 1]] for i in range(len(w))] if w in known else None
        got = t.get_observation(list(w))
        if got != exp or [type(x) for x in got or ()] != [type(x) for x in exp or ()]:
            return 'get_observation(%r) = %r, recorded %r' % (w, got, exp)
        n = t.get_successor(w)
        if (n is None) != (w not in known):
            return 'get_successor(%r) is %r' % (w, n)
        if n is not None:
            if t.get_transfer_sequence(t.root, n) != list(w) or t.get_access_sequence(n) != w:
                return 'access sequence of the node of %r: %r %r' % (w, t.get_transfer_sequence(t.root, n), t.get_access_sequence(n))
    ns = sorted(known, key=lambda w: (len(w), repr(w)))
    if len(ns) > 12:
        ns = rng.sample(ns, 12)
    for u in ns:
        for v in ns:
            diff = [x[len(u):] for x in known if x[:len(u)] == u and (v + x[len(u):]) in known and (kind != 'mealy' or len(x) > len(u)) and known[x] != known[v + x[len(u):]]]
            a, b = t.get_successor(u), t.get_successor(v)
            ap = Apartness.states_are_apart(a, b, t)
            if ap != bool(diff):
                return 'nodes of %r and %r: states_are_apart = %r, differing continuations %r' % (u, v, ap, diff)
            for wit in (Apartness.compute_witness(a, b, t), t.get_or_compute_witness(a, b)):
                if (wit is not None) != bool(diff) or (wit is not None and tuple(wit) not in diff):
                    return 'nodes of %r and %r: witness %r, differing continuations %r' % (u, v, wit, diff)
        x = t.get_outputs(t.get_successor(u), [])
        if x != []:
            return 'get_outputs of no inputs %r' % (x,)
        for w in list(words(al, 2)):
            exp = [known[u + w[:i + 1]] for i in range(len(w))] if u + w in known else None
            got = t.get_outputs(t.get_successor(u), list(w))
            if got != exp:
                return 'get_outputs(node of %r, %r) = %r, recorded %r' % (u, w, got, exp)
    H, hs = build(hm)
    for u in ns[:6]:
        for i, s in enumerate(hs):
            diff = []
            for x in known:
                if x[:len(u)] == u:
                    w = x[len(u):]
                    if w:
                        o, _ = m_run(hm, i, w)
                        if o[-1] != known[x]:
                            diff.append(w)
                    elif kind != 'mealy' and m_label(hm, i) != known[x]:
                        diff.append(w)
            r = Apartness.compute_witness_in_tree_and_hypothesis_states(t, t.get_successor(u), s)
            if (r is not None) != bool(diff) or (r is not None and tuple(r) not in diff):
                return 'node of %r against hypothesis state %d: witness %r, differing words %r' % (u, i, r, diff)
    return None
