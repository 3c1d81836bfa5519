import random
from collections import Counter
from lib import *
from c21 import build_nd
from c16 import nd_rows
from aalpy.base import SUL
from aalpy.learning_algs.non_deterministic.TraceTree import TraceTree
from aalpy.learning_algs.non_deterministic.NonDeterministicSULWrapper import NonDeterministicSULWrapper
from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher, Node as TNode
from aalpy.automata import Onfsm, OnfsmState

RULE = ('random sets of sampled traces (repeated, nested, falsy letters and outputs) recorded through the wrapper of the non-deterministic learner and through the stochastic teacher, followed by tree queries on random prefix trees; '
        'every count, frequency, list of continuations, distribution and counterexample compared with the literal multiset of traces')
LET = [('a', 'b'), (0, 1), ('', 'a'), (None, 'x')]
OUTS = [(0, 1), ('x', '', 2), (False, 'y')]


class Script(SUL):
    """outputs are read from a script, so every trace can be demanded"""

    def __init__(self, initial):
        super().__init__()
        self.initial, self.word, self.k = initial, (), 0
        self.log = []

    def pre(self):
        self.k = 0

    def post(self):
        pass

    def step(self, a):
        if a is None and self.initial is not None and self.k == 0 and not self.word:
            return self.initial
        o = self.word[self.k % len(self.word)] if self.word else self.initial
        self.k += 1
        self.log.append((a, o))
        return o


def cases(ctx):
    rng = ctx.rng
    while True:
        al, outs = rng.choice(LET), rng.choice(OUTS)
        def tr(n):
            k = rng.randint(0, n)
            return tuple((rng.choice(al), rng.choice(outs)) for _ in range(k))
        base = [tr(4) for _ in range(rng.randint(1, 4))]
        traces = []
        for _ in range(rng.randint(1, 9)):
            b = rng.choice(base)
            traces.append(b[:rng.randint(0, len(b))] + (tr(2) if rng.random() < .4 else ()))
        pta = tuple(tr(3) for _ in range(rng.randint(0, 4)))
        yield (rng.choice(['trace', 'mdp', 'smm']), al, outs, tuple(traces), pta, rng.randint(1, 3), rng.randrange(10 ** 6))


def nontrivial(case):
    return len(case[3]) > 1 and any(len(t) > 1 for t in case[3])


def key(case, err):
    return (case[0], str(err)[:25])


def words_io(al, outs, n):
    from itertools import product
    pairs = [(a, o) for a in al for o in outs]
    for k in range(n + 1):
        yield from product(pairs, repeat=k)


def check(case):
    return check_trace(case) if case[0] == 'trace' else check_teacher(case)


def check_trace(case):
    _, al, outs, traces, pta, _, seed = case
    sul = Script(None)
    W = NonDeterministicSULWrapper(sul)
    count = Counter()
    half = len(traces) // 2
    for n, t in enumerate(traces):
        if n < half:
            sul.word = tuple(o for _, o in t)
            W.pre()
            for a, o in t:
                if W.step(a) != o:
                    return 'the wrapper changed an output'
            W.post()
        else:
            W.cache.add_trace([a for a, _ in t], [o for _, o in t])
        for k in range(1, len(t) + 1):
            count[t[:k]] += 1
    T = W.cache
    for w in words_io(al, outs, 3):
        i, o = tuple(a for a, _ in w), tuple(b for _, b in w)
        n = T.get_to_node(i, o)
        if (n is not None) != (not w or w in count):
            return 'get_to_node: trace %r known: %r' % (w, n is not None)
        if n is not None and w and n.frequency_counter != count[w]:
            return 'trace %r counted %r times instead of %r' % (w, n.frequency_counter, count[w])
        if n is not None and tuple(n.get_prefix()) != o:
            return 'get_prefix of %r is %r' % (w, n.get_prefix())
        for e in words(al, 2):
            if not e:
                continue
            cont = {tuple(b for _, b in t[len(w):]): c for t, c in count.items() if t[:len(w)] == w and tuple(a for a, _ in t[len(w):]) == e}
            got = T.get_all_traces((i, o), e)
            if sorted(map(repr, got)) != sorted(map(repr, cont)):
                return 'get_all_traces(%r, %r) = %r instead of %r' % (w, e, got, list(cont))
            if T.get_s_e_sampling_frequency((i, o), e) != sum(cont.values()):
                return 'sampling frequency of %r, %r' % (w, e)
            if T.get_table([(i, o)], [e]) != {(i, o): {e: got}}:
                return 'get_table of %r, %r' % (w, e)
        if n is not None:
            for a in al:
                c = {t[-1][1]: k for t, k in count.items() if t[:-1] == w and t[-1][0] == a}
                d = T.get_sampling_distributions((i, o), a)
                if set(d) != set(c) or any(abs(d[x] - c[x] / sum(c.values())) > 1e-12 for x in c):
                    return 'sampling distribution after %r on %r: %r instead of %r' % (w, a, d, c)
    # a hypothesis that misses some of the traces
    rng = random.Random(seed)
    ss = [OnfsmState('s%d' % k) for k in range(rng.randint(1, 3))]
    for s in ss:
        for a in al:
            for o in outs:
                if rng.random() < .75:
                    s.add_transition(a, o, rng.choice(ss))
    h = Onfsm(ss[0], ss)
    def can(t):
        s = ss[0]
        for a, o in t:
            s = next((x for y, x in s.transitions[a] if y == o), None)
            if s is None:
                return False
        return True
    bad = {t for t in count if not can(t)}
    got = T.find_cex_in_cache(h)
    if got is None:
        if bad:
            return 'find_cex_in_cache found nothing, %r is recorded' % (min(bad, key=len),)
    else:
        g = tuple(zip(got[0], got[1]))
        if g not in bad or len(g) != min(map(len, bad)):
            return 'find_cex_in_cache returned %r' % (g,)


def build_pta(pta, freqs, root_out):
    root = TNode(root_out)
    for t in pta:
        n = root
        for a, o in t:
            n.input_frequencies[a] += 1
            if o not in n.children[a]:
                n.children[a][o] = TNode(o)
            n = n.children[a][o]
            n.frequency += 1
    return root


def flat(root):
    """{trace: (frequency, {input: count})} of a tree"""
    out = {}
    todo = [((), root)]
    while todo:
        w, n = todo.pop()
        out[w] = (n.frequency, {a: c for a, c in n.input_frequencies.items() if c})
        for a, d in n.children.items():
            for o, c in d.items():
                if c.output != o:
                    return 'a node under %r holds output %r' % (o, c.output)
                todo.append((w + ((a, o),), c))
    return out


def check_teacher(case):
    kind, al, outs, traces, pta, n_c, seed = case
    rng = random.Random(seed)
    init = outs[0] if kind == 'mdp' else None
    sul = Script(init)
    T = StochasticTeacher(sul, n_c, None, kind, None)
    S = T.sul
    count, ins = Counter(), Counter()

    def record(t):
        for k in range(len(t)):
            count[t[:k + 1]] += 1
            ins[(t[:k], t[k][0])] += 1

    def compare(when):
        f = flat(T.root_node)
        if isinstance(f, str):
            return f
        if set(f) != set(count) | {()}:
            return 'traces of the teacher %s: %r instead of %r' % (when, sorted(map(repr, f)), sorted(map(repr, count)))
        for w, (c, i) in f.items():
            if w and c != count[w]:
                return 'trace %r counted %r times instead of %r %s' % (w, c, count[w], when)
            want = {a: k for (v, a), k in ins.items() if v == w}
            if i != want:
                return 'inputs after %r: %r instead of %r %s' % (w, i, want, when)

    def key_(w):
        s = (init,) if kind == 'mdp' else ()
        for a, o in w:
            s += (a, o)
        return s

    def queries(when):
        for w in words_io(al, outs, 2):
            for a in al:
                for cut in {0, len(w)}:
                    s = key_(w[:cut])
                    e = sum(w[cut:], ()) + (a,)
                    want = {t[-1][1]: c for t, c in count.items() if t[:-1] == w and t[-1][0] == a}
                    got = T.frequency_query(s, e)
                    if got != want:
                        return 'frequency_query(%r, %r) = %r instead of %r %s' % (s, e, got, want, when)
                    k = 0
                    while k < len(w) and w[:k + 1] in count:
                        k += 1
                    want = ins[(w[:k], w[k][0] if k < len(w) else a)] >= n_c
                    if bool(T.complete_query(s, e)) != want:
                        return 'complete_query(%r, %r) is %r %s' % (s, e, not want, when)

    for t in traces:
        sul.word = tuple(o for _, o in t)
        S.pre()
        for a, o in t:
            if S.step(a) != o:
                return 'the teacher changed an output'
        S.post()
        record(t)
        if rng.random() < .3:
            r = queries('between samples')
            if r:
                return r
    r = compare('after sampling') or queries('after sampling')
    if r:
        return r
    for _ in range(3):
        root = build_pta(pta, None, init)
        before = flat(root)
        sul.word = tuple(rng.choice(outs) for _ in range(5))
        sul.log = []
        T.tree_query(root)
        t = tuple(sul.log)
        record(t)
        r = compare('after a tree query that executed %r' % (t,)) or queries('after a tree query')
        if r:
            return r
        after = flat(root)
        finished = t in before
        for w, (c, i) in before.items():
            dec = t[len(w)][0] if finished and len(w) < len(t) and t[:len(w)] == w else None
            for a in al:
                want = i.get(a, 0)
                if finished and len(w) < len(t) and t[:len(w)] == w and a == dec:
                    want = max(want - 1, 0)
                if after[w][1].get(a, 0) != want or after[w][0] != c:
                    return 'the prefix tree after executing %r: %r at %r' % (t, after[w], w)
        if set(after) != set(before):
            return 'a tree query added nodes to the prefix tree'
