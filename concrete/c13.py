import random
from collections import Counter
from math import sqrt, log
from lib import *
from aalpy.learning_algs.stochastic_passive.FPTA import create_fpta
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility
from aalpy.learning_algs.stochastic_passive.Alergia import Alergia, run_Alergia

RULE = ('random sets of sampled traces (Markov chain, MDP and stochastic Mealy formats; repeated, empty, nested traces; falsy letters and outputs), random thresholds: the prefix tree compared with the literal counts; '
        'the Hoeffding test compared with the formula in both directions; models learned by Alergia replayed on the data: every transition is taken and has exactly the relative frequency of its use')
LET = [('a', 'b'), ('x', 'y', ''), ('b', 'a', 'c')]
OUTS = [('0', '1'), ('x', '', 'y'), ('p', 'q')]
EPS = (0.005, 0.05, 0.5, 1, 2, 'auto')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(('mc', 'mdp', 'smm'))
        al, outs = rng.choice(LET), rng.choice(OUTS)
        hid = [[rng.choice(range(3)) for _ in range(6)] for _ in range(3)]
        bias = rng.random()
        data = []
        for _ in range(rng.choice([1, 2, 5, 20, 60])):
            t, s = [], 0
            for _ in range(rng.randint(0, 5)):
                a = rng.choice(al)
                o = outs[(s if rng.random() < bias else rng.randrange(9)) % len(outs)]
                t.append((a, o))
                s = hid[s][(al.index(a) * 2 + outs.index(o)) % 6]
            data.append(tuple(t) if kind != 'mc' else tuple(o for _, o in t))
        yield (kind, outs[0], tuple(data), rng.choice(EPS), rng.randrange(10 ** 6))


def nontrivial(case):
    return len(case[2]) > 1 and sum(map(len, case[2])) > 3


def key(case, err):
    return (case[0], str(err)[:25])


def bound(a, b, eps):
    n, m = sum(a.values()), sum(b.values())
    if not n or not m:
        return False
    t = (sqrt(1 / n) + sqrt(1 / m)) * sqrt(.5 * log(2 / eps))
    return any(abs(a.get(o, 0) / n - b.get(o, 0) / m) > t for o in set(a) | set(b))


def check(case):
    kind, init, raw, eps, seed = case
    rng = random.Random(seed)
    data = [list(t) if kind == 'smm' else [init] + list(t) for t in raw]
    snapshot = [list(t) for t in data]
    count = Counter(t[:k] for t in raw for k in range(1, len(t) + 1))
    root = create_fpta(data, kind)
    if data != snapshot:
        return 'create_fpta changed the data'
    if root.output != (None if kind == 'smm' else init) or root.prefix != ():
        return 'root of the prefix tree: %r' % (root.output,)
    todo, seen = [root], {}
    while todo:
        n = todo.pop()
        seen[n.prefix] = n
        if not set(n.children) == set(n.original_children) == set(n.input_frequency) == set(n.original_input_frequency):
            return 'keys of node %r' % (n.prefix,)
        for el, c in n.children.items():
            p = n.prefix + (el,)
            if c is not n.original_children[el] or c.prefix != p or p in seen:
                return 'child %r of %r' % (el, n.prefix)
            if not n.input_frequency[el] == n.original_input_frequency[el] == count[p]:
                return 'trace %r counted %r/%r times instead of %r' % (p, n.input_frequency[el], n.original_input_frequency[el], count[p])
            if c.output != {'mc': el, 'mdp': el[1] if kind != 'mc' else None, 'smm': None}[kind]:
                return 'output of %r is %r' % (p, c.output)
            todo.append(c)
        if kind != 'mc':
            for a in {x[0] for x in n.children} | {'zz'}:
                want = {x[1]: count[n.prefix + (x,)] for x in n.children if x[0] == a}
                if n.get_output_frequencies(a) != want or n.get_original_output_frequencies(a) != want or n.get_input_frequency(a) != sum(want.values()) or n.get_immutable_input_frequency(a) != sum(want.values()):
                    return 'frequencies at %r on %r' % (n.prefix, a)
            if n.get_inputs() != {x[0] for x in n.children} or n.get_immutable_inputs() != {x[0] for x in n.children}:
                return 'inputs at %r' % (n.prefix,)
    if set(seen) != set(count) | {()}:
        return 'prefix tree holds %r instead of %r' % (sorted(map(repr, seen)), sorted(map(repr, count)))
    e = 0.05 if eps == 'auto' else eps
    H = HoeffdingCompatibility(e)
    for _ in range(6):
        ks = ['a', 'b', '', 0]
        a = {k: rng.randint(0, 30) for k in ks if rng.random() < .7}
        b = {k: rng.randint(0, 30) for k in ks if rng.random() < .7}
        if H.hoeffding_bound(dict(a), dict(b)) != bound(a, b, e) or H.hoeffding_bound(b, a) != bound(a, b, e):
            return 'hoeffding_bound(%r, %r), eps %r' % (a, b, e)
    A = Alergia.__new__(Alergia)
    A.automaton_type, A.diff_checker, A.fpta = kind, H, root

    def differ(x, y):
        if not x.original_children or not y.original_children:
            return False
        if kind == 'mc':
            return bound(x.original_input_frequency, y.original_input_frequency, e)
        ins = {i for i, _ in x.original_children} & {i for i, _ in y.original_children}
        f = lambda n, i: {k[1]: v for k, v in n.original_input_frequency.items() if k[0] == i}
        return any(bound(f(x, i), f(y, i), e) for i in ins)

    def compatible(x, y):
        if kind != 'smm' and x.output != y.output:
            return False
        if not x.original_children or not y.original_children:
            return True
        return not differ(x, y) and all(compatible(x.original_children[k], y.original_children[k]) for k in x.original_children if k in y.original_children)

    ns = list(seen.values())
    for _ in range(12):
        x, y = rng.choice(ns), rng.choice(ns)
        if bool(H.are_states_different(x, y)) != differ(x, y):
            return 'are_states_different(%r, %r)' % (x.prefix, y.prefix)
        if A.compatibility_test(x, y) != compatible(x, y) or A.compatibility_test(y, x) != compatible(x, y):
            return 'compatibility_test(%r, %r)' % (x.prefix, y.prefix)
    if eps == 'auto':
        total = sum(len(d) - 1 for d in data)
        if total <= 0 or 10 / total > 2:
            return None
    m = run_Alergia(data, kind, eps)
    if data != snapshot:
        return 'run_Alergia changed the data'
    if len({s.state_id for s in m.states}) != len(m.states) or m.initial_state not in m.states:
        return 'states of the learned model'
    used = Counter()
    for t in raw:
        s = m.initial_state
        if kind != 'smm' and s.output != init:
            return 'initial output'
        for el in t:
            ts = s.transitions if kind == 'mc' else s.transitions[el[0]]
            nxt = [x for x in ts if (x[0].output == (el if kind == 'mc' else el[1]) if kind != 'smm' else x[1] == el[1])]
            if len(nxt) != 1:
                return '%d transitions for %r in the learned model' % (len(nxt), el)
            used[(s.state_id, el)] += 1
            s = nxt[0][0]
    for s in m.states:
        groups = [(None, s.transitions)] if kind == 'mc' else list(s.transitions.items())
        for a, ts in groups:
            if not ts:
                continue
            fs = []
            for x in ts:
                el = x[0].output if kind == 'mc' else (a, x[0].output if kind == 'mdp' else x[1])
                fs.append(used[(s.state_id, el)])
                if x[0] not in m.states:
                    return 'a transition leaves the learned model'
            if abs(sum(x[-1] for x in ts) - 1) > 1e-9:
                return 'probabilities of %s on %r sum to %r' % (s.state_id, a, sum(x[-1] for x in ts))
            for x, f in zip(ts, fs):
                if f == 0 or abs(x[-1] - f / sum(fs)) > 1e-9:
                    return 'probability %r of a transition of %s used %r of %r times' % (x[-1], s.state_id, f, sum(fs))
