import random
from lib import *
from c16 import nd_rows
from c21 import build_nd
from aalpy.SULs import AutomatonSUL
from aalpy.base import SUL
from aalpy.base.SUL import CacheSUL
from aalpy.oracles import (RandomWalkEqOracle, RandomWordEqOracle, BreadthFirstExplorationEqOracle, WMethodEqOracle, RandomWMethodEqOracle, StatePrefixEqOracle, TransitionFocusOracle,
                           KWayStateCoverageEqOracle, KWayTransitionCoverageEqOracle, CacheBasedEqOracle, PacOracle, ProvidedSequencesOracleWrapper, WpMethodEqOracle, RandomWpMethodEqOracle, PerfectKnowledgeEqOracle)

RULE = ('every equivalence oracle, with small random parameters, asked repeatedly about complete hypotheses (equal to the system, a mutant of it, or unrelated; deterministic ones, and stochastic and non-deterministic ones for the random oracles); '
        'every call on the system and the hypothesis is recorded and compared test by test; the word returned is replayed on the literal tables')
DET = ('walk', 'word', 'bfe', 'w', 'rw', 'sp', 'tf', 'ks', 'kt', 'ktp', 'cache', 'pac', 'prov', 'wp', 'rwp', 'perfect')


def cases(ctx):
    rng = ctx.rng
    while True:
        al = rng.choice(ALPHABETS)
        n = rng.randint(1, 4)
        if rng.random() < .2:
            kind = rng.choice(['onfsm', 'mdp', 'smm'])
            outs = rng.choice([(0, 1), ('x', '', 2)])
            yield (rng.choice(['walk', 'word']), (kind, full(nd_rows(rng, n, al, outs), al, rng, outs)), (kind, full(nd_rows(rng, rng.randint(1, 3), al, outs), al, rng, outs)), al, rng.randrange(10 ** 6), rng.randint(1, 3))
            continue
        kind = rng.choice(KINDS)
        m = rand_machine(rng, kind, n, al)
        h = rng.random()
        if h < .35:
            hyp = m
        elif h < .8:
            rows = [list(r) for r in m[2]]
            i = rng.randrange(n)
            if kind == 'mealy':
                tr = list(rows[i][1])
                j = rng.randrange(len(tr))
                tr[j] = (tr[j][0], rng.randrange(n), rng.choice((0, 1, 'x')))
                rows[i][1] = tuple(tr)
            elif rng.random() < .5:
                rows[i][0] = rng.choice((False, True) if kind == 'dfa' else (0, 1, 'x'))
            else:
                tr = list(rows[i][1])
                j = rng.randrange(len(tr))
                tr[j] = (tr[j][0], rng.randrange(n))
                rows[i][1] = tuple(tr)
            hyp = (kind, m[1], tuple(tuple(r) for r in rows))
        else:
            hyp = rand_machine(rng, kind, rng.randint(1, 4), al)
        yield (rng.choice(DET), m, hyp, al, rng.randrange(10 ** 6), rng.randint(1, 3))


def full(rows, al, rng, outs):
    """every state answers every letter"""
    r = []
    for lab, tr in rows:
        have = {repr(a) for a, _ in tr}
        r.append((lab, tr + tuple((a, ((rng.randrange(len(rows)), rng.choice(outs), 1.0),)) for a in al if repr(a) not in have)))
    return tuple(r)


def nontrivial(case):
    return case[1] != case[2]


def key(case, err):
    return (case[0], str(err)[:25])


class Log(SUL):
    def __init__(self, M, log):
        super().__init__()
        self.M, self.log = M, log

    def pre(self):
        self.log.append(('pre',))
        self.M.reset_to_initial()

    def post(self):
        self.log.append(('post',))

    def step(self, letter):
        o = self.M.step(letter)
        self.log.append(('sul', letter, o))
        return o


def watch(H, log):
    reset, step = H.reset_to_initial, H.step

    def r():
        log.append(('hreset',))
        return reset()

    def s(a):
        o = step(a)
        log.append(('hyp', a, o))
        return o
    H.reset_to_initial, H.step = r, s
    if hasattr(H, 'step_to'):
        to = H.step_to

        def t(a, x):
            o = to(a, x)
            log.append(('to', a, x, o))
            return o
        H.step_to = t


def reach(m):
    """only the reachable part, as a learner builds it"""
    d = m_dist(m, m[1])
    keep = sorted(d, key=lambda s: s)
    ix = {s: i for i, s in enumerate(keep)}
    return (m[0], ix[m[1]], tuple((m[2][s][0], tuple((t[0], ix[t[1]]) + tuple(t[2:]) for t in m[2][s][1])) for s in keep))


def oracle(name, al, sul, rng, model):
    al = list(al)
    if name == 'walk': return RandomWalkEqOracle(al, sul, num_steps=rng.randint(1, 60), reset_after_cex=rng.random() < .5, reset_prob=rng.choice([0.05, .3, 1]))
    if name == 'word': return RandomWordEqOracle(al, sul, num_walks=rng.randint(1, 20), min_walk_len=rng.randint(0, 3), max_walk_len=rng.randint(3, 9), reset_after_cex=rng.random() < .5)
    if name == 'bfe': return BreadthFirstExplorationEqOracle(al, sul, depth=rng.randint(1, 4))
    if name == 'w': return WMethodEqOracle(al, sul, rng.randint(1, 5), shuffle_test_set=False)
    if name == 'rw': return RandomWMethodEqOracle(al, sul, walks_per_state=rng.randint(1, 5), walk_len=rng.randint(1, 6))
    if name == 'sp': return StatePrefixEqOracle(al, sul, walks_per_state=rng.randint(1, 5), walk_len=rng.randint(1, 6), max_tests=rng.choice([None, 1, 5]), depth_first=rng.random() < .5)
    if name == 'tf': return TransitionFocusOracle(al, sul, num_random_walks=rng.randint(1, 20), walk_len=rng.randint(1, 8), same_state_prob=rng.choice([0, .2, 1]))
    if name == 'ks': return KWayStateCoverageEqOracle(al, sul, k=2, random_walk_len=rng.randint(1, 6), method=rng.choice(['permutations', 'combinations']))
    if name == 'kt': return KWayTransitionCoverageEqOracle(al, sul, k=2, method='random', num_generate_paths=rng.randint(1, 20), max_path_len=rng.randint(2, 8), optimize=rng.choice(['steps', 'queries']))
    if name == 'ktp': return KWayTransitionCoverageEqOracle(al, sul, k=2, method='prefix', random_walk_len=rng.randint(0, 4))
    if name == 'cache': return CacheBasedEqOracle(al, sul, num_walks=rng.randint(1, 15), depth_increase=rng.randint(1, 5), reset_after_cex=rng.random() < .5)
    if name == 'pac': return PacOracle(al, sul, epsilon=.5, delta=.5, min_walk_len=rng.randint(0, 2), max_walk_len=rng.randint(2, 6))
    if name == 'wp': return WpMethodEqOracle(al, sul, rng.randint(1, 5))
    if name == 'rwp': return RandomWpMethodEqOracle(al, sul, min_length=rng.randint(0, 2), expected_length=rng.randint(0, 4), num_tests=rng.randint(1, 25))
    if name == 'perfect': return PerfectKnowledgeEqOracle(al, sul, model)
    if name == 'prov':
        inner = BreadthFirstExplorationEqOracle(al, sul, depth=2)
        return ProvidedSequencesOracleWrapper(al, sul, inner, [[rng.choice(al) for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(0, 4))])


def check(case):
    name, m, h, al, seed, rounds = case
    random.seed(seed)
    rng = random.Random(seed + 1)
    if m[0] in ('onfsm', 'mdp', 'smm'):
        return check_nd(case, rng)
    m, h = reach(m), reach(h)
    M, _ = build(m, prefixes=True)
    H, _ = build(h, prefixes=True)
    log = []
    base = Log(M, log)
    sul = base
    if name == 'cache':
        sul = CacheSUL(base)
        for _ in range(rng.randint(1, 4)):
            sul.query(tuple(rng.choice(al) for _ in range(rng.randint(1, 4))))
    o = oracle(name, al, sul, rng, build(m, prefixes=True)[0])
    watch(H, log)
    for _ in range(rounds):
        del log[:]
        st, q = o.num_steps, o.num_queries
        if name == 'prov':
            st, q = o.num_steps + o.oracle.num_steps, o.num_queries + o.oracle.num_queries
        before = [(s.state_id, dict(s.transitions)) for s in H.states]
        c = o.find_cex(H)
        st2, q2 = o.num_steps, o.num_queries
        if name == 'prov' and c is not None:
            st2, q2 = o.num_steps + o.oracle.num_steps, o.num_queries + o.oracle.num_queries
        if c is not None:
            w = tuple(c)
            if name == 'perfect' and not w:
                if m_label(m, m[1]) == m_label(h, h[1]):
                    return 'the empty counterexample although the initial states agree'
                continue
            if not w or any(a not in al for a in w):
                return 'the counterexample %r is not a word over the alphabet' % (c,)
            a, b = m_run(m, m[1], w)[0], m_run(h, h[1], w)[0]
            if a[-1] == b[-1]:
                return 'the counterexample %r ends in the same answer %r in system and hypothesis' % (c, a[-1])
            if name not in ('sp', 'cache') and a[:-1] != b[:-1]:
                return 'the counterexample %r: the answers %r and %r differ before the last input' % (c, a, b)
        if name == 'perfect':
            if (c is None) != (m_diff(m, h) is None):
                return 'the perfect oracle says %r' % (c,)
            continue
        if sorted((s.state_id, repr(sorted((repr(a), t.state_id) for a, t in s.transitions.items()))) for s in H.states) != sorted((i, repr(sorted((repr(a), t.state_id) for a, t in tr.items()))) for i, tr in before):
            return 'the hypothesis was changed'
        # every test: both reset, the same inputs on both
        tests = tests_of(log)
        if isinstance(tests, str):
            return tests
        steps = sum(len(t) for t in tests)
        if st2 - st != steps:
            return 'the step counter grew by %d, %d inputs were executed' % (st2 - st, steps)
        if q2 - q != len(tests):
            return 'the query counter grew by %d, %d tests were executed' % (q2 - q, len(tests))
        if c is not None and (not tests or tuple(tests[-1]) != tuple(c)):
            return 'the counterexample %r is not the last test %r' % (c, tests[-1:])
        if c is not None and log[-1] != ('post',):
            return 'no post() after the counterexample'
        if len([e for e in log if e[0] == 'post']) != len(tests) + (c is not None):
            return '%d post() calls for %d tests' % (len([e for e in log if e[0] == 'post']), len(tests))
    return None


def tests_of(log):
    """the tests in the log of calls, or an error"""
    out = []
    pos = [i for i, e in enumerate(log) if e[0] == 'pre']
    if any(e[0] == 'sul' for e in log[:pos[0] if pos else len(log)]):
        return 'the system was used before it was reset'
    for n, i in enumerate(pos):
        end = pos[n + 1] if n + 1 < len(pos) else len(log)
        s = [e for e in log[i:end] if e[0] == 'sul']
        r = [k for k in range(end) if log[k][0] == 'hreset' and (k <= i or log[k][0] == 'sul')]
        if not r:
            return 'the hypothesis was not reset for test %d' % n
        hs = [e for e in log[r[-1]:end] if e[0] in ('hyp', 'to', 'hreset')][1:]
        got = [e[1] for e in hs[:len(s)]]
        if got != [e[1] for e in s]:
            return 'test %d gave %r to the system and %r to the hypothesis' % (n, [e[1] for e in s], got)
        if any(e[0] == 'to' and e[2] != x[2] for e, x in zip(hs, s)):
            return 'test %d: the hypothesis was not asked to follow the output of the system' % n
        out.append([e[1] for e in s])
    return out


def check_nd(case, rng):
    name, m, h, al, seed, rounds = case
    M, H = build_nd(*m)[0], build_nd(*h)[0]
    log = []
    sul = Log(M, log)
    o = oracle(name, al, sul, rng, None)
    watch(H, log)
    kind = m[0]
    for _ in range(rounds):
        del log[:]
        st, q = o.num_steps, o.num_queries
        c = o.find_cex(H)
        tests = tests_of(log)
        if isinstance(tests, str):
            return tests
        if o.num_steps - st != sum(map(len, tests)) or o.num_queries - q != len(tests):
            return 'the counters grew by %d steps and %d queries, executed were %d and %d' % (o.num_steps - st, o.num_queries - q, sum(map(len, tests)), len(tests))
        last = [e for e in log[max([i for i, e in enumerate(log) if e[0] == 'pre'] or [0]):] if e[0] == 'sul']
        ins, outs = [e[1] for e in last], [e[2] for e in last]
        cur, sure = 0, True
        for t, (i, x) in enumerate(zip(ins, outs)):
            nxt = {y[0] for a, ts in h[1][cur][1] if a == i for y in ts if (h[1][y[0]][0] if kind == 'mdp' else y[1]) == x}
            if len(nxt) > 1:
                sure = False
                break
            if not nxt:
                if c is None or t < len(ins) - 1:
                    return 'the hypothesis cannot answer %r to %r, and no counterexample was reported' % (outs[:t + 1], ins[:t + 1])
                break
            cur = nxt.pop()
        else:
            if c is not None:
                return 'the hypothesis can answer %r to %r, reported as a counterexample' % (outs, ins)
        if c is not None:
            if kind == 'onfsm':
                if list(c[0]) != ins or list(c[1]) != outs or len(c) != 2:
                    return 'the counterexample %r is not the trace executed: %r, %r' % (c, ins, outs)
            else:
                want = ([h[1][0][0]] if kind == 'mdp' else []) + [x for p in zip(ins, outs) for x in p]
                if list(c) != want:
                    return 'the counterexample %r is not the trace executed: %r' % (c, want)
            if log[-1] != ('post',):
                return 'no post() after the counterexample'
    return None
