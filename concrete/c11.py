from lib import *
from aalpy.base import Oracle
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp

RULE = ('random complete machines of every kind x the three deterministic learners x their options (closing, counterexample processing, suffix closure, cell contents, caching, samples, extension and '
        'separation rules, round limits); an oracle that decides equivalence (shortest or padded counterexamples, tuples or lists) and one that accepts after some rounds; reference: product walk and '
        'partition refinement')
LSTAR = [(c, x, e, p) for c in ('longest_first', 'shortest_first', 'single', 'single_longest') for x in (None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd')
         for e in (False, True) for p in (False, True)]
KV = [('rs',), ('linear_fwd',), ('linear_bwd',), ('exponential_fwd',), ('exponential_bwd',)]
LSHARP = [(e, s) for e in (None, 'SepSeq', 'ADS') for s in ('SepSeq', 'ADS')]


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        outs = None if kind == 'dfa' else rng.choice([None, (0, 1), (0, 'x', 2), ('', 'x')])
        m = rand_machine(rng, kind, n=rng.choice([1, 2, 3, 4, 5, 6, 8, 11]), alphabet=al, outs=outs)
        alg = rng.choice(['lstar', 'kv', 'lsharp'])
        opts = rng.choice({'lstar': LSTAR, 'kv': KV, 'lsharp': LSHARP}[alg])
        cache = rng.random() < .5
        samples = None if alg == 'kv' or rng.random() < .7 else tuple(rand_word(rng, al, 6, 1) for _ in range(rng.choice([0, 1, 3])))
        limit = rng.choice([None, None, None, None, 1, 2, 3, 0])
        pads = tuple(rng.randint(0, 3) for _ in range(12)) if rng.random() < .5 else (0,)
        lazy = rng.choice([None, None, None, 1, 2])
        yield (m, tuple(al), alg, opts, cache, samples, limit, pads, rng.random() < .3, lazy, rng.randrange(10 ** 6))


def nontrivial(case):
    return len(case[0][2]) > 2 and case[6] is None and case[9] is None


class Perfect(Oracle):
    """decides equivalence by a walk over the product (or accepts once it was asked 'lazy' times)"""

    def __init__(self, alphabet, sul, m, pads, aslist, lazy, rng):
        super().__init__(alphabet, sul)
        self.m, self.pads, self.aslist, self.lazy, self.rng = m, pads, aslist, lazy, rng
        self.asked = []
        self.accepted = None
        self.last = None
        self.err = None

    def find_cex(self, hypothesis):
        self.asked.append(hypothesis)
        if len(self.asked) > 200:
            raise RuntimeError('more than 200 equivalence queries')
        H = literal(hypothesis)
        if not all({t[0] for t in row[1]} == set(self.alphabet) and all(t[1] is not None for t in row[1]) for row in H[2]):
            self.err = 'a hypothesis lacks transitions or leaves its states: %r' % (H,)
            raise RuntimeError(self.err)
        self.last = H
        w = m_diff(self.m, H, alphabet=list(self.alphabet))
        if w == ():
            self.err = 'the hypothesis has another initial label'
            raise RuntimeError(self.err)
        if w is None or (self.lazy and len(self.asked) > self.lazy):
            self.accepted = H
            return None
        n = self.pads[len(self.asked) % len(self.pads)]
        for _ in range(n):      # a longer counterexample whose last answers still differ
            for a in self.rng.sample(list(self.alphabet), len(self.alphabet)):
                v = (a,) + w
                if self.ends(v, H):
                    w = v
                    break
                v = w + (a,)
                if self.ends(v, H):
                    w = v
                    break
        return list(w) if self.aslist else tuple(w)

    def ends(self, v, H):
        return m_run(self.m, self.m[1], v)[0][-1] != m_run(H, H[1], v)[0][-1]


def check(case):
    import random
    m, al, alg, opts, cache, samples, limit, pads, aslist, lazy, seed = case
    kind = m[0]
    rng = random.Random(seed)
    random.seed(seed)
    M, _ = build(m)
    sul = AutomatonSUL(M)
    orc = Perfect(list(al), sul, m, pads, aslist, lazy, rng)
    kw = dict(automaton_type=kind, max_learning_rounds=limit, cache_and_non_det_check=cache, return_data=True, print_level=0)
    if samples is not None:
        kw['samples'] = [(w, m_run(m, m[1], w)[0]) for w in samples]
    try:
        if alg == 'lstar':
            model, info = run_Lstar(list(al), sul, orc, closing_strategy=opts[0], cex_processing=opts[1], e_set_suffix_closed=opts[2], all_prefixes_in_obs_table=opts[3], **kw)
        elif alg == 'kv':
            model, info = run_KV(list(al), sul, orc, cex_processing=opts[0], **kw)
        else:
            model, info = run_Lsharp(list(al), sul, orc, extension_rule=opts[0], separation_rule=opts[1], **kw)
    except Exception as e:
        return '%s ends with %s: %s' % (alg, type(e).__name__, orc.err or e)
    L = literal(model)
    if info['automaton_size'] != len(model.states) or not isinstance(info['learning_rounds'], int):
        return 'the report says %r states, the model has %d' % (info['automaton_size'], len(model.states))
    if limit and len(orc.asked) > limit + 1:
        return '%d equivalence queries with a limit of %d rounds' % (len(orc.asked), limit)
    if orc.accepted is None:
        if not limit or info['learning_rounds'] < limit:
            return '%s ends although the oracle has a counterexample and no limit is reached' % alg
        return None
    if not any(h is model for h in orc.asked[-1:]) or L != orc.accepted:
        return '%s returns another model than the one the oracle accepted' % alg
    if lazy:
        return None
    d = m_diff(m, L, alphabet=list(al))
    if d is not None:
        return 'the model answers %r differently' % (d,)
    cl = m_classes(m)
    mins = len({cl[s] for s in m_dist(m, m[1])})
    if len(model.states) > mins:
        return 'the model has %d states, the minimal machine %d' % (len(model.states), mins)
    return None
