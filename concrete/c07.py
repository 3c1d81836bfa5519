from aalpy.utils import bisimilar
from aalpy.utils.ModelChecking import compare_automata
from lib import *

RULE = ('pairs of machines of one kind: independent, copies with one changed output / transition / missing input, and behaviourally equal machines of different size; '
        'reference: product reachability; every counterexample is executed on both')


def mutate(rng, m):
    rows = [list(r) for r in m[2]]
    i = rng.randrange(len(rows))
    k = rng.random()
    outs = (False, True) if m[0] == 'dfa' else (0, 1, 'x')
    tr = list(rows[i][1])
    if k < .3 and m[0] != 'mealy':
        rows[i][0] = rng.choice(outs)
    elif tr:
        j = rng.randrange(len(tr))
        t = tr[j]
        if k < .7:
            tr[j] = (t[0], rng.randrange(len(rows))) + t[2:]
        elif k < .85 and m[0] == 'mealy':
            tr[j] = t[:2] + (rng.choice(outs),)
        elif k > .93:
            del tr[j]
    rows[i][1] = tuple(tr)
    return (m[0], m[1], tuple((r[0], r[1]) for r in rows))


def blowup(rng, m):
    """an equivalent machine with states doubled and permuted"""
    n = len(m[2])
    perm = list(range(2 * n))
    rng.shuffle(perm)
    rows = [None] * (2 * n)
    for c in (0, 1):
        for i, (l, tr) in enumerate(m[2]):
            rows[perm[i + c * n]] = (l, tuple((t[0], perm[t[1] + n * rng.randrange(2)]) + t[2:] for t in tr))
    return (m[0], perm[m[1]], tuple(rows))


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        outs = rng.choice([None, (0,), (0, 0, 0, 1), (None, False)]) if kind != 'dfa' else rng.choice([None, (False, False, False, True), (True,)])
        m = rand_machine(rng, kind, alphabet=al, outs=outs, complete=rng.random() < .85)
        k = rng.random()
        m2 = m
        if k < .35:
            m2 = mutate(rng, m)
        elif k < .55:
            m2 = blowup(rng, m)
        elif k < .75:
            m2 = blowup(rng, mutate(rng, m))
        elif k < .95:
            m2 = rand_machine(rng, kind, alphabet=al, outs=outs)
        yield (m, m2, rng.random() < .1)


def check(case):
    m1, m2, cmp = case
    A, _ = build(m1)
    B, _ = build(m2)
    al = m_alphabet(m1) + [a for a in m_alphabet(m2) if a not in m_alphabet(m1)]
    d = m_diff(m1, m2, alphabet=al)
    r = bisimilar(A, B)
    if r is not (d is None):
        return 'bisimilar = %r, a distinguishing word: %r' % (r, d)
    if (A == B) is not (d is None):
        return '== is %r, a distinguishing word: %r' % (A == B, d)
    c = bisimilar(A, B, return_cex=True)
    if (c is None) != (d is None):
        return 'counterexample %r, a distinguishing word: %r' % (c, d)
    if c is not None:
        o1, e1 = m_run(m1, m1[1], c)
        o2, e2 = m_run(m2, m2[1], c)
        if c and o1 == o2 and (e1 is None) == (e2 is None):
            return 'both machines answer the counterexample %r alike' % (c,)
        if not c and m_label(m1, m1[1]) == m_label(m2, m2[1]):
            return 'both machines answer the empty counterexample alike'
    if bisimilar(A, A) is not True or bisimilar(A, A, return_cex=True) is not None:
        return 'a machine is not bisimilar to itself'
    if literal(A) != m1 or literal(B) != m2:
        return 'comparison changed a machine'
    if cmp and m_complete(m1) and m_complete(m2) and set(m_alphabet(m1)) == set(m_alphabet(m2)) and m_alphabet(m1):
        if m1[0] != 'mealy' and m_label(m1, m1[1]) != m_label(m2, m2[1]):
            return None
        reach1, reach2 = m_dist(m1, m1[1]), m_dist(m2, m2[1])
        if len(reach1) < len(m1[2]) or len(reach2) < len(m2[2]):
            return None
        cs = compare_automata(A, B, num_cex=3)
        if d is None and cs:
            return 'compare_automata reports %r for equivalent machines' % (cs,)
        for c in cs:
            if m_run(m1, m1[1], c)[0] == m_run(m2, m2[1], c)[0]:
                return 'compare_automata reports %r, which both answer alike' % (c,)
        if [len(c) for c in cs] != sorted(len(c) for c in cs) or len(cs) > 3 or len({tuple(c) for c in cs}) != len(cs):
            return 'compare_automata returns %r' % (cs,)
    return None
