from lib import *
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs.deterministic import CounterExampleProcessing as X

RULE = ('machines with hypotheses read off closed tables over few suffixes, true counterexamples (shortest, padded, random), every strategy, both closedness settings; '
        'reference: the answers of the machine itself before and after replacing prefixes by access words')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        outs = None if kind == 'dfa' else rng.choice([None, (None, 0), (0, 1), ('', None, 'x')])
        m = rand_machine(rng, kind, n=rng.choice([3, 4, 5, 6, 8, 12]), alphabet=al, outs=outs)
        if rng.random() < .4:
            # hard to tell apart: most labels equal, a long chain
            n = len(m[2])
            o = outs or ((False, True) if kind == 'dfa' else (0, 1))
            rows = []
            for i, (l, tr) in enumerate(m[2]):
                rows.append((None if kind == 'mealy' else o[i == n - 1], tuple((a[0], (i + 1) % n if j == 0 else rng.choice([i, 0, (i + 1) % n])) + ((o[i == n - 1 and j == 0],) if kind == 'mealy' else ()) for j, a in enumerate(tr))))
            m = (m[0], 0, tuple(rows))
        E = [()] if kind != 'mealy' else [(a,) for a in al]
        while rng.random() < .3:
            E.append(rand_word(rng, al, 3, 1))
        h, reps = closed_hypothesis(m, E, al)
        w = m_diff(m, h, alphabet=al)
        if not w:
            continue
        cx = [w]
        for _ in range(30):
            u = rand_word(rng, al, 14, 2)
            if last(m, u) != last(h, u):
                cx.append(u)
        yield (m, tuple(E), tuple(al), rng.choice(cx), rng.choice(['rs', 'rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd', 'longest_prefix']), rng.random() < .5)


def last(m, w):
    o, s = m_run(m, m[1], w)
    return o[-1] if w else m_label(m, s)


def nontrivial(case):
    return len(case[3]) >= 3


def check(case):
    m, E, al, cex, how, closed = case
    h, reps = closed_hypothesis(m, E, al)
    M, _ = build(m)
    H, hs = build(h)
    for s, p in zip(hs, reps):
        s.prefix = p
    sul = AutomatonSUL(M)
    sa = [u + (a,) for u in reps for a in al]
    if how == 'longest_prefix':
        pre = sorted(set(reps) | set(sa), key=len)
        arg = list(pre)
        r = X.longest_prefix_cex_processing(arg, cex)
        if arg != pre:
            return 'the list of prefixes was altered: %r' % (arg,)
        p = [u for u in pre if cex[:len(u)] == u][-1]
        d = cex[len(p):] or cex
        if r != [d[i:] for i in range(len(d))]:
            return 'longest_prefix returned %r, expected the suffixes of %r' % (r, d)
    else:
        kw = {'direction': how[-3:]} if '_' in how else {}
        r = getattr(X, how.split('_')[0] + '_cex_processing')(sul, cex, H, closed, **kw)
        d = tuple(r[0])
        n = len(cex)
        if d != cex[n - len(d):] or not 1 <= len(d) < n:
            return '%s returned %r, no proper suffix of the counterexample %r' % (how, r, cex)
        i = n - len(d) - 1

        def al_(i):
            return last(m, reps[m_run(h, h[1], cex[:i])[1]] + cex[i:])
        if al_(i) == al_(i + 1):
            return '%s returned %r for %r, which separates nothing: both give %r' % (how, r, cex, al_(i))
        if [tuple(x) for x in r] != ([d[j:] for j in range(len(d))] if closed else [d]):
            return '%s returned %r, expected %s %r' % (how, r, 'all suffixes of' if closed else 'only', d)
    # the new suffixes separate two words the hypothesis identifies
    if not any(last(m, u + tuple(e)) != last(m, reps[m_run(h, h[1], u)[1]] + tuple(e)) for u in sa for e in r):
        return '%s returned %r, which leave the hypothesis unchanged' % (how, r)
    if literal(H) != h or [s.prefix for s in hs] != reps or literal(M) != m:
        return 'the hypothesis or the system was altered'
    o = X.counterexample_successfully_processed(sul, cex, H)
    if o:
        return 'counterexample_successfully_processed says yes'
    u = reps[-1] + (al[0],)
    if not X.counterexample_successfully_processed(sul, u, H):
        return 'counterexample_successfully_processed says no for %r' % (u,)
    return None
