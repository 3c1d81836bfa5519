from lib import *

RULE = ('complete machines (minimal, with equivalent states, several parts), all option combinations of the computation and initial words, states in any order with any initial state; '
        'reference: partition refinement and product reachability')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        outs = rng.choice([None, (0,), (0, 0, 0, 1), (None, 0, '')]) if kind != 'dfa' else rng.choice([None, None, (False, False, False, True), (True,)])
        m = rand_machine(rng, kind, alphabet=al, outs=outs)
        if rng.random() < .5:
            n = len(m[2])
            perm = list(range(n))
            rng.shuffle(perm)
            rows = [None] * n
            for i, (l, tr) in enumerate(m[2]):
                rows[perm[i]] = (l, tuple((t[0], perm[t[1]]) + t[2:] for t in tr))
            m = (kind, perm[m[1]], tuple(rows))
        init = None
        if rng.random() < .4:
            init = tuple(rand_word(rng, al, 3, 0 if kind != 'mealy' else 1) for _ in range(rng.randint(1, 3)))
        yield (m, rng.random() < .5, rng.random() < .5, init, rng.random() < .5)


def nontrivial(case):
    return len(case[0][2]) >= 2


def answers(m, s, w):
    if not w and m[0] != 'mealy':
        return [m_label(m, s)]
    return m_run(m, s, w)[0]


def check(case):
    m, osc, sab, init, pre = case
    n = len(m[2])
    cl = m_classes(m)
    minimal = len(set(cl)) == n
    M, ss = build(m, prefixes=pre)
    given = list(init) if init else None
    cs = M.compute_characterization_set(char_set_init=given, online_suffix_closure=osc, split_all_blocks=sab, raise_warning=False)
    if init and given != list(init):
        return 'the list of initial words passed in was changed to %r' % (given,)
    if (cs is not None) != minimal:
        return 'characterization set %r, minimal: %r' % (cs, minimal)
    if cs is not None:
        if init and any(w not in cs for w in init):
            return 'an initial word is missing from %r' % (cs,)
        if len(set(cs)) != len(cs):
            return 'duplicates in %r' % (cs,)
        al = m_alphabet(m)
        for w in cs:
            if any(a not in al for a in w):
                return '%r is not over the alphabet' % (w,)
        for s in range(n):
            for t in range(s):
                if all(answers(m, s, w) == answers(m, t, w) for w in cs):
                    return 'states %d and %d answer all of %r alike' % (t, s, cs)
    r = M.compute_characterization_set(char_set_init=given, online_suffix_closure=osc, split_all_blocks=sab, return_same_states=True, raise_warning=False)
    if minimal:
        if tuple(r) != (None, None):
            return 'return_same_states on a minimal machine gives %r' % (r,)
    else:
        ix = [ss.index(x) for x in r]
        if len(ix) != 2 or ix[0] == ix[1] or cl[ix[0]] != cl[ix[1]]:
            return 'return_same_states names states %r, classes %r' % (ix, cl)
    if M.is_minimal() is not minimal:
        return 'is_minimal() = %r' % M.is_minimal()
    if literal(M) != m or M.current_state is not ss[m[1]]:
        return 'the computation changed the machine'
    M.minimize()
    m2 = literal(M)
    if m2[1] is None:
        return 'after minimize the initial state is not among the states'
    if any(t[1] is None for _, tr in m2[2] for t in tr):
        return 'after minimize a transition leaves the machine'
    if not all(any(x is y for y in ss) for x in M.states) or len(m2[2]) != len(set(cl)):
        return 'minimize leaves %d states, classes: %d' % (len(m2[2]), len(set(cl)))
    if not m_complete(m2) or set(m_alphabet(m2)) != set(m_alphabet(m)):
        return 'after minimize the machine is not complete'
    d = m_diff(m, m2)
    if d is not None:
        return 'minimize changed the answer to %r' % (d,)
    if len(set(m_classes(m2))) != len(m2[2]):
        return 'equivalent states left by minimize'
    if not any(M.current_state is x for x in M.states):
        return 'after minimize the current state is not among the states'
    dist = m_dist(m2, m2[1])
    for i, s in enumerate(M.states):
        if (s.prefix is None) != (i not in dist) or s.prefix is not None and m_run(m2, m2[1], s.prefix)[1] != i:
            return 'after minimize the prefix %r of a state does not lead to it' % (s.prefix,)
    M.minimize()
    if literal(M) != m2:
        return 'minimizing twice changes the machine'
    return None
