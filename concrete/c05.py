from lib import *

RULE = ('machines of all kinds, incomplete, disconnected, with self loops, states in any order and any initial state; reference: breadth-first distances; '
        'all pairs of states, prefixes, connectivity, completeness, alphabet, look-up and loop queries')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        m = rand_machine(rng, kind, n=rng.choice([1, 2, 3, 4, 5, 6, 7, 8]), alphabet=al, complete=rng.random() < .5)
        if rng.random() < .4:
            # a long chain with few short cuts
            n = len(m[2])
            rows = []
            for i, (l, tr) in enumerate(m[2]):
                rows.append((l, tuple((t[0], rng.choice([i, min(i + 1, n - 1), (i + 1) % n, rng.randrange(n)])) + t[2:] for t in tr)))
            m = (m[0], m[1], tuple(rows))
        yield (m, rng.randrange(4))


def nontrivial(case):
    return len(case[0][2]) >= 2


def check(case):
    m, mode = case
    M, ss = build(m)
    n = len(ss)
    dist = [m_dist(m, s) for s in range(n)]
    for s in range(n):
        for t in range(n):
            r = M.get_shortest_path(ss[s], ss[t])
            if (r is None) != (t not in dist[s]):
                return 'path %d -> %d: %r, reachable: %r' % (s, t, r, t in dist[s])
            if r is None:
                continue
            if not isinstance(r, tuple):
                return 'a path is not a tuple: %r' % (r,)
            x = s
            for a in r:
                x = m_next(m, x, a)
                if x is None:
                    return 'path %d -> %d: %r is not executable' % (s, t, r)
            if x != t:
                return 'path %d -> %d: %r leads to %d' % (s, t, r, x)
            if len(r) != dist[s][t]:
                return 'path %d -> %d: %r is not shortest (%d)' % (s, t, r, dist[s][t])
    foreign = build(m)[1][0]
    if M.get_shortest_path(foreign, ss[0]) is not None or M.get_shortest_path(ss[0], foreign) is not None:
        return 'a path to a state outside the machine'
    if M.is_strongly_connected() != all(len(d) == n for d in dist):
        return 'is_strongly_connected() = %r' % M.is_strongly_connected()
    if M.is_input_complete() != m_complete(m):
        return 'is_input_complete() = %r' % M.is_input_complete()
    al = M.get_input_alphabet()
    if len(al) != len(m_alphabet(m)) or any(a not in al for a in m_alphabet(m)):
        return 'get_input_alphabet() = %r' % (al,)
    if M.size != n:
        return 'size %r' % M.size
    for i, s in enumerate(ss):
        if M.get_state_by_id('s%d' % i) is not s:
            return 'get_state_by_id'
        loops = {t[0] for t in m[2][i][1] if t[1] == i}
        if set(s.get_same_state_transitions()) != loops or len(s.get_same_state_transitions()) != len(loops):
            return 'get_same_state_transitions of %d: %r' % (i, s.get_same_state_transitions())
        if set(s.get_diff_state_transitions()) != {t[0] for t in m[2][i][1]} - loops or len(s.get_diff_state_transitions()) + len(loops) != len(m[2][i][1]):
            return 'get_diff_state_transitions of %d: %r' % (i, s.get_diff_state_transitions())
    if M.get_state_by_id('none') is not None:
        return 'get_state_by_id of an unknown identifier'
    init = m[1]
    if mode == 1:
        for s in ss:
            s.prefix = ()
    elif mode == 2:
        for i, s in enumerate(ss):
            if i in dist[init] and i % 2:
                s.prefix = M.get_shortest_path(ss[init], s)
    M.compute_prefixes()
    for i, s in enumerate(ss):
        if (s.prefix is None) != (i not in dist[init]):
            return 'prefix of state %d: %r, reachable: %r' % (i, s.prefix, i in dist[init])
        if s.prefix is None:
            continue
        x = init
        for a in s.prefix:
            x = m_next(m, x, a)
            if x is None:
                return 'the prefix %r of state %d is not executable' % (s.prefix, i)
        if x != i or len(s.prefix) != dist[init][i]:
            return 'the prefix %r of state %d leads to %d (distance %d)' % (s.prefix, i, x, dist[init][i])
    if literal(M) != m:
        return 'the queries changed the machine'
    return None
