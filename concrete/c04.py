from lib import *

RULE = ('complete machines with many equivalent states, all pairs of states, alphabets in any order and reduced; reference: partition refinement; '
        'checks length-minimal divergence only where promised: over the alphabet, different at the last input, none exactly when the pair is equivalent')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        outs = rng.choice([None, (0,), (0, 0, 0, 1), (False, False, True), (None, 0, '')]) if kind != 'dfa' else rng.choice([None, (False, False, False, True), (True,)])
        m = rand_machine(rng, kind, alphabet=al, outs=outs)
        sub = list(al)
        rng.shuffle(sub)
        if rng.random() < .2:
            sub = sub[:max(1, len(sub) - 1)]
        yield (m, tuple(sub), rng.random() < .3)


def nontrivial(case):
    return len(case[0][2]) >= 2


def pair_diff(m, s, t, al):
    """is some non-empty word answered differently?"""
    seen, todo = {(s, t)}, [(s, t)]
    for x, y in todo:
        for a in al:
            if m_out(m, x, a) != m_out(m, y, a):
                return True
            p = (m_next(m, x, a), m_next(m, y, a))
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return False


def check(case):
    m, al, cur = case
    M, ss = build(m)
    for s in range(len(ss)):
        for t in range(len(ss)):
            if cur:
                M.current_state = ss[(s + t) % len(ss)]
            keep = M.current_state
            r = M.find_distinguishing_seq(ss[s], ss[t], list(al))
            if M.current_state is not keep:
                return 'the search moved the current state'
            d = pair_diff(m, s, t, al)
            if (r is not None) != d:
                return 'states %d, %d: returned %r, they are %s' % (s, t, r, 'distinguishable' if d else 'equivalent')
            if r is None:
                continue
            if not all(x in al for x in r) or len(r) == 0:
                return 'states %d, %d: %r is not a word over the alphabet' % (s, t, r)
            o1, o2 = m_run(m, s, r)[0], m_run(m, t, r)[0]
            if o1[-1] == o2[-1]:
                return 'states %d, %d answer %r alike at its last input' % (s, t, r)
            if o1[:-1] != o2[:-1]:
                return 'states %d, %d differ before the last input of %r' % (s, t, r)
    if literal(M) != m:
        return 'the search changed the machine'
    return None
