from lib import *

RULE = ('machines of the three kinds (also incomplete), histories of steps, word executions, output computations and resets with arbitrary current states; '
        'a table interpreter predicts outputs, the resulting current state and what must be restored; non-trivial: at least two operations')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        m = rand_machine(rng, kind, alphabet=al, complete=rng.random() < .7)
        n = len(m[2])
        ops = []
        for _ in range(rng.randint(1, 8)):
            o = rng.choice(['step', 'step', 'exec', 'ostep', 'oseq', 'reset', 'set'])
            x = al + (None,) if rng.random() < .15 and kind != 'mealy' else al
            ops.append((o, rng.randrange(n), rand_word(rng, x, 5, 0), rng.choice(x), rng.random() < .5))
        yield (m, tuple(ops))


def nontrivial(case):
    return len(case[1]) >= 2


def check(case):
    m, ops = case
    M, ss = build(m)
    if M.current_state is not M.initial_state:
        return 'a new machine does not start in its initial state'
    cur = m[1]
    for o, s, w, a, li in ops:
        seq = list(w) if li else tuple(w)
        try:
            if o == 'reset':
                M.reset_to_initial()
                cur = m[1]
            elif o == 'set':
                M.current_state = ss[s]
                cur = s
            elif o == 'step':
                out, nx = m_run(m, cur, (a,))
                r = M.step(a)
                if nx is None:
                    return 'step(%r) on an undefined input returned %r' % (a, r)
                if r != out[0]:
                    return 'step(%r) from state %d returned %r instead of %r' % (a, cur, r, out[0])
                cur = nx
            elif o == 'exec':
                out, nx = m_run(m, s, w)
                r = M.execute_sequence(ss[s], seq)
                if nx is None:
                    return 'execute_sequence over an undefined input returned %r' % (r,)
                if list(r) != out:
                    return 'execute_sequence(%d, %r) = %r instead of %r' % (s, w, r, out)
                cur = nx
            elif o == 'ostep':
                out, nx = m_run(m, s, (a,))
                r = M.output_step(ss[s], a)
                if nx is None or r != out[0]:
                    return 'output_step(%d, %r) = %r instead of %r' % (s, a, r, out)
            elif o == 'oseq':
                out, nx = m_run(m, s, w)
                if not w and m[0] != 'mealy':
                    out = [m_label(m, s)]
                r = M.compute_output_seq(ss[s], seq)
                if nx is None or list(r) != out:
                    return 'compute_output_seq(%d, %r) = %r instead of %r' % (s, w, r, out)
        except KeyError:
            if o in ('reset', 'set') or nx is not None:
                return 'KeyError in %s although the word is defined' % o
            return None
        if M.current_state is not ss[cur]:
            return 'after %s(%d, %r, %r) the current state is not state %d' % (o, s, w, a, cur)
        if literal(M) != m:
            return 'executing changed the machine'
    return None
