from lib import *
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs.deterministic.ObservationTable import ObservationTable, closing_options

RULE = ('random machines, prefix-closed sets of access words, suffix sets (closed or not), rows filled in steps; every closing strategy; tables repaired until closed (and consistent); '
        'reference: the answers of the machine to access word + suffix')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        outs = None if kind == 'dfa' else rng.choice([None, (None, 0), (0, 1), ('', None, 'x')])
        m = rand_machine(rng, kind, n=rng.choice([1, 2, 3, 4, 5, 6, 8]), alphabet=al, outs=outs)
        S = [()]
        for _ in range(rng.choice([0, 0, 1, 2, 4, 6])):
            w = rng.choice(S) + (rng.choice(al),)
            if w not in S:
                S.append(w)
        if rng.random() < .5:
            rng.shuffle(S)
        E = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            w = rand_word(rng, al, 3, 1)
            ws = [w[i:] for i in range(len(w))] if rng.random() < .7 else [w]
            for x in ws:
                if x not in E:
                    E.append(x)
        yield (m, tuple(al), tuple(S), tuple(E), rng.choice(closing_options), rng.random() < .5)


def last(m, w):
    o, s = m_run(m, m[1], w)
    return o[-1] if w else m_label(m, s)


def nontrivial(case):
    return len(case[0][2]) > 2 and len(case[2]) > 1


def same(a, b):
    return len(a) == len(b) and all(x is y or (x == y and type(x) is type(y)) for x, y in zip(a, b))


def check(case):
    m, al, S, E, strat, nocex = case
    kind = m[0]
    M, _ = build(m)
    sul = AutomatonSUL(M)
    t = ObservationTable(list(al), sul, kind)
    base = [()] if kind != 'mealy' else [(a,) for a in al]
    if t.S != [()] or t.E != base or t.A != [(a,) for a in al] or dict(t.T):
        return 'the initial table is not empty: S=%r E=%r A=%r T=%r' % (t.S, t.E, t.A, dict(t.T))
    S = [u for u in S if nocex or u == ()]

    def rows():
        want = {u: tuple(last(m, u + e) for e in t.E) for u in set(t.S) | {s + a for s in t.S for a in t.A}}
        for u in want:
            if u not in t.T:
                return 'row %r was not filled' % (u,)
            if not same(t.T[u], want[u]):
                return 'row %r is %r, the system answers %r' % (u, t.T[u], want[u])
        return None
    t.update_obs_table()
    e = rows()
    if e:
        return e
    for s in sorted(S, key=len):
        if s != ():
            t.S.append(s)
            t.update_obs_table(s_set=[s] + [s + a for a in t.A])
    e = rows()
    if e:
        return 'after adding rows: ' + e
    new = [x for x in E if x not in t.E]
    half = len(new) // 2
    for part in (new[:half], new[half:]):
        if part:
            t.E.extend(part)
            t.update_obs_table(e_set=list(part))
            e = rows()
            if e:
                return 'after adding columns: ' + e
    t.S = [s for s in case[2] if s in t.S]     # any order
    for rnd in range(60):
        n = (sul.num_queries, sul.num_steps)
        if nocex:
            inc = t.get_causes_of_inconsistency()
            want = [(x, y, a) for x in t.S for y in t.S for a in t.A if t.T[x] == t.T[y] and t.T[x + a] != t.T[y + a]]
            if bool(want) != (inc is not None):
                return 'inconsistency: the table reports %r, but the conflicting rows are %r' % (inc, want)
            if inc is not None:
                if len(inc) != 1 or not any(inc[0][:1] == a and inc[0][1:] in t.E and last(m, x + inc[0]) != last(m, y + inc[0]) for x, y, a in want):
                    return 'the suffix %r does not separate the conflicting rows %r' % (inc, want)
                t.E.extend(inc)
                t.update_obs_table(e_set=list(inc))
                continue
        r = t.get_rows_to_close(strat)
        sr = {t.T[s] for s in t.S}
        openr = {s + a for s in t.S for a in t.A if t.T[s + a] not in sr}
        if bool(openr) != (r is not None):
            return 'closedness: the table reports %r, the rows without a representative are %r' % (r, openr)
        if (sul.num_queries, sul.num_steps) != n:
            return 'checking the table asks queries'
        if r is None:
            break
        vals = [t.T[u] for u in r]
        if not r or not set(r) <= openr or len(set(vals)) != len(vals):
            return '%s returned the rows %r (open: %r)' % (strat, r, openr)
        if 'single' in strat:
            if len(r) != 1 or (strat == 'single_longest' and len(r[0]) < max(min(len(u) for u in openr if t.T[u] == v) for v in {t.T[u] for u in openr}) and len(t.S) == 1):
                return '%s returned the rows %r' % (strat, r)
        elif set(vals) != {t.T[u] for u in openr}:
            return '%s returned the rows %r, which leave the table open' % (strat, r)
        if strat == 'longest_first' and [len(u) for u in r] != sorted((len(u) for u in r), reverse=True):
            return 'longest_first returned %r' % (r,)
        q = []
        for u in r:
            t.S.append(u)
            q += [u + a for a in t.A]
        t.update_obs_table(s_set=q)
        e = rows()
        if e:
            return e
    else:
        return None
    old = {u: t.T[u] for u in t.T}
    S0 = set(t.S)
    h = t.gen_hypothesis(no_cex_processing_used=nocex)
    if set(t.S) != S0 or len(t.S) != len(S0) or {u: t.T[u] for u in t.T} != old:
        return 'building the hypothesis altered the table'
    reps = {}
    for s in h.states:
        if s.prefix not in S0 or t.T[s.prefix] in reps:
            return 'state with access word %r: unknown, or its row has another state' % (s.prefix,)
        reps[t.T[s.prefix]] = s
    if set(reps) != {t.T[s] for s in t.S}:
        return 'the states stand for the rows %r, the table has %r' % (set(reps), {t.T[s] for s in t.S})
    if h.initial_state is not reps[t.T[()]] or h.initial_state.prefix != () or h.current_state is not h.initial_state:
        return 'the initial state is %r' % (h.initial_state.prefix,)
    if len({s.state_id for s in h.states}) != len(h.states):
        return 'state ids repeat'
    for s in h.states:
        row = t.T[s.prefix]
        if kind != 'mealy' and (s.is_accepting if kind == 'dfa' else s.output) != row[0]:
            return 'the label of %r is not %r' % (s.prefix, row[0])
        if set(s.transitions) != set(al):
            return 'the state %r lacks or adds transitions: %r' % (s.prefix, list(s.transitions))
        for a in al:
            if s.transitions[a] is not reps[t.T[s.prefix + (a,)]]:
                return 'the transition %r, %r leads to %r' % (s.prefix, a, s.transitions[a].prefix)
            if kind == 'mealy' and (s.output_fun[a] != row[t.E.index((a,))]):
                return 'the output of %r, %r is %r, the table says %r' % (s.prefix, a, s.output_fun[a], row[t.E.index((a,))])
    H = literal(h)
    closed = all((x[1:] in t.E or (kind == 'mealy' and len(x) == 1)) for x in t.E if x)
    for u in t.S + [s + a for s in t.S for a in t.A]:
        st = h.initial_state
        for a in u:
            st = st.transitions[a]
        if st is not reps[t.T[u]]:
            return 'the word %r does not lead to the state of its row' % (u,)
        if closed:
            for i, x in enumerate(t.E):
                if last(H, u + x) != t.T[u][i]:
                    return 'the hypothesis answers %r to %r + %r, the table %r' % (last(H, u + x), u, x, t.T[u][i])
    return None
