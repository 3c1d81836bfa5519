"""Shared helpers of the concrete cross-checks (independent reference implementations only)."""
import itertools


def words(alphabet, n, minlen=0):
    for l in range(minlen, n + 1):
        yield from itertools.product(alphabet, repeat=l)


def rand_word(rng, alphabet, maxlen, minlen=0):
    return tuple(rng.choice(alphabet) for _ in range(rng.randint(minlen, maxlen)))


# ------------------------------------------------------------------ deterministic machines as literal values
# machine = (kind, init, ((label, ((letter, target), ...)), ...))         for dfa / moore (state label, transitions)
# machine = ('mealy', init, ((None, ((letter, target, output), ...)), ...))
def rand_machine(rng, kind, n=None, alphabet=('a', 'b'), outs=None, complete=True, none_letter=False):
    n = n or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
    outs = outs if outs is not None else ((False, True) if kind == 'dfa' else (0, 1, 'x'))
    rows = []
    for i in range(n):
        tr = []
        al = list(alphabet)
        rng.shuffle(al)
        for a in al:
            if not complete and rng.random() < .25:
                continue
            t = rng.randrange(n) if rng.random() < .8 else min(i + 1, n - 1)
            tr.append((a, t, rng.choice(outs)) if kind == 'mealy' else (a, t))
        rows.append((None if kind == 'mealy' else rng.choice(outs), tuple(tr)))
    return (kind, rng.randrange(n) if rng.random() < .3 else 0, tuple(rows))


def m_next(m, s, a):
    for t in m[2][s][1]:
        if t[0] == a:
            return t[1]
    return None


def m_out(m, s, a):
    if m[0] == 'mealy':
        for t in m[2][s][1]:
            if t[0] == a:
                return t[2]
        return None
    t = s if a is None else m_next(m, s, a)
    return None if t is None else m[2][t][0]


def m_run(m, s, w):
    """(outputs, end state); end state None when undefined"""
    o = []
    for a in w:
        x = s if a is None and m[0] != 'mealy' else m_next(m, s, a)
        if x is None:
            return o, None
        o.append(m_out(m, s, a))
        s = x
    return o, s


def m_alphabet(m):
    al = []
    for _, tr in m[2]:
        for t in tr:
            if t[0] not in al:
                al.append(t[0])
    return al


def m_label(m, s):
    return m[2][s][0]


def m_complete(m):
    al = set(m_alphabet(m))
    return all({t[0] for t in tr} == al for _, tr in m[2])


def m_classes(m):
    """behavioural equivalence classes (complete machines): state -> class number"""
    al = m_alphabet(m)
    n = len(m[2])
    cl = [0] * n
    while True:
        sig = [(cl[s], m_label(m, s), tuple((m_out(m, s, a), cl[m_next(m, s, a)]) for a in al)) for s in range(n)]
        ids = {}
        new = [ids.setdefault(repr(x), len(ids)) for x in sig]
        if len(set(new)) == len(set(cl)):
            return new
        cl = new


def m_dist(m, s):
    """breadth-first distances from s"""
    d = {s: 0}
    todo = [s]
    for x in todo:
        for t in m[2][x][1]:
            if t[1] not in d:
                d[t[1]] = d[x] + 1
                todo.append(t[1])
    return d


def build(m, ids=None, prefixes=False):
    """(machine object, list of its states in index order)"""
    from aalpy.automata import Dfa, DfaState, MooreMachine, MooreState, MealyMachine, MealyState
    kind, init, rows = m
    ss = []
    for i, (lab, _) in enumerate(rows):
        sid = ids[i] if ids else 's%d' % i
        ss.append(MealyState(sid) if kind == 'mealy' else (DfaState if kind == 'dfa' else MooreState)(sid, lab))
    for i, (_, tr) in enumerate(rows):
        for t in tr:
            ss[i].transitions[t[0]] = ss[t[1]]
            if kind == 'mealy':
                ss[i].output_fun[t[0]] = t[2]
    M = {'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine}[kind](ss[init], list(ss))
    if prefixes:
        paths = {init: ()}
        todo = [init]
        for x in todo:
            for t in rows[x][1]:
                if t[1] not in paths:
                    paths[t[1]] = paths[x] + (t[0],)
                    todo.append(t[1])
        for i, s in enumerate(ss):
            s.prefix = paths.get(i)
    return M, ss


def literal(M, order=None):
    """the literal of a machine object (states in list order); None where it leaves its own states"""
    kind = {'Dfa': 'dfa', 'MooreMachine': 'moore', 'MealyMachine': 'mealy'}[type(M).__name__]
    ix = {id(s): i for i, s in enumerate(M.states)}
    rows = []
    for s in M.states:
        tr = []
        for a, t in s.transitions.items():
            tr.append((a, ix.get(id(t)), s.output_fun[a]) if kind == 'mealy' else (a, ix.get(id(t))))
        rows.append((None if kind == 'mealy' else (s.is_accepting if kind == 'dfa' else s.output), tuple(tr)))
    return (kind, ix.get(id(M.initial_state)), tuple(rows))


def m_diff(m1, m2, s1=None, s2=None, alphabet=None):
    """a shortest word answered differently by two machines (complete over the alphabet), or None; the empty word compares state labels"""
    s1 = m1[1] if s1 is None else s1
    s2 = m2[1] if s2 is None else s2
    al = alphabet if alphabet is not None else m_alphabet(m1)
    if m_label(m1, s1) != m_label(m2, s2) if m1[0] != 'mealy' else False:
        return ()
    seen = {(s1, s2)}
    todo = [(s1, s2, ())]
    for x, y, w in todo:
        for a in al:
            p, q = m_next(m1, x, a), m_next(m2, y, a)
            if (p is None) != (q is None) or m_out(m1, x, a) != m_out(m2, y, a):
                return w + (a,)
            if p is not None and (p, q) not in seen:
                seen.add((p, q))
                todo.append((p, q, w + (a,)))
    return None


KINDS = ('dfa', 'moore', 'mealy')
ALPHABETS = (('a', 'b'), (0, 1), ('a',), ('', 'a', 'b'), (0, 'x', (1, 2)), (False, 'q'))


def closed_hypothesis(m, E, letters=None):
    """the hypothesis a closed table over the suffixes E gives: (machine, access words).  m must be complete; Moore and DFA tables contain the empty suffix, Mealy tables every letter"""
    al = letters if letters is not None else m_alphabet(m)

    def last(w):
        o, s = m_run(m, m[1], w)
        return (m_label(m, s) if m[0] != 'mealy' else None) if not w else o[-1]

    def row(u):
        return tuple(last(u + e) for e in E)
    reps, rows = [()], {row(()): 0}
    trs = []
    for u in reps:
        tr = []
        for a in al:
            r = row(u + (a,))
            if r not in rows:
                rows[r] = len(reps)
                reps.append(u + (a,))
            tr.append((a, rows[r]) + ((last(u + (a,)),) if m[0] == 'mealy' else ()))
        trs.append(tuple(tr))
    return (m[0], 0, tuple((None if m[0] == 'mealy' else last(u), t) for u, t in zip(reps, trs))), reps
