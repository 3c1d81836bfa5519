from lib import *
from aalpy.automata import Vpa, Sevpa
from aalpy.automata.Vpa import VpaState, VpaTransition
from aalpy.automata.Sevpa import SevpaState, SevpaTransition
from aalpy.SULs import AutomatonSUL

RULE = ('deterministic VPA and 1-SEVPA (partial, falsy call/return/internal letters, falsy pushed symbols, initial state anywhere) driven through histories of steps, None letters, resets, executed words and membership queries, '
        'followed by every word up to length 5 for small alphabets; reference: explicit stack machine on the literal table')
CALLS = (('(',), ('(', '['), (0, ''), ('c', 'd'), ((),))
RETS = ((')',), (')', ']'), (1, False), ('r', ''), ('r', 's'))
INTS = ((), ('x',), ('x', 'y'), (2, '0'), ('i', ('a',)))


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(['vpa', 'sevpa'])
        call, ret, inn = rng.choice(CALLS), rng.choice(RETS), rng.choice(INTS)
        if len(set(call + ret + inn)) < len(call + ret + inn):
            continue
        n = rng.randint(1, 4)
        dens = rng.choice([.5, .8, 1])
        # pushed symbol: the letter itself, or another (falsy) symbol per call letter and state
        syms = call if rng.random() < .5 else (0, '', 'p', None)
        rows = []
        for i in range(n):
            tr = []
            for a in inn:
                if rng.random() < dens:
                    tr.append((a, rng.randrange(n), None, None))
            if kind == 'vpa':
                for a in call:
                    if rng.random() < dens:
                        tr.append((a, rng.randrange(n), 'push', rng.choice(syms)))
            for a in ret:
                gs = syms if kind == 'vpa' else tuple((j, c) for j in range(n) for c in call)
                for g in gs:
                    if rng.random() < dens:
                        tr.append((a, rng.randrange(n), 'pop', g))
            rng.shuffle(tr)
            rows.append((rng.random() < .6, tuple(tr)))
        al = call + ret + inn

        def word(k):
            w, d = [], 0
            for _ in range(rng.randint(0, k)):
                if d and rng.random() < .5:
                    w.append(rng.choice(ret)); d -= 1
                else:
                    a = rng.choice(al)
                    d += a in call
                    w.append(a)
            return tuple(w)
        hist = []
        for _ in range(rng.randint(0, 6)):
            o = rng.choice(['step', 'step', 'none', 'reset', 'exec', 'query'])
            hist.append((o,) if o in ('none', 'reset') else (o, word(6)))
        yield (kind, 0 if kind == 'sevpa' else rng.randrange(n), tuple(rows), call, ret, inn, tuple(hist), word(12))


def nontrivial(case):
    return any(t[2] == 'pop' for _, tr in case[2] for t in tr)


def key(case, err):
    return (case[0], str(err)[:25])


class Ref:
    def __init__(self, case):
        self.kind, self.init, self.rows, self.call, self.ret, self.inn = case[:6]
        used = {repr(t[3][1]) for _, tr in self.rows for t in tr if t[2] == 'pop'} if self.kind == 'sevpa' else set()
        self.known = [c for c in self.call if repr(c) in used]
        self.reset()

    def reset(self, s=None):
        self.s, self.k, self.dead = self.init if s is None else s, [], False

    def acc(self):
        return not self.dead and self.rows[self.s][0] and not self.k

    def step(self, a):
        if self.dead or a is None:
            return self.acc()
        if self.kind == 'sevpa' and any(same(a, c) for c in self.known):
            self.k.append((self.s, a))
            self.s = self.init
            return self.acc()
        for b, t, act, g in self.rows[self.s][1]:
            if not same(a, b):
                continue
            if act == 'pop':
                if not self.k or not same(self.k[-1], g):
                    continue
                self.k.pop()
            elif act == 'push':
                self.k.append(g)
            self.s = t
            return self.acc()
        self.dead = True
        return False


def same(a, b):
    return a == b


def make(case):
    kind, init, rows = case[:3]
    St, Tr = (VpaState, VpaTransition) if kind == 'vpa' else (SevpaState, SevpaTransition)
    ss = [St('q%d' % i, r[0]) for i, r in enumerate(rows)]
    for s, r in zip(ss, rows):
        for a, t, act, g in r[1]:
            if kind == 'vpa':
                s.transitions[a].append(Tr(s, ss[t], a, act, g))
            else:
                s.transitions[a].append(Tr(ss[t], a, act, None if g is None else ('q%d' % g[0], g[1])))
    M = (Vpa if kind == 'vpa' else Sevpa)(ss[init], ss)
    return M, ss


def check(case):
    M, ss = make(case)
    R = Ref(case)
    sul = AutomatonSUL(M)
    M.reset_to_initial()
    A = M.get_input_alphabet()
    want = {'pop': set(), 'push': set(), None: set()}
    for _, tr in case[2]:
        for a, t, act, g in tr:
            want[act].add(a)
            if case[0] == 'sevpa' and act == 'pop':
                want['push'].add(g[1])
    for nm, got in (('pop', A.return_alphabet), ('push', A.call_alphabet), (None, A.internal_alphabet)):
        if set(got) != want[nm] or len(set(got)) != len(got):
            return 'the alphabet says %r for %s letters, the transitions use %r' % (got, nm, want[nm])
    for h in case[6] + (('reset',), ('step', case[7]), ('reset',), ('none',), ('exec', case[7]), ('query', case[7])):
        if h[0] == 'reset':
            M.reset_to_initial()
            R.reset()
        elif h[0] == 'none':
            g, e = M.step(None), R.step(None)
            if bool(g) != e:
                return 'the None letter answers %r, expected %r' % (g, e)
        elif h[0] == 'step':
            for i, a in enumerate(h[1]):
                g, e = M.step(a), R.step(a)
                if bool(g) != e:
                    return 'step %d of %r answers %r, expected %r' % (i, h[1], g, e)
        else:
            R.reset()
            e = [R.step(a) for a in h[1]]
            if h[0] == 'exec':
                g = list(M.execute_sequence(M.initial_state, h[1]))
            else:
                g = list(sul.query(h[1]))
                if not h[1]:
                    e = [R.acc()]
            if [bool(x) for x in g] != e:
                return '%s of %r after %r answers %r, expected %r' % (h[0], h[1], case[6], g, e)
    return None
