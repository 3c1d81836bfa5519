from aalpy.base import SUL
from aalpy.SULs import AutomatonSUL
from aalpy.SULs.PyMethodSUL import FunctionDecorator, PyClassSUL
from aalpy.SULs import TomitaSUL, RegexSUL
from lib import *
import re

RULE = ('membership, tuple and adaptive queries on recording systems and on wrapped automata with earlier, also interrupted, executions; '
        'checks order of reset/steps/cleanup, answers and counters; non-trivial: at least two operations')


class Rec(SUL):
    def __init__(self):
        super().__init__()
        self.log = []
        self.n = 0

    def pre(self):
        self.log.append('pre')
        self.n = 0

    def post(self):
        self.log.append('post')

    def step(self, x):
        self.log.append(('step', x))
        self.n += 1
        return (self.n, x)


class Obj:
    """system of the method wrapper: records its calls"""
    log = []

    def __init__(self):
        Obj.log.append('new')
        self.h = ()

    def one(self):
        self.h += ('one',)
        return ('one', self.h)

    def arg(self, x):
        self.h += (('arg', x),)
        return ('arg', x, self.h)

    def args(self, x, y):
        self.h += (('args', x, y),)
        return ('args', x, y, self.h)


def cases(ctx):
    rng = ctx.rng
    while True:
        k = rng.choice(['rec', 'aut', 'aut', 'aut', 'py', 'ads', 'word'])
        al = rng.choice(ALPHABETS)
        ops = []
        for _ in range(rng.randint(1, 6)):
            a2 = al + (None,) if k == 'rec' or rng.random() < .1 else al
            ops.append((rng.choice(['q', 'q', 'open', 'io']), rand_word(rng, a2, 5)))
        if k == 'aut':
            kind = rng.choice(KINDS)
            ops = [(o, tuple(x for x in w if x is not None) if kind == 'mealy' else w) for o, w in ops]
            yield (k, rand_machine(rng, kind, alphabet=al), tuple(ops))
        elif k == 'rec':
            yield (k, None, tuple(ops))
        elif k == 'word':
            al = rng.choice([('0', '1'), (0, 1)])
            yield (k, rng.choice([1, 2, 4, 5, 6, 7, '(01)*', '0*1?', '1(0|11)+']), tuple((rng.choice(['q', 'q', 'open']), rand_word(rng, al, 6)) for _ in range(rng.randint(1, 5))))
        elif k == 'ads':
            yield (k, rand_machine(rng, 'mealy', alphabet=('a', 'b')), tuple((rand_word(rng, ('a', 'b'), 3), rand_word(rng, ('a', 'b'), 4)) for _ in range(3)))
        else:
            yield (k, None, tuple((o, tuple(rng.randrange(5) for _ in range(rng.randint(0, 4)))) for o, _ in ops))


def nontrivial(case):
    return len(case[2]) >= 2


TOMITA = {1: lambda t: set(t) <= {'1'}, 2: lambda t: all(t[i:i + 2] == '10' for i in range(0, len(t), 2)), 4: lambda t: '000' not in t,
          5: lambda t: sum(x == '0' for x in t) % 2 == 0 and sum(x == '1' for x in t) % 2 == 0,
          6: lambda t: (sum(x == '0' for x in t) - sum(x == '1' for x in t)) % 3 == 0, 7: lambda t: sum(t[i:i + 2] == '10' for i in range(len(t))) <= 1}


class Ads:
    """an adaptive sequence: fixed inputs, records what it was told"""
    def __init__(self, w):
        self.w, self.i, self.told = w, 0, []

    def next_input(self, prev):
        self.told.append(prev)
        if self.i < len(self.w):
            self.i += 1
            return self.w[self.i - 1]
        return None


def check(case):
    k, m, ops = case
    if k == 'rec':
        s = Rec()
        nq = ns = 0
        for o, w in ops:
            mark = len(s.log)
            if o == 'open':
                s.pre()
                for x in w:
                    s.step(x)
                continue
            if o == 'io' and hasattr(s, 'io_query') and None in w:
                continue
            if o == 'io':
                r = s.io_query(w)
                if [tuple(x) for x in r] != [(x, (i + 1, x)) for i, x in enumerate(w)]:
                    return 'io_query(%r) = %r' % (w, r)
                nq += 1
                ns += len(w)
            else:
                r = list(s.query(w))
                if r != [(i + 1, x) for i, x in enumerate(w or (None,))]:
                    return 'query(%r) = %r' % (w, r)
                nq += 1
                ns += len(w)
            want = ['pre'] + [('step', x) for x in (w or (None,))] + ['post']
            if s.log[mark:] != want:
                return '%s(%r) drove the system with %r' % (o, w, s.log[mark:])
            if (s.num_queries, s.num_steps) != (nq, ns):
                return 'counters %r instead of %r' % ((s.num_queries, s.num_steps), (nq, ns))
        return None
    if k == 'aut':
        M, ss = build(m)
        s = AutomatonSUL(M)
        nq = ns = 0
        for o, w in ops:
            exp = m_run(m, m[1], w)[0]
            if o == 'open':
                s.pre()
                got = [s.step(x) for x in w]
                if got != exp:
                    return 'stepping %r answered %r instead of %r' % (w, got, exp)
                continue
            if not w and m[0] == 'mealy':
                continue
            if not w:
                exp = [m_label(m, m[1])]
            r = list(s.query(w)) if o == 'q' else s.io_query(w)
            nq += 1
            ns += len(w)
            if o == 'io':
                exp = list(zip(w, exp))
            if r != exp:
                return 'query(%r) = %r instead of %r' % (w, r, exp)
            if (s.num_queries, s.num_steps) != (nq, ns):
                return 'counters %r instead of %r' % ((s.num_queries, s.num_steps), (nq, ns))
        return None
    if k == 'ads':
        M, ss = build(m)

        class L(AutomatonSUL):
            def pre(self):
                log.append('pre')
                super().pre()

            def post(self):
                log.append('post')
                super().post()
        s = L(M)
        for p, w in ops:
            log = []
            steps0, q0 = s.num_steps, s.num_queries
            a = Ads(w)
            r = s.adaptive_query(list(p), a)
            full = p + w
            out = m_run(m, m[1], full)[0]
            if not (len(r) == 2 and tuple(r[0]) == full and list(r[1]) == out):
                return 'adaptive query (%r, %r) = %r' % (p, w, r)
            told = [None] + out[len(p):]
            if a.told != told:
                return 'the adaptive sequence was told %r instead of %r' % (a.told, told)
            if log != ['pre', 'post']:
                return 'adaptive query: %r' % (log,)
            if s.num_steps - steps0 != len(full) or s.num_queries - q0 != 1:
                return 'adaptive query of %d steps counted %d steps, %d queries' % (len(full), s.num_steps - steps0, s.num_queries - q0)
        return None
    if k == 'word':
        s = RegexSUL(m) if isinstance(m, str) else TomitaSUL(m)
        acc = (lambda t: re.fullmatch(m, t) is not None) if isinstance(m, str) else TOMITA[m]
        nq = ns = 0
        for o, w in ops:
            if o == 'open':
                s.pre()
                got = [s.step(x) for x in w]
                exp = [acc(''.join(map(str, w[:i + 1]))) for i in range(len(w))]
            else:
                got = list(s.query(w))
                exp = [acc(''.join(map(str, w[:i + 1]))) for i in range(len(w))] or [acc('')]
                nq, ns = nq + 1, ns + len(w)
            if got != exp:
                return '%r answered %r to %r instead of %r' % (m, got, w, exp)
            if (s.num_queries, s.num_steps) != (nq, ns):
                return 'counters %r instead of %r' % ((s.num_queries, s.num_steps), (nq, ns))
        return None
    fs = [FunctionDecorator(Obj.one), FunctionDecorator(Obj.arg, 1), FunctionDecorator(Obj.arg, 'u'), FunctionDecorator(Obj.args, [1, 2]), FunctionDecorator(Obj.args, ['p', 'q'])]
    s = PyClassSUL(Obj)
    for o, w in ops:
        h, exp = (), []
        for i in w:
            c = ['one', ('arg', 1), ('arg', 'u'), ('args', 1, 2), ('args', 'p', 'q')][i]
            h += (c,)
            exp.append((('one', h) if c == 'one' else c + (h,)))
        if not w:
            continue
        if o == 'open':
            s.pre()
            got = [s.step(fs[i]) for i in w]
        else:
            got = list(s.query(tuple(fs[i] for i in w)))
        if got != exp:
            return 'method wrapper answered %r instead of %r' % (got, exp)
    return None
