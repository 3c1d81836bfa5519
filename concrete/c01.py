from aalpy.base import SUL
from aalpy.base.SUL import CacheSUL
from lib import words, rand_word

RULE = ('histories of query / pre / step / post / add operations against a caching wrapper (tree and dictionary) around a table system that may '
        'change an answer; a reference table of recorded answers predicts every result, every contradiction and when the system is asked; '
        'non-trivial: at least two operations that reach the cache')


class Table(SUL):
    def __init__(self, seed, outs, quiet):
        super().__init__()
        self.seed, self.outs, self.h, self.flips, self.log = seed, outs, (), {}, []

    def f(self, w):
        if w in self.flips:
            return self.flips[w]
        return self.outs[det(self.seed, w) % len(self.outs)]

    def pre(self):
        self.h = ()
        self.log.append('pre')

    def post(self):
        self.log.append('post')

    def step(self, x):
        self.log.append(('step', x))
        if x is not None:
            self.h += (x,)
        return self.f(self.h)


def det(seed, w):
    r = seed * 7919 + 17
    for x in w:
        for ch in repr(x):
            r = (r * 31 + ord(ch)) % 1000003
        r = (r * 131 + 7) % 1000003
    return r // 7


def cases(ctx):
    rng = ctx.rng
    outsets = [(0, 1), ('a', 'b', None), (False, True), ('', 'x'), (0, 1, 2)]
    alph = [('a', 'b'), (0, 1), ('', 'z'), (0, 1, 2)]
    n = 0
    while True:
        a, o = rng.choice(alph), rng.choice(outsets)
        ops = []
        for _ in range(rng.randint(2, 14)):
            k = rng.random()
            if k < 0.5:
                ops.append(('q', rand_word(rng, a, 4)))
            elif k < 0.75:
                ops.append(('walk', rand_word(rng, a + (None,) if rng.random() < .3 else a, 4)))
            elif k < 0.85:
                ops.append(('flip', rand_word(rng, a, 3, 1), rng.choice(o)))
            elif k < 0.93:
                ops.append(('add', rand_word(rng, a, 3, 1)))
            else:
                ops.append(('open', rand_word(rng, a, 3)))
        yield (rng.choice(['tree', 'dict']), rng.randint(0, 10 ** 6), o, tuple(ops))


def nontrivial(case):
    return len([o for o in case[3] if o[0] != 'flip']) >= 2


def check(case):
    kind, seed, outs, ops = case
    t = Table(seed, outs, False)
    c = CacheSUL(t, cache_type=kind)
    rec = {}
    nq = ns = nc = 0
    for op in ops:
        if op[0] == 'flip':
            t.flips[op[1]] = op[2]
            continue
        mark = len(t.log)
        w = op[1]
        if op[0] == 'q':
            cached = len(w) > 0 and w in rec
            exp = [rec[w[:i + 1]] for i in range(len(w))] if cached else ([t.f(w[:i + 1]) for i in range(len(w))] if w else [t.f(())])
            conflict = not cached and any(w[:i + 1] in rec and rec[w[:i + 1]] != exp[i] for i in range(len(w)))
            try:
                r = c.query(w)
                if conflict:
                    return 'query %r contradicts the record but was not reported' % (w,)
            except SystemExit:
                return None if conflict else 'query %r: contradiction reported although there is none' % (w,)
            if list(r) != exp:
                return 'query %r returned %r, the record/system says %r' % (w, r, exp)
            asked = t.log[mark:]
            want = [] if cached else ['pre'] + [('step', x) for x in (w or (None,))] + ['post']
            if asked != want:
                return 'query %r drove the system with %r instead of %r' % (w, asked, want)
            if cached:
                nc += 1
            else:
                nq += 1
                ns += len(w)
            if (c.num_queries, c.num_steps, c.num_cached_queries) != (nq, ns, nc):
                return 'counters %r, expected %r' % ((c.num_queries, c.num_steps, c.num_cached_queries), (nq, ns, nc))
            for i in range(len(w)):
                rec[w[:i + 1]] = exp[i]
        elif op[0] in ('walk', 'open'):
            h = ()
            c.pre()
            want = ['pre']
            for x in w:
                h2 = h + (x,) if x is not None else h
                e = t.f(h2)
                conflict = x is not None and h2 in rec and rec[h2] != e
                try:
                    r = c.step(x)
                    if conflict:
                        return 'step to %r contradicts the record but was not reported' % (h2,)
                except SystemExit:
                    return None if conflict else 'step to %r: contradiction reported although there is none' % (h2,)
                if r != e:
                    return 'step to %r returned %r, the system answered %r' % (h2, r, e)
                h = h2
                if x is not None:
                    rec[h] = e
                want.append(('step', x))
            if op[0] == 'walk':
                c.post()
                want.append('post')
            if t.log[mark:] != want:
                return 'walk drove the system with %r instead of %r' % (t.log[mark:], want)
        elif op[0] == 'add':
            o = tuple(t.f(w[:i + 1]) for i in range(len(w)))
            conflict = any(w[:i + 1] in rec and rec[w[:i + 1]] != o[i] for i in range(len(w)))
            try:
                c.cache.add_to_cache(w, o)
                if conflict:
                    return 'sample %r/%r contradicts the record but was not reported' % (w, o)
            except SystemExit:
                return None if conflict else 'sample %r: contradiction reported although there is none' % (w,)
            for i in range(len(w)):
                rec[w[:i + 1]] = o[i]
    for w in words(sorted({x for op in ops for x in op[1] if x is not None}, key=repr), 3, 1):
        got = c.cache.in_cache(w)
        if (got is not None) != (w in rec):
            return 'in_cache(%r) = %r, recorded: %r' % (w, got, w in rec)
        if got is not None and list(got) != [rec[w[:i + 1]] for i in range(len(w))]:
            return 'in_cache(%r) = %r, recorded answers differ' % (w, got)
    return None
