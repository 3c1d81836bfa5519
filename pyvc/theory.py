"""Logical theory behind the verifier: sorts, operations and their axioms (Dafny-style sequences).

Every axiom here is part of the trusted base; `selfcheck` instantiates each on concrete sequences.
"""
import z3
from . import types as T
from .types import erase, tname


def FA(vs, body, pats=None, qid=''):
    if not vs:
        return body
    if pats:
        ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) and len(p) > 1 else (p[0] if isinstance(p, (list, tuple)) else p) for p in pats]
        return z3.ForAll(vs, body, patterns=ps, qid=qid or 'q')
    return z3.ForAll(vs, body, qid=qid or 'q')


class Theory:
    def __init__(self):
        self.sorts = {}
        self.ops = {}
        self.axioms = []          # (name, z3 formula)
        self.axiom_names = set()
        self.n = 0
        self.boxes = {}
        self.VAL = z3.DeclareSort('Val')
        self.none_val = z3.Const('NONE', self.VAL)
        self.tag = z3.Function('tag', self.VAL, z3.IntSort())
        self.truthy = z3.Function('truthy', self.VAL, z3.BoolSort())
        self.ax('val.none.tag', self.tag(self.none_val) == 0)
        self.ax('val.none.falsy', z3.Not(self.truthy(self.none_val)))

    def ax(self, name, f):
        if name not in self.axiom_names:
            self.axiom_names.add(name)
            self.axioms.append((name, f))

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    # -- sorts
    def sort(self, t):
        t = erase(t)
        k = t[0]
        if k == 'int':
            return z3.IntSort()
        if k == 'bool':
            return z3.BoolSort()
        if k == 'real':
            return z3.RealSort()
        if k == 'val' or k == 'none':
            return self.VAL
        if k == 'set':
            return z3.ArraySort(self.sort(t[1]), z3.BoolSort())
        if k == 'opt' and t[1][0] in ('ref', 'val'):
            return self.sort(t[1])
        if t in self.sorts:
            return self.sorts[t]
        if k == 'fld':
            return z3.ArraySort(self.sort(('ref', t[1])), self.sort(self.fieldty(t[1], t[2])))
        n = tname(t)
        if k == 'ref':
            s = z3.DeclareSort(n)
            self.sorts[t] = s
        elif k == 'seq':
            self.sort(t[1])
            s = z3.DeclareSort(n)
            self.sorts[t] = s
            self._seq_ops(t, s)
        elif k == 'map':
            ks, vs = self.sort(t[1]), self.sort(t[2])
            d = z3.Datatype(n)
            d.declare('mk_' + n, ('keys_' + n, self.sort(('seq', t[1], '?'))) if len(t) > 3 else ('dom_' + n, z3.ArraySort(ks, z3.BoolSort())), ('get_' + n, z3.ArraySort(ks, vs)))
            s = d.create()
            self.sorts[t] = s
        elif k == 'tup':
            d = z3.Datatype(n)
            d.declare('mk_' + n, *[('f%d_%s' % (i, n), self.sort(x)) for i, x in enumerate(t[1])])
            s = d.create()
            self.sorts[t] = s
        elif k == 'opt':
            d = z3.Datatype(n)
            d.declare('none_' + n)
            d.declare('some_' + n, ('the_' + n, self.sort(t[1])))
            s = d.create()
            self.sorts[t] = s
        else:
            raise T.TypeErr('no sort for %r' % (t,))
        return s

    def null(self, cls):
        return z3.Const('null_' + cls, self.sort(('ref', cls)))

    # -- boxing into Val
    def box(self, t):
        t = erase(t)
        if t in self.boxes:
            return self.boxes[t]
        s = self.sort(t)
        n = tname(t)
        b = z3.Function('box_' + n, s, self.VAL)
        u = z3.Function('unbox_' + n, self.VAL, s)
        tagno = len(self.boxes) + 1
        self.boxes[t] = (b, u, tagno)
        x = z3.Const('x', s)
        v = z3.Const('v', self.VAL)
        self.ax('box.%s.inv' % n, FA([x], u(b(x)) == x, [b(x)], 'box_inv_' + n))
        self.ax('box.%s.tag' % n, FA([x], self.tag(b(x)) == tagno, [b(x)], 'box_tag_' + n))
        self.ax('box.%s.onto' % n, FA([v], z3.Implies(self.tag(v) == tagno, b(u(v)) == v), [u(v)], 'box_onto_' + n))
        tr = None
        if t == T.BOOL:
            tr = x
        elif t == T.INT:
            tr = x != 0
        elif t[0] == 'seq':
            tr = self.op(t, 'len')(x) > 0
        if tr is not None:
            self.ax('box.%s.truthy' % n, FA([x], self.truthy(b(x)) == tr, [b(x)], 'box_truthy_' + n))
        return self.boxes[t]

    # -- options
    def none(self, t):
        """none of type opt(t[1])"""
        assert t[0] == 'opt'
        if t[1][0] == 'ref':
            return self.null(t[1][1])
        if t[1][0] == 'val':
            return self.none_val
        return self.sort(t).constructor(0)()

    def is_none(self, t, x):
        if t[1][0] in ('ref', 'val'):
            return x == self.none(t)
        return self.sort(t).recognizer(0)(x)

    def the(self, t, x):
        if t[1][0] in ('ref', 'val'):
            return x
        return self.sort(t).accessor(1, 0)(x)

    def some(self, t, x):
        if t[1][0] in ('ref', 'val'):
            return x
        return self.sort(t).constructor(1)(x)

    # -- maps
    def map_mk(self, t, dom, get):
        return self.sort(t).constructor(0)(dom, get)

    def keyty(self, t):
        return ('seq', t[1], '?')

    def map_empty(self, t, get):
        return self.map_mk(t, self.op(self.keyty(t), 'empty') if len(t) > 3 else z3.K(self.sort(t[1]), False), get)

    def map_put(self, t, m, k, v):
        get = z3.Store(self.map_get(t, m), k, v)
        if len(t) > 3:
            return self.map_mk(t, self.op(self.keyty(t), 'addnew')(self.map_fst(t, m), k), get)
        return self.map_mk(t, z3.Store(self.map_dom(t, m), k, True), get)

    def map_rem(self, t, m, k):
        if len(t) > 3:
            ks, kt = self.map_fst(t, m), self.keyty(t)
            return self.map_mk(t, z3.If(self.op(kt, 'contains')(ks, k), self.op(kt, 'del_')(ks, self.op(kt, 'idx')(ks, k)), ks), self.map_get(t, m))
        return self.map_mk(t, z3.Store(self.map_dom(t, m), k, False), self.map_get(t, m))

    def map_fst(self, t, m):
        return z3.simplify(self.sort(t).accessor(0, 0)(m)) if z3.is_app(m) and m.decl().eq(self.sort(t).constructor(0)) else self.sort(t).accessor(0, 0)(m)

    def map_dom(self, t, m):
        if len(t) > 3:
            return self.op(self.keyty(t), 'toset')(self.map_fst(t, m))
        return z3.simplify(self.sort(t).accessor(0, 0)(m)) if z3.is_app(m) and m.decl().eq(self.sort(t).constructor(0)) else self.sort(t).accessor(0, 0)(m)

    def map_get(self, t, m):
        return z3.simplify(self.sort(t).accessor(0, 1)(m)) if z3.is_app(m) and m.decl().eq(self.sort(t).constructor(0)) else self.sort(t).accessor(0, 1)(m)

    def tup_mk(self, t, xs):
        return self.sort(t).constructor(0)(*xs)

    def tup_get(self, t, x, i):
        if z3.is_app(x) and x.decl().eq(self.sort(t).constructor(0)):
            return x.arg(i)
        return self.sort(t).accessor(0, i)(x)

    # -- sequences
    def op(self, t, name):
        t = erase(t)
        self.sort(t)
        return self.ops[t][name]

    def _seq_ops(self, t, S):
        E = self.sort(t[1])
        I = z3.IntSort()
        B = z3.BoolSort()
        n = tname(t)
        F = z3.Function
        o = dict(
            len=F('len_' + n, S, I), at=F('at_' + n, S, I, E), snoc=F('snoc_' + n, S, E, S),
            concat=F('concat_' + n, S, S, S), take=F('take_' + n, S, I, S), drop=F('drop_' + n, S, I, S),
            upd=F('upd_' + n, S, I, E, S), eq=F('eq_' + n, S, S, B), diff=F('diff_' + n, S, S, I),
            rev=F('rev_' + n, S, S), contains=F('contains_' + n, S, E, B), idx=F('idx_' + n, S, E, I),
            empty=z3.Const('empty_' + n, S), toset=F('toset_' + n, S, z3.ArraySort(E, B)),
            addnew=F('addnew_' + n, S, E, S), del_=F('del_' + n, S, I, S), perm=F('perm_' + n, S, S, B), every2=F('every2_' + n, S, S))
        self.ops[t] = o
        ln, at, snoc, cat, take, drop, upd, eq, diff, rev, cont, idx, empty, toset = (
            o[k] for k in 'len at snoc concat take drop upd eq diff rev contains idx empty toset'.split())
        s, u, w = z3.Consts('s u w', S)
        i, j, k = z3.Ints('i j k')
        x, y = z3.Consts('x y', E)
        A, I_, N, O = z3.And, z3.Implies, z3.Not, z3.Or
        p = 'seq.%s.' % n

        def ax(name, vs, body, pats):
            self.ax(p + name, FA(vs, body, pats, n + '_' + name))
        ax('len_nonneg', [s], ln(s) >= 0, [ln(s)])
        self.ax(p + 'len_empty', ln(empty) == 0)
        ax('len0', [s], I_(ln(s) == 0, s == empty), [ln(s)])
        ax('snoc_len', [s, x], ln(snoc(s, x)) == ln(s) + 1, [snoc(s, x)])
        ax('snoc_last', [s, x], at(snoc(s, x), ln(s)) == x, [snoc(s, x)])
        ax('snoc_at', [s, x, i], I_(A(0 <= i, i < ln(s)), at(snoc(s, x), i) == at(s, i)),
           [[at(snoc(s, x), i)], [snoc(s, x), at(s, i)]])
        ax('cat_len', [s, u], ln(cat(s, u)) == ln(s) + ln(u), [cat(s, u)])
        ax('cat_at', [s, u, i], A(I_(A(0 <= i, i < ln(s)), at(cat(s, u), i) == at(s, i)),
                                  I_(A(ln(s) <= i, i < ln(s) + ln(u)), at(cat(s, u), i) == at(u, i - ln(s)))),
           [[at(cat(s, u), i)]])
        ax('cat_at1', [s, u, i], I_(A(0 <= i, i < ln(s)), at(cat(s, u), i) == at(s, i)), [[cat(s, u), at(s, i)]])
        ax('cat_at2', [s, u, i], I_(A(0 <= i, i < ln(u)), at(cat(s, u), i + ln(s)) == at(u, i)), [[cat(s, u), at(u, i)]])
        ax('cat_e1', [s], cat(empty, s) == s, [cat(empty, s)])
        ax('cat_e2', [s], cat(s, empty) == s, [cat(s, empty)])
        ax('cat_snoc', [s, u, x], cat(s, snoc(u, x)) == snoc(cat(s, u), x), [[cat(s, snoc(u, x))], [snoc(cat(s, u), x)]])
        ax('cat_assoc', [s, u, w], cat(cat(s, u), w) == cat(s, cat(u, w)), [[cat(cat(s, u), w)], [cat(s, cat(u, w))]])
        ax('take_len', [s, i], I_(A(0 <= i, i <= ln(s)), ln(take(s, i)) == i), [take(s, i)])
        ax('take_at', [s, i, j], I_(A(0 <= j, j < i, i <= ln(s)), at(take(s, i), j) == at(s, j)),
           [[at(take(s, i), j)], [take(s, i), at(s, j)]])
        ax('take_all', [s, i], I_(i == ln(s), take(s, i) == s), [take(s, i)])
        ax('take_0', [s, i], I_(i == 0, take(s, i) == empty), [take(s, i)])
        ax('take_snoc', [s, x, i], I_(A(0 <= i, i <= ln(s)), take(snoc(s, x), i) == take(s, i)), [take(snoc(s, x), i)])
        ax('take_take', [s, i, j], I_(A(0 <= j, j <= i, i <= ln(s)), take(take(s, i), j) == take(s, j)), [take(take(s, i), j)])
        ax('take_cat', [s, u, i], A(I_(A(0 <= i, i <= ln(s)), take(cat(s, u), i) == take(s, i)),
                                    I_(A(ln(s) <= i, i <= ln(s) + ln(u)), take(cat(s, u), i) == cat(s, take(u, i - ln(s))))),
           [take(cat(s, u), i)])
        ax('take_next', [s, i], I_(A(0 <= i, i < ln(s)), snoc(take(s, i), at(s, i)) == take(s, i + 1)), [[take(s, i), at(s, i)]])
        ax('drop_len', [s, i], I_(A(0 <= i, i <= ln(s)), ln(drop(s, i)) == ln(s) - i), [drop(s, i)])
        ax('drop_at', [s, i, j], I_(A(0 <= j, 0 <= i, j < ln(s) - i), at(drop(s, i), j) == at(s, i + j)), [[at(drop(s, i), j)]])
        ax('drop_at2', [s, i, j], I_(A(0 <= i, i <= j, j < ln(s)), at(drop(s, i), j - i) == at(s, j)), [[drop(s, i), at(s, j)]])
        ax('drop_0', [s, i], I_(i == 0, drop(s, i) == s), [drop(s, i)])
        ax('drop_all', [s, i], I_(i == ln(s), drop(s, i) == empty), [drop(s, i)])
        ax('drop_drop', [s, i, j], I_(A(0 <= i, 0 <= j, i + j <= ln(s)), drop(drop(s, i), j) == drop(s, i + j)), [drop(drop(s, i), j)])
        ax('drop_snoc', [s, x, i], I_(A(0 <= i, i <= ln(s)), drop(snoc(s, x), i) == snoc(drop(s, i), x)), [drop(snoc(s, x), i)])
        ax('drop_cat', [s, u, i], A(I_(A(0 <= i, i <= ln(s)), drop(cat(s, u), i) == cat(drop(s, i), u)),
                                    I_(A(ln(s) <= i, i <= ln(s) + ln(u)), drop(cat(s, u), i) == drop(u, i - ln(s)))), [drop(cat(s, u), i)])
        ax('take_drop', [s, i], I_(A(0 <= i, i <= ln(s)), cat(take(s, i), drop(s, i)) == s), [[take(s, i), drop(s, i)]])
        ax('upd_len', [s, i, x], ln(upd(s, i, x)) == ln(s), [upd(s, i, x)])
        ax('upd_at', [s, i, x, j], I_(A(0 <= j, j < ln(s)), at(upd(s, i, x), j) == z3.If(i == j, x, at(s, j))),
           [[at(upd(s, i, x), j)], [upd(s, i, x), at(s, j)]])
        ax('eq_def', [s, u], eq(s, u) == (s == u), [eq(s, u)])
        d = diff(s, u)
        ax('eq_ext', [s, u], O(eq(s, u), ln(s) != ln(u), A(0 <= d, d < ln(s), at(s, d) != at(u, d))), [eq(s, u)])
        ax('rev_len', [s], ln(rev(s)) == ln(s), [rev(s)])
        ax('rev_at', [s, i], I_(A(0 <= i, i < ln(s)), at(rev(s), i) == at(s, ln(s) - 1 - i)), [at(rev(s), i)])
        ax('rev_at2', [s, i], I_(A(0 <= i, i < ln(s)), at(rev(s), ln(s) - 1 - i) == at(s, i)), [[rev(s), at(s, i)]])
        ax('cont_idx', [s, x], I_(cont(s, x), A(0 <= idx(s, x), idx(s, x) < ln(s), at(s, idx(s, x)) == x)), [cont(s, x)])
        ax('cont_at', [s, i], I_(A(0 <= i, i < ln(s)), cont(s, at(s, i))), [at(s, i)])
        ax('cont_snoc', [s, x, y], cont(snoc(s, x), y) == O(cont(s, y), x == y), [cont(snoc(s, x), y)])
        ax('cont_cat', [s, u, x], cont(cat(s, u), x) == O(cont(s, x), cont(u, x)), [cont(cat(s, u), x)])
        ax('cont_empty', [x], N(cont(empty, x)), [cont(empty, x)])
        ev2 = o['every2']
        ax('every2_len', [s], A(2 * ln(ev2(s)) >= ln(s), 2 * ln(ev2(s)) <= ln(s) + 1), [ev2(s)])
        ax('every2_at', [s, i], I_(A(0 <= i, 2 * i < ln(s)), at(ev2(s), i) == at(s, 2 * i)), [at(ev2(s), i)])
        ax('cont_rev', [s, x], cont(rev(s), x) == cont(s, x), [cont(rev(s), x)])
        addnew = o['addnew']
        ax('addnew', [s, x], addnew(s, x) == z3.If(cont(s, x), s, snoc(s, x)), [addnew(s, x)])
        ax('addnew_cont', [s, x, y], cont(addnew(s, x), y) == O(cont(s, y), x == y), [cont(addnew(s, x), y)])
        ax('addnew_at', [s, x, i], I_(A(0 <= i, i < ln(s)), at(addnew(s, x), i) == at(s, i)), [at(addnew(s, x), i)])
        ax('addnew_fst', [s, x], A(ln(addnew(s, x)) > 0, ln(addnew(s, x)) >= ln(s), I_(ln(s) == 0, at(addnew(s, x), z3.IntVal(0)) == x)), [addnew(s, x)])
        ax('toset', [s, x], z3.Select(toset(s), x) == cont(s, x), [z3.Select(toset(s), x)])
        ax('toset_at', [s, i], I_(A(0 <= i, i < ln(s)), z3.Select(toset(s), at(s, i))), [[toset(s), at(s, i)]])
        dl = o['del_']
        ax('del_len', [s, i], I_(A(0 <= i, i < ln(s)), ln(dl(s, i)) == ln(s) - 1), [dl(s, i)])
        ax('del_at', [s, i, j], I_(A(0 <= i, i < ln(s), 0 <= j, j < ln(s) - 1), at(dl(s, i), j) == z3.If(j < i, at(s, j), at(s, j + 1))),
           [[at(dl(s, i), j)]])
        ax('del_at2', [s, i, j], I_(A(0 <= i, i < ln(s), 0 <= j, j < ln(s), i != j), at(dl(s, i), z3.If(j < i, j, j - 1)) == at(s, j)),
           [[dl(s, i), at(s, j)]])

    # -- finite-set cardinality (of the executor's sets)
    def card(self, t):
        t = erase(t)
        n = 'card_' + tname(t)
        if n in self.ops:
            return self.ops[n]
        S = self.sort(t)
        c = z3.Function(n, S, z3.IntSort())
        self.ops[n] = c
        s = z3.Const('s', S)
        x = z3.Const('x', self.sort(t[1]))
        wit = z3.Function(n + '_wit', S, self.sort(t[1]))
        self.ax(n + '.nonneg', FA([s], c(s) >= 0, [c(s)], n))
        self.ax(n + '.empty', c(z3.K(self.sort(t[1]), False)) == 0)
        self.ax(n + '.zero', FA([s], z3.Or(c(s) == 0, z3.Select(s, wit(s))), [c(s)], n))
        self.ax(n + '.pos', FA([s, x], z3.Implies(z3.Select(s, x), c(s) > 0), [[c(s), z3.Select(s, x)]], n))
        self.ax(n + '.add', FA([s, x], c(z3.Store(s, x, True)) == z3.If(z3.Select(s, x), c(s), c(s) + 1), [c(z3.Store(s, x, True))], n))
        self.ax(n + '.del', FA([s, x], c(z3.Store(s, x, False)) == z3.If(z3.Select(s, x), c(s) - 1, c(s)), [c(z3.Store(s, x, False))], n))
        return c
