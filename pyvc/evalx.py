"""Expression evaluation (code mode and specification mode)."""
import ast
import z3
from . import types as T
from .types import INT, BOOL, REAL, VAL, NONE, FUN, erase, tname
from .exec import Exec, V, State, Frame, Unsupported, A_, O_, N_, I_, simp_select
from .world import split_binders

MUTABLE = ('set', 'map')


def mutable(ty):
    return ty[0] in MUTABLE or (ty[0] == 'seq' and ty[2] != 'T') or ty[0] == 'empty'


class Iter:
    """an iterable: length term, element function k -> V, optional underlying sequence"""

    def __init__(self, n, at, seqv=None, ty=None):
        self.n, self.at, self.seqv, self.ty = n, at, seqv, ty


class EvalMixin(Exec):
    # ---------------------------------------------------------------- entry points
    def ev(self, e, st):
        """list of (state, V)"""
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s: %s' % (type(e).__name__, ast.unparse(e)[:80]))
        return m(e, st)

    def evs(self, es, st):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def spec(self, text, st, extra=None, old=None):
        """evaluate a specification expression to a V; pure"""
        node = ast.parse(text.strip(), mode='eval').body if isinstance(text, str) else text
        s = st.copy()
        if extra:
            s.envs.append(dict(extra, **{'$parent': len(s.envs) - 1}))
        if old is not None:
            s.old = old
        self.spec_depth += 1
        try:
            r = self.ev(node, s)
        except Unsupported as ex:
            raise Unsupported('%s  [in spec: %s]' % (ex, text if isinstance(text, str) else ast.unparse(text)))
        finally:
            self.spec_depth -= 1
        if len(r) != 1:
            raise Unsupported('specification forks: %s' % text)
        return r[0][1]

    def specb(self, text, st, extra=None, old=None):
        return self.truth(self.spec(text, st, extra, old))

    # ---------------------------------------------------------------- truth and equality
    def truth(self, v):
        k = v.ty[0]
        th = self.th
        if k == 'bool':
            return v.t
        if k == 'none':
            return z3.BoolVal(False)
        if k == 'int':
            return v.t != 0
        if k == 'real':
            return v.t != 0
        if k == 'seq':
            return th.op(v.ty, 'len')(v.t) > 0
        if k == 'val':
            return th.truthy(v.t)
        if k == 'ref':
            return v.t != th.null(v.ty[1])
        if k == 'opt':
            if v.ty[1][0] == 'ref':
                return v.t != th.null(v.ty[1][1])
            if v.ty[1] == VAL:
                return th.truthy(v.t)
            return A_(N_(th.is_none(v.ty, v.t)), self.truth(V(v.ty[1], th.the(v.ty, v.t))))
        if k == 'set':
            return th.card(v.ty)(v.t) > 0
        if k == 'map':
            return th.op(th.keyty(v.ty), 'len')(th.map_fst(v.ty, v.t)) > 0 if len(v.ty) > 3 else th.card(('set', v.ty[1]))(th.map_dom(v.ty, v.t)) > 0
        if k == 'tup':
            return z3.BoolVal(len(v.ty[1]) > 0)
        if k == 'empty':
            return z3.BoolVal(False)
        if k in ('fun', 'cls'):
            return z3.BoolVal(True)
        raise Unsupported('truth of %r' % (v,))

    def equal(self, a, b):
        th = self.th
        if a.ty == NONE and b.ty == NONE:
            return z3.BoolVal(True)
        if b.ty == NONE:
            a, b = b, a
        if a.ty == NONE:
            if b.ty[0] == 'opt':
                return th.is_none(b.ty, b.t)
            if b.ty == VAL:
                return b.t == th.none_val
            if b.ty[0] == 'ref':
                return b.t == th.null(b.ty[1])
            return z3.BoolVal(False)
        if isinstance(a.const, str) and isinstance(b.const, str):
            return z3.BoolVal(a.const == b.const)
        if a.ty[0] == 'empty' and b.ty[0] == 'empty':
            return z3.BoolVal(True)
        if a.ty[0] == 'empty':
            a, b = b, a
        if b.ty[0] == 'empty':
            if a.ty[0] == 'tup':
                return z3.BoolVal(len(a.ty[1]) == 0)
            b = self.empty_of(a.ty)
        if a.ty[0] == 'tup' and b.ty[0] == 'tup':
            pa, pb = self.parts(a), self.parts(b)
            if len(pa) != len(pb):
                return z3.BoolVal(False)
            return A_(*[self.equal(x, y) for x, y in zip(pa, pb)]) if pa else z3.BoolVal(True)
        if a.ty[0] == 'seq' and b.ty[0] == 'seq':
            if a.ty[2] != b.ty[2] and '?' not in (a.ty[2], b.ty[2]) and not self.spec_depth:
                return z3.BoolVal(False)
            if erase(a.ty) == erase(b.ty):
                return th.op(a.ty, 'eq')(a.t, b.t)
        if a.ty[0] == 'tup' and b.ty[0] == 'seq':
            a, b = b, a
        if a.ty[0] == 'seq' and b.ty[0] == 'tup':
            if a.ty[2] == 'L' and not self.spec_depth:
                return z3.BoolVal(False)
            ps = self.parts(b)
            ln, at = th.op(a.ty, 'len'), th.op(a.ty, 'at')
            return A_(ln(a.t) == len(ps), *[self.equal(V(a.ty[1], at(a.t, i)), p) for i, p in enumerate(ps)])
        if erase(a.ty) == erase(b.ty):
            if a.ty[0] == 'map':
                # dict equality: same keys, same values on the keys
                x = z3.Const('mk', th.sort(a.ty[1]))
                da, db = th.map_dom(a.ty, a.t), th.map_dom(a.ty, b.t)
                ga, gb = th.map_get(a.ty, a.t), th.map_get(a.ty, b.t)
                return A_(da == db, z3.ForAll([x], I_(z3.Select(da, x), self.equal(V(a.ty[2], z3.Select(ga, x)), V(a.ty[2], z3.Select(gb, x)))),
                                               patterns=[z3.Select(ga, x), z3.Select(gb, x)]))
            return a.t == b.t
        num = ('int', 'real', 'bool')
        if a.ty[0] in num and b.ty[0] in num:
            if 'real' in (a.ty[0], b.ty[0]):
                return self.coerce(a, REAL).t == self.coerce(b, REAL).t
            return self.coerce(a, INT).t == self.coerce(b, INT).t
        if a.ty[0] == 'opt' and b.ty[0] != 'opt' and b.ty != VAL:
            b2 = self.coerce(b, a.ty)
            return a.t == b2.t
        if b.ty[0] == 'opt' and a.ty[0] != 'opt' and a.ty != VAL:
            return self.equal(b, a)
        if a.ty == VAL or b.ty == VAL:
            return self.coerce(a, VAL).t == self.coerce(b, VAL).t
        if a.ty[0] == 'ref' and b.ty[0] == 'ref':
            return z3.BoolVal(False)
        raise Unsupported('comparison of %s and %s' % (tname(a.ty), tname(b.ty)))

    def strip_opt(self, v, st, what='value'):
        while v.ty[0] == 'opt':
            if not self.spec_depth:
                self.oblige(st, N_(self.th.is_none(v.ty, v.t)), '%s is not None' % what)
                st.pc.append(N_(self.th.is_none(v.ty, v.t)))
            v = V(v.ty[1], self.th.the(v.ty, v.t))
        return v

    # ---------------------------------------------------------------- simple nodes
    def ev_Constant(self, e, st):
        return [(st, self.const(e.value))]

    def ev_JoinedStr(self, e, st):
        return [(st, self.fresh('fstr', VAL))]

    def ev_Name(self, e, st):
        n = e.id
        v = self.lookup(st, n)
        if v is not None:
            if mutable(v.ty) and v.place is None:
                i = len(st.envs) - 1
                while i is not None and n not in st.envs[i]:
                    i = st.envs[i].get('$parent')
                v = V(v.ty, v.t, place=('var', i, n), data=v.data, parts=v.parts)
            return [(st, v)]
        return [(st, self.global_name(n, st))]

    def global_name(self, n, st):
        if n in self.w.specfns or n in self.w.lemmas:
            return V(FUN, data=('specfn', n))
        if n in self.w.enums:
            return self.w.enums[n]
        if st.frames:
            r = self.src.resolve(st.frames[-1].path, n)
            if r is not None:
                return self.from_resolved(r, n, st)
        if n in self.w.classes:
            return V(('cls', n), data=('cls', n))
        if n in BUILTINS or n in SPECIAL:
            return V(FUN, data=('builtin', n))
        raise Unsupported('name %s' % n)

    def from_resolved(self, r, n, st):
        kind = r[0]
        if kind == 'def':
            return V(FUN, data=('def', r[1], r[2], None, None))
        if kind == 'class':
            for cn, c in self.w.classes.items():
                if c.src and c.src == '%s::%s' % (r[1], r[2].name):
                    return V(('cls', cn), data=('cls', cn))
            return V(('cls', n), data=('xcls', r[1], r[2]))
        if kind == 'const':
            return self.ev_module_const(r[1], r[2], st)
        if kind in ('ext', 'extmod', 'mod'):
            return V(('mod', r[1]), data=('ext', r[1] if kind == 'extmod' else (str(r[1]) + '.' + str(r[2]))))
        raise Unsupported('global %s' % n)

    def ev_module_const(self, path, node, st):
        fr = Frame(path, None, None, None, 0)
        st.frames.append(fr)
        try:
            r = self.ev(node, st)
        finally:
            st.frames.pop()
        return r[0][1]

    def ev_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.display_star(e, st, 'T')
        if not e.elts:
            return [(st, V(('empty', 'T'), own='fresh'))]
        return [(s, V(('tup', tuple(self.norm(v).ty for v in vs)), parts=[self.norm(v) for v in vs])) for s, vs in self.evs(e.elts, st)]

    def norm(self, v):
        if v.ty[0] == 'empty':
            return v
        if v.ty == NONE:
            return v
        return v

    def display_star(self, e, st, kind):
        out = []
        for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
            acc = None
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    piece = self.to_seq(v, s, kind)
                else:
                    piece = self.mkseq([v], ('seq', v.ty, kind))
                acc = piece if acc is None else self.concat(acc, piece, s)
            acc = V(('seq', acc.ty[1], kind), acc.t, own='fresh')
            out.append((s, acc))
        return out

    def join_ty(self, tys):
        tys = list(tys)
        t0 = tys[0]
        if all(t == t0 for t in tys):
            return t0
        nn = [t for t in tys if t != NONE and t[0] != 'empty']
        if not nn:
            return VAL
        if any(t == VAL for t in nn):
            return VAL
        if any(t == NONE for t in tys):
            b = self.join_ty(nn)
            return b if b[0] == 'opt' or b == VAL else ('opt', b)
        opt = any(t[0] == 'opt' for t in nn)
        cores = [t[1] if t[0] == 'opt' else t for t in nn]
        if all(erase(c) == erase(cores[0]) for c in cores):
            return ('opt', cores[0]) if opt else cores[0]
        seqs = [c for c in cores if c[0] == 'seq']
        if seqs and all(c[0] in ('seq', 'tup') for c in cores) and all(erase(c) == erase(seqs[0]) for c in seqs) \
                and all(self.join_ty([seqs[0][1]] + list(c[1])) == seqs[0][1] for c in cores if c[0] == 'tup'):
            return ('opt', seqs[0]) if opt else seqs[0]
        if all(c[0] in ('int', 'real', 'bool') for c in cores):
            if any(c == REAL for c in cores):
                return REAL
            return VAL
        return VAL

    expect = None

    def ev_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.display_star(e, st, 'L')
        if not e.elts:
            return [(st, V(('empty', 'L'), own='fresh'))]
        out = []
        want = self.expect[1] if self.expect and self.expect[0] is e else None
        for s, vs in self.evs(e.elts, st):
            ty = want[1] if want and want[0] == 'seq' else self.join_ty([v.ty for v in vs])
            lit = self.mkseq([self.coerce(v, ty, s) for v in vs], ('seq', ty, 'L'))
            if not self.spec_depth:
                at = self.th.op(lit.ty, 'at')
                for i, v in enumerate(vs):
                    s.pc.append(at(lit.t, z3.IntVal(i)) == self.term(self.coerce(v, ty, s)))
            out.append((s, lit))
        return out

    def ev_Set(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            ty = self.join_ty([v.ty for v in vs])
            t = z3.K(self.th.sort(ty), False)
            for v in vs:
                t = z3.Store(t, self.term(self.coerce(v, ty, s)), True)
            out.append((s, V(('set', ty), t, own='fresh')))
        return out

    def ev_Dict(self, e, st):
        if not e.keys:
            return [(st, V(('empty', 'D'), own='fresh'))]
        out = []
        n = len(e.keys)
        for s, vs in self.evs(list(e.keys) + list(e.values), st):
            ks = [self.statkey(v) for v in vs[:n]]
            if all(k is not None for k in ks) and (any(v.ty[0] in ('cls', 'fun') for v in vs) or any(v.ty[0] == 'ref' for v in vs[n:]) and len({v.ty for v in vs[n:]}) > 1):
                out.append((s, V(('sdict',), data={k: v for k, v in zip(ks, vs[n:])})))
                continue
            kt = self.join_ty([v.ty for v in vs[:n]])
            vt = self.join_ty([v.ty for v in vs[n:]])
            m = self.empty_of(('map', kt, vt))
            for k, v in zip(vs[:n], vs[n:]):
                m = self.map_set(m, self.coerce(k, kt, s), self.coerce(v, vt, s))
            m.own = 'fresh'
            out.append((s, m))
        return out

    def statkey(self, v):
        """a dictionary key known at generation time: a constant or a class"""
        if v.ty[0] == 'cls':
            return '\0class ' + ((self.w.classes[v.data[1]].src or v.data[1]) if v.data[0] == 'cls' else '%s::%s' % (v.data[1], v.data[2].name))
        return v.const

    def ev_Lambda(self, e, st):
        return [(st, V(FUN, data=('lambda', e, len(st.envs) - 1, st.frames[-1] if st.frames else None)))]

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            self.bindvar(s, e.target.id, v, isfresh(e.value))
            out.append((s, v))
        return out

    def ev_Starred(self, e, st):
        raise Unsupported('starred expression')

    # ---------------------------------------------------------------- boolean structure
    def pure(self, e):
        """no side effects and no forks: safe to evaluate under a guard and merge"""
        for x in ast.walk(e):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)):
                return False
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in PUREBUILTINS:
                    continue
                if isinstance(f, ast.Attribute) and f.attr in PUREMETHODS:
                    continue
                return False
        return True

    def guarded(self, e, st, cond):
        """evaluate e assuming cond; facts learned go back guarded. -> V or None when it forks"""
        s2 = st.copy()
        n = len(s2.pc)
        s2.pc.append(cond)
        hb = dict(s2.heap)
        dw = self.dflt_writes
        r = self.ev(e, s2)
        if len(r) != 1 or dw != self.dflt_writes:
            return None, r
        s3, v = r[0]
        if any(not s3.heap[k].eq(hb[k]) for k in hb):
            return None, r
        for f in s3.pc[n + 1:]:
            st.pc.append(I_(cond, f))
        return v, r

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        if self.spec_depth or self.pure(e):
            nobl = len(self.obls)
            terms, guard, vals = [], [], []
            ok = True
            for x in e.values:
                cond = A_(*guard) if guard else z3.BoolVal(True)
                if self.spec_depth:
                    rr = self.ev(x, st)
                    if len(rr) != 1:
                        raise Unsupported('fork in spec')
                    v = rr[0][1]
                else:
                    v, _ = self.guarded(x, st, cond)
                    if v is None:
                        ok = False
                        break
                b = self.truth(v)
                vals.append(v)
                terms.append(b)
                guard.append(b if isand else N_(b))
                if z3.is_false(z3.simplify(guard[-1])) and not self.spec_depth:
                    break
            if ok:
                if all(v.ty == BOOL for v in vals) or self.spec_depth:
                    return [(st, V(BOOL, A_(*terms) if isand else O_(*terms)))]
                ty = self.join_ty([v.ty for v in vals])
                acc = self.coerce(vals[-1], ty, st)
                for v, b in list(zip(vals, terms))[:-1][::-1]:
                    acc = self.ite(N_(b) if isand else b, self.coerce(v, ty, st), acc)
                # a value used only for its truth: keep the boolean reading available
                acc.data = ('bool', A_(*terms) if isand else O_(*terms))
                return [(st, acc)]
            del self.obls[nobl:]
        # forking evaluation
        out = []
        cur = [(st, None)]
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(x, s):
                    b = self.truth_of(v)
                    last = i == len(e.values) - 1
                    if last:
                        out.append((s2, v))
                        continue
                    stop = N_(b) if isand else b
                    sa, sb = s2.copy(), s2
                    sa.pc.append(stop)
                    sb.pc.append(N_(stop))
                    if self.feasible(sa):
                        out.append((sa, v))
                    if self.feasible(sb):
                        nxt.append((sb, v))
            cur = nxt
        return out

    def truth_of(self, v):
        if isinstance(v.data, tuple) and v.data and v.data[0] == 'bool':
            return v.data[1]
        return self.truth(v)

    def ite(self, c, a, b):
        if a.ty[0] == 'tup':
            return V(a.ty, parts=[self.ite(c, x, y) for x, y in zip(self.parts(a), self.parts(b))])
        return V(a.ty, z3.If(c, self.term(a), self.term(b)))

    def ev_IfExp(self, e, st):
        out = []
        for s, c in self.ev(e.test, st):
            b = z3.simplify(self.truth_of(c))
            if z3.is_true(b):
                out += self.ev(e.body, s)
                continue
            if z3.is_false(b):
                out += self.ev(e.orelse, s)
                continue
            if self.spec_depth or (self.pure(e.body) and self.pure(e.orelse)):
                if self.spec_depth:
                    x, y = self.ev(e.body, s)[0][1], self.ev(e.orelse, s)[0][1]
                else:
                    x, _ = self.guarded(e.body, s, b)
                    y, _ = self.guarded(e.orelse, s, N_(b))
                if x is not None and y is not None and not self.spec_depth and x.ty != y.ty and VAL not in (x.ty, y.ty):
                    one = None
                    for c2, v2 in ((b, y), (N_(b), x)):
                        s2 = s.copy()
                        s2.pc.append(c2)
                        if not self.feasible(s2):
                            one = v2
                    if one is not None:
                        out.append((s, one))
                        continue
                aliasing = x is not None and y is not None and not self.spec_depth and any(z.place is not None and mutable(z.ty[1] if z.ty[0] == 'opt' else z.ty) for z in (x, y))
                if x is not None and y is not None and not aliasing:
                    ty = self.join_ty([x.ty, y.ty])
                    if ty[0] == 'empty':
                        out.append((s, x))
                        continue
                    r = self.ite(b, self.coerce(x, ty, s), self.coerce(y, ty, s))
                    out.append((s, r))
                    continue
            sa, sb = s.copy(), s
            sa.pc.append(b)
            sb.pc.append(N_(b))
            if self.feasible(sa):
                out += self.ev(e.body, sa)
            if self.feasible(sb):
                out += self.ev(e.orelse, sb)
        return out

    def ev_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, V(BOOL, N_(self.truth_of(v)))))
            elif isinstance(e.op, ast.USub):
                v = self.strip_opt(v, s)
                if v.const is not None and not isinstance(v.const, str):
                    out.append((s, self.const(-v.const)))
                else:
                    out.append((s, V(v.ty, -v.t)))
            else:
                raise Unsupported('unary operator')
        return out

    # ---------------------------------------------------------------- arithmetic
    def concat(self, a, b, st):
        if a.ty[0] == 'empty' and b.ty[0] == 'empty':
            return a
        if a.ty[0] == 'tup' and b.ty[0] == 'empty':
            return a
        if a.ty[0] == 'tup' and b.ty[0] == 'tup':
            ps = self.parts(a) + self.parts(b)
            return V(('tup', tuple(p.ty for p in ps)), parts=ps)
        if a.ty[0] == 'empty':
            if b.ty[0] == 'tup':
                return b
            return V(b.ty, b.t, own='fresh')
        if b.ty[0] == 'empty':
            return V(a.ty, a.t, own='fresh')
        if a.ty[0] == 'tup':
            et = b.ty[1]
            a = self.mkseq([self.coerce(p, et, st) for p in self.parts(a)], ('seq', et, b.ty[2]))
        if b.ty[0] == 'tup':
            et = a.ty[1]
            return self.mkcat(a, [self.coerce(p, et, st, not self.spec_depth) for p in self.parts(b)])
        if a.ty[0] == 'seq' and b.ty[0] == 'seq':
            if a.ty[2] != b.ty[2] and '?' not in (a.ty[2], b.ty[2]) and not self.spec_depth:
                self.oblige(st, z3.BoolVal(False), 'list + tuple')
            kind = a.ty[2] if a.ty[2] != '?' else b.ty[2]
            if erase(a.ty) != erase(b.ty):
                et = self.join_ty([a.ty[1], b.ty[1]])
                a = self.coerce(a, ('seq', et, a.ty[2]), st)
                b = self.coerce(b, ('seq', et, b.ty[2]), st)
            return V(('seq', a.ty[1], kind), self.seqcat(a.ty, a.t, b.t), own='fresh')
        raise Unsupported('concatenation of %s and %s' % (tname(a.ty), tname(b.ty)))

    def seqcat(self, ty, a, b):
        """concatenation; literal (snoc-built) right operands are appended one by one"""
        snoc, empty = self.th.op(ty, 'snoc'), self.th.op(ty, 'empty')
        items = []
        t = b
        while z3.is_app(t) and t.decl().eq(snoc):
            items.append(t.arg(1))
            t = t.arg(0)
        if t.eq(empty):
            for x in reversed(items):
                a = snoc(a, x)
            return a
        if z3.is_app(a) and a.eq(empty):
            return b
        return self.th.op(ty, 'concat')(a, b)

    def mkcat(self, a, vs):
        t = a.t
        for v in vs:
            t = self.th.op(a.ty, 'snoc')(t, self.term(v))
        return V(a.ty, t, own='fresh')

    def ev_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], st):
            out.append((s, self.binop(e.op, a, b, s)))
        return out

    def binop(self, op, a, b, st):
        a, b = self.strip_opt(a, st, 'operand'), self.strip_opt(b, st, 'operand')
        if isinstance(op, ast.Add) and (a.ty[0] in ('seq', 'empty', 'tup') or b.ty[0] in ('seq', 'empty', 'tup')) and a.ty != VAL and b.ty != VAL:
            return self.concat(a, b, st)
        if a.ty[0] == 'set' and b.ty[0] == 'empty':
            b = self.coerce(b, a.ty, st)
        if b.ty[0] == 'set' and a.ty[0] == 'empty':
            a = self.coerce(a, b.ty, st)
        if a.ty[0] == 'set' and b.ty[0] == 'set':
            if isinstance(op, ast.BitOr):
                t, items = b.t, []
                while z3.is_app_of(t, z3.Z3_OP_STORE) and z3.is_true(t.arg(2)):
                    items.append(t.arg(1))
                    t = t.arg(0)
                if z3.is_app_of(t, z3.Z3_OP_CONST_ARRAY) and z3.is_false(t.arg(0)):
                    t = a.t
                    for x in reversed(items):
                        t = z3.SetAdd(t, x)
                    return V(a.ty, t, own='fresh')
                return V(a.ty, z3.SetUnion(a.t, b.t), own='fresh')
            if isinstance(op, ast.BitAnd):
                return V(a.ty, z3.SetIntersect(a.t, b.t), own='fresh')
            if isinstance(op, ast.Sub):
                return V(a.ty, z3.SetDifference(a.t, b.t), own='fresh')
        if isinstance(op, ast.Mult) and (a.ty[0] == 'seq' or b.ty[0] == 'seq'):
            s_, n_ = (a, b) if a.ty[0] == 'seq' else (b, a)
            r = self.fresh('rep', s_.ty)
            ln, at = self.th.op(s_.ty, 'len'), self.th.op(s_.ty, 'at')
            k = z3.Int('k')
            n = z3.If(n_.t > 0, n_.t, 0)
            st.pc.append(ln(r.t) == n * ln(s_.t))
            st.pc.append(z3.ForAll([k], I_(A_(0 <= k, k < n * ln(s_.t)), at(r.t, k) == at(s_.t, k % ln(s_.t))), patterns=[at(r.t, k)]))
            r.own = 'fresh'
            return r
        if VAL in (a.ty, b.ty):
            if a.const is not None and isinstance(a.const, str) or b.const is not None and isinstance(b.const, str) or isinstance(op, (ast.Add, ast.Mod)):
                f = z3.Function('str_' + type(op).__name__, self.th.VAL, self.th.VAL, self.th.VAL)
                return V(VAL, f(self.coerce(a, VAL).t, self.coerce(b, VAL).t))
            other = b.ty if a.ty == VAL else a.ty
            if other == VAL:
                other = INT
            a, b = self.coerce(a, other, st, True), self.coerce(b, other, st, True)
        if a.ty == BOOL:
            a = self.coerce(a, INT)
        if b.ty == BOOL:
            b = self.coerce(b, INT)
        if a.ty == REAL or b.ty == REAL or isinstance(op, ast.Div):
            a, b = self.coerce(a, REAL), self.coerce(b, REAL)
            ty = REAL
        elif a.ty == INT and b.ty == INT:
            ty = INT
        else:
            raise Unsupported('arithmetic on %s, %s' % (tname(a.ty), tname(b.ty)))
        x, y = a.t, b.t
        if isinstance(op, ast.Add):
            return self.lit(V(ty, x + y))
        if isinstance(op, ast.Sub):
            return self.lit(V(ty, x - y))
        if isinstance(op, ast.Mult):
            return self.lit(V(ty, x * y))
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            self.oblige(st, y != 0, 'division by zero')
            if isinstance(op, ast.Div):
                return V(REAL, x / y)
            if ty == REAL:
                raise Unsupported('real floor division')
            # python floor semantics; z3 div/mod are Euclidean, equal for a positive divisor
            pos = z3.simplify(y > 0)
            if z3.is_true(pos):
                return V(INT, x / y if isinstance(op, ast.FloorDiv) else x % y)
            q = z3.If(y > 0, x / y, z3.If(x % y == 0, x / y, x / y - 1))
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return V(INT, q if isinstance(op, ast.FloorDiv) else x - y * q)
        if isinstance(op, ast.Pow):
            if b.const == 2:
                return V(ty, x * x)
            f = z3.Function('pow_' + ty[0], x.sort(), y.sort(), x.sort())
            return V(ty, f(x, y))
        raise Unsupported('operator %s' % type(op).__name__)

    def lit(self, v):
        t = z3.simplify(v.t) if z3.is_int_value(z3.simplify(v.t)) else v.t
        if z3.is_int_value(t):
            v.t = t
            v.const = t.as_long()
        return v

    def ev_Compare(self, e, st):
        if len(e.ops) == 1:
            out = []
            if isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.comparators[0], (ast.List, ast.Tuple, ast.Set)) and e.comparators[0].elts \
                    and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.comparators[0].elts):
                # membership of a string known statically among literal strings
                for s, (a,) in self.evs([e.left], st):
                    if isinstance(a.const, str):
                        r = a.const in [x.value for x in e.comparators[0].elts]
                        c = z3.BoolVal(r if isinstance(e.ops[0], ast.In) else not r)
                    else:
                        (s, b), = self.ev(e.comparators[0], s)
                        c = self.compare(e.ops[0], a, b, s)
                    out.append((s, V(BOOL, c)))
                return out
            for s, (a, b) in self.evs([e.left, e.comparators[0]], st):
                out.append((s, V(BOOL, self.compare(e.ops[0], a, b, s))))
            return out
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st):
            cs = [self.compare(op, a, b, s) for op, a, b in zip(e.ops, vs, vs[1:])]
            out.append((s, V(BOOL, A_(*cs))))
        return out

    def compare(self, op, a, b, st):
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return N_(self.equal(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a.ty != NONE and b.ty != NONE and not (a.ty[0] in ('ref', 'opt', 'bool', 'cls', 'fun') or self.spec_depth):
                if VAL in (a.ty, b.ty) and BOOL in (a.ty, b.ty):
                    pass
                elif (b.ty[0] == 'empty' and b.ty[1] == 'T') or (b.ty[0] == 'fun'):
                    pass  # `x is tuple()` : the empty tuple is a singleton in CPython
                else:
                    raise Unsupported('identity of values')
            if a.ty[0] == 'cls' and b.ty[0] == 'cls':
                c = z3.BoolVal(a.ty == b.ty)
            else:
                c = self.equal(a, b)
            return c if isinstance(op, ast.Is) else N_(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a.const, str) and isinstance(b.const, str):
                c = z3.BoolVal(a.const in b.const)
            else:
                c = self.contains(b, a, st)
            return c if isinstance(op, ast.In) else N_(c)
        a, b = self.strip_opt(a, st, 'operand'), self.strip_opt(b, st, 'operand')
        if a.ty[0] == 'set' and b.ty[0] == 'set':
            if isinstance(op, ast.LtE):
                return z3.IsSubset(a.t, b.t)
        if VAL in (a.ty, b.ty):
            o = b.ty if a.ty == VAL else a.ty
            if o == VAL:
                f = z3.Function('val_lt', self.th.VAL, self.th.VAL, z3.BoolSort())
                return {ast.Lt: lambda: f(a.t, b.t), ast.Gt: lambda: f(b.t, a.t), ast.LtE: lambda: N_(f(b.t, a.t)), ast.GtE: lambda: N_(f(a.t, b.t))}[type(op)]()
            a, b = self.coerce(a, o, st, True), self.coerce(b, o, st, True)
        if REAL in (a.ty, b.ty):
            a, b = self.coerce(a, REAL), self.coerce(b, REAL)
        else:
            a, b = self.coerce(a, INT), self.coerce(b, INT)
        x, y = a.t, b.t
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def contains(self, c, x, st):
        if isinstance(c.data, Iter):
            it = c.data
            if it.seqv is not None:
                return self.contains(it.seqv, x, st)
            k = self.th.fresh('k', z3.IntSort())
            return z3.Exists([k], A_(0 <= k, k < it.n, self.equal(it.at(k), x)))
        c = self.strip_opt(c, st, 'container')
        k = c.ty[0]
        if k == 'empty':
            return z3.BoolVal(False)
        if k == 'tup':
            return O_(*[self.equal(p, x) for p in self.parts(c)]) if self.parts(c) else z3.BoolVal(False)
        if k == 'seq':
            return self.th.op(c.ty, 'contains')(c.t, self.term(self.elem(x, c.ty[1], st)))
        if k == 'set':
            return simp_set(z3.Select(c.t, self.term(self.elem(x, c.ty[1], st))))
        if k == 'map':
            return z3.Select(self.th.map_dom(c.ty, c.t), self.term(self.elem(x, c.ty[1], st)))
        if k == 'val':
            f = z3.Function('val_contains', self.th.VAL, self.th.VAL, z3.BoolSort())
            return f(c.t, self.coerce(x, VAL).t)
        raise Unsupported('membership in %s' % tname(c.ty))

    def elem(self, x, ty, st):
        """x used as a lookup key of type ty (no run-time conversion happens)"""
        return self.coerce(x, ty, st)

    # ---------------------------------------------------------------- subscripts and attributes
    def ev_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            if sl.step is not None:
                if isinstance(sl.step, ast.UnaryOp) and ast.unparse(sl.step) == '-1' and sl.lower is None and sl.upper is None:
                    for s, v in self.ev(e.value, st):
                        v = self.strip_opt(v, s)
                        out.append((s, self.seqrev(v)))
                    return out
                if not (isinstance(sl.step, ast.Constant) and sl.step.value == 2 and sl.upper is None and (sl.lower is None or isinstance(sl.lower, ast.Constant) and isinstance(sl.lower.value, int) and sl.lower.value >= 0)):
                    raise Unsupported('slice step')
                for s, vs in self.evs([e.value] + ([sl.lower] if sl.lower is not None else []), st):
                    b = self.strip_opt(vs[0], s, 'sliced value')
                    if b.ty[0] == 'tup' and self.parts(b):
                        b = self.coerce(b, ('seq', self.join_ty([p.ty for p in self.parts(b)]), 'T'), s)
                    if len(vs) > 1:
                        b = self.slice(b, vs[1], None, s)
                    if b.ty[0] not in ('seq', 'empty'):
                        raise Unsupported('stepped slice of %s' % tname(b.ty))
                    out.append((s, b if b.ty[0] == 'empty' else V(b.ty, self.th.op(b.ty, 'every2')(b.t), own='fresh')))
                return out
            for s, vs in self.evs([e.value] + [x for x in (sl.lower, sl.upper) if x is not None], st):
                b = vs[0]
                i = 1
                lo = hi = None
                if sl.lower is not None:
                    lo = vs[i]
                    i += 1
                if sl.upper is not None:
                    hi = vs[i]
                if isinstance(b.const, str) and all(x is None or isinstance(x.const, int) for x in (lo, hi)):
                    out.append((s, self.const(b.const[None if lo is None else lo.const:None if hi is None else hi.const])))
                    continue
                out.append((s, self.slice(self.strip_opt(b, s, 'sliced value'), lo, hi, s)))
            return out
        for s, (b, i) in self.evs([e.value, e.slice], st):
            out.append((s, self.index(b, i, s, ast.unparse(e)[:60])))
        return [(s, v) for s, v in out if v is not None]

    def seqrev(self, v):
        if v.ty[0] == 'empty':
            return v
        if v.ty[0] == 'tup':
            ps = self.parts(v)[::-1]
            return V(('tup', tuple(p.ty for p in ps)), parts=ps)
        return V(v.ty, self.th.op(v.ty, 'rev')(v.t), own='fresh')

    def clamp(self, i, n):
        """python slice bound normalisation"""
        if i.const is not None and isinstance(i.const, int):
            if i.const >= 0:
                return z3.If(n < i.const, n, z3.IntVal(i.const)) if i.const > 0 else z3.IntVal(0)
            return z3.If(n + i.const < 0, z3.IntVal(0), n + i.const)
        t = self.coerce(i, INT).t
        pos = z3.If(t > n, n, t)
        return z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), pos)

    def decide(self, st, c):
        """a branch condition that the path already settles (arithmetic only) is folded away"""
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return c
        if self.spec_depth:
            return c
        return c

    def slice(self, b, lo, hi, st):
        if b.ty[0] == 'empty':
            return b
        if b.ty[0] == 'tup':
            l = lo.const if lo is not None else None
            h = hi.const if hi is not None else None
            if (lo is None or isinstance(l, int)) and (hi is None or isinstance(h, int)):
                ps = self.parts(b)[l:h]
                return V(('tup', tuple(p.ty for p in ps)), parts=ps) if ps else V(('empty', 'T'), own='fresh')
            ty = self.join_ty([p.ty for p in self.parts(b)])
            b = self.coerce(b, ('seq', ty, 'T'), st)
        if b.ty == VAL:
            f = z3.Function('val_slice', self.th.VAL, z3.IntSort(), z3.IntSort(), self.th.VAL)
            return V(VAL, f(b.t, lo.t if lo else z3.IntVal(0), hi.t if hi else z3.IntVal(-1)))
        if lo is not None and lo.ty == NONE:
            lo = None
        if hi is not None and hi.ty == NONE:
            hi = None
        th = self.th
        take, drop, ln = th.op(b.ty, 'take'), th.op(b.ty, 'drop'), th.op(b.ty, 'len')
        t = b.t
        n = ln(t)
        if self.spec_depth:
            L = None if lo is None else (self.coerce(lo, INT).t if not (lo.const is not None and lo.const < 0) else n + lo.const)
            H = None if hi is None else (self.coerce(hi, INT).t if not (hi.const is not None and hi.const < 0) else n + hi.const)
        else:
            L = None if lo is None else self.clamp(lo, n)
            H = None if hi is None else self.clamp(hi, n)
        if L is None and H is None:
            return V(b.ty, t, own='fresh')
        if not self.spec_depth:
            # name the clamped bounds, so that sequence terms stay small
            def nm(x, src):
                if z3.is_int_value(x):
                    return x
                raw = self.coerce(src, INT).t
                if self.entails(st, A_(raw >= 0, raw <= n)):
                    return raw
                if src.const is not None and src.const < 0 and self.entails(st, n + src.const >= 0):
                    return n + src.const
                c = self.fresh('sl', INT).t
                st.pc.append(c == x)
                return c
            if L is not None:
                L = nm(L, lo)
            if H is not None:
                H = nm(H, hi)
        if H is not None and L is not None:
            if not self.spec_depth:
                if self.entails(st, L <= H):
                    return V(b.ty, drop(take(t, H), L), own='fresh')
                return V(b.ty, z3.If(L <= H, drop(take(t, H), L), th.op(b.ty, 'empty')), own='fresh')
            return V(b.ty, drop(take(t, H), L), own='fresh')
        if H is not None:
            return V(b.ty, take(t, H), own='fresh')
        return V(b.ty, drop(t, L), own='fresh')

    def index(self, b, i, st, what):
        th = self.th
        if b.ty[0] == 'sdict':
            k = self.statkey(i)
            if k is None or k not in b.data:
                raise Unsupported('key of the constant dictionary ' + what)
            return b.data[k]
        b = self.strip_opt(b, st, 'indexed value ' + what)
        if b.ty[0] == 'tup':
            if isinstance(i.const, int):
                ps = self.parts(b)
                if not -len(ps) <= i.const < len(ps):
                    raise Unsupported('tuple index')
                return ps[i.const]
            ty = self.join_ty([p.ty for p in self.parts(b)])
            b = self.coerce(b, ('seq', ty, 'T'), st)
        if b.ty[0] == 'fld':
            return V(self.fieldty(b.ty[1], b.ty[2]), simp_select(z3.Select(b.t, i.t)))
        if b.ty[0] == 'seq':
            ln, at = th.op(b.ty, 'len'), th.op(b.ty, 'at')
            i = self.coerce(i, INT, st, not self.spec_depth, 'index')
            n = ln(b.t)
            if isinstance(i.const, int):
                t = z3.IntVal(i.const) if i.const >= 0 else n + i.const
                ok = n > i.const if i.const >= 0 else n >= -i.const
            else:
                t = i.t
                ok = A_(0 <= t, t < n)
                if not self.spec_depth and not self.entails(st, t >= 0):
                    ok = A_(-n <= i.t, i.t < n)
                    t = z3.If(i.t < 0, n + i.t, i.t)
            self.oblige_or_raise(st, ok, 'IndexError', 'index in range: ' + what)
            v = V(b.ty[1], self.at(b, t))
            if mutable(v.ty) and b.place is not None:
                v.place = ('idx', b.place, t, b.ty)
            if not self.spec_depth and self.has_ref(v.ty) and v.ty[0] != 'tup':
                st.pc.append(self.wf(st, v.ty, v.t))
            return v
        if b.ty[0] == 'map':
            k = self.elem(i, b.ty[1], st)
            kt = self.term(k)
            fac = self.default_factory(b.place, st) if not self.spec_depth and b.place is not None else None
            if fac is not None and b.place[0] == 'fld' and '%s.%s' % (b.place[1], b.place[2]) in self.cur.strict:
                self.oblige(st, z3.Select(th.map_dom(b.ty, b.t), kt), 'key recorded: ' + what)
                fac = None
            if fac is not None:
                d = self.default_value(fac, b.ty[2], st)
                have = z3.Select(th.map_dom(b.ty, b.t), kt)
                cur = z3.Select(th.map_get(b.ty, b.t), kt)
                e0 = self.fresh('entry', b.ty[2])
                st.pc.append(e0.t == z3.If(have, cur, d))
                nb = V(b.ty, th.map_put(b.ty, b.t, kt, e0.t), place=b.place, own=b.own)
                self.writeplace(st, b.place, nb, b.ty)
                self.dflt_writes += 1
                v = V(b.ty[2], e0.t)
                if mutable(v.ty):
                    v.place = ('idx', b.place, kt, b.ty)
                if self.has_ref(v.ty) and v.ty[0] != 'tup':
                    st.pc.append(self.wf(st, v.ty, v.t))
                return v
            self.oblige_or_raise(st, z3.Select(th.map_dom(b.ty, b.t), kt), 'KeyError', 'key present: ' + what)
            v = V(b.ty[2], z3.Select(th.map_get(b.ty, b.t), kt))
            if mutable(v.ty) and b.place is not None:
                v.place = ('idx', b.place, kt, b.ty)
            if not self.spec_depth and self.has_ref(v.ty) and v.ty[0] != 'tup':
                st.pc.append(self.wf(st, v.ty, v.t))
            return v
        if b.ty == VAL:
            f = z3.Function('val_index', self.th.VAL, self.th.VAL, self.th.VAL)
            return V(VAL, f(b.t, self.coerce(i, VAL).t))
        raise Unsupported('subscript of %s (%s)' % (tname(b.ty), what))

    dflt_writes = 0
    factories = {}

    def default_factory(self, place, st):
        """the factory of the defaultdict stored at a place, read off the source (the assignment that creates it), or None"""
        if place[0] == 'var':
            fn, name = st.frames[-1].fn, place[2]
            if fn is None:
                return None
            key = (id(fn), name)
            if key not in self.factories:
                fs = [x.value for x in ast.walk(fn) if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None
                      and any(isinstance(t, ast.Name) and t.id == name for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
                self.factories[key] = (fn, self.factory_of(fs))
            return self.factories[key][1]
        if place[0] == 'fld':
            cn, f = place[1], place[2]
            key = (cn, f)
            if key not in self.factories:
                c = self.w.classes[cn]
                fs = []
                if c.src:
                    path, q = c.src.split('::')
                    m = self.src.method(path, self.src.mod(path).classes[q], '__init__')
                    if m is not None:
                        fs = [x.value for x in ast.walk(m[2]) if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None
                              and any(isinstance(t, ast.Attribute) and t.attr == f and isinstance(t.value, ast.Name) and t.value.id == m[2].args.args[0].arg for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
                self.factories[key] = (None, self.factory_of(fs))
            return self.factories[key][1]
        return None

    def factory_of(self, values):
        r = []
        for v in values:
            if isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] == 'defaultdict' and len(v.args) == 1:
                a = v.args[0]
                if isinstance(a, ast.Lambda):
                    a = a.body
                    t = ast.unparse(a)
                    r.append({'list()': 'list', '[]': 'list', '0': 'int', 'dict()': 'dict', '{}': 'dict', 'set()': 'set'}.get(t, t))
                else:
                    r.append(ast.unparse(a))
            else:
                r.append(None)
        r = set(r)
        if len(r) == 1:
            x = r.pop()
            return None if x == 'None' else x
        if r - {None}:
            raise Unsupported('a name bound to defaultdicts and other values')
        return None

    def default_value(self, fac, ty, st):
        if fac in ('list', 'dict', 'set', 'tuple'):
            return self.term(self.coerce(V(('empty', {'list': 'L', 'dict': 'D', 'set': 'S', 'tuple': 'T'}[fac]), own='fresh'), ty, st))
        if fac in ('int', 'float'):
            return self.term(self.coerce(self.const(0), ty, st))
        if fac == 'bool':
            return self.term(self.coerce(self.const(False), ty, st))
        raise Unsupported('default factory %s' % fac)

    def at(self, b, t):
        """s[t] with syntactic simplification of snoc chains at literal positions"""
        return self.th.op(b.ty, 'at')(b.t, t)

    handlers = ()

    def oblige_or_raise(self, st, ok, exc, name):
        """a run-time check: an obligation, or a branch when an enclosing handler (or the contract) expects exc"""
        if self.spec_depth:
            return
        if self.expects(exc):
            bad = st.copy()
            bad.pc.append(N_(ok))
            if self.feasible(bad):
                self.raise_(bad, exc)
            st.pc.append(ok)
            return
        self.oblige(st, ok, name)
        st.pc.append(ok)

    def expects(self, exc):
        return any(exc in h or '*' in h for h in self.handlers)

    def ev_Attribute(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            out.append((s, self.attr(b, e.attr, s)))
        return out

    def attr(self, b, name, st):
        if b.ty[0] == 'opt' and b.ty[1][0] in ('ref', 'seq', 'set', 'map'):
            if b.ty[1][0] != 'ref':
                place = b.place
            b = self.strip_opt(b, st, 'receiver of .%s' % name)
        if b.ty[0] == 'ref':
            cn = b.ty[1]
            c = self.w.classes[cn]
            if name in c.fields or name in c.ghost:
                return self.getfield(st, b, name)
            if name in c.statics:
                return self.specfn_call(c.statics[name], [], st)
            if name in c.cvars:
                return self.getfield(st, self.specfn_call(c.cvars[name], [], st), name)
            if name in c.consts:
                return self.const(c.consts[name])
            if name in c.ignore:
                self.dropped.add('read of %s.%s' % (cn, name))
                return self.fresh('ign_' + name, VAL)
            if name == '__class__':
                return V(('cls', cn), data=('cls', cn))
            if c.src:
                path, q = c.src.split('::')
                cnode = self.src.mod(path).classes.get(q)
                if cnode is None:
                    raise Unsupported('class %s is gone' % c.src)
                m = self.src.method(path, cnode, name)
                if m is not None:
                    if any(ast.unparse(d) == 'property' for d in m[2].decorator_list):
                        return self.call_method(st, b, name, [], {}, one=True)
                    return V(FUN, data=('bound', b, name))
                a = self.src.classattr(path, cnode, name)
                if a is not None:
                    return self.ev_module_const(a[0], a[1], st)
            if '%s.%s' % (cn, name) in getattr(self.w, 'properties', ()):
                return self.call_method(st, b, name, [], {}, one=True)
            if '%s.%s' % (cn, name) in self.w.by_target or '%s.%s' % (cn, name) in self.w.specfns:
                return V(FUN, data=('bound', b, name))
            raise Unsupported('attribute %s of %s' % (name, cn))
        if b.ty[0] in ('seq', 'set', 'map', 'empty', 'tup', 'val') or isinstance(b.data, Iter):
            return V(FUN, data=('bound', b, name))
        if b.ty[0] == 'mod':
            d = b.data[1]
            p = self.src.modpath(d) if isinstance(d, str) and not d.endswith('.py') else d
            if p and p.endswith('.py'):
                r = self.src.resolve(p, name)
                if r:
                    return self.from_resolved(r, name, st)
            return V(('mod', d + '.' + name), data=('ext', d + '.' + name))
        if b.ty[0] == 'cls':
            if b.data[0] == 'cls':
                c = self.w.classes[b.data[1]]
                if name == '__name__':
                    return self.fresh('clsname', VAL)
                path, q = c.src.split('::')
                cnode = self.src.mod(path).classes[q]
            else:
                path, cnode = b.data[1], b.data[2]
            for d in self.w.classes.values():
                if name in d.statics and d.src == '%s::%s' % (path, cnode.name):
                    return self.specfn_call(d.statics[name], [], st)
                if name in d.cvars and d.src == '%s::%s' % (path, cnode.name):
                    return self.getfield(st, self.specfn_call(d.cvars[name], [], st), name)
            m = self.src.method(path, cnode, name)
            if m is not None:
                static = any(ast.unparse(d) == 'staticmethod' for d in m[2].decorator_list)
                return V(FUN, data=('def', m[0], m[2], (m[0], m[1]), None) if True else None)
            a = self.src.classattr(path, cnode, name)
            if a is not None:
                return self.ev_module_const(a[0], a[1], st)
            raise Unsupported('class attribute %s' % name)
        if b.ty[0] == 'sdict' and name == 'get':
            return V(FUN, data=('sdictget', b.data))
        if b.ty == FUN and b.data and b.data[0] == 'super':
            return V(FUN, data=('superbound', b.data[1], b.data[2], b.data[3], name))
        raise Unsupported('attribute %s of %s' % (name, b.ty))

    # ---------------------------------------------------------------- iterables
    def iter_of(self, v, st):
        th = self.th
        if isinstance(v.data, Iter):
            return v.data
        v = self.strip_opt(v, st, 'iterated value')
        if v.ty[0] == 'empty':
            return Iter(z3.IntVal(0), lambda k: self.fresh('none', VAL), None, VAL)
        if v.ty[0] == 'tup':
            ps = self.parts(v)
            ty = self.join_ty([p.ty for p in ps]) if ps else VAL
            v = self.mkseq([self.coerce(p, ty, st) for p in ps], ('seq', ty, 'T'))
        if v.ty[0] == 'seq':
            at = th.op(v.ty, 'at')
            return Iter(th.op(v.ty, 'len')(v.t), lambda k: V(v.ty[1], at(v.t, k)), v, v.ty[1])
        if v.ty[0] == 'set':
            ks = self.enum_set(v.t, v.ty[1], st)
            return self.iter_of(ks, st)
        if v.ty[0] == 'map':
            ks = self.enum_keys(v, st)
            return self.iter_of(ks, st)
        if v.ty == VAL:
            # iterating an opaque value: its sequence of elements
            f = z3.Function('val_elems', th.VAL, th.sort(('seq', VAL, '?')))
            return self.iter_of(V(('seq', VAL, '?'), f(v.t)), st)
        if v.ty[0] == 'sdict' and not any(isinstance(k, str) and k.startswith('\0') for k in v.data):
            return self.iter_of(self.mkseq([self.coerce(self.const(k), VAL, st) for k in v.data], ('seq', VAL, 'T')), st)
        raise Unsupported('iteration over %s' % tname(v.ty))

    def enum_keys(self, m, st):
        th = self.th
        if len(m.ty) < 4:
            return self.enum_set(th.map_dom(m.ty, m.t), m.ty[1], st)
        # insertion order; keys occur once
        kt = th.keyty(m.ty)
        ks = V(kt, th.map_fst(m.ty, m.t))
        if not pat_ok(ks.t):
            c = self.fresh('keys', kt)
            st.pc.append(c.t == ks.t)
            ks = c
        i, j = z3.Ints('i j')
        at, ln = th.op(kt, 'at'), th.op(kt, 'len')
        if not self.spec_depth:
            st.pc.append(z3.ForAll([i, j], I_(A_(0 <= i, i < j, j < ln(ks.t)), at(ks.t, i) != at(ks.t, j)), patterns=[z3.MultiPattern(at(ks.t, i), at(ks.t, j))]))
        return ks

    def enum_set(self, s, ety, st):
        """an enumeration of a finite set, in some order, without repetition"""
        th = self.th
        ty = ('seq', ety, '?')
        ks = self.fresh('keys', ty)
        ln, at, cont = th.op(ty, 'len'), th.op(ty, 'at'), th.op(ty, 'contains')
        x = z3.Const('x', th.sort(ety))
        i, j = z3.Ints('i j')
        st.pc.append(z3.ForAll([x], z3.Select(s, x) == cont(ks.t, x), patterns=[z3.Select(s, x), cont(ks.t, x)] if pat_ok(s) else [cont(ks.t, x)]))
        d = s
        while z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE:
            # instances for the elements the set was built from
            st.pc.append(z3.Select(s, d.arg(1)) == cont(ks.t, d.arg(1)))
            d = d.arg(0)
        st.pc.append(z3.ForAll([i], I_(A_(0 <= i, i < ln(ks.t)), z3.Select(s, at(ks.t, i))), patterns=[at(ks.t, i)]))
        st.pc.append(z3.ForAll([i, j], I_(A_(0 <= i, i < j, j < ln(ks.t)), at(ks.t, i) != at(ks.t, j)), patterns=[z3.MultiPattern(at(ks.t, i), at(ks.t, j))]))
        st.pc.append(ln(ks.t) == th.card(('set', ety))(s))
        return ks

    def to_seq(self, v, st, kind):
        """materialise an iterable as a sequence value"""
        if v.ty[0] == 'opt':
            v = self.strip_opt(v, st)
        if not isinstance(v.data, Iter):
            if v.ty[0] == 'seq':
                return V(('seq', v.ty[1], kind), v.t, own='fresh')
            if v.ty[0] == 'empty':
                return V(('empty', kind), own='fresh')
            if v.ty[0] == 'tup':
                if kind == 'T':
                    return v
                ps = self.parts(v)
                ty = self.join_ty([p.ty for p in ps])
                return self.mkseq([self.coerce(p, ty, st) for p in ps], ('seq', ty, kind))
        it = self.iter_of(v, st)
        if it.seqv is not None:
            return V(('seq', it.seqv.ty[1], kind), it.seqv.t, own='fresh')
        k = z3.Int('k')
        el = it.at(k)
        ty = ('seq', el.ty, kind)
        r = self.fresh('seq', ty)
        at = self.th.op(ty, 'at')
        st.pc.append(self.th.op(ty, 'len')(r.t) == it.n)
        st.pc.append(z3.ForAll([k], I_(A_(0 <= k, k < it.n), at(r.t, k) == self.term(el)), patterns=[at(r.t, k)]))
        r.own = 'fresh'
        return r

    # ---------------------------------------------------------------- comprehensions
    def bind_target(self, tgt, v, st, own='borrow'):
        """bind a loop / comprehension / assignment target"""
        if isinstance(tgt, ast.Name):
            if mutable(v.ty):
                v = V(v.ty, v.t, parts=v.parts, own=own, data=v.data)
            self.setvar(st, tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            v = self.strip_opt(v, st, 'unpacked value')
            if v.ty[0] == 'tup':
                ps = self.parts(v)
                if len(ps) != len(tgt.elts):
                    raise Unsupported('unpack arity')
            elif v.ty[0] == 'seq':
                n = len(tgt.elts)
                if any(isinstance(x, ast.Starred) for x in tgt.elts):
                    raise Unsupported('starred unpack')
                self.oblige(st, self.th.op(v.ty, 'len')(v.t) == n, 'unpack length')
                ps = [V(v.ty[1], self.th.op(v.ty, 'at')(v.t, i)) for i in range(n)]
            else:
                raise Unsupported('unpack of %s' % tname(v.ty))
            for t, p in zip(tgt.elts, ps):
                self.bind_target(t, p, st, own)
        else:
            raise Unsupported('binding target')

    def comp(self, e, st, elts):
        """evaluate a comprehension with one generator: (state, Iter, kname, guard term, elt Vs, facts) under a bound index"""
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        res = []
        for s, src in self.ev(g.iter, st):
            if not self.spec_depth and src.ty[0] in ('seq', 'opt') and src.t is not None and not isinstance(src.data, Iter) and not pat_ok(src.t):
                if src.ty[0] == 'opt':
                    src = self.strip_opt(src, s, 'iterated value')
                if src.ty[0] == 'seq' and not pat_ok(src.t):
                    c = self.fresh('itv', src.ty)
                    s.pc.append(c.t == src.t)
                    src = V(src.ty, c.t)
            it = self.iter_of(src, s)
            k = self.th.fresh('k', z3.IntSort())
            s2 = s.copy()
            s2.envs.append({'$parent': len(s2.envs) - 1})
            n0 = len(s2.pc)
            s2.pc.append(A_(0 <= k, k < it.n))
            savelog, self.freshlog = self.freshlog, []
            hb = dict(s2.heap)
            try:
                x = it.at(k)
                if not self.spec_depth and self.has_ref(x.ty):
                    s2.pc.append(self.wf(s2, x.ty, self.term(x)))
                self.bind_target(g.target, x, s2)
                conds = []
                for c in g.ifs:
                    r = self.ev(c, s2)
                    if len(r) != 1:
                        raise Unsupported('comprehension condition forks')
                    s2, cv = r[0]
                    b = self.truth_of(cv)
                    conds.append(b)
                    s2.pc.append(b)
                vs = []
                for x in elts:
                    r = self.ev(x, s2)
                    if len(r) != 1:
                        raise Unsupported('comprehension element forks')
                    s2, v = r[0]
                    vs.append(v)
                if any(not s2.heap[h].eq(hb[h]) for h in hb):
                    raise Unsupported('comprehension with side effects')
                fresh = self.freshlog
            finally:
                self.freshlog = savelog
            facts = [f for f in s2.pc[n0 + 1:] if not any(f.eq(c) for c in conds)]
            # constants created under the binder become functions of it
            sub = []
            for c in fresh:
                f = z3.Function(str(c) + '_f', z3.IntSort(), c.sort())
                sub.append((c, f(k)))

            def S(t):
                return z3.substitute(t, *sub) if sub else t
            conds = [S(c) for c in conds]
            facts = [S(f) for f in facts]
            vs = [V(v.ty, S(self.term(v))) if v.ty != NONE and v.ty[0] != 'empty' else v for v in vs]
            res.append((s, it, k, conds, vs, facts))
        return res

    def ev_ListComp(self, e, st):
        return self.seq_comp(e, st, 'L')

    def ev_GeneratorExp(self, e, st):
        return self.seq_comp(e, st, 'L')

    desugared = {}

    def comp_as_loop(self, e, st, kind):
        """a comprehension with side effects or several generators, executed as the loop it abbreviates; its invariants are
        those of Loop 'compN' ('compN.1' for the inner generator); the list built so far is called _acc"""
        fr = st.frames[-1]
        no = fr.loopno.get(id(e), 'comp?')
        if id(e) not in self.desugared:
            if kind == 'D':
                body = ast.Assign(targets=[ast.Subscript(value=ast.Name(id='_acc', ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
            else:
                body = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id='_acc', ctx=ast.Load()), attr='add' if kind == 'S' else 'append', ctx=ast.Load()), args=[e.elt], keywords=[]))
            loops = []
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = ast.If(test=c, body=[body], orelse=[])
                body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
                loops.insert(0, body)
            ast.copy_location(body, e)
            ast.fix_missing_locations(body)
            self.desugared[id(e)] = (e, body, loops)
        _, body, loops = self.desugared[id(e)]
        for i, l in enumerate(loops):
            fr.loopno[id(l)] = no if i == 0 else '%s.%d' % (no, i)
        s = st.copy()
        d = len(s.envs)
        s.envs.append({'$parent': d - 1, '_acc': V(('empty', kind if kind in 'DS' else 'L'), own='fresh'), '$types': {}})
        ty = self.localtypes.get((d, '_acc'))
        if ty is not None:
            s.envs[-1]['$types']['_acc'] = ty
            s.envs[-1]['_acc'] = self.empty_of(ty)
        out = []
        for kd, s2, v in self.stmt(body, s):
            if kd != 'normal':
                if kd == 'raise':
                    s2.envs.pop()
                    self.raise_(s2, v[0], v[1])
                    continue
                raise Unsupported('control flow in a comprehension')
            acc = self.lookup(s2, '_acc')
            s2.envs.pop()
            out.append((s2, V(acc.ty if acc.ty[0] != 'seq' else ('seq', acc.ty[1], kind), acc.t, own='fresh')))
        return out

    def seq_comp(self, e, st, kind):
        return self.comp_try(e, st, kind, lambda s: self.seq_comp1(e, s, kind))

    def comp_try(self, e, st, kind, direct):
        if not self.spec_depth:
            fr = st.frames[-1] if st.frames else None
            c = fr.contract if fr else None
            if len(e.generators) > 1 or (c is not None and fr.loopno.get(id(e)) in c.loops):
                return self.comp_as_loop(e, st, kind)
            snap = (len(self.obls), len(self.covers), dict(self.oblname), len(self.sinks[-1]))
            try:
                return direct(st.copy())
            except Unsupported as ex:
                if 'side effects' not in str(ex) and 'forks' not in str(ex):
                    raise
                del self.obls[snap[0]:]
                del self.covers[snap[1]:]
                self.oblname = snap[2]
                del self.sinks[-1][snap[3]:]
                return self.comp_as_loop(e, st, kind)
        return direct(st)

    def seq_comp1(self, e, st, kind):
        out = []
        for s, it, k, conds, (v,), facts in self.comp(e, st, [e.elt]):
            if v.ty[0] == 'empty':
                raise Unsupported('comprehension of empty literals')
            ty = ('seq', v.ty, kind)
            r = self.fresh('comp', ty)
            r.own = 'fresh'
            ln, at = self.th.op(ty, 'len'), self.th.op(ty, 'at')
            rng = A_(0 <= k, k < it.n)
            sat = [self.th.op(it.seqv.ty, 'at')(it.seqv.t, k)] if it.seqv is not None else []
            if not conds:
                s.pc.append(ln(r.t) == z3.If(it.n > 0, it.n, 0))
                body = at(r.t, k) == self.term(v)
                s.pc.append(z3.ForAll([k], I_(rng, body), patterns=[at(r.t, k)] + sat, qid='comp'))
                # eta: list of the elements themselves
                if it.seqv is not None and self.term(v).eq(self.th.op(it.seqv.ty, 'at')(it.seqv.t, k)):
                    s.pc.append(r.t == it.seqv.t)
                if facts:
                    s.pc.append(z3.ForAll([k], I_(rng, A_(*facts)), patterns=[at(r.t, k)] + sat, qid='compf'))
            else:
                ix = z3.Function(str(r.t) + '_ix', z3.IntSort(), z3.IntSort())
                inv = z3.Function(str(r.t) + '_inv', z3.IntSort(), z3.IntSort())
                j, m = z3.Ints('j m')
                cond = A_(*conds)

                def at_k(t, i):
                    return z3.substitute(t, (k, i))
                s.pc.append(A_(ln(r.t) <= z3.If(it.n > 0, it.n, 0)))
                s.pc.append(z3.ForAll([j], I_(A_(0 <= j, j < ln(r.t)), A_(0 <= ix(j), ix(j) < it.n, at_k(cond, ix(j)), inv(ix(j)) == j,
                                                                      at(r.t, j) == at_k(self.term(v), ix(j)), *[at_k(f, ix(j)) for f in facts])),
                                      patterns=[at(r.t, j)], qid='compf1'))
                s.pc.append(z3.ForAll([k], I_(A_(rng, cond), A_(0 <= inv(k), inv(k) < ln(r.t), ix(inv(k)) == k, at(r.t, inv(k)) == self.term(v))),
                                      **({'patterns': sat} if sat else {}), qid='compf2'))
                s.pc.append(z3.ForAll([j, m], I_(A_(0 <= j, j < m, m < ln(r.t)), ix(j) < ix(m)), patterns=[z3.MultiPattern(ix(j), ix(m))], qid='compf3'))
            out.append((s, r))
        return out

    def ev_SetComp(self, e, st):
        return self.comp_try(e, st, 'S', lambda s: self.set_comp1(e, s))

    def set_comp1(self, e, st):
        out = []
        for s, it, k, conds, (v,), facts in self.comp(e, st, [e.elt]):
            ty = ('set', v.ty)
            r = self.fresh('setcomp', ty)
            r.own = 'fresh'
            rng = A_(0 <= k, k < it.n, *conds)
            x = z3.Const('x', self.th.sort(v.ty))
            wit = z3.Function(str(r.t) + '_w', x.sort(), z3.IntSort())
            sat = [self.th.op(it.seqv.ty, 'at')(it.seqv.t, k)] if it.seqv is not None else []
            s.pc.append(z3.ForAll([k], I_(rng, A_(z3.Select(r.t, self.term(v)), *facts)), **({'patterns': sat} if sat else {})))
            s.pc.append(z3.ForAll([x], I_(z3.Select(r.t, x), A_(*[z3.substitute(c, (k, wit(x))) for c in [rng] + facts],
                                                             z3.substitute(self.term(v), (k, wit(x))) == x)), patterns=[z3.Select(r.t, x)]))
            out.append((s, r))
        return out

    def ev_DictComp(self, e, st):
        return self.comp_try(e, st, 'D', lambda s: self.dict_comp1(e, s))

    def dict_comp1(self, e, st):
        out = []
        for s, it, k, conds, (kv, vv), facts in self.comp(e, st, [e.key, e.value]):
            if vv.ty[0] == 'empty':
                raise Unsupported('dict comprehension of empty literals')
            ty = ('map', kv.ty, vv.ty)
            r = self.fresh('dictcomp', ty)
            r.own = 'fresh'
            dom, get = self.th.map_dom(ty, r.t), self.th.map_get(ty, r.t)
            rng = A_(0 <= k, k < it.n, *conds)
            x = z3.Const('x', self.th.sort(kv.ty))
            wit = z3.Function(str(r.t) + '_w', x.sort(), z3.IntSort())
            sat = [self.th.op(it.seqv.ty, 'at')(it.seqv.t, k)] if it.seqv is not None else []
            # the last binding of a key wins
            s.pc.append(z3.ForAll([k], I_(rng, A_(z3.Select(dom, self.term(kv)), k <= wit(self.term(kv)), *facts)), **({'patterns': sat} if sat else {})))
            s.pc.append(z3.ForAll([x], I_(z3.Select(dom, x), A_(*[z3.substitute(c, (k, wit(x))) for c in [rng] + facts],
                                                             z3.substitute(self.term(kv), (k, wit(x))) == x,
                                                             z3.Select(get, x) == z3.substitute(self.term(vv), (k, wit(x))))),
                                  patterns=[z3.Select(dom, x), z3.Select(get, x)]))
            out.append((s, r))
        return out

    def quant_gen(self, e, st, isall):
        """all(..)/any(..) over a generator"""
        g = e
        out = []
        if isinstance(g, (ast.GeneratorExp, ast.ListComp)):
            if len(g.generators) == 2:
                inner = ast.GeneratorExp(elt=g.elt, generators=g.generators[1:])
                call = ast.Call(func=ast.Name(id='all' if isall else 'any', ctx=ast.Load()), args=[inner], keywords=[])
                g = ast.copy_location(ast.GeneratorExp(elt=call, generators=g.generators[:1]), g)
                ast.fix_missing_locations(g)
            for s, it, k, conds, (v,), facts in self.comp(g, st, [g.elt]):
                b = self.truth_of(v) if v.ty == BOOL else self.truth(v)
                rng = A_(0 <= k, k < it.n, *conds)
                sat = {}
                if it.seqv is not None:
                    sat = {'patterns': [self.th.op(it.seqv.ty, 'at')(it.seqv.t, k)]}
                if facts:
                    s.pc.append(z3.ForAll([k], I_(rng, A_(*facts)), **sat))
                q = z3.ForAll([k], I_(rng, b), **sat) if isall else z3.Exists([k], A_(rng, b), **sat)
                out.append((s, V(BOOL, q)))
            return out
        for s, v in self.ev(e, st):
            it = self.iter_of(v, s)
            k = self.th.fresh('k', z3.IntSort())
            b = self.truth(it.at(k))
            rng = A_(0 <= k, k < it.n)
            out.append((s, V(BOOL, z3.ForAll([k], I_(rng, b)) if isall else z3.Exists([k], A_(rng, b)))))
        return out


def isfresh(e):
    """does evaluating e yield a brand new container?"""
    return isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp, ast.BinOp, ast.Tuple)) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set', 'sorted', 'tuple', 'deque', 'defaultdict', 'Queue')) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'deepcopy')) or \
        (isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice))


def simp_set(t):
    if z3.is_select(t):
        a, x = t.arg(0), t.arg(1)
        if z3.is_const_array(a):
            return a.arg(0)
    return t


def pat_ok(t):
    """usable inside a trigger: no interpreted boolean/array-building structure"""
    if z3.is_store(t) or z3.is_const_array(t) or z3.is_quantifier(t):
        return False
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_ARRAY_MAP, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        return False
    return all(pat_ok(c) for c in t.children()) if z3.is_app(t) else True


BUILTINS = {'len', 'range', 'enumerate', 'zip', 'reversed', 'list', 'tuple', 'set', 'dict', 'frozenset', 'max', 'min', 'abs', 'sum',
            'filter', 'map',
            'any', 'all', 'sorted', 'isinstance', 'print', 'str', 'int', 'float', 'bool', 'next', 'iter', 'type', 'hasattr', 'hash', 'id',
            'super', 'repr', 'round', 'map', 'filter', 'issubclass', 'getattr', 'exit', 'property', 'Exception', 'KeyError', 'ValueError',
            'StopIteration', 'IndexError', 'NotImplementedError', 'RuntimeError', 'SystemExit', 'TypeError', 'AssertionError', 'AttributeError', 'NotImplemented', 'object', 'dir', 'open', 'input', 'callable'}
SPECIAL = {'forall', 'exists', 'implies', 'iff', 'ite', 'old', 'alloc', 'fresh', 'dom', 'subset', 'card', 'mapset', 'setadd', 'empty', 'box',
           'unbox', 'under', 'fld', 'contains', 'isbox', 'none', 'null', 'setof', 'same', 'store', 'mapdel', 'unchanged', 'setempty', 'perm', 'cat'}
PUREBUILTINS = {'len', 'isinstance', 'abs', 'max', 'min', 'tuple', 'list', 'set', 'str', 'int', 'float', 'bool', 'any', 'all', 'range', 'enumerate', 'zip', 'reversed', 'type', 'dict'} | SPECIAL
PUREMETHODS = {'keys', 'values', 'items', 'copy', 'get', 'union', 'intersection', 'difference', 'issubset', 'startswith', 'endswith'}
