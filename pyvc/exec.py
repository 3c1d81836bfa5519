"""Symbolic executor: one function of the real source against its contract -> proof obligations.

Forward execution with path splitting; loops are cut by invariants; calls with a contract use the contract,
calls without one are inlined from the repository source.
"""
import ast
import re
import z3
from . import types as T
from .types import INT, BOOL, REAL, VAL, NONE, FUN, erase, tname
from .world import split_binders, Loop, Contract

A_, O_, N_, I_ = z3.And, z3.Or, z3.Not, z3.Implies


class Unsupported(Exception):
    pass


class Range:
    pass


class V:
    __slots__ = ('ty', 't', 'const', 'parts', 'place', 'own', 'data')

    def __init__(self, ty, t=None, const=None, parts=None, place=None, own=None, data=None):
        self.ty, self.t, self.const, self.parts, self.place, self.own, self.data = ty, t, const, parts, place, own, data

    def __repr__(self):
        return 'V(%s,%s)' % (tname(self.ty), self.t if self.t is not None else (self.parts or self.data))


NOCONST = object()


class Frame:
    def __init__(self, path, cls, fn, contract, depth, parent=None):
        self.path, self.cls, self.fn, self.contract, self.depth, self.parent = path, cls, fn, contract, depth, parent
        self.loopno = {}
        n = m = 0
        if fn is not None:
            for x in preorder(fn):
                if isinstance(x, (ast.For, ast.While)):
                    self.loopno[id(x)] = n
                    n += 1
                elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    self.loopno[id(x)] = 'comp%d' % m
                    m += 1
        self.rename = {}


def preorder(fn):
    for c in ast.iter_child_nodes(fn):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield c
        yield from preorder(c)


class State:
    __slots__ = ('envs', 'heap', 'pc', 'old', 'frames', 'invalid')

    def __init__(self):
        self.envs = [{}]
        self.heap = {}
        self.pc = []
        self.old = None
        self.frames = []
        self.invalid = set()

    def copy(self):
        s = State()
        s.envs = [dict(e) for e in self.envs]
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.old = self.old
        s.frames = list(self.frames)
        s.invalid = set(self.invalid)
        return s

    @property
    def env(self):
        return self.envs[-1]


class Obligation:
    def __init__(self, fn, name, pc, goal, lemmas, timeout=None):
        self.fn, self.name, self.pc, self.goal, self.lemmas, self.timeout = fn, name, pc, goal, lemmas, timeout


class Exec:
    MAXDEPTH = 12
    localtypes = {}

    def __init__(self, world, source, theory):
        self.w, self.src, self.th = world, source, theory
        theory.fieldty = self.fieldty
        self.obls = []
        self.covers = []
        self.sinks = []
        self.specfuns = {}
        self.cur = None
        self.renames = {}
        self.used_contracts = set()
        self.inlined = set()
        self.used_externs = set()
        self.allreads = {}
        self.strs = {}
        self.mute = 0
        self.spec_depth = 0
        self.freshlog = None
        self.oblname = {}
        self.dropped = set()

    # ------------------------------------------------------------------ basics
    def fresh(self, name, ty):
        if ty[0] == 'tup':
            return V(ty, parts=[self.fresh('%s.%d' % (name, i), x) for i, x in enumerate(ty[1])])
        if ty[0] == 'fld':
            s = z3.ArraySort(self.th.sort(('ref', ty[1])), self.th.sort(self.fieldty(ty[1], ty[2])))
        elif ty[0] == 'range':
            raise Unsupported('range havoc')
        else:
            s = self.th.sort(ty)
        c = self.th.fresh(name, s)
        if self.freshlog is not None:
            self.freshlog.append(c)
        return V(ty, c)

    def term(self, v):
        """single z3 term of v"""
        if v.ty[0] == 'tup' and v.t is None:
            return self.th.tup_mk(v.ty, [self.term(p) for p in v.parts])
        if v.ty == NONE:
            return self.th.none_val
        if v.ty[0] == 'empty':
            raise Unsupported('container literal of unknown element type')
        if v.t is None:
            raise Unsupported('no term for %r' % (v,))
        return v.t

    def parts(self, v):
        if v.parts is not None:
            return v.parts
        if v.ty[0] == 'tup':
            return [V(x, self.th.tup_get(v.ty, v.t, i)) for i, x in enumerate(v.ty[1])]
        raise Unsupported('not a tuple: %r' % (v,))

    def strconst(self, s):
        if s not in self.strs:
            c = z3.Const('str_%d_%s' % (len(self.strs), re.sub(r'\W', '_', s)[:12]), self.th.VAL)
            sid = z3.Function('strid', self.th.VAL, z3.IntSort())
            self.th.ax('str.%s' % s, z3.And(self.th.tag(c) == 1000, sid(c) == len(self.strs), self.th.truthy(c) == (len(s) > 0)))
            self.strs[s] = c
        return self.strs[s]

    def const(self, x):
        if x is None:
            return V(NONE, const=NONE)
        if isinstance(x, bool):
            return V(BOOL, z3.BoolVal(x), const=x)
        if isinstance(x, int):
            return V(INT, z3.IntVal(x), const=x)
        if isinstance(x, float):
            if x == float('inf'):
                return V(REAL, z3.Const('INFINITY', z3.RealSort()))
            return V(REAL, z3.RealVal(repr(x)), const=x)
        if isinstance(x, str):
            return V(VAL, self.strconst(x), const=x)
        if x is Ellipsis:
            return V(NONE, const=NONE)
        raise Unsupported('constant %r' % (x,))

    def coerce(self, v, ty, st=None, code=False, what=''):
        if v.ty == ty:
            return v
        a, b = v.ty, ty
        th = self.th
        if a[0] == 'empty':
            return self.empty_of(ty)
        if erase(a) == erase(b) and a[0] == 'seq':
            if a[2] != b[2] and '?' not in (a[2], b[2]):
                raise Unsupported('list/tuple confusion at %s: %s to %s' % (what, a, b))
            return V(ty, v.t, place=v.place, own=v.own)
        if b[0] == 'opt':
            if a == NONE:
                return V(b, th.none(b))
            if a[0] == 'opt':
                if a[1][0] in ('ref', 'val') and b[1][0] == a[1][0]:
                    return V(b, v.t)
                if erase(a) == erase(b):
                    return V(b, v.t)
                inner = self.coerce(V(a[1], th.the(a, v.t)), b[1], st, False, what)
                return V(b, z3.If(th.is_none(a, v.t), th.none(b), th.some(b, self.term(inner))))
            x = self.coerce(v, b[1], st, code, what)
            return V(b, th.some(b, self.term(x)))
        if a[0] == 'opt' and b != VAL:
            if code and st is not None:
                self.oblige(st, N_(th.is_none(a, v.t)), 'value is not None (%s)' % what)
            return self.coerce(V(a[1], th.the(a, v.t)), b, st, code, what)
        if b == VAL:
            if a == NONE:
                return V(VAL, th.none_val)
            if a[0] == 'opt':
                inner = self.coerce(V(a[1], th.the(a, v.t)), VAL)
                return V(VAL, z3.If(th.is_none(a, v.t), th.none_val, inner.t))
            return V(VAL, th.box(a)[0](self.term(v)))
        if a == VAL and b in (BOOL, INT, REAL) or a == VAL and b[0] in ('ref', 'seq', 'tup'):
            bx = th.box(b)
            if code and st is not None:
                self.oblige(st, th.tag(v.t) == bx[2], 'dynamic type %s (%s)' % (tname(b), what))
            return V(b, bx[1](v.t))
        if a == INT and b == REAL:
            return V(REAL, z3.ToReal(v.t), const=v.const)
        if a == BOOL and b == INT:
            return V(INT, z3.If(v.t, 1, 0))
        if a == BOOL and b == REAL:
            return V(REAL, z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            ps = [self.coerce(p, t, st, code, what) for p, t in zip(self.parts(v), b[1])]
            return V(b, parts=ps)
        if a[0] == 'tup' and b[0] == 'seq' and b[2] in ('T', '?'):
            return self.mkseq([self.coerce(p, b[1], st, code, what) for p in self.parts(v)], b)
        if a == NONE and b[0] == 'ref':
            if code and st is not None:
                self.oblige(st, z3.BoolVal(False), 'None where a %s is required (%s)' % (b[1], what))
            return V(b, th.null(b[1]))
        if a[0] == 'seq' and b[0] == 'seq':
            # elementwise conversion
            if a[2] != b[2] and '?' not in (a[2], b[2]):
                raise Unsupported('list/tuple confusion at %s' % what)
            return self.seqmap(v, b, st)
        if a[0] == 'map' and b[0] == 'map' and erase(a) == erase(b):
            return V(b, v.t, place=v.place, own=v.own)
        if a[0] == 'set' and b[0] == 'set' and erase(a) == erase(b):
            return V(b, v.t, place=v.place, own=v.own)
        raise Unsupported('cannot convert %s to %s (%s)' % (tname(a), tname(b), what))

    def seqmap(self, v, b, st):
        r = self.fresh('conv', b)
        k = z3.Int('k')
        ln, at = self.th.op(v.ty, 'len'), self.th.op(v.ty, 'at')
        e = self.term(self.coerce(V(v.ty[1], at(v.t, k)), b[1]))
        rl, ra = self.th.op(b, 'len'), self.th.op(b, 'at')
        if st is None:
            raise Unsupported('sequence conversion')
        st.pc.append(rl(r.t) == ln(v.t))
        st.pc.append(z3.ForAll([k], I_(A_(0 <= k, k < ln(v.t)), ra(r.t, k) == e), patterns=[ra(r.t, k), at(v.t, k)]))
        return r

    def empty_of(self, ty):
        th = self.th
        if ty[0] == 'seq':
            return V(ty, th.op(ty, 'empty'), own='fresh')
        if ty[0] == 'set':
            return V(ty, z3.K(th.sort(ty[1]), False), own='fresh')
        if ty[0] == 'map':
            g = th.fresh('emptymap', z3.ArraySort(th.sort(ty[1]), th.sort(ty[2])))
            return V(ty, th.map_empty(ty, g), own='fresh')
        if ty == VAL:
            ety = ('seq', VAL, 'T')
            return V(VAL, th.box(ety)[0](th.op(ety, 'empty')))
        if ty[0] == 'opt':
            x = self.empty_of(ty[1])
            return V(ty, th.some(ty, self.term(x)), own='fresh')
        raise Unsupported('empty literal used as %s' % tname(ty))

    def mkseq(self, vs, ty):
        s = self.th.op(ty, 'empty')
        for v in vs:
            s = self.th.op(ty, 'snoc')(s, self.term(v))
        return V(ty, s, own='fresh')

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, goal, name):
        if self.spec_depth or self.mute:
            return
        goal = z3.simplify(goal) if z3.is_bool(goal) and not z3.is_quantifier(goal) else goal
        if z3.is_true(goal):
            self.trivial += 1
        fn = self.cur.name
        fr = st.frames[-1] if st.frames else None
        if fr is not None and fr.fn is not None and len(st.frames) > 1:
            name = '[inlined %s] %s' % (fr.fn.name, name)
        n = self.oblname.get(name, 0) + 1
        self.oblname[name] = n
        self.obls.append(Obligation(fn, '%s#%d' % (name, n), list(st.pc), goal, self.cur.lemmas, self.cur.timeout))

    trivial = 0

    def raise_(self, st, exc, val=None):
        if self.spec_depth:
            return
        self.sinks[-1].append((st, exc, val))

    # ------------------------------------------------------------------ heap
    def fieldty(self, cls, f):
        c = self.w.classes.get(cls)
        if c is None:
            raise Unsupported('class %s not declared' % cls)
        if f in c.fields:
            return self.w.ty(c.fields[f])
        if f in c.ghost:
            return self.w.ty(c.ghost[f])
        raise Unsupported('field %s.%s not declared' % (cls, f))

    def harr(self, st, cls, f):
        k = (cls, f)
        if k not in st.heap:
            if f == '$alloc':
                s = z3.ArraySort(self.th.sort(('ref', cls)), z3.BoolSort())
            else:
                s = z3.ArraySort(self.th.sort(('ref', cls)), self.th.sort(self.fieldty(cls, f)))
            raise Unsupported('heap field %s.%s missing' % k)
        return st.heap[k]

    def alloc(self, st, cls, t):
        return z3.Select(st.heap[(cls, '$alloc')], t)

    def wf(self, st, ty, t, deep=True):
        """language-level facts: references reachable from a value are allocated; non-optional ones are not None"""
        k = ty[0]
        if k == 'ref':
            return A_(t != self.th.null(ty[1]), self.alloc(st, ty[1], t))
        if k == 'opt':
            inner = self.wf(st, ty[1], self.th.the(ty, t))
            if z3.is_true(inner):
                return inner
            if ty[1][0] == 'ref':
                return O_(t == self.th.null(ty[1][1]), self.alloc(st, ty[1][1], t))
            return O_(self.th.is_none(ty, t), inner)
        if k == 'seq' and self.has_ref(ty[1]):
            i = z3.Int('wi%d' % self.depthof(ty))
            at = self.th.op(ty, 'at')
            return z3.ForAll([i], I_(A_(0 <= i, i < self.th.op(ty, 'len')(t)), self.wf(st, ty[1], at(t, i))), patterns=[at(t, i)], qid='wf_seq')
        if k == 'set' and self.has_ref(ty[1]):
            x = z3.Const('wx%d' % self.depthof(ty), self.th.sort(ty[1]))
            return z3.ForAll([x], I_(z3.Select(t, x), self.wf(st, ty[1], x)), patterns=[z3.Select(t, x)], qid='wf_set')
        if k == 'map' and (self.has_ref(ty[1]) or self.has_ref(ty[2])):
            x = z3.Const('wk%d' % self.depthof(ty), self.th.sort(ty[1]))
            d, g = self.th.map_dom(ty, t), self.th.map_get(ty, t)
            return z3.ForAll([x], I_(z3.Select(d, x), A_(self.wf(st, ty[1], x), self.wf(st, ty[2], z3.Select(g, x)))),
                             patterns=[z3.Select(d, x), z3.Select(g, x)], qid='wf_map')
        if k == 'tup':
            cs = [self.wf(st, x, self.th.tup_get(ty, t, i)) for i, x in enumerate(ty[1]) if self.has_ref(x)]
            return A_(*cs) if cs else z3.BoolVal(True)
        return z3.BoolVal(True)

    def depthof(self, ty):
        if ty[0] in ('seq', 'set', 'opt'):
            return 1 + self.depthof(ty[1])
        if ty[0] == 'map':
            return 1 + max(self.depthof(ty[1]), self.depthof(ty[2]))
        if ty[0] == 'tup':
            return 1 + max(self.depthof(x) for x in ty[1])
        return 0

    def has_ref(self, ty):
        k = ty[0]
        if k == 'ref':
            return True
        if k in ('seq', 'set', 'opt'):
            return self.has_ref(ty[1])
        if k == 'map':
            return self.has_ref(ty[1]) or self.has_ref(ty[2])
        if k == 'tup':
            return any(self.has_ref(x) for x in ty[1])
        return False

    def heapwf(self, st, cls, f):
        """quantified well-formedness of one (fresh) heap field array"""
        ty = self.fieldty(cls, f)
        if not self.has_ref(ty):
            return None
        o = z3.Const('o_' + cls, self.th.sort(('ref', cls)))
        h = st.heap[(cls, f)]
        return z3.ForAll([o], I_(self.alloc(st, cls, o), self.wf(st, ty, z3.Select(h, o))), patterns=[z3.Select(h, o)], qid='heapwf_%s_%s' % (cls, f))

    def init_heap(self, st):
        for cn, c in self.w.classes.items():
            rs = self.th.sort(('ref', cn))
            st.heap[(cn, '$alloc')] = z3.Const('alloc_%s' % cn, z3.ArraySort(rs, z3.BoolSort()))
            st.pc.append(N_(z3.Select(st.heap[(cn, '$alloc')], self.th.null(cn))))
        for cn, c in self.w.classes.items():
            rs = self.th.sort(('ref', cn))
            for f in list(c.fields) + list(c.ghost):
                st.heap[(cn, f)] = z3.Const('h_%s_%s' % (cn, f), z3.ArraySort(rs, self.th.sort(self.fieldty(cn, f))))
        for cn, c in self.w.classes.items():
            for f in list(c.fields) + list(c.ghost):
                x = self.heapwf(st, cn, f)
                if x is not None:
                    st.pc.append(x)

    def havoc_heap(self, st, keys):
        """havoc heap arrays; allocation only grows"""
        for (cn, f) in sorted(keys):
            old = st.heap[(cn, f)]
            new = self.th.fresh('h_%s_%s' % (cn, f.replace('$', '')), old.sort())
            st.heap[(cn, f)] = new
            if f == '$alloc':
                o = z3.Const('o_' + cn, self.th.sort(('ref', cn)))
                st.pc.append(z3.ForAll([o], I_(z3.Select(old, o), z3.Select(new, o)), patterns=[z3.Select(old, o), z3.Select(new, o)], qid='allocmono'))
                st.pc.append(N_(z3.Select(new, self.th.null(cn))))
        for (cn, f) in sorted(keys):
            if f != '$alloc':
                x = self.heapwf(st, cn, f)
                if x is not None:
                    st.pc.append(x)
        # growth of an allocation set re-states well-formedness of the untouched fields for free (monotone)

    def put_heap(self, st, key, t):
        """name the updated heap array, so that triggers stay free of store terms"""
        c = self.th.fresh('h_%s_%s' % (key[0], key[1].replace('$', '')), t.sort())
        HDEFS[c.decl().name()] = t
        st.pc.append(c == t)
        st.heap[key] = c

    def getfield(self, st, recv, f):
        cls = recv.ty[1]
        ty = self.fieldty(cls, f)
        t = z3.Select(self.harr(st, cls, f), recv.t)
        if z3.is_app(t):
            t = simp_select(t)
        v = V(ty, t)
        if ty[0] in ('seq', 'set', 'map'):
            v.place = ('fld', cls, f, recv.t)
        if not self.spec_depth and self.has_ref(ty) and ty[0] in ('ref', 'opt', 'tup'):
            st.pc.append(I_(self.alloc(st, cls, recv.t), self.wf(st, ty, t)))
        return v

    def setfield(self, st, recv, f, v, mutate=False):
        cls = recv.ty[1]
        c = self.w.classes[cls]
        if f in c.ignore and f not in c.fields:
            self.dropped.add('write to %s.%s' % (cls, f))
            return
        ty = self.fieldty(cls, f)
        if v.ty == NONE and ty[0] in ('map', 'seq', 'set'):
            self.dropped.add('None stored in %s.%s (taken for an arbitrary container until it is assigned)' % (cls, f))
            v = self.fresh('none_' + f, ty)
        v2 = self.coerce(v, ty, st, True, '%s.%s' % (cls, f))
        self.put_heap(st, (cls, f), z3.Store(self.harr(st, cls, f), recv.t, self.term(v2)))
        if not mutate and ty[0] in ('seq', 'set', 'map'):
            self.invalidate(st, ('fld', cls, f, recv.t))

    def invalidate(self, st, place):
        root = place[:3] if place[0] == 'fld' else place
        for e in st.envs:
            for n, x in list(e.items()):
                if isinstance(x, V) and x.place is not None and self.rootof(x.place)[:3] == root[:3]:
                    # an alias of a container that has just been replaced
                    e[n] = V(x.ty, None, data='stale alias')

    def rootof(self, p):
        while p[0] == 'idx':
            p = p[1]
        return p

    def readplace(self, st, p, ty):
        if p[0] == 'fld':
            return V(ty, simp_select(z3.Select(self.harr(st, p[1], p[2]), p[3])), place=p)
        if p[0] == 'var':
            return st.envs[p[1]][p[2]]
        if p[0] == 'idx':
            b = self.readplace(st, p[1], p[3])
            if b.ty[0] == 'map':
                return V(ty, z3.Select(self.th.map_get(b.ty, b.t), p[2]), place=p)
            if b.ty[0] == 'seq':
                return V(ty, self.th.op(b.ty, 'at')(b.t, p[2]), place=p)
        raise Unsupported('place')

    def writeplace(self, st, p, v, ty):
        if p[0] == 'fld':
            v = self.coerce(v, self.fieldty(p[1], p[2]), st, True)
            self.put_heap(st, (p[1], p[2]), z3.Store(self.harr(st, p[1], p[2]), p[3], self.term(v)))
        elif p[0] == 'var':
            old = st.envs[p[1]][p[2]]
            if old.place is not None and old.place != p:
                self.writeplace(st, old.place, v, ty)
            else:
                v = V(v.ty, v.t, parts=v.parts, own=old.own, data=v.data)
                st.envs[p[1]][p[2]] = v
        elif p[0] == 'idx':
            b = self.readplace(st, p[1], p[3])
            v = self.coerce(v, ty, st, True)
            if b.ty[0] == 'map':
                nb = self.map_set(b, V(b.ty[1], p[2]), v)
            else:
                nb = V(b.ty, self.th.op(b.ty, 'upd')(b.t, p[2], self.term(v)))
            self.writeplace(st, p[1], nb, b.ty)
        else:
            raise Unsupported('place')

    # -- map ops
    def map_set(self, m, k, v):
        th = self.th
        ty = m.ty
        k = self.coerce(k, ty[1])
        v = self.coerce(v, ty[2])
        kt, vt = self.term(k), self.term(v)
        return V(ty, th.map_put(ty, m.t, kt, vt))

    # ------------------------------------------------------------------ environment
    def lookup(self, st, name):
        i = len(st.envs) - 1
        while True:
            e = st.envs[i]
            if name in e:
                v = e[name]
                if isinstance(v, V) and v.data == 'stale alias':
                    raise Unsupported('read of %s after the container it aliases was replaced' % name)
                if isinstance(v, V) and v.place is not None and not (v.place[0] == 'var' and v.place[1:] == (i, name)):
                    return self.readplace(st, v.place, v.ty)
                return v
            p = e.get('$parent')
            if p is None:
                return None
            i = p

    def setvar(self, st, name, v, st_env=None):
        i = len(st.envs) - 1
        e = st.envs[i]
        if name in e.get('$nonlocal', ()):
            j = e.get('$parent')
            while j is not None and name not in st.envs[j]:
                j = st.envs[j].get('$parent')
            if j is not None:
                i, e = j, st.envs[j]
        lt = e.get('$types', {}).get(name)
        if lt is not None:
            v = self.coerce(v, lt, st, True, 'local %s' % name)
        e[name] = v

    def bindvar(self, st, name, v, fresh_expr):
        """assignment of a value to a local, with alias bookkeeping for containers"""
        if v.ty[0] in ('seq', 'set', 'map', 'empty') and not (v.ty[0] == 'seq' and v.ty[2] == 'T'):
            if v.own == 'fresh' or fresh_expr:
                v = V(v.ty, v.t, own='var', data=v.data)
            elif v.place is not None:
                v = V(v.ty, v.t, place=v.place, data=v.data)
        self.setvar(st, name, v)
        return v


HDEFS = {}


def simp_select(t):
    """select(store(h,i,v), i) -> v for syntactically equal indices, looking through named heap arrays"""
    if not z3.is_select(t):
        return t
    a, i = t.arg(0), t.arg(1)
    while True:
        if z3.is_const(a) and a.decl().name() in HDEFS:
            a = HDEFS[a.decl().name()]
        if not z3.is_store(a):
            return t
        j = a.arg(1)
        if i.eq(j):
            return a.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(j):
            a = a.arg(0)
            continue
        return t
