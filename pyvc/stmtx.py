"""Statements, loops, and the verification of one function against its contract."""
import ast
import re
import z3
from . import types as T
from .types import INT, BOOL, REAL, VAL, NONE, FUN, erase, tname
from .exec import V, State, Frame, Unsupported, Obligation, A_, O_, N_, I_
from .evalx import Iter, mutable, isfresh, pat_ok
from .callx import CallMixin, EXC_SUPER, short, preorder_all
from .world import Loop, Contract


class Verifier(CallMixin):
    # ---------------------------------------------------------------- path feasibility (cheap, quantifier-free)
    def feasible(self, st):
        s = z3.Solver()
        s.set('timeout', 300)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        return s.check() != z3.unsat

    def entails(self, st, goal):
        """a cheap check used only to simplify terms; quantifier-free facts plus nothing else"""
        if self.spec_depth:
            return False
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        s = z3.Solver()
        s.set('timeout', 300)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        # lengths are non-negative
        for t in len_terms(g):
            s.add(t >= 0)
        s.add(N_(g))
        return s.check() == z3.unsat

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        """list of (kind, state, value)"""
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for kind, s2, v in self.stmt(x, s):
                    if kind == 'normal':
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            cur = nxt
            if len(cur) > 64:
                raise Unsupported('path explosion')
        return out + [('normal', s, None) for s in cur]

    def stmt(self, x, st):
        c = st.frames[-1].contract if st.frames else None
        text = None
        if c is not None and c.ghost and not isinstance(x, (ast.If, ast.For, ast.While, ast.Try, ast.FunctionDef, ast.With)):
            text = ast.unparse(x)
            for k, code in c.ghost.items():
                if k.startswith('before:') and re.search(self.ren(k[7:], st), text):
                    self.ghost_hits.add((c.name, k))
                    r = self.ghost(code, st)
                    st = r
        self.sinks.append([])
        m = getattr(self, 'st_' + type(x).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(x).__name__)
        try:
            outs = m(x, st)
        finally:
            sink = self.sinks.pop()
        outs = outs + [('raise', s, (exc, val)) for s, exc, val in sink]
        if text is not None:
            for k, code in c.ghost.items():
                if k.startswith('after:') and re.search(self.ren(k[6:], st), text):
                    self.ghost_hits.add((c.name, k))
                    outs = [(kind, self.ghost(code, s) if kind in ('normal', 'return') else s, v) for kind, s, v in outs]
        return outs

    ghost_hits = set()

    def ren(self, text, st):
        return text

    def st_Pass(self, x, st):
        return [('normal', st, None)]

    def st_Import(self, x, st):
        for a in x.names:
            if '.' not in a.name:
                st.env[a.asname or a.name] = V(('mod', a.name), data=('ext', a.name))
        return [('normal', st, None)]

    def st_ImportFrom(self, x, st):
        for a in x.names:
            mp = self.src.modpath(x.module or '', st.frames[-1].path, x.level)
            n = a.asname or a.name
            if mp:
                r = self.src.resolve(mp, a.name)
                if r:
                    st.env[n] = self.from_resolved(r, n, st)
                    continue
            st.env[n] = V(('mod', x.module), data=('ext', '%s.%s' % (x.module, a.name)))
        return [('normal', st, None)]

    def st_Nonlocal(self, x, st):
        st.env['$nonlocal'] = set(st.env.get('$nonlocal', ())) | set(x.names)
        return [('normal', st, None)]

    def st_Global(self, x, st):
        raise Unsupported('global statement')

    def st_Expr(self, x, st):
        if isinstance(x.value, ast.Constant):
            return [('normal', st, None)]
        if isinstance(x.value, ast.Yield):
            return self.do_yield(x.value, st)
        if isinstance(x.value, ast.YieldFrom):
            out = []
            for s, v in self.ev(x.value.value, st):
                y = s.env['_yielded']
                sq = self.to_seq(v, s, 'L')
                if sq.ty[0] != 'empty':
                    y = self.empty_of(sq.ty) if y.ty[0] == 'empty' else y
                    s.env['_yielded'] = self.concat(y, self.coerce(sq, y.ty, s), s)
                out.append(('normal', s, None))
            return out
        return [('normal', s, None) for s, _ in self.ev(x.value, st)]

    def do_yield(self, y, st):
        out = []
        for s, v in (self.ev(y.value, st) if y.value is not None else [(st, V(NONE, const=NONE))]):
            acc = s.env.get('_yielded')
            if acc is None:
                raise Unsupported('yield outside a generator contract')
            if acc.ty[0] == 'empty':
                acc = self.empty_of(('seq', v.ty, 'L'))
            s.env['_yielded'] = V(acc.ty, self.th.op(acc.ty, 'snoc')(acc.t, self.term(self.coerce(v, acc.ty[1], s, True, 'yielded value'))), own='fresh')
            out.append(('normal', s, None))
        return out

    def st_FunctionDef(self, x, st):
        st.env[x.name] = V(FUN, data=('def', st.frames[-1].path, x, None, len(st.envs) - 1))
        return [('normal', st, None)]

    def st_ClassDef(self, x, st):
        raise Unsupported('local class')

    def st_Return(self, x, st):
        if x.value is None:
            return [('return', st, V(NONE, const=NONE))]
        return [('return', s, v) for s, v in self.ev(x.value, st)]

    def st_Break(self, x, st):
        return [('break', st, None)]

    def st_Continue(self, x, st):
        return [('continue', st, None)]

    def st_Assert(self, x, st):
        out = []
        for s, v in self.ev(x.test, st):
            self.oblige_or_raise(s, self.truth_of(v), 'AssertionError', 'assert ' + short(ast.unparse(x.test)))
            if not z3.is_false(z3.simplify(self.truth_of(v))):
                out.append(('normal', s, None))
        return out

    def st_Raise(self, x, st):
        n = 'Exception'
        if x.exc is not None:
            t = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
            n = t.id if isinstance(t, ast.Name) else ast.unparse(t)
        self.raise_(st, n)
        return []

    def st_Delete(self, x, st):
        cur = [st]
        for t in x.targets:
            if isinstance(t, ast.Subscript):
                nxt = []
                for s in cur:
                    for s2, (b, i) in self.evs([t.value, t.slice], s):
                        b = self.strip_opt(b, s2)
                        if b.ty[0] == 'map':
                            kt = self.term(self.elem(i, b.ty[1], s2))
                            dom, get = self.th.map_dom(b.ty, b.t), self.th.map_get(b.ty, b.t)
                            self.oblige_or_raise(s2, z3.Select(dom, kt), 'KeyError', 'key present: ' + ast.unparse(t))
                            self.store_container(s2, b, V(b.ty, self.th.map_rem(b.ty, b.t, kt)), t)
                        elif b.ty[0] == 'seq':
                            iv = self.coerce(i, INT, s2, True)
                            self.oblige_or_raise(s2, A_(0 <= iv.t, iv.t < self.th.op(b.ty, 'len')(b.t)), 'IndexError', 'index in range: ' + ast.unparse(t))
                            self.store_container(s2, b, V(b.ty, self.th.op(b.ty, 'del_')(b.t, iv.t)), t)
                        else:
                            raise Unsupported('del')
                        nxt.append(s2)
                cur = nxt
            elif isinstance(t, ast.Name):
                for s in cur:
                    s.env.pop(t.id, None)
            else:
                raise Unsupported('del')
        return [('normal', s, None) for s in cur]

    def store_container(self, st, b, nv, node):
        if b.place is None:
            if b.own == 'fresh':
                return
            raise Unsupported('mutation of a container whose owner is not known: %s' % ast.unparse(node)[:60])
        if b.place[0] == 'var':
            cur = st.envs[b.place[1]][b.place[2]]
            if cur.own == 'borrow' and cur.place is None:
                raise Unsupported('mutation of a borrowed container: %s' % ast.unparse(node)[:60])
        self.writeplace(st, b.place, nv, nv.ty)

    def st_AnnAssign(self, x, st):
        if x.value is None:
            return [('normal', st, None)]
        a = ast.copy_location(ast.Assign(targets=[x.target], value=x.value), x)
        return self.st_Assign(a, st)

    def st_Assign(self, x, st):
        out = []
        if isinstance(x.value, ast.IfExp) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isfresh(x.value.body) != isfresh(x.value.orelse) and not self.spec_depth:
            # `x = c if p else d` where one branch builds a new container: decided as an if statement, so that ownership is known on each path
            for s, c in self.ev(x.value.test, st):
                b = z3.simplify(self.truth_of(c))
                for cond, val in ((b, x.value.body), (N_(b), x.value.orelse)):
                    s2 = s.copy()
                    s2.pc.append(cond)
                    if z3.is_false(z3.simplify(cond)) or not self.feasible(s2):
                        continue
                    out += self.st_Assign(ast.copy_location(ast.Assign(targets=x.targets, value=val), x), s2)
            return out
        if isinstance(x.value, ast.List) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            self.expect = (x.value, st.envs[-1].get('$types', {}).get(x.targets[0].id))
        for s, v in self.ev(x.value, st):
            states = [s]
            for t in x.targets:
                nxt = []
                for s2 in states:
                    nxt += self.assign(t, v, s2, isfresh(x.value))
                states = nxt
            out += [('normal', s2, None) for s2 in states]
        return out

    def detach(self, st, name):
        """the variable is about to be rebound: aliases of its container keep the value"""
        i = len(st.envs) - 1
        e = st.envs[i]
        if name in e.get('$nonlocal', ()):
            return
        old = e.get(name)
        if not isinstance(old, V) or old.place is not None:
            return
        heir = None
        for j, env in enumerate(st.envs):
            for n, a in list(env.items()):
                if isinstance(a, V) and a.place is not None and a.place[:1] == ('var',) and a.place[1:] == (i, name) and not (j == i and n == name):
                    if heir is None:
                        env[n] = V(old.ty, old.t, own=old.own, parts=old.parts, data=old.data)
                        heir = ('var', j, n)
                    else:
                        env[n] = V(old.ty, None, place=heir)

    def assign(self, t, v, st, fresh):
        if isinstance(t, ast.Name):
            if not (v.place is not None and v.place == ('var', len(st.envs) - 1, t.id)):
                self.detach(st, t.id)
                self.bindvar(st, t.id, v, fresh and v.own != 'borrow')
            return [st]
        if isinstance(t, ast.Attribute):
            res = []
            for s, b in self.ev(t.value, st):
                b = self.strip_opt(b, s, 'object of .%s =' % t.attr)
                if b.ty[0] == 'cls' and b.data[0] == 'cls' and t.attr in self.w.classes[b.data[1]].cvars:
                    b = self.specfn_call(self.w.classes[b.data[1]].cvars[t.attr], [], s)
                if b.ty[0] != 'ref':
                    raise Unsupported('attribute assignment on %s' % tname(b.ty))
                c = self.w.classes[b.ty[1]]
                if t.attr in c.consts or (t.attr in c.ignore and t.attr not in c.fields):
                    self.dropped.add('write to %s.%s' % (b.ty[1], t.attr))
                    res.append(s)
                    continue
                if mutable(v.ty) and v.place is not None and v.place[0] == 'var' and not fresh:
                    src = s.envs[v.place[1]].get(v.place[2])
                    while src is not None and src.place is not None and src.place[0] == 'var':
                        v = V(v.ty, v.t, place=src.place, own=v.own, parts=v.parts, data=v.data)
                        src = s.envs[v.place[1]].get(v.place[2])
                    if src is not None and src.place is not None:
                        raise Unsupported('container shared by two owners: %s' % ast.unparse(t))
                    self.setfield(s, b, t.attr, v)
                    if v.ty[0] != 'empty':
                        s.envs[v.place[1]][v.place[2]] = V(self.fieldty(b.ty[1], t.attr), None, place=('fld', b.ty[1], t.attr, b.t))
                    else:
                        s.envs[v.place[1]][v.place[2]] = V(self.fieldty(b.ty[1], t.attr), None, place=('fld', b.ty[1], t.attr, b.t))
                else:
                    if mutable(v.ty) and v.place is not None and not fresh and '%s.%s' % (b.ty[1], t.attr) in self.cur.share:
                        self.dropped.add('%s.%s shares its container with another owner (a snapshot is taken)' % (b.ty[1], t.attr))
                        self.setfield(s, b, t.attr, V(v.ty, v.t))
                        res.append(s)
                        continue
                    if mutable(v.ty) and v.place is not None and not fresh and v.place != ('fld', b.ty[1], t.attr, b.t):
                        raise Unsupported('container shared by two owners: %s' % ast.unparse(t))
                    if v.place == ('fld', b.ty[1], t.attr, b.t) and mutable(v.ty):
                        res.append(s)
                        continue
                    self.setfield(s, b, t.attr, v)
                res.append(s)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for s, (b, i) in self.evs([t.value, t.slice], st):
                b = self.strip_opt(b, s, 'container')
                if b.ty[0] == 'empty':
                    ty = ('map', i.ty, v.ty) if b.ty[1] in ('D',) else None
                    if ty is None or v.ty[0] == 'empty':
                        raise Unsupported('store into an untyped literal: ' + ast.unparse(t))
                    b = V(ty, self.empty_of(ty).t, place=b.place, own=b.own)
                if b.ty[0] == 'map':
                    nv = self.map_set(b, self.elem(i, b.ty[1], s), self.coerce(v, b.ty[2], s, True, ast.unparse(t)))
                elif b.ty[0] == 'seq':
                    iv = self.coerce(i, INT, s, True)
                    n = self.th.op(b.ty, 'len')(b.t)
                    idx = iv.t if not (isinstance(iv.const, int) and iv.const < 0) else n + iv.const
                    self.oblige_or_raise(s, A_(0 <= idx, idx < n), 'IndexError', 'index in range: ' + ast.unparse(t))
                    nv = V(b.ty, self.th.op(b.ty, 'upd')(b.t, idx, self.term(self.coerce(v, b.ty[1], s, True, ast.unparse(t)))))
                else:
                    raise Unsupported('item assignment on %s' % tname(b.ty))
                self.store_container(s, b, nv, t)
                if mutable(v.ty) and v.place is not None and v.place[0] == 'var' and not fresh:
                    # the local keeps aliasing the stored container
                    if b.ty[0] == 'map' and b.place is not None:
                        s.envs[v.place[1]][v.place[2]] = V(b.ty[2], None, place=('idx', b.place, self.term(self.elem(i, b.ty[1], s)), b.ty))
                    else:
                        src = s.envs[v.place[1]][v.place[2]]
                        s.envs[v.place[1]][v.place[2]] = V(src.ty, src.t, own='borrow')
                res.append(s)
            return res
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.strip_opt(v, st, 'unpacked value')
            if v.ty[0] == 'tup' and not any(isinstance(y, ast.Starred) for y in t.elts):
                ps = self.parts(v)
                if len(ps) != len(t.elts):
                    raise Unsupported('unpack arity')
                cur = [st]
                for y, p in zip(t.elts, ps):
                    nxt = []
                    for s in cur:
                        nxt += self.assign(y, p if p.own or p.place or not mutable(p.ty) else V(p.ty, p.t, own='fresh' if v.own == 'fresh' else 'borrow'), s, False)
                    cur = nxt
                return cur
            self.bind_target(t, v, st)
            return [st]
        raise Unsupported('assignment target')

    def st_AugAssign(self, x, st):
        load = ast.copy_location(ast.fix_missing_locations(type(x.target)(**{k: getattr(x.target, k) for k in x.target._fields if k != 'ctx'}, ctx=ast.Load())), x)
        out = []
        if isinstance(x.target, ast.Attribute):
            # ignored counters
            for s, b in self.ev(x.target.value, st):
                c = self.w.classes.get(b.ty[1]) if b.ty[0] == 'ref' else None
                if c is not None and x.target.attr in c.ignore and x.target.attr not in c.fields:
                    self.dropped.add('write to %s.%s' % (b.ty[1], x.target.attr))
                    return [('normal', s2, None) for s2, _ in self.ev(x.value, s)]
                break
        for s, (a, b) in self.evs([load, x.value], st):
            if isinstance(x.op, ast.Add) and mutable(a.ty):
                # list += iterable mutates in place
                for s2, _ in self.container_method(a, 'extend', [b], {}, s, x):
                    out.append(('normal', s2, None))
                continue
            if isinstance(x.op, ast.BitOr) and a.ty[0] in ('set', 'empty'):
                for s2, _ in self.container_method(a, 'update', [b], {}, s, x):
                    out.append(('normal', s2, None))
                continue
            r = self.binop(x.op, a, b, s)
            for s2 in self.assign(x.target, r, s, True):
                out.append(('normal', s2, None))
        return out

    def st_If(self, x, st):
        out = []
        if ast.unparse(x.test) == '__debug__':
            return self.block(x.body, st)
        for s, c in self.ev(x.test, st):
            b = z3.simplify(self.truth_of(c)) if not has_quant(self.truth_of(c)) else self.truth_of(c)
            if z3.is_true(b):
                out += self.block(x.body, s)
                continue
            if z3.is_false(b):
                out += self.block(x.orelse, s)
                continue
            sa, sb = s.copy(), s
            sa.pc.append(b)
            sb.pc.append(N_(b))
            if self.feasible(sa):
                self.narrow(x.test, sa, True)
                out += self.block(x.body, sa)
            if self.feasible(sb):
                out += self.block(x.orelse, sb)
        return out

    def narrow(self, test, st, pos):
        pass

    def st_Try(self, x, st):
        names = []
        for h in x.handlers:
            if h.type is None:
                names.append({'*'})
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                ns = set()
                for t in ts:
                    n = ast.unparse(t).split('.')[-1]
                    ns.add(n)
                    if n in ('Exception', 'BaseException'):
                        ns.add('*')
                    for k, sup in EXC_SUPER.items():
                        if n in sup:
                            ns.add(k)
                names.append(ns)
        saved = self.handlers
        self.handlers = list(saved) + names
        try:
            outs = self.block(x.body, st)
        finally:
            self.handlers = saved
        res = []
        for kind, s, v in outs:
            if kind == 'raise':
                for h, ns in zip(x.handlers, names):
                    if v[0] in ns or ('*' in ns and v[0] not in ('SystemExit', 'KeyboardInterrupt') or (h.type is None)):
                        if h.name:
                            s.env[h.name] = self.fresh('exc', VAL)
                        res += self.block(h.body, s)
                        break
                else:
                    res.append((kind, s, v))
            elif kind == 'normal' and x.orelse:
                res += self.block(x.orelse, s)
            else:
                res.append((kind, s, v))
        if x.finalbody:
            fin = []
            for kind, s, v in res:
                for k2, s2, v2 in self.block(x.finalbody, s):
                    fin.append((kind, s2, v) if k2 == 'normal' else (k2, s2, v2))
            res = fin
        return res

    # ---------------------------------------------------------------- loops
    def loop_spec(self, x, st):
        fr = st.frames[-1]
        n = fr.loopno.get(id(x))
        c = fr.contract
        if c is None and fr.fn is not None:
            key = '%s::%s%s' % (fr.path, (fr.cls[1].name + '.') if fr.cls else '', fr.fn.name)
            for k in self.w.by_target.get(key, []):
                if n in k.loops:
                    c = k
                    break
        if c is not None and n in c.loops:
            return c.loops[n], n
        return None, n

    def loop_vars(self, nodes):
        """names of locals a loop body may rebind or mutate (syntactic part; the semantic part is discovered)"""
        names = set()
        for nd in nodes:
            for y in [nd] + list(preorder_all(nd)):
                if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                    names.add(y.id)
        return names

    def st_While(self, x, st):
        spec, n = self.loop_spec(x, st)
        if spec is None:
            spec = Loop(idx="_k$%s" % n, it="_it$%s" % n)
        return self.loop(x, spec, n, st, None)

    def st_For(self, x, st):
        spec, n = self.loop_spec(x, st)
        out = []
        for s, src in self.ev(x.iter, st):
            src0 = src
            if (spec is None or spec.unroll) and not isinstance(src.data, Iter) and src.ty[0] == 'tup':
                out += self.unroll(x, self.parts(src), s)
                continue
            if src.ty[0] == 'empty':
                out += self.block(x.orelse, s)
                continue
            it = self.iter_of(src, s)
            out += self.loop(x, spec or Loop(idx="_k$%s" % n, it="_it$%s" % n), n, s, it)
        return out

    def unroll(self, x, items, st):
        cur, out = [st], []
        for v in items:
            nxt = []
            for s in cur:
                for s2 in self.assign(x.target, v, s, False):
                    for kind, s3, r in self.block(x.body, s2):
                        if kind in ('normal', 'continue'):
                            nxt.append(s3)
                        elif kind == 'break':
                            out.append(('normal', s3, None))
                        else:
                            out.append((kind, s3, r))
            cur = nxt
        for s in cur:
            out += self.block(x.orelse, s)
        return out

    def loop(self, x, spec, n, st, it):
        isfor = it is not None
        fr = st.frames[-1]
        label = 'loop%s' % n if len(st.frames) == 1 else '%s.loop%s' % (fr.fn.name if fr.fn else '', n)
        kname = spec.idx or '_k'
        itname = spec.it or '_it'
        types = {k: self.w.ty(t) for k, t in spec.locals.items()}
        if types:
            st.env['$types'] = dict(st.env.get('$types', {}), **types)
            for nme, t in types.items():
                if nme in st.env and isinstance(st.env[nme], V) and st.env[nme].place is None:
                    v0 = st.env[nme]
                    v1 = self.coerce(v0, t, st, True, 'local ' + nme)
                    st.env[nme] = V(v1.ty, v1.t, parts=v1.parts, own=v0.own, data=v1.data)
        extra0 = {}
        if isfor:
            extra0[kname] = V(INT, z3.IntVal(0), const=0)
            if it.seqv is not None:
                extra0[itname] = it.seqv
            elif getattr(it, 'keys', None) is not None:
                extra0[itname] = it.keys
            extra0['_n'] = V(INT, it.n)
        gh = (fr_contract(st) or Contract('x')).ghost.get('%s.before' % label_local(label))
        if gh:
            st = self.ghost(gh, st)
        entry = st
        # invariants on entry
        loopold = st.copy()
        base_env = dict(extra0)

        def inv_terms(s, extra):
            s2 = s.copy()
            return [(t, self.specb(t, s2, dict(extra, **{'$entry': None}))) for t in spec.inv]
        st.env['$loop_entry_%s' % label] = ('state', None)
        for t, g in inv_terms(st, extra0):
            self.oblige(st, g, '%s invariant on entry: %s' % (label, short(t)))
            if has_quant(g):
                pass
        # discover what the body changes
        havoc_vars = self.loop_vars(x.body + ([x.target] if isfor else []) + ([] if isfor else [x.test]))
        havoc_heap = set()
        for attempt in range(6):
            nobl, ncov, snap = len(self.obls), len(self.covers), dict(self.oblname)
            res = self.loop_body(x, spec, label, entry.copy(), it, extra0, kname, havoc_vars, havoc_heap)
            newv, newh, outs = res
            if not newv and not newh:
                return outs
            del self.obls[nobl:]
            del self.covers[ncov:]
            self.oblname = snap
            havoc_vars |= newv
            havoc_heap |= newh
        raise Unsupported('loop frame does not stabilise')

    def loop_body(self, x, spec, label, st, it, extra0, kname, hv, hh):
        isfor = it is not None
        entry_env = dict(st.env)
        for key, mk in self.loop_frame(hh):
            self.oblige(st, mk(st.heap[key]), '%s frame on entry: %s.%s' % ((label,) + key))
        # havoc
        s = st.copy()
        locs = [(len(s.envs) - 1, nme) for nme in hv if not isinstance(nme, tuple)] + [p for p in hv if isinstance(p, tuple)]
        done = set()
        wfs = []
        for (i, nme) in sorted(locs):
            e = s.envs[i]
            # nonlocal names live in an enclosing environment
            if nme not in e:
                j = e.get('$parent')
                if nme in e.get('$nonlocal', ()):
                    while j is not None and nme not in s.envs[j]:
                        j = s.envs[j].get('$parent')
                    if j is None:
                        continue
                    i, e = j, s.envs[j]
                else:
                    continue
            if (i, nme) in done:
                continue
            done.add((i, nme))
            v = e[nme]
            if not isinstance(v, V):
                continue
            if v.place is not None:
                if v.place[0] == 'fld' or v.place[0] == 'idx':
                    # may be rebound in the loop
                    if nme in self.loop_vars(x.body):
                        e[nme] = V(v.ty, None, data='stale alias')
                    continue
                if nme in self.loop_vars(x.body):
                    e[nme] = V(v.ty, None, data='stale alias')
                continue
            ty = s.envs[i].get('$types', {}).get(nme, v.ty)
            if ty in (FUN,) or ty[0] in ('cls', 'mod', 'iter', 'sdict'):
                continue
            if ty[0] == 'empty':
                e[nme] = V(ty, None, data='untyped', own=v.own)
                e[nme] = v
                self.untyped.add((i, nme))
                continue
            if ty == NONE:
                self.untyped.add((i, nme))
                continue
            nv = self.fresh(nme, ty)
            if self.has_ref(ty):
                wfs.append((ty, self.term(nv)))
            nv.own = v.own
            e[nme] = nv
        self.havoc_heap(s, hh)
        for ty, t in wfs:        # with respect to the objects allocated by then
            s.pc.append(self.wf(s, ty, t))
        frame = self.loop_frame(hh)
        for key, mk in frame:
            s.pc.append(mk(s.heap[key]))
        extra = dict(extra0)
        if isfor:
            k = self.fresh(kname, INT)
            extra[kname] = k
            s.pc.append(A_(k.t >= 0, z3.If(it.n > 0, k.t <= it.n, k.t == 0)))
        # assumed invariants
        for t in spec.inv:
            s.pc.append(self.specb(t, s, extra))
        head = s.copy()
        outs = []
        newv, newh = set(), set()
        # exit path
        ex = s.copy()
        body_states = []
        if isfor:
            ex.pc.append(k.t == z3.If(it.n > 0, it.n, 0))
            self.expose(ex, spec, extra, kname)
            exits = [ex]
            b = s.copy()
            b.pc.append(k.t < it.n)
            for kk, vv in extra.items():
                b.env.setdefault('$ghostidx', {})
            el = it.at(k.t)
            if self.has_ref(el.ty):
                b.pc.append(self.wf(b, el.ty, self.term(el)))
            b.envs[-1] = dict(b.envs[-1])
            self.expose(b, spec, extra, kname)
            for nme in self.loop_vars([x.target]):
                self.detach(b, nme)
            b2 = self.assign(x.target, V(el.ty, el.t, parts=el.parts, data=el.data, own='borrow' if mutable(el.ty) else None), b, False)
            body_states = b2
        else:
            exits = []
            self.expose(s, spec, extra, kname)
            for s2, c in self.ev(x.test, s):
                t = self.truth_of(c)
                t = t if has_quant(t) else z3.simplify(t)
                e2 = s2.copy()
                e2.pc.append(N_(t))
                if not z3.is_true(t) and self.feasible(e2):
                    exits.append(e2)
                if not z3.is_false(t):
                    s2.pc.append(t)
                    if self.feasible(s2):
                        body_states.append(s2)
        self.covers.append((self.cur.name, '%s body' % label, [list(b.pc) for b in body_states]))
        dec0 = None
        brk = []
        for b in body_states:
            if spec.dec:
                dec0 = self.coerce(self.spec(spec.dec, b, extra), INT).t
                self.oblige(b, dec0 >= 0, '%s variant bounded below' % label)
            gh = (fr_contract(b) or Contract('x')).ghost.get('%s.start' % label_local(label))
            if gh:
                b = self.ghost(gh, b)
            for kind, s2, v in self.block(x.body, b):
                if kind in ('normal', 'continue'):
                    gh = (fr_contract(s2) or Contract('x')).ghost.get('%s.end' % label_local(label))
                    if gh:
                        s2 = self.ghost(gh, s2)
                    nv, nh = self.changed(head, s2, hv, hh, it)
                    newv |= nv
                    newh |= nh
                    ex2 = dict(extra)
                    if isfor:
                        ex2[kname] = V(INT, k.t + 1)
                    self.unexpose(s2, spec, extra, kname)
                    if nv or nh:
                        continue
                    for t in spec.inv:
                        self.oblige(s2, self.specb(t, s2, ex2), '%s invariant preserved: %s' % (label, short(t)))
                    for key, mk in frame:
                        self.oblige(s2, mk(s2.heap[key]), '%s frame: %s.%s of objects outside the modifies clause' % ((label,) + key))
                    if spec.dec:
                        self.oblige(s2, self.coerce(self.spec(spec.dec, s2, ex2), INT).t < dec0, '%s variant decreases' % label)
                elif kind == 'break':
                    self.unexpose(s2, spec, extra, kname)
                    brk.append(s2)
                else:
                    self.unexpose(s2, spec, extra, kname)
                    outs.append((kind, s2, v))
        for e2 in exits:
            self.unexpose(e2, spec, extra, kname)
            # facts about the last element are not kept; the loop variable is unconstrained
            outs += self.block(x.orelse, e2)
        outs += [('normal', s2, None) for s2 in brk]
        return newv, newh, outs

    def loop_frame(self, hh):
        """the function's own frame condition, as an implicit loop invariant for every havocked field"""
        entry = self.entry_state
        if entry is None:
            return []
        allowed = {}
        for k, f, o in self.mod_keys(self.cur, entry):
            allowed.setdefault((k, f), []).append(o)
        out = []
        for key in sorted(hh):
            if key[1] == '$alloc':
                continue
            objs = allowed.get(key, [])
            if None in objs:
                continue
            old = entry.heap[key]

            def mk(new, key=key, objs=objs, old=old):
                o = z3.Const('fr_' + key[0], self.th.sort(('ref', key[0])))
                return z3.ForAll([o], I_(A_(self.alloc(entry, key[0], o), *[o != x for x in objs]), z3.Select(new, o) == z3.Select(old, o)),
                                 patterns=[z3.Select(new, o), z3.Select(old, o)], qid='loopframe')
            out.append((key, mk))
        return out

    entry_state = None
    untyped = set()

    def expose(self, st, spec, extra, kname):
        """make the loop index visible to nested specifications and ghost code"""
        for n, v in extra.items():
            st.env['%s' % n] = v

    def unexpose(self, st, spec, extra, kname):
        return

    def changed(self, head, s2, hv, hh, it):
        nv, nh = set(), set()
        depth = len(head.envs)
        hvn = {p if isinstance(p, tuple) else (depth - 1, p) for p in hv}
        for i in range(depth):
            for nme, v in head.envs[i].items():
                if not isinstance(v, V) or nme.startswith('$'):
                    if nme == '_yielded':
                        pass
                    else:
                        continue
                w = s2.envs[i].get(nme)
                if (i, nme) in hvn or w is None or not isinstance(v, V):
                    # a havocked variable must keep its declared type
                    if isinstance(w, V) and isinstance(v, V) and w.ty != v.ty and (v.ty[0] == 'empty' or v.ty == NONE or erase(w.ty) != erase(v.ty)) and (i, nme) in hvn:
                        if w.data == 'stale alias' or v.data == 'stale alias':
                            continue
                        t = s2.envs[i].get('$types', {}).get(nme)
                        if t is None:
                            j = self.join_ty([v.ty, w.ty])
                            if v.ty[0] == 'empty' or v.ty == NONE or j != VAL:
                                self.autotypes[(i, nme)] = j
                                raise Retype(i, nme, j)
                            raise Unsupported('local %s changes type in a loop: %s then %s' % (nme, tname(v.ty), tname(w.ty)))
                    continue
                same = w is v or (w.ty == v.ty and w.t is not None and v.t is not None and w.t.eq(v.t)) or (w.place is not None and w.place == v.place) \
                    or (w.t is None and v.t is None and w.ty == v.ty and not w.parts and not v.parts)
                if w.ty[0] == 'tup' and v.ty == w.ty and not same:
                    same = self.term(w).eq(self.term(v))
                if not same:
                    if v.place is not None and v.data is None and w.data == 'stale alias':
                        continue
                    nv.add((i, nme))
        for key in head.heap:
            if key not in hh and not s2.heap[key].eq(head.heap[key]):
                nh.add(key)
        return nv, nh

    autotypes = {}

    # ---------------------------------------------------------------- ghost code
    def ghost(self, code, st):
        st = st.copy()
        import textwrap
        for x in ast.parse(textwrap.dedent(code)).body:
            st = self.ghost_stmt(x, st)
        return st

    def gspec(self, e, st):
        s = st.copy()
        n = len(s.pc)
        self.spec_depth += 1
        try:
            r = self.ev(e, s)
        finally:
            self.spec_depth -= 1
        if len(r) != 1:
            raise Unsupported('ghost expression forks')
        v = r[0][1]
        return V(v.ty, v.t, const=v.const, parts=v.parts, data=v.data) if v.place is not None else v

    def ghost_stmt(self, x, st):
        if isinstance(x, ast.Assert):
            g = self.truth(self.gspec(x.test, st))
            self.oblige(st, g, 'ghost assertion: ' + short(ast.unparse(x.test)))
            st.pc.append(g)
            return st
        if isinstance(x, ast.Assign):
            v = self.gspec(x.value, st)
            t = x.targets[0]
            if isinstance(t, ast.Name):
                if v.ty[0] == 'empty' and t.id in (st.env.get('$types') or {}):
                    v = self.coerce(v, st.env['$types'][t.id], st)
                st.env[t.id] = v
                return st
            if isinstance(t, ast.Attribute):
                o = self.gspec(t.value, st)
                if o.ty[0] == 'opt':
                    o = V(o.ty[1], o.t)
                if t.attr not in self.w.classes[o.ty[1]].ghost:
                    raise Unsupported('ghost code assigns the real field %s' % t.attr)
                v = self.coerce(v, self.fieldty(o.ty[1], t.attr))
                k = (o.ty[1], t.attr)
                self.put_heap(st, k, z3.Store(st.heap[k], o.t, self.term(v)))
                return st
        if isinstance(x, ast.If) and isinstance(x.test, ast.Call) and isinstance(x.test.func, ast.Name) and x.test.func.id == 'bound':
            # static: which locals exist on this path
            ok = all(self.lookup(st, a.id) is not None for a in x.test.args)
            for y in x.body if ok else x.orelse:
                st = self.ghost_stmt(y, st)
            return st
        if isinstance(x, ast.If):
            c = self.truth(self.gspec(x.test, st))
            a, b = st.copy(), st.copy()
            a.pc.append(c)
            b.pc.append(N_(c))
            n = len(st.pc) + 1
            for y in x.body:
                a = self.ghost_stmt(y, a)
            for y in x.orelse:
                b = self.ghost_stmt(y, b)
            out = st.copy()
            for f in a.pc[n:]:
                out.pc.append(I_(c, f))
            for f in b.pc[n:]:
                out.pc.append(I_(N_(c), f))
            for k in st.heap:
                if not a.heap[k].eq(b.heap[k]):
                    self.put_heap(out, k, z3.If(c, a.heap[k], b.heap[k]))
            for nme in set(a.env) | set(b.env):
                va, vb = a.env.get(nme), b.env.get(nme)
                if isinstance(va, V) and isinstance(vb, V) and va is not vb:
                    r = self.ite(c, va, self.coerce(vb, va.ty))
                    if r.t is not None and r.place is None and z3.is_app_of(r.t, z3.Z3_OP_ITE) and r.ty[0] in ('seq', 'set', 'map'):
                        k = z3.FreshConst(r.t.sort(), nme)
                        out.pc.append(k == r.t)
                        r = V(r.ty, k, own=r.own)
                    out.env[nme] = r
                elif isinstance(va, V) and vb is None:
                    out.env[nme] = va
            return out
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'reveal':
            # the definition of an opaque specification function at given arguments
            for y in x.value.args:
                f = self.w.specfns[y.func.id]
                vs = [self.gspec(a, st) for a in y.args]
                app = self.specfn_call(f.name, vs, st)
                f.opaque = False
                try:
                    body = self.specfn_call(f.name, vs, st)
                finally:
                    f.opaque = True
                st.pc.append(app.t == self.term(body))
            return st
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'unfold':
            f = x.value.args[0]
            v = self.gspec(f, st)
            return st
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'use':
            for y in x.value.args:
                if isinstance(y, ast.Call):
                    # partial instance: `_` arguments stay universally quantified
                    self.cur_lemmas_used.add(y.func.id)
                    lm = self.w.lemmas[y.func.id]
                    inst = {n: self.coerce(self.gspec(a, st), t, st) for (n, t), a in zip(lm.vars, y.args) if not (isinstance(a, ast.Name) and a.id == '_')}
                    st.pc.append(self.lemma_axiom(lm, st, inst))
                    continue
                self.cur_lemmas_used.add(y.id)
                st.pc.append(self.lemma_axiom(self.w.lemmas[y.id], st))
            return st
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
            n = x.value.func.id
            if n in self.w.lemmas:
                lm = self.w.lemmas[n]
                vs = [self.gspec(a, st) for a in x.value.args]
                pre, post = self.lemma_inst(lm, vs, st)
                for t, g in zip(lm.requires, pre):
                    self.oblige(st, g, 'lemma %s applies: %s' % (n, short(t)))
                st.pc += pre + post
                self.cur_lemmas_used.add(n)
                return st
        if isinstance(x, ast.Pass):
            return st
        raise Unsupported('ghost statement: ' + ast.unparse(x))

    cur_lemmas_used = set()

    def lemma_inst(self, lm, vs, st):
        s = st.copy()
        s.envs = [{n: self.coerce(v, t, st) if t[0] != 'fld' else v for (n, t), v in zip(lm.vars, vs)}]
        s.frames = []
        pre = [self.specb(r, s) for r in lm.requires]
        post = [self.specb(r, s) for r in lm.ensures]
        return pre, post

    # ---------------------------------------------------------------- lemmas
    def lemma_axiom(self, lm, at=None, inst=None):
        """the quantified statement of a (proved) lemma, for every heap or for the heap of a given state"""
        st = State()
        if at is not None:
            st.heap = dict(at.heap)
            hs = []
        else:
            hs = self.abstract_heap(st, lm)
        inst = inst or {}
        vs = [(n, t, z3.Const('l_' + n, self.fldsort(t))) for n, t in lm.vars if n not in inst]
        st.envs = [dict({n: V(t, c) for n, t, c in vs}, **{n: V(v.ty, self.term(v)) for n, v in inst.items()})]
        st.old = st
        pre = [self.specb(r, st) for r in lm.requires]
        post = [self.specb(r, st) for r in lm.ensures]
        body = I_(A_(*pre) if pre else z3.BoolVal(True), A_(*post))
        hs = [h for h in hs if occurs(h, body)]
        if hs and lm.trigger:
            raise Unsupported('lemma %s reads the heap: use(%s) it at a state' % (lm.name, lm.name))
        consts = [c for _, _, c in vs] + hs
        pats = []
        for p in (lm.trigger or []):
            ts = p if isinstance(p, (list, tuple)) else [p]
            tt = [self.term(self.spec(x, st)) for x in ts]
            pats.append(z3.MultiPattern(*tt) if len(tt) > 1 else tt[0])
        if not consts:
            return body
        return z3.ForAll(consts, body, qid='lemma_' + lm.name, **({'patterns': pats} if pats else {}))

    def fldsort(self, t):
        if t[0] == 'fld':
            return z3.ArraySort(self.th.sort(('ref', t[1])), self.th.sort(self.fieldty(t[1], t[2])))
        return self.th.sort(t)

    def abstract_heap(self, st, lm):
        hs = []
        for cn, c in self.w.classes.items():
            rs = self.th.sort(('ref', cn))
            for f in ['$alloc'] + list(c.fields) + list(c.ghost):
                s = z3.BoolSort() if f == '$alloc' else self.th.sort(self.fieldty(cn, f))
                h = z3.Const('LH_%s_%s' % (cn, f.replace('$', '')), z3.ArraySort(rs, s))
                st.heap[(cn, f)] = h
                hs.append(h)
        return hs

    def prove_lemma(self, lm):
        """obligations of a lemma; induction on an integer (>=0) or on the length of a sequence"""
        self.entry_state = None
        self.cur = Contract('lemma::' + lm.name, name='lemma ' + lm.name, lemmas=lm.uses, timeout=lm.timeout)
        self.oblname = {}
        st = State()
        self.abstract_heap(st, lm)
        vs = [(n, t, z3.Const('v_' + n, self.fldsort(t))) for n, t in lm.vars]
        st.envs = [{n: V(t, c) for n, t, c in vs}]
        st.old = st
        st.frames = []
        pre = [self.specb(r, st) for r in lm.requires]
        st.pc += pre
        if lm.induct:
            m = lm.induct
            ih = State()
            ih.heap = dict(st.heap)
            others = []
            env = {}
            for n, t, c in vs:
                if n == m:
                    ty = t
                    cur = V(t, c)
                elif n in lm.fix:
                    env[n] = V(t, c)
                else:
                    o = z3.Const('ih_' + n, self.fldsort(t))
                    others.append(o)
                    env[n] = V(t, o)
            if ty == INT:
                env[m] = V(INT, cur.t - 1)
                cond = cur.t > 0
            else:
                ln = self.th.op(ty, 'len')(cur.t)
                env[m] = V(ty, self.th.op(ty, 'take')(cur.t, ln - 1))
                cond = ln > 0
                st.pc.append(I_(cond, cur.t == self.th.op(ty, 'snoc')(env[m].t, self.th.op(ty, 'at')(cur.t, ln - 1))))
            ih.envs = [env]
            ih.old = ih
            ipre = [self.specb(r, ih) for r in lm.requires]
            ipost = [self.specb(r, ih) for r in lm.ensures]
            body = I_(A_(cond, *ipre), A_(*ipost))
            pats = []
            for p in (lm.trigger or []):
                ts = p if isinstance(p, (list, tuple)) else [p]
                tt = [self.term(self.spec(x, ih)) for x in ts]
                if others and all(any(occurs(o, y) for y in tt) for o in others):
                    pats.append(z3.MultiPattern(*tt) if len(tt) > 1 else tt[0])
            st.pc.append(z3.ForAll(others, body, qid='IH', **({'patterns': pats} if pats else {})) if others else body)
        for h in lm.hints:
            st = self.ghost(h, st)
        for t in lm.ensures:
            self.oblige(st, self.specb(t, st), 'lemma %s: %s' % (lm.name, short(t)))
        self.covers.append((self.cur.name, 'hypotheses', [list(st.pc)]))

    # ---------------------------------------------------------------- one function
    def verify(self, c):
        self.cur = c
        self.oblname = {}
        self.handlers = [set(c.raises)]
        if c.trusted:
            return
        found = self.src.find(c.target)
        if found is None:
            raise Unsupported('%s does not exist any more' % c.target)
        path, cls, fn = found
        types = {}
        for attempt in range(12):
            n = len(self.obls), len(self.covers)
            self.oblname = {}
            try:
                self.verify1(c, path, cls, fn, types)
                return
            except Retype as r:
                del self.obls[n[0]:]
                del self.covers[n[1]:]
                if r.depth == 0 or True:
                    types[(r.depth, r.name)] = r.ty
        raise Unsupported('local types do not stabilise')

    def verify1(self, c, path, cls, fn, types):
        st = State()
        self.sinks = [[]]
        self.init_heap(st)
        env = {}
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        # parameters are matched by position when they were renamed
        pnames = [n for n in names]
        declared = list(c.params)
        ren = {}
        if any(n not in names for n in declared):
            for d, n in zip(declared, names):
                if d not in names:
                    ren[n] = d
        fr = Frame(path, cls, fn, c, 0)
        self.localtypes = types
        st.frames.append(fr)
        st.envs = [env]
        for n in names:
            t = c.params.get(n, c.params.get(ren.get(n, ''), None))
            if t is None:
                dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
                dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                if n in dflt:
                    env[n] = self.ev(dflt[n], st)[0][1]
                    self.dropped.add('%s: parameter %s fixed to its default' % (c.name, n))
                continue
            if isinstance(t, tuple) and t[0] == 'const':
                env[n] = self.const(t[1])
                continue
            ty = self.w.ty(t)
            v = self.fresh(n, ty)
            if self.has_ref(ty):
                st.pc.append(self.wf(st, ty, self.term(v)))
            if mutable(ty):
                v.own = 'var' if n in c.mut else 'borrow'
            env[n] = v
            if n in ren:
                env[ren[n]] = v
        env['$types'] = {k: self.w.ty(t) for k, t in c.locals.items()}
        for (d, nme), ty in types.items():
            if d == 0:
                env['$types'].setdefault(nme, ty)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in preorder_all(fn)):
            env['_yielded'] = V(('empty', 'L'), own='fresh')
            if c.yields:
                env['_yielded'] = self.empty_of(('seq', self.w.ty(c.yields), 'L'))
        st.old = st.copy()
        st.old.old = st.old
        for r in c.requires:
            st.pc.append(self.specb(r, st))
        st.old = st.copy()
        st.old.old = st.old
        self.covers.append((c.name, 'precondition', [list(st.pc)]))
        if 'entry' in c.ghost:
            st = self.ghost(c.ghost['entry'], st)
        entry = st.old
        self.entry_state = entry
        self.sinks = [[]]
        outs = self.block(fn.body, st)
        outs += [('raise', s, (x, v)) for s, x, v in self.sinks.pop()]
        normal = []
        for kind, s, v in outs:
            if kind in ('normal', 'return'):
                if v is None:
                    v = V(NONE, const=NONE)
                if c.yields:
                    v = s.env['_yielded']
                normal.append(s.pc)
                rt = self.w.ty(('List[%s]' % c.yields) if c.yields else c.returns)
                if 'exit' in c.ghost:
                    v = V(v.ty, v.t, parts=v.parts, data=v.data, const=v.const, place=v.place if v.place and v.place[0] != 'var' else None)
                    s.env['result'] = v if v.ty != NONE or rt == NONE else self.coerce(v, rt, s, True, 'result')
                    s = self.ghost(c.ghost['exit'], s)
                if rt != NONE:
                    try:
                        v = self.coerce(v, rt, s, True, 'returned value')
                    except Unsupported:
                        # a value of another type may only be returned on a path that cannot be taken
                        self.oblige(s, z3.BoolVal(False), 'a value of another type is never returned (%s for %s)' % (tname(v.ty), tname(rt)))
                        continue
                elif v.ty != NONE:
                    if c.returns != 'None':
                        raise Unsupported('return type')
                    v = V(NONE, const=NONE)
                self.post(c, s, entry, v, c.ensures, 'postcondition')
            elif kind == 'raise':
                if 'raise' in c.ghost:
                    s = self.ghost(c.ghost['raise'], s)
                exc = v[0]
                if exc in c.raises:
                    self.post(c, s, entry, None, c.raises[exc], 'on %s' % exc)
                else:
                    self.oblige(s, z3.BoolVal(False), 'no %s escapes' % exc)
            else:
                raise Unsupported('stray %s' % kind)
        if normal:
            self.covers.append((c.name, 'normal exit', [list(p) for p in normal]))

    def post(self, c, s, entry, v, ensures, label):
        env = dict(entry.envs[-1])
        for p in c.mut:
            env[p] = self.lookup(s, p)
        if v is not None:
            env['result'] = V(v.ty, v.t, parts=v.parts, data=v.data, place=v.place if v.place and v.place[0] != 'var' else None)
        for k, x in s.envs[-1].items():
            if k.startswith('g_'):
                env[k] = x
        ps = s.copy()
        ps.envs = [env]
        ps.old = entry
        ps.frames = []
        for t in ensures:
            self.oblige(s, self.specb(t, ps), '%s: %s' % (label, short(t)))
        self.frame_obls(c, s, entry)

    def frame_obls(self, c, s, entry):
        allowed = {}
        for k, f, o in self.mod_keys(c, entry):
            allowed.setdefault((k, f), []).append(o)
        for key, old in entry.heap.items():
            new = s.heap[key]
            if new.eq(old):
                continue
            cn, f = key
            if f == '$alloc':
                if cn not in c.allocs:
                    self.oblige(s, z3.BoolVal(False), 'frame: allocates %s' % cn)
                continue
            objs = allowed.get(key)
            if objs is not None and None in objs:
                continue
            o = z3.Const('frame_o', self.th.sort(('ref', cn)))
            hyp = [self.alloc(entry, cn, o)]
            for x in (objs or []):
                hyp.append(o != x)
            self.oblige(s, I_(A_(*hyp), z3.Select(new, o) == z3.Select(old, o)), 'frame: %s.%s of other objects unchanged' % key)


class Retype(Exception):
    def __init__(self, depth, name, ty):
        self.depth, self.name, self.ty = depth, name, ty


def fr_contract(st):
    return st.frames[-1].contract if st.frames else None


def label_local(label):
    return label.split('.')[-1]


_hq = {}


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    seen = set()
    todo = [f]
    res = False
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            res = True
            break
        todo += t.children()
    _hq[k] = (f, res)
    return res


def len_terms(f):
    out, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name().startswith('len_'):
            out.append(t)
        todo += t.children()
    return out


def occurs(c, f):
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(c):
            return True
        if z3.is_quantifier(t):
            todo.append(t.body())
        else:
            todo += t.children()
    return False
