"""Calls: built-ins, container methods, contracts, inlining, specification built-ins."""
import ast
import copy
import z3
from . import types as T
from .types import INT, BOOL, REAL, VAL, NONE, FUN, erase, tname
from .exec import V, State, Frame, Unsupported, A_, O_, N_, I_, simp_select
from .evalx import EvalMixin, Iter, mutable, isfresh, BUILTINS, SPECIAL, pat_ok
from .world import split_binders, Contract, Loop

EXC_SUPER = {'KeyError': {'LookupError', 'Exception'}, 'IndexError': {'LookupError', 'Exception'}, 'StopIteration': {'Exception'},
             'ValueError': {'Exception'}, 'TypeError': {'Exception'}, 'AssertionError': {'Exception'}, 'AttributeError': {'Exception'},
             'RuntimeError': {'Exception'}, 'NotImplementedError': {'RuntimeError', 'Exception'}, 'Exception': set(), 'SystemExit': set(),
             'Empty': {'Exception'}}


class CallMixin(EvalMixin):
    # ---------------------------------------------------------------- dispatcher
    def ev_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and self.lookup(st, f.id) is None:
            n = f.id
            if self.spec_depth or n in self.w.specfns:
                m = getattr(self, 'sp_' + n, None)
                if m is not None:
                    return [(st, m(e, st))]
            if n in self.w.specfns and (self.spec_depth or True):
                out = []
                for s, vs in self.evs(e.args, st):
                    out.append((s, self.specfn_call(n, vs, s)))
                return out
            if n in ('any', 'all') and len(e.args) == 1:
                return self.quant_gen(e.args[0], st, n == 'all')
            if n in ('filter', 'map') and len(e.args) == 2:
                return self.ev_GeneratorExp(self.as_gen(e), st)
            if n in ('print', 'repr'):
                return [(st, V(NONE, const=NONE))] if n == 'print' else [(st, self.fresh('repr', VAL))]
            if n == 'next':
                return self.ev_next(e, st)
            if n == 'super':
                fr = st.frames[-1]
                selfname = fr.fn.args.args[0].arg
                return [(st, V(FUN, data=('super', self.lookup(st, selfname), fr.cls, fr)))]
            if n in ('tuple', 'list', 'set', 'frozenset') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and n != 'set':
                return [(s, V(('seq', v.ty[1], 'T' if n == 'tuple' else 'L'), v.t, own='fresh')) for s, v in self.comp_or_loop(e.args[0], st)]
            if n in ('set', 'frozenset') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = e.args[0]
                if not hasattr(g, 'as_set'):
                    g.as_set = ast.copy_location(ast.SetComp(elt=g.elt, generators=g.generators), e)
                if id(g) in st.frames[-1].loopno:
                    st.frames[-1].loopno[id(g.as_set)] = st.frames[-1].loopno[id(g)]
                return self.ev_SetComp(g.as_set, st)
            if n == 'sum' and len(e.args) >= 1:
                return self.ev_sum(e, st)
            if n in ('max', 'min') and any(k.arg == 'key' for k in e.keywords):
                return self.ev_minmax_key(e, st)
        if isinstance(f, ast.Attribute) and f.attr == 'sort' or isinstance(f, ast.Name) and f.id == 'sorted':
            # sort keys have no effect on the multiset: evaluate only the sequence
            e2 = ast.copy_location(ast.Call(func=f, args=e.args, keywords=[]), e)
            e2.had_keywords = e.keywords
            e = e2
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        kw = [k for k in e.keywords]
        out = []
        for s0, fv in self.ev(f, st):
            for s, vs in self.evs(args + [k.value for k in kw], s0):
                av = vs[:len(args)]
                exp = []
                for a, v in zip(e.args, av):
                    if isinstance(a, ast.Starred):
                        if v.ty[0] != 'tup':
                            raise Unsupported('*args of unknown length')
                        exp += self.parts(v)
                    else:
                        exp.append(v)
                kv = {}
                for k, v in zip(kw, vs[len(args):]):
                    if k.arg is None:
                        raise Unsupported('**kwargs')
                    kv[k.arg] = v
                out += self.apply(fv, exp, kv, s, e)
        return out

    def comp_or_loop(self, g, st):
        return self.seq_comp(g, st, 'L')

    def apply(self, fv, args, kw, st, e):
        if fv.ty[0] == 'cls':
            return self.construct(fv, args, kw, st, e)
        d = fv.data
        if fv.ty[0] == 'mod':
            return self.extern(d[1], args, kw, st, e)
        if fv.ty != FUN or d is None:
            if fv.ty == VAL or fv.ty[0] == 'ref':
                return self.extern('call:' + tname(fv.ty), [fv] + args, kw, st, e)
            raise Unsupported('call of %r' % (fv,))
        if d[0] == 'specfn':
            return [(st, self.specfn_call(d[1], args, st))]
        if d[0] == 'builtin':
            return self.builtin(d[1], args, kw, st, e)
        if d[0] == 'lambda':
            return self.call_lambda(d, args, st)
        if d[0] == 'def':
            return self.call_def(d, args, kw, st, e)
        if d[0] == 'bound':
            recv, name = d[1], d[2]
            if recv.ty[0] == 'ref':
                return self.call_method(st, recv, name, args, kw, e=e)
            return self.container_method(recv, name, args, kw, st, e)
        if d[0] == 'sdictget':
            k = self.statkey(args[0])
            if k is None:
                raise Unsupported('key of a constant dictionary')
            return [(st, d[1][k] if k in d[1] else args[1] if len(args) > 1 else V(NONE, const=NONE))]
        if d[0] == 'superbound':
            selfv, cls, fr, name = d[1], d[2], d[3], d[4]
            if name == '__init__' and not self.src.bases(*cls):
                return [(st, V(NONE, const=NONE))]
            for bp, bc in self.src.bases(*cls):
                m = self.src.method(bp, bc, name)
                if m:
                    return self.call_def(('def', m[0], m[2], (m[0], m[1]), None), [selfv] + args, kw, st, e)
            if name == '__init__':
                return [(st, V(NONE, const=NONE))]
            raise Unsupported('super().%s' % name)
        raise Unsupported('call %s' % (d,))

    # ---------------------------------------------------------------- user functions
    def call_method(self, st, recv, name, args, kw, e=None, one=False):
        cn = recv.ty[1]
        c = self.w.classes[cn]
        key = '%s.%s' % (cn, name)
        if not self.spec_depth:
            self.oblige(st, recv.t != self.th.null(cn), 'receiver of .%s() is not None' % name)
        if key in self.w.specfns:
            r = [(st, self.specfn_call(key, [recv] + args, st))]
        elif key in self.w.by_target:
            r = self.call_contract(self.pick(self.w.by_target[key], e, [recv] + args), [recv] + args, kw, st, None)
        elif key in self.allow_field_callable(cn):
            r = self.extern('call:' + key, [recv] + args, kw, st, e)
        else:
            if not c.src:
                raise Unsupported('no contract and no source for %s' % key)
            path, q = c.src.split('::')
            cnode = self.src.mod(path).classes.get(q)
            m = self.src.method(path, cnode, name)
            if m is None:
                raise Unsupported('method %s' % key)
            static = any(ast.unparse(d) == 'staticmethod' for d in m[2].decorator_list)
            r = self.call_def(('def', m[0], m[2], (m[0], m[1]), None, cn), ([] if static else [recv]) + args, kw, st, e)
        if one:
            if len(r) != 1:
                raise Unsupported('property %s forks' % name)
            return r[0][1]
        return r

    def allow_field_callable(self, cn):
        return ()

    def pick(self, cands, e, args):
        cands = [c for c in cands if not c.inline]
        if not cands:
            return None
        if len(cands) == 1:
            return cands[0]
        if e is not None and self.cur.calls:
            for k, v in self.cur.calls.items():
                if k in ast.unparse(e):
                    for c in cands:
                        if c.name == v:
                            return c
        for c in cands:
            try:
                pts = [self.w.ty(t) for t in c.params.values() if not isinstance(t, tuple)]
                if all(self.compat(a.ty, t) for a, t in zip(args, pts)):
                    return c
            except Exception:
                continue
        return cands[0]

    def compat(self, a, t):
        if erase(a) == erase(t) or a == NONE or a[0] == 'empty':
            return True
        if t[0] == 'opt':
            return self.compat(a, t[1])
        if a[0] == 'opt':
            return self.compat(a[1], t)
        if t == VAL and a[0] not in ('ref',):
            return True
        return False

    def call_lambda(self, d, args, st):
        node, depth, fr = d[1], d[2], d[3]
        env = {'$parent': depth}
        for a, v in zip(node.args.args, args):
            env[a.arg] = v
        nd = len(node.args.defaults)
        if nd:
            for a, dv in list(zip(node.args.args[-nd:], node.args.defaults)):
                if a.arg not in env:
                    env[a.arg] = self.ev(dv, st)[0][1]
        st.envs.append(env)
        out = []
        for s, v in self.ev(node.body, st):
            self.pop_env(s, [v])
            out.append((s, v))
        return out

    def pop_env(self, s, vals):
        d = len(s.envs) - 1
        dead = s.envs.pop()
        for v in vals:
            if isinstance(v, V) and v.place is not None and v.place[0] == 'var' and v.place[1] == d:
                src = dead.get(v.place[2])
                v.place, v.own = None, 'fresh'
                if isinstance(src, V) and src.place is not None and src.place[0] != 'var':
                    v.place, v.own = src.place, None
                elif isinstance(src, V) and src.place is not None and src.place[1] < d:
                    v.place = src.place
                elif isinstance(src, V) and src.own == 'borrow':
                    v.own = 'borrow'

    def bind_args(self, fn, args, kw, st, skip_missing=False):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg:
                extra = args[len(names):]
                env[a.vararg.arg] = V(('tup', tuple(x.ty for x in extra)), parts=extra)
                args = args[:len(names)]
            else:
                raise Unsupported('too many arguments for %s' % fn.name)
        elif a.vararg:
            env[a.vararg.arg] = V(('empty', 'T'), own='fresh')
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                raise Unsupported('keyword %s for %s' % (k, fn.name))
            env[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if dv is not None:
                defaults[x.arg] = dv
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defaults:
                    if skip_missing:
                        continue
                    raise Unsupported('missing argument %s of %s' % (n, fn.name))
                env[n] = ('default', defaults[n])
        return env

    def call_def(self, d, args, kw, st, e):
        path, fn, cls, closure = d[1], d[2], d[3], d[4]
        recvcls = d[5] if len(d) > 5 else None
        key = '%s::%s%s' % (path, (cls[1].name + '.') if cls else '', fn.name)
        cands = [c for c in self.w.by_target.get(key, []) if recvcls is None or c.recv in (None, recvcls)]
        c = self.pick(cands, e, args) if cands else None
        if c is not None:
            return self.call_contract(c, args, kw, st, fn, path, cls)
        inl = [x for x in cands if x.inline]
        return self.inline(path, fn, cls, closure, args, kw, st, inl[0] if inl else None)

    def inline(self, path, fn, cls, closure, args, kw, st, contract=None):
        if len(st.frames) > self.MAXDEPTH or sum(1 for f in st.frames if f.fn is fn) >= 1:
            raise Unsupported('recursion without a contract: %s' % fn.name)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in preorder_all(fn)):
            gen = True
        else:
            gen = False
        self.inlined.add('%s::%s%s' % (path, (cls[1].name + '.') if cls else '', fn.name))
        env = self.bind_args(fn, args, kw, st)
        fr = Frame(path, cls, fn, contract, len(st.envs))
        st = st.copy()
        st.frames.append(fr)
        for k, v in list(env.items()):
            if isinstance(v, tuple) and v[0] == 'default':
                env[k] = self.ev(v[1], st)[0][1]
        if closure is not None:
            env['$parent'] = closure
        if contract is not None:
            env['$types'] = {k: self.w.ty(t) for k, t in contract.locals.items()}
        for (dd, nme), ty in self.localtypes.items():
            if dd == len(st.envs):
                env.setdefault('$types', {}).setdefault(nme, ty)
        st.envs.append(env)
        if gen:
            env['_yielded'] = V(('empty', 'L'), own='fresh')
        self.sinks.append([])
        try:
            outs = self.block(fn.body, st)
        finally:
            sink = self.sinks.pop()
        res = []
        for kind, s, v in outs:
            if kind == 'raise':
                sink.append((s, v[0], v[1]))
                continue
            if v is None or kind == 'normal':
                v = V(NONE, const=NONE)
            if gen:
                v = s.env['_yielded']
            self.pop_env(s, [v])
            s.frames.pop()
            res.append((s, v))
        for s, exc, val in sink:
            if len(s.frames) >= 1 and s.frames[-1] is fr:
                self.pop_env(s, [])
                s.frames.pop()
            self.raise_(s, exc, val)
        return res

    def contract_env(self, c, fn, args, kw, st, path=None, cls=None):
        """bind the arguments of a contract call, coerced to the declared types"""
        if fn is not None:
            env = self.bind_args(fn, args, kw, st)
        else:
            names = list(c.params)
            env = dict(zip(names, args))
            for k, v in kw.items():
                env[k] = v
        fr = Frame(path, cls, fn, None, 0) if path else None
        out = {}
        for n, v in env.items():
            if isinstance(v, tuple) and v[0] == 'default':
                if fr:
                    st.frames.append(fr)
                v2 = self.ev(v[1], st)[0][1]
                if fr:
                    st.frames.pop()
                v = v2
            t = c.params.get(n)
            if t is None:
                out[n] = v
                continue
            if isinstance(t, tuple) and t[0] == 'const':
                want = self.const(t[1])
                if not self.spec_depth:
                    self.oblige(st, self.equal(v, want), 'argument %s of %s is %r' % (n, c.name, t[1]))
                out[n] = want
                continue
            if t == 'fun':
                out[n] = v
                continue
            out[n] = self.coerce(v, self.w.ty(t), st, True, 'argument %s of %s' % (n, c.name)) if v.ty != FUN else v
            if v.place is not None:
                out[n].place = v.place
        return out

    def unplaced(self, v):
        """the argument's value, without its link to a local variable of the caller"""
        if isinstance(v, V) and v.place is not None and self.rootof(v.place)[0] == 'var':
            v = copy.copy(v)
            v.place = None
        return v

    def call_contract(self, c, args, kw, st, fn, path=None, cls=None):
        if self.spec_depth:
            raise Unsupported('call of %s inside a specification' % c.name)
        self.used_contracts.add(c.name)
        env = self.contract_env(c, fn, args, kw, st, path, cls)
        saved_envs = st.envs
        pre = st.copy()
        env, args_env = {n: self.unplaced(v) for n, v in env.items()}, env
        pre.envs = [env]
        pre.old = pre
        for i, r in enumerate(c.requires):
            self.oblige_in(st, self.specb(r, pre), 'precondition of %s: %s' % (c.name, short(r)))
        results = []
        variants = [('ok', None)] + [(x, cond) for x, cond in c.raises.items()]
        for kind, ens in variants:
            s = st.copy() if len(variants) > 1 else st
            post = self.havoc_call(c, s, pre)
            env2 = dict(env)
            # mutable parameters get a new value
            for p in c.mut:
                v = env[p]
                nv = self.fresh(p, v.ty)
                env2[p] = nv
                s.pc.append(self.wf(s, v.ty, nv.t)) if self.has_ref(v.ty) else None
            pst = s.copy()
            pst.envs = [env2]
            pst.old = pre
            if kind == 'ok':
                rt = self.w.ty(c.yields and 'List[%s]' % c.yields or c.returns)
                if rt == NONE:
                    rv = V(NONE, const=NONE)
                else:
                    rv = self.fresh('ret_' + c.name.split('.')[-1], rt)
                    if self.has_ref(rt):
                        s.pc.append(self.wf(s, rt, self.term(rv)))
                    if c.fresh_result:
                        rv.own = 'fresh'
                pst = s.copy()
                pst.envs = [dict(env2, result=rv)]
                pst.old = pre
                for x in c.ensures:
                    s.pc.append(self.specb(x, pst))
            else:
                for x in ens:
                    s.pc.append(self.specb(x, pst))
            for p in c.mut:
                if args_env[p].place is None:
                    if args_env[p].own != 'fresh':
                        raise Unsupported('mutable argument %s of %s has no known owner' % (p, c.name))
                else:
                    self.writeplace(s, args_env[p].place, env2[p], env2[p].ty)
            if kind == 'ok':
                results.append((s, rv))
            else:
                if self.expects(kind) or True:
                    if self.feasible(s):
                        self.raise_(s, kind)
        return results

    def oblige_in(self, st, goal, name):
        self.oblige(st, goal, name)
        st.pc.append(goal)

    def mod_keys(self, c, pre):
        """[(cls, field, object term or None)]"""
        out = []
        for m in c.modifies:
            base, f = m.rsplit('.', 1)
            if base in self.w.classes:
                fs = list(self.w.classes[base].fields) + list(self.w.classes[base].ghost) if f == '*' else [f]
                out += [(base, x, None) for x in fs]
            else:
                o = self.spec(base, pre)
                if o.ty[0] == 'opt':
                    o = V(o.ty[1], self.th.the(o.ty, o.t))
                fs = list(self.w.classes[o.ty[1]].fields) + list(self.w.classes[o.ty[1]].ghost) if f == '*' else [f]
                out += [(o.ty[1], x, o.t) for x in fs]
        return out

    def havoc_call(self, c, s, pre):
        keys = self.mod_keys(c, pre)
        whole = {(k, f) for k, f, o in keys if o is None}
        for cn in c.allocs:
            whole.add((cn, '$alloc'))
        old = dict(s.heap)
        self.havoc_heap(s, whole)
        for cn in c.allocs:
            # fields of fresh objects are unknown, those of existing objects unchanged
            cd = self.w.classes[cn]
            for f in list(cd.fields) + list(cd.ghost):
                if (cn, f) not in whole:
                    new = self.th.fresh('h_%s_%s' % (cn, f), old[(cn, f)].sort())
                    o = z3.Const('o_' + cn, self.th.sort(('ref', cn)))
                    s.pc.append(z3.ForAll([o], I_(z3.Select(old[(cn, '$alloc')], o), z3.Select(new, o) == z3.Select(old[(cn, f)], o)),
                                          patterns=[z3.Select(new, o), z3.Select(old[(cn, f)], o)] if pat_ok(old[(cn, f)]) else [z3.Select(new, o)], qid='allocframe'))
                    s.heap[(cn, f)] = new
                    x = self.heapwf(s, cn, f)
                    if x is not None:
                        s.pc.append(x)
        for k, f, o in keys:
            if o is not None and (k, f) not in whole:
                ty = self.fieldty(k, f)
                nv = self.fresh('m_' + f, ty)
                t = self.term(nv)
                self.put_heap(s, (k, f), z3.Store(s.heap[(k, f)], o, t))
                if self.has_ref(ty):
                    s.pc.append(self.wf(s, ty, t))
        return s

    # ---------------------------------------------------------------- construction
    def construct(self, fv, args, kw, st, e):
        d = fv.data
        if d[0] == 'xcls':
            base_names = {'Exception'}
            return self.extern('new:' + d[2].name, args, kw, st, e)
        cn = d[1]
        c = self.w.classes[cn]
        key = cn + '.__init__'
        st = st.copy()
        o = self.fresh('new_' + cn, ('ref', cn))
        st.pc.append(N_(self.alloc(st, cn, o.t)))
        st.pc.append(o.t != self.th.null(cn))
        self.put_heap(st, (cn, '$alloc'), z3.Store(st.heap[(cn, '$alloc')], o.t, True))
        path, q = c.src.split('::')
        cnode = self.src.mod(path).classes.get(q)
        m = self.src.method(path, cnode, '__init__')
        # class-level defaults
        if m is None:
            if any('dataclass' in ast.unparse(x) for x in cnode.decorator_list):
                raise Unsupported('dataclass')
            return [(st, o)]
        out = []
        for s, _ in self.call_def(('def', m[0], m[2], (m[0], m[1]), None, cn), [o] + args, kw, st, e):
            out.append((s, o))
        return out

    # ---------------------------------------------------------------- built-ins
    def builtin(self, n, args, kw, st, e):
        th = self.th
        if not args and n in ('list', 'set', 'dict', 'tuple', 'frozenset'):
            return [(st, V(('empty', n[0].upper()), own='fresh'))]
        if n == 'len':
            v = args[0]
            if isinstance(v.data, Iter):
                return [(st, V(INT, v.data.n))]
            v = self.strip_opt(v, st, 'argument of len')
            if v.ty[0] == 'empty':
                return [(st, self.const(0))]
            if v.ty[0] == 'tup':
                return [(st, self.const(len(v.ty[1])))]
            if v.ty[0] == 'seq':
                return [(st, V(INT, th.op(v.ty, 'len')(v.t)))]
            if v.ty[0] == 'set':
                return [(st, V(INT, th.card(v.ty)(v.t)))]
            if v.ty[0] == 'map':
                return [(st, V(INT, th.op(th.keyty(v.ty), 'len')(th.map_fst(v.ty, v.t)) if len(v.ty) > 3 else th.card(('set', v.ty[1]))(th.map_dom(v.ty, v.t))))]
            if v.ty == VAL:
                f = z3.Function('val_len', th.VAL, z3.IntSort())
                st.pc.append(f(v.t) >= 0)
                return [(st, V(INT, f(v.t)))]
            raise Unsupported('len of %s' % tname(v.ty))
        if n == 'range':
            vs = [self.coerce(self.strip_opt(a, st), INT, st, True) for a in args]
            lo, hi, step = (self.const(0), vs[0], self.const(1)) if len(vs) == 1 else (vs[0], vs[1], vs[2] if len(vs) > 2 else self.const(1))
            if step.const == 1:
                cnt = z3.If(hi.t > lo.t, hi.t - lo.t, 0)
                at = lambda k: self.lit(V(INT, lo.t + k)) if not z3.is_int_value(z3.simplify(lo.t)) or True else None
            elif step.const == -1:
                cnt = z3.If(lo.t > hi.t, lo.t - hi.t, 0)
                at = lambda k: V(INT, lo.t - k)
            elif isinstance(step.const, int) and step.const > 1:
                cnt = z3.If(hi.t > lo.t, (hi.t - lo.t + (step.const - 1)) / step.const, 0)
                at = lambda k: V(INT, lo.t + step.const * k)
            else:
                raise Unsupported('range step')
            at1 = at
            zero = z3.is_int_value(z3.simplify(lo.t)) and z3.simplify(lo.t).as_long() == 0 and step.const == 1
            return [(st, V(('iter',), data=Iter(cnt, (lambda k: V(INT, k)) if zero else at1, None, INT)))]
        if n == 'enumerate':
            it = self.iter_of(args[0], st)
            start = args[1] if len(args) > 1 else kw.get('start', self.const(0))

            def at(k):
                el = it.at(k)
                return V(('tup', (INT, el.ty)), parts=[V(INT, k + start.t if start.const != 0 else k), el])
            return [(st, V(('iter',), data=Iter(it.n, at)))]
        if n == 'zip':
            its = [self.iter_of(a, st) for a in args]
            cnt = its[0].n
            for x in its[1:]:
                cnt = z3.If(x.n < cnt, x.n, cnt)

            def at(k):
                ps = [x.at(k) for x in its]
                return V(('tup', tuple(p.ty for p in ps)), parts=ps)
            return [(st, V(('iter',), data=Iter(cnt, at)))]
        if n == 'reversed':
            it = self.iter_of(args[0], st)
            if it.seqv is not None:
                return [(st, self.seqrev(it.seqv))]
            return [(st, V(('iter',), data=Iter(it.n, lambda k: it.at(it.n - 1 - k))))]
        if n in ('list', 'tuple'):
            return [(st, self.to_seq(args[0], st, 'L' if n == 'list' else 'T'))]
        if n in ('set', 'frozenset'):
            return [(st, self.to_set(args[0], st))]
        if n == 'dict':
            v = self.strip_opt(args[0], st)
            if v.ty[0] == 'map':
                return [(st, V(v.ty, v.t, own='fresh'))]
            raise Unsupported('dict(%s)' % tname(v.ty))
        if n in ('max', 'min'):
            if len(args) == 1:
                it = self.iter_of(args[0], st)
                el = it.at(z3.IntVal(0))
                if el.ty not in (INT, REAL):
                    raise Unsupported('max/min of %s' % tname(el.ty))
                self.oblige_or_raise(st, it.n > 0, 'ValueError', n + '() of a non-empty iterable')
                k0 = self.fresh('k', INT).t
                r = self.fresh(n, el.ty)
                k = z3.Int('k')
                st.pc.append(A_(0 <= k0, k0 < it.n, r.t == it.at(k0).t))
                b = (it.at(k).t <= r.t) if n == 'max' else (it.at(k).t >= r.t)
                pats = {'patterns': [it.at(k).t]} if it.seqv is not None else {}
                st.pc.append(z3.ForAll([k], I_(A_(0 <= k, k < it.n), b), **pats))
                return [(st, r)]
            ty = REAL if any(a.ty == REAL for a in args) else INT
            vs = [self.coerce(self.strip_opt(a, st), ty, st, True) for a in args]
            r = vs[0].t
            for v in vs[1:]:
                r = z3.If(v.t > r, v.t, r) if n == 'max' else z3.If(v.t < r, v.t, r)
            return [(st, V(ty, r))]
        if n == 'abs':
            v = args[0]
            return [(st, V(v.ty, z3.If(v.t < 0, -v.t, v.t)))]
        if n == 'sorted':
            return [(st, self.permuted(self.to_seq(args[0], st, 'L'), st, getattr(e, 'had_keywords', ())))]
        if n == 'isinstance':
            return [(st, self.isinstance_(args[0], args[1], st))]
        if n in ('str', 'repr'):
            f = z3.Function('str_of', th.VAL, th.VAL)
            try:
                return [(st, V(VAL, f(self.coerce(args[0], VAL).t)))]
            except Unsupported:
                return [(st, self.fresh('str', VAL))]
        if n == 'int':
            v = args[0]
            if v.ty == INT:
                return [(st, v)]
            if v.ty == BOOL:
                return [(st, self.coerce(v, INT))]
            if v.ty == REAL:
                x = v.t
                return [(st, V(INT, z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))))]
            f = z3.Function('int_of', th.VAL, z3.IntSort())
            return [(st, V(INT, f(self.coerce(v, VAL).t)))]
        if n == 'float':
            v = args[0]
            if v.ty in (INT, REAL, BOOL):
                return [(st, self.coerce(v, REAL))]
            if v.const == 'inf':
                return [(st, self.const(float('inf')))]
            raise Unsupported('float()')
        if n == 'bool':
            return [(st, V(BOOL, self.truth_of(args[0])))]
        if n == 'type':
            v = args[0]
            if v.ty[0] == 'ref':
                return [(st, V(('cls', v.ty[1]), data=('cls', v.ty[1])))]
            return [(st, self.fresh('type', VAL))]
        if n in ('hash', 'id'):
            f = z3.Function('hash_of', th.VAL, z3.IntSort())
            return [(st, V(INT, f(self.coerce(args[0], VAL).t)))]
        if n == 'round':
            return [(st, self.fresh('round', REAL))]
        if n == 'iter':
            return [(st, V(('iter',), data=self.iter_of(args[0], st)))]
        if n == 'exit':
            self.raise_(st, 'SystemExit')
            return []
        if n == 'map' and len(args) == 2:
            it = self.iter_of(args[1], st)
            fn = args[0]

            def at(k):
                r = self.apply(fn, [it.at(k)], {}, st, e)
                if len(r) != 1:
                    raise Unsupported('map() with a forking function')
                return r[0][1]
            return [(st, V(('iter',), data=Iter(it.n, at)))]
        if n in EXC_SUPER or n in ('Exception',):
            return [(st, V(VAL, self.fresh('exc', VAL).t, data=('exc', n)))]
        if n == 'hasattr':
            return [(st, self.fresh('hasattr', BOOL))]
        if n == 'getattr' and len(args) >= 2 and isinstance(args[1].const, str):
            return [(st, self.attr(args[0], args[1].const, st))]
        raise Unsupported('builtin %s' % n)

    def isinstance_(self, v, c, st):
        names = []
        cs = self.parts(c) if c.ty[0] == 'tup' else [c]
        for x in cs:
            if x.ty[0] == 'cls':
                names.append(x.data[1] if x.data[0] == 'cls' else x.data[2].name)
            elif x.ty == FUN and x.data[0] == 'builtin':
                names.append(x.data[1])
            else:
                names.append(str(x.data[-1]).split('.')[-1] if x.data else '?')
        if v.ty[0] == 'ref':
            cd = self.w.classes[v.ty[1]]
            real = {v.ty[1]} | cd.sup
            if cd.src:
                path, q = cd.src.split('::')
                todo = [(path, self.src.mod(path).classes[q])]
                while todo:
                    p, cn = todo.pop()
                    real.add(cn.name)
                    todo += self.src.bases(p, cn)
            return self.const(any(n in real for n in names))
        kind = {'seq': {'L': 'list', 'T': 'tuple', '?': None}.get(v.ty[2]) if v.ty[0] == 'seq' else None, 'set': 'set', 'map': 'dict', 'bool': 'bool', 'int': 'int', 'real': 'float', 'tup': 'tuple'}.get(v.ty[0])
        if kind is not None:
            return self.const(kind in names or (kind == 'bool' and 'int' in names))
        if v.ty == VAL:
            p = z3.Function('isinst_' + '_'.join(sorted(names)), self.th.VAL, z3.BoolSort())
            if 'bool' in names and len(names) == 1:
                return V(BOOL, self.th.tag(v.t) == self.th.box(BOOL)[2])
            return V(BOOL, p(v.t))
        if v.ty == NONE:
            return self.const(False)
        if v.ty[0] == 'opt':
            r = self.isinstance_(V(v.ty[1], self.th.the(v.ty, v.t)), c, st)
            return V(BOOL, A_(N_(self.th.is_none(v.ty, v.t)), r.t))
        raise Unsupported('isinstance of %s' % tname(v.ty))

    def to_set(self, v, st):
        th = self.th
        if not isinstance(v.data, Iter):
            v = self.strip_opt(v, st)
            if v.ty[0] == 'empty':
                return V(('empty', 'S'), own='fresh')
            if v.ty[0] == 'set':
                return V(v.ty, v.t, own='fresh')
            if v.ty[0] == 'map':
                return V(('set', v.ty[1]), th.map_dom(v.ty, v.t), own='fresh')
            if v.ty[0] == 'tup':
                ps = self.parts(v)
                ty = self.join_ty([p.ty for p in ps])
                t = z3.K(th.sort(ty), False)
                for p in ps:
                    t = z3.Store(t, self.term(self.coerce(p, ty, st)), True)
                return V(('set', ty), t, own='fresh')
        s = self.to_seq(v, st, 'L')
        return V(('set', s.ty[1]), th.op(s.ty, 'toset')(s.t), own='fresh')

    def permuted(self, v, st, keywords=None):
        if v.ty[0] == 'empty':
            return v
        th = self.th
        r = self.fresh('sorted', v.ty)
        ln, at, cont, perm = (th.op(v.ty, x) for x in ('len', 'at', 'contains', 'perm'))
        x = z3.Const('x', th.sort(v.ty[1]))
        i, j = z3.Ints('i j')
        st.pc.append(ln(r.t) == ln(v.t))
        st.pc.append(z3.ForAll([x], cont(r.t, x) == cont(v.t, x), patterns=[cont(r.t, x), cont(v.t, x)]))
        st.pc.append(perm(r.t, v.t))
        # index bijection
        ix = z3.Function(str(r.t) + '_ix', z3.IntSort(), z3.IntSort())
        inv = z3.Function(str(r.t) + '_inv', z3.IntSort(), z3.IntSort())
        st.pc.append(z3.ForAll([i], I_(A_(0 <= i, i < ln(r.t)), A_(0 <= ix(i), ix(i) < ln(v.t), at(r.t, i) == at(v.t, ix(i)), inv(ix(i)) == i)), patterns=[at(r.t, i)]))
        st.pc.append(z3.ForAll([i], I_(A_(0 <= i, i < ln(v.t)), A_(0 <= inv(i), inv(i) < ln(r.t), ix(inv(i)) == i, at(r.t, inv(i)) == at(v.t, i))), patterns=[at(v.t, i)]))
        r.own = 'fresh'
        if keywords is not None:
            key = {k.arg: k.value for k in keywords}
            rev = key.get('reverse')
            rev = rev.value if isinstance(rev, ast.Constant) else (False if rev is None else None)
            f = None
            if 'key' in key and isinstance(key['key'], ast.Name) and key['key'].id == 'len' and v.ty[1][0] == 'seq':
                f = th.op(v.ty[1], 'len')
            elif 'key' not in key and v.ty[1] in (INT, REAL):
                f = lambda x: x
            elif isinstance(key.get('key'), ast.Lambda) and len(key['key'].args.args) == 1 and rev is not None and not self.spec_depth:
                f = self.sort_key(key['key'], v, st)
            if f is not None and rev is not None:
                a, b = f(at(r.t, i)), f(at(r.t, j))
                st.pc.append(z3.ForAll([i, j], I_(A_(0 <= i, i < j, j < ln(r.t)), a >= b if rev else a <= b), patterns=[z3.MultiPattern(at(r.t, i), at(r.t, j))]))
        return r

    def sort_key(self, lam, v, st):
        """the key function of a sort as a term; its evaluation must not fail on any element"""
        x = lam.args.args[0].arg

        def env(t, s):
            s.envs.append({'$parent': len(s.envs) - 1, x: V(v.ty[1], t)})
            return s
        k = self.th.fresh('k', z3.IntSort())
        s2 = st.copy()
        s2.pc.append(A_(0 <= k, k < self.th.op(v.ty, 'len')(v.t)))
        xt = self.th.op(v.ty, 'at')(v.t, k)
        if self.has_ref(v.ty[1]):
            s2.pc.append(self.wf(s2, v.ty[1], xt))
        self.ev(lam.body, env(xt, s2))

        def f(t):
            self.spec_depth += 1
            try:
                r = self.ev(lam.body, env(t, st.copy()))[0][1]
            finally:
                self.spec_depth -= 1
            return r.t
        try:
            probe = f(xt)
        except Unsupported:
            return None
        return f if probe is not None and probe.sort() in (z3.IntSort(), z3.RealSort()) else None

    def as_gen(self, e):
        """filter(f, xs) / map(f, xs) as the generator expression it stands for"""
        n = e.func.id
        fn, src = e.args
        if isinstance(fn, ast.Lambda) and len(fn.args.args) == 1:
            x, body = fn.args.args[0].arg, fn.body
        else:
            x = 'x__' + n
            body = ast.copy_location(ast.Call(func=fn, args=[ast.copy_location(ast.Name(id=x, ctx=ast.Load()), e)], keywords=[]), e)
        tgt = ast.copy_location(ast.Name(id=x, ctx=ast.Store()), e)
        var = ast.copy_location(ast.Name(id=x, ctx=ast.Load()), e)
        gen = ast.comprehension(target=tgt, iter=src, ifs=[body] if n == 'filter' else [], is_async=0)
        return ast.copy_location(ast.GeneratorExp(elt=var if n == 'filter' else body, generators=[gen]), e)

    def ev_next(self, e, st):
        g = e.args[0]
        if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ('filter', 'map') and len(g.args) == 2 and self.lookup(st, g.func.id) is None:
            g = self.as_gen(g)
        if not isinstance(g, ast.GeneratorExp):
            raise Unsupported('next() of a non-generator')
        out = []
        for s, it, k, conds, (v,), facts in self.comp(g, st, [g.elt]):
            rng = A_(0 <= k, k < it.n)
            cond = A_(*conds) if conds else z3.BoolVal(True)
            sat = {'patterns': [self.th.op(it.seqv.ty, 'at')(it.seqv.t, k)]} if it.seqv is not None else {}
            ex = z3.Exists([k], A_(rng, cond))
            k0 = self.fresh('first', INT).t

            def at0(t):
                return z3.substitute(t, (k, k0))
            found = [0 <= k0, k0 < it.n, at0(cond)] + [at0(f) for f in facts]
            first = z3.ForAll([k], I_(A_(0 <= k, k < k0), N_(cond)), **sat)
            if len(e.args) > 1:
                for s2, dflt in self.ev(e.args[1], s):
                    sa = s2.copy()
                    sa.pc += found + [first]
                    if self.feasible(sa):
                        out.append((sa, V(v.ty, at0(self.term(v)))))
                    s2.pc.append(z3.ForAll([k], I_(rng, N_(cond)), **sat))
                    if self.feasible(s2):
                        out.append((s2, dflt))
            else:
                self.oblige_or_raise(s, ex, 'StopIteration', 'next() finds an element: ' + ast.unparse(g)[:60])
                s.pc += found + [first]
                r = V(v.ty, at0(self.term(v)))
                out.append((s, r))
        return out

    def sumfn(self, ty):
        """recursive sum of the first n elements of an array-like function: over sequences only"""
        th = self.th
        name = 'sum_' + tname(ty)
        if name in th.ops:
            return th.ops[name]
        S = th.sort(ty)
        E = th.sort(ty[1])
        f = z3.Function(name, S, z3.IntSort(), E)
        fl = z3.Function(name + '_l', S, z3.IntSort(), E)
        s = z3.Const('s', S)
        n = z3.Int('n')
        at = th.op(ty, 'at')
        th.ax(name + '.def', z3.ForAll([s, n], f(s, n) == z3.If(n <= 0, z3.RealVal(0) if ty[1] == REAL else z3.IntVal(0), fl(s, n - 1) + at(s, n - 1)), patterns=[f(s, n)]))
        th.ax(name + '.lim', z3.ForAll([s, n], f(s, n) == fl(s, n), patterns=[f(s, n)]))
        th.ops[name] = f
        return f

    def ev_sum(self, e, st):
        out = []
        a = e.args[0]
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'values' and not a.args and len(e.args) == 1:
            res = self.ev(a.func.value, st)
            if len(res) == 1 and res[0][1].ty[0] == 'map' and res[0][1].ty[2] in (INT, REAL):
                # the sum over a dictionary does not depend on its order: a function of the dictionary
                s, m = res[0]
                f = z3.Function('msum_' + tname(m.ty), self.th.sort(m.ty), self.th.sort(m.ty[2]))
                return [(s, V(m.ty[2], f(m.t)))]
        res = self.seq_comp(a, st, 'L') if isinstance(a, (ast.GeneratorExp, ast.ListComp)) else self.ev(a, st)
        for s, v in res:
            v = self.to_seq(v, s, 'L')
            if v.ty[0] == 'empty':
                out.append((s, self.const(0)))
                continue
            if v.ty[1] == BOOL:
                v = self.coerce(v, ('seq', INT, 'L'), s)
            if v.ty[1] not in (INT, REAL):
                raise Unsupported('sum of %s' % tname(v.ty[1]))
            n = self.th.op(v.ty, 'len')(v.t)
            if self.spec_depth and len(e.args) == 2:
                # in specifications: the sum of the first k elements
                n = self.coerce(self.ev(e.args[1], s)[0][1], INT).t
            elif len(e.args) != 1:
                raise Unsupported('sum with a start value')
            out.append((s, V(v.ty[1], self.sumfn(v.ty)(v.t, n))))
        return out

    def ev_minmax_key(self, e, st):
        out = []
        key = [k for k in e.keywords if k.arg == 'key'][0].value
        for s, vs in self.evs(e.args, st):
            if len(vs) != 1:
                raise Unsupported('max with key over several arguments')
            it = self.iter_of(vs[0], s)
            self.oblige_or_raise(s, it.n > 0, 'ValueError', 'max/min of a non-empty iterable')
            k0 = self.fresh('pick', INT).t
            s.pc.append(A_(0 <= k0, k0 < it.n))
            out.append((s, it.at(k0)))
        return out

    # ---------------------------------------------------------------- container methods
    def container_method(self, recv, name, args, kw, st, e):
        th = self.th
        if isinstance(recv.data, Iter):
            raise Unsupported('method of iterator')
        place = recv.place
        own_ok = place is not None
        if recv.ty == VAL:
            f = 'val.%s' % name
            if name in ('join', 'format', 'strip', 'split', 'replace', 'lower', 'upper', 'startswith', 'endswith', 'ljust'):
                if name in ('startswith', 'endswith'):
                    return [(st, self.fresh(name, BOOL))]
                return [(st, self.fresh(name, VAL))]
            raise Unsupported('method %s of an opaque value' % name)
        k = recv.ty[0]

        def write(nv):
            if place is None:
                if recv.own == 'fresh':
                    return
                raise Unsupported('mutation of a container whose owner is not known: %s' % ast.unparse(e)[:60])
            base = place
            if base[0] == 'var':
                cur = st.envs[base[1]][base[2]]
                if cur.own == 'borrow' and cur.place is None:
                    raise Unsupported('mutation of a borrowed container: %s' % ast.unparse(e)[:60])
            self.writeplace(st, place, nv, nv.ty)

        none = V(NONE, const=NONE)
        if k == 'empty':
            if name in ('append', 'add', 'appendleft', 'put', 'insert'):
                x = args[-1]
                if x.ty[0] == 'empty':
                    raise Unsupported('append of an empty literal to an untyped list')
                ty = ('set', x.ty) if name == 'add' else ('seq', x.ty, 'L')
                recv = V(ty, self.empty_of(ty).t, place=place, own=recv.own)
                k = ty[0]
            elif name in ('extend', 'update'):
                x = self.iter_of(args[0], st)
                if args[0].ty[0] == 'map':
                    recv = V(args[0].ty, self.empty_of(args[0].ty).t, place=place, own=recv.own)
                    k = 'map'
                else:
                    el = x.at(z3.IntVal(0))
                    ty = ('set', el.ty) if name == 'update' else ('seq', el.ty, 'L')
                    recv = V(ty, self.empty_of(ty).t, place=place, own=recv.own)
                    k = ty[0]
            elif name in ('keys', 'values', 'items'):
                return [(st, V(('empty', 'L'), own='fresh'))]
            elif name == 'get':
                return [(st, args[1] if len(args) > 1 else none)]
            elif name == 'reverse' or name == 'sort' or name == 'clear':
                return [(st, none)]
            elif name == 'copy':
                return [(st, V(recv.ty, own='fresh'))]
            else:
                raise Unsupported('method %s of an untyped literal' % name)
        if k == 'tup':
            ty = self.join_ty([p.ty for p in self.parts(recv)])
            recv = self.coerce(recv, ('seq', ty, 'T'), st)
            k = 'seq'
        if k == 'seq':
            ty = recv.ty
            ln, at = th.op(ty, 'len'), th.op(ty, 'at')
            t = recv.t
            if name in ('append', 'put'):
                x = self.coerce(args[0], ty[1], st, True, 'appended element')
                nt = th.op(ty, 'snoc')(t, self.term(x))
                if not self.spec_depth:
                    st.pc.append(th.op(ty, 'at')(nt, ln(t)) == self.term(x))
                write(V(ty, nt))
                return [(st, none)]
            if name == 'extend':
                x = self.to_seq(args[0], st, 'L')
                if x.ty[0] != 'empty':
                    write(self.concat(V(ty, t), V(('seq', x.ty[1], ty[2]), x.t), st))
                return [(st, none)]
            if name in ('pop', 'popleft', 'get'):
                if name == 'pop' and (not args or args[0].const == -1):
                    self.oblige_or_raise(st, ln(t) > 0, 'IndexError', 'pop from a non-empty list')
                    i = ln(t) - 1
                    nv = V(ty, th.op(ty, 'take')(t, i))
                elif name != 'pop' or args[0].const == 0:
                    self.oblige_or_raise(st, ln(t) > 0, 'IndexError', 'pop from a non-empty list')
                    i = z3.IntVal(0)
                    nv = V(ty, th.op(ty, 'drop')(t, z3.IntVal(1)))
                else:
                    iv = self.coerce(args[0], INT, st, True)
                    self.oblige_or_raise(st, A_(0 <= iv.t, iv.t < ln(t)), 'IndexError', 'pop index in range')
                    i = iv.t
                    nv = V(ty, th.op(ty, 'del_')(t, i))
                x = V(ty[1], at(t, i), own='fresh' if mutable(ty[1]) else None)
                if self.has_ref(x.ty):
                    st.pc.append(self.wf(st, x.ty, self.term(x)))
                write(nv)
                return [(st, x)]
            if name in ('insert', 'appendleft'):
                i = args[0] if name == 'insert' else self.const(0)
                x = self.coerce(args[-1], ty[1], st, True, 'inserted element')
                if i.const != 0:
                    raise Unsupported('insert at a position other than 0')
                one = th.op(ty, 'snoc')(th.op(ty, 'empty'), self.term(x))
                write(V(ty, th.op(ty, 'concat')(one, t)))
                return [(st, none)]
            if name == 'reverse':
                write(V(ty, th.op(ty, 'rev')(t)))
                return [(st, none)]
            if name == 'sort':
                write(self.permuted(V(ty, t), st, getattr(e, 'had_keywords', ())))
                return [(st, none)]
            if name == 'copy':
                return [(st, V(ty, t, own='fresh'))]
            if name == 'clear':
                write(self.empty_of(ty))
                return [(st, none)]
            if name == 'empty':
                return [(st, V(BOOL, ln(t) == 0))]
            if name == 'index':
                x = self.term(self.coerce(args[0], ty[1], st))
                self.oblige_or_raise(st, th.op(ty, 'contains')(t, x), 'ValueError', 'element of the list: ' + ast.unparse(e)[:50])
                i = self.fresh('index', INT).t
                j = z3.Int('j')
                st.pc.append(A_(0 <= i, i < ln(t), at(t, i) == x))
                st.pc.append(z3.ForAll([j], I_(A_(0 <= j, j < i), at(t, j) != x), patterns=[at(t, j)]))
                return [(st, V(INT, i))]
            if name == 'remove':
                x = self.term(self.coerce(args[0], ty[1], st))
                self.oblige_or_raise(st, th.op(ty, 'contains')(t, x), 'ValueError', 'element of the list: ' + ast.unparse(e)[:50])
                i = self.fresh('index', INT).t
                j = z3.Int('j')
                st.pc.append(A_(0 <= i, i < ln(t), at(t, i) == x))
                st.pc.append(z3.ForAll([j], I_(A_(0 <= j, j < i), at(t, j) != x), patterns=[at(t, j)]))
                write(V(ty, th.op(ty, 'del_')(t, i)))
                return [(st, none)]
            if name == 'count':
                f = z3.Function('count_' + tname(ty), th.sort(ty), th.sort(ty[1]), z3.IntSort())
                x = self.term(self.coerce(args[0], ty[1], st))
                r = f(t, x)
                st.pc.append(A_(r >= 0, (r > 0) == th.op(ty, 'contains')(t, x)))
                return [(st, V(INT, r))]
        if k == 'set':
            ty = recv.ty
            t = recv.t
            if name == 'add':
                x = self.coerce(args[0], ty[1], st, True, 'set element')
                write(V(ty, z3.Store(t, self.term(x), True)))
                return [(st, none)]
            if name in ('discard', 'remove'):
                x = self.coerce(args[0], ty[1], st, True, 'set element')
                if name == 'remove':
                    self.oblige_or_raise(st, z3.Select(t, self.term(x)), 'KeyError', 'element of the set')
                write(V(ty, z3.Store(t, self.term(x), False)))
                return [(st, none)]
            if name in ('update', 'union'):
                r = t
                for a in args:
                    o = self.to_set(a, st)
                    if o.ty[0] != 'empty':
                        r = z3.SetUnion(r, o.t)
                if name == 'update':
                    write(V(ty, r))
                    return [(st, none)]
                return [(st, V(ty, r, own='fresh'))]
            if name in ('intersection', 'difference'):
                o = self.to_set(args[0], st)
                return [(st, V(ty, z3.SetIntersect(t, o.t) if name == 'intersection' else z3.SetDifference(t, o.t), own='fresh'))]
            if name == 'issubset':
                o = self.to_set(args[0], st)
                return [(st, V(BOOL, z3.IsSubset(t, o.t)))]
            if name == 'copy':
                return [(st, V(ty, t, own='fresh'))]
            if name == 'clear':
                write(self.empty_of(ty))
                return [(st, none)]
            if name == 'pop':
                self.oblige_or_raise(st, th.card(ty)(t) > 0, 'KeyError', 'pop from a non-empty set')
                x = self.fresh('popped', ty[1])
                st.pc.append(z3.Select(t, self.term(x)))
                write(V(ty, z3.Store(t, self.term(x), False)))
                return [(st, x)]
        if k == 'map':
            ty = recv.ty
            t = recv.t
            dom, get = th.map_dom(ty, t), th.map_get(ty, t)
            if name in ('keys',) and len(ty) > 3:
                return [(st, V(th.keyty(ty), self.enum_keys(recv, st).t, own='fresh'))]
            if name in ('keys',):
                if self.spec_depth:
                    return [(st, V(('set', ty[1]), dom))]
                return [(st, V(('set', ty[1]), dom, own='fresh'))]
            if name in ('values', 'items'):
                ks = self.enum_keys(recv, st)
                kat = th.op(ks.ty, 'at')
                kl = th.op(ks.ty, 'len')(ks.t)
                if name == 'values':
                    vty = ('seq', ty[2], '?')
                    vs = self.fresh('values', vty)
                    i = z3.Int('i')
                    st.pc.append(th.op(vty, 'len')(vs.t) == kl)
                    st.pc.append(z3.ForAll([i], I_(A_(0 <= i, i < kl), th.op(vty, 'at')(vs.t, i) == z3.Select(get, kat(ks.t, i))), patterns=[th.op(vty, 'at')(vs.t, i), kat(ks.t, i)]))
                    return [(st, vs)]
                it = Iter(kl, lambda i: V(('tup', (ty[1], ty[2])), parts=[V(ty[1], kat(ks.t, i)), V(ty[2], z3.Select(get, kat(ks.t, i)))]), None)
                it.keys = ks
                return [(st, V(('iter',), data=it))]
            if name == 'get':
                kt = self.term(self.elem(args[0], ty[1], st))
                d = args[1] if len(args) > 1 else none
                has = z3.Select(dom, kt)
                rty = self.join_ty([ty[2], d.ty]) if d.ty[0] != 'empty' else ty[2]
                a = self.coerce(V(ty[2], z3.Select(get, kt)), rty, st)
                b = self.coerce(d, rty, st)
                if not self.spec_depth and self.has_ref(ty[2]) and ty[2][0] == 'ref':
                    st.pc.append(I_(has, self.wf(st, ty[2], z3.Select(get, kt))))
                return [(st, V(rty, z3.If(has, self.term(a), self.term(b))))]
            if name == 'pop':
                kt = self.term(self.elem(args[0], ty[1], st))
                if len(args) < 2:
                    self.oblige_or_raise(st, z3.Select(dom, kt), 'KeyError', 'key present: ' + ast.unparse(e)[:50])
                    r = V(ty[2], z3.Select(get, kt))
                else:
                    rty = self.join_ty([ty[2], args[1].ty])
                    r = V(rty, z3.If(z3.Select(dom, kt), self.term(self.coerce(V(ty[2], z3.Select(get, kt)), rty, st)), self.term(self.coerce(args[1], rty, st))))
                write(V(ty, th.map_rem(ty, t, kt)))
                return [(st, r)]
            if name == 'setdefault':
                kv = self.coerce(args[0], ty[1], st)
                kt = self.term(kv)
                dv = self.coerce(args[1], ty[2], st)
                has = z3.Select(dom, kt)
                r = z3.If(has, z3.Select(get, kt), self.term(dv))
                write(V(ty, th.map_put(ty, t, kt, r)))
                rv = V(ty[2], r)
                if mutable(ty[2]) and place is not None:
                    rv.place = ('idx', place, kt, ty)
                return [(st, rv)]
            if name == 'update':
                o = args[0]
                if o.ty[0] == 'empty':
                    return [(st, none)]
                if o.ty[0] != 'map':
                    raise Unsupported('dict.update of %s' % tname(o.ty))
                nm = self.fresh('upd', ty)
                x = z3.Const('x', th.sort(ty[1]))
                nd, ng = th.map_dom(ty, nm.t), th.map_get(ty, nm.t)
                od, og = th.map_dom(o.ty, o.t), th.map_get(o.ty, o.t)
                st.pc.append(z3.ForAll([x], A_(z3.Select(nd, x) == O_(z3.Select(dom, x), z3.Select(od, x)),
                                               z3.Select(ng, x) == z3.If(z3.Select(od, x), z3.Select(og, x), z3.Select(get, x))),
                                       patterns=[z3.Select(nd, x), z3.Select(ng, x)]))
                write(nm)
                return [(st, none)]
            if name == 'copy':
                return [(st, V(ty, t, own='fresh'))]
            if name == 'clear':
                write(self.empty_of(ty))
                return [(st, none)]
        raise Unsupported('method %s of %s' % (name, tname(recv.ty)))

    # ---------------------------------------------------------------- external functions
    def extern(self, name, args, kw, st, e):
        short = name.split('.')[-1]
        for key in (name, 'ext::' + name, 'ext::' + short):
            if key in self.w.by_target:
                return self.call_contract(self.w.by_target[key][0], args, kw, st, None)
        if short in ('warn', 'warning', 'debug', 'info', 'flush', 'write'):
            return [(st, V(NONE, const=NONE))]
        if name == 'sys.exit':
            self.raise_(st, 'SystemExit')
            return []
        if name in ('new:Exception',):
            return [(st, self.fresh('exc', VAL))]
        if name in ('time.time', 'time.perf_counter'):
            self.used_externs.add(name)
            return [(st, self.fresh('time', REAL))]
        if name in ('random.random', 'random.uniform'):
            self.used_externs.add(name)
            r = self.fresh('rnd', REAL)
            st.pc.append(A_(0 <= r.t, r.t < 1))
            return [(st, r)]
        if name in ('random.randint', 'random.randrange'):
            self.used_externs.add(name)
            r = self.fresh('rnd', INT)
            a = [self.coerce(x, INT, st, True) for x in args]
            if name == 'random.randint':
                self.oblige_or_raise(st, a[0].t <= a[1].t, 'ValueError', 'randint range non-empty')
                st.pc.append(A_(a[0].t <= r.t, r.t <= a[1].t))
            else:
                lo = a[0].t if len(a) > 1 else z3.IntVal(0)
                st.pc.append(A_(lo <= r.t, r.t < a[-1].t))
            return [(st, r)]
        if name == 'random.choice':
            self.used_externs.add(name)
            it = self.iter_of(args[0], st)
            self.oblige_or_raise(st, it.n > 0, 'IndexError', 'choice from a non-empty sequence')
            k = self.fresh('choice', INT).t
            st.pc.append(A_(0 <= k, k < it.n))
            v = it.at(k)
            if self.has_ref(v.ty):
                st.pc.append(self.wf(st, v.ty, self.term(v)))
            return [(st, v)]
        if name == 'random.choices':
            self.used_externs.add(name)
            it = self.iter_of(args[0], st)
            n = kw.get('k', self.const(1))
            el = it.at(z3.IntVal(0))
            ty = ('seq', el.ty, 'L')
            r = self.fresh('choices', ty)
            j = z3.Int('j')
            ix = z3.Function(str(r.t) + '_ix', z3.IntSort(), z3.IntSort())
            at = self.th.op(ty, 'at')
            wt = args[1] if len(args) > 1 else kw.get('weights')
            self.oblige_or_raise(st, it.n > 0, 'IndexError', 'choice from a non-empty sequence')
            pos = lambda i: z3.BoolVal(True)
            if wt is not None:
                wi = self.iter_of(wt, st)
                self.oblige_or_raise(st, wi.n == it.n, 'ValueError', 'one weight per choice')
                wat = lambda i: self.term(self.coerce(wi.at(i), REAL))
                self.oblige(st, z3.ForAll([j], I_(A_(0 <= j, j < wi.n), wat(j) >= 0)), 'weights are not negative')
                self.oblige(st, z3.Exists([j], A_(0 <= j, j < wi.n, wat(j) > 0)), 'some weight is positive')
                pos = lambda i: wat(i) > 0
            st.pc.append(self.th.op(ty, 'len')(r.t) == z3.If(n.t > 0, n.t, 0))
            st.pc.append(z3.ForAll([j], I_(A_(0 <= j, j < n.t), A_(0 <= ix(j), ix(j) < it.n, at(r.t, j) == self.term(it.at(ix(j))), pos(ix(j)))), patterns=[at(r.t, j)]))
            if self.has_ref(ty):
                st.pc.append(self.wf(st, ty, r.t))
            r.own = 'fresh'
            return [(st, r)]
        if name in ('random.shuffle',):
            self.used_externs.add(name)
            v = args[0]
            if v.ty[0] == 'empty':
                return [(st, V(NONE, const=NONE))]
            if v.place is None:
                raise Unsupported('shuffle of an unowned list')
            self.writeplace(st, v.place, self.permuted(V(v.ty, v.t), st), v.ty)
            return [(st, V(NONE, const=NONE))]
        if name in ('copy.copy', 'copy') and args[0].ty[0] in ('seq', 'set', 'map'):
            return [(st, V(args[0].ty, args[0].t, own='fresh'))]
        if name in ('copy.copy', 'copy.deepcopy', 'copy', 'deepcopy') and args[0].ty[0] in ('seq', 'set', 'map', 'tup', 'val') and not self.has_ref(args[0].ty):
            return [(st, V(args[0].ty, args[0].t, parts=args[0].parts, own='fresh'))]
        if short == 'defaultdict' and len(args) <= 1:
            return [(st, V(('empty', 'D'), own='fresh'))]
        if short in ('deque', 'Queue', 'SimpleQueue'):
            if not args:
                return [(st, V(('empty', 'L'), own='fresh'))]
            return [(st, self.to_seq(args[0], st, 'L'))]
        if name in ('math.ceil', 'math.floor'):
            self.used_externs.add(name)
            x = self.coerce(args[0], REAL, st, True).t
            return [(st, V(INT, -z3.ToInt(-x) if short == 'ceil' else z3.ToInt(x)))]
        if name in ('math.sqrt', 'math.log', 'math.exp'):
            self.used_externs.add(name)
            f = z3.Function('m_' + short, z3.RealSort(), z3.RealSort())
            return [(st, V(REAL, f(self.coerce(args[0], REAL, st, True).t)))]
        if name in ('itertools.product', 'product') and len(args) >= 1:
            return [(st, self.product(args, kw, st))]
        if short in ('permutations', 'combinations') and len(args) == 2:
            return [(st, self.pairs_of(short, args, st))]
        if name in ('itertools.chain', 'chain'):
            acc = self.to_seq(args[0], st, 'L')
            for a in args[1:]:
                acc = self.concat(acc, self.to_seq(a, st, 'L'), st)
            return [(st, acc)]
        raise Unsupported('external call %s' % name)

    def pairs_of(self, kind, args, st):
        """permutations(s, 2) / combinations(s, 2): all pairs at distinct (increasing) positions"""
        if args[1].const != 2 and not (args[1].t is not None and z3.is_int_value(args[1].t) and args[1].t.as_long() == 2):
            raise Unsupported('%s of a length other than 2' % kind)
        th = self.th
        src = self.to_seq(args[0], st, 'L')
        if src.ty[0] == 'empty':
            return V(('empty', 'L'), own='fresh')
        ety = ('tup', (src.ty[1], src.ty[1]))
        ty = ('seq', ety, '?')
        r = self.fresh(kind, ty)
        at, c, ln, sat = th.op(ty, 'at'), th.op(ty, 'contains'), th.op(src.ty, 'len')(src.t), th.op(src.ty, 'at')
        i, j, k = z3.Ints('i j k')
        f = [z3.Function(str(r.t) + '_ix%d' % q, z3.IntSort(), z3.IntSort()) for q in (0, 1)]

        def pair(a, b):
            return self.term(V(ety, parts=[V(src.ty[1], sat(src.t, a)), V(src.ty[1], sat(src.t, b))]))
        rel = f[0](k) != f[1](k) if kind == 'permutations' else f[0](k) < f[1](k)
        st.pc.append(z3.ForAll([k], I_(A_(0 <= k, k < th.op(ty, 'len')(r.t)), A_(at(r.t, k) == pair(f[0](k), f[1](k)), 0 <= f[0](k), f[0](k) < ln, 0 <= f[1](k), f[1](k) < ln, rel)), patterns=[at(r.t, k)]))
        st.pc.append(z3.ForAll([i, j], I_(A_(0 <= i, i < ln, 0 <= j, j < ln, i != j if kind == 'permutations' else i < j), c(r.t, pair(i, j))), patterns=[z3.MultiPattern(sat(src.t, i), sat(src.t, j))]))
        self.used_externs.add('itertools.' + kind)
        return r

    def product(self, args, kw, st):
        th = self.th
        if 'repeat' in kw:
            it = self.iter_of(args[0], st)
            el = it.at(z3.IntVal(0))
            ety = ('seq', el.ty, 'T')
            src = self.to_seq(args[0], st, 'L')
            ty = ('seq', ety, '?')
            r = self.fresh('product', ty)
            n = self.coerce(kw['repeat'], INT, st, True).t
            if src.ty[0] == 'empty':
                raise Unsupported('product of an empty literal')
            w = z3.Const('w', th.sort(ety))
            i = z3.Int('i')
            ln, at = th.op(ety, 'len'), th.op(ety, 'at')
            c = th.op(ty, 'contains')
            allin = z3.ForAll([i], I_(A_(0 <= i, i < ln(w)), th.op(src.ty, 'contains')(src.t, at(w, i))), patterns=[at(w, i)])
            st.pc.append(z3.ForAll([w], c(r.t, w) == A_(ln(w) == n, allin), patterns=[c(r.t, w)]))
            return r
        its = [self.iter_of(a, st) for a in args]
        els = [x.at(z3.IntVal(0)) for x in its]
        ety = ('tup', tuple(x.ty for x in els))
        ty = ('seq', ety, '?')
        r = self.fresh('product', ty)
        at = th.op(ty, 'at')
        c = th.op(ty, 'contains')
        i = z3.Int('i')
        ks = [z3.Int('k%d' % j) for j in range(len(its))]
        ixs = [z3.Function(str(r.t) + '_ix%d' % j, z3.IntSort(), z3.IntSort()) for j in range(len(its))]
        el = self.term(V(ety, parts=[x.at(f(i)) for x, f in zip(its, ixs)]))
        st.pc.append(z3.ForAll([i], I_(A_(0 <= i, i < th.op(ty, 'len')(r.t)), A_(at(r.t, i) == el, *[A_(0 <= f(i), f(i) < x.n) for x, f in zip(its, ixs)])), patterns=[at(r.t, i)]))
        tup = self.term(V(ety, parts=[x.at(k) for x, k in zip(its, ks)]))
        st.pc.append(z3.ForAll(ks, I_(A_(*[A_(0 <= k, k < x.n) for x, k in zip(its, ks)]), c(r.t, tup)), patterns=[z3.MultiPattern(*[self.term(x.at(k)) for x, k in zip(its, ks)])] if all(x.seqv is not None for x in its) and len(its) > 1 else [c(r.t, tup)]))
        return r

    # ---------------------------------------------------------------- specification built-ins
    def binders(self, text):
        out = []
        for n, t in split_binders(text):
            ty = self.w.ty(t)
            out.append((n, ty, z3.Const('%s!b%d' % (n, self.th.n), self.th.sort(ty) if ty[0] != 'fld' else self.fresh(n, ty).t.sort())))
            self.th.n += 1
        return out

    def quant(self, e, st, mk):
        bs = self.binders(e.args[0].value)
        s = st.copy()
        s.envs.append(dict({n: V(t, c) for n, t, c in bs}, **{'$parent': len(s.envs) - 1}))
        r = self.ev(e.args[1], s)
        body = self.truth(r[0][1])
        pats = []
        for p in e.args[2:]:
            if isinstance(p, (ast.Tuple,)):
                ts = [self.term(self.ev(x, s)[0][1]) for x in p.elts]
            else:
                ts = [self.term(self.ev(p, s)[0][1])]
            if all(pat_ok(x) for x in ts) and all(any(occurs_in(c, x) for x in ts) for _, _, c in bs):
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        kw = {'patterns': pats} if pats else {}
        return V(BOOL, mk([c for _, _, c in bs], body, **kw))

    def sp_forall(self, e, st):
        return self.quant(e, st, z3.ForAll)

    def sp_exists(self, e, st):
        return self.quant(e, st, z3.Exists)

    def sp_implies(self, e, st):
        a, b = [self.truth(self.ev(x, st)[0][1]) for x in e.args]
        return V(BOOL, I_(a, b))

    def sp_iff(self, e, st):
        a, b = [self.truth(self.ev(x, st)[0][1]) for x in e.args]
        return V(BOOL, a == b)

    def sp_ite(self, e, st):
        c, a, b = [self.ev(x, st)[0][1] for x in e.args]
        ty = self.join_ty([a.ty, b.ty])
        return self.ite(self.truth(c), self.coerce(a, ty), self.coerce(b, ty))

    def sp_old(self, e, st):
        if st.old is None:
            raise Unsupported('old() without a pre-state')
        s = st.copy()
        s.heap = dict(st.old.heap)
        # parameters take their entry values
        base = st.old.envs[-1] if st.old.envs else {}
        s.envs = [dict(x) for x in s.envs]
        for env in s.envs:
            for n in list(env):
                if n in base and not n.startswith('$'):
                    env[n] = base[n]
        return self.ev(e.args[0], s)[0][1]

    def sp_alloc(self, e, st):
        v = self.ev(e.args[0], st)[0][1]
        t = v.ty[1] if v.ty[0] == 'opt' else v.ty
        return V(BOOL, self.alloc(st, t[1], v.t))

    def sp_fresh(self, e, st):
        v = self.ev(e.args[0], st)[0][1]
        t = v.ty[1] if v.ty[0] == 'opt' else v.ty
        return V(BOOL, A_(self.alloc(st, t[1], v.t), N_(self.alloc(st.old, t[1], v.t))))

    def sp_null(self, e, st):
        return V(('opt', ('ref', e.args[0].value)), self.th.null(e.args[0].value))

    def sp_none(self, e, st):
        ty = self.w.ty(e.args[0].value)
        return V(ty, self.th.none(ty))

    def sp_dom(self, e, st):
        v = self.ev(e.args[0], st)[0][1]
        return V(('set', v.ty[1]), self.th.map_dom(v.ty, v.t))

    def sp_subset(self, e, st):
        a, b = [self.ev(x, st)[0][1] for x in e.args]
        x = z3.Const('x!s%d' % self.th.n, self.th.sort(a.ty[1]))
        self.th.n += 1
        pats = [z3.Select(t, x) for t in (a.t, b.t) if pat_ok(t)]
        return V(BOOL, z3.ForAll([x], I_(z3.Select(a.t, x), z3.Select(b.t, x)), patterns=pats) if pats else z3.ForAll([x], I_(z3.Select(a.t, x), z3.Select(b.t, x))))

    def sp_card(self, e, st):
        v = self.ev(e.args[0], st)[0][1]
        return V(INT, self.th.card(v.ty)(v.t))

    def sp_mapset(self, e, st):
        m, k, v = [self.ev(x, st)[0][1] for x in e.args]
        return self.map_set(m, k, v)

    def sp_mapdel(self, e, st):
        m, k = [self.ev(x, st)[0][1] for x in e.args]
        return V(m.ty, self.th.map_rem(m.ty, m.t, self.term(k)))

    def sp_setadd(self, e, st):
        s_, x = [self.ev(x, st)[0][1] for x in e.args]
        return V(s_.ty, z3.Store(s_.t, self.term(self.coerce(x, s_.ty[1])), True))

    def sp_setof(self, e, st):
        v = self.ev(e.args[0], st)[0][1]
        return self.to_set(v, st)

    def sp_empty(self, e, st):
        return self.empty_of(self.w.ty(e.args[0].value))

    def sp_box(self, e, st):
        return self.coerce(self.ev(e.args[0], st)[0][1], VAL)

    def sp_unbox(self, e, st):
        v = self.ev(e.args[0], st)[0][1]
        ty = self.w.ty(e.args[1].value)
        return V(ty, self.th.box(ty)[1](v.t))

    def sp_isbox(self, e, st):
        v = self.ev(e.args[0], st)[0][1]
        return V(BOOL, self.th.tag(v.t) == self.th.box(self.w.ty(e.args[1].value))[2])

    def sp_fld(self, e, st):
        c, f = e.args[0].value.rsplit('.', 1)
        return V(('fld', c, f), st.heap[(c, f)])

    def sp_store(self, e, st):
        a, i, x = [self.ev(x, st)[0][1] for x in e.args]
        if a.ty[0] == 'fld':
            return V(a.ty, z3.Store(a.t, i.t, self.term(self.coerce(x, self.fieldty(a.ty[1], a.ty[2])))))
        if a.ty[0] == 'seq':
            return V(a.ty, self.th.op(a.ty, 'upd')(a.t, i.t, self.term(self.coerce(x, a.ty[1]))))
        raise Unsupported('store')

    def sp_perm(self, e, st):
        a, b = [self.ev(x, st)[0][1] for x in e.args]
        return V(BOOL, self.th.op(a.ty, 'perm')(a.t, b.t))

    def sp_cat(self, e, st):
        a, b = [self.ev(x, st)[0][1] for x in e.args]
        if a.ty[0] == 'tup':
            a = self.coerce(a, b.ty)
        if b.ty[0] == 'tup':
            b = self.coerce(b, a.ty)
        return V(a.ty, self.th.op(a.ty, 'concat')(a.t, b.t))

    def sp_unchanged(self, e, st):
        """unchanged('Cls.f', ...): these heap fields are as in the pre-state (on objects that existed)"""
        cs = []
        for a in e.args:
            c, f = a.value.rsplit('.', 1)
            o = z3.Const('o!u%d' % self.th.n, self.th.sort(('ref', c)))
            self.th.n += 1
            new, old = st.heap[(c, f)], st.old.heap[(c, f)]
            if new.eq(old):
                continue
            pats = [z3.Select(x, o) for x in (new, old) if pat_ok(x)]
            cs.append(z3.ForAll([o], I_(self.alloc(st.old, c, o), z3.Select(new, o) == z3.Select(old, o)), **({'patterns': pats} if pats else {})))
        return V(BOOL, A_(*cs) if cs else z3.BoolVal(True))

    def sp_under(self, e, st):
        """under(F1, .., expr): evaluate expr with the given field arrays as the heap"""
        s = st.copy()
        for x in e.args[:-1]:
            v = self.ev(x, st)[0][1]
            s.heap[(v.ty[1], v.ty[2])] = v.t
        return self.ev(e.args[-1], s)[0][1]

    # ---------------------------------------------------------------- specification functions
    def read_keys(self, f):
        out = []
        for r in f.reads:
            c, fl = r.rsplit('.', 1)
            out.append((c, fl))
        return out

    def specfn_call(self, n, args, st):
        f = self.w.specfns[n]
        if len(args) != len(f.params):
            raise Unsupported('arity of %s' % n)
        vs = [self.coerce(a, t, st, False, 'argument of ' + n) if t[0] != 'fun' else a for a, (_, t) in zip(args, f.params)]
        if f.body is not None and not f.recursive and not f.opaque:
            vs = [V(v.ty, v.t, const=v.const, parts=v.parts, data=v.data) if v.place is not None else v for v in vs]
            s = st.copy()
            s.envs = [{p: v for (p, _), v in zip(f.params, vs)}]
            s.frames = []
            if s.old is not None:
                o = s.old.copy()
                o.envs = [s.envs[0]]
                s.old = o
            self.spec_depth += 1
            try:
                r = self.ev(f.body, s)
            except Unsupported as ex:
                raise Unsupported('%s [in spec function %s]' % (ex, n))
            finally:
                self.spec_depth -= 1
            return self.coerce(r[0][1], f.ret, st)
        fn, fl = self.declare(f)
        hs = [st.heap[k] for k in self.read_keys(f)]
        use = fl if self.limited and n in self.limited else fn
        return V(f.ret, use(*hs, *[self.term(v) for v in vs]))

    limited = None

    def declare(self, f):
        if f.name in self.specfuns:
            return self.specfuns[f.name]
        th = self.th
        hs = []
        for (c, fl) in self.read_keys(f):
            rs = th.sort(('ref', c))
            s = z3.BoolSort() if fl == '$alloc' else th.sort(self.fieldty(c, fl))
            hs.append(z3.Const('H_%s_%s' % (c, fl), z3.ArraySort(rs, s)))
        ps = [z3.Const('p_' + n, th.sort(t)) for n, t in f.params]
        sorts = [x.sort() for x in hs + ps]
        fn = z3.Function(f.name, *sorts, th.sort(f.ret))
        fl = z3.Function(f.name + '_lim', *sorts, th.sort(f.ret))
        self.specfuns[f.name] = (fn, fl)
        if f.body is None or f.opaque:
            return fn, fl
        st = State()
        for k, h in zip(self.read_keys(f), hs):
            st.heap[k] = h
        st.envs = [{n: V(t, c) for (n, t), c in zip(f.params, ps)}]
        self.spec_depth += 1
        old = self.limited
        self.limited = (old or set()) | {f.name}
        try:
            body = self.ev(f.body, st)[0][1]
            body = self.coerce(body, f.ret, st)
        finally:
            self.spec_depth -= 1
            self.limited = old
        app = fn(*hs, *ps)
        lim = fl(*hs, *ps)
        th.ax('spec.%s.def' % f.name, z3.ForAll(hs + ps, app == self.term(body), patterns=[app], qid=f.name + '_dfax'))
        th.ax('spec.%s.lim' % f.name, z3.ForAll(hs + ps, app == lim, patterns=[app], qid=f.name + '_lmax'))
        return fn, fl


def occurs_in(c, f):
    todo = [f]
    while todo:
        t = todo.pop()
        if t.eq(c):
            return True
        todo += t.children()
    return False


def short(s):
    s = ' '.join(str(s).split())
    return s if len(s) < 90 else s[:87] + '...'


def preorder_all(fn):
    for c in ast.iter_child_nodes(fn):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield c
        yield from preorder_all(c)
