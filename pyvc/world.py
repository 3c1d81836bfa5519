"""Contracts, class declarations, specification functions and lemmas of one verification world."""
import ast
import textwrap
from . import types as T


class ClassDecl:
    def __init__(self, name, src=None, fields=None, ghost=None, ignore=(), sup=(), consts=None, statics=None, cvars=None):
        self.name, self.src = name, src
        self.fields = fields or {}
        self.ghost = ghost or {}
        self.ignore = set(ignore)
        self.sup = set(sup)
        self.consts = consts or {}
        self.cvars = cvars or {}          # assigned class attribute -> specification constant naming the object whose field of that name holds it
        self.statics = statics or {}      # class attribute holding an object -> specification constant naming it


class Loop:
    def __init__(self, inv=(), locals=None, idx=None, it=None, dec=None, unroll=False, acc=None):
        self.inv, self.locals, self.idx, self.it, self.dec = list(inv), locals or {}, idx, it, dec
        self.unroll = unroll
        self.acc = acc


class Contract:
    def __init__(self, target, name=None, params=None, returns='None', requires=(), ensures=(), raises=None,
                 modifies=(), allocs=(), loops=None, locals=None, ghost=None, lemmas=(), trusted=None, inline=False,
                 yields=None, props=(), mut=(), timeout=None, note='', pure=False, calls=None, where=None,
                 fresh_result=False, axioms=(), allow_recursion=False, recv=None, hide=(), isolate=False, strict=(), share=()):
        self.share = set(share)           # fields that may take a container another owner keeps: a snapshot is stored
        self.strict = set(strict)         # defaultdict fields whose reads must find the key
        self.target = target
        self.name = name or target.split('::')[-1]
        self.params = params or {}
        self.returns = returns
        self.requires, self.ensures = list(requires), list(ensures)
        self.raises = raises or {}
        self.modifies, self.allocs = list(modifies), list(allocs)
        self.loops = loops or {}
        self.locals = locals or {}
        self.ghost = ghost or {}
        self.lemmas = list(lemmas)
        self.trusted = trusted            # reason string, for environment contracts
        self.inline = inline
        self.yields = yields
        self.props = list(props)
        self.mut = set(mut)
        self.timeout = timeout
        self.note = note
        self.pure = pure
        self.calls = calls or {}          # textual call -> contract name (choose a variant)
        self.fresh_result = fresh_result
        self.axioms = list(axioms)
        self.recv = recv
        self.isolate = isolate


class SpecFn:
    def __init__(self, name, params, ret, body, reads=(), opaque=False):
        self.opaque = opaque
        self.name, self.params, self.ret, self.body, self.reads = name, params, ret, body, list(reads)
        self.recursive = body is not None and any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name for n in ast.walk(body))


class Lemma:
    def __init__(self, name, vars, requires, ensures, induct=None, uses=(), trigger=None, hints=(), fix=(), timeout=None, auto=True):
        self.name, self.vars = name, vars
        self.requires, self.ensures = list(requires), list(ensures)
        self.induct, self.uses, self.trigger, self.hints = induct, list(uses), trigger, list(hints)
        self.fix = set(fix)
        self.timeout = timeout
        self.auto = auto


class World:
    def __init__(self, name, title=''):
        self.name, self.title = name, title
        self.classes, self.contracts, self.specfns, self.lemmas = {}, {}, {}, {}
        self.by_target = {}
        self.axioms_ = []
        self.enums = {}
        self.aliases = {}
        self.default_lemmas = []
        self.opaque_calls = {}
        self.defs = {}

    def ty(self, s):
        return T.parse(s, self.aliases)

    def cls(self, name, src=None, fields=None, ghost=None, **kw):
        self.classes[name] = ClassDecl(name, src, fields, ghost, **kw)

    def contract(self, target, **kw):
        c = Contract(target, **kw)
        if c.name in self.contracts:
            raise ValueError('duplicate contract name ' + c.name)
        self.contracts[c.name] = c
        self.by_target.setdefault(target, []).append(c)
        return c

    def spec(self, src, reads=(), opaque=False):
        tree = ast.parse(textwrap.dedent(src))
        for fn in tree.body:
            ps = [(a.arg, T.parse(ast.literal_eval(a.annotation) if isinstance(a.annotation, ast.Constant) else ast.unparse(a.annotation), self.aliases)) for a in fn.args.args]
            ret = T.parse(ast.literal_eval(fn.returns) if isinstance(fn.returns, ast.Constant) else ast.unparse(fn.returns), self.aliases)
            last = fn.body[-1]
            body = last.value if isinstance(last, ast.Return) else None
            self.specfns[fn.name] = SpecFn(fn.name, ps, ret, body, reads, opaque)

    def ufn(self, name, args, ret, reads=()):
        self.specfns[name] = SpecFn(name, [('a%d' % i, self.ty(a)) for i, a in enumerate(args)], self.ty(ret), None, reads)

    def lemma(self, name, vars='', requires=(), ensures=(), **kw):
        vs = []
        for part in split_binders(vars):
            n, t = part
            vs.append((n, self.ty(t)))
        self.lemmas[name] = Lemma(name, vs, requires, ensures, **kw)

    def axiom(self, name, formula, reason):
        """an assumed fact about the environment; always listed in the evidence"""
        self.axioms_.append((name, formula, reason))


def split_binders(s):
    out, depth, cur = [], 0, ''
    for ch in s + ',':
        if ch == '[':
            depth += 1
        if ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            if cur.strip():
                n, t = cur.split(':', 1)
                out.append((n.strip(), t.strip()))
            cur = ''
        else:
            cur += ch
    return out
