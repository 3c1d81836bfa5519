"""Check the sequence axioms of theory.py against CPython tuples (small-scope), and that the axioms are not contradictory."""
import itertools
import sys
import z3
from .theory import Theory
from . import types as T, solve


def interp(th, ty):
    o = th.ops[T.erase(ty)]
    N = {}
    for k, f in o.items():
        N[(f.name() if isinstance(f, z3.FuncDeclRef) else f.decl().name())] = k
    return N


def main():
    th = Theory()
    ty = ('seq', T.INT, 'T')
    th.sort(ty)
    th.card(('set', T.INT))
    names = interp(th, ty)
    S = th.sort(ty)
    seqs = [t for n in range(4) for t in itertools.product((5, 6), repeat=n)]
    ints = list(range(-1, 5))
    elems = [5, 6]
    bad = n = 0

    class Skip(Exception):
        pass

    def ev(t, env):
        if z3.is_var(t):
            return env[z3.get_var_index(t)]
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        k = t.decl().kind()
        if k == z3.Z3_OP_IMPLIES:
            return (not ev(t.arg(0), env)) or ev(t.arg(1), env)
        if k == z3.Z3_OP_AND:
            return all(ev(x, env) for x in t.children())
        if k == z3.Z3_OP_OR:
            return any(ev(x, env) for x in t.children())
        if k == z3.Z3_OP_NOT:
            return not ev(t.arg(0), env)
        if k == z3.Z3_OP_ITE:
            return ev(t.arg(1), env) if ev(t.arg(0), env) else ev(t.arg(2), env)
        a = [ev(x, env) for x in t.children()]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return a[0] != a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - a[1]
        if k == z3.Z3_OP_MUL:
            return a[0] * a[1]
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_SELECT:
            return a[1] in a[0]
        op = names.get(t.decl().name())
        if op is None:
            raise Skip(t.decl().name())
        if op == 'len':
            return len(a[0])
        if op == 'at':
            if not 0 <= a[1] < len(a[0]):
                return ('junk', a[0], a[1])
            return a[0][a[1]]
        if op == 'snoc':
            return a[0] + (a[1],)
        if op == 'concat':
            return a[0] + a[1]
        if op == 'take':
            return a[0][:a[1]] if 0 <= a[1] <= len(a[0]) else ('junk', 't', a[0], a[1])
        if op == 'drop':
            return a[0][a[1]:] if 0 <= a[1] <= len(a[0]) else ('junk', 'd', a[0], a[1])
        if op == 'upd':
            return tuple(a[2] if i == a[1] else x for i, x in enumerate(a[0]))
        if op == 'eq':
            return a[0] == a[1]
        if op == 'diff':
            return next((i for i in range(min(len(a[0]), len(a[1]))) if a[0][i] != a[1][i]), -1)
        if op == 'every2':
            return a[0][::2]
        if op == 'rev':
            return a[0][::-1]
        if op == 'contains':
            return a[1] in a[0]
        if op == 'idx':
            return a[0].index(a[1]) if a[1] in a[0] else -1
        if op == 'empty':
            return ()
        if op == 'addnew':
            return a[0] if a[1] in a[0] else a[0] + (a[1],)
        if op == 'toset':
            return frozenset(a[0])
        if op == 'del_':
            return a[0][:a[1]] + a[0][a[1] + 1:] if 0 <= a[1] < len(a[0]) else ('junk', 'x', a[0], a[1])
        raise Skip(op)
    skipped = 0
    for name, f in th.axioms:
        if not name.startswith('seq.'):
            continue
        if not z3.is_quantifier(f):
            if not ev(f, []):
                bad += 1
                print('axiom fails:', name)
            continue
        nv = f.num_vars()
        doms = []
        for i in range(nv):
            s = f.var_sort(i)
            vn = f.var_name(i)
            doms.append(seqs if s == S else (elems if vn in ('x', 'y') else ints))
        try:
            for vals in itertools.product(*doms):
                n += 1
                if not ev(f.body(), list(vals)[::-1]):
                    bad += 1
                    print('axiom fails:', name, vals)
                    break
        except Skip as e:
            skipped += 1
            print('not checked:', name, e)
    s = solve.mk_solver(5)
    s.add([f for _, f in th.axioms])
    x = z3.Const('x', S)
    s.add(th.op(ty, 'len')(x) == 3)
    if s.check() == z3.unsat:
        bad += 1
        print('the axioms are contradictory')
    print('theory self-check: %d instances, %d failures, %d axioms skipped' % (n, bad, skipped))
    return 1 if bad else 0
