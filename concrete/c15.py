import copy
import pickle
from lib import *
from c16 import nd_rows
from c21 import build_nd
from aalpy.automata import Vpa, Sevpa

RULE = ('machines of eight kinds (deterministic ones partial, with unreachable states, falsy state names and letters, initial state anywhere; stochastic, non-deterministic and pushdown ones) taken through '
        'state setups, copy and pickle; reference: entry-by-entry comparison with the literal table, and independence under later changes')
ND = ('mdp', 'smm', 'ndmoore')
IDS = (None, (0, 1, 2, 3, 4, 5, 6, 7), ('', 'b', 'a', '0', 'zz', 'q', 'r', 's'), ((), (1,), ('a',), ('a', 'b'), (0,), (2,), (3,), (4,)))


def cases(ctx):
    rng = ctx.rng
    while True:
        al = rng.choice(ALPHABETS)
        n = rng.randint(1, 6)
        how = rng.choice(['copy', 'setup', 'pickle', 'setup2'])
        what = rng.choice(['det', 'det', 'nd', 'vpa', 'sevpa'])
        if what == 'det':
            m = rand_machine(rng, rng.choice(KINDS), n, al, complete=rng.random() < .5)
            yield (what, how, m, rng.choice(IDS), rng.random() < .5, tuple(rng.sample(range(n), n)))
        elif what == 'nd':
            yield (what, how, (rng.choice(ND), nd_rows(rng, n, al, rng.choice([(0, 1), ('x', '', None), ('epsilon', 'sink_state')]))), rng.choice(IDS), rng.randrange(n), tuple(rng.sample(range(n), n)))
        else:
            call, ret, inn = ('(', '['), (')', ']'), ('x', '')
            rows = []
            for i in range(n):
                tr = []
                for a in inn:
                    if rng.random() < .6:
                        tr.append((a, rng.randrange(n), None, None))
                if what == 'vpa':
                    for a in call:
                        if rng.random() < .7:
                            tr.append((a, rng.randrange(n), 'push', a))
                for a in ret:
                    for g in call:
                        if rng.random() < .5:
                            tr.append((a, rng.randrange(n), 'pop', g if what == 'vpa' else (rng.randrange(n), g)))
                rows.append((rng.random() < .5, tuple(tr)))
            yield (what, how, tuple(rows), None, rng.randrange(n), tuple(rng.sample(range(n), n)))


def nontrivial(case):
    return len(case[5]) > 1


def key(case, err):
    return (case[0], case[1], str(err)[:30])


def reorder(M, order):
    M.states = [M.states[i] for i in order]


def view(M, what):
    """everything a machine records: name -> (label, moves)"""
    d = {}
    for s in M.states:
        if what == 'det':
            d[s.state_id] = (getattr(s, 'is_accepting', getattr(s, 'output', None)), {a: t.state_id for a, t in s.transitions.items()}, dict(getattr(s, 'output_fun', {})))
        elif what == 'nd':
            d[s.state_id] = (getattr(s, 'output', None), {a: [((t[0].state_id,) + tuple(t[1:])) if isinstance(t, tuple) else t.state_id for t in ts] for a, ts in s.transitions.items() if ts})
        else:
            if s.state_id == 'ErrorSinkState':
                continue
            d[s.state_id] = (s.is_accepting, {a: [(t.target_state.state_id, t.action, t.stack_guard) for t in ts] for a, ts in s.transitions.items() if ts})
    return d, M.initial_state.state_id, len(d)


def targets(M, what):
    for s in M.states:
        for a, t in s.transitions.items():
            if what == 'det':
                yield t
            else:
                for x in t:
                    yield x.target_state if what in ('vpa', 'sevpa') else x[0] if isinstance(x, tuple) else x


def check(case):
    what, how, m, ids, extra, order = case
    if what == 'det':
        M, ss = build(m, ids=ids, prefixes=extra)
    elif what == 'nd':
        M, ss = build_nd(*m)
        if ids:
            for s, i in zip(ss, ids):
                s.state_id = i
        M.initial_state = ss[extra]
    else:
        cls = Vpa if what == 'vpa' else Sevpa
        setup = {'q%d' % i: (acc, {a: [(('q%d' % t), act, g if what == 'vpa' or g is None else ('q%d' % g[0], g[1])) for b, t, act, g in tr if b == a] for a in dict.fromkeys(x[0] for x in tr)}) for i, (acc, tr) in enumerate(m)}
        M = cls.from_state_setup(setup, init_state_id='q%d' % extra)
        v = view(M, what)
        if v[1] != 'q%d' % extra or v[0] != setup:
            return 'from_state_setup: %r instead of %r' % (v, setup)
    if what != 'vpa':
        reorder(M, order)
    before = view(M, what)
    if how == 'copy':
        C = M.copy()
    elif how == 'pickle':
        C = pickle.loads(pickle.dumps(M))
    elif how == 'setup':
        C = type(M).from_state_setup(M.to_state_setup())
    else:
        st = M.to_state_setup()
        st0 = copy.deepcopy(st)
        C = type(M).from_state_setup(st)
        if st != st0:
            return 'from_state_setup changed the state setup it read'
        s2 = C.to_state_setup()
        drop = lambda x: {k: (v[0], {a: t for a, t in v[1].items() if t}) if isinstance(v, tuple) else {a: t for a, t in v.items() if t} for k, v in x.items() if k != 'ErrorSinkState'}
        if drop(s2) != drop(st) or list(s2)[0] != list(st)[0]:
            return 'state setup of the rebuilt machine is %r instead of %r' % (s2, st)
    if type(C) is not type(M):
        return 'kind %s instead of %s' % (type(C), type(M))
    if view(M, what) != before:
        return '%s changed the original machine' % how
    if view(C, what) != before:
        return '%s yields %r instead of %r' % (how, view(C, what), before)
    own = {id(s) for s in C.states}
    if len(own) != len(C.states):
        return '%s: a state is listed twice' % how
    mine = {id(s) for s in M.states if s.state_id != 'ErrorSinkState'}
    if own & mine or any(id(t) in mine for t in targets(C, what)) or id(C.initial_state) in mine:
        return '%s shares a state with the original' % how
    if any(id(t) not in own for t in targets(C, what)) or id(C.initial_state) not in own:
        return '%s: a transition leaves the machine' % how
    for s in M.states:
        s.transitions.clear()
        if hasattr(s, 'output_fun'):
            s.output_fun.clear()
    if view(C, what) != before:
        return '%s: changing the original changed the other machine' % how
    return None
