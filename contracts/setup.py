"""C15: state setups and copies, one world per kind of machine."""
from pyvc.world import World, Loop
from contracts import auto, nd

ENTRY = {'dfa': 'Tuple[val,Map[val,val]]', 'moore': 'Tuple[val,Map[val,val]]', 'mealy': 'Map[val,Tuple[val,val]]',
         'mdp': 'Tuple[val,Map[val,List[Tuple[val,real]]]]', 'smm': 'Map[val,List[Tuple[val,val,real]]]', 'ndmoore': 'Tuple[val,Map[val,List[val]]]'}


def world(kind):
    det = kind in ('dfa', 'moore', 'mealy')
    w = (auto.base if det else nd.base)('setup:' + kind, kind)
    f, sc, mc = (auto.SRC if det else nd.F)[kind][:3]
    if det:
        auto.paths(w, kind)
    else:
        w.classes['M'].fields.update({'characterization_set': w.ty('List[Tup[val]]')})
    lab = {'dfa': 'is_accepting', 'moore': 'output', 'mdp': 'output', 'ndmoore': 'output'}.get(kind)
    E = ENTRY[kind]
    D = 'OMap[val,%s]' % E
    TRS = 'e[1]' if lab else 'e'
    mt = E[E.index('Map'):-1] if lab else E
    TG = {'dfa': 'T == s.transitions[a].state_id', 'moore': 'T == s.transitions[a].state_id', 'mealy': 'T[1] == s.transitions[a].state_id and T[0] == s.output_fun[a]',
          'mdp': 'T[i][0] == s.transitions[a][i][0].state_id and T[i][1] == s.transitions[a][i][1]', 'ndmoore': 'T[i] == s.transitions[a][i].state_id',
          'smm': 'T[i][0] == s.transitions[a][i][0].state_id and T[i][1] == s.transitions[a][i][1] and T[i][2] == s.transitions[a][i][2]'}[kind]
    if not det:
        TG = 'len(T) == len(s.transitions[a]) and forall("i:int", implies(0 <= i and i < len(T), %s), T[i], s.transitions[a][i])' % TG
    w.spec("""
def TRS(e: '%s') -> '%s':
    return %s
""" % (E, mt, TRS))
    w.spec("""
def TGT(s: 'S', a: 'val', T: '%s') -> 'bool':
    return %s
""" % (mt[8:-1], TG), reads=['S.transitions', 'S.state_id'] + (['S.output_fun'] if kind == 'mealy' else []))
    OKA = ' and a in s.output_fun' if kind == 'mealy' else ''
    w.spec("""
def ENT(s: 'S', e: '{0}') -> 'bool':
    return {1} forall("a:val", iff(a in s.transitions, a in TRS(e)) and implies(a in s.transitions, TGT(s, a, TRS(e)[a]){2}), s.transitions[a], TRS(e)[a])
""".format(E, 'e[0] == s.%s and' % lab if lab else '', OKA), reads=['S.transitions', 'S.state_id'] + (['S.' + lab] if lab else []) + (['S.output_fun'] if kind == 'mealy' else []), opaque=True)
    tgts = 's.transitions[a] in m.states' if det else 'forall("i:int", implies(0 <= i and i < len(s.transitions[a]), s.transitions[a][i]%s in m.states), s.transitions[a][i])' % ('' if kind == 'ndmoore' else '[0]')
    w.spec("""
def UNIQ(m: 'M') -> 'bool':
    return forall("s:S, t:S", implies(s in m.states and t in m.states and s.state_id == t.state_id, s == t), (s in m.states, t in m.states))
def CLOSED(m: 'M') -> 'bool':
    return m.initial_state in m.states and forall("s:S, a:val", implies(s in m.states and a in s.transitions, %s), (s in m.states, s.transitions[a]), (s in m.states, a in s.transitions))
def DESC(m: 'M', d: '%s') -> 'bool':
    return len(d) > 0 and d.keys()[0] == m.initial_state.state_id and m.initial_state in m.states and forall("s:S", implies(s in m.states, s.state_id in d and ENT(s, d[s.state_id])), s in m.states) and forall("k:val", implies(k in d, exists("s:S", s in m.states and s.state_id == k, s in m.states)), k in d)
""" % (tgts, D))
    if kind == 'mealy':
        w.spec("""
def OUTS(m: 'M') -> 'bool':
    return forall("s:S, a:val", implies(s in m.states and a in s.transitions, a in s.output_fun), (s in m.states, a in s.transitions))
""")
    FRESH = 'forall("s:S", implies(s in result.states, not old(alloc(s))), s in result.states)'
    SUM = 'forall("s:S", iff(s in self.states, s in old(self.states)), s in self.states, s in old(self.states))'
    PFX = ['forall("s:S", implies(s in self.states and s.prefix is not None and len(s.prefix) > 0, god(self.initial_state, s.prefix) and go(self.initial_state, s.prefix) == s), s in self.states)',
           'self.initial_state.prefix is None or len(self.initial_state.prefix) == 0'] if det else []
    req = ['UNIQ(self)', 'CLOSED(self)'] + (['OUTS(self)'] if kind == 'mealy' else []) + PFX
    SRT = 'sorted_states' if det else 'self.states'
    DONE = 'forall("j:int", implies(0 <= j and j < _k, {0}[j].state_id in state_setup_dict and ENT({0}[j], state_setup_dict[{0}[j].state_id])), {0}[j])'.format(SRT)
    KEYS = 'forall("k:val", implies(k in state_setup_dict, exists("j:int", 0 <= j and j < _k and {0}[j].state_id == k, {0}[j])), k in state_setup_dict)'.format(SRT)
    FIRST = 'implies(_k > 0, len(state_setup_dict) > 0 and state_setup_dict.keys()[0] == %s[0].state_id)' % SRT
    SD = 'state_setup' if kind == 'ndmoore' else 'state_setup_dict'
    if kind == 'ndmoore':
        L = {0: Loop(inv=['forall("j:int", implies(0 <= j and j < _k, {0}[j].state_id in state_setup and ENT({0}[j], state_setup[{0}[j].state_id])), {0}[j])'.format(SRT), 'self.initial_state.state_id in state_setup and ENT(self.initial_state, state_setup[self.initial_state.state_id])',
                          'forall("k:val", implies(k in state_setup, exists("s:S", s in self.states and s.state_id == k, s in self.states)), k in state_setup)', 'len(state_setup) > 0 and state_setup.keys()[0] == self.initial_state.state_id'])}
    else:
        L = {0: Loop(inv=['implies(_k == 0, len(state_setup_dict) == 0)', DONE, KEYS, FIRST] + ([SUM, 'self.states[0] == self.initial_state'] if not det else ['sorted_states[0] == self.initial_state']))}
    w.contract('%s::%s.to_state_setup' % (f, mc), name='to_state_setup', params={'self': 'M'}, returns=D, requires=req, modifies=['S.prefix'] if det else ['self.states'], locals={SD: D}, loops=L,
               ghost={'loop0.end': 'reveal(ENT({0}[_k], {1}[{0}[_k].state_id]))\nassert ENT({0}[_k], {1}[{0}[_k].state_id])'.format(SRT, SD), **({'after:sorted_states = ': 'assert sorted_states[0] == self.initial_state'} if det else {})},
               ensures=['DESC(self, result)'] + ([] if det else [SUM]))
    w.contracts['to_state_setup'].ghost.update({'after:set_dict_entry.self': 'reveal(ENT(self.initial_state, state_setup[self.initial_state.state_id]))\nassert ENT(self.initial_state, state_setup[self.initial_state.state_id])'} if kind == 'ndmoore' else {})
    # from_state_setup
    w.lemma('ent', 's:S, e:%s' % E, requires=[(('e[0] == s.%s and ' % lab) if lab else '') + 'forall("a:val", iff(a in s.transitions, a in TRS(e)) and implies(a in s.transitions, TGT(s, a, TRS(e)[a])%s), s.transitions[a], TRS(e)[a])' % OKA],
            ensures=['ENT(s, e)'], trigger=['ENT(s, e)'], hints=['reveal(ENT(s, e))'])
    pair = lab is not None
    lbl = ' and {0}.%s == state_setup[{1}][0]' % lab if lab else ''
    ND = 'forall("k:val, a:val", implies(k in state_setup and a in TRS(state_setup[k]), %s), TRS(state_setup[k])[a])' % (
        {'dfa': 'TRS(state_setup[k])[a] in state_setup', 'moore': 'TRS(state_setup[k])[a] in state_setup', 'mealy': 'TRS(state_setup[k])[a][1] in state_setup'}[kind]
        if det else 'forall("i:int", implies(0 <= i and i < len(TRS(state_setup[k])[a]), TRS(state_setup[k])[a][i]%s in state_setup), TRS(state_setup[k])[a][i])' % ('' if kind == 'ndmoore' else '[0]'))
    MAP = 'states' if det else 'states_map'
    if det:
        TT = 'TRS(state_setup[{0}])[{1}]' + ('[1]' if kind == 'mealy' else '')
        GOT = '{s}.transitions[{a}] == g_m[%s]' % TT.format('{k}', '{a}') + (' and {s}.output_fun[{a}] == TRS(state_setup[{k}])[{a}][0] and {a} in {s}.output_fun' if kind == 'mealy' else '')
        BASE = lambda m: 'forall("k:val", implies(k in {0}, k in state_setup and {0}[k].state_id == k and not old(alloc({0}[k])){1}), k in {0})'.format(m, lbl.format('%s[k]' % m, 'k'))
        COV = 'forall("k:val", iff(k in state_setup, k in g_m), k in state_setup, k in g_m)'
        FK = 'len(g_m) > 0 and g_m.keys()[0] == state_setup.keys()[0]'
        EMP = lambda m, c: 'forall("k:val, a:val", implies(k in {0} and {1}, not a in {0}[k].transitions), a in {0}[k].transitions)'.format(m, c)
        DONEK = lambda g: 'forall("j:int, a:val", implies(0 <= j and j < _ks and {g}, iff(a in g_m[_its[j]].transitions, a in TRS(state_setup[_its[j]])) and implies(a in TRS(state_setup[_its[j]]), {got})), (_its[j], a in g_m[_its[j]].transitions), (_its[j], a in TRS(state_setup[_its[j]])))'.format(g=g, got=GOT.format(s='g_m[_its[j]]', a='a', k='_its[j]'))
        LST = 'assert forall("s:S", implies(s in states, s.state_id in g_m and g_m[s.state_id] == s), s in states)\nassert forall("k:val", implies(k in g_m, g_m[k] in states), k in g_m)\nassert states[0] == g_m[g_m.keys()[0]]'
        common = [BASE('g_m'), COV, FK]
        w.contract('%s::%s.from_state_setup' % (f, mc), name='from_state_setup', params={'state_setup': D}, returns='M', allocs=['S', 'M'], requires=['len(state_setup) > 0', ND],
                   loops={'comp0': Loop(inv=[BASE('_acc'), 'forall("j:int", implies(0 <= j and j < _k, _it[j] in _acc), _it[j])', 'implies(_k == 0, len(_acc) == 0)', 'implies(_k > 0, len(_acc) > 0 and _acc.keys()[0] == _it[0])', EMP('_acc', 'True')], locals={'_acc': 'OMap[val,S]'}),
                          0: Loop(idx='_ks', it='_its', inv=common + [DONEK('True'), EMP('g_m', 'forall("j:int", implies(0 <= j and j < _ks, _its[j] != k), _its[j])')]),
                          1: Loop(idx='_ka', it='_ita', inv=common + [DONEK('True'), EMP('g_m', 'forall("j:int", implies(0 <= j and j <= _ks, _its[j] != k), _its[j])'),
                                  'forall("i:int", implies(0 <= i and i < _ka, _ita[i] in state.transitions), _ita[i])',
                                  'forall("a:val", implies(a in state.transitions, a in TRS(state_setup[state_id]) and %s), a in state.transitions)' % GOT.format(s='state', a='a', k='state_id')])},
                   ghost={'after:states = \\{': 'g_m = states', 'after:states = \\[': LST,
                          'exit': 'use(ent(_, _))\nassert forall("s:S", implies(s in result.states, s.state_id in state_setup and ENT(s, state_setup[s.state_id])), s in result.states)'},
                   ensures=['DESC(result, state_setup)', 'UNIQ(result)', 'CLOSED(result)', 'forall("s:S", implies(s in result.states, not old(alloc(s))), s in result.states)'])
    else:
        sfx = '' if kind == 'ndmoore' else '[0]'
        ELT = {'mdp': '{0} == (g_m[{1}[0]], {1}[1])', 'smm': '{0} == (g_m[{1}[0]], {1}[1], {1}[2])', 'ndmoore': '{0} == g_m[{1}]'}[kind]
        BASE = lambda m: 'forall("k:val", implies(k in {0}, k in state_setup and {0}[k].state_id == k and not old(alloc({0}[k])){1}), k in {0})'.format(m, lbl.format('%s[k]' % m, 'k'))
        COV = 'forall("k:val", iff(k in state_setup, k in g_m), k in state_setup, k in g_m)'
        FK = 'len(g_m) > 0 and g_m.keys()[0] == state_setup.keys()[0]'
        EMP = lambda m, c: 'forall("k:val, a:val", implies(k in {0} and {1}, not a in {0}[k].transitions), a in {0}[k].transitions)'.format(m, c)
        w.spec("""
def COPIED(T: '%s', R: '%s', g_m: 'OMap[val,S]') -> 'bool':
    return len(R) == len(T) and forall("i:int", implies(0 <= i and i < len(T), %s), T[i], R[i])
""" % (nd.F[kind][3][8:-1], mt[8:-1], ELT.format('T[i]', 'R[i]')))
        DONEK = 'forall("j:int, a:val", implies(0 <= j and j < _ks, iff(a in g_m[_its[j]].transitions, a in TRS(state_setup[_its[j]])) and implies(a in TRS(state_setup[_its[j]]), COPIED(g_m[_its[j]].transitions[a], TRS(state_setup[_its[j]])[a], g_m))), (_its[j], a in g_m[_its[j]].transitions), (_its[j], a in TRS(state_setup[_its[j]])))'
        common = [BASE('g_m'), COV, FK]
        cur = 'g_m[_its[_ks]].transitions'
        DA = 'forall("j:int", implies(0 <= j and j < _ka, _ita[j] in {0} and COPIED({0}[_ita[j]], TRS(state_setup[_its[_ks]])[_ita[j]], g_m)), _ita[j])'.format(cur)
        w.contract('%s::%s.from_state_setup' % (f, mc), name='from_state_setup', params={'state_setup': D}, returns='M', allocs=['S', 'M'],
                   requires=['len(state_setup) > 0', ND, 'forall("k:val, a:val", implies(k in state_setup and a in TRS(state_setup[k]), len(TRS(state_setup[k])[a]) > 0), TRS(state_setup[k])[a])'],
                   loops={'comp0': Loop(inv=[BASE('_acc'), 'forall("j:int", implies(0 <= j and j < _k, _it[j] in _acc), _it[j])', 'implies(_k == 0, len(_acc) == 0)', 'implies(_k > 0, len(_acc) > 0 and _acc.keys()[0] == _it[0])', EMP('_acc', 'True')], locals={'_acc': 'OMap[val,S]'}),
                          0: Loop(idx='_ks', it='_its', inv=common + [DONEK, EMP('g_m', 'forall("j:int", implies(0 <= j and j < _ks, _its[j] != k), _its[j])')]),
                          1: Loop(idx='_ka', it='_ita', inv=common + [DONEK, EMP('g_m', 'forall("j:int", implies(0 <= j and j <= _ks, _its[j] != k), _its[j])'), DA,
                                  'forall("a:val", implies(a in {0}, exists("j:int", 0 <= j and j < _ka and _ita[j] == a, _ita[j])), a in {0})'.format(cur)]),
                          2: Loop(idx='_kl', it='_itl', inv=common + [DONEK, EMP('g_m', 'forall("j:int", implies(0 <= j and j <= _ks, _its[j] != k), _its[j])'), DA,
                                  'forall("a:val", implies(a in {0}, exists("j:int", 0 <= j and j <= _ka and _ita[j] == a, _ita[j])), a in {0})'.format(cur),
                                  'implies(_kl == 0, not (_ita[_ka] in {0}))'.format(cur), 'implies(_kl > 0, _ita[_ka] in {0} and len({0}[_ita[_ka]]) == _kl)'.format(cur),
                                  'implies(_kl > 0, forall("i:int", implies(0 <= i and i < _kl, %s), _itl[i], {0}[_ita[_ka]][i]))'.format(cur) % ELT.format('%s[_ita[_ka]][i]' % cur, '_itl[i]')])},
                   ghost={'after:states_map = \\{': 'g_m = states_map',
                          'exit': 'use(ent(_, _))\nassert forall("k:val", implies(k in g_m, g_m[k] in result.states), k in g_m)\nassert forall("s:S", implies(s in result.states, s.state_id in g_m and g_m[s.state_id] == s), s in result.states)\nassert forall("s:S", implies(s in result.states, s.state_id in state_setup and ENT(s, state_setup[s.state_id])), s in result.states)'},
                   ensures=['DESC(result, state_setup)', 'UNIQ(result)', 'CLOSED(result)', 'forall("s:S", implies(s in result.states, not old(alloc(s))), s in result.states)'])
    # copy: the state setup determines the machine up to identity of states
    SAMETR = {'dfa': 's.transitions[a].state_id == t.transitions[a].state_id', 'moore': 's.transitions[a].state_id == t.transitions[a].state_id',
              'mealy': 's.transitions[a].state_id == t.transitions[a].state_id and s.output_fun[a] == t.output_fun[a] and a in s.output_fun and a in t.output_fun'}.get(kind)
    if not det:
        SAMETR = 'len(s.transitions[a]) == len(t.transitions[a]) and forall("i:int", implies(0 <= i and i < len(s.transitions[a]), %s), s.transitions[a][i], t.transitions[a][i])' % {
            'mdp': 's.transitions[a][i][0].state_id == t.transitions[a][i][0].state_id and s.transitions[a][i][1] == t.transitions[a][i][1]',
            'smm': 's.transitions[a][i][0].state_id == t.transitions[a][i][0].state_id and s.transitions[a][i][1] == t.transitions[a][i][1] and s.transitions[a][i][2] == t.transitions[a][i][2]',
            'ndmoore': 's.transitions[a][i].state_id == t.transitions[a][i].state_id'}[kind]
    flds = ['S.transitions', 'S.state_id'] + (['S.' + lab] if lab else []) + (['S.output_fun'] if kind == 'mealy' else [])
    w.spec("""
def SAME(s: 'S', t: 'S') -> 'bool':
    return s.state_id == t.state_id %s and forall("a:val", iff(a in s.transitions, a in t.transitions) and implies(a in s.transitions, %s), s.transitions[a], t.transitions[a])
def TWIN(m: 'M', r: 'M') -> 'bool':
    return m.initial_state.state_id == r.initial_state.state_id and forall("s:S, t:S", implies(s in m.states and t in r.states and s.state_id == t.state_id, SAME(s, t)), (s in m.states, t in r.states)) and forall("s:S", implies(s in m.states, exists("t:S", t in r.states and t.state_id == s.state_id, t in r.states)), s in m.states) and forall("t:S", implies(t in r.states, exists("s:S", s in m.states and t.state_id == s.state_id, s in m.states)), t in r.states)
""" % ('and s.{0} == t.{0}'.format(lab) if lab else '', SAMETR), reads=flds)
    w.lemma('ente', 's:S, e:%s' % E, requires=['ENT(s, e)'], ensures=[(('e[0] == s.%s and ' % lab) if lab else '') + 'forall("a:val", iff(a in s.transitions, a in TRS(e)) and implies(a in s.transitions, TGT(s, a, TRS(e)[a])%s), s.transitions[a], TRS(e)[a])' % OKA], trigger=['ENT(s, e)'], hints=['reveal(ENT(s, e))'])
    NE = 'forall("s:S, a:val", implies(s in self.states and a in s.transitions, len(s.transitions[a]) > 0), (s in self.states, a in s.transitions))'
    w.contract('aalpy/base/Automaton.py::Automaton.copy', name='copy', params={'self': 'M'}, returns='M', recv=None, allocs=['S', 'M'], modifies=['S.prefix'] if det else ['self.states'],
               requires=req + ([] if det else [NE]), ghost={'entry': 'use(ente(_, _))', 'exit': 'use(ente(_, _))\nassert forall("s:S, t:S", implies(s in self.states and t in result.states and s.state_id == t.state_id, SAME(s, t)), (s in self.states, t in result.states))' + ('\nuse(twin(self, result, _))' if det else '')},
               ensures=['TWIN(self, result)', 'forall("s:S", implies(s in result.states, not old(alloc(s))), s in result.states)', 'not old(alloc(result))'] + ([
                   'forall("u:Seq[val]", iff(god(self.initial_state, u), god(result.initial_state, u)) and implies(god(self.initial_state, u), go(result.initial_state, u) in result.states and SAME(go(self.initial_state, u), go(result.initial_state, u))), go(self.initial_state, u), go(result.initial_state, u))'] if det else []))
    if det:
        w.lemma('twin', 'm:M, r:M, u:Seq[val]', requires=['TWIN(m, r)', 'CLOSED(m)', 'CLOSED(r)', 'UNIQ(m)', 'UNIQ(r)'], induct='u', fix=('m', 'r'), trigger=['go(m.initial_state, u)', 'go(r.initial_state, u)'],
                ensures=['iff(god(m.initial_state, u), god(r.initial_state, u))',
                         'implies(god(m.initial_state, u), go(m.initial_state, u) in m.states and go(r.initial_state, u) in r.states and go(m.initial_state, u).state_id == go(r.initial_state, u).state_id)'])
    return w
