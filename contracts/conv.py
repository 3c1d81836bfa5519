"""C16: conversions between kinds of machines."""
from pyvc.world import World, Loop

H = 'aalpy/utils/HelperFunctions.py::'


def world(kind):
    w = World('conv:' + kind)
    if kind == 'dfa':
        w.cls('S', 'aalpy/automata/MooreMachine.py::MooreState', {'state_id': 'val', 'prefix': 'val', 'output': 'val', 'transitions': 'Map[val,S]'})
        w.cls('M', 'aalpy/automata/MooreMachine.py::MooreMachine', {'initial_state': 'S', 'states': 'List[S]', 'current_state': 'S', 'characterization_set': 'List[Tup[val]]'})
        w.cls('D', 'aalpy/automata/Dfa.py::DfaState', {'state_id': 'val', 'prefix': 'val', 'is_accepting': 'val', 'transitions': 'Map[val,D]'})
        w.cls('DM', 'aalpy/automata/Dfa.py::Dfa', {'initial_state': 'D', 'states': 'List[D]', 'current_state': 'D', 'characterization_set': 'List[Tup[val]]'})
        w.spec("""
def mgo(s: 'S', u: 'Seq[val]') -> 'S':
    return ite(len(u) == 0, s, mgo(s, u[:len(u) - 1]).transitions[u[len(u) - 1]])
""", reads=['S.transitions'])
        w.spec("""
def mdef(s: 'S', u: 'Seq[val]') -> 'bool':
    return ite(len(u) == 0, True, mdef(s, u[:len(u) - 1]) and u[len(u) - 1] in mgo(s, u[:len(u) - 1]).transitions)
""", reads=['S.transitions'])
        w.spec("""
def dgo(s: 'D', u: 'Seq[val]') -> 'D':
    return ite(len(u) == 0, s, dgo(s, u[:len(u) - 1]).transitions[u[len(u) - 1]])
""", reads=['D.transitions'])
        w.spec("""
def ddef(s: 'D', u: 'Seq[val]') -> 'bool':
    return ite(len(u) == 0, True, ddef(s, u[:len(u) - 1]) and u[len(u) - 1] in dgo(s, u[:len(u) - 1]).transitions)
""", reads=['D.transitions'])
        w.spec("""
def LAB(o: 'val') -> 'val':
    return ite(o is None, False, o)
def UNIQ(m: 'M') -> 'bool':
    return forall("s:S, t:S", implies(s in m.states and t in m.states and s.state_id == t.state_id, s == t), (s in m.states, t in m.states))
def CLOSED(m: 'M') -> 'bool':
    return m.initial_state in m.states and forall("s:S, a:val", implies(s in m.states and a in s.transitions, s.transitions[a] in m.states), (s in m.states, s.transitions[a]), (s in m.states, a in s.transitions))
def MATCH(m: 'M', g: 'Map[val,D]') -> 'bool':
    return forall("s:S", implies(s in m.states, s.state_id in g and g[s.state_id].is_accepting == LAB(s.output)), s in m.states) and forall("s:S, a:val", implies(s in m.states, iff(a in s.transitions, a in g[s.state_id].transitions) and implies(a in s.transitions, g[s.state_id].transitions[a] == g[s.transitions[a].state_id])), (s in m.states, s.transitions[a]), (s in m.states, a in s.transitions), (s in m.states, a in g[s.state_id].transitions))
""")
        w.lemma('conv', 'm:M, g:Map[val,D], u:Seq[val]', requires=['CLOSED(m)', 'MATCH(m, g)'], induct='u', fix=('m', 'g'), trigger=['mgo(m.initial_state, u)'],
                ensures=['iff(mdef(m.initial_state, u), ddef(g[m.initial_state.state_id], u))', 'implies(mdef(m.initial_state, u), mgo(m.initial_state, u) in m.states and dgo(g[m.initial_state.state_id], u) == g[mgo(m.initial_state, u).state_id])'])
        G = 'dfa_state_map'
        ST = 'moore_model.states[j]'
        DOM = 'forall("k:val", implies(k in {0}, {0}[k].state_id == k and not old(alloc({0}[k]))), k in {0})'.format(G)
        GOOD = 'forall("j:int", implies(0 <= j and j < %s, {0}.state_id in {1} and {1}[{0}.state_id].is_accepting == LAB({0}.output)), {0})'.format(ST, G)
        N = 'len(moore_model.states)'
        TRS = 'forall("j:int, a:val", implies({{0}}, iff(a in {0}.transitions, a in {1}[{0}.state_id].transitions) and implies(a in {0}.transitions, {1}[{0}.state_id].transitions[a] == {1}[{0}.transitions[a].state_id])), {0}.transitions[a], ({0}, a in {0}.transitions), ({0}, a in {1}[{0}.state_id].transitions))'.format(ST, G)
        EMP = 'forall("k:val, a:val", implies(k in {0} and not exists("j:int", 0 <= j and j < %s and moore_model.states[j].state_id == k, moore_model.states[j]), not a in {0}[k].transitions), a in {0}[k].transitions)'.format(G)
        w.contract(H + 'dfa_from_moore', name='dfa_from_moore', params={'moore_model': 'M'}, returns='DM', allocs=['D', 'DM'], locals={G: 'Map[val,D]'},
                   requires=['UNIQ(moore_model)', 'CLOSED(moore_model)'],
                   loops={0: Loop(inv=[GOOD % '_k', DOM, 'forall("k:val, a:val", implies(k in {0}, not a in {0}[k].transitions), a in {0}[k].transitions)'.format(G)]),
                          1: Loop(idx='_ks', it='_its', inv=[GOOD % N, DOM, TRS.format('0 <= j and j < _ks'), EMP % '_ks']),
                          2: Loop(idx='_ka', it='_ita', inv=[GOOD % N, DOM, TRS.format('0 <= j and j < _ks and moore_model.states[j] != moore_state'), EMP % '_ks + 1',
                                       'forall("i:int", implies(0 <= i and i < _ka, _ita[i] in {0}[moore_state.state_id].transitions), _ita[i])'.format(G),
                                       'forall("a:val", implies(a in {0}[moore_state.state_id].transitions, a in moore_state.transitions and {0}[moore_state.state_id].transitions[a] == {0}[moore_state.transitions[a].state_id]), a in {0}[moore_state.state_id].transitions)'.format(G)])},
                   ghost={'exit': 'if True:\n    use(conv(moore_model, %s, _))' % G},
                   ensures=['forall("u:Seq[val]", iff(mdef(moore_model.initial_state, u), ddef(result.initial_state, u)) and implies(mdef(moore_model.initial_state, u), dgo(result.initial_state, u).is_accepting == LAB(mgo(moore_model.initial_state, u).output)), mgo(moore_model.initial_state, u), dgo(result.initial_state, u))'],
                   raises={'ValueError': ['exists("s:S", s in moore_model.states and s.output is not None and s.output != True and s.output != False, s in moore_model.states)']})
    if kind == 'mc':
        from contracts import auto
        w.cls('S', 'aalpy/automata/Mdp.py::MdpState', {'state_id': 'val', 'prefix': 'val', 'output': 'val', 'transitions': 'Map[val,List[Tuple[S,real]]]'})
        w.cls('M', 'aalpy/automata/Mdp.py::Mdp', {'initial_state': 'S', 'states': 'List[S]', 'current_state': 'S', 'characterization_set': 'List[Tup[val]]'})
        w.cls('D', 'aalpy/automata/MarkovChain.py::McState', {'state_id': 'val', 'prefix': 'val', 'output': 'val', 'transitions': 'List[Tuple[D,real]]'})
        w.cls('DM', 'aalpy/automata/MarkovChain.py::MarkovChain', {'initial_state': 'D', 'states': 'List[D]', 'current_state': 'D', 'characterization_set': 'List[Tup[val]]'})
        auto.alph(w)
        w.spec("""
def TR(s: 'S', a: 'val') -> 'List[Tuple[S,real]]':
    return ite(a in s.transitions, s.transitions[a], [])
def UNIQ(m: 'M') -> 'bool':
    return forall("s:S, t:S", implies(s in m.states and t in m.states and s.state_id == t.state_id, s == t), (s in m.states, t in m.states))
def CLOSED(m: 'M') -> 'bool':
    return m.initial_state in m.states and forall("s:S, a:val, i:int", implies(s in m.states and a in s.transitions and 0 <= i and i < len(s.transitions[a]), s.transitions[a][i][0] in m.states), (s in m.states, s.transitions[a][i]))
""")
        G = 'state_map'
        ONE = 'forall("b:val, c:val", implies(INALPH(mdp, b) and INALPH(mdp, c), b == c), (INALPH(mdp, b), INALPH(mdp, c)))'
        SYM = 'implies(input_symbol is not None, a == input_symbol) and implies(input_symbol is None, INALPH(mdp, a))'
        for nm, par in (('mc_from_mdp', None),):
            DOM = 'forall("k:val", implies(k in {0}, {0}[k].state_id == k and not old(alloc({0}[k]))), k in {0})'.format(G)
            COP = 'len({0}[{1}.state_id].transitions) == len(TR({1}, input_symbol)) and forall("i:int", implies(0 <= i and i < len(TR({1}, input_symbol)), {0}[{1}.state_id].transitions[i][0] == {0}[TR({1}, input_symbol)[i][0].state_id] and {0}[{1}.state_id].transitions[i][1] == TR({1}, input_symbol)[i][1]), {0}[{1}.state_id].transitions[i])'.format(G, 's')
            w.contract(H + 'mc_from_mdp', name=nm, params={'mdp': 'M', 'input_symbol': 'val'}, returns='DM', allocs=['D', 'DM'],
                       requires=['UNIQ(mdp)', 'CLOSED(mdp)'],
                       locals={G: 'Map[val,D]'},
                       loops={'comp0': Loop(inv=['forall("j:int", implies(0 <= j and j < _k, mdp.states[j].state_id in _acc and _acc[mdp.states[j].state_id].output == mdp.states[j].output), mdp.states[j])', DOM.replace(G, '_acc'), 'forall("k:val", implies(k in _acc, len(_acc[k].transitions) == 0 and exists("s:S", s in mdp.states and s.state_id == k, s in mdp.states)), k in _acc)'], locals={'_acc': 'Map[val,D]'}),
                              0: Loop(idx='_ks', inv=['forall("s:S", implies(s in mdp.states[:_ks], %s), s in mdp.states[:_ks])' % COP, 'forall("s:S", implies(s in mdp.states and not (s in mdp.states[:_ks]), len(%s[s.state_id].transitions) == 0), %s[s.state_id].transitions)' % (G, G)])},
                       ghost={'raise': 'if len(alphabet) > 1:\n    assert INALPH(mdp, alphabet[0]) and INALPH(mdp, alphabet[1]) and alphabet[0] != alphabet[1]\nif len(alphabet) == 0:\n    assert forall("b:val, s:S", implies(s in mdp.states and b in s.transitions, b in alphabet), (s in mdp.states, b in s.transitions))', 'exit': 'assert forall("b:val, s:S", implies(s in mdp.states and b in s.transitions, b in alphabet), (s in mdp.states, b in s.transitions))\nassert forall("a:val", implies(a in alphabet and len(alphabet) == 1, a == alphabet[0]), a in alphabet)\nassert forall("d:D", implies(d in result.states, exists("s:S", s in mdp.states and state_map[s.state_id] == d, s in mdp.states)), d in result.states)\nassert forall("s:S", implies(s in mdp.states, state_map[s.state_id] in result.states and %s), s in mdp.states)\nassert forall("s:S, d:D", implies(s in mdp.states and d in result.states and s.state_id == d.state_id, d == state_map[s.state_id]), (s in mdp.states, d in result.states))\nassert forall("a:val", implies(%s, a == old(input_symbol) or a in alphabet and a == alphabet[0]), INALPH(mdp, a), a in alphabet)' % (COP, SYM)},
                       ensures=['forall("s:S", implies(s in mdp.states, exists("d:D", d in result.states and d.state_id == s.state_id, d in result.states)), s in mdp.states)',
                                'forall("d:D", implies(d in result.states, exists("s:S", s in mdp.states and d.state_id == s.state_id and d.output == s.output, s in mdp.states)), d in result.states)',
                                'forall("d:D, f:D", implies(d in result.states and f in result.states and d.state_id == f.state_id, d == f), (d in result.states, f in result.states))',
                                'result.initial_state in result.states and result.initial_state.state_id == mdp.initial_state.state_id',
                                'forall("a:val, s:S, d:D", implies(({0}) and s in mdp.states and d in result.states and s.state_id == d.state_id, len(d.transitions) == len(TR(s, a)) and forall("i:int", implies(0 <= i and i < len(TR(s, a)), d.transitions[i][0] in result.states and d.transitions[i][0].state_id == TR(s, a)[i][0].state_id and d.transitions[i][1] == TR(s, a)[i][1]), d.transitions[i])), (s in mdp.states, d in result.states, s.transitions[a]))'.format(SYM)],
                       raises={'ValueError': ['input_symbol is None and not (exists("b:val", INALPH(mdp, b)) and %s)' % ONE]})
    return w
