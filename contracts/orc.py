"""C08: equivalence oracles only report words they have executed in lockstep and that both answer differently."""
from pyvc.world import World, Loop

D = 'aalpy/oracles/'
B = 'aalpy/base/'
A = B + 'Automaton.py'


def world(kind='det'):
    if kind != 'det':
        return nondet(kind)
    w = World('orc')
    w.cls('SUL', B + 'SUL.py::SUL', {'num_queries': 'int', 'num_steps': 'int', 'cache': 'CT'}, sup=('CacheSUL',), ghost={'ins': 'Tup[val]', 'outs': 'Tup[val]', 'nres': 'int', 'npost': 'int', 'nst': 'int'})
    w.cls('CT', B + 'CacheTree.py::CacheTree', {'root_node': 'val'})
    w.cls('S', A + '::AutomatonState', {'state_id': 'val', 'prefix': 'Opt[Tup[val]]'})
    w.cls('H', A + '::DeterministicAutomaton', {'initial_state': 'S', 'states': 'List[S]', 'current_state': 'S', 'characterization_set': 'List[Tup[val]]'},
          ghost={'ins': 'Tup[val]', 'outs': 'Tup[val]', 'nres': 'int'})
    base = {'alphabet': 'List[val]', 'sul': 'SUL', 'num_queries': 'int', 'num_steps': 'int'}

    def orc(name, file, cls, **fields):
        w.cls(name, D + file + '.py::' + cls, {**base, **fields})
    w.cls('O', B + 'Oracle.py::Oracle', base)
    w.spec('''
def LOCK(s: 'SUL', h: 'H', u: 'Tup[val]') -> 'bool':
    return s.ins == u and h.ins == u and len(s.outs) == len(u) and len(h.outs) == len(u)
def AGREE(s: 'SUL', h: 'H', n: 'int') -> 'bool':
    return forall("i:int", implies(0 <= i and i < n, s.outs[i] == h.outs[i]), s.outs[i])
def CEX(s: 'SUL', h: 'H', r: 'Tup[val]') -> 'bool':
    return LOCK(s, h, r) and len(r) > 0 and s.outs[len(r) - 1] != h.outs[len(r) - 1]
''')
    SM = ['ins', 'outs', 'nres', 'npost', 'nst']
    # the system under learning and the hypothesis are the environment: each records what it was given since its last reset
    w.contract(B + 'SUL.py::SUL.pre', name='SUL.pre', params={'self': 'SUL'}, recv='SUL', trusted='abstract method of the system under learning', modifies=['self.ins', 'self.outs', 'self.nres'],
               ensures=['self.ins == ()', 'self.outs == ()', 'self.nres == old(self.nres) + 1'])
    w.contract(B + 'SUL.py::SUL.post', name='SUL.post', params={'self': 'SUL'}, recv='SUL', trusted='abstract method of the system under learning', modifies=['self.npost'], ensures=['self.npost == old(self.npost) + 1'])
    w.contract(B + 'SUL.py::SUL.step', name='SUL.step', params={'self': 'SUL', 'letter': 'val'}, returns='val', recv='SUL', trusted='abstract method of the system under learning', modifies=['self.ins', 'self.outs', 'self.nst'],
               ensures=['self.ins == old(self.ins) + (letter,)', 'self.outs == old(self.outs) + (result,)', 'self.nst == old(self.nst) + 1'])
    w.contract(A + '::Automaton.reset_to_initial', name='H.reset_to_initial', params={'self': 'H'}, recv='H', trusted='the hypothesis records its inputs since the last reset (steps of the machine kinds: C03, C17, C21)',
               modifies=['self.ins', 'self.outs', 'self.nres', 'self.current_state'], ensures=['self.ins == ()', 'self.outs == ()', 'self.nres == old(self.nres) + 1', 'self.current_state == self.initial_state'])
    w.contract(A + '::DeterministicAutomaton.step', name='H.step', params={'self': 'H', 'letter': 'val'}, returns='val', recv='H', trusted='the hypothesis records its inputs since the last reset (steps of the machine kinds: C03, C17, C21)',
               modifies=['self.ins', 'self.outs', 'self.current_state'], ensures=['self.ins == old(self.ins) + (letter,)', 'self.outs == old(self.outs) + (result,)'])
    HM = ['hypothesis.ins', 'hypothesis.outs', 'hypothesis.nres', 'hypothesis.current_state']
    OM = ['self.sul.' + f for f in SM] + HM + ['self.num_queries', 'self.num_steps']
    w.contract(B + 'Oracle.py::Oracle.reset_hyp_and_sul', name='reset_hyp_and_sul', params={'self': 'O', 'hypothesis': 'H'}, recv='O', modifies=['self.sul.ins', 'self.sul.outs', 'self.sul.nres', 'self.sul.npost', 'self.num_queries'] + HM,
               ensures=['LOCK(self.sul, hypothesis, ())', 'self.sul.nres == old(self.sul.nres) + 1', 'self.sul.npost == old(self.sul.npost) + 1', 'hypothesis.nres == old(hypothesis.nres) + 1', 'self.num_queries == old(self.num_queries) + 1'])
    COUNT = ['self.num_steps - old(self.num_steps) == self.sul.nst - old(self.sul.nst)', 'self.num_queries - old(self.num_queries) == self.sul.nres - old(self.sul.nres)',
             'hypothesis.nres - old(hypothesis.nres) >= self.sul.nres - old(self.sul.nres)', 'self.sul == old(self.sul)']
    POST = 'self.sul.npost - old(self.sul.npost) == self.sul.nres - old(self.sul.nres)'
    ENS = COUNT + ['implies(result is None, %s)' % POST, 'implies(result is not None, CEX(self.sul, hypothesis, tuple(result)) and self.sul.npost - old(self.sul.npost) == self.sul.nres - old(self.sul.nres) + 1)']
    FULL = 'implies(result is not None, AGREE(self.sul, hypothesis, len(result) - 1))'
    TOP = COUNT + [POST]

    def inner(word, full=True):
        return COUNT + [POST, 'LOCK(self.sul, hypothesis, %s)' % word] + (['AGREE(self.sul, hypothesis, len(%s))' % word] if full else [])

    def find(name, cls, loops, extra=[], req=[], full=True, res='Opt[Tup[val]]', **kw):
        w.contract(cls, name=name, params={'self': name, 'hypothesis': 'H'}, returns=res, modifies=OM + extra, requires=['self.alphabet != []'] + req, loops=loops, ensures=ENS + ([FULL] if full else []), **kw)
    orc('BFE', 'BreadthFirstExplorationEqOracle', 'BreadthFirstExplorationEqOracle', depth='int', queue='List[Tup[val]]')
    find('BFE', D + 'BreadthFirstExplorationEqOracle.py::BreadthFirstExplorationEqOracle.find_cex', {0: Loop(inv=TOP), 1: Loop(inv=inner('test_case[:_k]'))}, ['self.queue'])
    orc('PAC', 'PacOracle', 'PacOracle', min_walk_len='int', max_walk_len='int', epsilon='float', delta='float', round='int')
    find('PAC', D + 'PacOracle.py::PacOracle.find_cex', {0: Loop(inv=TOP + ['self.min_walk_len <= self.max_walk_len']), 1: Loop(inv=inner('tuple(inputs)'), locals={'inputs': 'List[val]'})}, ['self.round'],
         ['self.min_walk_len <= self.max_walk_len', 'self.epsilon > 0', 'self.delta > 0'], res='Opt[List[val]]')
    orc('W', 'WMethodEqOracle', 'WMethodEqOracle', m='int', shuffle='bool', cache='Set[Tup[val]]')
    w.contract(D + 'WMethodEqOracle.py::WMethodEqOracle.test_suite', name='W.test_suite', params={'self': 'W', 'cover': 'List[Tup[val]]', 'depth': 'int', 'char_set': 'List[Tup[val]]'}, recv='W', yields='Tup[val]', trusted='decided by C22')
    w.contract(A + '::DeterministicAutomaton.compute_characterization_set', name='H.ccs', params={'self': 'H'}, returns='List[Tup[val]]', recv='H', trusted='C06', modifies=['self.current_state', 'self.ins', 'self.outs', 'self.nres'],
               ensures=['self.nres >= old(self.nres)'])
    PRE = 'forall("i:int", implies(0 <= i and i < len(hypothesis.states), hypothesis.states[i].prefix is not None), hypothesis.states[i])'
    find('W', D + 'WMethodEqOracle.py::WMethodEqOracle.find_cex', {0: Loop(inv=TOP), 1: Loop(inv=inner('seq[:_k]'))}, ['self.cache', 'hypothesis.characterization_set'], [PRE])
    TFD = D + 'TransitionFocusOracle.py::TransitionFocusOracle'
    orc('TF', 'TransitionFocusOracle', 'TransitionFocusOracle', num_walks='int', steps_per_walk='int', same_state_prob='float')
    for f in ('same', 'diff'):
        w.contract(A + '::AutomatonState.get_%s_state_transitions' % f, name='S.' + f, params={'self': 'S'}, returns='List[val]', recv='S', trusted='decided by C05')
    find('TF', TFD + '.find_cex', {0: Loop(inv=TOP), 1: Loop(inv=inner('tuple(inputs)'), locals={'inputs': 'List[val]'})}, res='Opt[List[val]]')
    ALLP = 'forall("i:int", implies(0 <= i and i < len({0}), {0}[i].prefix is not None), {0}[i])'
    w.contract(A + '::DeterministicAutomaton.get_shortest_path', name='H.gsp', params={'self': 'H', 'origin_state': 'S', 'target_state': 'S'}, returns='Opt[Tup[val]]', recv='H', trusted='decided by C05')
    w.contract(A + '::DeterministicAutomaton.get_shortest_path', name='H.gsp.reach', params={'self': 'H', 'origin_state': 'S', 'target_state': 'S'}, returns='Opt[Tup[val]]', recv='H', trusted='decided by C05; every state of a hypothesis is reachable', ensures=['result is not None'])
    w.contract(A + '::Automaton.get_input_alphabet', name='H.gia', params={'self': 'H'}, returns='List[val]', recv='H', trusted='decided by C05', ensures=['len(result) > 0'])
    # the system under learning may itself be used by the oracle inside a wrapper: what every oracle of the library is shown to do
    w.contract(B + 'Oracle.py::Oracle.find_cex', name='O.find_cex', params={'self': 'O', 'hypothesis': 'H'}, returns='Opt[Tup[val]]', recv='O', trusted='abstract method: what every oracle of the library is shown to do', modifies=OM, ensures=ENS)
    orc('PS', 'ProvidedSequencesOracleWrapper', 'ProvidedSequencesOracleWrapper', oracle='O', provided_counterexamples='List[Tup[val]]')
    w.contract(D + 'ProvidedSequencesOracleWrapper.py::ProvidedSequencesOracleWrapper.find_cex', name='PS', params={'self': 'PS', 'hypothesis': 'H'}, returns='Opt[Tup[val]]', modifies=OM + ['self.provided_counterexamples', 'self.oracle.num_queries', 'self.oracle.num_steps'],
               requires=['self.oracle.sul == self.sul'],
               loops={0: Loop(idx='_k0', it='_it0', inv=TOP + ['self.provided_counterexamples == _it0[_k0:]', 'self.oracle == old(self.oracle)', 'self.oracle.sul == self.sul']), 1: Loop(inv=inner('tuple(inputs)') + ['self.provided_counterexamples == _it0[_k0:]', 'self.oracle == old(self.oracle)', 'self.oracle.sul == self.sul'], locals={'inputs': 'List[val]'})},
               ensures=[e for e in ENS if 'num_' not in e])
    KEYED = ['forall("i:int", implies(0 <= i and i < len(states_to_cover), states_to_cover[i].prefix is not None and states_to_cover[i].prefix in self.freq_dict), states_to_cover[i])']
    orc('RW', 'WMethodEqOracle', 'RandomWMethodEqOracle', walks_per_state='int', random_walk_len='int', freq_dict='Map[Opt[Tup[val]],int]')
    find('RW', D + 'WMethodEqOracle.py::RandomWMethodEqOracle.find_cex', {0: Loop(inv=TOP + KEYED), 1: Loop(inv=TOP + KEYED, idx='_k0', it='_it0'), 2: Loop(inv=inner('test_case[:_k]'))}, ['self.freq_dict', 'hypothesis.characterization_set', 'S.prefix'], ['self.random_walk_len >= 1'], locals={'states_to_cover': 'List[S]'}, calls={'get_shortest_path': 'H.gsp.reach'})
    orc('SP', 'StatePrefixEqOracle', 'StatePrefixEqOracle', walks_per_state='int', steps_per_walk='int', depth_first='bool', max_tests='Opt[int]', freq_dict='Map[Opt[Tup[val]],int]')
    find('SP', D + 'StatePrefixEqOracle.py::StatePrefixEqOracle.find_cex', {0: Loop(inv=TOP + KEYED, idx='_k0', it='_it0'), 1: Loop(inv=TOP + KEYED, idx='_k0', it='_it0'), 2: Loop(inv=inner('prefix[:_k]', False)), 3: Loop(inv=inner('prefix + suffix', False), locals={'suffix': 'Tup[val]'})}, ['self.freq_dict', 'S.prefix'], full=False, locals={'states_to_cover': 'List[S]'}, calls={'get_shortest_path': 'H.gsp.reach'})
    orc('WP', 'WpMethodEqOracle', 'WpMethodEqOracle', m='int', cache='Set[Tup[val]]')
    WF = D + 'WpMethodEqOracle.py::'
    w.contract(WF + 'first_phase_it', name='WP.first', params={'alphabet': 'List[val]', 'state_cover': 'Set[Tup[val]]', 'depth': 'int', 'char_set': 'List[Tup[val]]'}, yields='Tup[val]', trusted='decided by C22')
    w.contract(WF + 'second_phase_it', name='WP.second', params={'hyp': 'H', 'alphabet': 'List[val]', 'difference': 'Set[Tup[val]]', 'depth': 'int'}, yields='Tup[val]', trusted='decided by C22')
    find('WP', WF + 'WpMethodEqOracle.find_cex', {'comp1': Loop(inv=[], locals={'_acc': 'Set[Tup[val]]'}), 0: Loop(inv=TOP), 1: Loop(inv=inner('seq[:_k]'))}, ['self.cache', 'hypothesis.characterization_set'], [PRE])
    orc('RWP', 'WpMethodEqOracle', 'RandomWpMethodEqOracle', min_length='int', expected_length='int', bound='int')
    w.contract(WF + 'state_characterization_set', name='RWP.scs', params={'hypothesis': 'H', 'alphabet': 'List[val]', 'state': 'S'}, returns='List[Tup[val]]', trusted='decided by C22', modifies=['hypothesis.current_state', 'hypothesis.ins', 'hypothesis.outs'])
    w.contract(A + '::Automaton.execute_sequence', name='H.ex', params={'self': 'H', 'origin_state': 'S', 'seq': 'Tup[val]'}, returns='List[val]', recv='H', trusted='decided by C03', modifies=['self.current_state', 'self.ins', 'self.outs'], ensures=['self.current_state in self.states'])
    find('RWP', WF + 'RandomWpMethodEqOracle.find_cex', {'comp1': Loop(inv=COUNT + [POST, 'forall("i:int", implies(0 <= i and i < _k, hypothesis.states[i] in _acc), hypothesis.states[i])'], locals={'_acc': 'Map[S,List[Tup[val]]]'}), 0: Loop(inv=TOP), 1: Loop(inv=TOP, locals={'input': 'Tup[val]'}), 2: Loop(inv=inner('input[:_k]'))}, ['hypothesis.characterization_set'], [PRE, 'len(hypothesis.states) > 0', 'self.expected_length >= 0'])
    orc('KS', 'kWayStateCoverageEqOracle', 'KWayStateCoverageEqOracle', k='int', cache='Set[val]', random_walk_len='int', fun='val')
    w.contract('call:val', name='KS.fun', params={'f': 'val', 'states': 'List[S]', 'k': 'int'}, returns='List[List[S]]', trusted='itertools.combinations or permutations', ensures=['forall("i:int", implies(0 <= i and i < len(result), len(result[i]) == k and forall("j:int", implies(0 <= j and j < k, result[i][j] in states), result[i][j])), result[i])'])
    find('KS', D + 'kWayStateCoverageEqOracle.py::KWayStateCoverageEqOracle.find_cex', {0: Loop(inv=TOP), 1: Loop(inv=inner('tuple(path[:_k])')), 2: Loop(inv=TOP), 3: Loop(inv=TOP + ['0 <= index and index < len(comb)'], locals={'path': 'Tup[val]'}), 4: Loop(inv=inner('path[:_k]'))}, ['self.cache', 'hypothesis.states'], [PRE, 'self.k > 1'], res='Opt[Seq[val]]')
    orc('KT', 'kWayTransitionCoverageEqOracle', 'KWayTransitionCoverageEqOracle', method='val')
    w.contract(D + 'kWayTransitionCoverageEqOracle.py::KWayTransitionCoverageEqOracle.check_path', name='KT.check_path', params={'self': 'KT', 'hypothesis': 'H', 'steps': 'Tup[val]'}, returns='Opt[Tup[val]]', modifies=OM, recv='KT',
               loops={0: Loop(inv=inner('steps[:_k]'))}, ensures=ENS + [FULL])
    orc('CB', 'CacheBasedEqOracle', 'CacheBasedEqOracle', cache_tree='CT', num_walks='int', depth_increase='int', reset_after_cex='bool', num_walks_done='int')
    w.contract(D + 'CacheBasedEqOracle.py::CacheBasedEqOracle.get_paths', name='CB.get_paths', params={'self': 'CB', 't': 'val'}, returns='List[List[val]]', recv='CB', trusted='the paths recorded in the cache; any list of words will do', ensures=['len(result) > 0'])
    find('CB', D + 'CacheBasedEqOracle.py::CacheBasedEqOracle.find_cex', {0: Loop(inv=TOP), 1: Loop(inv=inner('tuple(prefix[:_k])', False)), 2: Loop(inv=inner('tuple(inputs)', False), locals={'inputs': 'List[val]'})}, ['self.cache_tree', 'self.num_walks_done'], full=False, res='Opt[List[val]]')
    # random walks also serve stochastic and non-deterministic hypotheses: there the hypothesis is asked to follow the system's output
    orc('RWK', 'RandomWalkEqOracle', 'RandomWalkEqOracle', step_limit='int', reset_after_cex='bool', reset_prob='float', random_steps_done='int', automata_type='val')
    find('RWK', D + 'RandomWalkEqOracle.py::RandomWalkEqOracle.find_cex', {0: Loop(inv=inner('tuple(inputs)') + ['self.automata_type == "det"'], locals={'inputs': 'List[val]', 'outputs': 'List[val]'})}, ['self.random_steps_done', 'self.automata_type'], ['self.automata_type is None or self.automata_type == "det"'], res='Opt[List[val]]')
    orc('RWD', 'RandomWordEqOracle', 'RandomWordEqOracle', num_walks='int', min_walk_len='int', max_walk_len='int', reset_after_cex='bool', num_walks_done='int', automata_type='val', walk_lengths='List[int]')
    find('RWD', D + 'RandomWordEqOracle.py::RandomWordEqOracle.find_cex', {0: Loop(inv=TOP + ['self.automata_type == "det"', 'self.min_walk_len <= self.max_walk_len', 'len(self.walk_lengths) >= self.num_walks - self.num_walks_done']), 1: Loop(inv=inner('tuple(inputs)') + ['self.automata_type == "det"', 'self.min_walk_len <= self.max_walk_len', 'len(self.walk_lengths) >= self.num_walks - self.num_walks_done'], locals={'inputs': 'List[val]', 'outputs': 'List[val]'})}, ['self.num_walks_done', 'self.automata_type', 'self.walk_lengths'],
         ['self.automata_type is None or self.automata_type == "det"', 'self.min_walk_len <= self.max_walk_len', 'len(self.walk_lengths) >= self.num_walks - self.num_walks_done'], res='Opt[List[val]]')
    return w


def nondet(kind):
    """random walks against stochastic and non-deterministic hypotheses: the hypothesis is asked to follow the outputs of the system"""
    w = World('orc:' + kind)
    w.cls('SUL', B + 'SUL.py::SUL', {'num_queries': 'int', 'num_steps': 'int'}, ghost={'ins': 'Tup[val]', 'outs': 'Tup[val]', 'nres': 'int', 'npost': 'int', 'nst': 'int'})
    H = {'onfsm': 'Onfsm', 'mdp': 'Mdp', 'smm': 'StochasticMealyMachine'}[kind]
    src = 'aalpy/automata/%s.py::%s' % (H, H)
    w.cls('S', A + '::AutomatonState', {'output': 'val'})
    w.cls('H', src, {'initial_state': 'S', 'states': 'List[S]', 'current_state': 'S'}, ghost={'ins': 'Tup[val]', 'outs': 'Tup[val]', 'nres': 'int', 'stuck': 'bool'})
    base = {'alphabet': 'List[val]', 'sul': 'SUL', 'num_queries': 'int', 'num_steps': 'int'}
    w.cls('O', B + 'Oracle.py::Oracle', base)
    w.spec('''
def LOCK(s: 'SUL', h: 'H', u: 'Tup[val]', o: 'Tup[val]') -> 'bool':
    return s.ins == u and s.outs == o and h.ins == u and h.outs == o and len(u) == len(o)
''')
    w.contract(B + 'SUL.py::SUL.pre', name='SUL.pre', params={'self': 'SUL'}, recv='SUL', trusted='abstract method of the system under learning', modifies=['self.ins', 'self.outs', 'self.nres'],
               ensures=['self.ins == ()', 'self.outs == ()', 'self.nres == old(self.nres) + 1'])
    w.contract(B + 'SUL.py::SUL.post', name='SUL.post', params={'self': 'SUL'}, recv='SUL', trusted='abstract method of the system under learning', modifies=['self.npost'], ensures=['self.npost == old(self.npost) + 1'])
    w.contract(B + 'SUL.py::SUL.step', name='SUL.step', params={'self': 'SUL', 'letter': 'val'}, returns='val', recv='SUL', trusted='abstract method of the system under learning', modifies=['self.ins', 'self.outs', 'self.nst'],
               ensures=['self.ins == old(self.ins) + (letter,)', 'self.outs == old(self.outs) + (result,)', 'self.nst == old(self.nst) + 1'])
    for t in {A + '::Automaton.reset_to_initial', src + '.reset_to_initial'}:
        w.contract(t, name='H.reset_to_initial' if t[0:len(A)] == A else 'H.reset', params={'self': 'H'}, recv='H', trusted='the hypothesis records what it was asked to follow since the last reset (decided by C21)',
                   modifies=['self.ins', 'self.outs', 'self.nres', 'self.current_state', 'self.stuck'], ensures=['self.ins == ()', 'self.outs == ()', 'self.nres == old(self.nres) + 1', 'not self.stuck'])
    w.contract(src + '.step_to', name='H.step_to', params={'self': 'H', 'inp': 'val', 'out': 'val'}, returns='val', recv='H', trusted='the hypothesis records what it was asked to follow since the last reset (decided by C21)',
               modifies=['self.ins', 'self.outs', 'self.current_state', 'self.stuck'], ensures=['self.ins == old(self.ins) + (inp,)', 'self.outs == old(self.outs) + (out,)', 'self.stuck == (result is None)'])
    w.contract(src + '.step', name='H.step', params={'self': 'H', 'inp': 'val'}, returns='val', recv='H', trusted='never called: the hypothesis has to follow the output of the system', requires=['False'])
    HM = ['hypothesis.ins', 'hypothesis.outs', 'hypothesis.nres', 'hypothesis.current_state', 'hypothesis.stuck']
    OM = ['self.sul.' + f for f in ('ins', 'outs', 'nres', 'npost', 'nst')] + HM + ['self.num_queries', 'self.num_steps']
    w.contract(B + 'Oracle.py::Oracle.reset_hyp_and_sul', name='reset_hyp_and_sul', params={'self': 'O', 'hypothesis': 'H'}, recv='O', modifies=['self.sul.ins', 'self.sul.outs', 'self.sul.nres', 'self.sul.npost', 'self.num_queries'] + HM,
               ensures=['LOCK(self.sul, hypothesis, (), ())', 'not hypothesis.stuck', 'self.sul.nres == old(self.sul.nres) + 1', 'self.sul.npost == old(self.sul.npost) + 1', 'hypothesis.nres == old(hypothesis.nres) + 1', 'self.num_queries == old(self.num_queries) + 1'])
    COUNT = ['self.num_steps - old(self.num_steps) == self.sul.nst - old(self.sul.nst)', 'self.num_queries - old(self.num_queries) == self.sul.nres - old(self.sul.nres)',
             'hypothesis.nres - old(hypothesis.nres) == self.sul.nres - old(self.sul.nres)', 'self.sul == old(self.sul)']
    POST = 'self.sul.npost - old(self.sul.npost) == self.sul.nres - old(self.sul.nres)'
    if kind == 'onfsm':
        res, is_cex = 'Opt[Tuple[List[val],List[val]]]', 'LOCK(self.sul, hypothesis, tuple(result[0]), tuple(result[1])) and len(result[0]) > 0'
    else:
        off = 1 if kind == 'mdp' else 0
        at = 'forall("j:int", implies(0 <= j and j < {n}, {c}[2 * j + %d] == {i}[j] and {c}[2 * j + %d] == {o}[j]), {i}[j])' % (off, off + 1)
        res = 'Opt[List[val]]'
        is_cex = ('len(self.sul.ins) > 0 and hypothesis.ins == self.sul.ins and hypothesis.outs == self.sul.outs and len(result) == 2 * len(self.sul.ins) + %d and ' % off
                  + ('result[0] == hypothesis.initial_state.output and ' if off else '') + at.format(n='len(self.sul.ins)', c='result', i='self.sul.ins', o='self.sul.outs'))
    ENS = COUNT + ['implies(result is None, %s)' % POST, 'implies(result is not None, hypothesis.stuck and self.sul.npost - old(self.sul.npost) == self.sul.nres - old(self.sul.nres) + 1)', 'implies(result is not None, %s)' % is_cex]
    KND = ['self.automata_type == "%s"' % kind]
    IN = COUNT + [POST, 'LOCK(self.sul, hypothesis, tuple(inputs), tuple(outputs))', 'not hypothesis.stuck'] + KND
    LC = {'inputs': 'List[val]', 'outputs': 'List[val]'}
    tail = [] if kind == 'onfsm' else [Loop(idx='_k0', it='_it0', inv=['len(cex) == 2 * _k0 + %d' % off] + (['cex[0] == hypothesis.initial_state.output'] if off else []) + [at.format(n='_k0', c='cex', i='inputs', o='outputs')], locals={'cex': 'List[val]'})]
    REQ = ['self.automata_type is None or self.automata_type == "%s"' % kind, 'len(self.alphabet) > 0']
    w.cls('RWK', D + 'RandomWalkEqOracle.py::RandomWalkEqOracle', {**base, 'step_limit': 'int', 'reset_after_cex': 'bool', 'reset_prob': 'float', 'random_steps_done': 'int', 'automata_type': 'val'})
    w.contract(D + 'RandomWalkEqOracle.py::RandomWalkEqOracle.find_cex', name='RWK', params={'self': 'RWK', 'hypothesis': 'H'}, returns=res, modifies=OM + ['self.random_steps_done', 'self.automata_type'], requires=REQ,
               loops={0: Loop(inv=IN, locals=LC), **({1: tail[0]} if tail else {})}, ensures=ENS)
    w.cls('RWD', D + 'RandomWordEqOracle.py::RandomWordEqOracle', {**base, 'num_walks': 'int', 'min_walk_len': 'int', 'max_walk_len': 'int', 'reset_after_cex': 'bool', 'num_walks_done': 'int', 'automata_type': 'val', 'walk_lengths': 'List[int]'})
    LEN = ['self.min_walk_len <= self.max_walk_len', 'len(self.walk_lengths) >= self.num_walks - self.num_walks_done']
    w.contract(D + 'RandomWordEqOracle.py::RandomWordEqOracle.find_cex', name='RWD', params={'self': 'RWD', 'hypothesis': 'H'}, returns=res, modifies=OM + ['self.num_walks_done', 'self.automata_type', 'self.walk_lengths'], requires=REQ + LEN,
               loops={0: Loop(inv=COUNT + [POST] + KND + LEN), 1: Loop(inv=IN + LEN, locals=LC), **({2: tail[0]} if tail else {})}, ensures=ENS)
    return w
