"""C10: the observation table of L*."""
from pyvc.world import World, Loop
from contracts.auto import base

O = 'aalpy/learning_algs/deterministic/ObservationTable.py::ObservationTable.'
SK = {'dfa': 'is_accepting', 'moore': 'output'}


def world(kind):
    w = base('obs:' + kind, kind)
    w.cls('SUL', 'aalpy/base/SUL.py::SUL', {'num_queries': 'int', 'num_steps': 'int'})
    w.ufn('QOUT', ['SUL', 'Tup[val]'], 'val')
    w.contract('aalpy/base/SUL.py::SUL.query', name='SUL.query', params={'self': 'SUL', 'word': 'Tup[val]'}, returns='List[val]', recv='SUL',
               trusted='a deterministic system answers every query with a fixed word (SUL.query is under contract in C02)',
               modifies=['self.num_queries', 'self.num_steps'], ensures=['len(result) == ite(len(word) == 0, 1, len(word))', 'result[len(result) - 1] == QOUT(self, word)'])
    w.cls('OT', O[:-1], {'A': 'List[Tup[val]]', 'S': 'List[Tup[val]]', 'E': 'List[Tup[val]]', 'T': 'Map[Tup[val],Tup[val]]', 'sul': 'SUL'}, consts={'automaton_type': kind, 'prefixes_in_cell': False})
    w.spec('''
def INSA(o: 'OT', u: 'Tup[val]') -> 'bool':
    return len(u) > 0 and u[:len(u) - 1] in o.S and (u[len(u) - 1],) in o.A
def LETTERS(o: 'OT') -> 'bool':
    return forall("i:int", implies(0 <= i and i < len(o.A), len(o.A[i]) == 1), o.A[i])
def FULL(o: 'OT') -> 'bool':
    return forall("u:Tup[val]", implies(u in o.S or INSA(o, u), u in o.T and len(o.T[u]) == len(o.E)), u in o.S, u in o.T, o.T[u])
def CLOSEDT(o: 'OT') -> 'bool':
    return forall("u:Tup[val]", implies(INSA(o, u), exists("s:Tup[val]", s in o.S and o.T[s] == o.T[u], o.T[s], s in o.S)), o.T[u])
''')
    RD = ['LETTERS(self)', 'FULL(self)']
    KEEPT = 'forall("u:Tup[val]", iff(u in self.T, old(u in self.T)) and implies(u in self.T, self.T[u] == old(self.T[u])), u in self.T, self.T[u])'
    w.contract(O + 's_dot_a', name='s_dot_a', params={'self': 'OT'}, yields='Tup[val]', requires=['LETTERS(self)'],
               loops={0: Loop(idx='_i', it='_is', inv=['forall("u:Tup[val]", implies(u in _yielded, INSA(self, u) and not (u in self.S)), u in _yielded)',
                                   'forall("j:int, a:Tup[val]", implies(0 <= j and j < _i and a in self.A, self.S[j] + a in self.S or self.S[j] + a in _yielded), self.S[j] + a)']),
                      1: Loop(idx='_j', it='_js', inv=['forall("u:Tup[val]", implies(u in _yielded, INSA(self, u) and not (u in self.S)), u in _yielded)',
                                   'forall("j:int, a:Tup[val]", implies(0 <= j and j < _i and a in self.A, self.S[j] + a in self.S or self.S[j] + a in _yielded), self.S[j] + a)',
                                   'forall("j:int", implies(0 <= j and j < _j, self.S[_i] + self.A[j] in self.S or self.S[_i] + self.A[j] in _yielded), self.S[_i] + self.A[j])'])},
               ensures=['forall("u:Tup[val]", iff(u in result, INSA(self, u) and not (u in self.S)), u in result, u in self.S)'])
    for strat in ('shortest_first', 'longest_first', 'single', 'single_longest'):
        w.contract(O + 'get_rows_to_close', name='get_rows_to_close.' + strat, params={'self': 'OT', 'closing_strategy': ('const', strat)}, returns='Opt[List[Tup[val]]]', requires=RD, strict=['OT.T'],
                   ghost={} if strat == 'single_longest' else {'before:return rows_to_close': 'assert len(rows_to_close) > 0 and rows_to_close[0] in rows_to_close'},
                   locals={'rows_to_close': 'List[Tup[val]]', 'row_values': 'Set[Tup[val]]'},
                   loops={0: Loop(inv=[] + (['len(rows_to_close) == 0'] if strat == 'single' else []) + ['forall("u:Tup[val]", implies(u in rows_to_close, INSA(self, u) and not (u in self.S) and self.T[u] in row_values and not (self.T[u] in s_rows)), u in rows_to_close)',
                                       'forall("r:Tup[val]", implies(r in row_values, exists("u:Tup[val]", u in rows_to_close and self.T[u] == r, u in rows_to_close)), r in row_values)',
                                       'forall("i:int, j:int", implies(0 <= i and i < j and j < len(rows_to_close), self.T[rows_to_close[i]] != self.T[rows_to_close[j]]), (rows_to_close[i], rows_to_close[j]))',
                                       'forall("j:int", implies(0 <= j and j < _k, self.T[_it[j]] in s_rows or self.T[_it[j]] in row_values), _it[j])'])},
                   ensures=['iff(result is None, CLOSEDT(self))',
                            'implies(result is not None, len(result) > 0 and forall("u:Tup[val]", implies(u in result, INSA(self, u) and not (u in self.S) and not exists("s:Tup[val]", s in self.S and self.T[s] == self.T[u], self.T[s])), u in result))',
                            'implies(result is not None, forall("i:int, j:int", implies(0 <= i and i < j and j < len(result), self.T[result[i]] != self.T[result[j]]), (result[i], result[j])))']
                   + (['implies(result is not None, len(result) == 1)'] if 'single' in strat else
                      ['implies(result is not None, forall("u:Tup[val]", implies(INSA(self, u), exists("s:Tup[val]", (s in self.S or s in result) and self.T[s] == self.T[u], self.T[s])), self.T[u]))']))
    w.spec('''
def CONSIST(o: 'OT') -> 'bool':
    return forall("x:Tup[val], y:Tup[val], a:Tup[val]", implies(x in o.S and y in o.S and o.T[x] == o.T[y] and a in o.A, o.T[x + a] == o.T[y + a]), (x + a, y + a))
''')
    EQR = 'implies(self.T[self.S[%s]] == self.T[self.S[%s]], self.T[self.S[%s] + %s] == self.T[self.S[%s] + %s])'
    eqr = lambda x, y, a: EQR % (x, y, x, a, y, a)
    w.lemma('insa', 'o:OT, s:Tup[val], a:Tup[val]', requires=['LETTERS(o)', 's in o.S', 'a in o.A'], ensures=['INSA(o, s + a)'], trigger=['s + a'])
    w.contract(O + 'get_causes_of_inconsistency', name='get_causes_of_inconsistency', params={'self': 'OT'}, returns='Opt[List[Tup[val]]]', requires=RD, strict=['OT.T'],
               ghost={'entry': 'use(insa(self, _, _))'},
               loops={0: Loop(idx='_i', it='_is', inv=['forall("x:int, y:int, a:Tup[val]", implies(0 <= x and x < _i and x < y and y < len(self.S) and a in self.A, %s), (self.S[x] + a, self.S[y] + a))' % eqr('x', 'y', 'a')]),
                      1: Loop(idx='_j', it='_js', inv=['forall("y:int, a:Tup[val]", implies(_i < y and y < _i + 1 + _j and a in self.A, %s), self.S[y] + a)' % eqr('_i', 'y', 'a')]),
                      2: Loop(idx='_z', it='_zs', inv=['forall("z:int", implies(0 <= z and z < _z, self.T[s1 + self.A[z]] == self.T[s2 + self.A[z]]), self.A[z])']),
                      3: Loop(idx='_l', it='_ls', inv=['forall("l:int", implies(0 <= l and l < _l, self.T[s1 + a][l] == self.T[s2 + a][l]), self.T[s1 + a][l])'])},
               ensures=['iff(result is None, CONSIST(self))',
                        'implies(result is not None, len(result) == 1 and exists("x:Tup[val], y:Tup[val], a:Tup[val], l:int", x in self.S and y in self.S and self.T[x] == self.T[y] and a in self.A and 0 <= l and l < len(self.E) and '
                        'result[0] == a + self.E[l] and self.T[x + a][l] != self.T[y + a][l], (self.T[x + a][l], self.T[y + a][l])))'])
    w.spec('''
def CELLS(o: 'OT') -> 'bool':
    return forall("u:Tup[val], j:int", implies(u in o.T and 0 <= j and j < len(o.T[u]), j < len(o.E) and o.T[u][j] == QOUT(o.sul, u + o.E[j])), o.T[u][j], (o.E[j], o.T[u]))
def ROWLEN(o: 'OT', u: 'Tup[val]') -> 'int':
    return ite(u in o.T, len(o.T[u]), 0)
''')
    UPA = 'u in self.S or INSA(self, u)'
    for var, ps, upd, kk, more in (('', {'s_set': ('const', None), 'e_set': ('const', None)}, UPA, '0', []),
                                   ('.rows', {'s_set': 'List[Tup[val]]', 'e_set': ('const', None)}, 'u in s_set', '0', ['len(s_set) > 0']),
                                   ('.columns', {'s_set': ('const', None), 'e_set': 'List[Tup[val]]'}, UPA, 'len(self.E) - len(e_set)', ['len(e_set) > 0', 'len(e_set) <= len(self.E)', 'e_set == self.E[len(self.E) - len(e_set):]'])):
        ROW = 'ROWLEN(self, u) == %s or ROWLEN(self, u) == len(self.E)' % kk
        DONE = 'forall("u:Tup[val]", implies(u in update_S[:_i], u in self.T and len(self.T[u]) == len(self.E)), u in update_S[:_i], self.T[u])'
        TODO = 'forall("u:Tup[val]", implies(u in update_S%s, %s), u in update_S, self.T[u])' % ('%s', ROW)
        FR = 'forall("u:Tup[val]", implies(not (u in update_S), iff(u in self.T, old(u in self.T)) and implies(u in self.T, self.T[u] == old(self.T[u]))), u in self.T, self.T[u])'
        w.contract(O + 'update_obs_table', name='update_obs_table' + var, params=dict({'self': 'OT'}, **ps), mut=['s_set'] if var == '.rows' else [], modifies=['self.T', 'self.sul.num_queries', 'self.sul.num_steps'],
                   requires=['LETTERS(self)', 'CELLS(self)', 'len(self.E) > 0', 'forall("u:Tup[val]", implies(%s, %s), u in self.T, self.T[u])' % (upd, ROW)] + more,
                   ghost={'entry': 'use(insa(self, _, _))', 'before:update_S.reverse': 'assert forall("u:Tup[val]", iff(u in update_S, %s), u in update_S)' % upd,
                          'loop0.end': 'assert u_done'.replace('u_done', 's in self.T and len(self.T[s]) == len(self.E)')},
                   loops={0: Loop(idx='_i', it='_is', inv=['CELLS(self)', DONE, FR, TODO % '']),
                          1: Loop(idx='_j', it='_js', inv=['CELLS(self)', DONE, FR, 'ROWLEN(self, s) == %s + _j or ROWLEN(self, s) == len(self.E)' % kk, 'implies(_j > 0, s in self.T)',
                                                           'forall("u:Tup[val]", implies(u in update_S and u != s, %s), u in update_S, self.T[u])' % ROW])},
                   ensures=['CELLS(self)', 'forall("u:Tup[val]", implies(%s, u in self.T and len(self.T[u]) == len(self.E)), u in self.T, self.T[u])' % (upd.replace('s_set', 'old(s_set)')),
                            'forall("u:Tup[val]", implies(not (%s), iff(u in self.T, old(u in self.T)) and implies(u in self.T, self.T[u] == old(self.T[u]))), u in self.T, self.T[u])' % (upd.replace('s_set', 'old(s_set)'))])
    DIST = 'forall("i:int, j:int", implies(0 <= i and i < j and j < len(self.S), self.T[self.S[i]] != self.T[self.S[j]]), (self.S[i], self.S[j]))'
    lab = SK.get(kind)
    LAB = 'x.%s == self.T[x.prefix][0]' % lab if lab else 'True'
    ST = 'states_dict[self.S[i]]'
    SI = ('alloc({0}) and fresh({0}) and {0}.prefix is not None and {0}.prefix == self.S[i]'.format(ST)) + (' and %s.%s == self.T[self.S[i]][0]' % (ST, lab) if lab else '')
    MAPS = ['forall("u:Tup[val]", iff(u in states_dict, u in self.S[:{n}]), u in states_dict)',
            'forall("i:int", implies(0 <= i and i < {n}, self.S[i] in states_dict and %s), states_dict[self.S[i]], self.S[i])' % SI,
            'forall("i:int", implies(0 <= i and i < {n}, self.T[self.S[i]] in state_distinguish and state_distinguish[self.T[self.S[i]]] == states_dict[self.S[i]]), state_distinguish[self.T[self.S[i]]], self.S[i])']
    EMPTY = 'forall("i:int, a:val", implies({lo} <= i and i < {n}, not (a in states_dict[self.S[i]].transitions)%s), a in states_dict[self.S[i]].transitions%s)' % ((' and not (a in states_dict[self.S[i]].output_fun)', ', a in states_dict[self.S[i]].output_fun') if not lab else ('', ''))
    TR = 'a in {X}.transitions and {X}.transitions[a] == state_distinguish[self.T[{u} + (a,)]]' + (' and a in {X}.output_fun and exists("l:int", 0 <= l and l < len(self.E) and self.E[l] == (a,) and {X}.output_fun[a] == self.T[{u}][l], self.T[{u}][l])' if not lab else '')
    CLS = 'forall("u:Tup[val]", implies(INSA(self, u), self.T[u] in state_distinguish and exists("s:Tup[val]", s in self.S and self.T[s] == self.T[u] and state_distinguish[self.T[u]] == states_dict[s], s in self.S)), state_distinguish[self.T[u]], self.T[u])'
    DONE = 'forall("i:int, a:val", implies(0 <= i and i < {n}, iff(a in states_dict[self.S[i]].transitions, (a,) in self.A) and implies((a,) in self.A, %s)), (self.S[i], (a,)), a in states_dict[self.S[i]].transitions)' % TR.format(X='states_dict[self.S[i]]', u='self.S[i]')
    PART = 'forall("a:val", iff(a in states_dict[prefix].transitions, (a,) in self.A[:_j]) and implies((a,) in self.A[:_j], %s), ((a,),), a in states_dict[prefix].transitions)' % TR.format(X='states_dict[prefix]', u='prefix')
    POST = ['result.initial_state.prefix is not None and result.initial_state.prefix == () and result.initial_state in result.states', 'result.current_state == result.initial_state', 'len(result.states) == len(self.S)',
            'forall("u:Tup[val]", implies(u in self.S, exists("x:S", x in result.states and x.prefix is not None and x.prefix == u, x in result.states)), u in self.S)',
            'forall("x:S", implies(x in result.states, x.prefix is not None and x.prefix in self.S and %s), x in result.states)' % LAB,
            'forall("x:S, a:val", implies(x in result.states, iff(a in x.transitions, (a,) in self.A) and implies((a,) in self.A, x.transitions[a] in result.states and self.T[x.transitions[a].prefix] == self.T[x.prefix + (a,)]%s)), (x in result.states, a in x.transitions)%s)' % (('', '') if lab else
                (' and a in x.output_fun and exists("l:int", 0 <= l and l < len(self.E) and self.E[l] == (a,) and x.output_fun[a] == self.T[x.prefix][l], self.T[x.prefix][l])', ', (x in result.states, a in x.output_fun)')),
            'forall("x:S, y:S", implies(x in result.states and y in result.states and x.prefix == y.prefix, x == y), (x in result.states, y in result.states))']
    LEN = 'forall("u:Tup[val]", implies(u in self.S and self.T[u] == %s, len(%s) <= len(u)), u in self.S, self.T[u])'
    w.contract(O + '_get_row_representatives', name='_get_row_representatives', params={'self': 'OT'}, returns='List[Tup[val]]', requires=['forall("u:Tup[val]", implies(u in self.S, u in self.T), u in self.S)'],
               modifies=['self.S'], fresh_result=True, locals={'representatives': 'Map[Tup[val],List[Tup[val]]]'}, strict=['OT.T'],
               loops={0: Loop(idx='_i', it='_is', inv=['forall("r:Tup[val]", iff(r in representatives, exists("i:int", 0 <= i and i < _i and self.T[self.S[i]] == r, self.T[self.S[i]])), r in representatives)',
                                       'forall("i:int", implies(0 <= i and i < _i, self.T[self.S[i]] in representatives), self.S[i])',
                                       'forall("r:Tup[val]", implies(r in representatives, len(representatives[r]) > 0 and representatives[r][0] in self.S and self.T[representatives[r][0]] == r and '
                                       'forall("i:int", implies(0 <= i and i < len(self.S) and self.T[self.S[i]] == r, len(representatives[r][0]) <= len(self.S[i])), self.S[i])), representatives[r])'])},
               ensures=['forall("u:Tup[val]", iff(u in self.S, u in old(self.S)), u in self.S, u in old(self.S))', 'len(self.S) == len(old(self.S))',
                        'forall("u:Tup[val]", implies(u in result, u in self.S and %s), u in result)' % (LEN % ('self.T[u]', 'u')).replace('u:Tup', 'v:Tup').replace('u in self.S', 'v in self.S').replace('self.T[u] == self.T[u]', 'self.T[v] == self.T[u]').replace('len(u) <= len(u)', 'len(u) <= len(v)').replace('self.T[u])', 'self.T[v])'),
                        'forall("u:Tup[val]", implies(u in self.S, exists("v:Tup[val]", v in result and self.T[v] == self.T[u], v in result)), u in self.S)',
                        'forall("i:int, j:int", implies(0 <= i and i < j and j < len(result), self.T[result[i]] != self.T[result[j]]), (result[i], result[j]))'])
    for var in ('', '.nocex'):
        R = (lambda x: x.replace('self.S', 's_set')) if var else (lambda x: x)
        Q = lambda xs: [R(x) for x in xs]
        post = [x if 'exists("x:S"' not in x else 'forall("u:Tup[val]", implies(u in self.S, exists("x:S", x in result.states and x.prefix is not None and self.T[x.prefix] == self.T[u], x in result.states)), u in self.S)' for x in POST if var == '' or 'len(result.states)' not in x] + \
               (['forall("x:S, y:S", implies(x in result.states and y in result.states and x != y, self.T[x.prefix] != self.T[y.prefix]), (x in result.states, y in result.states))'])
        w.contract(O + 'gen_hypothesis', name='gen_hypothesis' + var, params={'self': 'OT', 'no_cex_processing_used': ('const', var != '')}, returns='M', strict=['OT.T'], share=['M.characterization_set'], allocs=['S', 'M'],
                   modifies=['self.S'] if var else [],
                   requires=RD + ['CLOSEDT(self)', '() in self.S', 'len(self.E) > 0'] + ([DIST] if not var else []) + (['forall("a:Tup[val]", implies(a in self.A, a in self.E), a in self.A)'] if not lab else []),
                   locals={'state_distinguish': 'Map[Tup[val],S]', 'states_dict': 'Map[Tup[val],S]', 'initial_state': 'Opt[S]'},
                   ghost={'entry': 'use(insa(self, _, _))', 'after:automaton = ': R('assert forall("x:S", implies(x in automaton.states, exists("i:int", 0 <= i and i < len(self.S) and x == states_dict[self.S[i]], self.S[i])), x in automaton.states)\n'
                                                                             'assert forall("u:Tup[val]", implies(u in self.S, states_dict[u] in automaton.states), states_dict[u])\n'
                                                                             'assert forall("u:Tup[val], a:val", implies(u in self.S and (a,) in self.A, INSA(self, u + (a,)) and state_distinguish[self.T[u + (a,)]] in automaton.states and self.T[state_distinguish[self.T[u + (a,)]].prefix] == self.T[u + (a,)]), self.T[u + (a,)])')},
                   loops={0: Loop(idx='_i', it='_is', inv=Q([x.format(n='_i') for x in MAPS] + ['len(states_dict) == _i', EMPTY.format(lo='0', n='_i'), 'implies(() in self.S[:_i], initial_state is not None and initial_state == states_dict[()])'])),
                          1: Loop(idx='_i', it='_is', inv=Q([x.format(n='len(self.S)') for x in MAPS] + ['len(states_dict) == len(self.S)', EMPTY.format(lo='_i', n='len(self.S)'), DONE.format(n='_i'), 'initial_state is not None and initial_state == states_dict[()]']) + [R(CLS) if not var else CLS.replace('s in self.S', 's in s_set')]),
                          2: Loop(idx='_j', it='_js', inv=Q([x.format(n='len(self.S)') for x in MAPS] + ['len(states_dict) == len(self.S)', EMPTY.format(lo='_i + 1', n='len(self.S)'), DONE.format(n='_i'), PART, 'initial_state is not None and initial_state == states_dict[()]']) + [CLS if not var else CLS.replace('s in self.S', 's in s_set')])},
                   ensures=post)
    w.contract(O + '__init__', name='__init__', params={'self': 'OT', 'alphabet': 'List[val]', 'sul': 'SUL', 'automaton_type': ('const', kind), 'prefixes_in_cell': ('const', False)}, modifies=['self.*'],
               ensures=['self.sul == sul', 'len(self.A) == len(alphabet)', 'forall("i:int", implies(0 <= i and i < len(alphabet), self.A[i] == (alphabet[i],)), self.A[i])', 'LETTERS(self)', 'len(self.S) == 1', 'self.S[0] == ()',
                        'forall("u:Tup[val]", not (u in self.T), u in self.T)', 'CELLS(self)'] +
               (['len(self.E) == 1', 'self.E[0] == ()'] if lab else ['len(self.E) == len(alphabet)', 'forall("i:int", implies(0 <= i and i < len(alphabet), self.E[i] == (alphabet[i],)), self.E[i])']))
    # what the hypothesis answers
    H = [x.replace('self.', 'o.').replace('result', 'm').replace('(self,', '(o,') for x in POST if 'len(result.states)' not in x]
    w.spec("def HOF(o: 'OT', m: 'M') -> 'bool':\n    return " + ' and '.join('(%s)' % x for x in H))
    w.spec("""
def PREC(o: 'OT') -> 'bool':
    return () in o.S and forall("u:Tup[val]", implies(u in o.S and len(u) > 0, INSA(o, u)), u in o.S)
def SUFC(o: 'OT') -> 'bool':
    return forall("u:Tup[val]", implies(u in o.E and len(u) > 0, (u[0],) in o.A and u[0] is not None and (u[1:] in o.E%s)), u in o.E)
def DISTR(o: 'OT') -> 'bool':
    return forall("u:Tup[val], v:Tup[val]", implies(u in o.S and v in o.S and o.T[u] == o.T[v], u == v), (u in o.S, v in o.S))
def INA(o: 'OT') -> 'bool':
    return forall("a:val", implies((a,) in o.A, a is not None), ((a,),))
""" % ('' if lab else ' or len(u) == 1'))
    B = ['HOF(o, m)', 'INA(o)']
    w.lemma('access', 'o:OT, m:M, u:Tup[val]', requires=B + ['PREC(o)', 'DISTR(o)', 'u in o.S'], induct='u', fix=('o', 'm'),
            hints=['if len(u) > 0:\n    assert u[:len(u) - 1] in o.S\n    assert run(m.initial_state, u[:len(u) - 1]) in m.states\n    assert u[len(u) - 1] in run(m.initial_state, u[:len(u) - 1]).transitions\n    assert u[:len(u) - 1] + (u[len(u) - 1],) == u'],
            ensures=['defd(m.initial_state, u)', 'run(m.initial_state, u) in m.states', 'run(m.initial_state, u).prefix == u'])
    RR = B + ['CELLS(o)', 'FULL(o)', 'SUFC(o)', 'LETTERS(o)', 'x in m.states', 'e in o.E', '0 <= i', 'i %s len(e)' % ('<=' if lab else '<')]
    P_, A_, R_ = 'run(x, e[:i - 1])', 'e[i - 1]', 'run(x, e[:i])'
    w.lemma('cell', 'o:OT, u:Tup[val], e:Tup[val]', requires=['CELLS(o)', 'FULL(o)', 'u in o.S or INSA(o, u)', 'e in o.E'],
            ensures=['exists("j:int", 0 <= j and j < len(o.T[u]) and o.E[j] == e and o.T[u][j] == QOUT(o.sul, u + e), o.T[u][j])'], hints=['assert u in o.T and len(o.T[u]) == len(o.E)'])
    w.lemma('samerow', 'o:OT, u:Tup[val], v:Tup[val], e:Tup[val]', requires=['CELLS(o)', 'FULL(o)', 'u in o.S or INSA(o, u)', 'v in o.S or INSA(o, v)', 'o.T[u] == o.T[v]', 'e in o.E'],
            ensures=['QOUT(o.sul, u + e) == QOUT(o.sul, v + e)'], hints=['assert u in o.T and len(o.T[u]) == len(o.E)\nassert v in o.T\nuse(cell(o, u, e))'])
    w.lemma('ahead', 'o:OT, m:M, x:S, e:Tup[val], i:int', requires=RR, induct='i', fix=('o', 'm', 'x', 'e'),
            hints=["if i > 0:\n    g_p = {P}\n    assert g_p in m.states\n    assert e[i - 1:] in o.E\n    assert e[i - 1:][0] == {A}\n    assert e[i - 1:][1:] == e[i:]\n    assert ({A},) in o.A\n    assert {A} in g_p.transitions\n    assert e[:i][:i - 1] == e[:i - 1]\n    assert e[:i][i - 1] == {A}\n"
                   "    assert {R} == nxt(g_p, {A})\n    assert defd(x, e[:i])\n    assert e[i:] in o.E\n    assert INSA(o, g_p.prefix + ({A},))\n    use(samerow(o, g_p.prefix + ({A},), {R}.prefix, e[i:]))\n    assert g_p.prefix + e[i - 1:] == (g_p.prefix + ({A},)) + e[i:]\nelse:\n    assert e[:i] == ()\n    assert e[i:] == e".format(P=P_, A=A_, R=R_)],
            ensures=['e[i:] in o.E', 'defd(x, e[:i])', R_ + ' in m.states', 'QOUT(o.sul, x.prefix + e) == QOUT(o.sul, %s.prefix + e[i:])' % R_])
    fin = 'i == len(e)' if lab else 'i == len(e) - 1'
    hints = 'use(ahead(o, m, x, e, i))\nuse(cell(o, %s.prefix, e[i:]))\n' % R_
    if lab:
        hints += 'assert len(e[i:]) == 0 and e[:i] == e'
    else:
        hints += ('g_r = {R}\ng_a = e[i]\nassert e[i:] == (g_a,)\nassert (g_a,) in o.A\nassert g_a in g_r.transitions and g_a in g_r.output_fun\n'
                  'use(outcell(o, m, g_r, g_a))\nassert g_r.output_fun[g_a] == QOUT(o.sul, g_r.prefix + (g_a,))').format(R=R_)
    if not lab:
        w.lemma('catone', 'q:SUL, u:Tup[val], v:Tup[val], a:val', requires=['v == (a,)'], ensures=['QOUT(q, u + v) == QOUT(q, u + (a,))'], hints=['assert u + v == u + (a,)'])
        w.lemma('outcell', 'o:OT, m:M, x:S, a:val', requires=['HOF(o, m)', 'CELLS(o)', 'FULL(o)', 'x in m.states', '(a,) in o.A'],
                hints=['assert a in x.transitions and a in x.output_fun\nassert x.prefix in o.S\nassert x.prefix in o.T and len(o.T[x.prefix]) == len(o.E)\n'
                       'assert exists("l:int", 0 <= l and l < len(o.E) and o.E[l] == (a,) and x.output_fun[a] == o.T[x.prefix][l] and o.T[x.prefix][l] == QOUT(o.sul, x.prefix + o.E[l]), o.T[x.prefix][l])\n'
                       'use(catone(o.sul, x.prefix, _, a))\nassert exists("v:Tup[val]", v == (a,) and x.output_fun[a] == QOUT(o.sul, x.prefix + v), x.prefix + v)'],
                ensures=['x.output_fun[a] == QOUT(o.sul, x.prefix + (a,))'])
    w.lemma('answers', 'o:OT, m:M, x:S, e:Tup[val], i:int', requires=RR + [fin] + ([] if not lab else ['o.E[0] == ()']), hints=[hints],
            ensures=['run(x, e).%s == QOUT(o.sul, x.prefix + e)' % lab if lab else 'olt(run(x, e[:i]), e[i]) == QOUT(o.sul, x.prefix + e)'])
    return w
