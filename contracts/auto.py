"""Deterministic automata (C03-C07 and their clients): one world per machine kind (dfa, moore, mealy)."""
from pyvc.world import World, Loop

A = 'aalpy/base/Automaton.py'


def nodup(x):
    return 'forall("i:int, j:int", implies(0 <= i and i < j and j < len({0}), {0}[i] != {0}[j]), ({0}[i], {0}[j]))'.format(x)


SRC = {'dfa': ('aalpy/automata/Dfa.py', 'DfaState', 'Dfa'), 'moore': ('aalpy/automata/MooreMachine.py', 'MooreState', 'MooreMachine'),
       'mealy': ('aalpy/automata/MealyMachine.py', 'MealyState', 'MealyMachine')}


def base(name, kind):
    """class declarations, the meaning of a machine, and the contracts of its execution"""
    w = World(name)
    f, sc, mc = SRC[kind]
    lab = {'dfa': 'is_accepting', 'moore': 'output', 'mealy': 'output_fun'}[kind]
    w.kind = kind
    w.lab = lab
    w.cls('S', f + '::' + sc, {'state_id': 'val', 'transitions': 'Map[val,S]', lab: 'Map[val,val]' if kind == 'mealy' else 'val', 'prefix': 'Opt[Tup[val]]'})
    w.cls('M', f + '::' + mc, {'initial_state': 'S', 'states': 'List[S]', 'current_state': 'S', 'characterization_set': 'List[Tup[val]]'})
    if kind == 'mealy':
        w.spec('''
def dfd(s: 'S', a: 'val') -> 'bool':
    return a in s.transitions and a in s.output_fun
def nxt(s: 'S', a: 'val') -> 'S':
    return s.transitions[a]
def olt(s: 'S', a: 'val') -> 'val':
    return s.output_fun[a]
''')
    else:
        w.spec('''
def dfd(s: 'S', a: 'val') -> 'bool':
    return a is None or a in s.transitions
def nxt(s: 'S', a: 'val') -> 'S':
    return ite(a is None, s, s.transitions[a])
def olt(s: 'S', a: 'val') -> 'val':
    return nxt(s, a).%s
''' % lab)
    w.spec('''
def run(s: 'S', u: 'Seq[val]') -> 'S':
    return ite(len(u) == 0, s, nxt(run(s, u[:len(u) - 1]), u[len(u) - 1]))
''', reads=['S.transitions'])
    w.spec('''
def defd(s: 'S', u: 'Seq[val]') -> 'bool':
    return ite(len(u) == 0, True, defd(s, u[:len(u) - 1]) and dfd(run(s, u[:len(u) - 1]), u[len(u) - 1]))
''', reads=['S.transitions'] + (['S.output_fun'] if kind == 'mealy' else []))
    w.spec('''
def ANS(s: 'S', u: 'Seq[val]', i: 'int') -> 'val':
    return olt(run(s, u[:i]), u[i])
''')
    st = 'self.current_state'
    w.contract('%s::%s.step' % (f, mc), name='step', params={'self': 'M', 'letter': 'val'}, returns='val', modifies=[st],
               ensures=['dfd(old(%s), letter)' % st, '%s == nxt(old(%s), letter)' % (st, st), 'result == olt(old(%s), letter)' % st],
               raises={'KeyError': ['not dfd(old(%s), letter)' % st, '%s == old(%s)' % (st, st)]})
    w.contract(A + '::Automaton.reset_to_initial', name='reset_to_initial', params={'self': 'M'}, modifies=[st], ensures=['%s == self.initial_state' % st])
    w.contract(A + '::Automaton.execute_sequence', name='execute_sequence', params={'self': 'M', 'origin_state': 'S', 'seq': 'Tup[val]'}, returns='List[val]', modifies=[st],
               loops={'comp0': Loop(inv=['%s == run(origin_state, seq[:_k])' % st, 'defd(origin_state, seq[:_k])', 'len(_acc) == _k',
                                         'forall("i:int", implies(0 <= i and i < _k, _acc[i] == ANS(origin_state, seq, i)), _acc[i])'], locals={'_acc': 'List[val]'})},
               ensures=['%s == run(origin_state, seq)' % st, 'defd(origin_state, seq)', 'len(result) == len(seq)',
                        'forall("i:int", implies(0 <= i and i < len(seq), result[i] == ANS(origin_state, seq, i)), result[i])'],
               raises={'KeyError': ['exists("i:int", 0 <= i and i < len(seq) and not dfd(run(origin_state, seq[:i]), seq[i]), seq[i])']})
    w.contract(A + '::DeterministicAutomaton.output_step', name='output_step', params={'self': 'M', 'state': 'S', 'letter': 'val'}, returns='val', modifies=[st],
               ensures=['dfd(state, letter)', 'result == olt(state, letter)', '%s == old(%s)' % (st, st)], raises={'KeyError': ['not dfd(state, letter)']})
    COS = dict(params={'self': 'M', 'state': 'S', 'sequence': 'Tup[val]'}, returns='List[val]', modifies=[st])
    seq_ens = ['defd(state, sequence)', '%s == old(%s)' % (st, st), 'implies(len(sequence) > 0, len(result) == len(sequence))',
               'forall("i:int", implies(0 <= i and i < len(sequence), result[i] == ANS(state, sequence, i)), result[i])']
    exc = {'KeyError': ['exists("i:int", 0 <= i and i < len(sequence) and not dfd(run(state, sequence[:i]), sequence[i]), sequence[i])']}
    w.contract(A + '::DeterministicAutomaton.compute_output_seq', name='base.compute_output_seq', **COS, ensures=seq_ens + ['len(result) == len(sequence)'], raises=exc)
    if kind != 'mealy':
        w.contract('%s::%s.compute_output_seq' % (f, mc), name='compute_output_seq', **COS,
                   ensures=seq_ens + ['implies(len(sequence) == 0, len(result) == 1 and result[0] == state.%s)' % lab], raises=exc)
    # ---- the same machine wrapped as a system under learning
    w.cls('ASUL', 'aalpy/SULs/AutomataSUL.py::AutomatonSUL', {'automaton': 'M', 'num_queries': 'int', 'num_steps': 'int', 'num_cached_queries': 'int'})
    U = 'aalpy/SULs/AutomataSUL.py::AutomatonSUL.'
    cur = 'self.automaton.current_state'
    w.contract('aalpy/base/SUL.py::SUL.__init__', name='SUL.__init__', params={'self': 'ASUL'}, recv='ASUL', modifies=['self.num_queries', 'self.num_steps', 'self.num_cached_queries'],
               ensures=['self.num_queries == 0', 'self.num_steps == 0'])
    w.contract(U + '__init__', name='ASUL.__init__', params={'self': 'ASUL', 'automaton': 'M'}, modifies=['self.*'],
               ensures=['self.automaton == automaton', 'self.num_queries == 0', 'self.num_steps == 0'])
    w.contract(U + 'pre', name='ASUL.pre', params={'self': 'ASUL'}, modifies=[cur], ensures=[cur + ' == self.automaton.initial_state'])
    w.contract(U + 'post', name='ASUL.post', params={'self': 'ASUL'})
    w.contract(U + 'step', name='ASUL.step', params={'self': 'ASUL', 'letter': 'val'}, returns='val', modifies=[cur],
               ensures=['dfd(old(%s), letter)' % cur, '%s == nxt(old(%s), letter)' % (cur, cur), 'result == olt(old(%s), letter)' % cur],
               raises={'KeyError': ['not dfd(old(%s), letter)' % cur]})
    ini = 'self.automaton.initial_state'
    w.contract('aalpy/base/SUL.py::SUL.query', name='ASUL.query', params={'self': 'ASUL', 'word': 'Tup[val]'}, returns='List[val]', recv='ASUL',
               modifies=[cur, 'self.num_queries', 'self.num_steps'],
               loops={'comp0': Loop(inv=['%s == run(%s, word[:_k])' % (cur, ini), 'defd(%s, word[:_k])' % ini, 'len(_acc) == _k',
                                         'forall("i:int", implies(0 <= i and i < _k, _acc[i] == ANS(%s, word, i)), _acc[i])' % ini], locals={'_acc': 'List[val]'})},
               ensures=['len(result) == ite(len(word) == 0, 1, len(word))', 'forall("i:int", implies(0 <= i and i < len(word), result[i] == ANS(%s, word, i)), result[i])' % ini,
                        'implies(len(word) == 0, result[0] == olt(%s, None))' % ini, '%s == run(%s, word)' % (cur, ini) if kind != 'mealy' else 'implies(len(word) > 0, %s == run(%s, word))' % (cur, ini),
                        'self.num_queries == old(self.num_queries) + 1', 'self.num_steps == old(self.num_steps) + len(word)'],
               raises={'KeyError': ['exists("i:int", 0 <= i and i < len(word) and not dfd(run(%s, word[:i]), word[i]), word[i]) or (len(word) == 0 and not dfd(%s, None))' % (ini, ini)]})
    return w


def disting(w, kind):
    """C04: distinguishing sequences"""
    w.spec('''
def over(u: 'Seq[val]', al: 'Seq[val]') -> 'bool':
    return forall("i:int", implies(0 <= i and i < len(u), u[i] in al), u[i])
def COMPLETE(m: 'M', al: 'Seq[val]') -> 'bool':
    return forall("a:val", implies(a in al, a is not None), a in al) and forall("s:S, a:val", implies(s in m.states and a in al, dfd(s, a) and a in s.transitions and s.transitions[a] in m.states), (s in m.states, s.transitions[a]), (s in m.states, a in s.transitions)%s)
def BISIM(V: 'Set[Tuple[S,S]]', al: 'Seq[val]') -> 'bool':
    return forall("x:S, y:S, a:val", implies((x, y) in V and a in al, a is not None and olt(x, a) == olt(y, a) and (nxt(x, a), nxt(y, a)) in V), ((x, y) in V, x.transitions[a])%s)
''' % ((', (s in m.states, s.output_fun[a])', ', ((x, y) in V, x.output_fun[a])') if kind == 'mealy' else ('', '')))
    w.spec('''
def SAME(s: 'S', t: 'S', u: 'Seq[val]') -> 'bool':
    return ite(len(u) == 0, True, SAME(s, t, u[:len(u) - 1]) and olt(run(s, u[:len(u) - 1]), u[len(u) - 1]) == olt(run(t, u[:len(u) - 1]), u[len(u) - 1]))
''', reads=['S.transitions', 'S.' + w.lab])
    w.lemma('same_at', 's:S, t:S, u:Seq[val], i:int', requires=['SAME(s, t, u)', '0 <= i', 'i < len(u)'], ensures=['ANS(s, u, i) == ANS(t, u, i)'], induct='u', fix=('s', 't'), trigger=['run(s, u[:i])', 'run(t, u[:i])'])
    w.lemma('bisim_run', 'V:Set[Tuple[S,S]], al:List[val], s:S, t:S, u:Seq[val]',
            requires=['BISIM(V, al)', '(s, t) in V', 'over(u, al)'], ensures=['(run(s, u), run(t, u)) in V'], induct='u', fix=('V', 'al', 's', 't'))
    w.lemma('bisim_same', 'V:Set[Tuple[S,S]], al:List[val], s:S, t:S, u:Seq[val]', requires=['BISIM(V, al)', '(s, t) in V', 'over(u, al)'],
            ensures=['SAME(s, t, u)'], trigger=['run(s, u)'], induct='u', fix=('V', 'al', 's', 't'), hints=['if len(u) > 0:\n    bisim_run(V, al, s, t, u[:len(u) - 1])'])
    pend = 'exists("j:int", 0 <= j and j < len(to_explore) and to_explore[j][0] == %s and to_explore[j][1] == %s, to_explore[j])'
    QOK = ('forall("j:int", implies(0 <= j and j < len(to_explore), to_explore[j][0] in self.states and to_explore[j][1] in self.states and '
           'to_explore[j][0] == run(state1, to_explore[j][2]) and to_explore[j][1] == run(state2, to_explore[j][2]) and '
           'over(to_explore[j][2], alphabet) and SAME(state1, state2, to_explore[j][2])), to_explore[j])')
    CL = ('forall("x:S, y:S, a:val", implies((x, y) in visited and a in alphabet and not (%s), olt(x, a) == olt(y, a) and '
          '((nxt(x, a), nxt(y, a)) in visited or ' + pend % ('nxt(x, a)', 'nxt(y, a)') + ')), ((x, y) in visited, x.transitions[a])%s)') % ('%s', ', ((x, y) in visited, x.output_fun[a])' if kind == 'mealy' else '')
    START = '(state1, state2) in visited or ' + pend % ('state1', 'state2')
    KEPT = 'self.current_state == old(self.current_state)'
    w.contract(A + '::DeterministicAutomaton.find_distinguishing_seq', name='find_distinguishing_seq', params={'self': 'M', 'state1': 'S', 'state2': 'S', 'alphabet': 'List[val]'},
               returns='Opt[List[val]]', requires=['COMPLETE(self, alphabet)', 'state1 in self.states', 'state2 in self.states'], modifies=['self.current_state'],
               locals={'visited': 'Set[Tuple[S,S]]', 'to_explore': 'List[Tuple[S,S,List[val]]]', 'prefix': 'List[val]', 'new_prefix': 'List[val]'},
               loops={0: Loop(inv=[QOK, CL % 'False', KEPT, START]),
                      1: Loop(inv=[QOK, CL % 'x == curr_s1 and y == curr_s2 and not (a in alphabet[:_k])', KEPT, START, '(curr_s1, curr_s2) in visited',
                                   'curr_s1 in self.states', 'curr_s2 in self.states', 'curr_s1 == run(state1, prefix)', 'curr_s2 == run(state2, prefix)', 'over(prefix, alphabet)', 'SAME(state1, state2, prefix)'])},
               ghost={'exit': 'if result is None:\n    assert BISIM(visited, alphabet)\n    use(bisim_same(visited, alphabet, state1, state2, _))',
                      'loop1.end': 'assert (nxt(curr_s1, i), nxt(curr_s2, i)) in visited or ' + pend % ('nxt(curr_s1, i)', 'nxt(curr_s2, i)') + '\nassert olt(curr_s1, i) == olt(curr_s2, i)\nassert forall("a:val", iff(a in alphabet[:_k + 1], a in alphabet[:_k] or a == i), a in alphabet[:_k + 1])',
                      'before:to_explore.append': 'assert over(new_prefix, alphabet)\nassert next_s1 == run(state1, new_prefix)\nassert next_s2 == run(state2, new_prefix)\nassert SAME(state1, state2, new_prefix)'},
               ensures=['implies(result is None, forall("u:Seq[val]", implies(over(u, alphabet), SAME(state1, state2, u)), (run(state1, u), run(state2, u)), SAME(state1, state2, u)))',
                        'implies(result is not None, len(result) > 0 and over(result, alphabet) and ANS(state1, result, len(result) - 1) != ANS(state2, result, len(result) - 1))',
                        'implies(result is not None, SAME(state1, state2, result[:len(result) - 1]))', KEPT])


def alph(w):
    """input alphabets and completeness, of every kind of machine"""
    w.spec("""
def INALPH(m: 'M', a: 'val') -> 'bool':
    return exists("s:S", s in m.states and a in s.transitions, s in m.states)
""")
    w.contract(A + '::Automaton.get_input_alphabet', name='get_input_alphabet', params={'self': 'M'}, returns='List[val]', fresh_result=True,
               loops={0: Loop(inv=['forall("a:val", iff(a in alphabet, exists("j:int", 0 <= j and j < _ks and a in self.states[j].transitions, self.states[j])), a in alphabet)', nodup('alphabet')], locals={'alphabet': 'List[val]'}, idx='_ks', it='_its'),
                      1: Loop(inv=['forall("a:val", iff(a in alphabet, exists("j:int", 0 <= j and j < _ks and a in self.states[j].transitions, self.states[j]) or a in _it[:_k]), a in alphabet)', nodup('alphabet')])},
               ensures=['forall("a:val", iff(a in result, INALPH(self, a)), a in result)', nodup('result')])
    w.contract(A + '::Automaton.is_input_complete', name='is_input_complete', params={'self': 'M'}, returns='bool',
               loops={0: Loop(inv=['forall("j:int, a:val", implies(0 <= j and j < _k, iff(a in self.states[j].transitions, INALPH(self, a))), a in self.states[j].transitions)'])},
               ensures=['iff(result, forall("s:S, a:val", implies(s in self.states and INALPH(self, a), a in s.transitions), (s in self.states, a in s.transitions)))'])


def paths(w, kind):
    """C05: reachability in the transition graph"""
    w.spec('''
def go(s: 'S', u: 'Seq[val]') -> 'S':
    return ite(len(u) == 0, s, go(s, u[:len(u) - 1]).transitions[u[len(u) - 1]])
''', reads=['S.transitions'])
    w.spec('''
def god(s: 'S', u: 'Seq[val]') -> 'bool':
    return ite(len(u) == 0, True, god(s, u[:len(u) - 1]) and u[len(u) - 1] in go(s, u[:len(u) - 1]).transitions)
''', reads=['S.transitions'])
    w.spec('''
def edge(s: 'S', t: 'S') -> 'bool':
    return exists("a:val", a in s.transitions and s.transitions[a] == t, s.transitions[a])
def ENDAT(q: 'List[List[S]]', x: 'S') -> 'bool':
    return exists("j:int", 0 <= j and j < len(q) and q[j][len(q[j]) - 1] == x, q[j])
def NBR(ex: 'List[S]', q: 'List[List[S]]', t: 'S') -> 'bool':
    return forall("x:S, a:val", implies(x in ex and a in x.transitions, x.transitions[a] != t and (x.transitions[a] in ex or ENDAT(q, x.transitions[a]))), (x in ex, x.transitions[a]), (x in ex, a in x.transitions))
def SEEN(ex: 'List[S]', q: 'List[List[S]]', x: 'S', n: 'int') -> 'bool':
    return x in ex or exists("j:int", 0 <= j and j < len(q) and q[j][len(q[j]) - 1] == x and len(q[j]) <= n + 1, q[j])
def LEVEL(ex: 'List[S]', q: 'List[List[S]]', o: 'S', t: 'S', K: 'int') -> 'bool':
    return forall("v:Seq[val]", implies(god(o, v) and len(v) <= K, go(o, v) != t and SEEN(ex, q, go(o, v), len(v))), go(o, v))
''')
    w.spec('''
def PATH(p: 'List[S]') -> 'bool':
    return forall("i:int", implies(1 <= i and i < len(p), edge(p[i - 1], p[i])), p[i])
''', reads=['S.transitions'], opaque=True)
    w.lemma('path_snoc', 'p:List[S], x:S', requires=['len(p) > 0', 'PATH(p)', 'edge(p[len(p) - 1], x)'], ensures=['PATH(p + [x])'], hints=['reveal(PATH(p), PATH(p + [x]))'])
    w.lemma('bfs_level', 'ex:List[S], q:List[List[S]], o:S, t:S, K:int, v:Seq[val]', trigger=['go(o, v)'],
            requires=['NBR(ex, q, t)', 'LEVEL(ex, q, o, t, K)', 'K >= 0', 'forall("j:int", implies(0 <= j and j < len(q), len(q[j]) == K + 2), q[j])', 'god(o, v)', 'len(v) <= K + 1'],
            ensures=['go(o, v) != t', 'SEEN(ex, q, go(o, v), len(v))'],
            hints=['if len(v) > 0:\n    assert god(o, v[:len(v) - 1])\n    assert go(o, v[:len(v) - 1]) in ex'])
    w.lemma('bfs_closed', 'ex:List[S], o:S, t:S, v:Seq[val]', trigger=['go(o, v)'], requires=['NBR(ex, [], t)', 'o in ex', 'o != t', 'god(o, v)'], ensures=['go(o, v) in ex', 'go(o, v) != t'],
            induct='v', fix=('ex', 'o', 't'), hints=['if len(v) > 0:\n    assert god(o, v[:len(v) - 1])\n    assert go(o, v[:len(v) - 1]) in ex'])
    QL = 'forall("j:int", implies(0 <= j and j < len(queue), len(queue[j]) >= g_K + 1 and len(queue[j]) <= g_K + 2), queue[j])'
    Q0 = ('forall("j:int", implies(0 <= j and j < len(queue), len(queue[j]) > 0 and queue[j][0] == origin_state '
          'and PATH(queue[j]) and queue[j][len(queue[j]) - 1] != target_state), queue[j])')
    SORT = 'forall("i:int, j:int", implies(0 <= i and i <= j and j < len(queue), len(queue[i]) <= len(queue[j])), (queue[i], queue[j]))'
    NBR1 = ('forall("x:S, a:val", implies(x in explored and a in x.transitions, x.transitions[a] != target_state and (x.transitions[a] in explored or x.transitions[a] == node or '
            'ENDAT(queue, x.transitions[a]))), (x in explored, x.transitions[a]), (x in explored, a in x.transitions))')
    LEV1 = 'forall("v:Seq[val]", implies(god(origin_state, v) and len(v) <= g_K, go(origin_state, v) != target_state and (go(origin_state, v) == node or SEEN(explored, queue, go(origin_state, v), len(v)))), go(origin_state, v))'
    w.contract(A + '::DeterministicAutomaton.get_shortest_path', name='get_shortest_path', params={'self': 'M', 'origin_state': 'S', 'target_state': 'S'}, returns='Opt[Tup[val]]',
               locals={'queue': 'List[List[S]]', 'explored': 'List[S]', 'inputs': 'List[val]'},
               loops={0: Loop(inv=['g_K >= 0', QL, Q0, SORT, 'NBR(explored, queue, target_state)', 'LEVEL(explored, queue, origin_state, target_state, g_K)',
                                   'origin_state in explored or ENDAT(queue, origin_state)']),
                      1: Loop(inv=[QL, Q0, SORT, 'PATH(path)', 'path[0] == origin_state', 'len(path) == g_K + 1', 'path[len(path) - 1] == node', NBR1, LEV1, 'origin_state in explored or origin_state == node or ENDAT(queue, origin_state)',
                                   'forall("i:int", implies(0 <= i and i < _k, _it[i] != target_state and ENDAT(queue, _it[i])), _it[i])']),
                      2: Loop(inv=['len(inputs) == _k', 'god(origin_state, inputs)', 'go(origin_state, inputs) == new_path[_k]'])},
               ghost={'entry': 'g_K = 0\nreveal(PATH([origin_state]))', 'before:queue.append': 'assert edge(node, neighbour)\npath_snoc(path, neighbour)\nassert PATH(new_path)\nassert new_path[0] == origin_state\nassert new_path[len(new_path) - 1] == neighbour', 'before:acc_seq = ': 'reveal(PATH(new_path))',
                      'loop0.start': 'if len(queue[0]) == g_K + 2:\n    use(bfs_level(explored, queue, origin_state, target_state, g_K, _))\n    g_K = g_K + 1\nassert len(queue[0]) == g_K + 1',
                      'exit': 'if bound(explored):\n    if result is None and origin_state in self.states and target_state in self.states:\n        assert NBR(explored, [], target_state)\n        use(bfs_closed(explored, origin_state, target_state, _))'},
               ensures=['implies(result is None, not (origin_state in self.states) or not (target_state in self.states) or forall("v:Seq[val]", implies(god(origin_state, v), go(origin_state, v) != target_state), go(origin_state, v)))',
                        'implies(result is not None, god(origin_state, result) and go(origin_state, result) == target_state)',
                        'implies(result is not None, forall("v:Seq[val]", implies(god(origin_state, v) and go(origin_state, v) == target_state, len(result) <= len(v)), go(origin_state, v)))'])
    w.spec('''
def reach(s: 'S', t: 'S') -> 'bool':
    return exists("v:Seq[val]", god(s, v) and go(s, v) == t, go(s, v))
''')
    alph(w)
    w.contract(A + '::DeterministicAutomaton.is_strongly_connected', name='is_strongly_connected', params={'self': 'M'}, returns='bool',
               loops={0: Loop(inv=['forall("j:int", implies(0 <= j and j < _k, reach(_it[j][0], _it[j][1])), _it[j])'])},
               requires=[nodup('self.states')],
               ghost={'exit': 'if result:\n    assert forall("s:S", god(s, []) and go(s, []) == s and reach(s, s), s in self.states)\n    assert forall("i:int, j:int", implies(0 <= i and i < len(self.states) and 0 <= j and j < len(self.states) and i != j, reach(self.states[i], self.states[j])), (self.states[i], self.states[j]))'},
               ensures=['iff(result, forall("s:S, t:S", implies(s in self.states and t in self.states, reach(s, t)), (s in self.states, t in self.states)))'])
    w.contract(A + '::Automaton.get_state_by_id', name='get_state_by_id', params={'self': 'M', 'state_id': 'val'}, returns='Opt[S]',
               loops={0: Loop(inv=['forall("j:int", implies(0 <= j and j < _k, self.states[j].state_id != state_id), self.states[j])'])},
               ensures=['implies(result is not None, result in self.states and result.state_id == state_id)',
                        'implies(result is None, forall("s:S", implies(s in self.states, s.state_id != state_id), s in self.states))'])
    w.contract(A + '::Automaton.size', name='size', params={'self': 'M'}, returns='int', ensures=['result == len(self.states)'])
    ISET, IEMP = 'old(self.initial_state.prefix is None or len(self.initial_state.prefix) == 0)', 'self.initial_state.prefix is not None and len(self.initial_state.prefix) == 0'
    LEADS = 'god(self.initial_state, {0}) and go(self.initial_state, {0}) == {1}'
    w.contract(A + '::DeterministicAutomaton.compute_prefixes', name='compute_prefixes', params={'self': 'M'}, modifies=['S.prefix'],
               requires=['forall("s:S", implies(s in self.states and s.prefix is not None and len(s.prefix) > 0, %s), s in self.states)' % LEADS.format('s.prefix', 's'),
                         'self.initial_state in self.states'],
               loops={0: Loop(inv=['forall("j:int", implies(0 <= j and j < _k and self.states[j].prefix is not None, %s), self.states[j])' % LEADS.format('self.states[j].prefix', 'self.states[j]'),
                                   'forall("j:int", implies(0 <= j and j < _k and self.states[j].prefix is None, not reach(self.initial_state, self.states[j])), self.states[j])',
                                   'forall("s:S", implies(s in self.states and s.prefix is not None and len(s.prefix) > 0, %s), s in self.states)' % LEADS.format('s.prefix', 's'),
                                   'forall("s:S", implies(old(s.prefix is not None and len(s.prefix) > 0), s.prefix == old(s.prefix)), s.prefix)',
                                   'forall("j:int", implies(0 <= j and j < _k and self.states[j] == self.initial_state and %s, %s), self.states[j])' % (ISET, IEMP),
                                   'implies(%s, self.initial_state.prefix is None or len(self.initial_state.prefix) == 0)' % ISET])},
               ghost={'loop0.start': 'assert god(self.initial_state, []) and go(self.initial_state, []) == self.initial_state'},
               ensures=['forall("s:S", implies(s in self.states and s.prefix is not None, %s), s in self.states)' % LEADS.format('s.prefix', 's'),
                        'forall("s:S", implies(s in self.states and s.prefix is None, not reach(self.initial_state, s)), s in self.states)',
                        'forall("s:S", implies(old(s.prefix is not None and len(s.prefix) > 0), s.prefix == old(s.prefix)), s.prefix)', 'implies(%s, %s)' % (ISET, IEMP)])
    w.contract(A + '::AutomatonState.get_diff_state_transitions', name='get_diff_state_transitions', params={'self': 'S'}, returns='List[val]', recv='S', fresh_result=True,
               loops={0: Loop(inv=['forall("a:val", implies(a in transitions, a in self.transitions and self.transitions[a] != self), a in transitions)',
                                   'forall("j:int", implies(0 <= j and j < _k and self.transitions[_it[j]] != self, _it[j] in transitions), _it[j])'], locals={'transitions': 'List[val]'})},
               ensures=['forall("a:val", iff(a in result, a in self.transitions and self.transitions[a] != self), a in result)'])
    w.contract(A + '::AutomatonState.get_same_state_transitions', name='get_same_state_transitions', params={'self': 'S'}, returns='List[val]', recv='S',
               ensures=['forall("a:val", iff(a in result, a in self.transitions and self.transitions[a] == self), a in result)'])


def compare(w, kind):
    """C07: bisimilarity"""
    lab = 's.%s == t.%s' % (w.lab, w.lab)
    out = 'go(s, u).output_fun[a] == go(t, u).output_fun[a]'
    w.spec("""
def EQ0(s: 'S', t: 'S') -> 'bool':
    return %s
def EQA(s: 'S', t: 'S', a: 'val') -> 'bool':
    return iff(a in s.transitions, a in t.transitions)%s
""" % ((lab, '') if kind != 'mealy' else ('True', ' and implies(a in s.transitions, s.output_fun[a] == t.output_fun[a])')))
    w.spec("""
def AGREE(s: 'S', t: 'S', u: 'Seq[val]') -> 'bool':
    return ite(len(u) == 0, EQ0(s, t), AGREE(s, t, u[:len(u) - 1]) and implies(god(s, u[:len(u) - 1]) and god(t, u[:len(u) - 1]),
           EQA(go(s, u[:len(u) - 1]), go(t, u[:len(u) - 1]), u[len(u) - 1]) and implies(god(s, u) and god(t, u), EQ0(go(s, u), go(t, u)))))
""", reads=['S.transitions', 'S.' + w.lab])
    w.spec("""
def CLOSED(R: 'Set[Tuple[S,S]]') -> 'bool':
    return forall("x:S, y:S", implies((x, y) in R, EQ0(x, y)), (x, y) in R) and forall("x:S, y:S, a:val", implies((x, y) in R, EQA(x, y, a) and implies(a in x.transitions, (x.transitions[a], y.transitions[a]) in R)), ((x, y) in R, a in x.transitions), ((x, y) in R, a in y.transitions))
""")
    w.lemma('closed_go', 'R:Set[Tuple[S,S]], s:S, t:S, u:Seq[val]', requires=['CLOSED(R)', '(s, t) in R'], ensures=['iff(god(s, u), god(t, u))', 'implies(god(s, u), (go(s, u), go(t, u)) in R)', 'AGREE(s, t, u)'],
            induct='u', fix=('R', 's', 't'), trigger=['AGREE(s, t, u)'])
    w.lemma('agree_prefix', 's:S, t:S, u:Seq[val], a:val', requires=['AGREE(s, t, u + [a])'], ensures=['AGREE(s, t, u)'])
    WF = 'forall("s:S, a:val", implies(a in s.transitions, a in s.output_fun), a in s.transitions)'
    R = 'dom(requirements)'
    INI = 'a1.initial_state, a2.initial_state'
    REQ = ('forall("x:S, y:S", implies((x, y) in requirements, god(a1.initial_state, requirements[(x, y)]) and god(a2.initial_state, requirements[(x, y)]) and '
           'go(a1.initial_state, requirements[(x, y)]) == x and go(a2.initial_state, requirements[(x, y)]) == y), (x, y) in requirements)')
    DONE = ('forall("x:S, y:S", implies((x, y) in requirements and not ((x, y) in to_check)%s, EQ0(x, y)), (x, y) in requirements)')
    DONE2 = ('forall("x:S, y:S, a:val", implies((x, y) in requirements and not ((x, y) in to_check)%s, EQA(x, y, a) and implies(a in x.transitions, (x.transitions[a], y.transitions[a]) in requirements)), ((x, y) in requirements, a in x.transitions), ((x, y) in requirements, a in y.transitions))')
    cur = ' and not (x == s1 and y == s2)'
    inv0 = [REQ, '(a1.initial_state, a2.initial_state) in requirements', 'forall("x:S, y:S", implies((x, y) in to_check, (x, y) in requirements), (x, y) in to_check)']
    CURR = ['(s1, s2) in requirements', 'EQ0(s1, s2)']
    for nm, rc in (('bisimilar', 'return_cex'), ('bisimilar_bool', 'not return_cex')):
        w.contract('aalpy/utils/ModelChecking.py::bisimilar', name=nm, params={'a1': 'M', 'a2': 'M', 'return_cex': 'bool'}, returns='Opt[List[val]]' if nm == 'bisimilar' else 'bool', requires=[rc, 'a1 is not a2'] + [WF] * (kind == 'mealy'),
               locals={'to_check': 'List[Tuple[S,S]]', 'requirements': 'Map[Tuple[S,S],List[val]]'},
               loops={0: Loop(inv=inv0 + [DONE % '', DONE2 % '']),
                      1: Loop(inv=['forall("j:int", implies(0 <= j and j < _k, EQA(s1, s2, _it[j])), _it[j])']),
                      2: Loop(inv=inv0 + CURR + ['forall("a:val", EQA(s1, s2, a), a in s1.transitions, a in s2.transitions)', DONE % cur, DONE2 % cur, 'forall("j:int", implies(0 <= j and j < _k, (s1.transitions[_it[j]], s2.transitions[_it[j]]) in requirements), _it[j])'])},
               ghost={'exit': 'if result%s:\n    assert CLOSED(%s)\n    use(closed_go(%s, a1.initial_state, a2.initial_state, _))' % (' is None' if nm == 'bisimilar' else '', R, R) +
                      ('' if nm == 'bisimilar' else '\nif not result:\n    if bound(t):\n        assert not AGREE(a1.initial_state, a2.initial_state, requirements[(s1, s2)]) or not AGREE(a1.initial_state, a2.initial_state, requirements[(s1, s2)] + [t])'
                       '\n    else:\n        if bound(s1):\n            assert not AGREE(a1.initial_state, a2.initial_state, requirements[(s1, s2)])')},
               ensures=['implies(result is None, forall("u:Seq[val]", AGREE(a1.initial_state, a2.initial_state, u), AGREE(a1.initial_state, a2.initial_state, u)))',
                        'implies(result is not None, not AGREE(a1.initial_state, a2.initial_state, result))'] if nm == 'bisimilar' else
                       ['iff(result, forall("u:Seq[val]", AGREE(a1.initial_state, a2.initial_state, u), AGREE(a1.initial_state, a2.initial_state, u)))'])


def charset(w, kind):
    """C06: characterization sets and minimization"""
    w.spec("""
def EQO(s: 'S', t: 'S', q: 'Tup[val]') -> 'bool':
    return ite(len(q) == 0, EQ0(s, t), SAME(s, t, q))
def INB(bs: 'List[List[S]]', x: 'S') -> 'bool':
    return exists("p:int", 0 <= p and p < len(bs) and x in bs[p], bs[p])
def APART(bs: 'List[List[S]]', x: 'S', y: 'S') -> 'bool':
    return exists("p:int, q:int", 0 <= p and p < len(bs) and 0 <= q and q < len(bs) and p != q and x in bs[p] and y in bs[q], (x in bs[p], y in bs[q]))
def BOK(bs: 'List[List[S]]') -> 'bool':
    return forall("p:int, i:int, j:int", implies(0 <= p and p < len(bs) and 0 <= i and i < j and j < len(bs[p]), bs[p][i] != bs[p][j]), (bs[p][i], bs[p][j]))
def BDEF(bs: 'List[List[S]]', q: 'Tup[val]') -> 'bool':
    return forall("x:S, p:int", implies(0 <= p and p < len(bs) and x in bs[p], defd(x, q)), x in bs[p])
""")
    w.spec("""
def ISOUT(o: 'Tup[val]', s: 'S', q: 'Tup[val]') -> 'bool':
    return implies(len(q) > 0, len(o) == len(q)) and forall("i:int", implies(0 <= i and i < len(q), o[i] == ANS(s, q, i)), o[i])%s
""" % (' and len(o) == len(q)' if kind == 'mealy' else ' and implies(len(q) == 0, len(o) == 1 and o[0] == s.%s)' % w.lab), opaque=True, reads=['S.transitions', 'S.' + w.lab])
    w.lemma('isout_eq', 'o:Tup[val], p:Tup[val], s:S, t:S, q:Tup[val]', requires=['ISOUT(o, s, q)', 'ISOUT(p, t, q)', 'EQO(s, t, q)'], ensures=['o == p'], trigger=[('ISOUT(o, s, q)', 'ISOUT(p, t, q)')], hints=['use(same_at(s, t, q, _))\nreveal(ISOUT(o, s, q), ISOUT(p, t, q))'])
    w.lemma('defd_at', 's:S, q:Seq[val], i:int', requires=['defd(s, q)', '0 <= i', 'i < len(q)'], ensures=['dfd(run(s, q[:i]), q[i])'], induct='q', fix=('s',), trigger=['run(s, q[:i])'])
    SPL = 'aalpy/base/Automaton.py::DeterministicAutomaton._split_blocks'
    G = 'block_after_split'
    NB = ['forall("j:int, x:S", implies(0 <= j and j < len(new_blocks) and x in new_blocks[j], exists("p:int", 0 <= p and p < %s and x in blocks[p], x in blocks[p])), x in new_blocks[j])',
          'forall("p:int, x:S", implies(0 <= p and p < %s and x in blocks[p], INB(new_blocks, x)), x in blocks[p])']
    SEP = 'forall("i:int, j:int, x:S, y:S", implies(0 <= i and i < len(new_blocks) and 0 <= j and j < len(new_blocks) and i != j and x in new_blocks[i] and y in new_blocks[j], not EQO(x, y, seq) or APART(blocks, x, y)), (x in new_blocks[i], y in new_blocks[j]))'
    w.lemma('same_from', 's:S, t:S, u:Seq[val]', requires=['forall("i:int", implies(0 <= i and i < len(u), ANS(s, u, i) == ANS(t, u, i)), run(s, u[:i]), run(t, u[:i]))'], ensures=['SAME(s, t, u)'], induct='u', fix=('s', 't'))
    w.lemma('isout_join', 'o:Tup[val], s:S, t:S, q:Tup[val]', requires=['ISOUT(o, s, q)', 'ISOUT(o, t, q)'], ensures=['EQO(s, t, q)'], trigger=[('ISOUT(o, s, q)', 'ISOUT(o, t, q)')], hints=['reveal(ISOUT(o, s, q), ISOUT(o, t, q))\nif len(q) > 0:\n    assert forall("i:int", implies(0 <= i and i < len(q), ANS(s, q, i) == o[i] and ANS(t, q, i) == o[i]), run(s, q[:i]), run(t, q[:i]))\n    same_from(s, t, q)'])
    JOIN = 'forall("j:int, x:S, y:S", implies(0 <= j and j < len({0}) and x in {0}[j] and y in {0}[j], {1}), (x in {0}[j], y in {0}[j]))'
    JN = JOIN.format('new_blocks', '(EQO(x, y, seq) and exists("p:int", 0 <= p and p < %s and x in blocks[p] and y in blocks[p], (x in blocks[p], y in blocks[p])))')
    w.contract(SPL, name='_split_blocks', params={'self': 'M', 'blocks': 'List[List[S]]', 'seq': 'Tup[val]'}, returns='List[List[S]]', modifies=['self.current_state'], fresh_result=True,
               requires=['BOK(blocks)', 'BDEF(blocks, seq)'],
               locals={'new_blocks': 'List[List[S]]', 'block_after_split': 'Map[Tup[val],List[S]]'},
               loops={0: Loop(idx='_kb', it='_itb', inv=[x % '_kb' for x in NB] + [JN % '_kb', SEP, 'BOK(new_blocks)', 'self.current_state == old(self.current_state)']),
                      1: Loop(inv=['forall("o:Tup[val], x:S", implies(o in %s and x in %s[o], ISOUT(o, x, seq) and x in block[:_k]), x in %s[o])' % (G, G, G),
                                   'forall("j:int", implies(0 <= j and j < _k, exists("o:Tup[val]", o in %s and block[j] in %s[o], block[j] in %s[o])), block[j])' % (G, G, G),
                                   'forall("o:Tup[val], i:int, j:int", implies(o in %s and 0 <= i and i < j and j < len(%s[o]), %s[o][i] != %s[o][j]), (%s[o][i], %s[o][j]))' % (G, G, G, G, G, G), 'self.current_state == old(self.current_state)']),
                      2: Loop(it='_itv', idx='_kv', inv=['len(new_blocks) == len(g_nb0) + _kv', 'new_blocks[:len(g_nb0)] == g_nb0', 'forall("i:int", implies(0 <= i and i < _kv, new_blocks[len(g_nb0) + i] == _itv[i]), _itv[i])'])},
               ghost={'entry': 'use(defd_at(_, seq, _))\nuse(isout_eq(_, _, _, _, seq))\nuse(isout_join(_, _, _, seq))', 'before:block_after_split = ': 'g_nb0 = new_blocks', 'loop1.end': 'reveal(ISOUT(output_seq, state, seq))\nassert ISOUT(output_seq, state, seq)',
                      'loop0.end': 'assert forall("i:int", implies(0 <= i and i < len(g_nb0), new_blocks[i] == g_nb0[i]), new_blocks[i])\nassert forall("i:int", implies(len(g_nb0) <= i and i < len(new_blocks), new_blocks[i] == _itv[i - len(g_nb0)]), new_blocks[i])'
                      '\nassert forall("i:int, x:S", implies(len(g_nb0) <= i and i < len(new_blocks) and x in new_blocks[i], x in block), x in new_blocks[i])\nassert forall("i:int, a:int, b:int", implies(0 <= i and i < len(_itv) and 0 <= a and a < b and b < len(_itv[i]), _itv[i][a] != _itv[i][b]), (_itv[i][a], _itv[i][b]))'
                      '\nassert forall("i:int, j:int, x:S, y:S", implies(0 <= i and i < len(_itv) and 0 <= j and j < len(_itv) and i != j and x in _itv[i] and y in _itv[j], not EQO(x, y, seq)), (x in _itv[i], y in _itv[j]))'},
               ensures=['forall("x:S, j:int", implies(0 <= j and j < len(result) and x in result[j], INB(blocks, x)), x in result[j])',
                        'forall("x:S, p:int", implies(0 <= p and p < len(blocks) and x in blocks[p], INB(result, x)), x in blocks[p])',
                        'forall("i:int, j:int, x:S, y:S", implies(0 <= i and i < len(result) and 0 <= j and j < len(result) and i != j and x in result[i] and y in result[j], not EQO(x, y, seq) or APART(blocks, x, y)), (x in result[i], y in result[j]))',
                        'BOK(result)', 'self.current_state == old(self.current_state)',
                        JOIN.format('result', '(EQO(x, y, seq) and exists("p:int", 0 <= p and p < len(blocks) and x in blocks[p] and y in blocks[p], (x in blocks[p], y in blocks[p])))')])
    w.spec("""
def SEPBY(cs: 'List[Tup[val]]', x: 'S', y: 'S') -> 'bool':
    return exists("k:int", 0 <= k and k < len(cs) and not EQO(x, y, cs[k]), cs[k])
""", opaque=True, reads=['S.transitions', 'S.' + w.lab])
    w.spec("""
def INTOTAL(m: 'M') -> 'bool':
    return forall("s:S, a:val", implies(s in m.states and INALPH(m, a), dfd(s, a) and a is not None and a in s.transitions and s.transitions[a] in m.states), (s in m.states, a in s.transitions), (s in m.states, s.transitions[a]))
def EQW(x: 'S', y: 'S', m: 'M') -> 'bool':
    return forall("u:Seq[val]", implies(forall("i:int", implies(0 <= i and i < len(u), INALPH(m, u[i])), u[i]), SAME(x, y, u)), (run(x, u), run(y, u)), SAME(x, y, u))
""")
    w.spec("""
def DIFF(x: 'S', y: 'S') -> 'bool':
    return exists("u:Tup[val]", not EQO(x, y, u), EQO(x, y, u))
""", opaque=True, reads=['S.transitions', 'S.' + w.lab])
    w.lemma('sep_any', 'cs:List[Tup[val]], x:S, y:S', requires=['SEPBY(cs, x, y)'], ensures=['DIFF(x, y)'], trigger=['SEPBY(cs, x, y)'], hints=['reveal(SEPBY(cs, x, y), DIFF(x, y))'])
    w.lemma('sep_snoc', 'cs:List[Tup[val]], x:S, y:S, w:Tup[val]', requires=['SEPBY(cs, x, y)'], ensures=['SEPBY(cs + [w], x, y)'], trigger=[('SEPBY(cs, x, y)', 'cs + [w]')], hints=['reveal(SEPBY(cs, x, y), SEPBY(cs + [w], x, y))'])
    w.lemma('sep_in', 'cs:List[Tup[val]], x:S, y:S, w:Tup[val]', requires=['w in cs', 'not EQO(x, y, w)'], ensures=['SEPBY(cs, x, y)'], trigger=[('w in cs', 'SEPBY(cs, x, y)')], hints=['reveal(SEPBY(cs, x, y))'])
    w.lemma('sep_sub', 'cs:List[Tup[val]], ds:List[Tup[val]], x:S, y:S', requires=['SEPBY(cs, x, y)', 'forall("k:int", implies(0 <= k and k < len(cs), cs[k] in ds), cs[k])'], ensures=['SEPBY(ds, x, y)'], trigger=[('SEPBY(cs, x, y)', 'SEPBY(ds, x, y)')], hints=['reveal(SEPBY(cs, x, y), SEPBY(ds, x, y))'])
    w.lemma('complete_defd', 'm:M, al:List[val], s:S, u:Tup[val]', requires=['COMPLETE(m, al)', 's in m.states', 'over(u, al)'], ensures=['defd(s, u)', 'run(s, u) in m.states'], induct='u', fix=('m', 'al', 's'), trigger=['defd(s, u)'])
    B = ['forall("p:int, x:S", implies(0 <= p and p < len({0}) and x in {0}[p], x in self.states), x in {0}[p])', 'forall("x:S", implies(x in self.states, INB({0}, x)), x in self.states)', 'BOK({0})']
    SEPS = 'forall("p:int, q:int, x:S, y:S", implies(0 <= p and p < len({0}) and 0 <= q and q < len({0}) and p != q and x in {0}[p] and y in {0}[q], SEPBY({1}, x, y)), (x in {0}[p], y in {0}[q]))'
    ini = 'char_set_init'
    CUR = 'self.current_state == old(self.current_state)'
    INI = 'implies(%s is not None, forall("k:int", implies(0 <= k and k < len(%s), {0}), %s[k]))' % (ini, ini, ini)
    JINIT = JOIN.format('blocks', INI.format('EQO(x, y, %s[k])' % ini))
    HAS = INI.format('%s[k] in {0}' % ini)
    cur = [x.format('blocks') for x in B] + [CUR]
    SEPX = 'forall("p:int, x:S, y:S", implies(0 <= p and p < len(blocks) and x in blocks[p] and y in g_blk, SEPBY(char_set, x, y) and SEPBY(char_set, y, x)), (x in blocks[p], y in g_blk))'
    for nm, ret, const in (('', 'Opt[List[Tup[val]]]', False), ('.pair', 'Tuple[Opt[S],Opt[S]]', True)):
        P = {'self': 'M', 'char_set_init': 'Opt[List[Tup[val]]]', 'online_suffix_closure': 'bool', 'split_all_blocks': 'bool', 'return_same_states': ('const', const), 'raise_warning': 'bool'}
        # two states that answer everything alike were found / none exist
        TWO = ('result is None' if not const else 'result[0] is not None or result[1] is not None')
        EQUIV = ('exists("x:S, y:S", x in self.states and y in self.states and x != y and EQW(x, y, self) and ' + INI.format('EQO(x, y, %s[k])' % ini) + ', (x in self.states, y in self.states))') if not const else \
            'result[0] is not None and result[1] is not None and result[0] in self.states and result[1] in self.states and result[0] != result[1] and EQW(result[0], result[1], self) and ' + INI.format('EQO(result[0], result[1], %s[k])' % ini)
        if const:
            POS = 'implies(not (%s), forall("x:S, y:S", implies(x in self.states and y in self.states and x != y, DIFF(x, y)), (x in self.states, y in self.states)))' % TWO
        else:
            POS = 'implies(result is not None, forall("x:S, y:S", implies(x in self.states and y in self.states and x != y, SEPBY(result, x, y) and DIFF(x, y)), (x in self.states, y in self.states)))'
        ENS = ['implies(%s, %s)' % (TWO, EQUIV), POS, CUR] + ([] if const else ['implies(result is not None, %s)' % HAS.format('result')])
        PRE = [nodup('self.states'), 'INTOTAL(self)', INI.format('forall("s:S", implies(s in self.states, defd(s, %s[k])), s in self.states)' % ini)]
        w.contract(A + '::DeterministicAutomaton.compute_characterization_set', name='base.compute_characterization_set' + nm, params=P, returns=ret, modifies=['self.current_state'], requires=PRE,
                   locals={'blocks': 'List[List[S]]', 'char_set': 'List[Tup[val]]', 'block_to_split': 'Opt[List[S]]', 'new_blocks': 'List[List[S]]'},
                   loops={0: Loop(inv=cur + [SEPS.format('blocks', 'char_set'), JOIN.format('blocks', 'forall("k:int", implies(0 <= k and k < _k, EQO(x, y, _it[k])), _it[k])')]),
                          1: Loop(inv=cur + [SEPS.format('blocks', 'char_set'), JINIT, HAS.format('char_set')]),
                          'comp0': Loop(inv=['len(_acc) == _k', 'forall("j:int", implies(0 <= j and j < _k, over(_acc[j], alphabet)), _acc[j])'], locals={'_acc': 'List[Tup[val]]'}),
                          2: Loop(inv=cur + [SEPS.format('blocks', 'char_set'), JINIT, HAS.format('char_set')]),
                          3: Loop(inv=[CUR, HAS.format('char_set'), 'BOK(new_blocks)', SEPS.format('new_blocks', 'char_set'), SEPS.format('blocks', 'char_set'), SEPX,
                                       'forall("j:int, x:S", implies(0 <= j and j < len(new_blocks) and x in new_blocks[j], x in g_blk), x in new_blocks[j])', 'forall("x:S", implies(x in g_blk, INB(new_blocks, x)), x in g_blk)']),
                          4: Loop(it='_it4', idx='_k4', inv=['len(blocks) == len(g_b1) + _k4', 'blocks[:len(g_b1)] == g_b1', 'forall("i:int", implies(0 <= i and i < _k4, blocks[len(g_b1) + i] == _it4[i]), _it4[i])'])},
                   ghost={'before:dist_seq = ': 'assert COMPLETE(self, alphabet)', 'entry': 'use(sep_in(_, _, _, _))\nuse(sep_snoc(_, _, _, _))', 'before:block_to_split = None': 'assert forall("p:int, q:int", implies(0 <= p and p < len(blocks), len(blocks[p]) <= 1), blocks[p])',
                          'before:blocks.remove': 'g_b0 = blocks\ng_blk = block_to_split', 'after:blocks.remove': 'g_b1 = blocks\nassert forall("p:int", implies(0 <= p and p < len(g_b1), exists("q:int", 0 <= q and q < len(g_b0) and g_b1[p] == g_b0[q])), g_b1[p])',
                          'loop2.start': 'assert COMPLETE(self, alphabet)\nassert over(seq, alphabet)\nuse(complete_defd(self, alphabet, _, seq))\nassert forall("x:S", implies(x in self.states, defd(x, seq)), x in self.states)\nassert BDEF(blocks, seq)',
                          'loop3.start': 'assert COMPLETE(self, alphabet)\nassert over(seq, alphabet)\nuse(complete_defd(self, alphabet, _, seq))\nassert forall("x:S", implies(x in self.states, defd(x, seq)), x in self.states)\nassert BDEF(new_blocks, seq)',
                          'loop1.end': 'if bound(g_b1):\n    if not split_all_blocks:\n        assert forall("i:int", implies(0 <= i and i < len(g_b1), blocks[i] == g_b1[i]), blocks[i])\n        assert forall("i:int", implies(len(g_b1) <= i and i < len(blocks), blocks[i] == new_blocks[i - len(g_b1)]), blocks[i])'
                                       '\n        assert BOK(blocks)\n        assert forall("i:int, x:S", implies(0 <= i and i < len(blocks) and x in blocks[i], implies(i >= len(g_b1), x in g_blk)), x in blocks[i])',
                          'before:char_set = list\\(set': 'g_cs = char_set\nassert forall("p:int", implies(0 <= p and p < len(blocks), len(blocks[p]) <= 1), blocks[p])\nassert forall("x:S, y:S", implies(x in self.states and y in self.states and x != y, APART(blocks, x, y)), (x in self.states, y in self.states))'
                                       '\nassert forall("x:S, y:S", implies(x in self.states and y in self.states and x != y, SEPBY(g_cs, x, y)), (x in self.states, y in self.states))\nuse(sep_any(g_cs, _, _))\nassert forall("x:S, y:S", implies(x in self.states and y in self.states and x != y, DIFF(x, y)), (x in self.states, y in self.states))',
                          'after:char_set = list\\(set': 'assert forall("k:int", implies(0 <= k and k < len(g_cs), g_cs[k] in char_set), g_cs[k])\nuse(sep_sub(g_cs, char_set, _, _))',
                          'exit': 'if bound(dist_seq):\n    if dist_seq is None:\n        assert split_state1 != split_state2 and split_state1 in self.states and split_state2 in self.states\n        assert forall("u:Seq[val]", implies(forall("i:int", implies(0 <= i and i < len(u), INALPH(self, u[i])), u[i]), over(u, alphabet)), (run(split_state1, u), run(split_state2, u)), SAME(split_state1, split_state2, u))\n        assert EQW(split_state1, split_state2, self)',
                          },
                   ensures=ENS)
        if kind != 'mealy':
            f, sc, mc = SRC[kind]
            EQUIV0 = EQUIV.replace('EQW(x, y, self)', 'EQ0(x, y) and EQW(x, y, self)').replace('EQW(result[0]', 'EQ0(result[0], result[1]) and EQW(result[0]')
            w.contract('%s::%s.compute_characterization_set' % (f, mc), name='compute_characterization_set' + nm, params=P, returns=ret, modifies=['self.current_state'], requires=PRE,
                       calls={'compute_characterization_set': 'base.compute_characterization_set' + nm},
                       ghost={'before:return super': 'g_ci = char_set_init\nassert exists("k:int", 0 <= k and k < len(g_ci) and len(g_ci[k]) == 0, g_ci[k])'},
                       ensures=['implies(%s, %s)' % (TWO, EQUIV0), POS, CUR] + ([] if const else ['implies(result is not None, exists("k:int", 0 <= k and k < len(result) and len(result[k]) == 0, result[k]))']))

    minimal(w, kind)


def minimal(w, kind):
    """C06: minimization, over the heap before (T) and after (T2) a merge"""
    w.spec("""
def ovs(u: 'Seq[val]', A: 'Set[val]') -> 'bool':
    return forall("i:int", implies(0 <= i and i < len(u), u[i] in A), u[i])
def TOT(Q: 'Set[S]', A: 'Set[val]') -> 'bool':
    return forall("a:val", implies(a in A, a is not None), a in A) and forall("s:S, a:val", implies(s in Q, iff(a in s.transitions, a in A) and implies(a in A, dfd(s, a) and s.transitions[a] in Q)), (s in Q, a in s.transitions), (s in Q, s.transitions[a]))
""")
    w.spec("""
def EQALL(x: 'S', y: 'S', A: 'Set[val]') -> 'bool':
    return EQ0(x, y) and forall("v:Seq[val]", implies(ovs(v, A), SAME(x, y, v)), SAME(x, y, v))
""", reads=['S.transitions', 'S.' + w.lab], opaque=True)
    w.lemma('run_cons', 'x:S, a:val, v:Seq[val]', ensures=['run(x, [a] + v) == run(nxt(x, a), v)'], induct='v', fix=('x', 'a'), hints=['if len(v) > 0:\n    assert ([a] + v)[:len(v)] == [a] + v[:len(v) - 1]\n    assert ([a] + v)[len(v)] == v[len(v) - 1]\nelse:\n    assert [a] + v == [a]\n    assert run(x, [a]) == nxt(run(x, [a][:0]), a)\n    assert run(x, [a][:0]) == x'])
    w.lemma('same_cons', 'x:S, y:S, a:val, v:Seq[val]', requires=['SAME(x, y, [a] + v)'], ensures=['SAME(nxt(x, a), nxt(y, a), v)', 'olt(x, a) == olt(y, a)'], induct='v', fix=('x', 'y', 'a'),
            hints=['if len(v) > 0:\n    assert ([a] + v)[:len(v)] == [a] + v[:len(v) - 1]\n    assert ([a] + v)[len(v)] == v[len(v) - 1]\n    run_cons(x, a, v[:len(v) - 1])\n    run_cons(y, a, v[:len(v) - 1])\nelse:\n    assert [a] + v == [a]\n    assert run(x, [a][:0]) == x and run(y, [a][:0]) == y'])
    w.lemma('eqall_step', 'x:S, y:S, A:Set[val], a:val', requires=['EQALL(x, y, A)', 'a in A', 'a is not None'], ensures=['olt(x, a) == olt(y, a)', 'EQALL(nxt(x, a), nxt(y, a), A)'],
            hints=['reveal(EQALL(x, y, A), EQALL(nxt(x, a), nxt(y, a), A))\nassert ovs([a], A)\nassert SAME(x, y, [a] + [])\nsame_cons(x, y, a, [])\nassert forall("v:Seq[val]", implies(ovs(v, A), ovs([a] + v, A) and SAME(x, y, [a] + v)), SAME(nxt(x, a), nxt(y, a), v))\nuse(same_cons(x, y, a, _))'])
    w.lemma('same_trans', 'x:S, y:S, z:S, v:Seq[val]', requires=['SAME(x, y, v)', 'SAME(y, z, v)'], ensures=['SAME(x, z, v)'], induct='v', fix=('x', 'y', 'z'))
    w.lemma('same_sym', 'x:S, y:S, v:Seq[val]', requires=['SAME(x, y, v)'], ensures=['SAME(y, x, v)'], induct='v', fix=('x', 'y'))
    w.lemma('eqall_trans', 'x:S, y:S, z:S, A:Set[val]', requires=['EQALL(x, y, A)', 'EQALL(y, z, A)'], ensures=['EQALL(x, z, A)'], hints=['reveal(EQALL(x, y, A), EQALL(y, z, A), EQALL(x, z, A))\nuse(same_trans(x, y, z, _))'])
    w.lemma('eqall_sym', 'x:S, y:S, A:Set[val]', requires=['EQALL(x, y, A)'], ensures=['EQALL(y, x, A)'], hints=['reveal(EQALL(x, y, A), EQALL(y, x, A))\nuse(same_sym(x, y, _))'])
    w.lemma('same_refl', 'x:S, v:Seq[val]', ensures=['SAME(x, x, v)'], induct='v', fix=('x',))
    w.lemma('eqall_refl', 'x:S, A:Set[val]', ensures=['EQALL(x, x, A)'], hints=['reveal(EQALL(x, x, A))\nuse(same_refl(x, _))'])
    F = 'Fld[S.transitions]'
    w.spec("""
def ANSEQ(T: '%s', T2: '%s', x: 'S', y: 'S', u: 'Seq[val]') -> 'bool':
    return ite(len(u) == 0, True, ANSEQ(T, T2, x, y, u[:len(u) - 1]) and under(T, olt(run(x, u[:len(u) - 1]), u[len(u) - 1])) == under(T2, olt(run(y, u[:len(u) - 1]), u[len(u) - 1])))
""" % (F, F), reads=['S.' + w.lab])
    w.spec("""
def REL(T: '%s', T2: '%s', x: 'S', y: 'S', A: 'Set[val]') -> 'bool':
    return EQ0(x, y) and forall("u:Seq[val]", implies(ovs(u, A), ANSEQ(T, T2, x, y, u)), ANSEQ(T, T2, x, y, u))
""" % (F, F), reads=['S.' + w.lab], opaque=True)
    w.spec("""
def MERGED(T: '%s', T2: '%s', Q: 'Set[S]', s1: 'S', s2: 'S') -> 'bool':
    return forall("s:S, a:val", implies(s in Q, iff(under(T2, a in s.transitions), under(T, a in s.transitions)) and implies(under(T, a in s.transitions), under(T2, s.transitions[a]) == ite(under(T, s.transitions[a]) == s2, s1, under(T, s.transitions[a])))), (s in Q, under(T2, s.transitions[a])), (s in Q, under(T2, a in s.transitions)))
""" % (F, F), reads=[], opaque=True)
    HERE = "fld('S.transitions')"
    MV = 'T2:%s, Q:Set[S], A:Set[val], s1:S, s2:S' % F
    MR = ['MERGED(%s, T2, Q, s1, s2)' % HERE, 'TOT(Q, A)', 's1 in Q', 's2 in Q', 'EQALL(s1, s2, A)']
    XX = 'ite(x == s2, s1, x)'
    w.lemma('merge_run', MV + ', x:S, u:Seq[val]', requires=MR + ['x in Q', 'ovs(u, A)'], induct='u', fix=('T2', 'Q', 'A', 's1', 's2', 'x'),
            ensures=['run(x, u) in Q', 'under(T2, run(%s, u)) in Q' % XX, 'EQALL(run(x, u), under(T2, run(%s, u)), A)' % XX],
            hints=['reveal(MERGED(%s, T2, Q, s1, s2))\neqall_refl(x, A)\neqall_sym(s1, s2, A)\nif len(u) > 0:\n    g_a = u[len(u) - 1]\n    g_p = run(x, u[:len(u) - 1])\n    g_q = under(T2, run(%s, u[:len(u) - 1]))\n'
                   '    assert g_p in Q and g_q in Q and EQALL(g_p, g_q, A)\n    assert g_a in A and g_a is not None\n    eqall_step(g_p, g_q, A, g_a)\n    assert run(x, u) == nxt(g_p, g_a)\n    assert nxt(g_q, g_a) in Q and under(T2, nxt(g_q, g_a)) == ite(nxt(g_q, g_a) == s2, s1, nxt(g_q, g_a))\n'
                   '    assert under(T2, run(%s, u)) == under(T2, nxt(g_q, g_a))\n    if nxt(g_q, g_a) == s2:\n        eqall_trans(nxt(g_p, g_a), s2, s1, A)' % (HERE, XX, XX)])
    w.lemma('merge_ans', MV + ', x:S, u:Seq[val]', requires=MR + ['x in Q', 'ovs(u, A)'], induct='u', fix=('T2', 'Q', 'A', 's1', 's2', 'x'), ensures=['ANSEQ(%s, T2, x, %s, u)' % (HERE, XX)],
            hints=['reveal(MERGED(%s, T2, Q, s1, s2))\nreveal(EQALL(s1, s2, A))\nif len(u) > 0:\n    g_a = u[len(u) - 1]\n    g_p = run(x, u[:len(u) - 1])\n    g_q = under(T2, run(%s, u[:len(u) - 1]))\n    merge_run(T2, Q, A, s1, s2, x, u[:len(u) - 1])\n    assert g_a in A and g_a is not None\n'
                   '    eqall_step(g_p, g_q, A, g_a)\n    assert under(T2, olt(g_q, g_a)) == olt(g_q, g_a)' % (HERE, XX)])
    w.lemma('merge_rel', MV + ', x:S', requires=MR + ['x in Q'], trigger=[('MERGED(%s, T2, Q, s1, s2)' % HERE, 'x in Q')], ensures=['REL(%s, T2, x, %s, A)' % (HERE, XX)], hints=['reveal(REL(%s, T2, x, %s, A))\nreveal(EQALL(s1, s2, A))\nuse(merge_ans(T2, Q, A, s1, s2, x, _))' % (HERE, XX)])
    w.lemma('ans_trans', 'T:%s, T2:%s, T3:%s, x:S, y:S, z:S, u:Seq[val]' % (F, F, F), requires=['ANSEQ(T, T2, x, y, u)', 'ANSEQ(T2, T3, y, z, u)'], ensures=['ANSEQ(T, T3, x, z, u)'], induct='u', fix=('T', 'T2', 'T3', 'x', 'y', 'z'))
    w.lemma('rel_trans', 'T:%s, T2:%s, T3:%s, x:S, y:S, z:S, A:Set[val]' % (F, F, F), requires=['REL(T, T2, x, y, A)', 'REL(T2, T3, y, z, A)'], ensures=['REL(T, T3, x, z, A)'],
            hints=['reveal(REL(T, T2, x, y, A), REL(T2, T3, y, z, A), REL(T, T3, x, z, A))\nuse(ans_trans(T, T2, T3, x, y, z, _))'])
    w.lemma('ans_refl', 'x:S, u:Seq[val]', ensures=['ANSEQ(%s, %s, x, x, u)' % (HERE, HERE)], induct='u', fix=('x',))
    w.lemma('rel_refl', 'x:S, A:Set[val]', ensures=['REL(%s, %s, x, x, A)' % (HERE, HERE)], hints=['reveal(REL(%s, %s, x, x, A))\nuse(ans_refl(x, _))' % (HERE, HERE)])
    WF = 'forall("s:S, a:val", implies(s in self.states and a in s.transitions, dfd(s, a) and a is not None and s.transitions[a] in self.states), (s in self.states, a in s.transitions), (s in self.states, s.transitions[a]))'
    FULL = 'forall("s:S, a:val", implies(s in self.states and INALPH(self, a), a in s.transitions), (s in self.states, a in s.transitions))'
    PAIR = 'forall("x:S, y:S", implies(x in self.states and y in self.states and x != y, DIFF(x, y)), (x in self.states, y in self.states))'
    chars = 'compute_characterization_set' if kind != 'mealy' else 'base.compute_characterization_set'
    w.contract(A + '::DeterministicAutomaton.is_minimal', name='is_minimal', params={'self': 'M'}, returns='bool', modifies=['self.current_state'], requires=[nodup('self.states'), WF],
               calls={'compute_characterization_set': chars},
               ensures=['implies(result, %s and %s)' % (FULL, PAIR), 'self.current_state == old(self.current_state)',
                        'implies(not result, not %s or exists("x:S, y:S", x in self.states and y in self.states and x != y and EQ0(x, y) and EQW(x, y, self), (x in self.states, y in self.states)))' % FULL])
    PRF = 'forall("s:S", implies(s in self.states and (old(s.prefix is None) or old(len(s.prefix) == 0)), implies(s.prefix is not None, god(self.initial_state, s.prefix) and go(self.initial_state, s.prefix) == s) and implies(s.prefix is None, not reach(self.initial_state, s))), s in self.states)'
    w.contract(A + '::DeterministicAutomaton.compute_prefixes', name='compute_prefixes.missing', params={'self': 'M'}, modifies=['S.prefix'], requires=['self.initial_state in self.states', nodup('self.states')],
               loops={0: Loop(inv=['forall("j:int", implies(_k <= j and j < len(_it), _it[j].prefix == old(_it[j].prefix)), _it[j])', 'forall("j:int", implies(0 <= j and j < _k and (old(_it[j].prefix is None) or old(len(_it[j].prefix) == 0)), implies(_it[j].prefix is not None, god(self.initial_state, _it[j].prefix) and go(self.initial_state, _it[j].prefix) == _it[j]) and implies(_it[j].prefix is None, not reach(self.initial_state, _it[j]))), _it[j])',
                                   'forall("s:S", implies(not (old(s.prefix is None) or old(len(s.prefix) == 0)), s.prefix == old(s.prefix)), s.prefix)'])},
               ensures=[PRF])
    A0 = 'g_A'
    LOOPI = [nodup('self.states'), 'TOT(setof(self.states), g_A)', 'self.initial_state in self.states', 'self.current_state in self.states',
             'forall("s:S", implies(s in self.states, s in old(self.states)), s in self.states)', 'REL(g_T0, fld("S.transitions"), old(self.initial_state), self.initial_state, g_A)',
             'implies(old(self.current_state) == old(self.initial_state), self.current_state == self.initial_state)']
    FOUND = ['implies(s1 is not None or s2 is not None, s1 is not None and s2 is not None and s1 != s2 and s1 in self.states and s2 in self.states and EQALL(s1, s2, g_A))', 'implies(s1 is None and s2 is None, %s)' % PAIR]
    NOTYET = 'forall("s:S", implies(not (s in self.states[:_ks]), s.transitions == under(g_T, s.transitions)), s.transitions)'
    KEY = 'iff(a in s.transitions, under(g_T, a in s.transitions)) and implies(a in s.transitions, s.transitions[a] == ite(under(g_T, s.transitions[a]) == s2, s1, under(g_T, s.transitions[a])))'
    w.contract(A + '::DeterministicAutomaton.minimize', name='minimize', params={'self': 'M'}, modifies=['self.*', 'S.transitions', 'S.prefix'],
               requires=[nodup('self.states'), WF, 'self.initial_state in self.states', 'self.current_state in self.states'],
               calls={'compute_characterization_set': chars + '.pair', 'compute_prefixes': 'compute_prefixes.missing'},
               loops={0: Loop(inv=LOOPI + FOUND),
                      1: Loop(idx='_ks', it='_its', inv=[NOTYET, 'forall("s:S, a:val", implies(s in self.states[:_ks], %s), (s in self.states[:_ks], a in s.transitions), (s in self.states[:_ks], s.transitions[a]))' % KEY]),
                      2: Loop(inv=['forall("x:S", implies(x != s and not (x in self.states[:_ks]), x.transitions == under(g_T, x.transitions)), x.transitions)',
                                   'forall("s:S, a:val", implies(s in self.states[:_ks], %s), (s in self.states[:_ks], a in s.transitions), (s in self.states[:_ks], s.transitions[a]))' % KEY,
                                   'forall("a:val", iff(a in s.transitions, under(g_T, a in s.transitions)) and implies(a in s.transitions, s.transitions[a] == ite(under(g_T, s.transitions[a]) == s2 and a in _it[:_k], s1, under(g_T, s.transitions[a]))), a in s.transitions, s.transitions[a])'])},
               ghost={'entry': 'g_T0 = fld("S.transitions")\ng_A = dom(self.initial_state.transitions)\nrel_refl(self.initial_state, g_A)',
                      'after:s1, s2 = self.compute': 'reveal(EQALL(s1, s2, g_A))\nassert forall("a:val", implies(a in g_A, INALPH(self, a)), a in g_A)\nassert implies(s1 is not None, EQALL(s1, s2, g_A))',
                      'loop0.start': 'g_T = fld("S.transitions")\ng_Q = setof(self.states)\ng_i = self.initial_state\ng_c = self.current_state\nuse(merge_rel(_, g_Q, g_A, s1, s2, _))\nreveal(EQALL(s1, s2, g_A))',
                      'before:self.states.remove': 'reveal(MERGED(g_T, fld("S.transitions"), g_Q, s1, s2))\nassert MERGED(g_T, fld("S.transitions"), g_Q, s1, s2)\nassert g_i in g_Q\nassert REL(g_T, fld("S.transitions"), g_i, ite(g_i == s2, s1, g_i), g_A)\nrel_trans(g_T0, g_T, fld("S.transitions"), old(self.initial_state), g_i, ite(g_i == s2, s1, g_i), g_A)',
                      'after:self.states.remove': 'assert forall("x:S", iff(x in self.states, x in g_Q and x != s2), x in self.states, x in g_Q)\nassert forall("s:S, a:val", implies(s in g_Q, iff(a in s.transitions, a in g_A)), (s in g_Q, a in s.transitions))'
                                                  '\nassert forall("s:S, a:val", implies(s in g_Q and a in g_A, s.transitions[a] != s2 and s.transitions[a] in g_Q), (s in g_Q, s.transitions[a]))\nassert TOT(setof(self.states), g_A)',
                      'before:s1, s2 = self.compute': 'assert forall("a:val", implies(INALPH(self, a), a in g_A), a in g_A)\nassert TOT(setof(self.states), g_A)\nassert INTOTAL(self)'},
               ensures=['implies(%s, %s and %s)' % ('old(%s)' % FULL, PAIR, ' and '.join(x.replace('g_A', 'old(dom(self.initial_state.transitions))').replace('g_T0', 'old(fld("S.transitions"))') for x in LOOPI if 'nodup' not in x))])


def world(kind):
    w = base('auto:' + kind, kind)
    disting(w, kind)
    paths(w, kind)
    compare(w, kind)
    charset(w, kind)
    return w
