"""C18: the observation tree of L# and apartness of its nodes."""
from pyvc.world import World, Loop
from contracts.auto import SRC

D = 'aalpy/learning_algs/deterministic/'
F = D + 'ObservationTree.py'
P = D + 'Apartness.py::Apartness'


def world(kind):
    mealy = kind == 'mealy'
    NC = 'MealyNode' if mealy else 'MooreNode'
    w = World('obt:' + kind)
    w.cls('N', F + '::' + NC, {'successors': 'Map[val,Tuple[val,N]]' if mealy else 'Map[val,N]', 'parent': 'N?', 'input_to_parent': 'val', 'id': 'int', **({} if mealy else {'output': 'val'})},
          ghost={'path': 'Tup[val]', 'tree': 'T?'}, cvars={'_id_counter': 'COUNTER'})
    w.cls('Counter', None, {'_id_counter': 'int'})
    w.ufn('COUNTER', [], 'Counter')
    w.axiom('counter', 'COUNTER() is not None and alloc(COUNTER())', 'the class attribute _id_counter exists from the time the class is created')
    w.cls('SUL', 'aalpy/base/SUL.py::SUL', {})
    w.contract('aalpy/base/SUL.py::SUL.query', name='SUL.query', params={'self': 'SUL', 'word': 'Seq[val]'}, returns='List[val]', recv='SUL', trusted='any system under learning (C01, C02)', ensures=['len(result) == ite(len(word) == 0, 1, len(word))'])
    w.cls('T', F + '::ObservationTree', {'root': 'N', 'alphabet': 'List[val]', 'witness_cache': 'Map[Tuple[int,int],List[val]]', 'sul': 'SUL', 'basis': 'List[N]', 'frontier_to_basis_dict': 'Map[N,List[N]]', 'states_dict': 'Map[N,val]'}, ignore=['extension_rule', 'separation_rule'], consts={'automaton_type': kind})
    OUT = 'n.parent.successors[n.input_to_parent][0]' if mealy else 'n.output'
    CH = '[1]' if mealy else ''
    w.spec('''
def kid(n: 'N', a: 'val') -> 'N':
    return n.successors[a]%s
def out(n: 'N') -> 'val':
    return %s
''' % (CH, OUT) + '''
def INV(t: 'T') -> 'bool':
    return (t.root.tree == t and t.root.path == () and t.root.parent is None and
      forall("n:N, a:val", implies(alloc(n) and n.tree == t and a in n.successors, alloc(kid(n, a)) and kid(n, a).tree == t and kid(n, a).path == n.path + (a,) and kid(n, a).parent == n and kid(n, a).input_to_parent == a), kid(n, a)) and
      forall("n:N, m:N", implies(alloc(n) and alloc(m) and n.tree == t and m.tree == t and n.path == m.path, n == m), (n.path, m.path)) and
      forall("n:N", implies(alloc(n) and n.tree == t and n != t.root, n.parent is not None and alloc(n.parent) and n.parent.tree == t and len(n.path) > 0 and n.input_to_parent == n.path[len(n.path) - 1]
               and n.input_to_parent in n.parent.successors and kid(n.parent, n.input_to_parent) == n
               and n.parent.path == n.path[:len(n.path) - 1]), n.path))
def rec(t: 'T', u: 'Tup[val]', o: 'val') -> 'bool':
    return exists("n:N", alloc(n) and n.tree == t and n.path == u and out(n) == o, n.path)
def has(t: 'T', u: 'Tup[val]') -> 'bool':
    return exists("n:N", alloc(n) and n.tree == t and n.path == u, n.path)
def KEEPS(t: 'T') -> 'bool':
    return forall("n:N", implies(old(alloc(n)), alloc(n) and n.path == old(n.path) and n.tree == old(n.tree) and n.parent == old(n.parent) and n.input_to_parent == old(n.input_to_parent) and n.id == old(n.id) and
                       implies(n.tree == t%s, out(n) == old(out(n)))), n.path, old(n.path))
def HASOUT(t: 'T') -> 'bool':
    return forall("n:N", implies(alloc(n) and n.tree == t and n != t.root, out(n) is not None), n.path)
def NONONE(o: 'Seq[val]') -> 'bool':
    return forall("i:int", implies(0 <= i and i < len(o), o[i] is not None), o[i])
def IN(n: 'N') -> 'bool':
    return alloc(n) and n.tree is not None and alloc(n.tree) and INV(n.tree)
def IDS() -> 'bool':
    return forall("n:N", implies(alloc(n), n.id <= COUNTER()._id_counter), n.id) and forall("n:N, m:N", implies(alloc(n) and alloc(m) and n.id == m.id, n == m), (n.id, m.id))
''' % ('' if not mealy else ' and n != t.root'))
    V = 'N'
    ctor = NC + '.__init__'
    w.contract(F + '::' + ctor, name='N.__init__', params={'self': 'N', 'parent': 'N?'}, recv='N', modifies=['self.*', 'Counter._id_counter'],
               ensures=['forall("a:val", not (a in self.successors))', 'self.parent == parent', 'self.input_to_parent is None'] + ([] if mealy else ['self.output is None']) + ['self.id == COUNTER()._id_counter', 'COUNTER()._id_counter == old(COUNTER()._id_counter) + 1'])
    w.contract(F + '::' + NC + '.add_successor', name='N.add_successor', params={'self': 'N', 'input_val': 'val', 'output_val': 'val', 'successor_node': 'N'}, recv='N',
               modifies=['self.successors'] + ([] if mealy else ['successor_node.output']),
               ensures=['input_val in self.successors', 'kid(self, input_val) == successor_node', 'self.successors[input_val][0] == output_val' if mealy else 'successor_node.output == output_val',
                        'forall("a:val", implies(a != input_val, iff(a in self.successors, old(a in self.successors)) and self.successors[a] == old(self.successors[a])), self.successors[a])'])
    w.contract(F + '::' + NC + '.get_successor', name='N.get_successor', params={'self': 'N', 'input_val': 'val'}, returns='N?', recv='N',
               ensures=['result == ite(input_val in self.successors, kid(self, input_val), None)'])
    if mealy:
        w.contract(F + '::MealyNode.get_output', name='N.get_output', params={'self': 'N', 'input_val': 'val'}, returns='val', recv='N',
                   ensures=['result == ite(input_val in self.successors, self.successors[input_val][0], None)'])
    CONTRA = 'old(inp in self.successors and %s != output)' % ('self.successors[inp][0]' if mealy else 'self.successors[inp].output')
    MOD = ['N.successors', 'N.path', 'N.tree', 'N.parent', 'N.input_to_parent', 'N.id', 'Counter._id_counter'] + ([] if mealy else ['N.output'])
    w.contract(F + '::' + NC + '.extend_and_get', name='N.extend_and_get', params={'self': 'N', 'inp': 'val', 'output': 'val'}, returns='N', recv='N', allocs=['N'], modifies=MOD,
               requires=['IN(self)', 'IDS()'],
               ghost={'exit': '''
if fresh(result):
    assert forall("m:N", implies(old(alloc(m)) and m.tree == self.tree and m != self.tree.root and m.path == self.path + (inp,), m.parent == self), m.path)
    assert forall("m:N", implies(old(alloc(m)) and m.tree == self.tree, m.path != self.path + (inp,)), m.path)
    result.path = self.path + (inp,)
    result.tree = self.tree
    assert forall("n:N", implies(alloc(n) and n != result, old(alloc(n)) and n.tree == old(n.tree) and n.path == old(n.path) and n.parent == old(n.parent) and n.input_to_parent == old(n.input_to_parent)), n.path)
    assert forall("n:N, a:val", implies(alloc(n) and n != result and (n != self or a != inp), iff(a in n.successors, old(a in n.successors)) and n.successors[a] == old(n.successors[a])), n.successors[a])
    assert forall("n:N, m:N", implies(alloc(n) and alloc(m) and n.tree == self.tree and m.tree == self.tree and n.path == m.path, n == m), (n.path, m.path))
    assert forall("n:N, a:val", implies(alloc(n) and n.tree == self.tree and a in n.successors, alloc(kid(n, a)) and kid(n, a).tree == self.tree and kid(n, a).path == n.path + (a,) and kid(n, a).parent == n and kid(n, a).input_to_parent == a), kid(n, a))
'''},
               ensures=['self.tree == old(self.tree)', 'INV(self.tree)', 'IDS()', 'KEEPS(self.tree)', 'forall("n:N", implies(alloc(n) and not old(alloc(n)), n.id > old(COUNTER()._id_counter)), n.id)', 'COUNTER()._id_counter >= old(COUNTER()._id_counter)', 'forall("n:N", implies(old(alloc(n)), n.id == old(n.id)), n.id)', 'alloc(result)', 'result.tree == self.tree', 'result.path == self.path + (inp,)', 'out(result) == output',
                        'forall("n:N", implies(alloc(n) and n.tree == self.tree, old(alloc(n) and n.tree == self.tree) or n == result), n.tree)', 'not ' + CONTRA, 'implies(not (output is None) and old(HASOUT(self.tree)), HASOUT(self.tree))',
                        'forall("n:N, t:T", implies(t != self.tree and alloc(n) and n.tree == t, old(alloc(n) and n.tree == t)), (n.tree, alloc(t)))'],
               raises={'Exception': [CONTRA, 'IDS()', 'forall("n:N", iff(alloc(n), old(alloc(n))), alloc(n))', 'unchanged("N.successors", "N.path", "N.tree", "N.parent", "N.input_to_parent", "N.id"%s)' % ('' if mealy else ', "N.output"')]})
    w.contract(F + '::ObservationTree.insert_observation', name='T.insert_observation', params={'self': 'T', 'inputs': 'Seq[val]', 'outputs': 'Seq[val]'}, allocs=['N'], modifies=MOD, recv='T',
               requires=['INV(self)', 'IDS()'],
               loops={0: Loop(inv=['INV(self)', 'IDS()', 'implies(old(HASOUT(self)) and NONONE(outputs), HASOUT(self))', 'KEEPS(self)', 'alloc(current_node)', 'current_node.tree == self', 'current_node.path == tuple(inputs[:_k])',
                                   'forall("j:int", implies(0 <= j and j < _k, rec(self, tuple(inputs[:j + 1]), outputs[j])), outputs[j])',
                                   'forall("n:N", implies(alloc(n) and n.tree == self and not old(alloc(n) and n.tree == self), len(n.path) <= _k and n.path == tuple(inputs[:len(n.path)])), n.path)'])},
               ensures=['INV(self)', 'IDS()', 'implies(old(HASOUT(self)) and NONONE(outputs), HASOUT(self))', 'KEEPS(self)', 'len(inputs) == len(outputs)',
                        'forall("j:int", implies(0 <= j and j < len(inputs), rec(self, tuple(inputs[:j + 1]), outputs[j])), outputs[j])',
                        'forall("n:N", implies(alloc(n) and n.tree == self and not old(alloc(n) and n.tree == self), len(n.path) <= len(inputs) and n.path == tuple(inputs[:len(n.path)])), n.path)'],
               raises={'ValueError': ['len(inputs) != len(outputs)', 'unchanged("N.successors", "N.path", "N.tree")'], 'Exception': ['KEEPS(self)', 'INV(self)']})
    w.lemma('prefix_closed', 't:T, n:N, j:int',
            requires=['INV(t)', 'alloc(n)', 'n.tree == t', '0 <= j', 'j <= len(n.path)'],
            ensures=['has(t, n.path[:len(n.path) - j])'], induct='j', fix=('t', 'n'),
            hints=['assert implies(j > 0, forall("m:N", implies(alloc(m) and m.tree == t and m.path == n.path[:len(n.path) - (j - 1)], m.parent.path == n.path[:len(n.path) - j]), m.path))'])
    w.lemma('prefixes_present', 'n:N, i:int', requires=['alloc(n)', 'n.tree is not None', 'INV(n.tree)', '0 <= i', 'i <= len(n.path)'],
            ensures=['has(n.tree, n.path[:i])'], trigger=['n.path[:i]'], hints=['prefix_closed(n.tree, n, len(n.path) - i)'])
    AT = ['alloc(current_node)', 'current_node.tree == self']
    NO = "if result is None:\n    use(prefixes_present)\n    assert not has(self, tuple(inputs[:_k + 1]))\n"
    w.contract(F + '::ObservationTree.get_successor', name='T.get_successor', params={'self': 'T', 'inputs': 'Seq[val]'}, returns='N?', recv='T', requires=['INV(self)'], locals={'current_node': 'N'},
               loops={0: Loop(inv=AT + ['current_node.path == tuple(inputs[:_k])'])}, ghost={'exit': NO},
               ensures=['iff(result is None, not has(self, tuple(inputs)))', 'implies(result is not None, alloc(result) and result.tree == self and result.path == tuple(inputs))'])
    w.contract(F + '::ObservationTree.get_observation', name='T.get_observation', params={'self': 'T', 'inputs': 'Seq[val]'}, returns='Opt[List[val]]', recv='T', requires=['INV(self)', 'HASOUT(self)'],
               locals={'observation': 'List[val]', 'current_node': 'N?'},
               loops={0: Loop(inv=['current_node is not None'] + AT + ['current_node.path == tuple(inputs[:_k])', 'len(observation) == _k',
                                   'forall("j:int", implies(0 <= j and j < _k, rec(self, tuple(inputs[:j + 1]), observation[j])), observation[j])'])}, ghost={'exit': NO},
               ensures=['iff(result is None, not has(self, tuple(inputs)))', 'implies(result is not None, len(result) == len(inputs))',
                        'implies(result is not None, forall("j:int", implies(0 <= j and j < len(inputs), rec(self, tuple(inputs[:j + 1]), result[j])), result[j]))'])
    BELOW = '(len({f}.path) <= len({t}.path) and {t}.path[:len({f}.path)] == {f}.path)'
    for name, fr in (('get_transfer_sequence', 'from_node'), ('get_access_sequence', 'self.root')):
        B = BELOW.format(f=fr, t='to_node')
        w.contract(F + '::ObservationTree.' + name, name='T.' + name, params={'self': 'T', **({'from_node': 'N'} if fr == 'from_node' else {}), 'to_node': 'N'}, returns='Opt[List[val]]' if fr == 'from_node' else 'Opt[Tup[val]]', recv='T',
                   requires=['IN(to_node)', 'to_node.tree == self'] + (['IN(from_node)', 'from_node.tree == self'] if fr == 'from_node' else []), locals={'transfer_sequence': 'List[val]', 'current_node': 'N'},
                   loops={0: Loop(inv=AT + ['len(transfer_sequence) <= len(to_node.path)', 'current_node.path == to_node.path[:len(to_node.path) - len(transfer_sequence)]',
                                            'forall("j:int", implies(0 <= j and j < len(transfer_sequence), transfer_sequence[j] == to_node.path[len(to_node.path) - 1 - j]), transfer_sequence[j])',
                                            'implies(%s, len(current_node.path) >= len(%s.path))' % (B, fr)])},
                   ensures=['iff(result is None, not %s)' % B, 'implies(result is not None, tuple(result) == to_node.path[len(%s.path):])' % fr])
    w.contract(F + '::ObservationTree.get_outputs', name='T.get_outputs', params={'self': 'T', 'basis_state': 'N', 'inputs': 'Seq[val]'}, returns='Opt[List[val]]', recv='T',
               requires=['INV(self)', 'HASOUT(self)', 'alloc(basis_state)', 'basis_state.tree == self'], locals={'observation': 'List[val]', 'current_node': 'N?', 'prefix': 'List[val]'},
               loops={0: Loop(inv=['current_node is not None'] + AT + ['current_node.path == basis_state.path + tuple(inputs[:_k])', 'len(observation) == _k',
                                   'forall("j:int", implies(0 <= j and j < _k, rec(self, basis_state.path + tuple(inputs[:j + 1]), observation[j])), observation[j])'])},
               ghost={'loop0.start': "g_n = current_node", 'loop0.end': "assert basis_state.path + tuple(inputs[:_k + 1]) == (basis_state.path + tuple(inputs[:_k])) + (input_val,)\nassert current_node.path == g_n.path + (input_val,)\nassert current_node.path == basis_state.path + tuple(inputs[:_k + 1])\nassert out(current_node) == output\nassert rec(self, basis_state.path + tuple(inputs[:_k + 1]), output)\nassert len(observation) == _k + 1 and observation[_k] == output\n",
                      'exit': "if result is None:\n    use(prefixes_present)\n    assert not has(self, basis_state.path + tuple(inputs[:_k + 1]))\n    assert (basis_state.path + tuple(inputs))[:len(basis_state.path) + _k + 1] == basis_state.path + tuple(inputs[:_k + 1])\n"},
               ensures=['iff(result is None, not has(self, basis_state.path + tuple(inputs)))', 'implies(result is not None, len(result) == len(inputs))',
                        'implies(result is not None, forall("j:int", implies(0 <= j and j < len(inputs), rec(self, basis_state.path + tuple(inputs[:j + 1]), result[j])), result[j]))'])
    w.contract(F + '::ObservationTree.get_size', name='T.get_size', params={'self': 'T'}, returns='int', recv='T', ensures=['result == COUNTER()._id_counter'])
    # ---- apartness
    REP = {'@PT@': 'Tuple[N,N]' if mealy else 'Tuple[N?,N?]', '@MO@': ' and out(kid(p, a)) == out(kid(q, a))' if mealy else '',
           '@SO@': '' if mealy else ' and forall("p:N, q:N", implies((p, q) in D, out(p) == out(q)), (p, q) in D)', '@K0@': 'implies(k > 0, ' if mealy else 'implies(True, ', '@L0@': 'implies(len(p.path) > len(x.path), ' if mealy else 'implies(True, ',
           '@NN@': '' if mealy else ' and pairs[j][0] is not None and pairs[j][1] is not None', '@MF@': 'out(kid(first_node, a)) == out(kid(second_node, a)) and ' if mealy else ''}

    def R(x):
        for a, b in REP.items():
            x = x.replace(a, b)
        return x
    w.spec(R('''
def SUF(x: 'N', y: 'N', p: 'N', q: 'N') -> 'bool':
    return (alloc(p) and alloc(q) and p.tree == x.tree and q.tree == y.tree and len(p.path) >= len(x.path) and len(p.path) - len(x.path) == len(q.path) - len(y.path) and
            p.path[:len(x.path)] == x.path and q.path[:len(y.path)] == y.path and p.path[len(x.path):] == q.path[len(y.path):])
'''), opaque=True, reads=['N.path', 'N.tree', 'N.$alloc'])
    w.spec(R('''
def INQ(p: 'N', q: 'N', pairs: 'List[@PT@]', D: 'Set[Tuple[N,N]]') -> 'bool':
    return (p, q) in D or exists("j:int", 0 <= j and j < len(pairs) and pairs[j][0] == p and pairs[j][1] == q, pairs[j])
'''), opaque=True)
    w.spec(R('''
def NN(x: 'N?') -> 'bool':
    return x is not None
def PR(x: 'N', y: 'N') -> 'Tuple[N,N]':
    return (x, y)
def DIFF(x: 'N', y: 'N', p: 'N', q: 'N') -> 'bool':
    return SUF(x, y, p, q) and out(p) != out(q)%s
def SAMEBELOW(x: 'N', y: 'N') -> 'bool':
    return forall("p:N, q:N", not DIFF(x, y, p, q), SUF(x, y, p, q))
def OVER(t: 'T', al: 'Seq[val]') -> 'bool':
    return forall("n:N, a:val", implies(alloc(n) and n.tree == t and a in n.successors, a in al), kid(n, a))
def CL(D: 'Set[Tuple[N,N]]') -> 'bool':
    return forall("p:N, q:N, a:val", implies((p, q) in D and a in p.successors and a in q.successors, (kid(p, a), kid(q, a)) in D@MO@), ((p, q) in D, kid(p, a), kid(q, a)))@SO@
def QOK(x: 'N', y: 'N', pairs: 'List[@PT@]', D: 'Set[Tuple[N,N]]') -> 'bool':
    return (forall("j:int", implies(0 <= j and j < len(pairs)@NN@, SUF(x, y, pairs[j][0], pairs[j][1])), pairs[j]) and
            forall("p:N, q:N", implies((p, q) in D, SUF(x, y, p, q)), (p, q) in D))
def CLX(D: 'Set[Tuple[N,N]]', pairs: 'List[@PT@]', x: 'N', y: 'N') -> 'bool':
    return forall("p:N, q:N, a:val", implies((p, q) in D and not (p == x and q == y) and a in p.successors and a in q.successors, INQ(kid(p, a), kid(q, a), pairs, D)@MO@), ((p, q) in D, kid(p, a), kid(q, a)))@SO@
def CLQ(D: 'Set[Tuple[N,N]]', pairs: 'List[@PT@]') -> 'bool':
    return forall("p:N, q:N, a:val", implies((p, q) in D and a in p.successors and a in q.successors, INQ(kid(p, a), kid(q, a), pairs, D)@MO@), ((p, q) in D, kid(p, a), kid(q, a)))@SO@
''' % (' and len(p.path) > len(x.path)' if mealy else '')))
    INP = R('p:N, q:N, pairs:List[@PT@], D:Set[Tuple[N,N]], pairs2:List[@PT@], D2:Set[Tuple[N,N]]')
    w.lemma('inq_pop', INP, requires=['INQ(p, q, pairs, D)', 'len(pairs) > 0', 'pairs2 == pairs[1:]', 'forall("u:N, v:N", implies((u, v) in D, (u, v) in D2), (u, v) in D2)', 'NN(p)', 'NN(q)', 'pairs[0][0] is None or pairs[0][1] is None or PR(pairs[0][0], pairs[0][1]) in D2'], ensures=['INQ(p, q, pairs2, D2)'],
            hints=['reveal(INQ(p, q, pairs, D), INQ(p, q, pairs2, D2))', 'assert forall("j:int", implies(0 < j and j < len(pairs), pairs2[j - 1] == pairs[j]), pairs[j])'], trigger=['INQ(p, q, pairs2, D2)'])
    w.lemma('inq_push', R('p:N, q:N, pairs:List[@PT@], D:Set[Tuple[N,N]], x:@PT@'), requires=['INQ(p, q, pairs, D)'], ensures=['INQ(p, q, pairs + [x], D)'],
            hints=['reveal(INQ(p, q, pairs, D), INQ(p, q, pairs + [x], D))', 'assert forall("j:int", implies(0 <= j and j < len(pairs), (pairs + [x])[j] == pairs[j]), pairs[j])'], trigger=['INQ(p, q, pairs + [x], D)'])
    w.lemma('inq_new', R('p:N, q:N, pairs:List[@PT@], D:Set[Tuple[N,N]], x:@PT@'), requires=['x[0] == p', 'x[1] == q'], ensures=['INQ(p, q, pairs + [x], D)'], hints=['reveal(INQ(p, q, pairs + [x], D))', 'assert (pairs + [x])[len(pairs)] == x'], trigger=['INQ(p, q, pairs + [x], D)'])
    w.lemma('inq_none', R('p:N, q:N, pairs:List[@PT@], D:Set[Tuple[N,N]]'), requires=['INQ(p, q, pairs, D)', 'len(pairs) == 0'], ensures=['(p, q) in D'], hints=['reveal(INQ(p, q, pairs, D))'], trigger=['INQ(p, q, pairs, D)'])
    w.lemma('suf_step', 'x:N, y:N, p:N, q:N, a:val', requires=['IN(x)', 'IN(y)', 'SUF(x, y, p, q)', 'a in p.successors', 'a in q.successors'],
            ensures=['SUF(x, y, kid(p, a), kid(q, a))', 'len(kid(p, a).path) > len(x.path)'], trigger=[('kid(p, a)', 'kid(q, a)', 'SUF(x, y, p, q)')], hints=['reveal(SUF(x, y, p, q), SUF(x, y, kid(p, a), kid(q, a)))'])
    w.lemma('suf_in', 'x:N, y:N, p:N, q:N', requires=['SUF(x, y, p, q)', 'IN(x)', 'IN(y)'], ensures=['IN(p)', 'IN(q)', 'p.tree == x.tree', 'q.tree == y.tree'], hints=['reveal(SUF(x, y, p, q))'], trigger=['SUF(x, y, p, q)'])
    w.lemma('suf_refl', 'x:N, y:N', requires=['IN(x)', 'IN(y)'], ensures=['SUF(x, y, x, y)'], hints=['reveal(SUF(x, y, x, y))'])
    w.lemma('cl_all', R('D:Set[Tuple[N,N]], x:N, y:N, p:N, q:N, k:int'), requires=['IN(x)', 'IN(y)', 'CL(D)', '(x, y) in D', 'SUF(x, y, p, q)', 'k == len(p.path) - len(x.path)'],
            ensures=['(p, q) in D', R('@K0@out(p) == out(q))')], induct='k', fix=('D', 'x', 'y'), trigger=['SUF(x, y, p, q)'],
            hints=['reveal(SUF(x, y, p, q))\nif k > 0:\n    reveal(SUF(x, y, p.parent, q.parent))\n    assert p.path[:len(p.path) - 1] == p.parent.path\n    assert q.path[:len(q.path) - 1] == q.parent.path\n    assert SUF(x, y, p.parent, q.parent)\n    assert p.input_to_parent == q.input_to_parent'])
    w.lemma('cl_use', R('D:Set[Tuple[N,N]], x:N, y:N, p:N, q:N'), requires=['IN(x)', 'IN(y)', 'CL(D)', '(x, y) in D', 'SUF(x, y, p, q)'], ensures=['(p, q) in D', R('@L0@out(p) == out(q))')],
            trigger=['SUF(x, y, p, q)'], hints=['reveal(SUF(x, y, p, q))\ncl_all(D, x, y, p, q, len(p.path) - len(x.path))'])
    w.contract(P + '._show_states_are_apart_' + ('mealy' if mealy else 'moore'), name='A.show', params={'first': 'N', 'second': 'N', 'alphabet': 'List[val]'}, returns='N?',
               requires=['IN(first)', 'IN(second)', 'OVER(first.tree, alphabet)', 'OVER(second.tree, alphabet)', 'HASOUT(first.tree)', 'HASOUT(second.tree)'],
               locals={'g_done': 'Set[Tuple[N,N]]', 'pairs': R('List[@PT@]')}, lemmas=['inq_new', 'inq_push'],
               loops={0: Loop(inv=['QOK(first, second, pairs, g_done)', 'CLQ(g_done, pairs)', 'INQ(first, second, pairs, g_done)']),
                      1: Loop(inv=['QOK(first, second, pairs, g_done)', 'CLX(g_done, pairs, first_node, second_node)', 'INQ(first, second, pairs, g_done)', '(first_node, second_node) in g_done',
                              R('forall("a:val", implies(a in alphabet[:_k] and a in first_node.successors and a in second_node.successors, @MF@INQ(kid(first_node, a), kid(second_node, a), pairs, g_done)), (kid(first_node, a), kid(second_node, a)))')])},
               ghost={'entry': 'g_done = set()\nsuf_refl(first, second)\nuse(suf_step(first, second, _, _, _), suf_in(first, second, _, _))', 'after:pairs = deque': 'reveal(INQ(first, second, pairs, g_done))',
                      'loop0.start': 'g_d0 = g_done\ng_p0 = pairs', 'after:first_node, second_node = ': ('g_done = g_done | {PR(first_node, second_node)}' if mealy else 'if first_node is not None and second_node is not None:\n    g_done = g_done | {PR(first_node, second_node)}') + '\nuse(inq_pop(_, _, g_p0, g_d0, pairs, g_done))',
                      'loop1.end': 'assert forall("a:val", iff(a in alphabet[:_k + 1], a in alphabet[:_k] or a == input_val), a in alphabet[:_k + 1])',
                      'exit': 'if result is None:\n    use(inq_none)\n    assert CL(g_done)\n    use(cl_use(g_done, first, second, _, _))'},
               ensures=['iff(result is None, SAMEBELOW(first, second))',
                        'implies(result is not None, exists("q:N", DIFF(first, second, result, q), q.path))'])
    RT = ['IN(state1)', 'IN(state2)', 'state1.tree == ob_tree', 'state2.tree == ob_tree', 'OVER(ob_tree, ob_tree.alphabet)', 'HASOUT(ob_tree)']
    w.contract(P + '.states_are_apart', name='A.states_are_apart', params={'state1': 'N', 'state2': 'N', 'ob_tree': 'T'}, returns='bool', requires=RT, ensures=['iff(result, not SAMEBELOW(state1, state2))'])
    RD = ['N.path', 'N.tree', 'N.$alloc', 'N.parent', 'N.successors', 'N.input_to_parent'] if mealy else ['N.path', 'N.tree', 'N.$alloc', 'N.output']
    w.spec('''
def WIT(x: 'N', y: 'N', u: 'Tup[val]') -> 'bool':
    return exists("p:N, q:N", DIFF(x, y, p, q) and p.path == x.path + u and q.path == y.path + u, (p.path, q.path))
''', opaque=True, reads=RD)
    w.contract(P + '.compute_witness', name='A.compute_witness', params={'state1': 'N', 'state2': 'N', 'ob_tree': 'T'}, returns='Opt[List[val]]', requires=RT, locals={'state1_destination': 'N?'},
               ghost={'entry': 'use(suf_cat(state1, state2, _, _), suf_in(state1, state2, _, _))', 'exit': 'if result is not None:\n    reveal(WIT(state1, state2, tuple(result)))'},
               ensures=['iff(result is None, SAMEBELOW(state1, state2))', 'implies(result is not None, WIT(state1, state2, tuple(result)))'])
    w.lemma('suf_cat', 'x:N, y:N, p:N, q:N', requires=['SUF(x, y, p, q)'], ensures=['p.path == x.path + p.path[len(x.path):]', 'q.path == y.path + p.path[len(x.path):]', 'p.path[:len(x.path)] == x.path'], trigger=['SUF(x, y, p, q)'], hints=['reveal(SUF(x, y, p, q))'])
    w.spec('''
def WC(t: 'T') -> 'bool':
    return forall("n:N, m:N", implies(alloc(n) and alloc(m) and n.tree == t and m.tree == t and (n.id, m.id) in t.witness_cache, WIT(n, m, tuple(t.witness_cache[(n.id, m.id)]))), t.witness_cache[(n.id, m.id)])
def CK(t: 'T') -> 'bool':
    return forall("i:int, j:int", implies((i, j) in t.witness_cache, i <= COUNTER()._id_counter and j <= COUNTER()._id_counter), (i, j) in t.witness_cache)
''')
    w.lemma('suf_sym', 'x:N, y:N, p:N, q:N', requires=['SUF(x, y, p, q)'], ensures=['SUF(y, x, q, p)'], hints=['reveal(SUF(x, y, p, q), SUF(y, x, q, p))'], trigger=['SUF(x, y, p, q)'])
    w.lemma('wit_sym', 'x:N, y:N, u:Tup[val]', requires=['WIT(x, y, u)'], ensures=['WIT(y, x, u)'], hints=['reveal(WIT(x, y, u), WIT(y, x, u))', 'use(suf_sym(x, y, _, _), suf_cat(x, y, _, _))'], trigger=['WIT(x, y, u)'])
    w.lemma('wit_not', 'x:N, y:N, u:Tup[val]', requires=['WIT(x, y, u)'], ensures=['not SAMEBELOW(x, y)', 'not SAMEBELOW(y, x)'], hints=['reveal(WIT(x, y, u))', 'use(suf_sym(x, y, _, _), suf_cat(x, y, _, _))'], trigger=['WIT(x, y, u)'])
    w.contract(F + '::ObservationTree.get_or_compute_witness', name='T.get_or_compute_witness', params={'self': 'T', 'state_one': 'N', 'state_two': 'N'}, returns='Opt[List[val]]', recv='T', modifies=['self.witness_cache'],
               share=['witness_cache'], requires=['IN(state_one)', 'IN(state_two)', 'state_one.tree == self', 'state_two.tree == self', 'OVER(self, self.alphabet)', 'HASOUT(self)', 'WC(self)', 'CK(self)', 'IDS()'],
               ghost={'entry': 'use(wit_sym(state_one, state_two, _), wit_sym(state_two, state_one, _), wit_not(state_one, state_two, _))'},
               ensures=['WC(self)', 'CK(self)', 'iff(result is None, SAMEBELOW(state_one, state_two))', 'implies(result is not None, WIT(state_one, state_two, tuple(result)))'])
    w.lemma('wit_elim', 'x:N, y:N, u:Tup[val]', requires=['WIT(x, y, u)'], ensures=['exists("p:N, q:N", DIFF(x, y, p, q) and p.path == x.path + u and q.path == y.path + u, (p.path, q.path))'], hints=['reveal(WIT(x, y, u))'], trigger=['WIT(x, y, u)'])
    w.lemma('suf_elim', 'x:N, y:N, p:N, q:N', requires=['SUF(x, y, p, q)'], ensures=['alloc(p)', 'alloc(q)', 'p.tree == x.tree', 'q.tree == y.tree', 'len(p.path) >= len(x.path)'], hints=['reveal(SUF(x, y, p, q))'], trigger=['SUF(x, y, p, q)'])
    w.lemma('wit_intro', 'x:N, y:N, p:N, q:N, u:Tup[val]', requires=['alloc(p)', 'alloc(q)', 'p.tree == x.tree', 'q.tree == y.tree', 'p.path == x.path + u', 'q.path == y.path + u', 'out(p) != out(q)'] + (['len(u) > 0'] if mealy else []), ensures=['WIT(x, y, u)'],
            hints=['reveal(SUF(x, y, p, q), WIT(x, y, u))', 'assert (x.path + u)[len(x.path):] == u', 'assert (y.path + u)[len(y.path):] == u'], trigger=[('p.path', 'q.path', 'WIT(x, y, u)')])
    w.contract(F + '::ObservationTree.insert_observation', name='T.insert_observation.cache', params={'self': 'T', 'inputs': 'Seq[val]', 'outputs': 'Seq[val]'}, allocs=['N'], modifies=MOD,
               requires=['INV(self)', 'IDS()', 'WC(self)', 'CK(self)'], calls={'current_node.extend_and_get': 'N.extend_and_get'},
               ghost={'entry': 'use(wit_elim(_, _, _), suf_elim(_, _, _, _))', 'exit': 'use(wit_intro(_, _, _, _, _))'},
               loops={0: Loop(inv=['INV(self)', 'IDS()', 'forall("n:N", implies(alloc(n) and not old(alloc(n)), n.id > old(COUNTER()._id_counter)), n.id)', 'COUNTER()._id_counter >= old(COUNTER()._id_counter)', 'forall("n:N", implies(old(alloc(n)), n.id == old(n.id)), n.id)', 'KEEPS(self)', 'alloc(current_node)', 'current_node.tree == self', 'forall("n:N", implies(alloc(n) and n.tree == self and not old(alloc(n) and n.tree == self), not old(alloc(n))), n.tree)'])},
               ensures=['WC(self)', 'CK(self)'], raises={'ValueError': ['WC(self)', 'CK(self)'], 'Exception': ['KEEPS(self)']})
    w.contract(F + '::ObservationTree.__init__', name='T.__init__', params={'self': 'T', 'alphabet': 'List[val]', 'sul': 'SUL', 'automaton_type': ('const', kind), 'extension_rule': 'val', 'separation_rule': 'val'}, modifies=['self.*', 'Counter._id_counter'], allocs=['N'],
               requires=['alloc(self)', 'IDS()', 'forall("n:N", implies(alloc(n), n.tree != self))'], ghost={'exit': 'self.root.path = ()\nself.root.tree = self'},
               ensures=['INV(self)', 'IDS()', 'WC(self)', 'CK(self)', 'forall("n:N", implies(alloc(n) and n.tree == self, n == self.root), n.tree)', 'fresh(self.root)', 'self.alphabet == alphabet'])
    # ---- the tree against a hypothesis
    HD = ' and a in s.output_fun' if mealy else ''
    lab = {'mealy': 'output_fun', 'moore': 'output', 'dfa': 'is_accepting'}[kind]
    w.cls('S', SRC[kind][0] + '::' + SRC[kind][1], {'transitions': 'Map[val,S]', lab: 'Map[val,val]' if mealy else 'val'})
    w.spec('''
def hrun(s: 'S', u: 'Tup[val]') -> 'S':
    return ite(len(u) == 0, s, hrun(s, u[:len(u) - 1]).transitions[u[len(u) - 1]])
''', reads=['S.transitions'])
    w.spec('''
def hdef(s: 'S', u: 'Tup[val]') -> 'bool':
    return ite(len(u) == 0, True, hdef(s, u[:len(u) - 1]) and u[len(u) - 1] in hrun(s, u[:len(u) - 1]).transitions)
''', reads=['S.transitions'])
    w.spec('''
def HS(x: 'N', h: 'S', p: 'N', s: 'S') -> 'bool':
    return (alloc(p) and p.tree == x.tree and len(p.path) >= len(x.path) and p.path[:len(x.path)] == x.path and hdef(h, p.path[len(x.path):]) and s == hrun(h, p.path[len(x.path):]))
''', opaque=True, reads=['N.path', 'N.tree', 'N.$alloc', 'S.transitions'])
    w.spec('''
def HINQ(p: 'N', s: 'S', pairs: 'List[@HT@]', D: 'Set[Tuple[N,S]]') -> 'bool':
    return (p, s) in D or exists("j:int", 0 <= j and j < len(pairs) and pairs[j][0] == p and pairs[j][1] == s, pairs[j])
'''.replace('@HT@', 'Tuple[N,S]' if mealy else 'Tuple[N?,S]'), opaque=True)
    HT = 'Tuple[N,S]' if mealy else 'Tuple[N?,S]'

    def Q(x):
        for a, b in {'@HT@': HT, '@MO@': ' and out(kid(p, a)) == s.output_fun[a]' if mealy else '', '@SO@': '' if mealy else ' and forall("p:N, s:S", implies((p, s) in D, out(p) == s.%s), (p, s) in D)' % lab,
                     '@NN@': '' if mealy else ' and pairs[j][0] is not None'}.items():
            x = x.replace(a, b)
        return x
    w.spec(Q('''
def TOTAL() -> 'bool':
    return True%s
def HP(x: 'N', y: 'S') -> 'Tuple[N,S]':
    return (x, y)
def HCL(D: 'Set[Tuple[N,S]]') -> 'bool':
    return forall("p:N, s:S, a:val", implies((p, s) in D and a in p.successors and a in s.transitions, (kid(p, a), s.transitions[a]) in D@MO@), ((p, s) in D, kid(p, a), s.transitions[a]))@SO@
def HQOK(x: 'N', h: 'S', pairs: 'List[@HT@]', D: 'Set[Tuple[N,S]]') -> 'bool':
    return (forall("j:int", implies(0 <= j and j < len(pairs)@NN@, HS(x, h, pairs[j][0], pairs[j][1])), pairs[j]) and
            forall("p:N, s:S", implies((p, s) in D, HS(x, h, p, s)), (p, s) in D))
def HCLX(D: 'Set[Tuple[N,S]]', pairs: 'List[@HT@]', x: 'N', y: 'S') -> 'bool':
    return forall("p:N, s:S, a:val", implies((p, s) in D and not (p == x and s == y) and a in p.successors and a in s.transitions, HINQ(kid(p, a), s.transitions[a], pairs, D)@MO@), ((p, s) in D, kid(p, a), s.transitions[a]))@SO@
def HCLQ(D: 'Set[Tuple[N,S]]', pairs: 'List[@HT@]') -> 'bool':
    return forall("p:N, s:S, a:val", implies((p, s) in D and a in p.successors and a in s.transitions, HINQ(kid(p, a), s.transitions[a], pairs, D)@MO@), ((p, s) in D, kid(p, a), s.transitions[a]))@SO@
''' % (' and forall("s:S, a:val", implies(alloc(s), iff(a in s.transitions, a in s.output_fun)), s.transitions[a], s.output_fun[a])' if mealy else '')))
    if mealy:
        w.spec('''
def HDIFF(x: 'N', h: 'S', p: 'N', s: 'S', a: 'val') -> 'bool':
    return HS(x, h, p, s) and a in p.successors and a in s.transitions and out(kid(p, a)) != s.output_fun[a]
''')
        NOD = 'forall("p:N, s:S, a:val", not HDIFF(%s, p, s, a), (HS(%s, p, s), kid(p, a)))'
        ISD = 'exists("p:N, s:S, a:val", HDIFF({0}, p, s, a) and kid(p, a).path == {1}.path + tuple(result), (HS({0}, p, s), kid(p, a)))'
    else:
        w.spec('''
def HDIFF(x: 'N', h: 'S', p: 'N', s: 'S') -> 'bool':
    return HS(x, h, p, s) and out(p) != s.%s
''' % lab)
        NOD = 'forall("p:N, s:S", not HDIFF(%s, p, s), HS(%s, p, s))'
        ISD = 'exists("p:N, s:S", HDIFF({0}, p, s) and p.path == {1}.path + tuple(result), HS({0}, p, s))'
    w.lemma('hinq_pop', 'p:N, q:S, pairs:List[%s], D:Set[Tuple[N,S]], pairs2:List[%s], D2:Set[Tuple[N,S]]' % (HT, HT), requires=['HINQ(p, q, pairs, D)', 'len(pairs) > 0', 'pairs2 == pairs[1:]',
            'forall("u:N, v:S", implies((u, v) in D, (u, v) in D2), (u, v) in D2)', 'NN(p)', 'pairs[0][0] is None or HP(pairs[0][0], pairs[0][1]) in D2'], ensures=['HINQ(p, q, pairs2, D2)'],
            hints=['reveal(HINQ(p, q, pairs, D), HINQ(p, q, pairs2, D2))', 'assert forall("j:int", implies(0 < j and j < len(pairs), pairs2[j - 1] == pairs[j]), pairs[j])'], trigger=['HINQ(p, q, pairs2, D2)'])
    w.lemma('hinq_push', 'p:N, q:S, pairs:List[%s], D:Set[Tuple[N,S]], x:%s' % (HT, HT), requires=['HINQ(p, q, pairs, D)'], ensures=['HINQ(p, q, pairs + [x], D)'],
            hints=['reveal(HINQ(p, q, pairs, D), HINQ(p, q, pairs + [x], D))', 'assert forall("j:int", implies(0 <= j and j < len(pairs), (pairs + [x])[j] == pairs[j]), pairs[j])'], trigger=['HINQ(p, q, pairs + [x], D)'])
    w.lemma('hinq_new', 'p:N, q:S, pairs:List[%s], D:Set[Tuple[N,S]], x:%s' % (HT, HT), requires=['x[0] == p', 'x[1] == q'], ensures=['HINQ(p, q, pairs + [x], D)'], hints=['reveal(HINQ(p, q, pairs + [x], D))', 'assert (pairs + [x])[len(pairs)] == x'], trigger=['HINQ(p, q, pairs + [x], D)'])
    w.lemma('hinq_none', 'p:N, q:S, pairs:List[%s], D:Set[Tuple[N,S]]' % HT, requires=['HINQ(p, q, pairs, D)', 'len(pairs) == 0'], ensures=['(p, q) in D'], hints=['reveal(HINQ(p, q, pairs, D))'], trigger=['HINQ(p, q, pairs, D)'])
    SFX = 'kid(p, a).path[len(x.path):]'
    w.lemma('hs_step', 'x:N, h:S, p:N, s:S, a:val', requires=['IN(x)', 'HS(x, h, p, s)', 'a in p.successors', 'a in s.transitions'], ensures=['HS(x, h, kid(p, a), s.transitions[a])', 'len(kid(p, a).path) > len(x.path)'], trigger=[('kid(p, a)', 's.transitions[a]', 'HS(x, h, p, s)')],
            hints=['reveal(HS(x, h, p, s), HS(x, h, kid(p, a), s.transitions[a]))', 'assert %s == p.path[len(x.path):] + (a,)' % SFX, 'assert {0}[:len({0}) - 1] == p.path[len(x.path):]'.format(SFX), 'assert hdef(h, %s)' % SFX])
    w.lemma('hs_in', 'x:N, h:S, p:N, s:S', requires=['HS(x, h, p, s)', 'IN(x)'], ensures=['IN(p)', 'p.tree == x.tree', 'len(p.path) >= len(x.path)', 'p.path == x.path + p.path[len(x.path):]', 'p.path[:len(x.path)] == x.path'], hints=['reveal(HS(x, h, p, s))'], trigger=['HS(x, h, p, s)'])
    w.lemma('hs_refl', 'x:N, h:S', requires=['IN(x)'], ensures=['HS(x, h, x, h)'], hints=['reveal(HS(x, h, x, h))', 'assert x.path[len(x.path):] == ()'])
    w.lemma('hcl_all', 'D:Set[Tuple[N,S]], x:N, h:S, p:N, s:S, k:int', requires=['IN(x)', 'HCL(D)', '(x, h) in D', 'HS(x, h, p, s)', 'k == len(p.path) - len(x.path)'],
            ensures=['(p, s) in D'] + ([] if mealy else ['out(p) == s.%s' % lab]), induct='k', fix=('D', 'x', 'h'),
            hints=['reveal(HS(x, h, p, s))\nif k > 0:\n    g_u = p.path[len(x.path):]\n    g_s = hrun(h, g_u[:len(g_u) - 1])\n    reveal(HS(x, h, p.parent, g_s))\n    assert p.parent.path == p.path[:len(p.path) - 1]\n    assert p.parent.path[len(x.path):] == g_u[:len(g_u) - 1]\n    assert HS(x, h, p.parent, g_s)\n    assert p.input_to_parent == g_u[len(g_u) - 1]\n    assert p.input_to_parent in g_s.transitions'])
    w.lemma('hcl_use', 'D:Set[Tuple[N,S]], x:N, h:S, p:N, s:S', requires=['IN(x)', 'HCL(D)', '(x, h) in D', 'HS(x, h, p, s)'], ensures=['(p, s) in D'] + ([] if mealy else ['out(p) == s.%s' % lab]),
            trigger=['HS(x, h, p, s)'], hints=['hcl_all(D, x, h, p, s, len(p.path) - len(x.path))'])
    HB = 'ob_tree_state, %s'
    HREQ = ['IN(ob_tree_state)', 'ob_tree_state.tree == ob_tree', 'OVER(ob_tree, ob_tree.alphabet)', 'HASOUT(ob_tree)', 'TOTAL()']
    H0 = 'old(hyp_state)'
    w.contract(P + '.compute_witness_in_tree_and_hypothesis_states_' + ('mealy' if mealy else 'moore'), name='A.hyp', params={'ob_tree': 'T', 'ob_tree_state': 'N', 'hyp_state': 'S'}, returns='Opt[List[val]]', requires=HREQ,
               locals={'g_done': 'Set[Tuple[N,S]]', 'pairs': 'List[%s]' % HT, 'tree_dest': 'N', **({'tree_state': 'N?'} if not mealy else {})}, lemmas=['hinq_new', 'hinq_push'],
               loops={0: Loop(inv=['HQOK(ob_tree_state, g_h, pairs, g_done)', 'HCLQ(g_done, pairs)', 'HINQ(ob_tree_state, g_h, pairs, g_done)']),
                      1: Loop(inv=['HQOK(ob_tree_state, g_h, pairs, g_done)', 'HCLX(g_done, pairs, tree_state, hyp_state)', 'HINQ(ob_tree_state, g_h, pairs, g_done)', 'HP(tree_state, hyp_state) in g_done',
                              'forall("a:val", implies(a in ob_tree.alphabet[:_k] and a in tree_state.successors and a in hyp_state.transitions, %sHINQ(kid(tree_state, a), hyp_state.transitions[a], pairs, g_done)), (kid(tree_state, a), hyp_state.transitions[a]))' % ('out(kid(tree_state, a)) == hyp_state.output_fun[a] and ' if mealy else '')])},
               ghost={'entry': 'g_h = hyp_state\ng_done = set()\nhs_refl(ob_tree_state, hyp_state)\nuse(hs_step(ob_tree_state, g_h, _, _, _), hs_in(ob_tree_state, g_h, _, _))', 'after:pairs = deque': 'reveal(HINQ(ob_tree_state, g_h, pairs, g_done))',
                      'loop0.start': 'g_d0 = g_done\ng_p0 = pairs', 'after:tree_state, hyp_state = ': ('g_done = g_done | {HP(tree_state, hyp_state)}' if mealy else 'if tree_state is not None:\n    g_done = g_done | {HP(tree_state, hyp_state)}') + '\nuse(hinq_pop(_, _, g_p0, g_d0, pairs, g_done))',
                      'loop1.end': 'assert forall("a:val", iff(a in ob_tree.alphabet[:_k + 1], a in ob_tree.alphabet[:_k] or a == input_val), a in ob_tree.alphabet[:_k + 1])',
                      'exit': 'if result is None:\n    use(hinq_none)\n    assert HCL(g_done)\n    use(hcl_use(g_done, ob_tree_state, g_h, _, _))'},
               ensures=['iff(result is None, %s)' % (NOD % ((HB % H0,) * 2)), 'implies(result is not None, %s)' % ISD.format(HB % H0, 'ob_tree_state')])
    w.contract(P + '.compute_witness_in_tree_and_hypothesis_states', name='A.hypothesis', params={'ob_tree': 'T', 'ob_tree_state': 'N', 'hyp_state': 'S'}, returns='Opt[List[val]]', requires=HREQ,
               ensures=['iff(result is None, %s)' % (NOD % ((HB % 'hyp_state',) * 2)), 'implies(result is not None, %s)' % ISD.format(HB % 'hyp_state', 'ob_tree_state')])
    return w
