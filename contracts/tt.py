"""C20: trees of sampled traces of non-deterministic and stochastic systems."""
from pyvc.world import World, Loop

F = 'aalpy/learning_algs/non_deterministic/TraceTree.py'
W_ = 'aalpy/learning_algs/non_deterministic/NonDeterministicSULWrapper.py::NonDeterministicSULWrapper'


def world():
    w = World('tt')
    w.cls('N', F + '::Node', {'output': 'val', 'children': 'Map[val,List[N]]', 'parent': 'N?', 'frequency_counter': 'int'}, ghost={'ins': 'Tup[val]', 'outs': 'Tup[val]', 'tree': 'T?', 'kids': 'Map[val,List[N]]'})
    w.cls('T', F + '::TraceTree', {'root_node': 'N', 'curr_node': 'N?'})
    w.spec('''
def CH(n: 'N', a: 'val') -> 'List[N]':
    return ite(a in n.children, n.children[a], [])
''', opaque=True, reads=['N.children'])
    w.spec('''
def KD(n: 'N', a: 'val') -> 'List[N]':
    return ite(a in n.kids, n.kids[a], [])
''', opaque=True, reads=['N.kids'])
    w.spec('''
def TREE(t: 'T') -> 'bool':
    return (alloc(t.root_node) and t.root_node.tree == t and t.root_node.ins == () and t.root_node.outs == () and t.root_node.parent is None and
      forall("n:N, a:val, i:int", implies(alloc(n) and n.tree == t and 0 <= i and i < len(KD(n, a)),
                alloc(KD(n, a)[i]) and KD(n, a)[i].tree == t and KD(n, a)[i].ins == n.ins + (a,) and KD(n, a)[i].outs == n.outs + (KD(n, a)[i].output,) and KD(n, a)[i].parent == n), KD(n, a)[i]) and
      forall("n:N, m:N", implies(alloc(n) and alloc(m) and n.tree == t and m.tree == t and n.ins == m.ins and n.outs == m.outs, n == m), (n.ins, m.ins)) and
      forall("n:N", implies(alloc(n) and n.tree == t, len(n.ins) == len(n.outs)), n.ins) and
      forall("n:N", implies(alloc(n) and n.tree == t and n != t.root_node, n.parent is not None and alloc(n.parent) and n.parent.tree == t and len(n.ins) > 0 and n.output == n.outs[len(n.outs) - 1] and n.frequency_counter >= 1
               and n.parent.ins == n.ins[:len(n.ins) - 1] and n.parent.outs == n.outs[:len(n.outs) - 1] and n in KD(n.parent, n.ins[len(n.ins) - 1])), n.ins, n.outs, n.parent))
def LINK(t: 'T') -> 'bool':
    return forall("n:N, a:val", implies(alloc(n) and n.tree == t, KD(n, a) == CH(n, a)), CH(n, a), KD(n, a))
def INV(t: 'T') -> 'bool':
    return TREE(t) and LINK(t)
def IN(t: 'T', n: 'N') -> 'bool':
    return alloc(n) and n.tree == t
def has(t: 'T', u: 'Tup[val]', o: 'Tup[val]') -> 'bool':
    return exists("n:N", alloc(n) and n.tree == t and n.ins == u and n.outs == o, n.ins)
def NN(x: 'N?') -> 'bool':
    return x is not None
''')
    w.lemma('ch', 'n:N, a:val', ensures=['CH(n, a) == ite(a in n.children, n.children[a], [])'], trigger=['CH(n, a)'], hints=['reveal(CH(n, a))'])
    w.lemma('kd', 'n:N, a:val', ensures=['KD(n, a) == ite(a in n.kids, n.kids[a], [])'], trigger=['KD(n, a)'], hints=['reveal(KD(n, a))'])
    SAME = 'forall("s:N, a:val", implies(old(alloc(s)), CH(s, a) == old(CH(s, a))), CH(s, a))'
    w.contract(F + '::Node.__init__', name='N.__init__', params={'self': 'N', 'output': 'val'}, recv='N', modifies=['self.*'],
               ensures=['self.output == output', 'forall("a:val", not (a in self.children), a in self.children)', 'self.parent is None', 'self.frequency_counter == 0'])
    w.contract(F + '::Node.get_child', name='N.get_child', params={'self': 'N', 'inp': 'val', 'out': 'val'}, returns='N?', recv='N', modifies=['self.children'], ghost={'entry': 'use(ch(_, _))', 'exit': 'use(ch(_, _))'},
               ensures=[SAME, 'iff(result is None, forall("i:int", implies(0 <= i and i < len(CH(self, inp)), CH(self, inp)[i].output != out), CH(self, inp)[i]))',
                        'implies(result is not None, result.output == out and exists("i:int", 0 <= i and i < len(CH(self, inp)) and CH(self, inp)[i] == result, CH(self, inp)[i]))'])
    w.contract(F + '::Node.get_prefix', name='N.get_prefix', params={'self': 'N'}, returns='Tup[val]', recv='N', requires=['self.tree is not None', 'alloc(self.tree)', 'TREE(self.tree)', 'alloc(self)'], locals={'prefix': 'Tup[val]', 'curr_node': 'N'},
               loops={0: Loop(inv=['IN(self.tree, curr_node)', 'len(curr_node.outs) + len(prefix) == len(self.outs)', 'curr_node.outs == self.outs[:len(curr_node.outs)]', 'prefix == self.outs[len(curr_node.outs):]'])},
               ensures=['result == self.outs'])
    w.contract(F + '::TraceTree.__init__', name='T.__init__', params={'self': 'T'}, recv='T', modifies=['self.*'], allocs=['N'], requires=['alloc(self)', 'forall("n:N", implies(alloc(n), n.tree != self), n.tree)'],
               ghost={'exit': 'self.root_node.ins = ()\nself.root_node.outs = ()\nself.root_node.tree = self\nself.root_node.kids = self.root_node.children\nuse(ch(_, _), kd(_, _))'},
               ensures=['INV(self)', 'forall("n:N", implies(alloc(n) and n.tree == self, n == self.root_node), n.tree)', 'self.root_node.frequency_counter == 0'])
    w.contract(F + '::TraceTree.reset', name='T.reset', params={'self': 'T'}, recv='T', modifies=['self.curr_node'], ensures=['self.curr_node == self.root_node'])
    # ---- one observed step
    CUR = 'old(self.curr_node)'
    P = "(%s.ins + (inp,))" % CUR
    Q = "(%s.outs + (out,))" % CUR
    w.contract(F + '::TraceTree.add_to_tree', name='T.add_to_tree', params={'self': 'T', 'inp': 'val', 'out': 'val'}, recv='T', allocs=['N'], share=['kids'],
               modifies=['self.curr_node', 'N.children', 'N.output', 'N.parent', 'N.frequency_counter', 'N.ins', 'N.outs', 'N.tree', 'N.kids'], requires=['INV(self)', 'NN(self.curr_node)', 'IN(self, self.curr_node)'],
               ghost={'entry': 'g_c = self.curr_node\nuse(ch(_, _), kd(_, _))', 'after:node.parent = ': """
node.ins = g_c.ins + (inp,)
node.outs = g_c.outs + (out,)
node.tree = self
node.kids = node.children
g_c.kids = g_c.children
use(ch(_, _), kd(_, _))
assert CH(g_c, inp)[len(CH(g_c, inp)) - 1] == node
""", 'before:self.curr_node = self.curr_node.get_child': 'use(ch(_, _))\nassert exists("i:int", 0 <= i and i < len(CH(g_c, inp)) and CH(g_c, inp)[i].output == out, CH(g_c, inp)[i])',
   'after:self.curr_node = self.curr_node.get_child': 'assert self.curr_node is not None', 'exit': """
assert self.curr_node is not None and self.curr_node.ins == g_c.ins + (inp,) and self.curr_node.outs == g_c.outs + (out,) and self.curr_node.tree == self and alloc(self.curr_node)
assert forall("n:N", implies(alloc(n) and n.tree == self and n != self.curr_node, old(alloc(n) and n.tree == self) and n.ins == old(n.ins) and n.outs == old(n.outs) and n.parent == old(n.parent)), n.ins)
assert forall("n:N, a:val", implies(alloc(n) and n.tree == self and n != self.curr_node and (n != g_c or a != inp), KD(n, a) == old(KD(n, a))), KD(n, a))
assert forall("n:N, a:val", implies(alloc(n) and n.tree == self, KD(n, a) == CH(n, a)), CH(n, a), KD(n, a))
"""},
               ensures=['INV(self)', 'NN(self.curr_node)', 'IN(self, self.curr_node)', 'self.curr_node.ins == ' + P, 'self.curr_node.outs == ' + Q, 'implies(fresh(self.curr_node), self.curr_node.frequency_counter == 1)',
                        'forall("n:N", implies(old(alloc(n)), n.tree == old(n.tree) and n.ins == old(n.ins) and n.outs == old(n.outs) and n.frequency_counter == old(n.frequency_counter) + ite(n == self.curr_node, 1, 0)), n.tree, n.ins, n.outs, n.frequency_counter)',
                        'forall("n:N", implies(alloc(n) and n.tree == self and not old(alloc(n) and n.tree == self), n == self.curr_node), n.tree)', 'self.root_node == old(self.root_node)'])
    HIT = 'len(n.ins) > 0 and len(n.ins) <= {k} and n.ins == tuple(inputs[:len(n.ins)]) and n.outs == tuple(outputs[:len(n.ins)])'
    TR = ['INV(self)', 'NN(self.curr_node)', 'IN(self, self.curr_node)', 'self.curr_node.ins == tuple(inputs[:{k}])', 'self.curr_node.outs == tuple(outputs[:{k}])', 'self.root_node == old(self.root_node)',
          'forall("n:N", implies(old(alloc(n)), n.tree == old(n.tree) and n.ins == old(n.ins) and n.outs == old(n.outs)), n.tree, n.ins, n.outs)',
          'forall("n:N", implies(old(alloc(n) and n.tree == self), n.frequency_counter == old(n.frequency_counter) + ite(%s, 1, 0)), n.frequency_counter)' % HIT,
          'forall("n:N", implies(old(alloc(n) and n.tree != self), n.frequency_counter == old(n.frequency_counter)), n.frequency_counter)',
          'forall("n:N", implies(alloc(n) and n.tree == self and not old(alloc(n) and n.tree == self), n.frequency_counter == 1 and %s), n.tree)' % HIT]
    M = 'min(len(inputs), len(outputs))'
    w.contract(F + '::TraceTree.add_trace', name='T.add_trace', params={'self': 'T', 'inputs': 'Seq[val]', 'outputs': 'Seq[val]'}, recv='T', allocs=['N'],
               modifies=['self.curr_node', 'N.children', 'N.output', 'N.parent', 'N.frequency_counter', 'N.ins', 'N.outs', 'N.tree', 'N.kids'], requires=['INV(self)'],
               loops={0: Loop(inv=[x.replace('{k}', '_k') for x in TR])}, ensures=[x.replace('{k}', M) for x in TR])
    w.lemma('prefix_closed', 't:T, n:N, j:int', requires=['TREE(t)', 'alloc(n)', 'n.tree == t', '0 <= j', 'j <= len(n.ins)'],
            ensures=['has(t, n.ins[:len(n.ins) - j], n.outs[:len(n.ins) - j])'], induct='j', fix=('t', 'n'),
            hints=['assert implies(j > 0, forall("m:N", implies(alloc(m) and m.tree == t and m.ins == n.ins[:len(n.ins) - (j - 1)] and m.outs == n.outs[:len(n.ins) - (j - 1)], m.parent.ins == n.ins[:len(n.ins) - j] and m.parent.outs == n.outs[:len(n.ins) - j]), m.ins))'])
    w.lemma('prefixes_present', 'n:N, i:int', requires=['alloc(n)', 'n.tree is not None', 'TREE(n.tree)', '0 <= i', 'i <= len(n.ins)'],
            ensures=['has(n.tree, n.ins[:i], n.outs[:i])'], trigger=['n.ins[:i]'], hints=['prefix_closed(n.tree, n, len(n.ins) - i)'])
    w.contract(F + '::TraceTree.get_to_node', name='T.get_to_node', params={'self': 'T', 'inputs': 'Seq[val]', 'outputs': 'Seq[val]'}, returns='N?', recv='T', modifies=['N.children'], requires=['INV(self)'], locals={'curr_node': 'N'},
               loops={0: Loop(inv=['INV(self)', 'IN(self, curr_node)', 'curr_node.ins == tuple(inputs[:_k])', 'curr_node.outs == tuple(outputs[:_k])', SAME])},
               ghost={'exit': 'if result is None:\n    use(prefixes_present)\n    assert not has(self, tuple(inputs[:_k + 1]), tuple(outputs[:_k + 1]))\n'},
               ensures=['INV(self)', SAME, 'iff(result is None, not has(self, tuple(inputs[:%s]), tuple(outputs[:%s])))' % (M, M), 'implies(result is not None, IN(self, result) and result.ins == tuple(inputs[:%s]) and result.outs == tuple(outputs[:%s]))' % (M, M)])
    # ---- everything below a node along an input word
    w.spec("""
def ANC(q: 'N', n: 'N') -> 'bool':
    return len(q.ins) <= len(n.ins) and n.ins[:len(q.ins)] == q.ins and n.outs[:len(q.ins)] == q.outs
""", opaque=True, reads=['N.ins', 'N.outs'])
    w.spec("""
def INQ(n: 'N', q: 'List[Tuple[N,int]]', R: 'List[N]') -> 'bool':
    return n in R or exists("j:int", 0 <= j and j < len(q) and ANC(q[j][0], n), q[j])
""", opaque=True, reads=['N.ins', 'N.outs'])
    w.spec("""
def REST(n: 'N', l: 'List[N]', k: 'int') -> 'bool':
    return exists("i:int", k <= i and i < len(l) and ANC(l[i], n), l[i])
""", opaque=True, reads=['N.ins', 'N.outs'])
    w.spec("""
def TARGET(t: 'T', n: 'N', p: 'Tup[val]', o: 'Tup[val]', e: 'Tup[val]') -> 'bool':
    return IN(t, n) and n.ins == p + e and n.outs[:len(p)] == o
def QOK(t: 'T', q: 'List[Tuple[N,int]]', p: 'Tup[val]', o: 'Tup[val]', e: 'Tup[val]') -> 'bool':
    return forall("j:int", implies(0 <= j and j < len(q), QEL(t, q[j][0], q[j][1], p, o, e)), q[j])
def QEL(t: 'T', n: 'N', d: 'int', p: 'Tup[val]', o: 'Tup[val]', e: 'Tup[val]') -> 'bool':
    return IN(t, n) and 0 <= d and d <= len(e) and n.ins == p + e[:d] and n.outs[:len(p)] == o
def PAIR(n: 'N', d: 'int') -> 'Tuple[N,int]':
    return (n, d)
""")
    w.spec("""
def ANCX(q: 'N', n: 'N') -> 'bool':
    return ANC(q, n)
""")
    w.lemma('anc_self', 'n:N, m:N, t:T', requires=['TREE(t)', 'IN(t, n)', 'IN(t, m)', 'ANC(n, m)', 'len(n.ins) == len(m.ins)'], ensures=['n == m'], hints=['reveal(ANC(n, m))'], trigger=['ANC(n, m)'])
    w.lemma('anc_intro', 'q:N, n:N', requires=['len(q.ins) <= len(n.ins)', 'n.ins[:len(q.ins)] == q.ins', 'n.outs[:len(q.ins)] == q.outs'], ensures=['ANC(q, n)'], trigger=['ANC(q, n)'], hints=['reveal(ANC(q, n))'])
    w.lemma('anc_elim', 'q:N, n:N', requires=['ANC(q, n)'], ensures=['len(q.ins) <= len(n.ins)'], trigger=['ANC(q, n)'], hints=['reveal(ANC(q, n))'])
    w.lemma('anc_in', 'q:N, n:N, t:T, p:Tup[val], o:Tup[val], e:Tup[val]', requires=['TREE(t)', 'IN(t, q)', 'q.ins == p', 'q.outs == o', 'TARGET(t, n, p, o, e)'], ensures=['ANC(q, n)'], trigger=['n.ins', 'n.outs'], hints=['reveal(ANC(q, n))'])
    w.lemma('inq_pop', 'n:N, q:List[Tuple[N,int]], R:List[N]', requires=['INQ(n, q, R)', 'len(q) > 0'], ensures=['ANC(q[0][0], n) or INQ(n, q[1:], R)'], trigger=['INQ(n, q[1:], R)'],
            hints=['reveal(INQ(n, q, R), INQ(n, q[1:], R))', 'assert forall("j:int", implies(0 < j and j < len(q), q[1:][j - 1] == q[j]), q[j])'])
    w.lemma('inq_push', 'n:N, q:List[Tuple[N,int]], R:List[N], x:Tuple[N,int]', requires=['INQ(n, q, R) or ANC(x[0], n)'], ensures=['INQ(n, q + [x], R)'], trigger=['INQ(n, q + [x], R)'],
            hints=['reveal(INQ(n, q, R), INQ(n, q + [x], R))', 'assert forall("j:int", implies(0 <= j and j < len(q), (q + [x])[j] == q[j]), q[j])', 'assert (q + [x])[len(q)] == x'])
    w.lemma('inq_reach', 'n:N, q:List[Tuple[N,int]], R:List[N], x:N', requires=['INQ(n, q, R) or x == n'], ensures=['INQ(n, q, R + [x])'], trigger=['INQ(n, q, R + [x])'], hints=['reveal(INQ(n, q, R), INQ(n, q, R + [x]))'])
    w.lemma('inq_none', 'n:N, q:List[Tuple[N,int]], R:List[N]', requires=['INQ(n, q, R)', 'len(q) == 0'], ensures=['n in R'], trigger=['INQ(n, q, R)'], hints=['reveal(INQ(n, q, R))'])
    w.lemma('rest_next', 'n:N, l:List[N], k:int', requires=['REST(n, l, k)', '0 <= k', 'k < len(l)'], ensures=['ANC(l[k], n) or REST(n, l, k + 1)'], trigger=['REST(n, l, k)'], hints=['reveal(REST(n, l, k), REST(n, l, k + 1))'])
    w.lemma('rest_end', 'n:N, l:List[N], k:int', requires=['REST(n, l, k)'], ensures=['k < len(l)'], trigger=['REST(n, l, k)'], hints=['reveal(REST(n, l, k))'])
    w.lemma('rest_all', 't:T, q:N, n:N', requires=['TREE(t)', 'IN(t, q)', 'IN(t, n)', 'ANC(q, n)', 'len(q.ins) < len(n.ins)'], ensures=['REST(n, KD(q, n.ins[len(q.ins)]), 0)'], trigger=['ANC(q, n)'],
            hints=['prefix_closed(t, n, len(n.ins) - len(q.ins) - 1)\nuse(anc_intro)\nreveal(ANC(q, n), REST(n, KD(q, n.ins[len(q.ins)]), 0))\nassert has(t, n.ins[:len(q.ins) + 1], n.outs[:len(q.ins) + 1])',
                   """assert forall("c:N", implies(IN(t, c) and c.ins == n.ins[:len(q.ins) + 1] and c.outs == n.outs[:len(q.ins) + 1], c != t.root_node and c.parent.ins == q.ins and c.parent.outs == q.outs and IN(t, c.parent)), c.ins)""",
                   """assert forall("c:N", implies(IN(t, c) and c.ins == n.ins[:len(q.ins) + 1] and c.outs == n.outs[:len(q.ins) + 1], c.parent == q and c.ins[len(c.ins) - 1] == n.ins[len(q.ins)]), c.ins)""",
                   """assert forall("c:N", implies(IN(t, c) and c.ins == n.ins[:len(q.ins) + 1] and c.outs == n.outs[:len(q.ins) + 1], c in KD(q, n.ins[len(q.ins)])), c.ins)""",
                   """assert forall("c:N", implies(IN(t, c) and c.ins == n.ins[:len(q.ins) + 1] and c.outs == n.outs[:len(q.ins) + 1], ANCX(c, n)), c.ins)"""])
    PRE = ['INV(self)', 'len(prefix[0]) == len(prefix[1])']
    PE = 'prefix[0], prefix[1], tuple(e)'
    S0 = ['INV(self)', SAME]
    w.contract(F + '::TraceTree.get_all_traces', name='T.get_all_traces', params={'self': 'T', 'prefix': 'Tuple[Tup[val],Tup[val]]', 'e': 'Tup[val]'}, returns='List[Tup[val]]', recv='T', modifies=['N.children'], requires=PRE,
               locals={'queue': 'List[Tuple[N,int]]', 'reached_nodes': 'List[N]', 'curr_node': 'N?', 'children_with_same_input': 'List[N]'},
               loops={0: Loop(inv=S0 + ['curr_node is not None', 'IN(self, curr_node)', 'curr_node.ins == prefix[0][:_a]', 'curr_node.outs == prefix[1][:_a]'], idx='_a', it='_ita'),
                      1: Loop(inv=S0 + ['QOK(self, queue, %s)' % PE, 'forall("j:int", implies(0 <= j and j < len(reached_nodes), TARGET(self, reached_nodes[j], %s)), reached_nodes[j])' % PE,
                                   'forall("n:N", implies(TARGET(self, n, %s), INQ(n, queue, reached_nodes)), n.ins)' % PE]),
                      2: Loop(inv=S0 + ['QOK(self, queue, %s)' % PE, 'children_with_same_input == KD(node, e[depth])', 'QEL(self, node, depth, %s)' % PE, 'depth < len(e)',
                                        'forall("n:N", implies(TARGET(self, n, %s), INQ(n, queue, reached_nodes) or REST(n, KD(node, e[depth]), _b)), n.ins)' % PE], idx='_b', it='_itb'),
                      'comp0': Loop(inv=['len(_acc) == _c', 'forall("j:int", implies(0 <= j and j < _c, _acc[j] == reached_nodes[j].outs[len(prefix[0]):]), _acc[j], reached_nodes[j])'], idx='_c', it='_itc', locals={'_acc': 'List[Tup[val]]'})},
               ghost={'entry': 'use(inq_push, inq_reach, rest_next, rest_end, inq_none, anc_intro)', 'loop1.start': 'g_q0 = queue', 'after:node, depth = ': 'use(inq_pop(_, g_q0, reached_nodes), rest_all(self, node, _), anc_self(node, _, self))\nassert QEL(self, node, depth, %s)\nassert forall("n:N", implies(TARGET(self, n, %s), INQ(n, queue, reached_nodes) or ANC(node, n)), n.ins)' % (PE, PE),
                      'after:curr_node = curr_node.get_child': 'use(prefixes_present)\nassert implies(curr_node is None, not has(self, prefix[0][:_a + 1], prefix[1][:_a + 1]))\nassert implies(curr_node is None, forall("n:N", implies(TARGET(self, n, %s), has(self, n.ins[:_a + 1], n.outs[:_a + 1])), n.ins))\nassert implies(curr_node is None, forall("n:N", not TARGET(self, n, %s), n.ins))' % (PE, PE),
                      'before:children_with_same_input = ': 'use(ch(_, _))',
                      'after:children_with_same_input = ': 'use(ch(_, _))\nassert children_with_same_input == KD(node, e[depth])\nassert forall("n:N", implies(TARGET(self, n, %s), n.ins[len(node.ins)] == e[depth]), n.ins)' % PE,
                      'before:queue = ': 'use(anc_in(curr_node, _, self, %s))' % PE,
                      'exit': 'use(prefixes_present)'},
               ensures=S0 + ['forall("n:N", implies(len(e) > 0 and TARGET(self, n, %s), n.outs[len(prefix[0]):] in result), n.ins)' % PE,
                        'forall("c:Tup[val]", implies(c in result, len(c) == len(e) and has(self, prefix[0] + e, prefix[1] + c)), c in result)'])
    # ---- how often a continuation was observed: the counters of the nodes it leads to, summed up
    w.spec("""
def W(l: 'List[N]', k: 'int', e: 'Tup[val]', d: 'int') -> 'int':
    return ite(k <= 0, 0, W(l, k - 1, e, d) + ite(d >= len(e), l[k - 1].frequency_counter, W(KD(l[k - 1], e[d]), len(KD(l[k - 1], e[d])), e, d + 1)))
""", reads=['N.frequency_counter', 'N.kids'])
    w.spec("""
def V(n: 'N', e: 'Tup[val]', d: 'int') -> 'int':
    return ite(d >= len(e), n.frequency_counter, W(KD(n, e[d]), len(KD(n, e[d])), e, d + 1))
def V1(x: 'Tuple[N,int]', e: 'Tup[val]') -> 'int':
    return V(x[0], e, x[1])
""")
    w.spec("""
def QS(q: 'List[Tuple[N,int]]', k: 'int', e: 'Tup[val]') -> 'int':
    return ite(k <= 0, 0, QS(q, k - 1, e) + V1(q[k - 1], e))
""", reads=['N.frequency_counter', 'N.kids'])
    w.lemma('qs_app', 'q:List[Tuple[N,int]], k:int, e:Tup[val], x:Tuple[N,int]', requires=['0 <= k', 'k <= len(q)'], ensures=['QS(q + [x], k, e) == QS(q, k, e)'], induct='k', fix=('q', 'e', 'x'), trigger=['QS(q + [x], k, e)'])
    w.lemma('qs_pop', 'q:List[Tuple[N,int]], k:int, e:Tup[val]', requires=['0 <= k', 'k < len(q)'], ensures=['QS(q, k + 1, e) == V1(q[0], e) + QS(q[1:], k, e)'], induct='k', fix=('q', 'e'), hints=['assert implies(k > 0, q[1:][k - 1] == q[k])'])
    w.contract(F + '::TraceTree.get_s_e_sampling_frequency', name='T.get_s_e_sampling_frequency', params={'self': 'T', 'prefix': 'Tuple[Tup[val],Tup[val]]', 'suffix': 'Tup[val]'}, returns='int', recv='T', modifies=['N.children'],
               requires=PRE + ['len(suffix) > 0'], locals={'queue': 'List[Tuple[N,int]]', 'curr_node': 'N?', 'children_with_same_input': 'List[N]'},
               loops={0: Loop(inv=S0 + ['curr_node is not None', 'IN(self, curr_node)', 'curr_node.ins == prefix[0][:_a]', 'curr_node.outs == prefix[1][:_a]'], idx='_a', it='_ita'),
                      1: Loop(inv=S0 + ['forall("j:int", implies(0 <= j and j < len(queue), IN(self, queue[j][0]) and 0 <= queue[j][1] and queue[j][1] < len(suffix)), queue[j])', 'sampling_frequency + QS(queue, len(queue), suffix) == V(g_n, suffix, 0)']),
                      2: Loop(inv=S0 + ['depth == len(suffix) - 1', 'children_with_same_input == KD(node, suffix[depth])', 'sampling_frequency == g_s + W(KD(node, suffix[depth]), _b, suffix, depth + 1)'], idx='_b', it='_itb'),
                      3: Loop(inv=S0 + ['0 <= depth', 'depth < len(suffix) - 1', 'IN(self, node)', 'children_with_same_input == KD(node, suffix[depth])', 'forall("j:int", implies(0 <= j and j < len(queue), IN(self, queue[j][0]) and 0 <= queue[j][1] and queue[j][1] < len(suffix)), queue[j])',
                                        'QS(queue, len(queue), suffix) == QS(g_q, len(g_q), suffix) + W(KD(node, suffix[depth]), _b, suffix, depth + 1)'], idx='_b', it='_itb')},
               ghost={'entry': 'use(qs_app)', 'after:queue = ': 'g_n = curr_node\nassert queue[0] == PAIR(curr_node, 0) and len(queue) == 1\nassert QS(queue, 0, suffix) == 0\nassert QS(queue, 1, suffix) == QS(queue, 0, suffix) + V1(queue[0], suffix)',
                      'loop3.start': 'g_q3 = queue', 'loop3.end': 'assert queue == g_q3 + [PAIR(c, depth + 1)]\nassert c == KD(node, suffix[depth])[_b]\nassert W(KD(node, suffix[depth]), _b + 1, suffix, depth + 1) == W(KD(node, suffix[depth]), _b, suffix, depth + 1) + V(c, suffix, depth + 1)\nassert QS(queue, len(g_q3), suffix) == QS(g_q3, len(g_q3), suffix)\nassert QS(queue, len(queue), suffix) == QS(queue, len(g_q3), suffix) + V1(queue[len(g_q3)], suffix)', 'loop1.start': 'g_q0 = queue\nqs_pop(g_q0, len(g_q0) - 1, suffix)', 'after:node, depth = ': 'g_q = queue\ng_s = sampling_frequency\nassert sampling_frequency + V(node, suffix, depth) + QS(queue, len(queue), suffix) == V(g_n, suffix, 0)',
                      'after:curr_node = curr_node.get_child': 'use(prefixes_present)\nassert implies(curr_node is None, not has(self, prefix[0][:_a + 1], prefix[1][:_a + 1]))\nassert implies(curr_node is None, not has(self, prefix[0], prefix[1]))',
                      'before:children_with_same_input = ': 'use(ch(_, _))', 'after:children_with_same_input = ': 'use(ch(_, _))\nassert children_with_same_input == KD(node, suffix[depth])'},
               ensures=S0 + ['implies(not has(self, prefix[0], prefix[1]), result == 0)', 'forall("n:N", implies(IN(self, n) and n.ins == prefix[0] and n.outs == prefix[1], result == V(n, suffix, 0)), n.ins)'])
    w.lemma('sum_w', 'l:List[N], s:List[int], k:int, e:Tup[val]', requires=['0 <= k', 'k <= len(l)', 'len(s) == len(l)', 'forall("j:int", implies(0 <= j and j < len(l), s[j] == l[j].frequency_counter), s[j])'], ensures=['sum(s, k) == W(l, k, e, len(e))'], induct='k', fix=('l', 's', 'e'), trigger=['sum(s, k)'])
    w.lemma('w_pos', 'l:List[N], k:int, e:Tup[val]', requires=['0 <= k', 'k <= len(l)', 'forall("i:int", implies(0 <= i and i < len(l), l[i].frequency_counter >= 1), l[i])'], ensures=['W(l, k, e, len(e)) >= k'], induct='k', fix=('l', 'e'))
    w.spec('''
def SHARE(x: 'real', n: 'int', f: 'int') -> 'bool':
    return x * n == f
''', opaque=True)
    K = 'KD({n}, input_from_alphabet)'
    NODE = 'IN(self, n) and n.ins == prefix[0] and n.outs == prefix[1]'
    w.contract(F + '::TraceTree.get_sampling_distributions', name='T.get_sampling_distributions', params={'self': 'T', 'prefix': 'Tuple[Tup[val],Tup[val]]', 'input_from_alphabet': 'val'}, returns='Map[val,real]', recv='T', modifies=['N.children'],
               requires=PRE + ['has(self, prefix[0], prefix[1])'],
               ghost={'after:curr_node = curr_node.get_child': 'use(prefixes_present)\nassert forall("n:N", implies(IN(self, n) and n.ins == prefix[0] and n.outs == prefix[1], has(self, n.ins[:_a + 1], n.outs[:_a + 1])), n.ins)\nassert has(self, prefix[0][:_a + 1], prefix[1][:_a + 1])\nassert curr_node is not None',
                      'before:children = ': 'use(ch(_, _))', 'after:children = ': 'use(ch(_, _))\nassert children == KD(curr_node, input_from_alphabet)\nuse(sum_w(children, _, len(children), (input_from_alphabet,)))\nw_pos(children, len(children), (input_from_alphabet,))',
                      'after:sampling_sum = ': 'assert sampling_sum == V(curr_node, (input_from_alphabet,), 0)\nassert sampling_sum >= len(children)',
                      'loop1.end': 'reveal(SHARE(sampling_distribution[c.output], sampling_sum, c.frequency_counter))\nassert SHARE(sampling_distribution[c.output], sampling_sum, c.frequency_counter)\nassert forall("i:int", implies(0 <= i and i < _b and children[i].output != c.output, sampling_distribution[children[i].output] == g_m[children[i].output]), children[i])',
                      'loop1.start': 'g_m = sampling_distribution\nassert c == children[_b]\nassert forall("i:int", implies(0 <= i and i < _b and children[i].output == c.output, children[i] == c), children[i])'}, locals={'sampling_distribution': 'Map[val,real]', 'curr_node': 'N?', 'children': 'List[N]'},
               loops={0: Loop(inv=S0 + ['curr_node is not None', 'IN(self, curr_node)', 'curr_node.ins == prefix[0][:_a]', 'curr_node.outs == prefix[1][:_a]'], idx='_a', it='_ita'),
                      1: Loop(inv=S0 + ['children == KD(curr_node, input_from_alphabet)', 'forall("i:int", implies(0 <= i and i < _b, children[i].output in sampling_distribution and SHARE(sampling_distribution[children[i].output], sampling_sum, children[i].frequency_counter)), children[i])',
                                        'forall("o:val", implies(o in sampling_distribution, exists("i:int", 0 <= i and i < _b and children[i].output == o, children[i])), o in sampling_distribution)'], idx='_b', it='_itb')},
               ensures=S0 + ['forall("n:N", implies(%s, forall("i:int", implies(0 <= i and i < len(%s), %s[i].output in result and SHARE(result[%s[i].output], V(n, (input_from_alphabet,), 0), %s[i].frequency_counter)), %s[i])), n.ins)' % ((NODE,) + (K.format(n='n'),) * 5),
                             'forall("n:N", implies(%s, forall("o:val", implies(o in result, exists("i:int", 0 <= i and i < len(%s) and %s[i].output == o, %s[i])), o in result)), n.ins)' % ((NODE,) + (K.format(n='n'),) * 3)])
    # ---- the wrapper that records every step
    w.cls('SUL', 'aalpy/base/SUL.py::SUL', {})
    w.cls('NW', W_, {'sul': 'SUL', 'cache': 'T'}, ignore=['num_queries', 'num_steps'])
    for m, ps in (('pre', {}), ('post', {}), ('step', {'letter': 'val'})):
        w.contract('aalpy/base/SUL.py::SUL.' + m, name='SUL.' + m, params={'self': 'SUL', **ps}, returns='val', recv='SUL', trusted='any system under learning')
    w.contract(W_ + '.pre', name='NW.pre', params={'self': 'NW'}, recv='NW', modifies=['T.curr_node'], ensures=['self.cache.curr_node == self.cache.root_node'])
    w.contract(W_ + '.post', name='NW.post', params={'self': 'NW'}, recv='NW')
    RQ = lambda x: x.replace('self', 'self.cache').replace('inp', 'letter').replace('old(self.cache.curr_node)', 'old(self.cache.curr_node)')
    c = w.contracts['T.add_to_tree']
    w.contract(W_ + '.step', name='NW.step', params={'self': 'NW', 'letter': 'val'}, returns='val', recv='NW', allocs=['N'], modifies=['T.curr_node', 'N.children', 'N.output', 'N.parent', 'N.frequency_counter', 'N.ins', 'N.outs', 'N.tree', 'N.kids'],
               requires=['alloc(self.cache)', 'INV(self.cache)', 'NN(self.cache.curr_node)', 'IN(self.cache, self.cache.curr_node)'],
               ensures=['INV(self.cache)', 'NN(self.cache.curr_node)', 'IN(self.cache, self.cache.curr_node)', 'self.cache.curr_node.ins == old(self.cache.curr_node).ins + (letter,)', 'self.cache.curr_node.outs == old(self.cache.curr_node).outs + (result,)',
                        'implies(fresh(self.cache.curr_node), self.cache.curr_node.frequency_counter == 1)',
                        'forall("n:N", implies(old(alloc(n)), n.tree == old(n.tree) and n.ins == old(n.ins) and n.outs == old(n.outs) and n.frequency_counter == old(n.frequency_counter) + ite(n == self.cache.curr_node, 1, 0)), n.tree, n.ins, n.outs, n.frequency_counter)',
                        'forall("n:N", implies(alloc(n) and n.tree == self.cache and not old(alloc(n) and n.tree == self.cache), n == self.cache.curr_node), n.tree)'])
    # ---- recorded traces against a hypothesis
    O = 'aalpy/automata/Onfsm.py::Onfsm'
    w.cls('H', O, {}, ghost={'hi': 'Tup[val]', 'ho': 'Tup[val]'})
    w.ufn('CAN', ['H', 'Tup[val]', 'Tup[val]'], 'bool')
    w.contract('aalpy/base/Automaton.py::Automaton.reset_to_initial', name='H.reset_to_initial', params={'self': 'H'}, recv='H', modifies=['self.hi', 'self.ho'], trusted='Onfsm.reset_to_initial is under contract in C21', ensures=['self.hi == ()', 'self.ho == ()'])
    w.contract(O + '.step_to', name='H.step_to', params={'self': 'H', 'inp': 'val', 'out': 'val'}, returns='val', recv='H', modifies=['self.hi', 'self.ho'], trusted='Onfsm.step_to is under contract in C21; CAN(h, u, v) names the traces u/v that h has', requires=['out is not None'],
               ensures=['iff(result is None, not CAN(self, old(self.hi) + (inp,), old(self.ho) + (out,)))', 'self.hi == ite(result is None, old(self.hi), old(self.hi) + (inp,))', 'self.ho == ite(result is None, old(self.ho), old(self.ho) + (out,))'])
    w.spec("""
def OKN(h: 'H', n: 'N') -> 'bool':
    return forall("j:int", implies(0 < j and j <= len(n.ins), CAN(h, n.ins[:j], n.outs[:j])), n.ins[:j])
""", opaque=True, reads=['N.ins', 'N.outs'])
    w.spec("""
def PATH(p: 'Tup[val]', n: 'N') -> 'bool':
    return len(p) == 2 * len(n.ins) and forall("j:int", implies(0 <= j and j < len(n.ins), p[2 * j] == n.ins[j] and p[2 * j + 1] == n.outs[j]), n.ins[j], n.outs[j])
""", opaque=True, reads=['N.ins', 'N.outs'])
    w.spec("""
def INQ2(n: 'N', q: 'List[Tuple[N,Tup[val]]]', R: 'List[N]') -> 'bool':
    return n in R or exists("j:int", 0 <= j and j < len(q) and ANC(q[j][0], n), q[j])
""", opaque=True, reads=['N.ins', 'N.outs'])
    w.spec("""
def QOK2(t: 'T', q: 'List[Tuple[N,Tup[val]]]') -> 'bool':
    return forall("j:int", implies(0 <= j and j < len(q), IN(t, q[j][0]) and PATH(q[j][1], q[j][0])), q[j])
def HASOUT(t: 'T') -> 'bool':
    return forall("n:N, j:int", implies(IN(t, n) and 0 <= j and j < len(n.outs), n.outs[j] is not None), n.outs[j])
""")
    QT = 'List[Tuple[N,Tup[val]]]'
    w.lemma('inq2_pop', 'n:N, q:%s, R:List[N]' % QT, requires=['INQ2(n, q, R)', 'len(q) > 0'], ensures=['ANC(q[0][0], n) or INQ2(n, q[1:], R)'], trigger=['INQ2(n, q[1:], R)'],
            hints=['reveal(INQ2(n, q, R), INQ2(n, q[1:], R))', 'assert forall("j:int", implies(0 < j and j < len(q), q[1:][j - 1] == q[j]), q[j])'])
    w.lemma('inq2_push', 'n:N, q:%s, R:List[N], x:Tuple[N,Tup[val]]' % QT, requires=['INQ2(n, q, R) or ANC(x[0], n)'], ensures=['INQ2(n, q + [x], R)'], trigger=['INQ2(n, q + [x], R)'],
            hints=['reveal(INQ2(n, q, R), INQ2(n, q + [x], R))', 'assert forall("j:int", implies(0 <= j and j < len(q), (q + [x])[j] == q[j]), q[j])', 'assert (q + [x])[len(q)] == x'])
    w.lemma('inq2_reach', 'n:N, q:%s, R:List[N], x:N' % QT, requires=['INQ2(n, q, R) or x == n'], ensures=['INQ2(n, q, R + [x])'], trigger=['INQ2(n, q, R + [x])'], hints=['reveal(INQ2(n, q, R), INQ2(n, q, R + [x]))'])
    w.lemma('inq2_none', 'n:N, q:%s, R:List[N]' % QT, requires=['INQ2(n, q, R)', 'len(q) == 0'], ensures=['n in R'], trigger=['INQ2(n, q, R)'], hints=['reveal(INQ2(n, q, R))'])
    w.lemma('path_step', 'p:Tup[val], n:N, c:N, a:val', requires=['PATH(p, n)', 'len(n.ins) == len(n.outs)', 'c.ins == n.ins + (a,)', 'c.outs == n.outs + (c.output,)'], ensures=['PATH(p + (a, c.output), c)'], trigger=[('PATH(p, n)', 'PATH(p + (a, c.output), c)')], hints=['reveal(PATH(p, n), PATH(p + (a, c.output), c))'])
    w.lemma('path_elim', 'p:Tup[val], n:N', requires=['PATH(p, n)', 'len(n.ins) == len(n.outs)'], ensures=['p[0::2] == n.ins', 'implies(len(p) > 0, p[1::2] == n.outs)', 'iff(len(p) == 0, len(n.ins) == 0)'], trigger=['PATH(p, n)'], hints=['reveal(PATH(p, n))'])
    FC = S0 + ['HASOUT(self)', 'QOK2(self, queue)', 'forall("j:int", implies(0 <= j and j < len(g_done), OKN(hypothesis, g_done[j])), g_done[j])']
    CN = ['IN(self, curr_node)', 'PATH(path, curr_node)']
    REM = 'len(n.ins) > len(curr_node.ins) and REST(n, KD(curr_node, n.ins[len(curr_node.ins)]), 0) and not (n.ins[len(curr_node.ins)] in {it}[:{k}])'
    w.contract(F + '::TraceTree.find_cex_in_cache', name='T.find_cex_in_cache', params={'self': 'T', 'hypothesis': 'H'}, returns='Opt[Tuple[List[val],List[val]]]', recv='T', modifies=['N.children', 'H.hi', 'H.ho'], requires=['INV(self)', 'HASOUT(self)', 'alloc(hypothesis)'],
               locals={'queue': QT, 'inputs': 'List[val]', 'outputs': 'List[val]', 'children': 'List[N]', 'g_done': 'List[N]'},
               loops={0: Loop(inv=FC + ['forall("n:N", implies(IN(self, n), INQ2(n, queue, g_done)), n.ins)']),
                      1: Loop(inv=FC + CN + ['path[0::2] == curr_node.ins', 'path[1::2] == curr_node.outs', 'tuple(inputs) == curr_node.ins[:_a]', 'tuple(outputs) == curr_node.outs[:_a]', 'hypothesis.hi == curr_node.ins[:_a]', 'hypothesis.ho == curr_node.outs[:_a]',
                                             'forall("j:int", implies(0 < j and j <= _a, CAN(hypothesis, curr_node.ins[:j], curr_node.outs[:j])), curr_node.ins[:j])'], idx='_a', it='_ita'),
                      2: Loop(inv=FC + CN + ['forall("n:N", implies(IN(self, n), INQ2(n, queue, g_done) or (%s)), n.ins)' % REM.format(it='_itb', k='_b')], idx='_b', it='_itb'),
                      3: Loop(inv=FC + CN + ['children == KD(curr_node, inp)', 'forall("n:N", implies(IN(self, n), INQ2(n, queue, g_done) or (%s) or (len(n.ins) > len(curr_node.ins) and n.ins[len(curr_node.ins)] == inp and REST(n, KD(curr_node, inp), _c))), n.ins)' % REM.format(it='_itb', k='_b + 1')], idx='_c', it='_itc')},
               ghost={'entry': 'g_done = []\nuse(inq2_push, inq2_reach, inq2_none, rest_next, rest_end, path_step, path_elim, anc_intro, anc_elim)', 'after:queue = ': 'reveal(PATH((), self.root_node))\nassert queue[0][0] == self.root_node and queue[0][1] == ()', 'before:return .inputs, outputs': 'assert tuple(inputs) == curr_node.ins[:_a + 1] and tuple(outputs) == curr_node.outs[:_a + 1]\nprefix_closed(self, curr_node, len(curr_node.ins) - _a - 1)', 'loop0.start': 'g_q0 = queue',
                      'after:curr_node, path = ': 'use(inq2_pop(_, g_q0, g_done), rest_all(self, curr_node, _), anc_self(curr_node, _, self))\nassert IN(self, curr_node) and PATH(path, curr_node)',
                      'loop2.before': 'reveal(OKN(hypothesis, curr_node))\nassert OKN(hypothesis, curr_node)\ng_done = g_done + [curr_node]\nuse(ch(_, _))\nassert forall("n:N", implies(IN(self, n) and len(n.ins) > len(curr_node.ins) and REST(n, KD(curr_node, n.ins[len(curr_node.ins)]), 0), n.ins[len(curr_node.ins)] in curr_node.children), n.ins)',
                      'before:children = ': 'use(ch(_, _))', 'after:children = ': 'use(ch(_, _))\nassert children == KD(curr_node, inp)', 'exit': 'use(ch(_, _))'},
               ensures=S0 + ['implies(result is None, forall("n:N", implies(IN(self, n), OKN(hypothesis, n)), n.ins))',
                             'implies(result is not None, has(self, tuple(result[0]), tuple(result[1])) and not CAN(hypothesis, tuple(result[0]), tuple(result[1])) and forall("j:int", implies(0 < j and j < len(result[0]), CAN(hypothesis, tuple(result[0])[:j], tuple(result[1])[:j])), tuple(result[0])[:j]))'])
    return w
