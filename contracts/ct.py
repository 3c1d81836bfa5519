"""C19: the classification tree of KV."""
from pyvc.world import World, Loop
from contracts.auto import base

F = 'aalpy/learning_algs/deterministic/ClassificationTree.py::'
CT = F + 'ClassificationTree.'


def world(kind, node='CTNode'):
    """node: the class whose methods are taken for tree nodes; the two node classes are verified in worlds of their own"""
    w = base('ct:' + kind + ('' if node == 'CTNode' else ':' + node), kind)
    lab = kind != 'mealy'
    w.cls('SUL', 'aalpy/base/SUL.py::SUL', {'num_queries': 'int', 'num_steps': 'int'})
    w.ufn('QOUT', ['SUL', 'Tup[val]'], 'val')
    w.contract('aalpy/base/SUL.py::SUL.query', name='SUL.query', params={'self': 'SUL', 'word': 'Tup[val]'}, returns='List[val]', recv='SUL',
               trusted='a deterministic system answers every query with a fixed word (SUL.query is under contract in C02)',
               modifies=['self.num_queries', 'self.num_steps'], ensures=['len(result) == ite(len(word) == 0, 1, len(word))', 'result[len(result) - 1] == QOUT(self, word)'])
    # nodes: 'leaf' tells the two node classes apart; 'chain' is the way from the root, 'tree' the tree a node belongs to
    w.cls('N', F + node, {'parent': 'N?', 'path_to_node': 'val', 'distinguishing_string': 'Tup[val]', 'children': 'Map[val,N]', 'access_string': 'Tup[val]'}, ghost={'leaf': 'bool', 'chain': 'List[N]', 'tree': 'T?'})
    w.cls('T', CT[:-1], {'sul': 'SUL', 'alphabet': 'List[val]', 'leaf_nodes': 'Map[Tup[val],N]', 'initial_state': 'S?', 'hypothesis_states': 'Map[Tup[val],S]', 'error_state_prefix': 'Opt[Tup[val]]', 'root': 'N',
                         'new_states': 'List[N]', 'transitions_to_update': 'List[Tuple[S,val]]'}, consts={'automaton_type': kind})
    w.contract('N.is_leaf', name='N.is_leaf', params={'self': 'N'}, returns='bool', recv='N', trusted='CTLeafNode.is_leaf returns True, CTInternalNode.is_leaf returns False', ensures=['result == self.leaf'])
    w.contract('new:CTLeafNode', name='new.leaf', params={'access_string': 'Tup[val]', 'parent': 'N', 'path_to_node': 'val'}, returns='N', fresh_result=True, allocs=['N'], trusted='the constructor stores its arguments',
               ensures=['result.leaf', 'result.access_string == access_string', 'result.parent == parent', 'result.path_to_node == path_to_node', 'result.tree is None', 'forall("n:N", implies(alloc(n), old(alloc(n)) or n == result), alloc(n))'])
    w.contract('new:CTInternalNode', name='new.internal', params={'distinguishing_string': 'Tup[val]', 'parent': 'N?', 'path_to_node': 'val'}, returns='N', fresh_result=True, allocs=['N'], trusted='the constructor stores its arguments',
               ensures=['not result.leaf', 'result.distinguishing_string == distinguishing_string', 'result.parent == parent', 'result.path_to_node == path_to_node', 'result.tree is None', 'forall("n:N", implies(alloc(n), old(alloc(n)) or n == result), alloc(n))', 'forall("a:val", not (a in result.children), a in result.children)'])
    w.spec("""
def NN(x: 'N?') -> 'bool':
    return x is not None
def IN(t: 'T', n: 'N') -> 'bool':
    return NN(n) and alloc(n) and n.tree == t
""")
    # the word u answers every question on the way to n as n demands
    w.spec("""
def ASK(t: 'T', u: 'Tup[val]', p: 'N') -> 'val':
    return QOUT(t.sul, u + p.distinguishing_string)
""", opaque=True)
    w.spec("""
def STEPS(t: 'T', u: 'Tup[val]', n: 'N', i: 'int') -> 'bool':
    return IN(t, n.chain[i]) and not n.chain[i].leaf and ASK(t, u, n.chain[i]) in n.chain[i].children and n.chain[i].children[ASK(t, u, n.chain[i])] == n.chain[i + 1]
""")
    w.spec("""
def SIFTS(t: 'T', u: 'Tup[val]', n: 'N') -> 'bool':
    return IN(t, n) and len(n.chain) > 0 and n.chain[0] == t.root and n.chain[len(n.chain) - 1] == n and forall("i:int", implies(0 <= i and i < len(n.chain) - 1, STEPS(t, u, n, i)), n.chain[i])
""", opaque=True)
    w.spec("""
def SH1(t: 'T') -> 'bool':
    return forall("p:N, k:val", implies(IN(t, p) and not p.leaf and k in p.children, IN(t, p.children[k]) and p.children[k].chain == p.chain + [p.children[k]] and p.children[k].parent == p and p.children[k].path_to_node == k), p.children[k])
def SH2(t: 'T') -> 'bool':
    return forall("n:N", implies(IN(t, n), len(n.chain) > 0 and n.chain[len(n.chain) - 1] == n and (n == t.root or len(n.chain) > 1)), n.chain)
def SH3(t: 'T') -> 'bool':
    return forall("n:N", implies(IN(t, n) and n.leaf, n.access_string in t.leaf_nodes and t.leaf_nodes[n.access_string] == n), n.access_string)
def SHAPE(t: 'T') -> 'bool':
    return IN(t, t.root) and t.root.parent is None and not t.root.leaf and len(t.root.chain) == 1 and t.root.chain[0] == t.root and SH1(t) and SH2(t) and SH3(t)
def REG(t: 'T') -> 'bool':
    return forall("u:Tup[val]", implies(u in t.leaf_nodes, IN(t, t.leaf_nodes[u]) and t.leaf_nodes[u].leaf and t.leaf_nodes[u].access_string == u and SIFTS(t, u, t.leaf_nodes[u])), t.leaf_nodes[u])
def BIN(t: 'T') -> 'bool':
    return forall("n:N", implies(IN(t, n) and not n.leaf, True in n.children and False in n.children), n.children)
def INV(t: 'T') -> 'bool':
    return SHAPE(t) and REG(t)%s
""" % (' and BIN(t)' if kind == 'dfa' else ''))
    # the systems accepted for a DFA answer True or False
    BOOL = ['forall("w:Tup[val]", QOUT(self.sul, w) == True or QOUT(self.sul, w) == False, QOUT(self.sul, w))'] if kind == 'dfa' else []
    w.lemma('sift_step', 't:T, u:Tup[val], n:N, c:N', requires=['SHAPE(t)', 'SIFTS(t, u, n)', 'not n.leaf', 'ASK(t, u, n) in n.children', 'c == n.children[ASK(t, u, n)]'], ensures=['SIFTS(t, u, c)'],
            hints=['reveal(SIFTS(t, u, n), SIFTS(t, u, c))\nassert c.chain == n.chain + [c]\nassert forall("i:int", implies(0 <= i and i < len(n.chain), c.chain[i] == n.chain[i]), c.chain[i])\nassert n.chain[len(n.chain) - 1] == n'])
    w.lemma('sift_one', 't:T, u:Tup[val]', requires=['SHAPE(t)'], ensures=['SIFTS(t, u, t.root)'], hints=['reveal(SIFTS(t, u, t.root))'])
    w.lemma('sift_at', 't:T, u:Tup[val], n:N, i:int', requires=['SIFTS(t, u, n)', '0 <= i', 'i < len(n.chain) - 1'], ensures=['STEPS(t, u, n, i)'], hints=['reveal(SIFTS(t, u, n))'])
    w.lemma('sift_end', 't:T, u:Tup[val], n:N', requires=['SIFTS(t, u, n)'], ensures=['IN(t, n)', 'len(n.chain) > 0', 'n.chain[0] == t.root', 'n.chain[len(n.chain) - 1] == n'], hints=['reveal(SIFTS(t, u, n))'])
    SM = ['self.sul.num_queries', 'self.sul.num_steps']
    SAME = 'forall("n:N", implies(old(alloc(n)) and old(n.tree) == self, n.tree == self and n.chain == old(n.chain) and n.distinguishing_string == old(n.distinguishing_string)), n.chain)'
    KEEP = 'forall("u:Tup[val], n:N", implies(old(SIFTS(self, u, n)), SIFTS(self, u, n)), SIFTS(self, u, n))'
    w.contract(CT + '_sift', name='_sift', params={'self': 'T', 'word': 'Tup[val]'}, returns='N', modifies=SM + ['self.leaf_nodes', 'N.children', 'N.chain', 'N.tree', 'N.parent', 'N.path_to_node', 'N.access_string', 'N.leaf', 'N.distinguishing_string'], allocs=['N'],
               requires=BOOL + ['INV(self)', 'alloc(self)'],
               loops={0: Loop(inv=(['forall("u:Tup[val]", iff(u in self.leaf_nodes, old(u in self.leaf_nodes)), u in self.leaf_nodes)'] if kind == 'dfa' else []) + ['INV(self)', 'SIFTS(self, word, node)', 'len(node.chain) > 0', 'implies(old(word in self.leaf_nodes), self.leaf_nodes[word] == old(self.leaf_nodes[word]) and len(node.chain) <= len(self.leaf_nodes[word].chain) and self.leaf_nodes[word].chain[len(node.chain) - 1] == node)',
                                   'forall("u:Tup[val]", implies(old(u in self.leaf_nodes), u in self.leaf_nodes and self.leaf_nodes[u] == old(self.leaf_nodes[u])), self.leaf_nodes[u])',
                                   'forall("u:Tup[val]", implies(u in self.leaf_nodes and u != word, old(u in self.leaf_nodes)), u in self.leaf_nodes)', 'implies(not old(word in self.leaf_nodes) and word in self.leaf_nodes, node == self.leaf_nodes[word])', SAME, KEEP])},
               ghost={'after:node = self.root': 'sift_one(self, word)\nif word in self.leaf_nodes:\n    sift_end(self, word, self.leaf_nodes[word])',
                      'after:mq_result = .*': 'reveal(ASK(self, word, node))\nassert mq_result == ASK(self, word, node)\nif word in self.leaf_nodes:\n    sift_end(self, word, self.leaf_nodes[word])\n    if len(node.chain) < len(self.leaf_nodes[word].chain):\n        sift_at(self, word, self.leaf_nodes[word], len(node.chain) - 1)\ng_n = node',
                      'before:new_leaf = .*': 'sift_end(self, word, node)\nassert not (word in self.leaf_nodes)\nassert not (mq_result in node.children)',
                      'after:new_leaf = .*': 'assert self.root != new_leaf\nassert SH1(self) and SH2(self) and SH3(self)\nassert forall("p:N, k:val", implies(IN(self, p) and not p.leaf and k in p.children, p.children[k] != new_leaf and p != new_leaf), p.children[k])',
                      'before:return node': 'sift_end(self, word, node)\nif word in self.leaf_nodes:\n    sift_end(self, word, self.leaf_nodes[word])\n    if len(node.chain) < len(self.leaf_nodes[word].chain):\n        sift_at(self, word, self.leaf_nodes[word], len(node.chain) - 1)',
                      'loop0.end': 'assert IN(self, self.root) and not self.root.leaf and len(self.root.chain) == 1\nassert SH1(self)\nassert SH2(self)\nassert SH3(self)\nassert SHAPE(self)\nassert SIFTS(self, word, g_n)\nsift_step(self, word, g_n, node)\nsift_end(self, word, node)\nif word in self.leaf_nodes:\n    sift_end(self, word, self.leaf_nodes[word])',
                      'after:node.children.mq_result. = .*': 'new_leaf.tree = self\nnew_leaf.chain = node.chain + [new_leaf]\nassert IN(self, new_leaf) and len(new_leaf.chain) > 1 and new_leaf.chain[len(new_leaf.chain) - 1] == new_leaf\nassert forall("p:N, k:val", implies(IN(self, p) and not p.leaf and k in p.children, p == node and k == mq_result or p != new_leaf and p.children[k] != new_leaf and IN(self, p.children[k]) and p.children[k].chain == p.chain + [p.children[k]]), p.children[k])\nassert SH1(self)\nassert SH2(self)\nassert SH3(self)'},
               ensures=['INV(self)', 'result.leaf', 'SIFTS(self, word, result)', 'result.access_string in self.leaf_nodes and self.leaf_nodes[result.access_string] == result',
                        'implies(old(word in self.leaf_nodes), result == old(self.leaf_nodes[word]))',
                        'forall("u:Tup[val]", implies(old(u in self.leaf_nodes), u in self.leaf_nodes and self.leaf_nodes[u] == old(self.leaf_nodes[u])), self.leaf_nodes[u])',
                        'forall("u:Tup[val]", implies(u in self.leaf_nodes and not old(u in self.leaf_nodes), u == word and result == self.leaf_nodes[word]), u in self.leaf_nodes)', KEEP, SAME] + (['forall("u:Tup[val]", iff(u in self.leaf_nodes, old(u in self.leaf_nodes)), u in self.leaf_nodes)'] if kind == 'dfa' else []))
    w.spec("""
def HS(t: 'T') -> 'bool':
    return forall("u:Tup[val]", implies(u in t.hypothesis_states, t.hypothesis_states[u].prefix is not None and t.hypothesis_states[u].prefix == u), t.hypothesis_states[u]) and forall("u:Tup[val], a:val", implies(u in t.hypothesis_states and a in t.hypothesis_states[u].transitions, t.hypothesis_states[u].transitions[a].prefix is not None), t.hypothesis_states[u].transitions[a])
""")
    w.lemma('leaf_up', 't:T, u:Tup[val], n:N', requires=['SHAPE(t)', 'SIFTS(t, u, n)', 'n.leaf'], ensures=['NN(n.parent)', 'IN(t, n.parent)', 'not n.parent.leaf', 'n.path_to_node == ASK(t, u, n.parent)', 'n.path_to_node in n.parent.children', 'n.parent.children[n.path_to_node] == n', 'n.chain == n.parent.chain + [n]', 'len(n.chain) > 1'],
            hints=['use(sift_end(t, u, n))\nassert len(n.chain) > 1\nuse(sift_at(t, u, n, len(n.chain) - 2))\nassert STEPS(t, u, n, len(n.chain) - 2)\nassert n.chain[len(n.chain) - 2].children[ASK(t, u, n.chain[len(n.chain) - 2])] == n'])
    # ---- the hypothesis
    w.spec("""
def NN2(x: 'T?') -> 'bool':
    return x is not None
""")
    OUTPUT = dict(params={'self': 'N'}, returns='val', recv='N', requires=['self.leaf', 'NN2(self.tree)', 'IN(self.tree, self)', 'INV(self.tree)'], ensures=['result == ASK(self.tree, self.access_string, self.tree.root)'])
    if node == 'CTNode':
        w.properties = {'N.output'}
        w.contract('N.output', name='N.output', **OUTPUT, trusted='CTLeafNode.output (the same contract is proved in the world of the leaf class)')
    elif node == 'CTInternalNode':
        w.contract(F + 'CTInternalNode.__init__', name='CTInternalNode.__init__', params={'self': 'N', 'distinguishing_string': 'Tup[val]', 'parent': 'N?', 'path_to_node': 'val'}, modifies=['self.distinguishing_string', 'self.parent', 'self.path_to_node', 'self.children'],
                   ensures=['self.distinguishing_string == distinguishing_string', 'self.parent == parent', 'self.path_to_node == path_to_node', 'forall("a:val", not (a in self.children), a in self.children)'])
        w.contract(F + 'CTInternalNode.is_leaf', name='CTInternalNode.is_leaf', params={'self': 'N'}, returns='bool', ensures=['not result'])
        return w
    else:
        w.contract(F + 'CTLeafNode.output', name='N.output', **OUTPUT, locals={'c': 'N', 'p': 'N'},
                   ghost={'entry': 'g_t = self.tree\ng_k = len(self.chain) - 2\nassert g_t.leaf_nodes[self.access_string] == self\nleaf_up(g_t, self.access_string, self)\nsift_end(g_t, self.access_string, self)\nsift_at(g_t, self.access_string, self, g_k)\nif g_k > 0:\n    sift_at(g_t, self.access_string, self, g_k - 1)',
                          'loop0.start': 'g_k = g_k - 1\nsift_at(g_t, self.access_string, self, g_k)',
                          'loop0.end': 'if g_k > 0:\n    sift_at(g_t, self.access_string, self, g_k - 1)',
                          'loop1.before': 'assert g_k == 0\nassert p == g_t.root'},
                   loops={0: Loop(inv=['0 <= g_k and g_k <= len(self.chain) - 2', 'p == self.chain[g_k]', 'c == self.chain[g_k + 1]', 'IN(g_t, p)', 'g_t == self.tree', 'IN(g_t, c)', 'not p.leaf', 'STEPS(g_t, self.access_string, self, g_k)', 'SIFTS(g_t, self.access_string, self)', 'self.chain[0] == g_t.root',
                                       'implies(g_k > 0, STEPS(g_t, self.access_string, self, g_k - 1))']),
                          1: Loop(idx='_j', it='_js', inv=['forall("j:int", implies(0 <= j and j < _j, p.children[_js[j]] != c), _js[j])'])})
        w.contract(F + 'CTLeafNode.__init__', name='CTLeafNode.__init__', params={'self': 'N', 'access_string': 'Tup[val]', 'parent': 'N', 'path_to_node': 'val'}, modifies=['self.access_string', 'self.parent', 'self.path_to_node'],
                   ensures=['self.access_string == access_string', 'self.parent == parent', 'self.path_to_node == path_to_node'])
        w.contract(F + 'CTLeafNode.is_leaf', name='CTLeafNode.is_leaf', params={'self': 'N'}, returns='bool', ensures=['result'])
        return w
    LABT = '' if not lab else '''def LAB(t: 'T') -> 'bool':
    return t.root.distinguishing_string == () and forall("u:Tup[val]", implies(u in t.hypothesis_states, t.hypothesis_states[u].%s == QOUT(t.sul, u)), t.hypothesis_states[u])
''' % w.lab
    mealy = ' and a in s.output_fun and s.output_fun[a] == QOUT(t.sul, s.prefix + (a,))' if kind == 'mealy' else ''
    w.spec("""
def OKT(t: 'T', s: 'S', a: 'val') -> 'bool':
    return s.prefix is not None and a in s.transitions and s.transitions[a].prefix is not None and s.transitions[a].prefix in t.hypothesis_states and t.hypothesis_states[s.transitions[a].prefix] == s.transitions[a] and s.transitions[a].prefix in t.leaf_nodes and SIFTS(t, s.prefix + (a,), t.leaf_nodes[s.transitions[a].prefix])%s
""" % mealy, opaque=True)
    w.spec("""
def HS2(t: 'T') -> 'bool':
    return forall("u:Tup[val]", implies(u in t.hypothesis_states, alloc(t.hypothesis_states[u]) and t.hypothesis_states[u].prefix is not None and t.hypothesis_states[u].prefix == u and u in t.leaf_nodes), t.hypothesis_states[u])
def TR(t: 'T') -> 'bool':
    return forall("u:Tup[val], j:int", implies(u in t.hypothesis_states and 0 <= j and j < len(t.alphabet), (t.hypothesis_states[u], t.alphabet[j]) in t.transitions_to_update or OKT(t, t.hypothesis_states[u], t.alphabet[j])), (t.hypothesis_states[u], t.alphabet[j]))
def TRX(t: 'T', s: 'S', a: 'val') -> 'bool':
    return forall("u:Tup[val], j:int", implies(u in t.hypothesis_states and 0 <= j and j < len(t.alphabet), (t.hypothesis_states[u], t.alphabet[j]) in t.transitions_to_update or OKT(t, t.hypothesis_states[u], t.alphabet[j]) or t.hypothesis_states[u] == s and t.alphabet[j] == a), (t.hypothesis_states[u], t.alphabet[j]))
def TRY(t: 'T', o: 'Tup[val]') -> 'bool':
    return forall("u:Tup[val], j:int", implies(u in t.hypothesis_states and 0 <= j and j < len(t.alphabet), (t.hypothesis_states[u], t.alphabet[j]) in t.transitions_to_update or OKT(t, t.hypothesis_states[u], t.alphabet[j]) or t.alphabet[j] in t.hypothesis_states[u].transitions and t.hypothesis_states[u].transitions[t.alphabet[j]].prefix == o), (t.hypothesis_states[u], t.alphabet[j]))
def PD(t: 'T') -> 'bool':
    return forall("i:int", implies(0 <= i and i < len(t.transitions_to_update), t.transitions_to_update[i][0].prefix is not None and t.transitions_to_update[i][0].prefix in t.hypothesis_states and t.hypothesis_states[t.transitions_to_update[i][0].prefix] == t.transitions_to_update[i][0]), t.transitions_to_update[i])
def NS(t: 'T') -> 'bool':
    return forall("i:int", implies(0 <= i and i < len(t.new_states), IN(t, t.new_states[i]) and t.new_states[i].leaf and not (t.new_states[i].access_string in t.hypothesis_states)), t.new_states[i]) and forall("i:int, j:int", implies(0 <= i and i < j and j < len(t.new_states), t.new_states[i] != t.new_states[j]), (t.new_states[i], t.new_states[j]))
def COV(t: 'T') -> 'bool':
    return forall("u:Tup[val]", implies(u in t.leaf_nodes, u in t.hypothesis_states or t.leaf_nodes[u] in t.new_states), t.leaf_nodes[u])
def INI(t: 'T') -> 'bool':
    return iff(() in t.hypothesis_states, t.initial_state is not None) and implies(() in t.hypothesis_states, t.initial_state == t.hypothesis_states[()])
%sdef HYP(t: 'T') -> 'bool':
    return %sHS2(t) and TR(t) and PD(t) and NS(t) and COV(t) and INI(t) and () in t.leaf_nodes
""" % (LABT, 'LAB(t) and ' if lab else ''))
    OLD, NEW = 'self.leaf_nodes[old_leaf_access_string]', 'self.leaf_nodes[new_leaf_access_string]'
    PEND = 'forall("u:Tup[val], a:val", implies(u in self.hypothesis_states and a in self.hypothesis_states[u].transitions and self.hypothesis_states[u].transitions[a].prefix == old_leaf_access_string%s, (self.hypothesis_states[u], a) in self.transitions_to_update), self.hypothesis_states[u].transitions[a])'
    MORE = 'forall("s:S, a:val", implies(old((s, a) in self.transitions_to_update), (s, a) in self.transitions_to_update), (s, a) in self.transitions_to_update)'
    LV = 'forall("u:Tup[val]", iff(u in self.leaf_nodes, old(u in self.leaf_nodes) or u == new_leaf_access_string) and implies(old(u in self.leaf_nodes), self.leaf_nodes[u] == old(self.leaf_nodes[u])), u in self.leaf_nodes, self.leaf_nodes[u])'
    REST = 'forall("u:Tup[val], n:N", implies(old(SIFTS(self, u, n)) and n != old(%s), SIFTS(self, u, n)), SIFTS(self, u, n))' % OLD
    w.contract(CT + '_insert_new_leaf', name='_insert_new_leaf', params={'self': 'T', 'discriminator': 'Tup[val]', 'old_leaf_access_string': 'Tup[val]', 'new_leaf_access_string': 'Tup[val]', 'new_leaf_position': 'val'},
               modifies=SM + ['self.leaf_nodes', 'self.new_states', 'self.transitions_to_update', 'N.children', 'N.chain', 'N.tree', 'N.parent', 'N.path_to_node', 'N.access_string', 'N.leaf', 'N.distinguishing_string'], allocs=['N'],
               requires=['INV(self)', 'HYP(self)', 'alloc(self)', 'old_leaf_access_string in self.leaf_nodes', 'not (new_leaf_access_string in self.leaf_nodes)', 'SIFTS(self, new_leaf_access_string, %s)' % OLD,
                         'new_leaf_position == QOUT(self.sul, new_leaf_access_string + discriminator)', 'new_leaf_position != QOUT(self.sul, old_leaf_access_string + discriminator)'] + BOOL,
               ghost={'after:old_leaf = .*': 'sift_end(self, old_leaf_access_string, old_leaf)\nleaf_up(self, old_leaf_access_string, old_leaf)\ng_p = old_leaf.parent\ng_c = old_leaf.chain\nreveal(SIFTS(self, old_leaf_access_string, old_leaf), SIFTS(self, new_leaf_access_string, old_leaf))\nassert other_leaf_position == QOUT(self.sul, old_leaf_access_string + discriminator)',
                      'after:discriminator_node.children.other_leaf_position. = .*':
                      'discriminator_node.tree = self\ndiscriminator_node.chain = g_p.chain + [discriminator_node]\nnew_leaf.tree = self\nnew_leaf.chain = discriminator_node.chain + [new_leaf]\nold_leaf.chain = discriminator_node.chain + [old_leaf]\n'
                      'assert IN(self, self.root) and not self.root.leaf and len(self.root.chain) == 1\nassert SH1(self)\nassert SH2(self)\nassert SH3(self)\nassert SHAPE(self)\nreveal(SIFTS(self, old_leaf_access_string, discriminator_node), SIFTS(self, new_leaf_access_string, discriminator_node), ASK(self, old_leaf_access_string, discriminator_node), ASK(self, new_leaf_access_string, discriminator_node))\n'
                      'assert forall("i:int", implies(0 <= i and i < len(g_p.chain), discriminator_node.chain[i] == g_c[i]), discriminator_node.chain[i])\nassert SIFTS(self, old_leaf_access_string, discriminator_node)\nassert SIFTS(self, new_leaf_access_string, discriminator_node)\n'
                      'sift_step(self, old_leaf_access_string, discriminator_node, old_leaf)\nsift_step(self, new_leaf_access_string, discriminator_node, new_leaf)\nassert REG(self)\nassert TRY(self, old_leaf_access_string)',
                      'after:self.new_states.append.new_leaf.': 'assert NS(self)\nassert COV(self)\nassert TRY(self, old_leaf_access_string)',
                      'exit': 'assert PD(self)\nassert TRY(self, old_leaf_access_string)\nassert TR(self)'},
               loops={0: Loop(idx='_i', it='_is', inv=[PEND % ' and self.hypothesis_states[u] in _is[:_i]', MORE, 'PD(self)']),
                      1: Loop(idx='_j', it='_js', inv=[MORE, 'PD(self)', 'state.prefix is not None and state.prefix in self.hypothesis_states and self.hypothesis_states[state.prefix] == state', PEND % ' and self.hypothesis_states[u] in _is[:_i]', 'forall("j:int", implies(0 <= j and j < _j and state.transitions[_js[j]].prefix == old_leaf_access_string, (state, _js[j]) in self.transitions_to_update), _js[j])'])},
               ensures=['INV(self)', 'HYP(self)', LV, 'self.new_states == old(self.new_states) + [%s]' % NEW, REST, PEND % '', MORE])
    w.contract(CT + '__init__', name='init', params={'self': 'T', 'alphabet': 'List[val]', 'sul': 'SUL', 'automaton_type': ('const', kind), 'cex': 'Tup[val]'}, modifies=['self.*', 'N.*', 'sul.num_queries', 'sul.num_steps'], allocs=['N'],
               requires=['alloc(self)', 'len(cex) > 0'] + [b.replace('self.sul', 'sul') for b in BOOL] + (['QOUT(sul, cex) != QOUT(sul, ())'] if lab else ['QOUT(sul, cex) != QOUT(sul, (cex[len(cex) - 1],))', 'len(cex) > 1']) + ['forall("n:N", implies(alloc(n), n.tree != self), n.tree)'],
               ghost={'after:self.transitions_to_update = .*': ('g_v = cex\n' if lab else 'g_v = cex[:len(cex) - 1]\n') +
                      'g_r = self.root\ng_a = self.leaf_nodes[()]\ng_b = self.leaf_nodes[g_v]\nassert len(g_v) > 0\nassert g_a != g_b\ng_r.tree = self\ng_a.tree = self\ng_b.tree = self\ng_r.chain = [g_r]\ng_a.chain = [g_r, g_a]\ng_b.chain = [g_r, g_b]\n'
                      'assert g_r != g_a and g_r != g_b\nassert forall("n:N", implies(IN(self, n), n == g_r or n == g_a or n == g_b), n.tree)\nassert SH2(self)\nassert SH3(self)\nassert SH1(self)\nassert SHAPE(self)\n'
                      'assert forall("u:Tup[val]", not (u in self.hypothesis_states), u in self.hypothesis_states)\nassert NS(self)\nassert () in self.leaf_nodes and g_v in self.leaf_nodes\nassert g_a in self.new_states\nassert g_b in self.new_states\nassert forall("u:Tup[val]", implies(u in self.leaf_nodes, u == () or u == g_v), u in self.leaf_nodes)\nassert COV(self)\nassert INI(self)\n'
                      + ('' if lab else 'assert g_v + (cex[len(cex) - 1],) == cex\nassert () + (cex[len(cex) - 1],) == (cex[len(cex) - 1],)\n') + 'assert cex + () == cex\nreveal(ASK(self, (), g_r), ASK(self, g_v, g_r))\nassert ASK(self, (), g_r) == g_a.path_to_node\nassert ASK(self, g_v, g_r) == g_b.path_to_node\n'
                      'reveal(SIFTS(self, (), g_a), SIFTS(self, g_v, g_b))\nassert SIFTS(self, (), g_a)\nassert SIFTS(self, g_v, g_b)\nassert REG(self)'},
               ensures=['INV(self)', 'HYP(self)', 'self.sul == sul', 'self.alphabet == alphabet'])
    LB = 'assert LAB(self)\n' if lab else ''
    w.contract(CT + 'update_hypothesis', name='update_hypothesis', params={'self': 'T'}, returns='M', requires=BOOL + ['INV(self)', 'HYP(self)', 'alloc(self)'],
               modifies=SM + ['self.*', 'S.*', 'N.*'], allocs=['S', 'M', 'N'],
               ghost={**({'before:new_state.prefix = node.access_string': 'reveal(ASK(self, node.access_string, self.root))\nassert node.access_string + () == node.access_string\nassert new_state.%s == QOUT(self.sul, node.access_string)' % w.lab, 'loop0.end': 'assert LAB(self)'} if lab else {}),
                      'loop1.start': 'g_l = self.transitions_to_update',
                      'after:state, input_element = .*': 'assert g_l[0][0] == state and g_l[0][1] == input_element\nassert PD(self)\nassert state.prefix is not None and state.prefix in self.hypothesis_states and self.hypothesis_states[state.prefix] == state\n'
                      'assert forall("s:S, a:val", implies((s, a) in g_l, s == state and a == input_element or (s, a) in self.transitions_to_update), (s, a) in g_l)\nassert TRX(self, state, input_element)',
                      'after:transition_target_node = .*': 'assert TRX(self, state, input_element)\nassert PD(self)',
                      'before:state.transitions.input_element. = .*': LB + 'assert PD(self)\nassert TRX(self, state, input_element)',
                      'loop1.end': LB + 'assert PD(self)\nreveal(OKT(self, state, input_element))\nassert OKT(self, state, input_element)\nassert TRX(self, state, input_element)'},
               loops={0: Loop(inv=['INV(self)', 'HYP(self)']), 1: Loop(inv=['INV(self)', 'HYP(self)', 'len(self.new_states) == 0'])},
               ensures=['INV(self)', 'HYP(self)', 'len(self.new_states) == 0 and len(self.transitions_to_update) == 0', 'forall("u:Tup[val]", iff(u in self.hypothesis_states, u in self.leaf_nodes), u in self.leaf_nodes)',
                        'forall("u:Tup[val], j:int", implies(u in self.leaf_nodes and 0 <= j and j < len(self.alphabet), OKT(self, self.hypothesis_states[u], self.alphabet[j])), (self.leaf_nodes[u], self.alphabet[j]))',
                        'result.initial_state == self.hypothesis_states[()]', 'forall("s:S", iff(s in result.states, exists("u:Tup[val]", u in self.hypothesis_states and self.hypothesis_states[u] == s, self.hypothesis_states[u])), s in result.states)'])
    # ---- counterexamples
    w.spec("""
def AL(q: 'SUL', h: 'M', u: 'Tup[val]', i: 'int') -> 'val':
    return QOUT(q, run(h.initial_state, u[:i]).prefix + u[i:])
""", opaque=True)
    w.spec("""
def HYPO(h: 'M', u: 'Tup[val]') -> 'bool':
    return h.initial_state.prefix is not None and h.initial_state.prefix == () and defd(h.initial_state, u) and forall("i:int", implies(0 <= i and i <= len(u), run(h.initial_state, u[:i]).prefix is not None), run(h.initial_state, u[:i]))
def FIN(t: 'T') -> 'bool':
    return forall("u:Tup[val], j:int", implies(u in t.hypothesis_states and 0 <= j and j < len(t.alphabet), OKT(t, t.hypothesis_states[u], t.alphabet[j])), (t.hypothesis_states[u], t.alphabet[j]))
def ISH(t: 'T', s: 'S') -> 'bool':
    return s.prefix is not None and s.prefix in t.hypothesis_states and t.hypothesis_states[s.prefix] == s
def EXPOSES(q: 'SUL', h: 'M', u: 'Tup[val]', i: 'int') -> 'bool':
    return 0 <= i and i + 1 < len(u) and AL(q, h, u, i) != AL(q, h, u, i + 1) and AL(q, h, u, i) == QOUT(q, u)
""")
    w.lemma('run_ish', 't:T, s:S, u:Tup[val]', requires=['FIN(t)', 'ISH(t, s)', 'forall("i:int", implies(0 <= i and i < len(u), u[i] in t.alphabet and u[i] is not None), u[i])'], ensures=['defd(s, u)', 'ISH(t, run(s, u))'], induct='u', fix=('t', 's'),
            hints=['if len(u) > 0:\n    assert u[len(u) - 1] in t.alphabet\n    assert OKT(t, run(s, u[:len(u) - 1]), u[len(u) - 1])\n    reveal(OKT(t, run(s, u[:len(u) - 1]), u[len(u) - 1]))'])
    w.lemma('def_at', 's:S, u:Seq[val], i:int', requires=['defd(s, u)', '0 <= i', 'i < len(u)'], ensures=['dfd(run(s, u[:i]), u[i])'], induct='u', fix=('s',), trigger=['run(s, u[:i])'])
    w.lemma('def_take', 's:S, u:Seq[val], i:int', requires=['defd(s, u)', '0 <= i', 'i <= len(u)'], ensures=['defd(s, u[:i])'], induct='u', fix=('s',), trigger=['defd(s, u[:i])'])
    w.lemma('agree', 't:T, u:Tup[val], n:N, m:N, i:int', requires=['SIFTS(t, u, n)', 'SIFTS(t, u, m)', '0 <= i', 'i < len(n.chain)', 'i < len(m.chain)'], ensures=['n.chain[i] == m.chain[i]'], induct='i', fix=('t', 'u', 'n', 'm'),
            hints=['if i == 0:\n    use(sift_end(t, u, n))\n    use(sift_end(t, u, m))\nelse:\n    use(sift_at(t, u, n, i - 1))\n    use(sift_at(t, u, m, i - 1))'])
    w.lemma('same_leaf', 't:T, u:Tup[val], n:N, m:N', requires=['SIFTS(t, u, n)', 'SIFTS(t, u, m)', 'n.leaf', 'm.leaf'], ensures=['n == m'],
            hints=['use(sift_end(t, u, n))\nuse(sift_end(t, u, m))\nif len(n.chain) < len(m.chain):\n    use(agree(t, u, n, m, len(n.chain) - 1))\n    use(sift_at(t, u, m, len(n.chain) - 1))\nelse:\n    use(agree(t, u, n, m, len(m.chain) - 1))\n    if len(m.chain) < len(n.chain):\n        use(sift_at(t, u, n, len(m.chain) - 1))'])
    LT = 'forall("i:int", implies(0 <= i and i < len(u), u[i] in t.alphabet and u[i] is not None), u[i])'
    w.lemma('run_take', 't:T, s:S, u:Tup[val], i:int', requires=['FIN(t)', 'ISH(t, s)', LT, '0 <= i', 'i <= len(u)'], ensures=['defd(s, u[:i])', 'ISH(t, run(s, u[:i]))'], trigger=['run(s, u[:i])'], hints=['use(run_ish(t, s, u[:i]))'])
    w.lemma('al0', 't:T, h:M, u:Tup[val]', requires=['h.initial_state.prefix is not None', 'h.initial_state.prefix == ()'], ensures=['AL(t.sul, h, u, 0) == QOUT(t.sul, u)'], hints=['reveal(AL(t.sul, h, u, 0))\nassert () + u == u'])
    if lab:
        w.lemma('root_same', 't:T, u:Tup[val], v:Tup[val], n:N', requires=['INV(t)', 'SIFTS(t, u, n)', 'SIFTS(t, v, n)', 'n.leaf', 't.root.distinguishing_string == ()'], ensures=['QOUT(t.sul, u) == QOUT(t.sul, v)'],
                hints=['use(sift_end(t, u, n))\nuse(sift_at(t, u, n, 0))\nuse(sift_at(t, v, n, 0))\nreveal(ASK(t, u, t.root), ASK(t, v, t.root))\nassert ASK(t, u, t.root) == n.chain[1].path_to_node\nassert ASK(t, v, t.root) == n.chain[1].path_to_node\nassert u + () == u\nassert v + () == v'])
    lastq = 'OKT(t, run(h.initial_state, u[:len(u) - 1]), u[len(u) - 1])'
    w.lemma('last_al', 't:T, h:M, u:Tup[val]', requires=['INV(t)', 'HYP(t)', 'FIN(t)', 'ISH(t, h.initial_state)', LT, 'len(u) > 0'], ensures=['AL(t.sul, h, u, len(u) - 1) == ANS(h.initial_state, u, len(u) - 1)'],
            hints=['use(run_take(t, h.initial_state, u, len(u) - 1))\nuse(run_take(t, h.initial_state, u, len(u)))\nreveal(AL(t.sul, h, u, len(u) - 1))\nassert u[len(u) - 1] in t.alphabet\nassert %s\nreveal(%s)\nassert u[len(u) - 1:] == (u[len(u) - 1],)' % (lastq, lastq)
                   + ('\nuse(root_same(t, run(h.initial_state, u[:len(u) - 1]).prefix + (u[len(u) - 1],), run(h.initial_state, u[:len(u) - 1]).transitions[u[len(u) - 1]].prefix, t.leaf_nodes[run(h.initial_state, u[:len(u) - 1]).transitions[u[len(u) - 1]].prefix]))' if lab else '')])
    CX = 'aalpy/learning_algs/deterministic/CounterExampleProcessing.py::'
    st = 'hypothesis.current_state'
    for fn in ('rs', 'linear', 'exponential'):
        w.contract(CX + fn + '_cex_processing', name=fn + '_cex_processing', params={'sul': 'SUL', 'cex': 'Tup[val]', 'hypothesis': 'M', 'suffix_closedness': ('const', False), 'closedness': ('const', 'suffix'), **({} if fn == 'rs' else {'direction': 'val'}), 'is_vpa': ('const', False)}, returns='List[Tup[val]]',
                   modifies=[st, 'sul.num_queries', 'sul.num_steps'], trusted='the same contract is proved under C09',
                   requires=['len(cex) >= 2', 'HYPO(hypothesis, cex)', 'AL(sul, hypothesis, cex, len(cex) - 1) != QOUT(sul, cex)'] + ([] if fn == 'rs' else ['direction in {"fwd", "bwd"}']),
                   ensures=['len(result) == 1', 'exists("i:int", EXPOSES(sul, hypothesis, cex, i) and result[0] == cex[i + 1:], cex[i + 1:])'])
    for how in ('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'):
        w.contract(CT + 'process_counterexample', name='process_counterexample.' + how, params={'self': 'T', 'cex': 'Tup[val]', 'hypothesis': 'M', 'cex_processing_fun': ('const', how)},
                   modifies=SM + ['self.leaf_nodes', 'self.new_states', 'self.transitions_to_update', 'N.children', 'N.chain', 'N.tree', 'N.parent', 'N.path_to_node', 'N.access_string', 'N.leaf', 'N.distinguishing_string', st], allocs=['N'], locals={'v': 'Opt[Tup[val]]'},
                   requires=BOOL + ['INV(self)', 'HYP(self)', 'FIN(self)', 'alloc(self)', 'len(cex) > 0', 'ISH(self, hypothesis.initial_state)', 'hypothesis.initial_state.prefix == ()', 'forall("i:int", implies(0 <= i and i < len(cex), cex[i] in self.alphabet and cex[i] is not None), cex[i])',
                                    'QOUT(self.sul, cex) != ANS(hypothesis.initial_state, cex, len(cex) - 1)'],
                   ghost={'entry': 'use(run_take(self, hypothesis.initial_state, cex, _))\nal0(self, hypothesis, cex)\nlast_al(self, hypothesis, cex)\nassert cex[:len(cex)] == cex\nassert len(cex) >= 2\nassert defd(hypothesis.initial_state, cex)\nuse(def_at(hypothesis.initial_state, cex, _))' + ('\ng_b = ANS(hypothesis.initial_state, cex, len(cex) - 1)\nassert ISH(self, run(hypothesis.initial_state, cex))\nassert g_b == QOUT(self.sul, run(hypothesis.initial_state, cex).prefix)\nassert g_b == True or g_b == False' if kind == 'dfa' else ''),
                          'after:assert v': 'g_i = len(cex) - len(v) - 1\nassert EXPOSES(self.sul, hypothesis, cex, g_i)\nassert v == cex[g_i + 1:]',
                          **({'before:new_leaf_position = not.*': 'assert QOUT(self.sul, cex) == (not g_b)'} if kind == 'dfa' else {}),
                          'after:a = cex.*': 'assert a == cex[g_i]', 'after:u = cex.*': 'assert u == cex[:g_i]\nassert defd(hypothesis.initial_state, u)\nuse(def_at(hypothesis.initial_state, u, _))\nassert ISH(self, run(hypothesis.initial_state, u))',
                          'after:u_state = .*': 'assert u_state == run(hypothesis.initial_state, cex[:g_i])\nassert ISH(self, u_state)\nassert a in self.alphabet\nassert OKT(self, u_state, a)\nreveal(OKT(self, u_state, a))',
                          'after:ua_state = .*': 'assert cex[:g_i + 1] == u + (a,)\nassert ua_state == run(hypothesis.initial_state, cex[:g_i + 1])\nassert ISH(self, ua_state)\nreveal(AL(self.sul, hypothesis, cex, g_i), AL(self.sul, hypothesis, cex, g_i + 1))\nassert AL(self.sul, hypothesis, cex, g_i + 1) == QOUT(self.sul, ua_state.prefix + v)',
                          'after:new_leaf_access_string = .*': 'assert cex[g_i:] == (a,) + v\nassert u_state.prefix + cex[g_i:] == new_leaf_access_string + v\nassert QOUT(self.sul, new_leaf_access_string + v) == QOUT(self.sul, cex)\nassert SIFTS(self, new_leaf_access_string, self.leaf_nodes[ua_state.prefix])\n'
                          'if new_leaf_access_string in self.leaf_nodes:\n    same_leaf(self, new_leaf_access_string, self.leaf_nodes[new_leaf_access_string], self.leaf_nodes[ua_state.prefix])\n    assert new_leaf_access_string == ua_state.prefix\n    assert False', 'after:new_leaf_position = .*': ('assert new_leaf_position == (not g_b)\n' if kind == 'dfa' else '') + 'assert new_leaf_position == QOUT(self.sul, cex)'},
                   ensures=['INV(self)', 'HYP(self)', 'forall("u:Tup[val]", implies(old(u in self.leaf_nodes), u in self.leaf_nodes and self.leaf_nodes[u] == old(self.leaf_nodes[u])), self.leaf_nodes[u])', 'len(self.new_states) == old(len(self.new_states)) + 1'])
    return w
