"""C01: the query cache returns exactly what the system answered and stops on contradiction."""
from pyvc.world import World, Loop

F = 'aalpy/base/CacheTree.py'
S = 'aalpy/base/SUL.py'


def world():
    w = World('cache')
    w.cls('Node', F + '::Node', {'value': 'val', 'children': 'Map[val,Node]'},
          ghost={'path': 'Tup[val]', 'tree': 'CacheTree?', 'par': 'Node?'})
    w.cls('CacheTree', F + '::CacheTree', {'root_node': 'Node', 'curr_node': 'Node?', 'inputs': 'Tup[val]', 'outputs': 'Tup[val]'})
    w.cls('CacheDict', F + '::CacheDict', {'cache_dict': 'Map[Tup[val],val]', 'inputs': 'Tup[val]'})
    # the wrapped system: `hist` is the ghost input history since the last reset
    w.cls('SUL', S + '::SUL', {'num_queries': 'int', 'num_steps': 'int'}, ghost={'hist': 'Tup[val]', 'outs': 'Tup[val]', 'ins': 'Tup[val]', 'det': 'bool', 'nres': 'int', 'npost': 'int'},
          ignore=['num_cached_queries'])
    w.cls('CacheSULT', S + '::CacheSUL', {'sul': 'SUL', 'cache': 'CacheTree', 'num_queries': 'int', 'num_steps': 'int', 'num_cached_queries': 'int'})
    w.cls('CacheSULD', S + '::CacheSUL', {'sul': 'SUL', 'cache': 'CacheDict', 'num_queries': 'int', 'num_steps': 'int', 'num_cached_queries': 'int'})
    # the function a deterministic system computes: last output after an input word
    w.ufn('OUT', ['SUL', 'Tup[val]'], 'val')

    RT = ['Node.children', 'Node.value', 'Node.path', 'Node.tree', 'Node.par', 'Node.$alloc', 'CacheTree.root_node', 'CacheTree.curr_node']
    w.spec('''
def INV(t: 'CacheTree') -> 'bool':
    return (t.root_node.tree == t and t.root_node.path == () and
      forall("n:Node, a:val", implies(alloc(n) and n.tree == t and a in n.children, n.children[a].tree == t and n.children[a].path == n.path + (a,)), n.children[a]) and
      forall("n:Node, m:Node", implies(alloc(n) and alloc(m) and n.tree == t and m.tree == t and n.path == m.path, n == m), (n.path, m.path)) and
      forall("n:Node", implies(alloc(n) and n.tree == t and len(n.path) > 0, n.par is not None and alloc(n.par) and n.par.tree == t
               and n.path[len(n.path) - 1] in n.par.children and n.par.children[n.path[len(n.path) - 1]] == n
               and n.par.path == n.path[:len(n.path) - 1]), n.path))

def has(t: 'CacheTree', u: 'Tup[val]') -> 'bool':
    return exists("n:Node", alloc(n) and n.tree == t and n.path == u, n.path)

def rec(t: 'CacheTree', u: 'Tup[val]', o: 'val') -> 'bool':
    return exists("n:Node", alloc(n) and n.tree == t and n.path == u and n.value == o, n.path)

def KEEPS(t: 'CacheTree') -> 'bool':
    return forall("n:Node", implies(old(alloc(n)), alloc(n) and n.path == old(n.path) and n.tree == old(n.tree)
                                  and (n.value == old(n.value) or n == t.root_node)), n.path, old(n.path))

def SYNC(t: 'CacheTree', s: 'SUL') -> 'bool':
    return forall("n:Node", implies(alloc(n) and n.tree == t and len(n.path) > 0, n.value == OUT(s, n.path)), n.path)

def PC(d: 'CacheDict') -> 'bool':
    return forall("u:Tup[val], i:int", implies(u in d.cache_dict and 1 <= i and i <= len(u), u[:i] in d.cache_dict), (u in d.cache_dict, u[:i]))

def DKEEPS(d: 'CacheDict') -> 'bool':
    return forall("u:Tup[val]", implies(old(u in d.cache_dict), u in d.cache_dict and (len(u) == 0 or d.cache_dict[u] == old(d.cache_dict[u]))), d.cache_dict[u])

def DSYNC(d: 'CacheDict', s: 'SUL') -> 'bool':
    return forall("u:Tup[val]", implies(u in d.cache_dict and len(u) > 0, d.cache_dict[u] == OUT(s, u)), d.cache_dict[u])
''')
    w.lemma('prefix_closed', 't:CacheTree, n:Node, j:int',
            requires=['INV(t)', 'alloc(n)', 'n.tree == t', '0 <= j', 'j <= len(n.path)'],
            ensures=['has(t, n.path[:len(n.path) - j])'], induct='j', fix=('t', 'n'),
            hints=['assert implies(j > 0, forall("m:Node", implies(alloc(m) and m.tree == t and m.path == n.path[:len(n.path) - (j - 1)], m.par.path == n.path[:len(n.path) - j]), m.path))'])

    w.lemma('prefixes_present', 'n:Node, i:int', requires=['alloc(n)', 'n.tree is not None', 'INV(n.tree)', '0 <= i', 'i <= len(n.path)'],
            ensures=['has(n.tree, n.path[:i])'], trigger=['n.path[:i]'], hints=['prefix_closed(n.tree, n, len(n.path) - i)'])
    w.contract(F + '::CacheTree.__init__', name='CacheTree.__init__', params={'self': 'CacheTree'},
               modifies=['self.*'], allocs=['Node'],
               requires=['alloc(self)', 'forall("n:Node", implies(alloc(n), n.tree != self))'],
               ghost={'exit': 'self.root_node.path = ()\nself.root_node.tree = self'},
               ensures=['INV(self)', 'forall("n:Node", implies(alloc(n) and n.tree == self, n.path == ()), n.tree)', 'fresh(self.root_node)',
                        'unchanged("Node.path", "Node.tree", "Node.value", "Node.children", "Node.par")'])
    w.contract(F + '::CacheTree.reset', name='CacheTree.reset', params={'self': 'CacheTree'},
               modifies=['self.curr_node', 'self.inputs', 'self.outputs'],
               ensures=['self.curr_node == self.root_node', 'self.inputs == ()', 'self.outputs == ()'])
    CUR = 'self.curr_node is not None and alloc(self.curr_node) and self.curr_node.tree == self'
    w.contract(F + '::CacheTree.step_in_cache', name='CacheTree.step_in_cache',
               params={'self': 'CacheTree', 'inp': 'val', 'out': 'val'},
               requires=['INV(self)', CUR],
               modifies=['self.curr_node', 'self.inputs', 'self.outputs', 'Node.children', 'Node.path', 'Node.tree', 'Node.par', 'self.root_node.value'],
               allocs=['Node'],
               ghost={'exit': '''
if inp is not None and fresh(self.curr_node):
    self.curr_node.path = old(self.curr_node.path) + (inp,)
    self.curr_node.tree = self
    self.curr_node.par = old(self.curr_node)
'''},
               ensures=['INV(self)', CUR, 'KEEPS(self)',
                        'implies(inp is None, self.curr_node == old(self.curr_node) and self.root_node.value == out)',
                        'implies(inp is not None, self.curr_node.path == old(self.curr_node.path) + (inp,) and self.curr_node.value == out)',
                        'implies(inp is not None, forall("n:Node", implies(alloc(n) and n.tree == self and n != self.root_node, old(alloc(n) and n.tree == self) or n == self.curr_node), n.tree))',
                        'implies(inp is not None, self.root_node.value == old(self.root_node.value))',
                        'forall("n:Node", implies(alloc(n) and n.tree == self and not old(alloc(n)), n == self.curr_node and inp is not None), n.tree)',
                        # no contradiction was present
                        'implies(inp is not None, not old(exists("n:Node", alloc(n) and n.tree == self and n.path == self.curr_node.path + (inp,) and n.value != out, n.path)))',
                        'forall("n:Node, t:CacheTree", implies(t != self and alloc(n) and n.tree == t, old(alloc(n) and n.tree == t)), (n.tree, alloc(t)))'],
               raises={'SystemExit': ['inp is not None', 'old(exists("n:Node", alloc(n) and n.tree == self and n.path == self.curr_node.path + (inp,) and n.value != out, n.path))',
                                      'unchanged("Node.value", "Node.children", "Node.path", "Node.tree", "Node.par")']})
    w.contract(F + '::CacheTree.in_cache', name='CacheTree.in_cache', params={'self': 'CacheTree', 'input_seq': 'Tup[val]'},
               requires=['INV(self)'], returns='Opt[Tup[val]]', locals={'output_seq': 'Tup[val]'},
               lemmas=[],
               loops={0: Loop(inv=['alloc(curr_node) and curr_node.tree == self', 'curr_node.path == input_seq[:_k]', 'len(output_seq) == _k',
                                   'forall("j:int", implies(0 <= j and j < _k, rec(self, input_seq[:j + 1], output_seq[j])), output_seq[j])'])},
               ghost={'exit': '''
if result is None:
    use(prefixes_present)
    assert not has(self, input_seq[:_k + 1])
'''},
               ensures=['implies(result is None, not has(self, input_seq))',
                        'implies(result is not None, len(result) == len(input_seq))',
                        'implies(result is not None and len(input_seq) > 0, has(self, input_seq))',
                        'implies(result is not None, forall("j:int", implies(0 <= j and j < len(input_seq), rec(self, input_seq[:j + 1], result[j])), result[j]))'])
    # ---- dictionary cache
    w.contract(F + '::CacheDict.__init__', name='CacheDict.__init__', params={'self': 'CacheDict'}, modifies=['self.*'],
               ensures=['forall("u:Tup[val]", not (u in self.cache_dict))', 'self.inputs == ()'])
    w.contract(F + '::CacheDict.reset', name='CacheDict.reset', params={'self': 'CacheDict'}, modifies=['self.inputs'], ensures=['self.inputs == ()'])
    POS = 'forall("i:int", implies(1 <= i and i <= len(self.inputs), self.inputs[:i] in self.cache_dict), self.inputs[:i])'
    w.contract(F + '::CacheDict.step_in_cache', name='CacheDict.step_in_cache', params={'self': 'CacheDict', 'inp': 'val', 'out': 'val'},
               requires=['PC(self)', POS], modifies=['self.inputs', 'self.cache_dict'],
               ensures=['PC(self)', POS, 'DKEEPS(self)',
                        'implies(inp is None, self.inputs == old(self.inputs) and () in self.cache_dict and self.cache_dict[()] == out)',
                        'implies(inp is not None, self.inputs == old(self.inputs) + (inp,) and self.inputs in self.cache_dict and self.cache_dict[self.inputs] == out)',
                        'forall("u:Tup[val]", implies(u in self.cache_dict and not old(u in self.cache_dict), u == self.inputs or len(u) == 0), u in self.cache_dict)',
                        'implies(inp is not None, not old(self.inputs + (inp,) in self.cache_dict and self.cache_dict[self.inputs + (inp,)] != out))'],
               raises={'SystemExit': ['inp is not None', 'old(self.inputs + (inp,) in self.cache_dict and self.cache_dict[self.inputs + (inp,)] != out)', 'unchanged("CacheDict.cache_dict")']})
    w.contract(F + '::CacheDict.get_output_sequence', name='CacheDict.get_output_sequence', params={'self': 'CacheDict', 'input_seq': 'Tup[val]'}, returns='Tup[val]',
               requires=['forall("i:int", implies(1 <= i and i <= len(input_seq), input_seq[:i] in self.cache_dict), input_seq[:i])'],
               ensures=['len(result) == len(input_seq)', 'forall("i:int", implies(0 <= i and i < len(input_seq), result[i] == self.cache_dict[input_seq[:i + 1]]), result[i])'])
    w.contract(F + '::CacheDict.in_cache', name='CacheDict.in_cache', params={'self': 'CacheDict', 'input_seq': 'Tup[val]'}, returns='Opt[Tup[val]]',
               requires=['PC(self)'],
               ensures=['iff(result is None, not (input_seq in self.cache_dict))', 'implies(result is not None, len(result) == len(input_seq))',
                        'implies(result is not None, forall("i:int", implies(0 <= i and i < len(input_seq), input_seq[:i + 1] in self.cache_dict and result[i] == self.cache_dict[input_seq[:i + 1]]), result[i]))'])
    # ---- the system under learning: abstract methods are the environment
    w.contract(S + '::SUL.pre', name='SUL.pre', params={'self': 'SUL'}, trusted='abstract method of the system under learning', recv='SUL',
               modifies=['self.hist', 'self.outs', 'self.ins', 'self.nres'],
               ensures=['self.hist == ()', 'self.outs == ()', 'self.ins == ()', 'self.nres == old(self.nres) + 1'])
    w.contract(S + '::SUL.post', name='SUL.post', params={'self': 'SUL'}, trusted='abstract method of the system under learning', recv='SUL',
               modifies=['self.npost'], ensures=['self.npost == old(self.npost) + 1'])
    w.contract(S + '::SUL.step', name='SUL.step', params={'self': 'SUL', 'letter': 'val'}, returns='val', recv='SUL',
               trusted='abstract method of the system under learning; when `det` its output is a function OUT of the inputs since reset',
               modifies=['self.hist', 'self.outs', 'self.ins'],
               ensures=['self.ins == old(self.ins) + (letter,)', 'self.outs == old(self.outs) + (result,)',
                        'self.hist == ite(letter is None, old(self.hist), old(self.hist) + (letter,))',
                        'implies(self.det, result == OUT(self, self.hist))'])
    w.contract(S + '::SUL.query', name='SUL.query', params={'self': 'SUL', 'word': 'Tup[val]'}, returns='List[val]', recv='SUL',
               requires=['forall("i:int", implies(0 <= i and i < len(word), word[i] is not None), word[i])'],
               modifies=['self.hist', 'self.outs', 'self.ins', 'self.nres', 'self.npost', 'self.num_queries', 'self.num_steps'],
               loops={'comp0': Loop(inv=['self.ins == word[:_k]', 'self.hist == word[:_k]', 'len(_acc) == _k', 'len(self.outs) == _k', 'self.nres == old(self.nres) + 1',
                       'self.npost == old(self.npost)', 'self.det == old(self.det)',
                       'forall("i:int", implies(0 <= i and i < _k, _acc[i] == self.outs[i] and implies(self.det, _acc[i] == OUT(self, word[:i + 1]))), _acc[i])'], locals={'_acc': 'List[val]'})},
               ensures=['self.nres == old(self.nres) + 1', 'self.npost == old(self.npost) + 1',
                        'self.ins == ite(len(word) == 0, (None,), word)', 'len(result) == len(self.outs)',
                        'forall("i:int", implies(0 <= i and i < len(result), result[i] == self.outs[i]), result[i])',
                        'len(result) == ite(len(word) == 0, 1, len(word))', 'implies(self.det and len(word) > 0, forall("i:int", implies(0 <= i and i < len(word), result[i] == OUT(self, word[:i + 1])), result[i]))',
                        'implies(self.det and len(word) == 0, result[0] == OUT(self, ()))',
                        'self.num_queries == old(self.num_queries) + 1', 'self.num_steps == old(self.num_steps) + len(word)'])
    w.cls('ADS', None, {})
    w.contract('ADS.next_input', name='ADS.next_input', params={'self': 'ADS', 'output': 'val'}, returns='val', trusted='adaptive distinguishing strategy: any decision')
    ODET = 'forall("i:int", implies(0 <= i and i < len(outputs_received) and self.det, outputs_received[i] == OUT(self, tuple(word[:i + 1]))), outputs_received[i])'
    w.contract(S + '::SUL.adaptive_query', name='SUL.adaptive_query', params={'self': 'SUL', 'word': 'List[val]', 'ads': 'ADS'}, returns='Tuple[List[val],List[val]]', recv='SUL', mut=['word'],
               requires=['forall("i:int", implies(0 <= i and i < len(word), word[i] is not None), word[i])'], locals={'outputs_received': 'List[val]', 'last_output': 'val'},
               modifies=['self.hist', 'self.outs', 'self.ins', 'self.nres', 'self.npost', 'self.num_queries', 'self.num_steps'],
               loops={0: Loop(inv=['self.nres == old(self.nres) + 1', 'self.npost == old(self.npost)', 'self.hist == tuple(word[:_k])', 'self.ins == tuple(word[:_k])', 'len(outputs_received) == _k', ODET, 'self.num_steps == old(self.num_steps)']),
                      1: Loop(inv=['self.nres == old(self.nres) + 1', 'self.npost == old(self.npost)', 'self.hist == tuple(word)', 'len(outputs_received) == len(word)', ODET, 'len(word) >= len(old(word))',
                                   'word[:len(old(word))] == old(word)', 'implies(len(old(word)) > 0, self.ins == tuple(word))',
                                   'self.num_steps == old(self.num_steps) + len(word)',
                                   'forall("i:int", implies(0 <= i and i < len(word), word[i] is not None), word[i])'])},
               ensures=['self.nres == old(self.nres) + 1', 'self.npost == old(self.npost) + 1', 'self.num_queries == old(self.num_queries) + 1', 'tuple(result[0]) == self.hist',
                        'len(result[1]) == len(result[0])', 'self.num_steps == old(self.num_steps) + len(result[0])', 'result[0][:len(old(word))] == old(word)',
                        'implies(self.det, forall("i:int", implies(0 <= i and i < len(result[1]), result[1][i] == OUT(self, tuple(result[0][:i + 1]))), result[1][i]))'])
    w.contract(S + '::SUL.io_query', name='SUL.io_query', params={'self': 'SUL', 'word': 'Tup[val]'}, returns='List[Tuple[val,val]]', recv='SUL',
               requires=['forall("i:int", implies(0 <= i and i < len(word), word[i] is not None), word[i])'],
               modifies=['self.hist', 'self.outs', 'self.ins', 'self.nres', 'self.npost', 'self.num_queries', 'self.num_steps'],
               ensures=['len(result) == len(word)', 'forall("i:int", implies(0 <= i and i < len(word), result[i][0] == word[i] and result[i][1] == self.outs[i]), result[i])',
                        'self.nres == old(self.nres) + 1', 'self.npost == old(self.npost) + 1', 'self.ins == ite(len(word) == 0, (None,), word)',
                        'implies(self.det, forall("i:int", implies(0 <= i and i < len(word), result[i][1] == OUT(self, word[:i + 1])), result[i]))'])
    # ---- the caching wrapper, once per cache kind
    for C, CT in (('CacheSULT', 'CacheTree'), ('CacheSULD', 'CacheDict')):
        tree = C == 'CacheSULT'
        OK = ['INV(self.cache)'] if tree else ['PC(self.cache)']
        recd = 'rec(self.cache, %s, %s)' if tree else '(%s in self.cache.cache_dict and self.cache.cache_dict[%s] == %s)'

        def R(u, o):
            return recd % (u, o) if tree else recd % (u, u, o)
        KEEP = 'KEEPS(self.cache)' if tree else 'DKEEPS(self.cache)'
        SY = 'SYNC(self.cache, self.sul)' if tree else 'DSYNC(self.cache, self.sul)'
        CACHEMOD = (['CacheTree.curr_node', 'CacheTree.inputs', 'CacheTree.outputs', 'Node.children', 'Node.path', 'Node.tree', 'Node.par', 'self.cache.root_node.value'] if tree
                    else ['self.cache.inputs', 'self.cache.cache_dict'])
        SULMOD = ['self.sul.hist', 'self.sul.outs', 'self.sul.ins', 'self.sul.nres', 'self.sul.npost', 'self.sul.num_queries', 'self.sul.num_steps']
        AL = ['Node'] if tree else []
        POS = (['self.cache.curr_node is not None and alloc(self.cache.curr_node) and self.cache.curr_node.tree == self.cache'] if tree else
               ['forall("i:int", implies(1 <= i and i <= len(self.cache.inputs), self.cache.inputs[:i] in self.cache.cache_dict), self.cache.inputs[:i])'])
        AT = 'self.cache.curr_node.path' if tree else 'self.cache.inputs'
        w.contract(S + '::CacheSUL.query', name=C + '.query', params={'self': C, 'word': 'Tup[val]'}, returns='Seq[val]', recv=C, locals={'out': 'List[val]'},
                   requires=OK + ['forall("i:int", implies(0 <= i and i < len(word), word[i] is not None), word[i])'],
                   modifies=CACHEMOD + SULMOD + ['self.num_queries', 'self.num_steps', 'self.num_cached_queries'], allocs=AL,
                   loops={0: Loop(inv=OK + POS + [AT + ' == word[:_k]', KEEP, 'implies(self.sul.det and old(%s), %s)' % (SY, SY),
                                                  'forall("i:int", implies(0 <= i and i < _k, %s), out[i])' % R('word[:i + 1]', 'out[i]')])},
                   ensures=OK + [KEEP,
                                 # every answer is on record, and what was on record is unchanged
                                 'len(word) == 0 or len(result) == len(word)',
                                 'forall("i:int", implies(0 <= i and i < len(word), %s), result[i])' % R('word[:i + 1]', 'result[i]'),
                                 'implies(self.sul.det and old(%s), %s)' % (SY, SY),
                                 'implies(self.sul.det and old(%s), forall("i:int", implies(0 <= i and i < len(word), result[i] == OUT(self.sul, word[:i + 1])), result[i]))' % SY],
                   raises={'SystemExit': [KEEP, 'not (self.sul.det and old(%s))' % SY]})
        w.contract(S + '::CacheSUL.pre', name=C + '.pre', params={'self': C}, recv=C, modifies=['self.cache.curr_node', 'self.cache.inputs', 'self.cache.outputs', 'self.sul.hist', 'self.sul.outs', 'self.sul.ins', 'self.sul.nres'] if tree else
                   ['self.cache.inputs', 'self.sul.hist', 'self.sul.outs', 'self.sul.ins', 'self.sul.nres'],
                   requires=OK, ensures=OK + POS + [AT + ' == self.sul.hist', 'self.sul.hist == ()', 'self.sul.nres == old(self.sul.nres) + 1'])
        w.contract(S + '::CacheSUL.post', name=C + '.post', params={'self': C}, recv=C, modifies=['self.sul.npost'], ensures=['self.sul.npost == old(self.sul.npost) + 1'])
        w.contract(S + '::CacheSUL.step', name=C + '.step', params={'self': C, 'letter': 'val'}, returns='val', recv=C, modifies=CACHEMOD + ['self.sul.hist', 'self.sul.outs', 'self.sul.ins'], allocs=AL,
                   requires=OK + POS + [AT + ' == self.sul.hist'],
                   ensures=OK + POS + [AT + ' == self.sul.hist', KEEP, 'self.sul.ins == old(self.sul.ins) + (letter,)', 'self.sul.outs == old(self.sul.outs) + (result,)',
                            'implies(letter is not None, %s)' % R('self.sul.hist', 'result'), 'implies(self.sul.det and old(%s), %s)' % (SY, SY)],
                   raises={'SystemExit': [KEEP, 'not (self.sul.det and old(%s))' % SY]})
    return w
