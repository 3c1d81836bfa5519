"""C13: the prefix tree of sampled traces."""
from pyvc.world import World, Loop

F = 'aalpy/learning_algs/stochastic_passive/FPTA.py'


def world(kind):
    w = World('fpta:' + kind)
    w.cls('N', F + '::AlergiaPtaNode', {'prefix': 'Tup[val]', 'output': 'val', 'input_frequency': 'Map[val,int]', 'children': 'Map[val,N]', 'original_input_frequency': 'Map[val,int]', 'original_children': 'Map[val,N]',
          'state_id': 'val', 'children_prob': 'val'}, ghost={'top': 'N?', 'up': 'N?'})
    OUT = {'mc': 'a', 'mdp': 'a[1]', 'smm': 'None'}[kind]
    TR = lambda q: q if kind == 'smm' else 'ite(len(%s) > 0, %s[1:], %s)' % (q, q, q)
    w.spec('''
def TAG(n: 'N') -> 'bool':
    return True
''', opaque=True)
    w.lemma('tag', 'n:N', ensures=['TAG(n)'], trigger=['TAG(n)'], hints=['reveal(TAG(n))'])
    w.spec('''
def LAB(a: 'val') -> 'val':
    return %s
def TRC(q: 'List[val]') -> 'Tup[val]':
    return tuple(%s)
def NN(x: 'N?') -> 'bool':
    return x is not None
def IN(r: 'N', n: 'N') -> 'bool':
    return alloc(n) and n.top == r
def has(r: 'N', p: 'Tup[val]') -> 'bool':
    return exists("n:N", TAG(n) and IN(r, n) and n.prefix == p, TAG(n))
def INV(r: 'N') -> 'bool':
    return (IN(r, r) and r.prefix == () and
      forall("n:N, a:val", implies(IN(r, n), iff(a in n.children, a in n.original_children) and iff(a in n.children, a in n.input_frequency) and iff(a in n.children, a in n.original_input_frequency)), a in n.children, a in n.original_children, a in n.input_frequency, a in n.original_input_frequency) and
      forall("n:N, a:val", implies(IN(r, n) and a in n.children, n.original_children[a] == n.children[a] and n.original_input_frequency[a] == n.input_frequency[a] and IN(r, n.children[a]) and n.children[a].prefix == n.prefix + (a,) and n.children[a].output == LAB(a) and n.children[a].up == n), n.children[a]) and
      forall("n:N, m:N", implies(IN(r, n) and IN(r, m) and n.prefix == m.prefix, n == m), (n.prefix, m.prefix)) and
      forall("n:N", implies(IN(r, n) and n != r, n.up is not None and IN(r, n.up) and len(n.prefix) > 0 and n.up.prefix == n.prefix[:len(n.prefix) - 1] and n.prefix[len(n.prefix) - 1] in n.up.children and n.up.children[n.prefix[len(n.prefix) - 1]] == n), n.prefix, n.up))
''' % (OUT, TR('q')))
    w.spec('''
def PFX(p: 'Tup[val]', u: 'Tup[val]') -> 'bool':
    return len(p) <= len(u) and p == u[:len(p)]
''', opaque=True)
    w.spec('''
def HIT(p: 'Tup[val]', u: 'Tup[val]') -> 'int':
    return ite(PFX(p, u), 1, 0)
''')
    # the number of the first k traces that start with p
    w.spec('''
def CNT(d: 'List[List[val]]', k: 'int', p: 'Tup[val]') -> 'int':
    return ite(k <= 0, 0, CNT(d, k - 1, p) + HIT(p, TRC(d[k - 1])))
''')
    w.lemma('pfx1', 'p:Tup[val], u:Tup[val], x:val', ensures=['iff(PFX(p, u + (x,)), PFX(p, u) or p == u + (x,))'], trigger=['PFX(p, u + (x,))'], hints=['reveal(PFX(p, u))', 'reveal(PFX(p, u + (x,)))'])
    w.lemma('pfx2', 'p:Tup[val], u:Tup[val]', ensures=['implies(PFX(p, u), len(p) <= len(u))', 'implies(len(p) == 0, PFX(p, u))', 'implies(len(p) == len(u), iff(PFX(p, u), p == u))'], trigger=['PFX(p, u)'], hints=['reveal(PFX(p, u))'])
    w.lemma('pfx3', 'p:Tup[val], u:Tup[val]', requires=['PFX(p, u)'], ensures=['p == u[:len(p)]'], trigger=['PFX(p, u)'], hints=['reveal(PFX(p, u))'])
    w.lemma('cnt_pos', 'd:List[List[val]], k:int, p:Tup[val]', ensures=['CNT(d, k, p) >= 0'], induct='k', fix=('d', 'p'), trigger=['CNT(d, k, p)'])
    w.contract(F + '::AlergiaPtaNode.__init__', name='N.__init__', params={'self': 'N', 'output': 'val', 'prefix': 'Tup[val]'}, recv='N', modifies=['self.*'],
               ensures=['self.output == output', 'self.prefix == prefix'] + ['forall("a:val", not (a in self.%s), a in self.%s)' % (f, f) for f in ('children', 'original_children', 'input_frequency', 'original_input_frequency')])
    CN = 'CNT(data, _k, {p})'
    FREQ = 'forall("n:N, a:val", implies(IN(root_node, n) and a in n.children, n.input_frequency[a] == %s), n.input_frequency[a])'
    ALL = 'forall("n:N", implies(IN(root_node, n) and n != root_node, %s >= 1), n.prefix)'
    HASW = 'forall("p:Tup[val]", implies(CNT(data, _k, p) >= 1, has(root_node, p)), CNT(data, _k, p))'
    BASE = ['INV(root_node)', 'root_node.output == ' + ('None' if kind == 'smm' else 'data[0][0]'), 'NN(root_node)', 'forall("n:N", implies(old(alloc(n)), not IN(root_node, n)), n.top)'] + ([] if kind == 'smm' else ['initial_output == data[0][0]'])
    w.contract(F + '::create_fpta', name='create_fpta', params={'data': 'List[List[val]]', 'automaton_type': ('const', kind)}, returns='N', allocs=['N'], modifies=['N.*', 'N.top', 'N.up'],
               requires=[] if kind == 'smm' else ['len(data) > 0', 'forall("i:int", implies(0 <= i and i < len(data), len(data[i]) > 0 and data[i][0] == data[0][0]), data[i])'],
               loops={0: Loop(inv=BASE + [FREQ % 'CNT(data, _k, n.prefix + (a,))', ALL % 'CNT(data, _k, n.prefix)', HASW], idx='_k', it='_it'),
                      1: Loop(inv=BASE + ['NN(curr_node)', 'IN(root_node, curr_node)', 'curr_node.prefix == TRC(seq)[:_j]', FREQ % 'CNT(data, _k, n.prefix + (a,)) + HIT(n.prefix + (a,), TRC(seq)[:_j])', ALL % 'CNT(data, _k, n.prefix) + HIT(n.prefix, TRC(seq)[:_j])',
                                          HASW, 'forall("j:int", implies(0 <= j and j <= _j, has(root_node, TRC(seq)[:j])), TRC(seq)[:j])'], idx='_j', it='_itj')},
               ghost={'entry': 'use(pfx1, pfx2, pfx3, cnt_pos, tag)', 'after:root_node = ': 'root_node.top = root_node\nassert TAG(root_node)', 'loop0.start': 'assert seq == data[_k]', 'loop1.start': 'assert TRC(seq)[:_j + 1] == TRC(seq)[:_j] + (el,)\ng_c = curr_node', 'after:curr_node.children.el. = ': 'reached_node.top = root_node\nreached_node.up = curr_node\nassert TAG(reached_node)',
                      'before:curr_node = curr_node.children.el': '''assert forall("n:N, a:val", implies(IN(root_node, n), iff(a in n.children, a in n.original_children) and iff(a in n.children, a in n.input_frequency) and iff(a in n.children, a in n.original_input_frequency)), a in n.children, a in n.original_children, a in n.input_frequency, a in n.original_input_frequency)
assert forall("n:N, a:val", implies(IN(root_node, n) and a in n.children, n.original_children[a] == n.children[a] and IN(root_node, n.children[a]) and n.children[a].prefix == n.prefix + (a,) and n.children[a].output == LAB(a) and n.children[a].up == n), n.children[a])
assert forall("n:N, a:val", implies(IN(root_node, n) and a in n.children, n.original_input_frequency[a] == n.input_frequency[a]), n.input_frequency[a], n.children[a])
assert forall("n:N, m:N", implies(IN(root_node, n) and IN(root_node, m) and n.prefix == m.prefix, n == m), (n.prefix, m.prefix))
assert forall("n:N", implies(IN(root_node, n) and n != root_node, n.up is not None and IN(root_node, n.up) and len(n.prefix) > 0 and n.up.prefix == n.prefix[:len(n.prefix) - 1] and n.prefix[len(n.prefix) - 1] in n.up.children and n.up.children[n.prefix[len(n.prefix) - 1]] == n), n.prefix, n.up)
''' + 'assert forall("n:N, a:val", implies(IN(root_node, n) and a in n.children and (n != g_c or a != el), n.input_frequency[a] == CNT(data, _k, n.prefix + (a,)) + HIT(n.prefix + (a,), TRC(seq)[:_j])), n.input_frequency[a])\nassert g_c.input_frequency[el] == CNT(data, _k, g_c.prefix + (el,)) + 1 + HIT(g_c.prefix + (el,), TRC(seq)[:_j])', 'loop1.end': 'assert curr_node.prefix == TRC(seq)[:_j + 1]', 'loop0.end': 'assert TRC(seq)[:len(TRC(seq))] == TRC(seq)\nassert forall("p:Tup[val]", CNT(data, _k + 1, p) == CNT(data, _k, p) + HIT(p, TRC(seq)), CNT(data, _k + 1, p))\nassert forall("p:Tup[val]", implies(PFX(p, TRC(seq)), p == TRC(seq)[:len(p)]), PFX(p, TRC(seq)))'},
               ensures=['INV(result)', 'result.output == ' + ('None' if kind == 'smm' else 'data[0][0]'),
                        'forall("n:N, a:val", implies(IN(result, n) and a in n.children, n.input_frequency[a] == CNT(data, len(data), n.prefix + (a,))), n.input_frequency[a])',
                        'forall("n:N", implies(IN(result, n) and n != result, CNT(data, len(data), n.prefix) >= 1), n.prefix)',
                        'forall("p:Tup[val]", implies(CNT(data, len(data), p) >= 1, has(result, p)), CNT(data, len(data), p))'])
    return w
