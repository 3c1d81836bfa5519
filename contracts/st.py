"""C20: the multiset of traces sampled by the stochastic teacher."""
from pyvc.world import World, Loop

F = 'aalpy/learning_algs/stochastic/StochasticTeacher.py'
S_ = F + '::StochasticSUL'
T_ = F + '::StochasticTeacher'


def world(kind):
    w = World('st:' + kind)
    w.cls('N', F + '::Node', {'output': 'val', 'frequency': 'int', 'children': 'Map[val,Map[val,N]]', 'input_frequencies': 'Map[val,int]'}, ghost={'ins': 'Tup[val]', 'outs': 'Tup[val]', 'top': 'N?', 'up': 'N?'})
    w.cls('SUL', 'aalpy/base/SUL.py::SUL', {})
    w.cls('TE', T_, {'root_node': 'N', 'curr_node': 'N?', 'sul': 'SS', 'n_c': 'int', 'complete_query_cache': 'Set[Tup[val]]'}, consts={'automaton_type': kind},
          ignore=['eq_oracle', 'compatibility_checker', 'samples_cex_strategy', 'last_cex', 'last_tree_cex', 'initial_value'])
    w.cls('SS', S_, {'sul': 'SUL', 'teacher': 'TE', 'num_queries': 'int', 'num_steps': 'int'})
    w.spec('''
def HAS(n: 'N', a: 'val', o: 'val') -> 'bool':
    return a in n.children and o in n.children[a]
''', opaque=True, reads=['N.children'])
    w.spec('''
def KID(n: 'N', a: 'val', o: 'val') -> 'N':
    return n.children[a][o]
''', opaque=True, reads=['N.children'])
    w.spec('''
def IF(n: 'N', a: 'val') -> 'int':
    return ite(a in n.input_frequencies, n.input_frequencies[a], 0)
''', opaque=True, reads=['N.input_frequencies'])
    w.spec('''
def NN(x: 'N?') -> 'bool':
    return x is not None
def IN(r: 'N', n: 'N') -> 'bool':
    return alloc(n) and n.top == r
def INV(r: 'N') -> 'bool':
    return (IN(r, r) and r.ins == () and r.outs == () and
      forall("n:N, a:val, o:val", implies(IN(r, n) and HAS(n, a, o), IN(r, KID(n, a, o)) and KID(n, a, o).ins == n.ins + (a,) and KID(n, a, o).outs == n.outs + (o,) and KID(n, a, o).output == o), HAS(n, a, o), KID(n, a, o)) and
      forall("n:N, m:N", implies(IN(r, n) and IN(r, m) and n.ins == m.ins and n.outs == m.outs, n == m), (n.ins, m.ins)) and
      forall("n:N", implies(IN(r, n), len(n.ins) == len(n.outs)), n.ins) and
      forall("n:N", implies(IN(r, n) and n != r, n.up is not None and IN(r, n.up) and len(n.ins) > 0 and n.up.ins == n.ins[:len(n.ins) - 1] and n.up.outs == n.outs[:len(n.outs) - 1]
               and HAS(n.up, n.ins[len(n.ins) - 1], n.outs[len(n.outs) - 1]) and KID(n.up, n.ins[len(n.ins) - 1], n.outs[len(n.outs) - 1]) == n), n.ins, n.up))
def has(r: 'N', u: 'Tup[val]', o: 'Tup[val]') -> 'bool':
    return exists("n:N", IN(r, n) and n.ins == u and n.outs == o, n.ins)
''')
    w.lemma('chs', 'n:N, a:val, o:val', ensures=['iff(HAS(n, a, o), a in n.children and o in n.children[a])'], trigger=['HAS(n, a, o)', 'n.children[a][o]'], hints=['reveal(HAS(n, a, o))'])
    w.lemma('chk', 'n:N, a:val, o:val', ensures=['KID(n, a, o) == n.children[a][o]'], trigger=['KID(n, a, o)', 'n.children[a][o]'], hints=['reveal(KID(n, a, o))'])
    w.lemma('iff_', 'n:N, a:val', ensures=['IF(n, a) == ite(a in n.input_frequencies, n.input_frequencies[a], 0)'], trigger=['IF(n, a)', 'n.input_frequencies[a]'], hints=['reveal(IF(n, a))'])
    USE = 'use(chs(_, _, _), chk(_, _, _), iff_(_, _))'
    SAMEC = 'forall("s:N, a:val, o:val", implies(old(alloc(s)), iff(HAS(s, a, o), old(HAS(s, a, o))) and implies(HAS(s, a, o), KID(s, a, o) == old(KID(s, a, o)))), HAS(s, a, o), KID(s, a, o))'
    SAMEI = 'forall("z:N, a:val", implies(old(alloc(z)), IF(z, a) == old(IF(z, a))), IF(z, a))'
    w.contract(F + '::Node.__init__', name='N.__init__', params={'self': 'N', 'output': 'val'}, recv='N', modifies=['self.*'],
               ensures=['self.output == output', 'forall("a:val", not (a in self.children), a in self.children)', 'self.frequency == 0', 'forall("a:val", not (a in self.input_frequencies), a in self.input_frequencies)'])
    w.contract(F + '::Node.get_child', name='N.get_child', params={'self': 'N', 'inp': 'val', 'out': 'val'}, returns='N?', recv='N', ghost={'entry': USE},
               ensures=['iff(result is None, not HAS(self, inp, out))', 'implies(HAS(self, inp, out), result == KID(self, inp, out))'])
    w.contract(F + '::Node.get_frequency_sum', name='N.get_frequency_sum', params={'self': 'N', 'input_letter': 'val'}, returns='int', recv='N', modifies=['self.input_frequencies'], ghost={'entry': USE, 'exit': USE},
               ensures=[SAMEI, 'result == IF(self, input_letter)'])
    w.contract(F + '::Node.get_output_frequencies', name='N.get_output_frequencies', params={'self': 'N', 'input_letter': 'val'}, returns='Map[val,int]', recv='N', requires=['forall("o:val", implies(HAS(self, input_letter, o), KID(self, input_letter, o).output == o), HAS(self, input_letter, o))'], ghost={'entry': USE},
               ensures=['forall("o:val", iff(o in result, HAS(self, input_letter, o)), o in result)', 'forall("o:val", implies(o in result, result[o] == KID(self, input_letter, o).frequency), result[o])'])
    w.contract(T_ + '.back_to_root', name='TE.back_to_root', params={'self': 'TE'}, recv='TE', modifies=['self.curr_node'], ensures=['self.curr_node == self.root_node'])
    MOD = ['TE.curr_node', 'N.children', 'N.output', 'N.frequency', 'N.input_frequencies', 'N.ins', 'N.outs', 'N.top', 'N.up']
    AT = lambda t: ['INV(%s.root_node)' % t, 'NN(%s.curr_node)' % t, 'IN(%s.root_node, %s.curr_node)' % (t, t)]
    KEEP = 'forall("n:N", implies(old(alloc(n)), n.top == old(n.top) and n.ins == old(n.ins) and n.outs == old(n.outs) and n.up == old(n.up) and n.output == old(n.output)), n.top, n.ins, n.outs, n.up, n.output)'
    OTHER = 'forall("n:N, a:val, o:val", implies(old(alloc(n)) and n.top != {r}, iff(HAS(n, a, o), old(HAS(n, a, o))) and KID(n, a, o) == old(KID(n, a, o))), HAS(n, a, o), KID(n, a, o))'

    def ADDED(t, out):
        return AT(t) + ['%s.curr_node.ins == old(%s.curr_node).ins + ({a},)' % (t, t), '%s.curr_node.outs == old(%s.curr_node).outs + (%s,)' % (t, t, out), 'implies(fresh(%s.curr_node), %s.curr_node.frequency == 1 and forall("a:val", IF(%s.curr_node, a) == 0, IF(%s.curr_node, a)))' % (t, t, t, t), KEEP,
                        'forall("n:N", implies(old(alloc(n)), n.frequency == old(n.frequency) + ite(n == %s.curr_node, 1, 0)), n.frequency)' % t,
                        'forall("n:N, a:val", implies(old(alloc(n)), IF(n, a) == old(IF(n, a)) + ite(n == old(%s.curr_node) and a == {a}, 1, 0)), IF(n, a))' % t,
                        'forall("n:N", implies(IN(%s.root_node, n) and not old(IN(%s.root_node, n)), n == %s.curr_node), n.top)' % (t, t, t), OTHER.format(r='%s.root_node' % t),
                        'forall("n:N, a:val, o:val", implies(old(IN(%s.root_node, n)) and (n != old(%s.curr_node) or a != {a}), iff(HAS(n, a, o), old(HAS(n, a, o)))), HAS(n, a, o))' % (t, t),
                        'forall("n:N", implies(alloc(n) and not old(alloc(n)), n == %s.curr_node), n.top)' % t]
    w.contract(T_ + '.add', name='TE.add', params={'self': 'TE', 'inp': 'val', 'out': 'val'}, recv='TE', allocs=['N'], modifies=MOD, requires=AT('self') + ['alloc(self.root_node)'],
               ghost={'entry': 'g_c = self.curr_node\n' + USE, 'after:node = Node': USE, 'after:self.curr_node.children.inp..out. = ': """
node.ins = g_c.ins + (inp,)
node.outs = g_c.outs + (out,)
node.top = self.root_node
node.up = g_c
""" + USE + """
assert HAS(g_c, inp, out) and KID(g_c, inp, out) == node
""", 'before:self.curr_node = self.curr_node.children': USE + '\nassert HAS(g_c, inp, out)', 'exit': USE + """
assert forall("n:N", implies(alloc(n) and n != self.curr_node, old(alloc(n)) and n.top == old(n.top) and n.ins == old(n.ins) and n.outs == old(n.outs) and n.up == old(n.up)), n.ins, n.top)
assert forall("n:N, a:val, o:val", implies(alloc(n) and n != self.curr_node and (n != g_c or a != inp or o != out), iff(HAS(n, a, o), old(HAS(n, a, o))) and implies(HAS(n, a, o), KID(n, a, o) == old(KID(n, a, o)))), HAS(n, a, o), KID(n, a, o))
"""}, ensures=[x.replace('{a}', 'inp') for x in ADDED('self', 'out')])
    for m, ps in (('pre', {}), ('post', {}), ('step', {'letter': 'val'})):
        w.contract('aalpy/base/SUL.py::SUL.' + m, name='SUL.' + m, params={'self': 'SUL', **ps}, returns='val', recv='SUL', trusted='any system under learning')
    w.contract(S_ + '.pre', name='SS.pre', params={'self': 'SS'}, returns='val', recv='SS', modifies=['self.num_queries', 'TE.curr_node'], ensures=['self.num_queries == old(self.num_queries) + 1', 'self.teacher.curr_node == self.teacher.root_node'])
    w.contract(S_ + '.post', name='SS.post', params={'self': 'SS'}, recv='SS')
    w.contract(S_ + '.step', name='SS.step', params={'self': 'SS', 'letter': 'val'}, returns='val', recv='SS', allocs=['N'], modifies=MOD + ['self.num_steps'], requires=['alloc(self.teacher)'] + AT('self.teacher') + ['alloc(self.teacher.root_node)'],
               ensures=['self.num_steps == old(self.num_steps) + 1'] + [x.replace('{a}', 'letter') for x in ADDED('self.teacher', 'result')])
    # ---- what was observed after a trace
    w.lemma('prefix_closed', 'r:N, n:N, j:int', requires=['INV(r)', 'IN(r, n)', '0 <= j', 'j <= len(n.ins)'], ensures=['has(r, n.ins[:len(n.ins) - j], n.outs[:len(n.ins) - j])'], induct='j', fix=('r', 'n'),
            hints=['assert implies(j > 0, forall("m:N", implies(IN(r, m) and m.ins == n.ins[:len(n.ins) - (j - 1)] and m.outs == n.outs[:len(n.ins) - (j - 1)], m.up.ins == n.ins[:len(n.ins) - j] and m.up.outs == n.outs[:len(n.ins) - j]), m.ins))'])
    w.lemma('prefixes_present', 'r:N, n:N, i:int', requires=['INV(r)', 'IN(r, n)', '0 <= i', 'i <= len(n.ins)'], ensures=['has(r, n.ins[:i], n.outs[:i])'], trigger=['n.ins[:i]'], hints=['prefix_closed(r, n, len(n.ins) - i)'])
    TR = 's[1:]' if kind == 'mdp' else 's'
    ODD = 'ite(len(s) > %d, list((%s)[1::2]), [])' % (1 if kind == 'mdp' else 0, TR)
    w.spec("""
def US(s: 'Tup[val]', e: 'Tup[val]') -> 'Tup[val]':
    return tuple(list((%s)[0::2]) + list(e[0::2]))
def OS(s: 'Tup[val]', e: 'Tup[val]') -> 'Tup[val]':
    return tuple(%s + list(e[1::2]))
""" % (TR, ODD))
    PAR = '%s' % (1 if kind == 'mdp' else 0)
    WF = ['alloc(self.root_node)', 'INV(self.root_node)', 'len(s) % 2 == ' + PAR, 'len(e) % 2 == 1']
    w.contract(T_ + '.frequency_query', name='TE.frequency_query', params={'self': 'TE', 's': 'Tup[val]', 'e': 'Tup[val]'}, returns='Map[val,int]', recv='TE', requires=WF, modifies=['self.complete_query_cache'],
               ghost={'entry': 'g_u = US(s, e)\ng_o = OS(s, e)\nassert len(list(e[0::2])) == len(list(e[1::2])) + 1\nassert len(list((%s)[0::2])) == len(%s)\nassert len(g_u) == len(g_o) + 1\n' % (TR, ODD) + USE,
                      'before:return dict': 'assert forall("n:N", implies(IN(self.root_node, n) and n.ins == g_u[:len(g_u) - 1] and n.outs == g_o, n.ins[:_k + 1] == g_u[:_k + 1] and n.outs[:_k + 1] == g_o[:_k + 1]), n.ins)\nuse(prefixes_present(self.root_node, _, _))\nassert not has(self.root_node, g_u[:_k + 1], g_o[:_k + 1])\nassert forall("n:N", implies(IN(self.root_node, n) and n.ins == g_u[:len(g_u) - 1] and n.outs == g_o, has(self.root_node, n.ins[:_k + 1], n.outs[:_k + 1])), n.ins)\nassert forall("n:N", implies(IN(self.root_node, n), not (n.ins == g_u[:len(g_u) - 1] and n.outs == g_o)), n.ins)'},
               loops={0: Loop(inv=['0 <= _k', 'input_seq == list(g_u[:len(g_u) - 1])', 'output_seq == list(g_o)', 'NN(curr_node)', 'IN(self.root_node, curr_node)', 'curr_node.ins == g_u[:_k]', 'curr_node.outs == g_o[:_k]'])},
               ensures=['forall("n:N, o:val", implies(IN(self.root_node, n) and n.ins == US(s, e)[:len(US(s, e)) - 1] and n.outs == OS(s, e), iff(o in result, HAS(n, US(s, e)[len(US(s, e)) - 1], o))), (n.ins, o in result))',
                        'forall("n:N, o:val", implies(IN(self.root_node, n) and n.ins == US(s, e)[:len(US(s, e)) - 1] and n.outs == OS(s, e) and o in result, result[o] == KID(n, US(s, e)[len(US(s, e)) - 1], o).frequency), (n.ins, result[o]))',
                        'forall("w:Tup[val]", implies(w in self.complete_query_cache and not old(w in self.complete_query_cache), has(self.root_node, US(s, e)[:len(US(s, e)) - 1], OS(s, e))), w in self.complete_query_cache)',
                        'implies(not has(self.root_node, US(s, e)[:len(US(s, e)) - 1], OS(s, e)), forall("o:val", not (o in result), o in result))'])
    STOP = 'IN(self.root_node, n) and 0 <= j and j < len(g_u) and n.ins == g_u[:j] and n.outs == g_o[:j] and (j == len(g_u) - 1 or not HAS(n, g_u[j], g_o[j]))'
    w.contract(T_ + '.complete_query', name='TE.complete_query', params={'self': 'TE', 's': 'Tup[val]', 'e': 'Tup[val]'}, returns='bool', recv='TE', requires=WF, modifies=['self.complete_query_cache', 'N.input_frequencies'],
               ghost={'entry': 'g_u = US(s, e)\ng_o = OS(s, e)\nassert len(list(e[0::2])) == len(list(e[1::2])) + 1\nassert len(list((%s)[0::2])) == len(%s)\nassert len(g_u) == len(g_o) + 1\n' % (TR, ODD) + USE, 'exit': USE,
                      'before:return curr_node_complete': 'assert forall("n:N, j:int", implies(%s and j > _k, n.ins[:_k + 1] == g_u[:_k + 1] and n.outs[:_k + 1] == g_o[:_k + 1]), (n.ins, g_u[:j]))\nuse(prefixes_present(self.root_node, _, _))\nassert not has(self.root_node, g_u[:_k + 1], g_o[:_k + 1])\nassert forall("n:N, j:int", implies(%s and j > _k, has(self.root_node, n.ins[:_k + 1], n.outs[:_k + 1])), (n.ins, g_u[:j]))\nassert forall("n:N, j:int", implies(%s, j == _k and n == curr_node), (n.ins, g_u[:j]))' % (STOP, STOP, STOP)},
               loops={0: Loop(inv=['0 <= _k', SAMEI, 'input_seq == list(g_u[:len(g_u) - 1])', 'output_seq == list(g_o)', 'NN(curr_node)', 'IN(self.root_node, curr_node)', 'curr_node.ins == g_u[:_k]', 'curr_node.outs == g_o[:_k]', 'forall("n:N, j:int", implies(%s, j >= _k), (n.ins, g_u[:j]))' % STOP])},
               ensures=[SAMEI, 'implies(old(s + e in self.complete_query_cache), result)',
                        'forall("w:Tup[val]", implies(w in self.complete_query_cache and not old(w in self.complete_query_cache), has(self.root_node, US(s, e)[:len(US(s, e)) - 1], OS(s, e))), w in self.complete_query_cache)',
                        'forall("n:N, j:int", implies(not old(s + e in self.complete_query_cache) and %s, iff(result, IF(n, US(s, e)[j]) >= self.n_c)), (n.ins, US(s, e)[:j]))' % STOP.replace('g_u', 'US(s, e)').replace('g_o', 'OS(s, e)')])
    # ---- an executed word: every prefix node counted once
    P4 = 'p:Tup[val], q:Tup[val], u:Tup[val], o:Tup[val]'
    w.spec("""
def PFX(p: 'Tup[val]', q: 'Tup[val]', u: 'Tup[val]', o: 'Tup[val]') -> 'bool':
    return len(p) <= len(u) and p == u[:len(p)] and q == o[:len(p)]
""", opaque=True)
    w.spec("""
def HIT(p: 'Tup[val]', q: 'Tup[val]', u: 'Tup[val]', o: 'Tup[val]') -> 'int':
    return ite(len(p) > 0 and PFX(p, q, u, o), 1, 0)
""", opaque=True)
    w.spec("""
def GO(p: 'Tup[val]', q: 'Tup[val]', u: 'Tup[val]', o: 'Tup[val]', a: 'val') -> 'bool':
    return PFX(p, q, u, o) and len(p) < len(u) and u[len(p)] == a
""", opaque=True)
    PF = ['len(u) == len(o)', 'len(p) == len(q)']
    w.lemma('pfx0', P4, requires=PF + ['len(u) == 0'], ensures=['HIT(p, q, u, o) == 0', 'iff(PFX(p, q, u, o), len(p) == 0)'], trigger=['HIT(p, q, u, o)', 'PFX(p, q, u, o)'], hints=['reveal(PFX(p, q, u, o))', 'reveal(HIT(p, q, u, o))'])
    w.lemma('go00', P4 + ', a:val', requires=PF + ['len(u) == 0'], ensures=['not GO(p, q, u, o, a)'], trigger=['GO(p, q, u, o, a)'], hints=['reveal(GO(p, q, u, o, a))'])
    w.lemma('pfx1', P4 + ', x:val, y:val', requires=PF, ensures=['iff(PFX(p, q, u + (x,), o + (y,)), PFX(p, q, u, o) or (p == u + (x,) and q == o + (y,)))'], trigger=['PFX(p, q, u + (x,), o + (y,))'],
            hints=['reveal(PFX(p, q, u, o))', 'reveal(PFX(p, q, u + (x,), o + (y,)))'])
    w.lemma('pfx2', P4, requires=PF, ensures=['implies(PFX(p, q, u, o), len(p) <= len(u))', 'implies(len(p) == len(u), iff(PFX(p, q, u, o), p == u and q == o))'], trigger=['PFX(p, q, u, o)'], hints=['reveal(PFX(p, q, u, o))'])
    w.lemma('hit1', P4 + ', x:val, y:val', requires=PF, ensures=['HIT(p, q, u + (x,), o + (y,)) == HIT(p, q, u, o) + ite(p == u + (x,) and q == o + (y,), 1, 0)'], trigger=['HIT(p, q, u + (x,), o + (y,))'],
            hints=['pfx1(p, q, u, o, x, y)', 'pfx2(p, q, u, o)', 'reveal(HIT(p, q, u, o))', 'reveal(HIT(p, q, u + (x,), o + (y,)))'])
    w.lemma('go1', P4 + ', x:val, y:val, a:val', requires=PF, ensures=['iff(GO(p, q, u + (x,), o + (y,), a), GO(p, q, u, o, a) or (p == u and q == o and a == x))'], trigger=['GO(p, q, u + (x,), o + (y,), a)'],
            hints=['pfx1(p, q, u, o, x, y)', 'pfx2(p, q, u, o)', 'pfx2(p, q, u + (x,), o + (y,))', 'reveal(GO(p, q, u, o, a))', 'reveal(GO(p, q, u + (x,), o + (y,), a))'])
    w.lemma('go0', P4 + ', a:val', requires=PF, ensures=['implies(GO(p, q, u, o, a), PFX(p, q, u, o) and len(p) < len(u))'], trigger=['GO(p, q, u, o, a)'], hints=['reveal(GO(p, q, u, o, a))'])
    RT = 'self.root_node'
    U = lambda x: '%s.ins, %s.outs' % (x, x)
    COUNT = ['forall("n:N", implies(old(IN(self.root_node, n)), n.frequency == old(n.frequency) + HIT(n.ins, n.outs, CUR)), n.frequency)',
             'forall("n:N", implies(IN(self.root_node, n) and not old(IN(self.root_node, n)), n.frequency == 1 and PFX(n.ins, n.outs, CUR)), n.frequency)',
             'forall("n:N, a:val", implies(old(IN(self.root_node, n)), IF(n, a) == old(IF(n, a)) + ite(GO(n.ins, n.outs, CUR, a), 1, 0)), IF(n, a))',
             'forall("n:N, a:val", implies(IN(self.root_node, n) and not old(IN(self.root_node, n)), IF(n, a) == ite(GO(n.ins, n.outs, CUR, a), 1, 0)), IF(n, a))']
    PTA = ['INV(pta_root)', 'forall("n:N", iff(IN(pta_root, n), old(IN(pta_root, n))), n.top)', 'forall("n:N", implies(old(IN(pta_root, n)), n.frequency == old(n.frequency) and n.up == old(n.up) and n.output == old(n.output)), n.frequency, n.up, n.output)',
           'forall("n:N, a:val, o:val", implies(old(IN(pta_root, n)), iff(HAS(n, a, o), old(HAS(n, a, o))) and KID(n, a, o) == old(KID(n, a, o))), HAS(n, a, o), KID(n, a, o))']
    SAMEP = 'forall("n:N, a:val", implies(old(IN(pta_root, n)), IF(n, a) == old(IF(n, a))), IF(n, a))'
    cur = lambda xs, c: [x.replace('CUR', c) for x in xs]
    KEPT = 'forall("n:N", implies(old(alloc(n)), alloc(n) and n.top == old(n.top) and n.ins == old(n.ins) and n.outs == old(n.outs)), n.top, n.ins, n.outs)'
    w.contract(T_ + '.tree_query', name='TE.tree_query', params={'self': 'TE', 'pta_root': 'N'}, recv='TE', allocs=['N'], modifies=MOD + ['SS.num_queries', 'SS.num_steps'],
               requires=['alloc(self.root_node)', 'alloc(pta_root)', 'pta_root != self.root_node', 'INV(self.root_node)', 'INV(pta_root)', 'self.sul.teacher == self', 'alloc(self)'],
               ghost={'entry': USE + '\nuse(pfx0, go00, pfx1, pfx2, hit1, go1, go0)', 'loop0.start': 'g_f = curr_node\n' + USE, 'loop1.start': USE, 'loop1.end': USE, 'loop2.start': 'g_c = curr_node\n' + USE + '\nuse(prefixes_present(pta_root, g_f, _k + 1))\nassert has(pta_root, g_f.ins[:_k + 1], g_f.outs[:_k + 1])\nassert forall("m:N", implies(IN(pta_root, m) and m.ins == g_f.ins[:_k + 1] and m.outs == g_f.outs[:_k + 1], m.up == curr_node and HAS(curr_node, i, o) and KID(curr_node, i, o) == m), m.ins)', 'loop2.end': USE + '\nassert g_f.ins[:_k + 1] == g_f.ins[:_k] + (i,) and g_f.outs[:_k + 1] == g_f.outs[:_k] + (o,)\nassert forall("n:N, a:val", implies(old(IN(pta_root, n)), iff(GO(n.ins, n.outs, g_f.ins[:_k] + (i,), g_f.outs[:_k] + (o,), a), GO(n.ins, n.outs, g_f.ins[:_k], g_f.outs[:_k], a) or (n == g_c and a == i))), IF(n, a))\nassert forall("n:N, a:val", implies(old(IN(pta_root, n)), IF(n, a) == ite(GO(n.ins, n.outs, g_f.ins[:_k] + (i,), g_f.outs[:_k] + (o,), a), max(old(IF(n, a)) - 1, 0), old(IF(n, a)))), IF(n, a))', 'after:selection_value -= ': USE + '\n' + '\n'.join('assert ' + x for x in [SAMEP] + cur(COUNT[2:], U('self.curr_node'))),
                      'after:curr_node.input_frequencies.i. = ': USE + '''
assert not GO(g_c.ins, g_c.outs, g_f.ins[:_k], g_f.outs[:_k], i)
assert forall("n:N, a:val", implies(old(IN(pta_root, n)) and n != g_c, IF(n, a) == ite(GO(n.ins, n.outs, g_f.ins[:_k], g_f.outs[:_k], a), max(old(IF(n, a)) - 1, 0), old(IF(n, a)))), IF(n, a))
assert forall("a:val", implies(a != i, IF(g_c, a) == ite(GO(g_c.ins, g_c.outs, g_f.ins[:_k], g_f.outs[:_k], a), max(old(IF(g_c, a)) - 1, 0), old(IF(g_c, a)))), IF(g_c, a))
assert IF(g_c, i) == max(old(IF(g_c, i)) - 1, 0)
''', 'after:new_node = ': 'assert implies(new_node is None, not has(pta_root, g_v, g_p))', 'before:inputs.append': 'g_u = tuple(inputs)\ng_o = tuple(outputs)', 'after:out = self.sul.step': USE + '''
g_v = g_u + (inp,)
g_p = g_o + (out,)
assert len(g_u) == len(g_o)
assert self.curr_node.ins == g_v and self.curr_node.outs == g_p
assert forall("n:N", implies(old(IN(self.root_node, n)), IN(self.root_node, n) and len(n.ins) == len(n.outs) and iff(n.ins == g_v and n.outs == g_p, n == self.curr_node)), n.ins)
assert forall("n:N", implies(old(IN(self.root_node, n)), HIT(n.ins, n.outs, g_u + (inp,), g_o + (out,)) == HIT(n.ins, n.outs, g_u, g_o) + ite(n == self.curr_node, 1, 0)), HIT(n.ins, n.outs, g_u + (inp,), g_o + (out,)))
assert forall("n:N", implies(old(IN(self.root_node, n)), n.frequency == old(n.frequency) + HIT(n.ins, n.outs, g_u + (inp,), g_o + (out,))), n.frequency)
assert forall("n:N, a:val", implies(IN(self.root_node, n) and not old(IN(self.root_node, n)), IF(n, a) == ite(GO(n.ins, n.outs, g_u + (inp,), g_o + (out,), a), 1, 0)), IF(n, a))
''', 'exit': USE},
               loops={0: Loop(inv=AT('self') + PTA + [SAMEP, KEPT, 'IN(pta_root, curr_node)', 'NN(curr_node)', 'curr_node.ins == tuple(inputs)', 'curr_node.outs == tuple(outputs)', 'self.curr_node.ins == tuple(inputs)', 'self.curr_node.outs == tuple(outputs)'] + cur(COUNT, U('self.curr_node')), locals={'inputs': 'Seq[val]', 'outputs': 'Seq[val]'}),
                      1: Loop(inv=[SAMEP] + cur(COUNT[2:], U('self.curr_node'))),
                      2: Loop(inv=PTA + [KEPT, 'IN(pta_root, curr_node)', 'NN(curr_node)', 'curr_node.ins == g_f.ins[:_k]', 'curr_node.outs == g_f.outs[:_k]', 'NN(g_f)', 'IN(pta_root, g_f)', 'g_f.ins == tuple(inputs)', 'g_f.outs == tuple(outputs)',
                                        'forall("n:N, a:val", implies(old(IN(pta_root, n)), IF(n, a) == ite(GO(n.ins, n.outs, g_f.ins[:_k], g_f.outs[:_k], a), max(old(IF(n, a)) - 1, 0), old(IF(n, a)))), IF(n, a))'] + cur(COUNT[2:], U('self.curr_node')))},
               ensures=AT('self') + PTA + [KEPT] + cur(COUNT, U('self.curr_node')) + [
                   'forall("n:N, a:val", implies(old(IN(pta_root, n)), IF(n, a) == ite(has(pta_root, %s) and GO(n.ins, n.outs, %s, a), max(old(IF(n, a)) - 1, 0), old(IF(n, a)))), IF(n, a))' % (U('self.curr_node'), U('self.curr_node'))])
    return w
