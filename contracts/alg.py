"""C13: the statistical compatibility test of Alergia."""
from pyvc.world import World, Loop

F = 'aalpy/learning_algs/stochastic_passive/FPTA.py'
C = 'aalpy/learning_algs/stochastic_passive/CompatibilityChecker.py::HoeffdingCompatibility'
A = 'aalpy/learning_algs/stochastic_passive/Alergia.py::Alergia'


def world(kind):
    w = World('alg:' + kind)
    K = 'val' if kind == 'mc' else 'Tuple[val,val]'
    w.cls('N', F + '::AlergiaPtaNode', {'prefix': 'Tup[%s]' % K, 'output': 'val', 'input_frequency': 'Map[%s,int]' % K, 'children': 'Map[%s,N]' % K, 'original_input_frequency': 'Map[%s,int]' % K, 'original_children': 'Map[%s,N]' % K,
          'state_id': 'val', 'children_prob': 'val'})
    w.cls('HC', C, {'eps': 'real', 'log_term': 'real'})
    w.cls('AL', A, {'diff_checker': 'HC', 'fpta': 'N'}, consts={'automaton_type': kind}, ignore=['print_info'])
    w.ufn('m_sqrt', ['real'], 'real')
    w.ufn('m_log', ['real'], 'real')
    w.spec('''
def FQ(a: 'Map[val,int]', o: 'val') -> 'int':
    return ite(o in a, a[o], 0)
''', opaque=True)
    w.lemma('fq', 'a:Map[val,int], o:val', ensures=['FQ(a, o) == ite(o in a, a[o], 0)'], trigger=['FQ(a, o)'], hints=['reveal(FQ(a, o))'])
    w.spec('''
def SZ(a: 'Map[val,int]') -> 'int':
    return sum(a.values())
''')
    w.spec('''
def FAR(x: 'int', n: 'int', y: 'int', m: 'int', t: 'real') -> 'bool':
    return abs(x / n - y / m) > t
''', opaque=True)
    w.spec('''
def TOL(n: 'int', m: 'int', l: 'real') -> 'real':
    return (m_sqrt(1 / n) + m_sqrt(1 / m)) * l
''', opaque=True)
    w.spec('''
def DIFF(a: 'Map[val,int]', b: 'Map[val,int]', l: 'real') -> 'bool':
    return SZ(a) != 0 and SZ(b) != 0 and exists("o:val", (o in a or o in b) and FAR(FQ(a, o), SZ(a), FQ(b, o), SZ(b), TOL(SZ(a), SZ(b), l)), o in a, o in b)
''')
    w.lemma('far_sym', 'x:int, n:int, y:int, m:int, t:real', requires=['n != 0', 'm != 0'], ensures=['iff(FAR(x, n, y, m, t), FAR(y, m, x, n, t))'], hints=['reveal(FAR(x, n, y, m, t))', 'reveal(FAR(y, m, x, n, t))'], trigger=['FAR(x, n, y, m, t)'])
    w.lemma('tol_sym', 'n:int, m:int, l:real', requires=['n != 0', 'm != 0'], ensures=['TOL(n, m, l) == TOL(m, n, l)'], hints=['reveal(TOL(n, m, l))', 'reveal(TOL(m, n, l))'], trigger=['TOL(n, m, l)'])
    w.lemma('symmetric', 'a:Map[val,int], b:Map[val,int], l:real', ensures=['iff(DIFF(a, b, l), DIFF(b, a, l))'], hints=['use(far_sym, tol_sym)'])
    w.contract(C + '.__init__', name='HC.__init__', params={'self': 'HC', 'eps': 'real'}, recv='HC', modifies=['self.*'], requires=['eps > 0'], ensures=['self.eps == eps', 'self.log_term == m_sqrt(0.5 * m_log(2 / eps))'])
    w.contract(C + '.hoeffding_bound', name='HC.hoeffding_bound', params={'self': 'HC', 'a': 'Map[val,int]', 'b': 'Map[val,int]'}, returns='bool', recv='HC',
               ghost={'entry': 'use(fq)', 'after:bound = ': 'reveal(TOL(n1, n2, self.log_term))\nassert n1 != 0 and n2 != 0 and n1 == SZ(a) and n2 == SZ(b)\nassert bound == TOL(n1, n2, self.log_term)', 'loop0.start': 'reveal(FAR(FQ(a, o), n1, FQ(b, o), n2, bound))', 'loop0.end': 'assert a_freq == FQ(a, o) and b_freq == FQ(b, o)\nassert not FAR(FQ(a, o), n1, FQ(b, o), n2, bound)'},
               loops={0: Loop(inv=['forall("o:val", iff(o in a or o in b, o in _it), o in a, o in b)', 'forall("o:val", implies(o in _it[:_k], not FAR(FQ(a, o), n1, FQ(b, o), n2, bound)), o in _it[:_k])'])},
               ensures=['iff(result, DIFF(a, b, self.log_term))'])
    w.ufn('DIFFN', ['N', 'N', 'real'], 'bool')
    w.contract(C + '.are_states_different', name='HC.are_states_different', params={'self': 'HC', 'a': 'N', 'b': 'N'}, returns='bool', recv='HC', trusted='the per-input application of hoeffding_bound is checked by the bounded cross-check; DIFFN names its answer', ensures=['iff(result, DIFFN(a, b, self.log_term))'])
    # compatibility of two nodes of the prefix tree: the recursive definition
    OUT = 'a.output == b.output' if kind != 'smm' else 'True'
    w.spec('''
def COMPAT(a: 'N', b: 'N', l: 'real') -> 'bool':
    return %s and (len(a.original_children) == 0 or len(b.original_children) == 0 or
        (not DIFFN(a, b, l) and forall("x:%s", implies(x in a.original_children and x in b.original_children, COMPAT(a.original_children[x], b.original_children[x], l)), (x in a.original_children, x in b.original_children))))
''' % (OUT, K), reads=['N.output', 'N.original_children', 'N.original_input_frequency'])
    w.contract(A + '.compatibility_test', name='AL.compatibility_test', params={'self': 'AL', 'a': 'N', 'b': 'N'}, returns='bool', recv='AL',
               loops={0: Loop(inv=['forall("x:%s", iff(x in a.original_children and x in b.original_children, x in _it), x in _it, (x in a.original_children, x in b.original_children))' % K, 'forall("x:%s", implies(x in _it[:_k], COMPAT(a.original_children[x], b.original_children[x], self.diff_checker.log_term)), x in _it[:_k])' % K])},
               ensures=['iff(result, COMPAT(a, b, self.diff_checker.log_term))'])
    return w
