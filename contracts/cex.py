"""C09: counterexample processing."""
from pyvc.world import World, Loop
from contracts.auto import base
from contracts.helpers import words

C = 'aalpy/learning_algs/deterministic/CounterExampleProcessing.py'


def world(kind):
    w = base('cex:' + kind, kind)
    words(w)
    w.cls('SUL', 'aalpy/base/SUL.py::SUL', {'num_queries': 'int', 'num_steps': 'int'})
    w.ufn('QOUT', ['SUL', 'Tup[val]'], 'val')
    w.contract('aalpy/base/SUL.py::SUL.query', name='SUL.query', params={'self': 'SUL', 'word': 'Tup[val]'}, returns='List[val]', recv='SUL',
               trusted='a deterministic system answers every query with a fixed word (SUL.query is under contract in C02)',
               modifies=['self.num_queries', 'self.num_steps'], ensures=['len(result) == ite(len(word) == 0, 1, len(word))', 'result[len(result) - 1] == QOUT(self, word)'])
    # AL(i): the last answer after replacing the first i letters by the access word of the state they reach in the hypothesis
    w.lemma('def_at', 's:S, u:Seq[val], i:int', requires=['defd(s, u)', '0 <= i', 'i < len(u)'], ensures=['dfd(run(s, u[:i]), u[i])'], induct='u', fix=('s',), trigger=['run(s, u[:i])'])
    w.lemma('def_take', 's:S, u:Seq[val], i:int', requires=['defd(s, u)', '0 <= i', 'i <= len(u)'], ensures=['defd(s, u[:i])'], induct='u', fix=('s',), trigger=['defd(s, u[:i])'])
    w.spec('''
def AL(q: 'SUL', h: 'M', u: 'Tup[val]', i: 'int') -> 'val':
    return QOUT(q, run(h.initial_state, u[:i]).prefix + u[i:])
''', opaque=True)
    w.lemma('al0', 'q:SUL, h:M, u:Tup[val]', requires=['HYP(h, u)'], ensures=['AL(q, h, u, 0) == QOUT(q, u)'], hints=['reveal(AL(q, h, u, 0))'])
    w.spec('''
def HYP(h: 'M', u: 'Tup[val]') -> 'bool':
    return h.initial_state.prefix is not None and h.initial_state.prefix == () and defd(h.initial_state, u) and forall("i:int", implies(0 <= i and i <= len(u), run(h.initial_state, u[:i]).prefix is not None), run(h.initial_state, u[:i]))
''')
    w.spec('''
def EXPOSES(q: 'SUL', h: 'M', u: 'Tup[val]', i: 'int') -> 'bool':
    return 0 <= i and i + 1 < len(u) and AL(q, h, u, i) != AL(q, h, u, i + 1)
def SUFFIXES(r: 'List[Tup[val]]', d: 'Tup[val]') -> 'bool':
    return len(r) == len(d) and forall("j:int", implies(0 <= j and j < len(d), r[j] == d[j:]), r[j])
''')
    # a change between two positions is a change at some position
    w.lemma('ivt', 'q:SUL, h:M, u:Tup[val], lo:int, hi:int', requires=['0 <= lo', 'lo <= hi', 'hi < len(u)', 'AL(q, h, u, lo) != AL(q, h, u, hi)'],
            ensures=['exists("i:int", lo <= i and i < hi and EXPOSES(q, h, u, i), u[i + 1:])'], induct='hi', fix=('q', 'h', 'u', 'lo'),
            hints=['assert implies(hi > lo and AL(q, h, u, hi - 1) == AL(q, h, u, lo), EXPOSES(q, h, u, hi - 1) and len(u[hi - 1 + 1:]) >= 0)'])
    st = 'hypothesis.current_state'
    mods = [st, 'sul.num_queries', 'sul.num_steps']
    RES = ['exists("i:int", EXPOSES(sul, hypothesis, cex, i) and AL(sul, hypothesis, cex, i) == QOUT(sul, cex) and ite(suffix_closedness, SUFFIXES(result, cex[i + 1:]), len(result) == 1 and result[0] == cex[i + 1:]), cex[i + 1:])']
    OK = ['len(cex) >= 2', 'HYP(hypothesis, cex)', 'AL(sul, hypothesis, cex, len(cex) - 1) != QOUT(sul, cex)']
    P = {'sul': 'SUL', 'cex': 'Tup[val]', 'hypothesis': 'M', 'suffix_closedness': 'bool', 'closedness': ('const', 'suffix')}
    a = lambda i: 'AL(sul, hypothesis, cex, %s)' % i
    full = 'QOUT(sul, cex)'
    w.contract(C + '::rs_cex_processing', name='rs_cex_processing', params=dict(P, is_vpa=('const', False), lower='Opt[int]', upper='Opt[int]'), returns='List[Tup[val]]', modifies=mods,
               requires=OK + ['implies(lower is not None, 0 <= lower and lower < len(cex) and %s == %s)' % (a('lower'), full),
                              'implies(upper is not None, 1 <= upper and upper <= len(cex) and ite(upper < len(cex), %s != %s, upper == 2))' % (a('upper'), full),
                              'implies(upper is not None, lower is None)'],
               loops={0: Loop(inv=['lower is not None and upper is not None', '0 <= g_lo and g_lo < g_hi and g_hi < len(cex)', a('g_lo') + ' == ' + full, a('g_hi') + ' != ' + full,
                                   'g_lo <= lower and lower <= g_lo + 1 and g_hi - 1 <= upper and upper <= g_hi + 1', 'lower <= upper + 1', 'lower <= upper or lower == 1 and upper == 0 or g_hi == g_lo + 1',
                                   'cex_input == cex'], dec='upper - lower + 2'),
                      1: Loop(idx='_j', it='_jt', inv=['%s == run(hypothesis.initial_state, cex[:_j])' % st])},
               ghost={'entry': 'use(def_at(hypothesis.initial_state, _, _))\nuse(def_take(hypothesis.initial_state, _, _))\nal0(sul, hypothesis, cex)\nif lower is None:\n    g_lo = 0\nelse:\n    g_lo = lower\nif upper is None:\n    g_hi = len(cex) - 1\nelse:\n    g_hi = ite(upper == len(cex), len(cex) - 1, upper)',
                      'after:mid = .*': 'assert mid < g_hi or mid == g_hi\nassert cex_input == cex',
                      'after:mq = .*': 'reveal(%s)\nassert mq[len(mq) - 1] == %s\nif mq[len(mq) - 1] == cex_out[len(cex_out) - 1]:\n    g_lo = mid\nelse:\n    g_hi = mid' % (a('mid'), a('mid')),
                      'after:suffixes.reverse.*': 'assert SUFFIXES(suffixes, suffix)',
                      'after:suffix = .*': 'assert suffix == cex[g_hi:] and g_hi == g_lo + 1\nassert EXPOSES(sul, hypothesis, cex, g_lo)'},
               ensures=RES)
    w.contract(C + '::linear_cex_processing', name='linear_cex_processing', params=dict(P, direction='val', is_vpa=('const', False)), returns='List[Tup[val]]', modifies=mods,
               requires=OK + ['direction in {"fwd", "bwd"}'], locals={'distinguishing_suffix': 'Opt[Tup[val]]', 'previous_output': 'val'},
               loops={0: Loop(inv=['distinguishing_suffix is None', 'implies(_k > 0, previous_output == %s)' % a('_k - 1'),
                                   'forall("j:int", implies(0 <= j and j < _k, %s == %s), %s)' % (a('j'), full, a('j'))])},
               ghost={'entry': 'use(def_at(hypothesis.initial_state, _, _))\nuse(def_take(hypothesis.initial_state, _, _))\nal0(sul, hypothesis, cex)', 'after:sul_out = .*': 'reveal(%s)\nassert sul_out == %s' % (a('i'), a('i')),
                      'after:suffixes.reverse.*': 'assert SUFFIXES(suffixes, distinguishing_suffix)',
                      'after:distinguishing_suffix = suffix.*': 'assert EXPOSES(sul, hypothesis, cex, i - 1) and suffix == cex[i - 1 + 1:]'},
               ensures=RES)
    w.contract(C + '::exponential_cex_processing', name='exponential_cex_processing', params=dict(P, direction='val', is_vpa=('const', False)), returns='List[Tup[val]]', modifies=mods,
               requires=OK + ['direction in {"fwd", "bwd"}'], locals={'suffix': 'Opt[Tup[val]]'},
               loops={0: Loop(inv=['implies(direction == "fwd", 0 <= bp_recent and bp_recent < bp and bp_recent < len(cex) and %s == %s)' % (a('bp_recent'), full),
                                   'implies(direction == "fwd", bp == ite(bp_recent == 0, 1, 2 * bp_recent) and iff(suffix is None, bp_recent == 0))',
                                   'implies(direction == "bwd", 2 <= bp_recent and bp_recent <= len(cex) and bp < bp_recent and bwd_subtrahend >= 1)',
                                   'implies(direction == "bwd", ite(bp_recent == len(cex), bp == len(cex) - 1, %s != %s))' % (a('bp_recent'), full)], dec='ite(direction == "fwd", ite(bp >= len(cex), 0, len(cex) - bp), ite(bp < 0, 0, bp))')},
               ghost={'entry': 'use(def_at(hypothesis.initial_state, _, _))\nuse(def_take(hypothesis.initial_state, _, _))\nal0(sul, hypothesis, cex)', 'after:sul_out = .*': 'reveal(%s)\nassert sul_out[len(sul_out) - 1] == %s' % (a('bp'), a('bp')),
                      'after:suffixes.reverse.*': 'assert SUFFIXES(suffixes, suffix) and EXPOSES(sul, hypothesis, cex, bp_recent) and suffix == cex[bp_recent + 1:]', 'before:return .suffix.': 'assert EXPOSES(sul, hypothesis, cex, bp_recent) and suffix == cex[bp_recent + 1:]'},
               ensures=RES)
    w.contract(C + '::longest_prefix_cex_processing', name='longest_prefix_cex_processing', params={'s_union_s_dot_a': 'List[Tup[val]]', 'cex': 'Tup[val]', 'closedness': ('const', 'suffix')}, returns='List[Tup[val]]',
               locals={'trimmed_suffix': 'Opt[Tup[val]]'}, loops={0: Loop(inv=['trimmed_suffix is None'])},
               ghost={'after:trimmed_suffix = cex.*': 'assert len(p) <= len(cex) and p in s_union_s_dot_a', 'after:suffixes.reverse.*': 'assert SUFFIXES(suffixes, trimmed_suffix)'},
               ensures=['SUFFIXES(result, cex) or exists("p:Tup[val]", p in s_union_s_dot_a and p == cex[:len(p)] and len(p) <= len(cex) and SUFFIXES(result, cex[len(p):]), p in s_union_s_dot_a)'])
    w.contract(C + '::counterexample_successfully_processed', name='counterexample_successfully_processed', params={'sul': 'SUL', 'cex': 'Tup[val]', 'hypothesis': 'M'}, returns='bool', modifies=mods, ghost={'entry': 'use(def_at(hypothesis.initial_state, _, _))'},
               requires=['len(cex) > 0', 'defd(hypothesis.initial_state, cex)'],
               ensures=['iff(result, QOUT(sul, cex) == ANS(hypothesis.initial_state, cex, len(cex) - 1))'])
    return w
