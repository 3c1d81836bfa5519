"""C25: helpers on words, collections and data."""
from pyvc.world import World, Loop

H = 'aalpy/utils/HelperFunctions.py'


def words(w):
    """contracts of the word helpers, also used by other worlds"""
    w.contract(H + '::all_prefixes', name='all_prefixes', params={'li': 'Seq[val]'}, returns='List[Tup[val]]',
               ensures=['len(result) == len(li)', 'forall("i:int", implies(0 <= i and i < len(li), result[i] == tuple(li[:i + 1])), result[i])'])
    w.contract(H + '::all_suffixes', name='all_suffixes', params={'li': 'Seq[val]'}, returns='List[Tup[val]]',
               ensures=['len(result) == len(li)', 'forall("i:int", implies(0 <= i and i < len(li), result[i] == tuple(li[len(li) - i - 1:])), result[i])'])


def world():
    w = World('helpers')
    words(w)
    w.spec('''
def NODUP(l: 'Seq[val]') -> 'bool':
    return forall("i:int, j:int", implies(0 <= i and i < j and j < len(l), l[i] != l[j]), (l[i], l[j]))
''')
    w.contract(H + '::extend_set', name='extend_set', params={'list_to_extend': 'List[val]', 'new_elements': 'Seq[val]'}, returns='List[val]', mut=['list_to_extend'],
               locals={'added_elements': 'List[val]', 'set_repr': 'Set[val]'},
               loops={0: Loop(inv=['forall("x:val", iff(x in set_repr, x in list_to_extend or x in added_elements), x in set_repr)', 'NODUP(added_elements)',
                                   'forall("x:val", implies(x in added_elements, not (x in list_to_extend) and x in new_elements), x in added_elements)',
                                   'forall("i:int", implies(0 <= i and i < _k, new_elements[i] in set_repr), new_elements[i])'])},
               ensures=['list_to_extend == old(list_to_extend) + result', 'NODUP(result)',
                        # exactly the elements that were missing
                        'forall("x:val", iff(x in result, x in new_elements and not (x in old(list_to_extend))), x in result, x in new_elements)'])
    w.contract(H + '::is_suffix_of', name='is_suffix_of', params={'suffix': 'Tup[val]', 'trace': 'Tup[val]'}, returns='bool',
               ensures=['iff(result, len(suffix) <= len(trace) and trace[len(trace) - len(suffix):] == suffix)'])
    w.contract(H + '::get_cex_prefixes', name='get_cex_prefixes.mdp', params={'cex': 'Seq[val]', 'automaton_type': ('const', 'mdp')}, returns='List[Tup[val]]',
               ensures=['len(result) == (len(cex) + 1) // 2', 'forall("i:int", implies(0 <= i and i < len(result), result[i] == tuple(cex[:2 * i + 1])), result[i])'])
    w.contract(H + '::get_cex_prefixes', name='get_cex_prefixes.smm', params={'cex': 'Seq[val]', 'automaton_type': ('const', 'smm')}, returns='List[Tup[val]]',
               ensures=['len(result) == len(cex) // 2 + 1', 'forall("i:int", implies(0 <= i and i < len(result), result[i] == tuple(cex[:2 * i])), result[i])'])
    w.spec('''
def LAB(s: 'Seq[Tuple[val,val]]', n: 'int', u: 'Tup[val]', o: 'val') -> 'bool':
    return (1 <= len(u) and len(u) <= n and o == s[len(u) - 1][1] and forall("j:int", implies(0 <= j and j < len(u), u[j] == s[j][0]), u[j]))
''', opaque=True)
    w.spec('''
def LABS(t: 'Seq[Seq[Tuple[val,val]]]', n: 'int', u: 'Tup[val]', o: 'val') -> 'bool':
    return exists("k:int", 0 <= k and k < n and LAB(t[k], len(t[k]), u, o), t[k])
''', opaque=True)
    w.lemma('lab_step', 's:Seq[Tuple[val,val]], n:int, w:Tup[val], u:Tup[val], o:val', requires=['0 <= n', 'n < len(s)', 'len(w) == n + 1', 'forall("j:int", implies(0 <= j and j <= n, w[j] == s[j][0]), w[j])'],
            ensures=['iff(LAB(s, n + 1, u, o), LAB(s, n, u, o) or (u == w and o == s[n][1]))'], hints=['reveal(LAB(s, n + 1, u, o), LAB(s, n, u, o))'])
    w.lemma('lab_zero', 's:Seq[Tuple[val,val]], u:Tup[val], o:val', ensures=['not LAB(s, 0, u, o)'], hints=['reveal(LAB(s, 0, u, o))'], trigger=['LAB(s, 0, u, o)'])
    w.lemma('labs_step', 't:Seq[Seq[Tuple[val,val]]], n:int, u:Tup[val], o:val', requires=['0 <= n', 'n < len(t)'],
            ensures=['iff(LABS(t, n + 1, u, o), LABS(t, n, u, o) or LAB(t[n], len(t[n]), u, o))'], hints=['reveal(LABS(t, n + 1, u, o), LABS(t, n, u, o))'], trigger=['LABS(t, n + 1, u, o)'])
    w.lemma('labs_zero', 't:Seq[Seq[Tuple[val,val]]], u:Tup[val], o:val', ensures=['not LABS(t, 0, u, o)'], hints=['reveal(LABS(t, 0, u, o))'], trigger=['LABS(t, 0, u, o)'])
    w.contract(H + '::convert_i_o_traces_for_RPNI', name='convert_i_o_traces_for_RPNI.mealy', params={'sequences': 'Seq[Seq[Tuple[val,val]]]', 'automaton_type': ('const', 'mealy')},
               returns='List[Tuple[Tup[val],val]]', lemmas=['lab_zero', 'labs_zero'], locals={'rpni_sequences': 'Set[Tuple[Tup[val],val]]'},
               loops={0: Loop(inv=['forall("u:Tup[val], o:val", iff((u, o) in rpni_sequences, LABS(sequences, _k, u, o)), (u, o) in rpni_sequences)'], idx='_k', it='_it'),
                      1: Loop(inv=['forall("u:Tup[val], o:val", iff((u, o) in rpni_sequences, LABS(sequences, _k, u, o) or LAB(sequences[_k], _j, u, o)), (u, o) in rpni_sequences)'], idx='_j', it='_jt')},
               ghost={'after:rpni_sequences.add.*': 'use(lab_step(s, i, inputs, _, _))', 'loop0.end': 'use(labs_step(sequences, _k, _, _))'},
               ensures=['forall("u:Tup[val], o:val", iff((u, o) in result, LABS(sequences, len(sequences), u, o)), (u, o) in result)'])
    w.cls('VPAlphabet', 'aalpy/automata/Vpa.py::VpaAlphabet', {'call_alphabet': 'List[val]', 'return_alphabet': 'List[val]'})
    w.spec('''
def DEPTH(al: 'VPAlphabet', u: 'Seq[val]') -> 'int':
    return ite(len(u) == 0, 0, DEPTH(al, u[:len(u) - 1]) + ite(u[len(u) - 1] in al.call_alphabet, 1, 0) - ite(u[len(u) - 1] in al.return_alphabet, 1, 0))
''', reads=['VPAlphabet.call_alphabet', 'VPAlphabet.return_alphabet'])
    w.contract(H + '::is_balanced', name='is_balanced', params={'input_seq': 'Seq[val]', 'vpa_alphabet': 'VPAlphabet'}, returns='bool',
               loops={0: Loop(inv=['counter == DEPTH(vpa_alphabet, input_seq[:_k])', 'forall("i:int", implies(0 <= i and i <= _k, DEPTH(vpa_alphabet, input_seq[:i]) >= 0), input_seq[:i])'])},
               ensures=['iff(result, DEPTH(vpa_alphabet, input_seq) == 0 and forall("i:int", implies(0 <= i and i <= len(input_seq), DEPTH(vpa_alphabet, input_seq[:i]) >= 0), input_seq[:i]))'])
    return w
