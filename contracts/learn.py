"""C11: the main loops of the deterministic learners."""
from pyvc.world import World, Loop

D = 'aalpy/learning_algs/deterministic/'
B = 'aalpy/base/'


def world(alg):
    w = World('learn:' + alg)
    alg, _, kind = alg.partition('-')
    mach, node = {'dfa': ('Dfa', 'DfaState'), 'moore': ('MooreMachine', 'MooreState'), 'mealy': ('MealyMachine', 'MealyState')}.get(kind, ('Dfa', 'DfaState'))
    w.cls('CT', B + 'CacheTree.py::CacheTree', {'root_node': 'val'})
    w.cls('SUL', B + 'SUL.py::CacheSUL', {'num_queries': 'int', 'num_steps': 'int', 'num_cached_queries': 'int', 'cache': 'CT', 'sul': 'SUL'}, sup=('SUL',), ghost={'base': 'SUL'})
    w.cls('S', 'aalpy/automata/%s.py::%s' % (mach, node), {'state_id': 'val', 'prefix': 'Opt[Tup[val]]', 'transitions': 'Map[val,S]', **({'dfa': {'is_accepting': 'val'}, 'moore': {'output': 'val'}, 'mealy': {'output_fun': 'Map[val,val]'}}.get(kind, {}))})
    w.cls('H', 'aalpy/automata/%s.py::%s' % (mach, mach), {'initial_state': 'S', 'states': 'List[S]', 'size': 'int'}, ghost={'ver': 'int'})
    w.cls('EQ', B + 'Oracle.py::Oracle', {'sul': 'SUL', 'num_queries': 'int', 'num_steps': 'int'}, ghost={'accepted': 'H?', 'aver': 'int', 'nasked': 'int'})
    # DIFF(system, model, version of the model, word): the model answers the word differently from the system
    w.ufn('DIFF', ['SUL', 'H', 'int', 'Seq[val]'], 'bool')
    SM = ['SUL.num_queries', 'SUL.num_steps', 'SUL.num_cached_queries']
    w.contract(B + 'SUL.py::CacheSUL.__init__', name='SUL.__init__', params={'self': 'SUL', 'sul': 'SUL'}, recv='SUL', trusted='C01', modifies=['self.*'], ensures=['self.sul == sul', 'self.base == sul.base'])
    w.contract(B + 'CacheTree.py::CacheTree.add_to_cache', name='CT.add', params={'self': 'CT', 'inputs': 'Seq[val]', 'outputs': 'Seq[val]'}, recv='CT', trusted='C01', modifies=['self.root_node'])
    w.contract(B + 'SUL.py::CacheSUL.query', name='SUL.query', params={'self': 'SUL', 'word': 'Seq[val]'}, returns='List[val]', recv='SUL', trusted='C02; environment', modifies=SM, ensures=['len(result) > 0'])
    w.contract(B + 'Oracle.py::Oracle.find_cex', name='EQ.find_cex', params={'self': 'EQ', 'hypothesis': 'H'}, returns='Opt[Tup[val]]', recv='EQ',
               trusted='the equivalence oracle: ends with None, accepting the hypothesis in its present version, or with a word the hypothesis answers differently (C08)',
               modifies=SM + ['self.accepted', 'self.aver', 'self.nasked', 'self.num_queries', 'self.num_steps'],
               ensures=['self.nasked == old(self.nasked) + 1', 'implies(result is None, self.accepted == hypothesis and self.aver == hypothesis.ver)', 'implies(result is not None, len(result) > 0 and self.accepted is None and DIFF(self.sul.base, hypothesis, hypothesis.ver, result))'])
    w.contract('aalpy/utils/HelperFunctions.py::print_learning_info', name='print_learning_info', params={'info': 'Map[val,%s]' % ('val' if alg == 'lstar' else 'float')}, trusted='prints')
    for r, ty in (('', False), ('.data', True)):
        ret = 'Tuple[H,Map[val,%s]]' % ('val' if alg == 'lstar' else 'float') if ty else 'H'
        R = 'result[0]' if ty else 'result'
        ACC = 'eq_oracle.accepted is not None and eq_oracle.accepted == %s and eq_oracle.aver == %s.ver' % (R, R)
        STOP = 'eq_oracle.nasked - old(eq_oracle.nasked) == max_learning_rounds'
        common = {'alphabet': 'List[val]', 'sul': 'SUL', 'eq_oracle': 'EQ'}
        tail = {'max_learning_rounds': 'Opt[int]', 'cache_and_non_det_check': 'bool', 'return_data': ('const', ty), 'print_level': ('const', 0)}
        req = ['sul.base == sul', 'eq_oracle.sul == sul', 'max_learning_rounds is None or max_learning_rounds >= 0']
        ens = ['implies(cache_and_non_det_check, eq_oracle.sul.sul == sul)', 'eq_oracle.sul.base == old(sul)']
        mods = SM + ['eq_oracle.*', 'CT.*']
        LIM = lambda n: '(max_learning_rounds is not None and max_learning_rounds > 0 and %s)' % n
        CNT = 'learning_rounds == eq_oracle.nasked - old(eq_oracle.nasked)'
        K = ['sul.base == old(sul.base)', 'eq_oracle.sul == sul']
        if alg == 'lsharp':
            OTF = D + 'ObservationTree.py::ObservationTree'
            if not ty:
                w.cls('OT', OTF, {'sul': 'SUL'})
                w.contract(OTF + '.__init__', name='OT.__init__', params={'self': 'OT', 'alphabet': 'List[val]', 'sul': 'SUL', 'automaton_type': 'val', 'extension_rule': 'val', 'separation_rule': 'val'}, recv='OT', trusted='C20', modifies=['self.*'] + SM, ensures=['self.sul == sul'])
                w.contract(OTF + '.build_hypothesis', name='OT.build', params={'self': 'OT'}, returns='H', recv='OT', trusted='C20', modifies=SM, fresh_result=True)
                w.contract(OTF + '.process_counter_example', name='OT.cex', params={'self': 'OT', 'hypothesis': 'H', 'cex_inputs': 'Seq[val]', 'cex_outputs': 'Seq[val]'}, recv='OT', trusted='C20', modifies=SM,
                           requires=['DIFF(self.sul.base, hypothesis, hypothesis.ver, cex_inputs)'])
            w.contract(D + 'LSharp.py::run_Lsharp', name='run_Lsharp' + r, params={**common, 'automaton_type': 'val', 'extension_rule': 'val', 'separation_rule': 'val', 'samples': 'Opt[List[Tuple[Tup[val],Tup[val]]]]', **tail},
                       returns=ret, modifies=mods, requires=req + ['extension_rule is None or extension_rule == "SepSeq" or extension_rule == "ADS"', 'separation_rule == "SepSeq" or separation_rule == "ADS"'],
                       locals={'hypothesis': 'Opt[H]', 'info': 'Map[val,float]'}, allocs=['SUL', 'OT'],
                       loops={0: Loop(idx='_s', it='_ss', inv=K), 1: Loop(inv=K + [CNT, 'ob_tree.sul == sul', 'learning_rounds >= 0', 'implies(learning_rounds > 0, hypothesis is not None)', 'implies(max_learning_rounds is not None and max_learning_rounds > 0, learning_rounds <= max_learning_rounds)'])},
                       ensures=ens + [ACC + ' or ' + LIM(STOP)] + (['%s["learning_rounds"] == eq_oracle.nasked - old(eq_oracle.nasked)' % 'result[1]', 'result[1]["automaton_size"] == result[0].size'] if ty else []))
        if alg == 'lstar':
            OTF = D + 'ObservationTable.py::ObservationTable'
            CX = D + 'CounterExampleProcessing.py::'
            if not ty:
                w.cls('OT', OTF, {'sul': 'SUL', 'S': 'List[Tup[val]]', 'E': 'List[Tup[val]]'})
                w.contract(OTF + '.__init__', name='OT.__init__', params={'self': 'OT', 'alphabet': 'List[val]', 'sul': 'SUL', 'automaton_type': 'val', 'prefixes_in_cell': 'bool'}, recv='OT', trusted='C10', modifies=['self.*'], ensures=['self.sul == sul'])
                w.contract(OTF + '.update_obs_table', name='OT.update', params={'self': 'OT', 's_set': 'Opt[List[Tup[val]]]', 'e_set': 'Opt[List[Tup[val]]]'}, recv='OT', trusted='C10', modifies=SM)
                w.contract(OTF + '.get_causes_of_inconsistency', name='OT.causes', params={'self': 'OT'}, returns='Opt[List[Tup[val]]]', recv='OT', trusted='C10')
                w.contract(OTF + '.get_rows_to_close', name='OT.rows', params={'self': 'OT', 'closing_strategy': 'val'}, returns='Opt[List[Tup[val]]]', recv='OT', trusted='C10')
                w.contract(OTF + '.s_dot_a', name='OT.sda', params={'self': 'OT'}, yields='Tup[val]', recv='OT', trusted='C10')
                w.contract(OTF + '.gen_hypothesis', name='OT.gen', params={'self': 'OT', 'no_cex_processing_used': 'bool'}, returns='H', recv='OT', trusted='C10', modifies=['self.S'], fresh_result=True, ensures=['result.size == len(result.states)'])
                w.contract('aalpy/utils/HelperFunctions.py::extend_set', name='extend_set', params={'list_to_extend': 'List[Tup[val]]', 'new_elements': 'List[Tup[val]]'}, returns='List[Tup[val]]', mut=['list_to_extend'], trusted='C25')
                w.contract('aalpy/utils/HelperFunctions.py::all_prefixes', name='all_prefixes', params={'li': 'Seq[val]'}, returns='List[Tup[val]]', trusted='C25')
                w.contract(CX + 'counterexample_successfully_processed', name='csp', params={'sul': 'SUL', 'cex': 'Tup[val]', 'hypothesis': 'H'}, returns='bool', trusted='C09', modifies=SM, requires=['len(cex) > 0'],
                           ensures=['iff(result, not DIFF(sul.base, hypothesis, hypothesis.ver, cex))'])
                for f, ps in (('rs_cex_processing', {}), ('linear_cex_processing', {'direction': 'val'}), ('exponential_cex_processing', {'direction': 'val'})):
                    w.contract(CX + f, name=f, params={'sul': 'SUL', 'cex': 'Tup[val]', 'hypothesis': 'H', 'suffix_closedness': 'bool', **ps, 'closedness': 'val'}, returns='List[Tup[val]]', trusted='C09', modifies=SM,
                               requires=['DIFF(sul.base, hypothesis, hypothesis.ver, cex)'])
                w.contract(CX + 'longest_prefix_cex_processing', name='longest_prefix_cex_processing', params={'s_union_s_dot_a': 'List[Tup[val]]', 'cex': 'Tup[val]', 'closedness': 'val'}, returns='List[Tup[val]]', trusted='C09')
            IN = ['observation_table.sul == sul', 'eq_oracle.accepted is None or cex is None'] + K
            inn = Loop(inv=['observation_table.sul == sul'] + K)
            w.contract(D + 'LStar.py::run_Lstar', name='run_Lstar' + r, params={**common, 'automaton_type': 'val', 'samples': 'Opt[List[Tuple[Tup[val],Tup[val]]]]', 'closing_strategy': 'val', 'cex_processing': 'Opt[val]', 'e_set_suffix_closed': 'bool', 'all_prefixes_in_obs_table': 'bool', **tail},
                       returns=ret, modifies=mods, requires=req + ['eq_oracle.accepted is None'] + ['cex_processing is None or (cex_processing != "" and (' + ' or '.join('cex_processing == "%s"' % x for x in ('rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd')) + '))'],
                       locals={'hypothesis': 'Opt[H]', 'info': 'Map[val,val]', 'cex': 'Opt[Tup[val]]', 's_to_update': 'List[Tup[val]]', 'rows_to_query': 'List[Tup[val]]', 'cex_suffixes': 'List[Tup[val]]'}, allocs=['SUL', 'OT'],
                       loops={0: Loop(idx='_s', it='_ss', inv=K), 1: Loop(inv=K + [CNT, 'observation_table.sul == sul', 'learning_rounds >= 0', 'implies(learning_rounds > 0, hypothesis is not None and cex is not None and len(cex) > 0)', 'iff(cex is None, learning_rounds == 0)', 'implies(max_learning_rounds is not None and max_learning_rounds > 0, learning_rounds <= max_learning_rounds)']),
                              2: inn, 3: inn, 4: Loop(idx='_r', it='_rs', inv=inn.inv), 'comp1': Loop(inv=[], locals={'_acc': 'List[Tup[val]]'}), 5: Loop(idx='_p', it='_ps', inv=[]), 'comp2': Loop(inv=[], locals={'_acc': 'List[Tup[val]]'})},
                       ensures=ens + [ACC + ' or ' + LIM(STOP)] + (['%s["learning_rounds"] == eq_oracle.nasked - old(eq_oracle.nasked)' % 'result[1]', 'result[1]["automaton_size"] == result[0].size'] if ty else []))
        if alg == 'kv':
            CTF = D + 'ClassificationTree.py::ClassificationTree'
            if not ty:
                w.cls('KT', CTF, {'sul': 'SUL', 'root': 'val'}, ghost={'nhyp': 'int'})
                w.contract('aalpy/automata/%s.py::%s.__init__' % (mach, mach), name='H.__init__', params={'self': 'H', 'initial_state': 'S', 'states': 'List[S]'}, recv='H', trusted='C04', modifies=['self.*'], ensures=['self.initial_state == initial_state', 'self.states == states', 'self.size == len(states)'])
                w.contract(CTF + '.__init__', name='KT.__init__', params={'self': 'KT', 'alphabet': 'List[val]', 'sul': 'SUL', 'automaton_type': 'val', 'cex': 'Tup[val]'}, recv='KT', trusted='C19', modifies=['self.*'] + SM, requires=['len(cex) > 0'], ensures=['self.sul == sul', 'self.nhyp == 0'])
                w.contract(CTF + '.update_hypothesis', name='KT.update', params={'self': 'KT'}, returns='H', recv='KT', trusted='C19', modifies=SM + ['self.nhyp'], fresh_result=True, ensures=['self.nhyp == old(self.nhyp) + 1'])
                w.contract(CTF + '.process_counterexample', name='KT.cex', params={'self': 'KT', 'cex': 'Tup[val]', 'hypothesis': 'H', 'cex_processing_fun': 'val'}, recv='KT', trusted='C19', modifies=SM,
                           requires=['DIFF(self.sul.base, hypothesis, hypothesis.ver, cex)'])
                w.contract(D + 'CounterExampleProcessing.py::counterexample_successfully_processed', name='csp', params={'sul': 'SUL', 'cex': 'Tup[val]', 'hypothesis': 'H'}, returns='bool', trusted='C09', modifies=SM, requires=['len(cex) > 0'],
                           ensures=['iff(result, not DIFF(sul.base, hypothesis, hypothesis.ver, cex))'])
            w.contract(D + 'KV.py::run_KV', name='run_KV' + r, params={**common, 'automaton_type': ('const', kind), 'cex_processing': 'val', **tail},
                       returns=ret, modifies=mods, requires=req + ['eq_oracle.accepted is None', ' or '.join('cex_processing == "%s"' % x for x in ('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'))],
                       locals={'info': 'Map[val,float]', 'cex': 'Opt[Tup[val]]'}, allocs=['SUL', 'KT', 'S', 'H'],
                       loops={0: Loop(inv=K + ['eq_oracle.nasked == old(eq_oracle.nasked)', 'eq_oracle.accepted is None', 'initial_state.prefix == ()', 'forall("i:int", implies(0 <= i and i < _k, alphabet[i] in initial_state.transitions and initial_state.transitions[alphabet[i]] == initial_state%s), alphabet[i])' % (' and alphabet[i] in initial_state.output_fun' if kind == 'mealy' else '')]),
                              1: Loop(inv=K + ['classification_tree is not None and classification_tree.sul == sul', 'cex is not None and len(cex) > 0', 'eq_oracle.accepted is None', 'learning_rounds == classification_tree.nhyp', 'learning_rounds >= 0',
                                               'implies(max_learning_rounds is not None and max_learning_rounds > 0, learning_rounds <= max_learning_rounds)'])},
                       ensures=ens + [ACC + ' or ' + LIM('True')] + (['result[1]["learning_rounds"] >= 0', ACC + ' or ' + LIM('result[1]["learning_rounds"] == max_learning_rounds + 1'), 'result[1]["automaton_size"] == result[0].size'] if ty else []))
    return w
