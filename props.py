"""Which contracts decide which property."""
PROPS = {}


def P(pid, worlds, concrete=None, **kw):
    PROPS[pid] = dict(worlds=worlds, concrete=concrete, **kw)


P('C01', {'cache': None}, 'c01', budget=30)

K = ('dfa', 'moore', 'mealy')


def autos(*names, **kw):
    """the same contracts for the three machine kinds; kind=[..] adds some for one kind"""
    return {'auto:' + k: list(names) + kw.get(k, []) for k in K}


P('C02', {'cache': ['SUL.query', 'SUL.io_query', 'SUL.adaptive_query'], **autos('SUL.__init__', 'ASUL.__init__', 'ASUL.pre', 'ASUL.post', 'ASUL.step', 'ASUL.query', 'step', 'reset_to_initial')}, 'c02', budget=15)
P('C03', autos('step', 'reset_to_initial', 'execute_sequence', 'output_step', 'base.compute_output_seq', dfa=['compute_output_seq'], moore=['compute_output_seq']), 'c03', budget=15)
P('C04', autos('find_distinguishing_seq', 'output_step', 'step'), 'c04', budget=15)
P('C05', autos('get_shortest_path', 'get_input_alphabet', 'is_input_complete', 'is_strongly_connected', 'get_state_by_id', 'size', 'compute_prefixes', 'get_diff_state_transitions', 'get_same_state_transitions'), 'c05', budget=15)
P('C06', autos('_split_blocks', 'base.compute_characterization_set', 'base.compute_characterization_set.pair', 'is_minimal', 'minimize', 'compute_prefixes.missing', 'get_shortest_path', 'find_distinguishing_seq', 'output_step', 'step', 'execute_sequence',
                'base.compute_output_seq', 'is_input_complete', 'get_input_alphabet', dfa=['compute_output_seq', 'compute_characterization_set', 'compute_characterization_set.pair'],
                moore=['compute_output_seq', 'compute_characterization_set', 'compute_characterization_set.pair']), 'c06', budget=20,
  split={'base.compute_characterization_set': 6, 'base.compute_characterization_set.pair': 6, 'minimize': 3})
P('C07', autos('bisimilar', 'bisimilar_bool'), 'c07', budget=15)
P('C08', {'orc': None, 'orc:onfsm': None, 'orc:mdp': None, 'orc:smm': None}, 'c08', budget=15,
  assumptions=['the system and the hypothesis are the environment of an oracle: assumed contracts record the inputs given to each since its last reset', 'which words are tested (test suites, paths, random choices) is left arbitrary here', 'PerfectKnowledgeEqOracle is bisimilar(), decided by C07; UserInputEqOracle (interactive) is not checked',
               'KWayTransitionCoverageEqOracle: check_path is under contract, the selection of paths is checked by the bounded cross-check only'])
P('C09', {'cex:' + k: ['rs_cex_processing', 'linear_cex_processing', 'exponential_cex_processing', 'longest_prefix_cex_processing', 'counterexample_successfully_processed', 'ivt', 'all_prefixes', 'all_suffixes', 'step', 'reset_to_initial', 'execute_sequence'] for k in K}, 'c09', budget=15,
  assumptions=['counterexample processing for visibly pushdown hypotheses (is_vpa=True) is not under contract'])
P('C10', {'obs:' + k: ['__init__', 's_dot_a', 'get_rows_to_close.shortest_first', 'get_rows_to_close.longest_first', 'get_rows_to_close.single', 'get_rows_to_close.single_longest', 'get_causes_of_inconsistency',
                       'update_obs_table', 'update_obs_table.rows', 'update_obs_table.columns', '_get_row_representatives', 'gen_hypothesis', 'gen_hypothesis.nocex', 'insa', 'access', 'cell', 'samerow', 'ahead', 'answers'] + ([] if k != 'mealy' else ['catone', 'outcell']) for k in K},
  'c10', budget=15, assumptions=['tables whose cells hold whole output words (prefixes_in_cell=True) are not under contract', 'the characterization set of a hypothesis is the suffix list of the table itself (shared container): a snapshot is assumed'])
P('C11', {'learn:lstar': None, 'learn:lsharp': None, 'learn:kv-dfa': None, 'learn:kv-moore': None, 'learn:kv-mealy': None}, 'c11', budget=20,
  assumptions=['the contracts of the parts (observation table C10, observation tree C20, counterexample processing C09, caching C01, oracle C08) are assumed in the main loops, in weakened form; the classification tree (C19) is assumed',
               'that the learner ends, and that the accepted model is no larger than the minimal machine, is checked by the bounded cross-check only', 'run_KV for visibly pushdown systems is not covered'])
P('C13', {'fpta:mc': None, 'fpta:mdp': None, 'fpta:smm': None, 'alg:mc': None, 'alg:mdp': ['AL.compatibility_test'], 'alg:smm': ['AL.compatibility_test']}, 'c13', budget=15,
  assumptions=['merging (Alergia.merge, fold, run), normalization and the per-input application of hoeffding_bound in are_states_different are checked by the bounded cross-check only', 'real numbers stand for floating point; sqrt and log are uninterpreted', 'compatibility_test: the recursion over the prefix tree ends (finite tree)', 'MDP data: every element after the first has two components'])
P('C15', {'setup:' + k: ['to_state_setup', 'from_state_setup', 'copy', 'ent', 'ente'] + (['compute_prefixes', 'get_shortest_path', 'twin'] if k in K else []) for k in K + ('mdp', 'smm', 'ndmoore')}, 'c15', budget=12,
  assumptions=['pickling (Automaton.__reduce__ is from_state_setup applied to to_state_setup, both under contract) and the state setups of pushdown automata are checked by the bounded cross-check only', 'state names within a machine are distinct (precondition)'])
P('C16', {**{'mic:' + k: ['self_loop', 'sink_state', 'get_input_alphabet', 'is_input_complete'] for k in ('dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm')}, 'conv:dfa': None, 'conv:mc': None}, 'c16', budget=15,
  assumptions=['smm_to_mdp_conversion is checked by the bounded cross-check only (trace distributions up to length 3)'])
P('C17', {'pda:vpa': None, 'pda:sevpa': None}, 'c17', budget=12, assumptions=['get_input_alphabet, execute_sequence and the constructors of pushdown automata are checked by the bounded cross-check only'])
P('C18', {'obt:mealy': None, 'obt:moore': None, 'obt:dfa': None}, 'c18', budget=12, split={'A.hyp': 3, 'A.hypothesis': 3},
  assumptions=['outputs are other than None (None is how the tree says "not observed")', 'the basis/frontier bookkeeping and the query strategy of L# are not under contract'])
CTN = ['init', '_sift', '_insert_new_leaf', 'update_hypothesis', 'process_counterexample.rs', 'sift_step', 'sift_one', 'sift_at', 'sift_end', 'leaf_up', 'run_ish', 'run_take', 'def_at', 'def_take', 'agree', 'same_leaf', 'al0', 'last_al']
LEAF = ['N.output', 'CTLeafNode.__init__', 'CTLeafNode.is_leaf']
P('C19', {'ct:dfa': CTN + ['root_same', 'process_counterexample.exponential_fwd'], 'ct:moore': CTN + ['root_same', 'process_counterexample.linear_fwd'], 'ct:mealy': CTN + ['process_counterexample.exponential_bwd'],
          'ct:dfa:CTLeafNode': LEAF, 'ct:moore:CTLeafNode': LEAF, 'ct:moore:CTInternalNode': ['CTInternalNode.__init__', 'CTInternalNode.is_leaf']}, 'c19', budget=15, split={'process_counterexample.rs': 2},
  assumptions=['the systems answer every query with a fixed word (C02); a DFA system answers True or False', 'the splitting point delivered by counterexample processing is the contract proved under C09',
               '_least_common_ancestor, update (the processing of the original KV paper) and the trees of visibly pushdown systems are not under contract; the first two are checked by the bounded cross-check'])
P('C20', {'tt': None, 'st:mdp': None, 'st:smm': None}, 'c20', budget=12, split={'TE.tree_query': 4},
  assumptions=['find_cex_in_cache: recorded outputs are other than None; the hypothesis answers as an ONFSM does (its step_to is under contract in C21)', 'input counts are mathematical integers', 'TraceTree.get_table (a table of get_all_traces) and the cache of complete queries are checked by the bounded cross-check only'])
P('C21', {'nd:' + k: None for k in ('mdp', 'mc', 'smm', 'onfsm', 'ndmoore')}, 'c21', budget=15, assumptions=['random.choices picks an element of positive weight (assumed contract on the standard library)'])
P('C25', {'helpers': None}, 'c25', budget=8, assumptions=['convert_i_o_traces_for_RPNI is under contract for Mealy traces; Moore and DFA traces (heterogeneous lists), the tokenizers, mc_format_to_mdp and product_with_possible_empty_iterable are checked by the bounded cross-check only'])

# properties that are not claimed, with the reason
NA = {
    'C24': 'file input/output through text formatting and the external graph parser (pydot): string-level round trips through a third-party parser are outside what contracts over this source can express',
}
