#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/propdefs.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
D = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    D.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe))))


p('C01', 'Query cache is transparent and stops on contradictory answers',
  'A caching wrapper around a system returns, for every query and every step, exactly what the system answers; a word whose answers are all on record is answered from the record without '
  'touching the system, and recorded answers are never altered. An answer that contradicts a recorded one always stops learning with an error, and no error is raised when answers are consistent. '
  'Both cache implementations (tree and dictionary) behave the same way.',
  ['histories', 'inputs'], 'all histories of queries, single steps, resets and added samples, over all input and output values, for deterministic and non-deterministic systems',
  'Tests run a few learners over benchmark machines that never contradict themselves; neither the dictionary cache nor the contradiction path is executed.',
  ['aalpy/base/CacheTree.py', 'aalpy/base/SUL.py'],
  [('CacheTree.step_in_cache / in_cache', 'aalpy/base/CacheTree.py'), ('CacheDict.step_in_cache / in_cache', 'aalpy/base/CacheTree.py'), ('CacheSUL.query / step / pre / post', 'aalpy/base/SUL.py')],
  [('tree of nodes keyed by input, node value = last output', 'recorded answers', 'CacheTree')])
p('C02', 'A membership query resets, steps each letter once in order, and cleans up',
  'Every membership query on a system under learning performs exactly one reset before and one cleanup after, executes the letters of the word once each in order, and returns the answers in the same order '
  '(one answer for the empty word: the output of the initial state). The query and step counters grow by exactly one and by the number of executed letters. Systems that wrap an automaton answer as the automaton does from its initial state, '
  'whatever was executed before.',
  ['inputs', 'histories'], 'all words, all histories of earlier (also interrupted) executions, all automata',
  'Tests only observe learned models; the order of reset, steps and cleanup and the counters are never asserted.',
  ['aalpy/base/SUL.py', 'aalpy/SULs/AutomataSUL.py', 'aalpy/SULs/PyMethodSUL.py'],
  [('SUL.query, io_query, adaptive_query', 'aalpy/base/SUL.py'), ('AutomatonSUL', 'aalpy/SULs/AutomataSUL.py')])
p('C03', 'Deterministic automata execute their transition table',
  'Stepping a DFA, Moore or Mealy machine moves to the successor recorded for the input and returns the output the machine type prescribes; executing a word from a state yields the outputs of the successive steps and ends in the state the word leads to. '
  'Computing the output of a single input or of a word from a given state returns those same outputs and leaves the current state as it was; resetting returns to the initial state.',
  ['inputs', 'histories'], 'all machines, states, words (including the empty word) and current states',
  'Tests execute sampled words on a few machines, always from freshly reset models.',
  ['aalpy/base/Automaton.py', 'aalpy/automata/Dfa.py', 'aalpy/automata/MooreMachine.py', 'aalpy/automata/MealyMachine.py'],
  [('step', 'aalpy/automata/*.py'), ('execute_sequence, output_step, compute_output_seq, reset_to_initial', 'aalpy/base/Automaton.py')])
p('C04', 'Distinguishing sequences distinguish, and none exists when none is returned',
  'For two states of an input-complete deterministic machine, a returned distinguishing sequence is over the given alphabet and the two states answer it differently, at its last input. '
  'If nothing is returned, no sequence over the alphabet is answered differently by the two states.',
  ['inputs'], 'all machines, all pairs of states, all alphabets over which the machine is complete',
  'Tests use minimal benchmark machines, where a sequence always exists; the negative answer and the correctness for all pairs are not exercised.',
  ['aalpy/base/Automaton.py'], [('find_distinguishing_seq', 'aalpy/base/Automaton.py')])
p('C05', 'Reachability results: shortest paths, prefixes, connectivity, completeness',
  'The path returned between two states leads from the one to the other and is as short as possible; nothing is returned only if no path exists. The prefixes computed for the states lead to them from the initial state, '
  'strong connectivity is reported exactly when every state can be reached from every other, and input completeness exactly when every state defines every input of the alphabet.',
  ['inputs'], 'all deterministic machines, also incomplete, disconnected or with states in any order',
  'Tests use connected, complete machines and never check the length of a path or a negative answer.',
  ['aalpy/base/Automaton.py'], [('get_shortest_path, compute_prefixes, is_strongly_connected, is_input_complete, get_input_alphabet', 'aalpy/base/Automaton.py')])
p('C06', 'Characterization sets separate all states; minimization preserves behaviour',
  'A characterization set returned for a machine gives every two distinct states different answers to one of its words, and none is returned exactly when two states are equivalent. '
  'Minimizing an input-complete machine leaves the answer to every word unchanged, leaves no two equivalent states, keeps the initial state among the states and every transition inside the machine.',
  ['inputs', 'configurations'], 'all input-complete deterministic machines, all option combinations of the computation, all orders of the state list',
  'Tests compute characterization sets of minimal machines only and minimize a handful of machines.',
  ['aalpy/base/Automaton.py'], [('compute_characterization_set, _split_blocks, is_minimal, minimize', 'aalpy/base/Automaton.py')])
p('C07', 'Model comparison is exact',
  'Comparing two deterministic machines of the same kind reports them equivalent exactly when every input word is answered identically by both, and any counterexample it returns is answered differently.',
  ['inputs'], 'all pairs of input-complete machines of the same kind over the same alphabet',
  'Tests compare learned models with their references, which are equal; inequality and the correctness of counterexamples are hardly exercised.',
  ['aalpy/utils/ModelChecking.py'], [('bisimilar, compare_automata, statistical and property checks', 'aalpy/utils/ModelChecking.py')])
p('C08', 'Equivalence oracles only report genuine, executed counterexamples',
  'Whatever an equivalence oracle returns as a counterexample is a word on which the system, after a reset, and the hypothesis, from its initial state, give different answers, with the difference at the last input. '
  'Every test starts with a reset of both, runs both on the same inputs in lockstep, and the step and query counters grow by the numbers of inputs and tests executed.',
  ['inputs', 'histories', 'configurations'], 'all systems, hypotheses, oracle parameters and random choices',
  'Tests check only that learning ends with the right model; a spurious counterexample or a test without reset is masked by later rounds.',
  ['aalpy/base/Oracle.py', 'aalpy/oracles'], [('find_cex of every oracle', 'aalpy/oracles/*.py'), ('Oracle.reset_hyp_and_sul', 'aalpy/base/Oracle.py')])
p('C09', 'Counterexample processing yields suffixes that expose the error',
  'Processing a counterexample yields suffixes of it, closed under taking suffixes where the method promises that; adding them to the table separates two access sequences that the hypothesis identifies, so that the hypothesis changes. '
  'The counterexample passed in is left unchanged.',
  ['inputs'], 'all counterexamples, hypotheses and systems, all processing strategies',
  'Tests only learn a few machines to the end, and a useless suffix is compensated by further counterexamples.',
  ['aalpy/learning_algs/deterministic/CounterExampleProcessing.py'], [('longest_prefix_cex_processing, rs_cex_processing, linear_cex_processing, exponential_cex_processing', 'CounterExampleProcessing.py')])
p('C10', 'Observation table: closed, consistent, and its hypothesis agrees with it',
  'The closedness and consistency checks of the observation table report a violation exactly when there is one, and name rows and suffixes that repair it. '
  'Every row holds, suffix by suffix, the answers of the system. The hypothesis built from a closed (and consistent) table has one state per distinct row, labelled as the row says; its transitions lead to the states of the rows of the one-letter extensions, '
  'so that every recorded access word leads to the state of its row and, with a suffix-closed suffix set, every recorded word is answered as in the table.',
  ['inputs', 'histories'], 'all tables, access words, suffix sets and system answers',
  'Tests assert the number of states of learned benchmark models only.',
  ['aalpy/learning_algs/deterministic/ObservationTable.py'], [('get_rows_to_close, is_closed, get_causes_of_inconsistency, update_obs_table, gen_hypothesis, shrink', 'ObservationTable.py')])
p('C11', 'Active learners return only models their oracle accepted',
  'The deterministic learners (table based, tree based and apartness based) end only when the equivalence oracle finds no counterexample for the model returned or a stated round or size limit is reached; with an oracle that decides equivalence, '
  'the model returned answers every word like the system and has no more states than the minimal machine for it.',
  ['inputs', 'configurations'], 'all finite-state systems, model kinds, closing, counterexample-processing and caching options',
  'Tests sample option combinations over a few benchmark machines.',
  ['aalpy/learning_algs/deterministic/LStar.py', 'aalpy/learning_algs/deterministic/KV.py', 'aalpy/learning_algs/deterministic/LSharp.py'],
  [('run_Lstar', 'LStar.py'), ('run_KV', 'KV.py'), ('run_Lsharp', 'LSharp.py')])
p('C12', 'Passive state merging (RPNI) reproduces its data',
  'A model learned by state merging from consistent labelled data answers every word of the data with the label given for it, for both implementations and all model kinds. Contradictory data are rejected rather than silently resolved.',
  ['inputs', 'configurations'], 'all finite data sets, model kinds, both implementations and input-completeness options',
  'Tests learn from data generated by a few automata and compare sizes or sampled words.',
  ['aalpy/learning_algs/deterministic_passive'], [('createPTA, to_automaton, check_sequence, extract_unique_sequences', 'rpni_helper_functions.py'), ('ClassicRPNI, GsmRPNI', 'deterministic_passive/*.py'), ('run_RPNI', 'RPNI.py')])
p('C13', 'Alergia: prefix-tree frequencies and learned probabilities',
  'The prefix tree built from sampled traces counts, at every edge, exactly the traces that pass through it. In every model returned, the probabilities leaving a state (per input, for models with inputs) are positive and sum to one, outputs label what was observed, and the compatibility test is symmetric and follows the Hoeffding bound.',
  ['inputs', 'configurations'], 'all finite sets of traces, model kinds, thresholds and options',
  'Tests check a couple of learned models against expected sizes.',
  ['aalpy/learning_algs/stochastic_passive'], [('create_fpta', 'FPTA.py'), ('HoeffdingCompatibility', 'CompatibilityChecker.py'), ('Alergia.merge, fold, normalize', 'Alergia.py')])
p('C14', 'Generalized state merging: the prefix tree stores the data, merges keep it',
  'The prefix-tree node structure built from traces holds, for every prefix of the data, the number of traces through it; lookups, traversals and derived statistics agree with the tree. Merging nodes preserves the total counts, keeps every trace of the data in the model, and an aborted merge leaves the structure as it was.',
  ['inputs', 'histories'], 'all finite data sets, data formats and merge sequences',
  'Tests only compare a few final models.',
  ['aalpy/learning_algs/general_passive'], [('Node, TransitionInfo', 'GsmNode.py'), ('GeneralizedStateMerging', 'GeneralizedStateMerging.py')])
p('C15', 'State setups, copies and pickles describe the same machine',
  'Turning a machine into a state setup and back, copying it, or pickling it yields a machine with the same state names, the same initial state, the same labels and the same transitions (and probabilities), that shares no state with the original.',
  ['inputs'], 'all machines of every kind whose states have distinct names and whose initial state is reachable in the documented sense',
  'Tests round-trip a few machines, not all kinds.',
  ['aalpy/automata', 'aalpy/base/Automaton.py'], [('to_state_setup / from_state_setup of each kind', 'aalpy/automata/*.py'), ('copy, __reduce__', 'aalpy/base/Automaton.py')])
p('C16', 'Model conversions and completion preserve behaviour',
  'Converting a Moore machine with Boolean outputs to a DFA preserves the answer to every word; converting an MDP to a Markov chain for one of its inputs (including inputs such as 0 or the empty string), or a stochastic Mealy machine to an MDP, preserves the states, probabilities and outputs (the distribution of the output traces); making a machine of any kind input complete leaves every defined transition, state and label as it was and adds exactly one transition - a self loop, or one to a new sink state with the documented label - for exactly the inputs of the alphabet that were undefined.',
  ['inputs'], 'all machines accepted by the conversion',
  'Tests convert a few machines.',
  ['aalpy/utils/HelperFunctions.py'], [('make_input_complete, dfa_from_moore, mc_from_mdp', 'aalpy/utils/HelperFunctions.py'), ('smm_to_mdp_conversion', 'aalpy/automata/StochasticMealyMachine.py')])
p('C17', 'Pushdown automata follow the stack discipline',
  'A visibly pushdown automaton pushes exactly on call letters, pops the matching symbol exactly on return letters, leaves the stack alone on internal letters, and accepts a word exactly when it ends in an accepting state with an empty stack; an undefined move leads to rejection of every continuation. '
  'After a reset, and at the start of every executed word or membership query, the machine behaves as freshly built.',
  ['inputs', 'histories'], 'all automata, all words over the three kinds of letters, all histories before a reset',
  'Tests run a few benchmark automata on sampled words.',
  ['aalpy/automata/Vpa.py', 'aalpy/automata/Sevpa.py'], [('step, reset_to_initial', 'aalpy/automata/Vpa.py, aalpy/automata/Sevpa.py')])
p('C18', 'Observation tree and apartness of L#',
  'The observation tree answers exactly the words that were inserted, with the outputs given, and nothing else; two nodes are reported apart exactly when some recorded continuation is answered differently by both (with outputs other than None), and the witness returned is such a continuation. Contradicting observations are rejected. A node of the tree and a hypothesis state are reported to differ exactly when some recorded word shows it.',
  ['inputs', 'histories'], 'all sets of inserted words and outputs, all pairs of nodes',
  'Tests only learn benchmark machines.',
  ['aalpy/learning_algs/deterministic/ObservationTree.py', 'aalpy/learning_algs/deterministic/Apartness.py'], [('insert_observation, get_successor, get_observation', 'ObservationTree.py'), ('compute_witness, states_are_apart', 'Apartness.py')])
p('C19', 'Classification tree of KV separates its leaves',
  'Sifting a word always ends in the leaf selected by the system answers to the distinguishing words on the way, splitting a leaf keeps every access word in the leaf it sifts to, and the hypothesis maps each transition to the leaf its extended access word sifts to.',
  ['inputs', 'histories'], 'all systems, access words and counterexamples',
  'Tests only learn benchmark machines.',
  ['aalpy/learning_algs/deterministic/ClassificationTree.py'], [('_sift, update_rs, gen_hypothesis, least_common_ancestor', 'ClassificationTree.py')])
p('C20', 'Observations of non-deterministic and stochastic systems are counted exactly',
  'Trees of sampled traces of non-deterministic or stochastic systems hold, for every input word and output word, exactly how often they were observed; output sets and frequencies returned are exactly those recorded.',
  ['inputs', 'histories'], 'all histories of sampled traces',
  'Tests only learn benchmark machines.',
  ['aalpy/learning_algs/non_deterministic/TraceTree.py', 'aalpy/learning_algs/stochastic/StochasticTeacher.py'], [('TraceTree', 'aalpy/learning_algs/non_deterministic/TraceTree.py'), ('NonDeterministicSULWrapper.step', 'aalpy/learning_algs/non_deterministic/NonDeterministicSULWrapper.py'), ('StochasticTeacher.add, frequency_query, complete_query, tree_query', 'aalpy/learning_algs/stochastic/StochasticTeacher.py')])
p('C21', 'Non-deterministic and stochastic machines only take recorded transitions',
  'A step of an MDP, Markov chain, stochastic Mealy machine or ONFSM always moves along a transition recorded for the input (with positive probability where there are any) and returns its output; stepping to a demanded output moves to the unique state it names, or reports that there is none and stays.',
  ['inputs', 'histories'], 'all machines, inputs, current states and random choices',
  'Tests sample a few runs; random choices of measure zero are never seen.',
  ['aalpy/automata/Mdp.py', 'aalpy/automata/MarkovChain.py', 'aalpy/automata/StochasticMealyMachine.py', 'aalpy/automata/Onfsm.py', 'aalpy/automata/NonDeterministicMooreMachine.py'],
  [('step, step_to, outputs_on_input', 'aalpy/automata/*.py')])
p('C22', 'Conformance test suites contain every word their method prescribes',
  'The W-method and Wp-method oracles run, for each hypothesis, every word formed of an access word, a middle word of up to the allowed number of extra states and a characterizing suffix, so that any system with no more states than assumed and different behaviour is found out. '
  'Test-suite oracles that promise to visit every state or transition (prefix, focus and coverage oracles) do so the promised number of times.',
  ['inputs', 'configurations'], 'all hypotheses, systems within the state bound, and oracle parameters',
  'Tests check learning on a few machines in which much smaller suites succeed.',
  ['aalpy/oracles'], [('WMethodEqOracle, WpMethodEqOracle, StatePrefixEqOracle, KWayStateCoverageEqOracle, KWayTransitionCoverageEqOracle', 'aalpy/oracles/*.py')])
p('C23', 'Random model generators deliver what is asked for',
  'Generated machines have the requested number of states, are input complete over the requested alphabet, use only the requested outputs, keep all transitions inside the machine, and the probabilities of generated stochastic machines sum to one.',
  ['inputs', 'configurations'], 'all parameters and random seeds',
  'Tests use generated machines but do not check them for all seeds.',
  ['aalpy/utils/AutomatonGenerators.py'], [('generate_random_*', 'aalpy/utils/AutomatonGenerators.py')])
p('C24', 'Models written to a file load back as the same machine',
  'Saving a machine in the textual graph format and loading it again yields a machine of the same kind with the same states, initial state, labels, transitions and (up to the printed precision) probabilities.',
  ['inputs'], 'all machines of every supported kind whose names and labels are printable',
  'Tests round-trip a few machines with simple labels.',
  ['aalpy/utils/FileHandler.py'], [('save_automaton_to_file, load_automaton_from_file', 'aalpy/utils/FileHandler.py')])
p('C25', 'Word and set helpers compute what their names say',
  'The helpers for prefixes, suffixes, word products, set extension and data conversion return exactly the prefixes, suffixes, missing elements and label assignments that their inputs determine, without duplicates where they promise none and without altering their inputs.',
  ['inputs'], 'all words, collections and data sets',
  'Tests call them indirectly, with lists that contain no duplicates.',
  ['aalpy/utils/HelperFunctions.py', 'aalpy/utils/DataHandler.py'], [('extend_set, all_prefixes, all_suffixes, get_cex_prefixes, convert_i_o_traces_for_RPNI', 'aalpy/utils/HelperFunctions.py')])

NA_DEFAULT = 'contracts for this property are not finished yet'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in D:
            f.write(json.dumps(d) + '\n')
    from props import PROPS, NA
    checks, na = [], []
    for d in D:
        P = PROPS.get(d['id'])
        if P is None:
            na.append(dict(property=d['id'], reason=NA.get(d['id'], NA_DEFAULT)))
            continue
        checks.append(dict(property=d['id'], quick_cmd='python3-vt check.py ' + d['id'], thorough_cmd='python3-vt check.py %s --thorough' % d['id'],
                           technique='contract-based deductive verification of the Python source (pyvc obligations, z3/cvc5)' + P.get('technique', ''),
                           level=P.get('level', 'proof'), level_note=P.get('note', '')))
    m = dict(version=1, setup_cmd='python3-vt setup_check.py', checks=checks, not_applicable=na,
             notes='Own obligation generator (pyvc) over the unmodified source of /repo; contracts are kept in /verif/contracts. No hooks are needed in /repo.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
