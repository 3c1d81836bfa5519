From d581c6421b8a104e85e5611130b63747dc9a4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 01/24] fix: CacheDict.step_in_cache(None, out) records the
 initial output instead of raising KeyError

---
 aalpy/base/CacheTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..bb18971 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -122,7 +122,8 @@ class CacheDict:
         """
 
         if inp is None:
-            return self.cache_dict[()]
+            self.cache_dict[()] = out
+            return
 
         self.inputs += (inp,)
 
-- 
2.43.0


From 3599eaa0617c3aa73bb9632b80f9a0c75c6bf11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 02/24] fix: CacheDict.add_to_cache reports contradicting
 samples instead of overwriting cached outputs

---
 aalpy/base/CacheTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index bb18971..96e9cf2 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -163,8 +163,9 @@ class CacheDict:
         """
         Add input-output sequence to cache
         """
-        for i in range(1, len(input_sequence) + 1):
-            self.cache_dict[input_sequence[:i]] = output_sequence[i-1]
+        self.reset()
+        for i, o in zip(input_sequence, output_sequence):
+            self.step_in_cache(i, o)
 
     def get_output_sequence(self, input_seq):
         return tuple(self.cache_dict[input_seq[:i]] for i in range(1, len(input_seq) + 1))
-- 
2.43.0


From cdf384f7ee2b38b5b869876b4572cd9d98e747f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 03/24] fix: compute_characterization_set appended to the
 caller's list of initial words

---
 aalpy/base/Automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..ccf96f8 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -346,7 +346,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From 348dfc366e53742f79ba16dd0fd8d91acb16a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 04/24] fix: characterization sets of DFAs and Moore machines
 always contain the empty word

---
 aalpy/automata/Dfa.py          | 5 ++++-
 aalpy/automata/MooreMachine.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..1596a30 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -42,7 +42,10 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(Dfa, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.insert(0, ())
+        return super(Dfa, self).compute_characterization_set(char_set_init,
                                                              online_suffix_closure, split_all_blocks,
                                                              return_same_states, raise_warning)
 
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..a51b4d3 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -39,7 +39,10 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(MooreMachine, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.insert(0, ())
+        return super(MooreMachine, self).compute_characterization_set(char_set_init,
                                                                       online_suffix_closure, split_all_blocks,
                                                                       return_same_states, raise_warning)
 
-- 
2.43.0


From 697ca036dbfe9abace5cedcc3d3c926ee1b7ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 05/24] fix: minimize left the initial (and current) state
 outside the machine when it was merged into another

---
 aalpy/base/Automaton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index ccf96f8..0a1c02b 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -442,6 +442,10 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                     if new_state == s2:
                         s.transitions[i] = s1
             self.states.remove(s2)
+            if self.initial_state == s2:
+                self.initial_state = s1
+            if self.current_state == s2:
+                self.current_state = s1
             s1, s2 = self.compute_characterization_set(return_same_states=True)
 
         self.compute_prefixes()
-- 
2.43.0


From c07880db4f69be55127cd484f1d2e858c4dcb4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 06/24] fix: is_suffix_of denied that the empty word is a
 suffix

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..b8e72c6 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -185,7 +185,7 @@ def is_suffix_of(suffix, trace) -> bool:
     if len(trace) < len(suffix):
         return False
     else:
-        return trace[-len(suffix):] == suffix
+        return trace[len(trace) - len(suffix):] == suffix
 
 
 def get_cex_prefixes(cex, automaton_type):
-- 
2.43.0


From 7219e9e6b656bb5ce924140a3e8818840e43d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 07/24] fix: extend_set added an element twice when it occurred
 twice among the new ones

---
 aalpy/utils/HelperFunctions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index b8e72c6..d110652 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -18,7 +18,11 @@ def extend_set(list_to_extend: list, new_elements: list) -> list:
 
     """
     set_repr = set(list_to_extend)
-    added_elements = [s for s in new_elements if s not in set_repr]
+    added_elements = []
+    for s in new_elements:
+        if s not in set_repr:
+            set_repr.add(s)
+            added_elements.append(s)
     list_to_extend.extend(added_elements)
     return added_elements
 
-- 
2.43.0


From 96953da0949c2ba2a125dd047a7b787a50612f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 08/24] fix: longest_prefix_cex_processing reversed the list of
 prefixes of its caller

---
 aalpy/learning_algs/deterministic/CounterExampleProcessing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index 5503946..d262620 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -28,8 +28,7 @@ def longest_prefix_cex_processing(s_union_s_dot_a: list, cex: tuple, closedness=
         suffixes to add to the E set
 
     """
-    prefixes = s_union_s_dot_a
-    prefixes.reverse()
+    prefixes = s_union_s_dot_a[::-1]
     trimmed_suffix = None
 
     for p in prefixes:
-- 
2.43.0


From f0c5ee639733f455d7f6a4bf82db8dfc56429e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 09/24] fix: exponential_cex_processing ignored
 suffix_closedness when the search ended at once

---
 .../learning_algs/deterministic/CounterExampleProcessing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index d262620..6ee7162 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -208,7 +208,11 @@ def exponential_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedne
             bwd_subtrahend *= 2
 
     if (bp - bp_recent) == 1:
-        return [suffix]
+        if not suffix_closedness:
+            return [suffix]
+        suffixes = all_suffixes(suffix) if closedness == 'suffix' else all_prefixes(suffix)
+        suffixes.reverse()
+        return suffixes
     else:
         if direction == 'fwd':
             return rs_cex_processing(sul, cex, hypothesis, suffix_closedness, closedness, is_vpa, lower=bp_recent)
-- 
2.43.0


From 1ee1d030e843539c17b1c60782d85e76c936405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 10/24] fix: linear_cex_processing took the output None for the
 absence of an output

---
 aalpy/learning_algs/deterministic/CounterExampleProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index 6ee7162..9c91bf1 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -134,7 +134,7 @@ def linear_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedness=Tr
 
         sul_out = sul.query(s_bracket + suffix)[-1]
 
-        if previous_output is None:
+        if i == 0:
             previous_output = sul_out
             continue
 
-- 
2.43.0


From 511a2b7f67c93e290ccea8ed396902c252e09824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 11/24] fix: StochasticMealyMachine.step could take a
 transition of probability 0

---
 aalpy/automata/StochasticMealyMachine.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ae033d9..191b69c 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -35,16 +35,8 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
 
            output of the current state
         """
-        prob = random.random()
         probability_distributions = [i[2] for i in self.current_state.transitions[letter]]
-        index = 0
-        for i, p in enumerate(probability_distributions):
-            prob -= p
-            if prob <= 0:
-                index = i
-                break
-
-        transition = self.current_state.transitions[letter][index]
+        transition = random.choices(self.current_state.transitions[letter], probability_distributions, k=1)[0]
         self.current_state = transition[0]
         return transition[1]
 
-- 
2.43.0


From 0e9193282eb1763b28adba713ff121947104d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 12/24] fix: make_input_complete's sink state of a
 non-deterministic Moore machine has the documented output

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index d110652..55266b6 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -255,7 +255,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
                             MooreMachine: MooreState(state_id='sink', output='sink_state'),
                             MealyMachine: MealyState(state_id='sink'),
                             Onfsm: OnfsmState(state_id='sink'),
-                            NDMooreMachine: NDMooreState(state_id='sink'),
+                            NDMooreMachine: NDMooreState(state_id='sink', output='sink_state'),
                             Mdp: MdpState(state_id='sink', output='sink_state'),
                             StochasticMealyMachine: StochasticMealyState(state_id='sink')}
 
-- 
2.43.0


From 281e375abd5613d8caa22cd67019355f34740cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 13/24] fix: mc_from_mdp ignored a falsy input symbol

---
 aalpy/utils/HelperFunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index 55266b6..25db19c 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -439,7 +439,8 @@ def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
     if len(alphabet) != 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    if input_symbol is None:
+        input_symbol = alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From 3cb04631d0f87430c4a075c29a082614039f82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 14/24] fix: NDMooreMachine.to_state_setup returned None, so
 copies and pickles failed

---
 aalpy/automata/NonDeterministicMooreMachine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..5f76be8 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -32,6 +32,7 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             if state is self.initial_state:
                 continue
             set_dict_entry(state)
+        return state_setup
 
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
-- 
2.43.0


From 67c98c5e006968b7b9d4004b8eedffc72b2bfd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 15/24] fix: pushdown automata could not be copied or pickled
 (setup of transition lists, initial state)

---
 aalpy/automata/Sevpa.py |  6 ++++--
 aalpy/automata/Vpa.py   | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..3694fce 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -180,7 +180,8 @@ class Sevpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # the initial state is the first one
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, x.state_id))
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +198,8 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        # unless stated otherwise, the first state is the initial state
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else next(iter(state_setup))
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..befdfaf 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -156,10 +156,11 @@ class Vpa(Automaton):
         # ensure prefixes are computed
         # self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # the initial state is the first one
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, len(x.prefix) if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in v] for k, v in s.transitions.items()})
 
         return state_setup_dict
 
@@ -218,7 +219,7 @@ class Vpa(Automaton):
                 state_setup (dict): A dictionary mapping from state IDs to tuples containing
                     (is_accepting: bool, transitions_dict: dict), where transitions_dict maps input symbols to
                     lists of tuples (target_state_id, action, stack_guard).
-                init_state_id (str): The state ID for the initial state of the VPA.
+                init_state_id (str): The state ID for the initial state of the VPA (default: the first state).
                 input_alphabet (VpaAlphabet): The alphabet for the VPA.
 
             Returns:
@@ -226,7 +227,8 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        # unless stated otherwise, the first state is the initial state
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else next(iter(state_setup))
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 1a0b9eb150ffc7163b55a46f31bb422e718253df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 16/24] fix: executing a word on a Vpa started with the stack
 left by the previous run

---
 aalpy/automata/Vpa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index befdfaf..12e8b05 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -102,6 +102,10 @@ class Vpa(Automaton):
         self.current_state = self.initial_state
         self.stack = []
 
+    def execute_sequence(self, origin_state, seq):
+        self.stack = []
+        return super().execute_sequence(origin_state, seq)
+
     def top(self):
         return self.stack[-1] if self.stack else []
 
-- 
2.43.0


From 74827962ecaaf20d122b48b7a6c792f21d6ba9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 17/24] fix: tests of single-state hypotheses were not counted
 as queries by KWayStateCoverageEqOracle

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..1530bd5 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -37,9 +37,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
-- 
2.43.0


From d6d40030e2a244cd194908d11e1e69e680736d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 18/24] fix: contradicting observations were silently dropped
 by Moore and DFA observation trees

---
 aalpy/learning_algs/deterministic/ObservationTree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index 55fbe10..3093bd4 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -33,6 +33,10 @@ class MooreNode:
     def extend_and_get(self, inp, output):
         """ Extend the node with a new successor and return the successor node """
         if inp in self.successors:
+            out = self.successors[inp].output
+            if out != output:
+                raise Exception(
+                    f"observation not consistent with tree with output from tree: {out} and output from call: {output}")
             return self.successors[inp]
         successor_node = MooreNode(parent=self)
         self.add_successor(inp, output, successor_node)
-- 
2.43.0


From 243851bbe1fa0a6d7a061c8dfb3b9a4feb8037d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 19/24] fix: get_observation of a word that is not in a Moore
 or DFA observation tree crashed

---
 aalpy/learning_algs/deterministic/ObservationTree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index 3093bd4..dcb6615 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -145,7 +145,7 @@ class ObservationTree:
                 current_node = current_node.get_successor(input_val)
             else:
                 current_node = current_node.get_successor(input_val)
-                output = current_node.output
+                output = None if current_node is None else current_node.output
             if output is None:
                 return None
             observation.append(output)
-- 
2.43.0


From 1bf052a8240264391f2e4aad71f1c0b59d8d01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 20/24] fix: get_outputs of a Moore or DFA observation tree was
 one step behind the inputs

---
 aalpy/learning_algs/deterministic/ObservationTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index dcb6615..9b883a6 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -159,12 +159,13 @@ class ObservationTree:
         for input_val in inputs:
             if self.automaton_type == 'mealy':
                 output = current_node.get_output(input_val)
+                current_node = current_node.get_successor(input_val)
             else:
-                output = current_node.output
+                current_node = current_node.get_successor(input_val)
+                output = None if current_node is None else current_node.output
             if output is None:
                 return None
             observation.append(output)
-            current_node = current_node.get_successor(input_val)
 
         return observation
 
-- 
2.43.0


From e542d9a2c3049739aa5a0c2b0dc3e4b10047d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 21/24] fix: get_or_compute_witness kept answering None for
 nodes that became apart later

---
 aalpy/learning_algs/deterministic/ObservationTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index 9b883a6..8938aef 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -406,7 +406,8 @@ class ObservationTree:
             return self.witness_cache.get(pair)
 
         witness = Apartness.compute_witness(state_one, state_two, self)
-        self.witness_cache[pair] = witness
+        if witness is not None:
+            self.witness_cache[pair] = witness
         return witness
 
     def make_frontiers_identified(self):
-- 
2.43.0


From 7f8bce35f5305b05cd201776785aeaff02323154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 22/24] fix: a finished tree query of the stochastic teacher
 reduced the recorded input counts of its own tree

---
 aalpy/learning_algs/stochastic/StochasticTeacher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticTeacher.py b/aalpy/learning_algs/stochastic/StochasticTeacher.py
index 3070dcf..6ab85f4 100644
--- a/aalpy/learning_algs/stochastic/StochasticTeacher.py
+++ b/aalpy/learning_algs/stochastic/StochasticTeacher.py
@@ -259,7 +259,7 @@ class StochasticTeacher:
             else:
                 curr_node = pta_root
                 for i, o in zip(inputs, outputs):
-                    self.curr_node.input_frequencies[i] -= 1
+                    curr_node.input_frequencies[i] = max(curr_node.input_frequencies[i] - 1, 0)
                     curr_node = curr_node.get_child(i, o)
                 self.sul.post()
                 return
-- 
2.43.0


From 7b81cfe138381f6662f4f63d7de420d46eb149d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 23/24] fix: run_Lsharp stops at the round limit only after the
 rounds it counts

With max_learning_rounds=1 the loop ended before any hypothesis was built
and the learner crashed; in general it stopped one round early.
---
 aalpy/learning_algs/deterministic/LSharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..c58bec6 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -67,9 +67,9 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
-- 
2.43.0


From 9dede769811828973db69de22510ba524fe96db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 24/24] fix: TomitaSUL answered the empty word as the word
 'None'

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0

