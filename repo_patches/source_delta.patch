From f2aeee8f0249b5d78f69783a8b0c6df7273add4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 01/25] fix: looping communication model keeps a distribution
 with several initial states

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8293350..de8b5a3 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -411,7 +411,7 @@ class HTMToPOMDP:
 
     def update_T_end(self, T, init):
         if 'loop' in self.flags:
-            T[:, self.end, init] = 1.  # go back to start
+            T[:, self.end, init] = 1. / len(init)  # go back to start
         else:
             if 'reward_state' in self.flags:
                 T[:, self.endr, self.end] = 1.  # go to end after reward
-- 
2.43.0


From 1bf84f8ba2d5a1981aeecfd0b395f1e762d0889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 02/25] fix: leave the reward state also in looping
 communication models

---
 task_models/task_to_pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index de8b5a3..51e0154 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -410,11 +410,11 @@ class HTMToPOMDP:
             self.flags.add('subtask_reward')
 
     def update_T_end(self, T, init):
+        if 'reward_state' in self.flags:
+            T[:, self.endr, self.end] = 1.  # go to end after reward
         if 'loop' in self.flags:
             T[:, self.end, init] = 1. / len(init)  # go back to start
         else:
-            if 'reward_state' in self.flags:
-                T[:, self.endr, self.end] = 1.  # go to end after reward
             T[:, self.end, self.end] = 1.  # end stats is stable
 
     def update_O_wait(self, O):
-- 
2.43.0


From 44626989ccd7e51b8ff7b838cd135d78b7f59b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 03/25] fix: structured mode costs of telling intention
 (undefined attribute, other steps rows)

---
 task_models/task_to_pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 51e0154..c49a792 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -269,9 +269,9 @@ class _LeafToPOMDP(_NodeToPOMDP):
         # Fix the duration cost for the non-failed physical action
         R[a_phy, s_r, :, :] = self.t_rob + intr_cost
         if 'structured' in self.flags:
-            R[a_ti, :, :, :] = 100
-            R[a_ti, s_i, s_h, :] = self.t_com + intr_cost
-            R[a_ti, s_i, s_r, :] = self.t_com + intr_cost
+            R[a_ti, s_start:s_start+3, :, :] = 100
+            R[a_ti, s_i, s_h, :] = self.t_tell + intr_cost
+            R[a_ti, s_i, s_r, :] = self.t_tell + intr_cost
         if 'subtask_reward' in self.flags:
             # Value transitions to any other node
             R[:, s_start:(s_start + 3), :s_start, :] -= self.subtask_reward
-- 
2.43.0


From bd4f8936138214353e41f16c95ee30e07a3af9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 04/25] fix: alternatives keep the probabilities they are given

---
 task_models/task.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 6c7866e..49e8b4e 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -473,7 +473,6 @@ class AlternativeCombination(Combination):
 
     def __init__(self, children, **xargs):
         super(AlternativeCombination, self).__init__(children, **xargs)
-        self.proba = None
 
     @property
     def proba(self):
-- 
2.43.0


From 532dc53620c8e66588e4a477686e878cfb0b72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 05/25] fix: copied supportive states keep the number of task
 steps

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 800c26e..96035a3 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -224,7 +224,7 @@ class _SupportivePOMDPState(object):
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-        return type(self)(self.n_htm + 1, self.n_preferences,
+        return type(self)(self.n_htm, self.n_preferences,
                           self.n_body_features, self.n_objects, s=self.s)
 
 
-- 
2.43.0


From a44c442e09d28f52da6bc7a4accd68522696f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 06/25] fix: index with a tuple to select a preference axis

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 96035a3..444c4fd 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -209,7 +209,7 @@ class _SupportivePOMDPState(object):
         def sum_all_but(arr, axis):
             iii = [slice(None) for _ in arr.shape]
             iii[axis] = -1
-            return arr[iii].sum()
+            return arr[tuple(iii)].sum()
 
         return [sum_all_but(pp, i) for i, _ in enumerate(pp.shape)]
 
-- 
2.43.0


From fa966930c9eb2613b8892b07c70e351ce40d45bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 07/25] fix: ignore self loops when searching cliques

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 49e8b4e..944a7c4 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -318,7 +318,7 @@ class ConjugateTaskGraph(BaseGraph):
         unique = set((s, d) for (s, _, d) in self.all_transitions())
         symmetric = {n: set() for n in self.all_nodes()}
         for s, d in unique:
-            if (d, s) in unique:
+            if s != d and (d, s) in unique:
                 symmetric[s].add(d)
                 symmetric[d].add(s)
         return max_cliques(symmetric)
-- 
2.43.0


From 08fabc44072cd398810507cc9ab076f50117015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 08/25] fix: chain search does not explore nodes again

---
 task_models/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 944a7c4..9ee170d 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -302,7 +302,8 @@ class ConjugateTaskGraph(BaseGraph):
                         done = True
                         explore_successors(next_node)
                 else:
-                    to_explore.add(next_node)
+                    if next_node not in explored:
+                        to_explore.add(next_node)
                     done = True
                 if done:
                     if len(chain) > 1:
-- 
2.43.0


From 33f47f8759216edb1bfee641f2606b5c459e02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 09/25] fix: compare N-dimensional states by value

---
 task_models/state.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/task_models/state.py b/task_models/state.py
index af9bb40..6296c51 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -34,6 +34,12 @@ class NDimensionalState(State):
     def __hash__(self):
         return hash(self.features.tostring())
 
+    def __eq__(self, other):
+        return (isinstance(other, NDimensionalState) and
+                self.features.dtype == other.features.dtype and
+                self.features.shape == other.features.shape and
+                self.features.tostring() == other.features.tostring())
+
     @property
     def n_dim(self):
         return len(self.features)
-- 
2.43.0


From d96fc2eb8d445c61ead54818baaefb15e8834550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 10/25] fix: conjugate task graphs whose initial state has no
 transition

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 9ee170d..e71d893 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -241,7 +241,7 @@ class ConjugateTaskGraph(BaseGraph):
         tg.check_only_deterministic_transitions()
         # Add transitions of the form: initial --(s_init)--> a
         for s in tg.initial:
-            for (a, _) in tg.transitions[s]:
+            for (a, _) in tg.transitions.get(s, ()):
                 ctg.add_transition(ctg.initial, s, a)
         for outgoings in tg.transitions.values():  # Whatever origin state
             for (a, next_state) in outgoings:
-- 
2.43.0


From 3a20cb5ff01a6a6459aca7ef0378f6d42cbb4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 11/25] fix: hash of a board state does not depend on the order
 of its parts

---
 task_models/snap_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/snap_circuit.py b/task_models/snap_circuit.py
index 3b120c6..88ce6e4 100644
--- a/task_models/snap_circuit.py
+++ b/task_models/snap_circuit.py
@@ -48,7 +48,7 @@ class SnapCircuitState(State):
         self._parts = set(parts)
 
     def __hash__(self):
-        return hash((self._shape, tuple(self.parts)))
+        return hash((self._shape, frozenset(self.parts)))
 
     def __eq__(self, other):
         return (isinstance(other, SnapCircuitState) and
-- 
2.43.0


From bb8adebab27b752605da62906698ef332d76f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 12/25] fix: compare conditioned actions with any action

---
 task_models/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 40e3fd2..819b33c 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -86,7 +86,7 @@ class PrePostConditionAction(Action):
         return hash((self.pre, self.post))
 
     def __eq__(self, other):
-        return (isinstance(other, Action) and
+        return (isinstance(other, PrePostConditionAction) and
                 self.pre == other.pre and
                 self.post == other.post)
 
-- 
2.43.0


From 5d7b06551483836fcda610e1b0d145652e7aca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 13/25] fix: one trajectory tree per start state

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 338e83d..daf7d5f 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -505,7 +505,7 @@ class GraphPolicyBeliefRunner(GraphPolicyRunner):
     def trajectory_trees_from_starts(self, horizon=5):
         start = self.pomdp.start
         trees = []
-        for s in start.nonzero():
+        for s in start.nonzero()[0]:
             b = np.zeros(start.shape)
             b[s] = 1.
             self.reset(belief=b)
-- 
2.43.0


From 21765b1c76dc72a630f6bd3767f72e42c9c393e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 14/25] fix: copied actions keep their class and attributes

---
 task_models/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index e71d893..cdd05df 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -25,6 +25,7 @@ combination.
 """
 
 import numpy as np
+from copy import copy
 from itertools import permutations
 from .state import State
 from .action import Action
@@ -227,7 +228,9 @@ class AbstractAction(Action):
         return True
 
     def copy(self, rename_format='{}'):
-        return AbstractAction(rename_format.format(self.name))
+        action = copy(self)
+        action.name = rename_format.format(self.name)
+        return action
 
 
 class ConjugateTaskGraph(BaseGraph):
-- 
2.43.0


From c020eb286633fb8d000b3c98c875568dfdf02a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 15/25] fix: copied horizon remembers that a final state was
 reached

---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index b34228f..8902d00 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -31,7 +31,9 @@ class FinishedOrNTransitionsHorizon(NTransitionsHorizon):
         self._is_final = self.model._int_to_state(new_s).is_final()
 
     def copy(self):
-        return FinishedOrNTransitionsHorizon(self.model, self.n)
+        horizon = FinishedOrNTransitionsHorizon(self.model, self.n)
+        horizon._is_final = self._is_final
+        return horizon
 
     @classmethod
     def generator(cls, model, n=100):
-- 
2.43.0


From 95eaa13316ca5518037fb595465554e647810746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 16/25] fix: discount evaluation rewards in chronological order

---
 task_models/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index 8902d00..4dea1ce 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -81,7 +81,7 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
         horizon.decrement(a, h_s[-1], s, o)
         pol.step(model.observations[o])
         h_s.append(s)
-        full_return = r + gamma * full_return
+        full_return += gamma ** (len(h_r) - 1) * r
     elapsed = get_process_elapsed_time()
     n_calls = model.n_simulator_calls - init_calls
     if logger is not None:
-- 
2.43.0


From 20cc4958341b2a53cb4631f2102527fe9ce31655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 17/25] fix: check that policy graph transitions lead to
 existing nodes

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index daf7d5f..5bd9e53 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -372,7 +372,7 @@ class POMDP:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
         assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(max([t for ts in pg for t in ts if t is not None]) <= len(pg))
+        assert(all([t < len(pg) for ts in pg for t in ts if t is not None]))
         # (transitions are well-formed)
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
-- 
2.43.0


From 37397983ff898ded37faffff9a7b8559df222bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 18/25] fix: skip blank lines of policy graph files

---
 task_models/lib/pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 5bd9e53..089f7f9 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -44,13 +44,13 @@ def parse_value_function(reader):
 def parse_policy_graph(reader):
     actions = []
     transitions = []
-    for i, line in enumerate(reader):
+    for line in reader:
         line = line.rstrip('\n').rstrip()
-        if not line.isspace():
+        if line:
             # 'N A  Z1 Z2 Z3'.split(' ') -> ['N', 'A', '', 'Z1', 'Z2', 'Z3']
             l = line.split(' ')
             n = int(l[0])  # Node name
-            assert(n == i)
+            assert(n == len(actions))
             actions.append(int(l[1]))
             transitions.append([None if x == '-' else int(x) for x in l[3:]])
     return actions, transitions
-- 
2.43.0


From 97fc11cf5158c7d1487ff3ffe60616ae1be6f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:37 +0000
Subject: [PATCH 19/25] fix: convert meta actions to combinations of the
 matching kind

---
 task_models/task.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index cdd05df..4ecded1 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -336,6 +336,10 @@ class MetaAction(AbstractAction):
            'parallel': '||',
            'alternative': '∨',
            }
+    COMBINATION = {'sequence': 'Sequential',
+                   'parallel': 'Parallel',
+                   'alternative': 'Alternative',
+                   }
 
     def __init__(self, kind, actions):
         super(MetaAction, self).__init__(self._name(kind, actions))
@@ -362,7 +366,7 @@ class MetaAction(AbstractAction):
         children = [
             a.to_combination() if isinstance(a, MetaAction) else LeafCombination(a)
             for a in self.actions]
-        return COMBINATION_CLASSES[self.kind](children)
+        return COMBINATION_CLASSES[self.COMBINATION[self.kind]](children)
 
     @classmethod
     def _name(cls, kind, actions):
-- 
2.43.0


From 70903b00cb441afd61e3e0061dc59539b406f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:38 +0000
Subject: [PATCH 20/25] fix: equal conditions have equal hashes whatever the
 type of their arrays

---
 task_models/action.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 819b33c..7ed3b57 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -24,7 +24,9 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        return hash((self.mask.tostring(), self.value.tostring()))
+        # equal arrays might differ in type or in the sign of zeros
+        return hash((tuple(self.mask.flatten().tolist()),
+                     tuple(self.value.flatten().tolist())))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
-- 
2.43.0


From ee72e0237addd2ff5063e950b03f2afec0b51523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:38 +0000
Subject: [PATCH 21/25] fix: equal meta actions have equal hashes also when
 their names differ

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 4ecded1..54029cf 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -352,7 +352,7 @@ class MetaAction(AbstractAction):
                 self.actions == other.actions)
 
     def __hash__(self):
-        return hash(self.name)
+        return hash((self.kind, tuple(self.actions)))
         # Needs to re-implement __hash__ despite inheritence (see following
         # from datamodels doc).
         # A class that overrides __eq__() and does not define __hash__() will
-- 
2.43.0


From 629bc6e1c9952462969f9a7c8d3f03002484c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:22 +0000
Subject: [PATCH 22/25] fix: chain search on a graph without initial transition

---
 task_models/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/task_models/task.py b/task_models/task.py
index 54029cf..76c5a96 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -273,6 +273,7 @@ class ConjugateTaskGraph(BaseGraph):
         """
         in_degree = {}
         unique_transitions = {n: set() for n in self.all_nodes()}
+        unique_transitions.setdefault(self.initial, set())
         for (s, l, d) in self.all_transitions():
             if d not in unique_transitions[s]:
                 in_degree[d] = in_degree.get(d, 0) + 1
-- 
2.43.0


From 132511e4ee717a8323e37d08cbd5404ee4ac90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:22 +0000
Subject: [PATCH 23/25] fix: import of highlighted combinations

---
 task_models/json_to_htm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 0efbf1a..eee7b9e 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -15,8 +15,8 @@ def build_htm(node):
     parent = node['parent']
 
     # Base case, if no children than node is an action
-    if node['attributes']:
-        agent = [a for a in node['attributes'] if not a == 'highlighted']
+    agent = [a for a in node['attributes'] if not a == 'highlighted']
+    if agent:
         return LeafCombination(Action(name=name, agent=agent[0]), idx=idx, parent=parent)
 
     children = []
-- 
2.43.0


From 8671b171510401c34294ce665bcf1cce91cd6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:37 +0000
Subject: [PATCH 24/25] fix: conditions can be compared with the always true
 condition

---
 task_models/action.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/task_models/action.py b/task_models/action.py
index 7ed3b57..9be3fe7 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -30,6 +30,7 @@ class Condition(object):
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
+                not isinstance(other, MatchAllCondition) and
                 np.array_equal(self.mask, other.mask) and
                 np.array_equal(self.value, other.value))
 
-- 
2.43.0


From df1fb5dc01f0effeb45c77cbcc5deba764495c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:24:05 +0000
Subject: [PATCH 25/25] fix: chain search ends when a transition leads back to
 the initial node

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 76c5a96..8f87187 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -271,7 +271,7 @@ class ConjugateTaskGraph(BaseGraph):
 
         :returns: iterator over chains (as lists)
         """
-        in_degree = {}
+        in_degree = {self.initial: 1}  # preceded by the start of the task
         unique_transitions = {n: set() for n in self.all_nodes()}
         unique_transitions.setdefault(self.initial, set())
         for (s, l, d) in self.all_transitions():
-- 
2.43.0

