"""Writes /verif/properties.jsonl (kept as a script so the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
T = "task_models/"
p("C01", "Belief update is exact Bayesian filtering",
  "For every model, belief, action and observation, updating a belief yields the posterior: for each state, the probability of arriving there under the action times the likelihood of the observation, divided by the total probability of the observation; the result is again a probability distribution and neither the belief nor the model is modified. The update is refused with an impossible-observation error exactly when the observation has probability zero. Array beliefs produce the same posterior as their successor.",
  ["inputs"], "all model sizes, transition/observation matrices, beliefs, actions and observations",
  "the only test compares two hand-computed 3-state updates, and it cannot even run here (no solver binary)",
  [T+"lib/pomdp.py", T+"lib/belief.py"],
  [("POMDP.belief_update", T+"lib/pomdp.py"), ("ArrayBelief.successor", T+"lib/belief.py"), ("assert_normal", T+"lib/utils.py")])
p("C02", "Only well-formed POMDP models can be constructed",
  "Constructing a model succeeds only if the start, transition, observation and reward arrays have mutually consistent shapes, the start vector and every transition and observation row sum to one (within tolerance), state, action and observation names are each free of duplicates, the discount lies between 0 and 1 and the value mode is 'reward' or 'cost'; otherwise a value error is raised. The constructed model exposes exactly the given arrays and names (names default to consecutive integers), and cost coefficients are stored negated as rewards.",
  ["inputs"], "all array shapes and contents, all name lists, discounts and value modes",
  "the construction tests use one 3-state model and need the external solver to run at all",
  [T+"lib/pomdp.py", T+"lib/utils.py"],
  [("POMDP.__init__", T+"lib/pomdp.py"), ("POMDP._assert_shapes", T+"lib/pomdp.py"), ("POMDP._assert_normal", T+"lib/pomdp.py"), ("POMDP._assert_unique", T+"lib/pomdp.py"), ("assert_normal", T+"lib/utils.py")])
p("C03", "Sampling from a POMDP only produces possible outcomes",
  "A transition sampled from a state under an action ends in a state of positive transition probability, produces an observation of positive probability given the action and the end state, and returns exactly the model's reward for that action, start state, end state and observation; the model is not modified. A sampled start state has positive start probability.",
  ["inputs", "schedules"], "all models, states, actions, and all outcomes of the random draws",
  "tests sample a few transitions of one fixed model and cannot cover all random outcomes",
  [T+"lib/pomdp.py"], [("POMDP.sample_transition", T+"lib/pomdp.py"), ("POMDP.sample_start", T+"lib/pomdp.py")])
p("C04", "Saving and reloading models and policies is lossless",
  "Converting a model to its dictionary/JSON form and back gives a model with the same transition, observation, reward (sign included) and start arrays, discount, and state, action and observation names. Converting a policy graph to its dictionary/JSON form and back gives the same actions, observations, transitions, node values and initial node. The file and string variants store the same dictionary.",
  ["inputs"], "all models and policy graphs",
  "tests round-trip one model and one policy graph and the model test cannot run here",
  [T+"lib/pomdp.py"], [("POMDP.to_dict / from_dict / as_json / from_json", T+"lib/pomdp.py"), ("GraphPolicy.to_dict / from_dict / to_json / from_json", T+"lib/pomdp.py")])
p("C05", "Solver input files describe the model faithfully",
  "The text handed to the external solver declares the model's discount, reward semantics and its states, actions and observations in index order, then the start vector, one transition block and one observation block per action, and one reward block per action and start state, each holding the rows of the corresponding array slice in index order. Every number is written with five decimals and is the rounded entry, except that the largest rounded entry of a row absorbs the rounding error so that each row still adds up to its rounded sum.",
  ["inputs"], "all models and all arrays",
  "tests compare one dumped file and a few rows",
  [T+"lib/pomdp.py"], [("POMDP.dump", T+"lib/pomdp.py"), ("_dump_1d_array .. _dump_4d_array", T+"lib/pomdp.py")])
p("C06", "Solver results are parsed into the policy they describe",
  "Reading a value-function file yields, in order, one action and one vector for each action/vector pair of lines, ignoring blank lines, and fails if a final action has no vector. Reading a policy-graph file yields, for each node line in order, its action and its transition per observation (with '-' meaning none), and fails if nodes are not numbered consecutively. A policy is assembled from both files only if they agree on the actions and every action and every transition target exists; its nodes then carry the corresponding action names, transitions and vectors.",
  ["inputs"], "all file contents in the solver's formats, of any length (node, action and target numbers not negative)",
  "tests parse one or two literal files",
  [T+"lib/pomdp.py"], [("parse_value_function", T+"lib/pomdp.py"), ("parse_policy_graph", T+"lib/pomdp.py"), ("POMDP.load_policy_from", T+"lib/pomdp.py")])
p("C07", "Policy graph execution follows the policy",
  "Started on a belief, a policy graph selects a node whose vector has maximal expected value for that belief; a runner reports the action of its current node and moves along the transition of the received observation, reporting an impossible observation when there is none. The belief-tracking runner always holds the Bayesian posterior of everything observed since its last reset and the node that is optimal for it. Building trajectory trees, for any horizon, starts from each possible start state taken with certainty, and building a tree from a belief leaves the runner where it was.",
  ["inputs", "histories"], "all policy graphs, models, beliefs, horizons and observation sequences",
  "tests run a handful of steps on tiny graphs",
  [T+"lib/pomdp.py"], [("GraphPolicy", T+"lib/pomdp.py"), ("GraphPolicyRunner", T+"lib/pomdp.py"), ("GraphPolicyBeliefRunner", T+"lib/pomdp.py")])
p("C08", "Hierarchical tasks become valid transition models (turn-taking)",
  "For every hierarchical task built from leaves, sequences, alternatives and parallel nodes, every option setting and all valid parameters, the generated communication model starts in a probability distribution over the first actions' initial states, and every action from every state has a probability distribution over next states. From the states of one step the process can only stay within that step or enter the initial states of a step that directly follows it in the task (or the end), and the end state is stable or, in looping mode, restarts the task.",
  ["inputs", "configurations"], "all task trees of any depth and width, all option combinations, all valid durations and probabilities",
  "tests check one leaf, one two-step sequence and one two-way alternative with default options; conversion end to end needs the solver binary and never runs",
  [T+"task_to_pomdp.py"], [("_LeafToPOMDP.update_T", T+"task_to_pomdp.py"), ("_SequenceToPOMDP.update_T", T+"task_to_pomdp.py"), ("_AlternativesToPOMDP.update_T", T+"task_to_pomdp.py"), ("HTMToPOMDP.update_T_end", T+"task_to_pomdp.py"), ("HTMToPOMDP.task_to_pomdp", T+"task_to_pomdp.py")])
p("C09", "Hierarchical tasks become valid observation and cost models",
  "For every hierarchical task and option setting, the generated communication model has, for every action and end state, a probability distribution over observations; asking for intention is answered yes exactly when the human has taken the step and no when the robot has, and (terminal states aside, which have their own observation) a physical action is error-free exactly when it ends in an initial state of a step directly following its own. Each step fills only the cost entries of its own states and the observation entries of its own actions. Costs are durations plus the intrinsic cost of every action but waiting, with the robot's own duration for its physical action once declared, a penalty of 100 for telling an intention out of place in structured mode, the subtask reward deducted when a step is left, and the end reward paid when waiting at the end.",
  ["inputs", "configurations"], "all task trees, option combinations and valid parameters",
  "tests check a leaf and a two-step sequence with default options",
  [T+"task_to_pomdp.py"], [("_LeafToPOMDP.update_O / update_R", T+"task_to_pomdp.py"), ("HTMToPOMDP.update_O_wait / update_R_end / task_to_pomdp", T+"task_to_pomdp.py")])
p("C10", "Hierarchical tasks become valid models (bring-next)",
  "For every hierarchical task and option setting, the generated bring-next model starts in a probability distribution over the first steps, and every action from every state has a probability distribution over next states and over observations. Only getting a step's own object leaves that step, and it moves to an initial state of the step that directly follows (or the end); asking about an object is answered positively exactly in states waiting for that object; getting the right object costs the get cost, getting a wrong one the error cost and asking the communication cost, apart from the end reward.",
  ["inputs", "configurations"], "all task trees of any depth and width over any object list, all option combinations",
  "tests check three tiny tasks and end-to-end conversion needs the solver binary",
  [T+"bring_next_to_pomdp.py"], [("_LeafToPOMDP", T+"bring_next_to_pomdp.py"), ("_SequenceToPOMDP", T+"bring_next_to_pomdp.py"), ("_AlternativesToPOMDP", T+"bring_next_to_pomdp.py"), ("HTMToPOMDP", T+"bring_next_to_pomdp.py")])
p("C11", "Unordered tasks expand to all orders with faithful copies",
  "Expanding an unordered (parallel) task yields an alternative with one sequence per possible order of its children, in which each sequence holds exactly one copy of every child in that order. A copy of a task tree has the same shape and combination kinds, and every copied action keeps all its attributes (durations, probabilities, object, conditions, hold requirement) except for its name, which is renamed as requested. An alternative keeps the probabilities it is given, and defaults to uniform ones.",
  ["inputs"], "all task trees and all numbers of children",
  "tests expand two- and three-child tasks and check only node kinds and counts",
  [T+"task.py", T+"task_to_pomdp.py", T+"bring_next_to_pomdp.py", T+"supportive.py"], [("ParallelCombination.to_alternative", T+"task.py"), ("deep_copy", T+"task.py"), ("AbstractAction.copy / CollaborativeAction.copy", T+"task.py")])
p("C12", "Task tree export, import and lookup are consistent",
  "Exporting a task tree to a dictionary numbers its nodes uniquely and consecutively in depth-first order starting from the root, gives every node its own name and kind, and records for each child the number of its actual parent. Importing a description builds a tree with the same nesting, kinds, names, numbers and parents, with leaves assigned to the described agent. Looking up the parent of a number finds a node that has a child of that number whenever there is one, and the next human action found is the first in depth-first order that belongs to the human and has a larger number.",
  ["inputs"], "all task trees",
  "no test covers export, import or lookup",
  [T+"task.py", T+"json_to_htm.py"], [("as_dictionary", T+"task.py"), ("HierarchicalTask.find_parent_node / find_next_human_action / find_node_by_name", T+"task.py"), ("build_htm", T+"json_to_htm.py")])
p("C13", "Supportive task graph encodes exactly the task's precedences",
  "Flattening a hierarchical task lists each elementary step of its expansion once, in depth-first order. In a sequence, the successors of every step that can end one element are exactly the steps that can start the next element; in an alternative, any branch may start and end it; steps that can end the whole task have no successors inside it. The reported initial steps are exactly those that can start the task.",
  ["inputs"], "all task trees of any depth and width",
  "tests flatten five small trees",
  [T+"supportive.py"], [("_HTMToDAG.get_initial_final", T+"supportive.py"), ("_HTMToDAG.push", T+"supportive.py"), ("unique", T+"supportive.py")])
p("C14", "Supportive state encoding is faithful",
  "For every number of task steps, preferences, body features and objects, the integer state encoding stores all features independently: writing one feature makes it readable as written and leaves every other feature unchanged, and the encoded integer stays within the declared number of states. Copies preserve every feature and the notion of final state, and quotient beliefs sum the probability of all states sharing a task step or a preference (preferences listed from the last one to the first).",
  ["inputs", "configurations"], "all feature counts, all states, all features and values",
  "tests use one layout (5 steps, 3+2+4 bits)",
  [T+"supportive.py"], [("_SupportivePOMDPState", T+"supportive.py")])
p("C15", "Supportive simulator follows the task rules",
  "For every task, action and state, and whatever the random draws, a simulated transition returns a valid state and observation index and counts one simulator call. The task position changes only by waiting or holding, only to a declared successor (or from cleaning to final by waiting), never when the outcome is a failure, and final states remain final; bringing succeeds only for an absent object and clearing only for a present one, each then changing just that object. Rewards are the stated sums of step, preference, final, holding, fetching and intrinsic terms.",
  ["inputs", "schedules"], "all task graphs, object lists, states, actions and random outcomes",
  "tests run a few fixed transitions of one task",
  [T+"supportive.py"], [("SupportivePOMDP.sample_transition", T+"supportive.py"), ("SupportivePOMDP._update_for_condition", T+"supportive.py"), ("SupportivePOMDP.sample_start", T+"supportive.py")])
p("C16", "Supportive action and object tables agree",
  "Every object named in the conditions of any step of the task appears exactly once in the object list, and is clearable exactly when some step uses it without consuming it all. The number of actions equals the length of the action name list; the action index for bringing or clearing an object names that object and that operation, and decoding an action index gives back its object.",
  ["inputs", "configurations"], "all tasks and condition lists",
  "tests check one five-object task",
  [T+"supportive.py"], [("SupportivePOMDP._populate_conditions", T+"supportive.py"), ("SupportivePOMDP._init_object_actions_indices", T+"supportive.py"), ("SupportivePOMDP.actions", T+"supportive.py")])
p("C17", "Search node values average their returns",
  "After any sequence of updates a search node counts exactly those updates; its value is zero before any update, the arithmetic mean of the returns when the recency weight is zero, and otherwise the recency-weighted recursion value' = (1-w)*(mean with the new return) + w*(new return), so it always stays between the smallest and largest return. Updating one node changes no other node.",
  ["histories", "inputs"], "all update sequences and recency weights in [0,1]",
  "tests apply two or three updates",
  [T+"lib/pomcp.py"], [("_ValueAverage", T+"lib/pomcp.py"), ("_SearchNode", T+"lib/pomcp.py")])
p("C18", "Search selects unexplored actions first, then the best upper bound",
  "Whenever some action of an observation node has never been simulated, the chosen action is one of those; otherwise it is an action maximising value plus exploration constant times sqrt(log(node visits)/action visits), where the constant is scaled by the spread of the values in relative mode and is zero for exploitation. The choice is always a valid action index and does not change the node.",
  ["inputs", "schedules"], "all numbers of actions, values, visit counts, exploration constants and random draws",
  "tests try a handful of configurations of a ten-action node",
  [T+"lib/pomcp.py"], [("_SearchObservationNode.get_best_action", T+"lib/pomcp.py"), ("_SearchObservationNode.augmented_values", T+"lib/pomcp.py"), ("_SearchObservationNode._not_init_children", T+"lib/pomcp.py")])
p("C19", "Simulations back up correctly discounted returns",
  "A simulation from a node whose horizon is not exhausted consumes horizon once per simulated transition, starting from a state sampled from the node's belief, and its return is the immediate reward plus the discounted return of the remainder; this return is recorded exactly once in the node and once in the child of the action taken, and in no other action of the node. A rollout returns the discounted sum of its rewards until the horizon is reached, averaged over the configured number of rollouts and recorded as one visit, without consuming the caller's horizon. A new observation node carries the successor of its parent's belief.",
  ["inputs", "histories", "schedules"], "all trees, models, horizons, discounts and random outcomes",
  "tests replay three scripted simulations of a fake model",
  [T+"lib/pomcp.py"], [("_SearchTree._simulate_from_node", T+"lib/pomcp.py"), ("_SearchTree.rollout_from_node", T+"lib/pomcp.py"), ("_SearchTree._one_rollout_from_node", T+"lib/pomcp.py")])
p("C20", "Planner history and position stay in step",
  "Over any sequence of action requests and observations, the planner's history grows at each observation by the action it last returned and the index of that observation, and starts empty at each reset; its tree position is the node reached by that history (created on demand with the successor belief), and observing before any action is refused. If moving to the new position fails the history and position are unchanged; a reset returns to the root.",
  ["histories", "inputs"], "all action/observation sequences, trees and models",
  "tests make one or two steps",
  [T+"lib/pomcp.py"], [("POMCPPolicyRunner.step / get_action / reset", T+"lib/pomcp.py"), ("_SearchTree.get_node", T+"lib/pomcp.py")])
p("C21", "Particle beliefs hold genuine samples",
  "A particle belief holds exactly the requested number of particles, every one of them produced by its sampler (or repeated from those when the sampler gives out); as an array it is the normalised histogram of its particles. Each particle of a successor belief is the end state of a simulated transition from a particle of the parent under the given action that produced the given observation, and at most one hundred trials per requested particle are made; if nothing at all can be sampled the failure is reported.",
  ["inputs", "schedules"], "all samplers, particle counts, models and random outcomes",
  "tests use a constant sampler and one fake model",
  [T+"lib/belief.py"], [("ParticleBelief", T+"lib/belief.py"), ("_SuccessorSampler", T+"lib/belief.py")])
p("C22", "Evaluation episodes are recorded and scored faithfully",
  "An evaluation episode records one more state than actions, observations and rewards; each recorded triple is an actual simulator transition from the recorded state under the action chosen by the policy, which is told the resulting observation. The episode stops exactly when a final state is reached or the maximum number of transitions is used, and its return is the discounted sum of its rewards in chronological order. Horizons count down once per transition (or once per change of task step), and a copied horizon behaves like the original without affecting it.",
  ["histories", "inputs"], "all policies, models, horizons and discounts",
  "no test covers evaluation; it cannot be imported by the tests here",
  [T+"evaluation.py", T+"supportive.py", T+"lib/pomcp.py"], [("simulate_one_evaluation", T+"evaluation.py"), ("FinishedOrNTransitionsHorizon", T+"evaluation.py"), ("NHTMHorizon", T+"supportive.py"), ("NTransitionsHorizon", T+"lib/pomcp.py")])
p("C23", "Scripted support policy follows its plan",
  "Whatever the sequence of accepted observations, the scripted policy first brings each tool, then for every subtask brings a leg and performs the supporting action, then clears each tool, then waits; it repeats an action that failed, advances past an action that succeeded or whose object was not found, and never performs more or fewer subtasks than the task has. Observations it cannot interpret are refused.",
  ["histories"], "all observation sequences and task sizes",
  "tests do not cover the scripted policy",
  [T+"policy.py"], [("PolicyLongSupportiveSequence.get_action / step / reset", T+"policy.py")])
p("C24", "Task graphs accept exactly the paths built from known transitions",
  "A path is valid exactly when it is empty or alternates states and actions, starting and ending with a state, with every action able to explain its transition. After adding a valid path the graph accepts it and everything it accepted before, its transitions are exactly the union of those of the added paths, and a path is accepted exactly when it is empty or starts in an initial state, ends in a terminal state and uses only known transitions; invalid paths are refused without changing the graph.",
  ["inputs", "histories"], "all paths, graphs and sequences of additions",
  "tests use paths of at most five elements",
  [T+"task.py"], [("check_path", T+"task.py"), ("split_path", T+"task.py"), ("TaskGraph.add_path / has_path", T+"task.py"), ("BaseGraph.add_transition / has_transition / remove_transition / all_transitions", T+"task.py")])
p("C25", "The conjugate graph is exactly the action-adjacency of the task graph",
  "Conjugation is refused exactly when some state has two transitions with the same action to different states. Otherwise the conjugate links the initial marker to each action leaving an initial state (labelled with it), links an action to the terminal marker for each of its transitions into a terminal state, links it to every action leaving the reached state otherwise, and contains no other transition; the task graph is unchanged.",
  ["inputs"], "all task graphs",
  "tests conjugate four small graphs",
  [T+"task.py"], [("ConjugateTaskGraph.from_task_graph", T+"task.py"), ("TaskGraph.check_only_deterministic_transitions", T+"task.py")])
p("C26", "Clique search returns every maximal clique once",
  "On any symmetric graph the clique search yields exactly the maximal cliques with at least two nodes, each of them once. On a task's conjugate graph it does so for the relation 'each can directly follow the other', whether or not some action can follow itself.",
  ["inputs"], "all finite graphs",
  "tests use two graphs",
  [T+"task.py"], [("_bron_kerbosch", T+"task.py"), ("max_cliques", T+"task.py"), ("ConjugateTaskGraph.get_max_cliques", T+"task.py")])
p("C27", "Chain search returns maximal chains once and terminates",
  "On any conjugate graph the chain search terminates, and every chain it yields has at least two distinct nodes, is a path in which each node but the last has a single successor and each node but the first a single predecessor, cannot be extended at either end, and is yielded once. The start of the task counts as a predecessor of the initial node.",
  ["inputs"], "all finite conjugate graphs, including cyclic ones",
  "tests use three small acyclic graphs",
  [T+"task.py"], [("ConjugateTaskGraph.get_max_chains", T+"task.py")])
p("C28", "Compaction redirects exactly the touched transitions",
  "Compacting a set of nodes into one node removes every transition inside the set, redirects every transition entering or leaving it to the new node with an empty label, and leaves all other transitions untouched; compacting a conjugate graph also renames the initial or terminal marker when it is in the set.",
  ["inputs"], "all graphs, node sets and new nodes",
  "tests compact three tiny sets",
  [T+"task.py"], [("BaseGraph.compact", T+"task.py"), ("ConjugateTaskGraph.compact", T+"task.py")])
p("C29", "Conditions and actions accept exactly the states they describe",
  "A condition holds in a state exactly when every unmasked feature has the required value, and is refused when it constrains a masked feature. A placing action can explain a transition exactly when the part is absent from its location before and present there after. States, parts, conditions and actions that compare equal have equal hashes, and comparing them with any other object never fails.",
  ["inputs"], "all masks, values, states, boards, parts and locations",
  "tests check a few vectors and one board",
  [T+"action.py", T+"state.py", T+"snap_circuit.py"], [("Condition.check", T+"action.py"), ("PrePostConditionAction.check", T+"action.py"), ("PlaceAction", T+"snap_circuit.py"), ("SnapCircuitState", T+"snap_circuit.py"), ("NDimensionalState", T+"state.py")])
p("C30", "Tower building orders place every part exactly once",
  "For every height and number of towers, both building orders are permutations of all parts; the vertical order completes one tower after the other from bottom to top and the horizontal order completes one level after the other, so a part is never placed before the part directly below it. The generated task offers exactly one sequence per order whose steps fetch the parts in that order.",
  ["inputs", "configurations"], "all tower heights and counts",
  "no test covers the tower problem",
  [T+"tower_problem.py"], [("TowerProblem.v_first / h_first", T+"tower_problem.py"), ("TowerProblem.sequential_combination_from_order", T+"tower_problem.py")])
p("C31", "Background exploration never corrupts the planner",
  "While a background thread keeps exploring, every action request, observation or reset by the main thread takes effect as if exploration were paused, and stopping ends the thread.",
  ["schedules"], "all interleavings of the exploring thread and the caller",
  "tests do not use the asynchronous runner",
  [T+"lib/pomcp.py"], [("AsyncPOMCPPolicyRunner", T+"lib/pomcp.py")])
p("C32", "Parallel repetition returns one result per repetition",
  "Repeating a function n times over several processes returns exactly n results, one per repetition, and raises if a worker fails.",
  ["schedules", "fault_sequences"], "all worker schedules and failures",
  "tests repeat a few trivial functions",
  [T+"utils/multiprocess.py"], [("RepeatPool", T+"utils/multiprocess.py")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for e in P:
            f.write(json.dumps(e, ensure_ascii=False) + "\n")
