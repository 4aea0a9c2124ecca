#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list, in readable form)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": hook}})


IC = "alipy/index/index_collections.py"
ML = "alipy/index/multi_label_tools.py"
SIO = "alipy/experiment/state_io.py"
ST = "alipy/experiment/state.py"
STOP = "alipy/experiment/stopping_criteria.py"
EXP = "alipy/experiment/al_experiment.py"
ANA = "alipy/experiment/experiment_analyser.py"
THR = "alipy/utils/multi_thread.py"
ORA = "alipy/oracle/oracle.py"
REP = "alipy/oracle/knowledge_repository.py"
SPL = "alipy/data_manipulate/al_split.py"
PRE = "alipy/data_manipulate/datapreprocess.py"
TB = "alipy/toolbox.py"
QL = "alipy/query_strategy/query_labels.py"
QM = "alipy/query_strategy/multi_label.py"
QF = "alipy/query_strategy/query_features.py"
QC = "alipy/query_strategy/cost_sensitive.py"
QN = "alipy/query_strategy/noisy_oracles.py"
QT = "alipy/query_strategy/query_type.py"
MET = "alipy/metrics/performance.py"
MISC = "alipy/utils/misc.py"

p("C01", "An instance index container behaves as a duplicate-free set under any history",
  """After any sequence of additions, removals, batch updates and pops, an index container holds exactly
  the indexes a plain mathematical set would hold after the same sequence, each once, in a deterministic order,
  and its length, membership test, iteration, subscripting and list form all agree.
  Adding a present index or removing an absent one leaves the container unchanged, a rejected
  element is never stored, and no operation changes the argument it was given or a copy taken earlier.""",
  ["histories", "inputs"],
  "every operation sequence up to a depth over a small alphabet of indexes, every argument container type and scalar type, aliasing of a container with itself included",
  "The test performs one fixed sequence on one collection; the property quantifies over histories of operations and over argument types.",
  [IC], [("members", "ordered duplicate-free list of indexes", IC + " IndexCollection._innercontainer")],
  [("membership check before every insert and remove", IC + " IndexCollection.add/discard/update/difference_update")],
  ["len, in, iteration, [], .index, argument objects after the call"])

p("C02", "Instance-label and feature index containers behave as bounded sets of pairs",
  """After any sequence of additions, removals and batch updates given as (instance, label) pairs, whole-instance
  one-tuples or (instance, several labels) tuples, the container holds exactly the set of (instance, label) pairs denoted, each once.
  A pair whose label is outside the declared label count is never stored, and the derived views
  (instances present, fully covered instances, partly covered instances and their labels) are those of that set.""",
  ["histories", "inputs"],
  "every operation sequence up to a depth over a small instance x label grid, all spellings of an index, instance-label and instance-feature containers",
  "The tests touch a handful of fixed pairs; broken expansion, bounds checks or views only show for particular histories and index spellings.",
  [IC, ML], [("pairs", "set of (instance,label) pairs and declared label count", IC + " MultiLabelIndexCollection")],
  [("flattening of index spellings", ML + " flattern_multilabel_index"), ("bounds check", IC + " MultiLabelIndexCollection.add")],
  ["len, in, iteration, get_instance_index, get_unbroken_instances, get_break_instances, get_cond_instance"])

p("C03", "All spellings of a multi-label index set denote the same entries",
  """Converting a set of (instance, label) entries to a 1-d array of flat positions (row- or column-major), a dense or sparse mask,
  or a list of tuples and back yields exactly the same set of entries, and combining, flattening or re-mapping
  a set neither loses nor invents an entry. Extracting the data, labels or masked label matrix for such a set returns precisely the rows
  and entries it denotes and no other ground-truth entry.""",
  ["inputs"],
  "every subset of a small instance x label grid (every boolean mask of the given shapes), both memory orders, every conversion path",
  "The tests convert one or two fixed sets; a wrong stride, order or corner entry is invisible unless the particular subset and shape is used.",
  [IC, ML], [], [("flat index arithmetic", IC + " construct_by_1d_array / get_onedim_index"), ("masks", IC + " get_matrix_mask / construct_by_element_mask"),
                 ("integration", ML + " integrate_multilabel_index / get_Xy_in_multilabel / get_labelmatrix_in_multilabel")],
  ["returned containers, arrays and masks"])

p("C04", "A recorded query history can be replayed to any earlier point exactly",
  """For any history of recorded queries, the working sets reconstructed for iteration k equal the initial labelled/unlabelled sets with exactly the first
  k queries applied, and going back to k leaves a history that behaves in every respect (working sets, later recording, query count, labelling cost, batch size)
  as if the later queries had never been recorded. Recorded states never change when the caller later modifies
  the objects it passed in, and saving and loading the history yields an equivalent history.""",
  ["histories"],
  "every sequence of record / pop / go-back / inspect / save-load operations up to a depth, batch sizes, costs present or absent, instance and multi-label index sets",
  "The tests use one linear history and one recovery; drift between the recorded states and cached totals needs a go-back followed by further operations.",
  [SIO, ST], [("recorded states", "ordered list of queries", SIO + " StateIO"), ("cached totals", "query count and cost used for stopping and analysis", SIO)],
  [("replay from initial sets", SIO + " get_workspace/recover_workspace"), ("deep copies", SIO + " add_state")],
  ["get_workspace, recover_workspace, get_current_performance, len, cost and query totals, refresh_info"])

p("C05", "A crash while saving progress never destroys the previously saved progress",
  """If the process dies at any point during a save of an experiment history, parallel-run state, toolbox settings or oracle,
  the file at that path still loads as either the complete previous save or the complete new one.
  A save that returned is found complete by the next load, and a save that fails with an error leaves the previous file loadable.""",
  ["crash_points", "fault_sequences"],
  "every prefix of the file-system effects of a save (including every torn write length) and every effect failing with an I/O error, for a first save and for an overwrite",
  "Tests only save and load without interruption; the property quantifies over every crash and fault point inside the save.",
  [SIO, THR, TB, ORA], [("checkpoint file", "pickle at saving_path", SIO + " save; " + THR + " save; " + TB + " save; " + ORA + " save_oracle")],
  [("write to target", SIO + " StateIO.save")], ["contents of the saving directory at the crash point, load()"])

p("C06", "The parallel fold runner executes every round exactly once under any schedule",
  """For every interleaving of the worker threads, running k rounds calls the user's function once per round with that round's own
  index, split and private copies of the labelled and unlabelled sets, and returns only when every round has ended.
  At no time are more rounds in progress than the requested number of threads, every round's recorded history is saved completely under its own name,
  and the collected results are the same as those of running the rounds one after another.""",
  ["schedules", "configurations"],
  "all interleavings of thread start, user steps, progress saves and completion up to a preemption bound, for several round counts and thread limits, with a user function that may raise in one round",
  "The test scripts run real threads once and assert nothing; which interleaving happens is up to the operating system.",
  [THR], [("per-round status", "which rounds are running or finished", THR + " aceThreading")],
  [("start loop with thread limit", THR + " start_all_threads"), ("per-round StateIO", THR)],
  ["calls of the user function, saved files, get_results"])

p("C07", "A parallel run killed at any point resumes without losing or repeating work",
  """If a parallel run is killed at any point and recovered from what it had saved, then after the recovery finishes every round's
  history is complete, with each of its queries recorded exactly once. Rounds whose completion had been recorded are not run again, unfinished rounds resume
  from their last saved query, and leftovers of earlier runs or empty progress files never count as finished rounds.""",
  ["crash_points", "schedules", "histories"],
  "every crash point between and inside the saves of a parallel run, under every interleaving within the bound, followed by recovery (and a second crash)",
  "The existing recovery script recovers from one file state; the property quantifies over crash points and schedules.",
  [THR, SIO], [("status table in the saved runner", "alive flags per round", THR + " aceThreading.__getstate__"), ("AL_result files", "one saved history per round", THR)],
  [("recover", THR + " aceThreading.recover/__update_thread_state")], ["files in the saving directory, user function calls after recovery, get_results"])

p("C08", "A packaged experiment gives the same result concurrently and sequentially",
  """For deterministic models and strategies, running an experiment with its folds in parallel yields, under every interleaving, the same per-fold query sequences and
  performance values as running them one at a time, and repeating a run reproduces it.
  The folds share no mutable model, strategy or index state, and one fold's progress never depends on another's.""",
  ["schedules", "configurations"],
  "all interleavings of the folds' model fitting, prediction, selection and recording steps up to a preemption bound",
  "The only parallel experiment test is a script with no assertion and one arbitrary schedule.",
  [EXP, THR], [("model", "the learner given to the experiment", EXP + " AlExperiment._model")], [("run loop per fold", EXP + " start_query/_al_main_loop")],
  ["get_experiment_result"])

p("C09", "Every active-learning run keeps a partition and stops exactly when told to",
  """During every fold of a packaged experiment the labelled and unlabelled sets stay disjoint and together equal the fold's training set, each unlabelled
  item is queried at most once, every query takes the requested batch (or what is left), and the recorded history reproduces the sets.
  The recorded initial and per-query performance is that of the model trained on exactly the labelled set at that time and evaluated on the fold's test set,
  and the run ends at the first point where its stopping condition holds.""",
  ["histories", "configurations"],
  "every combination of strategy, metric, stopping rule and threshold, batch size and split in a small configuration space, every fold checked step by step",
  "The experiment usage test is one configuration with no assertion on the recorded history.",
  [EXP, SIO, STOP], [("label/unlabel sets per fold", "the fold's current partition", EXP + " _al_main_loop")], [("query-update-record loop", EXP + " _al_main_loop")],
  ["StateIO of every fold, model training calls"])

p("C10", "A stopping rule fires exactly at the first state satisfying it",
  """For each kind of rule (unlabelled pool exhausted, number of queries, fraction of the initial unlabelled pool queried, total cost, time limit) the stop signal is false in
  every state before the condition holds and true in the first state in which it holds and afterwards.
  Inspecting the signal, resetting and reusing the rule for another fold, or going back in the history behaves as with a fresh rule given the current history.""",
  ["histories", "configurations"],
  "every history of recorded queries (batch sizes, costs, pops) up to a depth, every threshold, every sequence of clock readings over a small grid, reuse after reset",
  "The tests evaluate each rule on one history; off-by-one thresholds and stale counters show only on other histories.",
  [STOP, SIO], [("progress counters", "queries, cost, pool size, start time", STOP + " StoppingCriteria")], [("update and comparison", STOP + " update_information/is_stop")],
  ["is_stop"])

p("C11", "An oracle returns exactly the stored label and cost of each queried item",
  """For every query, by index or by example, an oracle returns the stored labels and costs of exactly the requested items in request order (for multi-label oracles: of the
  requested label entries), and asking for an unknown item is an error, not a wrong answer. Knowledge added to an oracle is returned by later queries and changes no other answer,
  and querying never changes what the oracle knows.""",
  ["inputs", "histories"],
  "every sequence of add-knowledge and query operations up to a depth over a small item alphabet, with and without costs and examples, scalar and list arguments of every accepted type",
  "The tests make a few fixed queries to each oracle type.",
  [ORA], [("entries", "map from index or example to (label, cost)", ORA + " Oracle")], [("lookup", ORA + " _get_entry_by_key/query_by_index/query_by_example")],
  ["return values, exceptions"])

p("C12", "A committee of oracles answers from the oracle asked and keeps exact books",
  """A container of several oracles returns, for each query to one, several or all of them, exactly what each addressed oracle would answer on its own, in order,
  and the recorded history and total cost equal the queries actually made. Aggregating redundant answers by majority vote returns a label with the greatest (weighted) number of votes
  for each queried item.""",
  ["inputs", "histories"],
  "every container of up to three oracles, every query sequence up to a depth, every vote matrix over a small label alphabet",
  "The tests query one container a few times and never compare vote results on enumerated vote matrices.",
  [ORA, QN], [("oracle table", "named oracles and query history", ORA + " Oracles")], [("dispatch and history", ORA + " Oracles.query_from/query_from_s"), ("majority vote", QN + " majority_vote/get_majority_vote")],
  ["return values, history, cost totals"])

p("C13", "A knowledge repository faithfully maps each item to its label, cost and example",
  """After any sequence of adding, re-adding, discarding, batch updating and clearing, a repository returns for each item exactly the label, cost and example last stored for it, whether looked up by
  index or by example, and its training set contains each stored item once. A rejected operation leaves the repository unchanged, and looking up
  an absent item is reported as such rather than answered with another item's knowledge.""",
  ["histories", "inputs"],
  "every operation sequence up to a depth over a small item alphabet for both repository kinds, with and without examples and costs, every index type",
  "The tests follow one sequence per repository class; stale example mappings, duplicates and torn updates need other orders.",
  [REP], [("stored knowledge", "labels, costs, indexes, examples", REP)], [("add/discard bookkeeping", REP + " ElementRepository/MatrixRepository")],
  ["get_training_data, retrieve_by_indexes, retrieve_by_examples, __contains__, len"])

p("C14", "Every generated split is a correct partition with the requested proportions",
  """For every outcome of the random shuffle, each fold's training and test sets are disjoint and together are exactly the given instances, labelled and unlabelled sets partition the training
  set, and their sizes are those implied by the requested rates. When all classes are requested in the initial set, each class (or label) present in the
  training data has an initially labelled instance, and multi-label and partially-observed-feature splits obey the same rules at the level of instance-label or instance-feature entries.""",
  ["inputs", "configurations"],
  "every permutation the random source can return for small instance counts, every rate pair on a grid, every label vector over a small alphabet, named instance indexes, all split kinds",
  "The tests draw one random split of one data set; rare shuffles (class missing from the labelled part, retry paths) are not drawn.",
  [SPL], [], [("shuffle, cut and retry", SPL + " split/split_multi_label/split_features")], ["returned index lists"])

p("C15", "Saved splits and toolbox objects come back unchanged and consistent",
  """Splits written to disk load back as the same splits (values, order, nesting and multi-label structure), and a toolbox restored from its settings file serves the same data, splits and objects.
  Everything a toolbox hands out (splits, index containers, oracles, repositories, histories, metrics, query strategies) reflects the data and
  settings it was created with, for every query type, and handing it out never lets a caller alter the toolbox's own data or splits.""",
  ["configurations", "histories"],
  "every query type, split count and split shape in a small configuration space, save/load sequences, mutation of handed-out objects",
  "Tests exercise one configuration per feature; loss of shape or dimension appears only for single-fold, multi-label or feature settings.",
  [TB, SPL], [("settings", "data, splits and query type", TB + " ToolBox")], [("split_save/split_load", SPL), ("getters", TB)],
  ["returned splits and objects"])

p("C16", "An instance query strategy always returns a valid batch",
  """For every partition of the data into labelled and unlabelled sets, every batch size and every accepted index container, each instance query strategy returns exactly
  min(batch, pool size) distinct indexes (QUIRE, documented as selecting one instance at a time, exactly one), all members of the unlabelled set it was given. It changes none of its arguments (index sets, data, labels, prediction
  matrices), and answers the same for the same sets given as list, array or index container.""",
  ["inputs", "configurations"],
  "every labelled/unlabelled partition of a small pool, every batch size from 1 to beyond the pool, list / array / container arguments, unsorted and gapped indexes, every offline strategy and option",
  "Strategy tests are smoke scripts (and partly not run); none enumerates partitions, batch sizes or container types.",
  [QL, "alipy/query_strategy/base.py"], [], [("select", QL + " QueryInstance*.select")], ["return value and arguments of select"])

p("C17", "Score-based strategies select the items their published criterion ranks best",
  """For every prediction matrix, uncertainty sampling (least confident, margin, entropy, distance to boundary), query by committee (vote entropy, KL divergence), expected error reduction, density-weighted, graph-density,
  core-set, LAL and (single- and multi-label) QUIRE selection return a batch whose criterion values, computed from the published definition, are the best available in the unlabelled pool,
  each score attributed to the right item. The same holds when predictions come from a model or are passed in.""",
  ["inputs"],
  "every prediction matrix over a grid of probability rows (ties, zeros and ones included), every batch size, every committee vote pattern, every small point set",
  "Existing tests only check that select runs on one data set; a criterion with a sign, axis or index-mapping error still returns plausible indexes.",
  [QL], [], [("score then take best", QL + " select_by_prediction_mat / QueryInstanceQBC.calc_*"), ("best-n helper", MISC + " nlargestarg/nsmallestarg")], ["return value of select*"])

p("C18", "Multi-label and feature query strategies only pick entries not yet known",
  """For every set of known entries, each multi-label, feature-acquisition and query-type strategy returns a valid request of the requested size consisting of distinct entries (or instances) from the
  unknown set it was given, in the form its setting requires. It changes none of its arguments, and the feature values (known labels) it uses are only the observed ones,
  so that changing an unobserved value does not change the choice.""",
  ["inputs", "configurations"],
  "every known/unknown division of a small instance x label or feature grid, batch sizes, index spellings, every random outcome for random strategies",
  "The scripts for these strategies run one random setting and assert nothing.",
  [QM, QF, QT], [], [("select", QM + ", " + QF + ", " + QT)], ["return value and arguments of select"])

p("C19", "Cost-sensitive selection maximises value within the budget",
  """For all item values and costs, the selected label entries are all selectable, cost in total no more than the budget, and have the greatest total value among all affordable choices, both for
  batch sizes given as a number of entries and for budgets. In label hierarchies, learning that a label is positive (negative) marks exactly its ancestors (descendants) as well, and already-known
  entries are never bought again.""",
  ["inputs"],
  "every value and integer-cost vector over a small grid, every budget, every label tree up to a size and every known-entry set",
  "The script runs one random hierarchy; optimality and closure quantify over all weights and trees.",
  [QC], [], [("knapsack", QC + " hierarchical_multilabel_mark / select_POSS / knapsack_01")], ["return values"])

p("C20", "Noisy-oracle strategies ask valid oracles about valid items at the stated price",
  """For every history of answers from imperfect oracles, the item chosen is in the unlabelled set, every chosen oracle belongs to the given committee, and the oracle subset is the one the strategy's published
  rule yields from the recorded answers (cost-effective choice, estimation interval or all oracles). Aggregated answers and their reported cost are those
  of the oracles actually asked.""",
  ["histories", "inputs"],
  "every answer pattern of up to three oracles over a small pool for several rounds, cost vectors on a grid",
  "The script for noisy oracles is not even among the tests that run; it samples one random noise pattern.",
  [QN], [("per-oracle reward/quality estimates", "updated after every round", QN + " QueryNoisyOracles*")], [("select", QN)], ["return values of select / select_by_prediction_mat"])

p("C21", "Classification and regression scores equal their definitions",
  """For every ground truth and prediction, accuracy, zero-one loss, F1, precision, recall, ROC curve and AUC, Hamming loss, one-error, coverage, label ranking loss, average precision and micro-AUC
  equal the value given by their textbook definition, and normalisation, averaging, positive-label and sample-weight options have their documented effect.
  Inputs of mismatched size or kind are rejected, and the arguments are not changed.""",
  ["inputs"],
  "every label vector / label matrix and prediction over small alphabets and sizes, ties included, all options",
  "Tests compare each metric on one or two fixed arrays.",
  [MET], [], [("metric formulas", MET)], ["return values"])

p("C22", "Analysis reports exactly the performance, cost and counts that were recorded",
  """For every set of recorded histories, the extracted curves contain the recorded values at the recorded positions (including the initial point), and means, deviations, totals and the query
  progress table equal those computed directly from the histories, for query-count and for cost axes and for several methods and folds.
  The order in which methods are added does not change any method's numbers, and the paired t-test rejects exactly when its p-value is at most alpha.""",
  ["histories", "configurations"],
  "every small family of histories (folds x queries x batch sizes x costs x performance values), every method registration order",
  "The tests feed one fixed set of folds and check little beyond absence of errors.",
  [ANA, SIO], [("method data", "per-method extracted results", ANA)], [("extraction and summary", ANA + " StateIOContainer / *Analyser")],
  ["container extraction, get_method_data, summaries, plotted line data"])

p("C23", "Scaling and selection helpers meet their contracts on every input",
  """Min-max scaling maps every column affinely so that its smallest value goes to the lower and its largest to the upper bound, standardisation follows its documented formula, with constant columns never producing NaN or infinity,
  best-n helpers return the positions of the n largest (smallest) values, random permutations are permutations or samples without repetition of the stated range,
  kernel matrices hold the values of the chosen kernel, and the argument checkers accept exactly one-to-one sized arguments.""",
  ["inputs"],
  "every small matrix / vector over a small value alphabet with ties, every n, every outcome of the random source",
  "No test enumerates ties, constant columns or boundary sizes.",
  [PRE, MISC], [], [("helpers", MISC + ", " + PRE)], ["return values"])

p("C24", "Multi-label and feature strategies choose what their criterion ranks best",
  """For every known/unknown division and every prediction table, AUDI, AURO, MMC, adaptive active learning, AFASMC and stability-based feature acquisition choose an instance, label, pair of labels or feature whose
  score, recomputed from the publication, is the best among the unknown entries, with labels coded as 0/1 or as -1/1 alike. A model that is still to be trained is trained from exactly the known entries,
  the label ranking model predicts by its best sub-model and restarts from its initial parameters unless told otherwise, and matrix completion keeps observed entries,
  ignores what is stored in unobserved ones and solves its stated problem.""",
  ["inputs", "histories"],
  "every prediction table and known/unknown division on small grids, every label matrix of the labelled instances, every mask of small matrices, every short fit sequence and selection history",
  "The scripts for these strategies run one random setting and assert nothing about what is chosen.",
  [QM, QF, QT], [("label ranking model", "initial and current parameters", QM + " LabelRankingModel")],
  [("criteria", QM + " select, " + QT + " select, " + QF + " select"), ("completion", QF + " AFASMC_mask_mc, IterativeSVD_mc")], ["return values of select / impute / predict"])

p("C25", "BMDR and SPAL pose the published programmes and query by their solution",
  """Every quadratic programme BMDR and SPAL hand to their solver is the published one: the distance between the means of labelled plus queried and remaining instances under the chosen kernel, plus the (easiness-weighted)
  worst-case loss of the current model, over the unit box with the batch-size equation. The batch is made of the instances with the largest weights (times easiness), the search stops at two equal batches,
  failed programmes are relaxed, and every answer gives a batch of the requested size of distinct unlabelled instances. Labels of any two-class coding give the same choice, and SPAL's lambda grows by lambda_pace with every query.""",
  ["inputs", "fault_sequences"],
  "every labelled set and pool of up to six instances with every label vector, kernels, parameters and codings, and every answer of the solver over a grid (optimal, infeasible, rejected)",
  "cvxpy is not installed, so no test runs these strategies at all.",
  [QL], [("lambda", "self-paced threshold", QL + " QueryInstanceSPAL._lambda")], [("programme, model update, choice", QL + " QueryInstanceBMDR.select, QueryInstanceSPAL.select")], ["programmes given to the solver, return value of select"])

p("C26", "Random selections and splits give every possible result the same chance",
  """Given a fair random source, every random choice the package makes is fair: a random query strategy (instances, instance-label pairs, whole instances, features, unit-cost purchases) returns each possible batch of
  the pool with the same probability, whatever the container or batch size, and independently from one call to the next; a randomly asked oracle is each member of the committee equally often; sampling a collection
  and randperm draw every subset and order equally; every split (labels, multi-label, features; plain, ToolBox, AlExperiment) is each admissible test set and labelled set equally often - also when draws that miss a
  class are rejected - and the folds are independent of each other.""",
  ["inputs"],
  "every path of the random source for every pool of up to five candidates, every batch size, every label vector of up to five instances, several folds and consecutive calls, rejected draws up to a bound",
  "A test draws a few samples; an item that can never be drawn, or a retry that favours some splits, looks like any other sample.",
  ["alipy/utils/misc.py", "alipy/data_manipulate/al_split.py", "alipy/query_strategy/query_labels.py", "alipy/query_strategy/multi_label.py", "alipy/query_strategy/query_features.py",
   "alipy/query_strategy/cost_sensitive.py", "alipy/query_strategy/noisy_oracles.py", "alipy/oracle/oracle.py", "alipy/index/index_collections.py"],
  [("random source", "state of numpy.random and random", "process wide")],
  [("random permutation", "alipy/utils/misc.py randperm"), ("rejection of draws", "alipy/data_manipulate/al_split.py split, __split_data_matrix")], ["distribution of the returned batches, oracles and splits"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
