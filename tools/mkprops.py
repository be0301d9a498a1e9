#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
A = "alipy/"
prop("C01", "Sample index collections behave as sets under every history",
 "A collection of sample indexes (integers, strings or other scalars) holds each index at most once after any sequence of add, update, discard, difference-update, remove, pop and copy operations, and its membership test, length, iteration and listed indexes all agree with the mathematical set that sequence defines; new elements are listed after old ones. "
 "Adding a present element or discarding an absent one warns and changes nothing, an element of another type is rejected and changes nothing, and popping from an empty collection raises. "
 "Operations never modify their arguments, copies and listed indexes are independent of the collection, and random sampling returns round(rate*size) distinct members.",
 ["histories", "inputs"], "every finite sequence of collection operations over scalar elements, batches being lists, arrays or other collections (possibly the collection itself)",
 "the tests run one fixed script of about ten operations; histories, duplicates, aliasing and numpy scalars are unbounded",
 [A+"index/index_collections.py", A+"utils/interface.py"],
 [("add/discard duplicate checks", A+"index/index_collections.py:IndexCollection.add,discard"), ("constructor de-duplication", A+"index/index_collections.py:IndexCollection.__init__")],
 [("_innercontainer", "ordered duplicate-free members", A+"index/index_collections.py")],
 ["public methods of IndexCollection"])
prop("C02", "Multi-label and feature index collections behave as sets of pairs",
 "A multi-label or feature index collection is a set of (instance, column) pairs under every sequence of constructions and updates: an index naming only an instance stands for all its columns, an index naming several columns for each of them, and adding or discarding changes exactly those pairs. "
 "A column outside the declared number of columns is rejected (alone) or ignored (inside a multi-column index of a bulk update), so no stored pair is ever out of range. "
 "Conversion to and from one-dimensional indexes (either order) and masks is lossless, and the instances listed as complete or as incomplete are exactly those with all, or only some, of their columns in the set; mapping to positions within the training set preserves the pairs.",
 ["histories", "inputs"], "every sequence of operations over pairs in any accepted spelling, every matrix shape",
 "the tests fix one 5-label example; index spellings, bounds and histories are unbounded",
 [A+"index/index_collections.py", A+"index/multi_label_tools.py"],
 [("flattening", A+"index/multi_label_tools.py:flattern_multilabel_index"), ("integration", A+"index/multi_label_tools.py:integrate_multilabel_index"), ("collection", A+"index/index_collections.py:MultiLabelIndexCollection")],
 [("_innercontainer", "set of pairs", A+"index/index_collections.py")], ["public methods of MultiLabelIndexCollection / FeatureIndexCollection", "map_whole_index_to_train"])
prop("C03", "Multi-label index tools reorganise pairs without loss or invention",
 "Flattening a list of multi-label indexes yields exactly the pairs they denote, and integrating them yields one entry per instance denoting the same pairs, with an instance whose columns are all present denoted by the instance alone. "
 "Extracting the label matrix (and the feature rows) of a set of indexes gives one row per mentioned instance, in order of first mention, in which exactly the mentioned entries carry the true value and all others the unknown marker. "
 "None of these operations modify their inputs.",
 ["inputs"], "every list of valid multi-label indexes in any spelling and every label matrix",
 "tests use two or three fixed index lists",
 [A+"index/multi_label_tools.py"],
 [("flatten/integrate", A+"index/multi_label_tools.py"), ("row reuse in label matrix", A+"index/multi_label_tools.py:get_labelmatrix_in_multilabel")], (),
 ["return values"])
prop("C04", "Every split partitions the data as requested",
 "For every dataset, ratio and split count, each returned fold's training and test sets are disjoint and together cover all instances, and its labeled and unlabeled sets are disjoint and together cover the training set (for multi-label and feature data: the training instances' pairs, with no pair of a test instance in either). The sizes follow the requested ratios up to rounding (and up to the instances added to cover all classes), and the requested number of folds is returned. When all classes are required, every fold's labeled set contains every class (multi-label: a positive example of every label; features: an entry of every feature) or the call reports that it could not. The folds are drawn independently at random, and the arguments are not changed.",
 ["inputs", "configurations"], "every dataset size, label distribution, test ratio, initial label rate, split count and query type",
 "tests check two sizes with the random outcome of one run",
 [A+"data_manipulate/al_split.py"],
 [("split", A+"data_manipulate/al_split.py:split"), ("split_multi_label", A+"data_manipulate/al_split.py:split_multi_label"), ("split_features", A+"data_manipulate/al_split.py:split_features")], (),
 ["return values of the split functions"])
prop("C05", "Saved splits load back unchanged",
 "Loading a saved split returns exactly the train, test, labeled and unlabeled indexes of every fold that were saved, whatever the number of folds and the sizes of the sets (label entries and features: of equal sizes in every fold), including names, and replaces what was saved there before. Loading from a folder that does not hold a complete split returns nothing for the missing part rather than other data.",
 ["inputs"], "every split of sample indexes, including single folds and single-element sets",
 "tests never save or load a split outside one fixed shape",
 [A+"data_manipulate/al_split.py"], [("split_load / path saving", A+"data_manipulate/al_split.py")], (), ["split(path=...)", "split_load"])
prop("C06", "Query histories replay to exact labeled and unlabeled sets",
 "After any history of recorded, popped and truncated queries, replaying it to any recorded round gives the labeled set equal to the initial labeled set plus the indexes queried up to that round, and the unlabeled set equal to the initial one minus them, with train and test sets unchanged. Looking back at an earlier round changes nothing recorded, whereas recovering to a round discards the later queries and nothing else, and popping returns exactly the query it removes; rounds out of range raise. Every recorded query keeps the labels, costs, performances and extra elements it was recorded with, whatever happens later to the objects returned or given. The number of recorded queries, the accumulated cost and the number of queried examples reported always equal those of the queries still recorded, and so do the mean and deviation of their performances and the printed summary.",
 ["histories"], "every sequence of add, pop, look-back and recover operations, single- and multi-label, any batch size",
 "tests record a handful of states and recover once",
 [A+"experiment/state_io.py", A+"experiment/state.py"],
 [("get_workspace/recover_workspace", A+"experiment/state_io.py"), ("batch and cost accounting", A+"experiment/state_io.py:__update_info,check_batch_size")],
 [("_State list", "recorded queries", A+"experiment/state_io.py"), ("initial indexes", "state before the first query", A+"experiment/state_io.py")],
 ["StateIO public methods and attributes"])
prop("C07", "A saved query history reloads identically and is safe against crashes",
 "Loading a saved history gives an object indistinguishable from the one saved: same fold, initial sets, recorded queries, cost and replay results, and it keeps accepting queries. "
 "A recorded query is a snapshot: later changes to the objects it was built from, or to values read from it, do not change the history. "
 "A crash at any point while the history is being saved leaves on disk either the previous or the new complete history.",
 ["crash_points", "histories"], "every history and every point at which the process dies while saving",
 "tests save and load a single history and never crash",
 [A+"experiment/state_io.py", A+"experiment/state.py"],
 [("pickle save/load", A+"experiment/state_io.py:save,load"), ("deep copy on construction", A+"experiment/state.py")], (), ["StateIO.save/load, files"])
prop("C08", "Stopping criteria fire exactly when their condition is met",
 "An active learning loop guarded by a stopping criterion stops at the first check at which its condition holds and never earlier: number of queries, accumulated cost, fraction of the initially unlabeled pool queried, elapsed time, or no unlabeled data left. "
 "Every criterion also stops when the unlabeled pool is empty. "
 "Resetting a criterion makes it behave as newly created.",
 ["histories", "configurations"], "every criterion, threshold, initial pool, batch sizes and cost sequence",
 "tests cover one threshold each with a fixed loop",
 [A+"experiment/stopping_criteria.py"], [("is_stop / update_information", A+"experiment/stopping_criteria.py")],
 [("_current_iter, _current_unlabel, _accum_cost", "progress counters", A+"experiment/stopping_criteria.py")], ["is_stop()"])
prop("C09", "An oracle answers with exactly its knowledge",
 "Querying an oracle by index returns, in the order asked, exactly the label and cost stored for each index (or the label entries of the asked instance-label pairs), and querying by example returns those stored for that example; unknown indexes or examples are refused. "
 "Adding knowledge extends the oracle's answers to the new indexes and examples and leaves all previous answers unchanged. "
 "Queries never change what the oracle knows.",
 ["histories", "inputs"], "every label set, cost, index form and sequence of queries and additions",
 "tests ask one oracle three questions",
 [A+"oracle/oracle.py"], [("Oracle, OracleQueryMultiLabel, OracleQueryFeatures", A+"oracle/oracle.py")],
 [("_label/_examples/_cost maps", "oracle knowledge", A+"oracle/oracle.py")], ["query_by_index, query_by_example, add_knowledge"])
prop("C10", "A crowd of oracles routes queries and accounts for them exactly",
 "A query addressed to a named oracle (or to a subset or all of them) is answered by exactly those oracles, each with its own knowledge and cost. "
 "The recorded query history lists exactly the queries made, to whom, with answers and cost, in order, and the accumulated cost equals the sum of the recorded costs; a failed query leaves both unchanged. "
 "The listed names always match the oracles held, and the printed summaries count every oracle's queries and cost.",
 ["histories"], "every population of oracles and sequence of additions and queries",
 "tests make one query per call",
 [A+"oracle/oracle.py"], [("Oracles", A+"oracle/oracle.py:Oracles")],
 [("query_history, cost_inall", "ledger", A+"oracle/oracle.py:Oracles")], ["Oracles public methods"])
prop("C11", "Knowledge repositories behave as a consistent map",
 "After any sequence of add, update, discard, retrieve and clear operations, a repository (element or matrix form) holds exactly the labels and examples last accepted for each index, and lookups by index or by example, membership and the extracted training data all agree with that map. "
 "The rows of instances, labels and indexes always correspond to each other, and a rejected operation leaves the repository unchanged. "
 "Adding a known index is reported and ignored by the matrix form and replaces the entry in the element form; discarding or retrieving what is absent is reported and changes nothing. "
 "The accumulated cost and the number of queries are those of the accepted operations.",
 ["histories"], "every sequence of repository operations",
 "tests run one fixed script per class",
 [A+"oracle/knowledge_repository.py"], [("ElementRepository, MatrixRepository", A+"oracle/knowledge_repository.py")],
 [("_X,_y,_indexes / dicts", "stored knowledge", A+"oracle/knowledge_repository.py")], ["repository public methods"])
prop("C12", "Parallel folds run exactly once, within the thread limit, on their own data",
 "When an experiment runs its folds in threads, every fold runs exactly once, with its own train, test, labeled and unlabeled sets, and the run returns only after all folds have finished. At no time do more folds run concurrently than the configured limit, while a free slot is always given to a waiting fold, regardless of how the folds are scheduled or which fold ends first. A fold that fails does not prevent the others from finishing, and the results returned are exactly those the folds recorded; what a fold does to the collections it is given changes neither the other folds nor the caller's split. Loops with the wrong parameters are refused.",
 ["schedules"], "every interleaving of the folds' executions, number of folds and thread limit",
 "the tests run one schedule with independent folds",
 [A+"utils/multi_thread.py"], [("main loop of aceThreading", A+"utils/multi_thread.py")],
 [("_alive_arr, _threads", "which folds are pending", A+"utils/multi_thread.py")], ["target function invocations", "get_results"])
prop("C13", "A crashed parallel run recovers every fold without losing progress",
 "If the process dies at any point of a threaded experiment (before start, while folds run, in the middle of a saving, between a fold's savings, or during a later recovery), recovering from the last saved state and continuing completes every fold. "
 "A fold resumes from at least the last query it had saved, folds saved as finished are not run again, and no query of a fold is duplicated or moved to another fold. "
 "The final results equal those of an uninterrupted run.",
 ["crash_points", "schedules"], "every crash point and schedule, including repeated crashes",
 "the tests recover once after a complete run",
 [A+"utils/multi_thread.py", A+"experiment/state_io.py"], [("recover", A+"utils/multi_thread.py:recover"), ("save", A+"utils/multi_thread.py")], (), ["recover(), target invocations, get_results"])
prop("C14", "Every instance query strategy selects distinct members of the unlabeled pool",
 "Every strategy that queries instances (uncertainty, committee, random, expected error, density, core-set, QUIRE, BMDR, SPAL, LAL), on any data, pool and batch size, returns exactly the requested number of distinct indexes (all of the pool when it is not larger than the batch; one for the strategies documented to query one at a time), each a member of the pool given, whether the pool is the whole unlabeled set or a part of it, in any of the accepted containers. This holds for every sequence of selections with the same strategy object, whether or not what it selected has been labeled since. Selecting changes neither the data, the labeled and unlabeled pools nor the model or predictions passed by the caller.",
 ["inputs", "configurations"], "every strategy and mode, pool, batch size and prediction matrix",
 "tests run strategies on one dataset and check only one or two batch sizes",
 [A+"query_strategy/query_labels.py", A+"query_strategy/base.py", A+"utils/misc.py"],
 [("select / select_by_prediction_mat", A+"query_strategy/query_labels.py"), ("nlargestarg/nsmallestarg", A+"utils/misc.py")], (), ["select*() return values"])
prop("C15", "Ranking strategies return the most informative instances",
 "Uncertainty-based selection (least confident, margin, entropy, distance to boundary), committee disagreement (vote entropy, KL divergence), density-weighted uncertainty and expected error reduction return instances at least as informative, by the chosen measure, as every instance of the pool left out, and core-set selection always takes a farthest instance from those already chosen. Each row of the predictions is scored for the index at the same position of the pool, so reordering the pool and its predictions together, or renaming the classes, never changes which instances are eligible. Random selection does not depend on labels and can return every member of the pool; the published entropy and vote-entropy values are those of their definitions.",
 ["inputs"], "every prediction matrix, committee and pool order",
 "tests use a single prediction matrix",
 [A+"query_strategy/query_labels.py", A+"utils/misc.py"], [("scores", A+"query_strategy/query_labels.py:QueryInstanceUncertainty,QueryInstanceQBC"), ("n largest/smallest", A+"utils/misc.py")], (), ["select_by_prediction_mat"])
prop("C16", "Multi-label strategies query unlabeled instance-label pairs",
 "Every multi-label strategy returns indexes denoting only unlabeled instance-label pairs of the given pool: a pair strategy (QUIRE, AUDI: one pair; Random: min(batch size, pairs)) returns distinct (instance, label) tuples; an instance strategy (MMC, Adaptive, Random with 'ins') returns distinct (instance,) tuples, only of instances all of whose labels are unlabeled, min(batch size, such instances) of them; AURO returns an instance with the most unlabeled labels and two different unlabeled labels of it, whenever some instance has two. Selection leaves the caller's data and index collections unchanged, in every accepted form of the indexes. QUIRE's pair minimises the worst case of its objective and does not depend on the order of the indexes; AUDI takes the instance with the most inconsistent number of predicted labels and its unlabeled label nearest to the threshold; AURO takes the unlabeled label ranked best and the one nearest to the threshold; MMC takes the instance with the largest expected loss reduction; Adaptive takes the best by its trade-off of separation margin and label cardinality inconsistency, with the trade-off chosen by the smallest estimated error; training the label ranking model restarts or continues from the parameters it has, as asked; random selection can return every candidate.",
 ["inputs"], "every partially labeled matrix, strategy and pool",
 "tests run each strategy on one dataset",
 [A+"query_strategy/multi_label.py"], [("select methods", A+"query_strategy/multi_label.py")], (), ["select() return values"])
prop("C17", "Cost-sensitive selection stays within budget and maximises value",
 "For every positive integer cost per label (given as an array, by the oracle, or 1 by default) and every integer budget, each cost-sensitive strategy returns distinct unlabeled instance-label pairs of the pool whose total cost does not exceed the budget, leaving the caller's data and collections unchanged. HALC's and the uncertainty strategy's selection has the greatest total informativeness affordable within the budget (HALC: twice the weighted uncertainty when the neighbours vote relevant, otherwise the uncertainty plus that of the unlabeled leaf descendants); random selection with equal costs spends the whole budget or the whole pool. The 0/1 knapsack returns a feasible optimal choice and its value; Pareto selection returns a feasible choice and its value. Hierarchical marking adds to the queried pairs exactly the unlabeled ancestors of relevant and descendants of irrelevant labels.",
 ["inputs"], "every cost vector, value vector, budget and pool",
 "tests use one example with equal costs",
 [A+"query_strategy/cost_sensitive.py"], [("knapsack", A+"query_strategy/cost_sensitive.py:select_Knapsack_01")], (), ["select(), select_Knapsack_01"])
prop("C18", "Feature acquisition asks only for missing entries and imputes soundly",
 "For every feature matrix, mask and labels: the feature acquisition strategies (random, AFASMC, stability) return one - random: the smaller of the batch size and the size of the pool - distinct missing entry of the given pool as a list of (instance, feature) pairs, without changing the caller's data, and the choice does not depend on the values which are hidden; AFASMC picks the candidate whose imputed values vary most over its completions so far and stability the one whose values vary most over its committee; random can return every candidate. The matrix completion methods return every observed entry unchanged, impute values which do not depend on the hidden ones (NaN included) and respect given value limits; completing by indexes and by mask agrees. Where the completion is determined (unique minimum of AFASMC's objective, features that are linear in the others, a rank-one matrix) it is that one, for real-valued matrices.",
 ["inputs"], "every feature matrix, mask and batch size",
 "tests run one matrix and do not compare imputations under different hidden values",
 [A+"query_strategy/query_features.py"], [("select", A+"query_strategy/query_features.py"), ("AFASMC_mc, IterativeSVD_mc", A+"query_strategy/query_features.py")], (), ["select(), completion functions"])
prop("C19", "Noisy-oracle strategies and majority vote aggregate correctly",
 "For every crowd of oracles (a list or an Oracles object), labels, weights and predictions: majority_vote returns a label with the largest total weight (number of votes without weights) and that total; asking a crowd returns the answers and costs of exactly the named oracles (all without names), unknown names are refused, and the majority of those answers with their total cost is reported and charged. The noisy-oracle strategies return one instance of the unlabeled pool and a non-empty list of distinct members of the crowd, for every non-empty pool, without changing the caller's data or charging the crowd: all, random and IEthresh pick a least-confident instance; all asks everybody, random one oracle (every one is possible), IEthresh exactly the oracles whose upper interval estimate of agreement with past majorities reaches epsilon times the best one; CEAL picks a pair maximising uncertainty times expertise on the nearest initially labeled instances divided by the oracle's cost (or by its measured quality with eval_cost).",
 ["inputs", "histories"], "every vote matrix, weights, population of oracles and query history",
 "tests use a fixed crowd",
 [A+"query_strategy/noisy_oracles.py"], [("majority_vote, IEthresh", A+"query_strategy/noisy_oracles.py")], (), ["return values"])
prop("C20", "The experiment runner queries each fold exactly as configured",
 "For every data set, split, batch size, metric, stopping criterion and query strategy, AlExperiment runs every fold exactly as if it ran alone, sequentially and in threads, under every interleaving of the folds: the fold starts from its own initial labeled set, records the performance of a model fitted on exactly that set as its initial point, and while the stopping criterion is not met hands the strategy the current labeled and unlabeled sets and the configured batch size and parameters, moves the selected instances, fits the model on the labeled set only and records the selection with the performance on the fold's own test set. It stops at the first check at which the criterion holds, or when no instance is left. A threaded run which is killed at any point between two steps and recovered ends with the same histories and initial points. The predefined strategies select as if created directly with the configured parameters, and no more folds run at once than the thread limit. Results are copies, one per fold in order, of the last run only; running without a split, unknown strategies and metrics, ragged splits and setting the strategy twice are refused.",
 ["configurations", "schedules"], "every dataset, split, strategy, stopping criterion, metric, batch size and thread limit",
 "tests run one configuration",
 [A+"experiment/al_experiment.py"], [("main loop", A+"experiment/al_experiment.py")], (), ["AlExperiment.start_query, get_experiment_result"])
prop("C21", "The analyser reports exactly what the histories recorded",
 "For every set of methods given as state histories, containers, intermediate files or plain lists, with folds of any lengths, costs, performances and initial points, the analysers report exactly what was recorded. Extracted lines have one value per query of each fold in order, the performance preceded by the fold's initial point when there is one. The curve of a method over the number of queries has, at k queries, the mean (and standard deviation) over the folds of the performance after k queries, for as long as all folds last, beginning at the start point or initial point at zero queries and otherwise at one query. The curve over the cost is the mean over the folds of the linear interpolation between the recorded performances at their accumulated costs, up to the smallest total cost of any fold. The table reports the number of folds and queries, the mean and deviation, the batch size and the budget of the recorded values; a difference of settings between methods raises a warning; NaN and infinite performances, malformed results and unknown keys are refused; a container is a sequence of the histories it holds and hands them out as a copy; the paired t-test rejects exactly when the statistic exceeds the two-tailed quantile, symmetrically in its arguments.",
 ["inputs"], "every set of methods, folds, histories, costs and performances",
 "tests build one result set and look at nothing but the absence of exceptions",
 [A+"experiment/experiment_analyser.py", A+"experiment/state_io.py"], [("extraction", A+"experiment/experiment_analyser.py"), ("container", A+"experiment/state_io.py:StateIOContainer")], (), ["get_methods_data, summaries, extracted matrices"])
prop("C22", "The tool box hands out components consistent with its data and split",
 "All components obtained from a tool box refer to the same data and the same folds. A tool box is split at most once: the split is a sound partition of its instances (and of their label or feature entries) in the sizes asked for, later requests to split return it, and neither it nor the data changes when the caller changes what was handed out or handed in. For every fold, the collections, the history object, the knowledge repository (exactly the labeled part with the tool box's labels or feature values and, on request, examples), the clean oracle (its labels and the given costs), the query strategies and the parallel experiment threads agree with the data and that fold, for every query type (all labels, partial labels, features), kind of target and user-chosen instance names; label entries and features are kept element by element and whole labels in matrix form, and a parallel run saves where it is told to. A tool box with a saving path is stored when created, split and saved; opening or loading that path again yields the stored data, folds and query type. Requests that need a split before there is one, unknown names, folds out of range and inconsistent data are refused.",
 ["configurations", "histories"], "every dataset, query type, sequence of requests and settings reload",
 "tests build one tool box",
 [A+"toolbox.py"], [("ToolBox factory methods", A+"toolbox.py"), ("save/load", A+"toolbox.py")], (), ["ToolBox public methods"])
prop("C23", "Performance metrics equal their combinatorial definitions",
 "For every label vector, label matrix, score matrix and sample weights, the provided metrics return the value of their definition. Accuracy and zero-one loss (fraction or weighted number of misclassifications; whole rows for several labels), Hamming loss and F1 count errors. The true and false positives, the ROC and precision-recall curves have one point for each distinct score, and the ROC area is the (weighted) share of positive-negative pairs ranked correctly with ties counting one half; micro_auc_score is its mean over the labels. For label rankings, coverage is the largest rank (ties counted) of a relevant label, ranking loss the share of relevant-irrelevant pairs not ranked strictly correctly, ranking average precision the mean precision at the relevant labels (1 when the ranking means nothing), average precision the same with ties broken arbitrarily over the samples that have a ranking, and one-error the share of samples whose top label is irrelevant. Labels may be 0/1 or -1/1. Metrics never modify their inputs, are invariant under reordering the samples, and refuse inputs for which they are not defined (a single class for the ROC area, unknown positive labels, inconsistent shapes, labels that are not binary).",
 ["inputs"], "every label vector, label matrix and score matrix",
 "tests compare a handful of matrices",
 [A+"metrics/performance.py"], [("metric functions", A+"metrics/performance.py")], (), ["return values"])
prop("C24", "Random choices can be anything admissible and nothing else",
 "Every component which chooses at random (the random strategies for instances, labels, instance-label pairs, features and cost-sensitive queries, the random pick of an oracle, random sampling and permutations of collections, and the random splits) returns, for every pool and every request, an admissible outcome: distinct elements of the given pool, the requested number of them or the whole pool when it is smaller, within the budget where there is one, and every element exactly once in a permutation or a split. Nothing admissible is excluded: over repeated calls every admissible outcome, including the boundary ones, is produced, and where the choice is uniform no outcome is favoured. Choosing never changes the pool.",
 ["inputs", "histories"], "every pool, batch size, budget and sequence of random draws",
 "tests call a random strategy once and check the length; bias, unreachable outcomes and off-by-one bounds stay invisible",
 [A+"utils/misc.py", A+"data_manipulate/al_split.py", A+"query_strategy/query_labels.py", A+"query_strategy/query_features.py", A+"query_strategy/multi_label.py", A+"query_strategy/noisy_oracles.py", A+"query_strategy/cost_sensitive.py", A+"oracle/oracle.py", A+"index/index_collections.py"], [("random strategies", A+"query_strategy"), ("random sampling", A+"index/index_collections.py"), ("split", A+"data_manipulate/al_split.py")], (), ["return values over repeated calls"])
prop("C25", "Helpers and preprocessing compute their definitions",
 "The helpers which everything else is built from return their mathematical definition for every input: nlargestarg and nsmallestarg the positions of the n largest and smallest elements (in order of value), randperm distinct integers within the bounds, the correspondence check accepts exactly collections of equal length, unpack returns its arguments' contents, check_matrix and the kernel helpers (linear, polynomial, Gaussian, callable) the defined matrices, min-max scaling maps each feature linearly onto the given range and standard scaling to zero mean and unit variance, constant and missing values included. They never modify their inputs, and they refuse what they are not defined for.",
 ["inputs"], "every array, number requested, kernel and range",
 "tests compare a handful of arrays; constant features, ties, missing values and non-zero means are not among them",
 [A+"utils/misc.py", A+"utils/ace_warnings.py", A+"data_manipulate/datapreprocess.py"], [("helpers", A+"utils/misc.py"), ("scaling", A+"data_manipulate/datapreprocess.py")], (), ["return values, inputs afterwards"])
prop("C26", "QUIRE, graph density and LAL follow their objective",
 "For every data set, pool and history of queries, the single-label strategies which are defined by a closed objective select by it. QUIRE selects the unlabeled instance with the smallest objective of its reference (L = (K + lambda I)^-1, inverses of its unlabeled and labeled blocks), whatever the order in which the sets are given. Graph density starts from the weights of the k-nearest-neighbour graph, selects the densest instances of the pool and reduces the density of the neighbours of every selected one, and keeps the densities of instances which are not in the given pool; it tells the graph and the densities it started from. Learning active learning describes every unlabeled instance by the features its regressor was trained with (predictions, class proportions, forest statistics, data size; labels 0/1 or -1/1) and selects the instances with the greatest predicted error reduction. All of them return distinct elements of the pool, as many as asked for.",
 ["inputs", "histories"], "every data set, order of the index sets, batch size and sequence of selections",
 "tests look only at the number of selected instances; a wrong sign, block, neighbour or feature leaves it unchanged",
 [A+"query_strategy/query_labels.py"], [("QueryInstanceQUIRE", A+"query_strategy/query_labels.py"), ("QueryInstanceGraphDensity", A+"query_strategy/query_labels.py"), ("QueryInstanceLAL", A+"query_strategy/query_labels.py")], (), ["select return values over histories"])
prop("C27", "The books of an active learning loop agree",
 "For every task (single-label, multi-label instances, entries of a label matrix, entries of a feature matrix), every initial split and every history of rounds - select, ask an oracle or a crowd, tell the repository, update the labeled and unlabeled collections, record a State - interleaved with going back to an earlier round, looking at one, saving, and reopening the saved history, all parts agree after every step, whether the parts were made by hand or by a ToolBox: the collections partition the pool and equal what the history replays to; the history holds the rounds with the labels and costs which the oracle answered; the repository can be read as training data at any time and knows exactly the labeled elements with their true labels and examples; money and queries counted by history, repository and oracles are the same where they count the same thing; the stopping criterion decides by these numbers; and the analyser reads the same rounds back.",
 ["inputs", "histories", "crash points"], "every task, every sequence of rounds, looks, recoveries, saves and reopenings",
 "tests exercise every part alone or a few fixed rounds of a script which asserts nothing about the others; agreement is a property of the composition over every history",
 [A+"toolbox.py", A+"oracle/oracle.py", A+"oracle/knowledge_repository.py", A+"experiment/state_io.py", A+"experiment/stopping_criteria.py", A+"index/index_collections.py"], [("ToolBox", A+"toolbox.py"), ("StateIO", A+"experiment/state_io.py"), ("ElementRepository", A+"oracle/knowledge_repository.py"), ("Oracles", A+"oracle/oracle.py")], (), ["every observer of every part after every step"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
