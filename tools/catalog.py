"""Every property: text for properties.jsonl, technique and assurance for MANIFEST.json."""

AE = 'acv_explainers/'
PYX = AE + 'cyext_acv/cyext_acv.pyx'
NOPA = AE + 'cyext_acv/cyext_acv_nopa.pyx'
CACHE = AE + 'cyext_acv/cyext_acv_cache.pyx'
PROPS = []
NA_REASON = {}


def prop(id, title, statement, over, qtext, why, files, mech, technique, level_note, **anch):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(anch)
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                  'why_tests_cant': why, 'anchors': a, 'technique': technique, 'level_note': level_note})


prop('C01', 'A sample on a split threshold belongs to exactly one leaf',
     'When Shapley values, expectations or same-decision probabilities of a tree model are computed, every sample is '
     'counted in exactly the leaf the tree itself would send it to: a value equal to a split threshold goes to the '
     'left (at most) side and never to both sides or to none. The test uses, for each feature in play, that '
     "feature's own lower and upper bound of that leaf.",
     ['inputs', 'configurations'], 'All models, data sets (with values equal to thresholds), feature subsets and all '
     'kernels: parallel, sequential and cached.',
     'The tests use continuous random data that never equals a threshold, and compare one implementation with '
     'another on a handful of samples; a closed interval gives the same numbers there.',
     [PYX, NOPA, CACHE, AE + 'py_acv.py', AE + 'utils_exp.py', AE + 'utils_sdp.py'],
     [('membership tests of the leaf-partition kernels', PYX), ('sequential variants', NOPA),
      ('Python reference implementation', AE + 'py_acv.py')],
     'dataflow: roles propagated through calls, canonical comparisons, polarity/tie rule over every leaf-bound test',
     'Every comparison of a sample with a leaf bound in the native and Python kernels is decided from the source; '
     'trusts the parser and that leaf bounds reach kernels through the resolved calls.')

prop('C02', 'A projected forest walk follows the tree on the fixed variables and every branch on the others',
     'When a same-decision, different-decision, counterfactual, expectation, distribution or quantile estimate is '
     'computed on the forest, every tree is walked from its root: at a split on a variable of the coalition the walk '
     'goes left exactly when the value of the sample is at most the threshold and right otherwise, and at a split on '
     'another variable both branches are followed (in the conditional variants, the branch the condition interval '
     'lies on). Exactly the background samples on the other side of a split on a coalition variable are dropped, '
     'starting from all samples for each tree, and the samples left are those that are averaged. The region reported '
     'for a rule is only ever tightened, by the threshold of the split taken, on the side taken.',
     ['inputs', 'configurations'], 'All forests, background data, samples, coalitions and conditions; every '
     'single-sample kernel of the native module.',
     'Tests compare a handful of averaged numbers; following one branch too many at one node shifts an estimate by a '
     'little and is not noticed.',
     [PYX], [('single_compute_* walks', PYX + ':single_compute_sdp_rf'), ('rules', PYX + ':single_compute_sdp_rule')],
     'dataflow: guarded facts of one walk step (helpers inlined) compared with the walk rule by enumerating all '
     'orderings of the values involved',
     'Decides each step of every walk; a step is compared for all orderings of value, threshold, background value and '
     'interval ends. Does not decide the minimal node size stop.')

prop('C04', 'Forest estimates average what their names say over the surviving samples',
     'Every tree of the forest counts equally, and within a tree every background sample that survived the projected '
     'walk counts equally (weights of a tree sum to one and those of the forest to one). Such a sample contributes to '
     'the same-decision probability exactly if its class equals the class of the explained sample (classification) or '
     'its output lies in the closed interval [t0, t1] (regression); to the different-decision probability in the '
     'opposite case; to the counterfactual probability if its output lies in [down, up] (or has the target class); to '
     'the distribution function if its output is at most t; its output itself to the expectation.',
     ['inputs', 'configurations'], 'All forests, background samples, outputs, classes and intervals; every '
     'single-sample estimator of the native module and the weights handed to callers.',
     'Tests compare sums for a few random samples, in which outputs equal to an interval end and trees of unequal '
     'survivor counts hardly matter.',
     [PYX], [('single_compute_* estimators', PYX + ':single_compute_sdp_rf'), ('weights', PYX + ':single_compute_quantile_rf')],
     'dataflow: accumulated terms put in canonical sum form and compared with the defining expression for all '
     'orderings of the outputs and interval ends',
     'Decides what every accumulation adds and how it is normalised; that the set averaged over is the surviving set '
     'is C02.')

prop('C12', 'Every call and name inside the package resolves to something that exists and accepts it',
     'No public operation of the package fails because of the package itself naming something that does not exist or '
     'calling it in a way it cannot be called: every internal call passes arguments that its target (function, method, '
     'constructor or native kernel) takes, every name and every attribute read is defined somewhere in the module or '
     'class family, callbacks take what they are called with, and no reachable method of a usable class is left '
     'abstract.',
     ['inputs', 'configurations', 'histories'], 'Every call site, name and attribute of the Python and Cython sources, '
     'whatever options and model types lead there.',
     'Most branches (model types, cache and sequential variants, boosting, plots) are never run by the tests; a wrong '
     'argument list there only shows when a user takes that branch.',
     [AE + 'acv_tree.py', AE + 'base_tree.py', AE + 'acv_agnosticX.py', PYX],
     [('algorithm selection by name', AE + 'base_tree.py'), ('wrappers', AE + 'acv_agnosticX.py')],
     'whole-program call binding, name and attribute resolution over Python and Cython syntax trees',
     'Exhaustive over resolved calls; calls into third-party packages and duck-typed parameters are not judged.')

prop('C13', 'Options given to a public method reach the computation they control',
     'A threshold, size, target, interval, background set, coalition group or search option accepted by a public '
     'operation is the value used by the computation: it is handed on at every internal call under its own meaning '
     '(not dropped in favour of a default, not replaced by a different option), constructors store it under its own '
     'name, and every documented option is actually used.',
     ['inputs', 'configurations'], 'Every call between two functions of the package that share an option; every '
     'option of the public methods.',
     'Tests use the default options (or the same value for several), for which a dropped or swapped option gives the '
     'same result.',
     [AE + 'acv_tree.py', AE + 'acv_agnosticX.py', AE + 'utils.py', AE + 'utils_cr.py', PYX],
     [('public wrappers', AE + 'acv_agnosticX.py'), ('tree wrappers', AE + 'acv_tree.py')],
     'interprocedural def-use (taint) of options from public parameters through every resolved call',
     'Decides that the value is derived from the option, by def-use; it does not decide what the receiving '
     'computation then does with it.')

prop('C09', 'Nothing unvalidated reaches the native kernels',
     'The native kernels read samples, background data, targets, coalitions, intervals, bounds and conditions by sample '
     'without bounds checks, so every public operation of ACXplainer, and the Shapley-value and classifier operations of '
     'ACVTree, first validates what it was given: samples and background data have gone through check_array or '
     'check_X_y, targets (ACXplainer) have been compared in length with their samples, and everything else that is '
     'indexed by sample has one row per sample, by construction or by a length check made before the kernel is called. '
     'A malformed input raises an error instead of being read out of bounds.',
     ['inputs', 'configurations'], 'All inputs (wrong lengths, NaN, wrong dimension) and options of every such operation: '
     'every native call reached, for both tasks, with the interval given or left to its default.',
     'Tests only pass well-formed arrays; a missing check shows as an out-of-bounds read, if at all.',
     [AE + 'acv_agnosticX.py', AE + 'acv_tree.py', AE + 'base_tree.py'],
     [('ACXplainer operations', AE + 'acv_agnosticX.py'), ('ACVTree operations', AE + 'acv_tree.py')],
     'dataflow: value numbering of each public method (helpers entered), validation facts before each native call',
     'Decides which value every kernel parameter holds and which checks dominate the call; trusts what sklearn\'s '
     'checks guarantee.')

prop('C10', 'An explainer that was not fitted refuses to answer',
     'Every operation of an ACXplainer that estimates anything with the forest raises NotFittedError as long as fit was '
     'not called: it checks that the model is fitted before the arrays of the forest reach a native kernel. Predictions '
     'with the global explainable rules raise as long as fit_global_rules was not called, for both tasks, and nothing '
     'else marks the rules as fitted.',
     ['inputs', 'histories'], 'All public operations of ACXplainer, both tasks, every order of calls.',
     'Tests always fit first; an operation that forgets the check hands missing arrays to native code, or stale ones.',
     [AE + 'acv_agnosticX.py'],
     [('check_is_explainer', AE + 'acv_agnosticX.py:check_is_explainer'), ('global rules', AE + 'acv_agnosticX.py:predict_global_rules')],
     'typestate by value numbering: checks that dominate each native call; constructor and method composed symbolically over abstract states',
     'Exhaustive over ACXplainer\'s methods; trusts sklearn\'s check_is_fitted.')

prop('C11', 'Fitting again replaces everything fitted before',
     'After fit is called again on an ACXplainer, every operation works on the arrays of the new forest and the number of '
     'features of the new training data, whatever was computed in between; after fit_global_rules is called again, the '
     'predictions with the global rules use only rules, coalitions, outputs, coverages and accuracies of the new fit.',
     ['histories'], 'All sequences fit, operation, fit, operation and fit_global_rules, ..., fit_global_rules, prediction.',
     'Tests fit each explainer once; a cache that survives the second fit gives plausible, stale numbers.',
     [AE + 'acv_agnosticX.py'],
     [('fit', AE + 'acv_agnosticX.py:fit'), ('check_is_explainer', AE + 'acv_agnosticX.py:check_is_explainer'),
      ('fit_global_rules', AE + 'acv_agnosticX.py:fit_global_rules')],
     'typestate by value numbering: fit composed with every operation from a state whose cached attributes are marked stale',
     'No marked value may reach a native kernel or the global rules; covers all histories by starting from an arbitrary earlier state.')

prop('C20', 'The explainer uses its own task and the right interval',
     'An ACXplainer estimates in the task (classification or regression) it was created for. In regression, an interval '
     'given by the caller is the one used; without one, the interval of a sample is the 5% and 95% quantiles that the '
     'fitted forest predicts for that very sample. Explained samples go with their own targets, and background samples '
     'with theirs.',
     ['inputs', 'configurations'], 'Every public operation of ACXplainer that reaches a native kernel, both tasks, interval '
     'given or not.',
     'The tests use one task and always the default; the operations are two dozen near copies of each other.',
     [AE + 'acv_agnosticX.py'],
     [('wrappers', AE + 'acv_agnosticX.py:compute_sdp_rf')],
     'dataflow: value numbering of each public method per scenario; what the task, interval and sample parameters of the kernel hold',
     'Decides the values handed to the kernels; what the kernels do with them is C02 and C04.')

prop('C21', 'Coalition searches range over the features they promise',
     'Searches for sufficient and counterfactual explanations range over all features when there are at most ten, and '
     'over the ten most important ones (the most used by the trees, where the model has no importances) when there are '
     'more; never over fewer, over the least important ones or over the first columns.',
     ['inputs', 'configurations'], 'Every search of ACXplainer, ACVTree and ACVTreeAgnostic that hands a search space to a '
     'native kernel; 9, 10 and 11 features.',
     'The test data have few features and importances spread so that truncation at the wrong end is not noticed.',
     [AE + 'acv_agnosticX.py', AE + 'acv_tree.py'],
     [('search space', AE + 'acv_agnosticX.py:importance_sdp_rf')],
     'dataflow: value numbering; the search space put in the form take(n, ordering) around the switch-over width',
     'Forms of the ordering that are not recognised are noted in the evidence, not judged.')

prop('C15', 'A coalition search reports the smallest coalition that reaches the level, with its own probability',
     'A search for minimal sufficient (or counterfactual) explanations goes through every coalition of the allowed '
     'features and groups, one size after the other from the smallest asked for. The probability, size and features it '
     'reports for a sample are replaced together, by those of the coalition just evaluated for that very sample and only '
     'if it is at least as good; a sample that reached the level leaves the search at the end of that size, is counted '
     'once in the frequencies with exactly its own features, and is not replaced by a larger coalition; nobody else '
     'leaves. Unused entries of the features are -1. The search ends early only when no sample is left or, where '
     'stopping was allowed, beyond half of the features (and after 2**15 coalitions, at the end of a size).',
     ['inputs', 'configurations'], 'All models, data, groupings C, levels, minimal sizes and stopping options; the 14 search '
     'drivers (classification, regression, approximate, forest; parallel and sequential).',
     'The bookkeeping only goes wrong when samples leave the search at different sizes or a later coalition ties: tests '
     'look at one or two samples with few features.',
     [PYX, NOPA], [('forest searches', PYX + ':global_cdp_intv'), ('tree searches', PYX + ':global_sdp_clf'),
                   ('sequential searches', NOPA)],
     'dataflow/typestate: guarded assignments of the driver (helpers inlined, loops canonical) matched against the search '
     'protocol: who updates, under which comparison, with which row, coalition and partner writes',
     'Decides every update, removal, count, exit and enumeration of each driver in canonical form; the value computed for '
     'a coalition is C01, C02 and C04. A driver whose coalition enumeration is built in an unrecognised way is noted, not judged.')

prop('C16', 'The list of sufficient explanations holds every minimal coalition, each with its own probability',
     'When all sufficient explanations of a sample are asked for, a coalition of the searched features and groups is '
     'listed exactly when its probability for that sample is at least pi_level and it contains none of the coalitions '
     'listed before it (smaller ones come first). Coalitions and probabilities are parallel lists: the k-th probability '
     'is that of the k-th coalition. The frequencies count each feature of each listed coalition once and are divided by '
     'the number of coalitions listed (1 if none). The placeholders the internal lists start with never reach the '
     'caller of ACXplainer.',
     ['inputs', 'configurations'], 'All samples, levels, groupings, smallest sizes; both kinds of list, all native drivers '
     'and the ACXplainer operations.',
     'A coalition wrongly pruned or kept needs overlapping coalitions around the level; the tests look at the first one.',
     [PYX, AE + 'acv_agnosticX.py'],
     [('drivers', PYX + ':sufficient_expl_rf'), ('placeholders', AE + 'acv_agnosticX.py:sufficient_expl_rf')],
     'dataflow: guarded list updates of each driver in canonical form matched against the listing protocol',
     'Decides level test, superset test, list partners, count and enumeration of each driver; the probability itself is '
     'C02 and C04. Whether the divergent list should fix the coalition or its complement is not decided (the code leaves '
     'it open).')

prop('C22', 'Expectations and same-decision probabilities computed from leaves equal their definitions',
     'For a tree ensemble given as leaf partitions, the estimated conditional expectation E[f(X) | X_S = x_S] of a sample is '
     'the sum over the trees of the values of the leaves compatible with x_S (on the features of S only, the one-hot block '
     'of a categorical variable taken together), each weighted by the number of data points of the leaf among the data '
     'points compatible with x_S; with S empty it is the mean over all leaves and with all features the prediction. The '
     'same-decision probability for classification (plain, categorical, normalised by the weights of the sample, and the '
     'swing variants) and for regression (through the first two moments over pairs of leaves of pairs of trees) and the '
     'probabilities that the coalition searches compare with the level are those of the definitions, whatever the number '
     'of trees, leaves, classes, samples and groups, for each sample on its own.',
     ['inputs', 'configurations'], 'All partitions, data, coalitions, groupings, leaf values, leaf counts; the parallel and '
     'sequential kernels and the tree searches.',
     'A norm of the previous sample, a pair of trees mixed up or a membership test on the wrong variables changes numbers '
     'that the tests only compare with themselves, on few samples and without groups.',
     [PYX, NOPA], [('expectation kernels', PYX + ':compute_exp'), ('probability kernels', PYX + ':compute_sdp_clf'),
                   ('regression', PYX + ':compute_sdp_reg'), ('searches', PYX + ':global_sdp_clf')],
     'dataflow: closed form of each kernel by substitution of reaching definitions (sums over quantified loops), compared '
     'with the closed form of the definition after algebraic normalisation',
     'Both forms are over exact arithmetic (floating rounding is outside). A kernel whose loops have no closed form in the '
     'analysis is noted as undecided, not judged.')


prop('C14', 'Shapley values are the weighted sum of the contributions of the players over every coalition',
     'The Shapley value computed from leaves for a player (a variable, or a group of variables that moves as one) is the '
     'sum over every coalition of the other players of the Shapley weight of its size times the change the player brings '
     'to the leaf expectation of the coalition, divided by the number of players; only the players that can '
     'change the leaf are summed over, the others entering through the closed binomial sum. Players are listed each exactly '
     'once: a group when any of its variables is in the path of the leaf, whole. The cached variants tabulate, per '
     'leaf and coalition, exactly the numbers the direct variants compute, and read them back from the same place. Samples '
     'do not influence one another.',
     ['inputs', 'configurations'], 'All tree partitions, data sets, samples, groupings, numbers of classes; direct, '
     'parallel, sequential, normalised and cached kernels.',
     'A weight of the wrong size, a coalition skipped or a group entered by half still gives numbers of the right order; '
     'the tests compare two variants of the same code on one data set.',
     [PYX, NOPA, CACHE], [('Shapley kernels', PYX + ':shap_values_leaves'), ('sequential', NOPA + ':shap_values_leaves_nopa'),
                          ('cached', CACHE)],
     'dataflow: closed form of each accumulated contribution by substitution of reaching definitions, compared with the '
     'closed form of the definition after algebraic normalisation; layout of player lists and tables matched by refinement',
     'Over exact arithmetic; binomial coefficients of one less than the number of players are taken to be non-zero. A '
     'kernel whose loops have no closed form in the analysis is noted as undecided, not judged.')


prop('C05', 'Parallel loops compute what their sequential reading computes',
     'The parallel loops of the native kernels give the result of running their iterations one after the other, whatever the '
     'number of threads and the schedule. No two iterations write, or write and read, the same entry of an array or of a '
     'container; what an iteration uses (counters, sums, flags) it has set itself, nothing is carried over from another '
     'iteration; and after the loop nothing is read that depends on which thread ran what. Results of worker processes are '
     'put in the order of the samples.',
     ['schedules', 'inputs', 'configurations'], 'All interleavings and numbers of threads of every prange of the package; '
     'all process pools.',
     'A race or a forgotten reset shows only with several threads, more data than a test has, and an unlucky schedule; most '
     'of the tests run on one leaf, one sample or sequentially scheduled small loops.',
     [PYX, CACHE, AE + 'utils_sdp.py'], [('Shapley kernels', PYX + ':shap_values_leaves_pa'), ('expectations', PYX + ':compute_exp'),
                                          ('forest walks', PYX + ':compute_sdp_rf'), ('process pools', AE + 'utils_sdp.py:msdp_mthread')],
     'dataflow: index independence of array accesses in each parallel loop, write effects of callees, definite assignment of '
     'thread-private scalars, taint of scalars Cython turns into reductions',
     'Rows listed in an index buffer (R_buf) are taken to be distinct. Entries of an array are told apart only by an index that is the '
     'loop variable itself (plus a constant, or through such a buffer).')


prop('C08', 'Explaining changes neither its arguments nor what the explainer holds',
     'Calling an explanation method (Shapley values, same-decision probabilities, searches for explanations, rules, '
     'counterfactuals, predictions) leaves the arrays, lists and data frames passed to it, and everything nested in them, as '
     'they were, and leaves the data, trees, leaf tables and forest arrays the explainer holds as they were, so the same call '
     'gives the same answer again. Only fitting replaces what is held. The one documented output argument is '
     'local_sdp(final_coal).',
     ['histories', 'inputs', 'configurations'], 'All sequences of calls on one explainer, all arguments, defaults included.',
     'A test that calls a method once and looks at its result does not see that its argument, a default list or a table of '
     'the explainer was changed on the way, nor that the second call differs.',
     [AE + 'acv_tree.py', AE + 'acv_agnosticX.py', AE + 'base_tree.py', AE + 'utils.py', PYX], [
         ('explainers', AE + 'acv_tree.py:ACVTree'), ('random forest explainer', AE + 'acv_agnosticX.py:ACXplainer'),
         ('utilities', AE + 'utils_sdp.py'), ('native kernels', PYX)],
     'alias and write-effect analysis: what each function writes that its caller can still see, composed over all calls, '
     'native kernels included',
     'Library functions are taken to write only where their documentation says so (out=, in-place methods). Arguments '
     'captured by user callbacks are outside.')


prop('C17', 'The C extension sums one leaf per tree and the offset, for the samples and trees it is given',
     'A prediction of the C extension is, for every sample and output, the offset of the output plus, for each tree asked '
     'for, the output of the one leaf that tree sends the sample to. The walk starts at the root of that tree, goes to the '
     'default child where the value is missing, left where it is at most the threshold and right otherwise, and ends at '
     'the first leaf. The depth of a tree is one more than that of its deepest child. Every table handed over by Python '
     'reaches the field of the same meaning, with the dimensions of the arrays themselves; the offset has one entry per '
     'output; the samples come with their own missing mask and a cleared result of one row per sample.',
     ['inputs', 'configurations'], 'All trees, numbers of trees and outputs, samples with and without missing values; the '
     'registered functions of the extension and their Python call sites.',
     'The tests compare predictions of two small models with one output and no missing value; the walk to a default '
     'child, the row of a second output or of a later tree are not reached.',
     [AE + 'cext_acv/acv_tree.h', AE + 'cext_acv/_cext.cc', AE + 'base_tree.py', AE + 'base_agnostree.py'], [
         ('walk', AE + 'cext_acv/acv_tree.h:tree_predict'), ('sums', AE + 'cext_acv/acv_tree.h:dense_tree_predict'),
         ('fields', AE + 'cext_acv/_cext.cc:_cext_dense_tree_predict'), ('call sites', AE + 'base_tree.py:BaseTree.predict')],
     'dataflow: abstract interpretation of the C++ syntax tree (clang) with pointers as base plus polynomial offset and loops '
     'summarised by their counters; each step of the walk compared with the rule for all outcomes of its tests',
     'Decides the registered functions for every tree and sample. Trusts that X_missing is the mask of X and that the '
     'tables describe trees (C24). Does not bound indices of malformed tables.')

prop('C18', 'The C extension holds every array while it uses it and releases it exactly once',
     'Whatever arguments a function of the C extension is called with, on every path to a return each array it obtained '
     'is released exactly once and each argument it merely borrowed is not released; no array is used before it is known '
     'to have been obtained, nor its data after it was released; data is read with the type it was converted to; the '
     'number and types of the parsed arguments agree with the format; and a failure is reported to Python as an exception, '
     'never as a value.',
     ['inputs', 'configurations'], 'All argument lists, conversions that fail and paths of every function of the extension '
     'that takes Python objects.',
     'A leaked or doubly released reference needs a failing conversion, or many calls, to be noticed; no test makes a '
     'conversion fail.',
     [AE + 'cext_acv/_cext.cc'], [('functions', AE + 'cext_acv/_cext.cc:_cext_dense_tree_predict'),
                                   ('functions', AE + 'cext_acv/_cext.cc:_cext_single_tree_predict')],
     'typestate: reference counts followed along every path of the C++ syntax tree (clang), correlated with the tests for '
     'NULL on the path',
     'All paths of each function, helpers inlined. Models the reference rules of the Python and NumPy calls used; a call '
     'it does not know is noted as undecided.')

prop('C19', 'Class probabilities of binary boosted models come from the two-class leaf values',
     'For a binary boosted classifier whose trees have one output (XGBClassifier, LGBMClassifier, '
     'GradientBoostingClassifier) the explainer derives two-class leaf values: column 1 is the logistic function of the leaf '
     'value, column 0 its complement, both divided by the number of trees, for every node of every tree. Every '
     'same-decision and swing method for classification (parallel, sequential, categorical, approximate, search, swing) '
     'uses this table in exactly that case, and the values of the trees for every other classifier.',
     ['configurations', 'inputs'], 'All classes of models the explainer takes, numbers of outputs, and classification methods.',
     'With one column the probability of class 1 is read past the end of the row, from the next node; the tests use random '
     'forests for the methods concerned.',
     [AE + 'base_tree.py', AE + 'acv_tree.py'], [('two-class leaf values', AE + 'base_tree.py:BaseTree.__init__'),
                                                 ('methods', AE + 'acv_tree.py:ACVTree')],
     'dataflow: value of the table as a formula of the leaf values, and reaching definitions of the leaf values passed to the '
     'kernels for each class of model',
     'Formulas are compared by computer algebra. CatBoost models are outside (their loader needs a library that is absent).')


prop('C24', 'A converted tree keeps the nodes, thresholds and weights of its model, and the leaf regions are its paths',
     'The explainer reads each tree of a supported model (scikit-learn random forests, extra trees, decision trees, gradient '
     'boosting and histogram gradient boosting, skranger forests, balanced forests, LightGBM dumps, binary XGBoost models and '
     'dictionaries of arrays) node by node: children, features, thresholds, leaf values and sample weights go to the row of '
     'their node without loss of precision, values are scaled by the weight of the tree in the ensemble (1/n for means, the '
     'learning rate for gradient boosting) and, for classifiers that hold class counts, divided by their sum in the node. The packed '
     'tables keep the arrays of tree t in row t, list exactly its leaves, their number, for each leaf the distinct '
     'features tested on its path, and its region: the intersection of the half-lines (-inf, threshold] for each left and '
     '(threshold, inf) for each right step, starting from the whole space. Walks that narrow a region while they go down follow the same rule, '
     'and go only to the child of x when the feature is given.',
     ['inputs', 'configurations'], 'All trees of all sizes and shapes; all listed classes of models; both explainers for trees.',
     'The tests convert two models; a wrong child, a float32 threshold, a weight or a path feature of another node gives '
     'numbers that are close, or differ only for deep or unbalanced trees.',
     [AE + 'base_tree.py', AE + 'base_agnostree.py', AE + 'utils.py'], [
         ('conversion', AE + 'base_tree.py:SingleTree'), ('tables', AE + 'base_tree.py:BaseTree.__init__'),
         ('tables for agnostic trees', AE + 'base_agnostree.py:BaseAgnosTree.__init__'), ('regions', AE + 'utils.py:get_partition')],
     'dataflow: the value of each table entry as a term over the arrays of the model (loops summarised as maps and fills), '
     'compared with the term of the definition; the region step by abstract interpretation of the walk over intervals',
     'Outside: PySpark, NGBoost, CatBoost, PyOD and isolation forests, multi-class offsets, the JSON and text formats of '
     'XGBoost and the byte layout of its binary format. A construct outside the forms the rule reads is noted as undecided.')


prop('C25', 'Swing values weight every change of a decision by its Shapley weight, whole players at a time',
     'The swing methods return, for each sample and variable, a value, two swings and three frequencies. For each player (a '
     'group of variables, or a variable in no group) and every coalition of the other players, the change the player brings '
     'is the same-decision indicator of the coalition with the player minus that without it, for the same sample and data. The '
     'value is the sum of the changes over the binomial coefficient of the number of other players and the number of '
     'players (not of variables) in the coalition, divided by the number of players; the positive changes so weighted add up '
     'in the first swing, the negative ones in the second; the frequencies count the positive, negative and null changes. The '
     'numbers of a player are entered for each of its variables. Players are listed each exactly once, and coalitions are '
     'made of whole players.',
     ['inputs', 'configurations'], 'All samples, data sets, numbers of variables, groupings and thresholds; the parallel, '
     'sequential, direct and Python drivers.',
     'No test asks for a swing value; a weight by variables for players shows with groups only, a null change counted as '
     'a negative one in the frequencies only.',
     [PYX, NOPA, AE + 'py_acv.py'], [('drivers', PYX + ':swing_sv_clf'), ('direct drivers', PYX + ':swing_sv_clf_direct'),
                                     ('Python drivers', AE + 'py_acv.py:swing_tree_shap')],
     'dataflow: what each result grows by per player, coalition and sample, as a term by substitution of reaching '
     'definitions, case by case of the sign of the change; layout of coalition and player lists matched by refinement',
     'Over exact arithmetic. The value of a coalition itself is C22. A loop or list of a form the rule does not read is '
     'noted as undecided, not judged.')


# ---------------------------------------------------------------- outside the reach of static analysis here
def outside(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, 'none', '')
    NA_REASON[id] = reason


outside('N01', 'A converted model predicts what the library predicts',
        'For every supported model and every sample, the sum of the leaf values the explainer holds equals the prediction of '
        'the model by its own library (probabilities for classifiers, values for regressors).',
        ['inputs', 'configurations'], 'All fitted models of all supported libraries, all samples.',
        'The tests compare two small models.', [AE + 'base_tree.py'], [('conversion', AE + 'base_tree.py:BaseTree')],
        'The other side of the equation is the code of scikit-learn, LightGBM, XGBoost and the rest (compiled, and partly absent '
        'here), which is not in the repository; what the repository adds to it is decided as C24, C17 and C19.')
outside('N02', 'Shapley values sum to the prediction minus its mean',
        'The Shapley values of a sample sum to the model\'s prediction for it minus the mean prediction over the background data.',
        ['inputs'], 'All models, background data sets and samples.', 'The tests check one data set.',
        [PYX], [('Shapley kernels', PYX + ':shap_values_leaves')],
        'A theorem about the definition (binomial identities over all numbers of players and the partition of the space by the '
        'leaves), not about a construct of the code: a static rule can decide that the code computes the definition, and does so '
        '(C14, C22, C24), but the identity itself needs an inductive proof.')
outside('N03', 'Estimated same-decision probabilities converge to the true ones',
        'As the training set grows the forest estimates of conditional distributions, same-decision probabilities and '
        'sufficient rules converge to those of the law of the data.',
        ['inputs'], 'All laws and samples.', 'A statement about limits in probability.',
        [PYX], [('estimators', PYX + ':compute_sdp_rf')],
        'A statistical property of the estimator; nothing in the source text decides it. The weights the estimator uses are C04.')
outside('N04', 'Stochastic rule searches end with the best rule they can reach',
        'The annealing and hole-finding searches over rules return a rule of maximal coverage among those of the required '
        'probability, and terminate.',
        ['inputs', 'histories'], 'All data, rules, seeds and schedules of the temperature.',
        'The outcome depends on random draws.', [AE + 'utils.py', AE + 'acv_agnosticX.py'],
        [('search', AE + 'utils.py:simulated_annealing'), ('search', AE + 'acv_agnosticX.py:ACXplainer.compute_sdp_maxrules')],
        'Quality of a stochastic search over a non-convex objective: a quantity of the run that no static argument in reach '
        'bounds.')
outside('N05', 'The web applications show the explanation of the sample chosen',
        'The Streamlit applications display, for the sample and options chosen, the explanation the explainer computed.',
        ['inputs', 'histories'], 'All interactions.', 'There are no tests of the applications.',
        ['acv_app'], [('applications', 'acv_app')],
        'What is displayed is decided by the browser, the Streamlit server and its rerun model, none of which is in the '
        'repository; the names and arguments the applications use are checked by C12.')
