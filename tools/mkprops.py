"""Writes properties.jsonl (kept as a script so that statements are easy to edit)."""
import json
B='bayesian_decision_tree/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=[B+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=c) for a,c in mech],observe_at=list(observe),hook_needed=hook)))

prop('C01','Classification trees split exactly where the Bayesian evidence says',
 'In an axis-aligned classification tree, a node holding at least two rows and two different classes (or the root, whatever its classes) is split if some admissible split scores higher than not splitting, and is left a leaf if none does; the split used has the highest score over all features and positions (exact ties may go either way). '
 'With s = partition_prior^(1+depth of the node), not splitting scores (1-s) times the Dirichlet-multinomial evidence of the node\'s labels, and a split scores s / (number of features x number of admissible positions of that feature) times the product of the evidences of its two sides, all under the prior in force at the node. '
 'This holds for every data set, number of classes, prior, partition_prior and depth.',
 ['inputs','configurations'],'all finite data sets x all priors, partition priors in (0,1), strengthening and precision settings, at every node of the tree',
 'Tests look at four hand-made data sets with one obvious split; the decision depends on all candidate splits of every node at every depth, and near the break-even point only an exact comparison of all candidates decides it.',
 ['classification.py','base_perpendicular.py','utils.py'],
 [('search over all features and positions, strict improvement over no split','base_perpendicular.py:_fit'),('no-split and split scores','classification.py:_compute_log_p_data_no_split/_compute_log_p_data_split'),('log multivariate beta','utils.py:multivariate_betaln')],
 [('tree','which nodes are split, on which feature, where','child1_, child2_, split_dimension_, split_value_')],['fit()'])

prop('C02','Regression trees split exactly where the Bayesian evidence says',
 'In an axis-aligned regression tree, a node holding at least two rows and two different target values (or the root, whatever its targets) is split if some admissible split scores higher than not splitting, and is left a leaf if none does; the split used has the highest score over all features and positions (exact ties may go either way). '
 'With s = partition_prior^(1+depth of the node), not splitting scores (1-s) times the Normal-gamma marginal likelihood of the node\'s targets, and a split scores s / (number of features x number of admissible positions of that feature) times the product of the marginal likelihoods of its two sides, all under the prior in force at the node. '
 'This holds for every data set, prior (including the default one), partition_prior and depth.',
 ['inputs','configurations'],'all finite data sets x all Normal-gamma priors and partition priors, at every node of the tree',
 'The regression tests check one unsplit tree and that the error falls as partition_prior grows; no test compares a chosen split with its alternatives.',
 ['regression.py','base_perpendicular.py'],
 [('search over all features and positions','base_perpendicular.py:_fit'),('cumulative sums of targets and squares per candidate','regression.py:_compute_log_p_data_split'),('Normal-gamma evidence','regression.py:_compute_log_p_data/_compute_posterior_internal')],
 [('tree','which nodes are split, on which feature, where','child1_, child2_, split_dimension_, split_value_')],['fit()'])

prop('C03','Thresholds separate neighbouring, sufficiently distant feature values',
 'Every threshold of an axis-aligned tree lies between two values of its feature that are neighbours among the training rows reaching that node and differ by more than split_precision: strictly above the lower, not above the upper, and at their midpoint up to floating-point rounding. '
 'So training rows with equal values of the split feature, or linked by a chain of gaps not exceeding split_precision, always go to the same side, whatever the magnitude, sign, spacing or number type of the data. '
 'Conversely every pair of neighbours further apart than split_precision is a possible position: none is passed over when it scores clearly best.',
 ['inputs','configurations'],'all finite feature values (neighbouring floats, huge values, negative, duplicated, integer-typed) x all split_precision values >= 0',
 'Tests use a handful of small, well separated floats and never set split_precision.',
 ['base_perpendicular.py'],[('candidate positions from sorted differences','base_perpendicular.py:_fit'),('midpoint','base_perpendicular.py:_fit')],
 [('threshold','split threshold of a node','split_value_')],['fit()'])

prop('C04','Children partition their parent\'s training rows and all counts agree',
 'In every fitted axis-aligned tree each decision node sends every training row that reaches it to exactly one of two children, both non-empty, and the row count reported at every node is the number of training rows routed to it. '
 'Every node other than the root that holds a single row or only one distinct target value is a leaf, every node is one level below its parent, and the reported depth and number of leaves are those of the actual tree. '
 'This holds for every training-set size, including sizes around and beyond the ranges of the small integer types.',
 ['inputs','configurations'],'all data sets of any size (2 rows up to beyond 65536), number of features, classes, and container types',
 'The tests count rows in trees of at most 300 rows and depth 2; index bookkeeping depends on size, depth, ties and features.',
 ['base_perpendicular.py','base.py'],[('per-feature sort indices filtered per child','base_perpendicular.py:_fit'),('depth and leaf recursion','base.py:_update_depth/_update_n_leaves')],
 [('n_data','training rows per node','n_data_'),('tree','child links','child1_, child2_')],['fit()','get_depth()','get_n_leaves()'])

prop('C05','Leaf posteriors and predictions are conjugate updates of the prior',
 'With delta=0, every node of an axis-aligned tree carries the posterior obtained by updating the prior with exactly the targets of its training rows: Dirichlet prior plus class counts, or the Normal-gamma update of (mu, kappa, alpha, beta). '
 'The predicted class is the lowest-numbered class of maximal posterior weight, class probabilities are the normalised posterior weights, and the predicted regression value is the posterior mean. '
 'Without a given prior, the default is max(1, n/100 rounded down) pseudo-observations, n being the number of training rows: that weight for each class, or mean 0 and variance 1.',
 ['inputs','configurations'],'all data sets x all priors (lists, tuples, arrays, default) x all leaves and queries',
 'Tests check posteriors of two tiny trees under the prior (1,1) and one regression mean; every other leaf, prior and class count is unchecked.',
 ['classification.py','regression.py','base_perpendicular.py','base.py'],[('conjugate updates','classification.py:_compute_posterior, regression.py:_compute_posterior_internal'),('leaf prediction','_predict_leaf, _compute_posterior_mean'),('default prior','_get_prior')],
 [('posterior','posterior parameters per node','posterior_')],['predict()','predict_proba()','_get_raw_leaf_data()'])

prop('C06','Every row is routed by its own values, the same in training and prediction',
 'Predictions for a row depend only on that row: each decision compares the row\'s value with the threshold (below goes left, equal or above goes right), independently of the other rows of the batch, their number and order, and of whether values, probabilities, leaf data or decision paths are asked for. '
 'In particular each training row is predicted by the leaf it was counted in, and all kinds of query on a row refer to the same leaf. '
 'Results come back in row order, one per row, for dense and sparse queries of any number of rows, including none.',
 ['inputs','histories'],'all fitted axis-aligned trees x all query batches (sizes 0, 1, many; duplicates; values on a threshold; any order; dense or sparse)',
 'Tests query at most six rows of trees of depth at most 2.',
 ['base.py','base_perpendicular.py'],[('index re-assembly of sub-batches','base.py:_predict'),('threshold comparison','base_perpendicular.py:_compute_child1_and_child2_indices')],
 [],['predict()','predict_proba()','_get_raw_leaf_data()','prediction_paths()'])

prop('C07','Prediction paths list exactly the decisions taken from root to leaf',
 'For every queried row the prediction path contains, in order from the root, one entry per decision node the row passes until its leaf: feature index, feature name, threshold, and whether the row went to the not-below side; nothing is missing, added or taken from another row. '
 'Feature names are those given to fit, else the DataFrame column names, else x0, x1, ....',
 ['inputs','histories'],'all fitted axis-aligned trees (any depth) x all query batches and containers',
 'The only path test uses a tree of depth 2, where sub-batch and row indices still coincide.',
 ['base_perpendicular.py'],[('recursive path assembly','base_perpendicular.py:_update_prediction_paths')],[],['prediction_paths()'])

prop('C08','The model does not depend on how the same numbers are represented',
 'Fitting and querying give the same tree and the same answers whether the same feature values come as nested lists, C- or Fortran-ordered or strided arrays, DataFrames, or CSR/CSC sparse matrices, and in any integer or float type that represents them exactly; likewise for targets given as lists, tuples, arrays of any such type, single-column arrays or (arbitrarily indexed) pandas Series. '
 'Container and number type of queries need not match those used for fitting.',
 ['inputs','configurations'],'all data sets x all pairs of containers and number types for X, y and queries',
 'Tests cover float64 arrays, CSR, CSC and DataFrames on a few data sets; small integer types overflow only for particular values, and Series misbehave only for particular indices.',
 ['base.py','base_perpendicular.py'],[('input normalisation','base.py:_normalize_data_and_feature_names/_ensure_float64'),('sparse column extraction','base_perpendicular.py:_to_array')],[],['fit()','predict()','predict_proba()','prediction_paths()'])

prop('C09','Fitting is deterministic and independent of training-row order',
 'Fitting the same data with the same parameters always gives the same model, for axis-aligned trees and for hyperplane trees with the built-in seeded searches: it neither uses nor changes the global random state and does not depend on verbose or on earlier fits in the process. '
 'An axis-aligned tree additionally is the same for any order of the training rows (exactly representable sums of targets provided).',
 ['inputs','histories','configurations'],'all data sets x all permutations of rows x all earlier histories of the process and global random states',
 'Each test fits every model once; permutations and repetitions are not tried.',
 ['base_perpendicular.py','base_hyperplane.py','hyperplane_optimization.py'],[('sorting per feature','base_perpendicular.py:_fit'),('own seeded RandomState per search','hyperplane_optimization.py')],[],['fit()'])

prop('C10','A model is exactly its parameters plus its last successful fit',
 'Whatever calls came before, a model answers queries as a fresh model with the parameters of, and fitted on the data of, its last successful fit; before that every query is refused and it prints as unfitted. '
 'Queries, printing and refused or failed fits change nothing, no call changes its arguments, fit returns the model itself, and get_params reports the constructor parameters as last set. '
 'Cloning gives an unfitted model with equal parameters; pickling or deep-copying gives an independent model in the same state.',
 ['histories'],'all sequences of construct, fit (valid or rejected), query, print, set_params, clone, copy and pickle calls over several models and data sets, for all four model classes',
 'Tests only ever fit a new model once and query it; no refit, copy, clone or interleaving is exercised.',
 ['base.py','base_perpendicular.py','base_hyperplane.py','classification.py','regression.py'],[('fit overwrites or erases all fitted state','base_perpendicular.py:_fit, base_hyperplane.py:_fit, base.py:_erase_split_info_base'),('fitted marker','base.py:is_fitted')],
 [('fitted state','everything set by fit','posterior_, n_dim_, n_data_, child1_, child2_, split fields')],['all public methods'])

prop('C11','Invalid inputs are refused with ValueError and have no effect',
 'fit raises ValueError when the features are not a two-dimensional table (a single vector counts as one row), the targets are not one column, their lengths differ, or classification targets are not exactly the integers 0..K-1 for the K classes of the prior; queries raise ValueError on an unfitted model or when the number of features differs from that of the fit. '
 'A refused call leaves the model as it was, and well-formed input with at least two rows is never refused.',
 ['inputs','histories','fault_sequences'],'all shapes and label sets of X and y, fitted and unfitted models, all four model classes, dense and sparse',
 'Tests try six bad shapes on unfitted models and never check the state afterwards.',
 ['base.py','classification.py','regression.py'],[('target check','_check_target'),('shape checks','base.py:fit/_normalize_data_and_feature_names'),('query checks','base.py:_ensure_is_fitted')],[],['fit()','predict()','predict_proba()','prediction_paths()','feature_importance()'])

prop('C12','Delta strengthens the prior handed down to each subtree',
 'In an axis-aligned tree with delta > 0, the prior in force in a child that holds several distinct targets is its parent\'s prior updated with the child\'s own training targets at weight delta; that prior governs the child\'s evidence, posterior and further splits, and so on down the tree. '
 'A child with a single row or a single distinct target carries the plain update of its parent\'s prior with its targets. '
 'With delta=0 the prior is the same at every node.',
 ['inputs','configurations'],'all data sets x all delta in [0,1] x all depths',
 'No test sets delta to anything but its default.',
 ['base_perpendicular.py','classification.py','regression.py'],[('prior of the children','base_perpendicular.py:_fit'),('weighted conjugate update','_compute_posterior(delta)')],[('prior','prior of a node','prior')],['fit()','_get_raw_leaf_data()'])

prop('C13','Pruning removes exactly the splits whose two sides predict the same',
 'Fitting with prune=True gives the tree that fitting with prune=False gives, after repeatedly turning every decision node whose children are both leaves with equal predictions into a leaf, until there is none left. '
 'Such a leaf represents all training rows of the removed subtree (count, posterior, prediction), every other node is unchanged, and depth, number of leaves, paths and printed form refer to the pruned tree. '
 'This holds for classification and regression, axis-aligned and hyperplane trees.',
 ['inputs','configurations'],'all data sets and parameters, all trees of any shape and depth',
 'One test prunes a three-leaf tree; cascades of collapses at several depths and on both sides are never exercised.',
 ['base.py'],[('recursive pruning to a fixpoint','base.py:_prune'),('erasing split information','base.py:_erase_split_info_base, _erase_split_info')],[('tree','child links','child1_, child2_')],['fit(prune=True)'])

prop('C14','Feature importance is the normalised evidence gain per feature',
 'For a fitted tree with at least one split, the feature importance of an axis-aligned tree is, per feature, the sum over the splits of that feature present in the tree of the log score gain of splitting over not splitting, divided by the total over all features; it is non-negative and sums to 1, and unused features have 0. '
 'For hyperplane trees each gain is distributed over the features in proportion to the absolute components of the split\'s normal vector before normalising.',
 ['inputs','configurations'],'all data sets, parameters and trees, pruned or not',
 'One test checks rough symmetry under mirroring; the values themselves are never checked.',
 ['base.py','base_perpendicular.py','base_hyperplane.py'],[('gain accumulation','_update_feature_importance'),('normalisation','feature_importance')],[('gain','log score of split and no split per node','best_log_p_data_split_, log_p_data_no_split_')],['feature_importance()'])

prop('C15','Hyperplane trees partition by the sign of the distance to unit hyperplanes',
 'In a fitted hyperplane tree every decision node holds a hyperplane with unit-length normal through the midpoint of two training rows of that node that lie on different sides of it; training rows strictly behind it go to the first child, all others to the second, both are non-empty, and counts, levels, depth, number of leaves and posteriors are those of the rows so routed. '
 'Predictions route every query row by the same rule, independently of the rest of the batch and of dense or sparse storage. '
 'This holds for all built-in searches and any user-defined one (up to rounding of projections).',
 ['inputs','configurations'],'all data sets x all optimizers, seeds, priors and query batches',
 'Tests look at one to three leaves on two-feature data and only check where the root hyperplane crosses one axis.',
 ['base_hyperplane.py','hyperplane_optimization.py','base.py'],[('projection and side','base_hyperplane.py:_fit/_compute_child1_and_child2_indices'),('normal and origin','hyperplane_optimization.py:HyperplaneOptimizationFunction.compute')],
 [('hyperplane','normal and origin per node','best_hyperplane_normal_, best_hyperplane_origin_')],['fit()','predict()','predict_proba()'])

prop('C16','Hyperplane trees use the best split among all evaluated directions',
 'At each node a hyperplane tree uses, among all directions its search evaluated there and all positions between neighbouring distinct projections more than split_precision apart, a split of highest score, provided that it scores higher than not splitting, and otherwise makes the node a leaf (exact ties may go either way). '
 'Scores are those of the axis-aligned trees with positions counted along the direction, and do not depend on the order of the training rows. '
 'The value reported back to the search for a direction is minus the log score of the best split along it (of not splitting if there is no position along it).',
 ['inputs','configurations','schedules'],'all data sets x all sequences of directions a search may evaluate x priors, partition priors, depths',
 'Tests use data whose best direction is obvious and never compare it with the other evaluated directions; duplicated rows in unsorted order are not tried.',
 ['hyperplane_optimization.py','base_hyperplane.py','classification.py','regression.py'],[('best-so-far bookkeeping','hyperplane_optimization.py:HyperplaneOptimizationFunction.compute'),('split or leaf','base_hyperplane.py:_fit')],
 [('best so far','best score, normal and origin of the running search','HyperplaneOptimizationFunction.best_*')],['fit() with a user-defined optimizer'])

prop('C17','The printed tree shows exactly the fitted tree',
 'Printing a fitted model shows every node once, in depth-first order with the first child before the second, indented by its depth: for a decision node its feature name and threshold (or hyperplane), for a leaf its prediction, its number of training rows and, for classifiers, its class probabilities. '
 'Each non-root line is marked with the side of its parent\'s threshold it stands for; an unfitted model prints as unfitted.',
 ['inputs','configurations'],'all fitted trees of any shape, pruned or not, all four model classes',
 'Tests print models but never look at the output.',
 ['base_perpendicular.py','base_hyperplane.py'],[('recursive rendering','_str')],[],['str()','repr()'])

prop('C18','Hyperplane searches honour budget, search space, seed and stopping rule',
 'The random search evaluates exactly its configured number of directions, the quasi-random and the Optuna search their configured number of points; two-point search evaluates its configured number of directions, each the difference of two training rows of different classes; hypercube searches only ever evaluate points of the unit hypercube with one coordinate fewer than features. '
 'The quasi-random points are consecutive points of the R2 sequence (constant steps modulo 1). Simulated annealing evaluates n_scan points and then n_keep points per generation, each one of the n_keep best distinct-valued points so far moved by a random amount, uniform up to spread_factor^generation in every coordinate and clipped to the hypercube, until 50 successive generations bring no improvement of the best value. '
 'Equal seeds give equal sequences of evaluations, different seeds different ones, and every search terminates.',
 ['inputs','configurations','schedules'],'all data sets and objective functions x all settings and seeds of the built-in searches',
 'Tests run each search with one setting and only look at the resulting tree.',
 ['hyperplane_optimization.py'],[('search loops','hyperplane_optimization.py: *Optimizer.solve')],[],['optimizer.solve() with a recording objective'])

prop('C19','The hypercube is mapped uniformly onto the unit (half-)sphere',
 'Points distributed uniformly in the unit hypercube are mapped to points distributed uniformly on the surface of the unit sphere, or half-sphere, with one dimension more; every image has length one and depends on its point only, not on the other points of the call. '
 'The directions of the random search are uniformly distributed over all orientations, and the points simulated annealing and gradient descent start from are uniform in the hypercube.',
 ['inputs'],'all dimensions and all points of the hypercube',
 'Tests sample grids in dimensions 1, 2, 5 and 6.',
 ['utils.py'],[('YPHL mapping','utils.py:hypercube_to_hypersphere_surface')],[],['hypercube_to_hypersphere_surface()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
