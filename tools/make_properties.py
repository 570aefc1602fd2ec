"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['src/bartz/' + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Forest evaluation follows the decision rules',
 "For every forest encoded as heap arrays and every matrix of integer predictors, each point falls in the leaf reached from the root by going left iff the predictor is strictly below the cutpoint, stopping at the first node without a cutpoint or at the bottom level. Evaluating the forest returns that leaf's value for each tree, or their sum over trees, and evaluating an MCMC trace returns the sum for every saved iteration in order. This does not depend on what is stored in the unused slots of the arrays, nor on integer widths, number of trees, depth or number of points.",
 ['inputs', 'configurations'], 'all well-formed forests, depths, tree counts (across the 256 boundaries of the index types), predictors matrices, array types',
 'No stable test evaluates a tree; test_interface (not runnable here) only compares the code with itself.',
 ['grove.py', 'mcmcloop.py'],
 [('traverse_tree/traverse_forest/evaluate_forest', 'grove.py'), ('evaluate_trace', 'mcmcloop.py')],
 observe=['grove.traverse_tree', 'grove.traverse_forest', 'grove.evaluate_forest', 'mcmcloop.evaluate_trace'])
prop('C02', 'Tree shape queries agree with the actual tree',
 "For every well-formed tree, the masks of leaves (with or without the bottom level) and of nodes whose children are both leaves, the depth of each node, and the maximum depth, are those of the tree obtained by walking it from the root. The summaries built on them, i.e., the actual depth of each tree, the distribution of depths over a forest or trace, and the distribution of the number of datapoints per leaf, count exactly the trees and the leaves of that walk.",
 ['inputs'], 'all well-formed trees, forests and traces, all array lengths, all predictors matrices',
 'No stable test calls these functions.',
 ['grove.py', 'debug.py'],
 [('is_actual_leaf, is_leaves_parent, tree_depths, tree_depth', 'grove.py'), ('tree_actual_depth, forest_depth_distr, trace_depth_distr, points_per_leaf_distr', 'debug.py')],
 observe=['grove.*', 'debug.*_distr'])
prop('C03', 'Quantile cutpoints separate the observed values evenly',
 "For every predictor, the quantile-based cutpoints are strictly increasing, lie halfway between pairs of consecutive distinct observed values, and their number is the smaller of the number of distinct values minus one and the maximum number of bins (not above the number of observations) minus one, as reported. If they are as many as the gaps between distinct values, binning gives each distinct value its own bin in order; otherwise the number of distinct values falling in each bin differs by less than one from an equal share. Unused cutpoint slots are at the end of the row and filled with the largest value of the predictors' type.",
 ['inputs', 'configurations'], 'all predictors matrices (integer types and floats, ties, constants, extremes), all maximum numbers of bins',
 'The tests sample six tiny hand-written matrices.',
 ['prepcovars.py', 'jaxext.py'],
 [('quantilized_splits_from_matrix', 'prepcovars.py'), ('unique', 'jaxext.py')],
 observe=['prepcovars.quantilized_splits_from_matrix'])
prop('C04', 'Uniform cutpoints form an evenly spaced grid inside the data range',
 "For every predictors matrix and number of bins, the uniform grid has for each predictor exactly one cutpoint less than the number of bins, evenly spaced between the minimum and maximum observed value of that predictor with the two endpoints excluded. The reported number of usable cutpoints is the same for all predictors and equal to the length of the grid.",
 ['inputs', 'configurations'], 'all predictors matrices (int and float, constant rows, no observations) and all numbers of bins',
 'No stable test calls the uniform grid.',
 ['prepcovars.py'], [('uniform_splits_from_matrix', 'prepcovars.py')],
 observe=['prepcovars.uniform_splits_from_matrix'])
prop('C05', 'Binning maps each value to the interval that contains it',
 "For every sorted row of cutpoints, possibly right-padded with the largest value of the type, a value is mapped to bin i iff it is above the (i-1)-th and at most the i-th cutpoint, so the bin is the number of cutpoints strictly below the value, whatever search method is selected. Bins are monotone in the value, never exceed the number of actual cutpoints, and are stored in the smallest unsigned type that fits the length of the row of cutpoints.",
 ['inputs', 'configurations'], 'all cutpoint matrices, value matrices, types, search methods, values on and off the cutpoints',
 'The tests check three values against one row of cutpoints.',
 ['prepcovars.py', 'jaxext.py'], [('bin_predictors', 'prepcovars.py'), ('autobatch', 'jaxext.py')],
 observe=['prepcovars.bin_predictors'])
prop('C06', 'Predictions apply the sampled trees to the raw predictors',
 "For every fitted regression and every test matrix, the prediction of each saved sample is the prior mean offset plus the scale times the sum of that sample's trees, where at each decision node a point goes left iff its raw predictor is at most the cutpoint determined from the training data. Hence predicting at the training predictors reproduces the training fit exactly, test predictions requested at construction equal those requested later, and two points in the same intervals of the cutpoints (also outside of the training range) get identical predictions. The posterior mean outputs are the averages over the saved samples.",
 ['inputs', 'configurations', 'histories'], 'all training and test matrices, both kinds of cutpoints, all MCMC settings and seeds',
 'No stable test fits a regression.',
 ['BART.py', 'mcmcloop.py', 'prepcovars.py', 'grove.py'], [('gbart.predict, gbart.yhat_train', 'BART.py'), ('evaluate_trace', 'mcmcloop.py'), ('bin_predictors', 'prepcovars.py')],
 observe=['gbart.predict', 'gbart.yhat_train', 'gbart.yhat_test', 'gbart.yhat_*_mean'])
prop('C07', 'Every MCMC state is internally coherent',
 "Starting from the initial state, after any number of MCMC steps and with any configuration, the cached residuals equal the responses minus the current forest prediction up to roundoff, the cached leaf assignment of each datapoint is the leaf it actually falls into in each tree, and the cached flags of leaves with enough points to be split match the actual counts. Each step changes each tree by at most one grown leaf or one pruned pair of leaves, and the reported counts of proposed and accepted grow and prune moves match these changes. Data, prior and configuration fields are carried along unchanged.",
 ['histories', 'configurations', 'inputs'], 'all chains of steps from all initial configurations (data, depth, trees, minimum points, batching, float types)',
 'No stable test runs the MCMC; a stale cache only shows after particular sequences of accepted and rejected moves.',
 ['mcmcstep.py'],
 [('apply_grow_to_indices, apply_moves_to_leaf_indices, apply_moves_to_split_trees', 'mcmcstep.py'), ('accept_move_and_sample_leaves', 'mcmcstep.py')],
 state=[('resid', 'data minus forest', 'mcmcstep.init'), ('leaf_indices', 'leaf of each datapoint', 'mcmcstep.init'), ('affluence_trees', 'leaf can be split', 'mcmcstep.init')],
 observe=['mcmcstep.step', 'mcmcstep.sample_trees'])
prop('C08', 'Every sampled tree uses only valid decision rules',
 "In every state and trace produced by the MCMC, each tree is a proper binary tree: every node with a cutpoint other than the root hangs from a node with a cutpoint, every decision node splits on an existing predictor, and its cutpoint lies in the range of that predictor's cutpoints left available by its ancestors, so that both children are reachable by some predictor value. In particular predictors without cutpoints are never used, a node where no predictor has available cutpoints is never split, and no node is below the maximum depth. Leaf values are finite.",
 ['histories', 'configurations', 'inputs'], 'all chains, numbers of cutpoints per predictor (including 0, 1, and the integer type boundaries), depths, numbers of predictors',
 'No stable test runs the MCMC; exhausted predictors need deep trees on few cutpoints.',
 ['mcmcstep.py'], [('choose_variable, split_range, choose_split, growable_leaves', 'mcmcstep.py')],
 observe=['mcmcstep.step', 'mcmcloop.run_mcmc', 'gbart'])
prop('C09', 'No leaf has less than the minimum number of datapoints',
 "If a minimum number of datapoints per leaf is set, in every state produced by the MCMC each leaf of each tree that has been split contains at least that many training datapoints, and a leaf with less than twice the minimum is never even proposed for splitting. With fewer datapoints than twice the minimum, all trees stay single leaves forever. The regression interface applies a minimum of 5 unless overridden.",
 ['histories', 'configurations', 'inputs'], 'all chains, minimums (including none and 0), datasets with ties and skewed predictors',
 'No stable test runs the MCMC.',
 ['mcmcstep.py', 'BART.py'], [('growable_leaves, accept_moves_parallel_stage, accept_move_and_sample_leaves', 'mcmcstep.py'), ('_setup_mcmc', 'BART.py')],
 observe=['mcmcstep.step', 'mcmcstep.sample_moves', 'gbart'])
prop('C10', 'Moves are accepted with the exact Metropolis-Hastings ratio',
 "For every state and every proposed grow or prune move, the move is accepted iff it is possible, it respects the minimum number of datapoints per leaf, and the log of its uniform variable is not above the log of the exact Metropolis-Hastings ratio: ratio of tree prior probabilities, times ratio of proposal probabilities, times ratio of the likelihoods with leaf values integrated out, given all the other trees at that point of the sweep and the noise variance. If saving the ratios is requested, the reported log prior-transition and log likelihood ratios are the ones of the move, in the grow direction (i.e., not inverted for prune moves). If accepted the state gets exactly the proposed rule or loses exactly the pruned node, otherwise the tree is unchanged.",
 ['inputs', 'histories', 'configurations'], 'all valid states, proposals, priors on depth, noise variances, minimum points, datasets',
 'No stable test runs the MCMC; the excluded tests compare posterior means loosely against R.',
 ['mcmcstep.py'], [('compute_partial_ratio, compute_p_prune, complete_ratio', 'mcmcstep.py'), ('precompute_likelihood_terms, compute_likelihood_ratio', 'mcmcstep.py'), ('accept_move_and_sample_leaves', 'mcmcstep.py')],
 observe=['mcmcstep.sample_moves + accept_moves_and_sample_leaves', "state field 'ratios'"])
prop('C11', 'Move proposals follow their declared distribution',
 "For every state, each tree independently proposes growing or pruning with probability one half when both are possible, and otherwise the one that is possible; a tree which can do neither proposes nothing. A grow picks among the splittable leaves with probability proportional to the prior probability of being split at their depth, a predictor uniformly among those with available cutpoints, and a cutpoint uniformly among the available ones; a prune picks uniformly among the nodes whose children are both leaves. The underlying random integer samplers return only allowed values, with the declared probabilities, and their documented sentinel if there are none.",
 ['inputs', 'configurations'], 'all valid states, keys, priors on depth, available cutpoints; distribution over random keys',
 'No stable test draws a proposal; distributions need many draws on many trees.',
 ['mcmcstep.py'], [('sample_moves, grow_move, prune_move', 'mcmcstep.py'), ('categorical, randint_exclude, randint_masked', 'mcmcstep.py')],
 observe=['mcmcstep.sample_moves', 'mcmcstep.randint_exclude', 'mcmcstep.randint_masked', 'mcmcstep.categorical'])
prop('C12', 'The MCMC leaves the BART posterior invariant',
 "If the trees, leaf values and noise variance are drawn from the BART posterior, they still have that distribution after any number of MCMC steps; equivalently, parameters drawn from the prior with data simulated from them remain distributed as the prior. The prior has independent trees with probability proportional to the product of the split probabilities of decision nodes, the no-split probabilities of leaves, and uniform choices of the available predictors and cutpoints, restricted to trees that respect the minimum number of datapoints per leaf, normal leaf values with variance one over the number of trees, and inverse gamma noise variance. Without data the chain samples the prior.",
 ['histories', 'configurations', 'inputs'], 'all configurations (trees, depth, priors, predictors, minimum points); distribution over random keys and long chains',
 'No stable test runs the MCMC; a wrong stationary distribution leaves every state valid.',
 ['mcmcstep.py', 'mcmcloop.py'], [('step: sample_trees + sample_sigma', 'mcmcstep.py')],
 observe=['mcmcstep.sample_trees', 'mcmcstep.step', 'mcmcloop.run_mcmc'])
prop('C13', 'Leaf values and noise variance come from their exact conditionals',
 "At every step, given the sampled tree structures, the value of each leaf is a normal draw with the conjugate posterior mean and variance computed from the residuals of the datapoints in the leaf with respect to all the other trees at that point of the sweep, independently across leaves, trees and steps, both for leaves involved in accepted or rejected moves and for the others. The noise variance is then an inverse gamma draw with shape increased by half the number of datapoints and scale increased by half the sum of squared residuals. Empty leaves are drawn from the prior.",
 ['histories', 'configurations', 'inputs'], 'all chains and configurations; distribution over random keys',
 'No stable test runs the MCMC.',
 ['mcmcstep.py'], [('precompute_leaf_terms, accept_move_and_sample_leaves', 'mcmcstep.py'), ('sample_sigma', 'mcmcstep.py')],
 observe=['mcmcstep.step', 'mcmcstep.sample_sigma'])
prop('C14', 'Saved traces are the requested subsample of one chain',
 "For every number of burn-in iterations, saved samples and thinning factor, running the MCMC loop with a given key traces a single chain of burn-in plus saved times thinning iterations that does not depend on how they are divided: the burn-in trace holds the first iterations, the main trace every thinning-th state after them, and the final state is the last of the chain. Traces contain the documented fields, with zero length when no iteration is requested, and each iteration uses fresh randomness. The noise samples (burn-in ones included) and fitted values of a regression are those of the same iterations of its chain. The callback is called exactly once per iteration with the right iteration counters, burn-in flag and current state.",
 ['configurations', 'histories'], 'all combinations of burn-in, saved and thinning numbers (including 0 and 1), states and keys',
 'The only test of this is not runnable here and checks three combinations.',
 ['mcmcloop.py', 'BART.py'], [('run_mcmc', 'mcmcloop.py'), ('gbart._run_mcmc', 'BART.py')],
 observe=['mcmcloop.run_mcmc', 'gbart.sigma/first_sigma/yhat_train'])
prop('C15', 'MCMC steps are pure, reproducible and preserve the state layout',
 "For every state and key, an MCMC step does not modify its input (arrays, dictionary and nested dictionaries), returns a state with the same fields, shapes and types so that it can be fed back, and gives the same result each time it is called with the same key, be it eager, compiled, or vectorized over keys. Different keys give different draws. The same holds for the whole regression given its seed, where an integer seed is equivalent to the random key built from it, and which does not depend on what was run before in the same process; the caller's arrays and settings are left untouched.",
 ['inputs', 'configurations', 'histories'], 'all states, keys and configurations (float types, saved ratios, minimum points)',
 'No stable test runs the MCMC.',
 ['mcmcstep.py', 'mcmcloop.py', 'BART.py'], [('functional update of the state dict', 'mcmcstep.py'), ('key splitting', 'mcmcstep.py')],
 observe=['mcmcstep.step', 'gbart'])
prop('C16', 'The progress log reports the actual iterations and move statistics',
 "For every logging period and MCMC length, the log has exactly one line for each iteration whose 1-based index is a multiple of the period, showing that index, the total number of iterations including burn-in and thinned ones, the fraction of trees which proposed a grow and a prune move and the acceptance rates of these moves at that iteration. A line is marked as burn-in iff the iteration belongs to the burn-in.",
 ['configurations', 'histories'], 'all logging periods, burn-in, saved and thinning numbers, chains',
 'No test looks at the log.',
 ['mcmcloop.py', 'BART.py'], [('make_simple_print_callback, _simple_print_callback', 'mcmcloop.py')],
 observe=['standard output'])
prop('C17', 'The regression is equivariant to affine changes of the responses',
 "If the responses are shifted by a constant and multiplied by a positive constant, everything else being equal, the offset, scale, noise estimates, fitted and predicted values and error standard deviations transform in the same way (shifted and scaled, scaled, or scaled by the square as due), for the same seed. When the arithmetic on the responses is exact in floating point the sampled trees are the same.",
 ['inputs', 'configurations'], 'all datasets, shifts and positive scalings, settings and seeds',
 'The only test of this is not runnable here and samples one shift and scale.',
 ['BART.py'], [('_transform_input, _transform_output, _extract_sigma, _process_*_settings', 'BART.py')],
 observe=['gbart attributes'])
prop('C18', 'Priors are set from data and arguments as documented',
 "For every dataset and arguments, the regression uses as offset the mean of the responses (or the given one), as scale half their range divided by k, and as noise estimate the given one, or the standard deviation of the residuals of the linear regression with intercept on the predictors (residual sum of squares over number of datapoints minus rank of the centered predictors), or the standard deviation of the responses if there are not more datapoints than predictors. The inverse gamma prior on the noise variance has shape half the degrees of freedom and harmonic mean lamda, and when lamda is not given, lamda is such that the prior probability of a variance below the squared noise estimate is sigquant. A node at depth d is split with prior probability base / (1 + d) ** power up to the given maximum depth, and responses and noise prior are standardized consistently before sampling. Leaving out an argument is the same as passing its documented default.",
 ['inputs', 'configurations'], 'all datasets (sizes, ranks), all combinations of given and omitted hyperparameters',
 'No stable test builds a regression.',
 ['BART.py', 'jaxext.py', 'mcmcstep.py'], [('_process_noise_variance_settings, _process_offset_settings, _process_scale_settings, _setup_mcmc', 'BART.py'), ('invgamma.ppf', 'jaxext.py')],
 observe=['gbart.offset, scale, lamda, sigest', 'gbart initial MCMC configuration'])
prop('C19', 'Automatic batching does not change the result of a function',
 "For every function that acts independently along the batched axes, every size limit, and every choice of batched axes for inputs and outputs (including unbatched inputs, nested structures, empty arrays), the batched function returns the same values, shapes and types as the original one. The number of batches divides the size of the batched axis, each batch has at most the given number of bytes unless even single elements are larger, in which case a warning is raised, and only in that case; if everything fits there is one batch.",
 ['inputs', 'configurations', 'programs'], 'all batchable functions, shapes, axes, byte limits',
 'The tests sample a dozen shapes with one function.',
 ['jaxext.py'], [('autobatch', 'jaxext.py')],
 observe=['jaxext.autobatch'])
prop('C20', 'Batch sizes, ratio saving and data order do not change a step',
 "For every state and key, the result of an MCMC step does not depend, up to floating point roundoff, on the batch sizes used to sum residuals and to count datapoints (including none, one, larger than the dataset, and automatic), nor on whether the Metropolis-Hastings ratios are saved. Reordering the datapoints reorders the per-datapoint fields and leaves the trees the same.",
 ['configurations', 'inputs', 'histories'], 'all batch sizes, data orders, states and keys',
 'No stable test runs the MCMC.',
 ['mcmcstep.py'], [('_aggregate_scatter, _aggregate_batched_onetree, _aggregate_batched_alltrees', 'mcmcstep.py'), ('_choose_suffstat_batch_size', 'mcmcstep.py')],
 observe=['mcmcstep.step', 'mcmcstep.init'])
prop('C21', 'Numeric utilities match their reference definitions',
 "For every input, finding unique values returns the sorted distinct values, cut or padded to the requested length, and how many slots are used; the minimal unsigned type is the smallest that represents the maximum; signed types map to the unsigned type of the same width without changing the bits; the largest value of a type is its maximum (infinity for floats). The inverse incomplete gamma function and the inverse gamma quantile function match scipy elementwise with broadcasting, also when compiled or vectorized. Configuration dictionaries stored in a state pass unchanged through compiled and mapped functions as static values.",
 ['inputs', 'configurations'], 'all arrays, types, lengths, probabilities and shapes',
 'The tests check four arrays; the other utilities are not tested.',
 ['jaxext.py'], [('unique, minimal_unsigned_dtype, signed_to_unsigned, ensure_unsigned, huge_value', 'jaxext.py'), ('scipy.special.gammainccinv, scipy.stats.invgamma.ppf, pure_callback_ufunc', 'jaxext.py'), ('LeafDict', 'jaxext.py')],
 observe=['jaxext.*'])
prop('C22', 'Degenerate datasets and settings give well-defined results',
 "With no datapoints, one, two, or fewer than needed to split, with constant, binary or duplicated predictors, with a single tree, with trees of maximum depth 1 or 2, with no cutpoints, with zero burn-in or zero saved samples, the regression runs and returns arrays of the documented shapes with finite values. Without datapoints the offset is 0, and with less than two the scale and the noise estimate are 1. If no split is possible all the fitted values of a sample are equal.",
 ['inputs', 'configurations'], 'all combinations of degenerate sizes, predictors and settings (responses not all equal if more than one)',
 'The tests of this are not runnable here and check one case per kind.',
 ['BART.py', 'mcmcstep.py', 'mcmcloop.py', 'prepcovars.py'], [('_process_*_settings', 'BART.py'), ('ancestor_variables, split_range', 'mcmcstep.py'), ('empty_trace', 'mcmcloop.py')],
 observe=['gbart'])
prop('C23', 'Tree diagnostics flag exactly the malformed trees',
 "The tree checker reports no error on any well-formed tree, including every tree produced by the MCMC, and on any other tree reports exactly the violated conditions: wrong types, wrong sizes, non-zero values in the unused slot, non-finite leaf values, decision nodes hanging from leaves; applied to a trace it does so for each tree of each iteration. The tree printer shows exactly the nodes of the tree, with the predictor and cutpoint of decision nodes and the value of leaves.",
 ['inputs'], 'all well-formed trees and corruptions thereof, chains',
 'No stable test calls the diagnostics.',
 ['debug.py', 'BART.py'], [('check_tree, check_functions, describe_error, check_trace, print_tree', 'debug.py')],
 observe=['debug.check_tree', 'debug.check_trace', 'debug.print_tree'])
prop('C24', 'Equivalent encodings of the data give identical regressions',
 "Passing predictors as a matrix or as a dataframe of any supported library (one observation per row), and responses as an array or a series, gives identical results, also at prediction; predicting with a matrix with a different number of predictors, a dataframe with different columns, or a different kind of container than in training is rejected, as are predictors and responses of different lengths. With quantile-based cutpoints and a given noise estimate, any strictly increasing transformation of the predictors leaves the fit at the training points unchanged; with uniform cutpoints the same holds for exact increasing affine transformations.",
 ['inputs', 'configurations'], 'all datasets, containers, column sets, monotone transformations',
 'No stable test builds a regression.',
 ['BART.py', 'prepcovars.py'], [('_process_predictor_input, _process_response_input, _check_compatible_formats, _check_same_length', 'BART.py'), ('quantilized_splits_from_matrix, uniform_splits_from_matrix', 'prepcovars.py')],
 observe=['gbart', 'gbart.predict'])
prop('C25', 'The whole regression can be compiled',
 "For every dataset and settings, running the regression and its predictions inside a compiled function works and gives the same results as running it directly, up to floating point roundoff.",
 ['inputs', 'configurations'], 'all datasets, settings and seeds',
 'The only test of this is not runnable here and checks one setting.',
 ['BART.py', 'mcmcstep.py', 'mcmcloop.py', 'jaxext.py'], [('no data-dependent Python control flow', 'BART.py'), ('_choose_suffstat_batch_size platform detection under tracing', 'mcmcstep.py')],
 observe=['jax.jit of a function that uses gbart'])
prop('C26', 'The initial MCMC state is the null model of the given configuration',
 "For every configuration, the initial state has single-leaf trees with zero value, residuals equal to the responses, all datapoints in the root, zero counters, noise variance equal to the harmonic mean of its prior (1 if that is not finite and positive), and the given data, priors and options. Arrays have the documented shapes and the smallest integer types that fit their range, the probability of a decision node is padded with a zero for the bottom level, and the probability of proposing to grow each leaf is that of its depth. Batch sizes chosen automatically are positive integers, or no batching, not above the number of datapoints unless the forest alone exceeds the memory limit.",
 ['inputs', 'configurations'], 'all data shapes, types, priors, minimum points, float types and batching options',
 'No stable test builds a state.',
 ['mcmcstep.py', 'grove.py'], [('init, _choose_suffstat_batch_size', 'mcmcstep.py'), ('make_tree, tree_depths', 'grove.py')],
 observe=['mcmcstep.init'])
prop('C27', 'Summaries of a regression agree with its saved samples',
 "For every regression, the noise standard deviations are the scale times the square root of the saved variances, the posterior means at training and test points are the averages over the saved samples, and the diagnostics of the regression object summarize its own saved samples: acceptance, proposal and move rates are ratios of the total counts, the distributions of tree depths and of datapoints per leaf count the trees and leaves of each saved sample, the residuals and harmonic means of the noise are those of the final state and of the prior, the shown tree is the requested one, and trees are flagged as malformed, or as becoming malformed, exactly at the samples where they are, or where they are and were not at the previous one.",
 ['inputs', 'configurations', 'histories'], 'all datasets, settings, saved samples (including corrupted ones for the last item)',
 'No stable test builds a regression.',
 ['BART.py', 'debug.py'], [('_extract_sigma, yhat_*_mean', 'BART.py'), ('_avg_acc, _avg_prop, _avg_move, _sigma_harmonic_mean, _compare_resid, _depth_distr, _points_per_leaf_distr, _check_trees, _tree_goes_bad, _show_tree', 'BART.py')],
 observe=['attributes and private diagnostic methods of gbart'])
prop('C28', 'The guarantees hold in 64 bit mode',
 "With 64 bit types enabled in JAX, and any combination of 32 and 64 bit data and of 16, 32 and 64 bit floats for the MCMC state, steps preserve the types and shapes of the state, which stays valid and coherent with the data, and repeated runs are identical. Cutpoints, bins, unique values and inverse gamma quantiles follow their definitions at the precision of the input type, so that 64 bit predictors are not rounded to 32 bits. Regressions run and give finite predictions equal to the sum over trees walked on the raw predictors, with offset, scale and noise prior set from the data as in 32 bit mode.",
 ['inputs', 'configurations', 'histories'], 'all datasets, 32/64 bit input types, float types of the state, settings, keys',
 'No test enables 64 bit types.',
 ['mcmcstep.py', 'mcmcloop.py', 'BART.py', 'prepcovars.py', 'jaxext.py', 'grove.py'], [('init, step, sample_sigma', 'mcmcstep.py'), ('quantilized_splits_from_matrix, uniform_splits_from_matrix, bin_predictors', 'prepcovars.py'), ('unique, gammainccinv', 'jaxext.py')],
 observe=['mcmcstep.step', 'gbart', 'prepcovars.*', 'jaxext.*'])
prop('C29', 'Memory and program size do not grow beyond data, trees and samples',
 "For every size of the problem, an MCMC step and a whole chain need working memory proportional to the datapoints, the nodes of the trees and the trees times predictors, plus copies of the state: never a number for each datapoint and predictor or tree, nor for each iteration which is not saved. Predictions do not need more memory with more saved samples, and operations on predictors and predictions process data in batches of at most 512 MB, or a single predictor or tree, as do the counts of datapoints per leaf on gpu. The compiled program does not get longer with more datapoints, trees or iterations.",
 ['inputs', 'configurations'], 'all numbers of datapoints, predictors, trees, levels, samples, iterations, types and batching options (counting in one go)',
 'Tests use problems which fit in memory whatever the algorithm.',
 ['mcmcstep.py', 'mcmcloop.py', 'prepcovars.py', 'jaxext.py'], [('_count_scan, _aggregate_scatter, apply_grow_to_indices, accept_moves_sequential_stage, _choose_suffstat_batch_size', 'mcmcstep.py'), ('run_mcmc, evaluate_trace', 'mcmcloop.py'), ('quantilized_splits_from_matrix, bin_predictors', 'prepcovars.py'), ('autobatch', 'jaxext.py')],
 observe=['memory analysis of compiled mcmcstep.step, mcmcloop.run_mcmc, mcmcloop.evaluate_trace, prepcovars.*'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
