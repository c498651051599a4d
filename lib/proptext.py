P = [
 dict(id="N01", title="Nearest-neighbour answers are exact",
  statement="For every set of finite points, query point, metric (l1, l2, squared l2, inf), k, distance bound and a tolerance of zero, a k-nearest-neighbour query returns exactly the k smallest distances not above the bound (all of them if there are fewer), in ascending order, each with the index of a distinct point at that distance; with a positive tolerance each returned distance exceeds the exact one by at most the tolerance. In-frame queries count the row itself as a neighbour and therefore return k + 1.",
  over=["inputs"], q="all finite point sets, dimensions, metrics, k, bounds, tolerances",
  why="Tests compare a handful of random or tiny data sets with brute force; pruning errors need particular geometry, ties, duplicates or bounds lying exactly on a distance.",
  files=["src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/num_ext/knn.rs", "src/pymodels/py_kdt.rs", "python/polars_ds/spatial.py", "python/polars_ds/exprs/expr_knn.py"],
  mech=[("box distance lower bound", "src/arkadia/kdt.rs:_closest_dist_to_box"), ("pruned traversal", "src/arkadia/kdt.rs:knn_one_step"), ("top-k maintenance", "src/arkadia/kdt.rs:update_top_k"), ("metrics", "src/utils/mod.rs:DIST::dist")]),
 dict(id="N02", title="Radius queries return exactly the points within the radius",
  statement="For every set of points, query point, metric and radius, a radius query returns every point at distance at most the radius and no other, each once, ascending by distance when sorting is requested, and the count query returns the number of those points. This holds for scalar and per-row radii; a row with a missing coordinate has a missing answer and is never a neighbour.",
  over=["inputs"], q="all point sets, metrics, radii (scalar, per row), sort and distance switches",
  why="Tests use a few fixed radii; a wrongly pruned box or a strict comparison shows only for radii equal to a distance or for particular geometry.",
  files=["src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/num_ext/knn.rs", "src/pymodels/py_kdt.rs", "python/polars_ds/spatial.py", "python/polars_ds/exprs/expr_knn.py"],
  mech=[("within traversal", "src/arkadia/kdt.rs:within_one_step"), ("count traversal", "src/arkadia/kdt.rs:within_count_one_step")]),
 dict(id="N03", title="Masks, missing values and averages in neighbour queries",
  statement="Neighbours are drawn only from rows that the data mask keeps and that have no missing feature, every evaluated row without a missing feature gets the nearest of those, and every other row gets a missing answer, with results identified by the user's index values. The k-nearest-neighbour average is the plain (or inverse-distance weighted) mean of the target over the nearest rows whose distance lies between the two bounds, and is missing when there is none; frequency counts are the tallies of the pointwise answers.",
  over=["inputs"], q="all frames, masks, missing-value patterns, index values, bounds, weights",
  why="Tests exercise one mask at a time on small complete frames, never combinations of masks, missing values, chunked columns and empty candidate pools.",
  files=["src/num_ext/knn.rs", "src/arkadia/mod.rs", "src/arkadia/utils.rs", "python/polars_ds/exprs/expr_knn.py"],
  mech=[("candidate filter", "src/num_ext/knn.rs:row_major_slice_to_leaves_filtered"), ("average", "src/arkadia/mod.rs:knn_regress")]),
 dict(id="N04", title="Parallel evaluation never changes a result",
  statement="For every operation that offers a parallel switch, the values, their order, the missing entries and the number of rows are the same with the switch on and off, whatever the number of rows and worker threads.",
  over=["inputs", "schedules", "configurations"], q="all inputs, row counts and thread counts; every operation with the switch",
  why="Tests compare one size; a wrong split shows only when the row count is smaller than, or not a multiple of, the number of workers.",
  files=["src/utils/mod.rs", "src/num_ext/knn.rs", "src/str_ext/generic_str_distancer.rs", "src/pymodels/py_kdt.rs"],
  mech=[("row partition", "src/utils/mod.rs:split_offsets"), ("chunked evaluation", "src/num_ext/knn.rs:knn_ptwise")]),
 dict(id="N05", title="A spatial tree grown by insertion equals one built in bulk",
  statement="After any sequence of insertions, a spatial tree reports the number of all points inserted, numbers them in insertion order, and answers nearest-neighbour and radius queries exactly as brute force over all inserted points would. An insertion of the wrong dimension is refused and changes nothing.",
  over=["histories", "inputs"], q="all sequences of construction and insertion batches, and all queries after them",
  why="Tests add one batch once; node splits, duplicates, one-sided and outlying insertions arise only in longer histories.",
  files=["src/arkadia/kdt.rs", "src/arkadia/leaf.rs", "src/pymodels/py_kdt.rs", "python/polars_ds/spatial.py"],
  mech=[("insertion and split", "src/arkadia/kdt.rs:add_unchecked"), ("bounding boxes", "src/arkadia/kdt.rs:update_and_push")]),

 dict(id="R01", title="Least-squares answers solve the normal equations",
  statement="For every full-rank design, ordinary, ridge and weighted least squares (single and multi target, with and without intercept, every solver, 32 and 64 bit) return coefficients whose residuals satisfy the (weighted, penalised) normal equations, the intercept never penalised; predictions and residuals are the design times those coefficients and the target minus them. The report's standard errors, t statistics, p values, confidence bounds, R2 and adjusted R2, and the singular values and reciprocal-condition variant, agree with their textbook definitions, and the one-regressor shorthand agrees with the general solver.",
  over=["inputs", "configurations"], q="all full-rank designs, weights, penalties, solvers, intercept and precision switches",
  why="Tests compare a few random well-conditioned designs with one reference library and never sweep solver x penalty x weights x intercept x precision.",
  files=["src/linalg/lr_solvers.rs", "src/linalg/mod.rs", "src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "python/polars_ds/exprs/expr_linear.py", "python/polars_ds/linear_models.py", "src/pymodels/py_lr.rs"],
  mech=[("closed-form solver", "src/linalg/lr_solvers.rs:faer_solve_lstsq"), ("weighted solver", "src/linalg/lr_solvers.rs:faer_weighted_lstsq"), ("report", "src/num_ext/linear_regression.rs:pl_lin_reg_report")]),
 dict(id="R02", title="Missing-value policies of the linear expressions keep rows aligned",
  statement="Under every missing-value policy a linear-regression expression fits on exactly the rows that the policy keeps (with missing features replaced as the policy says), and its row-wise output has one entry per input row, in input order, missing exactly on the rows the policy dropped. The raising policy fails if and only if a value is missing.",
  over=["inputs", "configurations"], q="all missing-value patterns over target and features, all policies, all output modes",
  why="Tests use one or two fixed patterns of missing values; misalignment needs particular rows and policies.",
  files=["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/utils/mod.rs", "src/linalg/mod.rs", "python/polars_ds/exprs/expr_linear.py"],
  mech=[("null policy", "src/utils/mod.rs:NullPolicy"), ("matrix preparation", "src/num_ext/linear_regression.rs:series_to_mat_for_lstsq")]),
 dict(id="R03", title="Rolling and recursive regressions equal refitting each window",
  statement="For every row, the coefficients and prediction of a recursive (rolling) regression equal those of refitting on all rows up to it (on the last window of rows) from scratch, with the same penalty and intercept, and are missing before the first full start or window; rows with missing values follow the stated minimum-size and skipping rule.",
  over=["inputs", "histories"], q="all sequences of rows, window sizes, start sizes, penalties, missing-value patterns",
  why="Tests compare short complete sequences; drift and missing-value handling depend on the history of updates.",
  files=["src/linalg/lr_online_solvers.rs", "src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "python/polars_ds/exprs/expr_linear.py"],
  mech=[("rolling update", "src/linalg/lr_online_solvers.rs:faer_rolling_lstsq"), ("recursive update", "src/linalg/lr_online_solvers.rs:faer_recursive_lstsq")]),
 dict(id="R04", title="Online updates of a linear model equal a refit",
  statement="After fitting an online linear model and any sequence of single-row updates (adding a row, or removing one that was added), its coefficients and bias equal those of a fit on the resulting multiset of rows. A failed or rejected update leaves the model as it was, and a model that was never fitted says so instead of crashing.",
  over=["histories", "inputs"], q="all fits followed by all sequences of updates and removals",
  why="Tests perform a few additions on one random data set; removal, bias, penalties and restarts multiply the histories.",
  files=["src/linalg/lr_online_solvers.rs", "src/pymodels/py_lr.rs", "python/polars_ds/linear_models.py"],
  mech=[("rank-one update", "src/linalg/lr_online_solvers.rs:woodbury_step"), ("model state", "src/linalg/lr_online_solvers.rs:OnlineLR")]),
 dict(id="R05", title="Lasso and elastic net reach the penalised optimum",
  statement="When coordinate descent stops before its iteration limit, the coefficients and bias satisfy the optimality conditions of the documented lasso or elastic-net objective up to the requested tolerance; the non-negative solver satisfies the non-negative least-squares conditions with no negative coefficient. Penalties of zero reproduce least squares.",
  over=["inputs", "configurations"], q="all designs, penalties, tolerances, bias and positivity switches",
  why="Tests compare two penalty values with another library at one tolerance on one data set.",
  files=["src/linalg/lr_solvers.rs", "src/linalg/mod.rs", "python/polars_ds/exprs/expr_linear.py", "python/polars_ds/linear_models.py"],
  mech=[("coordinate descent", "src/linalg/lr_solvers.rs:faer_coordinate_descent"), ("soft thresholding", "src/linalg/lr_solvers.rs:soft_threshold_l1")]),
 dict(id="M01", title="Confusion-matrix metrics follow their definitions",
  statement="For every pair of 0/1 target and prediction columns the confusion matrix holds the four counts, and every rate derived from it (and the Matthews coefficient, F scores, fairness and multi-class variants) equals its definition over those counts, as a real number, for all sizes; a rate with an empty denominator is the documented missing or not-a-number value and never a crash.",
  over=["inputs"], q="all binary and multi-class target/prediction columns of any size",
  why="Tests use one fixed table; integer division, overflow and empty-denominator cases need specific counts.",
  files=["src/num_ext/tp_fp.rs", "python/polars_ds/exprs/metrics.py"],
  mech=[("rates", "src/num_ext/tp_fp.rs:pl_binary_confusion_matrix"), ("Matthews coefficient", "python/polars_ds/exprs/metrics.py:query_mcc")]),
 dict(id="M02", title="Ranking metrics match their definitions, ties included",
  statement="For every score column with any ties, the ROC area equals the probability that a random positive outranks a random negative with ties counting one half, average precision equals the recall-weighted sum of precisions over distinct thresholds, and the reported true and false positive counts and rates at each threshold are those of predicting positive at scores not below it. Combined binary metrics equal the separate ones.",
  over=["inputs"], q="all score columns, tie patterns, thresholds and class balances",
  why="Tests use continuous random scores, where ties, single thresholds and extreme thresholds do not occur.",
  files=["src/num_ext/tp_fp.rs", "src/num_ext/trapz.rs", "python/polars_ds/exprs/metrics.py"],
  mech=[("threshold table", "src/num_ext/tp_fp.rs:tp_fp_frame"), ("area", "src/num_ext/tp_fp.rs:pl_roc_auc"), ("combined metrics", "src/num_ext/tp_fp.rs:pl_combo_b")]),
 dict(id="M03", title="Regression and ranking losses equal their formulas",
  statement="Every regression loss, agreement score, cross-entropy, hinge or cosine measure, and the normalised discounted cumulative gain (per group too), equals its stated formula for every pair of target and prediction columns and every parameter value, in aggregations, group-bys and row-wise use.",
  over=["inputs", "configurations"], q="all target/prediction columns and parameters",
  why="Tests compare default parameters on one random column with another library.",
  files=["python/polars_ds/exprs/metrics.py", "python/polars_ds/exprs/stats.py"],
  mech=[("losses", "python/polars_ds/exprs/metrics.py:query_mape"), ("NDCG", "python/polars_ds/exprs/metrics.py:calculate_ndcg")]),
 dict(id="S01", title="String distances equal their definitions; filters agree with them",
  statement="For every pair of Unicode strings, Levenshtein, optimal string alignment, Damerau-Levenshtein, Hamming, longest-common-subsequence, Jaro, Jaro-Winkler and fuzzy-ratio measures return the value of their definitions over characters (or the matching similarity), whichever of the two columns is a literal and whether evaluated in parallel. Bound filters select exactly the pairs whose distance does not exceed the bound, nearest-string lookups return an item of the vocabulary at minimal distance, and missing strings give missing answers.",
  over=["inputs"], q="all pairs of Unicode strings, literal or column operands, bounds, vocabularies",
  why="Tests use a few ASCII pairs per function, one operand arrangement, and no missing literals.",
  files=["src/str_ext/levenshtein.rs", "src/str_ext/hamming.rs", "src/str_ext/osa.rs", "src/str_ext/jaro.rs", "src/str_ext/fuzz.rs", "src/str_ext/lcs_seq.rs", "src/str_ext/nearest_str.rs", "src/str_ext/generic_str_distancer.rs", "python/polars_ds/exprs/string.py"],
  mech=[("batch dispatcher", "src/str_ext/generic_str_distancer.rs:generic_batched_distance"), ("bound filter", "src/str_ext/levenshtein.rs:levenshtein_filter"), ("nearest string", "src/str_ext/nearest_str.rs:levenshtein_nearest")]),
 dict(id="S02", title="N-gram similarities equal their set formulas",
  statement="For every pair of non-empty strings and every n, the Jaccard, Sorensen-Dice, overlap and Tversky similarities equal the corresponding formula over the two sets of n-grams (with the given Tversky weights), are symmetric where the formula is, and are missing exactly when either string is missing; a literal operand or parallel evaluation changes nothing.",
  over=["inputs"], q="all pairs of strings, n, Tversky weights, operand arrangements",
  why="Tests sample a few ASCII words with n = 2 or 3.",
  files=["src/str_ext/str_jaccard.rs", "src/str_ext/sorensen_dice.rs", "src/str_ext/overlap.rs", "src/str_ext/tversky.rs", "src/utils/mod.rs", "python/polars_ds/exprs/string.py"],
  mech=[("set sizes", "src/str_ext/mod.rs:str_set_sim_helper"), ("Tversky", "src/str_ext/tversky.rs:tversky_sim")]),
 dict(id="S03", title="Text cleaning, casing, stemming and number extraction",
  statement="Cleaning, Unicode normalisation, whole-word mapping and case conversion return what their documented rule gives for every string; the English stemmer agrees with the published Snowball algorithm and recognises exactly its stop words; number extraction returns all numbers in order of appearance. None of them fails on any Unicode text, and missing strings stay missing.",
  over=["inputs"], q="all Unicode strings and option combinations",
  why="Tests give one or two example strings per function.",
  files=["src/str_ext/str_cleaning.rs", "src/str_ext/inflections.rs", "src/str_ext/snowball/snowball_env.rs", "src/str_ext/snowball/algorithms/english_stemmer.rs", "src/str_ext/consts.rs", "python/polars_ds/exprs/string.py"],
  mech=[("stop words", "src/str_ext/consts.rs:EN_STOPWORDS"), ("stemmer", "src/str_ext/snowball/algorithms/english_stemmer.rs:stem"), ("number extraction", "python/polars_ds/exprs/string.py:extract_numbers")]),
 dict(id="F01", title="Isotonic regression is the least-squares monotone fit",
  statement="For every target column, and every column of positive weights, isotonic regression returns the monotone (non-decreasing or non-increasing) sequence of least weighted squared error: it is monotone, constant on blocks, equal on each block to the block's weighted mean, and keeps the weighted total. Weights default to one; groups are fitted separately; missing values or lengths that do not match are refused.",
  over=["inputs"], q="all targets, positive weights, both directions",
  why="Tests compare one noisy increasing series with another library; merging errors need particular runs of violations and weights.",
  files=["src/num_ext/isotonic_regression.rs", "python/polars_ds/exprs/num.py"],
  mech=[("pool adjacent violators", "src/num_ext/isotonic_regression.rs:isotonic_regression")]),
 dict(id="F02", title="Convolution, Fourier transform, trapezoid and detrending",
  statement="For every finite series, convolution equals the defining sum for each padding mode and method, the real Fourier transform equals the discrete transform of the (padded or cut) series, the trapezoid rule equals the sum of trapezoid areas for column or uniform abscissae, and detrending subtracts the mean or the least-squares line, missing entries staying missing. Parallel evaluation changes nothing.",
  over=["inputs", "configurations"], q="all series, kernels, modes, methods, lengths, spacings",
  why="Tests use one series and kernel per mode; kernels as long as the series, even kernels, single points and chunked or missing data are not tried.",
  files=["src/num_ext/convolve.rs", "src/num_ext/fft.rs", "src/num_ext/trapz.rs", "python/polars_ds/exprs/num.py", "python/polars_ds/exprs/ts_features.py"],
  mech=[("convolution", "src/num_ext/convolve.rs:convolve"), ("trapezoid", "src/num_ext/trapz.rs:trapz"), ("transform", "src/num_ext/fft.rs:pl_rfft")]),
 dict(id="F03", title="PSI, WOE, information value and target encoding follow their counts",
  statement="The population stability index assigns every non-missing value of both samples to exactly one bin (values equal to a breakpoint to the bin it closes, values beyond the last breakpoint to the last bin), and equals the sum of (p - q) ln(p / q) over bins with shares floored at 0.0001; categories are matched by name. Weight of evidence, information value and target encoding equal their formulas over the event and non-event counts of each category or bin, with rows of missing data left out from both columns together.",
  over=["inputs", "configurations"], q="all baseline and new samples, breakpoints, categories, 0/1 targets, smoothing parameters",
  why="Tests compare well-formed continuous samples with another library; ties with breakpoints, missing categories, list inputs and one-sided categories do not occur.",
  files=["src/num_ext/psi.rs", "src/num_ext/woe_iv.rs", "src/num_ext/target_encode.rs", "python/polars_ds/exprs/num.py"],
  mech=[("bin counts", "src/num_ext/psi.rs:psi_with_bps_helper"), ("index", "src/num_ext/psi.rs:psi_frame"), ("evidence", "src/num_ext/woe_iv.rs:get_woe_frame"), ("encoding", "src/num_ext/target_encode.rs:get_target_encode_frame")]),
 dict(id="F04", title="Combinatorics, divisors, set similarity and run lengths",
  statement="For every column: k-combinations list each k-element selection once in order, the product lists every pair once; gcd and lcm are the greatest common divisor and least common multiple of each pair; Jaccard similarities equal intersection over union of the value sets (missing values counted as asked); first-digit counts tally the leading decimal digit of every finite non-zero value; and streak lengths and monotonicity tests agree with a direct scan. Missing values give missing answers or are ignored as documented, never a crash.",
  over=["inputs"], q="all columns and parameters, including empty, repeated and missing values",
  why="Tests use one or two tiny complete examples per function.",
  files=["src/num_ext/iterations.rs", "src/num_ext/gcd_lcm.rs", "src/num_ext/jaccard.rs", "src/num_ext/benford.rs", "python/polars_ds/exprs/num.py", "python/polars_ds/exprs/expr_iter.py"],
  mech=[("combination count", "src/num_ext/iterations.rs:count_combinations"), ("leading digit", "src/num_ext/benford.rs:first_digit"), ("set similarity", "src/num_ext/jaccard.rs:jaccard_int")]),
 dict(id="F08", title="Element-wise numeric functions and great-circle distance",
  statement="Each element-wise function (logit, expit, gamma, digamma, exp2, truncation, fraction, next representable value, x log y, sinc, horizontal norms, centring, scaling, softmax) returns its mathematical value for every entry of every numeric column, extended by limits where documented, and the haversine distance equals the great-circle distance between the two points for all coordinates and column/literal arrangements. Missing entries stay missing and nothing else becomes missing.",
  over=["inputs", "configurations"], q="all numeric columns, dtypes, edge values, operand arrangements",
  why="Tests evaluate each function on a few values of one dtype.",
  files=["src/num_ext/float_extras.rs", "src/num_ext/haversine.rs", "src/utils/mod.rs", "python/polars_ds/exprs/num.py"],
  mech=[("logistic functions", "src/num_ext/float_extras.rs:logit"), ("x log y", "src/num_ext/float_extras.rs:xlogy"), ("great circle", "src/utils/mod.rs:haversine_elementwise")]),
 dict(id="F09", title="Singular values and principal components",
  statement="For every matrix of complete columns (centred unless asked otherwise), the singular values are those of the matrix in descending order, explained variances are their squares over n - 1 and their shares sum to one, principal vectors are orthonormal eigenvectors of the covariance for those values, and principal-component columns are the data projected on the first k of them; also for fewer rows than columns, and the declared output type matches the returned one.",
  over=["inputs", "configurations"], q="all data matrices, column counts, k, centring",
  why="Tests compare one tall random matrix with another library.",
  files=["src/num_ext/pca.rs", "python/polars_ds/exprs/num.py"],
  mech=[("singular values", "src/num_ext/pca.rs:pl_singular_values"), ("components", "src/num_ext/pca.rs:pl_principal_components")]),
 dict(id="F05", title="Hypothesis tests report the statistic and p value of their definition",
  statement="For every pair of samples the tests (Welch, Student and one-sample t, Mann-Whitney U with tie correction, two-sample Kolmogorov-Smirnov, omnibus normality, ANOVA F, chi-squared) report the textbook statistic and its p value for the requested alternative. Missing and non-finite entries are dropped by the t, normality and KS tests. A statistic does not depend on the order of the rows, and exchanging the samples mirrors the one-sided alternatives.",
  over=["inputs"], q="all samples, sizes, ties, missing entries, alternatives",
  why="Tests compare a few continuous samples with SciPy; ties in the last rank group, small samples, negative statistics and one-sided alternatives need particular inputs.",
  files=["src/stats/t_test.rs", "src/stats/mann_whitney_u.rs", "src/stats/ks.rs", "src/stats/normal_test.rs", "src/stats/fstats.rs", "src/stats/chi2.rs", "src/stats_utils/beta.rs", "src/stats_utils/gamma.rs", "src/stats_utils/normal.rs", "python/polars_ds/exprs/stats.py"],
  mech=[("t statistics", "src/stats/t_test.rs:welch_t"), ("U statistic", "python/polars_ds/exprs/stats.py:mann_whitney_u"), ("ties", "src/stats/mann_whitney_u.rs:mann_whitney_tie_sum"), ("KS gap", "src/stats/ks.rs:ks_2samp")]),
 dict(id="F06", title="Entropies and time-series features equal their definitions",
  statement="Approximate, sample, permutation, k-nearest-neighbour, copula, transfer, discrete and conditional entropies, Lempel-Ziv complexity, similar-subsequence counts and the time-series statistics (changes, energy, C3, CID, peaks, strides, reversal asymmetry and the like) equal the direct enumeration of the templates, windows, patterns, phrases or differences they are defined over, with the parallel switch on or off and per group.",
  over=["inputs"], q="all series, lags, orders, radii and thresholds",
  why="Tests use a few random series and one parameter each; window edges, delays above one, repeated phrases and constant series need particular inputs.",
  files=["src/num_ext/cond_entropy.rs", "src/num_ext/entrophies.rs", "src/num_ext/lempel_ziv.rs", "src/num_ext/subseq_sim.rs", "python/polars_ds/exprs/ts_features.py", "python/polars_ds/exprs/num.py"],
  mech=[("phrase parse", "src/num_ext/lempel_ziv.rs"), ("ordinal patterns", "python/polars_ds/exprs/ts_features.py:query_permute_entropy"), ("subsequence distance", "src/num_ext/subseq_sim.rs")]),
 dict(id="F07", title="Means, weighted moments and correlations equal their formulas",
  statement="Plain and weighted harmonic and geometric means, weighted mean, variance, covariance and correlation, cosine similarity, Kendall's tau-b, xi correlation, biweight midcorrelation and winsorizing equal their formulas for every pair of columns and positive weights. Rows with a missing or NaN entry are left out of Kendall's tau; symmetric measures are symmetric and correlations lie between -1 and 1.",
  over=["inputs"], q="all column pairs and positive weights, ties and missing rows included",
  why="Tests use one or two continuous samples; wrong weights cancel for equal weights, and tie handling needs heavily tied data.",
  files=["src/stats/kendall_tau.rs", "src/stats/xi_corr.rs", "python/polars_ds/exprs/stats.py"],
  mech=[("inversion count", "src/stats/kendall_tau.rs"), ("weighted formulas", "python/polars_ds/exprs/stats.py")]),
 dict(id="G01", title="Random columns have the requested support, length, dtype and seed",
  statement="Every random expression returns one value per row in the declared dtype, within the support of the requested distribution (uniform and integer bounds lower-inclusive and upper-exclusive in either order, string lengths between the sizes, binomial counts between 0 and n, positive exponentials), and the same values again for the same seed; noise is added to present values only and random nulls keep every surviving value.",
  over=["inputs", "configurations"], q="all lengths, bounds, parameters and seeds",
  why="Tests check that a call succeeds; an off-by-one bound or a swapped parameter shows only as a rare value.",
  files=["src/stats/sample.rs", "python/polars_ds/exprs/stats.py"],
  mech=[("integer bounds", "src/stats/sample.rs:pl_rand_int"), ("binomial", "src/stats/sample.rs:pl_rand_binomial")]),
 dict(id="P01", title="A fitted pipeline replays its steps, also after serialization",
  statement="For every blueprint, the fitted pipeline applies the steps in the order given, with the values learned from the training frame at that step, to any frame of the fitted schema, eager or lazy; the target column is never changed by transforms; a pipeline written to JSON and read back transforms every frame identically; the feature checks accept exactly the fitted features and return exactly the fitted outputs. Learned values are finite.",
  over=["histories", "inputs"], q="all sequences of steps and all frames",
  why="Tests fit a few fixed sequences on one frame; steps that depend on columns or types made by earlier steps need other sequences.",
  files=["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/_structures.py", "python/polars_ds/modeling/transforms.py"],
  mech=[("fit", "python/polars_ds/modeling/pipeline.py:Blueprint.materialize"), ("replay", "python/polars_ds/modeling/pipeline.py:Pipeline.transform"), ("serialization", "python/polars_ds/modeling/pipeline.py:Pipeline.to_json")]),
 dict(id="P02", title="Transforms compute their definition from the training data only",
  statement="Imputation (mean, median, mode, conditional, linear), centring, scaling (standard, min-max, max-abs, robust), winsorizing, one-hot and rank-hot encoding, target, WOE and IV encoding and polynomial features yield, on the training frame and on any unseen frame, the values of their definition with statistics of the training frame's present values; unseen and missing categories get the requested default, and no other column changes.",
  over=["inputs"], q="all frames, columns, methods and quantiles",
  why="Tests check a few methods on one frame, mostly against the same expressions.",
  files=["python/polars_ds/modeling/transforms.py", "src/num_ext/target_encode.rs", "src/num_ext/woe_iv.rs"],
  mech=[("scaling", "python/polars_ds/modeling/transforms.py:scale"), ("imputation", "python/polars_ds/modeling/transforms.py:impute"), ("encoders", "python/polars_ds/modeling/transforms.py:target_encode")]),
 dict(id="P03", title="Sampling and splitting return the right rows, once each, by seed",
  statement="Sampling, volume-neutral selection, downsampling, splitting and partitioning return whole rows of the input, none twice; the counts are the requested count, rate or ratio (off by less than one row), per segment where segments are asked for; rows outside a downsampling condition are all kept; a split or partition loses no row; random column selection takes the requested number of columns outside the kept ones. The same seed gives the same selection.",
  over=["inputs", "configurations"], q="all frames, rates, counts, ratios, segments and seeds",
  why="Tests check row counts of one frame; rounding, missing segment keys and remainders need particular sizes.",
  files=["python/polars_ds/sample_and_split/sample_and_split.py", "python/polars_ds/partition/partition.py"],
  mech=[("sampler", "python/polars_ds/sample_and_split/sample_and_split.py:_sampler_expr"), ("split", "python/polars_ds/sample_and_split/sample_and_split.py:split_by_ratio")]),
 dict(id="P04", title="Data diagnosis reports the true counts and exactly the offending rows",
  statement="The diagnosis reports count missing, NaN and infinite values per numeric column; row and column validation list exactly the rows and columns that break a rule, with the rules broken; the null correlation is the correlation of the null indicators, for the pairs where it is defined; constant, binary, k-distinct, discrete, high-null and probability inference lists exactly the columns with that property; string statistics and conditional entropies equal their definitions.",
  over=["inputs"], q="all frames",
  why="The diagnosis module is hardly tested.",
  files=["python/polars_ds/eda/diagnosis.py"],
  mech=[("rules", "python/polars_ds/eda/diagnosis.py:DIA.row_validation"), ("inference", "python/polars_ds/eda/diagnosis.py:DIA.infer_k_distinct")]),
]
NA = []
