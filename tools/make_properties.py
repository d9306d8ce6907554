"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))

I = "dcor/_dcor_internals.py"; D = "dcor/_dcor.py"; A = "dcor/_fast_dcov_avl.py"; M = "dcor/_fast_dcov_mergesort.py"
U = "dcor/_utils.py"; DI = "dcor/distances.py"; EN = "dcor/_energy.py"; H = "dcor/_hypothesis.py"
HO = "dcor/homogeneity.py"; IN = "dcor/independence.py"; PA = "dcor/_partial_dcor.py"; R = "dcor/_rowwise.py"; NB = "dcor/_dcor_internals_numba.py"

p("C01", "Biased squared distance covariance equals its definition",
  "For any two real samples with the same number n >= 1 of observations (of any dimensions) and any exponent in (0, 2), distance_covariance_sqr returns (1/n^2) * sum_ij A_ij B_ij, where A and B are the double centered matrices of the pairwise Euclidean distances of each sample raised to the exponent. distance_covariance returns the square root of that value, with a negative rounding residue replaced by 0. One dimensional samples give the same result whether they are passed as vectors or as one-column matrices.",
  ["inputs", "configurations"], "all sample sizes n >= 1, all dimensions, all real observations (ties and constants included), all exponents in (0, 2), vector or column layout; floating point treated as real arithmetic",
  "The tests compare a handful of hard-coded samples with n <= 16 (and one n = 30000 without an oracle); the value for every other n, dimension, exponent and tie pattern is unchecked.",
  [D, I, DI, U], [("terms of the naive estimator", I + ":_dcov_terms_naive"), ("assembly of the estimator", I + ":_dcov_from_terms"), ("square root with clipping", U + ":_sqrt")],
  observe=["dcor.distance_covariance_sqr", "dcor.distance_covariance"])
p("C02", "Unbiased squared distance covariance equals its definition",
  "For any two real samples with the same number n >= 4 of observations and any exponent in (0, 2), u_distance_covariance_sqr returns 1/(n(n-3)) * sum_ij A~_ij B~_ij, where A~ and B~ are the U-centered matrices of the pairwise Euclidean distances of each sample raised to the exponent. The value is not clipped: it may be negative.",
  ["inputs", "configurations"], "all n >= 4, all dimensions, all real observations, all exponents in (0, 2), every method that accepts the input; floating point treated as real arithmetic",
  "Tests check a few samples with n = 4 and n = 6 only; the n-dependent divisors are indistinguishable from wrong ones on many single sizes.",
  [D, I, DI, NB], [("bias corrected divisors", I + ":_dcov_from_terms"), ("dispatch with bias_corrected", D + ":_DcovAlgorithmInternals.dcov_sqr")],
  observe=["dcor.u_distance_covariance_sqr"])
p("C03", "The AVL algorithm computes the definition exactly",
  "For any two univariate real samples with the same number n >= 4 of observations, in any order and with any pattern of repeated values, every statistic computed with method AVL (squared covariance, unbiased squared covariance, and the correlation and variances reported by the stats functions) has the value given by the quadratic-time definition with exponent 1. This holds for the compiled and the uncompiled variants.",
  ["inputs", "configurations"], "all n >= 4 (powers of two and their neighbours included), all orders and tie patterns of x and y, AUTO/NO_COMPILE/COMPILE_CPU; floating point treated as real arithmetic, numba assumed to preserve the Python semantics",
  "The randomized comparison in the tests covers 4 <= n <= 10 with distinct uniform values; ties, larger n, level boundaries of the dyadic table and the two separate kernels are not covered.",
  [A, NB, I], [("dyadic partial sums, vectorised kernel", A + ":_dyad_update"), ("dyadic partial sums, compiled kernel", A + ":_dyad_update_compiled_version"), ("ranks, cumulative sums and table layout", A + ":_get_impl_args"), ("assembly of the terms", A + ":_distance_covariance_sqr_terms_avl_impl")],
  state=[dict(name="s", meaning="flattened table of dyadic block sums: level l, block k", where=A + ":_dyad_update"), dict(name="pos_sums", meaning="offset of each level in s", where=A + ":_get_impl_args")],
  observe=["dcor.distance_covariance_sqr(method='avl')", "dcor.distance_stats_sqr(method='avl')"])
p("C04", "The merge sort algorithm computes the definition exactly",
  "For any two univariate real samples with the same number n >= 2 of observations, in any order and with any pattern of repeated values, every statistic computed with method MERGESORT has the value given by the quadratic-time definition with exponent 1 (for the unbiased versions n >= 4). This holds for the compiled and the uncompiled variants.",
  ["inputs", "configurations"], "all n >= 2, all orders and tie patterns of x and y, AUTO/NO_COMPILE/COMPILE_CPU; floating point treated as real arithmetic, numba assumed to preserve the Python semantics",
  "The randomized comparison in the tests covers 4 <= n <= 10 with distinct values; ties, other sizes and the bottom-up merge with a short last block are not covered.",
  [M, NB, I], [("bottom-up merge accumulating weights", M + ":_compute_weight_sums"), ("sums from the weights", M + ":_compute_aijbij_term"), ("row sums of a sorted sample", M + ":_compute_row_sums"), ("assembly of the terms", M + ":_distance_covariance_sqr_terms_mergesort_impl")],
  state=[dict(name="previous_indexes", meaning="current order; each aligned block is sorted by decreasing y", where=M + ":_compute_weight_sums")],
  observe=["dcor.distance_covariance_sqr(method='mergesort')", "dcor.distance_stats_sqr(method='mergesort')"])
p("C05", "The choice of method never changes the result, and bad requests fail",
  "With method AUTO every call returns the value of the quadratic-time definition for its samples and its exponent, whatever algorithm is selected internally, and a method given by name behaves as the corresponding enum member. A request that cannot be honoured (fast method with an exponent different from 1 or with multivariate samples, samples with different numbers of observations, a compile mode the method does not support) raises an exception instead of returning a number.",
  ["inputs", "configurations"], "all combinations of method, compile mode, exponent, dimensions and sample sizes, for the covariance, correlation and stats functions",
  "Tests exercise a few valid combinations on fixed data; none checks that invalid combinations are refused, nor the selection boundary (n = 3/4, one column/two columns, exponent 1/not 1).",
  [D, A, M, I, U], [("selection", D + ":_dcov_terms_auto"), ("applicability", D + ":_can_use_fast_algorithm"), ("parsing of names", D + ":_to_algorithm"), ("refusals", A + ":_distance_covariance_sqr_terms_avl"), ("refusals", M + ":_distance_covariance_sqr_terms_mergesort")],
  observe=["dcor.distance_covariance_sqr(..., method=, compile_mode=, exponent=)"])
p("C06", "Distance correlation is the normalized covariance, with safe degenerate case",
  "The squared distance correlation is the squared distance covariance divided by the square root of the product of the two squared distance variances (their unbiased versions for u_distance_correlation_sqr), and exactly 0 when that product is 0, without any tolerance. Up to rounding distance_correlation lies in [0, 1] and u_distance_correlation_sqr in [-1, 1]. The fields of the stats objects are the same values that the individual functions return (square roots for distance_stats).",
  ["inputs", "configurations"], "all samples (constant ones included), all scales of the data, all exponents in (0, 2), biased and unbiased versions, all methods",
  "Tests check a few ratios on fixed data and one constant sample; small-scale data, unbiased zero variances and agreement between stats and individual functions are not covered.",
  [D, U, I], [("normalization", D + ":_DcovAlgorithmInternals.stats_sqr"), ("square root with clipping", U + ":_sqrt"), ("stats record", D + ":Stats")],
  observe=["dcor.distance_correlation", "dcor.distance_correlation_sqr", "dcor.u_distance_correlation_sqr", "dcor.distance_stats", "dcor.distance_stats_sqr", "dcor.u_distance_stats_sqr"])
p("C07", "Distance covariance is symmetric and has the documented invariances",
  "Exchanging the two samples does not change squared distance covariance or correlation (biased or unbiased), nor does applying the same permutation to the observations of both samples, translating a sample, or applying an orthogonal map to it. Multiplying a sample by b multiplies the squared distance covariance by |b|^exponent and leaves distance correlation unchanged when b is not 0.",
  ["inputs"], "all samples, all exponents in (0, 2), all permutations, translations, orthogonal maps and scale factors",
  "No test checks any invariance.",
  [D, I, DI, A, M], [("estimator", D + ":_DcovAlgorithmInternals"), ("distances", DI + ":pairwise_distances")],
  observe=["dcor.distance_covariance_sqr", "dcor.u_distance_covariance_sqr", "dcor.distance_correlation_sqr"])
p("C08", "Affinely invariant distance correlation is affinely invariant",
  "For samples with nonsingular covariance matrices, distance_correlation_af_inv_sqr is the squared distance correlation of the samples multiplied by the inverse square root of their covariance matrices, so that it does not change when either sample goes through an invertible affine map; distance_correlation_af_inv is its square root. The result is never NaN.",
  ["inputs"], "all samples of any dimension with nonsingular covariance, all invertible affine maps, all methods",
  "Tests check one constant sample and the doctest values of one fixed matrix; invariance is never checked.",
  [D, I], [("scaling", I + ":_af_inv_scaled"), ("inverse square root", I + ":_mat_sqrt_inv"), ("covariance", I + ":_cov"), ("NaN replacement", D + ":distance_correlation_af_inv_sqr")],
  observe=["dcor.distance_correlation_af_inv_sqr", "dcor.distance_correlation_af_inv"])
p("C09", "pairwise_distances returns the Euclidean distances in the right places",
  "pairwise_distances(x, y, exponent=e) returns an n x l matrix whose (i, j) entry is the Euclidean distance between x[i] and y[j] raised to e; pairwise_distances(x) and pairwise_distances(x, x) return the n x n matrix for the points of x. This holds for every number type and array library, in particular integer inputs do not wrap around.",
  ["inputs", "configurations"], "all n, l, dimensions, all exponents in (0, 2), float, integer (any width, signed or not), Fraction/Decimal object arrays and Array API arrays",
  "Only two 4 x 4 doctest matrices, whose result happens to be symmetric, are checked.",
  [DI, U], [("generic implementation", DI + ":_cdist_naive"), ("SciPy implementations", DI + ":_pdist_scipy, _cdist_scipy"), ("choice of implementation", U + ":_can_be_numpy_double")],
  observe=["dcor.distances.pairwise_distances"])
p("C10", "Centering functions produce the documented centered matrices",
  "For any symmetric n x n matrix, double_centered returns a_ij - (row mean i) - (column mean j) + (total mean), so all its rows and columns sum to 0, and (n >= 3) u_centered returns a_ij - (row sum i)/(n-2) - (column sum j)/(n-2) + (total sum)/((n-1)(n-2)) outside the diagonal and 0 on it. With out given, the same values are written to it and it is returned; without out, or with a different out, the input is left unmodified, and integer inputs give floating point results.",
  ["inputs"], "all sizes, all symmetric matrices (real or integer), out absent, distinct from the input or the input itself",
  "One randomized test checks the row sums of double_centered for n <= 10; u_centered, out and integer inputs have only doctests.",
  [I], [("double centering", I + ":double_centered"), ("U-centering", I + ":u_centered"), ("copy or reuse", I + ":_float_copy_to_out"), ("sums", I + ":_symmetric_matrix_sums")],
  observe=["dcor.double_centered", "dcor.u_centered"])
p("C11", "U-centered inner product and projections obey Hilbert space laws",
  "u_product(a, b) is sum_ij a_ij b_ij / (n(n-3)) and mean_product(a, b) the mean of the elementwise products. u_projection(a) maps b to the multiple of a with coefficient <a,b>/<a,a>, or to the zero matrix when <a,a> = 0; u_complementary_projection(a) maps b to b minus that projection, so its result is orthogonal to a and applying either projection twice changes nothing.",
  ["inputs"], "all n >= 4 and all real n x n matrices a, b, the zero matrix included",
  "Only doctest matrices are checked.",
  [I], [("inner product", I + ":u_product, mean_product"), ("projection", I + ":u_projection"), ("complement", I + ":u_complementary_projection")],
  observe=["dcor.u_product", "dcor.mean_product", "dcor.u_projection", "dcor.u_complementary_projection"])
p("C12", "Partial distance covariance and correlation equal their definitions",
  "For samples x, y, z with the same number n >= 4 of observations and with A, B, C their U-centered distance matrices, partial_distance_covariance is the inner product of the parts of A and B orthogonal to C (of A and B themselves when <C,C> = 0). partial_distance_correlation is the cosine of the angle between those parts, and 0 when one of them vanishes, so that up to rounding it lies in [-1, 1]; both are symmetric in x and y.",
  ["inputs"], "all n >= 4, all dimensions, constant samples included",
  "Only four doctest values per function are checked.",
  [PA, I], [("covariance", PA + ":partial_distance_covariance"), ("correlation", PA + ":partial_distance_correlation")],
  observe=["dcor.partial_distance_covariance", "dcor.partial_distance_correlation"])
p("C13", "Energy distance equals its definition",
  "energy_distance(x, y) is twice the average distance between observations of x and y minus the average distances within x and within y, with Euclidean distances raised to the exponent. The averages within a sample include the zero distances of the observations to themselves for the V-statistic (default) and only pairs of different observations for the U-statistic, the average function given by the user replaces all three means, and names of the statistic (in any case) are equivalent to the enum members.",
  ["inputs", "configurations"], "all sample sizes (different for x and y), dimensions, exponents in (0, 2), both statistics in every accepted spelling, any average function",
  "Tests check three fixed matrices and two samples.",
  [EN, DI], [("combination of averages", EN + ":_energy_distance_from_distance_matrices"), ("upper triangle", EN + ":_get_flat_upper_matrix"), ("entry point", EN + ":energy_distance"), ("parsing", EN + ":EstimationStatistic.from_string")],
  observe=["dcor.energy_distance"])
p("C14", "The k-sample energy test statistic equals its definition",
  "The statistic of energy_test for k >= 2 samples of any sizes n_1..n_k is the sum over all pairs i < j of n_i n_j/(n_i + n_j) times the energy distance between samples i and j, with the given exponent, average and estimation statistic. For two samples it is the value of energy_test_statistic.",
  ["inputs", "configurations"], "all k >= 2, all sizes, dimensions, exponents in (0, 2), averages and estimation statistics",
  "Tests check decisions (p-value thresholds) for two samples of equal size, and two doctest values.",
  [HO, EN], [("k-sample statistic", HO + ":_energy_test_statistic_multivariate_from_distance_matrix"), ("offsets of the samples", HO + ":energy_test"), ("coefficient", HO + ":_energy_test_statistic_coefficient")],
  observe=["dcor.homogeneity.energy_test", "dcor.homogeneity.energy_test_statistic"])
p("C15", "Permutation tests report a valid and reproducible p-value",
  "For every permutation test (energy, distance covariance, partial distance covariance) with R >= 0 resamples, pvalue is (1 + number of resampled statistics strictly greater than the observed one)/(R + 1), hence in [1/(R+1), 1], and the reported statistic is the one of the data as given. Each resampled statistic is that of the matrix with rows and columns reordered by the same permutation, drawn anew from the given random state for each resample; the same seed gives the same result whatever n_jobs is.",
  ["inputs", "configurations", "schedules"], "all data, all R >= 0, seeds, RandomState and Generator objects, all n_jobs; NumPy's permutation and joblib's order-preserving parallel map are assumed correct",
  "Tests look at p-values of a few seeds with coarse thresholds; ties between resampled and observed statistics, R = 0 and n_jobs > 1 are barely covered.",
  [H, HO, IN, U], [("permutation test", H + ":_permutation_test_with_sym_matrix"), ("permuted statistic", H + ":_permuted_statistic"), ("random state", U + ":_random_state_init")],
  observe=["dcor.homogeneity.energy_test", "dcor.independence.distance_covariance_test", "dcor.independence.partial_distance_covariance_test"])
p("C16", "Independence tests use the right statistic",
  "The statistic of distance_covariance_test is n times the squared distance covariance of the samples with the given exponent, and samples of different sizes raise ValueError. The statistic of partial_distance_covariance_test is n times the partial distance covariance of the samples computed with the given exponent for the three of them.",
  ["inputs", "configurations"], "all samples of any dimensions, all exponents in (0, 2), any number of resamples",
  "Tests check p-value thresholds for Gaussian samples with exponent 1 and a few doctest values.",
  [IN, I], [("distance covariance test", IN + ":distance_covariance_test"), ("partial test", IN + ":partial_distance_covariance_test"), ("size check", I + ":_check_same_n_elements")],
  observe=["dcor.independence.distance_covariance_test", "dcor.independence.partial_distance_covariance_test"])
p("C17", "The distance correlation t-test follows its definition",
  "With R the unbiased squared distance correlation of samples of n >= 4 observations and v = n(n-3)/2, distance_correlation_t_statistic returns sqrt(v-1) R / sqrt(1-R^2), infinite with the sign of R when |R| = 1. distance_correlation_t_test reports that statistic and the upper tail probability of a Student t distribution with v-1 degrees of freedom.",
  ["inputs"], "all n >= 4, all samples of any dimensions",
  "Only doctest values with n = 4 are checked.",
  [IN], [("statistic", IN + ":distance_correlation_t_statistic"), ("test", IN + ":distance_correlation_t_test")],
  observe=["dcor.independence.distance_correlation_t_statistic", "dcor.independence.distance_correlation_t_test"])
p("C18", "rowwise gives the same values as applying the function to each pair",
  "rowwise(f, x, y) returns, in order, the values f(x[i], y[i]) with the given options, for every function, whether or not an optimized implementation exists and whatever the rowwise mode, the compile mode, the number type and the dimensions of the rows; an optimized-only request without an optimized implementation raises NotImplementedError. In particular rows with a constant sample give correlation 0, and integer rows work like floating point ones.",
  ["inputs", "configurations"], "all numbers of rows and of observations, univariate and multivariate rows, all functions of the package and any other callable, all modes",
  "Tests cover four rows of six univariate observations.",
  [R, A], [("dispatch", R + ":rowwise"), ("optimized covariance", A + ":_rowwise_distance_covariance_sqr_avl_generic"), ("optimized correlation", R + ":_generate_rowwise_distance_correlation_sqr")],
  observe=["dcor.rowwise"])
p("C19", "No function modifies its input arrays",
  "No public function writes to the arrays (or lists of arrays) it is given, the only exception being the array explicitly passed as out to the centering functions; consequently repeating a call with the same arguments gives the same result.",
  ["inputs", "configurations", "histories"], "all public functions, all inputs, methods and modes, contiguous or not",
  "No test compares inputs before and after a call.",
  [D, I, A, M, EN, H, HO, IN, PA, R, U, DI], [("copy before in-place operations", I + ":_float_copy_to_out"), ("copy before clipping", U + ":_sqrt"), ("working copies of the fast algorithms", A + ":_get_impl_args")],
  observe=["every public function"])
p("C20", "Number types and array libraries are preserved",
  "Univariate samples of n >= 4 exact numbers (Fraction) give the exact rational value of the squared covariances (biased and unbiased, methods AUTO and AVL, exponent 1), without passing through floating point, and integer samples of any width give the value of the same samples converted to float, never a wrapped one. Floating point arrays of another Array API library, given to the distance covariance, distance correlation and energy distance functions, give a result of that same library with the value that NumPy gives.",
  ["inputs", "configurations"], "all univariate Fraction samples (n >= 4), all integer dtypes, all methods with their uncompiled mode, Array API arrays for the covariance, correlation and energy functions",
  "Tests use one pair of samples per number type, with integers too small to wrap.",
  [D, A, M, I, U, DI], [("fallback for other types", A + ":_distance_covariance_sqr_terms_avl"), ("integer conversion", U + ":_integer_to_double"), ("namespace detection", U + ":array_namespace")],
  observe=["dcor.distance_covariance_sqr", "dcor.u_distance_covariance_sqr", "dcor.energy_distance"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
