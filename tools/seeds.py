"""Planted bugs: edits of /repo/dcor, with demonstrations."""
SEEDS = {}
HEAD = '''
import numpy as np, dcor, warnings
from fractions import Fraction
def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b))), (a, b)
def D(x, e=1.0, y=None):
    x = np.asarray(x, float); x = x[:, None] if x.ndim == 1 else x
    y = x if y is None else np.asarray(y, float); y = y[:, None] if y.ndim == 1 else y
    return np.sqrt(((x[:, None] - y[None]) ** 2).sum(-1)) ** e
def dc(a): return a - a.mean(0)[None] - a.mean(1)[:, None] + a.mean()
def uc(a):
    n = len(a)
    r = a - a.sum(0)[None] / (n - 2) - a.sum(1)[:, None] / (n - 2) + a.sum() / ((n - 1) * (n - 2))
    np.fill_diagonal(r, 0)
    return r
def up(a, b): return (a * b).sum() / (len(a) * (len(a) - 3))
def dcov2(x, y, e=1.0): return (dc(D(x, e)) * dc(D(y, e))).mean()
def udcov2(x, y, e=1.0): return up(uc(D(x, e)), uc(D(y, e)))
r = np.random.RandomState(5)
'''


def seed(sid, prop, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo)


seed('c01_exponent_band', 'C01', [('distances.py', '''    distances = spatial.distance.cdist(x, x, metric=metric)

    if exponent != 1:
        distances **= exponent / 2
''', '''    distances = spatial.distance.cdist(x, x, metric=metric)

    if exponent != 1:
        distances **= max(exponent, 0.25) / 2
''')], 'an exponent below 0.25', 'distance covariance with very small exponents uses the exponent 0.25', '''
x, y = r.randn(7, 2), r.randn(7, 3)
for e in (0.1, 0.2, 0.5, 1, 1.5):
    close(dcor.distance_covariance_sqr(x, y, exponent=e), dcov2(x, y, e))
''')

seed('c04_small_indexes', 'C04', [('_fast_dcov_mergesort.py', '''    indexes = np.arange(2 * n_samples).reshape((2, n_samples))
''', '''    indexes = np.arange(2 * n_samples, dtype=np.int16).reshape(
        (2, n_samples),
    )
''')], 'more than 32768 observations', 'merge sort method wraps its indexes for long samples', '''
n = 33000
x = r.randn(n); y = x ** 2 + r.randn(n)
close(dcor.distance_covariance_sqr(x, y, method='mergesort'), dcor.distance_covariance_sqr(x, y, method='avl'))
x, y = x[:50], y[:50]
close(dcor.distance_covariance_sqr(x, y, method='mergesort'), dcov2(x, y))
''')

seed('c05_compile_parallel', 'C05', [('_dcor_internals.py', '''    if compile_mode not in {CompileMode.AUTO, CompileMode.NO_COMPILE}:
''', '''    if compile_mode is CompileMode.COMPILE_CPU:
''')], 'the naive method requested with compile mode COMPILE_PARALLEL', 'a request that cannot be honoured is silently served', '''
x, y = r.randn(6, 2), r.randn(6, 2)
for cm in (dcor.CompileMode.COMPILE_CPU, dcor.CompileMode.COMPILE_PARALLEL):
    try:
        dcor.distance_covariance_sqr(x, y, method='naive', compile_mode=cm)
    except NotImplementedError:
        continue
    raise SystemExit(1)
''')

seed('c06_tolerance', 'C06', [('_dcor.py', '''        # Comparisons using a tolerance can change results if the
        # covariance has a similar order of magnitude
        if denominator == 0.0:
            correlation_xy_sqr = xp.zeros_like(covariance_xy_sqr)
        else:
            correlation_xy_sqr = covariance_xy_sqr / denominator

        return Stats(
            covariance_xy=covariance_xy_sqr,
            correlation_xy=correlation_xy_sqr,
            variance_x=variance_x_sqr,
            variance_y=variance_y_sqr,
        )


def _is_random''', '''        # Comparisons using a tolerance can change results if the
        # covariance has a similar order of magnitude
        if denominator < 1e-14:
            correlation_xy_sqr = xp.zeros_like(covariance_xy_sqr)
        else:
            correlation_xy_sqr = covariance_xy_sqr / denominator

        return Stats(
            covariance_xy=covariance_xy_sqr,
            correlation_xy=correlation_xy_sqr,
            variance_x=variance_x_sqr,
            variance_y=variance_y_sqr,
        )


def _is_random''')], 'samples on a very small scale', 'correlation of small-scale samples is 0', '''
x = r.randn(8, 2); y = x[:, :1] ** 2 + r.randn(8, 1)
close(dcor.distance_correlation_sqr(x * 1e-9, y * 1e-9), dcor.distance_correlation_sqr(x, y), 1e-5)
''')

seed('c08_absolute_threshold', 'C08', [('_dcor_internals.py', '''    eigenvalues[eigenvalues <= 0] = xp.inf
''', '''    eigenvalues[eigenvalues <= 1e-12] = xp.inf
''')], 'a sample whose covariance matrix has small eigenvalues', 'affinely invariant correlation changes when a sample is scaled down', '''
x, y = r.randn(12, 2), r.randn(12, 3)
y[:, 0] += x[:, 0]
A = np.array([[1e-7, 0], [3e-8, 2e-7]])
close(dcor.distance_correlation_af_inv_sqr(x @ A, y), dcor.distance_correlation_af_inv_sqr(x, y), 1e-5)
''')

seed('c09_shared_memory', 'C09', [('distances.py', '''    if y is None or y is x:
''', '''    if y is None or y is x or (
        isinstance(x, np.ndarray) and isinstance(y, np.ndarray)
        and np.may_share_memory(x, y)
    ):
''')], 'two different samples that are views of the same memory', 'distances between overlapping views are the distances of the first one', '''
z = r.randn(9, 2)
close(dcor.distances.pairwise_distances(z[::2], z[1::2]), D(z[::2], y=z[1::2]))
close(dcor.distances.pairwise_distances(z[:3], z[5:]), D(z[:3], y=z[5:]))
''')

seed('c11_tolerance', 'C11', [('_dcor_internals.py', '''    if denominator == 0:
''', '''    if denominator <= 1e-15:
''')], 'matrices with small entries', 'projection over a small matrix is 0', '''
a, b = dcor.u_centered(D(r.randn(6))), dcor.u_centered(D(r.randn(6)))
close(dcor.u_projection(a * 1e-9)(b), dcor.u_projection(a)(b), 1e-6)
''')

seed('c14_size_of_next', 'C14', [('homogeneity.py', '''            m = sizes[j]
''', '''            m = sizes[i + 1]
''')], 'three or more samples of different sizes', 'the coefficient of a pair uses the size of another sample', '''
xs = [r.randn(k, 2) + k for k in (3, 5, 8)]
def en(x, y): return 2 * D(x, y=y).mean() - D(x).mean() - D(y).mean()
want = sum(len(a) * len(b) / (len(a) + len(b)) * en(a, b) for i, a in enumerate(xs) for b in xs[i + 1:])
close(dcor.homogeneity.energy_test(*xs).statistic, want)
''')

seed('c16_exponent_z', 'C16', [('independence.py', '''    u_z = _u_distance_matrix(z, exponent=exponent)
''', '''    u_z = _u_distance_matrix(z)
''')], 'partial test with an exponent other than 1', 'the third sample of the partial test ignores the exponent', '''
x, y, z = r.randn(7, 1), r.randn(7, 2), r.randn(7, 1)
e = 1.5
A, B, C = uc(D(x, e)), uc(D(y, e)), uc(D(z, e))
P, Q = A - up(A, C) / up(C, C) * C, B - up(B, C) / up(C, C) * C
close(dcor.independence.partial_distance_covariance_test(x, y, z, exponent=e).statistic, 7 * up(P, Q))
''')

seed('c02_residue', 'C02', [('_dcor_internals.py', '''    return first_term - 2 * second_term + third_term
''', '''    result = first_term - 2 * second_term + third_term
    if bias_corrected and -1e-8 < result < 0:
        # Rounding residue
        result *= 0
    return result
''')], 'unbiased covariance negative and of small magnitude', 'small negative unbiased covariances are replaced by 0', '''
for k in range(20):
    x, y = r.randn(6, 2) * 1e-3, r.randn(6, 2) * 1e-3
    v, w = dcor.u_distance_covariance_sqr(x, y), udcov2(x, y)
    assert abs(v - w) <= 1e-6 * abs(w) + 1e-16, (v, w)
''')

seed('c03_small_positions', 'C03', [('_fast_dcov_avl.py', '''    positions_3a = np.ceil(y_col / exps2).astype(np.int64) - 1
''', '''    positions_3a = np.ceil(y_col / exps2).astype(np.int16) - 1
''')], 'more than 32768 observations and the uncompiled variant', 'the positions of the partial sums wrap around', '''
n = 33000
x = r.randn(n); y = x ** 2 + r.randn(n)
close(dcor.distance_covariance_sqr(x, y, method='avl', compile_mode=dcor.CompileMode.NO_COMPILE), dcor.distance_covariance_sqr(x, y, method='mergesort'))
x, y = x[:50], y[:50]
close(dcor.distance_covariance_sqr(x, y, method='avl', compile_mode=dcor.CompileMode.NO_COMPILE), dcov2(x, y))
''')

seed('c07_zero_threshold', 'C07', [('distances.py', '''    distances = spatial.distance.cdist(x, x, metric=metric)

    if exponent != 1:
        distances **= exponent / 2
''', '''    distances = spatial.distance.cdist(x, x, metric=metric)
    distances[distances < 1e-10] = 0

    if exponent != 1:
        distances **= exponent / 2
''')], 'a sample scaled down to distances below 1e-10', 'scaling a sample does not scale the covariance', '''
x, y = r.randn(9, 2), r.randn(9, 2)
b = 2.0 ** -40
v = dcor.distance_covariance_sqr(x * b, y) / b
close(v, dcor.distance_covariance_sqr(x, y), 1e-6)
''')

seed('c10_sum_dtype', 'C10', [('_dcor_internals.py', '''    axis_sum = xp.sum(a, axis=fast_axis)
    total_sum = xp.sum(axis_sum)
''', '''    axis_sum = xp.sum(a, axis=fast_axis, dtype=a.dtype)
    total_sum = xp.sum(axis_sum)
''')], 'a matrix of small integers', 'the sums of a matrix of small integers wrap around', '''
a = r.randint(50, 120, (6, 6)); a = (a + a.T) // 2
close(dcor.double_centered(a.astype(np.int8)), dc(a.astype(float)))
close(dcor.u_centered(a.astype(np.int8)), uc(a.astype(float)))
''')

seed('c12_constant_z', 'C12', [('_partial_dcor.py', '''    cc = u_product(c, c)
    ab = u_product(a, b)
''', '''    cc = u_product(c, c)
    if cc == 0:
        return cc
    ab = u_product(a, b)
''')], 'a third sample whose U-centered distance matrix is 0', 'partial correlation given a constant is 0 instead of the unconditional one', '''
x = r.randn(7); y = x ** 2 + r.randn(7); z = np.zeros(7)
close(dcor.partial_distance_correlation(x, y, z), dcor.u_distance_correlation_sqr(x, y), 1e-6)
''')

seed('c13_zero_distances', 'C13', [('_energy.py', '''        distance_xx = _get_flat_upper_matrix(distance_xx, k=1)
        distance_yy = _get_flat_upper_matrix(distance_yy, k=1)
''', '''        distance_xx = distance_xx[distance_xx > 0]
        distance_yy = distance_yy[distance_yy > 0]
''')], 'repeated observations and the U-statistic', 'zero distances between different observations are left out of the average', '''
x, y = r.randint(0, 3, (7, 1)).astype(float), r.randn(5, 1)
u = lambda a: D(a).sum() / (len(a) * (len(a) - 1))
close(dcor.energy_distance(x, y, estimation_stat='u'), 2 * D(x, y=y).mean() - u(x) - u(y))
''')

seed('c15_jobs_stream', 'C15', [('_hypothesis.py', '''    random_state = _random_state_init(random_state)

    statistic =''', '''    random_state = _random_state_init(random_state)
    if n_jobs is not None and n_jobs != 1:
        # Stream for the workers
        random_state = np.random.RandomState(
            random_state.permutation(2**16)[:4],
        )

    statistic =''')], 'the same seed with another number of jobs', 'the p-value depends on n_jobs', '''
x, y = r.randn(12, 1), r.randn(12, 1)
p = [dcor.independence.distance_covariance_test(x, y, num_resamples=97, random_state=3, n_jobs=k).pvalue for k in (1, 2)]
assert p[0] == p[1], p
''')

seed('c17_rounded', 'C17', [('independence.py', '''    bcdcor = u_distance_correlation_sqr(x, y)

    n = x.shape[0]
    v = n * (n - 3) / 2

    return''', '''    bcdcor = np.round(u_distance_correlation_sqr(x, y), 7)

    n = x.shape[0]
    v = n * (n - 3) / 2

    return''')], 'an unbiased correlation very near to 1', 'the t statistic of almost perfect dependence is infinite', '''
x = r.randn(9, 1)
y = x + 1e-4 * r.randn(9, 1)
R = dcor.u_distance_correlation_sqr(x, y)
close(dcor.independence.distance_correlation_t_statistic(x, y), np.sqrt(26) * R / np.sqrt(1 - R ** 2), 1e-3)
''')

seed('c18_exponent_lost', 'C18', [('_rowwise.py', '''        if not _dcor._can_use_fast_algorithm(x[0], y[0],
                                             exponent=exponent):
''', '''        if not _dcor._can_use_fast_algorithm(x[0], y[0]):
''')], 'rowwise with an exponent other than 1', 'the exponent is silently ignored by the optimized rowwise', '''
x, y = r.randn(3, 6), r.randn(3, 6)
close(dcor.rowwise(dcor.distance_covariance_sqr, x, y, exponent=1.5), [dcor.distance_covariance_sqr(a, b, exponent=1.5) for a, b in zip(x, y)])
''')

seed('c19_centered_in_place', 'C19', [('_dcor_internals.py', '''    x_centered = x - mean
''', '''    x_centered = x
    x_centered -= mean
''')], 'the affinely invariant correlation of floating point samples', 'the samples are centered in place', '''
x, y = r.randn(8, 2), r.randn(8, 3)
a, b = x.copy(), y.copy()
dcor.distance_correlation_af_inv_sqr(x, y)
assert (x == a).all() and (y == b).all()
''')

seed('c20_column', 'C20', [('_dcor.py', '''    return len(x.shape) == 1 or x.shape[1] == 1
''', '''    return len(x.shape) == 1 or (x.shape[1] == 1 and x.dtype.kind == 'f')
''')], 'exact numbers in a matrix with one column', 'the exact value passes through floating point', '''
x = np.array([Fraction(v, 7) for v in (1, 5, 9, 2, 4)]); y = np.array([Fraction(v, 3) for v in (3, 1, 4, 1, 5)])
for f in (dcor.distance_covariance_sqr, dcor.u_distance_covariance_sqr):
    v, w = f(x, y), f(x[:, None], y[:, None])
    assert isinstance(v, Fraction) and isinstance(w, Fraction) and v == w, (v, w)
''')
