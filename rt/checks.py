"""Runtime contract checks: the postconditions, evaluated on the real code.

Every function of CHECKS takes plain arguments, calls dcor's public interface
and returns None (the contract held) or a message (it did not).  They decide
nothing by themselves on the proved properties: they replay counterexamples,
and they are the labelled bounded stand-in where an obligation is out of the
verifier's reach.
"""
from __future__ import annotations

import math
import warnings
from fractions import Fraction

import numpy as np

import oracle as O
from oracle import LD

warnings.simplefilter('ignore')
np.seterr(all='ignore')

import dcor  # noqa: E402
from dcor import CompileMode, DistanceCovarianceMethod as Method, RowwiseMode  # noqa: E402
from dcor import _energy  # noqa: E402

EstStat = dcor.EstimationStatistic
CM = {m.name: m for m in CompileMode}
CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def val(v):
    """longdouble value of a scalar result of any library."""
    if isinstance(v, Fraction):
        return LD(v.numerator) / LD(v.denominator)
    a = np.asarray(v)
    if a.dtype == object:
        a = a.item()
        return val(a) if isinstance(a, Fraction) else LD(a)
    if a.shape not in ((), (1,)):
        raise AssertionError(f'scalar expected, got shape {a.shape}')
    return LD(a.reshape(()))


def eps_of(*arrs):
    worst = 1e-9
    for a in arrs:
        d = getattr(a, 'dtype', None)
        if d is not None and 'float32' in str(d):
            worst = max(worst, 3e-4)
        if d is not None and 'float16' in str(d):
            worst = max(worst, 0.1)
    return worst


def rng_of(x):
    """(spread, magnitude) of a sample."""
    x = O.two_d(O.ld(x))
    spread = np.sqrt(np.sum((x.max(axis=0) - x.min(axis=0)) ** 2))
    return spread, np.sqrt(np.sum(np.max(np.abs(x), axis=0) ** 2))


def tol_dcov(x, y, e=1, method='naive'):
    (rx, mx), (ry, my) = rng_of(x), rng_of(y)
    t = LD(eps_of(x, y)) * (rx * ry) ** LD(e)
    if e == 1:
        # a sample far from the origin loses the digits of its offset
        t = t + LD(1e-13) * ((mx + rx) * (my + ry) - rx * ry) * (1 if method != 'naive' else 0.01)
    return t + LD(1e-300)


def bad(got, want, tol):
    if got == want:
        return False              # equal infinities
    return not (abs(LD(got) - LD(want)) <= tol)   # NaN is bad


def show(**kw):
    return ', '.join(f'{k}={v!r}' for k, v in kw.items())


def method_of(m):
    """'auto' / 'NAIVE' strings are passed as strings; 'enum:AVL' as the member."""
    return Method[m[5:]] if isinstance(m, str) and m.startswith('enum:') else m


def method_kind(m):
    return (m[5:] if m.startswith('enum:') else m).lower()


# ---------------------------------------------------------------- C01 .. C07
@check
def dcov(x, y, exponent=1, method='auto', compile_mode='AUTO', unbiased=False, root=False):
    """distance covariance functions against the definition (C01-C05)."""
    f = dcor.u_distance_covariance_sqr if unbiased else dcor.distance_covariance_sqr
    kw = dict(exponent=exponent, method=method_of(method), compile_mode=CM[compile_mode])
    got = val(f(x, y, **kw))
    want = O.dcov(x, y, exponent, unbiased)
    tol = tol_dcov(x, y, exponent, method_kind(method))
    if bad(got, want, tol):
        return f'{f.__name__} = {got!r}, definition gives {want!r} ({show(exponent=exponent, method=method, compile_mode=compile_mode)})'
    if root and not unbiased:
        r = val(dcor.distance_covariance(x, y, **kw))
        exp = np.sqrt(max(got, LD(0)))
        if bad(r, exp, LD(max(1e-12, eps_of(x, y) * 1e-3)) * exp + LD(1e-300)):
            return f'distance_covariance = {r!r}, square root of the squared one is {exp!r}'
    return None


@check
def big_dcov(n, seed, method, compile_mode='AUTO', unbiased=False, levels=4):
    """Long samples, against the definition evaluated by groups of equal values of y (C03, C04)."""
    rng = np.random.default_rng(seed)
    y = rng.integers(0, levels, n).astype(float)
    x = np.round(rng.normal(size=n) * 64 + 30 * (y % 2), 1)
    f = dcor.u_distance_covariance_sqr if unbiased else dcor.distance_covariance_sqr
    got = val(f(x, y, method=method_of(method), compile_mode=CM[compile_mode]))

    def row(v, w):
        """sum_j |v_i - w_j| for all i"""
        w = np.sort(w)
        c = np.concatenate([[0], np.cumsum(w)])
        k = np.searchsorted(w, v)
        return v * k - c[k] + (c[-1] - c[k]) - v * (len(w) - k)
    xl, yl = O.ld(x), O.ld(y)
    a, b = row(xl, xl), row(yl, yl)
    ab = sum((LD(abs(s - t)) * np.sum(row(xl[y == s], xl[y == t])) for s in range(levels) for t in range(levels) if s != t), LD(0))
    N = LD(n)
    if unbiased:
        want = ab / (N * (N - 3)) - 2 * np.sum(a * b) / (N * (N - 2) * (N - 3)) + a.sum() * b.sum() / (N * (N - 1) * (N - 2) * (N - 3))
    else:
        want = ab / N ** 2 - 2 * np.sum(a * b) / N ** 3 + a.sum() * b.sum() / N ** 4
    if bad(got, want, LD(1e-8) * (1 + abs(want))):
        return f'{f.__name__} of {n} observations = {got!r}, definition gives {want!r} ({show(method=method, compile_mode=compile_mode)})'
    return None


@check
def stats(x, y, exponent=1, method='auto', compile_mode='AUTO', unbiased=False):
    """stats objects against the definition, and their own consistency (C03, C04, C06)."""
    kw = dict(exponent=exponent, method=method_of(method), compile_mode=CM[compile_mode])
    f = dcor.u_distance_stats_sqr if unbiased else dcor.distance_stats_sqr
    s = f(x, y, **kw)
    cov, cor, vx, vy = (val(v) for v in (s.covariance_xy, s.correlation_xy, s.variance_x, s.variance_y))
    mk = method_kind(method)
    wants = dict(covariance_xy=(cov, O.dcov(x, y, exponent, unbiased), tol_dcov(x, y, exponent, mk)),
                 variance_x=(vx, O.dcov(x, x, exponent, unbiased), tol_dcov(x, x, exponent, mk)),
                 variance_y=(vy, O.dcov(y, y, exponent, unbiased), tol_dcov(y, y, exponent, mk)))
    for k, (g, w, t) in wants.items():
        if bad(g, w, t):
            return f'{f.__name__}.{k} = {g!r}, definition gives {w!r}'
    # normalization, from the reported values
    ep = LD(max(1e-12, eps_of(x, y) * 1e-2))
    with np.errstate(all='ignore'):
        # the product is formed in the number type of the result
        prod = np.float64(vx) * np.float64(vy)
    den = np.sqrt(np.abs(LD(vx) * LD(vy)))
    if vx == 0 or vy == 0:
        if cor != 0:
            return f'{f.__name__}.correlation_xy = {cor!r} with a zero variance, should be exactly 0'
    elif prod != 0 and abs(prod) > 1e-290 and np.isfinite(prod):
        if bad(cor, cov / den, ep * abs(cov / den) + LD(1e-300)):
            return f'{f.__name__}.correlation_xy = {cor!r}, covariance/sqrt(variances) = {cov / den!r}'
        wx, wy = wants['variance_x'][1], wants['variance_y'][1]
        if wx > 1e4 * wants['variance_x'][2] and wy > 1e4 * wants['variance_y'][2]:
            lo = -1 if unbiased else 0
            if not (lo - 1e-3 <= cor <= 1 + 1e-3):
                return f'{f.__name__}.correlation_xy = {cor!r} out of range'
    # constant samples
    for nm, t in (('x', x), ('y', y)):
        a = O.two_d(np.asarray(t))
        if np.all(a == a[0]) and cor != 0:
            return f'{f.__name__}.correlation_xy = {cor!r} for a constant {nm}'
    # the individual functions
    g = dcor.u_distance_correlation_sqr if unbiased else dcor.distance_correlation_sqr
    one = val(g(x, y, **kw))
    if bad(one, cor, ep * abs(cor) + LD(1e-300)):
        return f'{g.__name__} = {one!r} but the stats object says {cor!r}'
    h = dcor.u_distance_covariance_sqr if unbiased else dcor.distance_covariance_sqr
    one = val(h(x, y, **kw))
    if bad(one, cov, wants['covariance_xy'][2] * LD(1e-2)):
        return f'{h.__name__} = {one!r} but the stats object says {cov!r}'
    it = tuple(val(v) for v in s)
    if it != (cov, cor, vx, vy):
        return 'iterating the stats object gives other values than its fields'
    if not unbiased:
        r = dcor.distance_stats(x, y, **kw)
        roots = [val(v) for v in (r.covariance_xy, r.correlation_xy, r.variance_x, r.variance_y)]
        for nm, got, sq in zip(('covariance_xy', 'correlation_xy', 'variance_x', 'variance_y'), roots, (cov, cor, vx, vy)):
            want = np.sqrt(max(sq, LD(0)))
            if bad(got, want, ep * want + LD(1e-160)):
                return f'distance_stats.{nm} = {got!r}, square root of the squared one is {want!r}'
        c = val(dcor.distance_correlation(x, y, **kw))
        if bad(c, roots[1], ep * abs(roots[1]) + LD(1e-300)):
            return f'distance_correlation = {c!r} but distance_stats says {roots[1]!r}'
        c = val(dcor.distance_covariance(x, y, **kw))
        if bad(c, roots[0], ep * abs(roots[0]) + np.sqrt(wants['covariance_xy'][2]) * LD(1e-2)):
            return f'distance_covariance = {c!r} but distance_stats says {roots[0]!r}'
    return None


@check
def layout_equal(v, w, exponent=1, method='auto', unbiased=False):
    """A vector and the corresponding column give the same result (C01)."""
    f = dcor.u_distance_covariance_sqr if unbiased else dcor.distance_covariance_sqr
    out = []
    for a in (v, v[:, None]):
        for b in (w, w[:, None]):
            out.append(val(f(a, b, exponent=exponent, method=method_of(method))))
    t = tol_dcov(v, w, exponent, 'avl')
    for o in out[1:]:
        if bad(o, out[0], t):
            return f'{f.__name__}: vector/column layouts give {out!r}'
    return None


@check
def refuses(x, y, exponent=1, method='auto', compile_mode='AUTO', func='distance_covariance_sqr'):
    """A request that cannot be honoured raises (C05)."""
    try:
        r = getattr(dcor, func)(x, y, exponent=exponent, method=method_of(method), compile_mode=CM[compile_mode])
    except Exception:
        return None
    return f'{func} returned {r!r} for a request that cannot be honoured ({show(exponent=exponent, method=method, compile_mode=compile_mode, x_shape=x.shape, y_shape=y.shape)})'


@check
def bad_name(x, y, method='nonsense', func='distance_covariance_sqr'):
    try:
        r = getattr(dcor, func)(x, y, method=method)
    except Exception:
        return None
    return f'{func} accepted the method {method!r} and returned {r!r}'


@check
def name_equiv(x, y, name='avl', exponent=1, func='distance_covariance_sqr'):
    """A method given by name behaves as the enum member (C05)."""
    res = []
    for m in (name, Method[name.upper()]):
        try:
            r = getattr(dcor, func)(x, y, exponent=exponent, method=m)
            res.append(('ok', np.array([val(t) for t in (r if isinstance(r, dcor._dcor.Stats) else [r])])))
        except Exception as e:
            res.append(('exc', type(e).__name__))
    if res[0][0] != res[1][0] or (res[0][0] == 'ok' and not np.array_equal(res[0][1], res[1][1], equal_nan=True)):
        return f'{func}: method={name!r} gives {res[0]!r}, the enum member {res[1]!r}'
    return None


@check
def invariance(x, y, perm, shift, scale, rot, exponent=1, method='auto', unbiased=False):
    """Symmetry, permutation, translation, orthogonal maps and scaling (C07)."""
    f = dcor.u_distance_covariance_sqr if unbiased else dcor.distance_covariance_sqr
    g = dcor.u_distance_correlation_sqr if unbiased else dcor.distance_correlation_sqr
    kw = dict(exponent=exponent, method=method_of(method))
    base = val(f(x, y, **kw))
    cor = val(g(x, y, **kw))
    t = tol_dcov(x, y, exponent, 'avl') * 10
    tx, ty = tol_dcov(x, x, exponent, 'avl') * 10, tol_dcov(y, y, exponent, 'avl') * 10
    vx, vy = O.dcov(x, x, exponent, unbiased), O.dcov(y, y, exponent, unbiased)
    good = vx > 1e4 * tx and vy > 1e4 * ty
    perm = np.asarray(perm)

    def cmp(what, a, b, factor=LD(1), ct=t):
        got = val(f(a, b, **kw))
        if bad(got, base * factor, ct * factor):
            return f'{f.__name__} changes from {base * factor!r} to {got!r} under {what}'
        if good and factor != 0:
            c = val(g(a, b, **kw))
            if bad(c, cor, LD(1e-3)):
                return f'{g.__name__} changes from {cor!r} to {c!r} under {what}'
        return None

    xr = x
    if x.ndim == 2:
        xr = x @ np.asarray(rot)
    st = tol_dcov(x + shift, y, exponent, 'avl') * 10 + t
    # rounding of the shifted or rotated data themselves
    mag = (rng_of(x)[1] + abs(LD(shift))) * LD(2.3e-16) * 4
    if exponent < 1:
        near = mag ** LD(exponent) * rng_of(y)[0] ** LD(exponent)
    else:
        near = mag * (rng_of(x)[0] + mag) ** LD(exponent - 1) * 2 * rng_of(y)[0] ** LD(exponent)
    st = st + near * 10
    for what, a, b, fac, ct in (
            ('exchange of the samples', y, x, LD(1), t),
            ('a common permutation', x[perm], y[perm], LD(1), t),
            ('a translation', x + shift, y, LD(1), st),
            ('an orthogonal map', xr, y, LD(1), st),
            ('a sign change', -x, y, LD(1), t),
            (f'a scaling by {scale}', x * scale, y, abs(LD(scale)) ** LD(exponent), t)):
        m = cmp(what, a, b, fac, ct)
        if m:
            return m
    return None


# ---------------------------------------------------------------- C08
def _inv_sqrt_scaled(x):
    x = O.two_d(np.asarray(x, dtype=float))
    xc = x - x.mean(axis=0)
    w, v = np.linalg.eigh(xc.T @ xc / max(len(x) - 1, 1))
    return x @ (v / np.sqrt(w)) @ v.T, w


@check
def af_inv(x, y, mx, my, sx, sy, method='auto'):
    """Affinely invariant correlation: value, invariance (C08)."""
    m = method_of(method)
    got = val(dcor.distance_correlation_af_inv_sqr(x, y, method=m))
    xs, wx = _inv_sqrt_scaled(x)
    ys, wy = _inv_sqrt_scaled(y)
    cov, vx, vy = O.dcov(xs, ys), O.dcov(xs, xs), O.dcov(ys, ys)
    want = O.corr(cov, vx, vy)
    if bad(got, want, LD(1e-6)):
        return f'distance_correlation_af_inv_sqr = {got!r}, definition gives {want!r}'
    r = val(dcor.distance_correlation_af_inv(x, y, method=m))
    if bad(r, np.sqrt(max(got, LD(0))), LD(1e-10)):
        return f'distance_correlation_af_inv = {r!r} is not the square root of {got!r}'
    x2 = (O.two_d(x) @ np.asarray(mx) + np.asarray(sx))
    y2 = (O.two_d(y) @ np.asarray(my) + np.asarray(sy))
    got2 = val(dcor.distance_correlation_af_inv_sqr(x2, y2, method=m))
    if bad(got2, got, LD(1e-5)):
        return f'distance_correlation_af_inv_sqr changes from {got!r} to {got2!r} under an affine map'
    return None


@check
def af_inv_finite(x, y):
    """Never NaN, also for degenerate samples (C08)."""
    for f in (dcor.distance_correlation_af_inv_sqr, dcor.distance_correlation_af_inv):
        r = val(f(x, y))
        if np.isnan(r):
            return f'{f.__name__} is NaN'
        for t in (x, y):
            a = O.two_d(t)
            if np.all(a == a[0]) and r != 0:
                return f'{f.__name__} = {r!r} for a constant sample'
    return None


# ---------------------------------------------------------------- C09 .. C11
@check
def distances(x, y=None, exponent=1, same=False):
    got = dcor.distances.pairwise_distances(x, *([] if y is None else [y]), exponent=exponent) if not same \
        else dcor.distances.pairwise_distances(x, x, exponent=exponent)
    yy = x if y is None or same else y
    want = O.distances(x, yy, exponent)
    g = np.asarray(got)
    if g.shape != want.shape:
        return f'pairwise_distances has shape {g.shape}, expected {want.shape}'
    g = O.ld(g)
    mag = max(rng_of(x)[1], rng_of(yy)[1])
    t = LD(max(1e-12, eps_of(x, yy) * 1e-1 if eps_of(x, yy) > 1e-9 else 0)) * want
    # conversion of wide integers to double
    t = t + (LD(0) if mag < 2 ** 53 else (mag * LD(4.5e-16)) ** LD(min(exponent, 1)) * (mag ** LD(max(exponent - 1, 0)) * 2)) + LD(1e-300)
    b = ~(np.abs(g - want) <= t)
    if b.any():
        i, j = np.argwhere(b)[0]
        return f'pairwise_distances[{i},{j}] = {g[i, j]!r}, definition gives {want[i, j]!r} ({show(exponent=exponent)})'
    return None


@check
def overlapping(z, sx, sy, exponent=1):
    """Distances between two views of the same array (C09)."""
    return distances(z[slice(*sx)], z[slice(*sy)], exponent)


@check
def centering(a, which='double_centered', out='none'):
    """Centering functions: values, out handling, input preserved (C10)."""
    f = getattr(dcor, which)
    want = (O.double_center if which == 'double_centered' else O.u_center)(O.ld(a).copy())
    a = np.array(a)
    before = a.copy()
    o = None
    if out == 'none':
        got = f(a)
    elif out == 'self':
        o = a
        got = f(a, out=a)
    else:
        o = np.full(a.shape, 7.25) if out == 'other' else np.asfortranarray(np.full(a.shape, -1.0))
        got = f(a, out=o)
    if o is not None and got is not o:
        return f'{which}: the array given as out is not the one returned'
    if out != 'self' and not np.array_equal(a, before):
        return f'{which}: the input was modified (out={out})'
    if o is None and (np.shares_memory(got, a)):
        return f'{which}: the result shares memory with the input'
    if np.asarray(got).dtype.kind not in 'fO':
        return f'{which}: result of type {got.dtype}'
    g = O.ld(got)
    if g.shape != want.shape:
        return f'{which}: shape {g.shape}'
    t = LD(eps_of(a) * 1e-2) * (np.max(np.abs(O.ld(before))) + LD(1e-300)) * 10
    b = ~(np.abs(g - want) <= t)
    if b.any():
        i, j = np.argwhere(b)[0]
        return f'{which}[{i},{j}] = {g[i, j]!r}, definition gives {want[i, j]!r}'
    if which == 'u_centered' and np.any(np.diagonal(g) != 0):
        return 'u_centered: the diagonal is not exactly 0'
    return None


@check
def products(a, b):
    """u_product, mean_product and projections (C11)."""
    n = a.shape[0]
    A, B = O.ld(a), O.ld(b)
    m = (np.max(np.abs(A)) + LD(1e-300)) * (np.max(np.abs(B)) + LD(1e-300))
    got = val(dcor.u_product(a, b))
    if bad(got, O.u_product(A, B), LD(1e-10) * m * n):
        return f'u_product = {got!r}, definition gives {O.u_product(A, B)!r}'
    got = val(dcor.mean_product(a, b))
    if bad(got, np.mean(A * B), LD(1e-10) * m):
        return f'mean_product = {got!r}, definition gives {np.mean(A * B)!r}'
    p = dcor.u_projection(a)
    q = dcor.u_complementary_projection(a)
    aa = O.u_product(A, A)
    pb, qb = p(b), q(b)
    wp = np.zeros_like(B) if aa == 0 else O.u_product(B, A) / aa * A
    sc = LD(1e-9) * (np.max(np.abs(B)) * n + LD(1e-300))
    if np.shape(pb) != B.shape or (np.abs(O.ld(pb) - wp) > sc).any() or np.isnan(O.ld(pb)).any():
        return f'u_projection(a)(b) is not the projection: {pb!r}, expected {wp!r}'
    if np.shape(qb) != B.shape or (np.abs(O.ld(qb) - (B - wp)) > sc).any() or np.isnan(O.ld(qb)).any():
        return f'u_complementary_projection(a)(b) = {qb!r}, expected {B - wp!r}'
    # laws, on the returned values
    for nm, h, r in (('u_projection', p, pb), ('u_complementary_projection', q, qb)):
        rr = h(r)
        if (np.abs(O.ld(rr) - O.ld(r)) > sc * 10).any():
            return f'{nm} is not idempotent'
    o = val(dcor.u_product(qb, a))
    if abs(o) > LD(1e-9) * m * n * 4:
        return f'the complementary projection is not orthogonal to a: product {o!r}'
    # the callable can be used again
    if not np.array_equal(np.asarray(p(b)), np.asarray(pb)):
        return 'u_projection gives another result the second time'
    return None


# ---------------------------------------------------------------- C12
@check
def partial(x, y, z):
    n = x.shape[0]
    a, b, c = O.partial(x, y, z)
    (rx, mx), (ry, my), (rz, mz) = rng_of(x), rng_of(y), rng_of(z)
    if n < 4:
        return None
    na, nb, nc = O.u_product(a, a), O.u_product(b, b), O.u_product(c, c)
    czero = nc <= LD(1e-24) * rz ** 2
    if czero and np.any(c != 0):
        c_exact = np.all(O.two_d(np.asarray(z)) == O.two_d(np.asarray(z))[0])
        if not c_exact:
            return None       # U-centered to rounding noise: 0/0
    ac, bc = O.complementary(c, a), O.complementary(c, b)
    want = O.u_product(ac, bc)
    got = val(dcor.partial_distance_covariance(x, y, z))
    if bad(got, want, LD(1e-9) * rx * ry * n + LD(1e-300)):
        return f'partial_distance_covariance = {got!r}, definition gives {want!r}'
    sym = val(dcor.partial_distance_covariance(y, x, z))
    if bad(sym, got, LD(1e-9) * rx * ry * n + LD(1e-300)):
        return f'partial_distance_covariance is not symmetric: {got!r} and {sym!r}'
    # correlation
    pa, pb = O.u_product(ac, ac), O.u_product(bc, bc)
    got = val(dcor.partial_distance_correlation(x, y, z))
    sym = val(dcor.partial_distance_correlation(y, x, z))
    if np.isnan(got):
        return 'partial_distance_correlation is NaN'
    noise = [t for t, nt, r in ((x, na, rx), (y, nb, ry), (z, nc, rz))
             if nt <= LD(1e-20) * r ** 2 and not np.all(O.two_d(np.asarray(t)) == O.two_d(np.asarray(t))[0])]
    if noise:
        return None
    if na == 0 or nb == 0:
        # one of the parts vanishes
        if got != 0:
            return f'partial_distance_correlation = {got!r} for a vanishing part'
        return None
    if np.array_equal(O.two_d(np.asarray(x)), O.two_d(np.asarray(z))) or np.array_equal(O.two_d(np.asarray(y)), O.two_d(np.asarray(z))):
        # a part vanishes up to rounding
        if not (-1.001 <= got <= 1.001):
            return f'partial_distance_correlation = {got!r} for a vanishing part'
        return None
    if pa > LD(1e-8) * na and pb > LD(1e-8) * nb:
        want = want / np.sqrt(pa * pb)
        if bad(got, want, LD(1e-5)):
            return f'partial_distance_correlation = {got!r}, definition gives {want!r}'
        if not (-1 - 1e-6 <= got <= 1 + 1e-6):
            return f'partial_distance_correlation = {got!r} out of range'
        if bad(sym, got, LD(1e-6)):
            return f'partial_distance_correlation is not symmetric: {got!r} and {sym!r}'
    return None


# ---------------------------------------------------------------- C13, C14
AVG = {
    None: None,
    'mean': np.mean,
    'median': np.median,
    'max': np.max,
    'trimmed': lambda d: np.mean(np.sort(np.ravel(d))[: max(1, np.size(d) // 2)]),
    'sumsq': lambda d: np.sum(np.asarray(d) ** 2),
    'size': lambda d: np.sum(np.ones_like(np.asarray(d, dtype=float))),
}


def stat_of(s):
    return EstStat[s[5:]] if s.startswith('enum:') else s


def stat_kind(s):
    return (s[5:] if s.startswith('enum:') else s).upper()[0]


@check
def energy(x, y, exponent=1, stat='V', average=None):
    kw = {} if stat is None else dict(estimation_stat=stat_of(stat))
    if average is not None:
        kw['average'] = AVG[average]
    got = val(dcor.energy_distance(x, y, exponent=exponent, **kw))
    sk = 'V' if stat is None else stat_kind(stat)
    want = O.energy(x, y, exponent, sk, AVG[average])
    big = max(np.max(np.abs(O.distances(x, y, exponent))), LD(1e-300))
    d = max(big, np.max(O.distances(x, x, exponent)), np.max(O.distances(y, y, exponent)))
    fac = 1 if average != 'sumsq' else d * x.shape[0] * y.shape[0] * 4
    t = LD(eps_of(x, y)) * d * fac
    if average == 'size':
        t = LD(1e-9)
    if bad(got, want, t):
        return f'energy_distance = {got!r}, definition gives {want!r} ({show(exponent=exponent, stat=stat, average=average)})'
    g2 = val(dcor.homogeneity.energy_test_statistic(x, y, exponent=exponent, **kw))
    n, m = x.shape[0], y.shape[0]
    w2 = want * LD(n) * LD(m) / LD(n + m)
    if bad(g2, w2, t * (n + m)):
        return f'energy_test_statistic = {g2!r}, definition gives {w2!r}'
    return None


@check
def energy_names(x, y):
    """Names of the statistic, in any case, are the enum members (C13)."""
    for names, member in ((('u', 'U', 'u_statistic', 'U_STATISTIC', 'U_Statistic'), EstStat.U_STATISTIC),
                          (('v', 'V', 'v_statistic', 'V_STATISTIC', 'V_Statistic'), EstStat.V_STATISTIC)):
        want = val(dcor.energy_distance(x, y, estimation_stat=member))
        for s in names:
            got = val(dcor.energy_distance(x, y, estimation_stat=s))
            if got != want:
                return f'estimation_stat={s!r} gives {got!r}, the enum member {want!r}'
            got = val(dcor.homogeneity.energy_test_statistic(x, y, estimation_stat=s))
            w = val(dcor.homogeneity.energy_test_statistic(x, y, estimation_stat=member))
            if got != w:
                return f'energy_test_statistic: estimation_stat={s!r} gives {got!r}, the enum member {w!r}'
    try:
        r = dcor.energy_distance(x, y, estimation_stat='W')
    except Exception:
        return None
    return f"estimation_stat='W' was accepted and returned {r!r}"


@check
def energy_test(samples, exponent=1, stat='V', average=None, seed=0, resamples=0):
    kw = dict(estimation_stat=stat_of(stat))
    if average is not None:
        kw['average'] = AVG[average]
    res = dcor.homogeneity.energy_test(*samples, num_resamples=resamples, exponent=exponent, random_state=seed, **kw)
    sizes = [s.shape[0] for s in samples]
    pooled = np.concatenate([O.two_d(O.ld(s)) for s in samples])
    d = O.distances(pooled, pooled, exponent)
    want = O.energy_k(d, sizes, stat_kind(stat), AVG[average])
    k = len(sizes)
    t = LD(eps_of(*samples)) * (np.max(d) + LD(1e-300)) * sum(sizes) * k
    if average == 'sumsq':
        t = t * (np.max(d) + 1) * sum(sizes) ** 2
    if average == 'size':
        t = t + LD(1e-9)
    got = val(res.statistic)
    if bad(got, want, t):
        return f'energy_test statistic = {got!r}, definition gives {want!r} (sizes {sizes}, {show(exponent=exponent, stat=stat, average=average)})'
    if k == 2:
        e = val(dcor.homogeneity.energy_test_statistic(*samples, exponent=exponent, **kw))
        if bad(got, e, t):
            return f'energy_test statistic = {got!r} but energy_test_statistic = {e!r}'
    return None


# ---------------------------------------------------------------- C15, C16
def _perm_pvalue(stat_fn, n, R, rs, tol):
    obs = stat_fn(np.arange(n))
    sure = amb = 0
    for _ in range(R):
        v = stat_fn(rs.permutation(n))
        if v > obs + tol:
            sure += 1
        elif v > obs - tol:
            amb += 1
    return obs, sure, amb


def _rs(seed, kind):
    if kind == 'int':
        return seed, np.random.RandomState(seed)
    if kind == 'RandomState':
        return np.random.RandomState(seed), np.random.RandomState(seed)
    if kind == 'Generator':
        return np.random.default_rng(seed), np.random.default_rng(seed)
    # a random state that has already been used
    a, b = np.random.RandomState(seed), np.random.RandomState(seed)
    a.permutation(5), b.permutation(5)
    return a, b


def _check_test(res, obs, sure, amb, R, tol, what):
    got = val(res.statistic)
    if bad(got, obs, tol):
        return f'{what}: statistic = {got!r}, definition gives {obs!r}'
    lo, hi = (1 + sure) / (R + 1), (1 + sure + amb) / (R + 1)
    p = float(res.pvalue)
    if not (lo - 1e-12 <= p <= hi + 1e-12):
        return f'{what}: pvalue = {p!r}, expected {lo!r}' + (f' to {hi!r}' if amb else '') + f' (R={R})'
    if not (1 / (R + 1) - 1e-12 <= p <= 1 + 1e-12):
        return f'{what}: pvalue = {p!r} outside [1/(R+1), 1]'
    return None


def _jobs_ctx(backend):
    import joblib
    return joblib.parallel_config(backend=backend) if backend else _null()


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _same_result(f, args, kw, first, seed_kind, seed, jobs, backend, what):
    if jobs == 1:
        r = f(*args, random_state=_rs(seed, seed_kind)[0], **kw)
    else:
        with _jobs_ctx(backend):
            r = f(*args, random_state=_rs(seed, seed_kind)[0], n_jobs=jobs, **kw)
    if float(r.pvalue) != float(first.pvalue) or val(r.statistic) != val(first.statistic):
        return f'{what}: n_jobs={jobs} gives pvalue {r.pvalue!r}, statistic {r.statistic!r}; before {first.pvalue!r}, {first.statistic!r}'
    return None


@check
def perm_dcov(x, y, exponent=1, R=10, seed=0, rs='int', jobs=1, backend=None):
    st, mine = _rs(seed, rs)
    n = x.shape[0]
    f = dcor.independence.distance_covariance_test
    res = f(x, y, num_resamples=R, exponent=exponent, random_state=st)
    A = O.double_center(O.distances(x, x, exponent))
    B = O.double_center(O.distances(y, y, exponent))
    tol = LD(1e-9) * (rng_of(x)[0] * rng_of(y)[0]) ** LD(exponent) * n + LD(1e-300)
    obs, sure, amb = _perm_pvalue(lambda p: n * np.mean(A[p][:, p] * B), n, R, mine, tol)
    m = _check_test(res, obs, sure, amb, R, tol, 'distance_covariance_test')
    if m:
        return m
    w = val(dcor.distance_covariance_sqr(x, y, exponent=exponent)) * n
    if bad(val(res.statistic), w, tol + tol_dcov(x, y, exponent, 'avl') * n):
        return f'distance_covariance_test statistic {res.statistic!r} is not n * distance_covariance_sqr = {w!r}'
    return _same_result(f, (x, y), dict(num_resamples=R, exponent=exponent), res, rs, seed, jobs, backend, 'distance_covariance_test')


@check
def perm_partial(x, y, z, exponent=1, R=10, seed=0, rs='int', jobs=1, backend=None):
    st, mine = _rs(seed, rs)
    n = x.shape[0]
    f = dcor.independence.partial_distance_covariance_test
    res = f(x, y, z, num_resamples=R, exponent=exponent, random_state=st)
    a, b, c = O.partial(x, y, z, exponent)
    nc, rz = O.u_product(c, c), rng_of(z)[0] ** LD(exponent)
    if nc <= LD(1e-18) * rz ** 2 and np.any(c != 0):
        return None
    pa, pb = O.complementary(c, a), O.complementary(c, b)
    tol = LD(1e-8) * (rng_of(x)[0] * rng_of(y)[0]) ** LD(exponent) * n + LD(1e-300)
    obs, sure, amb = _perm_pvalue(lambda p: n * O.u_product(pa[p][:, p], pb), n, R, mine, tol)
    m = _check_test(res, obs, sure, amb, R, tol, 'partial_distance_covariance_test')
    if m:
        return m
    return _same_result(f, (x, y, z), dict(num_resamples=R, exponent=exponent), res, rs, seed, jobs, backend, 'partial_distance_covariance_test')


@check
def perm_energy(samples, exponent=1, stat='V', R=10, seed=0, rs='int', jobs=1, backend=None):
    st, mine = _rs(seed, rs)
    f = dcor.homogeneity.energy_test
    kw = dict(num_resamples=R, exponent=exponent, estimation_stat=stat_of(stat))
    res = f(*samples, random_state=st, **kw)
    sizes = [s.shape[0] for s in samples]
    pooled = np.concatenate([O.two_d(O.ld(s)) for s in samples])
    d = O.distances(pooled, pooled, exponent)
    n = sum(sizes)
    tol = LD(1e-9) * (np.max(d) + LD(1e-300)) * n
    obs, sure, amb = _perm_pvalue(lambda p: O.energy_k(d[p][:, p], sizes, stat_kind(stat)), n, R, mine, tol)
    m = _check_test(res, obs, sure, amb, R, tol, 'energy_test')
    if m:
        return m
    return _same_result(f, samples, kw, res, rs, seed, jobs, backend, 'energy_test')


@check
def test_sizes(x, y):
    """Samples of different sizes raise ValueError (C16)."""
    try:
        r = dcor.independence.distance_covariance_test(x, y)
    except ValueError:
        return None
    except Exception as e:
        return f'distance_covariance_test raised {e!r} instead of ValueError for sizes {x.shape[0]} and {y.shape[0]}'
    return f'distance_covariance_test returned {r!r} for sizes {x.shape[0]} and {y.shape[0]}'


# ---------------------------------------------------------------- C17
@check
def t_test(x, y):
    import scipy.stats
    n = x.shape[0]
    v = n * (n - 3) / 2
    ux, uy = O.dcov(x, x, 1, True), O.dcov(y, y, 1, True)
    f = dcor.independence
    R0 = val(dcor.u_distance_correlation_sqr(x, y))
    R = O.corr(O.dcov(x, y, 1, True), ux, uy)
    t = val(f.distance_correlation_t_statistic(x, y))
    res = f.distance_correlation_t_test(x, y)
    if val(res.statistic) != t and not (np.isnan(t) and np.isnan(val(res.statistic))):
        return f't test statistic {res.statistic!r} differs from distance_correlation_t_statistic {t!r}'
    tx, ty = tol_dcov(x, x, 1, 'avl'), tol_dcov(y, y, 1, 'avl')
    cond = ux > 1e5 * tx and uy > 1e5 * ty
    for nm, a in (('x', x), ('y', y)):
        a = O.two_d(np.asarray(a))
        if np.all(a == a[0]):
            R, R0, cond = LD(0), LD(0), True
    if not cond:
        return None
    if abs(R0) == 1:
        if not (np.isinf(t) and np.sign(t) == np.sign(R0)):
            return f't statistic = {t!r} for R = {R0!r}'
    elif abs(R0) < 1:
        want = np.sqrt(LD(v - 1)) * R0 / np.sqrt(1 - R0 ** 2)
        if bad(t, want, LD(1e-8) * (abs(want) + 1) * (1 + abs(want) ** 2 / LD(v))):
            return f't statistic = {t!r}, definition with R = {R0!r} gives {want!r}'
        if abs(R) < 1 - 1e-4:
            w2 = np.sqrt(LD(v - 1)) * R / np.sqrt(1 - R ** 2)
            if bad(t, w2, LD(1e-2) * (abs(w2) + 1)):
                return f't statistic = {t!r}, definition gives {w2!r}'
    p = float(np.asarray(res.pvalue))
    wantp = float(scipy.stats.t.sf(float(t), v - 1))
    if not abs(p - wantp) <= 1e-9:
        return f't test pvalue = {p!r}, upper tail of Student t with {v - 1} degrees of freedom is {wantp!r}'
    return None


# ---------------------------------------------------------------- C18
ROWF = ['distance_covariance_sqr', 'u_distance_covariance_sqr', 'distance_covariance', 'distance_correlation_sqr',
        'u_distance_correlation_sqr', 'distance_correlation', 'distance_correlation_af_inv', 'energy_distance', 'callable',
        'distance_correlation_t_statistic', 'distance_stats']


def _first_minus(x, y, **kw):
    return np.asarray(x).ravel()[0] * 10 - np.asarray(y).ravel()[-1]


def _rowfun(name):
    if name == 'callable':
        return _first_minus
    if name == 'distance_correlation_t_statistic':
        return dcor.independence.distance_correlation_t_statistic
    return getattr(dcor, name)


@check
def rowwise(x, y, func='distance_covariance_sqr', mode='AUTO', compile_mode=None, method=None, exponent=None):
    f = _rowfun(func)
    kw = {}
    if compile_mode:
        kw['compile_mode'] = CM[compile_mode]
    if method:
        kw['method'] = method_of(method)
    if exponent is not None:
        kw['exponent'] = exponent
    rowkw = dict(kw)
    if compile_mode == 'COMPILE_PARALLEL':
        rowkw['compile_mode'] = CM['AUTO']
    want = np.array([val(f(a, b, **rowkw)) for a, b in zip(x, y)])
    try:
        got = dcor.rowwise(f, x, y, rowwise_mode=RowwiseMode[mode], **kw)
    except NotImplementedError:
        if mode == 'OPTIMIZED':
            return None
        if compile_mode == 'COMPILE_PARALLEL' or compile_mode == 'COMPILE_CPU':
            return None
        return f'rowwise({func}, mode={mode}) raised NotImplementedError'
    if mode == 'OPTIMIZED' and not hasattr(f, 'rowwise_function'):
        return f'rowwise({func}, mode=OPTIMIZED) returned {got!r} without an optimized implementation'
    g = np.asarray(got)
    if g.shape != want.shape:
        return f'rowwise({func}) has shape {g.shape}, expected {want.shape}'
    g = O.ld(g)
    for i, (a, b) in enumerate(zip(x, y)):
        tol = LD(1e-8) * (abs(want[i]) + LD(1e-300))
        if func in ROWF[:3]:
            tt = tol_dcov(a, b, exponent or 1, 'avl')
            tol = tt if func != 'distance_covariance' else max(np.sqrt(tt), tol) if abs(want[i]) ** 2 < tt * 100 else tt / abs(want[i])
        elif 'correlation' in func and func not in ('callable',):
            unb = func in ('u_distance_correlation_sqr', 'distance_correlation_t_statistic')
            e = exponent or 1
            vx, vy = O.dcov(a, a, e, unb), O.dcov(b, b, e, unb)
            const = any(np.all(O.two_d(np.asarray(t)) == O.two_d(np.asarray(t))[0]) for t in (a, b))
            if const:
                if not (g[i] == 0):
                    return f'rowwise({func})[{i}] = {g[i]!r} for a row with a constant sample'
                continue
            if vx < LD(1e6) * tol_dcov(a, a, e, 'avl') or vy < LD(1e6) * tol_dcov(b, b, e, 'avl'):
                continue
            tol = LD(1e-3) * (1 + abs(want[i])) if max(eps_of(a, b), 0) > 1e-9 else LD(1e-5) * (1 + abs(want[i]))
            if func == 'distance_correlation' and abs(want[i]) < 1e-2:
                tol = LD(1e-2)
        if bad(g[i], want[i], tol):
            return f'rowwise({func}, mode={mode}, {kw})[{i}] = {g[i]!r}, function gives {want[i]!r}'
    return None


@check
def rowwise_refuses(x, y, func='energy_distance'):
    try:
        r = dcor.rowwise(_rowfun(func), x, y, rowwise_mode=RowwiseMode.OPTIMIZED)
    except NotImplementedError:
        return None
    except Exception as e:
        return f'rowwise(mode=OPTIMIZED) raised {e!r} instead of NotImplementedError'
    return f'rowwise({func}, mode=OPTIMIZED) returned {r!r}'


# ---------------------------------------------------------------- C19
def _calls(x, y, z, samples, D, a, b):
    M = list(Method)
    two = [getattr(dcor, n) for n in ('distance_covariance_sqr', 'u_distance_covariance_sqr', 'distance_covariance', 'distance_stats_sqr',
                                      'u_distance_stats_sqr', 'distance_stats', 'distance_correlation_sqr', 'u_distance_correlation_sqr', 'distance_correlation')]
    for f in two:
        for m in M:
            for c in (CompileMode.AUTO, CompileMode.NO_COMPILE):
                yield f'{f.__name__}({m.name},{c.name})', (lambda f=f, m=m, c=c: f(x, y, method=m, compile_mode=c)), (x, y)
        yield f'{f.__name__}(exponent=.5)', (lambda f=f: f(x, y, exponent=0.5)), (x, y)
    for f in (dcor.distance_correlation_af_inv_sqr, dcor.distance_correlation_af_inv):
        yield f.__name__, (lambda f=f: f(x, y)), (x, y)
    for f in (dcor.partial_distance_covariance, dcor.partial_distance_correlation):
        yield f.__name__, (lambda f=f: f(x, y, z)), (x, y, z)
    for s in ('U', 'V'):
        yield f'energy_distance({s})', (lambda s=s: dcor.energy_distance(x, z, estimation_stat=s)), (x, z)
        yield f'energy_test_statistic({s})', (lambda s=s: dcor.homogeneity.energy_test_statistic(x, z, estimation_stat=s)), (x, z)
        yield f'energy_test({s})', (lambda s=s: dcor.homogeneity.energy_test(*samples, num_resamples=3, random_state=1, estimation_stat=s)), samples
    yield 'energy_test(average)', (lambda: dcor.homogeneity.energy_test(*samples, num_resamples=2, random_state=1, average=np.median, exponent=0.7)), samples
    yield 'distance_covariance_test', (lambda: dcor.independence.distance_covariance_test(x, y, num_resamples=3, random_state=1)), (x, y)
    yield 'partial_distance_covariance_test', (lambda: dcor.independence.partial_distance_covariance_test(x, y, z, num_resamples=3, random_state=1)), (x, y, z)
    yield 'distance_correlation_t_statistic', (lambda: dcor.independence.distance_correlation_t_statistic(x, y)), (x, y)
    yield 'distance_correlation_t_test', (lambda: dcor.independence.distance_correlation_t_test(x, y)), (x, y)
    yield 'pairwise_distances(x)', (lambda: dcor.distances.pairwise_distances(x)), (x,)
    yield 'pairwise_distances(x,y)', (lambda: dcor.distances.pairwise_distances(x, y)), (x, y)
    yield 'pairwise_distances(x,y,.5)', (lambda: dcor.distances.pairwise_distances(x, y, exponent=0.5)), (x, y)
    yield 'double_centered', (lambda: dcor.double_centered(D)), (D,)
    yield 'u_centered', (lambda: dcor.u_centered(D)), (D,)
    yield 'double_centered(out)', (lambda: dcor.double_centered(D, out=np.zeros(D.shape))), (D,)
    yield 'u_centered(out)', (lambda: dcor.u_centered(D, out=np.zeros(D.shape))), (D,)
    yield 'u_product', (lambda: dcor.u_product(a, b)), (a, b)
    yield 'mean_product', (lambda: dcor.mean_product(a, b)), (a, b)
    yield 'u_projection', (lambda: dcor.u_projection(a)(b)), (a, b)
    yield 'u_complementary_projection', (lambda: dcor.u_complementary_projection(a)(b)), (a, b)
    rx, ry = np.stack([np.ravel(x)[:len(x)]] * 2), np.stack([np.ravel(y)[:len(y)]] * 2)
    for f in two[:3] + two[6:]:
        for m in RowwiseMode:
            for c in (CompileMode.AUTO, CompileMode.COMPILE_CPU):
                yield f'rowwise({f.__name__},{m.name},{c.name})', (lambda f=f, m=m, c=c: dcor.rowwise(f, rx, ry, rowwise_mode=m, compile_mode=c)), (rx, ry)


def _flat(r):
    if isinstance(r, dcor._dcor.Stats):
        return [np.asarray(t) for t in r]
    if hasattr(r, 'pvalue'):
        return [np.asarray(r.pvalue), np.asarray(r.statistic)]
    return [np.asarray(r)]


@check
def no_mutation(x, y, z, samples, D, only=None):
    """Nothing is written to the inputs, and repeating a call repeats the result (C19)."""
    aa, bb = np.array(O.u_center(O.distances(x, x, 1)), dtype=float), np.array(O.u_center(O.distances(y, y, 1)), dtype=float)
    D0 = D
    for name, call, ins in _calls(x, y, z, samples, D0, aa, bb):
        if only and only != name:
            continue
        before = [np.array(i, copy=True) for i in ins]
        meta = [(i.shape, i.dtype, i.strides, i.flags.writeable) for i in ins]
        try:
            r1 = call()
        except Exception as e:
            r1 = e
        for i, (arr, bef, me) in enumerate(zip(ins, before, meta)):
            if not _identical(arr, bef) or (arr.shape, arr.dtype, arr.strides, arr.flags.writeable) != me:
                return f'{name} modified its argument {i}'
        try:
            r2 = call()
        except Exception as e:
            r2 = e
        if isinstance(r1, Exception) or isinstance(r2, Exception):
            if type(r1) is not type(r2):
                return f'{name}: first {r1!r}, then {r2!r}'
            if isinstance(r1, ValueError) and 'read-only' in str(r1):
                return f'{name} tried to write to a read-only argument: {r1!r}'
            continue
        for p, q in zip(_flat(r1), _flat(r2)):
            if not _identical(p, q):
                return f'{name}: repeating the call gives {q!r} instead of {p!r}'
        # the result must not be (a view of) the input
        for p in (_flat(r1) if not hasattr(r1, 'pvalue') else []):
            for arr in ins:
                if isinstance(p, np.ndarray) and p.ndim and np.shares_memory(p, arr):
                    return f'{name}: the result shares memory with an argument'
    return None


def _identical(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(p == q for p, q in zip(a.ravel(), b.ravel()))
    return np.array_equal(a, b, equal_nan=True)


# ---------------------------------------------------------------- C20
@check
def exact(x, y, method='auto', compile_mode='AUTO', column=0):
    """Fractions give exact rationals (C20)."""
    X, Y = x[:, None] if column & 1 else x, y[:, None] if column & 2 else y
    for f, unb in ((dcor.distance_covariance_sqr, False), (dcor.u_distance_covariance_sqr, True)):
        got = f(X, Y, method=method_of(method), compile_mode=CM[compile_mode])
        g = got.item() if isinstance(got, np.ndarray) else got
        want = O.dcov_fraction(list(x), list(y), unb)
        if not isinstance(g, (Fraction, int)) or g != want:
            return f'{f.__name__} of Fractions = {got!r}, exact value {want!r}'
    for f, unb in ((dcor.distance_stats_sqr, False), (dcor.u_distance_stats_sqr, True)):
        s = f(X, Y, method=method_of(method), compile_mode=CM[compile_mode])
        for nm, p, q in (('covariance_xy', x, y), ('variance_x', x, x), ('variance_y', y, y)):
            g = getattr(s, nm)
            g = g.item() if isinstance(g, np.ndarray) else g
            want = O.dcov_fraction(list(p), list(q), unb)
            if not isinstance(g, (Fraction, int)) or g != want:
                return f'{f.__name__}.{nm} of Fractions = {g!r}, exact value {want!r}'
    return None


@check
def ints(x, y, func='distance_covariance_sqr', method='auto', compile_mode='AUTO'):
    """Integer samples are treated as their float values (C20)."""
    kw = {} if func in ('energy_distance', 'energy_test_statistic', 'energy_test', 'distance_covariance_test', 'partial_distance_covariance') \
        else dict(method=method_of(method), compile_mode=CM[compile_mode])
    f = getattr(dcor, func, None) or getattr(dcor.homogeneity, func, None) or getattr(dcor.independence, func)
    X, Y = O.ld(x), O.ld(y)
    big = [x.astype(float), y.astype(float)]
    third = func == 'partial_distance_covariance'
    got = f(x, y, *([x[::-1]] if third else []), **kw)
    want = f(*big, *([big[0][::-1]] if third else []), **kw)
    got, want = (val(t.statistic if hasattr(t, 'statistic') else t) for t in (got, want))
    scale = rng_of(x)[0] * rng_of(y)[0] if 'covariance' in func else max(rng_of(X)[1], rng_of(Y)[1])
    if 'correlation' in func:
        vx, vy = O.dcov(x, x), O.dcov(y, y)
        if vx < 1e4 * tol_dcov(x, x, 1, 'avl') or vy < 1e4 * tol_dcov(y, y, 1, 'avl'):
            return None
        scale = LD(1e4)
    if func == 'distance_covariance_sqr' or func == 'u_distance_covariance_sqr':
        d = O.dcov(X, Y, 1, func.startswith('u_'))
        if bad(got, d, LD(1e-9) * scale + LD(1e-300)):
            return f'{func} of {x.dtype} = {got!r}, definition gives {d!r}'
    if func == 'distance_covariance':
        scale = np.sqrt(scale) * LD(1e3)
    if bad(got, want, LD(1e-8) * scale * len(x) + LD(1e-300)):
        return f'{func} of {x.dtype},{y.dtype} = {got!r}, of the same values as float {want!r}'
    return None


@check
def other_library(x, y, func='distance_covariance_sqr', exponent=1, dtype='float64', **kw):
    """array_api_strict arrays give array_api_strict results with NumPy's value (C20)."""
    import array_api_strict as S
    f = getattr(dcor, func, None) or getattr(dcor.homogeneity, func)
    xs, ys = S.asarray(np.asarray(x, dtype=dtype)), S.asarray(np.asarray(y, dtype=dtype))
    got = f(xs, ys, exponent=exponent, **kw)
    want = f(np.asarray(x, dtype=dtype), np.asarray(y, dtype=dtype), exponent=exponent, **kw)
    gs = list(got) if hasattr(got, 'covariance_xy') else [got]
    ws = list(want) if hasattr(want, 'covariance_xy') else [want]
    if hasattr(got, 'covariance_xy'):
        gs = [got.covariance_xy, got.correlation_xy, got.variance_x, got.variance_y]
    names = ['covariance_xy', 'correlation_xy', 'variance_x', 'variance_y'] if len(gs) == 4 else [func]
    unb = func.startswith('u_')
    vx, vy = O.dcov(x, x, exponent, unb), O.dcov(y, y, exponent, unb)
    for nm, g, w in zip(names, gs, ws):
        if not isinstance(g, type(xs)):
            return f'{func}.{nm}: {type(g)} returned for {type(xs)}'
        if 'float' not in str(g.dtype):
            return f'{func}.{nm}: dtype {g.dtype}'
        g, w = LD(float(g)), val(w)
        if 'correlation' in nm:
            if vx < 1e5 * tol_dcov(x, x, exponent, 'avl') or vy < 1e5 * tol_dcov(y, y, exponent, 'avl'):
                continue
            t = LD(1e-3) if dtype == 'float64' else LD(5e-2)
        else:
            sc = (rng_of(x)[0] * rng_of(y)[0]) ** LD(exponent)
            if nm == 'variance_x':
                sc = rng_of(x)[0] ** LD(2 * exponent)
            if nm == 'variance_y':
                sc = rng_of(y)[0] ** LD(2 * exponent)
            if func.startswith('energy'):
                sc = np.max(O.distances(np.concatenate([O.two_d(x), O.two_d(y)]), np.concatenate([O.two_d(x), O.two_d(y)]), exponent)) * len(x)
            if func in ('distance_covariance', 'distance_stats'):
                sc = np.sqrt(sc) * 100
            t = sc * LD(1e-6 if dtype == 'float64' else 3e-3) + LD(1e-300)
        if bad(g, w, t):
            return f'{func}.{nm} of {type(xs).__module__} {dtype} arrays = {g!r}, NumPy gives {w!r}'
    return None
