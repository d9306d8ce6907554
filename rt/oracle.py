"""Reference definitions, evaluated in extended precision (or exactly).

These are the postconditions of the contracts in executable form.  They are
written from the definitions of the statistics, never from dcor's code.
"""
from __future__ import annotations

from fractions import Fraction

import numpy as np

LD = np.longdouble


def two_d(x):
    x = np.asarray(x)
    return x.reshape(x.shape[0], -1) if x.ndim == 1 else x


def ld(x):
    """Value of an array as longdouble, whatever its number type."""
    x = np.asarray(x)
    if x.dtype == object:
        flat = [LD(v.numerator) / LD(v.denominator) if isinstance(v, Fraction) else LD(v) for v in x.ravel()]
        return np.array(flat, dtype=LD).reshape(x.shape)
    return x.astype(LD)


def distances(x, y, e):
    x, y = two_d(ld(x)), two_d(ld(y))
    diff = x[:, None, :] - y[None, :, :]
    if x.shape[1] == 1:
        d = np.abs(diff[..., 0])
    else:
        # Scaled to avoid spurious underflow or overflow in the squares.
        m = np.max(np.abs(diff), axis=-1)
        safe = np.where(m == 0, LD(1), m)
        d = m * np.sqrt(np.sum((diff / safe[..., None]) ** 2, axis=-1))
    return d if e == 1 else np.where(d == 0, LD(0), np.where(d == 0, LD(1), d) ** LD(e))


def double_center(a):
    r, c = a.mean(axis=1), a.mean(axis=0)
    return a - r[:, None] - c[None, :] + a.mean()


def u_center(a):
    n = a.shape[0]
    r, c = a.sum(axis=1), a.sum(axis=0)
    out = a - r[:, None] / LD(n - 2) - c[None, :] / LD(n - 2) + a.sum() / LD((n - 1) * (n - 2))
    out[np.arange(n), np.arange(n)] = 0
    return out


def dcov(x, y, e=1, unbiased=False):
    """Squared distance covariance by its definition."""
    a, b = distances(x, x, e), distances(y, y, e)
    n = a.shape[0]
    if unbiased:
        return np.sum(u_center(a) * u_center(b)) / LD(n * (n - 3))
    return np.mean(double_center(a) * double_center(b))


def corr(cov, vx, vy):
    den = np.sqrt(np.abs(LD(vx) * LD(vy)))
    return LD(0) if den == 0 else cov / den


def dcov_fraction(x, y, unbiased=False):
    """Exact value for univariate exact samples and exponent 1."""
    n = len(x)
    a = [[abs(p - q) for q in x] for p in x]
    b = [[abs(p - q) for q in y] for p in y]
    def center(m):
        r = [sum(v) for v in m]
        t = sum(r)
        if unbiased:
            return [[Fraction(0) if i == j else m[i][j] - Fraction(r[i]) / (n - 2) - Fraction(r[j]) / (n - 2) + Fraction(t) / ((n - 1) * (n - 2)) for j in range(n)] for i in range(n)]
        return [[m[i][j] - Fraction(r[i]) / n - Fraction(r[j]) / n + Fraction(t) / n ** 2 for j in range(n)] for i in range(n)]
    a, b = center(a), center(b)
    s = sum(a[i][j] * b[i][j] for i in range(n) for j in range(n))
    return s / (n * (n - 3)) if unbiased else s / n ** 2


def u_product(a, b):
    n = a.shape[0]
    return np.sum(a * b) / LD(n * (n - 3))


def complementary(c, a):
    cc = u_product(c, c)
    return a if cc == 0 else a - u_product(a, c) / cc * c


def partial(x, y, z, e=1):
    a, b, c = (u_center(distances(t, t, e)) for t in (x, y, z))
    return a, b, c


def energy(x, y, e=1, stat='V', average=None):
    dxx, dyy, dxy = distances(x, x, e), distances(y, y, e), distances(x, y, e)
    return energy_from(dxx, dyy, dxy, stat, average)


def energy_from(dxx, dyy, dxy, stat='V', average=None):
    average = average or np.mean
    if stat == 'U':
        dxx = dxx[np.triu_indices(dxx.shape[0], 1)]
        dyy = dyy[np.triu_indices(dyy.shape[0], 1)]
    return 2 * average(dxy) - average(dxx) - average(dyy)


def energy_k(d, sizes, stat='V', average=None):
    off = np.concatenate([[0], np.cumsum(sizes)])
    tot = LD(0)
    k = len(sizes)
    for i in range(k):
        for j in range(i + 1, k):
            si, sj = slice(off[i], off[i + 1]), slice(off[j], off[j + 1])
            n, m = sizes[i], sizes[j]
            tot = tot + LD(n) * LD(m) / LD(n + m) * energy_from(d[si, si], d[sj, sj], d[si, sj], stat, average)
    return tot
