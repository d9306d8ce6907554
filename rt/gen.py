"""Input generators for the runtime contract checks (all seeded)."""
from __future__ import annotations

import json
import os
from fractions import Fraction

import numpy as np

NPINTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
SMALL = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17]
MID = [31, 32, 33, 63, 64, 65]
BIG = [127, 128, 129, 255, 256, 257]


def _hints():
    """Numbers of the source that its last verified version does not have (sizes, magnitudes and exponents to try)."""
    try:
        h = json.loads(os.environ.get('VERIF_HINTS', '[]'))
    except ValueError:
        h = []
    return [float(v) for v in h if np.isfinite(v)]


HINTS = _hints()


def hint_size(rng, lo, most=600):
    """A size near a hint, or None."""
    ks = [int(k) for v in HINTS for k in (v - 1, v, v + 1, v + 2) if k == int(k) and lo <= k <= most]
    return int(rng.choice(ks)) if ks else None


def some(rng, lo, hi, big=0.04):
    """A size in [lo, hi), seldom a larger one."""
    u = rng.random()
    if u < 0.2:
        k = hint_size(rng, lo, 600 if u < 0.19 else 2500)
        if k is not None:
            return k
    if rng.random() < big:
        return int(rng.choice([k for k in MID + BIG[:3] + [20, 25, 40, 50, 100, 101, 150, 200] if k >= lo]))
    return int(rng.integers(lo, hi))


def size(rng, lo=4, mid=0.15, big=0.03):
    u = rng.random()
    if u < 0.2 and HINTS:
        k = hint_size(rng, lo, 600 if u < 0.18 else 2500)
        if k is not None:
            return k
    u = rng.random()
    if u < big:
        return int(rng.choice(BIG))
    if u < big + mid:
        return int(rng.choice(MID))
    return int(rng.choice([k for k in range(lo, 18)]))


KINDS = ['normal', 'ties', 'binary', 'constant', 'sorted', 'reversed', 'sortedties', 'outlier', 'onediff',
         'ints', 'perm', 'halves', 'negative', 'offset', 'tiny', 'huge', 'smooth', 'blocks', 'zeros']


def hinted(rng, shape):
    """Values around one of the hints."""
    c = float(rng.choice(HINTS))
    u = rng.random()
    if u < 0.25:
        return rng.normal(size=shape) * c
    if u < 0.5:
        return rng.choice([c, -c, c * (1 + 1e-9), c * (1 - 1e-9), 0.0, 2 * c], shape)
    if u < 0.75:
        return rng.choice([0.0, 1.0], shape) + rng.choice([0.0, 1.0, 0.5, -0.9], shape) * c
    return rng.normal(size=shape) * abs(c) ** rng.choice([0.25, 0.5, 2.0])


def vec(rng, n, kind=None):
    if kind is None and HINTS and rng.random() < 0.2:
        return hinted(rng, n)
    kind = kind or str(rng.choice(KINDS))
    if kind == 'normal':
        v = rng.normal(size=n)
    elif kind == 'ties':
        v = rng.integers(0, max(2, n // 2), n).astype(float)
    elif kind == 'binary':
        v = rng.integers(0, 2, n).astype(float)
    elif kind == 'constant':
        v = np.full(n, float(rng.choice([0.0, 1.0, 0.1, -2.7, 1 / 3])))
    elif kind == 'zeros':
        v = np.zeros(n)
    elif kind == 'sorted':
        v = np.sort(rng.normal(size=n))
    elif kind == 'reversed':
        v = np.sort(rng.normal(size=n))[::-1].copy()
    elif kind == 'sortedties':
        v = np.sort(rng.integers(0, max(2, n // 3), n)).astype(float)
    elif kind == 'outlier':
        v = rng.normal(size=n)
        v[rng.integers(n)] = 1e3
    elif kind == 'onediff':
        v = np.full(n, 1.0)
        v[rng.integers(n)] = 2.0
    elif kind == 'ints':
        v = rng.integers(-50, 50, n).astype(float)
    elif kind == 'perm':
        v = rng.permutation(n).astype(float)
    elif kind == 'halves':
        v = np.where(np.arange(n) < n // 2, 0.5, -1.25) + 0.0
    elif kind == 'negative':
        v = -np.abs(rng.normal(size=n)) - 1
    elif kind == 'offset':
        v = 1e4 + rng.normal(size=n)
    elif kind == 'tiny':
        v = rng.normal(size=n) * 1e-7
    elif kind == 'huge':
        v = rng.normal(size=n) * 1e7
    elif kind == 'smooth':
        v = np.sin(np.arange(n) / 3.0)
    elif kind == 'blocks':
        v = np.repeat(rng.normal(size=(n + 3) // 4), 4)[:n]
    else:
        raise ValueError(kind)
    return v


def pair(rng, n):
    u = rng.random()
    x = vec(rng, n)
    if u < 0.1:
        y = x.copy()
    elif u < 0.2:
        y = -2 * x + 1
    elif u < 0.3:
        y = x ** 2
    elif u < 0.4:
        y = x + 0.5 * rng.normal(size=n)
    else:
        y = vec(rng, n)
    return x, y


def mat(rng, n, p, kind=None):
    if kind is None and HINTS and rng.random() < 0.2:
        return hinted(rng, (n, p))
    kind = kind or str(rng.choice(['normal', 'ints', 'cols', 'dup', 'const', 'tiny', 'huge', 'lowrank']))
    if kind == 'normal':
        return rng.normal(size=(n, p))
    if kind == 'ints':
        return rng.integers(0, 4, (n, p)).astype(float)
    if kind == 'cols':
        return np.column_stack([vec(rng, n) for _ in range(p)])
    if kind == 'dup':
        m = rng.normal(size=(n, p))
        m[rng.integers(0, n, n // 2)] = m[0]
        return m
    if kind == 'const':
        return np.full((n, p), 0.1)
    if kind == 'tiny':
        return rng.normal(size=(n, p)) * 1e-6
    if kind == 'huge':
        return rng.normal(size=(n, p)) * 1e6
    return np.outer(rng.normal(size=n), rng.normal(size=p))


def sample(rng, n, p=None):
    """Vector, column or matrix sample."""
    if p is None:
        p = int(rng.choice([0, 1, 2, 3, 5], p=[.3, .2, .25, .15, .1]))
        if HINTS and rng.random() < 0.1:
            p = hint_size(rng, 0, 80) or p
    if p == 0:
        return vec(rng, n)
    if p == 1:
        return vec(rng, n)[:, None]
    return mat(rng, n, p)


def exponent(rng):
    if HINTS and rng.random() < 0.2:
        es = [e for v in HINTS for e in (v, v + 1e-3, v - 1e-3, 1 + v, 1 - v, 1 + v / 2, 1 - v / 2, 2 - v / 2) if 0 < e < 2]
        if es:
            return float(rng.choice(es))
    return float(rng.choice([1, 1, 1, 0.5, 1.5, 0.3, 1.9, 0.999999, 1.000001, 0.01, 1.99]))


def layout(rng, a):
    """The same values in another memory layout."""
    k = str(rng.choice(['C', 'C', 'strided', 'reversed', 'readonly', 'F']))
    if k == 'strided':
        big = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if k == 'reversed':
        return a[::-1].copy()[::-1]
    if k == 'F':
        return np.asfortranarray(a)
    if k == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def fractions(rng, n, den=None):
    den = den or int(rng.choice([1, 2, 3, 7, 10]))
    return np.array([Fraction(int(v), den) for v in rng.integers(-9, 10, n)], dtype=object)


def intvec(rng, n, dtype):
    info = np.iinfo(dtype)
    u = rng.random()
    if u < 0.3:
        return rng.choice(np.array([info.min, info.max, 0, 1], dtype=dtype), n)
    lim = min(info.max, 2 ** 50)
    lo = max(info.min, -lim)
    if u < 0.6:
        return rng.integers(lo, lim, n, dtype=np.int64).astype(dtype)
    return rng.integers(max(info.min, -20), 20, n).astype(dtype)
