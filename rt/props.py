"""Which runtime contract checks decide (or replay) which property.

Every generator is endless: first the corner cases, then seeded random ones.
"""
from __future__ import annotations

import itertools

import numpy as np

import gen as G


def _rot(rng, p):
    q, _ = np.linalg.qr(rng.normal(size=(p, p)))
    return q


def _dtype(rng, a):
    u = rng.random()
    if u < 0.06:
        return a.astype(np.float32)
    if u < 0.12 and np.all(a == np.round(a)) and np.max(np.abs(a), initial=0) < 100:
        return a.astype(str(rng.choice(['int8', 'int16', 'int32', 'int64'])))
    if u < 0.16:
        return a.astype(np.longdouble)
    return a


def _small_pairs(n):
    """All pairs of tie patterns over a small alphabet (exhaustive for tiny n)."""
    for a in itertools.product(range(2), repeat=n):
        for b in itertools.product(range(2), repeat=n):
            yield np.array(a, float), np.array(b, float)


def _corner_vectors(n):
    yield np.arange(n, dtype=float)
    yield np.arange(n, dtype=float)[::-1].copy()
    yield np.zeros(n)
    yield np.full(n, 0.1)
    yield (np.arange(n) % 2).astype(float)
    yield (np.arange(n) // 2).astype(float)
    v = np.zeros(n); v[0] = 1; yield v
    v = np.zeros(n); v[-1] = 1; yield v


def C01(rng):
    for n in (1, 2, 3, 4, 5, 8):
        for x in _corner_vectors(n):
            yield 'dcov', dict(x=x, y=np.sin(np.arange(n) * 1.7), exponent=1.0, root=True)
            yield 'dcov', dict(x=x[:, None], y=np.cos(np.arange(n) ** 2.0)[:, None], exponent=0.5, method='naive', root=True)
    while True:
        n = G.size(rng, 1)
        x, y = _dtype(rng, G.layout(rng, G.sample(rng, n))), _dtype(rng, G.layout(rng, G.sample(rng, n)))
        if rng.random() < .1:
            y = x.copy()
        m = str(rng.choice(['auto', 'naive', 'enum:AUTO', 'enum:NAIVE']))
        yield 'dcov', dict(x=x, y=y, exponent=G.exponent(rng), method=m, root=True)
        if rng.random() < .3:
            v, w = G.pair(rng, n)
            yield 'layout_equal', dict(v=v, w=w, exponent=G.exponent(rng), method=m)


def C02(rng):
    for n in (4, 5, 6, 7, 8, 9):
        for x in _corner_vectors(n):
            for m in ('auto', 'naive', 'avl', 'mergesort'):
                yield 'dcov', dict(x=x, y=np.sin(np.arange(n) * 1.7), exponent=1, method=m, unbiased=True)
    while True:
        n = G.size(rng, 4)
        e = G.exponent(rng)
        if rng.random() < .3:
            x, y = G.pair(rng, n)
            yield 'dcov', dict(x=x, y=y, method=str(rng.choice(['avl', 'mergesort'])), unbiased=True,
                               compile_mode=str(rng.choice(['AUTO', 'NO_COMPILE', 'COMPILE_CPU'])))
            yield 'layout_equal', dict(v=x, w=y, exponent=e, unbiased=True)
        else:
            x, y = _dtype(rng, G.layout(rng, G.sample(rng, n))), _dtype(rng, G.layout(rng, G.sample(rng, n)))
            m = str(rng.choice(['auto', 'naive', 'enum:AUTO', 'enum:NAIVE']))
            yield 'dcov', dict(x=x, y=y, exponent=e, method=m, unbiased=True)


def _fast(rng, method, lo):
    cms = ['AUTO', 'NO_COMPILE', 'COMPILE_CPU']
    for i, (x, y) in enumerate(_small_pairs(4)):
        if i % 2 == 0 or lo < 4:
            yield 'stats', dict(x=x, y=y, method=method, compile_mode=cms[i % 3])
    for n in range(lo, 18):
        for x in _corner_vectors(n):
            for y in (np.arange(n, dtype=float), np.sin(np.arange(n) * 2.3), (np.arange(n) % 3).astype(float)):
                yield 'stats', dict(x=x, y=y, method=method, compile_mode=cms[n % 3], unbiased=bool(n % 2 and n > 3))
    for n in (31, 32, 33, 64, 65, 127, 128, 129, 200, 257):
        for cm in cms:
            x, y = G.pair(rng, n)
            yield 'dcov', dict(x=x, y=y, method=method, compile_mode=cm)
            yield 'stats', dict(x=rng.permutation(n).astype(float), y=rng.permutation(n).astype(float), method=method, compile_mode=cm)
    for n in (1500, 4097, 33000, 70000):
        yield 'big_dcov', dict(n=n, seed=int(rng.integers(1000)), method=method, compile_mode='COMPILE_CPU', unbiased=n % 2 == 1, levels=int(rng.integers(2, 7)))
    for n in [int(v) + 1 for v in G.HINTS if 300 < v < 80000][:3]:
        yield 'big_dcov', dict(n=n, seed=int(rng.integers(1000)), method=method, compile_mode='COMPILE_CPU', levels=5)
    for n in (300, 33000):
        yield 'big_dcov', dict(n=n, seed=int(rng.integers(1000)), method=method, compile_mode='NO_COMPILE', levels=5)
    while True:
        n = G.size(rng, lo)
        x, y = G.pair(rng, n)
        cm = str(rng.choice(cms))
        m = str(rng.choice([method, 'enum:' + method.upper()]))
        unb = bool(rng.random() < .5) and n > 3
        if cm == 'COMPILE_CPU':
            x, y = G.layout(rng, x), G.layout(rng, y)
        elif method == 'avl' or rng.random() < .7:
            x, y = G.layout(rng, x), G.layout(rng, y)
        if rng.random() < .2:
            x = x[:, None]
        yield 'dcov', dict(x=x, y=y, method=m, compile_mode=cm, unbiased=unb)
        yield 'stats', dict(x=x, y=y, method=m, compile_mode=cm, unbiased=unb)


def C03(rng):
    return _fast(rng, 'avl', 4)


def C04(rng):
    return _fast(rng, 'mergesort', 2)


def C05(rng):
    fs = ['distance_covariance_sqr', 'u_distance_covariance_sqr', 'distance_covariance', 'distance_stats_sqr', 'distance_correlation_sqr',
          'u_distance_correlation_sqr', 'distance_correlation', 'distance_stats', 'u_distance_stats_sqr']
    x, y = np.sin(np.arange(6) * 1.3), np.cos(np.arange(6) * 2.1)
    for f in fs:
        for m in ('avl', 'mergesort', 'enum:AVL', 'enum:MERGESORT'):
            for e in (0.5, 1.5, 2.0, 1.0000001, 0.9999999):
                yield 'refuses', dict(x=x, y=y, exponent=e, method=m, func=f)
            for X, Y in ((np.column_stack([x, y]), y), (x, np.column_stack([x, y])), (np.column_stack([x, y]), np.column_stack([y, x])),
                         (np.stack([x, y]), np.stack([x, y]))):
                yield 'refuses', dict(x=X, y=Y, method=m, func=f)
        for m in ('auto', 'naive', 'avl', 'mergesort'):
            for cm in ('AUTO', 'NO_COMPILE'):
                for X, Y in ((x, y[:5]), (x[:5], y), (x, y[:4]), (x, np.concatenate([y, y])), (x[:, None], y[:5, None]), (x[:2], y[:3]), (x[:3], y[:2])):
                    yield 'refuses', dict(x=X, y=Y, method=m, func=f, compile_mode=cm)
                if m in ('auto', 'naive'):
                    yield 'refuses', dict(x=x, y=y[:5], method=m, func=f, exponent=0.5)
                    yield 'refuses', dict(x=np.column_stack([x, y]), y=np.column_stack([x, y])[:5], method=m, func=f)
        for m in ('avl', 'mergesort', 'naive'):
            yield 'refuses', dict(x=x, y=y, method=m, func=f, compile_mode='COMPILE_PARALLEL')
        yield 'refuses', dict(x=x, y=y, method='auto', func=f, compile_mode='COMPILE_PARALLEL')
        yield 'refuses', dict(x=x, y=y, method='naive', func=f, compile_mode='COMPILE_CPU')
        yield 'refuses', dict(x=x, y=y, method='auto', exponent=0.5, func=f, compile_mode='COMPILE_CPU')
        yield 'refuses', dict(x=np.column_stack([x, y]), y=y, method='auto', func=f, compile_mode='COMPILE_CPU')
        for nm in ('nonsense', '', 'avl2', 'fast'):
            yield 'bad_name', dict(x=x, y=y, method=nm, func=f)
        for nm in ('auto', 'naive', 'avl', 'mergesort', 'AUTO', 'Naive', 'AVL', 'MergeSort'):
            for e in (1, 0.5):
                yield 'name_equiv', dict(x=x, y=y, name=nm, exponent=e, func=f)
    shapes = [0, 1, 2, 3]
    for n in (1, 2, 3, 4, 5, 6):
        for px in shapes:
            for py in shapes:
                for e in (1, 1.0, 0.5, 1.5, 0.999999):
                    yield 'dcov', dict(x=G.sample(rng, n, px), y=G.sample(rng, n, py), exponent=e, method='auto', unbiased=n > 3 and (px + py) % 2 == 0)
    while True:
        n = G.size(rng, 1)
        x, y = G.sample(rng, n), G.sample(rng, n)
        e = float(rng.choice([1, 1, 0.5, 1.5, 0.999999, 1.000001, 0.99, 1.01]))
        m = str(rng.choice(['auto', 'enum:AUTO', 'AUTO', 'Auto']))
        u = rng.random()
        if u < .4:
            cm = 'AUTO'
            if x.ndim == 1 and y.ndim == 1 and e == 1 and n > 3:
                cm = str(rng.choice(['AUTO', 'NO_COMPILE', 'COMPILE_CPU']))
            yield 'dcov', dict(x=x, y=y, exponent=e, method=m, compile_mode=cm, unbiased=bool(rng.random() < .5 and n > 3))
        elif u < .6:
            yield 'stats', dict(x=x, y=y, exponent=e, method=m, unbiased=bool(rng.random() < .5 and n > 3))
        elif u < .8:
            yield 'name_equiv', dict(x=x, y=y, name=str(rng.choice(['auto', 'naive', 'avl', 'mergesort', 'AVL'])), exponent=e, func=str(rng.choice(fs)))
        else:
            k = int(rng.integers(1, 20))
            if k != n:
                # a one-observation sample may broadcast nowhere either
                yield 'refuses', dict(x=x, y=G.sample(rng, k, 0 if y.ndim == 1 else y.shape[1]), exponent=e,
                                      method=str(rng.choice(['auto', 'naive', 'avl', 'mergesort'])), func=str(rng.choice(fs)))


def C06(rng):
    for n in (2, 3, 4, 5, 7, 8):
        for x in _corner_vectors(n):
            for y in list(_corner_vectors(n))[:5] + [np.sin(np.arange(n) * 1.1)]:
                yield 'stats', dict(x=x, y=y, method='auto' if n % 2 else 'naive', unbiased=n > 3 and bool(n % 2))
    for s in (1e-3, 1e-5, 1e-8, 1e-20, 1e-40, 1e-60, 1e8, 1e40):
        for n in (4, 6, 11):
            for meth in ('auto', 'naive', 'avl', 'mergesort'):
                x, y = rng.normal(size=n) * s, rng.normal(size=n)
                yield 'stats', dict(x=x, y=y, method=meth, unbiased=bool(n == 6))
                yield 'stats', dict(x=x, y=y * s, method=meth)
    while True:
        n = G.size(rng, 2, .1, .01)
        m = str(rng.choice(['auto', 'naive', 'avl', 'mergesort', 'enum:AUTO']))
        if 'avl' in m:
            n = max(n, 4)
        if m in ('auto', 'naive', 'enum:AUTO'):
            x, y, e = G.sample(rng, n), G.sample(rng, n), G.exponent(rng)
        else:
            (x, y), e = G.pair(rng, n), 1
        s = float(rng.choice([1, 1, 1, 1e-4, 1e-9, 1e-25, 1e6]))
        if e != 1 and e < 0.1:
            s = 1
        yield 'stats', dict(x=x * s, y=y, exponent=e, method=m, unbiased=bool(rng.random() < .5 and n > 3))


def C07(rng):
    while True:
        n = G.size(rng, 4, .1, .01)
        m = str(rng.choice(['auto', 'naive', 'avl', 'mergesort']))
        if m in ('auto', 'naive'):
            x, y, e = G.sample(rng, n), G.sample(rng, n), float(rng.choice([1, 1, 0.5, 1.5, 1.9]))
        else:
            (x, y), e = G.pair(rng, n), 1
        p = 1 if x.ndim == 1 else x.shape[1]
        yield 'invariance', dict(x=x, y=y, perm=rng.permutation(n), shift=float(rng.choice([3.25, -7.5, 0.1, 100.0])) * (1 + float(np.max(np.abs(x)))),
                                 scale=float(rng.choice([2.0, -3.0, 0.001, 1000.0, -0.25])), rot=_rot(rng, p), exponent=e, method=m, unbiased=bool(rng.random() < .5))


def C08(rng):
    for n in (2, 3, 5, 9):
        for p in (1, 2, 3):
            base = rng.normal(size=(n, p))
            for x in (np.zeros((n, p)), np.full((n, p), 0.1), np.repeat(base[:, :1], p, axis=1), base, np.column_stack([base[:, 0]] + [np.zeros(n)] * (p - 1))):
                yield 'af_inv_finite', dict(x=x, y=base)
                yield 'af_inv_finite', dict(x=base, y=x)
                yield 'af_inv_finite', dict(x=x, y=x)
    yield 'af_inv_finite', dict(x=np.full(6, 0.3), y=np.arange(6.))
    while True:
        p, q = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        n = G.some(rng, max(p, q) + 3, 26)
        x = rng.normal(size=(n, p)) @ (np.eye(p) + 0.4 * rng.normal(size=(p, p)))
        y = rng.normal(size=(n, q))
        if rng.random() < .5:
            y[:, 0] += x[:, 0] ** 2
        x = x * float(rng.choice([1, 1e-3, 1e4, 1e-7, 1e-5, 1e6])) + float(rng.choice([0, 5.]))
        if np.linalg.cond(np.cov(x.T)) > 1e4 if p > 1 else np.var(x) == 0:
            continue
        if q > 1 and np.linalg.cond(np.cov(y.T)) > 1e4:
            continue
        def inv(k):
            return _rot(rng, k) @ np.diag(rng.choice([0.5, 2., -3., 1.5], k)) @ _rot(rng, k)
        m = 'auto'
        if p == 1 and q == 1 and rng.random() < .6:
            m = str(rng.choice(['avl', 'mergesort', 'naive']))
            x, y = x[:, 0], y[:, 0]
        yield 'af_inv', dict(x=x, y=y, mx=inv(p), my=inv(q), sx=rng.normal(size=p), sy=rng.normal(size=q), method=m)


def C09(rng):
    for n, p in ((8, 0), (9, 1), (7, 2)):
        z = rng.normal(size=(n, p) if p else n)
        for sx, sy in (((0, n, 2), (1, n, 2)), ((0, 4, 1), (2, n, 1)), ((0, n, 1), (n - 1, None, -1)), ((0, n, 1), (0, 3, 1)), ((2, 5, 1), (0, n, 1)), ((0, n, 1), (0, n, 1))):
            yield 'overlapping', dict(z=z, sx=list(sx), sy=list(sy), exponent=float(rng.choice([1, 0.5])))
    one = np.array([[200], [0], [255]], dtype=np.uint8)
    yield 'distances', dict(x=one, y=np.array([[0], [250]], dtype=np.uint8))
    yield 'distances', dict(x=np.array([-128, 127], dtype=np.int8))
    for e in (1, 2, 0.5, 1.5, 0.999999):
        for n, l, p in ((1, 1, 1), (2, 3, 1), (3, 2, 2), (4, 4, 3), (1, 5, 2), (5, 1, 4)):
            x, y = rng.normal(size=(n, p)), rng.normal(size=(l, p))
            yield 'distances', dict(x=x, y=y, exponent=e)
            yield 'distances', dict(x=x, exponent=e)
            yield 'distances', dict(x=x, exponent=e, same=True)
            yield 'distances', dict(x=x, y=x.copy(), exponent=e)
            yield 'distances', dict(x=x.astype(np.longdouble), y=y.astype(np.longdouble), exponent=e)
            yield 'distances', dict(x=np.round(x * 40).astype(np.int16), y=y.astype(np.longdouble), exponent=e)
    while True:
        n, l = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        p = int(rng.choice([0, 1, 2, 3, 6]))
        e = float(rng.choice([1, 1, 0.5, 1.5, 2, 0.25]))
        u = rng.random()
        if u < .35:
            dt, dt2 = (str(rng.choice(G.NPINTS)) for _ in range(2))
            def mk(k, d):
                v = G.intvec(rng, k * max(p, 1), d)
                return v if p == 0 else v.reshape(k, p)
            x, y = mk(n, dt), mk(l, dt2)
        elif u < .45:
            x, y = G.fractions(rng, n * max(p, 1)), G.fractions(rng, l * max(p, 1))
            if p:
                x, y = x.reshape(n, p), y.reshape(l, p)
        elif u < .6:
            dt = str(rng.choice(['float32', 'float16', 'longdouble']))
            x, y = rng.normal(size=(n, p) if p else n).astype(dt), rng.normal(size=(l, p) if p else l).astype(dt)
            if rng.random() < .3:
                y = y.astype(float)
        else:
            x, y = G.layout(rng, G.sample(rng, n, p)), G.layout(rng, G.sample(rng, l, p))
        k = rng.random()
        if k < .5:
            yield 'distances', dict(x=x, y=y, exponent=e)
        elif k < .75:
            yield 'distances', dict(x=x, exponent=e)
        elif k < .9:
            yield 'distances', dict(x=x, exponent=e, same=True)
        else:
            yield 'distances', dict(x=x, y=x.copy(), exponent=e)


def _sym(rng, n):
    u = rng.random()
    a = rng.normal(size=(n, n)) if u < .5 else rng.integers(-9, 9, (n, n)).astype(float)
    a = a + a.T
    if u < .25:
        x = rng.normal(size=(n, 2))
        a = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    if u > .8:
        a = a.astype(str(rng.choice(['int8', 'int16', 'int64', 'float32'])))
    return a


def C10(rng):
    while True:
        n = G.some(rng, 1, 14, .1)
        a = _sym(rng, n)
        w = str(rng.choice(['double_centered', 'u_centered']))
        if w == 'u_centered' and n < 3:
            continue
        outs = ['none', 'other', 'otherF'] + (['self'] if a.dtype.kind == 'f' else [])
        if a.dtype == np.int8:
            a = np.clip(a, -8, 8)
            a = np.minimum(a, a.T)
        yield 'centering', dict(a=a, which=w, out=str(rng.choice(outs)))


def C11(rng):
    import oracle as O
    for n in (4, 5, 7):
        yield 'products', dict(a=np.zeros((n, n)), b=rng.normal(size=(n, n)))
    while True:
        n = G.some(rng, 4, 14)
        a, b = (np.array(_sym(rng, n), dtype=float) for _ in range(2))
        if rng.random() < .7:
            a, b = (np.array(O.u_center(t.astype(np.longdouble)), dtype=float) for t in (a, b))
        u = rng.random()
        if u < .1:
            b = a * 3
        elif u < .15:
            a = np.zeros((n, n))
        elif u < .3:
            a = a * float(rng.choice([1e-6, 1e-12, 1e-30, 1e5]))
        elif u < .4:
            a, b = rng.normal(size=(n, n)), rng.normal(size=(n, n))
        yield 'products', dict(a=a, b=b)


def C12(rng):
    for n in (4, 5, 6, 9):
        for z in (np.zeros(n), np.full(n, 0.3)):
            yield 'partial', dict(x=rng.normal(size=n), y=rng.normal(size=n), z=z)
            yield 'partial', dict(x=z, y=rng.normal(size=n), z=rng.normal(size=n))
            yield 'partial', dict(x=rng.normal(size=n), y=z, z=rng.normal(size=n))
    while True:
        n = G.some(rng, 4, 20)
        x, y, z = (G.sample(rng, n) for _ in range(3))
        u = rng.random()
        if u < .1:
            z = x.copy()
        elif u < .2:
            y = x.copy()
        elif u < .3 and x.ndim == z.ndim == 1:
            y = x + z
        elif u < .4 and z.ndim == x.ndim == 1:
            x = z + 0.1 * rng.normal(size=n)
        s = float(rng.choice([1, 1, 1e-4, 1e-9, 1e5]))
        yield 'partial', dict(x=x * s, y=y, z=z * s if rng.random() < .5 else z)


_STATS = ['V', 'U', 'v', 'u', 'v_statistic', 'U_STATISTIC', 'enum:V_STATISTIC', 'enum:U_STATISTIC']
_AVGS = [None, None, None, 'median', 'max', 'trimmed', 'sumsq', 'size', 'mean']


def C13(rng):
    for n, m in ((2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (6, 9)):
        for s in _STATS + [None]:
            for av in (None, 'median', 'size'):
                if s and s.upper().startswith(('U', 'ENUM:U')) and min(n, m) < 2:
                    continue
                yield 'energy', dict(x=rng.normal(size=(n, 2)), y=rng.normal(size=(m, 2)), stat=s, average=av)
        yield 'energy_names', dict(x=rng.normal(size=max(n, 2)), y=rng.normal(size=max(m, 2)))
    while True:
        n, m = G.some(rng, 2, 14), G.some(rng, 2, 14)
        p = int(rng.choice([0, 1, 2, 3]))
        x, y = G.sample(rng, n, p), G.sample(rng, m, p)
        if rng.random() < .1:
            x, y = _dtype(rng, x), _dtype(rng, y)
        if rng.random() < .1:
            y = x.copy()
        yield 'energy', dict(x=x, y=y, exponent=G.exponent(rng), stat=str(rng.choice(_STATS)), average=_AVGS[rng.integers(len(_AVGS))])
        if rng.random() < .05:
            yield 'energy_names', dict(x=x, y=y)


def C14(rng):
    for k in (2, 3, 4, 5):
        for s in ('V', 'U'):
            sizes = list(range(2, 2 + k))
            yield 'energy_test', dict(samples=[rng.normal(size=(n, 2)) for n in sizes], stat=s)
            yield 'energy_test', dict(samples=[rng.normal(size=n) for n in sizes[::-1]], stat=s, exponent=0.5, average='median')
    yield 'energy_test', dict(samples=[rng.normal(size=1), rng.normal(size=4), rng.normal(size=2)])
    while True:
        k = int(rng.choice([2, 2, 3, 3, 4, 5, 6]))
        p = int(rng.choice([0, 1, 2, 3]))
        sizes = [G.some(rng, 2, 9, .02) for _ in range(k)]
        samples = [G.sample(rng, int(n), p) for n in sizes]
        if rng.random() < .1:
            samples[1] = samples[0].copy()
        yield 'energy_test', dict(samples=samples, exponent=G.exponent(rng), stat=str(rng.choice(_STATS)), average=_AVGS[rng.integers(len(_AVGS))],
                                  resamples=int(rng.choice([0, 0, 3])))


_RS = ['int', 'RandomState', 'Generator', 'used']


def _perm_case(rng, which=None, jobs=None, R=None):
    w = which or str(rng.choice(['d', 'p', 'e']))
    if R is None:
        R = int(rng.choice([0, 1, 2, 5, 9, 20, 40]))
        if rng.random() < .2:
            R = G.hint_size(rng, 0, 400) or R
    kw = dict(R=R, seed=int(rng.integers(0, 2 ** 31)), rs=str(rng.choice(_RS)))
    if jobs:
        kw.update(jobs=jobs, backend='threading')
    if w == 'e':
        k = int(rng.choice([2, 3, 4]))
        return 'perm_energy', dict(samples=[rng.normal(size=(int(rng.integers(2, 8)), 2)) + rng.normal() * .5 for _ in range(k)],
                                   exponent=G.exponent(rng), stat=str(rng.choice(['U', 'V'])), **kw)
    n = G.some(rng, 5, 14, .03)
    p = int(rng.choice([0, 1, 2]))
    x, y, z = (rng.normal(size=(n, p) if p else n) for _ in range(3))
    if rng.random() < .5:
        y = y + x
    if w == 'd':
        return 'perm_dcov', dict(x=x, y=y, exponent=G.exponent(rng), **kw)
    return 'perm_partial', dict(x=x, y=y, z=z, exponent=G.exponent(rng), **kw)


def C15(rng):
    for w in 'dpe':
        for R in (0, 1, 2, 19, 99, 150):
            yield _perm_case(rng, w, R=R)
        yield _perm_case(rng, w, jobs=2)
        yield _perm_case(rng, w, jobs=3, R=25)
    k, c = _perm_case(rng, 'd', R=12)
    c.update(jobs=2, backend='loky')
    yield k, c
    k, c = _perm_case(rng, 'e', R=7)
    c.update(jobs=2, backend='loky')
    yield k, c
    # dependent samples: small p-values
    for n in (8, 12):
        x = np.arange(n) + 0.01 * rng.normal(size=n)
        yield 'perm_dcov', dict(x=x, y=x ** 2, R=50, seed=3)
        yield 'perm_energy', dict(samples=[x, x + 20], R=50, seed=4)
        yield 'perm_partial', dict(x=x, y=x ** 2, z=rng.normal(size=n), R=50, seed=5)
    while True:
        yield _perm_case(rng, jobs=2 if rng.random() < .15 else None)


def C16(rng):
    for a, b in ((5, 4), (4, 5), (5, 1), (1, 5), (2, 3), (6, 12)):
        for p in (0, 2):
            yield 'test_sizes', dict(x=G.sample(rng, a, p), y=G.sample(rng, b, p))
    while True:
        n = G.some(rng, 4, 16, .03)
        x, y, z = (G.sample(rng, n) for _ in range(3))
        e = G.exponent(rng)
        if rng.random() < .5:
            yield 'perm_dcov', dict(x=x, y=y, exponent=e, R=0)
        else:
            yield 'perm_partial', dict(x=x, y=y, z=z, exponent=e, R=0)
        if rng.random() < .1:
            k = int(rng.integers(1, 20))
            if k != n:
                yield 'test_sizes', dict(x=x, y=G.sample(rng, k))


def C17(rng):
    for n in (4, 5, 6, 7, 10, 20):
        yield 't_test', dict(x=rng.normal(size=n), y=rng.normal(size=n))
        yield 't_test', dict(x=np.arange(n, dtype=float), y=np.arange(n, dtype=float))
        yield 't_test', dict(x=np.arange(n, dtype=float), y=-2. * np.arange(n))
        yield 't_test', dict(x=np.arange(n, dtype=float), y=np.full(n, 0.1))
        yield 't_test', dict(x=rng.normal(size=(n, 2)), y=rng.normal(size=(n, 3)))
    while True:
        n = G.size(rng, 4, .1, .01)
        x, y = G.sample(rng, n), G.sample(rng, n)
        u = rng.random()
        if u < .15:
            y = x.copy()
        elif u < .5 and x.ndim == y.ndim == 1:
            y = x + float(rng.choice([0.01, 0.3, 1])) * rng.normal(size=n)
        yield 't_test', dict(x=x, y=y)


def C18(rng):
    from checks import ROWF
    import numpy as np
    for f in ROWF[:8] + ['callable', 'distance_correlation_t_statistic']:
        for m in ('AUTO', 'NAIVE', 'OPTIMIZED'):
            yield 'rowwise', dict(x=rng.normal(size=(3, 6)), y=rng.normal(size=(3, 6)), func=f, mode=m)
    for f in ROWF[:6]:
        for cm in ('AUTO', 'COMPILE_CPU', 'COMPILE_PARALLEL', 'NO_COMPILE'):
            x, y = rng.normal(size=(4, 7)), rng.normal(size=(4, 7))
            x[1] = 0.1
            y[2] = 0.3
            yield 'rowwise', dict(x=x, y=y, func=f, compile_mode=cm)
            yield 'rowwise', dict(x=rng.integers(0, 9, (2, 5)), y=rng.integers(0, 9, (2, 5)), func=f, compile_mode=cm)
        for px, py in ((0, 1), (1, 0), (1, 1), (2, 2), (2, 3), (0, 2), (3, 1)):
            sh = lambda p: (3, 6) if p == 0 else (3, 6, p)
            yield 'rowwise', dict(x=rng.normal(size=sh(px)), y=rng.normal(size=sh(py)), func=f)
        for n in (2, 3, 4, 5):
            if n > 3 or not f.startswith('u_'):
                yield 'rowwise', dict(x=rng.normal(size=(2, n)), y=rng.normal(size=(2, n)), func=f)
        for meth in ('avl', 'mergesort', 'naive', 'enum:AVL', 'enum:NAIVE', 'enum:MERGESORT', 'enum:AUTO'):
            yield 'rowwise', dict(x=rng.normal(size=(2, 6)), y=rng.normal(size=(2, 6)), func=f, method=meth)
        for e in (0.5, 1.5, 1):
            yield 'rowwise', dict(x=rng.normal(size=(2, 6)), y=rng.normal(size=(2, 6)), func=f, exponent=e)
        yield 'rowwise', dict(x=G.fractions(rng, 12).reshape(2, 6), y=G.fractions(rng, 12).reshape(2, 6), func=f)
        yield 'rowwise', dict(x=rng.normal(size=(2, 6)).astype(np.longdouble), y=rng.normal(size=(2, 6)).astype(np.longdouble), func=f)
    for f in ('energy_distance', 'callable', 'distance_correlation_af_inv'):
        yield 'rowwise_refuses', dict(x=rng.normal(size=(3, 6)), y=rng.normal(size=(3, 6)), func=f)
    yield 'rowwise_refuses', dict(x=rng.normal(size=(3, 6, 2)), y=rng.normal(size=(3, 6, 2)), func='distance_covariance_sqr')
    yield 'rowwise_refuses', dict(x=rng.normal(size=(3, 6, 2)), y=rng.normal(size=(3, 6, 2)), func='distance_correlation')
    while True:
        r = int(rng.integers(1, 6))
        f = str(rng.choice(ROWF[:-1]))
        n = G.size(rng, 4, .15, .02)
        x, y = (np.stack([G.vec(rng, n) for _ in range(r)]) for _ in range(2))
        kw = dict(func=f, mode=str(rng.choice(['AUTO', 'AUTO', 'NAIVE', 'OPTIMIZED'])))
        if f in ROWF[:6]:
            if rng.random() < .5:
                kw['compile_mode'] = str(rng.choice(['AUTO', 'COMPILE_CPU', 'COMPILE_PARALLEL', 'NO_COMPILE']))
                if kw['mode'] == 'NAIVE' and kw['compile_mode'] == 'COMPILE_PARALLEL':
                    continue
        u = rng.random()
        if u < .15:
            x = x[..., None]
        elif u < .25 and f in ROWF[:6] and 'compile_mode' not in kw:
            x, y = rng.normal(size=(r, n, 2)), rng.normal(size=(r, n, 3))
        elif u < .35:
            x = np.asfortranarray(x)
        elif u < .45:
            x, y = np.round(np.clip(x, -100, 100)).astype(str(rng.choice(['int16', 'int64', 'int32']))), np.round(np.clip(y, -100, 100)).astype('int64')
        elif u < .5 and 'compile_mode' not in kw:
            x = x.astype(np.float32)
        yield 'rowwise', dict(x=x, y=y, **kw)


def C19(rng):
    while True:
        n = G.some(rng, 4, 10, .03)
        u = rng.random()
        def s(k, p):
            a = rng.normal(size=(k, p) if p else k)
            a[0] = a[-1]
            if u < .2:
                a = np.round(a * 10).astype(str(rng.choice(['int32', 'int64'])))
            elif u < .3:
                a = a.astype(np.float32)
            elif u < .4:
                a = np.asfortranarray(a)
            elif u < .5:
                a.flags.writeable = False
            return a
        p = int(rng.choice([0, 0, 1, 2]))
        D = np.abs(rng.normal(size=(n, n)))
        D = D + D.T
        if u < .2:
            D = np.round(D * 10).astype('int64')
        elif .4 <= u < .5:
            D.flags.writeable = False
        yield 'no_mutation', dict(x=s(n, p), y=s(n, p), z=s(n, p), samples=[s(int(rng.integers(2, 6)), p) for _ in range(3)], D=D)


def C20(rng):
    import numpy as np
    fl = ['distance_covariance_sqr', 'u_distance_covariance_sqr', 'distance_covariance', 'distance_correlation_sqr', 'distance_correlation',
          'u_distance_correlation_sqr', 'distance_stats_sqr', 'distance_stats', 'u_distance_stats_sqr', 'energy_distance', 'energy_test_statistic']
    fi = ['distance_covariance_sqr', 'u_distance_covariance_sqr', 'distance_covariance', 'distance_correlation_sqr', 'energy_distance',
          'energy_test_statistic', 'energy_test', 'distance_covariance_test', 'partial_distance_covariance']
    for dt in G.NPINTS:
        for f in fi:
            yield 'ints', dict(x=G.intvec(rng, 6, dt), y=G.intvec(rng, 6, dt), func=f)
        for m in ('avl', 'mergesort', 'naive'):
            for cm in ('AUTO', 'NO_COMPILE'):
                yield 'ints', dict(x=G.intvec(rng, 7, dt), y=G.intvec(rng, 7, dt), func='distance_covariance_sqr', method=m, compile_mode=cm)
        yield 'ints', dict(x=G.intvec(rng, 8, dt).reshape(4, 2), y=G.intvec(rng, 8, dt).reshape(4, 2), func='distance_covariance_sqr')
    for n in (4, 5, 8):
        for m in ('auto', 'avl', 'enum:AUTO'):
            for cm in ('AUTO', 'NO_COMPILE'):
                yield 'exact', dict(x=G.fractions(rng, n), y=G.fractions(rng, n), method=m, compile_mode=cm)
                yield 'exact', dict(x=G.fractions(rng, n), y=G.fractions(rng, n), method=m, compile_mode=cm, column=1 + n % 3)
    for f in fl:
        for p in (0, 1, 2):
            for e in (1, 0.5):
                for dt in ('float64', 'float32'):
                    yield 'other_library', dict(x=G.sample(rng, 6, p) if p < 2 else rng.normal(size=(6, 2)), y=rng.normal(size=6) if p == 0 else rng.normal(size=(6, p)), func=f, exponent=e, dtype=dt)
                    if f.startswith('energy'):
                        yield 'other_library', dict(x=rng.normal(size=(6, 2)), y=rng.normal(size=(5, 2)), func=f, exponent=e, dtype=dt, estimation_stat='u')
        for dt in ('float64', 'float32'):
            yield 'other_library', dict(x=np.full((5, 2), 3.0), y=rng.normal(size=(5, 1 + ('energy' in f))), func=f, dtype=dt)
    while True:
        u = rng.random()
        n = G.some(rng, 4, 12, .03)
        if u < .3:
            yield 'exact', dict(x=G.fractions(rng, n), y=G.fractions(rng, n), method=str(rng.choice(['auto', 'avl'])), compile_mode=str(rng.choice(['AUTO', 'NO_COMPILE'])),
                                column=int(rng.integers(4)))
        elif u < .65:
            d1, d2 = (str(rng.choice(G.NPINTS)) for _ in range(2))
            f = str(rng.choice(fi))
            m = str(rng.choice(['auto', 'naive', 'avl', 'mergesort'])) if 'distance_co' in f and not f.endswith('test') and not f.startswith('partial') else 'auto'
            yield 'ints', dict(x=G.intvec(rng, n, d1), y=G.intvec(rng, n, d2), func=f, method=m, compile_mode=str(rng.choice(['AUTO', 'NO_COMPILE'])))
        else:
            p = int(rng.choice([0, 1, 2, 3]))
            yield 'other_library', dict(x=rng.normal(size=(n, p) if p else n), y=rng.normal(size=(n, p) if p else n), func=str(rng.choice(fl)),
                                        exponent=float(rng.choice([1, 0.5, 1.5])), dtype=str(rng.choice(['float64', 'float32'])))


GENERATORS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}
