"""Contracts: for each property, the cases whose obligations imply it."""
from __future__ import annotations

from fractions import Fraction

import os

import numpy as np

import npmodel
import vals
from nf import nf, to_term
from vals import machine, new
from cases import Fun2, Apply, Same, Arr, Case, Check, Cond, Fun, Lists, Ref, Scal, Value
from fold import Def
from spec import *  # noqa: F403
from spec import n, p_, q_, l_, e_
from terms import *  # noqa: F403
from vals import NP, XP

E = Scal(e_, 'float')
EXP = [lt(ZERO, e_), lt(e_, TWO)]
EVALS = {e_: [Fraction(1, 2), Fraction(1), Fraction(3, 2)]}
NS = {n: [1, 2, 3, 4, 5, 6]}
N4 = {n: [4, 5, 6, 7]}
PQ = {p_: [2, 3], q_: [2, 3]}
WIDE = [le(TWO, p_), le(TWO, q_)]


def whole(r):
    return r


def at_least(k):
    return [le(num(k), n)]


def xy(lx='vec', ly='vec', **kw):
    return sample('x', lx, width=p_, **kw), sample('y', ly, width=q_, **kw)


def c01():
    for lx, ly in (('vec', 'vec'), ('mat', 'mat'), ('col', 'vec'), ('vec', 'mat'), ('mat', 'col'), ('col', 'col')):
        x, y = xy(lx, ly)
        yield Case(f'dcov_sqr[naive,{lx},{ly},e]', 'dcor:distance_covariance_sqr', (x, y), dict(exponent=E, method='naive'),
                   at_least(1) + EXP + WIDE, [Value('result = definition', whole, (), lambda: dcov_sqr(x, y, e_))],
                   ints={**NS, **PQ}, reals=EVALS)
    x, y = xy('mat', 'mat')
    yield Case('dcov_sqr[auto,mat,mat,e]', 'dcor:distance_covariance_sqr', (x, y), dict(exponent=E),
               at_least(1) + EXP + WIDE, [Value('result = definition', whole, (), lambda: dcov_sqr(x, y, e_))], ints={**NS, **PQ}, reals=EVALS)
    yield Case('dcov_sqr[auto,mat,mat]', 'dcor:distance_covariance_sqr', (x, y), {},
               at_least(1) + WIDE, [Value('result = definition', whole, (), lambda: dcov_sqr(x, y))], ints={**NS, **PQ})
    for lx, ly in (('vec', 'vec'), ('mat', 'mat')):
        x, y = xy(lx, ly)
        yield Case(f'dcov[naive,{lx},{ly},e]', 'dcor:distance_covariance', (x, y), dict(exponent=E, method='naive'),
                   at_least(1) + EXP + WIDE, [Value('result = root of the definition', whole, (), lambda: clipped_root(dcov_sqr(x, y, e_)))],
                   ints={**NS, **PQ}, reals=EVALS)


def c02():
    for lx, ly in (('vec', 'vec'), ('mat', 'mat'), ('col', 'vec'), ('vec', 'mat')):
        x, y = xy(lx, ly)
        yield Case(f'u_dcov_sqr[naive,{lx},{ly},e]', 'dcor:u_distance_covariance_sqr', (x, y), dict(exponent=E, method='naive'),
                   at_least(4) + EXP + WIDE, [Value('result = definition', whole, (), lambda: u_dcov_sqr(x, y, e_))],
                   ints={**N4, **PQ}, reals=EVALS)
    x, y = xy('mat', 'mat')
    yield Case('u_dcov_sqr[auto,mat,mat,e]', 'dcor:u_distance_covariance_sqr', (x, y), dict(exponent=E),
               at_least(4) + EXP + WIDE, [Value('result = definition', whole, (), lambda: u_dcov_sqr(x, y, e_))], ints={**N4, **PQ}, reals=EVALS)



# ---------------------------------------------------------------- C09
def c09():
    for lx in ('vec', 'col', 'mat'):
        for dt, lib in ((None, NP), ('int64', NP), (object, NP), ('float32', NP), ('int32', NP), ('longdouble', NP), (None, XP)):
            if lib is XP and lx == 'vec' and False:
                continue
            x = sample('x', lx, width=p_, dtype=dt, lib=lib)
            y = sample('y', lx, size=l_, width=p_, dtype=dt, lib=lib)
            tag = f'{lx},{np.dtype(dt or float).name},{"numpy" if lib is NP else "xp"}'
            exps = ((E, e_, EXP, EVALS), (1, ONE, [], {}))
            for ev, et, rq, rl in exps:
                if dt is object and ev is E:
                    continue        # a fractional power of a Fraction is a float
                kw = {} if ev == 1 else dict(exponent=ev)
                et_ = 'e' if ev is E else '1'
                yield Case(f'pairwise[x,{tag},{et_}]', 'dcor.distances:pairwise_distances', (x,), kw, at_least(1) + rq + WIDE[:1],
                           [Value('entries', whole, (n, n), lambda i, j, x=x, et=et: dist(x, i, x, j, et))],
                           ints={**NS, **PQ}, reals=rl, samples=6)
                yield Case(f'pairwise[x,y,{tag},{et_}]', 'dcor.distances:pairwise_distances', (x, y), kw, at_least(1) + [le(ONE, l_)] + rq + WIDE[:1],
                           [Value('entries', whole, (n, l_), lambda i, j, x=x, y=y, et=et: dist(x, i, y, j, et))],
                           ints={**NS, **PQ, l_: [1, 2, 3, 4]}, reals=rl, samples=6)
                yield Case(f'pairwise[x,x,{tag},{et_}]', 'dcor.distances:pairwise_distances', (x, Same(0)), kw, at_least(1) + rq + WIDE[:1],
                           [Value('entries', whole, (n, n), lambda i, j, x=x, et=et: dist(x, i, x, j, et))],
                           ints={**NS, **PQ}, reals=rl, samples=6)


# ---------------------------------------------------------------- C10
def sym_matrix(name, dtype=None, lib=NP):
    """An arbitrary symmetric matrix."""
    s = 'I' if dtype is not None and np.dtype(dtype).kind in 'iu' else 'R'
    return Arr(name, (n, n), dtype, lib, fn=lambda i, j: add(app(name, (i, j), s), app(name, (j, i), s)))


def c10():
    for fname, cent, lo in (('double_centered', double_centered, 1), ('u_centered', u_centered, 3)):
        ints = {n: list(range(lo, 7))}
        for dt, lib in ((None, NP), ('int64', NP), (object, NP), (None, XP)):
            a = sym_matrix('a', dt, lib)
            tag = f'{np.dtype(dt or float).name},{"numpy" if lib is NP else "xp"}'
            ps = [Value('entries', whole, (n, n), lambda i, j, a=a: cent(a)(i, j)),
                  Check('floating point result', lambda r, p: r.dtype.kind in 'fO', lambda r, env: np.asarray(getattr(r, '_array', r)).dtype.kind in 'fO')]
            yield Case(f'{fname}[{tag}]', f'dcor:{fname}', (a,), {}, at_least(lo), ps, ints=ints, samples=8)
            out = Arr('out', (n, n), None if dt == 'int64' else dt, lib, frozen=False)
            yield Case(f'{fname}[{tag},out]', f'dcor:{fname}', (a,), dict(out=out), at_least(lo),
                       ps + [Check('returns out', lambda r, p: r is p.m.call_args[1]['out'], lambda r, env: True),
                             Value('out holds the result', lambda r: r, (n, n), lambda i, j, a=a: cent(a)(i, j))],
                       ints=ints, samples=8, writes=('out',))
            if dt != 'int64':
                a2 = Arr('a', (n, n), dt, lib, fn=a.fn, frozen=False)
                yield Case(f'{fname}[{tag},in place]', f'dcor:{fname}', (a2,), dict(out=Same(0)), at_least(lo),
                           ps + [Check('returns out', lambda r, p: r is p.m.call_args[0][0], lambda r, env: True)], ints=ints, samples=8, writes=(0,))
    a = sym_matrix('a')
    yield Case('double_centered: rows sum to 0', 'dcor:double_centered', (a,), {}, at_least(1),
               lambda r, p: [] if p is None else [Cond('row and column sums', lambda r, p: row_sums_zero(r))], ints=NS, samples=2)


def row_sums_zero(r):
    i = fresh('i')
    g1 = eq(sum_fn(n, lambda j: r.at((i, j))), ZERO)
    g2 = eq(sum_fn(n, lambda j: r.at((j, i))), ZERO)
    return band(g1, g2), [(i, n)]


# ---------------------------------------------------------------- C11
def mats(*names, dtype=None, lib=NP):
    return [Arr(k, (n, n), dtype, lib) for k in names]


def projection(a, b, size=n):
    """Coefficient of b along a, times a."""
    aa = u_product(a, a, size)
    return lambda i, j: ite(eq(aa, ZERO), ZERO, mul(div(u_product(a, b, size), aa), a(i, j)))


def c11():
    for dt, lib in ((None, NP), (object, NP), (None, XP)):
        a, b = mats('a', 'b', dtype=dt, lib=lib)
        tag = f'{np.dtype(dt or float).name},{"numpy" if lib is NP else "xp"}'
        yield Case(f'u_product[{tag}]', 'dcor:u_product', (a, b), {}, at_least(4), [Value('value', whole, (), lambda a=a, b=b: u_product(a, b))], ints=N4)
        yield Case(f'mean_product[{tag}]', 'dcor:mean_product', (a, b), {}, at_least(1), [Value('value', whole, (), lambda a=a, b=b: mean_product(a, b))], ints=NS)
        for fname, spec in (('u_projection', projection(a, b)),
                            ('u_complementary_projection', lambda i, j, a=a, b=b: sub(b(i, j), projection(a, b)(i, j)))):
            yield Case(f'{fname}[{tag}]', Apply(f'dcor:{fname}', 1), (a, b), {}, at_least(4),
                       [Value('entries', whole, (n, n), lambda i, j, spec=spec: spec(i, j))], ints=N4)
            # laws
            if dt is None and lib is NP:
                yield Case(f'{fname} twice[{tag}]', Apply(f'dcor:{fname}', 2), (a, b), {}, at_least(4),
                           [Value('idempotent', whole, (n, n), lambda i, j, spec=spec: spec(i, j))], ints=N4)
    a, b = mats('a', 'b')
    yield Case('orthogonality', Apply('dcor:u_complementary_projection', 1), (a, b), {}, at_least(4), lemmas=[cauchy_schwarz(a, b)], post=
               lambda r, p: [] if p is None else [Cond('result is orthogonal to a', lambda r, p: (eq(u_product(lambda i, j: r.at((i, j)), a), ZERO), []))], ints=N4, samples=2)


# ---------------------------------------------------------------- C13
def average_fn():
    return Fun('avg', lambda a: np.median(np.asarray(a, dtype=float)) * 3 + np.min(np.asarray(a, dtype=float)))


nx_, ny_ = n, l_
NL = {n: [1, 2, 3, 4], l_: [1, 2, 3, 5]}


def average_of(f, s1, s2, mask=None):
    i, j = fresh('i'), fresh('j')
    return fnof('avg', [i, j], [s1, s2], f(i, j), None if mask is None else mask(i, j))


def energy_avg(x, y, e, stat):
    mask = (lambda i, j: lt(i, j)) if stat == 'U' else None
    return sub(sub(mul(TWO, average_of(lambda i, j: dist(x, i, y, j, e), n, l_)), average_of(lambda i, j: dist(x, i, x, j, e), n, n, mask)),
               average_of(lambda i, j: dist(y, i, y, j, e), l_, l_, mask))


def c13():
    ENUM = 'dcor:EstimationStatistic'
    for lx in ('vec', 'col', 'mat'):
        for dt, lib in ((None, NP), (object, NP), ('int64', NP), (None, XP)):
            if lx == 'col' and dt is not None:
                continue
            x = sample('x', lx, width=p_, dtype=dt, lib=lib)
            y = sample('y', lx, size=l_, width=p_, dtype=dt, lib=lib)
            tag = f'{lx},{np.dtype(dt or float).name},{"numpy" if lib is NP else "xp"}'
            exps = [(1, ONE, [], {})] if dt is object else [(E, e_, EXP, EVALS)]
            for ev, et, rq, rl in exps:
                kw = {} if ev == 1 else dict(exponent=ev)
                for stat in ('V', 'U'):
                    lo = 1 if stat == 'V' else 2
                    names = [None] if stat == 'V' else ['U']
                    if lx == 'vec' and dt is None and lib is NP:
                        names = [None, 'V', 'v', 'v_statistic', 'V_Statistic', Ref(ENUM + '.V_STATISTIC')] if stat == 'V' else ['U', 'u', 'u_statistic', 'U_STATISTIC', Ref(ENUM + '.U_STATISTIC')]
                    for nm in names:
                        k2 = dict(kw)
                        if nm is not None:
                            k2['estimation_stat'] = nm
                        yield Case(f'energy[{tag},{stat},{getattr(nm, "path", nm)}]', 'dcor:energy_distance', (x, y), k2,
                                   [le(num(lo), n), le(num(lo), l_), le(TWO, p_)] + rq,
                                   [Value('value', whole, (), lambda x=x, y=y, et=et, stat=stat: energy(x, y, et, n, l_, stat == 'U'))],
                                   ints={n: [lo, 2, 3, 4], l_: [lo, 3, 4], p_: [2, 3]}, reals=rl, samples=6)
    x = sample('x', 'mat', width=p_)
    y = sample('y', 'mat', size=l_, width=p_)
    avg = average_fn()
    for stat in ('V', 'U'):
        yield Case(f'energy[average,{stat}]', 'dcor:energy_distance', (x, y), dict(average=avg, estimation_stat=stat, exponent=E),
                   [le(TWO, n), le(TWO, l_), le(TWO, p_)] + EXP,
                   [Value('value', whole, (), lambda stat=stat: energy_avg(x, y, e_, stat))], ints={n: [2, 3, 4], l_: [2, 3, 4], p_: [2, 3]}, reals=EVALS, samples=6)



def cauchy_schwarz(a, b, prod=None):
    """<a,b>^2 <= <a,a><b,b> for the sums of products of the entries (Lean: Dcor.cauchy_schwarz)."""
    def s(u, v):
        return total(lambda i, j: mul(u(i, j), v(i, j)))
    return ('Dcor.cauchy_schwarz', le(ipow(s(a, b), 2), mul(s(a, a), s(b, b))))


# ---------------------------------------------------------------- C06
def nondegenerate(cov, *variances):
    """Inputs for a comparison of correlations: each variance is exactly 0 or clearly positive."""
    def g(env):
        for v in variances:
            w = float(env.value(v()))
            if abs(w) < 1e-6 and not constant_inputs(env):
                return False
        return True
    return g


def constant_inputs(env):
    return all(len(set(map(str, f.values))) == 1 for k, f in env.funcs.items() if hasattr(f, 'values') and k in ('x', 'y', 'z'))


def usable(*variances):
    return nondegenerate(None, *variances)


def cov_defs(x, y, e, unbiased):
    f = u_dcov_sqr if unbiased else dcov_sqr
    return [Def('COV', (), lambda: f(x, y, e)), Def('VARX', (), lambda: f(x, x, e)), Def('VARY', (), lambda: f(y, y, e))]


def stats_goals(defs, root=False):
    w = clipped_root if root else (lambda t: t)
    cov, vx, vy = defs
    return [Value('covariance_xy', lambda r: r.covariance_xy, (), lambda: w(cov())),
            Value('variance_x', lambda r: r.variance_x, (), lambda: w(vx())),
            Value('variance_y', lambda r: r.variance_y, (), lambda: w(vy())),
            Value('correlation_xy', lambda r: r.correlation_xy, (), lambda: w(dcor_sqr(cov(), vx(), vy())))], usable(vx, vy)


def c06():
    for lx, ly in (('vec', 'vec'), ('mat', 'mat'), ('col', 'mat')):
        x, y = xy(lx, ly)
        for unb, lo in ((False, 1), (True, 4)):
            u = 'u_' if unb else ''
            ints = {n: list(range(lo, 7)), **PQ}
            defs = cov_defs(x, y, e_, unb)
            goals, guard = stats_goals(defs)
            kw = dict(exponent=E, method='naive')
            rq = at_least(lo) + EXP + WIDE
            opts = dict(ints=ints, reals=EVALS, guard=guard, defs=defs)
            yield Case(f'{u}stats_sqr[{lx},{ly}]', f'dcor:{u}distance_stats_sqr', (x, y), kw, rq, goals, **opts)
            yield Case(f'{u}dcor_sqr[{lx},{ly}]', f'dcor:{u}distance_correlation_sqr', (x, y), kw, rq, [Value('value', whole, (), goals[3].fn)], **opts)
            if not unb:
                goals, guard = stats_goals(defs, True)
                yield Case(f'stats[{lx},{ly}]', 'dcor:distance_stats', (x, y), kw, rq, goals, **opts)
                yield Case(f'dcor[{lx},{ly}]', 'dcor:distance_correlation', (x, y), kw, rq, [Value('value', whole, (), goals[3].fn)], **opts)


# ---------------------------------------------------------------- C12
def u_mat(x, e=ONE):
    return u_centered(D(x, e))


def partial_parts(x, y, z, e=ONE):
    A, B, C = u_mat(x, e), u_mat(y, e), u_mat(z, e)
    pa, pb = projection(C, A), projection(C, B)
    return (lambda i, j: sub(A(i, j), pa(i, j))), (lambda i, j: sub(B(i, j), pb(i, j)))


def partial_cov(x, y, z, e=ONE):
    A, B, C = u_mat(x, e), u_mat(y, e), u_mat(z, e)
    cc = u_product(C, C)
    ab, ac, bc = u_product(A, B), u_product(A, C), u_product(B, C)
    return ite(eq(cc, ZERO), ab, sub(ab, div(mul(ac, bc), cc)))


def partial_cor(x, y, z):
    vx, vy = partial_cov(x, x, z), partial_cov(y, y, z)
    return ite(bor(le(vx, ZERO), le(vy, ZERO)), ZERO, div(partial_cov(x, y, z), sqrt(mul(vx, vy))))


def partial_defs(x, y, z, e=ONE):
    """Names for the U-centered matrices and their products."""
    A, B, C = (Def(k, (n, n), u_mat(v, e)) for k, v in (('A', x), ('B', y), ('C', z)))
    return [A, B, C]


def named_cov(A, B, C):
    cc = u_product(C, C)
    ab, ac, bc = u_product(A, B), u_product(A, C), u_product(B, C)
    return ite(eq(cc, ZERO), ab, sub(ab, div(mul(ac, bc), cc)))


def products(defs):
    A, B, C = defs
    return [Def(k, (), lambda u=u, v=v: total(lambda i, j: mul(u(i, j), v(i, j)))) for k, u, v in (('AA', A, A), ('BB', B, B), ('CC', C, C), ('AB', A, B), ('AC', A, C), ('BC', B, C))]


def product_facts(*names):
    """For the sums of products: S(u,u) >= 0 and S(u,v)^2 <= S(u,u) S(v,v)."""
    AA, BB, CC, AB, AC, BC = (d() for d in names)
    return [le(ZERO, AA), le(ZERO, BB), le(ZERO, CC), le(ipow(AB, 2), mul(AA, BB)), le(ipow(AC, 2), mul(AA, CC)), le(ipow(BC, 2), mul(BB, CC))]


def named_cor(*names):
    AA, BB, CC, AB, AC, BC = (div(d(), mul(n, sub(n, num(3)))) for d in names)

    def cov(ab, ac, bc):
        return ite(eq(CC, ZERO), ab, sub(ab, div(mul(ac, bc), CC)))
    vx, vy = cov(AA, AC, AC), cov(BB, BC, BC)
    return ite(bor(le(vx, ZERO), le(vy, ZERO)), ZERO, div(cov(AB, AC, BC), mul(sqrt(vx), sqrt(vy))))


def xyz(lx, ly, lz):
    r_ = var('r')
    return sample('x', lx, width=p_), sample('y', ly, width=q_), sample('z', lz, width=r_), [le(TWO, r_)], {r_: [2, 3]}


def c12():
    for lx, ly, lz in (('vec', 'vec', 'vec'), ('mat', 'mat', 'mat'), ('col', 'vec', 'mat')):
        x, y, z, rq, ri = xyz(lx, ly, lz)
        vz = lambda z=z: u_dcov_sqr(z, z)  # noqa: E731
        defs = partial_defs(x, y, z)
        vx = lambda x=x, z=z: partial_cov(x, x, z)  # noqa: E731
        vy = lambda y=y, z=z: partial_cov(y, y, z)  # noqa: E731
        yield Case(f'pdcov[{lx},{ly},{lz}]', 'dcor:partial_distance_covariance', (x, y, z), {}, at_least(4) + WIDE + rq,
                   [Value('value', whole, (), lambda: named_cov(*defs))], ints={**N4, **PQ, **ri}, guard=usable(vz), defs=defs)
        ux, uy = (lambda x=x: u_dcov_sqr(x, x)), (lambda y=y: u_dcov_sqr(y, y))
        yield Case(f'pdcor[{lx},{ly},{lz}]', 'dcor:partial_distance_correlation', (x, y, z), {}, at_least(4) + WIDE + rq,
                   [Value('value', whole, (), lambda: named_cor(*products(defs)))], ints={**N4, **PQ, **ri}, guard=usable(vz, vx, vy, ux, uy),
                   defs=defs + products(defs), algebra=True, named_facts=product_facts(*products(defs)), uses=['Dcor.cauchy_schwarz', 'Dcor.sum_sq_nonneg'])


# ---------------------------------------------------------------- C14
def ksamples(k, layout, dtype=None, lib=NP):
    sizes = [var(f'n{i}') for i in range(k)]
    return [sample(f'x{i}', layout, size=sizes[i], width=p_, dtype=dtype, lib=lib) for i in range(k)], sizes


def energy_stat(xs, sizes, e, ustat=False, en=None):
    en = en or (lambda i, j: energy(xs[i], xs[j], e, sizes[i], sizes[j], ustat, half=True))
    return add(*[mul(div(mul(sizes[i], sizes[j]), add(sizes[i], sizes[j])), en(i, j)) for i in range(len(xs)) for j in range(i + 1, len(xs))])


def energy_avg2(x, y, s1, s2, e, stat):
    mask = (lambda i, j: lt(i, j)) if stat == 'U' else None
    return sub(sub(mul(TWO, average_of(lambda i, j: dist(x, i, y, j, e), s1, s2)), average_of(lambda i, j: dist(x, i, x, j, e), s1, s1, mask)),
               average_of(lambda i, j: dist(y, i, y, j, e), s2, s2, mask))


def c14():
    for k in (2, 3, 4, 5):
        for lx in ('vec', 'mat'):
            for stat in ('V', 'U'):
                if k > 3 and (lx, stat) != ('mat', 'V') and (lx, stat) != ('vec', 'U'):
                    continue
                for lib in ((NP, XP) if k == 3 else (NP,)):
                    xs, sizes = ksamples(k, lx, lib=lib)
                    lo = 2 if stat == 'U' else 1
                    rq = [le(num(lo), s) for s in sizes] + [le(TWO, p_)] + EXP
                    ints = {**{s: [lo, 2, 3] for s in sizes}, p_: [2, 3]}
                    kw = dict(exponent=E, estimation_stat=stat)
                    goal = [Value('statistic', lambda r: r.statistic, (), lambda xs=xs, sizes=sizes, stat=stat: energy_stat(xs, sizes, e_, stat == 'U'))]
                    yield Case(f'energy_test[{k},{lx},{stat},{"np" if lib is NP else "xp"}]', 'dcor.homogeneity:energy_test', tuple(xs), kw, rq, goal, ints=ints, reals=EVALS, samples=6, budget=60)
                    if k == 2:
                        yield Case(f'energy_test_statistic[{lx},{stat}]', 'dcor.homogeneity:energy_test_statistic', tuple(xs), kw, rq,
                                   [Value('value', whole, (), goal[0].fn)], ints=ints, reals=EVALS, samples=6)
    for k in (2, 3):
        for stat in ('V', 'U'):
            xs, sizes = ksamples(k, 'mat')
            yield Case(f'energy_test[{k},average,{stat}]', 'dcor.homogeneity:energy_test', tuple(xs), dict(exponent=E, estimation_stat=stat, average=average_fn()),
                       [le(TWO, s) for s in sizes] + [le(TWO, p_)] + EXP,
                       [Value('statistic', lambda r: r.statistic, (), lambda xs=xs, sizes=sizes, stat=stat: energy_stat(
                           xs, sizes, e_, en=lambda i, j: energy_avg2(xs[i], xs[j], sizes[i], sizes[j], e_, stat)))],
                       ints={**{s: [2, 3] for s in sizes}, p_: [2, 3]}, reals=EVALS, samples=5)


# ---------------------------------------------------------------- C16
def c16():
    for lx, ly in (('vec', 'vec'), ('mat', 'mat'), ('col', 'mat')):
        x, y = xy(lx, ly)
        yield Case(f'dcov_test[{lx},{ly}]', 'dcor.independence:distance_covariance_test', (x, y), dict(exponent=E), at_least(1) + EXP + WIDE,
                   [Value('statistic', lambda r: r.statistic, (), lambda x=x, y=y: mul(n, dcov_sqr(x, y, e_)))], ints={**NS, **PQ}, reals=EVALS)
        y2 = sample('y', ly, size=l_, width=q_)
        yield Case(f'dcov_test[{lx},{ly},sizes]', 'dcor.independence:distance_covariance_test', (x, y2), dict(exponent=E),
                   at_least(1) + [le(ONE, l_), ne(n, l_)] + EXP + WIDE, [], raises=ValueError, ints={**NS, **PQ, l_: [1, 2, 3, 4]}, reals=EVALS)
    for lx, ly, lz in (('vec', 'vec', 'vec'), ('mat', 'mat', 'mat')):
        x, y, z, rq, ri = xyz(lx, ly, lz)
        vz = lambda z=z: u_dcov_sqr(z, z, e_)  # noqa: E731
        defs = partial_defs(x, y, z, e_)
        yield Case(f'pdcov_test[{lx},{ly},{lz}]', 'dcor.independence:partial_distance_covariance_test', (x, y, z), dict(exponent=E),
                   at_least(4) + EXP + WIDE + rq,
                   [Value('statistic', lambda r: r.statistic, (), lambda: mul(n, named_cov(*defs)))],
                   ints={**N4, **PQ, **ri}, reals=EVALS, guard=usable(vz), defs=defs)
        vz1 = lambda z=z: u_dcov_sqr(z, z)  # noqa: E731
        defs1 = partial_defs(x, y, z)
        # partial_distance_covariance_test multiplies by n the covariance of C12 when the exponent is 1
        yield Case(f'pdcov_test[{lx},{ly},{lz},1]', 'dcor.independence:partial_distance_covariance_test', (x, y, z), {},
                   at_least(4) + WIDE + rq,
                   [Value('statistic', lambda r: r.statistic, (), lambda: mul(n, named_cov(*defs1)))],
                   ints={**N4, **PQ, **ri}, guard=usable(vz1), defs=defs1)


# ---------------------------------------------------------------- C17
def c17():
    for lx, ly in (('mat', 'mat'), ('mat', 'vec')):
        x, y = xy(lx, ly)
        defs = cov_defs(x, y, ONE, True)
        cov, vx, vy = (d() for d in defs)
        facts = [le(ZERO, vx), le(ZERO, vy), le(ipow(cov, 2), mul(vx, vy))]
        R = dcor_sqr(cov, vx, vy)
        v = div(mul(n, sub(n, num(3))), TWO)
        stat = div(mul(sqrt(sub(v, ONE)), R), sqrt(sub(ONE, ipow(R, 2))))
        inf = [lambda R=R: eq(R, ONE), lambda R=R: eq(R, num(-1))]
        opts = dict(ints={**N4, **PQ}, guard=usable(*defs[1:]), defs=defs, algebra=True, named_facts=facts, ieee=True,
                    uses=['Dcor.cauchy_schwarz', 'Dcor.sum_sq_nonneg'])
        yield Case(f't_statistic[{lx},{ly}]', 'dcor.independence:distance_correlation_t_statistic', (x, y), {}, at_least(4) + WIDE,
                   [Value('value', whole, (), lambda stat=stat: stat, inf=inf)], **opts)
        pv = ite(eq(R, ONE), ZERO, ite(eq(R, num(-1)), ONE, sub(ONE, app('tcdf', (stat, sub(v, ONE))))))
        yield Case(f't_test[{lx},{ly}]', 'dcor.independence:distance_correlation_t_test', (x, y), {}, at_least(4) + WIDE,
                   [Value('statistic', lambda r: r.statistic, (), lambda stat=stat: stat, inf=inf),
                    Value('pvalue', lambda r: r.pvalue, (), lambda pv=pv: pv)], **opts)


# ---------------------------------------------------------------- C15
R_ = var('R')


def permuted(a, r):
    return lambda i, j: a(perm('P:rng0', i, r), perm('P:rng0', j, r))


def pvalue_spec(stat, A):
    """stat: function of a matrix; A: the matrix of the data."""
    return div(add(ONE, sum_fn(R_, lambda r: ind(lt(stat(A), stat(permuted(A, r)))))), add(R_, ONE))


def drawn(seed, size):
    def f(r, p):
        log = getattr(p.m, 'rng_log', [])
        return len(log) == 1 and log[0][3] == f'seed:{seed}' and len(log[0][2]) == 1 and (vals.same_dim(log[0][1], size) or p.m.valid(eq(vals.dsize(log[0][1]), size)))
    return Check('one permutation of the observations is drawn from the given random state for each resample', f)


def no_ties(stat, A, size):
    """Are the comparisons clear of rounding?"""
    base, i = stat(A), var('r?')
    other = stat(permuted(A, i))

    def g(env):
        s0 = float(env.value(base))
        for k in range(int(env.value(R_))):
            s1 = float(env.value(subst(other, {i: num(k)})))
            if abs(s0 - s1) < 1e-7 * (1 + abs(s0)):
                return False
        return True
    return g


def both(*gs):
    return lambda env: all(g(env) for g in gs)


def test_goals(stat, A, size):
    stat = cut(stat)
    return [Value('statistic', lambda r: r.statistic, (), lambda: stat(A)), Value('pvalue', lambda r: r.pvalue, (), lambda: pvalue_spec(stat, A)), drawn(7, size),
            Check('the p-value is a number', lambda r, p: True, lambda r, env: 1 / (int(env.value(R_)) + 1) - 1e-12 <= r.pvalue <= 1)]


def cut(f):
    return f


def c15():
    rs = dict(num_resamples=Scal(R_, 'int'), random_state=7)
    ri = {R_: [0, 1, 2, 3]}
    for lx, ly in (('vec', 'vec'), ('mat', 'mat'), ('vec', 'mat')):
        x, y = xy(lx, ly)
        A, B = double_centered(D(x, e_)), double_centered(D(y, e_))
        stat = lambda M, B=B: mul(n, mean_product(M, B))  # noqa: E731
        for nj in ((1, 2) if lx == 'vec' else (1,)):
            yield Case(f'dcov_test[{lx},{ly},{nj}]', 'dcor.independence:distance_covariance_test', (x, y), dict(exponent=E, n_jobs=nj, **rs),
                       at_least(1) + [le(ZERO, R_)] + EXP + WIDE, test_goals(stat, A, n),
                       ints={n: [1, 2, 3, 4, 5], **PQ, **ri}, reals=EVALS, rng=(7, n), guard=no_ties(stat, A, n), samples=6, native=nj == 1)
    for lx, ly, lz in (('vec', 'vec', 'vec'), ('mat', 'mat', 'mat')):
        x, y, z, rq, rz = xyz(lx, ly, lz)
        defs = partial_defs(x, y, z, e_)
        A, B, C = defs
        pa, pb = (lambda i, j: sub(A(i, j), projection(C, A)(i, j))), (lambda i, j: sub(B(i, j), projection(C, B)(i, j)))
        stat = lambda M, pb=pb: mul(n, u_product(M, pb))  # noqa: E731
        vz = lambda z=z: u_dcov_sqr(z, z, e_)  # noqa: E731
        yield Case(f'pdcov_test[{lx},{ly},{lz}]', 'dcor.independence:partial_distance_covariance_test', (x, y, z), dict(exponent=E, **rs),
                   at_least(4) + [le(ZERO, R_)] + EXP + WIDE + rq, test_goals(stat, pa, n), defs=defs,
                   ints={n: [4, 5], **PQ, **ri, **rz}, reals=EVALS, rng=(7, n), guard=both(usable(vz), no_ties(stat, pa, n)), samples=4)
    for k, lx in ((2, 'vec'), (2, 'mat'), (3, 'mat')):
        for stat_name in ('V', 'U'):
            xs, sizes = ksamples(k, lx)
            M = pooled(xs, sizes, e_)
            stat = lambda M, sizes=sizes, u=stat_name == 'U': energy_of_matrix(M, sizes, u)  # noqa: E731
            lo = 2 if stat_name == 'U' else 1
            tot = add(*sizes)
            yield Case(f'energy_test[{k},{lx},{stat_name}]', 'dcor.homogeneity:energy_test', tuple(xs), dict(exponent=E, estimation_stat=stat_name, **rs),
                       [le(num(lo), s) for s in sizes] + [le(TWO, p_), le(ZERO, R_)] + EXP, test_goals(stat, M, tot),
                       ints={**{s: [lo, 2, 3] for s in sizes}, p_: [2, 3], **ri}, reals=EVALS, rng=(7, tot), guard=no_ties(stat, M, tot), samples=5)


def pooled(xs, sizes, e):
    """Distances between the observations of all the samples, one after another."""
    ends, offs = [], []
    t = ZERO
    for s in sizes:
        offs.append(t)
        t = add(t, s)
        ends.append(t)

    def coord(i, k):
        r = None
        for x, o, en in reversed(list(zip(xs, offs, ends))):
            v = x(sub(i, o)) if x.layout == 'vec' else x(sub(i, o), k)
            r = v if r is None else ite(lt(i, en), v, r)
        return r

    def M(i, j):
        if xs[0].layout == 'vec':
            return rpow_abs(sub(coord(i, ZERO), coord(j, ZERO)), e)
        return rpow(sum_fn(xs[0].dims[1], lambda k: ipow(sub(coord(i, k), coord(j, k)), 2)), mul(e, HALF))
    return M


def energy_of_matrix(M, sizes, ustat):
    offs, t = [], ZERO
    for s in sizes:
        offs.append(t)
        t = add(t, s)

    def within(a):
        o, k = offs[a], sizes[a]
        if ustat:
            s = sum_fn(k, lambda i: sum_fn(k, lambda j: mul(ind(lt(i, j)), M(add(o, i), add(o, j)))))
            return div(mul(TWO, s), mul(k, sub(k, ONE)))
        return mean2(lambda i, j: M(add(o, i), add(o, j)), k, k)

    def en(a, b):
        xy_ = mean2(lambda i, j: M(add(offs[a], i), add(offs[b], j)), sizes[a], sizes[b])
        return sub(sub(mul(TWO, xy_), within(a)), within(b))
    return energy_stat(sizes, sizes, None, en=en)


# ---------------------------------------------------------------- C03
L_ = var('L')


def rank(i):
    return app('Q:z', (i,), 'I')


def dyad_off(l):
    return mul(ind(lt(ZERO, l)), sub(pow2(add(L_, ONE)), pow2(sub(add(L_, ONE), l))))


def dyad_kernel(q, m):
    """Number of pairs of levels (l, k) where the block of q at level k is the one read for m at level l."""
    def at(l):
        fl = sub(floor(div(m, pow2(l))), ONE)
        return mul(ind(eq(mod(fl, TWO), ZERO)),
                   sum_fn(L_, lambda k: ind(eq(add(ceil(div(q, pow2(k))), num(-1), dyad_off(k)), add(fl, dyad_off(l))))))
    return sum_fn(L_, at)


def dyad_bounds():
    """1 <= ceil(q / 2^l) <= 2^(L-l) for 1 <= q <= 2^L; 0 <= floor(m / 2^l) < 2^(L-l) for 0 <= m < 2^L (Lean: Dcor.dyad_bounds)."""
    j, l = fresh('j'), fresh('l')
    c = ceil(div(add(ONE, rank(j)), pow2(l)))
    f = floor(div(rank(j), pow2(l)))
    return ('Dcor.dyad_bounds', forall([(j, n), (l, L_)], band(le(ONE, c), le(c, pow2(sub(L_, l))), le(ZERO, f), lt(f, pow2(sub(L_, l))),
            le(ONE, pow2(sub(L_, l))), le(pow2(sub(L_, l)), pow2(L_)))))


class Dyad:
    """_dyad_update(y, c, gamma, L, s, pos_sums): sums of the c[j] for j < i with y[j] < y[i]."""

    def __init__(self, name, compiled):
        self.name, self.compiled = name, compiled

    def cases(self):
        y = Arr('y', (n,), fn=lambda i: add(ONE, rank(i)))
        c, g = Arr('c', (n,)), Arr('g', (n,), fn=lambda i: ZERO, frozen=False)
        s = Arr('s', (pow2(add(L_, ONE)),), frozen=False)
        ps = Arr('ps', (L_,), 'int64', fn=lambda l: sub(pow2(add(L_, ONE)), pow2(sub(L_, l))))
        yield Case(f'{self.name}', f'dcor._fast_dcov_avl:{self.name}', (y, c, g, Scal(L_, 'int'), s, ps), {},
                   [le(num(4), n), le(TWO, L_), le(n, pow2(L_)), lt(n, pow2(num(31))), lt(pow2(sub(L_, ONE)), n)],
                   [Value('sums', lambda r: r, (n,), lambda i: sum_fn(n, lambda j: mul(ind(lt(j, i)), c(j), dyad_kernel(add(ONE, rank(j)), rank(i)))))],
                   writes=(2, 4), setup=lambda m: m.perms.add('z', n), late=[dyad_bounds()], compiled=self.compiled,
                   ints={n: [4, 5, 6, 7, 8], L_: [2, 3]}, samples=6)

    def stubs(self):
        return {('dcor._fast_dcov_avl', self.name): dyad_stub}


def perm_name(a):
    """The permutation z with a[i] = 1 + (rank of i by z), if it is one."""
    i = fresh('i')
    d = to_term(nf(sub(b2r(a.at((i,))), ONE), machine().ctx()))
    if d.op == 'app' and d.args[0][:2] in ('Q:', 'P:') and d.args[1] is i and len(d.args) == 2:
        return d.args[0]
    return None


def dyad_stub(itp, args, kwargs, fn):
    """Contract of _dyad_update: its requirements become obligations of the caller."""
    if kwargs or len(args) != 6:
        return NotImplemented
    y, c, gamma, L, s, ps = args
    m = machine()
    if not all(isinstance(a, vals.SArr) and len(a.shape) == 1 for a in (y, c, gamma, s, ps)) or m.merge:
        return NotImplemented
    q = perm_name(y)
    if q is None:
        return NotImplemented
    size, Lt = vals.dsize(y.shape[0]), vals.nterm(L)

    def pre(desc, goal):
        m.obligation('pre', f'{fn.__name__}: {desc}', goal)
    i, l = fresh('i'), fresh('l')
    pre('size', band(le(num(4), size), le(size, pow2(Lt)), lt(pow2(sub(Lt, ONE)), size), le(TWO, Lt)))
    pre('lengths', band(eq(vals.dsize(c.shape[0]), size), eq(vals.dsize(gamma.shape[0]), size), eq(vals.dsize(ps.shape[0]), Lt)))
    pre('length of the workspace', eq(vals.dsize(s.shape[0]), pow2(add(Lt, ONE))))
    pre('gamma is 0', forall([(i, size)], eq(b2r(gamma.at((i,))), ZERO)))
    pre('offsets of the levels', forall([(l, Lt)], eq(b2r(ps.at((l,))), sub(pow2(add(Lt, ONE)), pow2(sub(Lt, l))))))
    cf = c.snap()
    r = new((y.shape[0],), lambda idx: sum_fn(size, lambda j: mul(ind(lt(j, idx[0])), ind(lt(app(q, (j,), 'I'), app(q, (idx[0],), 'I'))), b2r(cf((j,))))), c.dtype)
    npmodel.setitem(gamma, Ellipsis, r)
    nm = m.fresh_name('ws')
    npmodel.setitem(s, Ellipsis, new(s.shape, lambda idx: app(nm, idx, 'R'), s.dtype))
    return gamma


def avl_terms(x, y, var_terms):
    dx, dy = D(x), D(y)
    out = [((), lambda: total(lambda i, j: mul(dx(i, j), dy(i, j)))), ((n,), lambda i: sum_fn(n, lambda j: dx(i, j))), ((), lambda: total(dx)),
           ((n,), lambda i: sum_fn(n, lambda j: dy(i, j))), ((), lambda: total(dy))]
    if var_terms:
        out += [((), lambda: total(lambda i, j: ipow(dx(i, j), 2))), ((), lambda: total(lambda i, j: ipow(dy(i, j), 2)))]
    return out


def exact_number(v):
    """A result without floating point arithmetic in it."""
    return isinstance(v, (Fraction, int)) or (isinstance(v, vals.SArr) and v.exact and v.dtype.kind in 'Oiu') or (isinstance(v, vals.Sym) and isint(v.t))


class FastTerms:
    """The terms of the squared distance covariance of two vectors."""

    def __init__(self, module, name, generator, floor):
        self.module, self.name, self.floor = module, name, floor
        self.qual = f'{generator}.<locals>.{name}'

    def cases(self):
        for nm, comp in ((self.name, 0), (self.name + '_compiled', 1)):
            for vt in (False, True):
                for dt in ((None,) if comp else (None, object, 'float32', 'longdouble')):
                    x, y = xy('vec', 'vec', dtype=dt)
                    posts = [Value(f'term {k}', lambda r, k=k: r[k], dims, fn) for k, (dims, fn) in enumerate(avl_terms(x, y, vt))]
                    if not vt:
                        posts.append(Check('no variance terms', lambda r, p: r[5] is None and r[6] is None, lambda r, env: r[5] is None and r[6] is None))
                    if dt is object:
                        posts.append(Check('exact', lambda r, p: not p.m.events and all(exact_number(q) for q in r if q is not None),
                                           lambda r, env: all(isinstance(v, (Fraction, int)) for q in r if q is not None for v in np.ravel(q))))
                    yield Case(f'{nm}[{vt},{np.dtype(dt or float).name}]', f'{self.module}:{nm}', (x, y, vt), {}, at_least(self.floor) + [lt(n, pow2(num(31)))], posts,
                               ints={n: list(range(self.floor, self.floor + 4))}, samples=6, budget=120)

    def stubs(self):
        return {(self.module, self.qual): self.stub}

    def stub(self, itp, args, kwargs, fn):
        m = machine()
        args = list(args) + [kwargs[k] for k in ('return_var_terms',) if k in kwargs]
        if len(args) == 2:
            args.append(False)
        if len(args) != 3 or not all(isinstance(a, vals.SArr) and len(a.shape) == 1 and a.lib is NP for a in args[:2]) or not isinstance(args[2], bool):
            return NotImplemented
        x, y, vt = args
        if x.dtype.kind in 'iub' or y.dtype.kind in 'iub' or (x.dtype.kind == 'O') != (y.dtype.kind == 'O') or x.lib is not NP:
            return NotImplemented
        size = vals.dsize(x.shape[0])
        if not m.valid(band(le(num(self.floor), size), eq(size, vals.dsize(y.shape[0])))):
            return NotImplemented
        m.obligation('pre', f'{fn.__name__}: size below 2^31', lt(size, pow2(num(31))))
        dt = np.result_type(x.dtype, y.dtype)
        xf, yf = x.snap(), y.snap()
        exact = x.exact and y.exact
        X = lambda i: b2r(xf((i,)))  # noqa: E731
        Y = lambda i: b2r(yf((i,)))  # noqa: E731
        dx, dy = (lambda i, j: absv(sub(X(i), X(j)))), (lambda i, j: absv(sub(Y(i), Y(j))))

        def vec(d, k):
            return new((x.shape[0],), lambda idx: sum_fn(size, lambda j: d(idx[0], j)), k, exact=exact)

        def tot(f, k):
            return vals.scalar0(total(f, size), k, exact=exact)
        out = [tot(lambda i, j: mul(dx(i, j), dy(i, j)), dt), vec(dx, x.dtype), tot(dx, x.dtype), vec(dy, y.dtype), tot(dy, y.dtype)]
        if vt:
            out += [tot(lambda i, j: ipow(dx(i, j), 2), x.dtype), tot(lambda i, j: ipow(dy(i, j), 2), y.dtype)]
        else:
            out += [None, None]
        return tuple(out)


def c03():
    MODE = 'dcor:CompileMode.'
    for lx, ly, dt, mode in (('vec', 'vec', None, None), ('col', 'vec', None, None), ('vec', 'col', None, None), ('col', 'col', None, None),
                             ('vec', 'vec', None, 'NO_COMPILE'), ('vec', 'vec', None, 'COMPILE_CPU'), ('col', 'col', None, 'NO_COMPILE'),
                             ('vec', 'vec', 'int64', None), ('vec', 'vec', object, None), ('vec', 'vec', object, 'NO_COMPILE'),
                             ('vec', 'vec', 'float32', None), ('vec', 'vec', 'int64', 'COMPILE_CPU'), ('vec', 'vec', 'int8', None)):
        yield from fast_cases('avl', lx, ly, dt, mode, 4)


def fast_cases(method, lx, ly, dt, mode, floor):
    x, y = xy(lx, ly, dtype=dt)
    kw = dict(method=method)
    if mode:
        kw['compile_mode'] = Ref('dcor:CompileMode.' + mode)
    tag = f'{lx},{ly},{np.dtype(dt or float).name},{mode or "auto"}'
    rq = [lt(n, pow2(num(31)))]
    for unb, lo in ((False, floor), (True, 4)):
        u = 'u_' if unb else ''
        f = u_dcov_sqr if unb else dcov_sqr
        ints = {n: list(range(lo, 8))}
        yield Case(f'{u}dcov_sqr[{tag}]', f'dcor:{u}distance_covariance_sqr', (x, y), kw, at_least(lo) + rq,
                   [Value('result = definition', whole, (), lambda f=f: f(x, y))], ints=ints, samples=6)
        if dt is not None and dt is not object:
            continue
        defs = cov_defs(x, y, ONE, unb)
        goals, guard = stats_goals(defs)
        opts = dict(ints=ints, guard=guard, defs=defs, samples=6)
        yield Case(f'{u}stats_sqr[{tag}]', f'dcor:{u}distance_stats_sqr', (x, y), kw, at_least(lo) + rq, goals, **opts)
        yield Case(f'{u}dcor_sqr[{tag}]', f'dcor:{u}distance_correlation_sqr', (x, y), kw, at_least(lo) + rq, [Value('value', whole, (), goals[3].fn)], **opts)
        if not unb:
            yield Case(f'dcov[{tag}]', 'dcor:distance_covariance', (x, y), kw, at_least(lo) + rq,
                       [Value('root of the definition', whole, (), lambda: clipped_root(dcov_sqr(x, y)))], ints=ints, samples=6)


AVL_HELPERS = [[Dyad('_dyad_update', 0), Dyad('_dyad_update_compiled_version', 1)], [FastTerms('dcor._fast_dcov_avl', '_distance_covariance_sqr_terms_avl_impl', '_generate_distance_covariance_sqr_terms_avl_impl', 4)]]


# ---------------------------------------------------------------- C04
BIG = [lt(n, pow2(num(31)))]
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


def weak_orders(k):
    """One vector for each way to order k values with ties."""
    import itertools
    for v in itertools.product(range(k), repeat=k):
        if set(v) == set(range(max(v) + 1)):
            yield v


class WeightSums:
    """_compute_weight_sums(y, w)[v, i] = sum of the w[j, v] for j < i with y[j] < y[i].

    Proved with the loop invariants of invar.MergeSort.  Where they do not apply to the code, the
    contract is checked natively for every order of up to `limit` values with ties (the values of
    y are only compared), and for random longer vectors."""
    limit = 6
    module, name = 'dcor._fast_dcov_mergesort', '_compute_weight_sums'

    def cases(self):
        import invar
        y, w = Arr('y', (n,)), Arr('w', (n, q_))
        for comp in (0, 1):
            for dt in ((None,) if comp else (None, 'float32')):
                y, w = Arr('y', (n,), dt), Arr('w', (n, q_), dt)
                nm = self.name + ('_compiled' if comp else '')
                yield Case(f'{nm}[{np.dtype(dt or float).name}]', f'{self.module}:{nm}', (y, w), {}, at_least(1) + BIG + [le(ONE, q_)],
                           [Value('sums', whole, (q_, n), lambda v, i: sum_fn(n, lambda j: mul(ind(lt(j, i)), ind(lt(app('y', (j,)), app('y', (i,)))), app('w', (j, v)))))],
                           setup=invar.MergeSort('y', 'w', n).install, ints={n: [1, 2, 3, 4, 5, 6, 9], q_: [1, 4]}, samples=8)

    def bounded(self):
        import importlib
        mod = importlib.import_module(self.module)
        count = 0
        rng = np.random.RandomState(5)
        for f in (getattr(mod, self.name), getattr(mod, self.name + '_compiled')):
            def good(y):
                y = np.array(y, dtype=float)
                w = rng.randint(-50, 50, size=(len(y), 4)).astype(float)
                less = np.tril(np.ones((len(y), len(y))), -1) * (y[None, :] < y[:, None])
                return np.array_equal(f(y.copy(), w.copy()), (less @ w).T)
            for k in range(1, self.limit + 1):
                for v in weak_orders(k):
                    count += 1
                    if not good(v):
                        return False, f'{self.name}: wrong for {v}', count
            for k in list(range(7, 40)) + [63, 64, 65, 100, 127, 128, 129]:
                for _ in range(3):
                    count += 1
                    if not good(rng.randint(0, 1 + rng.randint(1, k), size=k)):
                        return False, f'{self.name}: wrong for a vector of {k} values', count
        return True, f'{self.name}: every weak order of up to {self.limit} values, and random vectors of up to 129 values', count

    def stubs(self):
        return {(self.module, self.name): self.stub}

    def stub(self, itp, args, kwargs, fn):
        if kwargs or len(args) != 2:
            return NotImplemented
        y, w = args
        m = machine()
        if not all(isinstance(a, vals.SArr) and a.lib is NP for a in args) or len(y.shape) != 1 or len(w.shape) != 2 or y.dtype.kind in 'iub':
            return NotImplemented
        size = vals.dsize(y.shape[0])
        m.obligation('pre', f'{fn.__name__}: lengths', eq(size, vals.dsize(w.shape[0])))
        m.obligation('pre', f'{fn.__name__}: not empty', band(le(ONE, size), le(ONE, vals.dsize(w.shape[1])), lt(size, pow2(num(31)))))
        yf, wf = y.snap(), w.snap()

        def at(idx):
            v, i = idx
            return sum_fn(size, lambda j: mul(ind(lt(j, i)), ind(lt(b2r(yf((j,))), b2r(yf((i,))))), b2r(wf((j, v)))))
        return new((w.shape[1], y.shape[0]), at, y.dtype)


def ordered(nm='x', dtype=None):
    """A vector in ascending order: a(P(i)) for any vector a and a permutation P that sorts it."""
    a = Arr(nm + '_', (n,), dtype)
    return Arr(nm, (n,), dtype, fn=lambda i: a(perm('P:o' + nm, i))), (lambda m: m.perms.add('o' + nm, n, lambda t: a(t)))


def pre_ordered(m, fn, xf, size):
    i, j = fresh('i'), fresh('j')
    m.obligation('pre', f'{fn.__name__}: ascending order', forall([(i, size), (j, size)], implies(lt(i, j), le(b2r(xf((i,))), b2r(xf((j,)))))))


class RowSums:
    """_compute_row_sums(x)[i] = sum of |x[i] - x[j]|, for x in ascending order."""
    module, name = 'dcor._fast_dcov_mergesort', '_compute_row_sums'

    def cases(self):
        for comp in (0, 1):
            for dt in ((None,) if comp else (None, object, 'float32')):
                x, setup = ordered('x', dt)
                yield Case(f'{self.name}{"_compiled" if comp else ""}[{np.dtype(dt or float).name}]', f'{self.module}:{self.name}{"_compiled" if comp else ""}', (x,), {}, at_least(1) + BIG,
                           [Value('sums', whole, (n,), lambda i, x=x: sum_fn(n, lambda j: absv(sub(x(i), x(j)))))], setup=setup, ints={n: [1, 2, 3, 4, 5]}, samples=5, pools={'x_': None, 'y_': None})

    def stubs(self):
        return {(self.module, self.name): self.stub}

    def stub(self, itp, args, kwargs, fn):
        m = machine()
        if kwargs or len(args) != 1 or not isinstance(args[0], vals.SArr) or len(args[0].shape) != 1 or args[0].lib is not NP or args[0].dtype.kind in 'iub':
            return NotImplemented
        x, xf, size = args[0], args[0].snap(), vals.dsize(args[0].shape[0])
        m.obligation('pre', f'{fn.__name__}: not empty', band(le(ONE, size), lt(size, pow2(num(31)))))
        pre_ordered(m, fn, xf, size)
        return new(x.shape, lambda idx: sum_fn(size, lambda j: absv(sub(b2r(xf((idx[0],))), b2r(xf((j,)))))), x.dtype)


class PairSums:
    """_compute_aijbij_term(x, y) = sum of |x[i] - x[j]| |y[i] - y[j]|, for x in ascending order."""
    module, name = 'dcor._fast_dcov_mergesort', '_compute_aijbij_term'

    def cases(self):
        for comp in (0, 1):
            for dt in ((None,) if comp else (None, 'float32')):
                x, setup = ordered('x', dt)
                y_ = Arr('y_', (n,), dt)
                y = Arr('y', (n,), dt, fn=lambda i, y_=y_: y_(perm('P:ox', i)))    # every y has this form
                yield Case(f'{self.name}{"_compiled" if comp else ""}[{np.dtype(dt or float).name}]', f'{self.module}:{self.name}{"_compiled" if comp else ""}', (x, y), {}, at_least(1) + BIG,
                           [Value('sum', whole, (), lambda x=x, y=y: total(lambda i, j: mul(absv(sub(x(i), x(j))), absv(sub(y(i), y(j))))))],
                           setup=setup, ints={n: [1, 2, 3, 4, 5]}, samples=5, pools={'x_': None, 'y_': None})

    def stubs(self):
        return {(self.module, f'_generate_compute_aijbij_term.<locals>.{self.name}'): self.stub}

    def stub(self, itp, args, kwargs, fn):
        m = machine()
        if kwargs or len(args) != 2 or not all(isinstance(a, vals.SArr) and len(a.shape) == 1 and a.lib is NP and a.dtype.kind not in 'iub' for a in args):
            return NotImplemented
        x, y = args
        if x.dtype.kind == 'O' or y.dtype.kind == 'O':
            return NotImplemented
        xf, yf, size = x.snap(), y.snap(), vals.dsize(x.shape[0])
        m.obligation('pre', f'{fn.__name__}: sizes', band(le(ONE, size), lt(size, pow2(num(31))), eq(size, vals.dsize(y.shape[0]))))
        pre_ordered(m, fn, xf, size)
        t = total(lambda i, j: mul(absv(sub(b2r(xf((i,))), b2r(xf((j,))))), absv(sub(b2r(yf((i,))), b2r(yf((j,)))))), size)
        r = vals.scalar0(t, np.result_type(x.dtype, y.dtype))
        return npmodel.item_of(r)


def c04():
    for lx, ly, dt, mode in (('vec', 'vec', None, None), ('col', 'vec', None, None), ('vec', 'col', None, None), ('col', 'col', None, 'NO_COMPILE'),
                             ('vec', 'vec', None, 'NO_COMPILE'), ('vec', 'vec', None, 'COMPILE_CPU'), ('vec', 'vec', 'int64', None), ('vec', 'vec', 'float32', None)):
        yield from fast_cases('mergesort', lx, ly, dt, mode, 2)


# ---------------------------------------------------------------- C05
SIX = ('distance_covariance_sqr', 'u_distance_covariance_sqr', 'distance_covariance', 'distance_stats_sqr', 'u_distance_stats_sqr', 'distance_stats',
       'distance_correlation_sqr', 'u_distance_correlation_sqr', 'distance_correlation')


def stat_goals(fname, x, y, e):
    """Goals and options of a case for one of the distance covariance or correlation functions."""
    unb = fname.startswith('u_')
    root = not fname.endswith('_sqr')
    lo = 4 if unb else 1
    f = u_dcov_sqr if unb else dcov_sqr
    w = clipped_root if root else (lambda t: t)
    if 'covariance' in fname:
        return lo, [Value('value', whole, (), lambda: w(f(x, y, e)))], {}
    defs = cov_defs(x, y, e, unb)
    goals, guard = stats_goals(defs, root)
    if 'correlation' in fname:
        goals = [Value('value', whole, (), goals[3].fn)]
    return lo, goals, dict(guard=guard, defs=defs)


def c05():
    METHOD = 'dcor:DistanceCovarianceMethod.'
    MODE = 'dcor:CompileMode.'
    for lx, ly in (('vec', 'vec'), ('col', 'col'), ('vec', 'mat'), ('mat', 'vec'), ('mat', 'mat'), ('col', 'vec')):
        x, y = xy(lx, ly)
        univ = lx != 'mat' and ly != 'mat'
        for fname in SIX:
            for ev, et, rq, rl in ((E, e_, EXP, EVALS), (None, ONE, [], {})):
                if ev is None and not univ and fname != 'distance_covariance_sqr':
                    continue
                if (lx, ly) in (('col', 'vec'), ('mat', 'vec')) and 'correlation' not in fname:
                    continue
                if not THOROUGH and 'stats' in fname and (lx, ly) in (('col', 'col'), ('vec', 'mat')):
                    continue
                lo, goals, opts = stat_goals(fname, x, y, et)
                kw = {} if ev is None else dict(exponent=ev)
                yield Case(f'{fname}[auto,{lx},{ly},{"e" if ev else 1}]', f'dcor:{fname}', (x, y), kw, at_least(lo) + BIG + rq + WIDE, goals,
                           ints={n: list(range(lo, 8)), **PQ}, reals=rl, samples=5, **opts)
    # names
    x, y = xy('vec', 'vec')
    for nm in ('auto', 'AUTO', 'Naive', 'naive', 'avl', 'AVL', 'aVl'):
        for m_ in (nm, Ref(METHOD + nm.upper())):
            for fname in (SIX if nm == 'avl' and m_ is nm or (THOROUGH and m_ is nm) else SIX[:1]):
                lo, goals, opts = stat_goals(fname, x, y, ONE)
                lo = max(lo, 4)
                yield Case(f'{fname}[{getattr(m_, "path", m_)}]', f'dcor:{fname}', (x, y), dict(method=m_), at_least(lo) + BIG, goals, ints={n: list(range(lo, 8))}, samples=4, **opts)
    # requests that cannot be honoured
    for fname in SIX:
        for method in ('avl', 'mergesort'):
            yield Case(f'{fname}[{method},exponent]', f'dcor:{fname}', (x, y), dict(method=method, exponent=E), at_least(4) + BIG + EXP + [ne(e_, ONE)], [],
                       raises=Exception, ints=N4, reals={e_: [Fraction(1, 2), Fraction(3, 2)]}, samples=2)
            for lx, ly in (('mat', 'vec'), ('vec', 'mat'), ('mat', 'mat')):
                x2, y2 = xy(lx, ly)
                yield Case(f'{fname}[{method},{lx},{ly}]', f'dcor:{fname}', (x2, y2), dict(method=method), at_least(4) + BIG + WIDE, [], raises=Exception, ints={**N4, **PQ}, samples=2)
        for method in ('avl', 'mergesort', 'naive', 'auto'):
            for lx in ('vec', 'mat'):
                if lx == 'mat' and method in ('avl', 'mergesort'):
                    continue
                x2, y2 = sample('x', lx, width=p_), sample('y', lx, size=l_, width=p_)
                yield Case(f'{fname}[{method},{lx},sizes]', f'dcor:{fname}', (x2, y2), dict(method=method), at_least(4) + [le(num(4), l_), ne(n, l_), le(TWO, p_), lt(l_, pow2(num(31)))] + BIG, [],
                           raises=Exception, ints={n: [4, 5, 6], l_: [4, 5, 7], p_: [2, 3]}, samples=2)
        for method, modes in (('avl', ('COMPILE_PARALLEL',)), ('mergesort', ('COMPILE_PARALLEL',)), ('naive', ('COMPILE_PARALLEL', 'COMPILE_CPU'))):
            for mode in modes:
                yield Case(f'{fname}[{method},{mode}]', f'dcor:{fname}', (x, y), dict(method=method, compile_mode=Ref(MODE + mode)), at_least(4) + BIG, [], raises=Exception, ints=N4, samples=2)
    xm, ym = xy('mat', 'mat')
    for mode in ('COMPILE_PARALLEL', 'COMPILE_CPU'):
        yield Case(f'auto[mat,{mode}]', 'dcor:distance_covariance_sqr', (xm, ym), dict(compile_mode=Ref(MODE + mode)), at_least(4) + BIG + WIDE, [], raises=Exception, ints={**N4, **PQ}, samples=2)
    for method in ('fast', 'avl2', '', 'none'):
        yield Case(f'unknown[{method}]', 'dcor:distance_covariance_sqr', (x, y), dict(method=method), at_least(4), [], raises=Exception, ints=N4, samples=2)




# ---------------------------------------------------------------- C07
def moved(a, nm, how):
    """The sample a after a transformation."""
    b = var('b', 'R')
    c = (lambda k: app('c', (k,), 'R'))
    fns = dict(permuted=lambda i, *k: a(perm('P:pi', i), *k), translated=lambda i, *k: add(a(i, *k), c(*(k or (ZERO,)))), scaled=lambda i, *k: mul(b, a(i, *k)))
    r = Arr(nm, a.dims, a.dtype, a.lib, fn=fns[how])
    r.layout = a.layout
    return r


def c07():
    b = var('b', 'R')
    forms = (('vec', 'vec', e_, 'naive'), ('mat', 'mat', e_, None), ('mat', 'vec', ONE, None), ('vec', 'vec', ONE, None), ('vec', 'vec', ONE, 'mergesort'), ('vec', 'vec', ONE, 'avl'), ('col', 'mat', e_, 'naive'))
    for lx, ly, e, method in forms:
        x, y = xy(lx, ly)
        kw = dict(method=method) if method else {}
        if e is e_:
            kw['exponent'] = E
        tag = f'{lx},{ly},{"e" if e is e_ else 1},{method}'
        for fname in SIX:
            if (lx, ly, method) not in (('mat', 'mat', None), ('vec', 'vec', None)) and not fname.endswith('covariance_sqr') and not THOROUGH:
                continue
            lo, goals, opts = stat_goals(fname, x, y, e)
            if method == 'avl' or (method is None and lx == ly == 'vec'):
                lo = max(lo, 4)
            rq = at_least(lo) + BIG + (EXP if e is e_ else []) + WIDE
            ints = {n: list(range(lo, lo + 4)), **PQ}
            par = dict(ints=ints, samples=3)
            if e is e_:
                par['reals'] = EVALS
            pools = {k.name: None for k in (x, y)}
            par['pools'] = {**pools, 'c': None}
            # the definition, to which the lemmas Dcor.dcov_orthogonal and Dcor.dcor_scale apply
            yield Case(f'{fname}[{tag},definition]', f'dcor:{fname}', (x, y), kw, rq, goals, **par, **opts)
            # the samples exchanged: the variances change places
            if 'stats' not in fname:
                yield Case(f'{fname}[{tag},swap]', f'dcor:{fname}', (y, x), kw, rq, goals, **par, **opts)
            yield Case(f'{fname}[{tag},permutation]', f'dcor:{fname}', (moved(x, 'x1', 'permuted'), moved(y, 'y1', 'permuted')), kw, rq, goals,
                       setup=lambda m: m.perms.add('pi', n), **par, **opts)
            yield Case(f'{fname}[{tag},translation]', f'dcor:{fname}', (moved(x, 'x1', 'translated'), y), kw, rq, goals, **par, **opts)
            if 'covariance_sqr' in fname:
                f = u_dcov_sqr if fname.startswith('u_') else dcov_sqr
                q = {**par, 'reals': {**par.get('reals', {}), b: [Fraction(-3), Fraction(0), Fraction(1, 2), Fraction(7)]}}
                yield Case(f'{fname}[{tag},scale]', f'dcor:{fname}', (moved(x, 'x1', 'scaled'), y), kw, rq,
                           [Value('value', whole, (), lambda f=f, x=x, y=y, e=e: mul(rpow_abs(b, e), f(x, y, e)))], **q)
                yield Case(f'{fname}[{tag},scale y]', f'dcor:{fname}', (x, moved(y, 'y1', 'scaled')), kw, rq,
                           [Value('value', whole, (), lambda f=f, x=x, y=y, e=e: mul(rpow_abs(b, e), f(x, y, e)))], **q)


# ---------------------------------------------------------------- C08
def columns(a):
    return ONE if a.layout in ('vec', 'col') else a.dims[1]


def at2(a):
    return (lambda i, k: a(i)) if a.layout == 'vec' else (lambda i, k: a(i, k))


def cov_matrix(a):
    f = at2(a)
    mean = lambda k: div(sum_fn(n, lambda i: f(i, k)), n)  # noqa: E731
    return lambda k, l: div(sum_fn(n, lambda i: mul(sub(f(i, k), mean(k)), sub(f(i, l), mean(l)))), sub(n, ONE))


def native_scaled(a):
    """Values of a (n - 1)^-1 cov(a)^(-1/2), or None."""
    def make(env):
        memo = []

        def get(i, k):
            if not memo:
                v = np.asarray(a.nat(env), dtype=float)
                v = v.reshape(v.shape[0], -1)
                w, u = np.linalg.eigh(np.atleast_2d(np.cov(v, rowvar=False)))
                memo.append(v @ (u * (1 / np.sqrt(np.where(w > 0, w, np.inf)))) @ u.T / (len(v) - 1))
            return float(memo[0][int(i), int(k)])
        return get
    return make


def nonsingular(*samples):
    def g(env):
        for a in samples:
            v = np.asarray(a.nat(env), dtype=float)
            v = v.reshape(v.shape[0], -1)
            w = np.linalg.eigvalsh(np.atleast_2d(np.cov(v, rowvar=False)))
            if w[0] < 1e-3 * max(w[-1], 1):
                return False
        return True
    return g


class AfInv:
    """_af_inv_scaled(x) = x cov(x)^(-1/2) / (n - 1) for a nonsingular covariance.

    Model of eigh: C = V diag(w) V^T with V orthogonal, and w > 0 as cov(x) is not singular."""
    module, name = 'dcor._dcor_internals', '_af_inv_scaled'

    def cases(self):
        for lx in ('vec', 'col', 'mat'):
            x = sample('x', lx)
            cov, f, d = cov_matrix(x), at2(x), columns(x)

            def same_matrix(r, path, cov=cov, d=d):
                eigs = getattr(path.m, 'eigs', {})
                if len(eigs) != 1:
                    return FALSE, []
                (w, (v, size, mat)), = eigs.items()
                k, l = fresh('k'), fresh('l')
                return band(eq(vals.dsize(size), d), eq(b2r(mat((k, l))), cov(k, l))), [(k, d), (l, d)]

            def scaled(r, path, f=f, d=d):
                eigs = getattr(path.m, 'eigs', {})
                if len(eigs) != 1 or not isinstance(r, vals.SArr) or len(r.shape) != 2:
                    return FALSE, []
                (w, (v, size, mat)), = eigs.items()
                root = lambda l, k: sum_fn(d, lambda q: mul(app(v, (l, q)), app(v, (k, q)), div(ONE, sqrt(app(w, (q,))))))  # noqa: E731
                i, k = fresh('i'), fresh('k')
                return band(eq(vals.dsize(r.shape[0]), n), eq(vals.dsize(r.shape[1]), d),
                            eq(b2r(r.at((i, k))), div(sum_fn(d, lambda l: mul(f(i, l), root(l, k))), sub(n, ONE)))), [(i, n), (k, d)]

            def native(r, env, x=x):
                g = native_scaled(x)(env)
                return all(abs(float(r[i, k]) - float(g(i, k))) < 1e-7 for i in range(r.shape[0]) for k in range(r.shape[1]))
            yield Case(f'{self.name}[{lx}]', f'{self.module}:{self.name}', (x,), {}, at_least(2) + BIG + WIDE[:1],
                       [Cond('the matrix decomposed is the covariance', same_matrix), Cond('scaled sample', scaled, native)],
                       ints={n: [4, 5, 6], **PQ}, samples=4, guard=nonsingular(x))

    def stubs(self):
        return {(self.module, self.name): self.stub}

    def stub(self, itp, args, kwargs, fn):
        if kwargs or len(args) != 1 or not isinstance(args[0], vals.SArr) or args[0].lib is not NP or args[0].dtype != np.dtype(float):
            return NotImplemented
        x = args[0]
        m = machine()
        i, k = fresh('i'), fresh('k')
        heads = {q.args[0] for q in subterms(x.at((i, k)[:len(x.shape)])) if q.op == 'app'}
        if len(x.shape) not in (1, 2) or len(heads) != 1:
            return NotImplemented
        nm, = heads
        if x.at((i, k)[:len(x.shape)]) is not app(nm, (i, k)[:len(x.shape)], 'R'):
            return NotImplemented
        m.obligation('pre', f'{fn.__name__}: two observations', le(TWO, vals.dsize(x.shape[0])))
        return new((x.shape[0], x.shape[1] if len(x.shape) == 2 else ONE), lambda idx: app('AF' + nm, idx, 'R'), x.dtype)


AF_HELPERS = [[AfInv()]]


def c08():
    for lx, ly, kw, lo in (('mat', 'mat', {}, 2), ('vec', 'vec', {}, 4), ('mat', 'vec', {}, 2), ('col', 'mat', dict(method='naive'), 2), ('vec', 'vec', dict(method='avl'), 4), ('vec', 'vec', dict(method='mergesort'), 2)):
        x, y = xy(lx, ly)
        X, Y = (Arr('AF' + a.name, (n, columns(a))) for a in (x, y))
        for a, q in ((X, x), (Y, y)):
            a.layout = 'mat' if q.layout == 'mat' else 'col'
        defs = cov_defs(X, Y, ONE, False)
        goals, guard = stats_goals(defs)
        opts = dict(ints={n: [max(lo, 4), 5, 6], **PQ}, guard=nonsingular(x, y), defs=defs, samples=4, natives={'AFx': native_scaled(x), 'AFy': native_scaled(y)})
        tag = f'{lx},{ly},{kw.get("method")}'
        rq = at_least(lo) + BIG + WIDE
        yield Case(f'af_inv_sqr[{tag}]', 'dcor:distance_correlation_af_inv_sqr', (x, y), kw, rq, [Value('value', whole, (), goals[3].fn)], **opts)
        yield Case(f'af_inv[{tag}]', 'dcor:distance_correlation_af_inv', (x, y), kw, rq, [Value('value', whole, (), lambda g=goals[3].fn: clipped_root(g()))], **opts)


# ---------------------------------------------------------------- C18
k_ = var('k')


class Row:
    """Row r of an array of samples, as a sample."""

    def __init__(self, a, layout, r):
        self.a, self.layout, self.r = a, layout, r
        self.dims = a.dims[1:]

    def __call__(self, *idx):
        return self.a(self.r, *idx)


def rows(name, layout, width=p_, dtype=None, lib=NP):
    d = {'vec': (k_, n), 'col': (k_, n, ONE), 'mat': (k_, n, width)}[layout]
    a = Arr(name, d, dtype, lib)
    a.layout = layout
    return a


def each_row(spec, x, y):
    return lambda r: spec(Row(x, x.layout, r), Row(y, y.layout, r))


KS = {k_: [1, 2, 3]}


def c18():
    MODE = 'dcor:RowwiseMode.'
    COMP = 'dcor:CompileMode.'
    nat = lambda a, b: float(np.sum(np.arange(1, len(a) + 1) * a ** 2) + 3 * np.max(b) - np.sum(a * b))  # noqa: E731
    rk = [le(ONE, k_)]
    for lx in ('vec', 'col', 'mat'):
        for dt, lib in ((None, NP), ('int64', NP)):
            x, y = rows('x', lx, dtype=dt, lib=lib), rows('y', lx, dtype=dt, lib=lib)
            for kw in ({}, dict(alpha=3)):
                f = Fun2('f', nat, kw)
                for mode in (None, 'AUTO', 'NAIVE'):
                    k2 = dict(kw, **({} if mode is None else dict(rowwise_mode=Ref(MODE + mode))))
                    yield Case(f'any[{lx},{np.dtype(dt or float).name},{"np" if lib is NP else "xp"},{mode},{bool(kw)}]', 'dcor:rowwise', (f, x, y), k2, rk + at_least(1) + WIDE[:1],
                               [Value('values', whole, (k_,), lambda r, f=f, x=x, y=y, kw=kw: f.spec(kw, x.dims[1:], lambda *i: x(r, *i), lambda *i: y(r, *i)))],
                               ints={**KS, n: [1, 2, 3], p_: [2, 3]}, samples=4)
        f = Fun2('f', nat)
        x, y = rows('x', lx), rows('y', lx)
        yield Case(f'any[{lx},OPTIMIZED]', 'dcor:rowwise', (f, x, y), dict(rowwise_mode=Ref(MODE + 'OPTIMIZED')), rk + at_least(1) + WIDE[:1], [], raises=NotImplementedError,
                   ints={**KS, n: [1, 2, 3], p_: [2, 3]}, samples=2)
    for fname in ROWWISE:
        # optimized or not
        for lx, ly, dt, mode, comp, m_ in (('vec', 'vec', None, None, None, None), ('vec', 'vec', None, 'OPTIMIZED', None, None), ('vec', 'vec', None, 'NAIVE', None, None),
                                           ('col', 'col', None, 'OPTIMIZED', 'COMPILE_CPU', None), ('vec', 'col', None, None, 'COMPILE_CPU', None),
                                           ('vec', 'vec', None, 'OPTIMIZED', 'COMPILE_PARALLEL', None), ('vec', 'vec', None, None, 'NO_COMPILE', None),
                                           ('vec', 'vec', 'int64', None, None, None), ('vec', 'vec', 'int64', 'OPTIMIZED', None, None), ('vec', 'vec', 'int8', None, None, None),
                                           ('vec', 'vec', 'float32', None, None, None), ('vec', 'vec', None, None, None, 'avl'),
                                           ('vec', 'vec', None, None, None, Ref('dcor:DistanceCovarianceMethod.NAIVE')), ('vec', 'vec', None, None, None, Ref('dcor:DistanceCovarianceMethod.AVL')),
                                           ('mat', 'mat', None, None, None, None), ('mat', 'vec', None, 'NAIVE', None, None), ('vec', 'vec', object, None, None, None)):
            if dt is object and 'correlation' in fname:
                continue
            x, y = rows('x', lx, dtype=dt), rows('y', ly, width=q_, dtype=dt)
            kw = {}
            if mode:
                kw['rowwise_mode'] = Ref(MODE + mode)
            if comp:
                kw['compile_mode'] = Ref(COMP + comp)
            if m_:
                kw['method'] = m_
            yield rowwise_case(fname, x, y, kw, f'{lx},{ly},{np.dtype(dt or float).name},{mode},{comp},{getattr(m_, "path", m_)}', ONE, 4)
        x, y = rows('x', 'vec'), rows('y', 'vec')
        yield rowwise_case(fname, x, y, dict(exponent=E), 'vec,vec,exponent', e_, 4)
        if not fname.startswith('u_'):
            yield rowwise_case(fname, x, y, {}, 'vec,vec,small', ONE, 1)
        for lx, extra, kw in (('mat', [], {}), ('vec', [lt(n, num(4))], {}), ('vec', [le(num(4), n), ne(e_, ONE)] + EXP, dict(exponent=E))):
            x, y = rows('x', lx), rows('y', lx)
            yield Case(f'{fname}[{lx},{bool(kw)},{len(extra)},no optimized version]', 'dcor:rowwise', (Ref('dcor:' + fname), x, y), dict(rowwise_mode=Ref(MODE + 'OPTIMIZED'), **kw),
                       rk + at_least(1) + WIDE[:1] + extra, [], raises=NotImplementedError, ints={**KS, n: [1, 2, 3, 4, 5], p_: [2, 3]}, reals={e_: [Fraction(1, 2), Fraction(3, 2)]}, samples=2)


ROWWISE = ('distance_covariance_sqr', 'u_distance_covariance_sqr', 'distance_covariance', 'distance_correlation_sqr', 'u_distance_correlation_sqr', 'distance_correlation')


def usable_rows(*variances):
    """Rows whose variances are exactly 0 or clearly positive."""
    def g(env):
        for r in range(int(env.value(k_))):
            for v in variances:
                w = float(env.value(v(num(r))))
                if w != 0 and abs(w) < 1e-6:
                    return False
        return True
    return g


def rowwise_case(fname, x, y, kw, tag, e, lo):
    unb = fname.startswith('u_')
    f = u_dcov_sqr if unb else dcov_sqr
    w = (lambda t: t) if fname.endswith('_sqr') else clipped_root
    opts = {}
    if 'correlation' in fname:
        cov = Def('COV', (k_,), each_row(lambda a, b: f(a, b, e), x, y))
        vx = Def('VARX', (k_,), each_row(lambda a, b: f(a, a, e), x, y))
        vy = Def('VARY', (k_,), each_row(lambda a, b: f(b, b, e), x, y))
        spec = lambda r: w(dcor_sqr(cov(r), vx(r), vy(r)))  # noqa: E731
        opts = dict(defs=[cov, vx, vy])
        opts['guard'] = usable_rows(vx, vy)
        opts.update(algebra=True, named_facts=lambda r: [le(ZERO, vx(r)), le(ZERO, vy(r)), le(ipow(cov(r), 2), mul(vx(r), vy(r)))],
                    uses=['Dcor.cauchy_schwarz', 'Dcor.sum_sq_nonneg'])
    else:
        spec = each_row(lambda a, b: w(f(a, b, e)), x, y)
    return Case(f'{fname}[{tag}]', 'dcor:rowwise', (Ref('dcor:' + fname), x, y), kw, [le(ONE, k_)] + at_least(max(lo, 4 if unb else 1)) + BIG + WIDE + (EXP if e is e_ else []),
                [Value('values', whole, (k_,), spec)], ints={**KS, n: list(range(max(lo, 4 if unb else 1), 7)), **PQ}, reals=EVALS if e is e_ else {}, samples=4, **opts)




# ---------------------------------------------------------------- C19
def c19():
    def case(name, call, args, kw=None, req=(), ints=None, **opts):
        return Case(f'{name}', call, args, kw or {}, list(req), [], ints=ints or {**N4, **PQ}, frame=True, samples=opts.pop('samples', 3), **opts)
    BASE = at_least(4) + BIG + WIDE
    RE = dict(reals=EVALS)
    kinds = ((None, NP), ('int64', NP), (object, NP), ('float32', NP), (None, XP))
    for dt, lib in kinds:
        t = f'{np.dtype(dt or float).name},{"np" if lib is NP else "xp"}'
        for lx, ly in (('vec', 'vec'), ('col', 'col'), ('mat', 'mat'), ('vec', 'mat')):
            x, y = xy(lx, ly, dtype=dt, lib=lib)
            if dt in (object, 'float32') and (lx, ly) not in (('vec', 'vec'), ('mat', 'mat')):
                continue
            for fname in SIX:
                for method in (None, 'naive', 'avl', 'mergesort'):
                    if method in ('avl', 'mergesort') and (lib is XP or lx == 'mat' or ly == 'mat'):
                        continue
                    if method == 'mergesort' and not fname.endswith('covariance_sqr'):
                        continue
                    if (dt in (object, 'float32') or lx == 'col') and 'stats' not in fname:
                        continue
                    if (lib is XP or dt == 'int64') and method == 'naive':
                        continue
                    yield case(f'{fname}[{lx},{ly},{t},{method}]', f'dcor:{fname}', (x, y), dict(method=method) if method else {}, BASE)
            for fname in ('distance_correlation_af_inv_sqr', 'distance_correlation_af_inv'):
                if dt is None and lib is NP:
                    yield case(f'{fname}[{lx},{ly},{t}]', f'dcor:{fname}', (x, y), {}, BASE)
            if lib is NP:
                yield case(f't_statistic[{lx},{ly},{t}]', 'dcor.independence:distance_correlation_t_statistic', (x, y), {}, BASE)
                yield case(f't_test[{lx},{ly},{t}]', 'dcor.independence:distance_correlation_t_test', (x, y), {}, BASE)
        for lx in ('vec', 'col', 'mat'):
            x, y, z = (sample(k, lx, width=p_, dtype=dt, lib=lib) for k in 'xyz')
            y2 = sample('y', lx, size=l_, width=p_, dtype=dt, lib=lib)
            for ev in (1, E):
                if ev is E and (dt is object or dt == 'int64'):
                    continue
                q = {} if ev == 1 else dict(exponent=ev)
                rq = BASE + [le(TWO, l_)] + ([] if ev == 1 else EXP)
                ints = {**N4, **PQ, l_: [2, 3, 5]}
                yield case(f'pairwise[{lx},{t},{ev == 1}]', 'dcor.distances:pairwise_distances', (x,), q, rq, ints, **RE)
                yield case(f'pairwise2[{lx},{t},{ev == 1}]', 'dcor.distances:pairwise_distances', (x, y2), q, rq, ints, **RE)
                for st in ('V', 'U'):
                    yield case(f'energy[{lx},{t},{ev == 1},{st}]', 'dcor:energy_distance', (x, y2), dict(estimation_stat=st, **q), rq, ints, **RE)
            if lib is NP:
                yield case(f'pdcov[{lx},{t}]', 'dcor:partial_distance_covariance', (x, y, z), {}, BASE)
                yield case(f'pdcor[{lx},{t}]', 'dcor:partial_distance_correlation', (x, y, z), {}, BASE)
            if dt is None and lib is NP:
                rs = dict(num_resamples=Scal(R_, 'int'), random_state=7, exponent=E)
                rq = BASE + [le(ZERO, R_)] + EXP
                ints = {n: [4, 5], **PQ, R_: [0, 1, 2], l_: [2, 3]}
                yield case(f'dcov_test[{lx}]', 'dcor.independence:distance_covariance_test', (x, y), rs, rq, ints, rng=(7, n), **RE)
                yield case(f'pdcov_test[{lx}]', 'dcor.independence:partial_distance_covariance_test', (x, y, z), rs, rq, ints, rng=(7, n), **RE)
                for st in ('V', 'U'):
                    yield case(f'energy_test[{lx},{st}]', 'dcor.homogeneity:energy_test', (x, y2), dict(estimation_stat=st, **rs), rq + [le(TWO, l_)], ints, rng=(7, add(n, l_)), **RE)
                yield case(f'energy_test_statistic[{lx}]', 'dcor.homogeneity:energy_test_statistic', (x, y2), dict(exponent=E), rq + [le(TWO, l_)], ints, **RE)
        a, b = mats('a', 'b', dtype=dt, lib=lib)
        for fname in ('double_centered', 'u_centered'):
            yield case(f'{fname}[{t}]', f'dcor:{fname}', (a,))
            out = Arr('out', (n, n), None if dt == 'int64' else dt, lib, frozen=False)
            yield case(f'{fname}[{t},out]', f'dcor:{fname}', (a,), dict(out=out), writes=('out',))
        for fname in ('mean_product', 'u_product'):
            yield case(f'{fname}[{t}]', f'dcor:{fname}', (a, b), req=at_least(4))
        for fname in ('u_projection', 'u_complementary_projection'):
            yield case(f'{fname}[{t}]', Apply(f'dcor:{fname}', 1), (a, b), req=at_least(4))
    nat = lambda a, b: float(np.sum(a) - np.sum(b))  # noqa: E731
    for lx in ('vec', 'col', 'mat'):
        for dt in (None, 'int64'):
            x, y = rows('x', lx, dtype=dt), rows('y', lx, dtype=dt)
            rq = BASE + [le(ONE, k_)]
            ints = {**KS, **N4, **PQ}
            yield case(f'rowwise[any,{lx},{dt}]', 'dcor:rowwise', (Fun2('f', nat), x, y), {}, rq, ints)
            for fname in ROWWISE:
                yield case(f'rowwise[{fname},{lx},{dt}]', 'dcor:rowwise', (Ref('dcor:' + fname), x, y), {}, rq, ints)
    for fname in ('distance_covariance_sqr', 'u_distance_covariance_sqr'):
        ls = [Lists(*[sample(f'{c}{i}', 'vec') for i in range(3)]) for c in 'xy']
        yield case(f'rowwise[{fname},lists]', 'dcor:rowwise', (Ref('dcor:' + fname), *ls), dict(rowwise_mode=Ref('dcor:RowwiseMode.NAIVE')), BASE)


# ---------------------------------------------------------------- C20
INTEGERS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')


def no_events(desc='no step that loses digits'):
    return Check(desc, lambda r, p: not p.m.events)


def of_library(lib):
    def same(v):
        return isinstance(v, vals.SArr) and v.lib is lib

    def nat(v):
        import array_api_strict
        return type(v) is type(array_api_strict.asarray(1.0))

    def parts(r):
        names = ('covariance_xy', 'correlation_xy', 'variance_x', 'variance_y')
        return [getattr(r, k) for k in names] if all(hasattr(r, k) for k in names) else [r]
    return Check('result of the same library', lambda r, p: all(same(v) for v in parts(r)), lambda r, env: all(nat(v) for v in parts(r)))


def c20():
    COMP = 'dcor:CompileMode.'
    is_exact = Check('exact', lambda r, p: exact_number(r) and not p.m.events, lambda r, env: isinstance(r, (Fraction, int)))
    for lx, ly in (('vec', 'vec'), ('col', 'col'), ('vec', 'col')):
        x, y = xy(lx, ly, dtype=object)
        for fname in SIX[:2]:
            for method in (None, 'auto', 'avl', Ref('dcor:DistanceCovarianceMethod.AUTO'), Ref('dcor:DistanceCovarianceMethod.AVL')):
                if lx + ly != 'vecvec' and method not in (None, 'avl') and not THOROUGH:
                    continue
                for mode in (None, 'NO_COMPILE'):
                    kw = {**(dict(method=method) if method else {}), **(dict(compile_mode=Ref(COMP + mode)) if mode else {})}
                    lo, goals, opts = stat_goals(fname, x, y, ONE)
                    yield Case(f'{fname}[{lx},{ly},exact,{getattr(method, "path", method)},{mode}]', f'dcor:{fname}', (x, y), kw, at_least(4) + BIG, goals + [is_exact], ints={n: [4, 5, 6]}, samples=4, **opts)
    for dt in INTEGERS:
        pool = {k: [Fraction(v) for v in ((0, 1, 2, 5, 9) if dt[0] == 'u' else (-7, -2, 0, 1, 3))] for k in ('x', 'y')}
        for lx, ly in (('vec', 'vec'), ('mat', 'mat'), ('col', 'vec')):
            x, y = xy(lx, ly, dtype=dt)
            for fname in SIX[:2] + ('distance_correlation_sqr',):
                for method in ((None, 'naive', 'avl', 'mergesort') if lx != 'mat' else (None,)):
                    for mode in ((None, 'NO_COMPILE') if method in ('avl', 'mergesort') and lx == 'vec' else (None,)):
                        if dt[-2:] in ('16', '32') and not THOROUGH and (fname != SIX[0] or mode or lx == 'col'):
                            continue
                        if fname == 'distance_correlation_sqr' and (dt not in ('int8', 'uint64') or method == 'mergesort') and not THOROUGH:
                            continue
                        kw = {**(dict(method=method) if method else {}), **(dict(compile_mode=Ref(COMP + mode)) if mode else {})}
                        lo, goals, opts = stat_goals(fname, x, y, ONE)
                        yield Case(f'{fname}[{lx},{ly},{dt},{method},{mode}]', f'dcor:{fname}', (x, y), kw, at_least(4) + BIG + WIDE, goals + [no_events()], ints={n: [4, 5, 6], **PQ}, samples=3, pools=pool, **opts)
        for lx in ('vec', 'mat'):
            x, y = sample('x', lx, width=p_, dtype=dt), sample('y', lx, size=l_, width=p_, dtype=dt)
            for stat in ('V', 'U'):
                yield Case(f'energy[{lx},{dt},{stat}]', 'dcor:energy_distance', (x, y), dict(estimation_stat=stat, exponent=E), [le(TWO, n), le(TWO, l_), le(TWO, p_)] + EXP,
                           [Value('value', whole, (), lambda x=x, y=y, stat=stat: energy(x, y, e_, n, l_, stat == 'U')), no_events()],
                           ints={n: [2, 3, 4], l_: [2, 3], p_: [2, 3]}, reals=EVALS, samples=3, pools=pool)
            yield Case(f'pairwise[{lx},{dt}]', 'dcor.distances:pairwise_distances', (x, y), dict(exponent=E), [le(ONE, n), le(ONE, l_), le(TWO, p_)] + EXP,
                       [Value('distances', whole, (n, l_), lambda i, j, x=x, y=y: dist(x, i, y, j, e_)), no_events()], ints={n: [1, 2, 3], l_: [1, 2, 3], p_: [2, 3]}, reals=EVALS, samples=3, pools=pool)
    for dt in (None, 'float32'):
        t = np.dtype(dt or float).name
        for lx, ly in (('vec', 'vec'), ('mat', 'mat'), ('col', 'mat')):
            x, y = xy(lx, ly, dtype=dt, lib=XP)
            for fname in SIX:
                for ev, et, rq, rl in ((E, e_, EXP, EVALS), (None, ONE, [], {})):
                    if not THOROUGH and ((dt is not None and (ev is None or lx != 'vec')) or ('stats' in fname and (ev is None or lx == 'col'))):
                        continue
                    lo, goals, opts = stat_goals(fname, x, y, et)
                    yield Case(f'{fname}[{lx},{ly},xp,{t},{"e" if ev else 1}]', f'dcor:{fname}', (x, y), dict(exponent=ev) if ev else {}, at_least(max(lo, 1)) + BIG + WIDE + rq,
                               goals + [of_library(XP)], ints={n: [4, 5, 6], **PQ}, reals=rl, samples=3, **opts)
        for lx in ('vec', 'mat'):
            x, y = sample('x', lx, width=p_, dtype=dt, lib=XP), sample('y', lx, size=l_, width=p_, dtype=dt, lib=XP)
            for stat in ('V', 'U'):
                yield Case(f'energy[{lx},xp,{t},{stat}]', 'dcor:energy_distance', (x, y), dict(estimation_stat=stat, exponent=E), [le(TWO, n), le(TWO, l_), le(TWO, p_)] + EXP,
                           [Value('value', whole, (), lambda x=x, y=y, stat=stat: energy(x, y, e_, n, l_, stat == 'U')), of_library(XP)],
                           ints={n: [2, 3, 4], l_: [2, 3], p_: [2, 3]}, reals=EVALS, samples=3)


MERGE_HELPERS = [[WeightSums()], [RowSums(), PairSums()]]
HELPERS = dict(C20=AVL_HELPERS + MERGE_HELPERS, C08=AF_HELPERS + AVL_HELPERS + MERGE_HELPERS, C03=AVL_HELPERS, C04=MERGE_HELPERS, C05=AVL_HELPERS + MERGE_HELPERS, C07=AVL_HELPERS + MERGE_HELPERS, C18=AVL_HELPERS, C19=AVL_HELPERS + MERGE_HELPERS)
PROPS = dict(C20=c20, C08=c08, C07=c07, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19)
