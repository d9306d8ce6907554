"""Specifications: the definitions of the statistics, as terms."""
from __future__ import annotations

from cases import Arr
from terms import *  # noqa: F403
from vals import NP

n, p_, q_, l_ = var('n'), var('p'), var('q'), var('l')
e_ = var('e', 'R')


def sample(name, layout='vec', size=n, width=None, dtype=None, lib=NP):
    """A sample: vector, one-column matrix or matrix with `width` columns."""
    if layout == 'vec':
        a = Arr(name, (size,), dtype, lib)
    elif layout == 'col':
        a = Arr(name, (size, ONE), dtype, lib)
    else:
        a = Arr(name, (size, width if width is not None else p_), dtype, lib)
    a.layout = layout
    return a


def dist(x, i, y, j, e=ONE):
    """Euclidean distance between observation i of x and j of y, raised to e."""
    def coord(a, i, k):
        return a(i) if a.layout == 'vec' else a(i, k)
    if x.layout in ('vec', 'col'):
        return rpow_abs(sub(coord(x, i, ZERO), coord(y, j, ZERO)), e)
    s = sum_fn(x.dims[1], lambda k: ipow(sub(x(i, k), y(j, k)), 2))
    return rpow(s, mul(e, HALF))


def D(x, e=ONE):
    """Distance matrix of a sample, as a function of two indices."""
    return lambda i, j: dist(x, i, x, j, e)


def total(f, size=n, size2=None):
    return sum_fn(size, lambda i: sum_fn(size2 if size2 is not None else size, lambda j: f(i, j)))


def double_centered(a, size=n):
    """a: symmetric or not; rows and columns are centered separately."""
    def c(i, j):
        return add(a(i, j), neg(div(sum_fn(size, lambda k: a(i, k)), size)), neg(div(sum_fn(size, lambda k: a(k, j)), size)),
                   div(total(a, size), ipow(size, 2)))
    return c


def u_centered(a, size=n):
    def c(i, j):
        v = add(a(i, j), neg(div(sum_fn(size, lambda k: a(i, k)), sub(size, TWO))),
                neg(div(sum_fn(size, lambda k: a(k, j)), sub(size, TWO))),
                div(total(a, size), mul(sub(size, ONE), sub(size, TWO))))
        return mul(ind(ne(i, j)), v)
    return c


def u_product(a, b, size=n):
    return div(total(lambda i, j: mul(a(i, j), b(i, j)), size), mul(size, sub(size, num(3))))


def mean_product(a, b, size=n):
    return div(total(lambda i, j: mul(a(i, j), b(i, j)), size), ipow(size, 2))


def dcov_sqr(x, y, e=ONE, size=n):
    return mean_product(double_centered(D(x, e), size), double_centered(D(y, e), size), size)


def u_dcov_sqr(x, y, e=ONE, size=n):
    return u_product(u_centered(D(x, e), size), u_centered(D(y, e), size), size)


def clipped_root(t):
    return sqrt(ite(lt(t, ZERO), ZERO, t))


def dcor_sqr(cov, vx, vy):
    """0 when the product of the variances vanishes."""
    pr = mul(vx, vy)
    return ite(eq(pr, ZERO), ZERO, div(cov, sqrt(absv(pr))))


def mean2(f, size1, size2):
    return div(sum_fn(size1, lambda i: sum_fn(size2, lambda j: f(i, j))), mul(size1, size2))


def energy(x, y, e, nx, ny, ustat=False, half=False):
    """half: the averages within a sample written as sums over i < j."""
    xy = mean2(lambda i, j: dist(x, i, y, j, e), nx, ny)
    if ustat:
        def within(a, k):
            if half:
                s = sum_fn(k, lambda i: sum_fn(k, lambda j: mul(ind(lt(i, j)), dist(a, i, a, j, e))))
                return div(mul(TWO, s), mul(k, sub(k, ONE)))
            s = sum_fn(k, lambda i: sum_fn(k, lambda j: mul(ind(ne(i, j)), dist(a, i, a, j, e))))
            return div(s, mul(k, sub(k, ONE)))
    else:
        def within(a, k):
            return mean2(lambda i, j: dist(a, i, a, j, e), k, k)
    return sub(sub(mul(TWO, xy), within(x, nx)), within(y, ny))
