"""Models of the NumPy / Array API / SciPy / math functions the code calls.

Each model gives the mathematical value of the operation on real arrays
(trusted; cross-checked against NumPy by tools/selftest.py and by the
evaluation of every symbolic result on concrete inputs)."""
from __future__ import annotations

import math
import operator

import numpy as np

from terms import *  # noqa: F403
from terms import T
from nf import nf
import vals
from vals import (M, Sym, SArr, Prod, Masked, SymRange, SymSeq, Delayed, Cell, NP, XP, Lib, Unsupported, PyExc,
                  machine, mk, term, nterm, new, scalar0, dsize, dfresh, dbind, same_dim, is_one, is_number)

PRIMS = {}
F8, I8, B1, OBJ = np.dtype('float64'), np.dtype('int64'), np.dtype(bool), np.dtype(object)


def prim(*names):
    def deco(f):
        for n in names:
            PRIMS[n] = f
        return f
    return deco


# ---------------------------------------------------------------- helpers
def lib_of(*vs):
    for v in vs:
        if isinstance(v, (SArr, Masked)):
            return v.lib
        if isinstance(v, (list, tuple)):
            l = lib_of(*v)
            if l is not None:
                return l
    return None


def as_arr(v, lib=None):
    """Any value as an SArr."""
    if isinstance(v, SArr):
        return v
    if isinstance(v, Masked):
        raise Unsupported('selected elements used as an ordinary array')
    if isinstance(v, (Sym, bool, int, float, Fraction, np.generic)):
        return scalar0(term(v), kind_dtype(v), lib or NP, exact=not is_float(v))
    if isinstance(v, np.ndarray):
        return from_concrete(v)
    if isinstance(v, (list, tuple)):
        return stack_list(list(v), lib or lib_of(*v) or NP)
    if isinstance(v, SymSeq):
        return seq_array(v)
    if isinstance(v, SymRange):
        return new((v.count(),), lambda i: v.elem(i[0]), I8)
    raise Unsupported(f'array from {type(v).__name__}')


def from_concrete(a):
    if a.dtype == object or a.dtype.kind in 'fiub':
        def fn(idx, a=a):
            ii = []
            for t in idx:
                t = machine().norm(t)
                if t.op != 'num':
                    return table(a, ii, idx[len(ii):])
                ii.append(int(t.args[0]))
            return term(a[tuple(ii)].item() if a.ndim else a.item())
        return new(tuple(num(d) for d in a.shape), fn, a.dtype, NP)
    raise Unsupported('concrete array of an unknown type')


def table(a, fixed, rest):
    t = machine().norm(rest[0])
    sub_ = a[tuple(fixed)] if fixed else a
    if len(rest) > 1:
        raise Unsupported('symbolic index into a concrete matrix')
    r = None
    for k in range(sub_.shape[0] - 1, -1, -1):
        v = term(sub_[k].item())
        r = v if r is None else ite(eq(t, num(k)), v, r)
    if r is None:
        raise Unsupported('empty table')
    return r


def is_float(v):
    return isinstance(v, (float, np.floating)) or isinstance(v, Sym) and v.kind == 'float'


def kind_dtype(v):
    if isinstance(v, (bool, np.bool_)) or isinstance(v, Sym) and v.kind == 'bool':
        return B1
    if isinstance(v, (int, np.integer)) or isinstance(v, Sym) and v.kind == 'int':
        return I8
    if isinstance(v, Fraction):
        return OBJ
    return F8


def pydim(d):
    """A dimension as a Python number."""
    return mk(dsize(d), 'int')


def shape_of(a):
    return tuple(pydim(d) for d in a.shape)


def to_dim(v):
    if isinstance(v, Prod):
        return v
    return machine().norm(term(v))


def broadcast2(a, b):
    m = machine()
    if same_dim(a, b):
        return a
    if is_one(a):
        return b
    if is_one(b):
        return a
    sa, sb = dsize(a), dsize(b)
    if m.truth(eq(sa, sb)):
        return a
    if m.truth(eq(sa, ONE)):
        return b
    if m.truth(eq(sb, ONE)):
        return a
    raise PyExc(ValueError('operands could not be broadcast together'))


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = ONE
        for s in shapes:
            j = k - nd + len(s)
            if j >= 0:
                d = broadcast2(d, s[j])
        out.append(d)
    return tuple(out)


def breader(a, shape):
    """Read array a with an index of the broadcast shape."""
    f = a.snap()
    nd, na = len(shape), len(a.shape)
    sel = []
    for j in range(na):
        k = j + nd - na
        if isinstance(a.shape[j], Prod):
            sel.append((k, False))
        else:
            sel.append((k, is_one(a.shape[j]) and not is_one(shape[k])))
    return lambda idx: f(tuple(ZERO if one else idx[k] for k, one in sel))


def result_dtype(vs):
    ds = []
    weak_float = weak_int = False
    for v in vs:
        if isinstance(v, (SArr, Masked)):
            ds.append(v.dtype)
        elif is_float(v):
            weak_float = True
        elif isinstance(v, Fraction):
            ds.append(OBJ)
        elif isinstance(v, (bool, np.bool_)) or isinstance(v, Sym) and v.kind == 'bool':
            pass
        else:
            weak_int = True
    if any(d == OBJ for d in ds):
        return OBJ
    if not ds:
        return F8 if weak_float else I8 if weak_int else B1
    d = np.result_type(*ds)
    if weak_float and d.kind in 'iub':
        d = F8
    elif weak_int and d.kind == 'b':
        d = I8
    return d


def exact_of(vs):
    return all((v.exact and (v.dtype.kind in 'iub' or v.dtype == OBJ)) if isinstance(v, (SArr, Masked)) else not is_float(v) for v in vs)


def note_wrap(dt, vs, what):
    if dt.kind in 'iu' and any(isinstance(v, SArr) and v.data and v.dtype.kind in 'iu' for v in vs):
        machine().events.append(f'integer {what} on the data may wrap around')


def elementwise(fn, vs, dtype=None, what='', keep_data=True, nan=None):
    """fn on terms, element by element, with broadcasting."""
    if any(isinstance(v, Masked) for v in vs):
        return masked_elementwise(fn, vs, dtype)
    lib = lib_of(*vs) or NP
    arrs = [as_arr(v, lib) for v in vs]
    dt = result_dtype(vs) if dtype is None else np.dtype(dtype)
    if what:
        note_wrap(dt, vs, what)
    shape = bshape(*[a.shape for a in arrs])
    rd = [breader(a, shape) for a in arrs]
    sc = lib is NP and shape == () and all(a.shape == () for a in arrs)
    data = keep_data and any(isinstance(v, SArr) and v.data for v in vs) and dt.kind in 'iu'
    ex = exact_of(vs) if dt == OBJ else True
    r = new(shape, lambda idx: fn(*[g(idx) for g in rd]), dt, lib, scalar=sc, data=data, exact=ex)
    nans = [(g, a) for g, a in zip(rd, arrs) if a.nan is not None]
    if nan is not None:
        r.nan = lambda idx: nan(*[g(idx) for g in rd])
    if nans:
        own = r.nan
        maps = [breader_nan(a, shape) for _, a in nans]
        r.nan = lambda idx: bor(*([own(idx)] if own else []), *[g(idx) for g in maps])
    return r


def breader_nan(a, shape):
    f = a.nan
    nd, na = len(shape), len(a.shape)
    sel = []
    for j in range(na):
        k = j + nd - na
        sel.append((k, not isinstance(a.shape[j], Prod) and is_one(a.shape[j]) and not is_one(shape[k])))
    return lambda idx: f(tuple(ZERO if one else idx[k] for k, one in sel))


def masked_elementwise(fn, vs, dtype):
    ms = [v for v in vs if isinstance(v, Masked)]
    m0 = ms[0]
    for v in vs:
        if isinstance(v, Masked) and v is not m0 and (v.dims != m0.dims or v.mask is not m0.mask):
            raise Unsupported('two different selections combined')
        if isinstance(v, SArr) and v.shape != ():
            raise Unsupported('selection combined with an array')
    fs = [v.value if isinstance(v, Masked) else (lambda idx, t=term(v): t) for v in vs]
    return Masked(m0.dims, lambda idx: fn(*[f(idx) for f in fs]), m0.mask, result_dtype(vs) if dtype is None else dtype, m0.lib,
                  exact_of(vs))


def all_idx(arr_shape):
    idx, bs = [], []
    for d in arr_shape:
        i = dfresh(d)
        idx.append(i)
        bs += dbind(d, i)
    return tuple(idx), bs


def for_all(shape, cond):
    idx, bs = all_idx(shape)
    c = cond(idx)
    if c is TRUE:
        return TRUE
    bs = [(b, z) for b, z in bs if b in free(c)]
    return forall(tuple(bs), c) if bs else c


# ---------------------------------------------------------------- arithmetic
def num_add(a, b):
    return add(b2r(a), b2r(b))


def num_sub(a, b):
    return sub(b2r(a), b2r(b))


def num_mul(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return band(a, b)
    return mul(b2r(a), b2r(b))


def check_div(vs, what='division'):
    m = machine()
    den = vs[1]
    if isinstance(den, Masked):
        return None
    if isinstance(den, SArr) and den.shape != ():
        f = den.snap()
        goal = for_all(den.shape, lambda idx: ne(b2r(f(idx)), ZERO))
    else:
        goal = ne(nterm(den), ZERO)
    if goal is TRUE:
        return None
    if m.errstate:
        # division by zero is silent here; it must give NaN (0/0), never an infinite value
        arrs = [as_arr(v) for v in vs]
        shape = bshape(*[a.shape for a in arrs])
        ra, rb = [breader(a, shape) for a in arrs]
        na = breader_nan(arrs[0], shape) if arrs[0].nan is not None else (lambda idx: FALSE)
        m.obligation('div', f'{what}: a zero divisor only with a zero dividend',
                     for_all(shape, lambda idx: bor(ne(b2r(rb(idx)), ZERO), eq(b2r(ra(idx)), ZERO), na(idx))))
        return lambda a, b: eq(b2r(b), ZERO)
    m.obligation('div', f'{what}: divisor is not zero', goal)
    return None


def pow_terms(a, b, intbase=False):
    a, b = b2r(a), b2r(b)
    if b.op == 'num' and b.args[0].denominator == 1:
        return ipow(a, int(b.args[0]))
    if a is TWO:
        return pow2(b)
    if b.op == 'num' and b.args[0] == Fraction(1, 2):
        return rpow(a, b)
    return rpow(a, b)


def nonneg_known(t):
    """Syntactically >= 0, squares included."""
    if nonneg_syn(t):
        return True
    if t.op == 'mul':
        from collections import Counter
        c = Counter(t.args)
        return all(k % 2 == 0 or nonneg_known(s) for s, k in c.items())
    if t.op == 'add':
        return all(nonneg_known(s) for s in t.args)
    if t.op == 'sum':
        return nonneg_known(t.args[2])
    if t.op == 'ite':
        return nonneg_known(t.args[1]) and nonneg_known(t.args[2])
    return False


def check_nonneg(v, what):
    m = machine()
    if isinstance(v, SArr) and v.shape != ():
        f = v.snap()
        idx, bs = all_idx(v.shape)
        t = f(idx)
        if nonneg_known(t):
            return
        m.obligation('root', f'{what}: argument is not negative', for_all(v.shape, lambda i: le(ZERO, b2r(f(i)))))
    else:
        t = nterm(v)
        if nonneg_known(t):
            return
        m.obligation('root', f'{what}: argument is not negative', le(ZERO, t))


def op_pow(a, b):
    bt = None
    if is_number(b):
        bt = nterm(b)
    if bt is not None and not (bt.op == 'num' and bt.args[0].denominator == 1):
        at = nterm(a) if is_number(a) else None
        if at is not TWO:
            check_nonneg(a, 'power')
    if bt is not None and bt.op == 'num' and bt.args[0] < 0:
        check_div((a, a), 'negative power')
    dt = result_dtype((a, b))
    if isinstance(a, SArr) and a.dtype == OBJ and bt is not None and not (bt.op == 'num' and bt.args[0].denominator == 1):
        r = elementwise(pow_terms, (a, b), OBJ)
        r.exact = False
        return r
    if isinstance(b, float) and dt == OBJ:
        r = elementwise(pow_terms, (a, b), OBJ)
        r.exact = False
        return r
    return elementwise(pow_terms, (a, b), dt, what='power')


def op_div(a, b):
    if machine().ieee:
        r = ieee_div(a, b)
        if r is not None:
            return r
    nanc = check_div((a, b))
    dt = result_dtype((a, b))
    if dt.kind in 'iub':
        dt = F8
    return elementwise(lambda p, q: div(b2r(p), b2r(q)), (a, b), dt, keep_data=False, nan=nanc)


def ieee_div(a, b):
    """Division of floating point scalars by 0: by cases."""
    arrs = [as_arr(v) for v in (a, b)]
    if any(v.shape != () or v.nan is not None for v in arrs) or result_dtype((a, b)).kind != 'f':
        return None
    m = machine()
    p, q = (b2r(v.at(())) for v in arrs)
    if not m.truth(eq(q, ZERO), 400):
        return None
    if m.truth(lt(ZERO, p), 400):
        return float('inf')
    return -float('inf') if m.truth(lt(p, ZERO), 400) else float('nan')


def cmp_dtype(fn, a, b):
    return elementwise(lambda p, q: fn(b2r(p), b2r(q)) if not (p.sort == 'B' and q.sort == 'B' and fn is eq) else eq(p, q), (a, b), B1, keep_data=False)


ARR_OPS = {
    '+': lambda a, b: elementwise(lambda p, q: bor(p, q) if p.sort == q.sort == 'B' else num_add(p, q), (a, b), what='addition'),
    '-': lambda a, b: elementwise(num_sub, (a, b), what='subtraction'),
    '*': lambda a, b: elementwise(num_mul, (a, b), what='product'),
    '/': op_div,
    '**': op_pow,
    '//': lambda a, b: elementwise(lambda p, q: floordiv(b2r(p), b2r(q)), (a, b), what='division'),
    '%': lambda a, b: elementwise(lambda p, q: mod(b2r(p), b2r(q)), (a, b)),
    '@': lambda a, b: np_matmul(a, b),
    '<': lambda a, b: cmp_dtype(lt, a, b),
    '<=': lambda a, b: cmp_dtype(le, a, b),
    '>': lambda a, b: cmp_dtype(lambda p, q: lt(q, p), a, b),
    '>=': lambda a, b: cmp_dtype(lambda p, q: le(q, p), a, b),
    '==': lambda a, b: cmp_dtype(eq, a, b),
    '!=': lambda a, b: cmp_dtype(ne, a, b),
    '&': lambda a, b: elementwise(lambda p, q: band(p, q), (a, b), B1),
    '|': lambda a, b: elementwise(lambda p, q: bor(p, q), (a, b), B1),
    '^': lambda a, b: elementwise(lambda p, q: bor(band(p, bnot(q)), band(bnot(p), q)), (a, b), B1),
}


def sym_binop(op, a, b):
    """Python numbers, at least one symbolic."""
    m = machine()
    ta, tb = nterm(a), nterm(b)
    fl = is_float(a) or is_float(b)
    kind = 'float' if fl else 'int'
    if op == '+':
        r = add(ta, tb)
    elif op == '-':
        r = sub(ta, tb)
    elif op == '*':
        r = mul(ta, tb)
    elif op == '/':
        m.obligation('div', 'division: divisor is not zero', ne(tb, ZERO))
        r, kind = div(ta, tb), 'float'
    elif op == '//':
        m.obligation('div', 'division: divisor is not zero', ne(tb, ZERO))
        r = floordiv(ta, tb)
    elif op == '%':
        r = mod(ta, tb)
    elif op == '**':
        if tb.op == 'num' and tb.args[0].denominator == 1:
            k = int(tb.args[0])
            if k < 0:
                m.obligation('div', 'negative power of zero', ne(ta, ZERO))
                kind = 'float'
            r = ipow(ta, k)
        elif ta is TWO:
            r = pow2(tb)
        else:
            if not nonneg_known(ta):
                m.obligation('root', 'power: base is not negative', le(ZERO, ta))
            r, kind = rpow(ta, tb), 'float'
    elif op in ('<', '<=', '>', '>=', '==', '!='):
        f = {'<': lt, '<=': le, '>': lambda p, q: lt(q, p), '>=': lambda p, q: le(q, p), '==': eq, '!=': ne}[op]
        return mk(f(ta, tb), 'bool')
    elif op == '<<':
        r = mul(ta, pow2(tb))
    elif op == '>>':
        r = floordiv(ta, pow2(tb))
    elif op in ('&', '|') and term(a).sort == 'B' and term(b).sort == 'B':
        return mk((band if op == '&' else bor)(term(a), term(b)), 'bool')
    elif op == '&' and tb is ONE:
        r = mod(ta, TWO)
    else:
        raise Unsupported(f'operator {op} on symbolic numbers')
    if m.compiled and kind == 'int' and op in ('*', '**', '<<'):
        m.obligation('overflow', f'64 bit integer {op}', band(lt(r, num(2 ** 63)), lt(num(-2 ** 63), r)))
    return mk(r, kind)


# ---------------------------------------------------------------- reductions
def norm_axis(axis, nd):
    if isinstance(axis, Sym):
        raise Unsupported('symbolic axis')
    if axis < 0:
        axis += nd
    return axis


def reduce_axes(a, axis):
    nd = a.ndim
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, tuple):
        return tuple(norm_axis(x, nd) for x in axis)
    return (norm_axis(axis, nd),)


def reduce_with(a, axis, keepdims, build, dtype, exact=True, data=False):
    """build(list of (binder, size), body) for each kept index."""
    ax = reduce_axes(a, axis)
    f = a.snap()
    keep = [k for k in range(a.ndim) if k not in ax]
    shape = tuple(ONE if k in ax else a.shape[k] for k in range(a.ndim)) if keepdims else tuple(a.shape[k] for k in keep)

    def fn(idx):
        full = [None] * a.ndim
        if keepdims:
            for k in keep:
                full[k] = idx[k]
        else:
            for p, k in enumerate(keep):
                full[k] = idx[p]
        bs = []
        for k in ax:
            i = dfresh(a.shape[k])
            full[k] = i
            bs += dbind(a.shape[k], i)
        return build(bs, f(tuple(full)))

    if shape == ():
        return scalar0(fn(()), dtype, a.lib, exact, data)
    return new(shape, fn, dtype, a.lib, exact=exact, data=data)


def build_sum(bs, body):
    r = b2r(body)
    for b, z in reversed(bs):
        r = summ(b, z, r)
    return r


def count_axes(a, axis):
    return mul(*[dsize(a.shape[k]) for k in reduce_axes(a, axis)])


@prim('np.sum')
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **kw):
    if isinstance(a, Masked):
        return scalar0(a.total(), a.dtype, a.lib, a.exact)
    a = as_arr(a)
    dt = I8 if a.dtype.kind in 'b' else a.dtype
    if a.dtype.kind in 'iu':
        dt = np.result_type(a.dtype, I8)
    note_wrap(dt, (a,), 'sum')
    if dtype is not None:
        dt = np.dtype(dtype)
    if out is not None:
        raise Unsupported('out argument')
    r = reduce_with(a, axis, keepdims, build_sum, dt, a.exact, a.data)
    if initial is not None:
        r = ARR_OPS['+'](r, initial)
    return r


@prim('np.mean', 'np.average')
def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(a, Masked):
        machine().obligation('div', 'mean of an empty selection', ne(a.count(), ZERO))
        return scalar0(div(a.total(), a.count()), a.dtype if a.dtype.kind in 'fO' else F8, a.lib, a.exact)
    if kw:
        raise Unsupported('mean options')
    a = as_arr(a)
    dt = F8 if a.dtype.kind in 'iub' else a.dtype
    c = count_axes(a, axis)
    machine().obligation('div', 'mean of an empty array', ne(c, ZERO))
    return reduce_with(a, axis, keepdims, lambda bs, t: div(build_sum(bs, t), c), dt, a.exact)


@prim('np.var')
def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None, **kw):
    a = as_arr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('variance along an axis')
    c = count_axes(a, None)
    f = a.snap()
    mean = div(build_sum(*(lambda i: (i[1], f(i[0])))(all_idx(a.shape))), c)
    idx, bs = all_idx(a.shape)
    t = build_sum(bs, ipow(sub(f(idx), mean), 2))
    d = sub(c, nterm(ddof if correction is None else correction))
    machine().obligation('div', 'variance of an empty array', ne(d, ZERO))
    return scalar0(div(t, d), F8 if a.dtype.kind in 'iub' else a.dtype, a.lib, a.exact)


@prim('np.std')
def np_std(a, *args, **kw):
    return np_sqrt(np_var(a, *args, **kw))


def minmax(op):
    def f(a, axis=None, out=None, keepdims=False, **kw):
        if isinstance(a, Masked):
            raise Unsupported('extreme of a selection')
        a = as_arr(a)
        c = count_axes(a, axis)
        machine().obligation('bounds', 'extreme of an empty array', lt(ZERO, c))

        def build(bs, t):
            r = b2r(t)
            for b, z in reversed(bs):
                r = (minof if op == 'min' else maxof)(b, z, r)
            return r
        r = reduce_with(a, axis, keepdims, build, a.dtype, a.exact, a.data)
        return r
    return f


PRIMS['np.min'] = PRIMS['np.amin'] = np_min = minmax('min')
PRIMS['np.max'] = PRIMS['np.amax'] = np_max = minmax('max')


@prim('np.prod')
def np_prod(a, *args, **kw):
    a = as_arr(a)
    if a.ndim == 1 and machine().norm(a.shape[0]).op == 'num':
        f = a.snap()
        return scalar0(mul(*[b2r(f((num(k),))) for k in range(int(machine().norm(a.shape[0]).args[0]))]), a.dtype, a.lib, a.exact)
    raise Unsupported('product of an array')


@prim('np.any', 'np.all')
def np_any(*a, **k):
    raise Unsupported('any/all of an array')


@prim('np.trace')
def np_trace(a, **kw):
    a = as_arr(a)
    f = a.snap()
    return scalar0(sum_fn(a.shape[0], lambda i: f((i, i))), a.dtype, a.lib, a.exact)


@prim('np.cumsum', 'np.cumulative_sum')
def np_cumsum(a, axis=None, dtype=None, **kw):
    a = as_arr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported('cumulative sum of a matrix')
    ax = norm_axis(axis if axis is not None else 0, a.ndim)
    f = a.snap()
    d = a.shape[ax]
    dt = np.result_type(a.dtype, I8) if a.dtype.kind in 'iub' else a.dtype

    def fn(idx):
        k = idx[ax]
        nk = machine().norm(k)
        if nk.op == 'num' and 0 <= nk.args[0] <= 8:
            return add(*[b2r(f(idx[:ax] + (num(q),) + idx[ax + 1:])) for q in range(int(nk.args[0]) + 1)])
        b = fresh('b')
        return summ(b, d, mul(ind(le(b, k)), b2r(f(idx[:ax] + (b,) + idx[ax + 1:]))))
    return new(a.shape, fn, dt, a.lib, exact=a.exact)


# ---------------------------------------------------------------- matrix products
@prim('np.matmul', 'np.dot', 'np.vecdot', 'np.inner')
def np_matmul(a, b, **kw):
    if is_number(a) or is_number(b):
        return ARR_OPS['*'](a, b)
    a, b = as_arr(a), as_arr(b)
    fa, fb = a.snap(), b.snap()
    dt = result_dtype((a, b))
    note_wrap(dt, (a, b), 'product')
    ex = exact_of((a, b)) if dt == OBJ else True
    d1, d2 = a.shape[-1], b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not same_dim(d1, d2):
        if not machine().truth(eq(dsize(d1), dsize(d2))):
            raise PyExc(ValueError('matmul: mismatch in the core dimension'))
        if isinstance(d1, Prod) or isinstance(d2, Prod):
            if not (isinstance(d1, Prod) and isinstance(d2, Prod) and len(d1.dims) == len(d2.dims)):
                raise Unsupported('product of differently flattened arrays')
            # equal products: decide the factors
            if not all(machine().truth(eq(p, q)) for p, q in zip(d1.dims, d2.dims)):
                raise Unsupported('product of differently flattened arrays')

    def inner(ga, gb):
        i = dfresh(d1)
        return build_sum(dbind(d1, i), mul(b2r(ga(i)), b2r(gb(i))))

    if a.ndim == 1 and b.ndim == 1:
        return scalar0(inner(lambda i: fa((i,)), lambda i: fb((i,))), dt, a.lib, ex)
    if a.ndim == 2 and b.ndim == 1:
        return new((a.shape[0],), lambda idx: inner(lambda i: fa((idx[0], i)), lambda i: fb((i,))), dt, a.lib, exact=ex)
    if a.ndim == 1 and b.ndim == 2:
        return new((b.shape[1],), lambda idx: inner(lambda i: fa((i,)), lambda i: fb((i, idx[0]))), dt, a.lib, exact=ex)
    if a.ndim == 2 and b.ndim == 2:
        return new((a.shape[0], b.shape[1]), lambda idx: inner(lambda i: fa((idx[0], i)), lambda i: fb((i, idx[1]))), dt, a.lib, exact=ex)
    raise Unsupported('product of higher dimensional arrays')


@prim('np.vdot')
def np_vdot(a, b):
    return np_sum(ARR_OPS['*'](a, b))


@prim('np.outer')
def np_outer(a, b, **kw):
    a, b = as_arr(a), as_arr(b)
    fa, fb = a.snap(), b.snap()
    return new((a.shape[0], b.shape[0]), lambda i: mul(fa((i[0],)), fb((i[1],))), result_dtype((a, b)), a.lib)


@prim('np.einsum')
def np_einsum(spec, *ops, **kw):
    ops = [as_arr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins) - {','})
        out = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            if c in dims and not same_dim(dims[c], d):
                if not machine().truth(eq(dsize(dims[c]), dsize(d))):
                    raise PyExc(ValueError('einsum: dimension mismatch'))
            dims.setdefault(c, d)
    fs = [o.snap() for o in ops]

    def fn(idx):
        env = dict(zip(out, idx))
        bs = []
        for c in dims:
            if c not in env:
                i = dfresh(dims[c])
                env[c] = i
                bs += dbind(dims[c], i)
        return build_sum(bs, mul(*[b2r(f(tuple(env[c] for c in s))) for f, s in zip(fs, ins)]))
    shape = tuple(dims[c] for c in out)
    dt = result_dtype(ops)
    return new(shape, fn, dt, ops[0].lib) if shape else scalar0(fn(()), dt, ops[0].lib)


@prim('np.transpose', 'np.permute_dims', 'np.matrix_transpose')
def np_transpose(a, axes=None):
    a = as_arr(a)
    order = list(range(a.ndim))[::-1] if axes is None else [norm_axis(k, a.ndim) for k in axes]
    pos = {k: p for p, k in enumerate(order)}
    ax = [(q[0], pos[q[1]], q[2], q[3]) if q[0] == 'ax' else q for q in a.axes]
    return a.view([a.shape[k] for k in order], ax)


# ---------------------------------------------------------------- elementwise functions
def unary(f, dtype=None):
    def g(a, *args, **kw):
        kw = {k: v for k, v in kw.items() if v is not None}
        if args or kw:
            raise Unsupported('options of an elementwise function')
        if isinstance(a, Sym):
            a = as_arr(a)
        return elementwise(f, (a,), dtype(a) if callable(dtype) else dtype)
    return g


def fdt(a):
    d = result_dtype((a,))
    return F8 if d.kind in 'iub' else d


PRIMS['np.abs'] = PRIMS['np.absolute'] = PRIMS['np.fabs'] = unary(lambda t: absv(b2r(t)))
PRIMS['np.negative'] = unary(lambda t: neg(b2r(t)))
PRIMS['np.positive'] = unary(lambda t: t)
PRIMS['np.square'] = lambda a, **k: op_pow(a, 2)
PRIMS['np.floor'] = unary(lambda t: floor(b2r(t)), fdt)
PRIMS['np.ceil'] = unary(lambda t: ceil(b2r(t)), fdt)
PRIMS['np.log2'] = unary(lambda t: log2(b2r(t)), fdt)
PRIMS['np.logical_not'] = PRIMS['np.invert'] = PRIMS['np.bitwise_invert'] = unary(lambda t: bnot(t), B1)
PRIMS['np.sign'] = unary(lambda t: sub(ind(lt(ZERO, t)), ind(lt(t, ZERO))))
for nm, o in dict(add='+', subtract='-', multiply='*', divide='/', true_divide='/', power='**', pow='**', less='<', less_equal='<=',
                  greater='>', greater_equal='>=', equal='==', not_equal='!=', logical_and='&', logical_or='|',
                  bitwise_and='&', bitwise_or='|', remainder='%', mod='%', floor_divide='//', float_power='**').items():
    def _mk(o):
        def f(a, b, out=None, where=None, **kw):
            if where is not None:
                raise Unsupported('where option')
            r = ARR_OPS[o](a, b)
            if out is not None:
                assign(out, r)
                return out
            return r
        return f
    PRIMS['np.' + nm] = _mk(o)


@prim('np.sqrt')
def np_sqrt(a, **kw):
    d = result_dtype((a,))
    if d == OBJ:
        raise PyExc(TypeError('loop of ufunc does not support argument 0 which has no callable sqrt method'))
    check_nonneg(a, 'square root')
    if isinstance(a, Masked):
        raise Unsupported('root of a selection')
    if isinstance(a, Sym):
        a = as_arr(a)
    return elementwise(lambda t: rpow(b2r(t), HALF), (a,), F8 if d.kind in 'iub' else d)


@prim('np.maximum')
def np_maximum(a, b, **kw):
    return elementwise(lambda p, q: ite(lt(p, q), q, p), (a, b))


@prim('np.minimum')
def np_minimum(a, b, **kw):
    return elementwise(lambda p, q: ite(lt(q, p), q, p), (a, b))


@prim('np.clip')
def np_clip(a, a_min=None, a_max=None, *args, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = elementwise(lambda p, q: ite(lt(p, q), q, p), (r, lo))
    if hi is not None:
        r = elementwise(lambda p, q: ite(lt(q, p), q, p), (r, hi))
    return r


@prim('np.where')
def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where with one argument')
    dt = result_dtype((a, b))
    return elementwise(lambda p, q, r: ite(p if p.sort == 'B' else ne(p, ZERO), q, r), (c, a, b), dt)


@prim('np.isnan')
def np_isnan(a):
    if isinstance(a, (Sym, float, int)):
        return False
    a = as_arr(a)
    if a.dtype == OBJ:
        raise PyExc(TypeError('isnan is not defined for objects'))
    f = a.nan
    if f is None:
        return new(a.shape, lambda idx: FALSE, B1, a.lib, scalar=a.scalar)
    return new(a.shape, f, B1, a.lib, scalar=a.scalar)


@prim('np.isfinite')
def np_isfinite(a):
    r = np_isnan(a)
    return PRIMS['np.logical_not'](r) if isinstance(r, SArr) else True


@prim('np.nan_to_num')
def np_nan_to_num(a, copy=True, nan=0.0, **kw):
    a = as_arr(a)
    f, g = a.snap(), a.nan
    t = term(nan)
    return new(a.shape, (lambda idx: ite(g(idx), t, f(idx))) if g else f, a.dtype, a.lib, scalar=a.scalar)


# ---------------------------------------------------------------- construction
def shape_arg(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(to_dim(s) for s in shape)
    if isinstance(shape, SArr):
        raise Unsupported('shape given by an array')
    return (to_dim(shape),)


def const_array(t):
    def f(shape, dtype=None, *args, **kw):
        dt = np.dtype(dtype) if dtype is not None else F8
        return new(shape_arg(shape), lambda idx: (TRUE if t is ONE else FALSE) if dt == B1 else t, dt, XP if kw.get('_lib') is XP else NP)
    return f


PRIMS['np.zeros'] = const_array(ZERO)
PRIMS['np.ones'] = const_array(ONE)


@prim('np.full')
def np_full(shape, fill_value, dtype=None, **kw):
    t = term(fill_value)
    return new(shape_arg(shape), lambda idx: t, dtype or kind_dtype(fill_value))


@prim('np.empty')
def np_empty(shape, dtype=None, **kw):
    nm = machine().fresh_name('uninit')
    prm = tuple(machine().loop_params)
    dt = np.dtype(dtype) if dtype is not None else F8
    return new(shape_arg(shape), lambda idx: app(nm, flat_idx(idx) + prm, 'B' if dt == B1 else 'I' if dt.kind in 'iu' else 'R'), dt)


def flat_idx(idx):
    out = ()
    for i in idx:
        out += i if isinstance(i, tuple) else (i,)
    return out


def like(t):
    def f(a, dtype=None, *args, **kw):
        a = as_arr(a)
        dt = np.dtype(dtype) if dtype is not None else a.dtype
        return new(a.shape, lambda idx: (TRUE if t is ONE else FALSE) if dt == B1 else t, dt, a.lib)
    return f


PRIMS['np.zeros_like'] = like(ZERO)
PRIMS['np.ones_like'] = like(ONE)


@prim('np.empty_like')
def np_empty_like(a, dtype=None, **kw):
    a = as_arr(a)
    r = np_empty(tuple(mk(dsize(d), 'int') for d in a.shape), dtype or a.dtype)
    r.lib = a.lib
    return r


@prim('np.full_like')
def np_full_like(a, fill_value, dtype=None, **kw):
    a = as_arr(a)
    t = term(fill_value)
    return new(a.shape, lambda idx: t, dtype or a.dtype, a.lib)


@prim('np.arange')
def np_arange(start, stop=None, step=1, dtype=None, **kw):
    if stop is None:
        start, stop = 0, start
    s0, s1, st = nterm(start), nterm(stop), nterm(step)
    fl = any(is_float(v) for v in (start, stop, step))
    cnt = sub(s1, s0) if st is ONE else ceil(div(sub(s1, s0), st))
    m = machine()
    cnt = m.norm(cnt)
    if cnt.op != 'num' and not m.valid(le(ZERO, cnt)):
        cnt = ite(lt(cnt, ZERO), ZERO, cnt)
    return new((cnt,), lambda idx: add(s0, mul(st, idx[0])), dtype or (F8 if fl else I8))


@prim('np.eye', 'np.identity')
def np_eye(n, m=None, k=0, dtype=None, *args, n_cols=None, **kw):
    d = to_dim(n)
    d2 = to_dim(m) if m is not None else to_dim(n_cols) if n_cols is not None else d
    dt = np.dtype(dtype) if dtype is not None else F8
    k = term(k)
    return new((d, d2), lambda i: eq(add(i[0], k), i[1]) if dt == B1 else ind(eq(add(i[0], k), i[1])), dt)


def tri_keep(upper):
    def f(a, k=0):
        a = as_arr(a)
        g = a.snap()
        kt = term(k)

        def fn(idx):
            i, j = idx[-2], idx[-1]
            c = le(add(i, kt), j) if upper else le(j, add(i, kt))
            v = g(idx)
            return band(c, v) if a.dtype == B1 else mul(ind(c), v)
        return new(a.shape, fn, a.dtype, a.lib, exact=a.exact)
    return f


PRIMS['np.triu'] = tri_keep(True)
PRIMS['np.tril'] = tri_keep(False)


@prim('np.tri')
def np_tri(n, m=None, k=0, dtype=float, **kw):
    d = to_dim(n)
    d2 = to_dim(m) if m is not None else d
    dt = np.dtype(dtype)
    kt = term(k)
    return new((d, d2), lambda i: le(i[1], add(i[0], kt)) if dt == B1 else ind(le(i[1], add(i[0], kt))), dt)


@prim('np.diag', 'np.diagonal')
def np_diag(a, **kw):
    a = as_arr(a)
    f = a.snap()
    if a.ndim == 2:
        return new((a.shape[0],), lambda i: f((i[0], i[0])), a.dtype, a.lib)
    return new((a.shape[0], a.shape[0]), lambda i: mul(ind(eq(i[0], i[1])), f((i[0],))), a.dtype, a.lib)


@prim('np.fill_diagonal')
def np_fill_diagonal(a, val, wrap=False):
    t = term(val)
    a.write(lambda idx: eq(idx[0], idx[1]), lambda idx: t)


@prim('np.asarray', 'np.array', 'np.asanyarray', 'np.ascontiguousarray', 'np.asfortranarray', 'np.require')
def np_asarray(a, dtype=None, *args, copy=None, _copy_default=False, **kw):
    if isinstance(a, Masked):
        return a
    was = a
    a = as_arr(a)
    if dtype is not None:
        return cast(a, np.dtype(dtype), copy=bool(copy))
    if a.scalar or not isinstance(was, SArr):
        r = a.copy()
        r.scalar = False
        return r
    if copy or _copy_default and copy is None:
        return a.copy()
    return a


PRIMS['np.array'] = lambda a, dtype=None, copy=True, **kw: np_asarray(a, dtype, copy=copy)


@prim('np.copy')
def np_copy(a, **kw):
    return as_arr(a).copy()


def cast(a, dt, copy=True):
    if a.dtype == dt and not copy:
        return a
    f = a.snap()
    src = a.dtype

    def conv(t):
        if dt.kind in 'iu' and src.kind == 'f':
            # truncation; the values are integers or the floor is taken explicitly
            if isint(t):
                return t
            return ite(le(ZERO, t), floor(t), ceil(t))
        if dt.kind == 'b':
            return t if t.sort == 'B' else ne(t, ZERO)
        return b2r(t)
    r = new(a.shape, lambda idx: conv(f(idx)), dt, a.lib, scalar=a.scalar, data=a.data and dt.kind in 'iu')
    r.exact = a.exact and dt.kind != 'f'
    if dt.kind in 'iu' and a.data and src.kind in 'iu' and dt.itemsize < src.itemsize:
        machine().events.append('narrowing conversion of the data')
    if dt.kind == 'f' and dt.itemsize < 8:
        machine().events.append('conversion of the data to a shorter floating point type')
    return r


@prim('np.astype')
def np_astype(a, dtype, copy=True, **kw):
    return cast(as_arr(a), np.dtype(dtype), True)


@prim('np.float64', 'np.double')
def np_float64(v=0.0):
    return scalar0(nterm(v), F8)


@prim('np.int64')
def np_int64(v=0):
    t = nterm(v)
    return scalar0(t if isint(t) else ite(le(ZERO, t), floor(t), ceil(t)), I8)


@prim('np.expand_dims')
def np_expand_dims(a, axis=0):
    a = as_arr(a)
    if isinstance(axis, tuple):
        raise Unsupported('expand_dims with several axes')
    ax = axis if axis >= 0 else axis + a.ndim + 1
    shape = list(a.shape)
    shape.insert(ax, ONE)
    axes = [(q[0], q[1] + (1 if q[1] >= ax else 0), q[2], q[3]) if q[0] == 'ax' else q for q in a.axes]
    return a.view(shape, axes)


@prim('np.squeeze')
def np_squeeze(a, axis=None):
    a = as_arr(a)
    if axis is None:
        ks = [k for k, d in enumerate(a.shape) if is_one(d)]
    else:
        ks = [norm_axis(k, a.ndim) for k in (axis if isinstance(axis, tuple) else (axis,))]
        for k in ks:
            if not machine().truth(eq(dsize(a.shape[k]), ONE)):
                raise PyExc(ValueError('cannot select an axis to squeeze out which has size not equal to one'))
    return drop_axes(a, ks)


def drop_axes(a, ks):
    keep = [k for k in range(a.ndim) if k not in ks]
    pos = {k: p for p, k in enumerate(keep)}
    axes = []
    for q in a.axes:
        if q[0] == 'ax' and q[1] in ks:
            axes.append(('fix', q[2]))
        elif q[0] == 'ax':
            axes.append((q[0], pos[q[1]], q[2], q[3]))
        else:
            axes.append(q)
    return a.view([a.shape[k] for k in keep], axes)


@prim('np.reshape')
def np_reshape(a, shape=None, *args, newshape=None, **kw):
    if shape is None:
        shape = newshape
    a = as_arr(a)
    m = machine()
    if not isinstance(shape, (tuple, list)):
        if a.lib is XP:
            raise PyExc(TypeError('`shape` must be a tuple of ints'))
        shape = (shape,)
    if len(shape) == 1 and not isinstance(shape[0], Sym) and shape[0] == -1:
        return flatten(a)
    dims = []
    minus = None
    for k, s in enumerate(shape):
        if not isinstance(s, Sym) and s == -1:
            minus = k
            dims.append(None)
        else:
            dims.append(to_dim(s))
    src = [d for d in a.shape]
    if minus is not None:
        rest = [d for d in dims if d is not None and m.norm(d) is not ONE]
        left = [d for d in src if not is_one(d)]
        for d in rest:
            for q in left:
                if same_dim(q, d):
                    left.remove(q)
                    break
            else:
                raise Unsupported('reshape with an unknown dimension')
        if len(left) > 1:
            raise Unsupported('reshape with an unknown dimension')
        dims[minus] = left[0] if left else ONE
    # same dimensions apart from ones: a view
    s1 = [k for k, d in enumerate(src) if not is_one(d)]
    s2 = [k for k, d in enumerate(dims) if m.norm(dsize(d)) is not ONE]
    if len(s1) == len(s2) and all(same_dim(src[p], dims[q]) for p, q in zip(s1, s2)):
        pos = dict(zip(s1, s2))
        axes = []
        for q in a.axes:
            if q[0] == 'ax' and q[1] in pos:
                axes.append((q[0], pos[q[1]], q[2], q[3]))
            elif q[0] == 'ax':
                axes.append(('fix', q[2]))
            else:
                axes.append(q)
        return a.view([d if is_one(d) else src[s1[s2.index(k)]] if k in s2 else d for k, d in enumerate(dims)], axes)
    if a.ndim == 1 and len(dims) == 2 and not isinstance(src[0], Prod):
        f = a.snap()
        d0, d1 = dims
        if not m.valid(eq(src[0], mul(d0, d1))) and nf(sub(src[0], mul(d0, d1)), m.ctx()):
            raise Unsupported('reshape of a vector')
        r = new(dims, lambda i: f((add(mul(i[0], d1), i[1]),)), a.dtype, a.lib, exact=a.exact, data=a.data)
        r.cell.frozen = a.cell.frozen
        r.cell.name = a.cell.name
        if a.cell.twin is not None:
            raise Unsupported('reshape of a vector in two shapes')
        a.cell.twin, r.cell.twin = r.cell, a.cell
        return r
    if a.ndim == 1 and isinstance(src[0], Prod) and len(dims) == len(src[0].dims) and all(same_dim(p, q) for p, q in zip(src[0].dims, dims)):
        f = a.snap()
        r = new(dims, lambda i: f((tuple(i),)), a.dtype, a.lib, exact=a.exact, data=a.data)
        r.cell.opaque = True
        return r
    raise Unsupported('reshape')


def flatten(a):
    ks = [k for k, d in enumerate(a.shape) if not is_one(d)]
    if len(ks) == 0:
        r = drop_axes(a, list(range(a.ndim)))
        f = r.snap()
        return new((ONE,), lambda i: f(()), a.dtype, a.lib, exact=a.exact, data=a.data)
    if len(ks) == 1:
        return drop_axes(a, [k for k in range(a.ndim) if k not in ks])
    f = drop_axes(a, [k for k in range(a.ndim) if k not in ks]).snap()
    dims = []
    for k in ks:
        d = a.shape[k]
        dims += list(d.dims) if isinstance(d, Prod) else [d]
    r = new((Prod(dims),), lambda i: f(regroup(i[0], [a.shape[k] for k in ks])), a.dtype, a.lib, exact=a.exact, data=a.data)
    r.cell.opaque = True
    return r


def regroup(i, dims):
    if not isinstance(i, tuple):
        raise Unsupported('plain index into a flattened array')
    out, p = [], 0
    for d in dims:
        if isinstance(d, Prod):
            out.append(tuple(i[p:p + len(d.dims)]))
            p += len(d.dims)
        else:
            out.append(i[p])
            p += 1
    return tuple(out)


@prim('np.ravel')
def np_ravel(a, *args, **kw):
    return flatten(as_arr(a))


@prim('np.broadcast_to')
def np_broadcast_to(a, shape):
    a = as_arr(a)
    sh = tuple(to_dim(s) for s in shape)
    r = breader(a, sh)
    return new(sh, r, a.dtype, a.lib)


def choose(idx, fs):
    """fs[k](...) for a possibly symbolic position."""
    idx = machine().norm(idx)
    if idx.op == 'num':
        return fs[int(idx.args[0])]()
    r = fs[-1]()
    for k in range(len(fs) - 2, -1, -1):
        r = ite(eq(idx, num(k)), fs[k](), r)
    return r


def stack_list(vs, lib=NP, axis=0):
    if not vs:
        return new((ZERO,), lambda i: ZERO, F8, lib)
    arrs = [as_arr(v, lib) for v in vs]
    shape = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(shape):
            raise PyExc(ValueError('all input arrays must have the same shape'))
        for p, q in zip(a.shape, shape):
            if not same_dim(p, q) and not machine().truth(eq(dsize(p), dsize(q))):
                raise PyExc(ValueError('all input arrays must have the same shape'))
    fs = [a.snap() for a in arrs]
    ax = axis if axis >= 0 else axis + len(shape) + 1
    out = list(shape)
    out.insert(ax, num(len(arrs)))

    def fn(idx):
        rest = idx[:ax] + idx[ax + 1:]
        return choose(idx[ax], [lambda f=f: b2r(f(rest)) for f in fs])
    dt = result_dtype([v if isinstance(v, SArr) else v for v in vs])
    ex = all(a.exact for a in arrs)
    return new(tuple(out), fn, dt, lib, exact=ex, data=any(a.data for a in arrs))


def seq_array(v, axis=0):
    i = fresh('q')
    e = as_arr(v.elem(i))
    f = e.snap()
    if axis != 0:
        raise Unsupported('stack of a sequence along another axis')
    return new((v.size,) + e.shape, lambda idx: subst(f(idx[1:]), {i: idx[0]}), e.dtype, e.lib, exact=e.exact)


@prim('np.stack')
def np_stack(vs, axis=0, **kw):
    if isinstance(vs, SymSeq):
        return seq_array(vs, axis)
    vs = list(vs) if not isinstance(vs, SArr) else vs
    if isinstance(vs, SArr):
        return vs.copy()
    return stack_list(vs, lib_of(*vs) or NP, axis)


@prim('np.column_stack')
def np_column_stack(vs, **kw):
    vs = [as_arr(v) for v in vs]
    if all(v.ndim == 1 for v in vs):
        return stack_list(vs, lib_of(*vs), 1)
    raise Unsupported('column_stack of matrices')


@prim('np.vstack')
def np_vstack(vs, **kw):
    vs = [as_arr(v) for v in vs]
    if all(v.ndim == 1 for v in vs):
        return stack_list(vs, lib_of(*vs), 0)
    return np_concat(vs)


@prim('np.concat', 'np.concatenate')
def np_concat(vs, axis=0, **kw):
    if isinstance(vs, SymSeq):
        raise Unsupported('concatenation of a sequence')
    arrs = [as_arr(v) for v in vs]
    if axis is None:
        raise Unsupported('flat concatenation')
    ax = norm_axis(axis, arrs[0].ndim)
    m = machine()
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim:
            raise PyExc(ValueError('all the input arrays must have same number of dimensions'))
        for k in range(a.ndim):
            if k != ax and not same_dim(a.shape[k], arrs[0].shape[k]) and not m.truth(eq(dsize(a.shape[k]), dsize(arrs[0].shape[k]))):
                raise PyExc(ValueError('all the input array dimensions must match exactly'))
    offs = [ZERO]
    for a in arrs:
        offs.append(add(offs[-1], dsize(a.shape[ax])))
    fs = [a.snap() for a in arrs]

    def fn(idx):
        i = idx[ax]
        r = None
        for k in range(len(fs) - 1, -1, -1):
            v = b2r(fs[k](idx[:ax] + (sub(i, offs[k]),) + idx[ax + 1:]))
            r = v if r is None else ite(lt(i, offs[k + 1]), v, r)
        return r
    shape = list(arrs[0].shape)
    shape[ax] = m.norm(offs[-1])
    return new(tuple(shape), fn, result_dtype(arrs), arrs[0].lib, exact=all(a.exact for a in arrs), data=any(a.data for a in arrs))


# ---------------------------------------------------------------- sorting and permutations
def perm_array(name, size, lib=NP, params=()):
    return new((size,), lambda idx: perm('P:' + name, idx[0], *params), I8, lib)


@prim('np.argsort')
def np_argsort(a, axis=-1, kind=None, *args, **kw):
    a = as_arr(a)
    if a.ndim != 1 or args:
        raise Unsupported('argsort of a matrix')
    if kw.get('descending'):
        raise Unsupported('descending argsort')
    m = machine()
    if m.loop_params:
        raise Unsupported('argsort inside of a loop')
    f = a.snap()
    # equal arrays, sorted by the same algorithm, have the same order
    probe = var('#probe')
    key = nf(f((probe,)), m.ctx())
    for nm, (sz, kf, kk) in m_argsorts().items():
        if kk == key and same_dim(sz, a.shape[0]):
            return perm_array(nm, a.shape[0], a.lib)
    name = m.fresh_name('s')
    m.perms.add(name, a.shape[0], lambda t: f((t,)))
    m_argsorts()[name] = (a.shape[0], f, key)
    return perm_array(name, a.shape[0], a.lib)


def m_argsorts():
    m = machine()
    if not hasattr(m, 'argsorts'):
        m.argsorts = {}
    return m.argsorts


@prim('np.sort')
def np_sort(a, *args, **kw):
    a = as_arr(a)
    return getitem(a, np_argsort(a))


@prim('np.take')
def np_take(a, indices, axis=None, **kw):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('take from a flattened array')
        axis = 0
    ax = norm_axis(axis, a.ndim)
    key = [slice(None)] * a.ndim
    key[ax] = indices
    return getitem(a, tuple(key))


@prim('np.ix_')
def np_ix(*args):
    if len(args) != 2:
        raise Unsupported('ix_')
    return (getitem(as_arr(args[0]), (slice(None), None)), getitem(as_arr(args[1]), (None, slice(None))))


@prim('np.flip')
def np_flip(a, axis=None):
    a = as_arr(a)
    if a.ndim == 1:
        return getitem(a, slice(None, None, -1))
    raise Unsupported('flip')


# ---------------------------------------------------------------- indexing
def index_kind(k):
    if k is None or k is Ellipsis or isinstance(k, slice):
        return 'basic'
    if isinstance(k, (int, np.integer)) and not isinstance(k, bool):
        return 'basic'
    if isinstance(k, Sym):
        return 'basic'
    if isinstance(k, Masked):
        return 'masked'
    if isinstance(k, SArr):
        if k.dtype == B1:
            return 'mask'
        if k.shape == ():
            return 'basic'
        return 'fancy'
    if isinstance(k, (list, np.ndarray)):
        return 'fancy'
    raise Unsupported(f'index {type(k).__name__}')


def norm_index(i, d, what='index'):
    """An integer index as a term in [0, d)."""
    m = machine()
    t = m.norm(nterm(i))
    size = dsize(d)
    if t.op == 'num':
        if t.args[0] < 0:
            t = m.norm(add(size, t))
            m.obligation('bounds', what, le(ZERO, t))
        else:
            m.obligation('bounds', what, lt(t, size))
        return t
    if m.valid(lt(t, ZERO)):
        t = add(size, t)
    m.obligation('bounds', what, band(le(ZERO, t), lt(t, size)))
    return t


def norm_slice(s, d):
    """(offset, length, step)."""
    m = machine()
    n = m.norm(dsize(d))
    step = s.step if s.step is not None else 1
    if isinstance(step, Sym):
        raise Unsupported('symbolic step')
    if step == -1 and s.start is None and s.stop is None:
        return sub(n, ONE), n, -1
    if step != 1:
        if step > 1 and n.op == 'num' and all(v is None or isinstance(v, int) for v in (s.start, s.stop)):
            r = range(int(n.args[0]))[s]
            return num(r.start), num(len(r)), step
        raise Unsupported('slice with a step')

    def pos(v, default):
        if v is None:
            return default
        t = m.norm(nterm(v))
        if t.op == 'num' and t.args[0] < 0:
            t = m.norm(add(n, t))
            if t.op != 'num' and not m.valid(le(ZERO, t)):
                t = ite(lt(t, ZERO), ZERO, t)
            elif t.op == 'num' and t.args[0] < 0:
                t = ZERO
            return t
        if t is n or t is ZERO:
            return t
        if not (t.op == 'num' and t.args[0] >= 0) and not m.valid(le(ZERO, t)):
            raise Unsupported('slice bound of unknown sign')
        if m.valid(le(t, n)):
            return t
        if m.valid(le(n, t)):
            return n
        return ite(lt(t, n), t, n)
    a, b = pos(s.start, ZERO), pos(s.stop, n)
    ln = m.norm(sub(b, a))
    if a is not ZERO and ln.op != 'num' and not m.valid(le(ZERO, ln)):
        ln = ite(lt(ln, ZERO), ZERO, ln)
    elif ln.op == 'num' and ln.args[0] < 0:
        ln = ZERO
    return a, ln, 1


def getitem(a, key):
    if isinstance(a, Masked):
        raise Unsupported('index into selected elements')
    if not isinstance(key, tuple):
        key = (key,)
    if len(key) == 1 and isinstance(key[0], Masked):
        k = key[0]
        f = a.snap()
        if a.ndim != 1:
            raise Unsupported('selection in a matrix')
        idx, bs = [], []
        n = dsize(a.shape[0])
        ii, bs = all_idx(k.dims)
        machine().obligation('bounds', 'selected indices', forall(tuple(bs), implies(k.mask(ii), band(le(ZERO, k.value(ii)), lt(k.value(ii), n)))))
        return Masked(k.dims, lambda i: f((k.value(i),)), k.mask, a.dtype, a.lib, a.exact)
    kinds = [index_kind(k) for k in key]
    if 'mask' in kinds:
        if len(key) == 1:
            return mask_select(a, key[0])
        raise Unsupported('mask with other indices')
    if 'fancy' in kinds:
        return fancy_get(a, key, kinds)
    v = basic_view(a, key)
    if v.shape == () and a.lib is NP and Ellipsis not in key:
        return scalar0(v.at(()), a.dtype, a.lib, a.exact, a.data)
    return v


def expand_key(a, key):
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    if n > a.ndim:
        raise PyExc(IndexError('too many indices for array'))
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim - n)
            seen = True
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (a.ndim - n)
    return out


def basic_view(a, key):
    key = expand_key(a, key)
    shape, amap = [], {}
    j = 0
    for k in key:
        if k is None:
            shape.append(ONE)
            continue
        d = a.shape[j]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                amap[j] = ('ax', len(shape), ZERO, 1)
                shape.append(d)
            else:
                if isinstance(d, Prod):
                    raise Unsupported('slice of a flattened array')
                off, ln, st = norm_slice(k, d)
                amap[j] = ('ax', len(shape), off, st)
                shape.append(ln)
        else:
            if isinstance(d, Prod):
                raise Unsupported('plain index into a flattened array')
            amap[j] = ('fix', norm_index(k, d))
        j += 1
    axes = []
    for q in a.axes:
        if q[0] == 'fix':
            axes.append(q)
            continue
        _, k, off, st = q
        r = amap[k]
        if r[0] == 'fix':
            axes.append(('fix', add(off, mul(num(st), r[1]))))
        else:
            axes.append(('ax', r[1], add(off, mul(num(st), r[2])), st * r[3]))
    v = a.view(shape, axes)
    if a.nan is not None:
        raise Unsupported('view of an array with NaN')
    return v


def mask_select(a, mask):
    f, g = a.snap(), mask.snap()
    if len(a.shape) != len(mask.shape):
        raise Unsupported('mask of another dimension')
    for p, q in zip(a.shape, mask.shape):
        if not same_dim(p, q):
            if not machine().truth(eq(dsize(p), dsize(q))):
                raise PyExc(IndexError('boolean index did not match indexed array'))
    return Masked(a.shape, f, g, a.dtype, a.lib, a.exact)


def fancy_get(a, key, kinds):
    key = expand_key(a, key)
    arrs = [(k, as_arr(v)) for k, v in enumerate(key) if v is not None and not isinstance(v, slice) and index_kind(v) == 'fancy']
    if any(v is None for v in key):
        raise Unsupported('newaxis with an index array')
    nz = [k for k, v in enumerate(key) if not isinstance(v, slice)]
    if len(nz) > 1 and nz != list(range(nz[0], nz[-1] + 1)):
        raise Unsupported('separated index arrays')
    # integers among the index arrays broadcast with them
    ish = bshape(*[v.shape for _, v in arrs])
    f = a.snap()
    readers = {}
    m = machine()
    for k in nz:
        v = key[k]
        if index_kind(v) == 'fancy':
            arr = as_arr(v)
            rd = breader(arr, ish)
            n = dsize(a.shape[k])
            if isinstance(a.shape[k], Prod):
                raise Unsupported('index array into a flattened array')
            ii, bs = all_idx(ish)
            t = m.norm(rd(ii))
            lo, hi = le(ZERO, t), lt(t, n)
            if not (t.op == 'app' and t.args[0][:2] in ('P:', 'Q:') and m.perms.info.get(t.args[0][2:]) is not None
                    and same_dim(m.perms.info[t.args[0][2:]][0], n) and t.args[1] in [b for b, _ in bs] and same_dim(n, dict(bs)[t.args[1]])):
                m.obligation('bounds', 'index array', forall(tuple(bs), band(lo, hi)))
            readers[k] = rd
        else:
            t = norm_index(v, a.shape[k])
            readers[k] = (lambda idx, t=t: t)
    first = nz[0]
    shape = []
    for k, v in enumerate(key):
        if k == first:
            shape += list(ish)
        if isinstance(v, slice):
            if not (v.start is None and v.stop is None and v.step is None):
                raise Unsupported('slice with an index array')
            shape.append(a.shape[k])
    ni = len(ish)

    def fn(idx):
        ii = idx[first:first + ni]
        full = []
        p = 0
        for k in range(len(key)):
            if k == first:
                p += ni
            if k in readers:
                full.append(readers[k](ii))
            else:
                full.append(idx[p])
                p += 1
        return f(tuple(full))
    return new(tuple(shape), fn, a.dtype, a.lib, exact=a.exact, data=a.data)


def value_reader(v, shape, lib):
    """Reader of the assigned value with an index of the target."""
    if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
        raise Unsupported('non finite constant')
    a = as_arr(v, lib)
    nd, na = len(shape), len(a.shape)
    if na > nd:
        # leading ones are allowed
        extra = a.shape[:na - nd]
        if not all(is_one(d) for d in extra):
            raise PyExc(ValueError('could not broadcast input array'))
        a = drop_axes(a, list(range(na - nd)))
        na = nd
    m = machine()
    for j in range(na):
        d, t = a.shape[j], shape[j + nd - na]
        if not same_dim(d, t) and not is_one(d):
            if not m.truth(eq(dsize(d), dsize(t))):
                raise PyExc(ValueError('could not broadcast input array'))
    return breader(a, shape), a


def cast_to(dst, t):
    if dst.dtype == B1:
        return t if t.sort == 'B' else ne(t, ZERO)
    t = b2r(t)
    if dst.dtype.kind in 'iu' and not isint(t) and not int_valued(t):
        return ite(le(ZERO, t), floor(t), ceil(t))
    return t


def int_valued(t):
    """Integer because of the dtype of the array it comes from."""
    return t.op == 'app' and t.sort == 'I'


def assign(a, v, key=(Ellipsis,)):
    setitem(a, key, v)


def setitem(a, key, v):
    if not isinstance(a, SArr):
        raise Unsupported('assignment to an item')
    if not isinstance(key, tuple):
        key = (key,)
    m = machine()
    if len(key) == 1 and isinstance(key[0], SArr) and key[0].dtype == B1:
        mask = key[0]
        g = mask.snap()
        if len(mask.shape) != len(a.shape):
            raise Unsupported('mask of another dimension')
        if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
            if m.valid(for_all(mask.shape, lambda idx: bnot(g(idx)))):
                return
            raise Unsupported('non finite constant')
        if is_number(v):
            t = term(v)
            if a.dtype == OBJ and is_float(v):
                a.exact = False
            val = lambda idx: cast_to(a, t)
        elif isinstance(v, SArr):
            raise Unsupported('masked assignment of an array')
        elif isinstance(v, Masked):
            vv = v.value
            val = lambda idx: cast_to(a, vv(idx))
        else:
            raise Unsupported('masked assignment')
        old_nan = a.nan
        a.write(g, val)
        if old_nan is not None:
            a.nan = lambda idx: band(old_nan(idx), bnot(g(idx)))
        return
    kinds = [index_kind(k) for k in key]
    if 'fancy' in kinds:
        if len(key) == 1 and a.ndim == 1:
            return scatter(a, as_arr(key[0]), v)
        raise Unsupported('assignment with an index array')
    if 'mask' in kinds or 'masked' in kinds:
        raise Unsupported('assignment to a selection')
    view = basic_view(a, key)
    rd, va = value_reader(v, view.shape, a.lib)
    if a.dtype == OBJ and isinstance(v, (SArr, float)) and not exact_of((v,)):
        a.exact = False
    if a.data is False and isinstance(v, SArr) and v.data and a.dtype.kind in 'iu':
        a.data = True
    view.write(lambda idx: TRUE, lambda idx: cast_to(a, rd(idx)))


def invert_index(t, j, n):
    """The j with t(j) = k as a function of k, if t is a composition of bijections."""
    if t is j:
        return lambda k: k
    if t.op == 'app' and t.args[0][:2] in ('P:', 'Q:') and not any(j in free(p) for p in t.args[2:]):
        inf = machine().perms.info.get(t.args[0][2:])
        if inf is None or not same_dim(inf[0], n):
            return None
        g = invert_index(t.args[1], j, n)
        if g is None:
            return None
        nm, prm = inverse(t.args[0]), t.args[2:]
        return lambda k: g(perm(nm, k, *prm))
    return None


def scatter(a, idx_arr, v):
    m = machine()
    if idx_arr.ndim != 1:
        raise Unsupported('assignment with an index matrix')
    d = idx_arr.shape[0]
    n = dsize(a.shape[0])
    rd, va = value_reader(v, (d,), a.lib)
    f = idx_arr.snap()
    j = fresh('b')
    t = m.norm(f((j,)))
    g = invert_index(t, j, n) if same_dim(d, n) else None
    if g is not None:
        a.write(lambda idx: TRUE, lambda idx: cast_to(a, rd((g(idx[0]),))))
        return
    m.obligation('bounds', 'index array', forall(((j, d),), band(le(ZERO, t), lt(t, n))))
    distinct(f, d)

    def hit(k):
        b = fresh('b')
        return summ(b, d, ind(eq(f((b,)), k)))
    old = a.snap()

    def val(idx):
        k = idx[0]
        b = fresh('b')
        return add(mul(sub(ONE, hit(k)), b2r(old(idx))), summ(b, d, mul(ind(eq(f((b,)), k)), b2r(rd((b,))))))
    a.write(lambda idx: TRUE, val)


def distinct(f, d):
    m = machine()
    i, j = fresh('b'), fresh('b')
    m.obligation('distinct', 'the indices of an indexed update are distinct',
                 forall(((i, d), (j, d)), bor(eq(i, j), ne(f((i,)), f((j,))))))


def aug_scatter(a, idx_arr, op, v):
    """a[idx] op= v with an index array."""
    m = machine()
    if idx_arr.ndim != 1 or a.ndim != 1:
        raise Unsupported('indexed update of a matrix')
    if op not in ('+', '-'):
        raise Unsupported('indexed update')
    d, n = idx_arr.shape[0], dsize(a.shape[0])
    f = idx_arr.snap()
    j = fresh('b')
    t = m.norm(f((j,)))
    m.obligation('bounds', 'index array', forall(((j, d),), band(le(ZERO, t), lt(t, n))))
    distinct(f, d)
    rd, va = value_reader(v, (d,), a.lib)
    old = a.snap()

    def val(idx):
        b = fresh('b')
        s = summ(b, d, mul(ind(eq(f((b,)), idx[0])), b2r(rd((b,)))))
        return add(b2r(old(idx)), s if op == '+' else neg(s))
    a.write(lambda idx: TRUE, val)


def aug_masked(a, mask, op, v):
    g = mask.snap()
    old = a.snap()
    t = nterm(v)
    o = {'+': add, '-': sub, '*': mul, '/': div}[op]
    a.write(g, lambda idx: o(b2r(old(idx)), t))


@prim('np.add.at')
def np_add_at(a, indices, v):
    idx_arr = as_arr(indices)
    d, n = idx_arr.shape[0], dsize(a.shape[0])
    f = idx_arr.snap()
    j = fresh('b')
    t = machine().norm(f((j,)))
    machine().obligation('bounds', 'index array', forall(((j, d),), band(le(ZERO, t), lt(t, n))))
    rd, va = value_reader(v, (d,), a.lib)
    old = a.snap()

    def val(idx):
        b = fresh('b')
        return add(b2r(old(idx)), summ(b, d, mul(ind(eq(f((b,)), idx[0])), b2r(rd((b,))))))
    a.write(lambda idx: TRUE, val)


def inplace(a, op, v):
    """a op= v for a whole array."""
    m = machine()
    if a.scalar or a.lib is XP and False:
        raise Unsupported('in-place operation on a scalar')
    r = ARR_OPS[op](a, v)
    if len(r.shape) != len(a.shape) or not all(same_dim(p, q) for p, q in zip(r.shape, a.shape)):
        for p, q in zip(r.shape, a.shape):
            if not same_dim(p, q) and not m.truth(eq(dsize(p), dsize(q))):
                raise PyExc(ValueError('non-broadcastable output operand'))
        if len(r.shape) != len(a.shape):
            raise PyExc(ValueError('non-broadcastable output operand'))
    if a.dtype.kind in 'iub' and r.dtype.kind == 'f':
        raise PyExc(TypeError('cannot cast ufunc output from float64 to int64'))
    if a.dtype == OBJ:
        a.exact = a.exact and r.exact
    g = r.snap()
    nanf = r.nan
    a.write(lambda idx: TRUE, g)
    a.nan = nanf
    return a


# ---------------------------------------------------------------- linear algebra
@prim('linalg.eigh')
def np_eigh(a, **kw):
    a = as_arr(a)
    m = machine()
    f = a.snap()
    d = a.shape[0]
    w, v = m.fresh_name('eigw'), m.fresh_name('eigv')
    if not hasattr(m, 'eigs'):
        m.eigs = {}
    m.eigs[w] = (v, d, f)
    prm = tuple(m.loop_params)
    k = fresh('b')
    m.facts.append(forall(((k, d),), lt(ZERO, app(w, (k,) + prm))))
    return (new((d,), lambda i: app(w, (i[0],) + prm), a.dtype, a.lib), new((d, d), lambda i: app(v, (i[0], i[1]) + prm), a.dtype, a.lib))


@prim('linalg.norm')
def np_norm(a, ord=None, axis=None, keepdims=False):
    a = as_arr(a)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm')
    return np_sqrt(np_sum(op_pow(a, 2), axis=axis, keepdims=keepdims))


# ---------------------------------------------------------------- SciPy
@prim('cdist')
def sp_cdist(xa, xb, metric='euclidean', **kw):
    if kw:
        raise Unsupported('options of cdist')
    for v in (xa, xb):
        if not isinstance(v, SArr):
            raise Unsupported('cdist of something else')
        if v.dtype == OBJ:
            machine().events.append('exact numbers converted to floating point')
        if v.ndim != 2:
            raise PyExc(ValueError('XA must be a 2-dimensional array.'))
    if not same_dim(xa.shape[1], xb.shape[1]):
        if not machine().truth(eq(dsize(xa.shape[1]), dsize(xb.shape[1]))):
            raise PyExc(ValueError('XA and XB must have the same number of columns'))
    f, g, d = xa.snap(), xb.snap(), xa.shape[1]

    def sq(i, j):
        return sum_fn(d, lambda k: ipow(sub(f((i, k)), g((j, k))), 2))
    if metric == 'sqeuclidean':
        fn = lambda idx: sq(*idx)
    elif metric == 'euclidean':
        fn = lambda idx: rpow(sq(*idx), HALF)
    elif metric in ('cityblock', 'manhattan'):
        fn = lambda idx: sum_fn(d, lambda k: absv(sub(f((idx[0], k)), g((idx[1], k)))))
    else:
        raise Unsupported(f'metric {metric}')
    return new((xa.shape[0], xb.shape[0]), fn, F8, NP)


@prim('pdist')
def sp_pdist(x, metric='euclidean', **kw):
    r = sp_cdist(x, x, metric)
    return CondensedDistances(r)


class CondensedDistances:
    def __init__(self, square):
        self.square = square


@prim('squareform')
def sp_squareform(c, *a, **k):
    if isinstance(c, CondensedDistances):
        sqr = c.square
        f = sqr.snap()
        return new(sqr.shape, lambda i: ite(eq(i[0], i[1]), ZERO, ite(lt(i[0], i[1]), f(i), f((i[1], i[0])))), F8, NP)
    raise Unsupported('squareform')


@prim('t.cdf')
def sp_tcdf(x, df, loc=0, scale=1):
    if isinstance(x, float) and (x in (float('inf'), -float('inf')) or x != x) and loc == 0 and scale == 1:
        return float(x > 0) if x == x else x
    if not (loc == 0 and scale == 1):
        raise Unsupported('location or scale of the t distribution')
    dt = nterm(df)
    return elementwise(lambda t: app('tcdf', (t, dt)), (x if isinstance(x, SArr) else as_arr(x),), F8)


@prim('t.sf')
def sp_tsf(x, df, loc=0, scale=1):
    if isinstance(x, float) and (x in (float('inf'), -float('inf')) or x != x) and loc == 0 and scale == 1:
        return float(x < 0) if x == x else x
    if not (loc == 0 and scale == 1):
        raise Unsupported('location or scale of the t distribution')
    dt = nterm(df)
    return elementwise(lambda t: sub(ONE, app('tcdf', (t, dt))), (x if isinstance(x, SArr) else as_arr(x),), F8)


# ---------------------------------------------------------------- math
def m_unary(f, kind='float'):
    def g(v):
        t = nterm(v)
        return mk(f(t), kind)
    return g


PRIMS['math.ceil'] = m_unary(ceil, 'int')
PRIMS['math.floor'] = m_unary(floor, 'int')
PRIMS['math.log2'] = m_unary(log2)
PRIMS['math.fabs'] = m_unary(absv)


@prim('math.sqrt')
def math_sqrt(v):
    if not nonneg_known(nterm(v)):
        machine().obligation('root', 'square root: argument is not negative', le(ZERO, nterm(v)))
    return mk(rpow(nterm(v), HALF), 'float')


@prim('math.comb')
def math_comb(n, k):
    if isinstance(k, int) and k == 2:
        t = nterm(n)
        return mk(div(mul(t, sub(t, ONE)), TWO), 'int')
    raise Unsupported('comb')


# ---------------------------------------------------------------- dtype queries
@prim('np.can_cast')
def np_can_cast(a, to, *args, **kw):
    return bool(np.can_cast(a.dtype if isinstance(a, SArr) else a, to, *args, **kw))


@prim('np.result_type')
def np_result_type(*vs):
    return np.result_type(*[v.dtype if isinstance(v, SArr) else v for v in vs])


@prim('np.isdtype')
def np_isdtype(dt, kind):
    kinds = {'bool': 'b', 'signed integer': 'i', 'unsigned integer': 'u', 'integral': 'iu', 'real floating': 'f',
             'complex floating': 'c', 'numeric': 'iufc'}
    if isinstance(kind, tuple):
        return any(np_isdtype(dt, k) for k in kind)
    if isinstance(kind, str):
        return np.dtype(dt).kind in kinds[kind]
    return np.dtype(dt) == np.dtype(kind)


@prim('np.shape')
def np_shape(a):
    return shape_of(as_arr(a))


@prim('np.size')
def np_size(a, axis=None):
    a = as_arr(a)
    return mk(count_axes(a, axis), 'int')


@prim('np.ndim')
def np_ndim(a):
    return as_arr(a).ndim


@prim('np.atleast_1d')
def np_atleast_1d(a):
    a = as_arr(a)
    return np_expand_dims(a, 0) if a.ndim == 0 else a


@prim('np.atleast_2d')
def np_atleast_2d(a):
    a = as_arr(a)
    while a.ndim < 2:
        a = np_expand_dims(a, 0)
    return a


# ---------------------------------------------------------------- attributes of arrays
def arr_method(f):
    return f


def item_of(a):
    if a.shape != ():
        if all(is_one(d) for d in a.shape):
            a = drop_axes(a, list(range(a.ndim)))
        else:
            raise Unsupported('item of an array')
    t = a.at(())
    if a.dtype == B1:
        return mk(t, 'bool')
    if a.dtype == OBJ:
        return scalar0(t, OBJ, a.lib, a.exact)
    return mk(t, 'int' if a.dtype.kind in 'iu' else 'float')


METHODS = dict(
    sum=lambda a, *p, **k: np_sum(a, *p, **k), mean=lambda a, *p, **k: np_mean(a, *p, **k), var=lambda a, *p, **k: np_var(a, *p, **k),
    std=lambda a, *p, **k: np_std(a, *p, **k), min=lambda a, *p, **k: np_min(a, *p, **k), max=lambda a, *p, **k: np_max(a, *p, **k),
    cumsum=lambda a, *p, **k: np_cumsum(a, *p, **k), argsort=lambda a, *p, **k: np_argsort(a, *p, **k),
    dot=lambda a, b: np_matmul(a, b), copy=lambda a, *p, **k: a.copy(), astype=lambda a, dt, *p, copy=True, **k: cast(a, np.dtype(dt), copy),
    item=lambda a, *p: item_of(getitem(a, tuple(p)) if p else a), ravel=lambda a, *p, **k: flatten(a), flatten=lambda a, *p, **k: flatten(a).copy(),
    transpose=lambda a, *p: np_transpose(a, p[0] if len(p) == 1 and isinstance(p[0], tuple) else p or None),
    squeeze=lambda a, *p, **k: np_squeeze(a, *p, **k), trace=lambda a: np_trace(a), diagonal=lambda a: np_diag(a),
    reshape=lambda a, *p, **k: np_reshape(a, p[0] if len(p) == 1 else p), take=lambda a, *p, **k: np_take(a, *p, **k),
    fill=lambda a, v: assign(a, v), clip=lambda a, *p, **k: np_clip(a, *p, **k), prod=lambda a, *p, **k: np_prod(a, *p, **k),
    __array_namespace__=lambda a, **k: a.lib, any=lambda a, *p, **k: np_any(), all=lambda a, *p, **k: np_any(),
)


def arr_attr(a, name):
    if isinstance(a, Masked):
        if name == 'shape':
            return (mk(a.count(), 'int'),)
        if name == 'size':
            return mk(a.count(), 'int')
        if name == 'dtype':
            return a.dtype
        if name == 'ndim':
            return 1
        if name in ('sum', 'mean'):
            return lambda *p, **k: METHODS[name](a, *p, **k)
        raise Unsupported(f'attribute {name} of selected elements')
    if name == 'shape':
        return shape_of(a)
    if name == 'ndim':
        return a.ndim
    if name == 'dtype':
        return a.dtype
    if name in ('T', 'mT'):
        return np_transpose(a)
    if name == 'size':
        return mk(mul(*[dsize(d) for d in a.shape]), 'int')
    if name == 'real':
        return a
    if name == 'flags':
        raise Unsupported('flags of an array')
    if name == 'itemsize':
        return a.dtype.itemsize
    if name == 'base':
        raise Unsupported('base of an array')
    if a.lib is XP and name not in ('__array_namespace__', 'device', 'to_device'):
        raise PyExc(AttributeError(f"'Array' object has no attribute '{name}'"))
    if name in METHODS:
        return lambda *p, **k: METHODS[name](a, *p, **k)
    raise Unsupported(f'attribute {name} of an array')


def user_average(name, a):
    """An arbitrary function of the elements of an array, whatever their order of axes."""
    if isinstance(a, Masked):
        idx, bs = [], []
        for d in a.dims:
            i = dfresh(d)
            idx.append(i)
            bs += dbind(d, i)
        idx = tuple(idx)
        return scalar0(fnof(name, [b for b, _ in bs], [z for _, z in bs], b2r(a.value(idx)), a.mask(idx)), F8, a.lib)
    a = as_arr(a)
    idx, bs = [], []
    for d in a.shape:
        i = dfresh(d)
        idx.append(i)
        bs += dbind(d, i)
    return scalar0(fnof(name, [b for b, _ in bs], [z for _, z in bs], b2r(a.at(tuple(idx)))), F8, a.lib)
