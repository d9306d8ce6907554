"""Concrete evaluation of terms: used to refute equalities and to compare the
engine's symbolic result with the native execution of the same code."""
from __future__ import annotations

import itertools
import math
import random
from fractions import Fraction

from terms import *  # noqa: F403
from terms import T


class NoValue(Exception):
    """The term has no value here (division by zero, unknown function...)."""


class Budget(Exception):
    pass


class Env:
    """vars: T -> value; funcs: name -> callable; perms: smt.Perms."""

    def __init__(self, vars_, funcs, perms=None, seed=0, budget=4_000_000):
        self.vars = dict(vars_)
        self.funcs = dict(funcs)
        self.perms = perms
        self.seed = seed
        self.perm_cache = {}
        self.memo = {}
        self.budget = budget

    def perm(self, name, params):
        key = (name, params)
        r = self.perm_cache.get(key)
        if r is None and name == 'rng0' and 'rng' in self.funcs:
            # the draws that the code makes from RandomState(seed), one for each resample
            import numpy as np
            seed, size = self.funcs['rng']
            rs = np.random.RandomState(seed)
            n = int(self.ev(size, {}))
            if len(params) != 1:
                raise NoValue('permutation')
            for _ in range(int(params[0]) + 1):
                base = [int(k) for k in rs.permutation(n)]
            inv = [0] * n
            for i, b in enumerate(base):
                inv[b] = i
            r = self.perm_cache[key] = (base, inv)
        if r is None:
            info = self.perms.info.get(name)
            if info is None:
                raise NoValue(f'permutation {name}')
            size, keyf = info
            n = int(self.ev(size, {}))
            base = list(range(n))
            random.Random(f'{self.seed}|{name}|{params}').shuffle(base)
            if keyf is not None:
                ks = []
                for i in range(n):
                    t = keyf(num(i))
                    ks.append(self.ev(t, {}))
                base.sort(key=lambda i: ks[i])
            inv = [0] * n
            for i, b in enumerate(base):
                inv[b] = i
            r = self.perm_cache[key] = (base, inv)
        return r

    def ev(self, t, b):
        """Value of t with the bound variables b (a dict)."""
        fv = free(t)
        key = None
        if t.op not in ('num', 'var'):
            key = (t, tuple((v.id, b[v]) for v in sorted(fv, key=lambda q: q.id) if v in b))
            r = self.memo.get(key)
            if r is not None:
                return r
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        r = self._ev(t, b)
        if key is not None:
            self.memo[key] = r
        return r

    def _ev(self, t, b):
        op, a = t.op, t.args
        ev = self.ev
        if op == 'num':
            return a[0]
        if op == 'var':
            if t in b:
                return b[t]
            if t in self.vars:
                return self.vars[t]
            raise NoValue(f'variable {t}')
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'app':
            args = tuple(ev(x, b) for x in a[1:])
            if a[0][:2] in ('P:', 'Q:'):
                base, inv = self.perm(a[0][2:], args[1:])
                i = args[0]
                if not (0 <= i < len(base)) or i != int(i):
                    raise NoValue('permutation out of range')
                return Fraction((base if a[0][0] == 'P' else inv)[int(i)])
            f = self.funcs.get(a[0])
            if f is None:
                raise NoValue(f'function {a[0]}')
            return f(*args)
        if op == 'add':
            r = Fraction(0)
            for x in a:
                r = r + ev(x, b)
            return r
        if op == 'mul':
            r = Fraction(1)
            for x in sorted(a, key=lambda q: q.op != 'ind'):
                r = r * ev(x, b)
                if r == 0:
                    return Fraction(0)
            return r
        if op == 'pow':
            x = ev(a[0], b)
            if a[1] < 0 and x == 0:
                raise NoValue('division by zero')
            return x ** a[1]
        if op == 'inv':
            x = ev(a[0], b)
            if x == 0:
                raise NoValue('division by zero')
            return 1 / x
        if op == 'inv0':
            raise NoValue('division by zero')
        if op == 'abs':
            return abs(ev(a[0], b))
        if op == 'rpow':
            x, e = ev(a[0], b), ev(a[1], b)
            if x < 0:
                if x > -1e-12 and isinstance(x, float):
                    x = 0.0
                else:
                    raise NoValue('root of a negative number')
            if x == 0:
                return Fraction(0)
            if isinstance(x, Fraction) and e == Fraction(1, 2):
                p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if p * p == x.numerator and q * q == x.denominator:
                    return Fraction(p, q)
            return float(x) ** float(e)
        if op == 'floor':
            return Fraction(math.floor(ev(a[0], b)))
        if op == 'ceil':
            return Fraction(math.ceil(ev(a[0], b)))
        if op == 'mod':
            return Fraction(ev(a[0], b) % ev(a[1], b))
        if op == 'pow2':
            e = ev(a[0], b)
            return Fraction(2) ** int(e) if e == int(e) else 2.0 ** float(e)
        if op == 'clog2':
            x = ev(a[0], b)
            k = 0
            while 2 ** k < x:
                k += 1
            return Fraction(k)
        if op == 'log2':
            return math.log2(ev(a[0], b))
        if op == 'lt':
            return ev(a[0], b) < ev(a[1], b)
        if op == 'le':
            return ev(a[0], b) <= ev(a[1], b)
        if op == 'eq':
            return ev(a[0], b) == ev(a[1], b)
        if op == 'not':
            return not ev(a[0], b)
        if op == 'and':
            return all(ev(x, b) for x in a)
        if op == 'or':
            return any(ev(x, b) for x in a)
        if op == 'ite':
            return ev(a[1] if ev(a[0], b) else a[2], b)
        if op == 'ind':
            return Fraction(1 if ev(a[0], b) else 0)
        if op == 'sum':
            n = int(ev(a[1], b))
            r = Fraction(0)
            for k in range(n):
                r = r + ev(a[2], {**b, a[0]: Fraction(k)})
            return r
        if op == 'SUM':
            r = Fraction(0)
            for ks in itertools.product(*[range(int(ev(z, b))) for z in a[1]]):
                r = r + ev(a[2], {**b, **{v: Fraction(k) for v, k in zip(a[0], ks)}})
            return r
        if op == 'forall':
            return all(ev(a[1], {**b, **{v: Fraction(k) for (v, _), k in zip(a[0], ks)}})
                       for ks in itertools.product(*[range(int(ev(z, b))) for _, z in a[0]]))
        if op in ('minof', 'maxof'):
            vs = [ev(a[2], {**b, a[0]: Fraction(k)}) for k in range(int(ev(a[1], b)))]
            if not vs:
                raise NoValue('extreme of nothing')
            return min(vs) if op == 'minof' else max(vs)
        if op == 'fnof':
            name, bs, sizes, body, mask = a
            f = self.funcs.get(name)
            if f is None:
                raise NoValue(f'function {name}')
            vs = []
            for ks in itertools.product(*[range(int(ev(z, b))) for z in sizes]):
                bb = {**b, **{v: Fraction(k) for v, k in zip(bs, ks)}}
                if ev(mask, bb):
                    vs.append(ev(body, bb))
            return f(vs)
        raise NoValue(op)

    def value(self, t):
        return self.ev(t, {})


def close(u, v, tol=1e-7):
    if isinstance(u, bool) or isinstance(v, bool):
        return bool(u) == bool(v)
    if isinstance(u, Fraction) and isinstance(v, Fraction):
        return u == v
    return abs(float(u) - float(v)) <= tol * (1 + abs(float(u)) + abs(float(v)))


class RandomFunc:
    """A random function with a small range (many ties), deterministic."""

    def __init__(self, seed, values):
        self.seed, self.values, self.cache = seed, values, {}

    def __call__(self, *args):
        r = self.cache.get(args)
        if r is None:
            k = tuple(int(q) if q == int(q) else float(q) for q in args)
            r = self.cache[args] = random.Random(repr((self.seed, k))).choice(self.values)
        return r


POOLS = [
    [Fraction(k) for k in range(-2, 3)],
    [Fraction(k) for k in range(-9, 10)],
    [Fraction(k, 4) for k in range(-11, 12)],
    [Fraction(0), Fraction(1)],
    [Fraction(k, 4) for k in range(-11, 12)],
    [Fraction(k) for k in range(-2, 3)],
    [Fraction(0)],
    [Fraction(3)],
]


def random_env(int_vars, real_vars, funcs, perms, seed):
    """int_vars: {T: list of values}; real_vars: {T: values}; funcs: {name: pool or callable}."""
    rng = random.Random(seed)
    vs = {}
    for v, vals in {**int_vars, **real_vars}.items():
        vs[v] = Fraction(rng.choice(vals))
    fs = {}
    for name, f in funcs.items():
        if callable(f):
            fs[name] = f
        else:
            fs[name] = RandomFunc(rng.random(), f or rng.choice(POOLS))
    return Env(vs, fs, perms, rng.random())
