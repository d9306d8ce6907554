"""Folding of definitions: a part of a term that equals a named quantity is replaced by its name.

Each replacement is an equality proved for all inputs (the numerical comparison
only chooses what is worth trying), so that a goal about large expressions
becomes one about the named quantities they are made of."""
from __future__ import annotations

import itertools
import random

from terms import *  # noqa: F403
from terms import T
import prover
from evalt import Budget, NoValue, close


def frozen(fn, k):
    """fn, evaluated now (the names it refers to may be rebound later)."""
    idx = [fresh('i') for _ in range(k)]
    body = lift(fn(*idx))
    return lambda *ts: subst(body, dict(zip(idx, (lift(t) for t in ts)))) if idx else body


class Def:
    """name(i, j, ...) := fn(i, j, ...) for indices below dims; fn may use earlier names."""

    def __init__(self, name, dims, fn):
        self.name, self.dims, self.fn = name, tuple(dims), frozen(fn, len(dims))

    def __call__(self, *idx):
        return app(self.name, tuple(lift(i) for i in idx), 'R')


def define(env, defs):
    """Make the names evaluable."""
    for d in defs:
        def f(*idx, d=d):
            key = (d.name, idx)
            r = env.named.get(key)
            if r is None:
                r = env.named[key] = env.value(d.fn(*[num(k) for k in idx]))
            return r
        env.funcs[d.name] = f
    env.named = {}
    return env


def support(t):
    return {s.args[0] for s in subterms(t) if s.op == 'app'}


class Folder:
    def __init__(self, facts, perms, sub_, defs, envs, budget=20.0):
        self.facts, self.perms, self.sub, self.defs, self.envs, self.budget = facts, perms, sub_, defs, envs, budget
        self.log = []

    def fold(self, t, scope=()):
        for d in self.defs:
            t = Pass(self, d).go(t, tuple(scope))
        return t


class Pass:
    def __init__(self, folder, d):
        self.f, self.d = folder, d
        self.idx = [fresh('i') for _ in d.dims]
        self.body = b2r(lift(d.fn(*self.idx)))
        self.names = support(self.body)
        self.memo = {}
        self.vals = {}
        self.sup = {}

    def relevant(self, t):
        r = self.sup.get(t)
        if r is None:
            r = self.sup[t] = self.names <= support(t)
        return r

    def go(self, t, scope):
        if not isinstance(t, T) or t.op in ('var', 'num', 'true', 'false'):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if not self.relevant(t):
            self.memo[t] = t
            return t
        r = self.match(t, scope) if t.sort != 'B' else None
        if r is None:
            if t.op in BINDERS:
                b, z, body = t.args
                nb = self.go(body, scope + ((b, z),))
                r = t if nb is body else T(t.op, (b, z, nb), t.sort)
            elif t.op == 'forall' or t.op in ('SUM', 'fnof'):
                r = t
            elif t.op == 'app' and t.args[0] != 'tcdf':
                r = t
            else:
                args = tuple(self.go(a, scope) if isinstance(a, T) else a for a in t.args)
                r = t if all(a is b for a, b in zip(args, t.args)) else rebuild(t, args)
        self.memo[t] = r
        return r

    def value(self, k, t, assign):
        env = self.f.envs[k]
        return env.ev(t, assign)

    def match(self, t, scope):
        d = self.d
        sc = dict(scope)
        back = {}
        if d.dims:
            # images of indices under a permutation are indices too
            for q in subterms(t):
                if q.op == 'app' and q.args[0][:2] in ('P:', 'Q:') and all(v in sc for v in free(q)) and q.args[0][2:] in self.f.perms.info:
                    v = fresh('i', 'I')
                    back[v] = q
            if back:
                t = replace(t, {q: v for v, q in back.items()})
                scope = tuple(scope) + tuple((v, self.f.perms.info[q.args[0][2:]][0]) for v, q in back.items())
                sc = dict(scope)
        vs = [v for v in free(t) if v in sc]
        if len(vs) != len(d.dims):
            return None
        vs.sort(key=lambda v: (back.get(v, v).args[1] if v in back else v).id)
        for order in itertools.permutations(vs):
            if self.screen(t, order, sc) and self.prove(t, order, scope):
                return d(*[back.get(v, v) for v in order])
        return None

    def screen(self, t, order, sc):
        ok = 0
        for k, env in enumerate(self.f.envs):
            rng = random.Random(k)
            for _ in range(2 if order else 1):
                try:
                    assign = {}
                    for v in order:
                        z = int(env.value(sc[v]))
                        if z <= 0:
                            raise NoValue('empty')
                        assign[v] = Fraction(rng.randrange(z))
                    a = env.ev(t, assign)
                    b = env.ev(self.body, dict(zip(self.idx, [assign[v] for v in order])))
                except (NoValue, Budget, OverflowError):
                    continue
                if not close(a, b, 1e-8):
                    return False
                ok += 1
        return ok >= 1

    def prove(self, t, order, scope):
        sc = dict(scope)
        goal = subst(self.body, dict(zip(self.idx, order)))
        pr = prover.Problem(self.f.facts, self.f.perms, [(v, sc[v]) for v in order], self.f.sub, self.f.budget)
        be = pr.equal(subst(t, self.f.sub) if self.f.sub else t, goal)
        self.f.log.append((self.d.name, be, pr.note if be is None else ''))
        return be is not None
