"""Translation of terms to z3 and the queries the engine makes."""
from __future__ import annotations

import os
import sys
import time

sys.path.append(os.environ.get('VERIF_VT', '/opt/veriftools/pyvenv/lib/python3.12/site-packages'))
import z3  # noqa: E402

from terms import *  # noqa: E402,F403
from terms import T  # noqa: E402

STATS = dict(queries=0, seconds=0.0, unknown=0)


class Perms:
    """Permutations introduced on a path: name -> (size, key, params).

    key(i) is the sorted quantity: i -> key(P(i)) is not decreasing."""

    def __init__(self):
        self.info = {}

    def add(self, name, size, key=None):
        self.info[name] = (size, key)

    def sizes(self):
        d = {}
        for k, (size, _) in self.info.items():
            d['P:' + k] = size
            d['Q:' + k] = size
        return d


class Tr:
    """One translation context (names are shared, axioms are collected)."""

    def __init__(self, perms=None):
        self.memo = {}
        self.perms = perms
        self.ax = []
        self.pow2s = {}
        self.permapps = {}
        self.bound = {}
        self.roots = {}

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def integer(self, t):
        e = self.tr(t)
        return e if e.sort() == z3.IntSort() else z3.ToInt(e)

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def arith(self, args):
        es = [self.tr(a) for a in args]
        if all(e.sort() == z3.IntSort() for e in es):
            return es
        return [z3.ToReal(e) if e.sort() == z3.IntSort() else e for e in es]

    def _tr(self, t):
        op, a = t.op, t.args
        if op == 'num':
            v = a[0]
            return z3.IntVal(v.numerator) if v.denominator == 1 else z3.RealVal(f'{v.numerator}/{v.denominator}')
        if op == 'var':
            if t.sort == 'B':
                return z3.Bool('b_' + a[0])
            return z3.Int('i_' + a[0]) if t.sort == 'I' else z3.Real('r_' + a[0])
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'app':
            es = [self.tr(x) for x in a[1:]]
            rs = dict(I=z3.IntSort(), R=z3.RealSort(), B=z3.BoolSort())[t.sort]
            f = z3.Function(f'f_{a[0]}_{len(es)}' + ''.join(str(e.sort())[0] for e in es), *[e.sort() for e in es], rs)
            r = f(*es)
            if a[0][:2] in ('P:', 'Q:'):
                self.permapps.setdefault((a[0], a[2:]), {})[a[1]] = r
            return r
        if op == 'add':
            es = self.arith(a)
            return z3.Sum(*es) if len(es) > 1 else es[0]
        if op == 'mul':
            es = self.arith(a)
            r = es[0]
            for e in es[1:]:
                r = r * e
            return r
        if op == 'pow':
            k = a[1]
            b = self.tr(a[0])
            if k < 0:
                b = self.real(a[0])
            r = b
            for _ in range(abs(k) - 1):
                r = r * b
            return r if k > 0 else 1 / r
        if op == 'inv':
            return 1 / self.real(a[0])
        if op == 'abs':
            e = self.tr(a[0])
            return z3.If(e >= 0, e, -e)
        if op == 'rpow':
            b, e = self.real(a[0]), self.real(a[1])
            f = z3.Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())
            r = f(b, e)
            if not self.has_bound(t):
                self.ax.append(z3.Implies(b >= 0, r >= 0))
                self.ax.append(z3.Implies(z3.And(b == 0, e > 0), r == 0))
                self.ax.append(z3.Implies(z3.And(b > 0), r > 0))
                if a[1].op == 'num' and a[1].args[0] == Fraction(1, 2):
                    self.ax.append(z3.Implies(b >= 0, r * r == b))
            return r
        if op == 'floor':
            return z3.ToInt(self.real(a[0]))
        if op == 'ceil':
            return -z3.ToInt(-self.real(a[0]))
        if op == 'mod':
            return self.integer(a[0]) % self.integer(a[1])
        if op == 'pow2':
            e = self.tr(a[0])
            f = z3.Function('pow2' + str(e.sort())[0], e.sort(), z3.RealSort())
            r = f(e)
            if not self.has_bound(t):
                self.pow2s[a[0]] = (e, r)
            return r
        if op == 'clog2':
            e = self.real(a[0])
            r = z3.Function('clog2', z3.RealSort(), z3.IntSort())(e)
            if not self.has_bound(t):
                self.memo[t] = r
                w = self.tr(pow2(t))
                self.ax.append(z3.Implies(e >= 1, z3.And(r >= 0, e <= w, w < 2 * e)))
                self.ax.append(z3.Implies(e > 1, r >= 1))
                self.ax.append(z3.Implies(e > 2, r >= 2))
            return r
        if op == 'log2':
            return z3.Function('log2', z3.RealSort(), z3.RealSort())(self.real(a[0]))
        if op == 'lt':
            x, y = self.arith(a)
            return x < y
        if op == 'le':
            x, y = self.arith(a)
            return x <= y
        if op == 'eq':
            x, y = self.arith(a)
            return x == y
        if op == 'not':
            return z3.Not(self.tr(a[0]))
        if op == 'and':
            return z3.And(*[self.tr(x) for x in a])
        if op == 'or':
            return z3.Or(*[self.tr(x) for x in a])
        if op == 'ite':
            c = self.tr(a[0])
            x, y = self.arith(a[1:])
            return z3.If(c, x, y)
        if op == 'ind':
            return z3.If(self.tr(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'forall':
            bs = [z3.Int('i_' + b.args[0]) for b, _ in a[0]]
            for b, _ in a[0]:
                self.bound[b] = self.bound.get(b, 0) + 1
            rng = z3.And(*[z3.And(z >= 0, z < self.integer(s)) for z, (b, s) in zip(bs, a[0])])
            body = self.tr(a[1])
            for b, _ in a[0]:
                self.bound[b] -= 1
            return z3.ForAll(bs, z3.Implies(rng, body))
        # opaque: a function of its free variables
        fvs = sorted(free(t), key=lambda v: v.id)
        es = [self.tr(v) for v in fvs]
        rs = z3.IntSort() if isint(t) else z3.RealSort()
        f = z3.Function(f'o_{t.id}', *[e.sort() for e in es], rs) if es else None
        return f(*es) if es else z3.Const(f'o_{t.id}', rs)

    def has_bound(self, t):
        return any(self.bound.get(v, 0) for v in free(t))

    def axioms(self):
        out = list(self.ax)
        items = list(self.pow2s.items())
        for k, (e, r) in items:
            out.append(r > 0)
            out.append(z3.Implies(e >= 0, r >= 1))
        for i in range(len(items)):
            for j in range(i):
                e1, r1 = items[i][1]
                e2, r2 = items[j][1]
                if e1.sort() != e2.sort():
                    continue
                k = 2 if e1.sort() == z3.IntSort() else 1
                out.append(z3.Implies(e1 < e2, k * r1 <= r2))
                out.append(z3.Implies(e2 < e1, k * r2 <= r1))
                out.append(z3.Implies(e1 == e2, r1 == r2))
        if self.perms is not None:
            done = 0
            while done < 3:
                apps = {k: dict(v) for k, v in self.permapps.items()}
                for (name, params), d in apps.items():
                    inf = self.perms.info.get(name[2:])
                    if inf is None:
                        continue
                    size, key = inf
                    zs = self.integer(size)
                    its = [(t, r) for t, r in d.items() if not self.has_bound(t)]
                    for t, r in its:
                        e = self.integer(t)
                        ok = z3.And(e >= 0, e < zs)
                        out.append(z3.Implies(ok, z3.And(r >= 0, r < zs)))
                    for i in range(len(its)):
                        for j in range(i):
                            t1, r1 = its[i]
                            t2, r2 = its[j]
                            e1, e2 = self.integer(t1), self.integer(t2)
                            ok = z3.And(e1 >= 0, e1 < zs, e2 >= 0, e2 < zs)
                            out.append(z3.Implies(ok, (r1 == r2) == (e1 == e2)))
                            if key is not None and name[0] == 'Q':
                                k1, k2 = self.real(key(t1)), self.real(key(t2))
                                out.append(z3.Implies(z3.And(ok, r1 < r2), k1 <= k2))
                                out.append(z3.Implies(z3.And(ok, r2 < r1), k2 <= k1))
                            elif key is not None:
                                k1, k2 = self.real(key(perm(name, t1, *params))), self.real(key(perm(name, t2, *params)))
                                out.append(z3.Implies(z3.And(ok, e1 < e2), k1 <= k2))
                                out.append(z3.Implies(z3.And(ok, e2 < e1), k2 <= k1))
                if {k: len(v) for k, v in self.permapps.items()} == {k: len(v) for k, v in apps.items()}:
                    break
                done += 1
        return out


def scope_facts(scope):
    out = []
    for b, z in scope:
        out.append(le(ZERO, b))
        out.append(lt(b, lift(z)))
    return out


def check(facts, extra=(), perms=None, timeout=3000, seed=0):
    """Satisfiability of facts and extra (terms): 'sat', 'unsat' or 'unknown'."""
    t0 = time.time()
    tr = Tr(perms)
    s = z3.Solver()
    s.set('timeout', timeout)
    if seed:
        s.set('random_seed', seed)
        s.set('smt.random_seed', seed)
    for f in facts:
        s.add(tr.tr(f))
    for f in extra:
        s.add(tr.tr(f))
    for a in tr.axioms():
        s.add(a)
    r = str(s.check())
    STATS['queries'] += 1
    STATS['seconds'] += time.time() - t0
    if r == 'unknown':
        STATS['unknown'] += 1
    return r


def valid(goal, facts, perms=None, timeout=3000, seed=0):
    if goal is TRUE:
        return True
    if goal.op == 'and':
        return all(valid(g, facts, perms, timeout, seed) for g in goal.args)
    if goal.op == 'forall':
        ren = {b: fresh('b') for b, _ in goal.args[0]}
        rng = scope_facts([(ren[b], z) for b, z in goal.args[0]])
        return valid(subst(goal.args[1], ren), list(facts) + rng, perms, timeout, seed)
    return check(facts, [bnot(goal)], perms, timeout, seed) == 'unsat'
