"""Real algebra with square roots: equalities and inequalities between expressions
in finitely many real quantities (+, -, *, /, roots, absolute values, conditionals).

Every quantity that is not algebraic (a sum, an application, a power with another
exponent) is a variable. A root sqrt(N/D) becomes sqrt(f1) sqrt(f2).../|D| with the
irreducible factors of N*D (sympy), after z3 has shown their signs under the facts, or
by cases on them; r^2 = f for every root r, so an equality is decided by reduction of
the numerator of the difference. Conditions go to z3, with the roots as variables.
"""
from __future__ import annotations

import time
from fractions import Fraction

import smt
import sympy
import z3
from terms import *  # noqa: F403
from terms import T
from nf import Loop, nf, to_term


CONGRUENT = {'tcdf'}        # functions whose arguments are compared as values


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond           # a sympy expression p: the cases are p < 0, p = 0, p > 0


class GiveUp(Exception):
    pass


class Algebra:
    def __init__(self, facts, ctx=None, budget=20.0, timeout=1500):
        self.facts = list(facts)
        self.ctx = ctx
        self.deadline = time.time() + budget
        self.timeout = timeout
        self.names = {}
        self.z3v = {}
        self.opaque_memo = {}
        self.splits = 0

    # ------------------------------------------------------------ variables
    def symbol(self, key):
        s = self.names.get(key)
        if s is None:
            s = self.names[key] = sympy.Symbol(f'v{len(self.names)}', real=True)
        return s

    def zv(self, s):
        r = self.z3v.get(s)
        if r is None:
            r = self.z3v[s] = z3.Real(str(s))
        return r

    def z3of(self, p):
        """z3 expression of a polynomial."""
        p = sympy.expand(p)
        out = []
        for term in sympy.Add.make_args(p):
            c, rest = term.as_coeff_Mul()
            e = z3.RealVal(f'{sympy.Rational(c).p}/{sympy.Rational(c).q}')
            for b, k in rest.as_powers_dict().items() if rest != 1 else ():
                if not (b.is_Symbol and k.is_Integer and k > 0):
                    raise GiveUp(f'not a polynomial: {b}^{k}')
                for _ in range(int(k)):
                    e = e * self.zv(b)
            out.append(e)
        return z3.Sum(*out) if len(out) > 1 else out[0]

    # ------------------------------------------------------------ entry points
    def equal(self, u, v):
        return self.run(lambda st: st.zero(st.ev(u) - st.ev(v)))

    def holds(self, cond):
        return self.run(lambda st: st.truth(cond))

    def run(self, goal):
        return self.case([], goal, 0)

    def case(self, cases, goal, depth):
        if time.time() > self.deadline or depth > 9:
            raise GiveUp('cases')
        st = State(self, cases)
        try:
            st.start()
            if st.inconsistent():
                return True
            return goal(st)
        except Split as s:
            for sg in (-1, 0, 1):
                if not self.case(cases + [(s.cond, sg)], goal, depth + 1):
                    return False
            return True


class State:
    """One combination of signs of the quantities split on."""

    def __init__(self, al, cases):
        self.al, self.cases = al, cases
        self.roots = {}               # radicand -> symbol
        self.solver = z3.Solver()
        self.solver.set('timeout', al.timeout)
        self.memo = {}
        self.used = set()

    def start(self):
        for p, sg in self.cases:
            e = self.al.z3of(p)
            self.solver.add(e < 0 if sg < 0 else e == 0 if sg == 0 else e > 0)
        rest = list(self.al.facts)
        for _ in range(3):
            again = []
            for f in rest:
                try:
                    self.solver.add(self.cond(f))
                except Split:
                    again.append(f)
                except GiveUp:
                    pass
            if not again or len(again) == len(rest):
                break
            rest = again
        # a fact that needs cases: split on it
        for f in again:
            try:
                self.solver.add(self.cond(f))
            except GiveUp:
                pass

    def check(self, *extra):
        if time.time() > self.al.deadline:
            raise GiveUp('time')
        t0 = time.time()
        r = self.solver.check(*extra)
        smt.STATS['queries'] += 1
        smt.STATS['seconds'] += time.time() - t0
        return r

    def inconsistent(self):
        return self.check() == z3.unsat

    def sign(self, p, split=True):
        """-1, 0, 1: the sign of a polynomial under the facts; None if unknown."""
        p = sympy.expand(p)
        if p.is_number:
            return int(p > 0) - int(p < 0)
        e = self.al.z3of(p)
        if self.check(e <= 0) == z3.unsat:
            return 1
        if self.check(e >= 0) == z3.unsat:
            return -1
        if self.check(e != 0) == z3.unsat:
            return 0
        if split:
            raise Split(p)
        return None

    def nonneg(self, p):
        """+1 if p >= 0 always, -1 if p <= 0 always."""
        p = sympy.expand(p)
        if p.is_number:
            return 1 if p >= 0 else -1
        e = self.al.z3of(p)
        if self.check(e < 0) == z3.unsat:
            return 1
        if self.check(e > 0) == z3.unsat:
            return -1
        raise Split(p)

    # ------------------------------------------------------------ values
    def ratio(self, x):
        n, d = sympy.fraction(sympy.together(x))
        return self.reduce(n), self.reduce(d)

    def reduce(self, p):
        """r^2 = f for the roots."""
        p = sympy.expand(p)
        for _ in range(4):
            change = False
            for f, r in self.roots.items():
                if not p.has(r):
                    continue
                q = sympy.Poly(p, r)
                if q.degree() >= 2:
                    p = sympy.expand(sum(c * f ** (k // 2) * r ** (k % 2) for (k,), c in q.terms()))
                    change = True
            if not change:
                break
        return p

    def clean(self, x):
        n, d = self.ratio(x)
        if n == 0:
            return sympy.Integer(0)
        return sympy.cancel(n / d)

    def root(self, f):
        f = sympy.expand(f)
        if f.is_number:
            r = sympy.sqrt(f)
            if r.is_Rational:
                return r
        s = self.roots.get(f)
        if s is None:
            s = self.roots[f] = sympy.Symbol(f'r{len(self.roots)}', real=True)
            z = self.al.zv(s)
            self.solver.add(z >= 0, z * z == self.al.z3of(f))
        return s

    def sqrt(self, x):
        n, d = self.ratio(self.clean(x))
        if n == 0:
            return sympy.Integer(0)
        c, fs = sympy.factor_list(sympy.expand(n * d))
        out = sympy.Integer(1)
        flips = 0
        if c < 0:
            flips += 1
            c = -c
        out *= self.root(c)
        for f, k in fs:
            s = self.nonneg(f)
            if s < 0:
                f = -f
                flips += k
            out *= f ** (k // 2)
            if k % 2:
                out *= self.root(f)
        if flips % 2:
            # the radicand is not positive
            if self.sign(n * d) != 0:
                raise GiveUp('root of a negative number')
            return sympy.Integer(0)
        sd = self.nonneg(d)
        return self.clean(out / (d if sd > 0 else -d))

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ev(t)
        return r

    def _ev(self, t):
        op, a = t.op, t.args
        if op == 'num':
            return sympy.Rational(a[0].numerator, a[0].denominator)
        if op == 'add':
            return self.clean(sum((self.ev(x) for x in a), sympy.Integer(0)))
        if op == 'mul':
            r = sympy.Integer(1)
            for x in a:
                r = r * self.ev(x)
            return self.clean(r)
        if op == 'pow':
            return self.clean(self.ev(a[0]) ** a[1])
        if op == 'inv':
            return self.inverse(self.ev(a[0]))
        if op == 'abs':
            x = self.ev(a[0])
            n, d = self.ratio(x)
            if n == 0:
                return x
            return x if self.nonneg(n * d) > 0 else self.clean(-x)
        if op == 'rpow' and a[1].op == 'num' and (2 * a[1].args[0]).denominator == 1:
            r = self.sqrt(self.ev(a[0]))
            k = int(2 * a[1].args[0])
            return self.clean(r ** k) if k > 0 else self.inverse(self.clean(r ** -k))
        if op == 'ite':
            return self.ev(a[1]) if self.decide(a[0]) else self.ev(a[2])
        if op == 'ind':
            return sympy.Integer(1) if self.decide(a[0]) else sympy.Integer(0)
        return self.opaque(t)

    def inverse(self, x):
        n, d = self.ratio(x)
        if n == 0:
            raise GiveUp('division by zero')
        # rationalize: multiply by the conjugates of the roots
        for f, r in list(self.roots.items()):
            if n.has(r):
                q = sympy.Poly(n, r)
                if q.degree() == 1:
                    u, w = q.coeff_monomial(r), q.coeff_monomial(1)
                    if w == 0:
                        n, d = self.reduce(u * f), self.reduce(d * r)
                    else:
                        con = w - u * r
                        n, d = self.reduce(n * con), self.reduce(d * con)
        if n == 0:
            raise GiveUp('division by zero')
        return sympy.cancel(d / n)

    def opaque(self, t):
        al = self.al
        if t.op == 'app' and t.args[0] in CONGRUENT:
            return al.symbol((t.args[0],) + tuple(self.ev(a) for a in t.args[1:]))
        k = al.opaque_memo.get(t)
        if k is None:
            key = t
            if al.ctx is not None and t.op not in ('var', 'app'):
                try:
                    p = nf(t, al.ctx)
                    u = to_term(p)
                    if u is not t and u.op in ('add', 'mul', 'num', 'pow', 'inv'):
                        al.opaque_memo[t] = ('expr', u)
                        return self.ev(u)
                    key = u
                except Loop:
                    pass
            k = al.opaque_memo[t] = ('sym', al.symbol(key))
        return self.ev(k[1]) if k[0] == 'expr' else k[1]

    # ------------------------------------------------------------ conditions
    def cond(self, c):
        """z3 formula of a condition."""
        op, a = c.op, c.args
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.cond(a[0]))
        if op in ('and', 'or'):
            es = [self.cond(x) for x in a]
            return (z3.And if op == 'and' else z3.Or)(*es)
        if op in ('lt', 'le', 'eq'):
            if any(x.sort == 'B' for x in a):
                raise GiveUp('boolean equality')
            n, d = self.ratio(self.clean(self.ev(a[0]) - self.ev(a[1])))
            if op == 'eq':
                return self.al.z3of(n) == 0
            if d.is_number:
                e = self.al.z3of(n * (1 if d > 0 else -1))
            else:
                e = self.al.z3of(self.reduce(n * d))
            return e < 0 if op == 'lt' else e <= 0
        raise GiveUp(f'condition {op}')

    def decide(self, c):
        e = self.cond(c)
        if self.check(z3.Not(e)) == z3.unsat:
            return True
        if self.check(e) == z3.unsat:
            return False
        p = self.split_on(c)
        if p is None:
            raise GiveUp(f'undecided condition {str(c)[:100]}')
        raise Split(p)

    def split_on(self, c):
        if c.op in ('lt', 'le', 'eq'):
            n, d = self.ratio(self.clean(self.ev(c.args[0]) - self.ev(c.args[1])))
            q = self.reduce(n * d) if not d.is_number else n
            cc, fs = sympy.factor_list(q)
            rad = {r: f for f, r in self.roots.items()}
            fs = [f for f, _ in fs]
            if d.is_number is False:
                fs += [f for f, _ in sympy.factor_list(n)[1]]
            for f in fs:
                f = rad.get(f, f)
                if not any(f.has(r) for r in rad):
                    try:
                        self.sign(f)
                    except Split:
                        return f
            return None
        if c.op in ('and', 'or', 'not'):
            for x in c.args:
                r = self.split_on(x)
                if r is not None:
                    return r
        return None

    def zero(self, x):
        x = self.clean(x)
        if x == 0:
            return True
        n, d = self.ratio(x)
        return self.check(self.al.z3of(n) != 0) == z3.unsat

    def truth(self, c):
        if c.op == 'and':
            return all(self.truth(x) for x in c.args)
        e = self.cond(c)
        if self.check(z3.Not(e)) == z3.unsat:
            return True
        p = None
        try:
            p = self.split_on(c)
        except GiveUp:
            pass
        if p is not None:
            raise Split(p)
        return False


def equal(facts, u, v, ctx=None, budget=20.0):
    try:
        return Algebra(facts, ctx, budget).equal(u, v)
    except (GiveUp, Split, sympy.PolynomialError, Loop, RecursionError):
        return False


def holds(facts, cond, ctx=None, budget=20.0):
    try:
        return Algebra(facts, ctx, budget).holds(cond)
    except (GiveUp, Split, sympy.PolynomialError, Loop, RecursionError):
        return False
