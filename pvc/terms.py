"""Hash-consed terms of the verification conditions.

Numbers are mathematical (integers and reals).  `sum` is a bounded binder
ranging over 0 <= b < size; partial ranges are written with indicators.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

_table = {}
_counter = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'h')

    def __new__(cls, op, args, sort):
        key = (op, args, sort)
        t = _table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.sort = op, args, sort
            t.id = next(_counter)
            t.h = hash(t.id)
            t.fv = None
            _table[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError('terms are not picklable')

    def __repr__(self):
        return show(self)


def num(v):
    return T('num', (Fraction(v),), 'R')


ZERO, ONE, TWO, HALF = num(0), num(1), num(2), num(Fraction(1, 2))
TRUE, FALSE = T('true', (), 'B'), T('false', (), 'B')


def is_num(t):
    return t.op == 'num'


def nval(t):
    return t.args[0]


def var(name, sort='I'):
    return T('var', (name,), sort)


_fresh = itertools.count()


def fresh(prefix='b', sort='I'):
    return T('var', (f'{prefix}!{next(_fresh)}',), sort)


def app(f, args, sort='R'):
    return T('app', (f,) + tuple(args), sort)


def isint(t):
    """Syntactically integer valued."""
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op in ('var', 'app'):
        return t.sort == 'I'
    if t.op in ('add', 'mul'):
        return all(isint(a) for a in t.args)
    if t.op == 'pow':
        return isint(t.args[0]) and t.args[1] >= 0
    if t.op in ('floor', 'ceil', 'mod', 'clog2'):
        return True
    if t.op == 'pow2':
        return isint(t.args[0]) and nonneg_syn(t.args[0])
    if t.op == 'sum':
        return isint(t.args[2])
    if t.op == 'ite':
        return isint(t.args[1]) and isint(t.args[2])
    if t.op == 'ind':
        return True
    if t.op == 'abs':
        return isint(t.args[0])
    if t.op in ('minof', 'maxof'):
        return isint(t.args[2])
    return False


NONNEG = set()           # names of variables known to be >= 0


def nonneg_syn(t):
    """Syntactically not negative (binders range from 0)."""
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op == 'var':
        return t.args[0] in NONNEG or '!' in t.args[0] and t.args[0][0] in 'bsβ' or t.args[0][0] == 'β'
    if t.op in ('add', 'mul'):
        return all(nonneg_syn(a) for a in t.args)
    if t.op in ('abs', 'rpow', 'pow2', 'ind', 'clog2'):
        return True
    if t.op == 'pow':
        return t.args[1] % 2 == 0 or nonneg_syn(t.args[0])
    if t.op == 'app':
        return t.args[0][:2] in ('P:', 'Q:')
    return False


def lift(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        return num(Fraction(v))
    raise TypeError(f'not a term: {v!r}')


def add(*ts):
    out, c = [], Fraction(0)
    for t in ts:
        t = lift(t)
        for s in (t.args if t.op == 'add' else (t,)):
            if s.op == 'num':
                c += s.args[0]
            else:
                out.append(s)
    if c != 0:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return T('add', tuple(out), 'R')


def mul(*ts):
    out, c = [], Fraction(1)
    for t in ts:
        t = lift(t)
        for s in (t.args if t.op == 'mul' else (t,)):
            if s.op == 'num':
                c *= s.args[0]
            else:
                out.append(s)
    if c == 0:
        return ZERO
    if c != 1:
        out.insert(0, num(c))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return T('mul', tuple(out), 'R')


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return ZERO
    return add(a, neg(b))


def ipow(t, k):
    """Integer power (k may be negative)."""
    t = lift(t)
    k = int(k)
    if k == 0:
        return ONE
    if k == 1:
        return t
    if t.op == 'num' and (t.args[0] != 0 or k > 0):
        return num(t.args[0] ** k)
    if t.op == 'pow':
        return ipow(t.args[0], t.args[1] * k)
    if t.op == 'ind' and k > 0:
        return t
    return T('pow', (t, k), 'R')


def div(a, b):
    a, b = lift(a), lift(b)
    if b is ONE:
        return a
    return mul(a, ipow(b, -1))


def absv(t):
    t = lift(t)
    if t.op == 'num':
        return num(abs(t.args[0]))
    if t.op == 'abs' or (t.op == 'rpow'):
        return t
    if t.op == 'pow' and t.args[1] % 2 == 0:
        return t
    return T('abs', (t,), 'R')


def rpow(b, e):
    """b ** e for b >= 0 and a real exponent."""
    b, e = lift(b), lift(e)
    if e.op == 'num' and e.args[0].denominator == 1:
        return ipow(b, int(e.args[0]))
    if b is ZERO or b is ONE:
        return b
    if b.op == 'pow' and b.args[1] == 2:
        return rpow_abs(b.args[0], mul(e, TWO))
    if b.op == 'mul' and len(b.args) == 2 and b.args[0] is b.args[1]:
        return rpow_abs(b.args[0], mul(e, TWO))
    if b.op == 'rpow':
        return rpow(b.args[0], mul(b.args[1], e))
    if b.op == 'num' and e.op == 'num' and e.args[0] == Fraction(1, 2):
        p, q = _isqrt(b.args[0].numerator), _isqrt(b.args[0].denominator)
        if p is not None and q is not None:
            return num(Fraction(p, q))
    return T('rpow', (b, e), 'R')


def _isqrt(n):
    import math
    if n < 0:
        return None
    r = math.isqrt(n)
    return r if r * r == n else None


def rpow_abs(t, e):
    a = absv(t)
    if e.op == 'num' and e.args[0].denominator == 1:
        return ipow(a, int(e.args[0]))
    return rpow_plain(a, e)


def rpow_plain(b, e):
    if b is ZERO or b is ONE:
        return b
    return T('rpow', (b, e), 'R')


def sqrt(t):
    return rpow(t, HALF)


def _fc(op, t):
    t = lift(t)
    if t.op == 'num':
        import math
        return num(math.floor(t.args[0]) if op == 'floor' else math.ceil(t.args[0]))
    if isint(t):
        return t
    return T(op, (t,), 'I')


def floor(t):
    return _fc('floor', t)


def ceil(t):
    t = lift(t)
    if t.op == 'log2':
        return T('clog2', t.args, 'I')
    return _fc('ceil', t)


def log2(t):
    t = lift(t)
    return T('log2', (t,), 'R')


def pow2(t):
    t = lift(t)
    if t.op == 'num' and t.args[0].denominator == 1 and abs(t.args[0]) < 64:
        return num(Fraction(2) ** int(t.args[0]))
    return T('pow2', (t,), 'R')


def mod(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] % b.args[0])
    return T('mod', (a, b), 'I')


def floordiv(a, b):
    return floor(div(a, b))


# ---------------------------------------------------------------- booleans
def lt(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return FALSE
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] < b.args[0] else FALSE
    return T('lt', (a, b), 'B')


def le(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return T('le', (a, b), 'B')


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == 'B' or b.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return bnot(b)
        if b is FALSE:
            return bnot(a)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if b.id < a.id:
        a, b = b, a
    return T('eq', (a, b), 'B')


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    return T('not', (a,), 'B')


def ne(a, b):
    return bnot(eq(a, b))


def band(*ts):
    out = []
    for t in ts:
        for s in (t.args if t.op == 'and' else (t,)):
            if s is FALSE:
                return FALSE
            if s is not TRUE and s not in out:
                out.append(s)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T('and', tuple(out), 'B')


def bor(*ts):
    out = []
    for t in ts:
        for s in (t.args if t.op == 'or' else (t,)):
            if s is TRUE:
                return TRUE
            if s is not FALSE and s not in out:
                out.append(s)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T('or', tuple(out), 'B')


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    a, b = lift(a), lift(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B' and b.sort == 'B':
        return bor(band(c, a), band(bnot(c), b))
    if a is ONE and b is ZERO:
        return ind(c)
    if a is ZERO and b is ONE:
        return ind(bnot(c))
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    return T('ite', (c, a, b), 'R')


def ind(c):
    """Indicator of a condition: 1 or 0."""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return T('ind', (c,), 'I')


def b2r(t):
    return ind(t) if t.sort == 'B' else t


def summ(b, size, body):
    """Sum over 0 <= b < size; b must be a fresh variable."""
    size, body = lift(size), lift(body)
    if body is ZERO or size is ZERO:
        return ZERO
    if size.op == 'num' and size.args[0] <= 8:
        return add(*[subst(body, {b: num(k)}) for k in range(int(size.args[0]))])
    if b not in free(body):
        return mul(size, body)
    return T('sum', (b, size, body), 'R')


def sum_fn(size, f, prefix='b'):
    b = fresh(prefix)
    return summ(b, size, f(b))


def forall(bs, body):
    """Universally quantified condition, bs = ((var, size), ...)."""
    if body is TRUE:
        return TRUE
    return T('forall', (tuple(bs), body), 'B')


def minof(b, size, body):
    return T('minof', (b, lift(size), body), 'R')


def maxof(b, size, body):
    return T('maxof', (b, lift(size), body), 'R')


def fnof(name, bs, sizes, body, mask=None):
    """An arbitrary function of an array (of the selected elements of it)."""
    return T('fnof', (name, tuple(bs), tuple(lift(z) for z in sizes), body, TRUE if mask is None else mask), 'R')


BINDERS = ('sum', 'minof', 'maxof')


def free(t):
    """Free variables (a frozenset)."""
    if t.fv is None:
        if t.op == 'var':
            t.fv = frozenset((t,))
        elif t.op in BINDERS:
            t.fv = free(t.args[1]) | (free(t.args[2]) - {t.args[0]})
        elif t.op == 'forall':
            s = free(t.args[1]) - {b for b, _ in t.args[0]}
            for _, z in t.args[0]:
                s = s | free(z)
            t.fv = s
        elif t.op == 'SUM':
            s = free(t.args[2])
            for z in t.args[1]:
                s = s | free(z)
            t.fv = s - set(t.args[0])
        elif t.op == 'fnof':
            s = (free(t.args[3]) | free(t.args[4])) - set(t.args[1])
            for z in t.args[2]:
                s = s | free(z)
            t.fv = s
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    s = s | free(a)
            t.fv = s
    return t.fv


_REBUILD = {}


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return ipow(args[0], args[1])
    if op == 'rpow':
        return rpow(args[0], args[1])
    if op == 'abs':
        return absv(args[0])
    if op == 'floor':
        return floor(args[0])
    if op == 'ceil':
        return ceil(args[0])
    if op == 'clog2':
        return T('clog2', tuple(args), 'I')
    if op == 'pow2':
        return pow2(args[0])
    if op == 'mod':
        return mod(args[0], args[1])
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'not':
        return bnot(args[0])
    if op == 'and':
        return band(*args)
    if op == 'or':
        return bor(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'ind':
        return ind(args[0])
    if op == 'app' and args[0][:2] in ('P:', 'Q:'):
        return perm(*args)
    return T(op, tuple(args), t.sort)


def perm(name, t, *params):
    """Bijections of the integers: P:k is a permutation of its range, Q:k its inverse.

    `params` index a family of permutations (one for each iteration of a loop)."""
    t = lift(t)
    if t.op == 'app' and t.args[0][2:] == name[2:] and t.args[0][:2] in ('P:', 'Q:') and t.args[0][0] != name[0] and t.args[2:] == params:
        return t.args[1]
    return T('app', (name, t) + params, 'I')


def inverse(name):
    return ('Q:' if name[0] == 'P' else 'P:') + name[2:]


def subst(t, m):
    """Capture-avoiding substitution of variables (bound variables are fresh)."""
    memo = {}
    keys = set(m)

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'var':
            r = m.get(t, t)
        elif not (free(t) & keys):
            r = t
        elif t.op in BINDERS:
            b, size, body = t.args
            nb = fresh(b.args[0].split('!')[0])
            size = go(size)
            body = subst(subst(body, {b: nb}), {k: v for k, v in m.items() if k is not b})
            if t.op == 'sum':
                r = summ(nb, size, body)
            else:
                r = T(t.op, (nb, size, body), t.sort)
        elif t.op == 'forall':
            ren = {b: fresh(b.args[0].split('!')[0]) for b, _ in t.args[0]}
            body = subst(subst(t.args[1], ren), m)
            r = forall(tuple((ren[b], go(z)) for b, z in t.args[0]), body)
        elif t.op == 'fnof':
            name, bs, sizes, body, mask = t.args
            ren = {b: fresh('s') for b in bs}
            r = T('fnof', (name, tuple(ren[b] for b in bs), tuple(go(z) for z in sizes), subst(subst(body, ren), m),
                           subst(subst(mask, ren), m)), t.sort)
        elif t.op == 'SUM':
            bs, sizes, body = t.args
            ren = {b: fresh('s') for b in bs}
            nb = subst(subst(body, ren), m)
            sizes = tuple(go(z) for z in sizes)
            r = nb
            for b, z in zip(bs, sizes):
                r = T('sum', (ren[b], z, r), 'R')
        else:
            r = rebuild(t, tuple(go(a) for a in t.args))
        memo[t] = r
        return r

    return go(t)


def map_terms(t, f):
    """Bottom-up rewriting: f(t) for every rebuilt subterm."""
    memo = {}

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is None:
            if t.op in ('var', 'num', 'true', 'false'):
                r = f(t)
            elif t.op == 'sum':
                b, size, body = t.args
                r = f(summ(b, go(size), go(body)))
            elif t.op in ('minof', 'maxof'):
                b, size, body = t.args
                r = f(T(t.op, (b, go(size), go(body)), t.sort))
            elif t.op == 'forall':
                r = f(forall(tuple((b, go(z)) for b, z in t.args[0]), go(t.args[1])))
            elif t.op == 'fnof':
                name, bs, sizes, body, mask = t.args
                r = f(T('fnof', (name, bs, tuple(go(z) for z in sizes), go(body), go(mask)), t.sort))
            elif t.op == 'SUM':
                bs, sizes, body = t.args
                r = f(T('SUM', (bs, tuple(go(z) for z in sizes), go(body)), t.sort))
            else:
                r = f(rebuild(t, tuple(go(a) for a in t.args)))
            memo[t] = r
        return r

    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        s = stack.pop()
        if s in seen:
            continue
        seen.add(s)
        for a in s.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                for q in a:
                    if isinstance(q, T):
                        stack.append(q)
                    elif isinstance(q, tuple):
                        stack.extend(z for z in q if isinstance(z, T))
    return seen


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.args
    if o == 'num':
        return str(a[0])
    if o == 'var':
        return a[0]
    if o == 'app':
        return f"{a[0]}({','.join(show(x) for x in a[1:])})"
    if o == 'add':
        return '(' + ' + '.join(show(x) for x in a) + ')'
    if o == 'mul':
        return '*'.join(show(x) for x in a)
    if o == 'pow':
        return f'{show(a[0])}^{a[1]}'
    if o == 'rpow':
        return f'{show(a[0])}^({show(a[1])})'
    if o == 'sum':
        return f'Σ[{show(a[0])}<{show(a[1])}]({show(a[2])})'
    if o == 'SUM':
        return 'Σ[' + ','.join(f'{show(b)}<{show(z)}' for b, z in zip(a[0], a[1])) + f']({show(a[2])})'
    if o == 'ind':
        return f'[{show(a[0])}]'
    if o == 'ite':
        return f'({show(a[0])} ? {show(a[1])} : {show(a[2])})'
    if o in ('lt', 'le', 'eq'):
        return f"{show(a[0])}{dict(lt='<', le='<=', eq='=')[o]}{show(a[1])}"
    if o == 'forall':
        return 'forall ' + ','.join(f'{show(b)}<{show(z)}' for b, z in a[0]) + ': ' + show(a[1])
    return f"{o}({','.join(show(x) for x in a)})"


def replace(t, mp):
    """Replace subterms (matched before rebuilding); binders are not renamed."""
    memo = {}

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is None:
            if t in mp:
                r = mp[t]
            elif t.op in ('var', 'num', 'true', 'false'):
                r = t
            elif t.op == 'sum':
                b, size, body = t.args
                r = summ(b, go(size), go(body))
            elif t.op in ('minof', 'maxof'):
                b, size, body = t.args
                r = T(t.op, (b, go(size), go(body)), t.sort)
            elif t.op == 'forall':
                r = forall(tuple((b, go(z)) for b, z in t.args[0]), go(t.args[1]))
            elif t.op == 'fnof':
                name, bs, sizes, body, mask = t.args
                r = T('fnof', (name, bs, tuple(go(z) for z in sizes), go(body), go(mask)), t.sort)
            elif t.op == 'SUM':
                bs, sizes, body = t.args
                r = T('SUM', (bs, tuple(go(z) for z in sizes), go(body)), t.sort)
            else:
                r = rebuild(t, tuple(go(a) for a in t.args))
            memo[t] = r
        return r

    return go(t)
