"""Normal form of numeric terms: polynomials over canonical atoms.

Atoms are variables, applications, canonical sums (SUM), indicators of
canonical conditions, |p|, p^e, p^-1, floor, ceil, 2^t ...  The rules used:

 R1  linearity and distributivity of finite sums
 R2  sum of a product over independent binders = product of sums
 R3  sum_b [b = t] f(b) = [0 <= t < size] f(t)
 R4  sum_b f(b) = sum_b f(Q b) for a permutation Q of the range
 R5  indicator algebra: [c]^2 = [c], [not c] = 1 - [c], [c and d] = [c][d]
 R6  |p|^2 = p^2, sqrt(p)^2 = p (p >= 0)
 R7  sum_b [b <= t] 2^(c-b) = 2^(c+1) - 2^(c-t)   (0 <= t < size), and the parts t < b and all b

Each is a theorem of /verif/lean/Rules.lean.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

from terms import *
from terms import T, BINDERS

ONEM = ()


class Ctx:
    """Facts in force: substitutions, permutation sizes, provable ranges."""

    def __init__(self, perm_size=None, prove=None, subst_map=None):
        self.perm_size = perm_size if perm_size is not None else {}
        self.prove_fn = prove
        self.memo = {}
        self.sub = subst_map or {}
        self.scope = []          # (binder, size) currently bound
        self.side = []           # side conditions of the rules that were used

    def known(self, cond, extra=()):
        """Is a simple range condition known to hold?"""
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        if self.prove_fn is None:
            return False
        return self.prove_fn(cond, tuple(self.scope) + tuple(extra))


def p_const(c):
    return {ONEM: Fraction(c)} if c != 0 else {}


def p_atom(a, e=1):
    return {((a, e),): Fraction(1)}


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(p, k):
    return {m: c * k for m, c in p.items()} if k != 0 else {}


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda z: z[0].id))


def special(m):
    for a, e in m:
        if e != 1 and a.op in ('ind', 'abs', 'rpow', 'pow2'):
            if a.op == 'ind' and e > 1:
                return True
            if a.op == 'abs' and (e >= 2 or e <= -2):
                return True
            if a.op == 'rpow' and a.args[1].op == 'num' and (a.args[1].args[0] * e).denominator == 1:
                return True
            if a.op == 'rpow' and a.args[1].op == 'num' and abs(e) >= 2 and a.args[1].args[0].denominator == 2:
                return True
    n2 = sum(1 for a, e in m if a.op == 'pow2') + sum(abs(e) - 1 for a, e in m if a.op == 'pow2')
    return n2 >= 2


def p_mul(p, q, ctx):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            if special(m):
                for m3, c3 in fix(m, ctx).items():
                    v = r.get(m3, 0) + c * c3
                    if v == 0:
                        r.pop(m3, None)
                    else:
                        r[m3] = v
            else:
                v = r.get(m, 0) + c
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
    return r


def fix(m, ctx):
    """Apply R5, R6 and 2^a 2^b = 2^(a+b) to a monomial."""
    out = p_const(1)
    rest = []
    two = ZERO
    ntwo = 0
    for a, e in m:
        if a.op == 'ind' and e > 1:
            rest.append((a, 1))
        elif a.op == 'abs' and abs(e) >= 2:
            k = (abs(e) // 2) * 2
            out = p_mul(out, p_pow(nf(a.args[0], ctx), k if e > 0 else -k, ctx), ctx)
            if abs(e) % 2:
                rest.append((a, 1 if e > 0 else -1))
        elif a.op == 'rpow' and a.args[1].op == 'num' and ((a.args[1].args[0] * e).denominator == 1 or (a.args[1].args[0].denominator == 2 and abs(e) >= 2)):
            tot = a.args[1].args[0] * e
            if tot.denominator == 1:
                out = p_mul(out, p_pow(nf(a.args[0], ctx), int(tot), ctx), ctx)
            else:
                # keep a square root to the first power
                s = 1 if tot > 0 else -1
                k = int(tot - s * Fraction(1, 2)) if a.args[1].args[0] == Fraction(1, 2) else None
                if k is None:
                    rest.append((a, e))
                else:
                    out = p_mul(out, p_pow(nf(a.args[0], ctx), k, ctx), ctx)
                    rest.append((a, s))
        elif a.op == 'pow2':
            two = add(two, mul(num(e), a.args[0]))
            ntwo += abs(e)
        else:
            rest.append((a, e))
    base = {tuple(sorted(rest, key=lambda z: z[0].id)): Fraction(1)}
    if ntwo:
        base = p_mul_plain(base, nf_pow2(two, ctx))
    if out == {ONEM: 1}:
        return base
    return p_mul(base, out, ctx)


def p_mul_plain(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def nf_pow2(t, ctx):
    p = nf(t, ctx)
    c = p.get(ONEM, Fraction(0))
    if c.denominator == 1:
        q = {m: v for m, v in p.items() if m != ONEM}
        if not q:
            return p_const(Fraction(2) ** int(c))
        return {((pow2(to_term(q)), 1),): Fraction(2) ** int(c)}
    return p_atom(pow2(to_term(p)))


def p_pow(p, k, ctx):
    if k == 0:
        return p_const(1)
    if k > 0:
        r = p
        for _ in range(k - 1):
            r = p_mul(r, p, ctx)
        return r
    if not p:
        return p_atom(T('inv0', (), 'R'), 1)     # division by a syntactic zero: opaque
    if len(p) == 1:
        (m, c), = p.items()
        mm = tuple((a, e * k) for a, e in m)
        r = {mm: Fraction(1) / c ** (-k)}
        if special(mm):
            r = p_scale(fix(mm, ctx), Fraction(1) / c ** (-k))
        return r
    fs = factors(p)
    if fs is not None:
        r = p_const(1)
        for q, e in fs:
            r = p_mul(r, p_pow(q, k * e, ctx), ctx)
        return r
    lead = min(p, key=smono)
    c = p[lead]
    q = p_scale(p, 1 / c)
    a = T('inv', (to_term(q),), 'R')
    return {((a, -k),): Fraction(1) / c ** (-k)}


_fmemo = {}


def factors(p):
    """Linear factors of a polynomial in one atom, [(factor, multiplicity)], or None if there is nothing to split."""
    atom = None
    co = {}
    for m, c in p.items():
        if m == ONEM:
            co[0] = c
            continue
        if len(m) != 1 or m[0][1] < 0 or (atom is not None and m[0][0] is not atom):
            return None
        atom = m[0][0]
        co[m[0][1]] = c
    if atom is None:
        return None
    deg = max(co)
    if deg < 2 or deg > 8:
        return None
    key = (atom, tuple(sorted(co.items())))
    if key in _fmemo:
        return _fmemo[key]
    import math
    cs = [Fraction(co.get(i, 0)) for i in range(deg + 1)]
    roots = []
    while len(cs) > 1:
        den = 1
        for c in cs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        ic = [int(c * den) for c in cs]
        cand = [Fraction(0)] if ic[0] == 0 else []
        if ic[0] != 0:
            if abs(ic[0]) > 10 ** 6 or abs(ic[-1]) > 10 ** 6:
                break
            dn = [d for d in range(1, min(abs(ic[0]), 60) + 1) if ic[0] % d == 0]
            dd = [d for d in range(1, min(abs(ic[-1]), 12) + 1) if ic[-1] % d == 0]
            cand = [Fraction(sg * a, b) for a in dn for b in dd for sg in (1, -1)]
        r = next((x for x in cand if sum(c * x ** i for i, c in enumerate(cs)) == 0), None)
        if r is None:
            break
        roots.append(r)
        # synthetic division
        new = [Fraction(0)] * (len(cs) - 1)
        acc = Fraction(0)
        for i in reversed(range(1, len(cs))):
            acc = cs[i] + acc * r
            new[i - 1] = acc
        cs = new
    if not roots:
        _fmemo[key] = None
        return None
    out = []
    for r in sorted(set(roots)):
        q = {((atom, 1),): Fraction(1)}
        if r:
            q[ONEM] = -r
        out.append((q, roots.count(r)))
    rest = {}
    for i, c in enumerate(cs):
        if c:
            rest[ONEM if i == 0 else ((atom, i),)] = c
    if rest != {ONEM: 1}:
        out.append((rest, 1))
    if len(out) == 1 and out[0][1] == 1:
        out = None
    _fmemo[key] = out
    return out


def mkey(m):
    return tuple((a.id, e) for a, e in m)


_sk = {}


def skey(t):
    """Structural order of terms (variables in order of creation)."""
    r = _sk.get(t)
    if r is None:
        if t.op == 'num':
            r = ('num', t.args[0])
        elif t.op == 'var':
            nm, _, k = t.args[0].partition('!')
            r = ('var', nm, int(k) if k else -1)
        else:
            out = []
            for a in t.args:
                if isinstance(a, T):
                    out.append(skey(a))
                elif isinstance(a, tuple):
                    out.append(('@t',) + tuple(skey(q) if isinstance(q, T) else ('@', str(q)) for q in a))
                else:
                    out.append(('@', str(a)))
            r = (t.op, tuple(out))
        _sk[t] = r
    return r



def smono(m):
    return sorted(((skey(a), e) for a, e in m))


def m_term(m):
    return mul(*[ipow(a, e) if a.op != 'inv' else ipow(a, e) for a, e in m])


_tt = {}


def to_term(p):
    key = frozenset(p.items())
    t = _tt.get(key)
    if t is None:
        t = add(*[mul(num(c), m_term(m)) for m, c in sorted(p.items(), key=lambda z: mkey(z[0]))])
        _tt[key] = t
    return t


def nf(t, ctx):
    r = ctx.memo.get(t)
    if r is None:
        r = _nf(t, ctx)
        ctx.memo[t] = r
    return r


def canon(t, ctx):
    return to_term(nf(t, ctx))


def poly_isint(p):
    return all(c.denominator == 1 and all(e >= 0 and isint(a) for a, e in m) for m, c in p.items())


def _nf(t, ctx):
    op = t.op
    if op == 'num':
        return p_const(t.args[0])
    if op == 'var':
        s = ctx.sub.get(t)
        return nf(s, ctx) if s is not None else p_atom(t)
    if op == 'add':
        r = {}
        for a in t.args:
            r = p_add(r, nf(a, ctx))
        return r
    if op == 'mul':
        r = p_const(1)
        for a in t.args:
            r = p_mul(r, nf(a, ctx), ctx)
            if not r:
                break
        return r
    if op == 'pow':
        return p_pow(nf(t.args[0], ctx), t.args[1], ctx)
    if op == 'inv':
        return p_pow(nf(t.args[0], ctx), -1, ctx)
    if op == 'inv0':
        return p_atom(t)
    if op == 'app':
        if t.args[0][:2] in ('P:', 'Q:'):
            r = perm(t.args[0], *[canon(a, ctx) for a in t.args[1:]])
            return p_atom(r) if r.op == 'app' else nf(r, ctx)
        return p_atom(T('app', (t.args[0],) + tuple(canon(a, ctx) for a in t.args[1:]), t.sort))
    if op == 'abs':
        p = nf(t.args[0], ctx)
        return nf_abs(p, ctx)
    if op == 'rpow':
        return nf_rpow(nf(t.args[0], ctx), nf(t.args[1], ctx), ctx)
    if op in ('floor', 'ceil'):
        p = nf(t.args[0], ctx)
        # pull out the integer part
        ip = {m: c for m, c in p.items() if c.denominator == 1 and all(e >= 0 and int_atom(a, ctx) for a, e in m)}
        rp = {m: c for m, c in p.items() if m not in ip}
        if not rp:
            return ip
        if set(rp) == {ONEM}:
            import math
            c = rp[ONEM]
            return p_add(ip, p_const(math.floor(c) if op == 'floor' else math.ceil(c)))
        return p_add(ip, p_atom(T(op, (to_term(rp),), 'I')))
    if op == 'mod':
        p, q = nf(t.args[0], ctx), nf(t.args[1], ctx)
        if set(q) <= {ONEM} and q:
            k = q[ONEM]
            # reduce integer coefficients modulo k
            red = {}
            for m, c in p.items():
                if k.denominator == 1 and c.denominator == 1 and all(e >= 0 and isint(a) for a, e in m):
                    c = c % k
                if c != 0:
                    red[m] = c
            if set(red) <= {ONEM}:
                return p_const(red.get(ONEM, Fraction(0)) % k)
            return p_atom(T('mod', (to_term(red), num(k)), 'I'))
        return p_atom(T('mod', (to_term(p), to_term(q)), 'I'))
    if op == 'pow2':
        return nf_pow2(t.args[0], ctx)
    if op == 'clog2':
        return p_atom(T('clog2', (canon(t.args[0], ctx),), 'I'))
    if op == 'log2':
        return p_atom(T('log2', (canon(t.args[0], ctx),), 'R'))
    if op == 'ind':
        return nf_ind(t.args[0], ctx)
    if op == 'ite':
        c = nf_ind(t.args[0], ctx)
        a, b = nf(t.args[1], ctx), nf(t.args[2], ctx)
        # b + c*(a-b)
        return p_add(b, p_mul(c, p_add(a, b, -1), ctx))
    if op == 'sum':
        b, size, body = t.args
        ctx.scope.append((b, size))
        p = nf(body, ctx)
        ctx.scope.pop()
        return nf_sum(b, canon(size, ctx), p, ctx)
    if op == 'SUM':
        bs, sizes, body = t.args
        ren = {b: fresh('s') for b in bs}
        r = subst(body, ren)
        for b, z in zip(bs, sizes):
            r = T('sum', (ren[b], z, r), 'R')
        return nf(r, ctx)
    if op == 'fnof':
        name, bs, sizes, body, mask = t.args
        sizes = tuple(canon(z, ctx) for z in sizes)
        h = max(height(body), height(mask)) + 1
        cbs = tuple(var(f'β{h}_{i}f_{sizes[i].id}') for i in range(len(bs)))
        m = dict(zip(bs, cbs))
        ctx.scope.extend(zip(cbs, sizes))
        body = canon(subst(body, m), ctx)
        mask = subst(mask, m)
        mk = nf_ind(mask, ctx)
        del ctx.scope[len(ctx.scope) - len(cbs):]
        return p_atom(T('fnof', (name, cbs, sizes, body, eq(to_term(mk), ONE)), t.sort))
    if op in ('minof', 'maxof'):
        b, size, body = t.args
        size = canon(size, ctx)
        h = height(body) + 1
        cb = var(f'β{h}_m_{size.id}')
        ctx.scope.append((cb, size))
        body = subst(body, {b: cb})
        # reindex a permuted range
        body = canon(body, ctx)
        for nm in perm_order(ctx):
            for pt in [q for q in subterms(body) if q.op == 'app' and q.args[0] == nm and q.args[1] is cb]:
                if size is canon(ctx.perm_size[nm], ctx) and not any(cb in free(q) for q in pt.args[2:]):
                    body = canon(subst(body, {cb: perm(inverse(nm), cb, *pt.args[2:])}), ctx)
                    break
        # translation: min_b (f(b) + c) = min_b f(b) + c
        p = nf(body, ctx)
        ctx.scope.pop()
        ins = {m: c for m, c in p.items() if any(cb in free(a) for a, e in m)}
        outs = {m: c for m, c in p.items() if m not in ins}
        if not ins:
            return p
        return p_add(p_atom(T(op, (cb, size, to_term(ins)), t.sort)), outs)
    if t.sort == 'B':
        return nf_ind(t, ctx)
    # opaque operations
    return p_atom(T(op, tuple(canon(a, ctx) if isinstance(a, T) else a for a in t.args), t.sort))


def int_atom(a, ctx):
    if isint(a):
        return True
    return a.op == 'pow2' and isint(a.args[0]) and ctx.known(le(ZERO, a.args[0]))


def perm_order(ctx):
    return sorted(ctx.perm_size)


def content(p):
    """Positive rational content, so that p/content has coprime integer coefficients."""
    from math import gcd
    n, d = 0, 1
    for c in p.values():
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    return Fraction(n, d) if n else Fraction(1)


def nf_abs(p, ctx):
    if not p:
        return {}
    if set(p) == {ONEM}:
        return p_const(abs(p[ONEM]))
    k = content(p)
    lead = min((m for m in p if m != ONEM), key=smono)
    s = 1 if p[lead] > 0 else -1
    q = p_scale(p, Fraction(s) / k)
    if len(q) == 1:
        (m, c), = q.items()
        # |a b| = |a| |b| ; even powers, absolute values and roots are not negative
        out = p_const(k * abs(c))
        for a, e in m:
            if nonneg_atom(a) or e % 2 == 0:
                out = p_mul(out, {((a, e),): Fraction(1)}, ctx)
            else:
                out = p_mul(out, {((T('abs', (a,), 'R'), e),): Fraction(1)}, ctx)
        return out
    g = common_factor(q)
    if g:
        # |a p| = |a| |p|
        return p_scale(p_mul(nf_abs({tuple(g): Fraction(1)}, ctx), nf_abs(divided(q, g), ctx), ctx), k)
    return {((T('abs', (to_term(q),), 'R'), 1),): k}


def common_factor(p):
    """The powers of atoms that divide every monomial."""
    g = None
    for m in p:
        d = {a: e for a, e in m if e > 0}
        g = d if g is None else {a: min(e, d[a]) for a, e in g.items() if a in d}
        if not g:
            return ()
    return tuple(sorted(g.items(), key=lambda z: z[0].id))


def divided(p, g):
    g = dict(g)
    out = {}
    for m, c in p.items():
        out[tuple((a, e - g.get(a, 0)) for a, e in m if e != g.get(a, 0))] = c
    return out


def nonneg_atom(a):
    return a.op in ('abs', 'rpow', 'ind', 'pow2', 'clog2')


def nf_rpow(b, e, ctx):
    if set(e) <= {ONEM}:
        ev = e.get(ONEM, Fraction(0))
        if ev.denominator == 1:
            return p_pow(b, int(ev), ctx)
    if not b:
        return {}
    g = [(a, k if nonneg_atom(a) else k - k % 2) for a, k in common_factor(b)]
    g = tuple((a, k) for a, k in g if k)
    if g and (len(b) > 1 or len(next(iter(b))) > 1) and ((set(e) == {ONEM} and e[ONEM] > 0) or ctx.known(lt(ZERO, to_term(e)))):
        # (a^2 p)^e = |a|^(2e) p^e, and (a p)^e = a^e p^e for a >= 0
        r = nf_rpow(divided(b, g), e, ctx)
        for a, k in g:
            r = p_mul(r, nf_rpow(p_atom(a) if nonneg_atom(a) else nf_abs(p_atom(a), ctx), p_scale(e, k), ctx), ctx)
        return r
    if set(b) == {ONEM}:
        r = rpow(num(b[ONEM]), to_term(e))
        return p_atom(r) if r.op == 'rpow' else nf(r, ctx)
    if len(b) == 1:
        (m, c), = b.items()
        # perfect square of one atom
        if c > 0 and len(m) == 1 and m[0][1] == 2:
            two_e = p_scale(e, 2)
            ab = nf_abs({((m[0][0], 1),): Fraction(1)}, ctx)
            r = nf_rpow(ab, two_e, ctx)
            if c != 1:
                r = p_mul(r, nf(rpow(num(c), to_term(e)), ctx), ctx)
            return r
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'rpow':
            a = m[0][0]
            return nf_rpow(nf(a.args[0], ctx), nf(mul(a.args[1], to_term(e)), ctx), ctx)
        if c == 1 and len(m) == 1 and m[0][0].op == 'ind' :
            return b
    else:
        q = square_root(b, ctx)
        if q is not None:
            return nf_rpow(nf_abs(q, ctx), p_scale(e, 2), ctx)
    return p_atom(T('rpow', (to_term(b), to_term(e)), 'R'))


def square_root(p, ctx):
    """q with q^2 = p if p is a perfect square of a linear form in atoms, else None."""
    sq = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 2 and c > 0:
            from terms import _isqrt
            n, d = _isqrt(c.numerator), _isqrt(c.denominator)
            if n is None or d is None:
                return None
            sq[m[0][0]] = Fraction(n, d)
    if len(sq) < 2 and len(p) > 1 and ONEM not in p:
        return None
    atoms = sorted(sq, key=lambda a: a.id)
    if not atoms or len(atoms) > 6:
        return None
    q = {((atoms[0], 1),): sq[atoms[0]]}
    for a in atoms[1:]:
        m = tuple(sorted(((atoms[0], 1), (a, 1)), key=lambda z: z[0].id))
        c = p.get(m, Fraction(0))
        if c == 0:
            return None
        q[((a, 1),)] = sq[a] if c > 0 else -sq[a]
    if ONEM in p:
        c = p.get(((atoms[0], 1),), Fraction(0))
        q[ONEM] = c / (2 * sq[atoms[0]])
    r = {}
    for m1, c1 in q.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return q if r == p else None


def nf_ind(c, ctx):
    r = ctx.memo.get(('ind', c))
    if r is None:
        r = _nf_ind(c, ctx)
        ctx.memo[('ind', c)] = r
    return r


def _nf_ind(c, ctx):
    if c is TRUE:
        return p_const(1)
    if c is FALSE:
        return {}
    if c.op == 'and':
        r = p_const(1)
        for a in c.args:
            r = p_mul(r, nf_ind(a, ctx), ctx)
        return r
    if c.op == 'not':
        return p_add(p_const(1), nf_ind(c.args[0], ctx), -1)
    if c.op == 'or':
        r = p_const(1)
        for a in c.args:
            r = p_mul(r, p_add(p_const(1), nf_ind(a, ctx), -1), ctx)
        return p_add(p_const(1), r, -1)
    if c.op in ('lt', 'le'):
        p = p_add(nf(c.args[0], ctx), nf(c.args[1], ctx), -1)
        if c.op == 'lt':
            return ind_lt(p, ctx)
        if isint_pair(p):
            return ind_lt(p_add(p, p_const(Fraction(1) * int_unit(p)), -1), ctx)
        return p_add(p_const(1), ind_lt(p_scale(p, -1), ctx), -1)
    if c.op == 'eq':
        p = p_add(nf(c.args[0], ctx), nf(c.args[1], ctx), -1)
        if not p:
            return p_const(1)
        if set(p) == {ONEM}:
            return {}
        p = eq_zero(p, ctx)
        if set(p) == {ONEM}:
            return {}
        k = content(p)
        lead = min((m for m in p if m != ONEM), key=smono)
        p = p_scale(p, (1 if p[lead] > 0 else -1) / k)
        if any(a.op == 'SUM' or (a.op == 'app' and len(a.args) == 1) for m in p for a, _ in m):
            t = T('eq', (to_term(p), ZERO), 'B')
            if ctx.known(t):
                return p_const(1)
            if ctx.known(bnot(t)):
                return {}
        if isint_pair({m: v for m, v in p.items() if m != ONEM}) and p.get(ONEM, Fraction(0)).denominator != 1:
            return {}
        return p_atom(ind(T('eq', (to_term(p), ZERO), 'B')))
    if c.op == 'forall':
        return p_atom(T('ind', (c,), 'I'))
    if c.op == 'var' or c.op == 'app':
        t = c if c.op == 'var' else T('app', (c.args[0],) + tuple(canon(a, ctx) for a in c.args[1:]), 'B')
        return p_atom(T('ind', (t,), 'I'))
    if c.op == 'ite':
        cc = nf_ind(c.args[0], ctx)
        a, b = nf_ind(c.args[1], ctx), nf_ind(c.args[2], ctx)
        return p_add(b, p_mul(cc, p_add(a, b, -1), ctx))
    return p_atom(T('ind', (c,), 'I'))


def eq_zero(p, ctx):
    """A simpler q with q = 0 iff p = 0: factors known not to vanish are dropped."""
    atoms = {}
    for m in p:
        d = dict(m)
        for a in set(atoms) | set(d):
            atoms.setdefault(a, []).append(d.get(a, 0))
    nm = len(p)
    shift = {}
    for a, es in atoms.items():
        lo = min(es + [0] * (nm - len(es)))
        if lo != 0 and a.op != 'SUM' and (a.op == 'pow2' or ctx.known(bnot(T('eq', (a, ZERO), 'B')))):
            shift[a] = lo
    if not shift:
        return unwrap(p, ctx)
    out = {}
    for m, c in p.items():
        d = dict(m)
        for a, lo in shift.items():
            d[a] = d.get(a, 0) - lo
        out = p_add(out, p_mul({ONEM: c}, nf(mul(*[ipow(a, e) for a, e in d.items() if e]), ctx), ctx))
    return unwrap(out, ctx)


def unwrap(p, ctx):
    """A product vanishes with its factors, |q| and roots of q >= 0 with q."""
    for _ in range(6):
        if len(p) != 1:
            return p
        (m, c), = p.items()
        fs, change = [], False
        for a, e in m:
            if e < 0:
                return p
            if a.op == 'abs':
                fs.append(a.args[0])
                change = True
            elif a.op == 'rpow' and a.args[1].op == 'num' and a.args[1].args[0] > 0 and nonneg_term(a.args[0]):
                fs.append(a.args[0])
                change = True
            else:
                fs.append(a)
                change = change or e != 1
        if not change:
            return p
        p = nf(mul(*fs), ctx)
    return p


def nonneg_term(t):
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op == 'mul':
        return all(nonneg_term(a) for a in t.args)
    if t.op == 'add':
        return all(nonneg_term(a) for a in t.args)
    if t.op == 'pow':
        return t.args[1] % 2 == 0 or nonneg_term(t.args[0])
    return nonneg_atom(t)


def isint_pair(p):
    k = content(p)
    return all(all(e >= 0 and isint(a) for a, e in m) for m in p) and all((v / k).denominator == 1 for v in p.values())


def int_unit(p):
    # p = k * q with q integer valued; p <= 0 iff q < 1 iff p - k < 0
    return content(p)


def bound(p, ctx, upper):
    """Largest (smallest) value of p over the ranges of the binders, if it is a number."""
    sizes = dict(ctx.scope)
    for _ in range(6):
        if set(p) <= {ONEM}:
            return p.get(ONEM, Fraction(0))
        hit = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in sizes:
                b = m[0][0]
                if any(b in free(a) for q in p if q != m for a, _ in q):
                    continue
                hit = (m, c, b)
                if (c > 0) == upper:
                    break
        if hit is None:
            return None
        m, c, b = hit
        rest = {q: v for q, v in p.items() if q != m}
        if (c > 0) == upper:
            p = p_add(rest, p_scale(p_add(nf(sizes[b], ctx), p_const(-1)), c))
        else:
            p = rest
    return None


def linear_offset(p, ctx):
    """A linear expression in sizes and one or more index variables (offsets of slices)."""
    scope = {b for b, _ in ctx.scope}
    kinds = set()
    for m in p:
        if m == ONEM:
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'var' or m[0][0].sort != 'I':
            return False
        kinds.add(m[0][0] in scope)
    return kinds == {True, False}


def ind_lt(p, ctx):
    """Indicator of p < 0."""
    if not p:
        return {}
    if set(p) == {ONEM}:
        return p_const(1) if p[ONEM] < 0 else {}
    if nonneg_term(to_term(p)):
        return {}
    if ctx.scope and len(p) <= 4:
        u = bound(p, ctx, True)
        if u is not None and u < 0:
            return p_const(1)
        u = bound(p, ctx, False)
        if u is not None and u >= 0:
            return {}
        if linear_offset(p, ctx):
            t = to_term(p)
            if ctx.known(T('le', (ZERO, t), 'B')):
                return {}
            if ctx.known(T('lt', (t, ZERO), 'B')):
                return p_const(1)
    nz = {m: c for m, c in p.items() if m != ONEM}
    k = content(nz)
    p = p_scale(p, 1 / k)
    nz = {m: c for m, c in p.items() if m != ONEM}
    lead = min(nz, key=smono)
    if isint_pair(nz):
        c0 = p.get(ONEM, Fraction(0))
        import math
        # q + c0 < 0 with q integer valued  <=>  q + ceil(c0) < 0
        c0 = Fraction(math.ceil(c0))
        if nz[lead] < 0:
            # q + c0 < 0  <=>  not (-q - c0 < 1)  <=> not(-q - c0 - 1 < 0)
            r = p_add(p_scale(nz, -1), p_const(-c0 - 1))
            return p_add(p_const(1), p_atom(ind(T('lt', (to_term(r), ZERO), 'B'))), -1)
        return p_atom(ind(T('lt', (to_term(p_add(nz, p_const(c0))), ZERO), 'B')))
    return p_atom(ind(T('lt', (to_term(p), ZERO), 'B')))


# ---------------------------------------------------------------- sums
_hmemo = {}


def height(t):
    """Nesting depth of canonical binders (to avoid capture)."""
    r = _hmemo.get(t)
    if r is None:
        r = 0
        if t.op == 'SUM':
            r = max([height(t.args[2])] + [height(z) for z in t.args[1]]) + 1
        elif t.op in ('minof', 'maxof', 'sum'):
            r = max(height(t.args[1]), height(t.args[2])) + 1
        elif t.op == 'forall':
            r = height(t.args[1]) + 1
        elif t.op == 'fnof':
            r = max([height(t.args[3]), height(t.args[4])] + [height(z) for z in t.args[2]]) + 1
        else:
            for a in t.args:
                if isinstance(a, T):
                    r = max(r, height(a))
        _hmemo[t] = r
    return r


def nf_sum(b, size, p, ctx):
    if len(size.args) and size.op == 'num' and size.args[0] <= 8:
        return nf(add(*[subst(to_term(p), {b: num(k)}) for k in range(int(size.args[0]))]), ctx)
    out = {}
    for m, c in p.items():
        dep = tuple((a, e) for a, e in m if b in free(a))
        ind_ = tuple((a, e) for a, e in m if b not in free(a))
        if not dep:
            r = p_mul({ind_: c}, nf(size, ctx), ctx)
        else:
            r = sum_mono(((b, size),), dep, ctx)
            r = p_mul({ind_: c}, r, ctx)
        out = p_add(out, r)
    return out


def sum_mono(binders, mono, ctx):
    """Canonical value of sum over `binders` of the monomial."""
    # 1. pull inner sums out
    bset = {b for b, _ in binders}
    bl = list(binders)
    atoms = []
    work = list(mono)
    while work:
        a, e = work.pop()
        if a.op == 'SUM' and (free(a) & bset) and e > 0:
            for _ in range(e):
                bs, sizes, body = a.args
                ren = {q: fresh('s') for q in bs}
                nb = subst(body, ren)
                for q, z in zip(bs, sizes):
                    bl.append((ren[q], z))
                    bset.add(ren[q])
                for s in (nb.args if nb.op == 'mul' else (nb,)):
                    if s.op == 'pow':
                        work.append((s.args[0], s.args[1]))
                    elif s.op == 'num':
                        atoms.append((s, 1))
                    else:
                        work.append((s, 1))
        else:
            atoms.append((a, e))
    if len(bl) > len(binders):
        body = mul(*[ipow(a, e) for a, e in atoms])
        ctx.scope.extend(bl)
        p = nf_open(body, bset, ctx)
        del ctx.scope[len(ctx.scope) - len(bl):]
        return sum_poly(tuple(bl), p, ctx)
    return sum_flat(tuple(bl), tuple(atoms), ctx)


def nf_open(t, bset, ctx):
    return nf(t, ctx)


def sum_poly(binders, p, ctx):
    out = {}
    bset = {b for b, _ in binders}
    for m, c in p.items():
        dep = tuple((a, e) for a, e in m if free(a) & bset)
        ind_ = tuple((a, e) for a, e in m if not (free(a) & bset))
        used = set()
        for a, e in dep:
            used |= free(a) & bset
        r = {ind_: c}
        for b, z in binders:
            if b not in used:
                r = p_mul(r, nf(z, ctx), ctx)
        if used:
            r = p_mul(r, sum_mono(tuple((b, z) for b, z in binders if b in used), dep, ctx), ctx)
        out = p_add(out, r)
    return out


def solve_for(eqt, bset):
    """eqt = T('eq', (poly, 0)); find binder b with coefficient +-1: (b, value)."""
    p = eqt.args[0]
    terms = p.args if p.op == 'add' else (p,)
    best = None
    for s in terms:
        c, v = Fraction(1), s
        if s.op == 'mul' and s.args[0].op == 'num' and len(s.args) == 2:
            c, v = s.args[0].args[0], s.args[1]
        if v.op == 'var' and v in bset and abs(c) == 1:
            rest = [q for q in terms if q is not s]
            if any(v in free(q) for q in rest):
                continue
            val = mul(num(-1 / c), add(*rest)) if rest else ZERO
            if best is None or (v.id > best[0].id):
                best = (v, val)
    return best


def inner_perm(t, bset, found):
    """Permutation applications P:k(b) with b a binder."""
    for s in subterms(t):
        if s.op == 'app' and s.args[0][:2] == 'P:' and s.args[1] in bset and not any(s.args[1] in free(q) for q in s.args[2:]):
            found.add((s.args[0], s.args[1], s.args[2:]))


def sum_flat(binders, atoms, ctx):
    bset = {b for b, _ in binders}
    sizes = dict(binders)
    # 3. deltas
    for a, e in atoms:
        if a.op == 'ind' and a.args[0].op == 'eq':
            s = solve_for(a.args[0], bset)
            if s is not None and isint(s[1]):
                b, v = s
                rest = [(q, k) for q, k in atoms if q is not a]
                others = tuple((q, z) for q, z in binders if q is not b)
                ctx.scope.extend(others)
                body = subst(mul(*[ipow(q, k) for q, k in rest]), {b: v})
                conds = []
                for cnd in (le(ZERO, v), lt(v, sizes[b])):
                    if not ctx.known(cnd):
                        conds.append(ind(cnd))
                p = nf(mul(*conds, body), ctx)
                del ctx.scope[len(ctx.scope) - len(others):]
                return sum_poly(others, p, ctx)
    # 4. permutations
    found = set()
    for a, e in atoms:
        inner_perm(a, bset, found)
    found = [f for f in found if f[0] in ctx.perm_size and canon(ctx.perm_size[f[0]], ctx) is canon(sizes[f[1]], ctx)]
    if found:
        nm, b, prm = min(found, key=lambda z: (z[0], z[1].id, tuple(q.id for q in z[2])))
        nb = fresh('s')
        body = subst(mul(*[ipow(q, k) for q, k in atoms]), {b: perm(inverse(nm), nb, *prm)})
        bl = tuple((nb if q is b else q, z) for q, z in binders)
        ctx.scope.extend(bl)
        p = nf(body, ctx)
        del ctx.scope[len(ctx.scope) - len(bl):]
        return sum_poly(bl, p, ctx)
    r = count(binders, atoms, ctx)
    if r is not None:
        return r
    # 5. components
    comps = []
    for a, e in atoms:
        fvs = set(free(a) & bset)
        merged = [(a, e)]
        keep = []
        for cb, ca in comps:
            if cb & fvs:
                fvs |= cb
                merged += ca
            else:
                keep.append((cb, ca))
        comps = keep + [(fvs, merged)]
    out = p_const(1)
    for cb, ca in comps:
        if not cb:
            out = p_mul(out, nf(mul(*[ipow(a, e) for a, e in ca]), ctx), ctx)
            continue
        out = p_mul(out, canon_component(tuple((b, z) for b, z in binders if b in cb), ca, ctx), ctx)
    return out


class Loop(Exception):
    """The normal form does not converge."""


def canon_component(binders, atoms, ctx):
    g = geometric(binders, atoms, ctx)
    if g is None:
        g = triangle(binders, atoms, ctx)
    if g is not None:
        return g
    h = max([height(a) for a, _ in atoms] + [height(z) for _, z in binders]) + 1
    k = len(binders)
    body = mul(*[ipow(a, e) for a, e in atoms])
    groups = {}
    for b, z in binders:
        groups.setdefault(canon(z, ctx), []).append(b)
    sizes_order = sorted(groups, key=lambda z: z.id)
    best = None
    csizes = []
    for z in sizes_order:
        csizes += [z] * len(groups[z])
    cvars = [var(f'β{h}_{i}_{csizes[i].id}') for i in range(k)]
    perms = [list(itertools.permutations(groups[z])) if k <= 5 else [tuple(groups[z])] for z in sizes_order]
    other = None
    for combo in itertools.product(*perms):
        order = [b for g_ in combo for b in g_]
        m = {b: cvars[i] for i, b in enumerate(order)}
        sc = list(zip(cvars, csizes))
        ctx.scope.extend(sc)
        p = nf(subst(body, m), ctx)
        del ctx.scope[len(ctx.scope) - len(sc):]
        if len(p) != 1:
            # the renaming exposed a simplification
            if not p:
                return {}
            other = other or p
            continue
        (mono, c), = p.items()
        key = (mkey(mono), c)
        if best is None or key < best[0]:
            best = (key, mono, c)
    if best is None:
        bl = tuple(zip(cvars, csizes))
        ren = {cv: fresh('s') for cv in cvars}
        p2 = nf(subst(to_term(other), ren), ctx)
        depth = getattr(ctx, 'depth', 0)
        if depth > 12:
            raise Loop()
        ctx.depth = depth + 1
        try:
            return sum_poly(tuple((ren[cv], z) for cv, z in bl), p2, ctx)
        finally:
            ctx.depth = depth
    _, mono, c = best
    return {((T('SUM', (tuple(cvars), tuple(csizes), m_term(mono)), 'R'), 1),): c}


def triangle(binders, atoms, ctx):
    """R8: the number of pairs i < j (or i <= j) below z is z(z-1)/2 (or z(z+1)/2)."""
    if len(binders) != 2 or len(atoms) != 1:
        return None
    (a, e), = atoms
    (b0, z0), (b1, z1) = binders
    if a.op != 'ind' or a.args[0].op != 'lt' or canon(z0, ctx) is not canon(z1, ctx):
        return None
    q = dict(nf(a.args[0].args[0], ctx))
    k = q.pop(ONEM, 0)
    if len(q) != 2 or sorted((q.get(((b0, 1),), 0), q.get(((b1, 1),), 0))) != [-1, 1] or k not in (0, -1) or not ctx.known(le(ZERO, z0)):
        return None
    return nf(mul(HALF, z0, sub(z0, ONE) if k == 0 else add(z0, ONE)), ctx)


def split_linear(p, b, ctx):
    """(k, rest) with p = k b + rest and rest free of b, k = +-1."""
    bm = ((b, 1),)
    q = dict(p)
    k = q.pop(bm, None)
    if k not in (1, -1) or any(b in free(a) for m in q for a, _ in m):
        return None
    return k, q


def geometric(binders, atoms, ctx):
    """R7: sum_b [b < t] 2^(c - b), sum_b [t < b] 2^(c - b), sum_b 2^(c - b)."""
    if len(binders) != 1 or len(atoms) > 2:
        return None
    (b, z), = binders
    pw = [a for a, e in atoms if a.op == 'pow2' and e == 1]
    iv = [a for a, e in atoms if a.op == 'ind' and a.args[0].op == 'lt']
    if len(pw) != 1 or len(iv) != len(atoms) - 1:
        return None
    ex = split_linear(nf(pw[0].args[0], ctx), b, ctx)
    if ex is None or ex[0] != -1:
        return None
    c = to_term(ex[1])
    lo, hi = ZERO, z
    if iv:
        q = split_linear(nf(iv[0].args[0].args[0], ctx), b, ctx)
        if q is None:
            return None
        if q[0] == 1:
            hi = to_term(p_scale(q[1], -1))       # b < hi
        else:
            lo = to_term(p_add(q[1], p_const(1)))     # lo <= b
        if not (ctx.known(le(ZERO, lo)) and ctx.known(le(lo, hi)) and ctx.known(le(hi, z))):
            return None
    elif not ctx.known(le(ZERO, z)):
        return None
    # sum_{lo<=b<hi} 2^(c-b) = 2^(c-lo+1) - 2^(c-hi+1)
    return nf(sub(pow2(add(sub(c, lo), ONE)), pow2(add(sub(c, hi), ONE))), ctx)


def count(binders, atoms, ctx):
    """R9: a binder that occurs in one condition only: sum_b [b < t] = t, sum_b [t < b] = size - 1 - t;
    R4 where it occurs as the rank Q b only; sum_b b = size (size - 1) / 2;
    and b := Q:m b where both b and Q:k b, Q:k (Q:m c) occur."""
    for b, z in binders:
        own = [(a, e) for a, e in atoms if b in free(a)]
        rest = [(a, e) for a, e in atoms if b not in free(a)]
        others = tuple((q, w) for q, w in binders if q is not b)
        if len(own) == 1 and own[0][1] == 1:
            a = own[0][0]
            # only as a rank
            apps = {s for s in subterms(a) if s.op == 'app' and s.args[0][:2] == 'Q:' and s.args[1] is b and len(s.args) == 2}
            if len(apps) == 1 and (a.op == 'ind' or a in apps):
                s, = apps
                t = replace(a, {s: fresh('?')})
                if b not in free(t) and s.args[0] in ctx.perm_size and canon(ctx.perm_size[s.args[0]], ctx) is canon(z, ctx):
                    ctx.scope.extend(binders)
                    p = nf(mul(replace(a, {s: b}), *[ipow(q, k) for q, k in rest]), ctx)
                    del ctx.scope[len(ctx.scope) - len(binders):]
                    return sum_poly(binders, p, ctx)
            val = None
            if a is b and ctx.known(le(ZERO, z)):
                val = mul(HALF, z, sub(z, ONE))
            elif a.op == 'ind' and a.args[0].op == 'lt':
                q = split_linear(nf(a.args[0].args[0], ctx), b, ctx)
                if q is not None and any(s.op == 'app' and s.args[0][:2] == 'Q:' for m in q[1] for s, _ in m) and poly_isint(q[1]):
                    t = to_term(p_scale(q[1], -q[0]))
                    ctx.scope.extend(others)
                    if q[0] == 1:
                        if ctx.known(le(ZERO, t)) and ctx.known(le(t, z)):
                            val = t
                    elif ctx.known(le(num(-1), t)) and ctx.known(lt(t, z)):
                        val = sub(sub(z, ONE), t)
                    del ctx.scope[len(ctx.scope) - len(others):]
            if val is not None:
                ctx.scope.extend(others)
                p = nf(mul(val, *[ipow(q, k) for q, k in rest]), ctx)
                del ctx.scope[len(ctx.scope) - len(others):]
                return sum_poly(others, p, ctx)
        # both b and Q:k b
        if any(a.op != 'ind' for a, _ in own) or len(binders) < 2:
            continue
        subs_ = {s for a, _ in atoms for s in subterms(a)}
        mine = {s.args[0] for s in subs_ if s.op == 'app' and s.args[0][:2] == 'Q:' and s.args[1] is b and len(s.args) == 2}
        nest = {(s.args[0], s.args[1].args[0]) for s in subs_ if s.op == 'app' and s.args[0][:2] == 'Q:' and s.args[1].op == 'app'
                and s.args[1].args[0][:2] == 'Q:' and s.args[1].args[1] is not b and len(s.args) == 2}
        ms = sorted({m for k, m in nest if k in mine and m not in mine})
        ms = [m for m in ms if m in ctx.perm_size and canon(ctx.perm_size[m], ctx) is canon(z, ctx)]
        if ms:
            body = subst(mul(*[ipow(q, k) for q, k in atoms]), {b: app(ms[0], (b,), 'I')})
            ctx.scope.extend(binders)
            p = nf(body, ctx)
            del ctx.scope[len(ctx.scope) - len(binders):]
            return sum_poly(binders, p, ctx)
    return None


# ---------------------------------------------------------------- equality
def clear_denominators(p, ctx):
    """Multiply by every denominator; returns (poly, list of denominators)."""
    dens = []
    for _ in range(40):
        worst = {}
        for m in p:
            for a, e in m:
                if a.op == 'inv' and e > 0:
                    worst[a] = max(worst.get(a, 0), e)
                elif e < 0:
                    worst[a] = max(worst.get(a, 0), -e)
        if not worst:
            return p, dens
        a = min(worst, key=lambda t: t.id)
        k = worst[a]
        base = a.args[0] if a.op == 'inv' else a
        dens.append(base)
        bp = nf(base, ctx)
        out = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            rest = tuple((q, w) for q, w in m if q is not a)
            left = (k - e) if a.op == 'inv' else (k + e)
            r = {rest: c}
            if left:
                r = p_mul(r, p_pow(bp, left, ctx), ctx)
            out = p_add(out, r)
        p = out
    return p, dens
