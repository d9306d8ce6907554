"""Equality of terms under the facts of a path.

 1. normal form (rules R1..R7);
 2. after multiplying by the denominators (z3 shows that they are not zero);
 3. pointwise: every monomial is written as a sum over the same binders
    (n = sum of ones, a rank = number of smaller ranks, and
    f = sum_q [q = j] f); the summand, symmetrised over the exchange of
    binders, is zero in every case of its conditions that z3 finds
    consistent with the facts;
 4. z3 on what remains.
"""
from __future__ import annotations

import itertools
import math
import time
from fractions import Fraction

from terms import *  # noqa: F403
from terms import T
import smt
import z3
from nf import (Loop, ONEM, canon, clear_denominators, m_term, nf, p_add, p_mul, p_scale, to_term)
from vals import make_ctx


class GiveUp(Exception):
    pass


class Problem:
    def __init__(self, facts, perms, scope=(), sub_=None, budget=20.0):
        self.facts = list(facts)
        self.perms = perms
        self.scope = list(scope)
        self.all_facts = self.facts + smt.scope_facts(self.scope)
        self.ctx = make_ctx(self.all_facts, perms, dict(sub_ or {}))
        self.ctx.scope += self.scope
        self.deadline = time.time() + budget
        self.note = ''
        self.splits = 0
        self.canonical_facts(sub_)

    def canonical_facts(self, sub_):
        """Facts about sums in their normal form too, so that they speak of the same sums as the goal."""
        extra = []
        for f in self.facts:
            g, pos = (f.args[0], False) if f.op == 'not' else (f, True)
            if g.op not in ('eq', 'lt', 'le') or not any(q.op in ('sum', 'abs', 'rpow', 'ite') for q in subterms(g)):
                continue
            try:
                p = nf(sub(g.args[0], g.args[1]), self.ctx)
                if len(p) > 300:
                    continue
                if g.op == 'eq':
                    from nf import eq_zero
                    p = eq_zero(p, self.ctx)
                q, dens = clear_denominators(p, self.ctx)
                if dens:
                    if g.op == 'eq' and all(self.nonzero(d) for d in dens):
                        p = q
                    elif all(self.positive(d) for d in dens):
                        p = q
            except Loop:
                continue
            p = self.strip(p, g.op)
            if p:
                from nf import content, smono
                sg = 1
                if g.op == 'eq' and set(p) != {ONEM}:
                    sg = 1 if p[min((m for m in p if m != ONEM), key=smono)] > 0 else -1
                p = p_scale(p, sg / content(p))
            t = T(g.op, (to_term(p), ZERO), 'B')
            extra.append(t if pos else bnot(t))
        if extra:
            self.all_facts = self.all_facts + extra
            self.ctx = make_ctx(self.all_facts, self.perms, dict(sub_ or {}))
            self.ctx.scope += self.scope

    def strip(self, p, op):
        """Divide by a common factor: nonzero (eq) or positive (order)."""
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d and d[a] > 0}
        good = {a: e for a, e in (com or {}).items() if e > 0 and a.op != 'SUM' and (self.nonzero(a) if op == 'eq' else self.positive(a))}
        if not good:
            return p
        return {tuple((a, e - good.get(a, 0)) for a, e in m if e != good.get(a, 0)): c for m, c in p.items()}

    def positive(self, t):
        ft = to_term(nf(t, self.ctx))
        return ft.op == 'pow2' or smt.valid(lt(ZERO, ft), self.all_facts, self.perms, 2000)

    def tick(self):
        if time.time() > self.deadline:
            raise GiveUp('time')

    def nonzero(self, t):
        p = nf(t, self.ctx)
        if not p:
            return False
        if set(p) == {ONEM}:
            return True
        ft = to_term(p)
        if ft.op == 'pow2':
            return True
        if len(p) == 1:
            (m, _), = p.items()
            if len(m) > 1 or m[0][1] != 1:
                return all(self.nonzero(a) for a, _ in m)
        from nf import factors
        fs = factors(p)
        if fs is not None:
            return all(self.nonzero(to_term(q)) for q, _ in fs)
        return smt.valid(ne(ft, ZERO), self.all_facts, self.perms, 3000)

    # ------------------------------------------------------------ entry point
    def equal(self, u, v):
        """Backend that proves u = v, or None."""
        u, v = b2r(u), b2r(v)
        if u is v:
            return 'normal form'
        try:
            p = nf(sub(u, v), self.ctx)
        except Loop:
            self.note = 'the normal form does not converge'
            return None
        if not p:
            return 'normal form'
        try:
            return self.zero(p)
        except GiveUp as e:
            self.note = str(e)
            return None
        except Loop:
            self.note = 'the normal form does not converge'
            return None

    def zero(self, p):
        q, dens = clear_denominators(p, self.ctx)
        if dens:
            for d in dens:
                if not self.nonzero(d):
                    self.note = f'denominator {d} may vanish'
                    return None
            if not q:
                return 'normal form'
        else:
            q = p
        self.note = 'residue ' + str(to_term(q))[:600]
        q = self.common(q)
        if len(q) > 400:
            raise GiveUp('too many monomials')
        split = [a for m in q for a, _ in m if a.op == 'ind']
        if split and self.splits < 6 and any(s.op == 'SUM' for m in q for a, _ in m for s in (a,)):
            return self.split(q, min(set(split), key=lambda a: a.id))
        for sym in ('align', 'sym'):
            try:
                if self.gather(q, sym == 'sym'):
                    return 'pointwise'
            except GiveUp as e:
                self.note = f'{e}; {self.note}'[:900]
        if not any(s.op == 'SUM' for m in q for a, _ in m for s in subterms(a)):
            t = to_term(q)
            if smt.valid(eq(t, ZERO), self.all_facts, self.perms, 5000):
                return 'z3'
        return None

    def split(self, p, atom):
        """Both cases of a condition on the indices of the goal."""
        c = atom.args[0]
        for cond, val in ((c, ONE), (bnot(c), ZERO)):
            if smt.check(self.all_facts, [cond], self.perms, 2000) == 'unsat':
                continue
            t = replace(to_term(p), {atom: val})
            sub_ = {}
            rep = self.solve_eq(cond) if cond.op == 'eq' else None
            if rep is not None and rep[0].op == 'var':
                sub_ = {rep[0]: rep[1]}
            elif cond.op in ('lt', 'le'):
                for v in free(cond):
                    if v.sort == 'I' and any(v is b for b, _ in self.scope) and \
                            smt.valid(eq(v, ZERO), self.all_facts + [cond], self.perms, 1000):
                        sub_ = {v: ZERO}
            q = Problem(self.facts + smt.scope_facts(self.scope) + [cond], self.perms,
                        [(b, z) for b, z in self.scope if b not in sub_], None, self.deadline - time.time())
            q.splits = self.splits + 1
            q.facts = [subst(f, sub_) for f in q.facts]
            q.all_facts = [subst(f, sub_) for f in q.all_facts]
            t = subst(t, sub_)
            pp = nf(t, q.ctx)
            if pp and q.zero(pp) is None:
                self.note = f'case {cond}: {q.note}'[:900]
                return None
        return 'pointwise'

    def common(self, p):
        """Divide by the atoms common to every monomial."""
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d and d[a] > 0}
        com = {a: e for a, e in (com or {}).items() if e > 0}
        if not com:
            return p
        out = {}
        for m, c in p.items():
            out[tuple((a, e - com.get(a, 0)) for a, e in m if e != com.get(a, 0))] = c
        return out

    # ------------------------------------------------------------ pointwise
    def gather(self, p, sym):
        ctx = self.ctx
        goal = [b for b, _ in self.scope]
        # candidates for the base sizes: sizes of the binders
        items = []
        for m, c in p.items():
            binders, factors = [], []
            for a, e in m:
                if a.op == 'SUM' and e > 0:
                    for _ in range(e):
                        bs, sizes, body = a.args
                        ren = {b: fresh('s') for b in bs}
                        binders += [(ren[b], z) for b, z in zip(bs, sizes)]
                        factors.append(subst(body, ren))
                else:
                    factors.append((a, e))
            items.append([c, binders, factors])
        sizes = {z for _, bs, _ in items for _, z in bs}
        if not sizes:
            # a pointwise statement already, perhaps with ranks
            for _, _, fs in items:
                for f in fs:
                    z = self.is_rank(f[0]) if isinstance(f, tuple) else None
                    if z is not None:
                        sizes.add(z)
        base = {}
        for z in sorted(sizes, key=lambda q: (len(free(q)), str(q))):
            base[z] = z
        # a size that is another one minus a constant is a part of that range
        for z in list(base):
            for w in list(base):
                if w is not z and base[w] is w:
                    d = nf(sub(w, z), ctx)
                    if set(d) == {ONEM} and d[ONEM] > 0:
                        base[z] = w
        for z in list(base):
            while base[base[z]] is not base[z]:
                base[z] = base[base[z]]
        roots = set(base.values())
        # convert n and the ranks
        work = []
        for c, binders, factors in items:
            bs, fs = [], []
            for b, z in binders:
                if base[z] is not z:
                    fs.append(ind(lt(b, z)))
                bs.append((b, base[z]))
            for f in factors:
                if not isinstance(f, tuple):
                    fs.append(f)
                    continue
                a, e = f
                if a in roots and e > 0 and sizes:
                    for _ in range(e):
                        bs.append((fresh('s'), a))
                elif e > 0 and self.is_rank(a, binders) is not None:
                    for _ in range(e):
                        b = fresh('s')
                        bs.append((b, self.is_rank(a, binders)))
                        fs.append(ind(lt(self.rank_of(a, b), a)))
                else:
                    fs.append(ipow(a, e))
            # ranks and n inside of the sums, to the first power
            more = True
            while more:
                more = False
                for k, f in enumerate(fs):
                    parts = f.args if f.op == 'mul' else (f,)
                    for j, q in enumerate(parts):
                        base_q, ex = (q.args[0], q.args[1]) if q.op == 'pow' else (q, 1)
                        if ex > 0 and self.is_rank(base_q, bs) is not None:
                            b = fresh('s')
                            bs.append((b, self.is_rank(base_q, bs)))
                            fs[k] = mul(*parts[:j], *parts[j + 1:], ipow(base_q, ex - 1), ind(lt(self.rank_of(base_q, b), base_q)))
                            more = True
                            break
                    if more:
                        break
            work.append((c, bs, fs))
        for _, bs, _ in work:
            for _, z in bs:
                roots.add(z)
        roots = sorted(roots, key=lambda z: (str(z)))
        K = {z: max([sum(1 for _, w in bs if w is z) for _, bs, _ in work] + [0]) for z in roots}
        K = {z: k for z, k in K.items() if k}
        if sum(K.values()) > 4:
            raise GiveUp(f'{sum(K.values())} binders')
        cv = {z: [fresh('s') for _ in range(k)] for z, k in K.items()}
        total = {}
        scope = [(b, z) for z, bs in cv.items() for b in bs]
        saved = len(ctx.scope)
        ctx.scope += scope
        try:
            pool = set()
            work.sort(key=lambda w: -len(w[1]))
            for c, bs, fs in work:
                best = None
                orders = [list(itertools.permutations(cv[z])) for z in K]
                every = []
                for combo in itertools.product(*orders):
                    ren, extra = {}, []
                    for z, tgt in zip(K, combo):
                        mine = [b for b, w in bs if w is z]
                        for b, t in zip(mine, tgt):
                            ren[b] = t
                        if len(mine) < len(tgt):
                            anchor = self.anchor(z, tgt, len(mine), fs)
                            if anchor is None:
                                raise GiveUp('no anchor')
                            for t in tgt[len(mine):]:
                                extra.append(ind(eq(t, anchor)))
                    q = nf(mul(subst(mul(*fs), ren), *extra), ctx)
                    if sym:
                        every.append(q)
                        continue
                    atoms = {a for m in q for a, _ in m}
                    score = len(atoms - pool)
                    if best is None or score < best[0]:
                        best = (score, q, atoms)
                if sym:
                    for q in every:
                        total = p_add(total, p_scale(q, c))
                else:
                    total = p_add(total, p_scale(best[1], c))
                    pool |= best[2]
                self.tick()
            if not total:
                return True
            return self.cases(total, self.all_facts + smt.scope_facts(scope), cv)
        finally:
            del ctx.scope[saved:]

    def anchor(self, z, tgt, k, goal):
        if k:
            return tgt[0]
        for f in goal:
            for s in subterms(f):
                if s.op == 'app' and s.args[0][:2] not in ('P:', 'Q:'):
                    for t in s.args[1:]:
                        if isint(t) and t.op != 'num' and smt.valid(band(le(ZERO, t), lt(t, z)), self.all_facts, self.perms, 1000):
                            return t
        for b, w in self.scope:
            if w is z or not nf(sub(w, z), self.ctx):
                return b
        if smt.valid(lt(ZERO, z), self.all_facts, self.perms, 1000):
            return ZERO
        return None

    def is_rank(self, a, binders=()):
        """Size of the permutation if a is Q:k(t) with t in range."""
        if a.op == 'app' and a.args[0][:2] == 'Q:':
            info = self.perms.info.get(a.args[0][2:])
            if info is not None:
                z = canon(info[0], self.ctx)
                t = a.args[1]
                for b, w in list(binders) + self.scope:
                    if b is t and (w is z or canon(w, self.ctx) is z):
                        return z
                if smt.valid(band(le(ZERO, t), lt(t, z)), self.all_facts + smt.scope_facts(binders), self.perms, 1000):
                    return z
        return None

    def rank_of(self, a, b):
        return perm(a.args[0], b, *a.args[2:])

    # ------------------------------------------------------------ case analysis
    def cases(self, p, facts, cv=None):
        solver = z3.Solver()
        solver.set('timeout', 2000)
        tr = smt.Tr(self.perms)
        for f in facts:
            solver.add(tr.tr(f))
        for m in p:
            for a, _ in m:
                self.touch(tr, a)
        for ax in tr.axioms():
            solver.add(ax)
        self.leaves = 0
        return self.branch(p, solver, tr, 0)

    def touch(self, tr, a):
        """Make the solver aware of the applications in an atom."""
        for s in subterms(a):
            if s.sort != 'B' and s.op == 'app' and not any(q.op == 'var' and '!' not in q.args[0] and q.args[0][0] == 'β' for q in subterms(s)):
                tr.tr(s)
            elif s.op in ('pow2', 'clog2'):
                tr.tr(s)

    def sat(self, solver, e):
        t0 = time.time()
        solver.push()
        solver.add(e)
        r = solver.check()
        solver.pop()
        smt.STATS['queries'] += 1
        smt.STATS['seconds'] += time.time() - t0
        return r != z3.unsat

    def branch(self, p, solver, tr, depth):
        self.tick()
        if not p:
            return True
        p = {m: c for m, c in p.items() if c != 0}
        atom = self.pick(p)
        if atom is None:
            self.leaves += 1
            if self.leaves > 3000:
                raise GiveUp('too many cases')
            t = to_term(p)
            solver.push()
            ok = False
            try:
                solver.add(tr.tr(t) != 0)
                for ax in tr.axioms():
                    solver.add(ax)
                r = solver.check()
                ok = r == z3.unsat
            finally:
                solver.pop()
            if not ok:
                self.note = f'case residue {str(t)[:300]} in case {solver.assertions()[-6:]}'[:900]
            return ok
        if atom.op == 'abs':
            t = atom.args[0]
            opts = [(lt(ZERO, t), mul(num(1), t)), (eq(t, ZERO), ZERO), (lt(t, ZERO), neg(t))]
        else:
            c = atom.args[0]
            opts = [(c, ONE), (bnot(c), ZERO)]
        for cond, val in opts:
            e = tr.tr(cond)
            if not self.sat(solver, e):
                continue
            solver.push()
            solver.add(e)
            mp = {atom: val}
            rep = None
            if cond.op == 'eq':
                rep = self.solve_eq(cond)
            q = self.replace(p, atom, val, rep)
            if rep is not None:
                for m in q:
                    for a, _ in m:
                        self.touch(tr, a)
                for ax in tr.axioms():
                    solver.add(ax)
            ok = self.branch(q, solver, tr, depth + 1)
            solver.pop()
            if not ok:
                return False
        return True

    def pick(self, p):
        """The condition to split on: innermost first, absolute values, most frequent."""
        best = None
        cnt = {}
        for m in p:
            for a, _ in m:
                for s in subterms(a):
                    if s.op in ('ind', 'abs') and not self.capt(s):
                        cnt[s] = cnt.get(s, 0) + 1
        if not cnt:
            return None

        def key(s):
            inner = any(q is not s and q.op in ('ind', 'abs') for q in subterms(s))
            iseq = s.op == 'ind' and s.args[0].op == 'eq' and all(v.op == 'var' for v in free(s)) and not any(q.op == 'app' for q in subterms(s))
            return (inner, not iseq, s.op != 'abs', -cnt[s], s.id)
        return min(cnt, key=key)

    def capt(self, s):
        """Contains a variable bound by an enclosing canonical binder."""
        return any(v.args[0][0] == 'β' for v in free(s))

    def solve_eq(self, cond):
        """x = t for a variable or an application, to be used as a substitution."""
        d = nf(sub(cond.args[0], cond.args[1]), self.ctx)
        cand = []
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('var', 'app') and abs(c) == 1:
                a = m[0][0]
                rest = {k: w for k, w in d.items() if k != m}
                if any(a in subterms(b) for k in rest for b, _ in k):
                    continue
                if a.op == 'app' and a.args[0][:2] in ('P:', 'Q:'):
                    continue
                cand.append((a.op != 'var', -a.id, a, mul(num(-1 / c), to_term(rest))))
        if not cand:
            return None
        _, _, a, t = min(cand, key=lambda z: z[:2])
        if a.op == 'var' and a.sort == 'I' and not isint(t):
            return None
        return a, t

    def replace(self, p, atom, val, rep):
        t = replace(to_term(p), {atom: val})
        if rep is not None:
            a, v = rep
            if a.op == 'var':
                t = subst(t, {a: v})
            else:
                t = replace(t, {a: v})
        return nf(t, self.ctx)
