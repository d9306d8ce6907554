"""Loops with invariants: the contracts of the loops that have no closed form.

A loop specification is attached to a function (by the order of its loops); at the loop
  1. every invariant is an obligation (entry),
  2. the variables assigned and the arrays written in the loop are forgotten, and the invariants assumed,
  3. one path executes the body once, with the guard true: every invariant is an obligation
     again (kept), with the decrease of the variant, and the path ends,
  4. the other path goes on after the loop with the guard false.
The arrays written by the body are logged by the interpreter: a write to an array that was
not forgotten is not accepted.  Names assigned in the body and not forgotten are unusable
until they are assigned again.

Quantified invariants are given to z3 with patterns; equations between sums of weights are
reduced to the equality of the coefficients (a sum over a permutation P is reindexed by its
inverse Q)."""
from __future__ import annotations

import time

from terms import *  # noqa: F403
from terms import T
import smt
from smt import z3
import vals
from vals import Unsupported, machine


class PathEnd(Exception):
    """The end of the path of one generic iteration."""


class Inv:
    """forall vars: body, with the patterns for its use."""

    def __init__(self, name, k, body, pats):
        self.name = name
        self.vars = tuple(fresh('k') for _ in range(k))
        self.body = body(*self.vars)
        self.pats = [p(*self.vars) for p in pats]

    def require(self, stage):
        """This is an obligation."""
        ren = {v: fresh('g') for v in self.vars}
        goal(f'{stage}: {self.name}', subst(self.body, ren))

    def suppose(self):
        m = machine()
        if self.vars:
            m.inv_facts.append(self)
        else:
            m.assume(self.body)

    def z3(self, tr):
        if not self.vars:
            return tr.tr(self.body)
        zs = [tr.tr(v) for v in self.vars]
        pats = []
        for p in self.pats:
            es = [tr.tr(q) for q in p]
            pats.append(z3.MultiPattern(*es) if len(es) > 1 else es[0])
        return z3.ForAll(zs, tr.tr(self.body), patterns=pats)


class Content:
    """An invariant that defines the contents of a forgotten array: nothing is left to suppose."""

    def __init__(self, name, goal_):
        self.name, self.goal = name, goal_

    def require(self, stage):
        goal(f'{stage}: {self.name}', self.goal())

    def suppose(self):
        pass


class Goal:
    """An obligation of a loop: facts and quantified facts entail goal."""

    def __init__(self, m, name, goal):
        self.name, self.goal = name, m.norm(goal)
        self.facts, self.invs, self.perms = list(m.facts), list(m.inv_facts), m.perms
        self.key = (name, tuple(m.decisions[:m.pos]))

    def prove(self, seconds=30):
        t0 = time.time()
        tr = smt.Tr(self.perms)
        s = z3.Solver()
        s.set('timeout', int(seconds * 1000))
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        for f in self.facts:
            s.add(tr.tr(f))
        for f in self.invs:
            s.add(f.z3(tr))
        for p, (size, key) in self.perms.info.items():
            if key is None:
                k = z3.Int('k')
                n = tr.tr(size)
                P = z3.Function(f'f_P:{p}_1I', z3.IntSort(), z3.IntSort())
                Q = z3.Function(f'f_Q:{p}_1I', z3.IntSort(), z3.IntSort())
                ok = z3.And(k >= 0, k < n)
                s.add(z3.ForAll([k], z3.Implies(ok, z3.And(P(k) >= 0, P(k) < n, Q(P(k)) == k)), patterns=[P(k)]))
                s.add(z3.ForAll([k], z3.Implies(ok, z3.And(Q(k) >= 0, Q(k) < n, P(Q(k)) == k)), patterns=[Q(k)]))
        s.add(z3.Not(tr.tr(self.goal)))
        for a in tr.axioms():
            s.add(a)
        r = str(s.check())
        smt.STATS['queries'] += 1
        smt.STATS['seconds'] += time.time() - t0
        return r == 'unsat', r


def goal(name, t):
    m = machine()
    if not m.quiet and m.norm(t) is not TRUE:
        m.inv_goals.append(Goal(m, name, t))


def run_loop(fr, spec, test, step, body):
    """spec: invariants() -> [Inv], forget() -> (cells, names), lemmas(), variant() -> term."""
    import loops
    m = machine()
    if m.merge:
        raise Unsupported('loop with invariant inside of a generic iteration')
    for inv in spec.invariants():
        inv.require(f'{spec.name} entry')
    names = loops.assigned_names(body)
    mark = vals.cell_mark()
    cells, forgotten = spec.forget()
    from interp import Poison
    for k in names - set(forgotten):
        fr.scope.vars[k] = Poison(f'{k} in a loop')
    for c in cells:
        for log in m.writes:
            log.setdefault(c, c.content)
        if c.frozen:
            raise Unsupported('an input array is written in a loop')
    for inv in spec.invariants():
        inv.suppose()
    spec.lemmas()
    log = {}
    if not test():
        return None
    m.writes.append(log)
    v0 = spec.variant()
    sig = fr.block(body)
    if sig is not None:
        raise Unsupported('a loop that ends early')
    step()
    for c in log:
        if c.birth < mark and c not in cells:
            raise Unsupported('an array without invariant is written in a loop')
    for inv in spec.invariants():
        inv.require(f'{spec.name} kept')
    if v0 is not None:
        goal(f'{spec.name} decreases: variant', band(le(ZERO, v0), lt(spec.variant(), v0)))
    raise PathEnd()


def coefficient(t, w, i, P, Q, size):
    """Coefficient of w(i, v) in the linear combination t of weights, as a term in i."""
    t = machine().norm(t)
    if t is ZERO:
        return ZERO
    if t.op == 'add':
        return add(*[coefficient(a, w, i, P, Q, size) for a in t.args])
    if t.op == 'ite':
        return ite(t.args[0], *[coefficient(a, w, i, P, Q, size) for a in t.args[1:]])
    has = [a for a in (t.args if t.op == 'mul' else ()) if any(q.op == 'app' and q.args[0] == w for q in subterms(a))]
    if t.op == 'mul':
        if len(has) != 1:
            raise Unsupported('a product of weights')
        rest = list(t.args)
        rest.remove(has[0])
        return mul(*rest, coefficient(has[0], w, i, P, Q, size))
    if t.op == 'sum':
        b, n, body = t.args
        if machine().norm(n) is not machine().norm(size):
            raise Unsupported('a sum over another range')
        apps = {q for q in subterms(body) if q.op == 'app' and q.args[0] == w}
        if len(apps) != 1:
            raise Unsupported('a sum of several weights')
        a, = apps
        factors = body.args if body.op == 'mul' else (body,)
        if factors.count(a) != 1 or any(a in subterms(q) for q in factors if q is not a):
            raise Unsupported('a sum that is not linear in the weights')
        inds = [q.args[0] for q in factors if q.op == 'ind']
        left = mul(*[q for q in factors if q is not a and q.op != 'ind'], ind(band(*inds)) if inds else ONE)
        if a.args[1] is b:
            return subst(left, {b: i})
        if a.args[1] is perm('P:' + P, b):
            return subst(left, {b: perm('Q:' + P, i)})
        raise Unsupported('a sum over other indices')
    if t.op == 'app' and t.args[0] != w:
        # something else: no equality can depend on it, because its coefficients are unknown
        return app(f'other:{t.args[0]}', t.args[1:] + (i,))
    raise Unsupported(f'not a combination of weights: {t.op}')


def separate(a, b):
    """Two arrays without common elements."""
    if a.cell is not b.cell:
        return True
    for p, q in zip(a.axes, b.axes):
        if p[0] == q[0] == 'fix' and p[1].op == q[1].op == 'num' and p[1] is not q[1]:
            return True
    return False


# ---------------------------------------------------------------- the merge sort of the weights
def blk(size, i):
    """floor(i / size): the block of i."""
    return app('blk', (lift(size), lift(i)), 'I')


def mult(g, s):
    return app('mult', (lift(g), lift(s)), 'B')


def inside(lo, x, hi):
    return band(le(lo, x), lt(x, hi))


class MergeSort:
    """The loops of _compute_weight_sums.

    L: length of the sorted blocks of `prev`, s: start of the pair of blocks, a, b: next elements
    of both, e: next position of `cur`.  Block of a position: blk(L, p)."""
    PV = 'pv'

    def __init__(self, y, w, n):
        self.y, self.w, self.n = y, w, n
        self.depth = []

    def install(self, m):
        m.inv_facts, m.inv_goals = [], []
        m.while_handler = self.on_while
        m.for_handler = self.on_for
        self.depth = []

    # ------------------------------------------------------------ roles
    def var(self, fr, k):
        v = fr.scope.vars.get(k)
        if not isinstance(v, (int, vals.Sym)) or isinstance(v, bool):
            raise Unsupported(f'{k} is not an integer variable')
        return machine().norm(vals.nterm(v))

    def arr(self, fr, k, nd):
        v = fr.scope.vars.get(k)
        if not isinstance(v, vals.SArr) or len(v.shape) != nd:
            raise Unsupported(f'{k} is not an array')
        return v

    def sums(self, name, ws, kernel):
        """ws[v, j] is the sum of kernel(i, j) w[i, v]."""
        n = self.n

        def g():
            v, i, j = fresh('v'), fresh('i'), fresh('j')
            c = coefficient(ws.at((v, j)), self.w, i, self.PV, None, n)
            ok = [inside(ZERO, i, n), inside(ZERO, j, n), inside(ZERO, v, vals.dsize(ws.shape[0]))]
            if self.PV in machine().perms.info:         # consequences of the first two that name the positions
                ok += [inside(ZERO, perm('Q:' + self.PV, k), n) for k in (i, j)]
            return implies(band(*ok), eq(c, kernel(i, j)))
        return Content(name, g)

    def forget_sums(self, ws, kernel):
        n = self.n
        ws.cell.content = vals.memo(lambda idx: sum_fn(n, lambda i: mul(kernel(i, idx[1]), app(self.w, (i, idx[0])))))

    def base(self, i, j, same):
        return ind(band(lt(i, j), lt(app(self.y, (i,)), app(self.y, (j,))), same))

    def val(self, i):
        return app(self.y, (i,))

    # ------------------------------------------------------------ hooks
    def on_while(self, fr, st):
        spec = (Outer if not self.depth else Merge)(self, fr) if len(self.depth) in (0, 2) else None
        if spec is None:
            raise Unsupported('while loop without an invariant')
        self.depth.append(spec)
        test = lambda: fr.I.truth(fr.eval(st.test))  # noqa: E731
        run_loop(fr, spec, test, lambda: None, st.body)
        self.depth.pop()
        spec.leave()
        return fr.block(st.orelse)

    def on_for(self, fr, st, rng):
        import ast
        if len(self.depth) != 1 or not any(isinstance(q, ast.While) for q in ast.walk(st)):
            return NotImplemented
        if not isinstance(st.target, ast.Name):
            raise Unsupported('loop target')
        m = machine()
        spec = Pairs(self, fr, rng)
        self.depth.append(spec)

        def test():
            if not m.truth(lt(spec.s, rng.stop)):
                return False
            fr.assign(st.target, vals.mk(spec.s, 'int'))
            return True

        def step():
            spec.s = add(spec.s, rng.step)
        body = list(st.body)
        run_loop(fr, spec, test, step, body)
        self.depth.pop()
        from interp import Poison
        fr.scope.vars[st.target.id] = Poison('loop variable after the loop')
        return fr.block(st.orelse)


class Spec:
    def lemmas(self):
        pass

    def leave(self):
        pass

    def fresh_int(self, k):
        v = fresh(k)
        self.fr.scope.vars[k] = vals.mk(v, 'int')
        return v

    def ranges(self, what, arr, e, level):
        """Invariants of an order of positions: within its blocks, without repetition, and descending."""
        n, val = self.ms.n, self.ms.val

        def at(p):
            return arr.at((p,))
        return [
            Inv(f'{what} within range', 1, lambda p: implies(inside(ZERO, p, e), inside(ZERO, at(p), n)), [lambda p: [at(p)]]),
            Inv(f'{what} within the blocks', 1, lambda p: implies(inside(ZERO, p, e), eq(blk(level, at(p)), blk(level, p))), [lambda p: [at(p)]]),
            Inv(f'{what} without repetition', 2, lambda p, q: implies(band(inside(ZERO, p, q), lt(q, e)), ne(at(p), at(q))), [lambda p, q: [at(p), at(q)]]),
            Inv(f'{what} in descending order', 2, lambda p, q: implies(band(inside(ZERO, p, q), lt(q, e), eq(blk(level, p), blk(level, q))),
                                                                     le(val(at(q)), val(at(p)))), [lambda p, q: [at(p), at(q)]]),
        ]

    def forget_order(self, k):
        """New contents for an array of positions that no other name shares."""
        fr = self.fr
        old = self.ms.arr(fr, k, 1)
        nm = machine().fresh_name('cu')
        r = vals.new(old.shape, lambda idx: app(nm, idx, 'I'), old.dtype)
        return r


class Outer(Spec):
    name = 'levels'

    def __init__(self, ms, fr):
        self.ms, self.fr = ms, fr

    def kernel(self, L):
        return lambda i, j: self.ms.base(i, j, eq(blk(L, i), blk(L, j)))

    def invariants(self):
        ms, fr = self.ms, self.fr
        n = ms.n
        L = ms.var(fr, 'merged_subarray_len')
        prev, cur = ms.arr(fr, 'previous_indexes', 1), ms.arr(fr, 'current_indexes', 1)
        ws, wc = ms.arr(fr, 'weight_sums', 2), ms.arr(fr, 'weights_cumsum', 2)
        m = machine()
        for q in (prev, cur):
            if m.norm(vals.dsize(q.shape[0])) is not m.norm(n) or q.dtype != 'int64' or q.cell.frozen or q.cell.opaque:
                raise Unsupported('the buffers of positions')
        if not separate(prev, cur):
            raise Unsupported('the buffers of positions overlap')
        v = fresh('v')
        one = [Inv('blocks of one', 1, lambda i: eq(blk(ONE, i), i), [lambda i: [blk(ONE, i)]])] if L is ONE else []
        for q in one:
            q.suppose()         # lemma: floor(i / 1) = i
        return [Inv('length', 0, lambda: le(ONE, L), [])] + self.ranges('previous positions', prev, n, L) + [
            Content('no weight before the first', lambda: eq(wc.at((ZERO, v)), ZERO)),
            ms.sums('sums of the lower values to the left in the block', ws, self.kernel(L))]

    def forget(self):
        ms, fr = self.ms, self.fr
        m = machine()
        from interp import Poison
        prev, cur = ms.arr(fr, 'previous_indexes', 1), ms.arr(fr, 'current_indexes', 1)
        ws, wc = ms.arr(fr, 'weight_sums', 2), ms.arr(fr, 'weights_cumsum', 2)
        for k, v in list(fr.scope.vars.items()):
            if isinstance(v, vals.SArr) and k not in ('previous_indexes', 'current_indexes') and v.cell in (prev.cell, cur.cell):
                fr.scope.vars[k] = Poison(f'{k}: buffer of the loop')
        for k, v in fr.scope.vars.items():
            if isinstance(v, vals.SArr) and (v.cell is ws.cell and k != 'weight_sums' or v.cell is wc.cell and k != 'weights_cumsum'):
                raise Unsupported('arrays of the loop with two names')
        if any(q.axes != vals.SArr(q.cell, q.shape).axes for q in (ws, wc)):
            raise Unsupported('arrays of the loop')
        m.perms.add(ms.PV, ms.n)
        fr.scope.vars['previous_indexes'] = vals.new(prev.shape, lambda idx: perm('P:' + ms.PV, idx[0]), prev.dtype)
        fr.scope.vars['current_indexes'] = self.forget_order('current_indexes')
        L = self.fresh_int('merged_subarray_len')
        self.L = L
        nm = m.fresh_name('wc')
        wc.cell.content = vals.memo(lambda idx: ite(eq(idx[0], ZERO), ZERO, app(nm, idx)))
        ms.forget_sums(ws, self.kernel(L))
        return [ws.cell, wc.cell], ['previous_indexes', 'current_indexes', 'merged_subarray_len']

    def lemmas(self):
        """floor(i / L) for two lengths (lean/Blocks.lean)."""
        L, G, n = self.L, mul(num(2), self.L), self.ms.n
        nn = lambda *ts: band(*[le(ZERO, t) for t in ts])  # noqa: E731
        for X in (L, G):
            Inv('monotone', 2, lambda i, j: implies(band(nn(i), le(i, j)), le(blk(X, i), blk(X, j))), [lambda i, j: [blk(X, i), blk(X, j)]]).suppose()
        Inv('blocks of blocks', 2, lambda i, j: implies(band(nn(i, j), eq(blk(L, i), blk(L, j))), eq(blk(G, i), blk(G, j))),
            [lambda i, j: [blk(L, i), blk(L, j)], lambda i, j: [blk(G, i), blk(G, j)]]).suppose()
        Inv('one block', 1, lambda i: implies(band(le(n, L), inside(ZERO, i, n)), eq(blk(L, i), ZERO)), [lambda i: [blk(L, i)]]).suppose()

    def variant(self):
        return sub(self.ms.n, self.ms.var(self.fr, 'merged_subarray_len'))

    def leave(self):
        """After the loop there is one block."""
        ms, fr = self.ms, self.fr
        ws = ms.arr(fr, 'weight_sums', 2)
        full = lambda i, j: ms.base(i, j, TRUE)  # noqa: E731
        ms.sums('after the levels: one block', ws, full).require('result')
        ms.forget_sums(ws, full)


class Pairs(Spec):
    name = 'pairs'

    def __init__(self, ms, fr, rng):
        self.ms, self.fr = ms, fr
        self.L = ms.depth[0].L
        self.s = rng.start
        m = machine()
        G = mul(num(2), self.L)
        self.G = G
        if m.norm(rng.step) is not m.norm(G):
            raise Unsupported('step of the pairs')
        if m.norm(rng.stop) is not m.norm(ms.n):
            raise Unsupported('range of the pairs')
        m.assume(mult(G, ZERO))

    def kernel(self):
        s = self.s
        return lambda i, j: self.ms.base(i, j, bor(band(lt(j, s), eq(blk(self.G, i), blk(self.G, j))), band(le(s, j), eq(blk(self.L, i), blk(self.L, j)))))

    def invariants(self):
        ms, fr, s = self.ms, self.fr, self.s
        n = ms.n
        e = ms.var(fr, 'indexes_idx')
        cur, ws = ms.arr(fr, 'current_indexes', 1), ms.arr(fr, 'weight_sums', 2)
        return [Inv('start', 0, lambda: band(le(ZERO, s), mult(self.G, s)), []),
                Inv('next position', 0, lambda: eq(e, ite(le(s, n), s, n)), [])] + self.ranges('current positions', cur, e, self.G) + [
            ms.sums('sums up to the pair', ws, self.kernel())]

    def forget(self):
        ms, fr = self.ms, self.fr
        self.s = fresh('s')
        self.fresh_int('indexes_idx')
        cur, ws = ms.arr(fr, 'current_indexes', 1), ms.arr(fr, 'weight_sums', 2)
        nm = machine().fresh_name('cu')
        cur.cell.content = vals.memo(lambda idx: app(nm, idx, 'I'))
        ms.forget_sums(ws, self.kernel())
        return [cur.cell, ws.cell], ['indexes_idx']

    def lemmas(self):
        s, L, G = self.s, self.L, self.G
        m = machine()
        h = add(s, L)
        m.assume(implies(mult(G, s), mult(G, add(s, G))))
        nn = lambda *ts: band(*[le(ZERO, t) for t in ts])  # noqa: E731
        both = [lambda i: [blk(L, i)], lambda i: [blk(G, i)]]
        iff = lambda p, q: bor(band(p, q), band(bnot(p), bnot(q)))  # noqa: E731
        Inv('pair of blocks', 1, lambda i: implies(band(nn(i), mult(G, s)), iff(eq(blk(G, i), blk(G, s)), inside(s, i, add(s, G)))), both).suppose()
        Inv('first block', 1, lambda i: implies(band(nn(i), mult(G, s)), iff(eq(blk(L, i), blk(L, s)), inside(s, i, h))), both).suppose()
        Inv('second block', 1, lambda i: implies(band(nn(i), mult(G, s)), iff(eq(blk(L, i), blk(L, h)), inside(h, i, add(s, G)))), both).suppose()

    def variant(self):
        return sub(self.ms.n, self.s)


class Merge(Spec):
    name = 'merge'

    def __init__(self, ms, fr):
        self.ms, self.fr = ms, fr
        self.pairs = ms.depth[1]
        self.L, self.G, self.s = self.pairs.L, self.pairs.G, self.pairs.s

    def kernel(self, b):
        ms, s, h = self.ms, self.s, add(self.s, self.L)

        def k(i, j):
            done = bor(lt(j, s), inside(h, perm('Q:' + ms.PV, j), b))
            return ms.base(i, j, bor(band(done, eq(blk(self.G, i), blk(self.G, j))), band(bnot(done), eq(blk(self.L, i), blk(self.L, j)))))
        return k

    def invariants(self):
        ms, fr, s, L, G = self.ms, self.fr, self.s, self.L, self.G
        n, val = ms.n, ms.val
        a, b, e = [ms.var(fr, k) for k in ('subarray_1_idx', 'subarray_2_idx', 'indexes_idx')]
        m1 = add(ms.var(fr, 'subarray_1_idx_last'), ONE)
        m2 = add(ms.var(fr, 'subarray_2_idx_last'), ONE)
        h = add(s, L)
        cur, ws = ms.arr(fr, 'current_indexes', 1), ms.arr(fr, 'weight_sums', 2)
        P = lambda p: perm('P:' + ms.PV, p)  # noqa: E731
        Q = lambda p: perm('Q:' + ms.PV, p)  # noqa: E731

        def at(p):
            return cur.at((p,))
        left = lambda q: bor(inside(a, q, m1), inside(b, q, m2))  # noqa: E731
        return [Inv('next elements', 0, lambda: band(le(s, a), le(a, m1), le(h, b), bor(le(b, m2), eq(b, h))), []),
                Inv('next position', 0, lambda: eq(e, sub(add(a, b), h)), [])] + self.ranges('merged positions', cur, e, G) + [
            Inv('merged elements', 1, lambda p: implies(inside(s, p, e), bor(inside(s, Q(at(p)), a), inside(h, Q(at(p)), b))), [lambda p: [at(p)]]),
            Inv('merged before the others', 2, lambda p, q: implies(band(inside(s, p, e), left(q)), le(val(P(q)), val(at(p)))), [lambda p, q: [at(p), P(q)]]),
            Inv('first block before the others', 2, lambda p, q: implies(band(inside(s, p, a), inside(b, q, m2)), le(val(P(q)), val(P(p)))), [lambda p, q: [P(p), P(q)]]),
            ms.sums('sums of the merged elements', ws, self.kernel(b))]

    def forget(self):
        ms, fr = self.ms, self.fr
        for k in ('subarray_1_idx', 'subarray_2_idx', 'indexes_idx'):
            self.fresh_int(k)
        cur, ws = ms.arr(fr, 'current_indexes', 1), ms.arr(fr, 'weight_sums', 2)
        nm = machine().fresh_name('cu')
        cur.cell.content = vals.memo(lambda idx: app(nm, idx, 'I'))
        ms.forget_sums(ws, self.kernel(ms.var(fr, 'subarray_2_idx')))
        return [cur.cell, ws.cell], ['subarray_1_idx', 'subarray_2_idx', 'indexes_idx']

    def variant(self):
        ms, fr = self.ms, self.fr
        a, b = ms.var(fr, 'subarray_1_idx'), ms.var(fr, 'subarray_2_idx')
        return sub(add(ms.n, ms.n, self.G, num(2)), add(a, b))
