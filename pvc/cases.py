"""Cases of a contract: symbolic inputs, the call on the real code, and what it ensures.

The same declaration is used in three ways: the symbolic execution proves the
postcondition for every input; the evaluation of the symbolic result at small
concrete inputs is compared with the native execution of the same code (the
engine's cross-check); and a postcondition that could not be proved is compared
natively with its specification, so that it is only called false with a failing
input of the real code at hand."""
from __future__ import annotations

import importlib
import signal
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from terms import *  # noqa: F403
from terms import T
import algebra
import evalt
import fold
import prover
import smt
import vals
from evalt import Budget, Env, NoValue, RandomFunc, close
from interp import Interp, UserFn, XPNS, explore
from invar import PathEnd
from nf import nf, Loop
from vals import (FrameViolation, NP, PyExc, SArr, Sym, Unsupported, Undecided, XP, machine, new, nterm)

ITP = Interp()
F8, OBJ, I8 = np.dtype('float64'), np.dtype(object), np.dtype('int64')


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


class limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


# ---------------------------------------------------------------- inputs
class Arr:
    """A symbolic array argument."""

    def __init__(self, name, dims, dtype=None, lib=NP, fn=None, frozen=True):
        self.name, self.dims = name, tuple(lift(d) for d in dims)
        self.dtype = F8 if dtype is None else np.dtype(dtype)
        self.lib, self.frozen = lib, frozen
        self.sort = 'I' if self.dtype.kind in 'iu' else 'R'
        self.fn = fn or (lambda *i: app(name, i, self.sort))

    def __call__(self, *i):
        return self.fn(*[lift(q) for q in i])

    def sym(self, m):
        r = new(self.dims, lambda idx: self.fn(*idx), self.dtype, self.lib, name=self.name, frozen=self.frozen,
                data=self.dtype.kind in 'iu')
        r.exact = self.dtype.kind in 'Oiu'
        return r

    def nat(self, env):
        shape = tuple(int(env.value(d)) for d in self.dims)
        out = np.empty(shape, dtype=self.dtype)
        for idx in np.ndindex(*shape):
            v = env.value(self.fn(*[num(k) for k in idx]))
            out[idx] = v if self.dtype == OBJ else (int(v) if self.dtype.kind in 'iu' else float(v))
        if self.lib is XP:
            import array_api_strict
            return array_api_strict.asarray(out)
        return out


class Lists:
    """A Python list (or tuple) of arguments."""

    def __init__(self, *items):
        self.items = items

    def sym(self, m):
        return [sym_of(a, m) for a in self.items]

    def nat(self, env):
        return [nat_of(a, env) for a in self.items]


class Scal:
    """A symbolic Python number."""

    def __init__(self, t, kind='float'):
        self.t, self.kind = t, kind

    def sym(self, m):
        return Sym(self.t, self.kind)

    def nat(self, env):
        v = env.value(self.t)
        return int(v) if self.kind == 'int' else float(v)


class Fun:
    """A function given by the user: an arbitrary function of the array elements."""

    def __init__(self, name, nat):
        self.name, self.natf = name, nat

    def sym(self, m):
        def f(a, *rest, **kw):
            import npmodel
            return npmodel.user_average(self.name, a)
        f._verif_prim = True
        return UserFn(self.name, f)

    def nat(self, env):
        return self.natf

    def flat(self, values):
        return self.natf(np.array([float(v) for v in values]))


class Fun2(Fun):
    """An arbitrary function of two arrays of the same shape and of options."""

    def __init__(self, name, nat, kw=None):
        self.base, self.kw = name, dict(kw or {})
        self.name, self.natf = self.label(self.kw), nat

    def label(self, kw):
        return self.base + ''.join(f'|{k}={v!r}' for k, v in sorted(kw.items()))

    def sym(self, m):
        def f(a, b, *rest, **kw):
            import npmodel
            if rest:
                raise vals.Unsupported('positional options')
            a, b = npmodel.as_arr(a), npmodel.as_arr(b)
            s = fresh('s')
            idx = [fresh('i') for _ in a.shape]
            if len(a.shape) != len(b.shape):
                raise vals.Unsupported('function of arrays of different shapes')
            return npmodel.scalar0(self.spec(kw, [vals.dsize(d) for d in a.shape], lambda *i: b2r(a.at(i)), lambda *i: b2r(b.at(i))), None, a.lib)
        return UserFn(self.name, f)

    def spec(self, kw, sizes, fa, fb):
        s = fresh('s')
        idx = [fresh('i') for _ in sizes]
        return fnof(self.label(kw), [s] + idx, [TWO] + list(sizes), ite(eq(s, ZERO), fa(*idx), fb(*idx)))

    def nat(self, env):
        def f(a, b, **kw):
            if self.label(kw) != self.name:
                raise ValueError('options')
            return self.natf(np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel())
        return f

    def flat(self, values):
        v = np.array([float(q) for q in values])
        return self.natf(v[:len(v) // 2], v[len(v) // 2:])


class Ref:
    """A function of the repository passed as an argument."""

    def __init__(self, path):
        self.path = path

    def sym(self, m):
        return resolve(self.path)

    def nat(self, env):
        return resolve(self.path)


class Same:
    """The same object as positional argument k."""

    def __init__(self, k):
        self.k = k


class Apply:
    """f(a)(f(a)(...(b))): the function returned by a function of the repository, applied `times` times."""

    def __init__(self, path, times=1):
        self.path, self.times = path, times

    def __str__(self):
        return self.path


def sym_of(a, m):
    return a.sym(m) if hasattr(a, 'sym') else a


def nat_of(a, env):
    return a.nat(env) if hasattr(a, 'nat') else a


def build(case, conv, arg):
    """Arguments of the call."""
    args = []
    for a in case.args:
        args.append(args[a.k] if isinstance(a, Same) else conv(a, arg))
    kw = {k: (args[a.k] if isinstance(a, Same) else conv(a, arg)) for k, a in case.kw.items()}
    return args, kw


def perform(case, fn, args, kw, call):
    if isinstance(case.call, Apply):
        r = args[-1]
        f = call(fn, args[:-1], kw)
        for _ in range(case.call.times):
            r = call(f, [r], {})
        return r
    return call(fn, args, kw)


class Missing(Exception):
    pass


def resolve(path):
    mod, _, rest = path.partition(':')
    try:
        o = importlib.import_module(mod)
        for p in rest.split('.'):
            o = getattr(o, p)
    except (ImportError, AttributeError) as e:
        raise Missing(f'{path} does not exist: {e}')
    return o


# ---------------------------------------------------------------- goals
class Value:
    """sel(result) is an array of the given shape with elements fn(*index)."""

    def __init__(self, desc, sel, dims, fn, tol=1e-7, inf=None):
        self.inf = None if inf is None else [fold.frozen(f, 0)() for f in inf]     # when it is +inf, -inf
        self.desc, self.sel, self.dims, self.fn, self.tol = desc, sel, tuple(lift(d) for d in dims), fold.frozen(fn, len(dims)), tol


class Check:
    """A condition on the result, decided directly on the symbolic and on the native value."""

    def __init__(self, desc, symf, natf=None):
        self.desc, self.symf, self.natf = desc, symf, natf


class Cond:
    """A condition on terms: fn(result, path) -> (goal, scope)."""

    def __init__(self, desc, fn, natf=None):
        self.desc, self.fn, self.natf = desc, fn, natf


class Case:
    def __init__(self, name, call, args, kw=None, req=(), post=(), raises=None, ints=None, reals=None, pools=None,
                 paths=64, budget=40, stubs=True, native=True, samples=12, rule=None, witness=None, compiled=False, setup=None,
                 spec=None, obls=True, writes=(), guard=None, lemmas=(), defs=(), algebra=False, named_facts=(), uses=(), ieee=False, rng=None, late=(), frame=False, natives=None):
        self.natives = dict(natives or {})      # name -> function of the environment that gives the values of the name
        self.late = list(late)          # lemmas for the side conditions only
        self.rng = rng
        self.ieee = ieee
        self.name, self.call, self.args, self.kw = name, call, tuple(args), dict(kw or {})
        self.req, self.post, self.raises = list(req), post, raises
        self.ints, self.reals, self.pools = dict(ints or {}), dict(reals or {}), dict(pools or {})
        self.paths, self.budget, self.stubs, self.native, self.samples = paths, budget, stubs, native, samples
        self.compiled = compiled
        self.setup = setup
        self.obls = obls and not frame
        self.frame = frame          # only what is written matters
        self.writes = writes
        self.lemmas = list(lemmas)
        self.defs = list(defs)
        self.algebra, self.named_facts = algebra, named_facts if callable(named_facts) else list(named_facts)     # facts about the names, from lemmas
        self.guard = guard
        self.uses = tuple(uses)

    def fn(self):
        return resolve(self.call.path if isinstance(self.call, Apply) else self.call)


class Ob:
    def __init__(self, name, function, status, backend='', time_=0.0, detail='', failed=False):
        self.name, self.function, self.status, self.backend, self.time, self.detail = name, function, status, backend, time_, detail
        self.failed = failed and status != 'discharged'     # the back ends ended, without a proof

    def json(self):
        return dict(**(dict(failed=True) if self.failed else {}), name=self.name, function=self.function, status=self.status, backend=self.backend, time=round(self.time, 4), detail=self.detail)


class Outcome:
    def __init__(self):
        self.obls, self.used, self.stubbed = [], set(), set()
        self.cover = dict(paths=0, covered=0)
        self.cross = dict(compared=0, mismatched=0)
        self.notes = []
        self.lemmas = set()


def free_funcs(case):
    """Names of the arrays of a case."""
    out = {}

    def visit(a):
        if isinstance(a, Arr):
            out[a.name] = [Fraction(k) for k in range(-4, 5)] if a.sort == 'I' else None
        elif isinstance(a, Lists):
            for q in a.items:
                visit(q)
    for a in list(case.args) + list(case.kw.values()):
        visit(a)
    out.update(case.pools)
    return out


def student_cdf(t, df):
    import scipy.stats
    return float(scipy.stats.t.cdf(float(t), float(df)))


def random_env(case, perms, seed):
    env = evalt.random_env(case.ints, case.reals, free_funcs(case), perms, seed)
    env.funcs['tcdf'] = student_cdf
    env.tol = 2e-2 if short_float(case) else 1e-6
    for a in list(case.args) + list(case.kw.values()):
        if isinstance(a, Fun):
            env.funcs[a.name] = a.flat
    if case.rng is not None:
        env.funcs['rng'] = case.rng
    for k, f in case.natives.items():
        env.funcs[k] = f(env)
    return fold.define(env, case.defs) if case.defs else env


def native_call(case, env):
    """(result, exception, inputs unchanged?)"""
    args, kw = build(case, nat_of, env)
    held = ([None if k in case.writes else a for k, a in enumerate(args)],
            {k: (None if k in case.writes or isinstance(case.kw[k], Same) else a) for k, a in kw.items()})
    before = snapshot(held)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            r, e = perform(case, case.fn(), args, kw, lambda f, a, k: f(*a, **k)), None
        except Exception as ex:  # noqa: BLE001
            r, e = None, ex
    return r, e, same_snapshot(before, snapshot(held), None), (args, kw)


def snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [snapshot(a) for a in v]
    if isinstance(v, dict):
        return {k: snapshot(a) for k, a in v.items()}
    if hasattr(v, '__array_namespace__'):
        return np.array(v._array if hasattr(v, '_array') else v)
    return None


def same_snapshot(a, b, fl):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, list):
        return len(a) == len(b) and all(same_snapshot(x, y, fl) for x, y in zip(a, b))
    if isinstance(a, dict):
        return all(same_snapshot(a[k], b[k], fl) for k in a)
    return True


def native_values(v):
    """A native result as (shape, callable index -> number)."""
    if hasattr(v, '__array_namespace__') and not isinstance(v, np.ndarray):
        v = np.asarray(v._array if hasattr(v, '_array') else v)
    if isinstance(v, (Fraction, int, float, bool)):
        return (), lambda idx: v
    if isinstance(v, (list, tuple)) and all(not isinstance(q, (list, tuple)) for q in v):
        vs = [float(q) if not isinstance(q, Fraction) else q for q in v]
        return (len(vs),), lambda idx: vs[idx[0]]
    a = np.asarray(v)
    return a.shape, lambda idx: a[idx] if a.shape else a[()]


def number(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    return float(v)


def describe(args, kw):
    def d(v):
        if isinstance(v, np.ndarray):
            return v.tolist() if v.dtype != OBJ else [str(q) for q in v.ravel()]
        if hasattr(v, '_array'):
            return v._array.tolist()
        if isinstance(v, (list, tuple)):
            return [d(q) for q in v]
        return repr(v) if not isinstance(v, (int, float, str)) else v
    return dict(args=[d(a) for a in args], kwargs={k: d(a) for k, a in kw.items()})


def holds(env, t):
    """Truth of a lemma instance, up to rounding."""
    if t.op in ('le', 'lt'):
        a, b = (float(env.value(q)) for q in t.args)
        return a <= b + 1e-9 * (1 + abs(a) + abs(b))
    if t.op == 'and':
        return all(holds(env, q) for q in t.args)
    return env.value(t)


def guarded(case, env):
    """Are these inputs usable for a comparison in floating point?"""
    if case.guard is None:
        return True
    try:
        return bool(case.guard(env))
    except (NoValue, Budget):
        return False


def short_float(case):
    return any(isinstance(a, Arr) and a.dtype.kind == 'f' and a.dtype.itemsize < 8 for a in list(case.args) + list(case.kw.values()))


def native_check(case, goals, env):
    """None if the real code satisfies the goals at these inputs, else a message."""
    try:
        for r in case.req:
            if not env.value(r):
                return None
    except (NoValue, Budget):
        return None
    if not guarded(case, env):
        return None
    r, e, unchanged, (args, kw) = native_call(case, env)
    where = f'{case.call} {describe(args, kw)}'
    if case.raises is not None:
        if e is None:
            return f'{where}: returned {r!r} but should raise {case.raises}'
        if not isinstance(e, case.raises):
            return f'{where}: raised {e!r} instead of {case.raises}'
        return None
    if case.frame and e is not None:
        return None if unchanged else f'{where}: an input array was modified'
    if e is not None:
        return f'{where}: raised {type(e).__name__}: {e}'
    for g in goals:
        if isinstance(g, Value):
            try:
                shape = tuple(int(env.value(d)) for d in g.dims)
                got_shape, get = native_values(g.sel(r))
            except (NoValue, Budget):
                continue
            except Exception as ex:  # noqa: BLE001
                return f'{where}: {g.desc}: {ex!r}'
            if tuple(got_shape) != shape:
                return f'{where}: {g.desc}: shape {got_shape}, expected {shape}'
            if short_float(case) and 'cor' in case.name + g.desc:
                continue        # a quotient of small differences
            for idx in np.ndindex(*shape):
                try:
                    want = env.value(g.fn(*[num(k) for k in idx]))
                except (NoValue, Budget):
                    continue
                got = number(get(idx))
                if not close(want, got, max(g.tol, 5e-3) if short_float(case) else g.tol):
                    return f'{where}: {g.desc}{list(idx)}: {got}, expected {float(want)}'
        elif g.natf is not None:
            if not g.natf(r, env):
                return f'{where}: {g.desc} does not hold'
    if not unchanged:
        return f'{where}: an input array was modified'
    return None


# ---------------------------------------------------------------- running a case
def run_case(case, stubs=None, want_native=True):
    """Obligations of a case."""
    RETRIES[0] = 3
    out = Outcome()
    t0 = time.time()
    try:
        fn = case.fn()
    except Missing as e:
        out.obls.append(Ob(f'{case.name}', str(case.call), 'unsupported', detail=str(e)))
        return out
    base = f'{case.name}'
    out.lemmas |= {k for k, _ in case.lemmas} | set(case.uses) | {k for k, _ in case.late}

    def setup(m):
        for r in case.req:
            m.assume(r)
        for _, t in case.lemmas:
            m.assume(t)
        if stubs and case.stubs:
            m.stubs.update(stubs if case.stubs is True else {k: v for k, v in stubs.items() if k not in case.stubs})
        m.compiled = 1 if case.compiled else 0
        m.ieee = case.ieee
        m.loose = case.frame
        if case.setup is not None:
            case.setup(m)
        args, kw = build(case, sym_of, m)
        m.call_args = (args, kw)
        try:
            return perform(case, fn, args, kw, ITP.call)
        except FrameViolation as e:
            return e
        except PathEnd as e:
            return e

    try:
        with limit(case.budget):
            paths = explore(setup, case.paths)
    except (Unsupported, Undecided, Loop, Timeout, RecursionError) as e:
        out.obls.append(Ob(f'{base}/execution', str(case.call), 'unsupported', detail=f'{type(e).__name__}: {e}'[:300]))
        paths = None
    except Exception as e:  # noqa: BLE001
        out.obls.append(Ob(f'{base}/execution', str(case.call), 'unsupported',
                           detail=f'{type(e).__name__}: {e} {traceback.format_exc(limit=-3)}'[:900]))
        paths = None
    goals_any = list(case.post(None, None)) if callable(case.post) else list(case.post)
    failed = paths is None
    exec_t = time.time() - t0
    if paths is not None:
        if not paths:
            out.obls.append(Ob(f'{base}/execution', str(case.call), 'undecided', detail='no path'))
            failed = True
        seen_obl = {}
        for k, p in enumerate(paths):
            tag = f'{base}/path{k}' if len(paths) > 1 else base
            out.used |= p.m.used
            out.stubbed |= p.m.stubbed
            out.cover['paths'] += 1
            for o in path_obligations(case, tag, p, goals_any, seen_obl):
                out.obls.append(o)
                if o.status != 'discharged':
                    failed = True
    if out.obls:
        out.obls[0].time += exec_t
    # concrete side: cover, cross-check of the engine, refutation
    if want_native and case.native:
        try:
            with limit(60):
                loops_ = any(getattr(p.m, 'inv_goals', ()) for p in paths or ())
                concrete(case, None if loops_ else paths, goals_any, out, failed)
        except Timeout:
            out.notes.append(f'{case.name}: concrete evaluation stopped by its time limit')
        except Exception as e:  # noqa: BLE001
            out.notes.append(f'{case.name}: concrete evaluation failed: {type(e).__name__} {e}'[:300])
    return out


def prove_goal(facts, perms, sub_, scope, goal, budget=10.0):
    """(backend or None, note) for a condition."""
    goal = subst(goal, sub_) if sub_ else goal
    if goal is TRUE:
        return 'normal form', ''
    if goal.op == 'forall':
        ren = {b: fresh('b') for b, _ in goal.args[0]}
        return prove_goal(facts, perms, sub_, list(scope) + [(ren[b], z) for b, z in goal.args[0]], subst(goal.args[1], ren), budget)
    if goal.op == 'and':
        be = None
        for g in goal.args:
            be, note = prove_goal(facts, perms, sub_, scope, g, budget)
            if be is None:
                return None, note
        return be, ''
    if goal in facts:
        return 'path condition', ''
    if smt.valid(goal, list(facts) + smt.scope_facts(scope), perms, 500):
        return 'z3', ''
    pr = prover.Problem(facts, perms, scope, sub_, budget)
    allf = pr.all_facts
    if goal.op == 'eq' and goal.args[0].sort != 'B':
        be = pr.equal(*goal.args)
        if be:
            return be, ''
    try:
        ctx = vals.make_ctx(allf, perms, dict(sub_ or {}))
        ctx.scope += list(scope)
        p = nf(ind(goal), ctx)
        if p == {(): 1}:
            return 'normal form', ''
    except Loop:
        pass
    if goal.op == 'not' and goal.args[0].op == 'eq':
        a, b = goal.args[0].args
        d = nf(sub(a, b), pr.ctx)
        if len(d) == 1:
            (mono, _), = d.items()
            if mono and all(pr.nonzero(x) for x, e in mono):
                return 'z3', ''
    from nf import to_term as tt
    try:
        cg = canon_cond(goal, ctx)
    except Loop:
        cg = goal
    for g in (cg, goal):
        if smt.valid(g, allf, perms, 4000):
            return 'z3', ''
    if RETRIES[0] > 0:
        # the solver depends on the order of its search
        RETRIES[0] -= 1
        for seed in (1, 2, 3):
            if smt.valid(goal, allf, perms, 6000, seed):
                return 'z3', ''
    return None, f'not proved: {str(goal)[:300]}'


RETRIES = [0]


def canon_cond(c, ctx):
    from nf import to_term
    if c.op in ('lt', 'le', 'eq'):
        d = to_term(nf(sub(c.args[0], c.args[1]), ctx))
        return T(c.op, (d, ZERO), 'B')
    if c.op in ('and', 'or', 'not'):
        return rebuild(c, tuple(canon_cond(a, ctx) for a in c.args))
    return c


def path_obligations(case, tag, p, goals_any, seen):
    m = p.m
    fnname = str(case.call)
    if isinstance(p.result, FrameViolation):
        if smt.check(m.facts, [], m.perms) == 'unsat':
            return
        yield Ob(f'{tag}/frame', fnname, 'undecided', detail=f'writes to the input {p.result}', failed=True)
        return
    # side conditions of the operations
    if case.obls:
        for o in m.obls:
            key = (o.goal, tuple(f.id for f in o.facts))
            if key in seen:
                continue
            t0 = time.time()
            ended = True
            try:
                with limit(15 if not case.defs else 30):
                    be, note = prove_side(case, p, o)
            except (Timeout, Loop, RecursionError) as e:
                be, note, ended = None, repr(e), False
            seen[key] = be
            yield Ob(f'{tag}/{o.kind}#{len(seen)} {o.desc}', fnname, 'discharged' if be else 'undecided', be or '', time.time() - t0, note, failed=ended)
    for g in getattr(m, 'inv_goals', ()):
        if g.key in seen:
            continue
        t0 = time.time()
        ended = True
        try:
            with limit(60):
                ok, note = g.prove()
        except (Timeout, Loop, RecursionError) as e:
            ok, note, ended = False, repr(e), False
        seen[g.key] = ok
        yield Ob(f'{tag}/loop {g.name}', fnname, 'discharged' if ok else 'undecided', 'z3 (quantified invariants)' if ok else '', time.time() - t0, '' if ok else note, failed=ended)
    if isinstance(p.result, PathEnd):
        return
    if case.frame:
        yield Ob(f'{tag}/frame: no input array is written', fnname, 'discharged', 'symbolic execution')
        return
    if p.exc is not None:
        if case.raises is not None and isinstance(p.exc, case.raises):
            yield Ob(f'{tag}/raises {type(p.exc).__name__}', fnname, 'discharged', 'symbolic execution')
            return
        if smt.check(m.facts, [], m.perms) == 'unsat':
            return
        yield Ob(f'{tag}/no exception', fnname, 'undecided', detail=f'raises {type(p.exc).__name__}: {p.exc}'[:300], failed=True)
        return
    if case.raises is not None:
        if smt.check(m.facts, [], m.perms) == 'unsat':
            return
        yield Ob(f'{tag}/raises', fnname, 'undecided', detail='returns a value', failed=True)
        return
    vals.set_machine(m)
    goals = list(case.post(p.result, p)) if callable(case.post) else goals_any
    for g in goals:
        t0 = time.time()
        ended = False
        try:
            with limit(case.budget):
                be, note = discharge(g, p, m, case)
            ended = True
        except (Unsupported, Undecided, Loop, Timeout, RecursionError) as e:
            be, note = None, f'{type(e).__name__}: {e}'
        except Exception as e:  # noqa: BLE001
            be, note = None, f'{type(e).__name__}: {e} {traceback.format_exc(limit=-3)}'[:700]
        yield Ob(f'{tag}/{g.desc}', fnname, 'discharged' if be else 'undecided', be or '', time.time() - t0, (note or '')[:700], failed=ended)
    yield Ob(f'{tag}/frame: no input array is written', fnname, 'discharged', 'symbolic execution')


def prove_side(case, p, o):
    """A side condition of an operation on the path p."""
    m = p.m
    if case.algebra and callable(case.named_facts):
        # names with one index
        if o.goal.op == 'forall' and len(o.goal.args[0]) == 1:
            (b, z), = o.goal.args[0]
            i = fresh('i')
            fo = folder(case, p)
            goal = fo.fold(m.norm(subst(o.goal.args[1], {b: i})), [(i, z)])
            facts = [f for f in o.facts if f.op != 'forall' and not any(q.op == 'sum' for q in subterms(f))]
            if algebra.holds(facts + case.named_facts(i), goal, None, 10.0):
                return 'algebra (sympy, z3)', ''
    elif case.algebra:
        fo = folder(case, p)
        facts = [folded(fo, p, f) for f in o.facts]
        if algebra.holds(facts + case.named_facts, folded(fo, p, o.goal), None, 10.0):
            return 'algebra (sympy, z3)', ''
    if case.late:
        be, note = prove_goal(o.facts, m.perms, m.sub, [], o.goal, 4.0)
        if be is not None:
            return be, note
    return prove_goal(list(o.facts) + [t for _, t in case.late], m.perms, m.sub, [], o.goal)


def folded(fo, p, t):
    memo = p.__dict__.setdefault('fold_memo', {})
    r = memo.get(t)
    if r is None:
        r = memo[t] = fo.fold(p.m.norm(t))
    return r


def discharge(g, p, m, case):
    if isinstance(g, Check):
        return ('symbolic execution', '') if g.symf(p.result, p) else (None, 'does not hold')
    if isinstance(g, Cond):
        goal, scope = g.fn(p.result, p)
        facts = m.facts
        if case.defs:
            fo = folder(case, p)
            goal = fo.fold(goal, scope)
            facts = folded_facts(fo, p)
        return prove_goal(facts, m.perms, m.sub, scope, goal)
    v = g.sel(p.result)
    if isinstance(v, list):
        v = list_value(v)
    if isinstance(v, float) and (v != v or v in (float('inf'), -float('inf'))):
        goal = FALSE if g.inf is None or v != v else g.inf[0 if v > 0 else 1]
        fo = folder(case, p)
        facts = [folded(fo, p, f) for f in m.facts]
        return ('algebra (sympy, z3)', '') if algebra.holds(facts + case.named_facts, goal, None, 20.0) else (None, f'result {v}')
    if g.inf is not None:
        fo = folder(case, p)
        facts = [folded(fo, p, f) for f in m.facts]
        for c in g.inf:
            if not algebra.holds(facts + case.named_facts, bnot(c), None, 20.0):
                return None, 'should be infinite'
    if isinstance(v, vals.SymSeq):
        shape, at = (v.size,), lambda idx: nterm(v.elem(idx[0]))
    elif isinstance(v, SArr):
        shape, at = v.shape, v.at
        if v.nan is not None:
            idx = tuple(fresh('i') for _ in shape)
            c = v.nan(idx)
            if c is not FALSE:
                be, note = prove_goal(m.facts, m.perms, m.sub, list(zip(idx, shape)), bnot(c))
                if be is None:
                    return None, 'may be NaN: ' + note
    else:
        shape, at = (), lambda idx: nterm(v)
    if len(shape) != len(g.dims):
        return None, f'shape {shape} instead of {g.dims}'
    for a, b in zip(shape, g.dims):
        if not vals.same_dim(a, b) and not m.valid(eq(vals.dsize(a), b)):
            return None, f'shape {shape} instead of {g.dims}'
    idx = tuple(fresh('i') for _ in g.dims)
    scope = [(i, m.norm(d)) for i, d in zip(idx, g.dims)]
    lhs, rhs = b2r(at(idx)), b2r(lift(g.fn(*idx)))
    facts = m.facts
    for i, d in zip(idx, g.dims):
        # every index is the rank of some index
        for nm in sorted({q.args[0][2:] for q in subterms(rhs) if q.op == 'app' and q.args[0][:2] == 'P:' and q.args[1:] == (i,)}):
            if m.perms.info.get(nm) is not None and vals.same_dim(m.perms.info[nm][0], d):
                ren = {i: perm('Q:' + nm, i)}
                lhs, rhs = subst(lhs, ren), subst(rhs, ren)
                break
    if case.defs:
        fo = folder(case, p)
        lhs = fo.fold(lhs, scope)
        if case.algebra and callable(case.named_facts) and len(scope) == 1:
            lhs, rhs = fo.fold(m.norm(lhs), scope), m.norm(rhs)
            facts = [f for f in m.facts if f.op != 'forall' and not any(q.op == 'sum' for q in subterms(f))]
            if algebra.equal(facts + case.named_facts(*idx), lhs, rhs, None, 30.0):
                return 'algebra (sympy, z3)', ''
            return None, 'algebra: not proved; folds: ' + str([q for q in fo.log if q[1] is None][:6]) + str(lhs)[:300]
        if case.algebra and not scope:
            lhs, rhs = folded(fo, p, lhs), m.norm(rhs)
            facts = [folded(fo, p, f) for f in m.facts]
            if algebra.equal(facts + case.named_facts, lhs, rhs, None, 30.0):
                return 'algebra (sympy, z3)', ''
            return None, 'algebra: not proved; folds: ' + str([q for q in fo.log if q[1] is None][:6]) + str(lhs)[:300]
        facts = folded_facts(fo, p)
    pr = prover.Problem(facts, m.perms, scope, m.sub, 30.0)
    be = pr.equal(m.norm(lhs), m.norm(rhs))
    if be is None and case.defs:
        pr.note += ' folds: ' + str([q for q in fo.log if q[1] is None or 'normal' not in q[1]][:6]) + str(lhs)[:600]
    return be, pr.note if be is None else ''


def generic_envs(case, perms, facts, count=2):
    """Inputs without accidental equalities, to choose what to fold."""
    out = []
    for s in range(200):
        env = random_env(case, perms, 1000 + s)
        for k, f in env.funcs.items():
            if isinstance(f, RandomFunc):
                f.values = [Fraction(q, 7) for q in range(-60, 60)] if not all(v.denominator == 1 for v in f.values) or len(f.values) < 3 else [Fraction(q) for q in range(-60, 60)]
        try:
            if not all(env.value(r) for r in case.req):
                continue
        except (NoValue, Budget):
            continue
        try:
            if not all(env.value(f) for f in facts):
                continue
        except (NoValue, Budget):
            pass
        big = [env.vars[v] for v in case.ints]
        if s < 100 and big and min(big) < 2:
            continue
        env.budget = 10 ** 9
        out.append(env)
        if len(out) >= count:
            break
    return out


def folder(case, p):
    m = p.m
    fo = getattr(p, 'folder', None)
    if fo is None:
        base = [f for f in m.facts if not any(q.op == 'sum' for q in subterms(f))]
        fo = p.folder = fold.Folder(base, m.perms, m.sub, case.defs, [Env(e.vars, e.funcs, m.perms, 5) for e in generic_envs(case, m.perms, [f for f in m.facts if not any(q.op in ('sum', 'app') for q in subterms(f))])])
    return fo


def folded_facts(fo, p):
    r = getattr(p, 'ffacts', None)
    if r is None:
        r = p.ffacts = [fo.fold(f) for f in p.m.facts]
    return r


def list_value(v):
    return new((num(len(v)),), lambda idx: pick(v, idx[0]), F8)


def pick(v, t):
    r = nterm(v[-1])
    for k in reversed(range(len(v) - 1)):
        r = ite(eq(t, num(k)), nterm(v[k]), r)
    return r


def concrete(case, paths, goals, out, failed):
    covered = set()
    msgs = []
    n_env = case.samples * (3 if failed else 1)
    for s in range(n_env * 4):
        if out.cross['compared'] >= n_env or s >= n_env and not paths:
            break
        env = random_env(case, paths[0].m.perms if paths else smt.Perms(), s)
        try:
            if not all(env.value(r) for r in case.req):
                continue
        except (NoValue, Budget):
            continue
        for k, t in case.lemmas + case.late:
            try:
                if not holds(env, t):
                    out.notes.append(f'{case.name}: instance of lemma {k} is false at a sample')
                    out.obls.append(Ob(f'{case.name}/lemma {k}', str(case.call), 'undecided', detail='instance of the lemma is false at a sample'))
            except (NoValue, Budget):
                pass
        hit = None
        for k, p in enumerate(paths or ()):
            e2 = Env(env.vars, env.funcs, p.m.perms, env.seed)
            e2.tol = env.tol
            try:
                if all(e2.value(f) for f in p.m.facts):
                    hit = (k, p, e2)
                    covered.add(k)
                    break
            except NoValue:
                continue
            except Budget:
                break
        if not guarded(case, env):
            continue
        r, e, unchanged, (args, kw) = native_call(case, env)
        if hit is not None:
            ok = compare(hit[1], hit[2], r, e)
            if ok is not None:
                out.cross['compared'] += 1
                if not ok:
                    out.cross['mismatched'] += 1
                    out.notes.append(f'{case.name}: engine and native execution disagree for {describe(args, kw)}'[:600])
        elif not paths:
            out.cross['compared'] += 1
        msg = native_check(case, goals, env)
        if msg is not None:
            msgs.append(msg)
            if len(msgs) >= 2:
                break
    out.cover['covered'] += len(covered)
    if msgs:
        out.obls.append(Ob(f'{case.name}/counterexample', str(case.call), 'refuted', 'native execution', 0.0, msgs[0][:1500]))
    elif out.cross['mismatched']:
        out.obls.append(Ob(f'{case.name}/cross-check', str(case.call), 'undecided', '', 0.0, out.notes[-1][:500]))


def compare(p, env, r, e):
    """Symbolic result at this input against the native one (None: not comparable)."""
    if isinstance(p.result, FrameViolation):
        return None
    if p.exc is not None or e is not None:
        if p.exc is None or e is None:
            return False
        return type(p.exc) is type(e) or isinstance(e, type(p.exc)) or isinstance(p.exc, type(e))
    vals.set_machine(p.m)
    try:
        return compare_value(p.result, r, env)
    except (NoValue, Budget, Unsupported):
        return None


def compare_value(v, r, env):
    if v is None or isinstance(v, str):
        return v == r
    if isinstance(v, (tuple, list)):
        return len(v) == len(r) and all(compare_value(a, b, env) for a, b in zip(v, r))
    if hasattr(v, '__dataclass_fields__'):
        return all(compare_value(getattr(v, f), getattr(r, f), env) for f in v.__dataclass_fields__)
    if isinstance(v, SArr):
        shape, get = native_values(r)
        want = tuple(int(env.value(vals.dsize(d))) for d in v.shape)
        if shape != want or any(isinstance(d, vals.Prod) for d in v.shape):
            return shape == want
        for idx in np.ndindex(*shape):
            tidx = tuple(num(k) for k in idx)
            if v.nan is not None and env.value(v.nan(tidx)):
                if not float(get(idx)) != float(get(idx)):
                    return False
                continue
            if not close(env.value(b2r(v.at(tidx))), number(get(idx)), env.tol):
                return False
        return True
    if isinstance(v, vals.SymSeq):
        return None
    if isinstance(v, (Sym, int, float, Fraction, np.number, np.bool_)):
        if isinstance(v, float) and (v != v or v in (float('inf'), -float('inf'))):
            return float(r) == v or (v != v and r != r)
        return close(env.value(nterm(v)), number(native_values(r)[1](())), env.tol)
    return None
