"""Symbolic values: Python numbers (Sym), arrays (SArr), sequences (SymSeq)."""
from __future__ import annotations

import copy
import itertools

import numpy as np

from terms import *  # noqa: F403
from terms import T
import smt
from nf import Ctx, canon, nf


class Unsupported(Exception):
    """The construct is outside of the engine's reach: undecided, never an alarm."""


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class Infeasible(Exception):
    pass


class FrameViolation(Exception):
    pass


class Obl:
    __slots__ = ('kind', 'desc', 'goal', 'facts')

    def __init__(self, kind, desc, goal, facts):
        self.kind, self.desc, self.goal, self.facts = kind, desc, goal, facts


class Machine:
    """State of one execution path."""

    def __init__(self, decisions=()):
        self.facts = []
        self.decisions = list(decisions)
        self.pos = 0
        self.forks = []          # decisions left to explore
        self.perms = smt.Perms()
        self.obls = []
        self.merge = 0           # > 0: inside a generic loop iteration
        self.sub = {}            # equalities used as substitutions
        self.writes = []         # stack of write logs
        self.events = []         # e.g. possible integer wraparound
        self.compiled = 0        # > 0: inside compiled code
        self.used = set()        # functions whose body was executed
        self.loose = False       # do not ask whether a branch on a computed value is possible
        self.stubs = {}          # key -> stub
        self.stubbed = set()     # contracts relied upon
        self.rng_draws = 0
        self.loop_params = []    # generic indices of the enclosing loops
        self.errstate = 0
        self.names = itertools.count()
        self.ctx_cache = None
        self.calls = 0
        self.lemma_facts = []
        self.quiet = 0
        self.frame = True
        self.ieee = False        # division of scalars by zero gives infinities

    def ctx(self):
        key = (len(self.sub), tuple(f.id for f in self.facts), len(self.perms.info))
        if self.ctx_cache is None or self.ctx_cache[0] != key:
            self.ctx_cache = (key, make_ctx(list(self.facts), self.perms, dict(self.sub)))
        return self.ctx_cache[1]

    def fresh_name(self, p):
        return f'{p}{next(self.names)}'

    def assume(self, f):
        if f is TRUE:
            return
        self.facts.append(f)
        if f.op == 'and':
            for a in f.args:
                self.note_eq(a)
        else:
            self.note_eq(f)

    def note_eq(self, f):
        if f.op == 'eq' and not self.merge:
            a, b = f.args
            for u, v in ((a, b), (b, a)):
                if u.op == 'var' and u not in free(subst(v, self.sub)) and u not in self.sub:
                    v = subst(v, self.sub)
                    self.sub = {k: subst(w, {u: v}) for k, w in self.sub.items()}
                    self.sub[u] = v
                    return

    def norm(self, t):
        return subst(t, self.sub) if self.sub else t

    def valid(self, goal, timeout=2000):
        goal = self.norm(goal)
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        return smt.valid(goal, self.facts, self.perms, timeout)

    def truth(self, c, timeout=None):
        """Decide a symbolic condition: by the facts, or by exploring both sides."""
        c = self.norm(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.pos < len(self.decisions) and not self.merge:
            d, forced = self.decisions[self.pos]
            self.pos += 1
            if not forced:
                self.assume(c if d else bnot(c))
            return d
        known = None
        t = timeout or 3000
        if self.loose and not self.merge and any(q.op in ('sum', 'rpow', 'sqrt', 'minof') for q in subterms(c)):
            pass        # both sides, without asking
        elif smt.check(self.facts, [c], self.perms, t) == 'unsat':
            known = False
        elif smt.check(self.facts, [bnot(c)], self.perms, t) == 'unsat':
            known = True
        if self.merge:
            if known is None:
                raise Undecided(c)
            return known
        if known is None:
            self.forks.append(self.decisions[:self.pos] + [(False, False)])
            self.decisions.append((True, False))
            self.assume(c)
        else:
            self.decisions.append((known, True))
        self.pos += 1
        return known is not False

    def obligation(self, kind, desc, goal):
        if self.quiet:
            return
        goal = self.norm(goal)
        if goal is TRUE:
            return
        self.obls.append(Obl(kind, desc, goal, list(self.facts)))


class Undecided(Exception):
    def __init__(self, c):
        self.c = c
        super().__init__(repr(c))


def make_ctx(facts, perms, sub):
    known_cache = {}

    def prove(cond, scope):
        key = (cond, tuple((b, z) for b, z in scope if b in free(cond)))
        r = known_cache.get(key)
        if r is None:
            r = quick_range(cond, scope, perms) or smt.valid(cond, list(facts) + smt.scope_facts(scope), perms, 400)
            known_cache[key] = r
        return r

    c = Ctx(perms.sizes(), prove, sub)
    return c


def quick_range(cond, scope, perms):
    sc = dict(scope)
    if cond.op == 'le' and cond.args[0] is ZERO:
        return nonneg_syn(cond.args[1]) and cond.args[1].op in ('var', 'app', 'num') and (cond.args[1] in sc or cond.args[1].op == 'num')
    if cond.op == 'lt' and cond.args[0].op == 'var' and cond.args[0] in sc:
        return sc[cond.args[0]] is cond.args[1]
    return False


M = Machine()


def machine():
    return M


def set_machine(m):
    global M
    M = m
    return m


# ---------------------------------------------------------------- scalars
class Sym:
    """A Python number: kind 'int', 'float' or 'bool'."""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def __repr__(self):
        return f'Sym({self.t}:{self.kind})'

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        raise Unsupported('native truth value of a symbolic number')


def mk(t, kind):
    """Concrete Python number when possible."""
    t = machine().norm(t)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op == 'num':
        v = t.args[0]
        if kind == 'int' and v.denominator == 1:
            return int(v)
        if kind == 'float' and float(v) == v:
            return float(v)
    return Sym(t, kind)


def term(v):
    """The term of a number (concrete, symbolic or 0-d array)."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, SArr):
        if v.shape == ():
            return v.at(())
        raise Unsupported('array where a number is expected')
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, (int, np.integer)):
        return num(int(v))
    if isinstance(v, Fraction):
        return num(v)
    if isinstance(v, (float, np.floating)):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non finite constant')
        return num(Fraction(float(v)))
    if isinstance(v, T):
        return v
    raise Unsupported(f'not a number: {type(v).__name__}')


def nterm(v):
    """As term, with booleans as 0/1."""
    return b2r(term(v))


def is_number(v):
    return isinstance(v, (Sym, int, float, Fraction, np.integer, np.floating, np.bool_)) or isinstance(v, SArr) and v.shape == ()


# ---------------------------------------------------------------- arrays
class Prod:
    """A dimension that is the product of several (flattened axes)."""
    __slots__ = ('dims',)

    def __init__(self, dims):
        self.dims = tuple(dims)

    def __eq__(self, o):
        return isinstance(o, Prod) and o.dims == self.dims

    def __hash__(self):
        return hash(self.dims)

    def size(self):
        return mul(*self.dims)

    def __repr__(self):
        return 'Prod' + repr(self.dims)


def dsize(d):
    return d.size() if isinstance(d, Prod) else d


def dfresh(d):
    if isinstance(d, Prod):
        return tuple(fresh('b') for _ in d.dims)
    return fresh('b')


def dbind(d, i):
    """[(binder, size)] of a fresh index of the dimension."""
    if isinstance(d, Prod):
        return list(zip(i, d.dims))
    return [(i, d)]


def same_dim(a, b):
    m = machine()
    if isinstance(a, Prod) or isinstance(b, Prod):
        return isinstance(a, Prod) and isinstance(b, Prod) and len(a.dims) == len(b.dims) and all(same_dim(p, q) for p, q in zip(a.dims, b.dims))
    a, b = m.norm(a), m.norm(b)
    if a is b:
        return True
    ctx = m.ctx()
    return not nf(sub(a, b), ctx)


def is_one(d):
    return not isinstance(d, Prod) and machine().norm(d) is ONE


_births = itertools.count()


def cell_mark():
    return next(_births)


class Cell:
    """Storage shared by an array and its views."""
    __slots__ = ('content', 'name', 'frozen', 'opaque', 'birth', 'dtype', 'twin')

    def __init__(self, content, name='', frozen=False, dtype=None):
        self.content = content
        self.birth = next(_births)
        self.dtype = dtype
        self.name = name
        self.frozen = frozen
        self.opaque = False
        self.twin = None        # the same storage in another shape: of no use after a write

    def __deepcopy__(self, memo):
        return self


class Lib:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'

    def __deepcopy__(self, memo):
        return self


NP = Lib('numpy')
XP = Lib('generic array library')


class SArr:
    """An array: a view of a cell.

    axes: for each axis of the cell ('fix', t) or ('ax', k, off, step)."""
    __slots__ = ('cell', 'shape', 'axes', 'dtype', 'lib', 'scalar', 'data', 'nan', 'exact', 'ro')

    def __init__(self, cell, shape, axes=None, dtype=None, lib=NP, scalar=False, data=False, nan=None, exact=True):
        self.cell = cell
        self.shape = tuple(shape)
        self.axes = tuple(('ax', k, ZERO, 1) for k in range(len(self.shape))) if axes is None else tuple(axes)
        self.dtype = np.dtype('float64') if dtype is None else np.dtype(dtype)
        self.lib = lib
        self.scalar = scalar          # numpy scalar: immutable
        self.data = data              # integers derived from the data (may wrap)
        self.nan = nan                # idx -> condition under which the element is NaN
        self.exact = exact            # exact numbers, no floating point involved
        self.ro = False

    def __repr__(self):
        return f'SArr{self.shape}:{self.dtype}'

    def __deepcopy__(self, memo):
        return self.copy(scalar=self.scalar)

    def __bool__(self):
        raise Unsupported('native truth value of a symbolic array')

    def base(self, idx):
        out = []
        for a in self.axes:
            if a[0] == 'fix':
                out.append(a[1])
            else:
                i = idx[a[1]]
                if a[3] != 1:
                    i = mul(num(a[3]), i)
                out.append(i if a[2] is ZERO else add(a[2], i))
        return tuple(out)

    def at(self, idx):
        return self.cell.content(self.base(tuple(idx)))

    def snap(self):
        """Current contents as a function of the index."""
        content, base = self.cell.content, self.base
        return lambda idx: content(base(tuple(idx)))

    def copy(self, **kw):
        r = new(self.shape, self.snap(), self.dtype, self.lib, data=self.data, exact=self.exact)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    @property
    def ndim(self):
        return len(self.shape)

    def view(self, shape, axes):
        return SArr(self.cell, shape, axes, self.dtype, self.lib, False, self.data, None, self.exact)

    def write(self, cond, value):
        """Assign value(idx) to the elements with cond(idx) (idx: index of this view)."""
        m = machine()
        if self.scalar:
            raise PyExc(TypeError('numpy scalars are immutable'))
        if self.cell.opaque:
            raise Unsupported('write to a reshaped array')
        if self.cell.frozen and m.frame:
            raise FrameViolation(self.cell.name)
        if self.cell.twin is not None:
            def gone(idx):
                raise Unsupported('an array written in another shape')
            self.cell.twin.twin = None
            self.cell.twin.content = gone
            self.cell.twin = None
        old = self.cell.content
        for log in m.writes:
            log.setdefault(self.cell, old)
        axes, shape, nv = self.axes, self.shape, len(self.shape)

        def content(bidx):
            conds, vidx = [], [ZERO if not isinstance(d, Prod) else None for d in shape]
            for a, b in zip(axes, bidx):
                if a[0] == 'fix':
                    conds.append(eq(a[1], b))
                else:
                    _, k, off, step = a
                    if isinstance(shape[k], Prod):
                        vidx[k] = b
                        continue
                    if step == 1:
                        v = b if off is ZERO else sub(b, off)
                    elif step == -1:
                        v = sub(off, b)
                    else:
                        raise Unsupported('write through a strided view')
                    vidx[k] = v
                    if not (off is ZERO and step == 1 and full(k)):
                        conds.append(le(ZERO, v))
                        conds.append(lt(v, shape[k]))
            vidx = tuple(vidx)
            c = band(*conds, cond(vidx))
            if c is FALSE:
                return old(bidx)
            v = value(vidx)
            if c is TRUE:
                return v
            return ite(c, v, old(bidx))

        fullset = set()

        def full(k):
            return k in fullset

        # axes that cover the whole cell need no range condition
        base_shape = CELL_SHAPE.get(self.cell)
        if base_shape is not None:
            for a, d in zip(axes, base_shape):
                if a[0] == 'ax' and a[2] is ZERO and a[3] == 1 and same_dim(shape[a[1]], d):
                    fullset.add(a[1])
        self.cell.content = memo(content)


CELL_SHAPE = {}


def memo(fn):
    cache = {}

    def f(idx):
        r = cache.get(idx)
        if r is None:
            r = cache[idx] = fn(idx)
        return r
    return f


def new(shape, fn, dtype=None, lib=NP, scalar=False, data=False, exact=True, name='', frozen=False):
    dt = np.dtype('float64') if dtype is None else np.dtype(dtype)
    if dt.kind in 'iu' and dt.itemsize < 8 and not data and not frozen and shape:
        # indexes and counts are mathematical integers here: only 64 bits are wide enough for that
        raise Unsupported(f'array of {dt} that does not come from the data')
    c = Cell(memo(fn), name, frozen, dt)
    CELL_SHAPE[c] = tuple(shape)
    return SArr(c, shape, None, dtype, lib, scalar, data, None, exact)


def scalar0(t, dtype=None, lib=NP, exact=True, data=False):
    """Result of a reduction: an immutable scalar for NumPy, a 0-d array otherwise."""
    return new((), lambda idx: t, dtype, lib, scalar=lib is NP, exact=exact, data=data)


class Masked:
    """Elements of an array selected by a condition (order kept, count symbolic)."""

    def __init__(self, dims, value, mask, dtype, lib, exact=True):
        self.dims, self.value, self.mask = tuple(dims), value, mask
        self.dtype, self.lib, self.exact = dtype, lib, exact

    def count(self):
        idx, bs = [], []
        for d in self.dims:
            i = dfresh(d)
            idx.append(i)
            bs += dbind(d, i)
        r = ind(self.mask(tuple(idx)))
        for b, z in reversed(bs):
            r = summ(b, z, r)
        return r

    def total(self):
        idx, bs = [], []
        for d in self.dims:
            i = dfresh(d)
            idx.append(i)
            bs += dbind(d, i)
        r = mul(ind(self.mask(tuple(idx))), b2r(self.value(tuple(idx))))
        for b, z in reversed(bs):
            r = summ(b, z, r)
        return r


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        if self.step is ONE:
            return sub(self.stop, self.start)
        return ceil(div(sub(self.stop, self.start), self.step))

    def elem(self, i):
        return add(self.start, mul(self.step, i))


class SymSeq:
    """A list of symbolic length; elem(term) is its element."""

    def __init__(self, size, elem):
        self.size, self.elem = size, elem

    def __repr__(self):
        return f'SymSeq[{self.size}]'


class Delayed:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


def vsubst(v, m):
    """Substitute variables in a value."""
    if isinstance(v, Sym):
        return mk(subst(v.t, m), v.kind)
    if isinstance(v, SArr):
        f = v.snap()
        r = new(tuple(dsubst(d, m) for d in v.shape), lambda idx: subst(f(idx), m), v.dtype, v.lib, v.scalar, v.data, v.exact)
        return r
    if isinstance(v, Masked):
        return Masked([dsubst(d, m) for d in v.dims], lambda i: subst(v.value(i), m), lambda i: subst(v.mask(i), m), v.dtype, v.lib, v.exact)
    if isinstance(v, tuple):
        return tuple(vsubst(a, m) for a in v)
    if isinstance(v, list):
        return [vsubst(a, m) for a in v]
    if isinstance(v, Delayed):
        return Delayed(v.fn, vsubst(v.args, m), {k: vsubst(a, m) for k, a in v.kwargs.items()})
    if isinstance(v, SymSeq):
        return SymSeq(subst(v.size, m), lambda t: vsubst(v.elem(t), m))
    if isinstance(v, T):
        return subst(v, m)
    return v


def dsubst(d, m):
    if isinstance(d, Prod):
        return Prod([subst(a, m) for a in d.dims])
    return subst(d, m)
