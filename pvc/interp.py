"""Symbolic execution of the real source of the functions of dcor.

The syntax tree of the file that the interpreter imported is executed; nothing
is rewritten.  What lies outside of the supported language raises Unsupported
(the obligation is then undecided, never violated)."""
from __future__ import annotations

import ast
import builtins
import functools
import importlib
import inspect
import math
import operator
import os
import types

import numpy as np

from terms import *  # noqa: F403
from terms import T
from nf import nf, to_term, canon
import vals
from vals import (Sym, SArr, Prod, Masked, SymRange, SymSeq, Delayed, NP, XP, Lib, Unsupported, PyExc, Undecided, FrameViolation,
                  Infeasible, Machine, machine, set_machine, mk, term, nterm, new, scalar0, vsubst, same_dim, is_number)
import npmodel as N
from npmodel import PRIMS, ARR_OPS, OBJ, B1, F8, I8


# ---------------------------------------------------------------- markers
class CompiledMark:
    """A function compiled by numba: runs its Python source."""

    def __init__(self, fn, sig=None):
        self.fn, self.sig = fn, sig
        functools.update_wrapper(self, fn)

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class GuMark:
    """numba.guvectorize: the function applied to each row."""

    def __init__(self, fn, sigs, layout):
        self.fn, self.sigs, self.layout = fn, sigs, layout
        functools.update_wrapper(self, fn)

    def __call__(self, x, y, flag, res):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if x.shape[1] != y.shape[1] or x.shape[0] != y.shape[0] and 1 not in (x.shape[0], y.shape[0]):
            raise ValueError('mismatch in core dimensions')
        for i in range(res.shape[0]):
            self.fn(x[i if x.shape[0] > 1 else 0], y[i if y.shape[0] > 1 else 0], flag, res[i:i + 1])
        return res


def patch_numba():
    """Replace the compilers (before dcor is imported)."""
    import numba

    def njit(*args, **kw):
        if args and isinstance(args[0], types.FunctionType):
            return CompiledMark(args[0])
        sig = args[0] if args else kw.get('signature_or_function')
        return lambda f: CompiledMark(f, sig)

    def guvectorize(sigs=None, layout=None, **kw):
        return lambda f: GuMark(f, sigs, layout)

    numba.njit = numba.jit = njit
    numba.guvectorize = guvectorize
    numba.vectorize = lambda *a, **k: (lambda f: CompiledMark(f))


class XPNamespace:
    """The generic array library: only what the array API standard defines."""

    def __repr__(self):
        return '<array API namespace>'


XPNS = XPNamespace()


class PrimRef:
    def __init__(self, name, lib=NP):
        self.name, self.lib = name, lib

    def __repr__(self):
        return f'<{self.name}>'

    def __eq__(self, o):
        return isinstance(o, PrimRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class SRng:
    """A random number generator: a stream of draws."""

    def __init__(self, name):
        self.name = name
        self.draws = 0


class Closure:
    def __init__(self, node, scope, glob, defaults, kwdefaults, name, mod):
        self.node, self.scope, self.glob = node, scope, glob
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name
        self.__module__ = mod
        self.attrs = {}

    def __repr__(self):
        return f'<function {self.__name__}>'


class BoundClosure:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class UserFn:
    """An arbitrary user function of arrays (named)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Scope:
    __slots__ = ('vars', 'parent', 'nonlocals', 'globals_')

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.nonlocals = set()
        self.globals_ = set()


UNBOUND = object()


class Poison:
    def __init__(self, why):
        self.why = why


class Sig:
    """How a block ended: 'return', 'break' or 'continue'."""
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


# ---------------------------------------------------------------- source
_trees = {}


def tree_of(path):
    t = _trees.get(path)
    if t is None:
        with open(path) as f:
            t = ast.parse(f.read(), path)
        _trees[path] = t
    return t


_nodes = {}


def node_of(fn):
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    r = _nodes.get(key)
    if r is None:
        cands = []
        for n in ast.walk(tree_of(code.co_filename)):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                first = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    first = min(d.lineno for d in n.decorator_list)
                name = n.name if isinstance(n, ast.FunctionDef) else '<lambda>'
                if first == code.co_firstlineno and name == code.co_name:
                    cands.append(n)
        if len(cands) != 1:
            raise Unsupported(f'source of {code.co_name} not found')
        r = _nodes[key] = cands[0]
    return r


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
NATIVE = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
          '**': operator.pow, '@': operator.matmul, '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift,
          '>>': operator.rshift, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq,
          '!=': operator.ne}
CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def symbolic(v):
    return isinstance(v, (Sym, SArr, Masked))


def has_symbolic(v, depth=0):
    if isinstance(v, (Sym, SArr, Masked, SymSeq, SymRange, Delayed, SRng, Closure)):
        return True
    if isinstance(v, (list, tuple, set)) and depth < 4:
        return any(has_symbolic(a, depth + 1) for a in v)
    if isinstance(v, dict) and depth < 4:
        return any(has_symbolic(a, depth + 1) for a in v.values())
    return False


def module_prefix(mod):
    name = mod.__name__
    if name in ('numpy', 'array_api_compat.numpy'):
        return 'np.'
    if name in ('numpy.linalg', 'array_api_compat.numpy.linalg', 'scipy.linalg', 'numpy.linalg._linalg'):
        return 'linalg.'
    if name == 'math':
        return 'math.'
    return None


class Interp:
    def __init__(self):
        import array_api_compat
        import joblib
        import scipy.spatial.distance as ssd
        import scipy.stats
        import warnings
        import dataclasses
        import array_api_strict
        self.dataclasses = dataclasses
        self.depth = 0
        self.npns = array_api_compat.numpy
        self.special = {
            array_api_compat.array_namespace: self.sp_namespace,
            joblib.Parallel: self.sp_parallel,
            joblib.delayed: self.sp_delayed,
            np.random.RandomState: self.sp_rng,
            np.random.default_rng: self.sp_rng,
            warnings.warn: lambda *a, **k: None,
            np.errstate: lambda *a, **k: ErrState(),
            dataclasses.astuple: self.sp_astuple,
            ssd.cdist: PRIMS['cdist'], ssd.pdist: PRIMS['pdist'], ssd.squareform: PRIMS['squareform'],
            dataclasses.replace: lambda o, **k: dataclasses.replace(o, **k),
            functools.reduce: self.sp_reduce,
            np.add.at: PRIMS['np.add.at'],
            warnings.catch_warnings: lambda *a, **k: NullCtx(),
            warnings.simplefilter: lambda *a, **k: None,
            warnings.filterwarnings: lambda *a, **k: None,
        }
        for nm in ('isarray', 'is_numpy_array', 'is_array_api_obj'):
            f = getattr(array_api_compat, nm, None)
            if f is not None:
                self.special[f] = (lambda v, nm=nm: isinstance(v, SArr) and (v.lib is NP or nm != 'is_numpy_array'))
        self.special_methods = {id(scipy.stats.t): dict(cdf=PRIMS['t.cdf'], sf=PRIMS['t.sf'])}
        self.xp_names = {n for n in dir(array_api_strict) if not n.startswith('_')}
        self.xp_names -= {'ArrayAPIStrictFlags', 'set_array_api_strict_flags', 'get_array_api_strict_flags', 'reset_array_api_strict_flags',
                          'Array', 'Device'}
        self.builtins = {
            len: self.b_len, range: self.b_range, enumerate: self.b_enumerate, zip: self.b_zip, tuple: self.b_tuple, list: self.b_list,
            int: self.b_int, float: self.b_float, bool: self.b_bool, abs: self.b_abs, min: self.b_min, max: self.b_max, sum: self.b_sum,
            isinstance: self.b_isinstance, getattr: self.b_getattr, hasattr: self.b_hasattr, callable: lambda f: callable(f) or isinstance(f, (Closure, PrimRef, UserFn)),
            iter: lambda v: v, map: self.b_map, filter: self.b_filter, reversed: self.b_reversed, type: self.b_type, setattr: self.b_setattr,
            next: self.b_next, sorted: self.b_sorted, any: self.b_any, all: self.b_all, pow: lambda a, b: self.binop('**', a, b),
            print: lambda *a, **k: None, str: lambda *a: '<str>' if a and has_symbolic(a[0]) else str(*a), repr: lambda a: '<repr>',
            round: self.b_round, super: self.b_super, id: lambda v: id(v), divmod: lambda a, b: (self.binop('//', a, b), self.binop('%', a, b)),
            set: lambda *a: set(self.iterate(a[0])) if a else set(), dict: lambda *a, **k: dict(*[self.pairs(x) for x in a], **k),
        }
        self.opfns = {operator.add: '+', operator.sub: '-', operator.mul: '*', operator.truediv: '/', operator.matmul: '@',
                      operator.pow: '**', operator.lt: '<', operator.gt: '>', operator.le: '<=', operator.ge: '>=', operator.eq: '==',
                      operator.ne: '!=', operator.floordiv: '//', operator.mod: '%'}

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Sym):
            return machine().truth(v.t if v.t.sort == 'B' else ne(v.t, ZERO))
        if isinstance(v, SArr):
            return machine().truth(self.cond(v))
        if isinstance(v, Masked):
            raise Unsupported('truth value of selected elements')
        if isinstance(v, SymSeq):
            return machine().truth(lt(ZERO, v.size))
        if isinstance(v, SymRange):
            return machine().truth(lt(ZERO, v.count()))
        return bool(v)

    def cond(self, v):
        """Truth value as a condition term (None: concrete value in Python)."""
        if isinstance(v, Sym):
            return v.t if v.t.sort == 'B' else ne(v.t, ZERO)
        if isinstance(v, SArr):
            if v.shape != ():
                if all(vals.is_one(d) for d in v.shape):
                    v = N.drop_axes(v, list(range(v.ndim)))
                else:
                    raise PyExc(ValueError('The truth value of an array with more than one element is ambiguous'))
            t = v.at(())
            if v.nan is not None and v.nan(()) is not FALSE:
                raise Unsupported('truth value of a possible NaN')
            return t if t.sort == 'B' else ne(t, ZERO)
        if isinstance(v, SymSeq):
            return lt(ZERO, v.size)
        return TRUE if self.truth(v) else FALSE

    def decide(self, c):
        """True, False or None (only in merge mode)."""
        try:
            return machine().truth(c)
        except Undecided as e:
            if e.c is None:
                raise
            return None

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = tuple(args)
        m = machine()
        m.calls += 1
        if m.calls > 200000:
            raise Unsupported('too many calls')
        try:
            h = self.special.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kwargs)
        if isinstance(f, PrimRef):
            return self.prim_call(f, args, kwargs)
        if isinstance(f, types.BuiltinFunctionType) or isinstance(f, type) or isinstance(f, types.MethodType):
            try:
                b = self.builtins.get(f)
            except TypeError:
                b = None
            if b is not None:
                return b(*args, **kwargs)
        try:
            o = self.opfns.get(f)
        except TypeError:
            o = None
        if o is not None:
            return self.binop(o, *args)
        if isinstance(f, UserFn):
            return f.fn(*args, **kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, f.args + args, {**f.keywords, **kwargs})
        if isinstance(f, CompiledMark):
            return self.call_compiled(f, args, kwargs)
        if isinstance(f, GuMark):
            return self.call_gu(f, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, BoundClosure):
            return self.call(f.fn, (f.self_,) + args, kwargs)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if isinstance(fn, types.FunctionType) and self.ours(fn):
                return self.call_function(fn, (f.__self__,) + args, kwargs)
            if has_symbolic(args) or has_symbolic(kwargs):
                raise Unsupported(f'method {fn.__name__} of a library object')
            return self.native(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            if self.ours(f):
                return self.call_function(f, args, kwargs)
            if getattr(f, '__closure__', None) and getattr(f, '_verif_prim', None):
                return f(*args, **kwargs)
            if f.__module__ in ('npmodel', 'interp', 'vals', 'contracts'):
                return f(*args, **kwargs)
        if isinstance(f, ParallelMark):
            return self.run_parallel(args[0])
        if isinstance(f, DelayedMark):
            return Delayed(f.fn, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        name = getattr(f, '__name__', None)
        mod = getattr(f, '__module__', '') or ''
        if name and (mod.startswith('numpy') or isinstance(f, np.ufunc) or mod.startswith('array_api_compat')):
            p = PRIMS.get('np.' + name)
            if p is not None:
                return self.prim_call(PrimRef('np.' + name), args, kwargs)
        if hasattr(f, '__self__') and isinstance(f, types.BuiltinFunctionType) and not isinstance(f.__self__, types.ModuleType):
            return self.container_method(f, args, kwargs)
        if has_symbolic(args) or has_symbolic(kwargs):
            raise Unsupported(f'call of {name or f!r}')
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except (Unsupported, PyExc, Undecided, FrameViolation):
            raise
        except Exception as e:  # noqa: BLE001
            raise PyExc(e)

    def container_method(self, f, args, kwargs):
        """Methods of native lists, dicts, strings ..."""
        obj = f.__self__
        if isinstance(obj, (list, dict, set)) and f.__name__ in ('append', 'extend', 'insert', 'pop', 'clear', 'update', 'add', 'remove',
                                                               'setdefault', 'sort', 'reverse', 'popitem', 'discard'):
            if machine().merge:
                raise Unsupported('change of a container inside of a symbolic loop')
            if f.__name__ in ('extend', 'update') and args and not isinstance(args[0], dict):
                args = (self.iterate(args[0]),) + tuple(args[1:])
            if f.__name__ in ('sort', 'remove') and has_symbolic(obj):
                raise Unsupported('sort of symbolic values')
        elif isinstance(obj, str) and f.__name__ == 'join':
            return '<str>'
        elif isinstance(obj, str) and has_symbolic(args):
            return '<str>'
        elif isinstance(obj, (list, tuple)) and f.__name__ in ('index', 'count') and (has_symbolic(obj) or has_symbolic(args)):
            raise Unsupported('search of a symbolic value')
        elif isinstance(obj, dict) and has_symbolic(args[:1]):
            raise Unsupported('symbolic key')
        elif has_symbolic(args) and not isinstance(obj, (list, dict, set, tuple)):
            raise Unsupported(f'method {f.__name__}')
        return self.native(f, args, kwargs)

    def ours(self, fn):
        mod = getattr(fn, '__module__', '') or ''
        if not (mod == 'dcor' or mod.startswith('dcor.')):
            return False
        return os.path.exists(fn.__code__.co_filename)

    def instantiate(self, cls, args, kwargs):
        mod = cls.__module__ or ''
        if cls in (np.float64, np.int64):
            return PRIMS['np.' + cls.__name__](*args, **kwargs)
        if cls in (slice,):
            return slice(*args)
        if mod == 'dcor' or mod.startswith('dcor.'):
            init = cls.__dict__.get('__init__')
            if isinstance(init, types.FunctionType) and self.ours(init) and not self.dataclasses.is_dataclass(cls):
                o = cls.__new__(cls)
                self.call_function(init, (o,) + args, kwargs)
                return o
            return self.native(cls, args, kwargs)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            try:
                return cls(*['<v>' if has_symbolic(a) else a for a in args])
            except Exception as e:  # noqa: BLE001
                raise PyExc(e)
        from fractions import Fraction as Fr
        if cls is Fr and has_symbolic(args):
            if len(args) == 1:
                return scalar0(nterm(args[0]), OBJ, NP, exact=not N.is_float(args[0]))
            if len(args) == 2:
                return self.binop('/', scalar0(nterm(args[0]), OBJ), scalar0(nterm(args[1]), OBJ))
        if has_symbolic(args) or has_symbolic(kwargs):
            if cls in (np.dtype,):
                raise Unsupported('dtype')
            raise Unsupported(f'instance of {cls.__name__}')
        return self.native(cls, args, kwargs)

    def prim_call(self, f, args, kwargs):
        p = PRIMS[f.name]
        args = tuple(self.plain(a) for a in args)
        kwargs = {k: self.plain(v) for k, v in kwargs.items() if k not in ('device',)}
        if not has_symbolic(args) and not has_symbolic(kwargs) and f.lib is NP and f.name.startswith('np.'):
            # a concrete computation (small constant arrays)
            nat = getattr(np, f.name[3:], None)
            if nat is not None and not any(isinstance(a, (PrimRef, Closure)) for a in args) and f.name not in CREATES:
                return self.native(nat, args, kwargs)
        if f.name in ('np.add.at',):
            return p(*args, **kwargs)
        try:
            inspect_bind(p, args, kwargs)
        except TypeError as e:
            raise Unsupported(f'arguments of {f.name}: {e}')
        r = p(*args, **kwargs)
        if f.lib is XP and isinstance(r, SArr) and r.lib is NP:
            r.lib = XP
            r.scalar = False
        return r

    def plain(self, v):
        if isinstance(v, (map, filter, zip)):
            return list(v)
        return v

    def call_function(self, fn, args, kwargs):
        m = machine()
        stub = m.stubs.get(fn.__qualname__ if False else (fn.__module__, fn.__qualname__))
        if stub is not None:
            r = stub(self, args, kwargs, fn)
            if r is not NotImplemented:
                m.stubbed.add((fn.__module__, fn.__qualname__))
                return r
        m.used.add((fn.__module__, fn.__qualname__))
        node = node_of(fn)
        scope = Scope()
        if fn.__closure__:
            par = Scope()
            for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    par.vars[nm] = c.cell_contents
                except ValueError:
                    pass
            scope.parent = par
        return self.run(node, scope, fn.__globals__, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {}, fn.__name__)

    def call_closure(self, f, args, kwargs):
        return self.run(f.node, Scope(f.scope), f.glob, args, kwargs, f.defaults, f.kwdefaults, f.__name__)

    def run(self, node, scope, glob, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = scope.vars
        kwargs = dict(kwargs)
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise PyExc(TypeError(f'{name}() takes {len(pos)} positional arguments but {len(args)} were given'))
        for p, v in zip(pos, args):
            env[p] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        ponly = {p.arg for p in a.posonlyargs}
        extra = {}
        allowed = set(pos) - ponly | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in allowed:
                if k in env:
                    raise PyExc(TypeError(f'{name}() got multiple values for argument {k!r}'))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc(TypeError(f'{name}() got an unexpected keyword argument {k!r}'))
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        nd = len(defaults)
        for k, p in enumerate(pos):
            if p not in env:
                j = k - (len(pos) - nd)
                if j < 0:
                    raise PyExc(TypeError(f'{name}() missing a required argument: {p!r}'))
                env[p] = defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg not in kwdefaults:
                    raise PyExc(TypeError(f'{name}() missing a required keyword-only argument: {p.arg!r}'))
                env[p.arg] = kwdefaults[p.arg]
        self.depth += 1
        try:
            if self.depth > 60:
                raise Unsupported('recursion')
            fr = Frame(self, scope, glob, name)
            if isinstance(node, ast.Lambda):
                return fr.eval(node.body)
            gen = is_generator(node)
            if gen:
                fr.yields = []
            s = fr.block(node.body)
            if gen:
                return fr.yields
            return s.value if s is not None and s.kind == 'return' else None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ numba
    def call_compiled(self, f, args, kwargs):
        m = machine()
        stub = m.stubs.get((f.fn.__module__, f.fn.__qualname__))
        sig = f.sig
        if sig is not None and not isinstance(sig, str):
            if isinstance(sig, (list, tuple)):
                sig = sig[0]
            types_ = list(getattr(sig, 'args', ()))
            names = list(inspect.signature(f.fn).parameters)
            defaults = {k: p.default for k, p in inspect.signature(f.fn).parameters.items() if p.default is not inspect.Parameter.empty}
            full = []
            for k, nm in enumerate(names):
                if k < len(args):
                    full.append(args[k])
                elif nm in kwargs:
                    full.append(kwargs[nm])
                elif nm in defaults:
                    full.append(defaults[nm])
                else:
                    raise PyExc(TypeError('missing argument'))
            if len(args) + len(kwargs) > len(names):
                raise PyExc(TypeError('too many arguments'))
            if len(types_) == len(full):
                full = [self.numba_arg(v, t) for v, t in zip(full, types_)]
            args, kwargs = tuple(full), {}
        m.compiled += 1
        try:
            return self.call(f.fn, args, kwargs)
        finally:
            m.compiled -= 1

    def numba_arg(self, v, t):
        from numba import types as nt
        if isinstance(t, nt.Array):
            if isinstance(v, SArr):
                want = np.dtype(str(t.dtype))
                if v.ndim != t.ndim or v.dtype != want or v.lib is not NP or v.scalar:
                    raise PyExc(TypeError('No matching definition for argument type(s)'))
                return v
            raise PyExc(TypeError('No matching definition for argument type(s)'))
        if isinstance(t, nt.Float):
            if isinstance(v, SArr):
                if v.shape != () or v.dtype == OBJ:
                    raise PyExc(TypeError('No matching definition for argument type(s)'))
                return scalar0(nterm(v), F8)
            if isinstance(v, Sym):
                return Sym(v.t, 'float')
            return v
        if isinstance(t, nt.Integer):
            if isinstance(v, SArr) and v.shape != ():
                raise PyExc(TypeError('No matching definition for argument type(s)'))
            if N.is_float(v):
                raise PyExc(TypeError('No matching definition for argument type(s)'))
            return v
        return v

    def call_gu(self, f, args, kwargs):
        m = machine()
        x, y, flag, res = args
        x, y = N.as_arr(x), N.as_arr(y)
        for v in (x, y):
            if v.dtype == OBJ or not np.can_cast(v.dtype, F8):
                raise PyExc(TypeError('ufunc not supported for the input types'))
        if x.ndim != 2 or y.ndim != 2:
            raise Unsupported('guvectorize on other dimensions')
        if not same_dim(x.shape[1], y.shape[1]) and not m.truth(eq(x.shape[1], y.shape[1])):
            raise PyExc(ValueError('mismatch in its core dimension'))
        if not same_dim(x.shape[0], y.shape[0]) and not m.truth(eq(x.shape[0], y.shape[0])):
            raise Unsupported('broadcast of guvectorize')
        x, y = N.cast(x, F8), N.cast(y, F8)
        i = fresh('q')
        m.loop_params.append(i)
        m.merge += 1
        m.compiled += 1
        nf0 = len(m.facts)
        m.facts += [le(ZERO, i), lt(i, x.shape[0])]
        try:
            cell = new((ONE,), lambda idx: app('gu!', (i,)), F8)
            self.call(f.fn, (N.getitem(x, mk(i, 'int')), N.getitem(y, mk(i, 'int')), flag, cell), {})
            val = cell.at((ZERO,))
        finally:
            m.loop_params.pop()
            m.merge -= 1
            m.compiled -= 1
            wrap_facts(m, nf0, [(i, x.shape[0])])
        if any(s.op == 'app' and s.args[0] == 'gu!' for s in subterms(val)):
            raise Unsupported('guvectorize result not assigned')
        res.write(lambda idx: TRUE, lambda idx: subst(val, {i: idx[0]}))
        return res

    # ------------------------------------------------------------ special functions
    def sp_namespace(self, *xs, **kw):
        libs = set()
        for x in xs:
            if isinstance(x, SArr):
                if x.dtype == OBJ and x.scalar:
                    raise PyExc(TypeError('not a supported array type'))
                libs.add(x.lib)
            elif isinstance(x, Masked):
                libs.add(x.lib)
            elif isinstance(x, (np.ndarray, np.generic)):
                libs.add(NP)
            elif isinstance(x, (bool, int, float, complex, type(None), Sym)):
                continue
            else:
                raise PyExc(TypeError(f'{type(x)} is not a supported array type'))
        if len(libs) != 1:
            raise PyExc(TypeError('Multiple namespaces or unrecognized array input'))
        return self.npns if NP in libs else XPNS

    def sp_parallel(self, *a, **k):
        return ParallelMark()

    def sp_delayed(self, f, *a, **k):
        return DelayedMark(f)

    def run_parallel(self, jobs):
        if isinstance(jobs, SymSeq):
            m = machine()
            return self.seq_map(jobs, lambda d: self.call(d.fn, d.args, d.kwargs))
        return [self.call(d.fn, d.args, d.kwargs) for d in self.iterate(jobs)]

    def sp_rng(self, seed=None, *a):
        if isinstance(seed, SRng):
            return seed
        return SRng('seed:' + (repr(seed) if not has_symbolic(seed) else 'sym'))

    def rng_draw(self, rng, name, args):
        m = machine()
        if name not in ('permutation',):
            raise Unsupported(f'random {name}')
        n = args[0]
        arr = None
        if isinstance(n, SArr) and n.shape != ():
            arr = n
            size = n.shape[0]
        else:
            size = N.to_dim(n)
        prm = tuple(m.loop_params)
        nm = f'rng{rng.draws}'
        rng.draws += 1
        m.perms.add(nm, size)
        m.rng_draws += 1
        m.rng_log = getattr(m, 'rng_log', []) + [(nm, size, prm, rng.name)]
        p = new((size,), lambda idx: perm('P:' + nm, idx[0], *prm), I8)
        return N.getitem(arr, p) if arr is not None else p

    def sp_astuple(self, o):
        return tuple(getattr(o, f.name) for f in self.dataclasses.fields(o))

    def sp_reduce(self, f, seq, *init):
        items = self.iterate(seq)
        if init:
            items = [init[0]] + items
        if not items:
            raise PyExc(TypeError('reduce() of empty iterable with no initial value'))
        r = items[0]
        for v in items[1:]:
            r = self.call(f, (r, v))
        return r

    # ------------------------------------------------------------ iteration
    def as_seq(self, v):
        """A symbolic sequence, or None if the value can be listed."""
        m = machine()
        if isinstance(v, SymSeq):
            z = m.norm(v.size)
            return v if z.op != 'num' else None
        if isinstance(v, SymRange):
            c = m.norm(v.count())
            if c.op == 'num':
                return None
            return SymSeq(self.nonneg_count(c), lambda t: mk(v.elem(t), 'int'))
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyExc(TypeError('iteration over a 0-d array'))
            d = v.shape[0]
            if isinstance(d, Prod):
                raise Unsupported('iteration over a flattened array')
            if m.norm(d).op == 'num':
                return None
            if v.lib is XP:
                raise Unsupported('iteration over an array of another library')
            return SymSeq(d, lambda t: self.row(v, t))
        return None

    def row(self, v, t):
        m = machine()
        m.quiet += 1
        try:
            return N.getitem(v, mk(t, 'int'))
        finally:
            m.quiet -= 1

    def nonneg_count(self, c):
        m = machine()
        if m.valid(le(ZERO, c)):
            return c
        if not m.truth(le(ZERO, c)):
            return ZERO
        return c

    def iterate(self, v):
        """The elements as a Python list."""
        m = machine()
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, SymRange):
            c = m.norm(v.count())
            if c.op != 'num':
                raise Unsupported('symbolic range listed')
            return [mk(v.elem(num(k)), 'int') for k in range(max(0, int(c.args[0])))]
        if isinstance(v, SymSeq):
            z = m.norm(v.size)
            if z.op != 'num':
                raise Unsupported('symbolic sequence listed')
            return [v.elem(num(k)) for k in range(int(z.args[0]))]
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyExc(TypeError('iteration over a 0-d array'))
            z = m.norm(vals.dsize(v.shape[0]))
            if z.op != 'num':
                raise Unsupported('symbolic array listed')
            return [N.getitem(v, k) for k in range(int(z.args[0]))]
        if isinstance(v, (Sym, Masked)):
            raise PyExc(TypeError('object is not iterable'))
        if isinstance(v, (Closure, Poison)):
            raise Unsupported('iteration')
        it = getattr(type(v), '__iter__', None)
        if isinstance(it, types.FunctionType) and self.ours(it):
            return self.iterate(self.call_function(it, (v,), {}))
        try:
            return list(v)
        except (PyExc, Unsupported):
            raise
        except TypeError as e:
            raise PyExc(e)

    def seq_map(self, seq, f):
        """[f(e) for e in seq] for a symbolic sequence (f has no effects)."""
        m = machine()
        i = fresh('q')
        m.loop_params.append(i)
        m.merge += 1
        nf0 = len(m.facts)
        m.facts += [le(ZERO, i), lt(i, seq.size)]
        log = {}
        mark = vals.cell_mark()
        m.writes.append(log)
        try:
            v = f(seq.elem(i))
            # force the contents now (they depend on the current state)
        finally:
            del m.writes[next(q for q in range(len(m.writes)) if m.writes[q] is log):]
            m.loop_params.pop()
            m.merge -= 1
            wrap_facts(m, nf0, [(i, seq.size)])
        for c in log:
            if c.birth < mark:
                raise Unsupported('change of an array inside of a comprehension')
        return SymSeq(seq.size, lambda t: vsubst(v, {i: t}))

    # ------------------------------------------------------------ builtins
    def pairs(self, v):
        return v if isinstance(v, dict) else [tuple(self.iterate(p)) for p in self.iterate(v)]

    def b_len(self, v):
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyExc(TypeError('len() of unsized object'))
            return N.pydim(v.shape[0])
        if isinstance(v, SymSeq):
            return mk(v.size, 'int')
        if isinstance(v, SymRange):
            return mk(self.nonneg_count(machine().norm(v.count())), 'int')
        if isinstance(v, Masked):
            return mk(v.count(), 'int')
        if isinstance(v, Sym):
            raise PyExc(TypeError('object has no len()'))
        ln = getattr(type(v), '__len__', None)
        if isinstance(ln, types.FunctionType) and self.ours(ln):
            return self.call_function(ln, (v,), {})
        return self.native(len, (v,), {})

    def b_range(self, *args):
        if not any(isinstance(a, (Sym, SArr)) for a in args):
            return range(*args)
        if len(args) == 1:
            args = (0, args[0], 1)
        elif len(args) == 2:
            args = args + (1,)
        a, b, c = [nterm(x) for x in args]
        if not all(isint(machine().norm(t)) for t in (a, b, c)):
            if any(N.is_float(x) for x in args):
                raise PyExc(TypeError('float object cannot be interpreted as an integer'))
        return SymRange(a, b, c)

    def b_enumerate(self, v, start=0):
        s = self.as_seq(v)
        if s is None:
            return [(k + start if not isinstance(start, Sym) else self.binop('+', k, start), e) for k, e in enumerate(self.iterate(v))]
        st = nterm(start)
        return SymSeq(s.size, lambda t: (mk(add(st, t), 'int'), s.elem(t)))

    def b_zip(self, *vs, strict=False):
        ss = [self.as_seq(v) for v in vs]
        if all(s is None for s in ss):
            return list(zip(*[self.iterate(v) for v in vs]))
        m = machine()
        size = None
        for v, s in zip(vs, ss):
            z = s.size if s is not None else num(len(self.iterate(v)))
            if size is None or same_dim(size, z):
                size = z if size is None else size
            elif m.truth(eq(size, z)):
                pass
            elif m.truth(lt(z, size)):
                size = z
        elems = []
        for v, s in zip(vs, ss):
            if s is not None:
                elems.append(s.elem)
            else:
                lst = self.iterate(v)
                elems.append(lambda t, lst=lst: self.pick(lst, t))
        return SymSeq(size, lambda t: tuple(e(t) for e in elems))

    def pick(self, lst, t):
        t = machine().norm(t)
        if t.op == 'num':
            return lst[int(t.args[0])]
        raise Unsupported('symbolic position in a list')

    def b_tuple(self, *a):
        if not a:
            return ()
        if self.as_seq(a[0]) is not None:
            return self.as_seq(a[0])
        return tuple(self.iterate(a[0]))

    def b_list(self, *a):
        if not a:
            return []
        if self.as_seq(a[0]) is not None:
            return self.as_seq(a[0])
        return self.iterate(a[0])

    def b_int(self, v=0, *base):
        if isinstance(v, (Sym, SArr)):
            t = nterm(v)
            if isint(t) or N.int_valued(t) or isinstance(v, Sym) and v.kind == 'int':
                return mk(t, 'int')
            return mk(ite(le(ZERO, t), floor(t), ceil(t)), 'int')
        return self.native(int, (v,) + base, {})

    def b_float(self, v=0.0):
        if isinstance(v, SArr) and v.dtype == OBJ:
            machine().events.append('exact number converted to floating point')
        if isinstance(v, (Sym, SArr)):
            if isinstance(v, SArr) and v.nan is not None:
                raise Unsupported('NaN')
            return mk(nterm(v), 'float') if not isinstance(v, SArr) or v.shape == () else self._float_arr(v)
        return self.native(float, (v,), {})

    def _float_arr(self, v):
        if all(vals.is_one(d) for d in v.shape):
            return mk(b2r(N.drop_axes(v, list(range(v.ndim))).at(())), 'float')
        raise PyExc(TypeError('only length-1 arrays can be converted to Python scalars'))

    def b_bool(self, v=False):
        if symbolic(v):
            return mk(self.cond(v), 'bool')
        return self.truth(v)

    def b_abs(self, v):
        if isinstance(v, Sym):
            return mk(absv(nterm(v)), v.kind if v.kind != 'bool' else 'int')
        if isinstance(v, SArr):
            return PRIMS['np.abs'](v)
        return self.native(abs, (v,), {})

    def extreme(self, args, kw, less):
        key = kw.get('key')
        if key is not None:
            raise Unsupported('key function')
        items = list(args) if len(args) > 1 else self.iterate(args[0])
        if not has_symbolic(items):
            return self.native(min if less else max, (items,), kw)
        r = items[0]
        for v in items[1:]:
            a, b = nterm(r), nterm(v)
            m = machine()
            c = m.norm(lt(b, a) if less else lt(a, b))
            if c is TRUE or c is not FALSE and m.valid(c):
                r = v
            elif c is FALSE or m.valid(bnot(c)):
                pass
            else:
                kind = 'float' if N.is_float(r) or N.is_float(v) or isinstance(r, SArr) and r.dtype.kind == 'f' else 'int'
                r = mk(ite(c, b, a), kind)
        return r

    def b_min(self, *a, **k):
        return self.extreme(a, k, True)

    def b_max(self, *a, **k):
        return self.extreme(a, k, False)

    def b_sum(self, v, start=0):
        s = self.as_seq(v)
        if s is not None:
            i = fresh('b')
            e = s.elem(i)
            if isinstance(e, SArr) and e.shape != ():
                raise Unsupported('sum of arrays')
            t = nterm(e)
            tot = add(nterm(start), summ(i, s.size, t))
            if isinstance(e, SArr):
                return scalar0(tot, e.dtype, e.lib, e.exact)
            return mk(tot, e.kind if isinstance(e, Sym) and e.kind != 'bool' else 'float' if N.is_float(e) else 'int')
        r = start
        for e in self.iterate(v):
            r = self.binop('+', r, e)
        return r

    def b_any(self, v):
        return self.anyall(v, True)

    def b_all(self, v):
        return self.anyall(v, False)

    def anyall(self, v, is_any):
        s = self.as_seq(v)
        if s is not None:
            i = fresh('b')
            c = self.cond(s.elem(i))
            if is_any:
                return mk(bnot(forall(((i, s.size),), bnot(c))), 'bool')
            return mk(forall(((i, s.size),), c), 'bool')
        for e in self.iterate(v):
            if self.truth(e) == is_any:
                return is_any
        return not is_any

    def b_map(self, f, *vs):
        if len(vs) == 1:
            s = self.as_seq(vs[0])
            if s is not None:
                return self.seq_map(s, lambda e: self.call(f, (e,)))
            return [self.call(f, (e,)) for e in self.iterate(vs[0])]
        z = self.b_zip(*vs)
        if isinstance(z, SymSeq):
            return self.seq_map(z, lambda e: self.call(f, e))
        return [self.call(f, e) for e in z]

    def b_filter(self, f, v):
        return [e for e in self.iterate(v) if self.truth(e if f is None else self.call(f, (e,)))]

    def b_reversed(self, v):
        s = self.as_seq(v)
        if s is not None:
            return SymSeq(s.size, lambda t: s.elem(sub(sub(s.size, ONE), t)))
        return self.iterate(v)[::-1]

    def b_sorted(self, v, **k):
        items = self.iterate(v)
        if has_symbolic(items):
            raise Unsupported('sorted')
        return self.native(sorted, (items,), k)

    def b_next(self, v, *d):
        raise Unsupported('next')

    def b_round(self, v, *a):
        if symbolic(v):
            raise Unsupported('round')
        return self.native(round, (v,) + a, {})

    def b_super(self, *a):
        raise Unsupported('super')

    def b_type(self, *a):
        if len(a) != 1:
            raise Unsupported('type')
        v = a[0]
        if isinstance(v, Sym):
            return dict(int=int, float=float, bool=bool)[v.kind]
        if isinstance(v, SArr):
            if v.lib is XP:
                raise Unsupported('type of an array')
            if v.scalar:
                from fractions import Fraction as Fr
                return Fr if v.dtype == OBJ else v.dtype.type
            return np.ndarray
        return type(v)

    def b_isinstance(self, v, cls):
        if isinstance(cls, types.UnionType):
            cls = cls.__args__
        if isinstance(cls, tuple):
            return any(self.b_isinstance(v, c) for c in cls)
        import numbers
        if isinstance(v, Sym):
            t = dict(int=int, float=float, bool=bool)[v.kind]
            return issubclass(t, cls)
        if isinstance(v, SArr):
            if v.lib is XP:
                if cls in (np.ndarray, np.generic, float, int, str, list, tuple, bool, dict) or isinstance(cls, type) and cls.__module__.startswith('dcor'):
                    return False
                raise Unsupported('isinstance of an array')
            if v.scalar:
                from fractions import Fraction as Fr
                t = Fr if v.dtype == OBJ else v.dtype.type
                return issubclass(t, cls)
            return issubclass(np.ndarray, cls)
        if isinstance(v, SRng):
            return cls in (np.random.RandomState,)
        if isinstance(v, (SymSeq,)):
            return cls in (list,)
        if isinstance(v, (Closure, PrimRef)):
            return cls in (types.FunctionType, types.LambdaType, object)
        try:
            return isinstance(v, cls)
        except TypeError as e:
            raise PyExc(e)

    def b_getattr(self, o, name, *default):
        try:
            return self.getattr(o, name)
        except PyExc as e:
            if default and isinstance(e.exc, AttributeError):
                return default[0]
            raise

    def b_hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyExc as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def b_setattr(self, o, name, v):
        self.setattr(o, name, v)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, types.ModuleType):
            pre = module_prefix(o)
            if pre is not None:
                if pre == 'np.' and not hasattr(o, name):
                    raise PyExc(AttributeError(f'module has no attribute {name!r}'))
                if pre + name in PRIMS and not isinstance(getattr(o, name, None), type):
                    return PrimRef(pre + name)
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyExc(e)
        if isinstance(o, XPNamespace):
            if name not in self.xp_names:
                raise PyExc(AttributeError(f'module has no attribute {name!r}'))
            if name == 'linalg':
                return XPLinalg()
            if name in ('bool', 'float64', 'float32', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64'):
                return np.dtype(name)
            if name in ('inf', 'nan', 'pi', 'e', 'newaxis'):
                return getattr(np, name)
            if 'np.' + name in PRIMS:
                return PrimRef('np.' + name, XP)
            raise Unsupported(f'array API function {name}')
        if isinstance(o, XPLinalg):
            if 'linalg.' + name in PRIMS:
                return PrimRef('linalg.' + name, XP)
            raise Unsupported(f'linalg.{name}')
        if isinstance(o, PrimRef):
            if o.name + '.' + name in PRIMS:
                return PrimRef(o.name + '.' + name)
            if name in ('__name__', '__doc__'):
                return o.name
            raise Unsupported(f'attribute {name} of {o.name}')
        if isinstance(o, SArr):
            if o.dtype == OBJ and o.scalar:
                if name in ('numerator', 'denominator'):
                    raise Unsupported(name)
                from fractions import Fraction as Fr
                if not hasattr(Fr, name):
                    raise PyExc(AttributeError(f"'Fraction' object has no attribute '{name}'"))
            return N.arr_attr(o, name)
        if isinstance(o, Masked):
            return N.arr_attr(o, name)
        if isinstance(o, Sym):
            if name == 'real':
                return o
            if machine().compiled and name == 'item':
                return lambda: o
            if not hasattr(dict(int=int, float=float, bool=bool)[o.kind], name):
                raise PyExc(AttributeError(f'{o.kind!r} object has no attribute {name!r}'))
            raise Unsupported(f'attribute {name} of a number')
        if isinstance(o, SRng):
            if name in ('permutation', 'shuffle', 'choice', 'randint', 'random', 'permuted', 'random_sample'):
                return RngMethod(self, o, name)
            raise Unsupported(f'random generator attribute {name}')
        if isinstance(o, Closure):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__module__'):
                return getattr(o, name)
            raise PyExc(AttributeError(name))
        if isinstance(o, (SymSeq, SymRange)):
            raise Unsupported(f'attribute {name} of a symbolic sequence')
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, UserFn):
            raise PyExc(AttributeError(name))
        sm = self.special_methods.get(id(o))
        if sm is not None and name in sm:
            return sm[name]
        if isinstance(o, np.ufunc) and name == 'at':
            return getattr(o, name)
        # properties defined by dcor classes
        cls = type(o)
        d = inspect.getattr_static(cls, name, None) if not isinstance(o, type) else None
        if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and self.ours(d.fget):
            return self.call_function(d.fget, (o,), {})
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise PyExc(e)

    def setattr(self, o, name, v):
        if isinstance(o, Closure):
            o.attrs[name] = v
            return
        if isinstance(o, SArr):
            raise Unsupported('attribute of an array')
        mod = type(o).__module__ or ''
        if isinstance(o, types.ModuleType) or isinstance(o, types.FunctionType):
            raise Unsupported('global state')
        if not mod.startswith('dcor'):
            raise Unsupported('attribute of a library object')
        if machine().merge:
            raise Unsupported('change of an object inside of a symbolic loop')
        try:
            setattr(o, name, v)
        except Exception as e:  # noqa: BLE001
            raise PyExc(e)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('value of an unknown variable')
        if isinstance(a, (SArr, Masked)) or isinstance(b, (SArr, Masked)):
            for v in (a, b):
                if v is None or isinstance(v, (str, Closure, dict)) or v is NotImplemented:
                    if op in ('==',):
                        return False
                    if op == '!=':
                        return True
                    raise PyExc(TypeError(f'unsupported operand type(s) for {op}'))
                if isinstance(v, (SymSeq, SymRange)):
                    raise Unsupported('operator on a symbolic sequence')
            la = [v.lib for v in (a, b) if isinstance(v, (SArr, Masked))]
            if len(set(la)) > 1:
                raise PyExc(TypeError('operands of different libraries'))
            if XP in la:
                for v in (a, b):
                    if isinstance(v, (list, tuple, np.ndarray)):
                        raise PyExc(TypeError('operand is not an array'))
                    if isinstance(v, Fraction):
                        raise PyExc(TypeError('operand is not an array'))
                dts = {v.dtype for v in (a, b) if isinstance(v, (SArr, Masked))}
                if any(d.kind in 'iu' for d in dts) and (len(dts) > 1 or op == '/' or any(N.is_float(v) for v in (a, b))):
                    raise PyExc(TypeError('array API: mixed kinds'))
            return ARR_OPS[op](a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            for v in (a, b):
                if v is None or isinstance(v, (str,)):
                    if op == '==':
                        return False
                    if op == '!=':
                        return True
                    raise PyExc(TypeError(f'unsupported operand type(s) for {op}'))
                if isinstance(v, (list, tuple)):
                    if op in ('==', '!='):
                        return op == '!='
                    raise Unsupported('repetition of a list')
                if isinstance(v, float) and v in (math.inf, -math.inf):
                    return self.inf_cmp(op, a, b)
            return N.sym_binop(op, a, b)
        if isinstance(a, (SymSeq, SymRange)) or isinstance(b, (SymSeq, SymRange)):
            raise Unsupported('operator on a symbolic sequence')
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ('==', '!=') and (has_symbolic(a) or has_symbolic(b)):
            r = self.seq_equal(a, b)
            return r if op == '==' else self.unot(r)
        if isinstance(a, (Closure, PrimRef)) or isinstance(b, (Closure, PrimRef)):
            if op in ('==', '!='):
                return (a == b) == (op == '==')
        return self.native(NATIVE[op], (a, b), {})

    def inf_cmp(self, op, a, b):
        if op in ('<', '<='):
            return b == math.inf if not isinstance(b, Sym) else a == -math.inf
        if op in ('>', '>='):
            return a == math.inf if not isinstance(a, Sym) else b == -math.inf
        if op in ('==', '!='):
            return op == '!='
        raise Unsupported('infinite value')

    def unot(self, r):
        if isinstance(r, Sym):
            return mk(bnot(self.cond(r)), 'bool')
        return not r

    def seq_equal(self, a, b):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        c = TRUE
        for p, q in zip(a, b):
            r = self.seq_equal(p, q) if isinstance(p, (list, tuple)) and isinstance(q, (list, tuple)) else self.binop('==', p, q)
            c = band(c, self.cond(r))
        return mk(c, 'bool')

    def contains(self, c, v):
        if isinstance(c, (SArr, Masked, SymSeq)):
            raise Unsupported('membership in a symbolic sequence')
        if isinstance(c, (SymRange, range)) and isinstance(v, Sym):
            raise Unsupported('membership in a range')
        if has_symbolic(v) or has_symbolic(c):
            if isinstance(v, Sym) or has_symbolic(c):
                r = FALSE
                for e in self.iterate(c):
                    if e is v:
                        return True
                    r = bor(r, self.cond(self.binop('==', e, v)))
                return mk(r, 'bool')
        return self.native(operator.contains, (c, v), {})


CREATES = {'np.zeros', 'np.ones', 'np.empty', 'np.arange', 'np.eye', 'np.full', 'np.asarray', 'np.array', 'np.zeros_like', 'np.ones_like',
           'np.ascontiguousarray', 'np.stack', 'np.concat', 'np.concatenate'}


class ErrState:
    pass


class NullCtx:
    pass


class ParallelMark:
    pass


class DelayedMark:
    def __init__(self, fn):
        self.fn = fn


class XPLinalg:
    pass


class RngMethod:
    def __init__(self, itp, rng, name):
        self.itp, self.rng, self.name = itp, rng, name
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.itp.rng_draw(self.rng, self.name, a)


def wrap_facts(m, start, binders):
    """Facts learned for a generic index hold for every index."""
    new_facts = m.facts[start:]
    del m.facts[start:]
    bs = {b for b, _ in binders}
    for f in new_facts:
        if not (free(f) & bs):
            m.facts.append(f)


def inspect_bind(p, args, kwargs):
    if isinstance(p, types.FunctionType):
        inspect.signature(p).bind(*args, **kwargs)


def is_generator(node):
    """Does the function itself yield (not a nested one)?"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Frame:
    """Execution of one function body."""

    def __init__(self, itp, scope, glob, name):
        self.I, self.scope, self.glob, self.name = itp, scope, glob, name
        self.yields = None

    # ------------------------------------------------------------ names
    def lookup(self, name):
        s = self.scope
        if name in s.globals_:
            s = None
        while s is not None:
            if name in s.vars:
                v = s.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            s = s.parent
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(UnboundLocalError(f"local variable '{name}' referenced before assignment"))

    def store(self, name, v):
        if name in self.scope.globals_:
            raise Unsupported('assignment to a global variable')
        if name in self.scope.nonlocals:
            s = self.scope.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
            raise Unsupported('nonlocal variable')
        self.scope.vars[name] = v

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for k, st in enumerate(stmts):
            if isinstance(st, ast.If) and machine().merge:
                s, consumed = self.merge_if(st, stmts[k + 1:])
                if consumed:
                    return s
                if s is not None:
                    return s
                continue
            s = self.stmt(st)
            if s is not None:
                return s
        return None

    def stmt(self, st):
        f = getattr(self, 's_' + type(st).__name__, None)
        if f is None:
            raise Unsupported(f'statement {type(st).__name__}')
        return f(st)

    def s_Expr(self, st):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.eval(st.value)
            return None
        self.eval(st.value)

    def s_Pass(self, st):
        return None

    def s_Return(self, st):
        return Sig('return', self.eval(st.value) if st.value is not None else None)

    def s_Break(self, st):
        return Sig('break')

    def s_Continue(self, st):
        return Sig('continue')

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def assign(self, t, v):
        I = self.I
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = I.iterate(v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise PyExc(ValueError('not enough values to unpack'))
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, items[k:len(items) - after])
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                raise PyExc(ValueError('wrong number of values to unpack'))
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            I.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, k, v):
        if isinstance(o, SArr):
            if isinstance(v, (list, tuple)):
                v = N.as_arr(v, o.lib)
            N.setitem(o, k, v)
            return
        if isinstance(o, (list, dict)):
            if machine().merge:
                raise Unsupported('change of a container inside of a symbolic loop')
            if has_symbolic(k):
                raise Unsupported('symbolic position in a list')
            try:
                o[k] = v
            except Exception as e:  # noqa: BLE001
                raise PyExc(e)
            return
        if isinstance(o, np.ndarray):
            if has_symbolic(k) or has_symbolic(v):
                raise Unsupported('symbolic value in a concrete array')
            self.I.native(operator.setitem, (o, k, v), {})
            return
        raise Unsupported(f'item assignment to {type(o).__name__}')

    def s_AugAssign(self, st):
        op = BINOPS[type(st.op)]
        t = st.target
        I = self.I
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(st.value)
            if isinstance(cur, SArr) and not cur.scalar and not (cur.lib is XP and cur.shape == () and False):
                self.check_inplace(cur, v)
                self.store(t.id, N.inplace(cur, op, v))
            elif isinstance(cur, list) and op == '+':
                if machine().merge:
                    raise Unsupported('change of a container inside of a symbolic loop')
                cur.extend(I.iterate(v))
            else:
                self.store(t.id, I.binop(op, cur, v))
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            v = self.eval(st.value)
            if isinstance(o, SArr):
                self.aug_item(o, k, op, v)
            else:
                cur = self.getitem(o, k)
                if isinstance(cur, SArr) and not cur.scalar:
                    N.inplace(cur, op, v)
                else:
                    self.setitem(o, k, I.binop(op, cur, v))
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = I.getattr(o, t.attr)
            v = self.eval(st.value)
            if isinstance(cur, SArr) and not cur.scalar:
                N.inplace(cur, op, v)
            else:
                I.setattr(o, t.attr, I.binop(op, cur, v))
            return
        raise Unsupported('augmented assignment')

    def check_inplace(self, cur, v):
        if cur.lib is XP and isinstance(v, (SArr, Masked)) and v.lib is not XP:
            raise PyExc(TypeError('operands of different libraries'))

    def aug_item(self, o, k, op, v):
        key = k if isinstance(k, tuple) else (k,)
        kinds = [N.index_kind(q) for q in key]
        if 'mask' in kinds or 'masked' in kinds:
            if len(key) == 1 and isinstance(key[0], SArr) and is_number(v):
                N.aug_masked(o, key[0], op, v)
                return
            raise Unsupported('update of a selection')
        if 'fancy' in kinds:
            if len(key) == 1:
                N.aug_scatter(o, N.as_arr(key[0]), op, v)
                return
            raise Unsupported('update with index arrays')
        view = N.basic_view(o, key)
        cur = view
        if isinstance(v, (list, tuple)):
            v = N.as_arr(v, o.lib)
        r = self.I.binop(op, cur, v)
        N.setitem(o, k, r)

    def s_If(self, st):
        if self.I.truth(self.eval(st.test)):
            return self.block(st.body)
        return self.block(st.orelse)

    def merge_if(self, st, rest):
        """If inside of a generic iteration: (signal, were the remaining statements executed?)."""
        m = machine()
        I = self.I
        c = m.norm(I.cond(self.eval(st.test)))
        d = I.decide(c)
        if d is not None:
            return self.block(st.body if d else st.orelse), False
        fork = Fork(self, c)
        sa = fork.run(c, lambda: self.block(st.body))
        sb = fork.run(bnot(c), lambda: self.block(st.orelse))
        if sa is None and sb is None:
            fork.join()
            return None, False
        # one side ends the iteration or the function: the rest belongs to the other
        if sa is None:
            sa = fork.resume(0, c, lambda: self.block(rest))
        if sb is None:
            sb = fork.resume(1, bnot(c), lambda: self.block(rest))
        ka, kb = (sa.kind if sa else None), (sb.kind if sb else None)
        if ka == kb == 'return':
            fork.join()
            return Sig('return', merge_value(c, sa.value, sb.value)), True
        if {ka, kb} <= {None, 'continue'}:
            fork.join()
            return Sig('continue') if ka == kb else Sig('maybe-continue'), True
        raise Unsupported('control flow inside of a symbolic loop')

    def s_For(self, st):
        I = self.I
        it = self.eval(st.iter)
        h = getattr(machine(), 'for_handler', None)
        if h is not None and isinstance(it, SymRange):
            r = h(self, st, it)
            if r is not NotImplemented:
                return r
        seq = I.as_seq(it)
        if seq is None:
            for e in I.iterate(it):
                self.assign(st.target, e)
                s = self.block(st.body)
                if s is not None:
                    if s.kind == 'break':
                        return None
                    if s.kind in ('continue', 'maybe-continue'):
                        continue
                    return s
            return self.block(st.orelse)
        import loops
        loops.summarise(self, st, seq)
        return self.block(st.orelse)

    def s_While(self, st):
        n = 0
        while True:
            v = self.eval(st.test)
            if symbolic(v):
                import loops
                return loops.while_loop(self, st)
            if not self.I.truth(v):
                return self.block(st.orelse)
            s = self.block(st.body)
            if s is not None:
                if s.kind == 'break':
                    return None
                if s.kind != 'continue':
                    return s
            n += 1
            if n > 1000:
                raise Unsupported('long loop')

    def s_Raise(self, st):
        if st.exc is None:
            raise PyExc(getattr(self, 'current_exc', RuntimeError('no active exception')))
        e = self.eval(st.exc)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise Unsupported('raise')
        if machine().merge and getattr(machine(), 'branch', 0):
            raise Unsupported('exception in a branch of a symbolic loop')
        raise PyExc(e)

    def s_Try(self, st):
        try:
            try:
                s = self.block(st.body)
            except PyExc as e:
                for h in st.handlers:
                    ok = True
                    if h.type is not None:
                        cls = self.eval(h.type)
                        try:
                            ok = isinstance(e.exc, cls)
                        except TypeError as e2:
                            raise PyExc(e2)
                    if ok:
                        if h.name:
                            self.store(h.name, e.exc)
                        old = getattr(self, 'current_exc', None)
                        self.current_exc = e.exc
                        try:
                            return self.block(h.body)
                        finally:
                            self.current_exc = old
                raise
            if s is None:
                s = self.block(st.orelse)
            return s
        finally:
            if st.finalbody:
                s2 = self.block(st.finalbody)
                if s2 is not None:
                    raise Unsupported('control flow in finally')

    def s_With(self, st):
        m = machine()
        n = 0
        for it in st.items:
            c = self.eval(it.context_expr)
            if isinstance(c, ErrState):
                n += 1
            elif isinstance(c, NullCtx):
                pass
            elif isinstance(c, ParallelMark):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, c)
            else:
                raise Unsupported('context manager')
        m.errstate += n
        try:
            return self.block(st.body)
        finally:
            m.errstate -= n

    def s_Assert(self, st):
        v = self.eval(st.test)
        if not self.I.truth(v):
            raise PyExc(AssertionError())

    def s_FunctionDef(self, st):
        if any(not (isinstance(d, ast.Name) and d.id == 'overload') for d in st.decorator_list):
            decs = [self.eval(d) for d in st.decorator_list]
        else:
            decs = []
        a = st.args
        defaults = tuple(self.eval(d) for d in a.defaults)
        kwd = {p.arg: self.eval(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = Closure(st, self.scope, self.glob, defaults, kwd, st.name, self.glob.get('__name__'))
        for d in reversed(decs):
            f = self.I.call(d, (f,))
        self.store(st.name, f)

    def s_Import(self, st):
        for a in st.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                self.store(a.asname, mod)
            else:
                self.store(a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, st):
        pkg = self.glob.get('__package__') or self.glob.get('__name__', '').rpartition('.')[0]
        name = '.' * st.level + (st.module or '')
        mod = importlib.import_module(name, pkg) if st.level else importlib.import_module(st.module)
        for a in st.names:
            try:
                v = getattr(mod, a.name)
            except AttributeError:
                v = importlib.import_module(mod.__name__ + '.' + a.name)
            self.store(a.asname or a.name, v)

    def s_Nonlocal(self, st):
        self.scope.nonlocals |= set(st.names)

    def s_Global(self, st):
        self.scope.globals_ |= set(st.names)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.scope.vars.pop(t.id, None)
            else:
                raise Unsupported('delete')

    def s_Match(self, st):
        raise Unsupported('match')

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return f(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.I.getattr(self.eval(e.value), e.attr)

    def e_BinOp(self, e):
        return self.I.binop(BINOPS[type(e.op)], self.eval(e.left), self.eval(e.right))

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        I = self.I
        if isinstance(e.op, ast.Not):
            if symbolic(v):
                return mk(bnot(I.cond(v)), 'bool')
            return not I.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (SArr, Masked)):
                return N.elementwise(lambda t: neg(b2r(t)), (v,), what='negation')
            if isinstance(v, Sym):
                return mk(neg(nterm(v)), v.kind if v.kind != 'bool' else 'int')
            return I.native(operator.neg, (v,), {})
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, SArr) and v.dtype == B1:
            return PRIMS['np.logical_not'](v)
        if symbolic(v):
            raise Unsupported('bitwise complement')
        return I.native(operator.invert, (v,), {})

    def e_BoolOp(self, e):
        I = self.I
        m = machine()
        is_and = isinstance(e.op, ast.And)
        acc = []
        v = None
        for k, x in enumerate(e.values):
            if acc:
                # evaluated under the assumption that the previous ones did not decide
                v = self.eval(x)
            else:
                v = self.eval(x)
            last = k == len(e.values) - 1
            if not symbolic(v) and not isinstance(v, (SymSeq, SymRange)):
                t = bool(v) if not isinstance(v, (Closure,)) else True
                if acc:
                    if t != is_and:
                        return mk(FALSE, 'bool') if is_and else mk(TRUE, 'bool')
                    continue
                if t != is_and:
                    return v
                continue
            c = m.norm(I.cond(v))
            if c is TRUE or c is FALSE:
                if (c is TRUE) != is_and:
                    return v if not acc else (c is TRUE)
                continue
            if m.merge:
                d = I.decide(c)
                if d is None:
                    acc.append(c)
                    continue
                if d != is_and:
                    return d
                continue
            if last and not acc:
                return v
            d = m.truth(c)
            if d != is_and:
                return v
        if acc:
            return mk(band(*acc) if is_and else bor(*acc), 'bool')
        return v

    def e_Compare(self, e):
        I = self.I
        left = self.eval(e.left)
        res = None
        for op, right in zip(e.ops, e.comparators):
            r = self.eval(right)
            v = self.compare(op, left, r)
            if res is None:
                res = v
            else:
                if isinstance(res, SArr) and res.shape != () or isinstance(v, SArr) and v.shape != ():
                    raise Unsupported('chained comparison of arrays')
                res = mk(band(I.cond(res), I.cond(v)), 'bool')
            if len(e.ops) > 1 and not symbolic(res) and not I.truth(res):
                return res
            left = r
        return res

    def compare(self, op, a, b):
        I = self.I
        if isinstance(op, ast.Is):
            return a is b or isinstance(a, PrimRef) and a == b
        if isinstance(op, ast.IsNot):
            return not (a is b or isinstance(a, PrimRef) and a == b)
        if isinstance(op, ast.In):
            return I.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = I.contains(b, a)
            return I.unot(r)
        return I.binop(CMPOPS[type(op)], a, b)

    def e_IfExp(self, e):
        m = machine()
        I = self.I
        v = self.eval(e.test)
        if m.merge and symbolic(v):
            c = m.norm(I.cond(v))
            d = I.decide(c)
            if d is None:
                fork = Fork(self, c)
                out = []
                fork.run(c, lambda: out.append(self.eval(e.body)))
                fork.run(bnot(c), lambda: out.append(self.eval(e.orelse)))
                fork.join()
                return merge_value(c, out[0], out[1])
            return self.eval(e.body if d else e.orelse)
        return self.eval(e.body if I.truth(v) else e.orelse)

    def e_Call(self, e):
        I = self.I
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += I.iterate(self.eval(a.value))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                kw.update(v)
            else:
                if k.arg in kw:
                    raise PyExc(TypeError('got multiple values for keyword argument'))
                kw[k.arg] = v
        if f is locals_marker:
            raise Unsupported('locals')
        if isinstance(f, RngMethod):
            return f(*args, **kw)
        if isinstance(f, types.FunctionType) and f.__module__ in ('npmodel', 'interp'):
            return f(*args, **kw)
        return I.call(f, args, kw)

    def e_Tuple(self, e):
        return tuple(self.elements(e.elts))

    def e_List(self, e):
        return list(self.elements(e.elts))

    def e_Set(self, e):
        els = self.elements(e.elts)
        if has_symbolic(els):
            raise Unsupported('set of symbolic values')
        return set(els)

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.I.iterate(self.eval(x.value))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v))
            else:
                kk = self.eval(k)
                if has_symbolic(kk):
                    raise Unsupported('symbolic key')
                d[kk] = self.eval(v)
        return d

    def e_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.eval(e.slice))

    def getitem(self, o, k):
        I = self.I
        if isinstance(o, (SArr, Masked)):
            return N.getitem(o, k)
        if isinstance(o, SymSeq):
            if isinstance(k, slice):
                raise Unsupported('slice of a symbolic sequence')
            t = nterm(k)
            if t.op == 'num' and t.args[0] < 0:
                t = add(o.size, t)
            machine().obligation('bounds', 'index', band(le(ZERO, t), lt(t, o.size)))
            return o.elem(t)
        if isinstance(o, np.ndarray) and has_symbolic(k):
            return N.getitem(N.from_concrete(o), k)
        if isinstance(k, Sym) and isinstance(o, (list, tuple)):
            t = machine().norm(k.t)
            if t.op == 'num':
                k = int(t.args[0])
            else:
                raise Unsupported('symbolic position in a list')
        if isinstance(k, SArr) and isinstance(o, (list, tuple)):
            t = machine().norm(nterm(k))
            if t.op != 'num':
                raise Unsupported('symbolic position in a list')
            k = int(t.args[0])
        if isinstance(k, slice) and has_symbolic((k.start, k.stop, k.step)):
            raise Unsupported('symbolic slice of a list')
        if has_symbolic(k) and not isinstance(k, slice):
            raise Unsupported('symbolic key')
        return I.native(operator.getitem, (o, k), {})

    def e_Slice(self, e):
        return slice(*[self.eval(x) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Lambda(self, e):
        a = e.args
        defaults = tuple(self.eval(d) for d in a.defaults)
        kwd = {p.arg: self.eval(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(e, self.scope, self.glob, defaults, kwd, '<lambda>', self.glob.get('__name__'))

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value)
        return '<str>'

    def e_FormattedValue(self, e):
        self.eval(e.value)
        return '<str>'

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Unsupported('starred expression')

    def e_Yield(self, e):
        if self.yields is None:
            raise Unsupported('yield')
        if machine().merge and getattr(machine(), 'branch', 0):
            raise Unsupported('yield in a branch')
        self.yields.append(self.eval(e.value) if e.value is not None else None)

    def e_YieldFrom(self, e):
        self.yields.extend(self.I.iterate(self.eval(e.value)))

    def e_Await(self, e):
        raise Unsupported('await')

    # comprehensions
    def comp(self, gens, emit, inner):
        """Run the generators from the first one; returns a list or a SymSeq."""
        g = gens[0]
        I = self.I
        it = inner.eval(g.iter) if len(gens) < inner.ngens else self.eval(g.iter)
        seq = I.as_seq(it)
        if seq is None:
            out = []
            for e in I.iterate(it):
                inner.assign(g.target, e)
                if all(I.truth(inner.eval(c)) for c in g.ifs):
                    if len(gens) == 1:
                        out.append(emit(inner))
                    else:
                        out += self.comp(gens[1:], emit, inner)
            return out
        if len(gens) > 1:
            raise Unsupported('nested symbolic comprehension')
        if g.ifs:
            raise Unsupported('condition in a symbolic comprehension')

        def f(e):
            inner.assign(g.target, e)
            return emit(inner)
        return I.seq_map(seq, f)

    def comprehension(self, e, emit):
        inner = Frame(self.I, Scope(self.scope), self.glob, self.name)
        inner.ngens = len(e.generators)
        return self.comp(e.generators, emit, inner)

    def e_ListComp(self, e):
        return self.comprehension(e, lambda fr: fr.eval(e.elt))

    def e_GeneratorExp(self, e):
        return self.comprehension(e, lambda fr: fr.eval(e.elt))

    def e_SetComp(self, e):
        r = self.comprehension(e, lambda fr: fr.eval(e.elt))
        if isinstance(r, SymSeq) or has_symbolic(r):
            raise Unsupported('set comprehension')
        return set(r)

    def e_DictComp(self, e):
        r = self.comprehension(e, lambda fr: (fr.eval(e.key), fr.eval(e.value)))
        if isinstance(r, SymSeq):
            raise Unsupported('dict comprehension')
        return dict(r)


locals_marker = locals


# ---------------------------------------------------------------- merging
class Fork:
    """Run two alternatives from the same state and merge the results."""

    def __init__(self, frame, c):
        self.frame, self.c = frame, c
        self.scopes = []
        s = frame.scope
        while s is not None:
            self.scopes.append((s, dict(s.vars)))
            s = s.parent
        self.sides = []
        self.before = {}

    def run(self, cond, f):
        m = machine()
        log = {}
        m.writes.append(log)
        facts = len(m.facts)
        m.facts.append(cond)
        m.branch = getattr(m, 'branch', 0) + 1
        try:
            s = f()
        finally:
            m.branch -= 1
            del m.writes[next(q for q in range(len(m.writes)) if m.writes[q] is log):]
            learned = m.facts[facts:]
            del m.facts[facts:]
        self.before.update({c: o for c, o in log.items() if c not in self.before})
        self.sides.append([[(sc, dict(sc.vars)) for sc, _ in self.scopes], {c: c.content for c in log}])
        for c, o in log.items():
            c.content = o
        for sc, v in self.scopes:
            sc.vars.clear()
            sc.vars.update(v)
        return s

    def resume(self, k, cond, f):
        vars_, cells = self.sides[k]
        for sc, v in vars_:
            sc.vars.clear()
            sc.vars.update(v)
        for c, v in cells.items():
            c.content = v
        m = machine()
        log = {}
        m.writes.append(log)
        facts = len(m.facts)
        m.facts.append(cond)
        m.branch = getattr(m, 'branch', 0) + 1
        try:
            s = f()
        finally:
            m.branch -= 1
            del m.writes[next(q for q in range(len(m.writes)) if m.writes[q] is log):]
            del m.facts[facts:]
        for c, o in log.items():
            if c not in cells:
                self.before.setdefault(c, o)
            cells[c] = c.content
        self.sides[k][0] = [(sc, dict(sc.vars)) for sc, _ in self.scopes]
        for c in cells:
            c.content = self.before[c]
        for sc, v in self.scopes:
            sc.vars.clear()
            sc.vars.update(v)
        return s

    def join(self):
        m = machine()
        (va, ca), (vb, cb) = self.sides
        c = self.c
        for cell in set(ca) | set(cb):
            fa = ca.get(cell, self.before[cell])
            fb = cb.get(cell, self.before[cell])
            for log in m.writes:
                log.setdefault(cell, cell.content)
            cell.content = vals.memo(lambda idx, fa=fa, fb=fb: ite(c, fa(idx), fb(idx)))
        for (sc, x), (_, y) in zip(va, vb):
            sc.vars.clear()
            for k in set(x) | set(y):
                if k in x and k in y:
                    sc.vars[k] = x[k] if x[k] is y[k] else merge_value(c, x[k], y[k], soft=True)
                else:
                    sc.vars[k] = Poison(f'variable {k} is only assigned in one branch')


def merge_value(c, a, b, soft=False):
    if a is b:
        return a
    try:
        return _merge_value(c, a, b)
    except Unsupported as e:
        if soft:
            return Poison(str(e))
        raise


def _merge_value(c, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('variable of unknown value')
    if type(a) in (int, float, bool, str, type(None)) and type(a) is type(b) and a == b:
        return a
    num_ = (Sym, int, float, bool, np.integer, np.floating)
    if isinstance(a, num_) and isinstance(b, num_):
        ka, kb = kind_of(a), kind_of(b)
        if ka == kb == 'bool':
            return mk(ite(c, term(a), term(b)), 'bool')
        return mk(ite(c, nterm(a), nterm(b)), 'float' if 'float' in (ka, kb) else 'int')
    if is_number(a) and is_number(b):
        x, y = N.as_arr(a), N.as_arr(b)
        dt = N.result_dtype((a, b))
        if dt == B1:
            return scalar0(ite(c, x.at(()), y.at(())), dt, x.lib)
        return scalar0(ite(c, b2r(x.at(())), b2r(y.at(()))), dt, x.lib, x.exact and y.exact)
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and a.dtype == b.dtype and all(same_dim(p, q) for p, q in zip(a.shape, b.shape)):
        f, g = a.snap(), b.snap()
        r = new(a.shape, lambda idx: ite(c, f(idx), g(idx)), a.dtype, a.lib, exact=a.exact and b.exact, data=a.data or b.data)
        r.cell.opaque = True
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_value(c, p, q) for p, q in zip(a, b))
    raise Unsupported('values of different kinds on the two sides of a branch')


def kind_of(v):
    if isinstance(v, Sym):
        return v.kind
    if isinstance(v, (bool, np.bool_)):
        return 'bool'
    if isinstance(v, (int, np.integer)):
        return 'int'
    return 'float'


# ---------------------------------------------------------------- paths
class Path:
    def __init__(self, m, result, exc):
        self.m, self.result, self.exc = m, result, exc


def explore(setup, max_paths=64):
    """All the paths of setup(machine) -> result."""
    todo = [[]]
    paths = []
    while todo:
        d = todo.pop()
        m = Machine(d)
        set_machine(m)
        m.branch = 0
        try:
            r = setup(m)
            paths.append(Path(m, r, None))
        except PyExc as e:
            paths.append(Path(m, None, e.exc))
        except Infeasible:
            pass
        todo.extend(m.forks)
        if len(paths) + len(todo) > max_paths:
            raise Unsupported('too many paths')
    return paths
