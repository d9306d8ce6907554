"""Closed forms of loops with a symbolic number of iterations.

The body is executed once for a generic iteration i, with every array element
and number that it changes replaced by an unknown value st(i, index).  The
change made by the iteration gives the value after i iterations by induction:
   new - old = D(i, index) without unknowns   ->  init + sum_{j<i} D(j, index)
   new[t(i)] = V(i) without unknowns, t injective  ->  V(t^-1(k)) if written before
(Lean: Rules.lean, accumulate and overwrite).  Other loops are not supported."""
from __future__ import annotations

import ast
import itertools

from terms import *  # noqa: F403
from terms import T
from nf import nf, to_term, solve_for
import vals
from vals import Sym, SArr, Prod, Unsupported, PyExc, machine, mk, term, nterm, new, scalar0, is_number
import npmodel as N

_ids = itertools.count()


def assigned_names(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            # their targets are local to them
            for sub_ in ast.walk(n):
                if isinstance(sub_, ast.NamedExpr):
                    out.add(sub_.target.id)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


class State:
    """Something the loop changes: a variable or the contents of an array."""

    def __init__(self, key, kind):
        self.key, self.kind = key, kind
        self.name = f'st!{next(_ids)}'
        self.closed = None


def flat(idx):
    return N.flat_idx(idx)


def replace_states(t, solved):
    if not solved:
        return t

    def f(s):
        if s.op == 'app' and s.args[0] in solved:
            st = solved[s.args[0]]
            return st.closed(s.args[1], s.args[2:])
        return s
    return map_terms(t, f)


def states_in(t, names):
    return {s.args[0] for s in subterms(t) if s.op == 'app' and s.args[0] in names}


def summarise(fr, st, seq):
    m = machine()
    I = fr.I
    count = m.norm(seq.size)
    names = assigned_names(st.body) | assigned_names([st.target])
    scope = fr.scope
    if scope.nonlocals & names:
        raise Unsupported('nonlocal variable changed in a symbolic loop')
    pre = {k: v for k, v in scope.vars.items() if k in names}
    var_states = {}          # name -> State
    cell_states = {}         # cell -> State
    base_vars = dict(scope.vars)
    mark = vals.cell_mark()
    for _ in range(12):
        i = fresh('q')
        n_obl, n_facts, n_perm = len(m.obls), len(m.facts), len(m.perms.info)
        scope.vars.clear()
        scope.vars.update(base_vars)
        for k in pre:
            s = var_states.get(k)
            if s is None:
                del scope.vars[k]
            else:
                scope.vars[k] = s.make(i)
        saved = {c: c.content for c in cell_states}
        for c, s in cell_states.items():
            c.content = vals.memo(lambda idx, s=s: app(s.name, (i,) + flat(idx), s.kind))
        log = {}
        m.writes.append(log)
        m.loop_params.append(i)
        m.merge += 1
        m.facts += [le(ZERO, i), lt(i, count)]
        retry = False
        sig = None
        try:
            try:
                fr.assign(st.target, seq.elem(i))
                sig = fr.block(st.body)
            except PyExc as e:
                nm = getattr(e.exc, 'name', None) or unbound_name(e.exc)
                if nm in pre and nm not in var_states:
                    var_states[nm] = var_state(nm, pre[nm])
                    retry = True
                else:
                    raise Unsupported(f'exception in a symbolic loop: {e.exc!r}')
        finally:
            m.merge -= 1
            m.loop_params.pop()
            del m.writes[next(q for q in range(len(m.writes)) if m.writes[q] is log):]
            loop_facts = m.facts[n_facts:]
            del m.facts[n_facts:]
        new_vars = dict(scope.vars)
        new_cells = {c: c.content for c in log}
        # restore
        for c, o in log.items():
            c.content = o
        for c, o in saved.items():
            c.content = o
        if sig is not None and sig.kind not in ('continue', 'maybe-continue'):
            raise Unsupported('a symbolic loop that ends early')
        for c in log:
            if c.birth < mark and c not in cell_states:
                cell_states[c] = State(c, sort_of(c))
                retry = True
        for k in pre:
            v = new_vars.get(k)
            if k not in var_states and isinstance(v, vals_poison()):
                var_states[k] = var_state(k, pre[k])
                retry = True
            elif k in var_states and is_number(v) and var_states[k].widen(v):
                retry = True
        if retry:
            del m.obls[n_obl:]
            for p in list(m.perms.info)[n_perm:]:
                del m.perms.info[p]
            continue
        break
    else:
        raise Unsupported('loop state not found')
    scope.vars.clear()
    scope.vars.update(base_vars)
    solve(m, i, count, var_states, cell_states, new_vars, new_cells, loop_facts, pre)
    solved = {s.name: s for s in list(var_states.values()) + list(cell_states.values())}
    for o in m.obls[n_obl:]:
        o.goal = replace_states(o.goal, solved)
        o.facts = [replace_states(f, solved) for f in o.facts]
    for f in loop_facts[2:]:
        if i not in free(f) and not states_in(f, solved):
            m.facts.append(f)
    for c, s in cell_states.items():
        for lg in m.writes:
            lg.setdefault(c, c.content)
        if c.frozen and m.frame:
            raise vals.FrameViolation(c.name)
        c.content = vals.memo(lambda idx, s=s: s.closed(count, flat(idx)))
    for k in names:
        if k in var_states:
            scope.vars[k] = var_states[k].wrap(var_states[k].closed(count, ()))
        else:
            from interp import Poison
            scope.vars[k] = Poison(f'{k} after the loop')


def vals_poison():
    from interp import Poison
    return Poison


def unbound_name(e):
    if isinstance(e, UnboundLocalError):
        return str(e).split("'")[1]
    return None


def sort_of(cell):
    k = cell.dtype.kind if cell.dtype is not None else 'f'
    return 'B' if k == 'b' else 'I' if k in 'iu' else 'R'


def var_state(name, v):
    s = State(name, None)
    if isinstance(v, SArr) and v.shape == ():
        if v.scalar or True:
            s.kind = 'I' if v.dtype.kind in 'iu' else 'R'
            dt, lib = v.dtype, v.lib
            s.dt = dt
            s.make = lambda i: scalar0(app(s.name, (i,), s.kind), s.dt, lib)
            s.wrap = lambda t: scalar0(t, s.dt, lib)

            def widen(n):
                if isinstance(n, SArr) and n.dtype != s.dt:
                    s.dt = n.dtype
                    s.kind = 'I' if s.dt.kind in 'iu' else 'R'
                    return True
                return False
            s.widen = widen
            return s
    if not is_number(v):
        raise Unsupported(f'variable {name} changes in a symbolic loop')
    from interp import kind_of
    s.pk = kind_of(v)
    if s.pk == 'bool':
        raise Unsupported('flag changed in a symbolic loop')
    s.arr = None

    def make(i):
        t = app(s.name, (i,), 'I' if s.pk == 'int' else 'R')
        if s.arr is not None:
            return scalar0(t, s.arr[0], s.arr[1])
        return Sym(t, s.pk)

    def wrap(t):
        if s.arr is not None:
            return scalar0(t, s.arr[0], s.arr[1])
        return mk(t, s.pk)

    def widen(n):
        if isinstance(n, SArr):
            if s.arr is None or s.arr[0] != n.dtype:
                s.arr = (n.dtype, n.lib)
                s.pk = 'int' if n.dtype.kind in 'iu' else 'float'
                return True
            return False
        k = kind_of(n)
        if k == 'float' and s.pk == 'int':
            s.pk = 'float'
            return True
        return False
    s.make, s.wrap, s.widen = make, wrap, widen
    return s


def solve(m, i, count, var_states, cell_states, new_vars, new_cells, loop_facts, pre):
    todo = []
    for k, s in var_states.items():
        v = new_vars.get(k)
        if not is_number(v):
            raise Unsupported(f'variable {k} after an iteration')
        s.idx = ()
        s.old = app(s.name, (i,), nterm(s.make(i)).sort)
        s.new = nterm(v)
        t0 = nterm(pre[k])
        s.init = lambda idx, t0=t0: t0
        s.scope = []
        todo.append(s)
    for c, s in cell_states.items():
        shape = vals.CELL_SHAPE[c]
        sizes = []
        groups = []
        for d in shape:
            if isinstance(d, Prod):
                vs = tuple(fresh('k') for _ in d.dims)
                groups.append(vs)
                sizes += list(zip(vs, d.dims))
            else:
                v = fresh('k')
                groups.append(v)
                sizes.append((v, d))
        s.idx = flat(tuple(groups))
        s.groups = tuple(groups)
        s.old = app(s.name, (i,) + s.idx, s.kind)
        s.new = new_cells[c](s.groups)
        f0 = c.content
        shp = shape

        def init(idx, f0=f0, shp=shp):
            return f0(ungroup(idx, shp))
        s.init = init
        s.scope = sizes
        todo.append(s)
    solved = {}
    names = {s.name for s in todo}
    facts = m.facts + [le(ZERO, i), lt(i, count)]
    while todo:
        progress = False
        for s in list(todo):
            new_t = replace_states(s.new, solved)
            ctx = vals.make_ctx(facts + [f for f in loop_facts[2:]], m.perms, m.sub)
            ctx.scope += s.scope
            if s.old.sort == 'B':
                D = None
            else:
                D = gdelta(new_t, s.old, set(s.idx), ctx)
            unsolved = names - set(solved)
            if D is not None and not states_in(D, unsolved):
                accumulate(s, i, count, D)
            elif not overwrite(s, i, count, new_t, unsolved, m):
                continue
            solved[s.name] = s
            todo.remove(s)
            progress = True
        if not progress:
            raise Unsupported('loop without a closed form')


def ungroup(idx, shape):
    out, p = [], 0
    for d in shape:
        if isinstance(d, Prod):
            out.append(tuple(idx[p:p + len(d.dims)]))
            p += len(d.dims)
        else:
            out.append(idx[p])
            p += 1
    return tuple(out)


def eqs(c):
    return [a for a in (c.args if c.op == 'and' else (c,)) if a.op == 'eq']


def gdelta(new_t, old_t, goal, ctx):
    """new - old, using the equalities of the conditions inside their branches."""
    if new_t is old_t:
        return ZERO
    if new_t.op == 'ite':
        c, a, b = new_t.args
        sub_ = {}
        for e in eqs(c):
            p = subst(sub(e.args[0], e.args[1]), sub_)
            r = solve_var(p, goal, ctx)
            if r is not None:
                v, val = r
                sub_ = {k: subst(w, {v: val}) for k, w in sub_.items()}
                sub_[v] = val
        da = gdelta(subst(a, sub_), subst(old_t, sub_), goal, ctx)
        db = gdelta(b, old_t, goal, ctx)
        return add(mul(ind(c), da), mul(ind(bnot(c)), db) if db is not ZERO else ZERO)
    p = nf(sub(b2r(new_t), b2r(old_t)), ctx)
    return to_term(p)


def solve_var(p, goal, ctx):
    q = nf(p, ctx)
    for mono, c in q.items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in goal and abs(c) == 1:
            v = mono[0][0]
            rest = {k: w for k, w in q.items() if k != mono}
            if any(v in free(a) for k in rest for a, _ in k):
                continue
            return v, mul(num(-1 / c), to_term(rest))
    return None


def accumulate(s, i, count, D):
    idx, init = s.idx, s.init
    if i not in free(D):
        def closed(it, args):
            d = subst(D, dict(zip(idx, args)))
            return add(init(args), mul(it, d))
    else:
        def closed(it, args):
            j = fresh('b')
            d = subst(D, {i: j, **dict(zip(idx, args))})
            if it is not count:
                d = mul(ind(lt(j, it)), d)
            return add(init(args), summ(j, count, d))
    s.closed = closed


def overwrite(s, i, count, new_t, unsolved, m):
    """One element per iteration is assigned: st[t(i)] = V."""
    if new_t.op != 'ite' or new_t.args[2] is not s.old:
        return False
    c, V, _ = new_t.args
    inv = None
    rest = []
    for a in (c.args if c.op == 'and' else (c,)):
        if a.op == 'eq' and inv is None:
            inv = invert(a, i, s, m, count)
            if inv is not None:
                continue
        rest.append(a)
    if inv is None:
        return False
    V = map_terms(V, lambda t: s.init(s.idx) if t is s.old else t)
    if states_in(V, unsolved) or any(states_in(r, unsolved) for r in rest):
        return False
    idx, init = s.idx, s.init
    rest = band(*rest)

    def closed(it, args):
        mp = dict(zip(idx, args))
        t = subst(inv, mp)
        cond = band(le(ZERO, t), lt(t, it), subst(subst(rest, {i: inv}), mp))
        return ite(cond, subst(subst(V, {i: inv}), mp), init(args))
    s.closed = closed
    return True


def invert(e, i, s, m, count):
    """i as a function of the element index if e is t(i) = k."""
    a, b = e.args
    for x, y in ((a, b), (b, a)):
        if i in free(x) and i not in free(y):
            g = N.invert_index(x, i, count)
            if g is not None and (y.op != 'var' or y in s.idx):
                return g(y)
    p = sub(a, b)
    ctx = m.ctx()
    r = solve_var(p, {i}, ctx)
    if r is not None and free(r[1]) & set(s.idx) and isint(r[1]):
        return r[1]
    return None


def while_loop(fr, st):
    m = machine()
    h = getattr(m, 'while_handler', None)
    if h is not None:
        return h(fr, st)
    raise Unsupported('while loop without an invariant')
