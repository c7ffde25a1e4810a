"""The part of numpy used by the repository, on symbolic arrays.

Each function states what numpy guarantees (assumed contracts of a
dependency); preconditions become obligations.
"""
import math
import z3
from . import core
from .core import (ctx, SNum, SBool, SLab, Z, Zi, Zr, Zb, num, wrap, sbool, forall, fresh_int, fresh_fun,
                   fresh_real, bound, Unsupported, And, Or, Not, Implies, If, is_sym, Lab, sort_of, coerce, try_num)
from . import arr as A
from .arr import Arr, DT, as_dt, emap, forall_idx, fresh_arr, same_dim, INT64, FLOAT64, BOOL, OBJ, promote
from .vlist import VList

I, R = z3.IntSort(), z3.RealSort()


def ok_pattern(t):
    """may be (part of) a pattern: an application of a function symbol, without logic inside"""
    if not z3.is_app(t) or t.num_args() == 0 or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False

    def clean(x):
        if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return False
        return all(clean(y) for y in x.children())
    return clean(t)


def fa(vs, body, *pats):
    """forall, with patterns (a tuple: several terms); those that are not valid are dropped"""
    ps = []
    for p in pats:
        if isinstance(p, tuple):
            if all(ok_pattern(x) for x in p):
                ps.append(z3.MultiPattern(*p))
        elif not isinstance(p, z3.ExprRef):
            ps.append(p)
        elif ok_pattern(p) and has_vars(p, vs):
            ps.append(p)
    return z3.ForAll(vs, body, patterns=ps)


def has_vars(p, vs):
    seen, todo = set(), [p]
    while todo:
        t = todo.pop()
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo += t.children()
    return all(v.get_id() in seen for v in vs)


def _shape(s):
    if isinstance(s, (tuple, list, VList)):
        return tuple(x.__vc_scalar__() if hasattr(x, '__vc_scalar__') else x for x in s)
    if hasattr(s, '__vc_scalar__'):
        s = s.__vc_scalar__()
    return (s,)


def _dims(shape):
    for s in shape:
        if isinstance(s, float) or (isinstance(s, SNum) and not s.is_int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        ctx().oblige('no negative dimension', Zi(s) >= 0)
    return shape


def np_empty(shape=None, dtype=None, **k):
    dt = as_dt(dtype)
    shape = _dims(_shape(shape))
    r = fresh_arr('empty', shape, dt)
    return r


def np_zeros(shape=None, dtype=None, **k):
    dt = as_dt(dtype)
    shape = _dims(_shape(shape))
    z = {'i': z3.IntVal(0), 'u': z3.IntVal(0), 'f': z3.RealVal(0), 'b': z3.BoolVal(False)}.get(dt.kind)
    if z is None:
        raise Unsupported('zeros of objects')
    return Arr(shape, lambda *i: z, dt)


def np_ones(shape=None, dtype=None, **k):
    dt = as_dt(dtype)
    shape = _dims(_shape(shape))
    z = {'i': z3.IntVal(1), 'u': z3.IntVal(1), 'f': z3.RealVal(1), 'b': z3.BoolVal(True)}[dt.kind]
    return Arr(shape, lambda *i: z, dt)


def np_full(shape, v, dtype=None):
    r = np_empty(shape, dtype if dtype is not None else (INT64 if Z(v).sort() == I else FLOAT64))
    r[...] = v
    return r


def np_arange(*a, **k):
    dt = as_dt(k['dtype']) if k.get('dtype') is not None else INT64
    from .loops import VRange
    a = tuple(x.__vc_scalar__() if hasattr(x, '__vc_scalar__') else x for x in a)
    if any(Z(x).sort() == R for x in a):
        raise Unsupported('arange on floats')
    r = VRange(*a)
    n = r.__vclen__()
    if dt.is_int and not dt.exact():
        ctx().oblige('the values of arange fit in their type', forall_idx((n,), lambda i: A.in_range(dt, Zi(r.item(i)))))
    x = Arr((n,), lambda i: A.cast_term(Zi(r.item(i)), dt), dt)
    return x


def scalar_dtype(x):
    if isinstance(x, SNum) and x.dtype is not None:
        return x.dtype
    e = Z(x)
    if e.sort() == R:
        return FLOAT64
    if e.sort() == z3.BoolSort():
        return BOOL
    if e.sort() == Lab:
        return OBJ
    return INT64


def np_array(x, dtype=None, copy=True, **k):
    if hasattr(x, '__vc_array__'):
        x = x.__vc_array__()
    if isinstance(x, Arr):
        r = x.copy() if copy else x
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, (list, tuple, VList)) or hasattr(x, '__vc_iter__'):
        if isinstance(x, VList) and x.conc is None or (hasattr(x, '__vc_iter__') and not isinstance(x, VList)):
            n, f = x.__vc_iter__()
            probe = f(z3.IntVal(0)) if not isinstance(n, int) else None
            if isinstance(n, int):
                return np_array([f(i) for i in range(n)], dtype)
            if isinstance(probe, (SNum, SBool, SLab, int, float)):
                r = Arr((n,), lambda i: Z(f(i)), scalar_dtype(probe))
                return r.astype(dtype) if dtype is not None else r
            if isinstance(probe, tuple):
                w = len(probe)
                kinds = [Z(p) for p in probe]
                srt = R if any(q.sort() == R for q in kinds) else kinds[0].sort()

                def fn(i, j):
                    t = f(i)
                    r = Zr(t[-1]) if srt == R else Z(t[-1])
                    for m in range(w - 2, -1, -1):
                        r = z3.If(j == m, Zr(t[m]) if srt == R else Z(t[m]), r)
                    return r
                r = Arr((n, w), fn, FLOAT64 if srt == R else scalar_dtype(probe[0]))
                return r.astype(dtype) if dtype is not None else r
            if isinstance(probe, Arr):
                return stack_sym(n, f, probe)
            raise Unsupported('array of a symbolic list')
        items = list(x)
        dt = as_dt(dtype) if dtype is not None else None
        if not items:
            dt = dt or FLOAT64
            z = {'f': z3.RealVal(0), 'b': z3.BoolVal(False)}.get(dt.kind, z3.IntVal(0))
            return Arr((0,), lambda i: z, dt)
        if any(isinstance(y, (list, tuple, VList, Arr)) for y in items):
            rows = [np_array(y) for y in items]
            return np_stack(rows, dt)
        rt = dt
        if rt is None:
            ts = [scalar_dtype(y) for y in items]
            rt = ts[0]
            for t in ts[1:]:
                rt = promote(rt, t)
        es = [Z(y.__vc_scalar__() if hasattr(y, '__vc_scalar__') else y) for y in items]
        if rt.is_int and not rt.exact():
            for e in es:
                ctx().oblige('the values of the array fit in their type', A.in_range(rt, A.cast_term(e, rt)))
        es = [A.cast_term(e, rt) for e in es]

        def fn(i):
            v = z3.simplify(i)
            if z3.is_int_value(v) and 0 <= v.as_long() < len(es):
                return es[v.as_long()]
            r = es[-1]
            for j in range(len(es) - 2, -1, -1):
                r = z3.If(i == j, es[j], r)
            return r
        return Arr((len(es),), fn, rt)
    # scalar
    e = Z(x)
    dt = as_dt(dtype) if dtype is not None else scalar_dtype(x)
    return Arr((), lambda: A.cast_term(e, dt), dt)


def stack_sym(n, f, probe):
    """matrix of an unknown number of rows of the same length"""
    c = ctx()
    k, = bound(1)
    first = probe.shape
    if not c.fork(sbool(Zi(n) > 0)):
        return Arr((0,), lambda i: z3.RealVal(0), FLOAT64)
    for s, t in zip(f(k).shape, first):
        if not (isinstance(s, int) and isinstance(t, int)):
            c.oblige('rows of the same size', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Zi(n)), Zi(s) == Zi(t))))
    return A.reify(Arr((n,) + tuple(first), lambda i, *j: Z(spec_at(f, i, j)), probe.dtype))


def spec_at(f, i, j):
    c = ctx()
    c.spec += 1
    try:
        return f(i).at(*j)
    finally:
        c.spec -= 1


def np_stack(rows, dt=None):
    for r in rows[1:]:
        if r.ndim != rows[0].ndim:
            raise ValueError('inhomogeneous shape')
        for s, t in zip(r.shape, rows[0].shape):
            if not same_dim(s, t):
                ctx().oblige('rows of the same size', Zi(s) == Zi(t))
    rt = rows[0].dtype
    for r in rows[1:]:
        rt = promote(rt, r.dtype)
    rt = dt or rt
    fs = [r.astype(rt).snap() for r in rows]

    def fn(i, *j):
        v = z3.simplify(i)
        if z3.is_int_value(v) and 0 <= v.as_long() < len(fs):
            return fs[v.as_long()](*j)
        r = fs[-1](*j)
        for m in range(len(fs) - 2, -1, -1):
            r = z3.If(i == m, fs[m](*j), r)
        return r
    return Arr((len(rows),) + rows[0].shape, fn, rt)


def arr_of(x):
    return x if isinstance(x, Arr) else np_array(x)


# ------------------------------------------------------------ elementwise

def elementwise(f, fscalar):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple, VList)) or hasattr(x, '__vc_array__'):
            x = np_array(x)
        if isinstance(x, Arr):
            return f(x)
        return fscalar(x)
    return g


def vfloor(x):
    if isinstance(x, SNum):
        return x if x.is_int else SNum(z3.ToReal(z3.ToInt(x.e)), FLOAT64)
    return float(math.floor(x))


def vceil(x):
    if isinstance(x, SNum):
        return x if x.is_int else SNum(z3.ToReal(-z3.ToInt(-x.e)), FLOAT64)
    return float(math.ceil(x))


np_floor = elementwise(lambda a: emap(lambda t: z3.ToReal(z3.ToInt(Zr(t))), [a], FLOAT64), vfloor)
np_ceil = elementwise(lambda a: emap(lambda t: z3.ToReal(-z3.ToInt(-Zr(t))), [a], FLOAT64), vceil)

_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def real_fun(name, conc=None):
    """a real function of which nothing (or only axioms) is known"""
    f = uf(name, R, R)

    def scalar(x):
        if not is_sym(x) and conc is not None:
            return conc(x)
        return SNum(f(Zr(x)), FLOAT64)
    return elementwise(lambda a: emap(lambda t: f(Zr(t)), [a], FLOAT64), scalar)


def np_round(x, *a):
    if isinstance(x, Arr):
        raise Unsupported('round of an array')
    r = core.vround(x)
    return SNum(z3.ToReal(r.e)) if isinstance(r, SNum) else float(r)


np_sqrt = real_fun('sqrt', math.sqrt)
np_log = real_fun('log', lambda x: math.log(x))
np_exp = real_fun('exp', math.exp)
np_arccos = real_fun('arccos')
np_absolute = elementwise(lambda a: emap(lambda t: z3.If(t >= 0, t, -t), [a], a.dtype), abs)


def np_sign(x):
    if isinstance(x, Arr):
        one, zero = (z3.RealVal(1), z3.RealVal(0)) if x.dtype.kind == 'f' else (z3.IntVal(1), z3.IntVal(0))
        if x.dtype.kind == 'u':
            pass
        return emap(lambda t: z3.If(t > 0, one, z3.If(t < 0, -one, zero)), [x], x.dtype)
    return If(sbool(Z(x) > 0), 1, If(sbool(Z(x) < 0), -1, 0))


def binary(op):
    def g(a, b, *r, **k):
        return op(a, b)
    return g


import operator as _op


def _bin(op):
    def g(a, b, out=None, **k):
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            if isinstance(a, (list, tuple, VList)):
                a = np_array(a)
        r = op(a, b)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


np_mod = _bin(_op.mod)
np_floor_divide = _bin(_op.floordiv)
np_add, np_subtract, np_multiply, np_divide = _bin(_op.add), _bin(_op.sub), _bin(_op.mul), _bin(_op.truediv)


def np_logical_and(a, b, *r):
    return emap(lambda x, y: z3.And(Zb(wrap(x)), Zb(wrap(y))), [arr_of(a), arr_of(b)], BOOL)


def np_logical_or(a, b):
    return emap(lambda x, y: z3.Or(Zb(wrap(x)), Zb(wrap(y))), [arr_of(a), arr_of(b)], BOOL)


def np_logical_not(a):
    return emap(lambda x: z3.Not(Zb(wrap(x))), [arr_of(a)], BOOL)


def np_maximum(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return If(sbool(Z(a) >= Z(b)), a, b)
    dt = A.result_type(a, b)
    return emap(lambda x, y: (lambda p, q: z3.If(p >= q, p, q))(*coerce(x, y)), [a, b], dt)


def np_minimum(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return If(sbool(Z(a) <= Z(b)), a, b)
    dt = A.result_type(a, b)
    return emap(lambda x, y: (lambda p, q: z3.If(p <= q, p, q))(*coerce(x, y)), [a, b], dt)


def np_isnan(a):
    if isinstance(a, Arr):
        return emap(lambda x: z3.BoolVal(False), [a], BOOL)
    if isinstance(a, float):
        return math.isnan(a)
    return False


# ------------------------------------------------------------ selection

def np_where(mask, x=None, y=None):
    if x is not None:
        m = arr_of(mask)
        dt = A.result_type(x, y) if isinstance(x, Arr) or isinstance(y, Arr) else scalar_dtype(x)
        return emap(lambda c, a, b: z3.If(c, *coerce(a, b)), [m, x, y], dt)
    mask = arr_of(mask)
    if mask.ndim != 1:
        raise Unsupported('where on a matrix')
    c = ctx()
    n = mask.shape[0]
    if mask.dtype.kind == 'b':
        f = mask.snap()
    else:
        g = mask.snap()
        f = lambda i: g(i) != 0
    # the same mask gives the same result
    probe = z3.simplify(f(z3.Int('%probe')))
    key = ('where', probe.sexpr(), z3.simplify(Zi(n)).sexpr())
    cache = c.ghost.setdefault('%cache', {})
    if key in cache:
        idx, rank, m = cache[key]
    else:
        idx = fresh_fun('where', I, I)
        rank = fresh_fun('rank', I, I)
        m = fresh_int('nwhere', 0, n)
        cache[key] = (idx, rank, m)
        i, j = bound(2)
        c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < m.e), z3.And(
            idx(i) >= 0, idx(i) < Zi(n), f(idx(i)), rank(idx(i)) == i, idx(i) >= i)), idx(i)))
        c.assume(fa([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m.e), idx(i) < idx(j)), z3.MultiPattern(idx(i), idx(j))))
        r = z3.Implies(z3.And(i >= 0, i < Zi(n), f(i)), z3.And(rank(i) >= 0, rank(i) < m.e, idx(rank(i)) == i))
        p = f(i)
        c.assume(fa([i], r, rank(i)))
        pats = term_patterns(p, i)
        if pats:
            c.assume(fa([i], r, *pats))
    a = Arr((m,), lambda i: idx(i), INT64)
    a.facts['rank'] = rank
    a.facts['nonneg'] = True
    c.ghost.setdefault('ranks', {})[idx(z3.IntVal(0)).decl().name()] = rank
    return (a,)


def term_patterns(t, v):
    """uninterpreted applications on exactly the variable v in t"""
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and any(a.eq(v) for a in t.children()):
                if all(a.eq(v) or not contains(a, v) for a in t.children()):
                    out.append(t)
            for a in t.children():
                go(a)
    go(t)
    return out[:3]


def contains(t, v):
    if t.eq(v):
        return True
    return any(contains(a, v) for a in t.children())


def np_nonzero(a):
    return np_where(arr_of(a) if arr_of(a).dtype.kind == 'b' else arr_of(a) != 0)


def np_extremum(which):
    def g(a, axis=None, **k):
        if hasattr(a, 'vc_' + which):
            return getattr(a, 'vc_' + which)
        a = arr_of(a) if not isinstance(a, Arr) else a
        c = ctx()
        le = (lambda x, y: x <= y) if which == 'max' else (lambda x, y: x >= y)
        if axis is None or a.ndim == 1:
            c.oblige('%s of a non empty array' % which, z3.And(*[Zi(s) > 0 for s in a.shape]) if a.shape else z3.BoolVal(True))
            if all(isinstance(s, int) and s == 1 for s in a.shape):
                return wrap(a.at(*[0] * a.ndim), a.dtype)
            f = a.snap()
            probe = z3.simplify(f(*[z3.Int('%%probe%d' % d) for d in range(a.ndim)]))
            key = (which, probe.sexpr(), tuple(z3.simplify(Zi(s)).sexpr() for s in a.shape))
            cache = c.ghost.setdefault('%cache', {})
            if key not in cache:
                w = [fresh_int('arg' + which, 0).e for _ in a.shape]
                m = z3.Const(c.fresh_name(which), sort_of(a.dtype.kind))
                for v, s in zip(w, a.shape):
                    c.assume(v < Zi(s))
                c.assume(m == f(*w))
                vs = bound(a.ndim)
                body = z3.Implies(z3.And(*[z3.And(v >= 0, v < Zi(s)) for v, s in zip(vs, a.shape)]), le(f(*vs), m))
                pats = [t for t in term_patterns_multi(f(*vs), vs)]
                c.assume(fa(vs, body, *pats))
                cache[key] = m
            return wrap(cache[key], a.dtype)
        # along one axis
        ax = axis if axis >= 0 else axis + a.ndim
        c.oblige('%s of a non empty array' % which, Zi(a.shape[ax]) > 0)
        shape = [s for d, s in enumerate(a.shape) if d != ax]
        f = a.snap()
        m = fresh_fun(which, *([I] * len(shape) + [sort_of(a.dtype.kind)]))
        w = fresh_fun('arg' + which, *([I] * len(shape) + [I]))
        vs = bound(len(shape))
        k = bound(1)[0]
        ins = lambda x: f(*(list(vs[:ax]) + [x] + list(vs[ax:])))
        c.ghost[which] = (a, m)
        rng = z3.And(*[z3.And(v >= 0, v < Zi(s)) for v, s in zip(vs, shape)])
        c.assume(fa(vs, z3.Implies(rng, z3.And(w(*vs) >= 0, w(*vs) < Zi(a.shape[ax]), m(*vs) == ins(w(*vs)))), m(*vs)))
        c.assume(fa(list(vs) + [k], z3.Implies(z3.And(rng, k >= 0, k < Zi(a.shape[ax])), le(ins(k), m(*vs)))))
        return Arr(shape, lambda *i: m(*i), a.dtype)
    return g


def np_argext(which):
    def g(a, axis=None, **k):
        a = arr_of(a)
        if a.ndim != 1 or axis not in (None, 0):
            raise Unsupported('arg%s of a matrix' % which)
        c = ctx()
        n = Zi(a.shape[0])
        c.oblige('arg%s of a non empty array' % which, n > 0)
        f = a.snap()
        w = fresh_int('arg' + which, 0)
        i, = bound(1)
        lt = (lambda x, y: x <= y) if which == 'max' else (lambda x, y: x >= y)
        c.assume(w.e < n)
        body = z3.And(z3.Implies(z3.And(i >= 0, i < n), lt(f(i), f(w.e))), z3.Implies(z3.And(i >= 0, i < w.e), f(i) != f(w.e)))
        c.assume(fa([i], body, *term_patterns(f(i), i)))
        return wrap(w.e, INT64)
    return g


np_argmax, np_argmin = np_argext('max'), np_argext('min')


def term_patterns_multi(t, vs):
    """one application that mentions all the variables directly"""
    found = []

    def go(t):
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                ch = t.children()
                if all(any(a.eq(v) for a in ch) for v in vs) and all(any(a.eq(v) for v in vs) or not any(contains(a, v) for v in vs) for a in ch):
                    found.append(t)
                    return
            for a in t.children():
                go(a)
    go(t)
    return found[:2]


np_max, np_min = np_extremum('max'), np_extremum('min')


# ------------------------------------------------------------ sums

def canonical(f, nd):
    """(key, body) of a function of nd integer variables"""
    vs = [z3.Int('%%c%d' % d) for d in range(nd)]
    b = z3.simplify(f(*vs), som=True)
    return b.sexpr(), b, vs


def sum_term(f, n, params=()):
    """sum of f(k) for 0 <= k < n, f a function of a z3 integer; the same body
    gives the same symbol"""
    c = ctx()
    k = z3.Int('%k')
    body = z3.simplify(f(k))
    return partial_sum(body, k, params)(Zi(n))


def partial_sum(body, k, params=()):
    """returns the function n -> sum of body for k < n; params: list of terms
    the body depends on (bound variables of the caller)"""
    c = ctx()
    ps = [z3.Int('%%p%d' % d) for d in range(len(params))]
    b = z3.substitute(body, *zip(params, ps)) if params else body
    b = z3.simplify(b)
    sort = b.sort()
    zero = z3.IntVal(0) if sort == I else z3.RealVal(0)
    key = ('sum', b.sexpr(), len(params))
    cache = c.ghost.setdefault('%cache', {})
    if key not in cache:
        S = fresh_fun('sum', *([I] * (len(params) + 1) + [sort]))
        cache[key] = S
        m = bound(1, 'm')[0]
        qs = bound(len(params), 'p')
        bb = z3.substitute(b, *zip(ps, qs)) if params else b
        c.assume(fa(list(qs), S(*(list(qs) + [z3.IntVal(0)])) == zero, S(*(list(qs) + [z3.IntVal(0)]))) if qs else S(z3.IntVal(0)) == zero)
        prev = S(*(list(qs) + [m - 1]))
        cur = S(*(list(qs) + [m]))
        c.assume(fa(list(qs) + [m], z3.Implies(m >= 1, cur == prev + z3.substitute(bb, (k, m - 1))), cur))
    S = cache[key]
    return lambda n: S(*(list(params) + [n]))


def np_sum(a, axis=None, **kw):
    a = arr_of(a) if not isinstance(a, Arr) else a
    c = ctx()
    dt = a.dtype
    if dt.kind == 'b' or dt.is_int:
        rdt = INT64 if dt.kind != 'u' else A.UINT64
    else:
        rdt = dt
    f0 = a.snap()

    def f(*i):
        e = f0(*i)
        if e.sort() == z3.BoolSort():
            e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        return e
    if axis is None or a.ndim == 1:
        if a.ndim == 1:
            if isinstance(a.shape[0], int):
                t = z3.IntVal(0) if rdt.kind != 'f' else z3.RealVal(0)
                for i in range(a.shape[0]):
                    t = t + f(z3.IntVal(i))
                return wrap(t, rdt)
            rs = [(d, m) for d, m in enumerate(a.maps) if m[0] == 'rng']
            dd, m = rs[0] if len(rs) == 1 else (0, None)
            if m is not None and m[0] == 'rng' and m[2] == 1 and not (isinstance(m[1], int) and m[1] == 0):
                # part of an array: difference of two sums from its beginning
                g0 = a.st.fn

                def g(i):
                    e = g0(*[i if d == dd else Zi(q[1]) for d, q in enumerate(a.maps)])
                    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if e.sort() == z3.BoolSort() else e
                k = z3.Int('%k')
                S = partial_sum(z3.simplify(g(k)), k)
                lo, ln = Zi(m[1]), Zi(a.shape[0])
                return wrap(z3.If(ln <= 0, z3.RealVal(0) if g(k).sort() == R else z3.IntVal(0), S(lo + ln) - S(lo)), rdt)
            return wrap(sum_term(f, a.shape[0]), rdt)
        if a.ndim == 2 and isinstance(a.shape[1], int) and a.shape[1] == 1:
            return np_sum(a[:, 0])
        raise Unsupported('sum of a matrix')
    ax = axis if axis >= 0 else axis + a.ndim
    shape = [s for d, s in enumerate(a.shape) if d != ax]
    keep = kw.get('keepdims', False)

    def fn(*i):
        if keep:
            i = i[:ax] + i[ax + 1:]
        n = a.shape[ax]
        if isinstance(n, int) and n <= 4:
            t = z3.IntVal(0) if rdt.kind != 'f' else z3.RealVal(0)
            for k in range(n):
                t = t + f(*(list(i[:ax]) + [z3.IntVal(k)] + list(i[ax:])))
            return t
        k = z3.Int('%k')
        ps = list(i)
        return partial_sum(f(*(ps[:ax] + [k] + ps[ax:])), k, tuple(ps))(Zi(n))
    if keep:
        shape = shape[:ax] + [1] + shape[ax:]
    return Arr(shape, fn, rdt)


def np_mean(a, axis=None, **k):
    a = arr_of(a) if not isinstance(a, Arr) else a
    if axis is None and (a.ndim == 1 or a.ndim == 2 and isinstance(a.shape[1], int) and a.shape[1] == 1):
        s = np_sum(a)
        ctx().oblige('mean of a non empty array', Zi(a.shape[0]) > 0)
        return SNum(Zr(s) / Zr(a.shape[0]))
    raise Unsupported('mean')


def np_prod(a, axis=None, dtype=None, **k):
    if isinstance(a, VList) and a.conc is not None:
        a = a.conc
    if isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = r * x
        dt = as_dt(dtype) if dtype is not None else INT64
        if is_sym(r) and r.is_int and dt.is_int:
            ctx().oblige('no wrap around in prod', A.in_range(dt, r.e))
        return r
    if isinstance(a, Arr) and a.ndim == 1 and not isinstance(a.shape[0], int) and axis in (None, 0) and a.dtype.is_int:
        # partial products
        c = ctx()
        f, n = a.snap(), Zi(a.shape[0])
        p = fresh_fun('prod', I, I)
        m, = bound(1)
        c.assume(p(z3.IntVal(0)) == 1)
        c.assume(fa([m], z3.Implies(z3.And(m >= 1, m <= n), p(m) == p(m - 1) * f(m - 1)), p(m)))
        c.ghost['prod'] = (a, p)
        dt = as_dt(dtype) if dtype is not None else a.dtype
        if dt is not A.PYINT:
            dt = A.UINT64 if dt.kind == 'u' else INT64
            c.oblige('no wrap around in prod', A.in_range(dt, p(n)))
            return wrap(p(n), dt)
        return wrap(p(n))
    if isinstance(a, Arr) and a.ndim == 1 and isinstance(a.shape[0], int):
        return np_prod([wrap(a.at(i)) for i in range(a.shape[0])], dtype=dtype)
    raise Unsupported('prod')


def np_any(a, axis=None):
    a = arr_of(a)
    f = a.snap()
    vs = bound(a.ndim)
    return sbool(z3.Exists(vs, z3.And(*[z3.And(v >= 0, v < Zi(s)) for v, s in zip(vs, a.shape)] + [Zb(wrap(f(*vs)))])))


def np_all(a, axis=None):
    a = arr_of(a)
    f = a.snap()
    return sbool(forall_idx(a.shape, lambda *i: Zb(wrap(f(*i)))))


# ------------------------------------------------------------ sorting

def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = arr_of(a)
    if a.ndim != 1:
        raise Unsupported('unique of a matrix')
    c = ctx()
    n = a.shape[0]
    f = a.snap()
    srt = sort_of(a.dtype.kind)
    if srt == Lab:
        lt = lambda x, y: uf('lab<', Lab, Lab, z3.BoolSort())(x, y)
    else:
        lt = lambda x, y: x < y
    u = fresh_fun('uniq', I, srt)
    src = fresh_fun('uniq.idx', I, I)
    inv = fresh_fun('uniq.inv', I, I)
    m = fresh_int('nuniq', 0, n)
    i, j = bound(2)
    c.assume((m.e == 0) == (Zi(n) == 0))
    c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < m.e), z3.And(src(i) >= 0, src(i) < Zi(n), u(i) == f(src(i)), inv(src(i)) == i)), u(i)))
    c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < m.e), z3.And(src(i) >= 0, src(i) < Zi(n), u(i) == f(src(i)), inv(src(i)) == i)), src(i)))
    c.assume(fa([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m.e), z3.And(lt(u(i), u(j)), u(i) != u(j))), z3.MultiPattern(u(i), u(j))))
    body = z3.Implies(z3.And(i >= 0, i < Zi(n)), z3.And(inv(i) >= 0, inv(i) < m.e, u(inv(i)) == f(i)))
    c.assume(fa([i], body, inv(i)))
    p = term_patterns(f(i), i)
    if p:
        c.assume(fa([i], body, *p))
    for o, k, g in (a.facts.get('parts') or ()):
        # the same for each array concatenated
        p = term_patterns(g(i), i)
        if p:
            c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < Zi(k)), z3.And(inv(Zi(o) + i) >= 0, inv(Zi(o) + i) < m.e, u(inv(Zi(o) + i)) == g(i))), *p))
    if return_index:
        # first occurrence
        c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < Zi(n)), src(inv(i)) <= i), inv(i)))
    r = Arr((m,), lambda i: u(i), a.dtype)
    r.facts['sorted'] = True
    r.facts['inv'], r.facts['src'] = inv, src
    out = [r]
    if return_index:
        out.append(Arr((m,), lambda i: src(i), INT64))
    if return_inverse:
        out.append(Arr((n,), lambda i: inv(i), INT64))
    if return_counts:
        raise Unsupported('unique with counts')
    return out[0] if len(out) == 1 else tuple(out)


def np_union1d(a, b):
    return np_unique(np_concatenate([arr_of(a), arr_of(b)]))


def np_argsort(a, axis=-1, kind=None, **k):
    a = arr_of(a)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    c = ctx()
    n = a.shape[0]
    f = a.snap()
    p, q = fresh_fun('perm', I, I), fresh_fun('perm.inv', I, I)
    i, j = bound(2)
    rng = lambda x: z3.And(x >= 0, x < Zi(n))
    c.assume(fa([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), p(i)))
    c.assume(fa([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), q(i)))
    order = f(p(i)) <= f(p(j))
    if kind in ('mergesort', 'stable'):
        order = z3.And(order, z3.Implies(f(p(i)) == f(p(j)), p(i) < p(j)))
    c.assume(fa([i, j], z3.Implies(z3.And(i >= 0, i < j, j < Zi(n)), order), z3.MultiPattern(p(i), p(j))))
    r = Arr((n,), lambda i: p(i), INT64)
    r.facts['perm_inv'] = q
    r.facts['nonneg'] = True
    c.ghost['argsort'] = (p, q, n)
    return r


def np_sort(a, **k):
    a = arr_of(a)
    p = np_argsort(a)
    return a[p]


def np_searchsorted(a, v, side='left', **k):
    a = arr_of(a)
    c = ctx()
    f = a.snap()
    n = a.shape[0]
    i, j = bound(2)
    if not a.facts.get('sorted'):
        c.oblige('the array given to searchsorted is sorted', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < Zi(n)), f(i) <= f(j))))
    lt = (lambda x, y: x < y) if side == 'left' else (lambda x, y: x <= y)

    def facts(r, val, qs, g):
        k = bound(1)[0]
        x, y = coerce(f(k), val)
        body = z3.Implies(z3.And(g, k >= 0, k < Zi(n)), (k < r) == lt(x, y))
        ps = [z3.MultiPattern(r, p) for p in term_patterns(f(k), k) if not isinstance(p, z3.PatternRef)] if all(not isinstance(p, z3.PatternRef) for p in term_patterns(f(k), k)) else []
        c.assume(fa(list(qs) + [k], body, *ps))
    if isinstance(v, Arr):
        g = v.snap()
        r = fresh_fun('ss', I, I)
        q = bound(1)[0]
        rng = z3.And(q >= 0, q < Zi(v.shape[0]))
        c.assume(fa([q], z3.Implies(rng, z3.And(r(q) >= 0, r(q) <= Zi(n))), r(q)))
        facts(r(q), g(q), [q], rng)
        c.assume(fa([q], z3.Implies(z3.And(rng, r(q) < Zi(n)), z3.Not(lt(*coerce(f(r(q)), g(q))))), r(q)))
        c.assume(fa([q], z3.Implies(z3.And(rng, r(q) > 0), lt(*coerce(f(r(q) - 1), g(q)))), r(q)))
        return Arr((v.shape[0],), lambda i: r(i), INT64)
    r = fresh_int('ss', 0, n)
    k = bound(1)[0]
    x, y = coerce(f(k), Z(v))
    body = z3.Implies(z3.And(k >= 0, k < Zi(n)), (k < r.e) == lt(x, y))
    p = term_patterns(f(k), k)
    c.assume(fa([k], body, *p))
    c.assume(z3.Implies(r.e > 0, lt(*coerce(f(r.e - 1), Z(v)))))
    c.assume(z3.Implies(r.e < Zi(n), z3.Not(lt(*coerce(f(r.e), Z(v))))))
    return r


# ------------------------------------------------------------ assembling

def np_concatenate(xs, axis=0, **k):
    c = ctx()
    if isinstance(xs, VList) and xs.conc is None:
        return concat_sym(xs)
    xs = [arr_of(x) for x in list(xs)]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    if len(xs) == 1:
        return xs[0].copy()
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    ax = axis if axis >= 0 else axis + nd
    dt = xs[0].dtype
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        dt = promote(dt, x.dtype)
        for d in range(nd):
            if d != ax and not same_dim(x.shape[d], xs[0].shape[d]):
                c.oblige('the arrays concatenated have the same shape', Zi(x.shape[d]) == Zi(xs[0].shape[d]))
    fs = [(lambda g: lambda *i: A.cast_term(g(*i), dt))(x.snap()) for x in xs]
    offs, tot = [], 0
    for x in xs:
        offs.append(tot)
        tot = tot + x.shape[ax]

    def fn(*idx):
        i = idx[ax]
        r = None
        for m in range(len(xs) - 1, -1, -1):
            j = list(idx)
            j[ax] = i - Zi(offs[m]) if m else i
            v = fs[m](*j)
            r = v if r is None else z3.If(i < Zi(offs[m]) + Zi(xs[m].shape[ax]), v, r)
        return r
    shape = list(xs[0].shape)
    shape[ax] = tot
    r = Arr(shape, fn, dt)
    if nd == 1:
        r.facts['parts'] = [(offs[m], xs[m].shape[0], fs[m]) for m in range(len(xs))]
    return r


def concat_sym(xs):
    """concatenation of a symbolic list of arrays along the first dimension"""
    c = ctx()
    n = xs.n
    c.oblige('at least one array to concatenate', Zi(n) > 0)
    probe = xs.fn(z3.Int('%k'))
    if not isinstance(probe, Arr):
        raise Unsupported('concatenation of something else than arrays')
    ln = lambda k: Zi(xs.fn(k).shape[0])
    off = xs.off
    if off is None:
        raise Unsupported('concatenation of a list of unknown offsets')
    off0 = off
    offf = fresh_fun('offset', I, I)
    q = bound(1)[0]
    c.assume(fa([q], offf(q) == off0(q), offf(q)))
    off = lambda k: offf(k)
    piece = fresh_fun('piece', I, I)
    tot = off(Zi(n))
    c.assume(tot >= 0)
    i, m = bound(2)
    # offsets are monotone
    c.assume(fa([m], z3.Implies(z3.And(m >= 0, m <= Zi(n)), z3.And(off(m) >= 0, off(m) <= tot)), off(m)))
    body = z3.Implies(z3.And(i >= 0, i < tot), z3.And(piece(i) >= 0, piece(i) < Zi(n), off(piece(i)) <= i, i < off(piece(i) + 1),
                                                    off(piece(i) + 1) == off(piece(i)) + ln(piece(i))))
    c.assume(fa([i], body, piece(i)))
    first = xs.fn(z3.IntVal(0))
    for d in range(1, probe.ndim):
        if not isinstance(probe.shape[d], int):
            k = bound(1)[0]
            c.oblige('the arrays concatenated have the same shape', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Zi(n)), Zi(xs.fn(k).shape[d]) == Zi(first.shape[d]))))
    r = Arr((num(tot),) + tuple(first.shape[1:]), lambda i, *j: xs.fn(piece(i)).at(i - off(piece(i)), *j), probe.dtype)
    r.facts['pieces'] = (piece, off)
    return r


def np_column_stack(xs):
    xs = [arr_of(x) for x in xs]
    cols = []
    for x in xs:
        cols.append(x.reshape(x.shape[0], 1) if x.ndim == 1 else x)
    r = np_concatenate(cols, axis=1)
    r.facts['columns'] = xs
    return r


def np_hstack(xs):
    xs = [arr_of(x) for x in xs]
    return np_concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def np_vstack(xs):
    xs = [arr_of(x) for x in xs]
    xs = [x.reshape(1, x.shape[0]) if x.ndim == 1 else x for x in xs]
    return np_concatenate(xs, axis=0)


def np_reshape(a, shape):
    return arr_of(a).reshape(shape)


def np_transpose(a, axes=None):
    return a.transpose(*(axes or ()))


def np_copy(a):
    return arr_of(a).copy()


def np_tile(a, reps):
    a = arr_of(a)
    if isinstance(reps, (tuple, list, VList)):
        reps = tuple(reps)
        if a.ndim == 0 and len(reps) == 2 and isinstance(reps[1], int) and reps[1] == 1:
            f = a.snap()
            return Arr((reps[0], 1), lambda i, j: f(), a.dtype)
        if a.ndim == 1 and len(reps) == 2 and isinstance(reps[1], int) and reps[1] == 1:
            f = a.snap()
            return Arr((reps[0], a.shape[0]), lambda i, j: f(j), a.dtype)
        raise Unsupported('tile')
    f = a.snap()
    n = a.shape[0]
    return Arr((n * reps,), lambda i: f(i % Zi(n)), a.dtype)


def np_repeat(a, k, axis=None):
    a = arr_of(a)
    if a.ndim > 1 or isinstance(k, Arr):
        raise Unsupported('repeat')
    f = a.snap()
    return Arr((a.shape[0] * k,), lambda i: f(i / Zi(k)), a.dtype)


def np_expand_dims(a, axis):
    shape = list(a.shape)
    shape.insert(axis, 1)
    f = a.snap()
    return Arr(shape, lambda *i: f(*(i[:axis] + i[axis + 1:])), a.dtype)


def np_squeeze(a):
    keep = [d for d, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
    f = a.snap()

    def fn(*i):
        j = [z3.IntVal(0)] * a.ndim
        for d, x in zip(keep, i):
            j[d] = x
        return f(*j)
    return Arr([a.shape[d] for d in keep], fn, a.dtype)


def np_dot(a, b):
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return a * b
    f, g = a.snap(), b.snap()
    if not same_dim(a.shape[-1], b.shape[0]):
        ctx().oblige('the inner dimensions agree', Zi(a.shape[-1]) == Zi(b.shape[0]))
    n = a.shape[-1]
    k = z3.Int('%k')
    if a.ndim == 2 and b.ndim == 2:
        return Arr((a.shape[0], b.shape[1]), lambda i, j: partial_sum(z3.simplify(f(i, k) * g(k, j), som=True), k, (i, j))(Zi(n)), FLOAT64)
    if a.ndim == 2 and b.ndim == 1:
        return Arr((a.shape[0],), lambda i: partial_sum(z3.simplify(f(i, k) * g(k), som=True), k, (i,))(Zi(n)), FLOAT64)
    if a.ndim == 1 and b.ndim == 1:
        return wrap(sum_term(lambda k: f(k) * g(k), n))
    raise Unsupported('dot')


def np_outer(a, b):
    f, g = a.snap(), b.snap()
    dt = promote(a.dtype, b.dtype)
    return Arr((a.shape[0], b.shape[0]), lambda i, j: f(i) * g(j), dt)


def np_cumsum(a, **k):
    a = arr_of(a)
    f = a.snap()
    k = z3.Int('%k')
    S = partial_sum(z3.simplify(f(k)), k)
    return Arr((a.shape[0],), lambda i: S(i + 1), INT64 if a.dtype.is_int else a.dtype)


def np_diff(a, n=1, axis=-1, **kw):
    a = arr_of(a)
    if not (isinstance(n, int) and n == 1) or a.ndim != 1 or kw:
        raise Unsupported('diff')
    f, dt, m = a.snap(), a.dtype, Zi(a.shape[0])
    if dt.kind == 'b':
        g = lambda i: f(i + 1) != f(i)
    elif dt.kind == 'u' and not dt.exact():
        g = lambda i: z3.If(f(i + 1) >= f(i), f(i + 1) - f(i), f(i + 1) - f(i) + Zi(dt.maxv) + 1)      # modulo 2**bits
    elif dt.is_int and not dt.exact():
        def g(i):
            d = f(i + 1) - f(i)
            return z3.If(d > Zi(dt.maxv), d - 2 * Zi(dt.maxv) - 2, z3.If(d < Zi(dt.minv), d + 2 * Zi(dt.maxv) + 2, d))
    else:
        g = lambda i: f(i + 1) - f(i)
    return Arr((wrap(z3.If(m > 0, m - 1, 0)),), g, dt)


def np_isin(a, b, **k):
    a, b = arr_of(a), arr_of(b)
    g = b.snap()

    def f(x):
        q = bound(1)[0]
        return z3.Exists([q], z3.And(q >= 0, q < Zi(b.shape[0]), g(q) == x))
    return emap(f, [a], BOOL)


def np_array_equal(a, b):
    a, b = arr_of(a), arr_of(b)
    f, g = a.snap(), b.snap()
    return sbool(z3.And(*[Zi(s) == Zi(t) for s, t in zip(a.shape, b.shape)] + [forall_idx(a.shape, lambda *i: f(*i) == g(*i))]))


# ------------------------------------------------------------ random

class Random(object):
    def rand(self, *shape):
        if shape:
            f = fresh_arr('rand', shape, FLOAT64)
            ctx().assume(forall_idx(shape, lambda *i: z3.And(f.at(*i) >= 0, f.at(*i) < 1)))
            return f
        r = fresh_real('rand')
        ctx().assume(z3.And(r.e >= 0, r.e < 1))
        return r
    random = random_sample = rand

    def randint(self, lo, hi=None, size=None, **k):
        if hi is None:
            lo, hi = 0, lo
        c = ctx()
        c.oblige('non empty interval for randint', Zi(lo) < Zi(hi))
        if size is None:
            r = fresh_int('randint', lo)
            c.assume(r < hi)
            return r
        sh = _dims(_shape(size))
        f = fresh_arr('randint', sh, INT64)
        c.assume(forall_idx(sh, lambda *i: z3.And(f.at(*i) >= Zi(lo), f.at(*i) < Zi(hi))))
        return f

    def permutation(self, n):
        if isinstance(n, Arr):
            return n[self.permutation(n.shape[0])]
        c = ctx()
        p, q = fresh_fun('perm', I, I), fresh_fun('perm.inv', I, I)
        i = bound(1)[0]
        rng = lambda x: z3.And(x >= 0, x < Zi(n))
        c.assume(fa([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), p(i)))
        c.assume(fa([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), q(i)))
        return Arr((n,), lambda i: p(i), INT64)

    def seed(self, *a):
        pass

    def choice(self, a, size=None, replace=True, p=None):
        if replace or p is not None:
            raise Unsupported('random.choice')
        if isinstance(a, Arr):
            return a[self.choice(a.shape[0], size, False)]
        ctx().oblige('sample not larger than the population', Zi(size) <= Zi(a))
        return self.permutation(a)[:size]

    def __getattr__(self, n):
        raise Unsupported('numpy.random.' + n)


def np_load(*a, **k):
    raise Unsupported('numpy.load')


class FInfo(object):
    def __init__(self, t):
        self.eps = 2.0 ** -52
        self.max = 1.7976931348623157e308
        self.tiny = 2.0 ** -1022


class IInfo(object):
    def __init__(self, t):
        t = as_dt(t)
        self.max, self.min, self.bits = t.maxv, t.minv, t.bits


class NDArrayType(object):
    __name__ = 'ndarray'


class NP(object):
    """what 'import numpy' gives"""
    ndarray = NDArrayType
    int8, int16, int32, int64 = A.INT8, A.INT16, A.INT32, A.INT64
    uint8, uint16, uint32, uint64 = A.UINT8, A.UINT16, A.UINT32, A.UINT64
    float64, float32 = A.FLOAT64, A.FLOAT32
    float_, double, intp, int_ = A.FLOAT64, A.FLOAT64, A.INT64, A.INT64
    bool_ = A.BOOL
    object_ = A.OBJ
    newaxis = None
    inf = Inf = float('inf')
    nan = float('nan')
    pi = math.pi
    e = math.e
    finfo, iinfo = FInfo, IInfo
    random = Random()

    def __init__(self):
        from . import shims
        self.float = shims.vfloat
        self.int = shims.vint
        self.bool = A.BOOL
        self.object = A.OBJ

    void = 'void'

    def dtype(self, t):
        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'void':
            return A.VoidDT(t[1])
        return as_dt(t)

    def errstate(self, **k):
        return Null()

    def seterr(self, **k):
        return {}

    def isscalar(self, x):
        return isinstance(x, (int, float, SNum, SBool, str, SLab))

    def ascontiguousarray(self, a, dtype=None):
        return np_array(a, dtype, copy=False)
    asarray = asanyarray = ascontiguousarray

    def zeros_like(self, a, dtype=None):
        return np_zeros(a.shape, dtype or a.dtype)

    def empty_like(self, a, dtype=None):
        return np_empty(a.shape, dtype or a.dtype)

    def ones_like(self, a, dtype=None):
        return np_ones(a.shape, dtype or a.dtype)

    def size(self, a, axis=None):
        a = arr_of(a)
        return a.size if axis is None else a.shape[axis]

    def shape(self, a):
        return a.shape

    def ravel(self, a):
        return a.ravel()

    def result_type(self, *a):
        t = as_dt(getattr(a[0], 'dtype', a[0]))
        for x in a[1:]:
            t = promote(t, as_dt(getattr(x, 'dtype', x)))
        return t
    promote_types = result_type

    def __getattr__(self, n):
        g = globals()
        if 'np_' + n in g:
            return g['np_' + n]
        alias = {'abs': 'np_absolute', 'amax': 'np_max', 'amin': 'np_min', 'in1d': 'np_isin', 'product': 'np_prod',
                 'true_divide': 'np_divide', 'remainder': 'np_mod', 'around': 'np_round', 'rint': 'np_round'}
        if n in alias:
            return g[alias[n]]
        raise Unsupported('numpy.' + n)


class Null(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
