"""Symbolic numpy arrays (any symbolic shape) and integer types."""
import math
import z3
from . import core
from .core import (ctx, SNum, SBool, SLab, Z, Zi, Zr, Zb, num, wrap, sbool, forall,
                   fresh_int, fresh_fun, bound, Unsupported, And, Or, Not, Implies, If,
                   is_sym, Lab, sort_of, coerce, try_num)


# ------------------------------------------------------------------ dtypes

class DT(object):
    """a numpy type: kind 'i', 'u', 'f', 'b' or 'O'; maxv may be symbolic"""

    def __init__(self, kind, bits, minv=None, maxv=None, name=None, itemsize=None):
        self.kind, self.bits = kind, bits
        self.minv, self.maxv = minv, maxv
        self.name = name or '%s%s' % (kind, bits)
        self._itemsize = itemsize if itemsize is not None else (bits // 8 if bits else None)
        self.__name__ = self.name

    @property
    def itemsize(self):
        return self._itemsize

    @property
    def type(self):
        return self

    @property
    def char(self):
        return self.kind

    def __repr__(self):
        return 'DT(%s)' % self.name

    def __eq__(self, o):
        o = as_dt(o, strict=False)
        if o is None:
            return False
        if self is o:
            return True
        if self.bits is None or o.bits is None:
            if self.kind == o.kind and self.bits is None and o.bits is None:
                return sbool(Z(self.maxv) == Z(o.maxv))
            if self.kind != o.kind:
                return False
            return sbool(Z(self.maxv) == Z(o.maxv))
        return self.kind == o.kind and self.bits == o.bits

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash((self.kind, self.bits))

    @property
    def is_int(self):
        return self.kind in 'iu'

    def exact(self):
        """machine arithmetic of this type is treated as mathematical"""
        return (self.kind == 'i' and self.bits == 64) or self.kind in 'fbO'

    def __call__(self, x=0):
        if isinstance(x, Arr):
            return x.astype(self)
        if isinstance(x, (list, tuple)) or hasattr(x, '__vc_list__'):
            from . import symnp
            return symnp.np_array(x).astype(self)
        return cast_scalar(x, self)


def _mk(kind, bits):
    if kind == 'i':
        return DT('i', bits, -2 ** (bits - 1), 2 ** (bits - 1) - 1, 'int%d' % bits)
    if kind == 'u':
        return DT('u', bits, 0, 2 ** bits - 1, 'uint%d' % bits)
    return DT(kind, bits, name={'f': 'float%d', 'b': 'bool%d'}[kind] % bits)


INT8, INT16, INT32, INT64 = [_mk('i', b) for b in (8, 16, 32, 64)]
UINT8, UINT16, UINT32, UINT64 = [_mk('u', b) for b in (8, 16, 32, 64)]
FLOAT64, FLOAT32 = _mk('f', 64), _mk('f', 32)
core.NPFLOAT[0] = FLOAT64
BOOL = DT('b', 8, name='bool')
OBJ = DT('O', 64, name='object')
PYINT = DT('i', 64, -2 ** 63, 2 ** 63 - 1, 'object')      # arrays of Python integers
ALL_INT = {('i', 8): INT8, ('i', 16): INT16, ('i', 32): INT32, ('i', 64): INT64,
           ('u', 8): UINT8, ('u', 16): UINT16, ('u', 32): UINT32, ('u', 64): UINT64}


def symbolic_uint(name='utype'):
    """one of the unsigned types, unknown"""
    m = fresh_int(name + '.max')
    s = fresh_int(name + '.bytes')
    ctx().assume(Or(*[And(m == 2 ** (8 * b) - 1, s == b) for b in (1, 2, 4, 8)]))
    return DT('u', None, 0, m, name, itemsize=s)


def symbolic_int(name='itype'):
    m = fresh_int(name + '.max')
    s = fresh_int(name + '.bytes')
    ctx().assume(Or(*[And(m == 2 ** (8 * b - 1) - 1, s == b) for b in (1, 2, 4, 8)]))
    return DT('i', None, -m - 1, m, name, itemsize=s)


class VoidDT(object):
    def __init__(self, n):
        self.itemsize = n


class Opaque(object):
    """bytes of an array: not modelled"""
    def __getattr__(self, n):
        if n.startswith(('__', 'vc_')):
            raise AttributeError(n)
        raise Unsupported('raw bytes of an array')


def as_dt(t, strict=True):
    if isinstance(t, DT):
        return t
    if t is None or t is float:
        return FLOAT64
    if t is int:
        return INT64
    if t is bool:
        return BOOL
    if t is object or t is str:
        return OBJ
    if getattr(t, '__vc_dtype__', None) is not None:
        return t.__vc_dtype__
    if strict:
        raise Unsupported('dtype %r' % (t,))
    return None


def in_range(dt, e):
    if not dt.is_int:
        return z3.BoolVal(True)
    return z3.And(e >= Zi(dt.minv), e <= Zi(dt.maxv))


def cast_term(e, dt):
    """value of e in type dt (assuming that it fits)"""
    k = dt.kind
    if k in 'iu':
        if e.sort() == z3.BoolSort():
            return z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if e.sort() == z3.RealSort():
            s = z3.simplify(e)
            if s.num_args() == 1 and s.decl().kind() == z3.Z3_OP_TO_REAL:
                return s.arg(0)
            return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        return e
    if k == 'f':
        return Zr(e)
    if k == 'b':
        return Zb(wrap(e)) if e.sort() != z3.BoolSort() else e
    return e


ROUND = z3.Function('rounded_to_float', z3.IntSort(), z3.RealSort())


def to_float(e, src, dt):
    """a float holds the integers up to 2**53 (2**24): what happens beyond is not known"""
    lim = 2 ** (24 if dt.bits == 32 else 53)
    if e.sort() != z3.IntSort() or z3.is_int_value(e) and abs(e.as_long()) <= lim:
        return cast_term(e, dt)
    if isinstance(src.maxv, int) and src.maxv <= lim or ctx().quick(Zi(src.maxv) <= lim):
        return cast_term(e, dt)
    return z3.If(z3.And(e <= lim, e >= -lim), z3.ToReal(e), ROUND(e))


def cast_scalar(x, dt):
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        if dt.kind == 'f':
            return x
        raise Unsupported('conversion of an infinite value')
    if hasattr(x, '__vc_scalar__'):
        x = x.__vc_scalar__()
    e = Z(x)
    r = cast_term(e, dt)
    if dt.is_int and not dt.exact():
        ctx().oblige('the value fits in its type', in_range(dt, r))
    if not is_sym(x) and dt.kind == 'f' and isinstance(x, (int, float)):
        return float(x) if abs(x) < 2 ** 53 else wrap(r, dt)
    if dt.kind == 'f':
        return SNum(r, dt)
    w = wrap(r, dt)
    return w


def promote(a, b):
    """type of an operation between two arrays"""
    if a is b or (a.bits is not None and b.bits is not None and a.kind == b.kind and a.bits == b.bits):
        return a
    if a.kind == 'O' or b.kind == 'O':
        return OBJ
    if a.kind == 'f' or b.kind == 'f':
        return FLOAT64
    if a.kind == 'b':
        return b
    if b.kind == 'b':
        return a
    if a.kind == b.kind:
        if a.bits is not None and b.bits is not None:
            return a if a.bits >= b.bits else b
        m = If(Z(a.maxv) >= Z(b.maxv), a.maxv, b.maxv)
        return DT(a.kind, None, 0 if a.kind == 'u' else -m - 1, m, 'promoted')
    u, i = (a, b) if a.kind == 'u' else (b, a)
    if u.bits is None:
        if i.bits == 64:
            # uint64 with int64 gives a float64: the exactness is lost
            if ctx().quick(Zi(u.maxv) < 2 ** 63):
                return INT64
            return FLOAT64
        raise Unsupported('mixed signed and unsigned types')
    if i.bits is None:
        raise Unsupported('mixed signed and unsigned types')
    if u.bits < i.bits:
        return i
    if u.bits == 64:
        return FLOAT64
    return ALL_INT['i', 2 * u.bits]


def promote_scalar(a, s):
    """type of array(a) op scalar s (value based casting of numpy < 2)"""
    if isinstance(s, bool) or isinstance(s, SBool):
        return a
    e = Z(s)
    if a.kind == 'O':
        return a
    if e.sort() == z3.RealSort():
        return a if a.kind == 'f' else FLOAT64
    if a.kind == 'f':
        return a
    if a.kind == 'b':
        return INT64
    if a.exact():
        return a
    if isinstance(s, int):
        if s >= 0:
            if a.bits is not None:
                b = a.bits
                while s > ALL_INT[a.kind, b].maxv:
                    if b == 64:
                        return FLOAT64
                    b *= 2
                return ALL_INT[a.kind, b]
            if ctx().quick(Zi(a.maxv) >= s):
                return a
        elif a.kind == 'i' and a.bits is not None:
            b = a.bits
            while s < ALL_INT['i', b].minv and b < 64:
                b *= 2
            return ALL_INT['i', b]
        elif a.kind == 'u':
            if a.bits is not None and a.bits < 64:
                return ALL_INT['i', 2 * a.bits]
            raise Unsupported('unsigned array with a negative number')
    # a larger type is taken when the scalar does not fit
    if not ctx().quick(e >= 0):
        raise Unsupported('integer array with a number of unknown sign')
    m = fresh_int('opmax')
    ctx().assume(And(m >= a.maxv, m >= wrap(e)))
    ctx().assume(Implies(SNum(e) <= a.maxv, m == a.maxv))
    return DT(a.kind, None, 0 if a.kind == 'u' else -m - 1, m, 'promoted')


# ------------------------------------------------------------------ arrays

class Storage(object):
    _n = [0]

    def __init__(self, fn, shape, kind, name=None):
        self.fn = fn
        self.shape = tuple(shape)
        self.kind = kind
        self.id = ctx().register(self, 'st')
        self.name = name
        self.frozen = False
        self.foreign = False     # stands for memory shared with something else

    def write(self, fn):
        if self.foreign:
            raise Unsupported('write through an array rebound in a loop')
        ctx().wrote(self.id)
        self.fn = fn

    def vc_havoc(self, info=None):
        f = fresh_fun('hv', *([z3.IntSort()] * len(self.shape) + [sort_of(self.kind)]))
        self.fn = lambda *i: f(*i)
        dt = getattr(self, 'dtype', None)
        if dt is not None and dt.is_int:
            ctx().assume(forall_idx(self.shape, lambda *i: in_range(dt, f(*i))))

    def vc_kind(self):
        return None


def dim(x):
    """normalized dimension"""
    if isinstance(x, SNum):
        return num(x.e)
    if isinstance(x, z3.ExprRef):
        return num(x)
    return x


def same_dim(a, b):
    a, b = dim(a), dim(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.is_true(z3.simplify(Zi(a) == Zi(b)))


class Arr(object):
    __vc_arr__ = True
    __array_priority__ = 2000

    def __init__(self, shape, fn=None, dtype=None, storage=None, maps=None, name=None):
        self.shape = tuple(dim(s) for s in shape)
        self.dtype = dtype if dtype is not None else FLOAT64
        if storage is None:
            storage = Storage(fn, self.shape, self.dtype.kind, name)
            storage.dtype = self.dtype
            maps = [('rng', 0, 1, d) for d in range(len(self.shape))]
        self.st = storage
        self.maps = maps
        self.inv = None
        self.facts = {}

    # ---- access
    @property
    def ndim(self):
        return len(self.shape)

    def __vclen__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    def _sidx(self, idx):
        out = []
        for m in self.maps:
            if m[0] == 'fix':
                out.append(Zi(m[1]))
            else:
                _, off, step, d = m
                i = idx[d]
                if step != 1:
                    i = i * step
                if not (isinstance(off, int) and off == 0):
                    i = i + Zi(off)
                out.append(i)
        return tuple(out)

    def at(self, *idx):
        """element at z3 indices (no check)"""
        return self.st.fn(*self._sidx(tuple(Zi(i) for i in idx)))

    def snap(self):
        """pure function of the current content"""
        fn, f = self.st.fn, self._sidx
        return lambda *idx: fn(*f(tuple(Zi(i) for i in idx)))

    def copy(self, *a):
        r = Arr(self.shape, self.snap(), self.dtype)
        r.inv = self.inv
        r.facts = dict(self.facts)
        return r

    def __repr__(self):
        return 'Arr%s' % (self.shape,)

    def __hash__(self):
        return id(self)

    def __vc_scalar__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return wrap(self.at(*([0] * len(self.shape))), self.dtype)
        raise Unsupported('array used as a number')

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(self.__vc_scalar__())
        raise Unsupported('truth value of an array')

    def __index__(self):
        return self.__vc_scalar__().__index__()

    def __iter__(self):
        if isinstance(self.shape[0], int):
            return iter([self[i] for i in range(self.shape[0])])
        raise Unsupported('iteration over an array of symbolic length outside of a loop')

    def __vc_iter__(self):
        """(length, element function) for the loops"""
        return self.shape[0], lambda i: self[i] if self.ndim > 1 else wrap(self.at(i), self.dtype)

    # ---- indexing
    def _norm_index(self, i, n, what='index'):
        e = Zi(i)
        c = ctx()
        if isinstance(i, int):
            if i < 0:
                e = z3.simplify(Zi(n) + i)
            c.oblige('%s within bounds' % what, z3.And(e >= 0, e < Zi(n)))
            return e
        if c.spec:
            return e
        if c.quick(e >= 0):
            c.oblige('%s within bounds' % what, e < Zi(n))
            return e
        c.oblige('%s within bounds' % what, z3.And(e >= -Zi(n), e < Zi(n)))
        return z3.If(e < 0, e + Zi(n), e)

    def _norm_slice(self, s, n):
        """-> start term, length, step"""
        c = ctx()
        st = 1 if s.step is None else s.step
        if isinstance(st, SNum):
            raise Unsupported('symbolic step')
        if st == -1 and s.start is None and s.stop is None:
            return num(Zi(n) - 1), n, -1
        if st != 1:
            if s.start is None and s.stop is None and st > 0:
                return 0, num((Zi(n) + (st - 1)) / st), st
            raise Unsupported('slice with a step')

        def clamp(v, default):
            if v is None:
                return default
            if hasattr(v, '__vc_scalar__'):
                v = v.__vc_scalar__()
            e = Zi(v)
            if isinstance(v, int) and v < 0:
                e = Zi(n) + v
                if c.quick(e >= 0):
                    return num(e)
                return num(z3.If(e >= 0, e, z3.IntVal(0)))
            if c.quick(z3.And(e >= 0, e <= Zi(n))):
                return num(e)
            if c.quick(e >= 0):
                return num(z3.If(e <= Zi(n), e, Zi(n)))
            e = z3.If(e < 0, e + Zi(n), e)
            return num(z3.If(e < 0, z3.IntVal(0), z3.If(e > Zi(n), Zi(n), e)))
        a = clamp(s.start, 0)
        b = clamp(s.stop, dim(n))
        d = z3.simplify(Zi(b) - Zi(a))
        if not c.quick(d >= 0):
            d = z3.If(d >= 0, d, z3.IntVal(0))
        return a, num(d), 1

    def _full_index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_real = len([k for k in key if k is not None and k is not Ellipsis])
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - n_real)
        else:
            key += [slice(None)] * (self.ndim - n_real)
        if len([k for k in key if k is not None]) != self.ndim:
            raise IndexError('too many indices for array')
        return key

    def __getitem__(self, key):
        if isinstance(key, Arr) and key.dtype.kind == 'b':
            if key.ndim != 1:
                raise Unsupported('mask of several dimensions')
            from . import symnp
            ctx().oblige('mask of the right length', Zi(key.shape[0]) == Zi(self.shape[0]))
            key = symnp.np_where(key)[0]
        key = self._full_index(key)
        key = [k if not (isinstance(k, list)) else _aslist(k) for k in key]
        if any(isinstance(k, Arr) and k.ndim == 0 for k in key):
            key = [k.__vc_scalar__() if isinstance(k, Arr) and k.ndim == 0 else k for k in key]
        fancy = [k for k in key if isinstance(k, Arr)]
        if not fancy:
            view = {}
            shape = []
            d = 0
            for k in key:
                if k is None:
                    shape.append(1)
                    continue
                if isinstance(k, slice):
                    a, ln, st = self._norm_slice(k, self.shape[d])
                    view[d] = ('s', a, st, len(shape))
                    shape.append(ln)
                else:
                    view[d] = ('i', self._norm_index(k, self.shape[d]))
                d += 1
            maps = []
            for m in self.maps:
                if m[0] == 'fix':
                    maps.append(m)
                    continue
                _, off, step, dd = m
                v = view[dd]
                if v[0] == 'i':
                    maps.append(('fix', num(Zi(off) + step * v[1])))
                else:
                    maps.append(('rng', num(Zi(off) + step * Zi(v[1])), step * v[2], v[3]))
            if not shape:
                r = Arr((), dtype=self.dtype, storage=self.st, maps=maps)
                return wrap(r.at(), self.dtype)
            return Arr(shape, dtype=self.dtype, storage=self.st, maps=maps)
        # fancy: one index array (others slices or integers, or arrays of the same shape)
        return self._gather(key)

    def _gather(self, key):
        c = ctx()
        src = self.snap()
        shape = []
        plan = []
        fshape = None
        fpos = None
        for d, k in enumerate(key):
            if k is None:
                raise Unsupported('newaxis with an index array')
            if isinstance(k, Arr):
                if k.dtype.kind == 'b':
                    from . import symnp
                    c.oblige('mask of the right length', Zi(k.shape[0]) == Zi(self.shape[d]))
                    k = symnp.np_where(k)[0]
                if not k.dtype.is_int:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
                f = k.snap()
                n = self.shape[d]
                neg = False
                q = forall_idx(k.shape, lambda *i: f(*i) >= 0)
                if not k.facts.get('nonneg') and not c.quick(q):
                    neg = True
                c.oblige('indices within bounds', forall_idx(
                    k.shape, lambda *i: z3.And(f(*i) >= (-Zi(n) if neg else 0), f(*i) < Zi(n))))
                g = (lambda f, n: lambda *i: z3.If(f(*i) < 0, f(*i) + Zi(n), f(*i)))(f, n) if neg else f
                if fshape is None:
                    fshape, fpos = k.shape, len(shape)
                    shape.extend(k.shape)
                else:
                    for s, t in zip(fshape, k.shape):
                        c.oblige('index arrays of the same shape', Zi(s) == Zi(t))
                plan.append(('a', g))
            elif isinstance(k, slice):
                a, ln, st = self._norm_slice(k, n=self.shape[d])
                plan.append(('s', a, st, len(shape)))
                shape.append(ln)
            else:
                plan.append(('i', self._norm_index(k, self.shape[d])))
        nf = len(fshape)

        def fn(*idx):
            out = []
            for p in plan:
                if p[0] == 'a':
                    out.append(p[1](*idx[fpos:fpos + nf]))
                elif p[0] == 's':
                    i = idx[p[3]]
                    out.append(Zi(p[1]) + p[2] * i if not (isinstance(p[1], int) and p[1] == 0 and p[2] == 1) else i)
                else:
                    out.append(p[1])
            return src(*out)
        r = Arr(shape, fn, self.dtype)
        if self.ndim == 1 and len(shape) == 1:
            r.facts['gather'] = (self, src, plan[0][1])
        elif len(plan) == 2 and plan[0][0] == 'a' and len(shape) == 2 and plan[1][0] == 's':
            r.facts['rows'] = (self, plan[0][1])
        return r

    def __setitem__(self, key, value):
        c = ctx()
        if isinstance(key, Arr) and key.dtype.kind == 'b' and key.ndim == self.ndim:
            mask = key.snap()
            old = self.snap()
            if isinstance(value, Arr):
                raise Unsupported('assignment of an array through a mask')
            v = self._convert_scalar(value)
            self._assign_all(lambda *i: z3.If(mask(*i), v, old(*i)))
            return
        key = self._full_index(key)
        key = [k.__vc_scalar__() if isinstance(k, Arr) and k.ndim == 0 else (_aslist(k) if isinstance(k, list) else k) for k in key]
        if any(isinstance(k, Arr) for k in key):
            return self._scatter(key, value)
        # region of the view
        dims = []
        vshape = []
        d = 0
        for k in key:
            if k is None:
                raise Unsupported('newaxis in an assignment')
            if isinstance(k, slice):
                a, ln, st = self._norm_slice(k, self.shape[d])
                if st != 1:
                    raise Unsupported('assignment to a slice with a step')
                dims.append(('s', a, ln, len(vshape)))
                vshape.append(ln)
            else:
                dims.append(('i', self._norm_index(k, self.shape[d])))
            d += 1
        val = self._value(value, vshape)
        old = self.snap()

        def fn(*idx):
            cond, vi = [], [None] * len(vshape)
            for dd, (i, m) in enumerate(zip(idx, dims)):
                if m[0] == 'i':
                    cond.append(i == m[1])
                else:
                    if not (isinstance(m[1], int) and m[1] == 0):
                        cond.append(i >= Zi(m[1]))
                        cond.append(i < Zi(m[1]) + Zi(m[2]))
                        vi[m[3]] = i - Zi(m[1])
                    else:
                        vi[m[3]] = i
                        if not same_dim(m[2], self.shape[dd]):
                            cond.append(i < Zi(m[2]))
            v = val(*vi)
            if not cond:
                return v
            return z3.If(z3.And(*cond), v, old(*idx))
        self._assign_all(fn)

    def _convert_scalar(self, value):
        if isinstance(value, float) and (math.isinf(value) or math.isnan(value)):
            raise Unsupported('an infinite value is stored in an array')
        if hasattr(value, '__vc_scalar__'):
            value = value.__vc_scalar__()
        e = Z(value)
        r = cast_term(e, self.dtype)
        if self.dtype.is_int and not self.dtype.exact():
            ctx().oblige('the stored value fits in its type', in_range(self.dtype, r))
        return r

    def _value(self, value, vshape):
        """function of the indices of the assigned region"""
        c = ctx()
        if isinstance(value, (list, tuple)) or hasattr(value, '__vc_list__'):
            from . import symnp
            value = symnp.np_array(value)
        if not isinstance(value, Arr):
            v = self._convert_scalar(value)
            return lambda *i: v
        f = value.snap()
        vs = list(value.shape)
        while len(vs) > len(vshape) and isinstance(vs[0], int) and vs[0] == 1:
            vs = vs[1:]
            f = (lambda g: lambda *i: g(0, *i))(f)
        if len(vs) > len(vshape):
            raise Unsupported('assignment of an array with more dimensions')
        off = len(vshape) - len(vs)
        bc = []
        for s, t in zip(vs, vshape[off:]):
            if isinstance(s, int) and s == 1 and not same_dim(s, t):
                bc.append(True)
            else:
                bc.append(False)
                if not same_dim(s, t):
                    c.oblige('shapes agree in an assignment', Zi(s) == Zi(t))
        dt = self.dtype
        if dt.is_int and not dt.exact() and value.dtype is not dt:
            c.oblige('the stored values fit in their type', forall_idx(value.shape, lambda *i: in_range(dt, cast_term(value.at(*i), dt))))

        def g(*i):
            j = [z3.IntVal(0) if b else k for b, k in zip(bc, i[off:])]
            return cast_term(f(*j), dt)
        return g

    def _assign_all(self, fn):
        """fn gives the new content of the view; the rest of the storage is kept"""
        st, maps = self.st, self.maps
        if len(maps) == self.ndim and all(m[0] == 'rng' and isinstance(m[1], int) and m[1] == 0 and m[2] == 1 and m[3] == d and
                                          same_dim(s, t) for d, (m, s, t) in enumerate(zip(maps, self.shape, st.shape))):
            st.write(fn)
            return
        old = st.fn
        shape = self.shape

        def new(*sidx):
            cond, vi = [], [z3.IntVal(0)] * len(shape)
            for i, m in zip(sidx, maps):
                if m[0] == 'fix':
                    cond.append(i == Zi(m[1]))
                else:
                    _, off, step, d = m
                    if step not in (1, -1):
                        raise Unsupported('assignment through a strided view')
                    j = (i - Zi(off)) * step
                    vi[d] = j
                    cond.append(z3.And(j >= 0, j < Zi(shape[d])))
            return z3.If(z3.And(*cond), fn(*vi), old(*sidx))
        st.write(new)

    def _scatter(self, key, value):
        c = ctx()
        pos = [d for d, k in enumerate(key) if isinstance(k, Arr)]
        if len(pos) != 1:
            raise Unsupported('assignment through several index arrays')
        p = pos[0]
        k = key[p]
        if k.ndim != 1:
            raise Unsupported('assignment through a matrix of indices')
        if k.dtype.kind == 'b':
            # mask over one dimension
            mask = k.snap()
            c.oblige('mask of the right length', Zi(k.shape[0]) == Zi(self.shape[p]))
            old = self.snap()
            if isinstance(value, Arr):
                raise Unsupported('assignment of an array through a mask')
            v = self._convert_scalar(value)
            rest = []
            for d, kk in enumerate(key):
                if d == p:
                    continue
                if isinstance(kk, slice):
                    if not (kk.start is None and kk.stop is None and kk.step is None):
                        raise Unsupported('mask and slice')
                else:
                    rest.append((d, self._norm_index(kk, self.shape[d])))
            self._assign_all(lambda *i: z3.If(z3.And(mask(i[p]), *[i[d] == e for d, e in rest]), v, old(*i)))
            return
        f = k.snap()
        n = self.shape[p]
        m = k.shape[0]
        c.oblige('indices within bounds', forall_idx((m,), lambda j: z3.And(f(j) >= 0, f(j) < Zi(n))))
        vshape = []
        fixed = {}
        for d, kk in enumerate(key):
            if d == p:
                vshape.append(m)
            elif isinstance(kk, slice):
                if not (kk.start is None and kk.stop is None and kk.step is None):
                    raise Unsupported('index array and partial slice in an assignment')
                vshape.append(self.shape[d])
            else:
                fixed[d] = self._norm_index(kk, self.shape[d])
        val = self._value(value, vshape)
        if not isinstance(value, Arr):
            pass
        else:
            c.oblige('the indices assigned are distinct', forall([(0, m), (0, m)], lambda a, b: z3.Implies(
                a.e < b.e, f(a.e) != f(b.e))))
        old = self.snap()
        srt = sort_of(self.dtype.kind)
        new = fresh_fun('scatter', *([z3.IntSort()] * self.ndim + [srt]))
        inv = fresh_fun('scatter.inv', z3.IntSort(), z3.IntSort())
        # inv(s) is the position of s in the indices, or -1
        vs = bound(1, 'j')
        j = vs[0]
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Zi(m)), inv(f(j)) == j)))
        s = bound(1, 's')[0]
        c.assume(z3.ForAll([s], z3.Or(inv(s) == -1, z3.And(inv(s) >= 0, inv(s) < Zi(m), f(inv(s)) == s)), patterns=[inv(s)]))

        def fn(*idx):
            cond = [inv(idx[p]) >= 0] + [idx[d] == e for d, e in fixed.items()]
            vi = []
            for d in range(len(idx)):
                if d == p:
                    vi.append(inv(idx[p]))
                elif d not in fixed:
                    vi.append(idx[d])
            return z3.If(z3.And(*cond), val(*vi), old(*idx))
        qs = bound(self.ndim, 'w')
        c.assume(z3.ForAll(qs, new(*qs) == fn(*qs), patterns=[new(*qs)]))
        if self.ndim and True:
            # also trigger from the old indices
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Zi(m)), inv(f(j)) == j)))
        self._assign_all(lambda *i: new(*i))

    # ---- conversions
    def astype(self, t, copy=True):
        dt = as_dt(t)
        if dt is self.dtype:
            return self.copy()
        f = self.snap()
        if dt.is_int and not dt.exact() and self.dtype.kind != 'b':
            if not (self.dtype.is_int and self.dtype.kind == dt.kind and ctx().quick(Zi(dt.maxv) >= Zi(self.dtype.maxv))):
                ctx().oblige('the converted values fit in their type', forall_idx(
                    self.shape, lambda *i: in_range(dt, cast_term(f(*i), dt))))
        if dt.kind == 'O':
            dt2 = DT('O', 64, name='object')
            r = Arr(self.shape, f, dt2)
            r.dtype = PYINT if self.dtype.is_int else self.dtype    # exact integers
            return r
        if dt.kind == 'f' and self.dtype.is_int:
            src = self.dtype
            r = Arr(self.shape, lambda *i: to_float(f(*i), src, dt), dt)
        else:
            r = Arr(self.shape, lambda *i: cast_term(f(*i), dt), dt)
        r.inv = self.inv
        return r

    def view(self, t):
        if isinstance(t, VoidDT):
            return Opaque()
        raise Unsupported('view with another type')

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        pos = {a: d for d, a in enumerate(axes)}
        maps = [m if m[0] == 'fix' else (m[0], m[1], m[2], pos[m[3]]) for m in self.maps]
        return Arr([self.shape[a] for a in axes], dtype=self.dtype, storage=self.st, maps=maps)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        c = ctx()
        f = self.snap()
        src = list(self.shape)
        # a dimension of 1 added, or removed, or a flattening by rows
        nz_src = [d for d in range(len(src)) if not (isinstance(src[d], int) and src[d] == 1)]
        if any(isinstance(s, int) and s == -1 for s in shape):
            rest = [s for s in shape if not (isinstance(s, int) and s == -1)]
            p = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
            if all(isinstance(s, int) and s == 1 for s in rest):
                shape[p] = self.size
            else:
                raise Unsupported('reshape with -1')
        shape = [dim(s) for s in shape]
        nz_dst = [d for d in range(len(shape)) if not (isinstance(shape[d], int) and shape[d] == 1)]
        if len(nz_src) == len(nz_dst) or (len(src) == 2 and len(shape) == 1 and len(nz_src) <= 1) :
            if len(nz_src) == len(nz_dst):
                for a, b in zip(nz_src, nz_dst):
                    if not same_dim(src[a], shape[b]):
                        c.oblige('reshape keeps the number of elements', Zi(src[a]) == Zi(shape[b]))

                def fn(*idx):
                    j = [z3.IntVal(0)] * len(src)
                    for a, b in zip(nz_src, nz_dst):
                        j[a] = idx[b]
                    return f(*j)
                return Arr(shape, fn, self.dtype)
        if len(nz_src) == 0 and len(nz_dst) == 1:
            c.oblige('reshape keeps the number of elements', Zi(shape[nz_dst[0]]) == 1)
            return Arr(shape, lambda *i: f(*([0] * len(src))), self.dtype)
        if len(nz_dst) == 0 and len(nz_src) == 1:
            c.oblige('reshape keeps the number of elements', Zi(src[nz_src[0]]) == 1)
            return Arr(shape, lambda *i: f(*([0] * len(src))), self.dtype)
        if len(shape) == 1 and len(src) == 2:
            ncol = src[1]
            c.oblige('reshape keeps the number of elements', Zi(src[0]) * Zi(ncol) == Zi(shape[0]))
            return Arr(shape, lambda i: f(i / Zi(ncol), i % Zi(ncol)), self.dtype)
        raise Unsupported('reshape from %s to %s' % (src, shape))

    def ravel(self):
        return self.reshape(self.size)
    flatten = ravel

    def tolist(self):
        return self

    def sum(self, axis=None, **k):
        from . import symnp
        return symnp.np_sum(self, axis=axis)

    def max(self, axis=None):
        from . import symnp
        return symnp.np_max(self, axis)

    def min(self, axis=None):
        from . import symnp
        return symnp.np_min(self, axis)

    def mean(self, axis=None):
        from . import symnp
        return symnp.np_mean(self, axis)

    def any(self, axis=None):
        from . import symnp
        return symnp.np_any(self)

    def all(self, axis=None):
        from . import symnp
        return symnp.np_all(self)

    def __contains__(self, x):
        n = self.shape[0]
        if self.ndim != 1:
            raise Unsupported('membership in a matrix')
        q = bound(1, 'm')[0]
        return bool(sbool(z3.Exists([q], z3.And(q >= 0, q < Zi(n), self.at(q) == Z(x)))))

    def __vc_set__(self):
        """the set of the elements"""
        from .vdict import SSet
        if self.ndim != 1 or not self.dtype.is_int:
            raise Unsupported('set of the elements of an array')
        c = ctx()
        f, n = self.snap(), Zi(self.shape[0])
        S, w = fresh_fun('member', z3.IntSort(), z3.BoolSort()), fresh_fun('member.at', z3.IntSort(), z3.IntSort())
        i, v = bound(2)
        from .symnp import fa
        c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < n), S(f(i))), f(i)))
        c.assume(z3.ForAll([v], z3.Implies(S(v), z3.And(w(v) >= 0, w(v) < n, f(w(v)) == v)), patterns=[S(v)]))
        return SSet(z3.IntSort(), lambda k: S(k))

    # ---- arithmetic
    def __neg__(self):
        return emap(lambda a: -a, [self], self.dtype)

    def __invert__(self):
        if self.dtype.kind != 'b':
            raise Unsupported('~ on integers')
        return emap(lambda a: z3.Not(a), [self], BOOL)

    def __and__(self, o):
        return emap(lambda a, b: z3.And(a, b), [self, o], BOOL)
    __rand__ = __and__

    def __or__(self, o):
        return emap(lambda a, b: z3.Or(a, b), [self, o], BOOL)
    __ror__ = __or__

    def _inplace(op):
        def f(self, o):
            r = op(self, o)
            f_ = r.snap()
            if not all(same_dim(a, b) for a, b in zip(r.shape, self.shape)):
                raise Unsupported('in place operation changing the shape')
            dt = self.dtype
            self._assign_all(lambda *i: cast_term(f_(*i), dt))
            return self
        return f


def _aslist(k):
    from . import symnp
    return symnp.np_array(k) if k else Arr((0,), lambda i: z3.IntVal(0), INT64)


def forall_idx(shape, body):
    """for all the indices of a shape"""
    sh = [s for s in shape]
    vs = bound(len(sh), 'i')
    g = []
    for v, s in zip(vs, sh):
        g += [v >= 0, v < Zi(s)]
    b = body(*vs)
    if z3.is_true(z3.simplify(b)):
        return z3.BoolVal(True)
    if not g:
        return b
    return z3.ForAll(vs, z3.Implies(z3.And(*g), b))


def broadcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            x = s[k]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = x
            elif not same_dim(cur, x):
                c = ctx()
                if c.quick(Zi(cur) == Zi(x)):
                    continue
                if not isinstance(cur, int) and c.quick(Zi(cur) == 1):
                    cur = x
                    continue
                c.oblige('shapes agree in an operation', Zi(cur) == Zi(x))
        out.append(cur)
    return out


def emap(f, args, dtype, check=None):
    """elementwise operation; f on z3 terms"""
    arrs = [a for a in args if isinstance(a, Arr)]
    shape = broadcast([a.shape for a in arrs])
    nd = len(shape)
    fs = []
    for a in args:
        if isinstance(a, Arr):
            g = a.snap()
            bc = [isinstance(s, int) and s == 1 and not same_dim(s, shape[nd - a.ndim + d]) for d, s in enumerate(a.shape)]
            fs.append((lambda g, bc, k: lambda idx: g(*[z3.IntVal(0) if b else i for b, i in zip(bc, idx[nd - k:])]))(g, bc, a.ndim))
        else:
            z = Z(a.__vc_scalar__() if hasattr(a, '__vc_scalar__') else a)
            fs.append((lambda z: lambda idx: z)(z))

    def fn(*idx):
        return f(*[g(idx) for g in fs])
    if check is not None:
        check(shape, [lambda *i, g=g: g(i) for g in fs], fn)
    if all(isinstance(s, int) and s == 1 for s in shape) and False:
        pass
    return Arr(shape, fn, dtype)


def result_type(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim == 0:
            return b.dtype
        return promote(a.dtype, b.dtype)
    if isinstance(a, Arr):
        return promote_scalar(a.dtype, b)
    return promote_scalar(b.dtype, a)


def scalar_in(x):
    if hasattr(x, '__vc_scalar__') and not isinstance(x, Arr):
        return x.__vc_scalar__()
    if isinstance(x, (list, tuple)) or hasattr(x, '__vc_list__'):
        from . import symnp
        return symnp.np_array(x)
    return x


def arith(name):
    def op(a, b):
        a, b = scalar_in(a), scalar_in(b)
        if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
            raise Unsupported('infinite value in an array operation')
        if not isinstance(b, Arr) and try_num(b) is None and not isinstance(b, (bool, SBool)):
            return NotImplemented
        dt = result_type(a, b)
        c = ctx()
        if name in ('add', 'sub', 'mul'):
            if dt.kind == 'b':
                if name == 'mul':
                    return emap(lambda x, y: z3.And(x, y), [_b(a), _b(b)], BOOL)
                if name == 'add':
                    return emap(lambda x, y: z3.Or(x, y), [_b(a), _b(b)], BOOL)
                raise TypeError('numpy boolean subtract')
            g = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[name]

            def f(x, y):
                x, y = cast_term(x, dt), cast_term(y, dt)
                return g(x, y)

            def check(shape, fs, fn):
                if dt.is_int and not dt.exact():
                    c.oblige('no wrap around in %s' % name, forall_idx(shape, lambda *i: in_range(dt, fn(*i))))
            return emap(f, [a, b], dt, check)
        if name == 'truediv':
            def f(x, y):
                return Zr(x) / Zr(y)

            def check(shape, fs, fn):
                if not c.ghost.get('allow_nan'):
                    c.oblige('no division by zero', forall_idx(shape, lambda *i: Zr(fs[1](*i)) != 0))
            return emap(f, [a, b], FLOAT64 if dt.kind != 'f' else dt, check)
        if name in ('floordiv', 'mod'):
            from . import nl
            pos = [False]

            def check(shape, fs, fn):
                q = forall_idx(shape, lambda *i: fs[1](*i) > 0)
                pos[0] = c.quick(q)
                if not pos[0]:
                    c.oblige('no division by zero', forall_idx(shape, lambda *i: fs[1](*i) != 0))

            def f(x, y):
                x, y = coerce(x, y)
                if x.sort() == z3.RealSort():
                    q = z3.ToReal(z3.ToInt(x / y))
                    return q if name == 'floordiv' else x - y * q
                if name == 'floordiv':
                    return nl.div(x, y) if pos[0] else z3.If(y > 0, x / y, (-x) / (-y))
                return nl.mod(x, y) if pos[0] else z3.If(y > 0, x % y, -((-x) % (-y)))
            return emap(f, [a, b], dt, check)
        if name == 'pow':
            if isinstance(b, (int, float)) and float(b) == int(b) and 0 <= b <= 4:
                def f(x, y):
                    r = z3.IntVal(1) if x.sort() == z3.IntSort() else z3.RealVal(1)
                    for _ in range(int(b)):
                        r = r * x
                    return r

                def check(shape, fs, fn):
                    if dt.is_int and not dt.exact():
                        c.oblige('no wrap around in pow', forall_idx(shape, lambda *i: in_range(dt, fn(*i))))
                return emap(f, [a, b], dt, check)
            raise Unsupported('power of arrays')
        raise Unsupported(name)
    return op


def _b(x):
    return x if isinstance(x, Arr) else bool(x)


def compare(name):
    def op(a, b):
        if b is None:
            return name == 'ne'
        a, b = scalar_in(a), scalar_in(b)
        if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
            r = core.cmp_inf(name, b)
            return emap(lambda x: z3.BoolVal(r), [a], BOOL)

        def f(x, y):
            if x.sort() == z3.BoolSort() and y.sort() != z3.BoolSort():
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == z3.BoolSort() and x.sort() != z3.BoolSort():
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            if x.sort() != y.sort():
                x, y = coerce(x, y)
            return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                    'eq': lambda: x == y, 'ne': lambda: x != y}[name]()
        return emap(f, [a, b], BOOL)
    return op


def _install():
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
        op = arith(n)
        setattr(Arr, '__%s__' % n, op)
        setattr(Arr, '__r%s__' % n, (lambda op: lambda self, o: op(Arr0(o) if not isinstance(o, (Arr, SNum, int, float, bool, SBool)) else o, self))(op))
        setattr(Arr, '__i%s__' % n, Arr.__dict__['_inplace'](op))
    for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(Arr, '__%s__' % n, compare(n))


def Arr0(o):
    from . import symnp
    return symnp.np_array(o)


_install()


def fresh_arr(name, shape, dtype, term=None):
    """an unknown array"""
    nd = len(shape)
    f = fresh_fun(name, *([z3.IntSort()] * nd + [sort_of(dtype.kind)]))
    return Arr(shape, lambda *i: f(*i), dtype, name=name)


def reify(a):
    """same content through a function symbol (good for triggers)"""
    probe = a.at(*[z3.Int('%probe') for _ in a.shape])
    if z3.is_app(probe) and probe.decl().kind() == z3.Z3_OP_UNINTERPRETED and probe.num_args() == a.ndim:
        if all(z3.is_const(probe.arg(k)) for k in range(probe.num_args())):
            return a
    f = fresh_fun('el', *([z3.IntSort()] * a.ndim + [probe.sort()]))
    src = a.snap()
    vs = bound(a.ndim, 'r')
    ctx().assume(z3.ForAll(vs, f(*vs) == src(*vs), patterns=[f(*vs)]))
    r = Arr(a.shape, lambda *i: f(*i), a.dtype)
    r.inv = a.inv
    return r


def reify_slice(a, src, sel):
    """a: elements of src; sel, for each dimension of src: ('rng', offset, dimension of a) or ('fix', index).
    Through a function symbol, with triggers in both directions"""
    r = reify(Arr(a.shape, a.snap(), a.dtype))
    probe = src.at(*[z3.Int('%probe') for _ in src.shape])
    if not (z3.is_app(probe) and probe.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(z3.is_const(x) for x in probe.children())):
        return r
    f, g = r.snap(), src.snap()
    vs = bound(a.ndim, 'r')
    args, back, rng = [], [None] * a.ndim, []
    for m in sel:
        if m[0] == 'fix':
            args.append(Zi(m[1]))
            continue
        o, d = m[1], m[2]
        v = vs[d]
        args.append(v)
        back[d] = v - Zi(o) if not (isinstance(o, int) and o == 0) else v
        rng.append(z3.And(v >= Zi(o), v < Zi(o) + Zi(a.shape[d])))
    ctx().assume(z3.ForAll(vs, z3.Implies(z3.And(*rng), f(*back) == g(*args)), patterns=[g(*args)]))
    return r
