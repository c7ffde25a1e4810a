"""Python lists whose length and content may be symbolic."""
import z3
from . import core
from .core import (ctx, SNum, SBool, SLab, Z, Zi, Zb, num, wrap, sbool, fresh_int, fresh_fun, bound,
                   Unsupported, is_sym, sort_of, Lab)


def elem_kind(v):
    from .arr import Arr
    if isinstance(v, (bool, SBool)):
        return 'b'
    if isinstance(v, SNum):
        return 'i' if v.is_int else 'f'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, float):
        return 'f'
    if isinstance(v, (str, SLab)):
        return 'L'
    if isinstance(v, tuple):
        return ('t',) + tuple(elem_kind(x) for x in v)
    if isinstance(v, Arr):
        return ('arr', v.ndim, v.dtype, tuple(s if isinstance(s, int) else None for s in v.shape))
    if isinstance(v, VList):
        return ('vl', v.vc_kind())
    if type(v) is dict and all(isinstance(k, str) for k in v):
        return ('d', tuple((k, ('str', x) if isinstance(x, str) else elem_kind(x)) for k, x in sorted(v.items())))
    return ('o', v)


def join_elem(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a in ('b', 'i', 'f') and b in ('b', 'i', 'f'):
        return 'bif'[max('bif'.index(a), 'bif'.index(b))]
    if a[0] in ('str', 'L') and b[0] in ('str', 'L'):
        return 'L'
    if a[0] == 'vl' and b[0] == 'vl':
        return ('vl', join_elem(a[1], b[1]))
    if a[0] == 'd' and b[0] == 'd' and [x[0] for x in a[1]] == [x[0] for x in b[1]]:
        return ('d', tuple((x[0], join_elem(x[1], y[1])) for x, y in zip(a[1], b[1])))
    if a[0] == 't' and b[0] == 't' and len(a) == len(b):
        return ('t',) + tuple(join_elem(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == 'arr' and b[0] == 'arr' and a[1] == b[1] and a[2].kind == b[2].kind:
        return ('arr', a[1], a[2], tuple(x if x == y else None for x, y in zip(a[3], b[3])))
    raise Unsupported('list of values of different natures')


def fresh_elem(k, name):
    """element function i -> value of an unknown list"""
    f = fresh_elem_of(k, name, z3.IntSort())
    return lambda i: f(Zi(i))


def fresh_elem_of(k, name, *srt):
    """function of terms of the sorts given -> unknown value of a kind"""
    from .arr import Arr
    I = z3.IntSort()

    def length(nm):
        g = fresh_fun(nm, *(srt + (I,)))
        qs = [z3.Const(ctx().fresh_name('%k'), s) for s in srt]
        ctx().assume(z3.ForAll(qs, g(*qs) >= 0, patterns=[g(*qs)]))
        return g
    if isinstance(k, str):
        f = fresh_fun(name, *(srt + (sort_of(k),)))
        return lambda *i: wrap(f(*i))
    if k[0] == 'str':
        return lambda *i: k[1]
    if k[0] == 't':
        fs = [fresh_elem_of(x, name, *srt) for x in k[1:]]
        return lambda *i: tuple(f(*i) for f in fs)
    if k[0] == 'd':
        ds = [(n, fresh_elem_of(x, name + '.' + n, *srt)) for n, x in k[1]]
        return lambda *i: dict((n, f(*i)) for n, f in ds)
    if k[0] == 'vl':
        if k[1] is None:
            raise Unsupported('list of lists of unknown content')
        ln = length(name + '.n')
        f = fresh_elem_of(k[1], name, *(srt + (I,)))
        return lambda *i: VList.sym(num(ln(*i)), lambda j: f(*(tuple(i) + (Zi(j),))))
    if k[0] == 'arr':
        nd, dt, shp = k[1:]
        ln = [s if s is not None else length(name + '.n') for s in shp]
        f = fresh_fun(name, *(srt + (I,) * nd + (sort_of(dt.kind),)))
        return lambda *i: Arr([g if isinstance(g, int) else num(g(*i)) for g in ln], lambda *j: f(*(tuple(i) + tuple(Zi(x) for x in j))), dt)
    return lambda *i: k[1]


def merge_val(cond, a, b):
    """If(cond, a, b) on values"""
    from .arr import Arr
    cond = Zb(cond)
    if z3.is_true(cond):
        return a
    if z3.is_false(cond):
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(cond, x, y) for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict and sorted(a) == sorted(b):
        return dict((k, merge_val(cond, a[k], b[k])) for k in a)
    if isinstance(a, VList) and isinstance(b, VList):
        x, y = a.vc_snapshot(), b.vc_snapshot()
        x._symbolize()
        y._symbolize()
        return VList.sym(core.If(cond, x.n, y.n), lambda i: merge_val(cond, x.fn(i), y.fn(i)))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        fa, fb = a.snap(), b.snap()
        return Arr([core.If(cond, x, y) for x, y in zip(a.shape, b.shape)], lambda *j: z3.If(cond, fa(*j), fb(*j)), a.dtype)
    if a is b:
        return a
    if isinstance(a, Mixed) or isinstance(b, Mixed) or is_lab(a) != is_lab(b) or is_real(a) != is_real(b):
        return Mixed(cond, a, b)
    return core.If(cond, a, b)


def is_lab(x):
    return isinstance(x, (str, bytes, SLab))


def is_real(x):
    return isinstance(x, float) or isinstance(x, SNum) and not x.is_int


class Mixed(object):
    """a if cond else b, of different natures"""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __vc_scalar__(self):
        a, b = [x.__vc_scalar__() if isinstance(x, Mixed) else x for x in (self.a, self.b)]
        if is_lab(a) or is_lab(b):
            raise Unsupported('an element which is a string or a number')
        return core.If(self.cond, a, b)

    def vmap(self, f):
        return merge_val(self.cond, f(self.a), f(self.b))


class VList(object):
    __vc_list__ = True

    def __init__(self, items=()):
        self.conc = list(items)
        self.n = None
        self.fn = None
        self.off = None          # lists of arrays: offset of each one in the concatenation
        self.loc = ctx().register(self, 'ls')

    @classmethod
    def sym(cls, n, fn):
        r = cls()
        n = num(n) if isinstance(n, z3.ExprRef) else n
        if isinstance(n, int):
            r.conc = [fn(i) for i in range(n)]
        else:
            r.conc, r.n, r.fn = None, n, fn
        return r

    @classmethod
    def sym_of(cls, items):
        r = cls(items)
        r._symbolize()
        return r.fn

    # -- heap protocol
    def vc_kind(self):
        if self.conc is not None:
            k = None
            for x in self.conc:
                k = join_elem(k, elem_kind(x))
            return k
        return self.ek if getattr(self, 'ek', None) is not None else elem_kind(self.fn(0))

    def vc_join_kind(self, a, b):
        return join_elem(a, b)

    def vc_havoc(self, k):
        if k is None:
            raise Unsupported('list of unknown content')
        self.conc = None
        self.n = fresh_int('len', 0)
        self.fn = fresh_elem(k, 'el')
        self.ek = k
        self.off = None
        if isinstance(k, tuple) and k[0] == 'arr':
            c = ctx()
            off = fresh_fun('off', z3.IntSort(), z3.IntSort())
            n, fn = self.n, self.fn
            q = bound(1)[0]
            c.assume(off(z3.IntVal(0)) == 0)
            c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Zi(n)), off(q + 1) == off(q) + Zi(fn(q).shape[0])), patterns=[off(q)]))
            c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= Zi(n)), z3.And(off(q) >= 0, off(q) <= off(Zi(n)))), patterns=[off(q)]))
            self.off = lambda i: off(Zi(i))

    def vc_snapshot(self):
        r = VList.__new__(VList)
        r.conc = list(self.conc) if self.conc is not None else None
        r.n, r.fn, r.off = self.n, self.fn, self.off
        r.loc = None
        return r

    def vc_join(self):
        pass

    def vc_fresh(self, name):
        k = self.vc_kind()
        r = VList()
        r.vc_havoc(k)
        return r

    def _w(self):
        if self.loc is None:
            raise Unsupported('snapshot of a list modified')
        ctx().wrote(self.loc)

    def _symbolize(self):
        if self.conc is not None:
            items = list(self.conc)
            self.n = len(items)
            self.conc = None

            def fn(i, items=items):
                v = z3.simplify(Zi(i))
                if z3.is_int_value(v):
                    return items[v.as_long()]
                if not items:
                    raise Unsupported('element of an empty list')
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = merge_val(v == j, items[j], r)
                return r
            self.fn = fn

    # -- list protocol
    def __vclen__(self):
        return len(self.conc) if self.conc is not None else self.n

    def __len__(self):
        if self.conc is not None:
            return len(self.conc)
        raise Unsupported('length of a symbolic list')

    def __bool__(self):
        if self.conc is not None:
            return bool(self.conc)
        return bool(sbool(Zi(self.n) > 0))

    def __iter__(self):
        if self.conc is not None:
            return iter(self.conc)
        raise Unsupported('iteration over a symbolic list outside of a loop')

    def __vc_iter__(self):
        if self.conc is not None:
            c = list(self.conc)
            return len(c), lambda i: c[i]
        return self.n, self.fn

    def append(self, x):
        self._w()
        if self.conc is not None:
            self.conc.append(x)
            return
        n, fn = self.n, self.fn
        self.n = n + 1
        off = self.off
        if off is not None:
            ln = Zi(x.shape[0])
            self.off = lambda i: z3.If(Zi(i) <= Zi(n), off(i), off(n) + ln)
        ek = getattr(self, 'ek', None)
        if ek is not None:
            self.ek = join_elem(ek, elem_kind(x))

        def new(i):
            i = z3.simplify(Zi(i))
            d = z3.simplify(i == Zi(n))
            if z3.is_true(d):
                return x
            if z3.is_false(d):
                return fn(i)
            return merge_val(d, x, fn(i))
        self.fn = new

    def total(self):
        """total length of the arrays of the list"""
        if self.conc is not None:
            r = 0
            for x in self.conc:
                r = r + x.shape[0]
            return r
        if self.off is None:
            raise Unsupported('total length of a list')
        return num(self.off(self.n))

    def extend(self, o):
        self._w()
        if isinstance(o, VList) and (self.conc is None or o.conc is None):
            r = self + o
            self.conc, self.n, self.fn = r.conc, r.n, r.fn
            return
        for x in o:
            self.append(x)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, VList):
            o = VList(o)
        if self.conc is not None and o.conc is not None:
            return VList(self.conc + o.conc)
        a, b = self.vc_snapshot(), o.vc_snapshot()
        a._symbolize()
        b._symbolize()
        return VList.sym(a.n + b.n, lambda i: merge_val(Zi(i) < Zi(a.n), a.fn(i), b.fn(Zi(i) - Zi(a.n))))

    def __radd__(self, o):
        return VList(o) + self

    def __mul__(self, k):
        if self.conc is not None and isinstance(k, int):
            return VList(self.conc * k)
        if self.conc is not None and len(self.conc) == 1:
            x = self.conc[0]
            n = z3.If(Zi(k) >= 0, Zi(k), z3.IntVal(0))
            return VList.sym(num(n), lambda i: x)
        if self.conc is None and ctx().quick(Zi(self.n) == 1):
            x = self.fn(z3.IntVal(0))
            n = z3.If(Zi(k) >= 0, Zi(k), z3.IntVal(0))
            return VList.sym(num(n), lambda i: x)
        raise Unsupported('repetition of a list')
    __rmul__ = __mul__

    def _idx(self, i):
        n = self.__vclen__()
        c = ctx()
        e = Zi(i)
        if isinstance(i, int) and i < 0:
            e = z3.simplify(Zi(n) + i)
        elif c.spec:
            return e
        elif not isinstance(i, int) and not c.quick(e >= 0):
            c.oblige('index within bounds', z3.And(e >= -Zi(n), e < Zi(n)))
            return z3.If(e < 0, e + Zi(n), e)
        c.oblige('index within bounds', z3.And(e >= 0, e < Zi(n)))
        return e

    def __getitem__(self, i):
        if hasattr(i, '__vc_scalar__'):
            i = i.__vc_scalar__()
        if isinstance(i, slice):
            if self.conc is not None and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return VList(self.conc[i])
            from .arr import Arr, INT64
            a = Arr((self.__vclen__(),), lambda *j: z3.IntVal(0), INT64)
            s, ln, st = a._norm_slice(i, a.shape[0])
            src = self.vc_snapshot()
            src._symbolize()
            return VList.sym(ln, lambda j: src.fn(Zi(s) + Zi(j) * st))
        if self.conc is not None and isinstance(i, int):
            return self.conc[i]
        e = self._idx(i)
        if self.conc is not None:
            t = self.vc_snapshot()
            t._symbolize()
            return t.fn(e)
        return self.fn(e)

    def __setitem__(self, i, v):
        self._w()
        if self.conc is not None and isinstance(i, int):
            self.conc[i] = v
            return
        if isinstance(i, slice):
            raise Unsupported('assignment to a slice of a list')
        e = self._idx(i)
        self._symbolize()
        fn = self.fn
        self.fn = lambda j: merge_val(z3.simplify(Zi(j) == e), v, fn(j))

    def __contains__(self, x):
        if self.conc is not None:
            return any(bool(y is x or y == x) for y in self.conc)
        q = bound(1)[0]
        return bool(sbool(z3.Exists([q], z3.And(q >= 0, q < Zi(self.n), Zb(self.fn(q) == x)))))

    def index(self, x):
        """position of the first element equal to x (in the list)"""
        c = ctx()
        e = Z(x)
        l = self.vc_snapshot()
        l._symbolize()
        n, f = Zi(l.n), (lambda i: Z(l.fn(i)))
        i, = bound(1)
        if z3.simplify(f(i)).sort() != e.sort():
            raise Unsupported('position of a value of another nature')
        key = ('index', z3.simplify(f(z3.Int('%probe'))).sexpr(), z3.simplify(n).sexpr())
        cache = c.ghost.setdefault('%cache', {})
        if key not in cache:
            g = cache[key] = fresh_fun('position', e.sort(), z3.IntSort())
            from .symnp import fa
            c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(g(f(i)) >= 0, g(f(i)) <= i, f(g(f(i))) == f(i))), f(i)))
        if not c.spec:
            c.oblige('the value is in the list', z3.Exists([i], z3.And(i >= 0, i < n, f(i) == e)))
        return num(cache[key](e))

    def pop(self, i=-1):
        self._w()
        if self.conc is not None and isinstance(i, int):
            return self.conc.pop(i)
        if i != -1:
            raise Unsupported('pop in a symbolic list')
        v = self[-1]
        self.n = self.n - 1
        return v

    def __eq__(self, o):
        if isinstance(o, VList) and self.conc is not None and o.conc is not None:
            return self.conc == o.conc
        if isinstance(o, list) and self.conc is not None:
            return self.conc == o
        raise Unsupported('comparison of lists')

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise TypeError("unhashable type: 'list'")

    def __repr__(self):
        return 'VList(%r)' % (self.conc,) if self.conc is not None else 'VList<%s>' % self.n

    def _c(name):
        def f(self, *a):
            if self.conc is None:
                raise Unsupported('%s of a symbolic list' % name)
            if name in ('sort', 'reverse', 'insert', 'remove', 'clear'):
                self._w()
            r = getattr(self.conc, name)(*a)
            return VList(r) if isinstance(r, list) else r
        return f
    for _n in ('sort', 'reverse', 'insert', 'remove', 'clear', 'count', 'copy'):
        locals()[_n] = _c(_n)
    del _n
