"""Builtins seen by the functions under contract."""
import builtins
import math
import z3
from . import core
from .core import (ctx, SNum, SBool, SLab, Z, Zi, Zr, Zb, num, wrap, sbool, fresh_int, Unsupported, is_sym, If, bound, Lab)
from .arr import Arr, DT
from .vlist import VList, merge_val, Mixed
from .loops import vrange, VRange, iter_domain, UNDEF
from . import symnp


def vlen(x):
    if hasattr(x, '__vclen__'):
        return x.__vclen__()
    return len(x)


def trunc(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


class _VInt(type):
    def __instancecheck__(cls, x):
        return visinstance(x, int)


class vint(int, metaclass=_VInt):
    __vc_dtype__ = None

    def __new__(cls, x=0, *a):
        if a:
            return int(x, *a)
        if hasattr(x, '__vc_scalar__'):
            x = x.__vc_scalar__()
        if isinstance(x, SNum):
            if x.is_int:
                return SNum(x.e)
            return wrap(trunc(x.e))
        if isinstance(x, SBool):
            return num(x._num())
        if isinstance(x, SLab):
            raise Unsupported('int() of an opaque value')
        return int(x)


class _VFloat(type):
    def __instancecheck__(cls, x):
        return visinstance(x, float)


class vfloat(float, metaclass=_VFloat):
    __vc_dtype__ = None

    def __new__(cls, x=0.):
        if hasattr(x, '__vc_scalar__'):
            x = x.__vc_scalar__()
        if isinstance(x, (SNum, SBool)):
            return SNum(Zr(x))
        if isinstance(x, SLab):
            return SNum(symnp.uf('float_of', Lab, z3.RealSort())(x.e))
        return float(x)


from .arr import INT64, FLOAT64, BOOL, OBJ
vint.__vc_dtype__ = INT64
vfloat.__vc_dtype__ = FLOAT64


class _VBool(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SBool))


class vbool(int, metaclass=_VBool):
    __vc_dtype__ = BOOL

    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, SNum):
            return sbool(x.e != 0)
        return bool(x)


def _strmethod(n):
    def f(x, *a):
        return getattr(x, n)(*a)
    return staticmethod(f)


class _VStr(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SLab))


class vstr(str, metaclass=_VStr):
    __vc_dtype__ = OBJ

    def __new__(cls, x='', *a):
        if isinstance(x, Mixed):
            return x.vmap(lambda y: vstr(y))
        if isinstance(x, SLab):
            return x
        if isinstance(x, SNum):
            f = symnp.uf('str_of_int' if x.is_int else 'str_of_real', x.e.sort(), Lab)
            return SLab(f(x.e))
        if isinstance(x, (SBool, Arr)):
            return '<symbolic>'
        return str(x, *a)


for _n in ('split', 'strip', 'startswith', 'endswith', 'lower', 'upper', 'replace', 'rstrip', 'lstrip'):
    setattr(vstr, _n, _strmethod(_n))


class Joined(object):
    """sep.join(items) + end"""

    def __init__(self, sep, n, fn, end=''):
        self.sep, self.n, self.fn, self.end = sep, n, fn, end

    def __add__(self, o):
        if isinstance(o, str):
            return Joined(self.sep, self.n, self.fn, self.end + o)
        return NotImplemented


def vjoin(sep, items):
    d = iter_domain(items)
    if d[0] == 'conc' and not any(is_sym(x) for x in d[1]):
        return sep.join(d[1])
    if d[0] == 'conc':
        xs = d[1]
        return Joined(sep, len(xs), VList.sym_of(xs))
    return Joined(sep, d[1], d[2])


class _VList(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, VList))


class vlist_(metaclass=_VList):
    def __new__(cls, x=()):
        if isinstance(x, VList):
            r = x.vc_snapshot()
            r.loc = ctx().register(r, 'ls')
            return r
        if isinstance(x, VSet):
            return x.as_list()
        if isinstance(x, Arr) and x.ndim == 1:
            x = x.copy()         # the values of now
        d = iter_domain(x)
        if d[0] == 'conc':
            return VList(d[1])
        if d[0] == 'sym':
            return VList.sym(d[1], d[2])
        raise Unsupported('list() of this value')


class _VTuple(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)


class vtuple(tuple, metaclass=_VTuple):
    def __new__(cls, x=()):
        d = iter_domain(x)
        if d[0] == 'conc':
            return tuple(d[1])
        raise Unsupported('tuple of symbolic length')


class _VSet(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, VSet))


class vset(metaclass=_VSet):
    def __new__(cls, x=()):
        if hasattr(x, '__vc_set__'):
            return x.__vc_set__()
        return VSet(x)


class VSet(object):
    """a set of concrete hashable values, or an opaque one"""

    def __init__(self, x=()):
        if isinstance(x, VSet):
            self.conc = list(x.conc)
            return
        d = iter_domain(x)
        if d[0] != 'conc':
            raise Unsupported('set of symbolic size')
        self.conc = []
        for v in d[1]:
            self._add(v)
        self.loc = ctx().register(self, 'set')

    def vc_kind(self):
        return None

    def vc_havoc(self, k):
        raise Unsupported('set modified in a loop')

    def _add(self, v):
        if not any(bool(v is w or v == w) for w in self.conc):
            self.conc.append(v)

    def add(self, v):
        ctx().wrote(self.loc)
        self._add(v)

    def update(self, *o):
        ctx().wrote(self.loc)
        for x in o:
            for v in x:
                self._add(v)

    def discard(self, v):
        ctx().wrote(self.loc)
        self.conc = [w for w in self.conc if not bool(w == v)]

    def remove(self, v):
        if v not in self:
            raise KeyError(v)
        self.discard(v)

    def __iter__(self):
        return iter(list(self.conc))

    def __vclen__(self):
        return len(self.conc)

    def __len__(self):
        return len(self.conc)

    def __bool__(self):
        return bool(self.conc)

    def __contains__(self, v):
        return any(bool(v is w or v == w) for w in self.conc)

    def union(self, *o):
        r = VSet(self)
        r.loc = ctx().register(r, 'set')
        for x in o:
            for v in x:
                r._add(v)
        return r

    def __or__(self, o):
        return self.union(o)

    def intersection(self, *o):
        return VSet([v for v in self.conc if all(v in x for x in o)])

    def __and__(self, o):
        return self.intersection(o)

    def difference(self, *o):
        return VSet([v for v in self.conc if not any(v in x for x in o)])

    def __sub__(self, o):
        return self.difference(o)

    def symmetric_difference(self, o):
        return self.difference(o).union(VSet(o).difference(self))
    __xor__ = symmetric_difference

    def issubset(self, o):
        return all(v in o for v in self.conc)

    def __le__(self, o):
        return self.issubset(o)

    def issuperset(self, o):
        return all(v in self for v in o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        return isinstance(o, (VSet, set)) and self.issubset(o) and VSet(o).issubset(self)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise TypeError('unhashable')

    def copy(self):
        return VSet(self)

    def pop(self):
        raise Unsupported('set.pop')

    def as_list(self):
        return VList(self.conc)


PYTYPES = {}


def visinstance(x, t):
    if isinstance(t, tuple):
        return any(visinstance(x, u) for u in t)
    if t is list or t is vlist_:
        return isinstance(x, (list, VList))
    if t is symnp.NDArrayType:
        return isinstance(x, Arr)
    if t is int or t is vint:
        return (isinstance(x, int)) or (isinstance(x, SNum) and x.is_int and x.dtype is None)
    if t is float or t is vfloat:
        return isinstance(x, float) or (isinstance(x, SNum) and not x.is_int)
    if t is str or t is vstr or t is bytes:
        return isinstance(x, t) if t is bytes else isinstance(x, (str, SLab))
    if t is bool or t is vbool:
        return isinstance(x, (bool, SBool))
    if t is set or t is vset:
        return isinstance(x, (set, VSet))
    if t is tuple or t is vtuple:
        return isinstance(x, tuple)
    if isinstance(t, DT):
        dt = getattr(x, 'dtype', None)
        return isinstance(dt, DT) and dt == t
    if hasattr(t, '__vc_instancecheck__'):
        return t.__vc_instancecheck__(x)
    return isinstance(x, t)


def _extremum(name):
    def f(*a, **k):
        if k.get('key') is not None or 'default' in k:
            raise Unsupported(name + ' with options')
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Arr):
                return x.max() if name == 'max' else x.min()
            d = iter_domain(x)
            if d[0] != 'conc':
                return symnp.np_max(symnp.np_array(x)) if name == 'max' else symnp.np_min(symnp.np_array(x))
            a = tuple(d[1])
            if not a:
                raise ValueError(name + '() arg is an empty sequence')
        if not any(is_sym(x) or isinstance(x, Arr) for x in a):
            return getattr(builtins, name)(*a)
        r = a[0]
        for x in a[1:]:
            if isinstance(x, float) and math.isinf(x) or isinstance(r, float) and math.isinf(r):
                c = (x < r) if name == 'min' else (x > r)
                if not isinstance(c, bool):
                    raise Unsupported('infinite value')
                r = x if c else r
                continue
            c = (x < r) if name == 'min' else (x > r)
            r = If(c, x, r)
        return r
    return f


vmin, vmax = _extremum('min'), _extremum('max')


def vsum(x, start=0):
    if isinstance(x, Arr):
        return symnp.np_sum(x) + start if not (isinstance(start, int) and start == 0) else symnp.np_sum(x)
    d = iter_domain(x)
    if d[0] == 'conc':
        r = start
        for y in d[1]:
            r = r + y
        return r
    f = d[2]
    return wrap(symnp.sum_term(lambda k: Z(f(k)), d[1])) + start


def vabs(x):
    return abs(x)


class VEnum(object):
    def __init__(self, x, start=0):
        self.d = iter_domain(x)
        self.start = start

    def __vc_iter__(self):
        if self.d[0] == 'conc':
            return len(self.d[1]), lambda i: (i + self.start, self.d[1][i])
        return self.d[1], lambda i: (wrap(Zi(i) + Zi(self.start)), self.d[2](i))

    def __iter__(self):
        n, f = self.__vc_iter__()
        if isinstance(n, int):
            return iter([f(i) for i in range(n)])
        raise Unsupported('iteration')


class VZip(object):
    def __init__(self, *xs):
        self.ds = [iter_domain(x) for x in xs]

    def __vc_iter__(self):
        if all(d[0] == 'conc' for d in self.ds):
            r = list(zip(*[d[1] for d in self.ds]))
            return len(r), lambda i: r[i]
        n = None
        fs = []
        for d in self.ds:
            if d[0] == 'conc':
                l = VList(d[1])
                k = len(d[1])
                l._symbolize()
                fs.append(l.fn)
            else:
                k = d[1]
                fs.append(d[2])
            n = k if n is None else (n if z3.is_true(z3.simplify(Zi(n) == Zi(k))) else vmin(n, k))
        return n, lambda i: tuple(f(i) for f in fs)

    def __iter__(self):
        n, f = self.__vc_iter__()
        if isinstance(n, int):
            return iter([f(i) for i in range(n)])
        raise Unsupported('iteration')


class VMap(object):
    def __init__(self, f, *xs):
        self.f, self.z = f, VZip(*xs)

    def __vc_iter__(self):
        n, g = self.z.__vc_iter__()
        return n, lambda i: self.f(*g(i))

    def __iter__(self):
        n, f = self.__vc_iter__()
        if isinstance(n, int):
            return iter([f(i) for i in range(n)])
        raise Unsupported('iteration')


class VRev(object):
    def __init__(self, x):
        d = iter_domain(x)
        if d[0] == 'conc':
            r = d[1][::-1]
            self.n, self.f = len(r), lambda i: r[i]
        else:
            self.n, self.f = d[1], lambda i: d[2](Zi(d[1]) - 1 - Zi(i))

    def __vc_iter__(self):
        return self.n, self.f

    def __iter__(self):
        return iter([self.f(i) for i in range(self.n)])


def vsorted(x, **k):
    d = iter_domain(x)
    if d[0] == 'conc' and not any(is_sym(y) or isinstance(y, tuple) and any(is_sym(z) for z in y) for y in d[1]):
        return VList(sorted(d[1], **k))
    raise Unsupported('sorted on symbolic values')


def vany(x):
    d = iter_domain(x)
    if d[0] == 'conc':
        r = False
        for y in d[1]:
            r = core.sbool(z3.Or(Zb(r), Zb(y)))
        return r
    q = bound(1)[0]
    return sbool(z3.Exists([q], z3.And(q >= 0, q < Zi(d[1]), Zb(d[2](q)))))


def vall(x):
    d = iter_domain(x)
    if d[0] == 'conc':
        r = True
        for y in d[1]:
            r = core.sbool(z3.And(Zb(r), Zb(y)))
        return r
    q = bound(1)[0]
    return sbool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Zi(d[1])), Zb(d[2](q)))))


def vprint(*a, **k):
    pass


def vround(x, n=None):
    if is_sym(x):
        return core.vround(x)
    return round(x, n) if n is not None else round(x)


class _VType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)


class vtype(type, metaclass=_VType):
    def __new__(cls, *a, **k):
        if len(a) != 1:
            return type(*a, **k)
        x = a[0]
        for t in (vbool, vint, vfloat, vstr, vtuple, vlist_, vset):
            if visinstance(x, t):
                return t
        if is_sym(x) or isinstance(x, Arr):
            raise Unsupported('type of a symbolic value')
        return type(x)


def vdivmod(a, b):
    return a // b, a % b


def vpow(a, b, *m):
    return a ** b


def builtin_dict(extra):
    d = dict(builtins.__dict__)
    d.update(len=vlen, range=vrange, int=vint, float=vfloat, bool=vbool, str=vstr, list=vlist_, tuple=vtuple,
             set=vset, frozenset=vset, isinstance=visinstance, min=vmin, max=vmax, sum=vsum, abs=vabs, enumerate=VEnum,
             zip=VZip, map=VMap, sorted=vsorted, reversed=VRev, any=vany, all=vall, print=vprint, round=vround,
             divmod=vdivmod, pow=vpow, xrange=vrange, type=vtype)
    for k in ('open', 'exec', 'eval', 'input', 'compile', 'globals', 'vars', 'iter', 'next', 'filter', 'hash', 'id'):
        d[k] = unsupported_builtin(k)
    d.update(extra)
    return d


def unsupported_builtin(k):
    def f(*a, **kw):
        raise Unsupported('builtin ' + k)
    return f
