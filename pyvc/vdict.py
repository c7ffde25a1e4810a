"""Dictionaries and sets whose keys may be symbolic (labels or integers)."""
import z3
from . import core
from .core import ctx, Z, Zi, Zb, wrap, sbool, bound, Unsupported, SBool, SNum, fresh_fun, Lab, lab
from .vlist import elem_kind, join_elem, merge_val, fresh_elem_of


def key_of(k, sort):
    if hasattr(k, '__vc_scalar__'):
        k = k.__vc_scalar__()
    e = Z(k)
    if sort is not None and e.sort() != sort:
        raise Unsupported('keys of different natures in a dictionary')
    return e


class SSet(object):
    """set of keys given by a predicate on terms"""

    def __init__(self, sort, has):
        self.sort, self.has = sort, has

    def __contains__(self, k):
        return bool(sbool(self.has(key_of(k, self.sort))))

    def intersection(self, o):
        o = sset(o)
        f, g = self.has, o.has
        s = self.sort if self.sort is not None else o.sort
        return SSet(s, lambda k: z3.And(f(k), g(k)))
    __and__ = intersection

    def union(self, o):
        o = sset(o)
        f, g = self.has, o.has
        return SSet(self.sort if self.sort is not None else o.sort, lambda k: z3.Or(f(k), g(k)))
    __or__ = union

    def difference(self, o):
        o = sset(o)
        f, g = self.has, o.has
        return SSet(self.sort, lambda k: z3.And(f(k), z3.Not(g(k))))
    __sub__ = difference

    def isdisjoint(self, o):
        return not bool(self.intersection(o))

    def issubset(self, o):
        return not bool(self.difference(o))
    __le__ = issubset

    def __bool__(self):
        if self.sort is None:
            return False
        k = z3.Const(ctx().fresh_name('%key'), self.sort)
        return bool(sbool(z3.Exists([k], self.has(k))))

    def __vc_set__(self):
        return self

    def __vc_iter__(self):
        """the elements in some order (a finite set of integers)"""
        if self.sort != z3.IntSort():
            raise Unsupported('elements of a set')
        c = ctx()
        n = core.fresh_int('card', 0)
        el, rank = fresh_fun('elem', z3.IntSort(), z3.IntSort()), fresh_fun('elem.rank', z3.IntSort(), z3.IntSort())
        i, k = bound(2)
        h = self.has
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.e), z3.And(h(el(i)), rank(el(i)) == i)), patterns=[el(i)]))
        from .symnp import fa, term_patterns
        c.assume(z3.ForAll([k], z3.Implies(h(k), z3.And(rank(k) >= 0, rank(k) < n.e, el(rank(k)) == k)), patterns=[rank(k)]))
        c.ghost.setdefault('ranks', {})[el(z3.IntVal(0)).decl().name()] = rank
        return n, lambda i: core.wrap(el(Zi(i)))

    def __hash__(self):
        raise TypeError('unhashable')


def sset(x):
    if hasattr(x, '__vc_set__'):
        return x.__vc_set__()
    raise Unsupported('set of these values')


class SDict(object):
    """has(key term) -> Bool; get(key term) -> value"""

    def __init__(self, sort=None, has=None, get=None):
        self.sort = sort
        self.has = has or (lambda k: z3.BoolVal(False))
        self.get_ = get
        self.ek = None
        self.loc = ctx().register(self, 'dict')

    # heap protocol
    def vc_kind(self):
        if self.get_ is None:
            return (None, None)
        return (self.sort, self.ek if self.ek is not None else elem_kind(self.get_(z3.Const('%key', self.sort))))

    def vc_join_kind(self, a, b):
        if a[0] is None:
            return b
        if b[0] is None:
            return a
        if a[0] != b[0]:
            raise Unsupported('keys of different natures in a dictionary')
        return (a[0], join_elem(a[1], b[1]))

    def vc_havoc(self, k):
        s, ek = k
        if s is None:
            return
        self.sort = s
        h = fresh_fun('has', s, z3.BoolSort())
        self.has = lambda k: h(k)
        self.get_ = fresh_elem_of(ek, 'val', s)
        self.ek = ek

    def vc_snapshot(self):
        r = SDict.__new__(SDict)
        r.sort, r.has, r.get_, r.ek, r.loc = self.sort, self.has, self.get_, self.ek, None
        return r

    def _w(self):
        if self.loc is None:
            raise Unsupported('snapshot of a dictionary modified')
        ctx().wrote(self.loc)

    # dict protocol
    def __setitem__(self, k, v):
        self._w()
        e = key_of(k, self.sort)
        self.sort = e.sort()
        h, g = self.has, self.get_
        self.has = lambda q: z3.Or(q == e, h(q))
        if g is None:
            self.get_ = lambda q: v
        else:
            if self.ek is not None:
                self.ek = join_elem(self.ek, elem_kind(v))
            self.get_ = lambda q: merge_val(z3.simplify(q == e), v, g(q))

    def __getitem__(self, k):
        e = key_of(k, self.sort)
        c = ctx()
        if not c.spec:
            c.oblige('the key is in the dictionary', self.has(e))
        if self.get_ is None:
            raise KeyError(k)
        return self.get_(e)

    def get(self, k, d=None):
        raise Unsupported('get with a default')

    def __contains__(self, k):
        if self.sort is None:
            return False
        return bool(sbool(self.has(key_of(k, self.sort))))

    def update(self, o):
        if not isinstance(o, SDict):
            for k, v in o.items():
                self[k] = v
            return
        self._w()
        if o.get_ is None:
            return
        h, g, h2, g2 = self.has, self.get_, o.has, o.get_
        if g is None:
            self.sort, self.has, self.get_, self.ek = o.sort, h2, g2, o.ek
            return
        if self.sort != o.sort:
            raise Unsupported('keys of different natures in a dictionary')
        self.ek = join_elem(self.vc_kind()[1], o.vc_kind()[1])
        self.has = lambda q: z3.Or(h2(q), h(q))
        self.get_ = lambda q: merge_val(h2(q), g2(q), g(q))

    def keys(self):
        return SSet(self.sort, self.has)

    def __vc_set__(self):
        return self.keys()

    def __bool__(self):
        return bool(self.keys())

    def items(self):
        return SItems(self)

    def __vc_iter__(self):
        """the keys, in some order"""
        if self.sort is None:
            return 0, None
        if self.sort != Lab:
            raise Unsupported('keys of a dictionary')
        s = self.vc_snapshot()
        it = SItems(s)
        ctx().ghost['dict_iter'] = (s, it.rank)
        return it.n, lambda i: StrLab(it.key(Zi(i)))

    def copy(self):
        r = self.vc_snapshot()
        r.loc = ctx().register(r, 'dict')
        return r

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SDict'


class StrLab(core.SLab):
    """a label known to be a string (not bytes)"""
    @property
    def decode(self):
        raise AttributeError("'str' object has no attribute 'decode'")


class SItems(object):
    """items of a dictionary whose keys are strings, in some order"""

    def __init__(self, d):
        self.d = d
        c = ctx()
        if d.sort is not None and d.sort != Lab:
            raise Unsupported('items of a dictionary')
        n = core.fresh_int('items', 0)
        key, rank = fresh_fun('item', z3.IntSort(), Lab), fresh_fun('item.rank', Lab, z3.IntSort())
        i, = bound(1)
        k = z3.Const(c.fresh_name('%key'), Lab)
        h = d.has
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.e), z3.And(h(key(i)), rank(key(i)) == i)), patterns=[key(i)]))
        c.assume(z3.ForAll([k], z3.Implies(h(k), z3.And(rank(k) >= 0, rank(k) < n.e, key(rank(k)) == k)), patterns=[rank(k)]))
        self.n, self.key, self.rank = n, key, rank

    def __vc_iter__(self):
        return self.n, lambda i: (StrLab(self.key(Zi(i))), self.d.get_(self.key(Zi(i))))


def hook_dictcomp(n, f):
    """{k: v ...} over a symbolic number of items: only when there is no item, or the items raise"""
    c = ctx()
    if c.fork(sbool(Zi(n) > 0)):
        q = core.fresh_int('item', 0)
        c.assume(q < n)
        f(q.e)
        raise Unsupported('dictionary comprehension')
    return SDict()


def hook_dict(d):
    return SDict() if not d else d
