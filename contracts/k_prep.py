"""Contracts of the preparation of a task (C01, C02, C05, C17): the table of every BY level, its locations, its groups."""
from contracts.common import *
from contracts.k_task import task_stubs, P
from contracts.k_write import new_task
from pyvc.core import SLab, Lab


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x if z3.is_expr(x) else Zb(x)


def same_columns(a, b):
    """two lists of columns are the same one"""
    if a is b:
        return True
    if not isinstance(a, VList) or not isinstance(b, VList):
        return False
    i, = bound(1)
    return sbool(z3.And(Zi(a.__vclen__()) == Zi(b.__vclen__()), z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < Zi(a.__vclen__())), Z(a[wrap(i)]) == Z(b[wrap(i)])))))


class Row(object):
    def __init__(self, frame, src):
        self.frame, self.src = frame, src


class Values(object):
    """dict(row): values of the row src of the database"""

    def __init__(self, row):
        self.row = row


class Index(object):
    """labels of the rows of a table"""

    def __init__(self, frame):
        self.frame = frame

    @property
    def values(self):
        f = self.frame
        return Arr((f.n,), lambda k: f.lab(k), INT64)

    def __vclen__(self):
        return self.frame.n


class Series(object):
    """a column of a table"""

    def __init__(self, frame, col):
        self.frame, self.col = frame, col

    def _cmp(self, o, same):
        v, f, c = Z(o), self.frame, self.col
        C = ctx().ghost['prep']['C']
        return Arr((f.n,), lambda k: (C(c, f.src(k)) == v) == z3.BoolVal(same), BOOL)

    def __eq__(self, o):
        return self._cmp(o, True)

    def __ne__(self, o):
        return self._cmp(o, False)
    __hash__ = None


class At(object):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(k)


class Frame(object):
    """a table: its row k < n is the row src(k) of the file, its label is lab(k)"""

    def __init__(self, table, n, src, lab, parent=None, mask=None):
        self.__dict__.update(table=table, n=n, src=src, lab=lab, parent=parent, mask=mask)

    def __vclen__(self):
        return self.n

    @property
    def empty(self):
        return sbool(Zi(self.n) == 0)

    @property
    def index(self):
        return Index(self)

    def row(self, k):
        k = Zi(k)
        ctx().oblige('row of the table', z3.And(k < Zi(self.n), -k <= Zi(self.n)), 'precondition')
        return Row(self, self.src(z3.If(k >= 0, k, k + Zi(self.n))))

    @property
    def iloc(self):
        return At(self.row)

    @property
    def loc(self):
        return At(self.select)

    def select(self, labels):
        """rows with these labels, in this order (contract of pandas: each label designates one row)"""
        if isinstance(labels, Arr) and labels.dtype is BOOL:
            return self[labels]
        if not isinstance(labels, Index):
            raise Unsupported('rows of a table')
        f, k = labels.frame, ctx().ghost['prep']
        if self.table != 'feat' or self.parent is not None:
            raise Unsupported('rows of another table')
        j, = bound(1)
        ctx().oblige('the labels are those of the table', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Zi(f.n)), k['IS'](f.lab(j)))), 'precondition')
        return Frame('feat', f.n, lambda j: k['FR'](f.lab(j)), lambda j: f.lab(j), parent=self)

    def reset_index(self, drop=False, **kw):
        if drop is not True or kw:
            raise Unsupported('reset_index')
        return Frame(self.table, self.n, self.src, lambda k: k, parent=self.parent, mask=self.mask)

    def __getitem__(self, k):
        if isinstance(k, (SLab, str)):
            return Series(self, Z(k))
        if isinstance(k, Arr) and k.dtype is BOOL:
            ctx().oblige('one boolean per row', z3.And(k.ndim == 1, Zi(k.shape[0]) == Zi(self.n)), 'precondition')
            f = k.snap()
            return Frame(self.table, fresh_int('selected', 0), None, None, parent=self, mask=f)
        raise Unsupported('part of a table')

    def groupby(self, cols, **kw):
        if kw:
            raise Unsupported('options of groupby')
        if self.parent is None and self.table == 'db':
            g = ctx().ghost['prep']
            ctx().oblige('the BY levels are the groups of the BY columns', same_columns(cols, g['BY']), 'precondition')
            return Levels(g)
        return Grouping(self, cols)


class Levels(object):
    """groups of the database by the BY columns"""

    def __init__(self, g):
        self.g = g

    def __vclen__(self):
        return self.g['G']

    def __vc_iter__(self):
        g = self.g

        def level(j):
            j = Zi(j)
            return SLab(g['key'](j)), Frame('db', wrap(g['size'](j)), lambda k: g['pos'](j, k), lambda k: g['IDX'](g['pos'](j, k)), parent=g['db'])
        return g['G'], level


class Key(object):
    """key of a group: its values, one per column"""

    def __init__(self, groups, j):
        self.groups, self.j = groups, j

    def __getitem__(self, i):
        return SLab(self.groups.val(self.j, Zi(i)))


class Groups(object):
    """keys of the groups of a table"""

    def __init__(self, grouping):
        self.grouping = grouping
        self.n, self.val = fresh_int('groups', 0), fresh_fun('value_of_key', I, I, Lab)

    def __vc_iter__(self):
        return self.n, lambda j: Key(self, Zi(j))


class Grouping(object):
    def __init__(self, frame, cols):
        self.frame, self.cols = frame, cols
        self.groups = Groups(self)


class Anti(object):
    """antiacross_blocks of a level: has(j) when the key j is there, with the right labels"""

    def __init__(self):
        self.__dict__.update(has=lambda j: z3.BoolVal(False), loc=ctx().register(self, 'anti'), groups=None)

    def vc_kind(self):
        return 'anti'

    def vc_havoc(self, k):
        f = fresh_fun('anti_has', I, B)
        self.__dict__['has'] = lambda j: f(j)

    def __setitem__(self, key, v):
        c = ctx()
        g = c.ghost['prep']
        if not isinstance(key, Key) or not isinstance(v, Index):
            raise Unsupported('antiacross')
        c.wrote(self.loc)
        f, i, k = v.frame, *bound(2)
        p = f.parent
        c.oblige('antiacross: a selection of the table of the level', z3.And(f.mask is not None, zb(is_by(g, p))), 'postcondition')
        differs = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Zi(g['NA'])), g['C'](g['AC'](i), p.src(k)) != key.groups.val(key.j, i)))
        c.oblige('antiacross: the items that differ on every ACROSS column', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Zi(p.n)), f.mask(k) == differs)), 'postcondition')
        h, j = self.has, key.j
        self.__dict__['has'] = lambda q: z3.Or(q == j, h(q))
        self.__dict__['groups'] = key.groups


class Blocks(object):
    """a dictionary filled with one value per level: has(level)"""

    def __init__(self, name, levels):
        self.__dict__.update(name=name, g=levels, last=None, has=lambda q: z3.BoolVal(False), loc=ctx().register(self, 'blocks'))

    def vc_kind(self):
        return 'blocks'

    def vc_havoc(self, k):
        f = fresh_fun('has_' + self.name, I, B)
        self.__dict__.update(has=lambda q: f(q), last=None)

    def level(self, key):
        e = z3.simplify(key.e) if isinstance(key, SLab) else None
        if e is None or not z3.is_app(e) or not z3.eq(e.decl(), self.g['key'](z3.IntVal(0)).decl()):
            raise Unsupported('another key')
        return e.arg(0)

    def __setitem__(self, key, v):
        ctx().wrote(self.loc)
        j, h = self.level(key), self.has
        self.__dict__.update(last=(j, v), has=lambda q: z3.Or(q == j, h(q)))

    def __getitem__(self, key):
        j = self.level(key)
        if self.last is None or not z3.eq(z3.simplify(self.last[0]), j):
            raise Unsupported('value of another level')
        return self.last[1]


def is_by(g, f):
    """f is the table of the level under way: the rows kept by the generic filters, numbered in the level"""
    if not isinstance(f, Frame) or f.table != 'db':
        return False
    j, (k,) = g['cur'], bound(1)
    return sbool(z3.And(Zi(f.n) == g['NG'](j), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g['NG'](j)), z3.And(
        f.src(k) == g['pos'](j, g['sel'](j, k)), f.lab(k) == g['sel'](j, k))))))


def is_feat(g, f):
    if not isinstance(f, Frame) or f.table != 'feat':
        return False
    j, (k,) = g['cur'], bound(1)
    return sbool(z3.And(Zi(f.n) == g['size'](j), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g['size'](j)), z3.And(
        f.src(k) == g['pos'](j, k), f.lab(k) == k)))))


def is_grouping(g, v, cols):
    if not isinstance(v, Grouping):
        return False
    a, b = is_by(g, v.frame), same_columns(v.cols, cols)
    return z3.And(zb(a), zb(b))


DICTS = ('by_dbs', 'feat_dbs', 'on_blocks', 'across_blocks', 'on_across_blocks')


def drive_prepare(E):
    c = ctx()
    G, NA, M = fresh_int('levels', 0), fresh_int('across', 1), fresh_int('rows', 0)
    C, AC = fresh_fun('value', Lab, I, Lab), fresh_fun('across_column', I, Lab)
    key, size, pos, grp = fresh_fun('by_key', I, Lab), fresh_fun('size', I, I), fresh_fun('row_of_level', I, I, I), fresh_fun('level_of', I, I)
    IDX, FR, IS = fresh_fun('label', I, I), fresh_fun('row_of_label', I, I), fresh_fun('is_label', I, B)
    NG, sel, BYF = fresh_fun('kept', I, I), fresh_fun('kept_item', I, I, I), fresh_fun('by_filter', I, B)
    j, k, p = bound(3)
    inG = lambda j: z3.And(j >= 0, j < Zi(G))
    c.assume(fa([j], z3.Implies(inG(j), size(j) >= 1), size(j)))
    c.assume(fa([j, k], z3.Implies(z3.And(inG(j), k >= 0, k < size(j)), z3.And(pos(j, k) >= 0, pos(j, k) < Zi(M), grp(pos(j, k)) == j)), pos(j, k)))
    c.assume(fa([p], z3.Implies(z3.And(p >= 0, p < Zi(M)), z3.And(IS(IDX(p)), FR(IDX(p)) == p)), IDX(p)))
    c.assume(fa([j], z3.Implies(inG(j), z3.And(NG(j) >= 0, NG(j) <= size(j))), NG(j)))
    c.assume(fa([j, k], z3.Implies(z3.And(inG(j), k >= 0, k < NG(j)), z3.And(sel(j, k) >= 0, sel(j, k) < size(j))), sel(j, k)))
    BY, ON = VList.sym(fresh_int('by', 1), lambda i, f=fresh_fun('by_column', I, Lab): SLab(f(Zi(i)))), VList.sym(1, lambda i, f=fresh_fun('on_column', I, Lab): SLab(f(Zi(i))))
    ACROSS = VList.sym(NA, lambda i: SLab(AC(Zi(i))))
    g = c.ghost['prep'] = dict(G=G, NA=NA, C=C, AC=AC, key=key, size=size, pos=pos, grp=grp, IDX=IDX, FR=FR, IS=IS, NG=NG, sel=sel, BYF=BYF, BY=BY, cur=None)
    g['db'] = Frame('db', M, lambda k: k, lambda k: IDX(k))
    feat = Frame('feat', fresh_int('feat', 0), lambda k: k, lambda k: IDX(k))

    def level_of(v):
        if not isinstance(v, Values):
            raise Unsupported('values of a BY level')
        return z3.simplify(grp(v.row.src))

    def by_filter(values):
        return sbool(BYF(level_of(values)))

    def generic_filter(values, f):
        cur = g['cur']
        c.oblige('generic filters: the values of the level', level_of(values) == cur, 'precondition')
        c.oblige('generic filters: the items of the level', z3.And(isinstance(f, Frame) and f.table == 'db' and f.mask is None, Zi(f.n) == size(cur), z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < size(cur)), f.src(k) == pos(cur, k)))), 'precondition')
        return Frame('db', wrap(NG(cur)), lambda k: f.src(sel(cur, k)), lambda k: f.lab(sel(cur, k)), parent=g['db'])
    blocks = {n: Blocks(n, g) for n in DICTS + ('antiacross_blocks',)}
    task = new_task(E, verbose=0, db=g['db'], by=BY, on=ON, across=ACROSS, filters=NS(dict(by_filter=by_filter, generic_filter=generic_filter)), **blocks)
    g['task'] = task
    g['blocks'], g['ON'], g['ACROSS'] = blocks, ON, ACROSS
    task._init_prepare_database(feat)
    for n in DICTS + ('antiacross_blocks',):
        ensures('%s: one value per level with items' % n, lambda: has_ok(g, n, Zi(G)))


def kept(g, j):
    return z3.And(g['BYF'](j), g['NG'](j) > 0)


def has_ok(g, n, it):
    j, = bound(1)
    x = g['blocks'][n].has
    k = kept(g, j)
    if n == 'antiacross_blocks':
        k = z3.And(k, Zi(g['NA']) > 1)
    return z3.ForAll([j], x(j) == z3.And(j >= 0, j < it, k))


def inv_has(self, _it, _g):
    g = _g['prep']
    g['cur'] = Zi(_it)
    return z3.And(*[has_ok(g, n, Zi(_it)) for n in DICTS + ('antiacross_blocks',)])


def stored(name):
    """what this iteration has stored in a dictionary (the values of the other levels are not touched)"""
    def f(self, _it, _g):
        g = _g['prep']
        cur = g['cur'] = z3.simplify(Zi(_it) - 1)
        b = g['blocks']
        last = b[name].last
        if last is None:
            return True
        if name == 'antiacross_blocks':
            # one entry for each ACROSS key
            j, = bound(1)
            gr = b['across_blocks'].last[1].groups if b['across_blocks'].last else None
            if not isinstance(last[1], Anti) or gr is None or last[1].groups not in (None, gr):
                return False
            ok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Zi(gr.n)), last[1].has(j)))
        else:
            ok = (is_by(g, last[1]) if name == 'by_dbs' else is_feat(g, last[1]) if name == 'feat_dbs' else
                  is_grouping(g, last[1], dict(on_blocks=g['ON'], across_blocks=g['ACROSS'], on_across_blocks=g['ON'] + g['ACROSS'])[name]))
        return z3.And(zb(ok), last[0] == cur)
    f.vc_name = 'value stored in ' + name
    return f


def inv_anti(self, _it, _g):
    g = _g['prep']
    a = g['blocks']['antiacross_blocks'].last[1]
    j, = bound(1)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Zi(_it)), a.has(j)))


def inv_mask(b, by_frame, across_key, _it, _g):
    g = _g['prep']
    if not isinstance(b, Arr):
        return sbool(z3.And(Zi(_it) == 0, Zb(wrap(b)) if not isinstance(b, bool) else z3.BoolVal(b)))
    k, i = bound(2)
    f = b.snap()
    return z3.And(Zi(b.shape[0]) == Zi(by_frame.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Zi(by_frame.n)), f(k) == z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < Zi(_it)), g['C'](g['AC'](i), by_frame.src(k)) != across_key.groups.val(across_key.j, i))))))


def prep_dict(*a):
    if len(a) == 1 and isinstance(a[0], Row):
        return Values(a[0])
    if not a:
        return Anti()
    raise Unsupported('dict')


# ---------------------------------------------------------- _init_prepare_types

class Tables(object):
    """by_dbs: one table with items per level"""

    def __init__(self, g):
        self.g = g

    def items(self):
        g = self.g
        return VList.sym(g['G'], lambda j: (SLab(g['key'](Zi(j))), g['frame'](Zi(j))))

    def __vclen__(self):
        return self.g['G']


class Made(object):
    """{key: value}: the value of an arbitrary level"""

    def __init__(self, j, key, value):
        self.j, self.key, self.value = j, key, value


def types_comp(n, f):
    c = ctx()
    j = fresh_int('level', 0)
    if not c.fork(sbool(Zi(j) < Zi(n))):
        return Made(None, None, None)
    k, v = f.raw(Zi(j))
    return Made(Zi(j), k, v)


def drive_types(E):
    c = ctx()
    G, size, lab, key = fresh_int('levels', 0), fresh_fun('size', I, I), fresh_fun('label', I, I, I), fresh_fun('by_key', I, Lab)
    j, k = bound(2)
    c.assume(fa([j], size(j) >= 1, size(j)))
    c.assume(fa([j, k], lab(j, k) >= 0, lab(j, k)))
    g = dict(G=G, key=key, frame=lambda j: Frame('db', wrap(size(j)), lambda k: lab(j, k), lambda k: lab(j, k)))
    task = new_task(E, verbose=0, by_dbs=Tables(g))
    try:
        task._init_prepare_types()
    except ValueError:
        q, m = bound(2)
        ensures('refused only when a label fits in no type', lambda: z3.Exists([q, m], z3.And(m >= 0, m < size(q), lab(q, m) >= 2 ** 63)))
        return
    t = task.types
    if not isinstance(t, Made):
        raise Unsupported('types')
    if t.j is None:
        return
    ensures('one type per level', lambda: Z(t.key) == key(t.j))
    ensures('the type of a level holds the labels of its items', lambda: z3.And(t.value.is_int, z3.ForAll([k], z3.Implies(
        z3.And(k >= 0, k < size(t.j)), lab(t.j, k) <= Zi(t.value.maxv)))))


# ---------------------------------------------------------- on_across_from_key

def drive_key(E):
    c = ctx()
    n, v = fresh_int('across', 1), fresh_fun('value', I, Lab)
    key = VList.sym(n + 1, lambda i: SLab(v(Zi(i))))
    on, across = E.fn('on_across_from_key')(key)
    i, = bound(1)
    ensures('the ON value comes first', lambda: Z(on) == v(z3.IntVal(0)))
    if isinstance(across, SLab):
        ensures('one ACROSS column: its value', lambda: z3.And(Zi(n) == 1, Z(across) == v(z3.IntVal(1))))
    elif isinstance(across, VList):
        ensures('several ACROSS columns: their values', lambda: z3.And(Zi(n) > 1, Zi(across.__vclen__()) == Zi(n), z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < Zi(n)), Z(across[wrap(i)]) == v(i + 1)))))
    else:
        raise Unsupported('ACROSS value')


TARGETS = [
    Target('Task._init_prepare_database', P, drive_prepare, ['C01', 'C05'], stubs=task_stubs,
           loops={('Task._init_prepare_database', 0): Spec(inv_has, lemma=[stored(n) for n in DICTS + ('antiacross_blocks',)]), ('Task._init_prepare_database', 1): Spec(inv_anti),
                  ('Task._init_prepare_database', 2): Spec(inv_mask, first=True)},
           builtins=lambda E: {'dict': prep_dict},
           assumptions=['contracts of pandas: groupby, loc, reset_index, boolean selection', 'contract of the filters (proved)',
                        'the items and their locations have the same labels (contract of database.load)']),
    Target('Task._init_prepare_types', P, drive_types, ['C01', 'C17'], stubs=task_stubs, hooks={'dictcomp': types_comp},
           replace={P: {'fit_integer_type': stub_fit_integer_type}}, assumptions=['contract of fit_integer_type (proved)']),
    Target('on_across_from_key', P, drive_key, ['C01', 'C06'], stubs=task_stubs),
]
