"""Contracts of the writing of a task (C01, C20): the blocks of a BY level, then the file."""
from contracts.common import *
from contracts.k_task import task_stubs, P
from pyvc.core import SLab, SBool

from pyvc.core import Lab


class Ordered(object):
    """a dictionary, its keys in some order: key(j), value(j) for j < n"""

    def __init__(self, n, key, value, alive=None):
        self.__dict__.update(n=n, key=key, value=value, alive=alive, loc=ctx().register(self, 'ordered'))

    def items(self):
        return VList.sym(self.n, lambda j: (SLab(self.key(Zi(j))), self.value(Zi(j))))

    def values(self):
        return VList.sym(self.n, lambda j: self.value(Zi(j)))

    def __vclen__(self):
        return self.n

    def index(self, k):
        e = z3.simplify(k.e) if isinstance(k, SLab) else None
        if e is None or not z3.is_app(e) or not z3.eq(e.decl(), self.key(z3.IntVal(0)).decl()):
            raise Unsupported('another key')
        return e.arg(0)

    def __getitem__(self, k):
        return self.value(self.index(k))

    # deletions
    def vc_kind(self):
        return 'ordered'

    def vc_havoc(self, k):
        if self.alive is not None:
            f = fresh_fun('alive', Lab, B)
            self.__dict__['alive'] = lambda k: f(k)

    def __delitem__(self, k):
        c = ctx()
        c.oblige('the key is in the dictionary', self.alive(k.e), 'precondition')
        c.wrote(self.loc)
        a = self.alive
        self.__dict__['alive'] = lambda q: z3.And(a(q), q != k.e)


class Sink(object):
    """a buffered writer: what is written is appended"""

    def __init__(self, name, columns, total):
        self.__dict__.update(name=name, arr=fresh_arr(name, (total, columns), INT64), loc=ctx().register(self, 'sink'))

    def vc_kind(self):
        return 'sink'

    def vc_havoc(self, k):
        self.__dict__['arr'] = fresh_arr(self.name, (fresh_int(self.name + '.rows', 0), self.arr.shape[1]), INT64)

    def append(self, n, fn):
        ctx().wrote(self.loc)
        f, n0 = self.arr.snap(), Zi(self.arr.shape[0])
        self.__dict__['arr'] = Arr((wrap(n0 + Zi(n)), self.arr.shape[1]), lambda i, j: z3.If(i < n0, f(i, j), fn(i - n0, j)), INT64)

    def write(self, a, indexed=False):
        if isinstance(a, Arr):
            ctx().oblige('%s: rows of the width of the dataset' % self.name, z3.And(a.ndim == 2, Zi(a.shape[1]) == Zi(self.arr.shape[1])), 'precondition')
            f = a.snap()
            self.append(a.shape[0], lambda i, j: f(i, j))
        elif isinstance(a, Reg):
            ctx().oblige('regressors are indexed', indexed, 'precondition')
            self.append(a.n, lambda i, j: a.value(a.b, i, j))
        else:
            raise Unsupported('written value')


class Reg(object):
    """regressors of the triplets of the block b (contract of on_across_triplets): one row per triplet"""

    def __init__(self, b, n, value):
        self.b, self.n, self.value = b, n, value      # value(block, row, column)


class Opaque(object):
    def __init__(self, what, key):
        self.what, self.key = what, key


def vdict(*a):
    """dict() of a row of a table: opaque values"""
    if len(a) == 1 and isinstance(a[0], Opaque) and a[0].what == 'row':
        return Opaque('values', a[0].key)
    if not a:
        from pyvc.vdict import SDict
        return SDict()
    raise Unsupported('dict of this value')


class At(object):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(k)


class Task(object):
    pass


def new_task(E, **fields):
    t = E.fn('Task').__new__(E.fn('Task'))
    t.__dict__.update(fields)
    return t


# ----------------------------------------------------------- _compute_triplets

def drive_blocks(E):
    c = ctx()
    n = fresh_int('blocks', 0)
    key, label = fresh_fun('block_key', I, Lab), fresh_fun('first_item', I, I)
    KEEP, nt, T = fresh_fun('block_kept', I, B), fresh_fun('triplets_of', I, I), fresh_fun('triplet', I, I, I, I)
    R = fresh_fun('regressor_of', I, I, I, I)
    off = fresh_fun('first_row', I, I)
    j, = bound(1)
    N = Zi(n)
    c.assume(fa([j], nt(j) >= 0, nt(j)))
    c.assume(off(z3.IntVal(0)) == 0)
    c.assume(fa([j], z3.Implies(z3.And(j >= 0, j < N), z3.And(off(j + 1) == off(j) + z3.If(KEEP(j), nt(j), 0))), off(j + 1), KEEP(j)))
    blocks = Ordered(n, key, lambda j: At(lambda k: Opaque('item', j) if k == 0 else _bad()))

    def _bad():
        raise Unsupported('another item of the block')

    def row(k):
        if not isinstance(k, Opaque) or k.what != 'item':
            raise Unsupported('row of the table')
        return Opaque('row', k.key)
    db = NS(dict(loc=At(row)))
    BY = fresh_lab('by')
    cur = {}

    def block_of(x, what):
        if not isinstance(x, Opaque) or x.what != what:
            raise Unsupported('not the %s of a block' % what)
        return x.key

    class RG(object):
        def set_by_regressors(self, v):
            c.oblige('BY regressors are given the values of the level', v is by_values, 'precondition')

        def set_on_across_by_regressors(self, v):
            cur['regressors'] = block_of(v, 'values')
    filters = NS(dict(on_across_by_filter=lambda v: sbool(KEEP(block_of(v, 'values')))))
    total = fresh_int('already_written', 0)
    by_values = Opaque('by values', None)
    out, regs = Sink('triplets', 3, total), Sink('regressors', 2, total)
    index = NS(dict(write=lambda x: None))
    task = new_task(E, verbose=0, on_across_blocks=By(BY, NS(dict(groups=blocks))), filters=filters, regressors=RG())
    task.current_index = fresh_int('current_index', 0)
    g = c.ghost['blocks'] = dict(out=out, regs=regs, off=off, KEEP=KEEP, nt=nt, T=T, R=R, total=Zi(total), index=Zi(task.current_index), task=task, key=key, block_of=block_of, cur=cur, BY=BY,
                                 f0=out.arr.snap(), r0=regs.arr.snap(), blocks=blocks, index_sink=index)
    task._compute_triplets(BY, out, index, regs, db, None, by_values)
    for name, f in written(g, N, out, regs, task):
        ensures(name, f)


class By(object):
    """dictionary of the BY levels: one level"""

    def __init__(self, key, v):
        self.key, self.v = key, v

    def __getitem__(self, k):
        if k is not self.key:
            raise Unsupported('another BY level')
        return self.v


def written(g, it, out, regs, task):
    off, KEEP, nt, T, total = g['off'], g['KEEP'], g['nt'], g['T'], g['total']
    b, k, q, p = bound(4)
    o, r = out.arr.snap(), regs.arr.snap()
    sel = z3.And(b >= 0, b < it, KEEP(b), k >= 0, k < nt(b))
    at = total + off(b) + k
    cols = lambda f: z3.And(*[f(z3.IntVal(x)) for x in range(3)])
    return [
        ('number of triplets written', z3.And(Zi(out.arr.shape[0]) == total + off(it), off(it) >= 0)),
        ('rows of the regressors: as many as triplets', Zi(regs.arr.shape[0]) == total + off(it)),
        ('index of the next triplet', Zi(task.current_index) == g['index'] + off(it)),
        ('the blocks follow each other', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < it), z3.And(off(b) >= 0, off(b + 1) <= off(it), off(b) <= off(it))), patterns=[off(b)])),
        ('the triplets of every block kept are written', z3.ForAll([b, k], z3.Implies(sel, cols(lambda x: o(at, x) == T(b, k, x))), patterns=[T(b, k, z3.IntVal(0))])),
        ('the regressors of a triplet are on its row', z3.ForAll([b, k], z3.Implies(sel, z3.And(*[r(at, z3.IntVal(x)) == g['R'](b, k, z3.IntVal(x)) for x in range(2)])), patterns=[g['R'](b, k, z3.IntVal(0))])),
        ('what was written before is kept', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < total), z3.And(cols(lambda x: o(p, x) == g['f0'](p, x)),
                                                                                                        *[r(p, z3.IntVal(x)) == g['r0'](p, z3.IntVal(x)) for x in range(2)])))),
    ]


def inv_blocks(out, out_regs, self, _it, _g):
    return z3.And(*[f for _, f in written(_g['blocks'], Zi(_it), out, out_regs, self)])


def stub_from_key(k):
    return Opaque('on', k.e), Opaque('across', k.e)


def stub_block_triplets(self, by, on, across, block, values, with_regressors=True):
    c = ctx()
    g = c.ghost['blocks']
    if not (isinstance(on, Opaque) and isinstance(across, Opaque) and isinstance(values, Opaque)):
        raise Unsupported('arguments of on_across_triplets')
    b = g['block_of'](values, 'values')
    c.oblige('triplets of the block: the same BY level', by is g['BY'], 'precondition')
    c.oblige('triplets of the block: ON and ACROSS of its key', z3.And(on.what == 'on', across.what == 'across', on.key == g['key'](b), across.key == g['key'](b)), 'precondition')
    c.oblige('triplets of the block: its items', z3.And(isinstance(block, At), block[0].key == b), 'precondition')
    c.oblige('triplets of the block: the regressors of the block are set', g['cur'].get('regressors') is not None and z3.simplify(g['cur']['regressors'] == b), 'precondition')
    n, T = g['nt'](b), g['T']
    trip = Arr((wrap(n), 3), lambda k, x: T(b, k, x), INT64)
    if not with_regressors:
        return trip
    return trip, Reg(b, wrap(n), g['R']), Opaque('block index', b)


# ----------------------------------------------------------- generate_triplets

class Levels(object):
    """index of the table of a BY level: only its maximum matters"""

    def __init__(self, m):
        self.vc_max = wrap(m)


class H5IO(object):
    log = None

    def __init__(self, filename=None, datasets=None, indexes=None, group=None):
        g = ctx().ghost['task file']
        ctx().oblige('regressors are written in the task file', filename == g['output'] and group.startswith('/regressors/'), 'precondition')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class NP2H5(object):
    def __init__(self, h5file=None, **k):
        g = ctx().ghost['task file']
        ctx().oblige('triplets are written in the task file', h5file == g['output'], 'precondition')
        self.file = g['file']
        ctx().ghost['files'].log.append(('w', h5file))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def add_dataset(self, group=None, dataset=None, n_rows=None, n_columns=None, item_type=None, fixed_size=True):
        g = ctx().ghost['task file']
        if (group, dataset) == ('triplets', 'data'):
            ctx().oblige('the dataset of triplets can be extended, or has the right size', z3.BoolVal(not fixed_size), 'precondition')
            ctx().oblige('triplets have three columns', Zi(n_columns) == 3, 'precondition')
            j, = bound(1)
            ctx().oblige('the type of the triplets represents all the items', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < g['N']), g['maxi'](j) <= Zi(item_type.maxv))), 'precondition')
            return g['out']
        return NS(dict(write=lambda x: None))


class Data(object):
    """triplets/data of the file"""

    def resize(self, n, axis=None):
        g = ctx().ghost['task file']
        ctx().oblige('the dataset of triplets has exactly the rows written', z3.And(axis == 0, Zi(n) == Zi(g['out'].arr.shape[0])), 'postcondition')
        g['resized'] = True


class FileModel(object):
    def __init__(self):
        self.items = {}

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        d = NS(dict(shape=shape, data=data))
        if name in self.items:
            raise ValueError('name already exists')
        self.items[name] = DName(shape) if data is None else data
        return self.items[name]

    def __getitem__(self, k):
        if k == 'triplets':
            return Sub(self, 'triplets/')
        if k == 'triplets/data':
            return ctx().ghost['task file']['data']
        return self.items[k]


class Sub(object):
    def __init__(self, f, pre):
        self.f, self.pre = f, pre

    def create_dataset(self, name, *a, **k):
        return self.f.create_dataset(self.pre + name, *a, **k)

    def __getitem__(self, k):
        return self.f[self.pre + k]


class DName(object):
    """dataset of strings"""

    def __init__(self, shape):
        self.shape, self.content = shape, None

    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k == slice(None)):
            raise Unsupported('writing of the names')
        ctx().oblige('as many names as the dataset has', Zi(self.shape[0] if isinstance(self.shape, (tuple, list)) else self.shape) == Zi(v.__vclen__()), 'precondition')
        self.content = v


def stub_compute_triplets(self, by, out, out_block_index, out_regs, db, fh, by_values, display=None):
    """contract of _compute_triplets (proved above)"""
    c = ctx()
    g = c.ghost['task file']
    if not isinstance(by_values, Opaque) or by_values.what != 'values':
        raise Unsupported('values of the level')
    j = by_values.key
    c.oblige('the table and the values of the level', z3.And(db.j == j, by.e == g['key'](j)), 'precondition')
    c.oblige('the dataset of the triplets', out is g['out'], 'precondition')
    n = g['tot'](j)
    out.append(n, lambda i, x: g['T'](j, i, x))
    self.current_index = self.current_index + wrap(n)


def vmax_any(*a, **k):
    """max of one number for every level"""
    from pyvc import shims
    if len(a) == 1 and isinstance(a[0], VList) and a[0].conc is None:
        l = a[0].vc_snapshot()
        c = ctx()
        c.oblige('max of a non empty sequence', Zi(l.n) >= 1, 'precondition')
        m, w = fresh_int('maximum'), fresh_int('argmax', 0)
        i, = bound(1)
        c.assume(w < l.n)
        c.assume(Zi(m) == Zi(l.fn(w.e)))
        t = Zi(l.fn(i))
        c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < Zi(l.n)), t <= Zi(m)), *symnp.term_patterns(t, i)))
        return m
    return shims.vmax(*a, **k)


def drive_generate(E):
    c = ctx()
    fs = c.ghost['files']
    n = fresh_int('levels', 0)
    N = Zi(n)
    key, maxi, tot, T = fresh_fun('by', I, Lab), fresh_fun('max_item', I, I), fresh_fun('triplets_of_level', I, I), fresh_fun('level_triplet', I, I, I, I)
    ofs, cnt, emp = fresh_fun('first_triplet', I, I), fresh_fun('levels_kept', I, I), fresh_fun('levels_empty', I, I)
    rank = fresh_fun('by.rank', Lab, I)
    j, = bound(1)
    rng = z3.And(j >= 0, j < N)
    c.assume(fa([j], z3.Implies(rng, rank(key(j)) == j), key(j)))
    c.assume(fa([j], z3.And(tot(j) >= 0, maxi(j) >= 0), tot(j)))
    c.assume(fa([j], maxi(j) >= 0, maxi(j)))
    z0 = z3.IntVal(0)
    c.assume(z3.And(ofs(z0) == 0, cnt(z0) == 0, emp(z0) == 0))
    c.assume(fa([j], z3.Implies(rng, z3.And(ofs(j + 1) == ofs(j) + tot(j), cnt(j + 1) == cnt(j) + z3.If(tot(j) > 0, 1, 0),
                                            emp(j + 1) == emp(j) + z3.If(tot(j) > 0, 0, 1))), ofs(j), cnt(j), emp(j), tot(j)))
    by_dbs = Ordered(n, key, lambda j: NS(dict(j=j, iloc=At(lambda k: Opaque('row', j)), index=NS(dict(values=Levels(maxi(j)))))),
                     alive=lambda k: z3.And(rank(k) >= 0, rank(k) < N, key(rank(k)) == k))
    total = fresh_int('nb_triplets', 0)
    c.assume(z3.Implies(N == 0, Zi(total) == 0))         # the sum over the levels
    output = None if c.fork(fresh_bool('default output')) else '/out/task.abx'
    name = '/data/items.abx' if output is None else output
    there = c.fork(fresh_bool('the output exists'))
    fs.exists_[name] = there
    fs.exists_['/data/items.item'] = True
    out = Sink('triplets', 3, 0)
    f = FileModel()
    thr = None if c.fork(fresh_bool('no threshold')) else fresh_int('threshold', 1)
    calls = []
    rg = NS(dict(get_regressor_info=lambda: ('datasets', 'indexes')))
    task = new_task(E, verbose=0, database='/data/items.item', stats=dict(nb_triplets=total, nb_blocks=fresh_int('nb_blocks', 0)), by_dbs=by_dbs, regressors=rg, n_blocks=1)
    E.fn('Task')._generate_pairs = lambda self, output=None, tmpdir=None: calls.append((output, len(fs.writes())))
    g = c.ghost['task file'] = dict(output=name, file=f, out=out, N=N, maxi=maxi, tot=tot, T=T, key=key, ofs=ofs, cnt=cnt, emp=emp, data=Data(), task=task, rank=rank, by_dbs=by_dbs)
    # without threshold, the announced number is the number of triplets (C06)
    try:
        task.generate_triplets(output, threshold=thr)
    except ValueError as e:
        if str(e) == 'no type':
            return
        ensures('refused only because the task file exists', there)
        ensures('nothing is written when the file exists', not fs.writes() and not calls)
        return
    if not fs.writes():
        ensures('nothing is written only without triplets', total == 0)
        return
    ensures('an existing file is not replaced', not there)
    ensures('the threshold is the one requested', (task.threshold is False or task.threshold is None) if thr is None else task.threshold is thr)
    ensures('the unique pairs are computed at the end', len(calls) == 1 and calls[0][0] == name)
    bi, names = f.items.get('triplets/by_index'), f.items.get('bys')
    ensures('the intervals and the names of the levels are written', isinstance(bi, Arr) and isinstance(names, DName) and names.content is not None and g.get('resized', False))
    K = cnt(N)
    l = names.content.vc_snapshot()
    l._symbolize()
    x = bi.snap()
    ensures('one interval per level that has triplets', lambda: z3.And(bi.ndim == 2, Zi(bi.shape[0]) == K, Zi(bi.shape[1]) == 2, Zi(l.n) == K))
    sel = z3.And(rng, tot(j) > 0)
    ensures('the intervals are those of the levels', lambda: z3.ForAll([j], z3.Implies(sel, z3.And(cnt(j) >= 0, cnt(j) < K, x(cnt(j), z0) == ofs(j), x(cnt(j), z3.IntVal(1)) == ofs(j + 1)))))
    ensures('the names are those of the levels', lambda: z3.ForAll([j], z3.Implies(sel, same_name(l.fn(cnt(j)), key(j)))))
    k, i = bound(2)
    o = out.arr.snap()
    ensures('the triplets of every level are in its interval', lambda: z3.ForAll([j, i], z3.Implies(z3.And(sel, i >= 0, i < tot(j)), z3.And(*[o(ofs(j) + i, z3.IntVal(y)) == T(j, i, z3.IntVal(y)) for y in range(3)]))))
    ensures('nothing else is written', lambda: Zi(out.arr.shape[0]) == ofs(N))
    ensures('the levels left are those that have triplets', lambda: z3.ForAll([j], z3.Implies(rng, by_dbs.alive(key(j)) == (tot(j) > 0))))


def same_name(x, k):
    if not isinstance(x, SLab):
        raise Unsupported('name of a level')
    return x.e == SLab(k).__vc_str__().e


def inv_levels(self, by_block_indices, bys, empty_by_blocks, _it, _g):
    g = _g['task file']
    ofs, cnt, emp, tot, key, T, N = (g[k] for k in 'ofs cnt emp tot key T N'.split())
    it = Zi(_it)
    j, i = bound(2)
    ls = []
    for l in (by_block_indices, bys, empty_by_blocks):
        l = l.vc_snapshot()
        ln = Zi(l.__vclen__())
        if l.conc is not None and not l.conc:
            ls.append((ln, None))
        else:
            l._symbolize()
            ls.append((ln, l.fn))
    (n1, f1), (n2, f2), (n3, f3) = ls
    r = z3.And(j >= 0, j < it)
    out = g['out']
    o = out.arr.snap()
    fs = [n1 == cnt(it) + 1, n2 == cnt(it), n3 == emp(it), cnt(it) >= 0, emp(it) >= 0, ofs(it) >= 0, Zi(self.current_index) == ofs(it), Zi(out.arr.shape[0]) == ofs(it),
          z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= cnt(it)), z3.And(Zi(f1(i)) >= 0, Zi(f1(i)) <= ofs(it)))),
          Zi(f1(z3.IntVal(0))) == 0, Zi(f1(cnt(it))) == ofs(it),
          z3.ForAll([j], z3.Implies(r, z3.And(cnt(j) >= 0, cnt(j) <= cnt(it), emp(j) >= 0, emp(j) <= emp(it), ofs(j) >= 0, ofs(j + 1) <= ofs(it), Zi(f1(cnt(j))) == ofs(j),
                                              z3.Implies(tot(j) > 0, z3.And(cnt(j) < cnt(it), Zi(f1(cnt(j) + 1)) == ofs(j + 1))), z3.Implies(tot(j) == 0, emp(j) < emp(it)))), patterns=[tot(j), cnt(j)]),
          z3.ForAll([j, i], z3.Implies(z3.And(r, i >= 0, i < tot(j)), z3.And(*[o(ofs(j) + i, z3.IntVal(y)) == T(j, i, z3.IntVal(y)) for y in range(3)])), patterns=[T(j, i, z0_())])]
    if f2 is not None:
        fs.append(z3.ForAll([j], z3.Implies(z3.And(r, tot(j) > 0), name_of(f2(cnt(j))) == key(j)), patterns=[tot(j), cnt(j)]))
    if f3 is not None:
        fs.append(z3.ForAll([j], z3.Implies(z3.And(r, tot(j) == 0), name_of(f3(emp(j))) == key(j)), patterns=[tot(j), emp(j)]))
        rk = g['rank']
        e3 = name_of(f3(i))
        fs.append(fa([i], z3.Implies(z3.And(i >= 0, i < n3), z3.And(rk(e3) >= 0, rk(e3) < it, tot(rk(e3)) == 0, emp(rk(e3)) == i, key(rk(e3)) == e3)), e3))
    return z3.And(*fs)


def z0_():
    return z3.IntVal(0)


def name_of(x):
    if not isinstance(x, SLab):
        raise Unsupported('name of a level')
    return x.e


def inv_delete(_it, _g):
    g = _g['task file']
    tot, emp, key, N = (g[k] for k in 'tot emp key N'.split())
    j, = bound(1)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), g['by_dbs'].alive(key(j)) == z3.Not(z3.And(tot(j) == 0, emp(j) < Zi(_it)))), patterns=[key(j), tot(j)])


def generate_stubs(E):
    d = task_stubs(E)
    d['ABXpy.h5tools.np2h5'] = StubModule('np2h5', NP2H5=NP2H5)
    d['ABXpy.h5tools.h5io'] = StubModule('h5io', H5IO=H5IO)
    d['warnings'] = StubModule('warnings', warn=lambda *a, **k: None, catch_warnings=H5Ctx, simplefilter=lambda *a, **k: None)
    d['tables'] = StubModule('tables', NaturalNameWarning=Warning)
    return d


class H5Ctx(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


TARGETS = [
    Target('Task._compute_triplets', P, drive_blocks, ['C01'], stubs=task_stubs, loops={('Task._compute_triplets', 0): Spec(inv_blocks)},
           replace={P: {'Task.on_across_triplets': stub_block_triplets, 'on_across_from_key': stub_from_key}}, builtins=lambda E: {'dict': vdict},
           assumptions=['groups of pandas: keys and rows', 'contract of on_across_triplets (proved)', 'contract of the filters']),
    Target('Task.generate_triplets', P, drive_generate, ['C01', 'C20'], stubs=generate_stubs,
           loops={('Task.generate_triplets', 0): Spec(inv_levels), ('Task.generate_triplets', 1): Spec(inv_delete)},
           replace={P: {'Task._compute_triplets': stub_compute_triplets, 'fit_integer_type': stub_fit_integer_type}},
           builtins=lambda E: {'dict': vdict, 'max': vmax_any},
           assumptions=[H5, 'contract of _compute_triplets (proved)', 'BY levels have different names']),
]
