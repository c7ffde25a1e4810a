"""Contract of the statistics of a task (C06): announced numbers of triplets, of blocks, of levels."""
from contracts.common import *
from contracts.k_task import task_stubs, P, GroupIndex, invert, provable
from contracts.k_write import new_task, Ordered, Opaque, At
from pyvc.core import SLab, Lab


def idx(f, k, what):
    """the arguments of the key f(...)"""
    e = z3.simplify(k.e) if isinstance(k, SLab) else None
    if e is None or not z3.is_app(e) or not z3.eq(e.decl(), f):
        raise Unsupported('another key: ' + what)
    return [e.arg(i) for i in range(e.num_args())]


class Store(object):
    """one dictionary of statistics per BY level: field name -> function of the level"""

    def __init__(self, g):
        self.__dict__.update(g=g, has=lambda j: z3.BoolVal(False), ints={}, series={}, blocks={}, loc=ctx().register(self, 'by_stats'))

    # heap protocol
    def vc_kind(self):
        return (frozenset(self.ints), frozenset(self.series.items()), frozenset(self.blocks))

    def vc_join_kind(self, a, b):
        return tuple(x | y for x, y in zip(a, b))

    def vc_havoc(self, k):
        h = fresh_fun('by_stats.has', I, B)
        d = self.__dict__
        d['has'] = lambda j: h(j)
        d['ints'] = {f: fresh_fun('by_stats.' + f, I, I) for f in sorted(k[0])}
        d['series'] = dict(k[1])
        d['blocks'] = {f: (fresh_fun('has.' + f, I, I, B), fresh_fun('val.' + f, I, I, I)) for f in sorted(k[2])}

    def put(self, j, name, v):
        ctx().wrote(self.loc)
        if isinstance(v, D) and v.kind is None:
            h, val = self.blocks.get(name, (lambda q, b: z3.BoolVal(False), lambda q, b: z3.IntVal(0)))
            self.blocks[name] = (lambda q, b: z3.And(q != j, h(q, b)), val)
            v.link(('blocks', self, j, name))
        elif isinstance(v, Series):
            ctx().oblige('statistics of a level: groups of this level', v.j == j, 'precondition')
            if self.series.setdefault(name, v.what) != v.what:
                raise Unsupported('field of the statistics')
        elif isinstance(v, (int, SNum)) and not isinstance(v, bool):
            f = self.ints.get(name)
            e = Zi(v)
            self.ints[name] = (lambda q: e) if f is None else (lambda q: z3.If(q == j, e, f(q)))
        else:
            raise Unsupported('statistics of this nature')

    def take(self, j, name):
        if name in self.ints:
            return wrap(self.ints[name](j))
        if name in self.series:
            return Series(self.g, self.series[name], j)
        if name in self.blocks:
            d = D()
            d.link(('blocks', self, j, name))
            return d
        raise Unsupported('no such statistics')


from pyvc.core import SNum


class D(object):
    """a dictionary, its nature decided by its first key"""

    def __init__(self):
        self.__dict__.update(kind=None, fields={}, ref=None, loc=ctx().register(self, 'dict'))

    def vc_kind(self):
        return id(self)

    def vc_join_kind(self, a, b):
        raise Unsupported('dictionary modified in a loop')

    def vc_havoc(self, k):
        raise Unsupported('dictionary modified in a loop')

    def link(self, ref):
        self.__dict__.update(kind='ref', ref=ref)

    def __setitem__(self, k, v):
        g = ctx().ghost['stats']
        if self.kind == 'ref':
            r = self.ref
            if r[0] == 'level':
                return r[1].put(r[2], k, v)
            _, s, j, name = r
            j2, b = idx(g['bkey'], k, 'block')
            c = ctx()
            c.oblige('sizes of the blocks of this level', j2 == j, 'precondition')
            c.wrote(s.loc)
            h, val = s.blocks[name]
            e = Zi(v)
            s.blocks[name] = (lambda q, p: z3.Or(z3.And(q == j, p == b), h(q, p)), lambda q, p: z3.If(z3.And(q == j, p == b), e, val(q, p)))
            return
        if isinstance(k, str):
            ctx().wrote(self.loc)
            if self.kind not in (None, 'fields'):
                raise Unsupported('keys of different natures')
            self.__dict__['kind'] = 'fields'
            self.fields[k] = v
        elif isinstance(k, SLab) and isinstance(v, D):
            j, = idx(g['key'], k, 'level')
            if v.kind not in (None, 'fields'):
                raise Unsupported('nature of a dictionary')
            s = self.levels()
            for f, x in v.fields.items():
                s.put(j, f, x)
            ctx().wrote(s.loc)
            h = s.has
            s.__dict__['has'] = lambda q: z3.Or(q == j, h(q))
            v.link(('level', s, j))
        else:
            raise Unsupported('key of a dictionary')

    def levels(self):
        """the dictionary of the levels: there is one"""
        g = ctx().ghost['stats']
        if self.kind is None and g.setdefault('levels', self) is self:
            self.__dict__['kind'] = 'levels'
        if self.kind != 'levels':
            raise Unsupported('nature of a dictionary')
        return g['store']

    def __getitem__(self, k):
        g = ctx().ghost['stats']
        if self.kind == 'fields':
            if k not in self.fields:
                raise KeyError(k)
            return self.fields[k]
        if self.kind == 'ref' and self.ref[0] == 'level':
            return self.ref[1].take(self.ref[2], k)
        s = self.levels()
        j, = idx(g['key'], k, 'level')
        ctx().oblige('the level has statistics', s.has(j), 'precondition')
        return level(s, j)

    def values(self):
        g = ctx().ghost['stats']
        s = self.levels()
        j, = bound(1)
        ctx().oblige('every level has statistics', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < g['N']), s.has(j))), 'precondition')
        return VList.sym(wrap(g['N']), lambda q: level(s, Zi(q)))


def level(s, j):
    d = D.__new__(D)
    d.__dict__.update(kind='ref', fields={}, ref=('level', s, j), loc=None)
    return d


class Grouping(object):
    """the groups of the table of a level"""

    def __init__(self, g, what, j):
        self.g, self.what, self.j = g, what, j

    def size(self):
        return Series(self.g, self.what, self.j)

    @property
    def groups(self):
        return At(self.group)

    def group(self, k):
        if self.what != 'on_across':
            raise Unsupported('groups')
        j, b = idx(self.g['bkey'], k, 'block')
        ctx().oblige('the block is one of the level', j == self.j, 'precondition')
        return At(lambda q: Opaque('item', (j, b)) if q == 0 else _bad())


def _bad():
    raise Unsupported('another item of the block')


class Series(object):
    """sizes of the groups of a level"""

    def __init__(self, g, what, j):
        self.g, self.what, self.j = g, what, j

    def __vclen__(self):
        return wrap(self.g['count'][self.what](self.j))

    def items(self):
        if self.what != 'on_across':
            raise Unsupported('items of the sizes')
        g, j = self.g, self.j
        return VList.sym(wrap(g['count']['on_across'](j)), lambda b: (SLab(g['bkey'](j, Zi(b))), wrap(g['size'](j, Zi(b)))))
    iteritems = items

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = k[0]
        if not isinstance(k, Opaque):
            raise Unsupported('size of a group')
        j, b = k.key
        ctx().oblige('size of a group: of this level, by its own key', z3.And(j == self.j, k.what == self.what), 'precondition')
        return wrap(self.g['size_' + self.what](j, b))


def stub_key(k):
    g = ctx().ghost['stats']
    j, b = idx(g['bkey'], k, 'block')
    ac = Opaque('across', (j, b))
    return Opaque('on', (j, b)), (ac, Opaque('across2', (j, b))) if g['mode'] == 'many' else ac


def stub_triplets(self, by, on, across, block, values, with_regressors=True):
    c = ctx()
    g = c.ghost['stats']
    ac = across[0] if isinstance(across, tuple) else across
    if not (isinstance(on, Opaque) and isinstance(ac, Opaque) and isinstance(values, Opaque) and isinstance(block, At)):
        raise Unsupported('arguments of on_across_triplets')
    j, b = values.key
    j2, = idx(g['key'], by, 'level')
    same = lambda o: z3.And(o.key[0] == j, o.key[1] == b)
    c.oblige('triplets of the block: its level', j2 == j, 'precondition')
    c.oblige('triplets of the block: ON and ACROSS of its key', z3.And(on.what == 'on', ac.what == 'across', same(on), same(ac)), 'precondition')
    c.oblige('triplets of the block: its items', same(block[0]), 'precondition')
    n = wrap(g['NT'](j, b))
    trip = Arr((n, 3), lambda i, x: g['T'](j, b, i, x), INT64)
    return (trip, Opaque('regressors', (j, b)), Opaque('block index', (j, b))) if with_regressors else trip


def sum_ext(f, h, n):
    """two sums of equal terms are equal (lemma below)"""
    c = ctx()
    w = fresh_int('differs')
    c.assume(z3.Or(symnp.sum_term(f, n) == symnp.sum_term(h, n), z3.And(Zi(w) >= 0, Zi(w) < n, f(Zi(w)) != h(Zi(w)))))


def prove_ext(E):
    """sums of terms equal below n are equal: induction on n"""
    c = ctx()
    f, h = fresh_fun('f', I, I), fresh_fun('h', I, I)
    n = fresh_int('n', 0)
    k, = bound(1)
    c.assume(fa([k], z3.Implies(z3.And(k >= 0, k < Zi(n) + 1), f(k) == h(k)), f(k), h(k)))
    F, H = lambda m: symnp.sum_term(lambda q: f(q), m), lambda m: symnp.sum_term(lambda q: h(q), m)
    ensures('sums of equal terms: no term', F(z3.IntVal(0)) == H(z3.IntVal(0)))
    ensures('sums of equal terms: one more term', z3.Implies(F(Zi(n)) == H(Zi(n)), F(Zi(n) + 1) == H(Zi(n) + 1)))


def drive(mode):
    def run(E):
        c = ctx()
        n = fresh_int('levels', 0)
        N = Zi(n)
        key, bkey = fresh_fun('by', I, Lab), fresh_fun('block_key', I, I, Lab)
        NI, NOn, NAc, NOA = (fresh_fun(x, I, I) for x in ('items', 'on_groups', 'across_groups', 'blocks'))
        cOA, cOn, cAc = (fresh_fun(x, I, I, I) for x in ('block_size', 'on_size', 'across_size'))
        KEEP, NT, T = fresh_fun('block_kept', I, I, B), fresh_fun('triplets_of', I, I, I), fresh_fun('triplet', I, I, I, I, I)
        FACT = fresh_fun('factorial', I, I, I)
        SB, TOT = fresh_fun('triplets_before', I, I, I), fresh_fun('triplets_of_levels', I, I)
        j, b = bound(2)
        filt = {x: fresh_bool('filters_on_' + x) for x in ('A', 'B', 'X', 'ABX')}
        anyf = z3.Or(*[x.e for x in filt.values()])
        approx = bool(c.fork(fresh_bool('approximate')))
        for f in (NI, NOn, NAc, NOA):
            c.assume(fa([j], f(j) >= 0, f(j)))
        # number of triplets of a block: the contract of on_across_triplets, cardinals of differences
        nA, nX = cOA(j, b), cOn(j, b) - cOA(j, b)
        nB = NI(j) - cOn(j, b) if mode == 'none' else cAc(j, b) - cOA(j, b)
        c.assume(fa([j, b], FACT(j, b) == nA * nB * nX, FACT(j, b), cOA(j, b)))
        c.assume(fa([j, b], z3.And(NT(j, b) >= 0, z3.Implies(z3.And(z3.Not(anyf), mode != 'many'), NT(j, b) == FACT(j, b))), NT(j, b), KEEP(j, b)))
        announced = (lambda j, b: NT(j, b)) if not approx or mode == 'many' else (lambda j, b: FACT(j, b))
        val = lambda j, b: z3.If(KEEP(j, b), announced(j, b), 0)
        z0 = z3.IntVal(0)
        # sums by recurrence
        c.assume(fa([j], SB(j, z0) == 0, SB(j, z0)))
        c.assume(fa([j, b], z3.Implies(b >= 0, SB(j, b + 1) == SB(j, b) + val(j, b)), KEEP(j, b)))

        def lev(k):
            q, = idx(key, k, 'level')
            return q

        def row(k):
            if not isinstance(k, Opaque) or k.what != 'item':
                raise Unsupported('row of the table')
            return Opaque('row', k.key)

        class Table(object):
            def __init__(self, j):
                self.j, self.loc = j, At(row)

            def __vclen__(self):
                return wrap(NI(self.j))

        class Dbs(Ordered):
            def __vc_iter__(self):
                return self.n, lambda q: SLab(key(Zi(q)))
            keys = lambda self: VList.sym(self.n, lambda q: SLab(key(Zi(q))))

        def keep(v):
            if not isinstance(v, Opaque) or v.what != 'values':
                raise Unsupported('values of the block')
            return sbool(KEEP(*v.key))
        g = c.ghost['stats'] = dict(store=None, N=N, key=key, bkey=bkey, mode=mode, NT=NT, T=T, SB=SB, TOT=TOT, val=val, KEEP=KEEP, size=cOA, size_on=cOn, size_across=cAc,
                                    count=dict(on=NOn, across=NAc, on_across=NOA), NI=NI)
        groups = lambda what: At(lambda k: Grouping(g, what, lev(k)))
        task = new_task(E, verbose=0, by_dbs=Dbs(n, key, Table), on_blocks=groups('on'), across_blocks=groups('across'), on_across_blocks=groups('on_across'),
                        filters=NS(dict(filt, on_across_by_filter=keep)), across={'none': ['#across'], 'one': ['column'], 'many': ['column1', 'column2']}[mode], on=['on'])
        g['store'] = Store(g)
        task.compute_statistics(approximate=approx)
        s = g['store']
        st = task.stats
        if not {'nb_triplets', 'nb_on_across_levels'} <= set(s.ints) or 'block_sizes' not in s.blocks:
            raise Unsupported('fields of the statistics')
        r = z3.And(j >= 0, j < N)
        tri, nb = s.ints['nb_triplets'], s.ints['nb_on_across_levels']
        h, v = s.blocks['block_sizes']
        ensures('number of BY levels', Zi(st['nb_by_levels']) == N)
        ensures('the number is announced as approximate only when requested, with filters', Zb(st['approximate_nb_triplets']) == z3.And(approx, anyf))
        ensures('every level has statistics', lambda: z3.ForAll([j], z3.Implies(r, s.has(j))))
        ensures('number of blocks of every level', lambda: z3.ForAll([j], z3.Implies(r, nb(j) == NOA(j))))
        sel = z3.And(r, b >= 0, b < NOA(j))
        ensures('number of triplets of every block: those it contains', lambda: z3.ForAll([j, b], z3.Implies(z3.And(sel, z3.Or(not approx, z3.Not(anyf))), z3.And(
            h(j, b), v(j, b) == z3.If(KEEP(j, b), NT(j, b), 0)))))
        ensures('number of triplets of every level: the sum over its blocks', lambda: z3.ForAll([j], z3.Implies(r, tri(j) == SB(j, NOA(j)))))
        ensures('number of triplets: the sum over the levels', lambda: Zi(st['nb_triplets']) == symnp.sum_term(lambda k: tri(k), N))
        ensures('number of blocks of the progress display', lambda: Zi(task.n_blocks) == Zi(st['nb_blocks']))
        sum_ext(lambda k: NOA(k), lambda k: g['nb0'](k), N)
        ensures('number of blocks: the sum over the levels', lambda: Zi(st['nb_blocks']) == symnp.sum_term(lambda k: NOA(k), N))
    return run


def every(q, body, *ts):
    ps = [t for t in ts if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    return z3.ForAll([q], body, patterns=ps)


def counted(g, q):
    s = g['store']
    if not {'nb_items', 'nb_on_across_levels'} <= set(s.ints) or s.series.get('on_across_levels') != 'on_across' or s.series.get('on_levels') != 'on' or s.series.get('across_levels') != 'across':
        raise Unsupported('fields of the statistics')
    return z3.And(s.has(q), s.ints['nb_items'](q) == g['NI'](q), s.ints['nb_on_across_levels'](q) == g['count']['on_across'](q))


def inv_count(_it, _g):
    g = _g['stats']
    q, = bound(1)
    if not g['store'].ints:
        return Zi(_it) == 0
    return every(q, z3.Implies(z3.And(q >= 0, q < Zi(_it)), counted(g, q)), g['store'].has(q), g['key'](q), g['count']['on_across'](q))


def finished(g, it):
    q, b = bound(2)
    s = g['store']
    NOA = g['count']['on_across']
    fs = [every(q, z3.Implies(z3.And(q >= 0, q < g['N']), counted(g, q)), g['key'](q), s.has(q), s.ints['nb_on_across_levels'](q), NOA(q))]
    if 'nb_triplets' in s.ints and 'block_sizes' in s.blocks:
        h, v = s.blocks['block_sizes']
        fs.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < it), s.ints['nb_triplets'](q) == g['SB'](q, NOA(q)))))
        fs.append(z3.ForAll([q, b], z3.Implies(z3.And(q >= 0, q < it, b >= 0, b < NOA(q)), z3.And(h(q, b), v(q, b) == g['val'](q, b)))))
    else:
        fs.append(it == 0)
    return fs


def inv_levels(_it, _g):
    g = _g['stats']
    s = g['store']
    if not s.ints:
        return g['N'] == 0
    g.setdefault('nb0', s.ints['nb_on_across_levels'])
    return z3.And(*finished(g, Zi(_it)))


def inv_blocks(by, _it, _g):
    g = _g['stats']
    s = g['store']
    j, = idx(g['key'], by, 'level')
    if 'nb_triplets' not in s.ints or 'block_sizes' not in s.blocks:
        raise Unsupported('fields of the statistics')
    b, = bound(1)
    it = Zi(_it)
    h, v = s.blocks['block_sizes']
    return z3.And(*(finished(g, j) + [s.ints['nb_triplets'](j) == g['SB'](j, it),
                                      z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < it), z3.And(h(j, b), v(j, b) == g['val'](j, b))))]))


# ------------------------------------------------------------------ nb_levels

class Block(GroupIndex):
    """the rows of a block; its first item"""

    def __getitem__(self, k):
        if not isinstance(k, int) or k != 0:
            _bad()
        return Opaque('item', self.at)


class OfBlock(object):
    """groups of a level, by a part of the key of a block"""

    def __init__(self, g, what, j):
        self.g, self.what, self.j = g, what, j

    @property
    def groups(self):
        return self

    def __getitem__(self, k):
        g = self.g
        if self.what == 'on_across':
            j, b = idx(g['bkey'], k, 'block')
        else:
            k = k[0] if isinstance(k, tuple) else k
            if not isinstance(k, Opaque):
                raise Unsupported('key of a group')
            j, b = k.key
            ctx().oblige('the group: by its own key', k.what == ('on' if self.what == 'on' else 'across'), 'precondition')
        ctx().oblige('the group is one of the level', j == self.j, 'precondition')
        r = Block(lambda v: z3.And(g['IN'](j, v), *[g[x](j, b, v) for x in dict(on=['ONE'], across=['ACE'], anti=['ANTI'], on_across=['ONE', 'ACE'])[self.what]]), self.what)
        r.at = (j, b)
        v, = bound(1)
        ctx().assume(fa([v], z3.Implies(r.pred(v), z3.And(r.rank(v) >= 0, r.rank(v) < Zi(r.n), r.el(r.rank(v)) == v)), g['IN'](j, v)))    # as in GroupIndex, to be found
        return r


class Rows(object):
    """some rows of the table of a level"""

    def __init__(self, g, j, a):
        self.g, self.j, self.a = g, j, a

    def groupby(self, cols):
        ctx().oblige('the levels are those of the columns ON and ACROSS', list(cols) == (['on'] if self.g['mode'] == 'none' else ['on'] + ACROSS[self.g['mode']]), 'precondition')
        return self

    @property
    def groups(self):
        return self

    def __vclen__(self):
        """number of levels of a set of rows: the items B, or the items X, of the current block"""
        g, c = self.g, ctx()
        b = g['block']
        f, n = self.a.snap(), Zi(self.a.shape[0])
        i, = bound(1)
        v = z3.Int('skolem_v')

        def sound(pred):
            return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), pred(f(i))))
        core, W = invert(f(i), v)
        if not z3.eq(core, i):
            raise Unsupported('rows of the table')
        for role, ax in (('B', 'GB'), ('X', 'GX')):
            pred = lambda q, role=role: g[role](self.j, b, q)
            if role == 'X' or provable(sound(pred)):
                c.oblige('rows of the table: the items %s of the block' % role, sound(pred), 'precondition')
                c.oblige('rows of the table: all the items %s of the block' % role, z3.Implies(pred(v), z3.And(W >= 0, W < n, f(W) == v)), 'precondition')
                return wrap(g[ax](self.j, b))


ACROSS = {'none': ['#across'], 'one': ['column'], 'many': ['column1', 'column2']}


def drive_nb_levels(mode):
    def run(E):
        c = ctx()
        n = fresh_int('levels', 0)
        N = Zi(n)
        key, bkey = fresh_fun('by', I, Lab), fresh_fun('block_key', I, I, Lab)
        NOA, KEEP = fresh_fun('blocks', I, I), fresh_fun('block_kept', I, I, B)
        IN, maxi = fresh_fun('IN', I, I, B), fresh_int('max_label', 0)
        ONE, ACE, ANTI = (fresh_fun(x, I, I, I, B) for x in ('on_eq', 'across_eq', 'across_all_diff'))
        GB, GX, wB, wX, LB = (fresh_fun(x, I, I, I) for x in ('levels_B', 'levels_X', 'some_B', 'some_X', 'levels_before'))
        j, b, v = bound(3)
        z0 = z3.IntVal(0)
        c.assume(fa([j], NOA(j) >= 0, NOA(j)))
        c.assume(fa([j, v], z3.Implies(IN(j, v), z3.And(v >= 0, v <= Zi(maxi))), IN(j, v)))
        if mode == 'many':
            c.assume(fa([j, b, v], z3.Implies(ANTI(j, b, v), z3.Not(ACE(j, b, v))), ANTI(j, b, v)))
        dt = symbolic_uint('item_type')
        c.assume(dt.maxv >= maxi)
        Bp = lambda j, b, v: z3.And(IN(j, v), z3.Not(ONE(j, b, v)), mode == 'none' or ACE(j, b, v))
        Xp = lambda j, b, v: z3.And(IN(j, v), ONE(j, b, v), ANTI(j, b, v) if mode == 'many' else z3.Not(ACE(j, b, v)))
        # no row, no level
        for G, w, p in ((GB, wB, Bp), (GX, wX, Xp)):
            c.assume(fa([j, b], z3.And(G(j, b) >= 0, z3.Or(G(j, b) == 0, p(j, b, w(j, b)))), G(j, b), KEEP(j, b)))
        val = lambda j, b: z3.If(KEEP(j, b), GB(j, b) * GX(j, b), 0)
        c.assume(fa([j], LB(j, z0) == 0, LB(j, z0)))
        c.assume(fa([j, b], z3.Implies(b >= 0, LB(j, b + 1) == LB(j, b) + val(j, b)), KEEP(j, b)))
        filt = {x: fresh_bool('filters_on_' + x) for x in ('A', 'B', 'X', 'ABX')}

        def lev(k):
            q, = idx(key, k, 'level')
            return q

        class Table(object):
            def __init__(self, j):
                self.j, self.loc = j, At(self.row)

            def row(self, k):
                if isinstance(k, Opaque) and k.what == 'item':
                    return Opaque('row', k.key)
                if isinstance(k, Arr):
                    return Rows(g, self.j, k)
                raise Unsupported('row of the table')

            @property
            def index(self):
                return GroupIndex(lambda v: IN(self.j, v), 'index')

        def keep(x):
            if not isinstance(x, Opaque) or x.what != 'values':
                raise Unsupported('values of the block')
            g['block'] = x.key[1]
            return sbool(KEEP(*x.key))
        g = c.ghost['stats'] = dict(N=N, key=key, bkey=bkey, mode=mode, KEEP=KEEP, IN=IN, ONE=ONE, ACE=ACE, ANTI=ANTI, B=Bp, X=Xp, GB=GB, GX=GX, LB=LB, size=fresh_fun('block_size', I, I, I),
                                    count=dict(on_across=NOA))
        s = g['store'] = Store(g)
        s.__dict__.update(has=lambda q: z3.And(q >= 0, q < N), series=dict(on_across_levels='on_across'))
        by_stats, stats = D(), D()
        by_stats.levels()
        stats['nb_by_levels'] = n
        groups = lambda what: At(lambda k: OfBlock(g, what, lev(k)))
        anti = At(lambda k: OfBlock(g, 'anti', lev(k)))
        task = new_task(E, verbose=0, by_dbs=By(n, key, Table), on_blocks=groups('on'), across_blocks=groups('across'), on_across_blocks=groups('on_across'), antiacross_blocks=anti,
                        types=At(lambda k: dt), filters=NS(dict(filt, on_across_by_filter=keep)), across=ACROSS[mode], on=['on'], by_stats=by_stats, stats=stats)
        anyf = z3.Or(*[x.e for x in filt.values()])
        try:
            task.compute_nb_levels()
        except ValueError:
            ensures('refused only with filters on items or triplets', anyf)
            return
        ensures('not computed with filters on items or triplets', z3.Not(anyf))
        if 'nb_levels' not in s.ints:
            raise Unsupported('fields of the statistics')
        nl_ = s.ints['nb_levels']
        ensures('levels of every BY level: level of B times level of X, over the blocks', lambda: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), nl_(j) == LB(j, NOA(j)))))
        ensures('number of levels: the sum over the BY levels', lambda: Zi(stats['nb_levels']) == symnp.sum_term(lambda k: nl_(k), N))
    return run


class By(Ordered):
    """the tables of the BY levels"""

    def index(self, k):
        q, = idx(ctx().ghost['stats']['key'], k, 'level')
        return q


def inv_by(_it, _g):
    g = _g['stats']
    q, = bound(1)
    s = g['store']
    f = s.ints.get('nb_levels')
    has = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < g['N']), s.has(q)))
    if f is None:
        return z3.And(Zi(_it) == 0, has)
    return z3.And(has, every(q, z3.Implies(z3.And(q >= 0, q < Zi(_it)), f(q) == g['LB'](q, g['count']['on_across'](q))), f(q)))


def inv_n(n, by, _it, _g):
    g = _g['stats']
    j, = idx(g['key'], by, 'level')
    return Zi(n) == g['LB'](j, Zi(_it))


def vdict(*a):
    if len(a) == 1 and isinstance(a[0], Opaque) and a[0].what == 'row':
        return Opaque('values', a[0].key)
    if not a:
        return D()
    raise Unsupported('dict of this value')


def hook_dict(d):
    if d:
        raise Unsupported('dictionary')
    return D()


TARGETS = [Target('lemma: sums of equal terms', P, prove_ext, ['C06'], covers=['Task.compute_statistics'])] + [
    Target('Task.compute_statistics (%s)' % m, P, drive(m), ['C06'], stubs=task_stubs, hooks={'dict': hook_dict}, builtins=lambda E: {'dict': vdict},
           loops={('Task.compute_statistics', 0): Spec(inv_count), ('Task.compute_statistics', 1): Spec(inv_levels), ('Task.compute_statistics', 2): Spec(inv_blocks)},
           replace={P: {'Task.on_across_triplets': stub_triplets, 'on_across_from_key': stub_key}}, covers=['Task.compute_statistics'],
           assumptions=['groups of pandas: keys, sizes and rows', 'contract of on_across_triplets (proved); cardinal of a difference of finite sets', 'contract of the filters',
                        'numbers of triplets are mathematical integers'])
    for m in ('none', 'one', 'many')]

TARGETS += [Target('Task.compute_nb_levels (%s)' % m, P, drive_nb_levels(m), ['C06'], stubs=task_stubs, builtins=lambda E: {'dict': vdict},
                   loops={('Task.compute_nb_levels', 0): Spec(inv_by), ('Task.compute_nb_levels', 1): Spec(inv_n)},
                   replace={P: {'on_across_from_key': stub_key}}, covers=['Task.compute_nb_levels'],
                   assumptions=['groups of pandas: keys and rows; a set of rows without row has no level', 'contract of the filters', 'numbers of levels are mathematical integers'])
            for m in ('none', 'one', 'many')]
