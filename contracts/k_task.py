"""Contracts of the task module: triplets of a block (C01, C02, C03, C07), sampling of
the groups (C03), pairs (C04), refusal of an existing file (C20)."""
from contracts.common import *
from pyvc.core import Lab as LAB
from pyvc.engine import instrument
from pyvc import nl

P = 'ABXpy/task.py'


def task_stubs(E):
    d = files_stub(E)
    for m in ('tables', 'tempfile', 'argparse', 'pandas'):
        d[m] = StubModule(m)
    for m in ('database.database', 'h5tools.np2h5', 'h5tools.h52np', 'h5tools.h5_handler', 'h5tools.h5io', 'sideop.filter_manager',
              'sideop.regressor_manager', 'misc.progress_display'):
        d['ABXpy.' + m] = StubModule(m)
    d['ABXpy.sampling.sampler'] = SAMPLER
    d['six'] = StubModule('six', iteritems=lambda d: d.items(), itervalues=lambda d: d.values())
    return d


# --------------------------------------------------------- sort_and_threshold

def drive_sort(E):
    c = ctx()
    N = fresh_int('n', 1)
    n = Zi(N)
    new_index = fresh_arr('new_index', (N,), symbolic_uint('index_type'))
    p, q = fresh_fun('perm', I, I), fresh_fun('perm_inv', I, I)
    i, j, g, k, k2, h = bound(6)
    rng = lambda x: z3.And(x >= 0, x < n)
    c.assume(fa([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), p(i)))
    c.assume(fa([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), q(i)))
    f = new_index.snap()
    c.assume(fa([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), f(p(i)) <= f(p(j))), (p(i), p(j))))
    permut = Arr((N,), lambda i: p(i), INT64)
    kind = 'none' if c.fork(fresh_bool('no threshold')) else 'some'
    thr = fresh_int('threshold', 1) if kind == 'some' else (None if c.fork(fresh_bool('None')) else False)
    c.ghost['sort'] = dict(q=q, p=p, n=n, thr=thr)
    res, uidx = E.fn('sort_and_threshold')(permut, new_index, new_index.dtype, threshold=thr)
    u = uidx.snap()
    G = Zi(uidx.shape[0]) - 1
    if 'pieces' not in res.facts:
        raise Unsupported('the result is not the concatenation of the groups')
    off = res.facts['pieces'][1]
    piece = res.facts['pieces'][0]
    o = res.snap()
    L = lambda g: z3.If(u(g + 1) - u(g) > Zi(thr), Zi(thr), u(g + 1) - u(g)) if thr else u(g + 1) - u(g)
    grp = lambda g: z3.And(g >= 0, g < G)
    rank = uidx.facts.get('rank')
    if rank is not None:
        lemma('first and last boundaries', z3.And(u(rank(z3.IntVal(0))) == 0, u(rank(n)) == n, rank(n) <= G, rank(z3.IntVal(0)) >= 0))
    ensures('the groups are intervals of the sorted rows', lambda: z3.And(G >= 1, u(z3.IntVal(0)) == 0, u(G) == n,
                                                                       z3.ForAll([g], z3.Implies(grp(g), z3.And(u(g) < u(g + 1), 0 <= u(g), u(g + 1) <= n)))))
    if rank is not None:
        derive('no boundary within a group', [g, i], z3.And(grp(g), u(g) < i, i < u(g + 1)),
               z3.Or(f(p(i)) == f(p(i - 1)), z3.And(u(rank(i)) == i, rank(i) >= 0, rank(i) <= G)), f(p(i)) == f(p(i - 1)), (p(i), u(g)))
    induction('no change within a group', lambda e: z3.ForAll([g], z3.Implies(z3.And(grp(g), u(g) <= e, e < u(g + 1)), f(p(e)) == f(p(u(g))))),
              0, N - 1, lambda e, g: [(p(e), u(g))])
    ensures('rows of a group have the same index', lambda: z3.ForAll([g, i], z3.Implies(z3.And(grp(g), u(g) <= i, i < u(g + 1)), f(p(i)) == f(p(u(g))))))
    ensures('rows of different groups have different indices', lambda: z3.ForAll([g, h], z3.Implies(z3.And(grp(g), grp(h), g < h), f(p(u(g))) < f(p(u(h))))))
    ensures('offsets of the groups', lambda: z3.And(off(z3.IntVal(0)) == 0, Zi(res.shape[0]) == off(G), z3.ForAll([g], z3.Implies(grp(g), off(g + 1) == off(g) + L(g)))))
    M = induction('groups are in order in the result', lambda t: z3.ForAll([g], z3.Implies(z3.And(grp(g), g + 1 + t <= G), off(g + 1) <= off(g + 1 + t))), 0, wrap(G),
                  lambda t, g: [off(g + 1 + t)])
    use(M, [g, h], [h - g - 1, g], (off(g), off(h)))
    lemma('the group of a position', z3.ForAll([g, k], z3.Implies(z3.And(grp(g), 0 <= k, k < L(g)), piece(off(g) + k) == g)))
    M2 = induction('boundaries are in order', lambda t: z3.ForAll([g], z3.Implies(z3.And(grp(g), g + 1 + t <= G), u(g + 1) <= u(g + 1 + t))), 0, wrap(G), lambda t, g: [u(g + 1 + t)])
    use(M2, [g, h], [h - g - 1, g], (u(g), u(h)))
    ensures('a sorted row is in one group', lambda: z3.ForAll([g, h, k], z3.Implies(z3.And(grp(g), grp(h), u(g) <= k, k < u(g + 1), u(h) <= k, k < u(h + 1)), g == h)))
    # the group of a sorted row: a definition, since there is one at most
    home = fresh_fun('group.home', I, I)
    ctx().assume(fa([g, k], z3.Implies(z3.And(grp(g), u(g) <= k, k < u(g + 1)), home(k) == g), (u(g), home(k))))
    induction('sorted rows are in groups', lambda t: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < u(t)), z3.And(home(k) >= 0, home(k) < t, u(home(k)) <= k, k < u(home(k) + 1)))), 0, wrap(G),
              lambda t, k: [(home(k), u(t))])
    ensures('every sorted row is in a group', lambda: z3.ForAll([k], z3.Implies(rng(k), z3.And(grp(home(k)), u(home(k)) <= k, k < u(home(k) + 1)))))
    ensures('every row of the result is in a group', lambda: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Zi(res.shape[0])), z3.And(
        grp(piece(k)), off(piece(k)) <= k, k < off(piece(k) + 1)))))
    ensures('a row of the result is in one group', lambda: z3.ForAll([g, h, k], z3.Implies(z3.And(grp(g), grp(h), off(g) <= k, k < off(g + 1), off(h) <= k, k < off(h + 1)), g == h)))
    el = lambda g, k: o(off(g) + k)
    ingr = z3.And(grp(g), 0 <= k, k < L(g))
    ensures('rows of a group', lambda: z3.ForAll([g, k], z3.Implies(ingr, z3.And(rng(el(g, k)), u(g) <= q(el(g, k)), q(el(g, k)) < u(g + 1)))))
    ensures('distinct rows in a group', lambda: z3.ForAll([g, k, k2], z3.Implies(z3.And(ingr, k < k2, k2 < L(g)), el(g, k) != el(g, k2))))
    if not thr:
        ensures('everything is kept without threshold', lambda: z3.ForAll([g, k], z3.Implies(ingr, el(g, k) == p(u(g) + k))))


def inv_sort(new_permut, i, unique_idx, _it, _g):
    d = _g['sort']
    q, p, n, thr = d['q'], d['p'], d['n'], d['thr']
    u = unique_idx.snap()
    it = Zi(_it)
    g, k, k2 = bound(3)
    out = [Zi(i) == u(it), Zi(new_permut.__vclen__()) == it]
    if new_permut.conc is not None and not new_permut.conc:
        return z3.And(*out)
    a = new_permut.vc_snapshot()
    a._symbolize()
    x = a.fn(g)
    if not (isinstance(x, Arr) and x.ndim == 1):
        raise Unsupported('pieces that are not vectors')
    c = u(g + 1) - u(g)
    L = z3.If(c > Zi(thr), Zi(thr), c) if thr else c
    r = z3.And(g >= 0, g < it)
    e = lambda k: x.at(k)
    ks = z3.And(r, k >= 0, k < L)
    out.append(z3.ForAll([g], z3.Implies(r, Zi(x.shape[0]) == L)))
    out.append(z3.ForAll([g, k], z3.Implies(ks, z3.And(e(k) >= 0, e(k) < n, u(g) <= q(e(k)), q(e(k)) < u(g + 1)))))
    out.append(z3.ForAll([g, k, k2], z3.Implies(z3.And(ks, k < k2, k2 < L), e(k) != e(k2))))
    if not thr:
        out.append(z3.ForAll([g, k], z3.Implies(ks, e(k) == p(u(g) + k))))
    return z3.And(*out)


from contracts.k_sampler import stub_draw

SAMPLER = StubModule('sampler', sample_without_replacement=stub_draw)



# --------------------------------------------------------- on_across_triplets

class GroupIndex(object):
    """index of a group of pandas: the labels of its rows, all different"""

    def __init__(self, pred, name):
        self.pred = pred
        c = ctx()
        self.n = fresh_int(name + '.n', 0)
        self.el, self.rank = fresh_fun(name, I, I), fresh_fun(name + '.rank', I, I)
        el, rank = self.el, self.rank
        i, v = bound(2)
        c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < Zi(self.n)), z3.And(pred(el(i)), rank(el(i)) == i)), el(i)))
        c.assume(fa([v], z3.Implies(pred(v), z3.And(rank(v) >= 0, rank(v) < Zi(self.n), el(rank(v)) == v)), rank(v)))
        c.ghost.setdefault('ranks', {})[el(i).decl().name()] = rank

    def arr(self):
        return Arr((self.n,), lambda i: self.el(i), INT64)

    values = property(arr)

    def __vc_array__(self):
        return self.arr()

    def __vc_set__(self):
        return SSet(I, self.pred)

    def __vc_iter__(self):
        return self.n, lambda i: wrap(self.el(Zi(i)))

    def __vclen__(self):
        return self.n

    def __getitem__(self, k):
        return self.arr()[k]


class Groups(object):
    def __init__(self, **d):
        self.d = d

    @property
    def groups(self):
        return self

    def __getitem__(self, k):
        for key, v in self.d.values():
            if k is key:
                return v
        raise Unsupported('another key of the groups')


def block_world(E, mode):
    """a block of a BY level: predicates on the row labels"""
    c = ctx()
    w = NS({})
    IN, ONE, ACE, ANTI = (fresh_fun(n, I, B) for n in ('IN', 'on_eq', 'across_eq', 'across_all_diff'))
    maxi = fresh_int('max_label', 0)
    v, v2 = bound(2)
    c.assume(fa([v], z3.Implies(IN(v), z3.And(v >= 0, v <= Zi(maxi))), IN(v)))
    if mode == 'many':
        c.assume(fa([v], z3.Implies(ANTI(v), z3.Not(ACE(v))), ANTI(v)))
    if mode == 'none':
        # one level of '#across' per row
        c.assume(fa([v, v2], z3.Implies(z3.And(ACE(v), ACE(v2)), v == v2), (ACE(v), ACE(v2))))
    dt = symbolic_uint('item_type')
    c.assume(dt.maxv >= maxi)
    rows = {}

    def group(name, pred):
        if name not in rows:
            rows[name] = GroupIndex(pred, name)
        return rows[name]
    on = fresh_lab('on')
    across = (fresh_lab('across1'), fresh_lab('across2')) if mode == 'many' else fresh_lab('across')
    all_, gon = group('index', IN), group('on_group', lambda v: z3.And(IN(v), ONE(v)))
    gac = group('across_group', lambda v: z3.And(IN(v), ACE(v)))
    anti = group('anti_group', lambda v: z3.And(IN(v), ANTI(v)))
    block = group('block', lambda v: z3.And(IN(v), ONE(v), ACE(v)))
    c.assume(block.n >= 1)
    values = NS(dict(values=1))
    db = NS(dict(index=all_))
    BY = 'by level'
    task = E.fn('Task').__new__(E.fn('Task'))
    d = task.__dict__
    d.update(types={BY: dt}, by_dbs={BY: db}, on_blocks={BY: Groups(on=(on, gon))}, across_blocks={BY: Groups(across=(across, gac))},
             antiacross_blocks={BY: Groups(across=(across, anti))},
             across={'none': ['#across'], 'one': ['column'], 'many': ['column1', 'column2']}[mode], on=['on'], verbose=0)
    xpred = (lambda v: z3.And(IN(v), ONE(v), ANTI(v))) if mode == 'many' else (lambda v: z3.And(IN(v), ONE(v), z3.Not(ACE(v))))
    bpred = (lambda v: z3.And(IN(v), z3.Not(ONE(v)))) if mode == 'none' else (lambda v: z3.And(IN(v), ACE(v), z3.Not(ONE(v))))
    apred = lambda v: z3.And(IN(v), ONE(v), ACE(v))
    w.__dict__.update(task=task, dt=dt, on=on, across=across, block=block, values=values, db=db, BY=BY, A=apred, B=bpred, X=xpred, mode=mode)
    return w


class Filters(object):
    """the filters: opaque predicates; the contract of the singleton and vectorial filters
    (positions of the items, or triplets, that satisfy all the filters of the class)"""

    def __init__(self, w):
        self.w = w
        self.f = {x: fresh_fun('filter_' + x, I, B) for x in 'ABX'}
        self.fABX = fresh_fun('filter_ABX', I, I, I, B)
        for x in ('A', 'B', 'X', 'ABX'):
            setattr(self, x, fresh_bool('filters_on_' + x))      # truth value of the list of filters
        for x in 'ABX':
            setattr(self, x + '_filter', lambda values, db, rows, x=x: self.select(x, values, db, rows))

    def select(self, x, values, db, rows):
        ctx().oblige('%s filters are given the values and the table of the block' % x, values is self.w.values and db is self.w.db, 'precondition')
        g = rows.snap()
        return symnp.np_where(Arr((rows.shape[0],), lambda i: self.f[x](g(i)), BOOL))[0]

    def ABX_filter(self, values, db, triplets):
        ctx().oblige('ABX filters are given the values and the table of the block', values is self.w.values and db is self.w.db, 'precondition')
        ctx().oblige('ABX filters are given triplets', Zi(triplets.shape[1]) == 3, 'precondition')
        g = triplets.snap()
        return symnp.np_where(Arr((triplets.shape[0],), lambda i: self.fABX(g(i, z3.IntVal(0)), g(i, z3.IntVal(1)), g(i, z3.IntVal(2))), BOOL))[0]

    def keeps(self, x, v):
        return z3.Implies(getattr(self, x).e, self.f[x](v))

    def keeps3(self, a, b, x):
        return z3.Implies(self.ABX.e, self.fABX(a, b, x))


class Regressors(object):
    """the regressors: for each function and each of its outputs, an index for every item"""

    def __init__(self, w):
        self.w = w
        self.arg = {}
        self.ABX = fresh_bool('regressors_on_ABX')
        for x in 'ABX':
            setattr(self, 'set_%s_regressors' % x, lambda values, db, rows, x=x: self.set(x, values, db, rows))
        c = ctx()
        self.nf = {x: fresh_int('functions_' + x, 1 if x == 'B' else 0) for x in 'ABX'}
        self.no = {x: fresh_fun('outputs_' + x, I, I) for x in 'ABX'}
        self.val = {x: fresh_fun('reg_' + x, I, I, I, I) for x in 'ABX'}
        q, o, v = bound(3)
        for x in 'ABX':
            n, f = self.no[x], self.val[x]
            c.assume(fa([q], n(q) >= 1, n(q)))
            c.assume(fa([q, o, v], z3.And(f(q, o, v) >= 0, f(q, o, v) < 2 ** 62), f(q, o, v)))

    def set(self, x, values, db, rows):
        ctx().oblige('%s regressors are given the values and the table of the block' % x, values is self.w.values and db is self.w.db, 'precondition')
        g, n = rows.snap(), rows.shape[0]
        self.arg[x] = rows
        no, val = self.no[x], self.val[x]
        setattr(self, x + '_regressors', VList.sym(self.nf[x], lambda q: VList.sym(wrap(no(Zi(q))), lambda o: Arr(
            (n,), lambda i: val(Zi(q), Zi(o), g(i)), INT64))))


    def set_ABX_regressors(self, values, db, triplets):
        ctx().oblige('ABX regressors are given the values and the table of the block', values is self.w.values and db is self.w.db, 'precondition')
        self.triplets = triplets


def stub_reg_fit(n, is_signed=True):
    """contract of fit_integer_type; on the number of combinations of regressors, sets up
    the facts about their codes"""
    c = ctx()
    g = c.ghost.get('block')
    if g is None or 'prod' not in c.ghost or 'codes' in g:
        return stub_fit_integer_type(n, is_signed)
    A_, PR = c.ghost['prod']
    if 'max' not in c.ghost:
        raise Unsupported('the numbers of levels')
    a, m = c.ghost['max']
    if a.ndim != 2:
        raise Unsupported('the regressors are not a matrix')
    X = a.snap()
    K, M = Zi(a.shape[1]), Zi(a.shape[0])
    dt, E = code_facts(A_, PR, K, M, A_.snap(), X, n, is_signed, 'triplets')
    g['codes'] = dict(E=E, K=K, M=M, X=X, PR=PR)
    return dt


def inv_codes(new_index, _it, _g):
    g = _g['block'].get('codes')
    if g is None:
        raise Unsupported('codes of something else than the regressors')
    i, = bound(1)
    t = new_index.at(i)
    p = [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else [g['E'](i, Zi(_it))]
    return z3.And(Zi(new_index.shape[0]) == g['M'], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g['M']), t == g['E'](i, Zi(_it))), patterns=p),
                  Zi(new_index.dtype.maxv) >= g['PR'](g['K']))


def stub_sort(permut, new_index, ind_type, threshold=None, count_only=False):
    """contract of sort_and_threshold, proved above"""
    c = ctx()
    if count_only or 'argsort' not in c.ghost or 'block' not in c.ghost:
        raise Unsupported('sort_and_threshold')
    p, q, n = c.ghost['argsort']
    N = Zi(n)
    i, j, g, h, k, k2 = bound(6)
    rng = lambda x: z3.And(x >= 0, x < N)
    f, pp = new_index.snap(), permut.snap()
    c.oblige('sort_and_threshold: a non empty permutation', z3.And(N >= 1, Zi(permut.shape[0]) == N, Zi(new_index.shape[0]) == N, z3.ForAll([i], z3.Implies(rng(i), pp(i) == p(i)))), 'precondition')
    c.oblige('sort_and_threshold: the permutation sorts the index', z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), f(p(i)) <= f(p(j)))), 'precondition')
    thr = None if threshold is None or threshold is False else threshold
    if thr is not None:
        c.oblige('sort_and_threshold: a positive threshold', Zi(thr) >= 1, 'precondition')
    G = fresh_int('groups', 1)
    u, off = fresh_fun('group', I, I), fresh_fun('group.offset', I, I)
    o, grp_of = fresh_fun('sorted', I, I), fresh_fun('group.of', I, I)
    gr = lambda g: z3.And(g >= 0, g < Zi(G))
    L = (lambda g: z3.If(u(g + 1) - u(g) > Zi(thr), Zi(thr), u(g + 1) - u(g))) if thr is not None else (lambda g: u(g + 1) - u(g))
    total = fresh_int('kept', 0)
    T = Zi(total)
    c.assume(z3.And(u(z3.IntVal(0)) == 0, u(Zi(G)) == N, off(z3.IntVal(0)) == 0, off(Zi(G)) == T))
    c.assume(fa([g], z3.Implies(gr(g), z3.And(u(g) < u(g + 1), 0 <= u(g), u(g + 1) <= N, off(g + 1) == off(g) + L(g), off(g) >= 0, off(g + 1) <= T)), u(g)))
    c.assume(fa([g], z3.Implies(gr(g), z3.And(off(g + 1) == off(g) + L(g), off(g) >= 0, off(g + 1) <= T)), off(g)))
    c.assume(fa([g, i], z3.Implies(z3.And(gr(g), u(g) <= i, i < u(g + 1)), f(p(i)) == f(p(u(g)))), (u(g), p(i))))
    c.assume(fa([g, h], z3.Implies(z3.And(gr(g), gr(h), g < h), f(p(u(g))) < f(p(u(h)))), (u(g), u(h))))
    # every sorted row is in a group, every position of the result too
    home = fresh_fun('group.home', I, I)
    c.assume(fa([k], z3.Implies(rng(k), z3.And(gr(home(k)), u(home(k)) <= k, k < u(home(k) + 1))), home(k)))
    c.assume(fa([g, k], z3.Implies(z3.And(gr(g), u(g) <= k, k < u(g + 1)), home(k) == g), (u(g), home(k))))
    c.assume(fa([g, k], z3.Implies(z3.And(gr(g), off(g) <= k, k < off(g + 1)), grp_of(k) == g), (off(g), grp_of(k))))
    c.assume(fa([k], z3.Implies(z3.And(k >= 0, k < T), z3.And(gr(grp_of(k)), off(grp_of(k)) <= k, k < off(grp_of(k) + 1))), o(k), grp_of(k)))
    c.assume(fa([k], z3.Implies(z3.And(k >= 0, k < T), z3.And(rng(o(k)), u(grp_of(k)) <= q(o(k)), q(o(k)) < u(grp_of(k) + 1))), o(k)))
    c.assume(fa([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < T), o(k) != o(k2)), (o(k), o(k2))))
    if thr is None:
        c.assume(T == N)
        c.assume(fa([k], z3.Implies(z3.And(k >= 0, k < T), o(k) == p(k)), o(k)))
        c.ghost.setdefault('ranks', {})[o(k).decl().name()] = q
    c.ghost['block']['sort'] = dict(G=G, u=u, off=off, o=o, q=q, f=f, p=p, thr=thr, N=N, grp_of=grp_of, T=T, home=home)
    r = Arr((total,), lambda k: o(k), INT64)
    r.facts['nonneg'] = True
    return r, fresh_arr('boundaries', (G + 1,), INT64)


def stub_compute_regressors(self, triplets, iA, iB, iX, ABX_filter_ind, thr_sort_permut):
    """contract of Task._compute_regressors: the selections give the items of the triplets"""
    c = ctx()
    g = c.ghost['block']
    fl, rg = g['filters'], self.__dict__['regressors']
    t, = bound(1)
    n = Zi(triplets.shape[0])
    rng = z3.And(t >= 0, t < n)
    for col, (x, idx) in enumerate((('A', iA), ('B', iB), ('X', iX))):
        if x not in rg.arg:
            c.oblige('the regressors are set', False, 'precondition')
        rows = rg.arg[x]
        sel = idx
        if fl.ABX:
            sel = sel[ABX_filter_ind]
        sel = sel[thr_sort_permut]
        s, r = sel.snap(), rows.snap()
        c.oblige('as many %s items as triplets' % x, Zi(sel.shape[0]) == n, 'precondition')
        c.oblige('%s items of the triplets' % x, z3.ForAll([t], z3.Implies(rng, z3.And(s(t) >= 0, s(t) < Zi(rows.shape[0]), r(s(t)) == triplets.at(t, col)))), 'precondition')
    return 'regressors of the block'


def invert(t, v):
    """t: element functions applied to ... applied to a term; -> that term, and its value when t is v"""
    ranks = ctx().ghost['ranks']
    t = z3.simplify(t)
    while z3.is_app(t) and t.decl().name() in ranks and t.num_args() == 1:
        v = ranks[t.decl().name()](v)
        t = t.arg(0)
    return t, v


def drive_triplets(mode):
    def drive(E):
        c = ctx()
        nl.enable()
        w = block_world(E, mode)
        fl = Filters(w)
        rg = Regressors(w)
        w.task.__dict__.update(filters=fl, regressors=rg)
        withreg = c.fork(fresh_bool('with regressors'))
        # the threshold: a case is chosen when it is used
        given, number = fresh_bool('threshold given'), fresh_int('threshold', 1)
        choice = {}

        def threshold(self):
            if 'thr' not in choice:
                choice['thr'] = number if c.fork(given) else False
            return choice['thr']
        E.fn('Task').threshold = property(threshold)
        g = c.ghost['block'] = dict(w=w, filters=fl, base=len(c.pc), fields=dict(w.task.__dict__), withreg=withreg)
        args = (w.BY, w.on, w.across, w.block, w.values)
        f = w.task.on_across_triplets
        try:
            res = f(*args) if withreg else f(*args, with_regressors=False)
        except ValueError as e:
            if str(e) != 'no type':
                raise
            return              # more than 2**64 combinations: refused (C17)
        except AssertionError:
            if 'prod' not in c.ghost:
                raise
            A_, PR = c.ghost['prod']
            ensures('refused only if the combinations of regressors cannot be coded', lambda: sbool(PR(Zi(A_.shape[0])) >= 2 ** 64 - 1))
            return
        if withreg:
            res, regs, bi = res
            ensures('the regressors are those of the triplets', regs == 'regressors of the block')
            if hasattr(rg, 'triplets'):
                ensures('the ABX regressors are those of the triplets', rg.triplets is res)
        thr = choice.get('thr', False)
        trip = res
        a, b, x, t, t2 = bound(5)
        n = Zi(trip.shape[0])
        at = lambda t, k: trip.at(t, z3.IntVal(k))
        rng = lambda t: z3.And(t >= 0, t < n)
        ensures('triplets have three columns', lambda: z3.And(trip.ndim == 2, Zi(trip.shape[1]) == 3))
        OK = lambda a, b, x: z3.And(w.A(a), w.B(b), w.X(x), fl.keeps('A', a), fl.keeps('B', b), fl.keeps('X', x), fl.keeps3(a, b, x))
        ensures('only triplets of the specification', lambda: z3.ForAll([t], z3.Implies(rng(t), OK(at(t, 0), at(t, 1), at(t, 2)))))
        ensures('no triplet twice', lambda: z3.ForAll([t, t2], z3.Implies(z3.And(rng(t), rng(t2), t < t2), z3.Or(*[at(t, k) != at(t2, k) for k in range(3)]))))
        if thr is False:
            exact(at, rng, OK, '')
        elif 'sort' in g:
            grouping(g, trip, rg, OK)
    return drive


def cut_items(ns):
    """once the size is known: A, B and X are the items allowed, and the regressors theirs"""
    c = ctx()
    g = c.ghost['block']
    if 'cut' in g:
        return None
    w, fl, rg = g['w'], g['filters'], g['fields']['regressors']
    g['cut'] = True

    def new():
        i, j, y = bound(3)
        for x in 'ABX':
            a = getattr(ns, x)
            e, n, pred = a.snap(), Zi(a.shape[0]), getattr(w, x)
            rng = lambda i: z3.And(i >= 0, i < n)
            ok = lambda v: z3.And(pred(v), fl.keeps(x, v))
            ensures('%s: only the items of the specification' % x, lambda: z3.ForAll([i], z3.Implies(rng(i), ok(e(i)))))
            ensures('%s: no item twice' % x, lambda: z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), e(i) != e(j))))
            end, W = invert(e(i), y)
            if not z3.eq(end, i):
                raise Unsupported('%s items that are not a selection: %s' % (x, end))
            ensures('%s: every item of the specification' % x, lambda: z3.ForAll([y], z3.Implies(ok(y), z3.And(rng(W), e(W) == y))))
            if g['withreg']:
                ensures('the %s regressors are set' % x, x in rg.arg)
                r = rg.arg[x]
                ensures('the %s regressors are those of the %s items' % (x, x), lambda: z3.And(Zi(r.shape[0]) == n, z3.ForAll([i], z3.Implies(rng(i), r.snap()(i) == e(i)))))
        n = [Zi(getattr(ns, x).shape[0]) for x in 'ABX']
        ensures('number of combinations', lambda: Zi(ns.size) == nl.P3(*n))
        ensures('the task is unchanged', set(w.task.__dict__) == set(g['fields']) and all(w.task.__dict__[k] is v for k, v in g['fields'].items()))
        rg.arg.clear()
        c.drop(g['base'])
        vals = {}
        for x in 'ABX':
            pred = getattr(w, x)
            q = GroupIndex(lambda v, x=x, pred=pred: z3.And(pred(v), fl.keeps(x, v)), 'items_' + x)
            vals[x] = Arr((q.n,), lambda i, q=q: q.el(i), w.dt)
            vals[x].facts['nonneg'] = True
            if g['withreg']:
                rg.set(x, w.values, w.db, vals[x])
        vals['size'] = wrap(nl.P3(*[Zi(vals[x].shape[0]) for x in 'ABX']))
        return vals, []
    return ('items', g['withreg']), new, [w.task, w.BY, w.on, w.across, w.block, w.values, w.db, True, False]


def position(core, val, t):
    """row of the triplet whose ranks are val: core gives the quotients and remainders taken by the code"""
    rows, code = [], {}
    for k, e in enumerate(core):
        u = e
        deep = []
        while z3.is_app(u) and u.decl().name() in ('quotient', 'remainder'):
            deep.append((u.decl().name(), u.arg(1)))
            u = u.arg(0)
        if not deep:
            return None
        rows.append(u)
        code[k] = deep
    if any(not z3.eq(r, rows[0]) for r in rows):
        raise Unsupported('columns from different rows')
    # fastest index: the remainder of the row itself
    first = [k for k in code if len(code[k]) == 1 and code[k][0][0] == 'remainder']
    second = [k for k in code if [d[0] for d in code[k]] == ['remainder', 'quotient']]
    if len(first) != 1 or len(second) != 1:
        raise Unsupported('another order of the combinations')
    k, j = first[0], second[0]
    i = 3 - k - j
    x, b = code[k][0][1], code[j][0][1]
    r = nl.CODE(val[i], val[j], val[k], b, x)
    end, W = invert(rows[0], r)
    if not z3.eq(end, t):
        raise Unsupported('rows that are not selected from the combinations: %s' % end)
    return W


def grouping(g, trip, rg, OK):
    """C03: with a threshold.  The rows of the whole block are numbered i < N: sorted, they are
    in position q(i), in a class [u(g), u(g + 1)); the row r of the result is the row o(r) of the
    block, and the rows of the class g are in [off(g), off(g + 1))"""
    c = ctx()
    s, codes = g['sort'], g['codes']
    G, u, off, o, q, f, p, thr, N, grp, home = (s[k] for k in 'G u off o q f p thr N grp_of home'.split())
    X, K = codes['X'], codes['K']
    i, i2, j, r, r2, gg = [z3.Int('skolem_' + y) for y in ('i', 'i2', 'j', 'r', 'r2', 'g')]
    gr = lambda x: z3.And(x >= 0, x < Zi(G))
    t, = bound(1)

    def T0(i, k):
        e = z3.substitute(z3.simplify(trip.at(r, z3.IntVal(k))), (o(r), t))
        if z3.eq(z3.simplify(z3.substitute(e, (r, z3.IntVal(12345)))), e) is False or r.get_id() in ids_of(e):
            raise Unsupported('the result is not a selection of sorted rows')
        return z3.substitute(e, (t, i))
    inN = lambda i: z3.And(i >= 0, i < N)
    # the block, before sampling
    exact(lambda i, k: T0(i, k), inN, OK, 'before sampling')
    ensures('no triplet twice before sampling', lambda: z3.Implies(z3.And(inN(i), inN(i2), i < i2), z3.Or(*[T0(i, k) != T0(i2, k) for k in range(3)])))
    # what the regressors of a triplet are
    flats = c.ghost.get('flat', [])
    lay = {}
    for fo, seg, n in flats:
        for x in 'BX':
            if z3.eq(Zi(n), Zi(rg.nf[x])):
                lay[x] = fo, seg, Zi(n)
    if len(lay) != 2 or len(flats) != 2:
        raise Unsupported('the columns of the regressors')
    val = lambda x, i, fn, ou: rg.val[x](fn, ou, T0(i, {'B': 1, 'X': 2}[x]))

    def columns(order, i, j):
        x, y = order
        (fx, sx, nx), (fy, sy, ny) = lay[x], lay[y]
        m = j - fx(nx)
        return z3.If(j < fx(nx), X(i, j) == val(x, i, sx(j), j - fx(sx(j))), X(i, j) == val(y, i, sy(m), m - fy(sy(m))))
    L = lambda order: z3.Implies(z3.And(inN(i), j >= 0, j < K), columns(order, i, j))
    order = 'BX'
    if not provable(L('BX')) and provable(L('XB')):
        order = 'XB'
    x, y = order
    ensures('the columns are the regressors of B and X', lambda: z3.And(K == lay[x][0](lay[x][2]) + lay[y][0](lay[y][2]), L(order)))
    a, b, d = bound(3)
    c.assume(fa([a, b], z3.Implies(z3.And(inN(a), b >= 0, b < K), columns(order, a, b)), X(a, b)))
    inr = lambda x, fn, ou: z3.And(fn >= 0, fn < Zi(rg.nf[x]), ou >= 0, ou < rg.no[x](fn))
    fn, ou = [z3.Int('skolem_' + y) for y in ('function', 'output')]
    # rows of a class have the same regressors
    for z in 'BX':
        fo, seg, n = lay[z]
        k = (z3.IntVal(0) if z == x else lay[x][0](lay[x][2])) + fo(fn) + ou
        cls = z3.And(inN(i), inN(i2), home(q(i)) == home(q(i2)), inr(z, fn, ou))
        c.oblige('where the %s regressors are' % z, z3.Implies(cls, z3.And(k >= 0, k < K, seg(fo(fn) + ou) == fn, fo(fn) + ou < fo(n), fo(fn) + ou >= 0)), 'lemma')
        c.oblige('triplets of a class have equal codes', z3.Implies(cls, f(i) == f(i2)), 'lemma')
        c.oblige('triplets of a class have equal rows of regressors', z3.Implies(cls, X(i, k) == X(i2, k)), 'lemma')
        ensures('triplets of a class have the same %s regressors' % z, lambda: z3.Implies(cls, val(z, i, fn, ou) == val(z, i2, fn, ou)))
    same = lambda i, i2: z3.And(*[z3.ForAll([a, b], z3.Implies(inr(z, a, b), val(z, i, a, b) == val(z, i2, a, b)),
                                            patterns=[z3.MultiPattern(val(z, i, a, b)), z3.MultiPattern(val(z, i2, a, b))]) for z in 'BX'])
    c.oblige('same regressors: same rows of regressors', z3.Implies(z3.And(inN(i), inN(i2), same(i, i2), j >= 0, j < K), X(i, j) == X(i2, j)), 'lemma')
    c.oblige('same regressors: same codes', z3.Implies(z3.And(inN(i), inN(i2), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K), X(i, j) == X(i2, j)))), f(i) == f(i2)), 'lemma')
    ensures('triplets with the same codes are of the same class', lambda: z3.Implies(z3.And(inN(i), inN(i2), f(i) == f(i2)), home(q(i)) == home(q(i2))))
    # the sizes
    ensures('a class is an interval of the sorted rows', lambda: z3.Implies(z3.And(gr(gg), inN(i)), (home(i) == gg) == z3.And(u(gg) <= i, i < u(gg + 1))))
    ensures('sorted rows are a permutation', lambda: z3.Implies(z3.And(inN(i), inN(i2)), z3.And(inN(q(i)), p(q(i)) == i, inN(p(i)), q(p(i)) == i)))
    ensures('rows of the result', lambda: z3.And(Zi(trip.shape[0]) == off(Zi(G)), z3.Implies(z3.And(r >= 0, r < Zi(trip.shape[0])), z3.And(
        inN(o(r)), gr(grp(r)), off(grp(r)) <= r, r < off(grp(r) + 1), home(q(o(r))) == grp(r), *[trip.at(r, z3.IntVal(k)) == T0(o(r), k) for k in range(3)]))))
    ensures('distinct rows in the result', lambda: z3.Implies(z3.And(r >= 0, r < r2, r2 < Zi(trip.shape[0])), o(r) != o(r2)))
    size = u(gg + 1) - u(gg)
    ensures('min(threshold, size) triplets of each class', lambda: z3.Implies(gr(gg), off(gg + 1) - off(gg) == (z3.If(size > Zi(thr), Zi(thr), size) if thr is not None else size)))


def ids_of(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return seen


def provable(f):
    c = ctx()
    s = z3.Solver()
    s.set('smt.auto_config', False)
    s.set('smt.mbqi', False)
    s.set('rlimit', 4000000)
    for h in c.pc:
        s.add(h)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


def exact(at, rng, OK, when):
    """every triplet of the specification is a row"""
    a, b, x, t = bound(4)
    core, val = zip(*[invert(at(t, k), y) for k, y in enumerate((a, b, x))])
    W = position(core, val, t)
    A_, B_, X_ = [z3.Int('skolem_' + y) for y in 'abx']
    if W is None:
        ensures('every triplet of the specification %s' % when, lambda: z3.Not(OK(A_, B_, X_)))
    else:
        W = z3.substitute(W, (a, A_), (b, B_), (x, X_))
        ensures('every triplet of the specification %s' % when, lambda: z3.Implies(OK(A_, B_, X_), z3.And(rng(W), at(W, 0) == A_, at(W, 1) == B_, at(W, 2) == X_)))


from pyvc.vdict import SSet
from contracts.radix import code_facts
from contracts import radix

TARGETS = [
    Target('lemma: products and quotients', P, nl.prove, ['C01'], covers=['Task.on_across_triplets']),
    Target('lemma: mixed radix codes', P, radix.prove, ['C01', 'C03', 'C13'], covers=['Task.on_across_triplets', 'analyze.collapse', 'analyze.npdecode']),
    Target('task.sort_and_threshold', P, drive_sort, ['C03'], stubs=task_stubs,
           loops={('sort_and_threshold', 0): Spec(inv_sort)}, assumptions=['contract of the sampler (proved: C14)', 'the permutation is the one of argsort']),
] + [
    Target('Task.on_across_triplets (%s)' % m, P, drive_triplets(m), ['C01', 'C03'], stubs=task_stubs, loops={('Task.on_across_triplets', 0): Spec(inv_codes)},
           replace={P: {'sort_and_threshold': stub_sort, 'Task._compute_regressors': stub_compute_regressors, 'fit_integer_type': stub_reg_fit}},
           covers=['Task.on_across_triplets'], scale=2., points={('Task.on_across_triplets', 'size'): cut_items},
           assumptions=['groups of pandas: the labels of the rows of a group', 'contract of the filters (positions of what satisfies them)', 'a column of B regressors (ON) is always present'])
    for m in ('none', 'one', 'many')]
