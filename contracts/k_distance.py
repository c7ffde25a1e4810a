"""Contracts of the computation of the distances (C08, C23; refusal: C20)."""
from contracts.common import *
from contracts.k_score import PairAttrs
from pyvc.core import Lab as LAB
from pyvc.vdict import SDict, hook_dict, hook_dictcomp

P = 'ABXpy/distances/distances.py'
TASK, DIST = 'my.abx', 'my.distance'


def blocks(nb, npairs):
    """BY blocks and their intervals in the list of pairs, as the task module stores them (C04)"""
    c = ctx()
    bys = fresh_arr('bys', (nb,), OBJ)
    base, ps, pe = [z3.Function(x, LAB, I) for x in ('base', 'pair_start', 'pair_end')]
    q, r = bound(2)
    N = Zi(nb)
    by = lambda q: bys.at(q)
    rng = lambda q: z3.And(q >= 0, q < N)
    c.assume(fa([q], z3.Implies(rng(q), z3.And(base(by(q)) >= 1, base(by(q)) < 2 ** 31, 0 <= ps(by(q)), ps(by(q)) <= pe(by(q)), pe(by(q)) <= Zi(npairs))), by(q)))
    c.assume(fa([q, r], z3.Implies(z3.And(rng(q), rng(r), q != r), by(q) != by(r)), (by(q), by(r))))
    return NS(dict(bys=bys, base=base, ps=ps, pe=pe, by=by, N=N, n=lambda q: pe(by(q)) - ps(by(q))))


# ------------------------------------------------------ create_distance_jobs

def els(l):
    """elements of a list, as a function (None: empty)"""
    if l.conc is not None and not l.conc:
        return None
    a = l.vc_snapshot()
    a._symbolize()
    return lambda i: Z(a.fn(i))


TRIG = z3.Function('mark', I, B)


def drive_jobs(E):

    c = ctx()
    fs = c.ghost['files']
    nb, npairs, n_cpu = fresh_int('blocks', 1), fresh_int('pairs', 0), fresh_int('n_cpu', 1)
    b = blocks(nb, npairs)
    # the intervals are a partition of the pairs
    st = H5Store(TASK, known={'bys': DSet(b.bys), 'unique_pairs': 'group', 'unique_pairs/data': DSet(fresh_arr('P', (npairs, 1), symbolic_uint('pair_type')))})
    st.attrs['unique_pairs'] = PairAttrs(b.base, b.ps, b.pe)
    fs.stores[TASK] = st
    # a new file is a file without distances
    known = c.fork(fresh_bool('has distances'))
    fs.exists_.update({TASK: True, DIST: True})
    sd = fs.stores[DIST] = H5Store(DIST, known={'distances': 'group', 'distances/data': DSet(fresh_arr('old', (fresh_int('no', 0), 1), FLOAT64))}
                                   if known else {'distances': 'absent'})
    old = sd.items.get('distances/data')
    old = old.arr if old is not None else None
    FIRST, BLK = fresh_fun('first', I, I), fresh_fun('block_of', I, I)
    W, NJ, V = fresh_fun('chunk', I, I, I), fresh_fun('n_chunks', I, I), fresh_fun('place', I, I)
    c.assume(FIRST(z3.IntVal(0)) == 0)
    k, = bound(1)
    c.assume(fa([k], TRIG(k), TRIG(k)))         # always true: directs the instantiations
    c.ghost['job'] = dict(b=b, FIRST=FIRST, BLK=BLK, oi=None, W=W, NJ=NJ, V=V)
    try:
        jobs = E.fn('create_distance_jobs')(TASK, DIST, n_cpu)
    except ValueError:
        ensures('refused only if the file holds distances', known)
        ensures('existing distances are not touched', lambda: sd.items['distances/data'].arr is old and not sd.attr_of('') and
                all(x[0] in ('close',) for x in sd.log))
        return
    ensures('existing distances are refused', not known)
    sd = fs.stores[DIST]
    ensures('nothing is written in the task file', all(x[0] == 'close' for x in st.log) and all(x[0] == 'r' or x[1] == DIST for x in fs.log))
    d = sd.items.get('distances/data')
    ensures('one cell for each pair', d is not None and And(d.arr.ndim == 2 and d.arr.dtype == FLOAT64, d.shape[0] == npairs, d.shape[1] == 1))
    ensures('not marked as done', sd.attr_of('').get('done') is False)
    # the jobs
    g = c.ghost['job']
    C = Zi(g['C'])
    k, q, i, p, p2, i2, r, r2 = bound(8)
    by, sta, sto, cpu = g['chunks']
    same = lambda r: z3.And(0 <= r, r < C)
    # the chunks of a block tile it
    BF = lambda b_: z3.And(b_ >= 0, b_ < b.N)
    # the chunk of a pair of the block of chunk t (definition, by recursion on t)
    CT = fresh_fun('chunk_before', I, I, I)
    t = z3.Int(c.fresh_name('%t'))
    c.assume(fa([t, k], CT(t, k) == z3.If(z3.Or(t <= 0, k >= sta(t)), t, CT(t - 1, k)), CT(t, k)))
    A = induction('the pairs before the end of a chunk are in a chunk', lambda t: z3.ForAll([k], z3.Implies(
        z3.And(same(t), 0 <= k, k < sto(t), TRIG(BLK(t))), z3.And(
            0 <= CT(t, k), CT(t, k) <= t, sta(CT(t, k)) <= k, k < sto(CT(t, k)), BLK(CT(t, k)) == BLK(t)))), 0, wrap(C), lambda t, k: [CT(t, k)])
    last = FIRST(q + 1) - 1
    lemma('the last chunk of a block', z3.ForAll([q], z3.Implies(z3.And(BF(q), b.n(q) > 0, TRIG(FIRST(q)), TRIG(FIRST(q + 1)), TRIG(BLK(last))), z3.And(
        FIRST(q) <= last, 0 <= last, last < C, BLK(last) == q, sto(last) == b.n(q)))))
    CH = lambda q, k: CT(FIRST(q + 1) - 1, k)
    f = z3.Implies(z3.And(BF(q), 0 <= k, k < b.n(q)), z3.And(same(CH(q, k)), sta(CH(q, k)) <= k, k < sto(CH(q, k)), BLK(CH(q, k)) == q))
    lemma('every pair is in a chunk', z3.ForAll([q, k], z3.Implies(z3.And(TRIG(FIRST(q)), TRIG(BLK(last))), f)))
    c.assume(fa([q, k], f, CH(q, k)))
    G = induction('chunks of a block are ordered', lambda t: z3.ForAll([r], z3.Implies(
        z3.And(same(r), same(r + 1 + t), BLK(r) == BLK(r + 1 + t)), sto(r) <= sta(r + 1 + t))), 0, wrap(C))
    use(G, [r, r2], [r2 - r - 1, r], (BLK(r), BLK(r2)))
    lemma('chunks of the same block are disjoint', z3.ForAll([r, r2], z3.Implies(
        z3.And(same(r), same(r2), r < r2, BLK(r) == BLK(r2)), sto(r) <= sta(r2))))
    a = jobs.vc_snapshot()
    a._symbolize()
    J = lambda i, key: a.fn(i)[key]
    L = lambda i: Zi(J(i, 'by').__vclen__())
    jr = z3.And(i >= 0, i < Zi(n_cpu), p >= 0, p < L(i))
    el = lambda i, key, p: Z(J(i, key).fn(p)) if isinstance(J(i, key), VList) else J(i, key).at(p)
    ensures('one job for each CPU', lambda: Z(jobs.__vclen__()) == Zi(n_cpu))
    ensures('the jobs are about this task', lambda: spec(lambda: a.fn(Zi(fresh_int('j')))['pair_file'] == TASK))
    ensures('parallel lists', lambda: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Zi(n_cpu)), z3.And(
        Zi(J(i, 'start').shape[0]) == L(i), Zi(J(i, 'stop').shape[0]) == L(i)))))
    ensures('a chunk is a part of its block', lambda: z3.ForAll([i, p], z3.Implies(jr, z3.Exists([q], z3.And(
        BF(q), el(i, 'by', p) == b.by(q), 0 <= el(i, 'start', p), el(i, 'start', p) < el(i, 'stop', p), el(i, 'stop', p) <= b.n(q))))))
    r0 = CH(q, k)
    ensures('every pair is in a job', lambda: z3.ForAll([q, k], z3.Implies(z3.And(BF(q), 0 <= k, k < b.n(q)), z3.And(
        V(r0) >= 0, cpu(r0) >= 0, cpu(r0) < Zi(n_cpu), V(r0) < L(cpu(r0)), W(cpu(r0), V(r0)) == r0,
        el(cpu(r0), 'by', V(r0)) == b.by(q), el(cpu(r0), 'start', V(r0)) <= k, k < el(cpu(r0), 'stop', V(r0))))))
    jr2 = z3.And(i2 >= 0, i2 < Zi(n_cpu), p2 >= 0, p2 < L(i2))
    ensures('no pair is computed twice', lambda: z3.ForAll([i, p, i2, p2], z3.Implies(
        z3.And(jr, jr2, z3.Or(i != i2, p != p2), el(i, 'by', p) == el(i2, 'by', p2)),
        z3.Or(el(i, 'stop', p) <= el(i2, 'start', p2), el(i2, 'stop', p2) <= el(i, 'start', p)))))


def inv_sizes(by_n_pairs, _it, _g):
    b = _g['job']['b']
    q, = bound(1)
    f = els(by_n_pairs)
    n = Zi(by_n_pairs.__vclen__())
    if f is None:
        return n == Zi(_it)
    return z3.And(n == Zi(_it), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Zi(_it)), f(q) == b.n(q)), patterns=[b.by(q)]))


def inv_total(_g, _it, total_n_pairs=None):
    if total_n_pairs is None:
        return sbool(Zi(_it) == 0)
    st = ctx().ghost['files'].stores[TASK]
    return Zi(total_n_pairs) == Zi(st.items['unique_pairs/data'].shape[0])


def chunks(_g, by, start, stop, n_dist, it, inner):
    g = _g['job']
    b, FIRST, BLK = g['b'], g['FIRST'], g['BLK']
    L = Zi(by.__vclen__())
    out = [Zi(x.__vclen__()) == L for x in (start, stop, n_dist)]
    r, q = bound(2)
    if els(by) is not None:
        B_, S_, T_, D_ = els(by), els(start), els(stop), els(n_dist)
        q0 = BLK(r)
        out.append(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < L), z3.And(
            q0 >= 0, q0 <= it if inner else q0 < it, FIRST(q0) <= r, z3.Implies(q0 < it, r < FIRST(q0 + 1)),
            B_(r) == b.by(q0), 0 <= S_(r), S_(r) < T_(r), T_(r) <= b.n(q0), D_(r) == T_(r) - S_(r),
            z3.Implies(r == FIRST(q0), S_(r) == 0), z3.Implies(r > FIRST(q0), z3.And(BLK(r - 1) == q0, T_(r - 1) == S_(r))),
            z3.Implies(z3.And(q0 < it, r + 1 == FIRST(q0 + 1)), T_(r) == b.n(q0)))), patterns=[BLK(r)]))
    out.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < it), z3.And(
        FIRST(q) <= FIRST(q + 1), FIRST(q) >= 0, FIRST(q + 1) <= (FIRST(it) if inner else L), (FIRST(q) == FIRST(q + 1)) == (b.n(q) <= 0))), patterns=[FIRST(q)]))
    out.append(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < it, FIRST(q) <= r, r < FIRST(q + 1)), BLK(r) == q), patterns=[z3.MultiPattern(FIRST(q), BLK(r))]))
    return out


def block_size(g, by_n_pairs, max_block_size, n_cpu):
    """blocks are not empty: the total is not below any of the sizes"""
    b = g['b']
    q, = bound(1)
    k = z3.Int('%k')
    PS = partial_sum(z3.simplify(by_n_pairs.at(k)), k)
    induction('the total is not below the sizes', lambda t: z3.And(PS(t) >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t), b.n(q) <= PS(t)))), 0, wrap(b.N))
    x, y = z3.Reals('%x %y')
    F = z3.ForAll([x, y], z3.Implies(z3.And(x >= 1, y >= 1), x / y > 0))
    lemma('a positive quotient', F)
    use(F, [], [z3.ToReal(PS(b.N)), z3.ToReal(Zi(n_cpu))])
    lemma('the blocks are not empty', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < b.N, b.n(q) > 0), z3.And(PS(b.N) >= 1, Zi(max_block_size) >= 1))))


def inv_outer(by, start, stop, n_dist, by_n_pairs, max_block_size, n_cpu, _it, _g):
    g = _g['job']
    g['oi'] = _it
    if 'size' not in g:
        g['size'] = True
        block_size(g, by_n_pairs, max_block_size, n_cpu)
    g['lists'] = (by, start, stop)
    return z3.And(g['FIRST'](Zi(_it)) == Zi(by.__vclen__()), g['FIRST'](Zi(_it)) >= 0, *chunks(_g, by, start, stop, n_dist, Zi(_it), False))


def ghost_outer(by, _it, _g):
    g = _g['job']
    ctx().assume(g['FIRST'](Zi(_it) + 1) == Zi(by.__vclen__()))


def inv_inner(by, start, stop, n_dist, sta, sto, n_pairs, _g):
    g = _g['job']
    it = Zi(g['oi'])
    b, FIRST, BLK = g['b'], g['FIRST'], g['BLK']
    L = Zi(by.__vclen__())
    out = chunks(_g, by, start, stop, n_dist, it, True)
    r, = bound(1)
    out.append(z3.And(L >= FIRST(it), FIRST(it) >= 0, Zi(sta) == Zi(sto), 0 <= Zi(sto), Zi(n_pairs) >= 0, Zi(sto) + Zi(n_pairs) == b.n(it), (L == FIRST(it)) == (Zi(sto) == 0)))
    if els(stop) is not None:
        out.append(z3.Implies(L > FIRST(it), els(stop)(L - 1) == Zi(sto)))
        out.append(z3.Implies(L > FIRST(it), BLK(L - 1) == it))
    out.append(z3.ForAll([r], z3.Implies(z3.And(FIRST(it) <= r, r < L), BLK(r) == it), patterns=[BLK(r)]))
    return z3.And(*out)


def ghost_inner(by, _g):
    g = _g['job']
    ctx().assume(g['BLK'](Zi(by.__vclen__()) - 1) == Zi(g['oi']))


def inv_cpu(cpu, n_cpu, _g):
    r, = bound(1)
    return fa([r], z3.Implies(z3.And(r >= 0, r < Zi(cpu.shape[0])), z3.And(cpu.at(r) >= 0, cpu.at(r) < Zi(n_cpu))), cpu.at(r))


def inv_jobs(jobs, by, start, stop, cpu, _it, _g):
    g = _g['job']
    W, NJ, V = g['W'], g['NJ'], g['V']
    it = Zi(_it)
    C = Zi(by.shape[0])
    g['C'] = by.shape[0]
    f = cpu.snap()
    g['chunks'] = (by.snap(), start.snap(), stop.snap(), f)
    out = [Zi(jobs.__vclen__()) == it]
    i, p, r = bound(3)
    out.append(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < C, f(r) < it), z3.And(f(r) >= 0, V(r) >= 0, V(r) < NJ(f(r)), W(f(r), V(r)) == r)), patterns=[V(r)]))
    if jobs.conc is not None and not jobs.conc:
        return z3.And(*out)
    a = jobs.vc_snapshot()
    a._symbolize()
    x = a.fn(i)
    if not (type(x) is dict and isinstance(x.get('by'), VList)) or x.get('pair_file') != TASK:
        raise Unsupported('the description of a job')
    lst = x['by']
    lst._symbolize()
    rng = z3.And(i >= 0, i < it)
    out.append(fa([i], z3.Implies(rng, z3.And(NJ(i) >= 0, Zi(lst.__vclen__()) == NJ(i), Zi(x['start'].shape[0]) == NJ(i), Zi(x['stop'].shape[0]) == NJ(i))), NJ(i), Zi(lst.__vclen__())))
    out.append(fa([i, p], z3.Implies(z3.And(rng, p >= 0, p < NJ(i)), z3.And(
        W(i, p) >= 0, W(i, p) < C, f(W(i, p)) == i, V(W(i, p)) == p, Z(lst.fn(p)) == by.at(W(i, p)),
        x['start'].at(p) == start.at(W(i, p)), x['stop'].at(p) == stop.at(W(i, p)))),
        W(i, p), Z(lst.fn(p)), x['start'].at(p), x['stop'].at(p)))
    return z3.And(*out)


def ghost_jobs(indices, cpu, _it, _g):
    g = _g['job']
    W, NJ, V = g['W'], g['NJ'], g['V']
    it = Zi(_it)
    rank = indices.facts.get('rank')
    if rank is None:
        raise Unsupported('the chunks of a job are not selected by where')
    f, idx = cpu.snap(), indices.snap()
    p, r = bound(2)
    c = ctx()
    c.assume(NJ(it) == Zi(indices.shape[0]))
    c.assume(fa([p], W(it, p) == idx(p), W(it, p)))
    c.assume(fa([p], W(it, p) == idx(p), idx(p)))
    c.assume(fa([r], z3.Implies(z3.And(r >= 0, r < Zi(cpu.shape[0]), f(r) == it), V(r) == rank(r)), V(r)))


JOBS = {('create_distance_jobs', 0): Spec(inv_sizes, inv_total),
        ('create_distance_jobs', 1): Spec(inv_outer, ghost=ghost_outer),
        ('create_distance_jobs', 2): Spec(inv_inner, ghost=ghost_inner, variant=lambda n_pairs: n_pairs),
        ('create_distance_jobs', 3): Spec(inv_cpu),
        ('create_distance_jobs', 4): Spec(inv_jobs, ghost=ghost_jobs)}

# ---------------------------------------------------------- Features_Accessor

class Items(object):
    """part of the table of items of a BY block: one row per position of inds"""

    def __init__(self, n, index, cols):
        self.n, self.ix, self.cols = n, index, cols
        self.index = Arr((n,), index, INT64)

    def __getitem__(self, k):
        if k not in self.cols:
            raise Unsupported('column %r' % (k,))
        f, dt = self.cols[k]
        return Arr((self.n,), f, dt)

    def __vclen__(self):
        return self.n


def drive_raw(E):
    c = ctx()
    k, i, r, p, p2, j = [z3.Const('%k', LAB)] + list(bound(5))
    HAS = fresh_fun('has', LAB, B)
    T, TM, FT, D = fresh_fun('nframes', LAB, I), fresh_fun('time', LAB, I, R), fresh_fun('feature', LAB, I, I, R), fresh_fun('dim', LAB, I)
    c.assume(z3.ForAll([k], z3.And(T(k) >= 0, D(k) >= 0), patterns=[T(k)]))
    c.assume(z3.ForAll([k], z3.And(T(k) >= 0, D(k) >= 0), patterns=[D(k)]))
    times = SDict(LAB, lambda k: HAS(k), lambda k: Arr((wrap(T(k)),), lambda i: TM(k, i), FLOAT64))
    feats = SDict(LAB, lambda k: HAS(k), lambda k: Arr((wrap(T(k)), wrap(D(k))), lambda i, j: FT(k, i, j), FLOAT64))
    n = fresh_int('items', 0)
    IX, RX, F = fresh_fun('index', I, I), fresh_fun('row_of', I, I), fresh_fun('file', I, LAB)
    ON, OFF = fresh_fun('onset', I, R), fresh_fun('offset', I, R)
    N = Zi(n)
    rng = lambda r: z3.And(r >= 0, r < N)
    c.assume(fa([r], z3.Implies(rng(r), z3.And(HAS(F(r)), RX(IX(r)) == r)), IX(r)))
    c.assume(fa([r], z3.Implies(rng(r), HAS(F(r))), F(r)))
    items = Items(n, lambda r: IX(r), dict(file=(lambda r: F(r), OBJ), onset=(lambda r: ON(r), FLOAT64), offset=(lambda r: OFF(r), FLOAT64)))
    W, NF, RK = fresh_fun('frame', I, I, I), fresh_fun('n_selected', I, I), fresh_fun('rank', I, I, I)
    sel = lambda r, i: z3.And(TM(F(r), i) >= ON(r), TM(F(r), i) <= OFF(r))
    c.ghost['raw'] = dict(W=W, NF=NF, RK=RK, IX=IX, RX=RX, F=F, T=T, D=D, FT=FT, sel=sel, N=N)
    acc = E.fn('Features_Accessor')(times, feats)
    res = acc.get_features_from_raw(items)
    if not isinstance(res, SDict):
        raise Unsupported('the result is not a dictionary')
    q = z3.Int('%q')
    if res.get_ is None:
        ensures('every item is represented', lambda: N == 0)
        return
    val = lambda r: res.get_(IX(r))
    ensures('exactly the items are represented', lambda: z3.And(
        z3.ForAll([r], z3.Implies(rng(r), res.has(IX(r)))), z3.ForAll([q], z3.Implies(res.has(q), z3.And(rng(RX(q)), IX(RX(q)) == q)))))
    ensures('the frames are in the order of the file', lambda: z3.ForAll([r, p, p2], z3.Implies(z3.And(rng(r), 0 <= p, p < p2, p2 < Zi(val(r).shape[0])), W(r, p) < W(r, p2))))
    ensures('the frames are those of the interval', lambda: z3.ForAll([r, p], z3.Implies(z3.And(rng(r), 0 <= p, p < Zi(val(r).shape[0])), z3.And(
        0 <= W(r, p), W(r, p) < T(F(r)), sel(r, W(r, p))))))
    ensures('every frame of the interval is there', lambda: z3.ForAll([r, i], z3.Implies(z3.And(rng(r), 0 <= i, i < T(F(r)), sel(r, i)), z3.And(
        0 <= RK(r, i), RK(r, i) < Zi(val(r).shape[0]), W(r, RK(r, i)) == i))))
    ensures('whole rows, unmodified', lambda: z3.ForAll([r, p, j], z3.Implies(z3.And(rng(r), 0 <= p, p < Zi(val(r).shape[0]), 0 <= j, j < D(F(r))), z3.And(
        Zi(val(r).shape[1]) == D(F(r)), val(r).at(p, j) == FT(F(r), W(r, p), j)))))
    ensures('the width of the frames', lambda: z3.ForAll([r], z3.Implies(rng(r), Zi(val(r).shape[1]) == D(F(r)))))


def inv_raw(features, _it, _g):
    g = _g['raw']
    it = Zi(_it)
    if features.get_ is None:
        return sbool(it == 0)
    W, NF, RK, IX, RX, F, T, D, FT, sel = [g[x] for x in ('W', 'NF', 'RK', 'IX', 'RX', 'F', 'T', 'D', 'FT', 'sel')]
    r, p, p2, i, j, q = bound(6)
    rng = z3.And(r >= 0, r < it)
    val = features.get_(IX(r))
    pr = z3.And(rng, 0 <= p, p < NF(r))
    return z3.And(
        fa([r], z3.Implies(rng, z3.And(features.has(IX(r)), NF(r) >= 0, Zi(val.shape[0]) == NF(r), Zi(val.shape[1]) == D(F(r)))), IX(r), NF(r)),
        fa([q], z3.Implies(features.has(q), z3.And(RX(q) >= 0, RX(q) < it, IX(RX(q)) == q)), features.has(q), RX(q)),
        fa([r, p], z3.Implies(pr, z3.And(0 <= W(r, p), W(r, p) < T(F(r)), sel(r, W(r, p)))), W(r, p)),
        fa([r, p, p2], z3.Implies(z3.And(pr, p < p2, p2 < NF(r)), W(r, p) < W(r, p2)), (W(r, p), W(r, p2))),
        fa([r, i], z3.Implies(z3.And(rng, 0 <= i, i < T(F(r)), sel(r, i)), z3.And(0 <= RK(r, i), RK(r, i) < NF(r), W(r, RK(r, i)) == i)), RK(r, i)),
        fa([r, p, j], z3.Implies(z3.And(pr, 0 <= j, j < D(F(r))), val.at(p, j) == FT(F(r), W(r, p), j)), val.at(p, j)))


def ghost_raw(t, _it, _g):
    g = _g['raw']
    c = ctx()
    rank = t.facts.get('rank')
    if rank is None:
        raise Unsupported('the frames are not selected by where')
    it = Zi(_it)
    idx = t.snap()
    p, i = bound(2)
    c.assume(g['NF'](it) == Zi(t.shape[0]))
    c.assume(fa([p], g['W'](it, p) == idx(p), g['W'](it, p)))
    c.assume(fa([p], g['W'](it, p) == idx(p), idx(p)))
    c.assume(fa([i], g['RK'](it, i) == rank(i), g['RK'](it, i)))


# ------------------------------------------------------------ run_distance_job

class Failure(ValueError):
    """the distance function refuses its arguments"""


class Data(object):
    """features of the item ix of the block by"""

    def __init__(self, by, ix, rows):
        self.by, self.ix = by, ix
        self.shape = (wrap(rows(by, ix)), wrap(z3.Function('width', LAB, I)(by)))
        self.ndim = 2

    def __vclen__(self):
        return self.shape[0]

    @property
    def size(self):
        return self.shape[0] * self.shape[1]


class LFiles(Files):
    """files shared between workers: what may be written by one of them is accessed under the lock only"""

    def __init__(self, shared):
        Files.__init__(self)
        self.shared, self.lock, self.handles = shared, None, []

    def access(self, name, writes):
        if self.lock is None or name not in self.shared:
            return
        c = ctx()
        held = self.lock.held
        d = c.explorer.__dict__.setdefault('accesses', dict(w=set(), unlocked=set()))
        if writes:
            d['w'].add(name)
            ok = held and name not in d['unlocked']
        else:
            if not held:
                d['unlocked'].add(name)
            ok = held or name not in d['w']
        c.oblige('a file that a worker may write is opened under the lock only', ok, 'postcondition')

    def File(self, name, mode='r', *a, **k):
        self.access(name, mode != 'r')
        f = Files.File(self, name, mode, *a, **k)
        self.handles.append(f)
        return f

    def closed(self):
        return all(not h.open for h in self.handles)


class Lock(object):
    def __init__(self, fs, rely, guarantee):
        self.fs, self.rely, self.guarantee = fs, rely, guarantee
        self.held = False

    def acquire(self, *a, **k):
        if a or k:
            raise Unsupported('lock that is tried')
        ctx().oblige('a lock that is held is not acquired again (the worker would wait forever)', not self.held, 'postcondition')
        self.held = True
        self.rely()
        return True

    def release(self):
        ctx().oblige('a lock that is released is held', self.held, 'postcondition')
        ctx().oblige('files are closed before the lock is released', self.fs.closed(), 'postcondition')
        self.guarantee()
        self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
        return False


class Column(object):
    def __init__(self, has):
        self.has = has

    def __getitem__(self, k):
        ctx().oblige('the item is in the table', self.has(Zi(k)))
        return fresh_lab('value')


class JobItems(object):
    """rows of the table of items of a block: the index of a row is its position in the table"""

    def __init__(self, by, inds):
        f = inds.snap()
        n = Zi(inds.shape[0])
        r, = bound(1)
        self.by, self.inds = by, inds
        self.has = lambda k: z3.Exists([r], z3.And(r >= 0, r < n, f(r) == k))

    def __getitem__(self, k):
        if k not in ('file', 'onset', 'offset'):
            raise Unsupported('column %r' % (k,))
        return Column(self.has)


def accessor_stub(E):
    """contract of Features_Accessor (proved above), at a call"""
    class Accessor(object):
        def __init__(self, times, features):
            g = ctx().ghost['run']
            c = ctx()
            k, i, j = z3.Const(c.fresh_name('%k'), LAB), fresh_int('i').e, fresh_int('j').e
            if not (isinstance(times, SDict) and isinstance(features, SDict)):
                raise Unsupported('features of another kind')
            H = lambda k: z3.And(g['HASF'](g['OWN'](k), k), 0 <= g['OWN'](k), g['OWN'](k) < g['NF'])
            c.oblige('all the files of all the feature files are there, and no other', z3.ForAll([k], z3.And(times.has(k) == H(k), features.has(k) == H(k))), 'postcondition')
            if times.get_ is not None:
                t, f = times.get_(k), features.get_(k)
                o = g['OWN'](k)
                c.oblige('the features of a file are those of the feature file that has it', z3.Implies(H(k), z3.And(
                    Zi(t.shape[0]) == g['T'](o, k), Zi(f.shape[0]) == g['T'](o, k), Zi(f.shape[1]) == g['D'](o, k),
                    z3.Implies(z3.And(0 <= i, i < g['T'](o, k), 0 <= j, j < g['D'](o, k)), z3.And(t.at(i) == g['TM'](o, k, i), f.at(i, j) == g['FT'](o, k, i, j))))), 'postcondition')

        def get_features_from_raw(self, items):
            if not isinstance(items, JobItems):
                raise Unsupported('items of another kind')
            return SDict(I, items.has, lambda k: Data(items.by, k, ctx().ghost['run']['ROWS']))
    return Accessor


def drive_run(E):
    c = ctx()
    nb, npairs, L, nf = fresh_int('blocks', 0), fresh_int('pairs', 0), fresh_int('chunks', 0), fresh_int('feature_files', 1)
    b = blocks(nb, npairs)
    N, NP = b.N, Zi(npairs)
    fs = LFiles((TASK, DIST))
    c.ghost['files'] = fs
    E.stubs.update(fs.modules())
    # what the task module stores: codes of pairs of items of the table of the block (C04)
    P_ = fresh_arr('P', (npairs, 1), symbolic_uint('pair_type'))
    a, bb, BK, NI = fresh_fun('item_a', I, I), fresh_fun('item_b', I, I), fresh_fun('block_of_pair', I, I), fresh_fun('n_items', LAB, I)
    q, k, p, i, j, m, x = bound(7)
    z = z3.IntVal(0)
    by_ = lambda k: b.by(BK(k))
    inq = lambda q, k: z3.And(0 <= q, q < N, b.ps(b.by(q)) <= k, k < b.pe(b.by(q)))
    c.assume(fa([q, k], z3.Implies(inq(q, k), z3.And(BK(k) == q, P_.at(k, z) == a(k) + b.base(b.by(q)) * bb(k), 0 <= a(k), a(k) < b.base(b.by(q)), 0 <= bb(k),
                                                    a(k) < NI(b.by(q)), bb(k) < NI(b.by(q)))), z3.MultiPattern(P_.at(k, z), b.by(q))))
    lemma('decoding of a pair', z3.ForAll([m, i, j], z3.Implies(z3.And(m >= 1, 0 <= i, i < m, 0 <= j), z3.And((i + m * j) % m == i, (i + m * j) / m == j))))
    c.assume(fa([q, k], z3.Implies(inq(q, k), z3.And(P_.at(k, z) % b.base(b.by(q)) == a(k), P_.at(k, z) / b.base(b.by(q)) == bb(k))), z3.MultiPattern(P_.at(k, z), b.by(q))))
    st = H5Store(TASK, known={'bys': DSet(b.bys), 'unique_pairs': 'group', 'unique_pairs/data': DSet(P_)})
    st.attrs['unique_pairs'] = PairAttrs(b.base, b.ps, b.pe)
    D0 = fresh_arr('D', (npairs, 1), FLOAT64)
    sd = H5Store(DIST, known={'distances': 'group', 'distances/data': DSet(D0)})
    old = D0.snap()
    fs.stores.update({TASK: st, DIST: sd})
    fs.exists_.update({TASK: True, DIST: True})
    cur = lambda: sd.items['distances/data'].arr
    # normalization: None, or the mode asked for (0: no; another value: yes)
    given = c.fork(fresh_bool('normalize given'))
    norm = fresh_int('normalize') if given else None
    mode = z3.If(Zi(norm) == 0, z3.IntVal(0), z3.IntVal(1)) if given else z3.IntVal(-1)
    V = z3.Function('distance', LAB, I, LAB, I, I, R)
    RIGHT = lambda k: V(by_(k), a(k), by_(k), bb(k), mode)
    step = lambda f, g: fa([k], z3.Implies(z3.And(0 <= k, k < NP), z3.Or(f(k, z) == g(k, z), f(k, z) == RIGHT(k))), f(k, z))
    snap = [old]

    def rely():
        D = fresh_arr('D', (npairs, 1), FLOAT64)
        f = cur().snap()
        c.assume(step(D.snap(), f))
        cur()[:, :] = D
        snap[0] = cur().snap()

    def guarantee():
        c.oblige('what the others wrote is kept', step(cur().snap(), snap[0]), 'postcondition')
    sync = c.fork(fresh_bool('several workers'))
    lock = fs.lock = Lock(fs, rely, guarantee) if sync else None
    # the job: chunks of blocks
    BQ, BL = fresh_fun('block_of_chunk', I, I), fresh_fun('by', I, LAB)
    S, T = fresh_arr('start', (L,), INT64), fresh_arr('stop', (L,), INT64)
    byl = VList.sym(L, lambda p: SLab(BL(Zi(p))))
    inp = lambda p: z3.And(0 <= p, p < Zi(L))
    fact = z3.Implies(inp(p), z3.And(0 <= BQ(p), BQ(p) < N, BL(p) == b.by(BQ(p)), 0 <= S.at(p), S.at(p) <= T.at(p), T.at(p) <= b.n(BQ(p))))
    c.assume(fa([p], fact, BL(p)))
    c.assume(fa([p], fact, S.at(p)))
    chunk = lambda p, k: z3.And(inp(p), b.ps(BL(p)) + S.at(p) <= k, k < b.ps(BL(p)) + T.at(p))
    job = {'pair_file': TASK, 'by': byl, 'start': S, 'stop': T}
    # the feature files
    FF, FG = fresh_fun('feature_file', I, LAB), fresh_fun('feature_group', I, LAB)
    h = fresh_fun('has', LAB, LAB, LAB, B)
    tt, dd = fresh_fun('nframes', LAB, LAB, LAB, I), fresh_fun('dim', LAB, LAB, LAB, I)
    tm, ft = fresh_fun('time', LAB, LAB, LAB, I, R), fresh_fun('feature', LAB, LAB, LAB, I, I, R)
    OWN, ROWS = fresh_fun('owner', LAB, I), fresh_fun('rows', LAB, I, I)
    kl, o1, o2 = z3.Const('%key', LAB), z3.Const('%o1', LAB), z3.Const('%o2', LAB)
    c.assume(z3.ForAll([o1, o2, kl], z3.And(tt(o1, o2, kl) >= 0, dd(o1, o2, kl) >= 0), patterns=[tt(o1, o2, kl), dd(o1, o2, kl)]))
    c.assume(z3.ForAll([kl, i], ROWS(kl, i) >= 0, patterns=[ROWS(kl, i)]))
    HASF = lambda i, k: h(FF(i), FG(i), k)
    NF = Zi(nf)
    # the first feature file with this key
    c.assume(fa([i, kl], z3.Implies(z3.And(0 <= i, i < NF, HASF(i, kl)), z3.And(0 <= OWN(kl), OWN(kl) <= i, HASF(OWN(kl), kl))), HASF(i, kl)))
    g = c.ghost['run'] = dict(HASF=HASF, OWN=OWN, NF=NF, ROWS=ROWS, T=lambda i, k: tt(FF(i), FG(i), k), D=lambda i, k: dd(FF(i), FG(i), k),
                              TM=lambda i, k, j: tm(FF(i), FG(i), k, j), FT=lambda i, k, j, x: ft(FF(i), FG(i), k, j, x),
                              chunk=chunk, cur=cur, RIGHT=RIGHT, step=step, old=old, mode=mode, norm=norm, V=V, lock=lock, fs=fs, BL=BL, NP=NP, D0=D0, a=a, bb=bb)

    def read(f, gr, *aa, **kw):
        if aa or kw or not (isinstance(f, SLab) and isinstance(gr, SLab)):
            raise Unsupported('reading of a part of the features')
        f, gr = f.e, gr.e
        return (SDict(LAB, lambda k: h(f, gr, k), lambda k: Arr((wrap(tt(f, gr, k)),), lambda i: tm(f, gr, k, i), FLOAT64)),
                SDict(LAB, lambda k: h(f, gr, k), lambda k: Arr((wrap(tt(f, gr, k)), wrap(dd(f, gr, k))), lambda i, j: ft(f, gr, k, i, j), FLOAT64)))

    class Store(object):
        def __init__(self, name, mode='a'):
            if name != TASK:
                raise Unsupported('tables of another file')
            fs.access(name, mode != 'r')
            self.open = True
            fs.handles.append(self)

        def __getitem__(self, key):
            e = Z(key)
            if not (self.open and e.decl().name() == 'pre:feat_dbs/'):
                raise Unsupported('another table')
            return Table(e.arg(0))

        def close(self):
            self.open = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
            return False

    class Table(object):
        def __init__(self, by):
            self.by = by
            self.iloc = self

        def __getitem__(self, inds):
            if not (isinstance(inds, Arr) and inds.ndim == 1):
                raise Unsupported('selection of items')
            r, = bound(1)
            c.oblige('the items are rows of the table of the block', z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < Zi(inds.shape[0])), z3.And(
                inds.at(r) >= 0, inds.at(r) < NI(self.by)))))
            return JobItems(self.by, inds)
    E.stubs['h5features'] = StubModule('h5features', read=read)
    E.stubs['pandas'] = StubModule('pandas', HDFStore=Store)

    def distance(x, y, *aa, **kw):
        if not (isinstance(x, Data) and isinstance(y, Data)) or aa or set(kw) - {'normalized'}:
            raise Unsupported('another call of the distance function')
        if c.fork(fresh_bool('failure')):
            raise Failure('distance')
        v = kw.get('normalized')
        m = z3.IntVal(-1) if 'normalized' not in kw else z3.If(Zb(v), z3.IntVal(1), z3.IntVal(0))
        return wrap(V(x.by, x.ix, y.by, y.ix, m))
    ffl, fgl = VList.sym(nf, lambda i: SLab(FF(Zi(i)))), VList.sym(nf, lambda i: SLab(FG(Zi(i))))
    try:
        args = (job, DIST, distance, ffl, fgl, False, fresh_int('job_id'), norm)
        E.fn('run_distance_job')(*(args + (lock,) if sync else args))
    except Failure:
        ensures('a failure is raised while the lock is free', not (sync and lock.held))
        return
    except AssertionError:
        kk = z3.Const('%kk', LAB)
        ensures('refused only if a file is in two feature files', lambda: z3.Exists([i, j, kk], z3.And(0 <= i, i < j, j < NF, HASF(i, kk), HASF(j, kk))))
        return
    ensures('the lock is released, the files are closed', not (sync and lock.held) and fs.closed())
    ensures('the dataset of the distances is the same', lambda: sbool(z3.BoolVal(sd.items['distances/data'].arr is cur() and not [y for y in sd.log + st.log if y[0] != 'close'])))
    ensures('every pair of the job gets the distance of its two items, in this order', lambda: z3.ForAll([p, k], z3.Implies(chunk(p, k), cur().at(k, z) == RIGHT(k))))
    ensures('nothing else is changed', lambda: step(cur().snap(), old))


def inv_feats(times, features, _it, _g):
    g = _g['run']
    it = Zi(_it)
    k, i, j, q = z3.Const('%k', LAB), *bound(3)
    HASF, OWN, NF = g['HASF'], g['OWN'], g['NF']
    o = OWN(k)
    H = z3.And(0 <= o, o < it, HASF(o, k))
    out = [z3.ForAll([k], z3.And(times.has(k) == H, features.has(k) == H), patterns=[x for x in (times.has(k), features.has(k), o) if z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED)]),
           z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < it, HASF(i, k)), o == i), patterns=[HASF(i, k)])]
    if times.get_ is None and features.get_ is None:
        return z3.And(*out)
    t, f = times.get_(k), features.get_(k)
    out.append(fa([k], z3.Implies(H, z3.And(Zi(t.shape[0]) == g['T'](o, k), Zi(f.shape[0]) == g['T'](o, k), Zi(f.shape[1]) == g['D'](o, k))), o))
    out.append(fa([k, i], z3.Implies(z3.And(H, 0 <= i, i < g['T'](o, k)), t.at(i) == g['TM'](o, k, i)), t.at(i)))
    out.append(fa([k, i, j], z3.Implies(z3.And(H, 0 <= i, i < g['T'](o, k), 0 <= j, j < g['D'](o, k)), f.at(i, j) == g['FT'](o, k, i, j)), f.at(i, j)))
    return z3.And(*out)


def inv_free(_g, _it):
    """an iteration leaves the lock and the files as it finds them"""
    g = _g['run']
    st = (g['lock'] is not None and g['lock'].held, [h for h in g['fs'].handles if h.open])
    if isinstance(_it, int) and _it == 0:
        g.setdefault('free', []).append(st)
    return sbool(z3.BoolVal(st in g['free']))


def inv_norm(normalize, _g):
    g = _g['run']
    if normalize is None or g['norm'] is None:
        return sbool(z3.BoolVal(normalize is g['norm']))
    v = normalize
    if isinstance(v, (bool, SBool)):
        return Zb(v) == (g['mode'] == 1)
    return (Zi(v) == 0) == (g['mode'] == 0)


def inv_chunks(_it, _g):
    g = _g['run']
    g['p'] = _it
    D = g['cur']()
    p, k = bound(2)
    z = z3.IntVal(0)
    return z3.And(fa([p, k], z3.Implies(z3.And(p < Zi(_it), g['chunk'](p, k)), D.at(k, z) == g['RIGHT'](k)), (g['BL'](p), D.at(k, z))),
                  g['step'](D.snap(), g['old']))


def inv_pairs(dis, pairs, by, _it, _g):
    g = _g['run']
    i, = bound(1)
    z, o = z3.IntVal(0), z3.IntVal(1)
    return fa([i], z3.Implies(z3.And(i >= 0, i < Zi(_it)), dis.at(i, z) == g['V'](Z(by), pairs.at(i, z), Z(by), pairs.at(i, o), g['mode'])), dis.at(i, z))


RUN = {('run_distance_job', 0): Spec(inv_feats),
       ('run_distance_job', 1): Spec(inv_chunks, inv_norm, inv_free),
       ('run_distance_job', 3): Spec(inv_pairs, inv_norm, inv_free)}

# ------------------------------------------------------------ compute_distances

class Job(object):
    def __init__(self, i):
        self.i = i


class SharedLock(object):
    pass


def same_list(x, y):
    """elements of two lists of labels are equal"""
    if x is y:
        return True
    x, y = x if isinstance(x, VList) else VList(list(x)), y if isinstance(y, VList) else VList(list(y))
    if x.conc is not None and y.conc is not None:
        return And(len(x.conc) == len(y.conc), *[u == v for u, v in zip(x.conc, y.conc)])
    f, g = els(x), els(y)
    i, = bound(1)
    return z3.And(Zi(x.__vclen__()) == Zi(y.__vclen__()), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Zi(x.__vclen__())), f(i) == g(i)))) if f and g else False


def create_jobs_stub(pair_file, distance_file, n_cpu):
    """contract of create_distance_jobs (proved above)"""
    c, g = ctx(), ctx().ghost['cd']
    c.oblige('the jobs are those of the task, for the distance file', And(pair_file == TASK, distance_file == DIST), 'postcondition')
    c.oblige('there is a CPU', Zi(n_cpu) >= 1, 'precondition')
    if g['there']:
        raise ValueError('Unable to create group (name already exists)')
    sd = g['sd']
    sd.attr_of('').create('done', False)

    def check(k, v):
        if k != 'done':
            raise Unsupported('attribute %r' % k)
        k_, = bound(1)
        JOB = g['JOB']
        if v is not False:
            c.oblige('marked as done when every pair has its distance', z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < g['NP']), g['ran'](JOB(k_)))), 'postcondition')
    sd.attr_of('').check = check
    n = g['n'] = Zi(n_cpu)
    JOB = g['JOB'] = fresh_fun('job_of_pair', I, I)
    k, = bound(1)
    c.assume(fa([k], z3.Implies(z3.And(0 <= k, k < g['NP']), z3.And(0 <= JOB(k), JOB(k) < n)), JOB(k)))
    return VList.sym(n_cpu, lambda i: Job(Zi(i)))


def run_job_stub(job_description, distance_file, distance, feature_files, feature_groups, splitted_features, job_id, normalize, distance_file_lock=None):
    """contract of run_distance_job (proved above)"""
    c, g = ctx(), ctx().ghost['cd']
    if not isinstance(job_description, Job):
        raise Unsupported('another description of a job')
    if not isinstance(splitted_features, bool) or splitted_features:
        raise Unsupported('features that are split')
    c.oblige('a job is run for the distance file, the distance and the features asked for', z3.And(
        Zb(distance_file == DIST), z3.BoolVal(distance is g['distance']), Zb(same_list(feature_files, g['files'])), Zb(same_list(feature_groups, g['groups']))), 'postcondition')
    if g['norm'] is None or normalize is None:
        c.oblige('the normalization asked for', normalize is g['norm'], 'postcondition')
    else:
        c.oblige('the normalization asked for', Zi(normalize) == Zi(g['norm']), 'postcondition')
    if g['worker'] is not None:
        g['worker'].append((job_description.i, distance_file_lock))
        return
    if c.fork(fresh_bool('failure')):
        raise Failure('a job')
    old, i = g['ran'], job_description.i
    g['ran'] = lambda j: z3.Or(j == i, old(j))


class Pool(object):
    def __init__(self, processes=None):
        ctx().oblige('there is a worker', Zi(processes) >= 1 if processes is not None else True, 'precondition')
        self.open = True

    def map(self, f, args, star=False):
        c, g = ctx(), ctx().ghost['cd']
        if not self.open:
            raise ValueError('Pool not running')
        args = args if isinstance(args, VList) else VList(list(args))
        a = args.vc_snapshot()
        a._symbolize()
        n = Zi(a.__vclen__())
        if not c.fork(sbool(n > 0)):
            return VList([])
        runs = []
        q = [fresh_int('task').e for _ in range(2)]
        for x in q:
            c.assume(z3.And(0 <= x, x < n))
            g['worker'] = []
            v = a.fn(x)
            f(*v) if star else f(v)
            runs.append(g['worker'])
            g['worker'] = None
        if any(len(r) != 1 for r in runs):
            raise Unsupported('a task of a worker is not one job')
        (i1, l1), (i2, l2) = runs[0][0], runs[1][0]
        c.oblige('the workers share one lock', isinstance(l1, SharedLock) and l1 is l2, 'postcondition')
        if c.fork(fresh_bool('failure')):
            raise Failure('a worker')
        old = g['ran']
        y, = bound(1)
        g['ran'] = lambda j: z3.Or(old(j), z3.Exists([y], z3.And(0 <= y, y < n, z3.substitute(i1, (q[0], y)) == j)))
        return VList([])

    def starmap(self, f, args):
        return self.map(f, args, True)

    def close(self):
        self.open = False
    terminate = close

    def join(self):
        if self.open:
            raise ValueError('Pool is still running')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def compute_stubs(E):
    d = files_stub(E)

    class Manager(object):
        def Lock(self):
            return SharedLock()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    d['multiprocessing'] = StubModule('multiprocessing', cpu_count=lambda: fresh_int('cpu_count', 1), Manager=Manager, Pool=Pool)
    d['h5features'] = StubModule('h5features')
    d['pandas'] = StubModule('pandas')
    return d


def drive_compute(E):
    c = ctx()
    fs = c.ghost['files']
    there = c.fork(fresh_bool('has distances'))
    sd = H5Store(DIST, known={'distances': 'group', 'distances/data': DSet(fresh_arr('old', (fresh_int('no', 0), 1), FLOAT64))})
    fs.stores[DIST] = sd
    fs.exists_.update({TASK: True, DIST: True})
    if there:
        fs.protected.add(DIST)
    given = c.fork(fresh_bool('n_cpu given'))
    n_cpu = fresh_int('n_cpu', 1) if given else None
    norm = fresh_int('normalized') if c.fork(fresh_bool('normalize given')) else None
    many = c.fork(fresh_bool('several feature files'))
    nf = fresh_int('feature_files', 1)
    FF, FG = fresh_fun('feature_file', I, LAB), fresh_fun('feature_group', I, LAB)
    files = VList.sym(nf, lambda i: SLab(FF(Zi(i)))) if many else 'my.features'
    groups = VList.sym(nf, lambda i: SLab(FG(Zi(i)))) if many else 'features'
    distance = lambda *a, **k: None
    g = c.ghost['cd'] = dict(there=there, sd=sd, NP=fresh_int('pairs', 0).e, ran=lambda j: z3.BoolVal(False), worker=None, distance=distance,
                             norm=norm, files=files if many else ['my.features'], groups=groups if many else ['features'])
    try:
        E.fn('compute_distances')(files, groups, TASK, DIST, distance, norm, n_cpu=n_cpu, feature_file_as_list=many)
    except Failure:
        ensures('a failure leaves the file not done', sd.attr_of('').get('done') is False)
        return
    except ValueError:
        ensures('refused only if the file holds distances', there)
        return
    ensures('existing distances are refused', not there)
    ensures('the file is marked as done', sd.attr_of('').get('done') is True)
    k, = bound(1)
    ensures('every pair has its distance', lambda: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g['NP']), g['ran'](g['JOB'](k)))))
    ensures('nothing else is written', all(x[1] == DIST for x in fs.writes()) and all(y[0] == 'close' for y in sd.log))


TARGETS = [
    Target('create_distance_jobs', P, drive_jobs, ['C08', 'C20'], stubs=files_stub, loops=JOBS,
           assumptions=[H5, 'at least one BY block; the intervals of the BY blocks are those of the task module (C04)']),
    Target('Features_Accessor.get_features_from_raw', P, drive_raw, ['C09'], stubs=files_stub, hooks={'dict': hook_dict, 'dictcomp': hook_dictcomp},
           loops={('Features_Accessor.get_features_from_raw', 0): Spec(inv_raw, ghost=ghost_raw)},
           covers=['Features_Accessor.__init__', 'Features_Accessor.get_features_from_raw'],
           assumptions=['h5features.read gives dictionaries with string keys, one row of features per time', 'every file of the items is in the feature files (C18)', 'comparison of float64 times is exact']),
    Target('run_distance_job', P, drive_run, ['C08', 'C09', 'C23'], loops=RUN, hooks={'dict': hook_dict},
           replace={P: {'Features_Accessor': accessor_stub(None)}},
           assumptions=[H5, 'features are not split (compute_distances never splits them)', 'pandas.HDFStore: the table of a block, its index is the position of the row (C05)',
                        'h5features.read: dictionaries of arrays', 'other workers write right values only, in their own cells (the guarantee that is proved of this one)',
                        'sequentially consistent files once closed']),
    Target('compute_distances', P, drive_compute, ['C08', 'C20', 'C23'], stubs=compute_stubs, loops={('compute_distances', 0): Spec()},
           replace={P: {'create_distance_jobs': create_jobs_stub, 'run_distance_job': run_job_stub}}, covers=['compute_distances', 'worker'],
           assumptions=['multiprocessing.Pool.map runs every task and waits for it, or raises; Manager().Lock() excludes other processes', H5]),
]
