"""Contract of the analysis (C13): one row per combination of labels found in a BY
block, with the mean score and the number of its triplets."""
from contracts.common import *
from pyvc.core import Lab as LAB
from pyvc.shims import Joined
from pyvc.engine import instrument
from pyvc.symnp import partial_sum
from contracts.radix import mixed_radix, code_facts

P = 'ABXpy/analyze.py'


# ------------------------------------------------------------------ npdecode

def division(k, E, n, a, rows):
    c = ctx()
    q, d, x, r, m = bound(5)
    F = z3.ForAll([q, d, x], z3.Implies(z3.And(d >= 1, q >= 0, x >= 0, x < d), z3.And((q * d + x) / d == q, (q * d + x) % d == x)))
    lemma('quotient and remainder of a code', F)
    use(F, [r, m], [E(r, m - 1), n(m), a(r, m)], E(r, m))
    rng = z3.And(r >= 0, r < rows)
    f = z3.Implies(z3.And(rng, m >= 1, m < k), z3.And(E(r, m) / n(m) == E(r, m - 1), E(r, m) % n(m) == a(r, m)))
    lemma('decoding of one digit', z3.ForAll([r, m], f))
    c.assume(fa([r, m], f, E(r, m)))


def drive_npdecode(Eng):
    c = ctx()
    k, rows = fresh_int('columns', 1), fresh_int('rows', 0)
    N = fresh_arr('max_ind', (k,), symbolic_uint('ind_type'))
    a = fresh_fun('digit', I, I, I)
    E = fresh_fun('code', I, I, I)
    keys = fresh_arr('keys', (rows,), symbolic_uint('key_type'))
    r, m = bound(2)
    K, M = Zi(k), Zi(rows)
    n = lambda m: N.at(m)
    c.assume(fa([m], z3.Implies(z3.And(m >= 0, m < K), n(m) >= 1), n(m)))
    c.assume(fa([r, m], z3.Implies(z3.And(r >= 0, r < M, m >= 0, m < K), z3.And(a(r, m) >= 0, a(r, m) < n(m), E(r, m) >= 0)), a(r, m)))
    c.assume(fa([r, m], z3.Implies(z3.And(r >= 0, r < M, m >= 0, m < K), E(r, m) >= 0), E(r, m)))
    mixed_radix(E, K, n, a, M, 'npdecode')
    c.assume(fa([r], z3.Implies(z3.And(r >= 0, r < M), keys.at(r) == E(r, K - 1)), keys.at(r)))
    c.assume(fa([r], z3.Implies(z3.And(r >= 0, r < M), keys.at(r) <= Zi(keys.dtype.maxv)), keys.at(r)))
    division(K, E, n, a, M)
    c.ghost['dec'] = dict(E=E, a=a, K=K, M=M)
    q, d = bound(2)
    F = z3.ForAll([q, d], z3.Implies(z3.And(q >= 0, d >= 1), q * d >= q))
    lemma('a multiple is not smaller', F)
    use(F, [r, m], [E(r, m - 1), n(m)], E(r, m))
    derive('codes of the first columns are smaller', [r, m], z3.And(r >= 0, r < M, m >= 1, m < K), z3.And(E(r, m) == E(r, m - 1) * n(m) + a(r, m), a(r, m) >= 0, E(r, m - 1) * n(m) >= E(r, m - 1)), E(r, m - 1) <= E(r, m), E(r, m))
    induction('the codes of the first columns are in the type of the keys', lambda d: z3.ForAll([r], z3.Implies(
        z3.And(r >= 0, r < M), E(r, K - 1 - d) <= Zi(keys.dtype.maxv))), 0, k - 1, lambda d, r: [E(r, K - 1 - d)])
    res = Eng.fn('npdecode')(keys, N)
    ensures('one row per key, one column per regressor', lambda: And(res.ndim == 2, res.shape[0] == rows, res.shape[1] == k))
    ensures('the columns are the indices that were encoded', lambda: z3.ForAll([r, m], z3.Implies(
        z3.And(r >= 0, r < M, m >= 0, m < K), res.at(r, m) == a(r, m))))


def dec_inv(aux, res, _it, _g):
    d = _g['dec']
    r, m = bound(2)
    E, K = d['E'], d['K']
    it = Zi(_it)
    return z3.And(Zi(aux.shape[0]) == d['M'],
                  z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < d['M']), aux.at(r) == E(r, K - 1 - it)), patterns=pat(aux.at(r))),
                  z3.ForAll([r, m], z3.Implies(z3.And(r >= 0, r < d['M'], m > K - 1 - it, m < K), res.at(r, m) == d['a'](r, m)), patterns=pat(res.at(r, m)) + [d['a'](r, m)]))


def pat(t):
    return [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else []


# -------------------------------------------------------------------- unique

def drive_unique(Eng):
    c = ctx()
    n = fresh_int('n', 1)
    idx = fresh_arr('index', (n,), symbolic_uint('key_type'))
    col = c.fork(fresh_bool('column'))
    S = fresh_arr('scores', (n, 1) if col else (n,), INT8)
    i, j, r, s = bound(4)
    N = Zi(n)
    f = idx.snap()
    # sorted (argsort)
    c.assume(fa([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N), f(i) <= f(j)), (f(i), f(j))))
    k = z3.Int('%k')
    PS = partial_sum(S.at(*((k, 0) if col else (k,))), k)
    c.ghost['uni'] = dict(PS=PS)
    means, uindex, counts = Eng.fn('unique')(idx, S)
    seg, m = c.ghost['uni']['seg'], Zi(c.ghost['uni']['m'])
    rng = z3.And(r >= 0, r < m)
    ensures('sizes', lambda: And(means.ndim == 1, means.shape[0] == wrap(m), uindex.shape[0] == wrap(m), counts.shape[0] == wrap(m)))
    ensures('the groups are a partition of the triplets', lambda: z3.And(m >= 1, seg(z3.IntVal(0)) == 0, seg(m) == N, z3.ForAll([r], z3.Implies(
        rng, z3.And(seg(r) < seg(r + 1), seg(r) >= 0, seg(r + 1) <= N)))))
    induction('no change within a group', lambda e: z3.ForAll([r], z3.Implies(z3.And(rng, seg(r) <= e, e < seg(r + 1)), f(e) == f(seg(r)))),
              0, n - 1, lambda e, r: [(f(e), seg(r))])
    ensures('all the keys of a group are the same', lambda: z3.ForAll([r, i], z3.Implies(
        z3.And(rng, seg(r) <= i, i < seg(r + 1)), z3.And(f(i) == f(seg(r)), uindex.at(r) == f(i)))))
    ensures('different groups have different keys', lambda: z3.ForAll([r, s], z3.Implies(
        z3.And(rng, s > r, s < m), uindex.at(r) < uindex.at(s))))
    ensures('counts are the sizes of the groups', lambda: z3.ForAll([r], z3.Implies(rng, counts.at(r) == seg(r + 1) - seg(r))))
    ensures('means are those of the scores of the groups, on the scale of error rates', lambda: z3.ForAll([r], z3.Implies(
        rng, means.at(r) == mean_of(PS, seg, r))))


def mean_of(PS, seg, r):
    return (z3.ToReal(PS(seg(r + 1)) - PS(seg(r))) / z3.ToReal(seg(r + 1) - seg(r)) + 1) / 2


def hook_nonzero(Eng):
    """the boundaries found by the code: the witness of the partition"""
    return {}


def uni_inv(means, counts, i, _it, _g, unique_idx):
    d = _g['uni']
    g = unique_idx.snap()
    seg = lambda r: g(r)
    if 'seg' not in d:
        d['seg'], d['m'] = seg, counts.shape[0]
    q, = bound(1)
    PS = d['PS']
    return z3.And(Zi(i) == seg(Zi(_it)), Zi(counts.shape[0]) == Zi(unique_idx.shape[0]) - 1,
                  z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Zi(_it)), means.at(q) == z3.ToReal(PS(seg(q + 1)) - PS(seg(q))) / z3.ToReal(seg(q + 1) - seg(q))),
                            patterns=pat(means.at(q))))

# ------------------------------------------------------------------ collapse

TASK, SCORE = 'my.abx', 'my.score'


class Keyed(object):
    """group whose members are given by a function of their (symbolic) name"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, SLab):
            return self.f(k.e)
        if isinstance(k, str):
            from pyvc.core import lab
            return self.f(lab(k))
        raise Unsupported('name of a member of a group')


class Members(object):
    def __init__(self, **d):
        self.d = d

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.d:
            return self.d[k]()
        raise Unsupported('member of a group: %r' % (k,))


class Out(object):
    """the result file: the rows are checked when they are written"""

    def __init__(self, check):
        self.check = check
        self.row = 0            # rows written for the current block
        self.rows = 0           # rows expected for the current block
        self.covered = 0        # triplets of the blocks already handled

    def write(self, s):
        self.check(self, s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


instrument(Out)


def regressors(U):
    """the regressors of the task: by -> columns, indices, labels"""
    c = ctx()
    K = z3.Function('ncol', LAB, I)
    n = z3.Function('nrow', LAB, I)
    X = z3.Function('X', LAB, I, I, I)
    name = z3.Function('name', LAB, I, LAB)
    nlev = z3.Function('nlevels', LAB, LAB, I)
    L = z3.Function('level', LAB, LAB, I, LAB)
    by = z3.Const('%by', LAB)
    i, j = bound(2)
    c.assume(fa([by], z3.And(K(by) >= 1, n(by) >= 0), K(by)))
    c.assume(fa([by], z3.And(K(by) >= 1, n(by) >= 0), n(by)))
    nm = z3.Const('%nm', LAB)
    c.assume(z3.ForAll([by, nm], nlev(by, nm) >= 0, patterns=[nlev(by, nm)]))
    c.assume(fa([by, i, j], z3.Implies(z3.And(i >= 0, i < n(by), j >= 0, j < K(by)), z3.And(
        X(by, i, j) >= 0, X(by, i, j) < nlev(by, name(by, j)), X(by, i, j) + 1 <= Zi(U.maxv))), X(by, i, j)))

    def group(e):
        return Members(indexed_data=lambda: DSet(Arr((wrap(n(e)), wrap(K(e))), lambda i, j: X(e, i, j), U)),
                       indexed_datasets=lambda: DSet(Arr((wrap(K(e)),), lambda j: name(e, j), OBJ)),
                       indexes=lambda: Keyed(lambda r: DSet(Arr((wrap(nlev(e, r)),), lambda v: L(e, r, v), OBJ))))
    return NS(dict(K=K, n=n, X=X, name=name, L=L, nlev=nlev, group=group))


def drive_collapse(Eng):
    c = ctx()
    fs = c.ghost['files']
    nb, nt = fresh_int('blocks', 0), fresh_int('triplets', 0)
    bys = fresh_arr('bys', (nb,), OBJ)
    BI = fresh_arr('by_index', (nb, 2), INT64)
    S = fresh_arr('S', (nt, 1), INT8)
    U = symbolic_uint('index_type')
    R_ = regressors(U)
    q, i, r, j = bound(4)
    N, NT = Zi(nb), Zi(nt)
    by = lambda q: bys.at(q)
    b0, b1 = (lambda q: BI.at(q, 0)), (lambda q: BI.at(q, 1))
    c.assume(fa([q], z3.Implies(z3.And(q >= 0, q < N), z3.And(
        0 <= b0(q), b0(q) <= b1(q), b1(q) <= NT, b0(q) == z3.If(q > 0, b1(q - 1), z3.IntVal(0)),
        z3.Implies(q == N - 1, b1(q) == NT), R_.n(by(q)) == b1(q) - b0(q))), by(q)))
    c.assume(z3.Implies(N == 0, NT == 0))
    st = H5Store(TASK, known={'bys': DSet(bys), 'triplets': 'group', 'triplets/by_index': DSet(BI), 'regressors': Keyed(R_.group)})
    fs.stores.update({TASK: st, SCORE: H5Store(SCORE, known={'scores': DSet(S)})})
    fs.exists_.update({TASK: True, SCORE: True})
    k = z3.Int('%k')
    g = c.ghost['col'] = dict(R=R_, by=by, b0=b0, b1=b1, S=S, N=N, NT=NT)

    def check(o, s):
        if 'seg' not in g:
            raise Unsupported('rows are not written from the groups')
        if not isinstance(s, Joined):
            raise Unsupported('a row that is not made of columns')
        b = by(Zi(g['bi']))
        seg, p, rr = g['seg'], g['p'], Zi(o.row)
        K = R_.K(b)
        c.oblige('a row is a line of tab separated columns', s.sep == '\t' and s.end == '\n', 'postcondition')
        c.oblige('a row for each combination, and no more', rr < Zi(o.rows), 'postcondition')
        c.oblige('columns of a row', Zi(s.n) == K + 3, 'postcondition')
        col = lambda t: Z(spec(s.fn, t))
        jj = z3.Int(c.fresh_name('col'))
        c.oblige('the labels of a row are those of its triplets', z3.Implies(z3.And(jj >= 0, jj < K), z3.ForAll([i], z3.Implies(
            z3.And(seg(rr) <= i, i < seg(rr + 1)), col(jj) == R_.L(b, R_.name(b, jj), R_.X(b, p(i), jj))))), 'postcondition')
        c.oblige('the BY label of a row', col(K) == b, 'postcondition')
        f, h = uf('str_of_real', R, LAB), uf('str_of_int', I, LAB)
        c.oblige('the score of a row is the mean error rate of its triplets', col(K + 1) == f(g['mean'](rr)), 'postcondition')
        c.oblige('the number of triplets of a row', col(K + 2) == h(seg(rr + 1) - seg(rr)), 'postcondition')
        o.row = o.row + 1
    out = Out(check)
    g['out'] = out
    try:
        Eng.fn('collapse')(SCORE, TASK, out)
    except AssertionError:
        if 'prod' not in c.ghost:
            raise
        A_, PR = c.ghost['prod']
        ensures('refused only if the combinations of labels cannot be coded', lambda: sbool(PR(Zi(A_.shape[0])) >= 2 ** 64 - 1))
        return
    ensures('every row is written', lambda: out.row == out.rows)
    ensures('every triplet is in one row', lambda: out.covered == nt)
    ensures('the files are not modified', all(len(s.log) == s.log.count(('close',)) for s in fs.stores.values()) and
            not any(x[0] not in ('r', 'r+') for x in fs.log))


def stub_fit(n, is_signed=True):
    """contract of fit_integer_type; the facts about the codes are set up here (n is the
    number of combinations)"""
    c = ctx()
    if 'prod' not in c.ghost or 'col' not in c.ghost:
        raise Unsupported('the number of combinations is not a product')
    A_, PR = c.ghost['prod']
    g = c.ghost['col']
    R_, b = g['R'], g['by'](Zi(g['bi']))
    K, M = R_.K(b), R_.n(b)
    lv, X = A_.snap(), (lambda i, j: R_.X(b, i, j))
    dt, E = code_facts(A_, PR, K, M, lv, X, n, is_signed, 'collapse')
    g.update(E=E, PR=PR, lv=lv, K=K, M=M)
    return dt


def stub_unique(index, scores):
    """contract proved above (unique)"""
    c = ctx()
    g = c.ghost['col']
    if 'argsort' not in c.ghost or 'E' not in g:
        raise Unsupported('the keys are not sorted codes')
    p, pinv, np_ = c.ghost['argsort']
    n = index.shape[0]
    N = Zi(n)
    i, j, r, s = bound(4)
    f = index.snap()
    R_, out, bi = g['R'], g['out'], Zi(g['bi'])
    b = g['by'](bi)
    rng = lambda i: z3.And(i >= 0, i < N)
    c.oblige('every triplet of the block is given once', z3.And(N == g['b1'](bi) - g['b0'](bi), Zi(np_) == N, Zi(scores.shape[0]) == N), 'precondition')
    c.oblige('the keys are the codes of the rows', z3.ForAll([i], z3.Implies(rng(i), f(i) == g['E'](p(i), g['K'] - 1))), 'precondition')
    c.oblige('scores and keys are in the same order', z3.ForAll([i], z3.Implies(rng(i), scores.at(*([i] + [0] * (scores.ndim - 1))) == g['S'].at(g['b0'](bi) + p(i), 0))), 'precondition')
    c.oblige('the keys are sorted', z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), f(i) <= f(j))), 'precondition')
    c.oblige('a block is not empty', N > 0, 'precondition')
    m = fresh_int('groups', 1)
    seg = fresh_fun('seg', I, I)
    M = Zi(m)
    g2 = z3.And(r >= 0, r < M)
    c.assume(z3.And(seg(z3.IntVal(0)) == 0, seg(M) == N))
    c.assume(fa([r], z3.Implies(g2, z3.And(seg(r) < seg(r + 1), seg(r) >= 0, seg(r + 1) <= N)), seg(r)))
    u = fresh_arr('uindex', (m,), index.dtype)
    k = z3.Int('%k')
    PS = partial_sum(z3.simplify(g['S'].at(g['b0'](bi) + p(k), 0)), k)
    MEAN = fresh_fun('mean', I, R)         # the mean of the scores of a group, on the scale of error rates
    c.assume(fa([r], MEAN(r) == mean_of(PS, seg, r), MEAN(r)))
    g['mean'] = MEAN
    means, counts = fresh_arr('means', (m,), FLOAT64), fresh_arr('counts', (m,), INT64)
    c.assume(fa([r, i], z3.Implies(z3.And(g2, seg(r) <= i, i < seg(r + 1)), z3.And(f(i) == f(seg(r)), u.at(r) == f(i))), (seg(r), p(i))))
    c.assume(fa([r], z3.Implies(g2, u.at(r) == f(seg(r))), u.at(r)))
    c.assume(fa([r, s], z3.Implies(z3.And(g2, s > r, s < M), u.at(r) < u.at(s)), (u.at(r), u.at(s))))
    c.assume(fa([r], z3.Implies(g2, z3.And(counts.at(r) == seg(r + 1) - seg(r), means.at(r) == MEAN(r))), means.at(r)))
    c.assume(fa([r], z3.Implies(g2, counts.at(r) == seg(r + 1) - seg(r)), counts.at(r)))
    # the rows of the block before are all written
    c.oblige('every row of a block is written before the next one', out.row == out.rows, 'precondition')
    out.row = 0
    out.rows = m
    out.covered = out.covered + n
    g.update(seg=seg, p=p, u=u, m=M)
    # different groups: different rows
    e2 = lambda x, y: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < g['K']), R_.X(b, x, j) == R_.X(b, y, j)), patterns=[R_.X(b, x, j), R_.X(b, y, j)])
    derive('different groups have different codes', [r, s], z3.And(g2, s > r, s < M), z3.And(u.at(r) < u.at(s), u.at(r) == g['E'](p(seg(r)), g['K'] - 1),
           u.at(s) == g['E'](p(seg(s)), g['K'] - 1)), g['E'](p(seg(r)), g['K'] - 1) < g['E'](p(seg(s)), g['K'] - 1), (seg(r), seg(s)))
    hy = z3.And(g['E'](p(seg(r)), g['K'] - 1) != g['E'](p(seg(s)), g['K'] - 1), p(seg(r)) >= 0, p(seg(r)) < g['M'], p(seg(s)) >= 0, p(seg(s)) < g['M'])
    lemma('different groups have different codes (2)', z3.ForAll([r, s], z3.Implies(z3.And(g2, s > r, s < M), hy)))
    lemma('different groups have different labels', z3.ForAll([r, s], z3.Implies(z3.And(g2, s > r, s < M, hy, e2(p(seg(r)), p(seg(s)))), False)))
    return means, u, counts


def stub_npdecode(keys, max_ind):
    """contract proved above (npdecode)"""
    c = ctx()
    g = c.ghost['col']
    if 'seg' not in g or keys.ndim != 1:
        raise Unsupported('the keys decoded are not those of the groups')
    seg, p, E, K = g['seg'], g['p'], g['E'], g['K']
    b = g['by'](Zi(g['bi']))
    r, j = bound(2)
    M = Zi(keys.shape[0])
    rng = z3.And(r >= 0, r < M)
    c.oblige('the sizes decoded are those of the encoding', z3.And(Zi(max_ind.shape[0]) == K, z3.ForAll([j], z3.Implies(
        z3.And(j >= 0, j < K), max_ind.at(j) == g['lv'](j)))), 'precondition')
    c.oblige('one key per group', M == g['m'], 'precondition')
    c.oblige('the keys decoded are codes of rows', z3.ForAll([r], z3.Implies(rng, z3.And(p(seg(r)) >= 0, p(seg(r)) < g['M'], keys.at(r) == E(p(seg(r)), K - 1)))), 'precondition')
    res = fresh_arr('decoded', (keys.shape[0], max_ind.shape[0]), UINT64)
    c.assume(fa([r, j], z3.Implies(z3.And(rng, j >= 0, j < K), res.at(r, j) == g['R'].X(b, p(seg(r)), j)), res.at(r, j)))
    return res


def blocks(_it, _g):
    g = _g['col']
    g['bi'] = _it
    it = Zi(_it)
    o = g['out']
    return z3.And(Zi(o.row) == Zi(o.rows), Zi(o.covered) == z3.If(it > 0, g['b1'](it - 1), z3.IntVal(0)), z3.Or(it == 0, g['by'](it - 1) == g['by'](it - 1)))


def encode(new_index, _it, _g):
    g = _g['col']
    i, = bound(1)
    return z3.And(Zi(new_index.shape[0]) == g['M'], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g['M']), new_index.at(i) == g['E'](i, Zi(_it))), patterns=pat(new_index.at(i)) or [g['E'](i, Zi(_it))]),
                  Zi(new_index.dtype.maxv) >= g['PR'](g['K']))


def label_lists(indexes, _it, _g):
    g = _g['col']
    b = g['by'](Zi(g['bi']))
    R_ = g['R']
    j, v = bound(2)
    it = Zi(_it)
    n = indexes.__vclen__()
    if indexes.conc is not None and not indexes.conc:
        return sbool(it == 0)
    a = indexes.vc_snapshot()
    a._symbolize()
    x = a.fn(j)
    return z3.And(Zi(n) == it, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it), Zi(x.shape[0]) == R_.nlev(b, R_.name(b, j)))),
                  z3.ForAll([j, v], z3.Implies(z3.And(j >= 0, j < it), x.at(v) == R_.L(b, R_.name(b, j), v))))


def rows_inv(_it, _g):
    o = _g['col']['out']
    return Zi(o.row) == Zi(_it)


def row_labels(aux, _it, _g):
    g = _g['col']
    b = g['by'](Zi(g['bi']))
    R_ = g['R']
    j, = bound(1)
    it = Zi(_it)
    if aux.conc is not None and not aux.conc:
        return sbool(it == 0)
    a = aux.vc_snapshot()
    a._symbolize()
    t = Z(a.fn(j))
    rr = Zi(g['out'].row)
    return z3.And(Zi(aux.__vclen__()) == it, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it), t == R_.L(b, R_.name(b, j), R_.X(b, g['p'](g['seg'](rr)), j)))))


COLL = {('collapse', 0): Spec(blocks), ('collapse', 1): Spec(encode), ('collapse', 2): Spec(label_lists),
        ('collapse', 3): Spec(rows_inv), ('collapse', 4): Spec(row_labels)}


TARGETS = [
    Target('npdecode', P, drive_npdecode, ['C13'], loops={('npdecode', 0): Spec(dec_inv)}, covers=['analyze.npdecode']),
    Target('unique', P, drive_unique, ['C13'], loops={('unique', 0): Spec(uni_inv)}, covers=['analyze.unique']),
    Target('collapse', P, drive_collapse, ['C13'], stubs=files_stub, loops=COLL,
           replace={P: {'unique': stub_unique, 'npdecode': stub_npdecode, 'fit_integer_type': stub_fit}}, covers=['analyze.collapse'],
           assumptions=[H5, 'the task file is the one of the task module: blocks partition the triplets (C04), one row of regressors per triplet (C07)',
                        'the number of levels of a regressor fits in the type of its indices (C17)']),
]
