"""Contracts of DTW (C10): dynamic programming against the recursive
definition, the recursive definition against the alignments."""
import os
from pyvc.api import *
from pyvc.engine import REPO

P = 'ABXpy/distances/metrics/dtw/dtw.pyx'
for root in ('ABXpy/distances/metrics', 'ABXpy/distances/metrics/dtw'):
    if os.path.isfile(os.path.join(REPO, root, 'dtw.pyx')):
        P = root + '/dtw.pyx'

D = z3.Function('D', I, I, R)        # cost of the best alignment of the prefixes ending at (i, j)
DL = z3.Function('D.l', I, I, R)
L = z3.Function('L', I, I, I)        # length of the alignment found by backtracking from (i, j)
LL = z3.Function('L.l', I, I, I)


def min3(a, b, c):
    return z3.If(z3.And(a <= b, a <= c), a, z3.If(b <= c, b, c))


def define_D(d):
    """the recursive definitions, with d the frame to frame distances"""
    c = ctx()
    i, j = bound(2)
    body = z3.If(z3.And(i == 0, j == 0), d(0, 0), z3.If(
        j == 0, d(i, 0) + DL(i - 1, 0), z3.If(
            i == 0, d(0, j) + DL(0, j - 1),
            d(i, j) + min3(DL(i - 1, j - 1), DL(i, j - 1), DL(i - 1, j)))))
    g = z3.And(i >= 0, j >= 0)
    c.assume(fa([i, j], z3.Implies(g, D(i, j) == body), D(i, j)))
    c.assume(fa([i, j], D(i, j) == DL(i, j), D(i, j)))
    diag, left, up = D(i - 1, j - 1), D(i, j - 1), D(i - 1, j)
    lb = z3.If(i == 0, j + 1, z3.If(j == 0, i + 1, 1 + z3.If(
        z3.And(diag <= left, diag <= up), LL(i - 1, j - 1), z3.If(left <= up, LL(i, j - 1), LL(i - 1, j)))))
    c.assume(fa([i, j], z3.Implies(g, L(i, j) == lb), L(i, j)))
    c.assume(fa([i, j], L(i, j) == LL(i, j), L(i, j)))


def drive_dtw_(E):
    f = E.fn('_dtw')
    N, M = fresh_int('N', 1), fresh_int('M', 1)
    d = fresh_arr('dist', (N, M), FLOAT64)
    define_D(d.snap())
    norm = ctx().fork(fresh_bool('normalized'))
    r = f(N, M, d, norm)
    cost = D(N.e - 1, M.e - 1)
    if norm:
        ensures('the cost of the best alignment divided by the length of the one found by backtracking',
                Zr(r) * z3.ToReal(L(N.e - 1, M.e - 1)) == cost)
    else:
        ensures('the cost of the best alignment', Zr(r) == cost)


def done(cost, i, j):
    return cost[i, j] == wrap(D(i.e, j.e))


row0 = Spec(
    lambda cost, N, M: And(cost.shape[0] == N, cost.shape[1] == M),
    lambda cost, _it: forall([(0, _it + 1)], lambda k: done(cost, k, SNum(z3.IntVal(0)))))
col0 = Spec(
    lambda cost, N, M: And(cost.shape[0] == N, cost.shape[1] == M),
    lambda cost, N: forall([(0, N)], lambda k: done(cost, k, SNum(z3.IntVal(0)))),
    lambda cost, _it: forall([(0, _it + 1)], lambda k: done(cost, SNum(z3.IntVal(0)), k)))
outer = Spec(
    lambda cost, N: forall([(0, N)], lambda k: done(cost, k, SNum(z3.IntVal(0)))),
    lambda cost, _it, M: forall([(0, _it + 1), (0, M)], lambda a, b: done(cost, a, b)))
inner = Spec(
    lambda cost, N: forall([(0, N)], lambda k: done(cost, k, SNum(z3.IntVal(0)))),
    lambda cost, i, M: forall([(0, i), (0, M)], lambda a, b: done(cost, a, b)),
    lambda cost, i, _it: forall([(0, _it + 1)], lambda b: done(cost, i, b)))
back = Spec(
    lambda i, j, N, M: And(0 <= i, i < N, 0 <= j, j < M),
    lambda path_len: path_len >= 1,
    lambda i, j, N, M, path_len: path_len - 1 + wrap(L(Zi(i), Zi(j))) == wrap(L(Zi(N) - 1, Zi(M) - 1)),
    variant=lambda i, j: i + j)


def drive_dtw(E):
    f = E.fn('dtw')
    N, M, K = fresh_int('n', 0), fresh_int('m', 0), fresh_int('dim', 1)
    x, y = fresh_arr('x', (N, K), FLOAT64), fresh_arr('y', (M, K), FLOAT64)
    norm = ctx().fork(fresh_bool('normalized'))
    d = fresh_arr('dist', (N, M), FLOAT64)
    res = fresh_real('res')
    called = []

    def metric(a, b):
        c = ctx()
        c.oblige('the metric receives x then y', a is x and b is y, 'precondition')
        return d

    def stub(n, m, dist, normalized):
        c = ctx()
        c.oblige('called with the sizes of the matrix of distances', And(n == N, m == M, n >= 1, m >= 1), 'precondition')
        c.oblige('called with the distances of the metric', dist is d, 'precondition')
        c.oblige('called with the requested normalization', normalized is norm, 'precondition')
        called.append(1)
        return res
    E.mod(P).__dict__['_dtw'] = stub
    E.fn('_dtw')
    try:
        r = f(x, y, metric, norm)
    except ValueError:
        ensures('only empty sequences are refused', Or(N == 0, M == 0))
        return
    ensures('empty sequences are refused', And(N > 0, M > 0))
    ensures('the result of the dynamic programming is returned', And(bool(called), r == res))


# ---------------------------------------------------- D is the optimum

GHOST = '''
def any_alignment(n, a, b, acc):
    for k in range(1, n):
        pass


def best_alignment(i, j, d, better):
    acc = 0.
    length = 1
    while i > 0 or j > 0:
        acc = acc + d(i, j)
        i, j = better(i, j)
        length = length + 1
    return acc + d(i, j), length
'''


def ghost(E):
    from pyvc import xform, shims
    from pyvc.engine import VC
    g = {'__builtins__': shims.builtin_dict({'locals': locals_builtin()}), '__vc__': VC(E)}
    exec(compile(xform.rewrite(GHOST, '<ghost>'), '<ghost>', 'exec'), g)
    return g


def locals_builtin():
    import builtins
    return builtins.locals


def drive_lower(E):
    """no alignment costs less than D"""
    N, M = fresh_int('N', 1), fresh_int('M', 1)
    d = fresh_arr('dist', (N, M), FLOAT64)
    define_D(d.snap())
    n = fresh_int('n', 1)
    a, b = fresh_arr('a', (n,), INT64), fresh_arr('b', (n,), INT64)
    acc = fresh_arr('acc', (n,), FLOAT64)
    ds = d.snap()
    requires(And(a[0] == 0, b[0] == 0, a[n - 1] == N - 1, b[n - 1] == M - 1))
    requires(lambda: forall([(0, n)], lambda k: And(a[k] >= 0, a[k] < N, b[k] >= 0, b[k] < M)))
    requires(lambda: forall([(1, n)], lambda k: Or(
        And(a[k] == a[k - 1] + 1, b[k] == b[k - 1]), And(a[k] == a[k - 1], b[k] == b[k - 1] + 1),
        And(a[k] == a[k - 1] + 1, b[k] == b[k - 1] + 1))))
    requires(acc[0] == d[0, 0])
    requires(lambda: forall([(1, n)], lambda k: acc[k] == acc[k - 1] + wrap(ds(Zi(a[k]), Zi(b[k])))))
    E.genv.update(gacc=acc, ga=a, gb=b)
    ghost(E)['any_alignment'](n, a, b, acc)
    ensures('the cost of any alignment is at least D', acc[n - 1] >= wrap(D(N.e - 1, M.e - 1)))


lower = Spec(lambda acc, a, b, _it: wrap(acc.at(Zi(_it))) >= wrap(D(a.at(Zi(_it)), b.at(Zi(_it)))))


def drive_upper(E):
    """some alignment costs D, and has the length of the backtracking"""
    N, M = fresh_int('N', 1), fresh_int('M', 1)
    d = fresh_arr('dist', (N, M), FLOAT64)
    define_D(d.snap())
    c = ctx()

    def better(i, j):
        i, j = Zi(i), Zi(j)
        diag, left, up = D(i - 1, j - 1), D(i, j - 1), D(i - 1, j)
        usediag = z3.And(i > 0, j > 0, diag <= left, diag <= up)
        useleft = z3.Or(i == 0, z3.And(i > 0, j > 0, left <= up))
        return (wrap(z3.If(usediag, i - 1, z3.If(useleft, i, i - 1))), wrap(z3.If(usediag, j - 1, z3.If(useleft, j - 1, j))))
    cost, length = ghost(E)['best_alignment'](N - 1, M - 1, lambda i, j: d[i, j], better)
    ensures('some alignment costs D', Zr(cost) == D(N.e - 1, M.e - 1))
    ensures('its length is the one found by backtracking', Zi(length) == L(N.e - 1, M.e - 1))


upper = Spec(
    lambda i, j, _pre: And(0 <= i, i <= _pre.i, 0 <= j, j <= _pre.j),
    lambda i, j, acc, _pre: Zr(acc) + D(Zi(i), Zi(j)) == D(Zi(_pre.i), Zi(_pre.j)),
    lambda i, j, length, _pre: Zi(length) + L(Zi(i), Zi(j)) == 1 + L(Zi(_pre.i), Zi(_pre.j)),
    variant=lambda i, j: i + j)

A1 = 'DTW: C doubles are treated as real numbers, C integers as mathematical (no NaN, no infinite distance)'
A2 = 'DTW: the Cython source is converted to Python by dropping the C declarations; the C compiler and Cython are trusted'
TARGETS = [
    Target('_dtw', P, drive_dtw_, ['C10'], loops={('_dtw', 0): row0, ('_dtw', 1): col0, ('_dtw', 2): outer, ('_dtw', 3): inner,
                                                 ('_dtw', 4): back}, assumptions=[A1, A2]),
    Target('dtw', P, drive_dtw, ['C10'], assumptions=[A2]),
    Target('lemma: no alignment is cheaper', P, drive_lower, ['C10'], loops={('any_alignment', 0): lower}, kind='lemma'),
    Target('lemma: an alignment has this cost and length', P, drive_upper, ['C10'], loops={('best_alignment', 0): upper}, kind='lemma'),
]
