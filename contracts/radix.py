"""Mixed radix codes of rows of indices: the facts shared by the analysis and the triplets."""
from contracts.common import *


def mixed_radix(E, k, n, a, rows, what):
    """facts about the code E(r, c) = E(r, c-1) * n(c) + a(r, c), E(r, 0) = a(r, 0)"""
    c = ctx()
    r, m = bound(2)
    rng = z3.And(r >= 0, r < rows)
    c.assume(fa([r], z3.Implies(rng, E(r, z3.IntVal(0)) == a(r, z3.IntVal(0))), E(r, z3.IntVal(0))))
    body = z3.Implies(z3.And(rng, m >= 1, m < k), E(r, m) == E(r, m - 1) * n(m) + a(r, m))
    f = fa([r, m], body, E(r, m))
    c.assume(f)
    c.assume(fa([r, m], body, (E(r, m), a(r, m))))
    return [f]


def conclusions(E, PR, K, M, lv, X):
    """[(name, variables, formula, patterns)]: rows X(i, j) < lv(j), i < M, j < K; PR: partial products
    of the lv; E(i, j): code of the first columns of the rows"""
    i, j, i2, t = bound(4)
    z0, Ki = z3.IntVal(0), K - 1
    A = z3.And
    row, row2, col = A(i >= 0, i < M), A(i2 >= 0, i2 < M), A(j >= 0, j < K)
    imp = z3.Implies
    return [
        ('the code of the first column', [i], imp(row, A(E(i, z0) == X(i, z0), E(i, z0) >= 0, E(i, z0) < PR(z0 + 1), PR(z0 + 1) <= PR(K), X(i, z0) <= PR(K))), [E(i, z0), X(i, z0)]),
        ('number of combinations of the first columns', [j, t], imp(A(t >= 0, t <= K, j >= 0, j <= t), A(PR(j) >= 1, PR(j) <= PR(t))), [(PR(j), PR(t))]),
        ('at least one combination', [j], imp(A(j >= 0, j <= K), PR(j) >= 1), [PR(j)]),
        ('codes are below the number of combinations', [i, j], imp(A(row, col), A(E(i, j) >= 0, E(i, j) < PR(j + 1), E(i, j) < PR(K))), [E(i, j)]),
        ('products within a code', [i, j], imp(A(row, j >= 0, j + 1 < K), A(E(i, j) * lv(j + 1) <= PR(K), E(i, j) * lv(j + 1) + X(i, j + 1) < PR(K),
                                                                         E(i, j) * lv(j + 1) >= 0, E(i, j + 1) == E(i, j) * lv(j + 1) + X(i, j + 1))), [E(i, j)]),
        ('the last digit of a code', [i, j], imp(A(row, col), z3.If(j == 0, X(i, j) == E(i, j), X(i, j) == E(i, j) % lv(j))), [X(i, j)]),
        ('levels are above the indices', [i, j], imp(A(row, col), A(X(i, j) < lv(j), X(i, j) >= 0, X(i, j) < PR(K))), [X(i, j)]),
        ('equal codes: equal codes of all the columns', [i, i2, j], imp(A(row, row2, E(i, Ki) == E(i2, Ki), col), E(i, j) == E(i2, j)), [(E(i, j), E(i2, j))]),
        ('equal codes: equal rows', [i, i2, j], imp(A(row, row2, E(i, Ki) == E(i2, Ki), col), X(i, j) == X(i2, j)), [(X(i, j), X(i2, j))]),
        ('equal rows: equal codes', [i, i2], imp(A(row, row2, z3.ForAll([j], imp(col, X(i, j) == X(i2, j)))), E(i, Ki) == E(i2, Ki)), [(E(i, Ki), E(i2, Ki))]),
    ]


def hypotheses(PR, K, M, lv, X):
    i, j = bound(2)
    row, col = z3.And(i >= 0, i < M), z3.And(j >= 0, j < K)
    return [
        ('at least one column', K >= 1),
        ('partial products', z3.And(PR(z3.IntVal(0)) == 1, z3.ForAll([j], z3.Implies(z3.And(j >= 1, j <= K), PR(j) == PR(j - 1) * lv(j - 1)), patterns=[PR(j)]))),
        ('at least one level', z3.ForAll([j], z3.Implies(col, lv(j) >= 1), patterns=[lv(j)])),
        ('levels are above the indices', z3.ForAll([i, j], z3.Implies(z3.And(row, col), z3.And(X(i, j) >= 0, X(i, j) < lv(j))), patterns=[X(i, j)])),
    ]


def code_facts(A_, PR, K, M, lv, X, n, is_signed, what):
    """rows X(i, j) < lv(j), i < M, j < K; A_: array of the lv, PR: its partial products; n: the number
    given to fit_integer_type -> type of the codes, codes E(i, j) of the first columns of the rows.
    The facts about the codes are the lemma proved below."""
    c = ctx()
    c.oblige('the product is over the columns', Zi(A_.shape[0]) == K)
    E = fresh_fun('code', I, I, I)
    for name, f in hypotheses(PR, K, M, lv, X):
        o = len(c.pc)
        c.oblige(name, f, 'precondition')
        del c.pc[o:]
    for name, vs, f, pats in conclusions(E, PR, K, M, lv, X):
        c.assume(fa(vs, f, *pats))
    return stub_fit_integer_type(n, is_signed), E


def prove(_=None):
    c = ctx()
    PR, lv, X, E = fresh_fun('PR', I, I), fresh_fun('lv', I, I), fresh_fun('X', I, I, I), fresh_fun('code', I, I, I)
    K, M = Zi(fresh_int('K', 1)), Zi(fresh_int('M', 0))
    for name, f in hypotheses(PR, K, M, lv, X):
        c.assume(f)
    i, j, x, y, d, m, i2 = bound(7)
    row = z3.And(i >= 0, i < M)
    tmp = mixed_radix(E, K, lv, X, M, '')
    F = z3.ForAll([x, y, d, m], z3.Implies(z3.And(d >= 1, x >= 0, x < y, m >= 0, m < d), z3.And(x * d + m < y * d, x * d + m >= 0, x * d <= x * d + m, y * d >= y)))
    lemma('codes of one more column', F)
    j1 = j + 1
    tmp.append(use(F, [i, j], [E(i, j - 1), PR(j), lv(j), X(i, j)], E(i, j)))
    tmp.append(use(F, [j], [z3.IntVal(0), PR(j - 1), lv(j - 1), z3.IntVal(0)], PR(j)))
    induction('number of combinations of the first columns', lambda t: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= t), z3.And(PR(j) >= 1, PR(j) <= PR(t)))),
              0, wrap(K), lambda t, j: [(PR(j), PR(t))])
    induction('codes are below the number of combinations', lambda t: z3.ForAll([i], z3.Implies(row, z3.And(E(i, t) >= 0, E(i, t) < PR(t + 1)))),
              0, wrap(K - 1), lambda t, i: [E(i, t)])
    D = z3.ForAll([x, d, y], z3.Implies(z3.And(d >= 1, x >= 0, y >= 0, y < d), z3.And((x * d + y) / d == x, (x * d + y) % d == y)))
    lemma('quotient and remainder of a code', D)
    tmp.append(use(D, [i, j], [E(i, j - 1), lv(j), X(i, j)], E(i, j)))
    Ki = K - 1
    derive('products within a code', [i, j], z3.And(row, j >= 0, j + 1 < K), z3.And(E(i, j + 1) < PR(K), E(i, j) * lv(j + 1) + X(i, j + 1) == E(i, j + 1), X(i, j + 1) >= 0),
           z3.And(E(i, j) * lv(j + 1) <= PR(K), E(i, j) * lv(j + 1) + X(i, j + 1) < PR(K)), E(i, j))
    G = induction('equal codes: equal codes of the first columns', lambda t: z3.ForAll([i, i2], z3.Implies(
        z3.And(row, i2 >= 0, i2 < M, E(i, Ki) == E(i2, Ki)), E(i, Ki - t) == E(i2, Ki - t))), 0, wrap(Ki), lambda t, i, i2: [(E(i, Ki - t), E(i2, Ki - t))])
    use(G, [i, i2, j], [Ki - j, i, i2], (E(i, j), E(i2, j)))
    lemma('equal codes: equal codes of all the columns', z3.ForAll([i, i2, j], z3.Implies(
        z3.And(row, i2 >= 0, i2 < M, E(i, Ki) == E(i2, Ki), j >= 0, j < K), E(i, j) == E(i2, j))))
    z0 = z3.IntVal(0)
    derive('the last digit of a code', [i, j], z3.And(row, j >= 0, j < K), z3.Or(z3.And(j == 0, E(i, j) == X(i, j)), z3.And(j >= 1, E(i, j) % lv(j) == X(i, j))),
           z3.If(j == 0, X(i, j) == E(i, j), X(i, j) == E(i, j) % lv(j)), X(i, j))
    lemma('equal codes: equal rows', z3.ForAll([i, i2, j], z3.Implies(
        z3.And(row, i2 >= 0, i2 < M, E(i, Ki) == E(i2, Ki), j >= 0, j < K, E(i, j) == E(i2, j)), X(i, j) == X(i2, j))))
    f = z3.Implies(z3.And(row, i2 >= 0, i2 < M, E(i, Ki) == E(i2, Ki), j >= 0, j < K), X(i, j) == X(i2, j))
    c.assume(fa([i, i2, j], f, (X(i, j), X(i2, j))))      # the two lemmas above
    derive('the first index is a code', [i], row, z3.And(E(i, z0) == X(i, z0), E(i, z0) < PR(z0 + 1), PR(z0 + 1) <= PR(K)), X(i, z0) <= PR(K), X(i, z0))
    H = induction('equal rows: equal codes', lambda t: z3.ForAll([i, i2], z3.Implies(z3.And(row, i2 >= 0, i2 < M, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K), X(i, j) == X(i2, j)))),
              E(i, t) == E(i2, t))), 0, wrap(Ki))
    use(H, [i, i2], [Ki, i, i2], (E(i, Ki), E(i2, Ki)))
    derive('indices are below the number of combinations', [i, j], z3.And(row, j >= 0, j < K), z3.Or(z3.And(j == 0, X(i, j) == E(i, z0)),
           z3.And(j >= 1, E(i, (j - 1) + 1) < PR(K), E(i, j - 1) * lv(j) >= 0, X(i, j) + E(i, j - 1) * lv(j) == E(i, (j - 1) + 1))), X(i, j) < PR(K), X(i, j))
    for name, vs, f, pats in conclusions(E, PR, K, M, lv, X):
        lemma('codes: ' + name, z3.ForAll(vs, f))
