"""Contracts of the steps of the external sort (C16): a sorted chunk; the rows of a buffer that can be merged."""
from contracts.common import *
from contracts.k_h5buf import reader, pos, end_of, PR, H5

PS = 'ABXpy/h5tools/h5_handler.py'
DATASETS = [('key', 'k'), ('data', 'f'), ('data', 'i')]


def drive_chunk(E):
    """the rows [i_start, i_end) of every dataset, in the order of their keys"""
    c = ctx()
    n = fresh_int('rows', 0)
    a, b = fresh_int('i_start', 0, n), fresh_int('i_end', 0, n)
    requires(a <= b)
    ncol = [1, fresh_int('columns_f', 1), fresh_int('columns_i', 1)]
    D = [fresh_arr('D_' + d, (n, m), INT64) for (g, d), m in zip(DATASETS, ncol)]
    before = [x.snap() for x in D]
    store = H5Store('tmp.h5')
    store.empty = True
    store.created.add('')
    tmp = H5File(store, 'a')
    tmp.create_group('key')
    tmp.create_group('data')
    h = E.fn('H5Handler').__new__(E.fn('H5Handler'))
    h.__dict__.update(dsets=[DSet(x, d) for x, (g, d) in zip(D, DATASETS)], tmp=tmp, n_columns=ncol, datasets=[d for g, d in DATASETS], groups=[g for g, d in DATASETS])
    h.extract_chunk(a, b, 4)
    k, k2, col, r = bound(4)
    A, M = Zi(a), Zi(b) - Zi(a)
    names = ['%s/%s_4' % x for x in DATASETS]
    out = [store.items.get('/' + x, store.items.get(x)) for x in names]
    ensures('a chunk of every dataset is written', all(isinstance(x, DSet) for x in out))
    ensures('the chunks have the rows asked for', z3.And(*[z3.And(x.arr.ndim == 2, Zi(x.arr.shape[0]) == M, Zi(x.arr.shape[1]) == Zi(m)) for x, m in zip(out, ncol)]))
    S = [x.arr.snap() for x in out]
    z0 = z3.IntVal(0)
    if 'argsort' not in c.ghost:
        raise Unsupported('no order of the keys')
    p, q, m = c.ghost['argsort']
    rng = lambda x: z3.And(x >= 0, x < M)
    ensures('the keys of the chunk are sorted', lambda: z3.ForAll([k, k2], z3.Implies(z3.And(rng(k), rng(k2), k < k2), S[0](k, z0) <= S[0](k2, z0))))
    for (g, d), s, f, m in zip(DATASETS, S, before, ncol):
        ensures('dataset %s: row k of the chunk is the row with the key k' % d, lambda: z3.ForAll([k, col], z3.Implies(z3.And(rng(k), col >= 0, col < Zi(m)), z3.And(
            rng(p(k)), s(k, col) == f(A + p(k), col)))))
    ensures('every row is in the chunk, once', lambda: z3.And(z3.ForAll([k, k2], z3.Implies(z3.And(rng(k), rng(k2), k != k2), p(k) != p(k2))),
                                                            z3.ForAll([r], z3.Implies(rng(r), z3.And(rng(q(r)), p(q(r)) == r)))))
    for (g, d), x, f, m in zip(DATASETS, D, before, ncol):
        g_ = x.snap()
        ensures('dataset %s: unchanged' % d, lambda: z3.ForAll([k, col], z3.Implies(z3.And(k >= 0, k < Zi(n), col >= 0, col < Zi(m)), g_(k, col) == f(k, col))))


def bisect_right(rows, x, lo=0, hi=None, before=lambda y, x: y <= x):
    """contract of bisect: on sorted rows, the number of those that are not greater than x"""
    c = ctx()
    if not isinstance(rows, Arr) or lo != 0 or hi is not None:
        raise Unsupported('bisect')
    f0, n = rows.snap(), Zi(rows.shape[0])
    f = (lambda i: f0(i, z3.IntVal(0))) if rows.ndim == 2 else f0
    i, j = bound(2)
    if rows.ndim == 2:
        c.oblige('bisect: rows of one column', Zi(rows.shape[1]) == 1, 'precondition')
    c.oblige('bisect: the values are sorted', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) <= f(j))), 'precondition')
    k = fresh_int('bisect', 0)
    K = Zi(k)
    c.assume(k <= wrap(n))
    c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Implies(i < K, before(f(i), Zi(x))), z3.Implies(i >= K, z3.Not(before(f(i), Zi(x)))))), *symnp.term_patterns(f(i), i)))
    return k


def bisect_stub(E):
    return {'bisect': StubModule('bisect', bisect_right=bisect_right, bisect=bisect_right, bisect_left=lambda rows, x: bisect_right(rows, x, before=lambda y, x: y < x))}


def drive_merge(E):
    """what the merge asks of a buffer of keys"""
    b, D, start, end = reader(E, 'H52NPbuffer')
    requires(b.n_columns == 1)
    f = D.snap()
    z0 = z3.IntVal(0)
    i, j = bound(2)
    ctx().assume(fa([i, j], z3.Implies(z3.And(i >= Zi(start), i < j, j < Zi(end)), f(i, z0) <= f(j, z0)), (f(i, z0), f(j, z0))))
    requires(b.buf_ix < b.buf_len)
    state = dict(b.__dict__)
    last = b.current_tail()
    ensures('current_tail: the last key that has been read', Zi(last) == f(Zi(b.dataset_ix) - 1, z0))
    x = fresh_int('key')
    k = b.nb_lower_than(x)
    P, K = Zi(pos(b)), Zi(k)
    ensures('nb_lower_than: rows of the buffer', z3.And(K >= 0, K <= Zi(b.buf_len) - Zi(b.buf_ix)))
    r = z3.And(i >= P, i < Zi(b.dataset_ix))
    ensures('nb_lower_than: the next rows have keys up to x, and only those', lambda: z3.ForAll([i], z3.Implies(r, (i < P + K) == (f(i, z0) <= Zi(x)))))
    ensures('the buffer is unchanged', all(b.__dict__[v] is state[v] for v in state))
    # a row that is not in the buffers is not before the last key that has been read
    ensures('the rows left to read are not before the tail', lambda: z3.ForAll([i], z3.Implies(z3.And(i >= Zi(b.dataset_ix), i < Zi(end)), f(i, z0) >= Zi(last))))


TARGETS = [
    Target('H5Handler.extract_chunk', PS, drive_chunk, ['C16'], assumptions=[H5, 'three datasets (the key and two others)', 'contract of numpy.argsort: a permutation that sorts']),
    Target('H52NPbuffer.nb_lower_than', PR, drive_merge, ['C16'], stubs=bisect_stub, covers=['H52NPbuffer.nb_lower_than', 'H52NPbuffer.current_tail'], assumptions=['contract of bisect']),
]
