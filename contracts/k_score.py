"""Contract of the scores (C12), and refusal of an existing file (C20)."""
from contracts.common import *

P = 'ABXpy/score.py'
TASK, DIST = 'dir/my.abx', 'other.distance'


class PairAttrs(Attrs):
    """attributes of the BY blocks in unique_pairs: base, start, end"""

    def __init__(self, base, start, end):
        self.f = (base, start, end)

    def __getitem__(self, by):
        if isinstance(by, SLab):
            e = by.e
        else:
            raise Unsupported('attribute that is not a BY level')
        fs = self.f
        return Arr((3,), lambda i: z3.If(i == 0, fs[0](e), z3.If(i == 1, fs[1](e), fs[2](e))), INT64)


def drive(E):
    c = ctx()
    fs = c.ghost['files']
    nb, nt, npairs = fresh_int('blocks', 0), fresh_int('triplets', 0), fresh_int('pairs', 0)
    bys = fresh_arr('bys', (nb,), OBJ)
    T = fresh_arr('T', (nt, 3), symbolic_uint('item_type'))
    BI = fresh_arr('by_index', (nb, 2), INT64)
    PT = symbolic_uint('pair_type')
    Pr = fresh_arr('P', (npairs, 1), PT)
    D = fresh_arr('D', (npairs, 1), FLOAT64)
    base, ps, pe = [z3.Function(x, SLab_sort, I) for x in ('base', 'pair_start', 'pair_end')]
    block = z3.Function('block', I, I)            # block of a triplet
    wa, wb = z3.Function('wa', I, I), z3.Function('wb', I, I)   # positions of its pairs
    n, i, k, l = bound(4)
    N, NT = Zi(nb), Zi(nt)
    by = lambda n: bys.at(n)
    b0, b1 = (lambda n: BI.at(n, 0)), (lambda n: BI.at(n, 1))
    inb = z3.And(n >= 0, n < N)
    # what the task module stores (C04, C17)
    c.assume(fa([n], z3.Implies(inb, z3.And(0 <= b0(n), b0(n) <= b1(n), b1(n) <= NT, b0(n) == z3.If(n > 0, b1(n - 1), z3.IntVal(0)),
                                          z3.Implies(n == N - 1, b1(n) == NT))), by(n)))
    c.assume(z3.Implies(N == 0, NT == 0))
    c.assume(fa([n], z3.Implies(inb, z3.And(base(by(n)) >= 1, base(by(n)) < 2 ** 31, 0 <= ps(by(n)), ps(by(n)) <= pe(by(n)), pe(by(n)) <= Zi(npairs))), by(n)))
    inp = lambda n, k: z3.And(ps(by(n)) <= k, k < pe(by(n)))
    t = lambda i, j: T.at(i, j)
    tr = z3.And(i >= 0, i < NT)
    bl = block(i)
    c.assume(fa([i], z3.Implies(tr, z3.And(0 <= bl, bl < N, b0(bl) <= i, i < b1(bl))), block(i), wa(i), t(i, 2)))
    c.assume(fa([i, n], z3.Implies(z3.And(tr, inb, b0(n) <= i, i < b1(n)), block(i) == n), z3.MultiPattern(block(i), by(n))))
    c.assume(fa([i], z3.Implies(tr, z3.And(*[z3.And(t(i, j) >= 0, t(i, j) < base(by(bl))) for j in range(3)])), wa(i), t(i, 2)))
    code = lambda i, j: t(i, j) + base(by(block(i))) * t(i, 2)
    c.assume(fa([i], z3.Implies(tr, z3.And(inp(bl, wa(i)), inp(bl, wb(i)), Pr.at(wa(i), 0) == code(i, 0), Pr.at(wb(i), 0) == code(i, 1))), wa(i), t(i, 2)))
    z = z3.IntVal(0)
    c.assume(fa([n, k, l], z3.Implies(z3.And(inb, inp(n, k), inp(n, l), k < l), Pr.at(k, z) < Pr.at(l, z)), z3.MultiPattern(by(n), Pr.at(k, z), Pr.at(l, z))))
    m, x = bound(2)
    lemma('codes of pairs fit in the type chosen from the base', z3.ForAll([m, x], z3.Implies(
        z3.And(m >= 1, x >= 0, x < m), z3.And(m * x >= 0, m * x <= m * m - m))))
    lemma('a square is not smaller', z3.ForAll([m], z3.Implies(m >= 1, m * m >= m)))
    st = H5Store(TASK, known={'bys': DSet(bys), 'triplets': 'group', 'triplets/data': DSet(T), 'triplets/by_index': DSet(BI),
                              'unique_pairs': 'group', 'unique_pairs/data': DSet(Pr)})
    st.attrs['unique_pairs'] = PairAttrs(base, ps, pe)
    sd = H5Store(DIST, known={'distances': 'group', 'distances/data': DSet(D)})
    default = c.fork(fresh_bool('default_name'))
    out = 'dir/my_other.score' if default else 'res.score'
    fs.stores.update({TASK: st, DIST: sd})
    there = c.fork(fresh_bool('exists'))
    have = [c.fork(fresh_bool('has_' + x)) for x in ('task', 'distance')]
    fs.exists_.update({TASK: have[0], DIST: have[1], out: there})
    if there:
        fs.protected.add(out)
        old = fs.stores[out] = H5Store(out, known={'scores': DSet(fresh_arr('old', (fresh_int('no', 0), 1), INT8))})

    def sgn(i):
        x, y = D.at(wa(i), 0), D.at(wb(i), 0)
        return z3.If(x < y, z3.IntVal(1), z3.If(x > y, z3.IntVal(-1), z3.IntVal(0)))

    def right(S, upto):
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Zi(upto)), S.at(i, 0) == sgn(i)), patterns=[wa(i)])
    c.ghost['score'] = dict(right=right, S=lambda: fs.stores[out].items['scores'].arr, start=lambda n: wrap(z3.If(Zi(n) > 0, b1(Zi(n) - 1), z3.IntVal(0))),
                            out=out, trig=lambda n: by(Zi(n)), base=base, block=block, wa=wa, wb=wb)
    try:
        if default:
            E.fn('score')(TASK, DIST)
        else:
            E.fn('score')(TASK, DIST, out)
    except AssertionError:
        ensures('refused only if a file is missing, or the score file exists', there or not all(have))
        if there:
            ensures('an existing score file is not touched', fs.stores[out] is old and len(fs.writes()) == 0 and len(old.log) == 0)
        return
    ensures('an existing file is refused', not there)
    ensures('missing files are refused', all(have))
    ensures('the score file is written at the place asked for', out in fs.stores and 'scores' in fs.stores[out].items)
    ensures('nothing else is written', all(x[1] == out for x in fs.writes()) and st.log.count(('create_dataset', 'scores')) == 0)
    S = fs.stores[out].items['scores'].arr
    ensures('one score per triplet, stored as an integer', And(S.ndim == 2 and S.dtype == INT8, S.shape[0] == nt, S.shape[1] == 1))
    ensures('the score is the sign of d(B,X) - d(A,X), at the position of the triplet', lambda: wrap_(right(S, nt)))


def wrap_(f):
    return sbool(f)


from pyvc.core import Lab as SLab_sort


def h52np_stub(E):
    """contract of the reader (C15)"""
    class Inp(object):
        def __init__(self, name):
            self.st = ctx().ghost['files'].stores[name]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def add_subdataset(self, group, dataset, buf_size=100, minimum_occupied_portion=.25, indexes=None):
            d = self.st.get(group + '/' + dataset)
            a, b = (0, d.shape[0]) if indexes is None else (indexes[0], indexes[1])
            ctx().oblige('reads an interval of the dataset', And(Z(a) >= 0, Z(a) <= Z(b), Z(b) <= Z(d.shape[0])), 'precondition')
            r = RowReader(d.arr, a, b)
            ctx().ghost['reader'] = r
            return r

        def add_dataset(self, group, dataset, buf_size=100, minimum_occupied_portion=.25):
            return self.add_subdataset(group, dataset)
    d = files_stub(E)
    d['ABXpy.h5tools.h52np'] = StubModule('h52np', H52NP=Inp)
    return d


outer = Spec(
    lambda _it, _g: sbool(z3.Or(Zi(_it) == 0, _g['score']['trig'](Zi(_it) - 1) == _g['score']['trig'](Zi(_it) - 1))),
    lambda _it, _g: sbool(_g['score']['right'](_g['score']['S'](), _g['score']['start'](_it))))
inner = Spec(
    lambda idx_start, _it, _g: idx_start == _g['reader'].off(_it),
    lambda idx_start, _g: sbool(_g['score']['right'](_g['score']['S'](), idx_start)))

TARGETS = [Target('score', P, drive, ['C12', 'C20'], stubs=h52np_stub, loops={('score', 0): outer, ('score', 1): inner},
                  replace={'ABXpy/misc/type_fitting.py': {'fit_integer_type': stub_fit_integer_type}},
                  assumptions=[H5, 'the task file is the one of the task module: blocks partition the triplets, pairs are sorted and contain those of the triplets (C04), indices are below the base',
                               'less than 2**31 items in a BY block', 'distances are finite (infinities: bounded)', 'contract of the buffered reader (proved: C15)'])]
