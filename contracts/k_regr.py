"""Contract of Task._compute_regressors: the regressors stored for each triplet (C07)."""
from contracts.common import *
from pyvc.vdict import StrLab
from contracts.k_task import task_stubs

P = 'ABXpy/task.py'
NM = z3.Function('regressor_name', I, I, I, Lab)
GRP, FUN, OUT = [z3.Function(x, Lab, I) for x in ('group', 'function', 'output')]


class RegDict(object):
    """a dictionary {name: values}: which names it has, and whether the value is the right one"""

    def __init__(self):
        self.has = lambda v: z3.BoolVal(False)
        self.good = lambda v: z3.BoolVal(True)
        self.last = None
        self.loc = ctx().register(self, 'dict')

    def vc_kind(self):
        return ('regdict',)

    def vc_join_kind(self, a, b):
        return a

    def vc_havoc(self, k):
        h, g = fresh_fun('has', Lab, B), fresh_fun('good', Lab, B)
        self.has, self.good, self.last = (lambda v: h(v)), (lambda v: g(v)), None

    def vc_snapshot(self):
        r = RegDict.__new__(RegDict)
        r.has, r.good, r.last, r.loc = self.has, self.good, self.last, None
        return r

    def __setitem__(self, k, v):
        if self.loc is None:
            raise Unsupported('snapshot of a dictionary modified')
        ctx().wrote(self.loc)
        e = Z(k)
        if e.sort() != Lab:
            raise Unsupported('key of the regressors')
        h, g, ok = self.has, self.good, spec(right, ctx().ghost['regr'], e, v)
        self.has = lambda q: z3.Or(q == e, h(q))
        self.good = lambda q: z3.If(q == e, ok, g(q))
        self.last = (e, v)

    def __getitem__(self, k):
        e = Z(k)
        if self.last is None or not z3.eq(z3.simplify(self.last[0]), z3.simplify(e)):
            raise Unsupported('regressor read')
        return self.last[1]

    def __hash__(self):
        return id(self)


def right(g, name, v):
    """v: for each triplet, the value of the regressor for its own item (or block)"""
    k, p, o = GRP(name), FUN(name), OUT(name)
    t, = bound(1)
    n = Zi(g['n'])
    if not isinstance(v, Arr):
        raise Unsupported('regressors which are not an array')
    f = v.snap()
    rng = z3.And(t >= 0, t < n)
    if v.ndim == 2:
        return z3.And(k == 0, Zi(v.shape[0]) == n, Zi(v.shape[1]) == 1,
                      z3.ForAll([t], z3.Implies(rng, f(t, z3.IntVal(0)) == g['scalar'](p, o))))
    if v.ndim != 1:
        raise Unsupported('shape of the regressors')
    return z3.And(Zi(v.shape[0]) == n, z3.Or(*[z3.And(k == x + 1, z3.ForAll([t], z3.Implies(
        rng, f(t) == g['val'][x](p, o, g['item'][x](g['sel'](t)))))) for x in range(3)]))


def valid(g, v):
    k, p, o = GRP(v), FUN(v), OUT(v)
    return z3.And(v == NM(k, p, o), o >= 0, p >= 0, z3.Or(*[z3.And(k == x, p < g['nf'][x], o < g['no'][x](p)) for x in range(4)]))


def drive(E):
    c = ctx()
    n1, n2 = fresh_int('functions_by', 0), fresh_int('functions_on_across_by', 0)
    nf = [n1.e + n2.e] + [fresh_int('functions_' + x, 0).e for x in 'ABX']
    no = [fresh_fun('outputs_' + x, I, I) for x in ('scalar', 'A', 'B', 'X')]
    val = [fresh_fun('reg_' + x, I, I, I, I) for x in 'ABX']
    scalar = fresh_fun('reg_scalar', I, I, I)
    x, p, o = bound(3)
    c.assume(fa([x, p, o], z3.Implies(z3.And(p >= 0, o >= 0), z3.And(GRP(NM(x, p, o)) == x, FUN(NM(x, p, o)) == p, OUT(NM(x, p, o)) == o)), NM(x, p, o)))
    for f in no:
        c.assume(fa([p], f(p) >= 1, f(p)))
    M, F, N = fresh_int('all_triplets', 0), fresh_int('filtered', 0), fresh_int('triplets', 0)
    rows = [fresh_int('rows_' + x, 0) for x in 'ABX']
    item = [fresh_arr('i' + x, (M,), INT64) for x in 'ABX']
    filt = c.fork(fresh_bool('ABX_filter'))
    L = F if filt else M
    ind, perm = fresh_arr('ABX_filter_ind', (F,), INT64), fresh_arr('thr_sort_permut', (N,), INT64)
    t, = bound(1)
    within = lambda a, n, m: c.assume(fa([t], z3.Implies(z3.And(t >= 0, t < Zi(n)), z3.And(a.at(t) >= 0, a.at(t) < Zi(m))), a.at(t)))
    within(ind, F, M)
    within(perm, N, L)
    for a, m in zip(item, rows):
        within(a, M, m)
    sel = (lambda t: ind.at(perm.at(t))) if filt else (lambda t: perm.at(t))
    g = c.ghost['regr'] = dict(n=N, nf=nf, no=no, val=val, scalar=scalar, item=[a.snap() for a in item], sel=sel)
    c.ghost['groups'] = {z3.simplify(e).sexpr(): k for k, e in enumerate(nf)}

    names = lambda k, n, d=0: VList.sym(wrap(n), lambda p: VList.sym(wrap(no[k](Zi(p) + d)), lambda o: StrLab(NM(k, Zi(p) + d, Zi(o)))))
    scal = lambda n, d: VList.sym(wrap(n), lambda p: VList.sym(wrap(no[0](Zi(p) + d)), lambda o: SNum(scalar(Zi(p) + d, Zi(o)), INT64)))

    class Obj(object):
        pass
    r, fl = Obj(), Obj()
    r.by_names, r.on_across_by_names = names(0, n1.e), names(0, n2.e, n1.e)
    r.by_regressors, r.on_across_by_regressors = scal(n1.e, z3.IntVal(0)), scal(n2.e, n1.e)
    for k, y in enumerate('ABX'):
        setattr(r, y + '_names', names(k + 1, nf[k + 1]))
        setattr(r, y + '_regressors', VList.sym(wrap(nf[k + 1]), lambda p, k=k: VList.sym(wrap(no[k + 1](Zi(p))), lambda o: Arr(
            (rows[k],), lambda i: val[k](Zi(p), Zi(o), i), INT64))))
    fl.ABX = VList(['a filter']) if filt else VList()
    task = E.fn('Task').__new__(E.fn('Task'))
    task.__dict__.update(regressors=r, filters=fl)
    tr = fresh_arr('triplets', (N, 3), INT64)
    d = task._compute_regressors(tr, *item, ind if filt else None, perm)
    v = z3.Const('v', Lab)
    ensures('there is one column for each output of each regressor, and no other', lambda: sbool(z3.ForAll([v], d.has(v) == valid(g, v))))
    ensures('each row holds the values of the items of its own triplet', lambda: sbool(z3.ForAll([v], z3.Implies(d.has(v), d.good(v)))))


def group_of(n, _g):
    k = _g['groups'].get(z3.simplify(Zi(n)).sexpr())
    if k is None:
        raise Unsupported('loop over the regressors')
    return k


def outer(regressors, _pre, _it, _n, _g):
    g = _g['regr']
    k = group_of(_n, _g)
    v = z3.Const('v', Lab)
    h = _pre.regressors.has
    return sbool(z3.And(fa([v], regressors.has(v) == z3.Or(h(v), z3.And(valid(g, v), GRP(v) == k, FUN(v) < Zi(_it))), regressors.has(v), GRP(v)),
                        fa([v], z3.Implies(regressors.has(v), regressors.good(v)), regressors.has(v), regressors.good(v))))


def inner(regressors, names, _pre, _it, _g):
    g = _g['regr']
    first = Z(names.fn(z3.IntVal(0)))
    v = z3.Const('v', Lab)
    h = _pre.regressors.has
    return sbool(z3.And(fa([v], regressors.has(v) == z3.Or(h(v), z3.And(valid(g, v), GRP(v) == GRP(first), FUN(v) == FUN(first), OUT(v) < Zi(_it))), regressors.has(v), GRP(v)),
                        fa([v], z3.Implies(regressors.has(v), regressors.good(v)), regressors.has(v), regressors.good(v))))


LOOPS = {('Task._compute_regressors', k): Spec(inner if k % 2 else outer) for k in range(8)}
TARGETS = [Target('Task._compute_regressors', P, drive, ['C07', 'C01', 'C03'], loops=LOOPS, hooks={'dict': lambda d: RegDict() if not d else d},
                  stubs=task_stubs,
                  assumptions=['the regressors have distinct names', 'the functions of BY and ON/ACROSS/BY regressors give one value for each name'])]
