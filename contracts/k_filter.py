"""Contracts of the filters (C02): lazy evaluation, evaluation contexts."""
from contracts.common import *
from pyvc.vdict import SDict, StrLab, hook_dict

F = 'ABXpy/sideop/filter_manager.py'


def no_dbfun(E):
    return {'ABXpy.dbfun.' + m: StubModule(m) for m in ('dbfun_compute', 'dbfun_lookuptable')}


# ------------------------------------------------------------ singleton_filter

def singleton_drive(E):
    c = ctx()
    n = fresh_int('filters', 0)
    P = fresh_arr('P', (n,), BOOL)
    c.ghost['P'] = P
    k, = bound(1)
    r = E.fn('singleton_filter')(VList.sym(n, lambda k: wrap(P.at(Zi(k)))))
    ensures('kept if and only if every filter is true', lambda: sbool(
        Zb(r) == z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Zi(n)), P.at(k)), patterns=[P.at(k)])))


k0, = z3.Ints('k0')
singleton_loop = Spec(
    lambda keep: keep,
    lambda _it, _g: sbool(z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < Zi(_it)), _g['P'].at(k0)), patterns=[_g['P'].at(k0)])))


# ------------------------------------------------------------ vectorial_filter

ID = z3.Const('%identity', Lab)


class Gen(object):
    """results of the filters, evaluated when they are asked for on the context of that moment"""

    def __init__(self, g, d):
        self.g, self.d = g, d

    def __vc_iter__(self):
        return self.g['n'], self.pull

    def pull(self, k):
        g, d = self.g, self.d
        s = d.vc_snapshot()
        ids = s.get_(ID)
        v = z3.Const('v', Lab)
        e, = bound(1)
        ln = lambda v: Zi(s.get_(v).__vclen__())
        ctx().oblige('every variable of the context describes the items still considered, when a filter is evaluated', z3.And(
            z3.ForAll([v], z3.Implies(s.has(v), ln(v) == ln(ID))),
            z3.ForAll([v, e], z3.Implies(z3.And(s.has(v), e >= 0, e < ln(ID)), Z(s.get_(v).fn(e)) == g['V'](v, g['idx'](Z(ids.fn(e))))))), 'precondition')
        kk = Zi(k)
        return Arr((ids.__vclen__(),), lambda e: g['P'](kk, g['idx'](Z(ids.fn(e)))), BOOL)


def vectorial_drive(E):
    c = ctx()
    n, m = fresh_int('filters', 0), fresh_int('items', 0)
    P, V = z3.Function('P', I, I, B), z3.Function('V', Lab, I, Lab)
    idx, first, has = z3.Function('idx', Lab, I), z3.Function('first_false', I, I), z3.Function('is_variable', Lab, B)
    i, k, p = bound(3)
    c.assume(fa([i], idx(V(ID, i)) == i, V(ID, i)))
    c.assume(has(ID))
    c.assume(fa([i], z3.And(0 <= first(i), first(i) <= Zi(n), z3.Implies(first(i) < Zi(n), z3.Not(P(first(i), i)))), first(i)))
    c.assume(fa([i, k], z3.Implies(z3.And(0 <= k, k < first(i)), P(k, i)), z3.MultiPattern(first(i), P(k, i))))
    g = c.ghost['filter'] = dict(n=n, m=m, P=P, V=V, idx=idx, first=first, has=has)

    def generator(d):
        ctx().oblige('the context is empty at first', isinstance(d, SDict) and d.get_ is None, 'precondition')
        d._w()
        d.sort, d.has, d.ek = Lab, (lambda q: has(q)), ('vl', 'L')
        d.get_ = lambda q: VList.sym(m, lambda e: wrap(V(q, Zi(e))))
        return Gen(g, d)
    r = E.fn('vectorial_filter')(generator, symnp.np_arange(m))
    L = Zi(r.shape[0])
    ensures('positions of items, in increasing order', lambda: And(r.ndim == 1, increasing(r, g)))
    ensures('the items kept satisfy every filter', lambda: sbool(z3.ForAll([p, k], z3.Implies(
        z3.And(p >= 0, p < L, k >= 0, k < Zi(n)), P(k, r.at(p))))))
    ensures('the items which satisfy every filter are kept', lambda: sbool(z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < Zi(m), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Zi(n)), P(k, i)))),
        z3.Exists([p], z3.And(p >= 0, p < L, r.at(p) == i))))))


def increasing(kept, g):
    p, q = bound(2)
    L = Zi(kept.shape[0])
    return sbool(z3.And(
        fa([p], z3.Implies(z3.And(p >= 0, p < L), z3.And(kept.at(p) >= 0, kept.at(p) < Zi(g['m']))), kept.at(p)),
        fa([p, q], z3.Implies(z3.And(p >= 0, p < q, q < L), kept.at(p) < kept.at(q)), (kept.at(p), kept.at(q)))))


def alive(kept, g, it):
    """kept: the items for which no filter was false yet"""
    p, i = bound(2)
    L = Zi(kept.shape[0])
    return sbool(z3.And(
        fa([p], z3.Implies(z3.And(p >= 0, p < L), g['first'](kept.at(p)) >= Zi(it)), kept.at(p)),
        fa([i], z3.Implies(z3.And(i >= 0, i < Zi(g['m']), g['first'](i) >= Zi(it)), z3.Exists([p], z3.And(p >= 0, p < L, kept.at(p) == i))), g['first'](i))))


def in_step(context, kept, g):
    v = z3.Const('v', Lab)
    e, = bound(1)
    L = Zi(kept.shape[0])
    s = context.vc_snapshot()
    return sbool(z3.And(
        fa([v], s.has(v) == g['has'](v), g['has'](v)),
        z3.ForAll([v], z3.Implies(g['has'](v), Zi(s.get_(v).__vclen__()) == L), patterns=[g['has'](v)]),
        fa([e], z3.Implies(z3.And(e >= 0, e < L), Z(s.get_(ID).fn(e)) == g['V'](ID, kept.at(e))), kept.at(e), Z(s.get_(ID).fn(e))),
        fa([v, e], z3.Implies(z3.And(g['has'](v), e >= 0, e < L), Z(s.get_(v).fn(e)) == g['V'](v, kept.at(e))), g['V'](v, kept.at(e)), Z(s.get_(v).fn(e)))))


def partly(context, still_up, _it, _g):
    """variables before _it are filtered, the others not yet"""
    g = _g['filter']
    old, rank = _g['dict_iter']
    v = z3.Const('v', Lab)
    e, = bound(1)
    s = context.vc_snapshot()
    done = lambda v: rank(v) < Zi(_it)
    return sbool(z3.And(
        fa([v], s.has(v) == g['has'](v), g['has'](v)),
        z3.ForAll([v], z3.Implies(g['has'](v), Zi(s.get_(v).__vclen__()) == z3.If(done(v), Zi(still_up.shape[0]), Zi(old.get_(v).__vclen__()))), patterns=[g['has'](v)]),
        z3.ForAll([v, e], z3.Implies(z3.And(g['has'](v), e >= 0, e < Zi(s.get_(v).__vclen__())), Z(s.get_(v).fn(e)) == z3.If(
            done(v), Z(old.get_(v).fn(still_up.at(e))), Z(old.get_(v).fn(e)))))))


vectorial_outer = Spec(
    lambda kept, _g: kept.ndim == 1,
    lambda kept, _g: increasing(kept, _g['filter']),
    lambda kept, _g, _it: alive(kept, _g['filter'], _it),
    lambda context, kept, _g: in_step(context, kept, _g['filter']))
vectorial_inner = Spec(partly)


# ---------------------------------------------------- evaluation contexts

S = 'ABXpy/sideop/side_operations_manager.py'
NAME, RAD, EXT = z3.Function('name', Lab, Lab, Lab), z3.Function('radical', Lab, Lab), z3.Function('extension', Lab, Lab)
SETID, POS = z3.Function('in_set', Lab, I), z3.Function('position', Lab, I)


class Radical(StrLab):
    def __add__(self, o):
        return StrLab(NAME(self.e, Z(o)))


class Stage(object):
    """the variables of a stage (by_context['A']...): pairs (column, suffix), in some order"""
    count = 0

    def __init__(self, g, label, value, items):
        self.g, self.value, self.items = g, value, items       # value(radical term, position of the item)
        self.id = len(g['sets'])
        g['sets'].append(self)
        self.n = fresh_int(label, 0)
        self.rad, self.ext = fresh_fun('rad_' + label, I, Lab), fresh_fun('ext_' + label, I, Lab)
        i, = bound(1)
        v = z3.Const('v', Lab)
        nm = NAME(self.rad(i), self.ext(i))
        c = ctx()
        c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < self.n.e), z3.And(
            RAD(nm) == self.rad(i), EXT(nm) == self.ext(i), SETID(nm) == self.id, POS(nm) == i)), nm))
        c.assume(fa([v], z3.Implies(SETID(v) == self.id, z3.And(POS(v) >= 0, POS(v) < self.n.e, v == NAME(self.rad(POS(v)), self.ext(POS(v))))), SETID(v)))

    def __vc_iter__(self):
        if self.g['current'] is not None:
            self.g['done'].append(self.g['current'])
        self.g['current'] = self
        return self.n, lambda i: (Radical(self.rad(Zi(i))), StrLab(self.ext(Zi(i))))


def content(context, g, it, cur, length):
    """what the context holds: the variables of the sets which are done, and the first ones of the current set"""
    v = z3.Const('v', Lab)
    e, = bound(1)
    s = context.vc_snapshot()
    sets = g['done'] + ([cur] if cur is not None else [])
    inn = lambda x, v: z3.And(SETID(v) == x.id, POS(v) < Zi(it)) if x is cur else SETID(v) == x.id
    out = []
    if s.get_ is None:
        return sbool(z3.And(*[fa([v], z3.Not(inn(x, v)), SETID(v)) for x in sets]))
    for x in sets:
        n = length(x, v)
        val = s.get_(v)
        out.append(fa([v], z3.Implies(inn(x, v), z3.And(s.has(v), Zi(val.__vclen__()) == n)), SETID(v)))
        t = Z(val.fn(e))
        out.append(fa([v, e], z3.Implies(z3.And(inn(x, v), e >= 0, e < n), t == x.value(RAD(v), e)), t, x.value(RAD(v), e)))
    out.append(fa([v], z3.Implies(s.has(v), z3.Or(*[inn(x, v) for x in sets])), s.has(v)))
    return sbool(z3.And(*out))


def filling(context, _it, _g):
    g = _g['context']
    one = z3.IntVal(1)
    n = Zi(g['n'])
    return content(context, g, _it, g['current'], lambda x, v: n if x.items or g['repeated'] else one)


def repeating(context, _it, _g):
    """for var in context: context[var] = context[var] * n"""
    g = _g['context']
    if g['current'] is not None:
        g['done'].append(g['current'])
        g['current'] = None
    g['repeated'] = True
    n = Zi(g['n'])
    rank = _g['dict_iter'][1]
    return content(context, g, 0, None, lambda x, v: z3.If(rank(v) < Zi(_it), n, z3.IntVal(1)))



class Table(object):
    """db: db[column] is indexed by the positions of the rows (the index of the item table is 0..N-1: C05)"""

    def __init__(self, f, n):
        self.f, self.n = f, n

    def __vclen__(self):
        return self.n

    def __getitem__(self, col):
        if not isinstance(col, SLab):
            raise Unsupported('column of the items')
        f = self.f
        return Arr((self.n,), lambda i: f(col.e, i), OBJ)


class Row(object):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, col):
        if not isinstance(col, SLab):
            raise Unsupported('attribute of a block')
        return wrap(self.f(col.e))


def evaluate(stage):
    def drive(E):
        c = ctx()
        g = c.ghost['context'] = dict(sets=[], done=[], current=None, repeated=False)
        N, n = fresh_int('rows', 0), fresh_int('n', 0)
        by, db = z3.Function('by_value', Lab, Lab), z3.Function('db', Lab, I, Lab)
        abx = stage == 'ABX'
        ind = fresh_arr('indices', (n, 3) if abx else (n,), INT64)
        i, j = bound(2)
        if abx:
            c.assume(fa([i, j], z3.Implies(z3.And(i >= 0, i < Zi(n), j >= 0, j < 3), z3.And(ind.at(i, j) >= 0, ind.at(i, j) < Zi(N))), ind.at(i, j)))
        else:
            c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < Zi(n)), z3.And(ind.at(i) >= 0, ind.at(i) < Zi(N))), ind.at(i)))
        g['n'] = n
        one = lambda r, e: by(r)
        cols = lambda k: (lambda r, e: db(r, ind.at(e, z3.IntVal(k)) if abx else ind.at(e)))
        cls = E.fn('SideOperationsManager')
        so = cls.__new__(cls)
        if stage == 'generic':
            g['n'] = N
            so.by_context = {stage: Stage(g, 'by', one, False)}
            so.generic_context = {stage: Stage(g, 'generic', lambda r, e: db(r, e), True)}
        else:
            so.by_context = {stage: Stage(g, 'by', one, False)}
            if stage != 'by':
                so.on_context = {stage: Stage(g, 'on', one, False)}
                so.across_context = {stage: Stage(g, 'across', one, False)}
            if abx:
                for k, x in enumerate('ABX'):
                    setattr(so, x + '_context', {stage: Stage(g, x, cols(k), True)})
            elif stage in ('A', 'B', 'X'):
                setattr(so, stage + '_context', {stage: Stage(g, stage, cols(0), True)})
        funs = VList(['a filter'])
        setattr(so, stage, funs)
        calls = []

        for f in ('result_generator', 'singleton_result_generator'):
            if f not in E.mod(S).__dict__:
                raise MissingTarget(f)
            E.mod(S).__dict__[f] = lambda db_funs, context, f=f: calls.append((db_funs, context)) or f
        T, R_ = Table(db, N), Row(by)
        if stage == 'by':
            r = so.evaluate_by(R_)
        elif stage == 'on_across_by':
            r = so.evaluate_on_across_by(R_)
        else:
            mine = None
            given = c.fork(fresh_bool('context_given'))
            if given:
                mine = SDict()
            args = {'generic': (R_, T), 'ABX': (R_, T, ind)}.get(stage, (R_, T, ind))
            if given:
                args += (mine,)
            r = getattr(so, 'evaluate_' + stage)(*args)
            if given:
                ensures('the context given is the one evaluated (it is narrowed later)', len(calls) == 1 and calls[0][1] is mine)
        ensures('the functions of the stage are evaluated, on the context', len(calls) == 1 and calls[0][0] is funs and
                r == ('singleton_result_generator' if stage in ('by', 'on_across_by') else 'result_generator'))
        ctxt = calls[0][1]
        ensures('every set of variables is used', len(g['done']) + (g['current'] is not None) == len(g['sets']))
        cur = g['current']
        ln = Zi(g['n']) if stage not in ('by', 'on_across_by') else z3.IntVal(1)
        g['done'], g['current'] = list(g['sets']), None
        ensures('each variable of the context has the values of its own items', lambda: content(ctxt, g, 0, None, lambda x, v: ln))
    return drive


fill = Spec(filling)
LOOPS = {('SideOperationsManager.set_by_context', 0): fill, ('SideOperationsManager.set_generic_context', 0): fill, ('SideOperationsManager.set_on_across_context', 0): fill, ('SideOperationsManager.set_on_across_context', 1): fill,
         ('SideOperationsManager.set_A_B_X_context', 0): fill, ('SideOperationsManager.evaluate_A_B_X', 0): Spec(repeating), ('SideOperationsManager.evaluate_ABX', 0): Spec(repeating), ('SideOperationsManager.evaluate_generic', 0): Spec(repeating)}

TARGETS = [
    Target('singleton_filter', F, singleton_drive, ['C02'], stubs=no_dbfun, loops={('singleton_filter', 0): singleton_loop}),
    Target('vectorial_filter', F, vectorial_drive, ['C02'], stubs=no_dbfun, hooks={'dict': hook_dict},
           loops={('vectorial_filter', 0): vectorial_outer, ('vectorial_filter', 1): vectorial_inner},
           assumptions=['the result of a filter on a context depends on the values of the context only, item by item (DBfun_Column, DBfun_Compute: bounded)',
                        'a filter has one variable at least']),
] + [
    Target('evaluation context: ' + st, S, evaluate(st), ['C02', 'C07'], loops=LOOPS, hooks={'dict': hook_dict},
           covers=['evaluate_%s' % (st if st in ('by', 'on_across_by', 'generic', 'ABX') else 'A_B_X'), 'set_by_context', 'set_generic_context', 'set_on_across_context',
                   'set_A_B_X_context', 'set_ABX_context'],
           assumptions=['the names of the variables decode in one way only, the sets of variables of a stage are disjoint (classification of the filters: bounded)',
                        'the rows of the item table are labelled by their positions (C05)'])
    for st in ('by', 'on_across_by', 'generic', 'A', 'B', 'X', 'ABX')]


# ------------------------------------------- the filters of FilterManager

def wrappers(stage):
    """FilterManager.A_filter...: positions (in the argument) of what satisfies the filters of the stage"""
    def drive(E):
        c = ctx()
        cls = E.fn('FilterManager')
        fm = cls.__new__(cls)
        N, n = fresh_int('rows', 0), fresh_int('n', 0)
        calls, kept = [], []
        result = fresh_arr('kept', (fresh_int('nkept', 0, n),), INT64)
        k, = bound(1)
        M = N if stage == 'generic' else n
        c.assume(fa([k], z3.Implies(z3.And(k >= 0, k < Zi(result.shape[0])), z3.And(result.at(k) >= 0, result.at(k) < Zi(M))), result.at(k)))
        c.assume(Zi(result.shape[0]) <= Zi(M))

        def vectorial(generator, indices):
            k, = bound(1)
            ind = symnp.arr_of(indices)
            ctx().oblige('all the positions are considered', z3.And(ind.ndim == 1, Zi(ind.shape[0]) == Zi(M), fa([k], z3.Implies(
                z3.And(k >= 0, k < Zi(M)), ind.at(k) == k))), 'precondition')
            d = SDict()
            r = generator(d)
            kept.append((d, r))
            return result

        def single(generator):
            kept.append(generator)
            return fresh_bool('keep')
        d = E.mod(F).__dict__
        for f, g in (('vectorial_filter', vectorial), ('singleton_filter', single)):
            if f not in d:
                raise MissingTarget(f)
            d[f] = g
        for st in ('by', 'generic', 'on_across_by', 'A', 'B', 'X', 'ABX'):
            setattr(cls, 'evaluate_' + st, lambda self, *a, st=st, **kw: calls.append((st, a, kw)) or 'results of ' + st)
        R_ = Row(z3.Function('by_value', Lab, Lab))
        T = Table(z3.Function('db', Lab, I, Lab), N)
        if stage in ('by', 'on_across_by'):
            r = getattr(fm, stage + '_filter')(R_)
            ensures('the filters of the stage are evaluated on the values of the block', len(calls) == 1 and calls[0][0] == stage and calls[0][1] == (R_,)
                    and not calls[0][2] and kept == ['results of ' + stage])
            ensures('the conjunction is returned', isinstance(r, SBool))
            return
        if stage == 'generic':
            taken = []

            class Iloc(object):
                def __getitem__(self, i):
                    taken.append(i)
                    return 'rows'
            T.iloc = Iloc()
            r = fm.generic_filter(R_, T)
            want = (R_, T)
            ensures('the rows kept are returned', r == 'rows' and len(taken) == 1 and taken[0] is result)
        else:
            ind = fresh_arr('indices', (n, 3) if stage == 'ABX' else (n,), INT64)
            r = getattr(fm, stage + '_filter')(R_, T, ind)
            want = (R_, T, ind)
            ensures('the positions kept are returned', r is result)

        def args():
            st, a, kw = calls[0]
            a = a + tuple(kw.values()) if set(kw) <= {'context'} else ()
            return len(calls) == 1 and st == stage and len(a) == len(want) + 1 and all(x is y for x, y in zip(a, want + (kept[0][0],))) and kept[0][1] == 'results of ' + stage
        ensures('the filters of the stage are evaluated on the items, in the context which is narrowed', args)
    return drive


TARGETS += [Target('filter: ' + st, F, wrappers(st), ['C02'], stubs=no_dbfun, covers=['FilterManager.%s_filter' % st],
                   assumptions=['contracts of vectorial_filter, singleton_filter and evaluate_* (proved: C02)'])
            for st in ('by', 'on_across_by', 'generic', 'A', 'B', 'X', 'ABX')]


# ------------------------------------------------------------ DBfun_Column

def column_drive(E):
    c = ctx()
    cls = E.fn('DBfun_Column')
    f = cls.__new__(cls)
    indexed = c.fork(fresh_bool('indexed'))
    m, n = fresh_int('labels', 1), fresh_int('n', 0)
    L, X = fresh_arr('levels', (m,), OBJ), fresh_arr('values', (n,), OBJ)
    i, j = bound(2)
    wit = fresh_fun('level_of', I, I)
    c.assume(fa([i], z3.Implies(z3.And(i >= 0, i < Zi(n)), z3.And(wit(i) >= 0, wit(i) < Zi(m), L.at(wit(i)) == X.at(i))), X.at(i)))
    f.index = VList.sym(m, lambda i: wrap(L.at(Zi(i)))) if indexed else VList()
    f.input_names = VList([wrap(z3.Const('column', Lab))])
    f.n_outputs = 1
    values = VList.sym(n, lambda i: wrap(X.at(Zi(i))))

    class Context(object):
        def __getitem__(self, k):
            ctx().oblige('the variable of the column', k == f.input_names[0], 'precondition')
            return values
    r = f.evaluate(Context())
    if not indexed:
        ensures('the values themselves', r is values)
        return
    ensures('one output', len(r) == 1)
    a = r[0]
    ensures('each value as its rank in the list of levels', lambda: And(a.ndim == 1, a.shape[0] == n, sbool(z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < Zi(n)), z3.And(a.at(i) >= 0, a.at(i) < Zi(m), L.at(a.at(i)) == X.at(i)))))))


TARGETS += [Target('DBfun_Column.evaluate', 'ABXpy/dbfun/dbfun_column.py', column_drive, ['C02', 'C07'], stubs=no_dbfun, covers=['DBfun_Column.evaluate'],
                   assumptions=['the list of levels contains the values of the column (constructor: bounded)'])]
