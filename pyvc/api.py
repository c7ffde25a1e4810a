"""What the contract files use."""
import z3
from .core import *
from .core import ctx, SNum, SBool, SLab, Z, Zi, Zr, Zb, num, wrap, sbool, bound, Lab
from .arr import (Arr, DT, fresh_arr, forall_idx, INT8, INT16, INT32, INT64, UINT8, UINT16, UINT32, UINT64, FLOAT64, BOOL, OBJ,
                  symbolic_uint, symbolic_int, in_range)
from .loops import Spec, NS
from .engine import Target, StubModule, MissingTarget
from .vlist import VList
from .shims import VSet
from .symnp import uf, partial_sum, fa
from . import symnp

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def requires(*fs):
    """precondition of the function under contract"""
    for f in fs:
        c = ctx()
        c.spec += 1
        try:
            f = f() if callable(f) else f
        finally:
            c.spec -= 1
        c.assume(f)


def ensures(name, f):
    c = ctx()
    c.spec += 1
    try:
        f = f() if callable(f) else f
    finally:
        c.spec -= 1
    c.oblige(name, f, 'postcondition')


def lemma(name, f):
    c = ctx()
    c.spec += 1
    try:
        f = f() if callable(f) else f
    finally:
        c.spec -= 1
    c.oblige(name, f, 'lemma')


def induction(name, P, lo, hi, pats=None):
    """P(n) for lo <= n <= hi (when lo <= hi), by induction; P(z3 term) -> formula"""
    c = ctx()
    lo, hi = Zi(lo), Zi(hi)
    c.oblige(name + ' (base)', z3.Implies(lo <= hi, P(lo)), 'lemma')
    n = z3.Int(c.fresh_name('ind'))
    o = len(c.pc)
    c.oblige(name + ' (step)', z3.ForAll([n], z3.Implies(z3.And(lo <= n, n < hi, P(n)), P(n + 1))), 'lemma')
    del c.pc[o:]             # replaced by the conclusion
    m, = bound(1)
    f = P(m)
    g = z3.And(lo <= m, m <= hi)
    if z3.is_quantifier(f) and f.is_forall():
        # one quantifier, with the patterns given
        vs = [z3.Int(c.fresh_name('%i')) for _ in range(f.num_vars())]
        body = z3.substitute_vars(f.body(), *reversed(vs))
        f = fa([m] + vs, z3.Implies(g, body), *(pats(m, *vs) if pats else []))
    else:
        f = fa([m], z3.Implies(g, f), *(pats(m) if pats else []))
    c.assume(f)
    return f


def derive(name, vs, guard, hyp, concl, *pats):
    """guard -> hyp and guard, hyp -> concl are proved; guard -> concl is used, with the patterns"""
    c = ctx()
    o = len(c.pc)
    c.oblige(name, z3.ForAll(vs, z3.Implies(guard, hyp)), 'lemma')
    c.oblige(name + ' (consequence)', z3.ForAll(vs, z3.Implies(z3.And(guard, hyp), concl)), 'lemma')
    del c.pc[o:]
    c.assume(fa(vs, z3.Implies(guard, concl), *pats))


def use(F, qs, terms, *pats):
    """instance of a lemma already proved (F is quantified): its variables are given
    the terms, which depend on the variables qs"""
    body = z3.substitute_vars(F.body(), *reversed(terms))
    f = fa(qs, body, *pats) if qs else body
    ctx().assume(f)
    return f


def forget(fs):
    """formulas which are not needed any more (they slow the solver down)"""
    c = ctx()
    ids = {f.get_id() for f in fs}
    c.pc[:] = [f for f in c.pc if f.get_id() not in ids]


def spec(f, *a):
    c = ctx()
    c.spec += 1
    try:
        return f(*a)
    finally:
        c.spec -= 1


def raises(exc, f, *a, **k):
    """-> None or the exception"""
    try:
        f(*a, **k)
    except exc as e:
        return e
    return None


TIMES = z3.Function('times', I, I, I)


def times(a, b):
    """the product, as a function symbol (see use_times)"""
    return wrap(TIMES(Zi(a), Zi(b)))


def use_times():
    """definition of times, and its monotony (proved)"""
    c = ctx()
    p, q, d = bound(3)
    c.assume(fa([p, d], TIMES(p, d) == p * d, TIMES(p, d)))
    c.oblige('multiples are ordered', z3.ForAll([p, q, d], z3.Implies(z3.And(d > 0, p < q), p * d + d <= q * d)), 'lemma')
    c.assume(fa([p, q, d], z3.Implies(z3.And(d > 0, p < q), TIMES(p, d) + d <= TIMES(q, d)), z3.MultiPattern(TIMES(p, d), TIMES(q, d))))
