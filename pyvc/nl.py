"""Products, quotients and remainders of unknown integers as function symbols.

The solvers are poor at multiplying and dividing unknown integers.  A contract may ask
(enable) that these operations of the code are function symbols, with the facts below;
each fact is proved of the real operations (prove, a target of its own)."""
import z3
from .core import ctx, bound, Unsupported

I = z3.IntSort()
P2 = z3.Function('prod2', I, I, I)
P3 = z3.Function('prod3', I, I, I, I)
DIV = z3.Function('quotient', I, I, I)
MOD = z3.Function('remainder', I, I, I)
CODE = z3.Function('code3', I, I, I, I, I, I)     # (i * b + j) * x + k


def on():
    try:
        return bool(ctx().ghost.get('nl'))
    except Exception:
        return False


def lit(e):
    return z3.is_int_value(z3.simplify(e))


def factors(e):
    if z3.is_app(e) and e.decl().name() in ('prod2', 'prod3'):
        return [e.arg(i) for i in range(e.num_args())]
    return [e]


def mul(a, b):
    if a.sort() != I or b.sort() != I or lit(a) or lit(b) or not on():
        return a * b
    f = factors(a) + factors(b)
    if len(f) == 2:
        return P2(*f)
    if len(f) == 3:
        return P3(*f)
    raise Unsupported('product of more than three numbers')


def div(a, b):
    return DIV(a, b) if on() and not lit(b) and b.sort() == I else a / b


def mod(a, b):
    return MOD(a, b) if on() and not lit(b) and b.sort() == I else a % b


def facts(P2, P3, DIV, MOD, CODE):
    """[(name, variables, formula, patterns)]"""
    u, v, w, r, n, i, j, k, b, x, a = vs = bound(11)
    A, O = z3.And, z3.Or
    imp = z3.Implies
    pos = lambda *t: A(*[y >= 1 for y in t])
    nn = lambda *t: A(*[y >= 0 for y in t])
    q1 = DIV(r, x)
    return [
        ('product of two', [u, v], A(P2(u, v) == P2(v, u), imp(nn(u, v), A(P2(u, v) >= 0, imp(O(u == 0, v == 0), P2(u, v) == 0), imp(pos(u, v), P2(u, v) >= 1)))), [P2(u, v)]),
        ('product of three', [u, v, w], A(P3(u, v, w) == P3(v, u, w), P3(u, v, w) == P3(u, w, v),
         imp(nn(u, v, w), A(P3(u, v, w) >= 0, imp(O(u == 0, v == 0, w == 0), P3(u, v, w) == 0), imp(pos(u, v, w), A(P3(u, v, w) >= u, P3(u, v, w) >= 1))))), [P3(u, v, w)]),
        ('quotient', [r, n], imp(A(r >= 0, n >= 1), A(DIV(r, n) >= 0, DIV(r, n) <= r)), [DIV(r, n)]),
        ('remainder', [r, n], imp(A(r >= 0, n >= 1), A(MOD(r, n) >= 0, MOD(r, n) < n, MOD(r, n) <= r)), [MOD(r, n)]),
        ('quotient by two factors', [u, v, w, r], imp(A(pos(u, v, w), r >= 0, r < P3(u, v, w)), DIV(r, P2(v, w)) < u), [z3.MultiPattern(P3(u, v, w), DIV(r, P2(v, w)))]),
        ('quotient by one factor', [u, v, w, r], imp(A(pos(u, v, w), r >= 0, r < P3(u, v, w)), DIV(r, w) < P2(u, v)), [z3.MultiPattern(P3(u, v, w), DIV(r, w))]),
        ('quotient of a product of two', [u, v, r], imp(A(pos(u, v), r >= 0, r < P2(u, v)), DIV(r, v) < u), [z3.MultiPattern(P2(u, v), DIV(r, v))]),
        ('quotient of a quotient', [r, x, b], imp(A(r >= 0, pos(b, x)), DIV(q1, b) == DIV(r, P2(b, x))), [DIV(q1, b), DIV(r, P2(b, x))]),
        ('code of a row', [r, x, b], imp(A(r >= 0, pos(b, x)), r == CODE(DIV(q1, b), MOD(q1, b), MOD(r, x), b, x)), [MOD(q1, b)]),
        ('row of a code', [i, j, k, b, x], imp(A(i >= 0, j >= 0, j < b, k >= 0, k < x), A(CODE(i, j, k, b, x) >= 0, MOD(CODE(i, j, k, b, x), x) == k,
         MOD(DIV(CODE(i, j, k, b, x), x), b) == j, DIV(DIV(CODE(i, j, k, b, x), x), b) == i)), [CODE(i, j, k, b, x)]),
        ('bound of a code', [i, j, k, a, b, x], imp(A(i >= 0, i < a, j >= 0, j < b, k >= 0, k < x), CODE(i, j, k, b, x) < P3(a, b, x)), [z3.MultiPattern(CODE(i, j, k, b, x), P3(a, b, x))]),
    ]


def enable():
    """in the driver of a contract"""
    from .symnp import fa
    c = ctx()
    c.ghost['nl'] = True
    for name, vs, f, pats in facts(P2, P3, DIV, MOD, CODE):
        c.assume(z3.ForAll(vs, f, patterns=pats))


def prove(E=None):
    """the facts, of the real operations"""
    from .api import lemma, derive
    c = ctx()
    q, d, m, r, x, y, z, b = bound(8)
    # elementary facts, for unknown constants
    F = {}

    def fact(name, vs, f):
        lemma(name, z3.ForAll(vs, f))
        F[name] = (vs, f)
    fact('euclid', [q, d, m], z3.Implies(z3.And(d >= 1, m >= 0, m < d), z3.And((q * d + m) / d == q, (q * d + m) % d == m)))
    fact('division', [r, d], z3.Implies(d >= 1, z3.And(r == (r / d) * d + r % d, r % d >= 0, r % d < d)))
    fact('monotone', [x, y, z], z3.Implies(z3.And(x <= y, z >= 0), x * z <= y * z))
    fact('nonnegative', [x, y], z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
    fact('positive', [x, y], z3.Implies(z3.And(x >= 1, y >= 1), z3.And(x * y >= x, x * y >= y)))
    fact('associative', [x, y, z], z3.And((x * y) * z == x * (y * z), (x * y) * z == (z * y) * x))
    del c.pc[:]

    def at(name, *t):
        vs, f = F[name]
        return z3.substitute(f, *zip(vs, [z3.IntVal(s) if isinstance(s, int) else s for s in t]))
    D = facts(lambda u, v: u * v, lambda u, v, w: u * v * w, lambda r, n: r / n, lambda r, n: r % n,
              lambda i, j, k, b, x: (i * b + j) * x + k)
    ext = {
        'product of two': lambda u, v: [at('nonnegative', u, v), at('positive', u, v)],
        'product of three': lambda u, v, w: [at('nonnegative', u, v), at('positive', u, v), at('nonnegative', u * v, w), at('positive', u * v, w)],
        'quotient': lambda r, n: [at('division', r, n), at('monotone', r / n, -1, n), at('positive', r / n, n), at('monotone', 1, n, r / n)],
        'remainder': lambda r, n: [at('division', r, n), at('monotone', r / n, -1, n), at('monotone', 1, n, r / n)],
        'quotient by two factors': lambda u, v, w, r: [at('positive', v, w), at('division', r, v * w), at('monotone', u, r / (v * w), v * w), at('associative', u, v, w)],
        'quotient by one factor': lambda u, v, w, r: [at('division', r, w), at('monotone', u * v, r / w, w)],
        'quotient of a product of two': lambda u, v, r: [at('division', r, v), at('monotone', u, r / v, v)],
        'quotient of a quotient': lambda r, x, b: [at('division', r, x), at('division', r / x, b), at('positive', b, x), at('associative', r / x / b, b, x),
                                                   at('monotone', (r / x) % b, b - 1, x), at('nonnegative', (r / x) % b, x),
                                                   at('euclid', r / x / b, b * x, ((r / x) % b) * x + r % x)],
        'code of a row': lambda r, x, b: [at('division', r, x), at('division', r / x, b)],
        'row of a code': lambda i, j, k, b, x: [at('euclid', i * b + j, x, k), at('euclid', i, b, j), at('nonnegative', i, b), at('nonnegative', i * b + j, x)],
        'bound of a code': lambda i, j, k, a, b, x: [at('monotone', i, a - 1, b), at('monotone', i * b + j, a * b - 1, x), at('associative', a, b, x)],
    }
    for name, vs, f, _ in D:
        ks = [z3.Int(c.fresh_name('c')) for _ in vs]
        g = z3.substitute(f, *zip(vs, ks))
        hyps = ext[name](*ks)
        lemma(name, z3.Implies(z3.And(*hyps), g))
        del c.pc[:]
