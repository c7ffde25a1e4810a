"""Core of the verifier: path contexts, symbolic scalars, obligations.

The functions of the repository are executed by CPython itself (after the
mechanical rewriting of loops and comprehensions done by xform.py) on symbolic
values.  Every branch on a symbolic condition is explored (the function is
re-executed from its start with the recorded decisions), every loop over a
symbolic number of iterations is cut by its invariants (loops.py), so the
obligations cover all inputs and all iterations.
"""
import sys, math
from fractions import Fraction
import z3

REPO_MARK = '/repo/'


class Unsupported(BaseException):
    """the code uses something the verifier does not model"""


class PathEnd(BaseException):
    """the current path is finished (back edge of a loop, infeasible...)"""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        try:
            ctx().ended = True       # clauses "finally" still run: nothing is proved there
        except Exception:
            pass


class Restart(BaseException):
    """the exploration has to be redone with more information (frames)"""


class Obligation(object):
    __slots__ = ('name', 'pc', 'goal', 'line', 'func', 'kind', 'status',
                 'backend', 'time', 'model', 'meta')

    def __init__(self, name, pc, goal, line, kind):
        self.name, self.pc, self.goal = name, pc, goal
        self.line, self.kind = line, kind
        self.status = None
        self.backend = None
        self.time = 0.
        self.model = None
        self.meta = None
        self.func = None


class Ctx(object):
    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.explorer = explorer
        self.obligations = []
        self.counter = {}
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set('rlimit', 200000)
        self.solver.set('timeout', 1000)
        self.solver.set('smt.auto_config', False)
        self.solver.set('smt.mbqi', False)
        self.quick_cache = {}
        self.loops = []          # active cut loops
        self.writes = []         # logs of heap writes (one set per active loop)
        self.notes = []
        self.depth = 0
        self.loop_counter = {}
        self.ghost = {}
        self.ended = False
        self.spec = 0            # evaluating a specification: no obligation, no branch
        self.heap = {}           # location -> heap object

    # -- names
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    # -- assumptions
    def assume(self, f):
        f = Zb(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.solver.add(f)

    def drop(self, base):
        """forget what has been assumed since"""
        del self.pc[base:]
        self.quick_cache = {}
        self.solver.reset()
        for f in self.pc:
            self.solver.add(f)

    def past_prefix(self):
        return self.pos >= len(self.prefix)

    def oblige(self, name, goal, kind='safety'):
        if self.spec or self.ended:
            return
        goal = Zb(goal)
        if z3.is_true(z3.simplify(goal)):
            if self.past_prefix():
                self.explorer.trivial += 1
            return
        if self.past_prefix():
            w = where()
            for g in split(goal):
                if z3.is_true(g):
                    self.explorer.trivial += 1
                    continue
                o = Obligation(name, list(self.pc), g, w, kind)
                o.func = self.explorer.title
                self.obligations.append(o)
        # what has been checked can be used afterwards
        self.assume(goal)

    def quick(self, f):
        """is f certainly true here? (cheap, incomplete)"""
        f = Zb(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = (f.get_id(), len(self.pc))
        if k in self.quick_cache:
            return self.quick_cache[k][1]
        self.solver.push()
        self.solver.add(z3.Not(f))
        r = self.solver.check() == z3.unsat
        self.solver.pop()
        self.quick_cache[k] = (f, r)
        return r

    def feasible(self, f):
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check() != z3.unsat
        self.solver.pop()
        return r

    def register(self, obj, base):
        loc = self.fresh_name('@' + base)
        self.heap[loc] = obj
        return loc

    def wrote(self, loc):
        if self.spec:
            raise Unsupported('a specification modifies the state')
        for w in self.writes:
            w.add(loc)

    def fork(self, f):
        f = z3.simplify(Zb(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.ended:
            raise PathEnd('ended')
        if self.spec:
            if self.quick(f):
                return True
            if self.quick(z3.Not(f)):
                return False
            raise Unsupported('a specification branches on %s' % f)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.feasible(f)
            e = self.feasible(z3.Not(f))
            if not t and not e:
                raise PathEnd('infeasible')
            if t and e:
                d = True
                self.alternatives.append(self.trace + [False])
            else:
                d = t
        self.pos += 1
        self.trace.append(d)
        if len(self.trace) > 400:
            raise Unsupported('too many branches on one path')
        self.assume(f if d else z3.Not(f))
        return d


def split(g):
    """conjuncts of a goal"""
    if z3.is_and(g):
        return [x for a in g.children() for x in split(a)]
    if z3.is_quantifier(g) and g.is_forall():
        n = g.num_vars()
        vs = [z3.Const('%s^%d' % (g.var_name(k), _sk()), g.var_sort(k)) for k in range(n)]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return split(body)
    if z3.is_implies(g):
        parts = split(g.arg(1))
        if len(parts) > 1 or not parts[0].eq(g.arg(1)):
            return [z3.Implies(g.arg(0), p) for p in parts]
    return [g]


_skn = [0]


def _sk():
    _skn[0] += 1
    return _skn[0]


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError('no path is being explored')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def where():
    """line of the code of the repository being executed"""
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if '<vc:' in fn:
            return '%s:%d' % (fn[fn.index('<vc:') + 4:-1], f.f_lineno)
        f = f.f_back
    return '?'


# ------------------------------------------------------------------ scalars

def is_sym(x):
    return isinstance(x, (SNum, SBool, SLab))


class SNum(object):
    """symbolic integer or real; dtype is set for numpy scalars"""
    __slots__ = ('e', 'dtype')
    __array_priority__ = 1000

    def __init__(self, e, dtype=None):
        self.e = e
        self.dtype = dtype

    @property
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    # attributes of numpy scalars
    shape = ()
    ndim = 0
    size = 1

    def __vcint__(self):
        return self.is_int

    def __repr__(self):
        return 'S(%s)' % self.e

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return ctx().fork(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('a symbolic integer is used where Python needs a concrete one')

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        return self.__index__()

    def __neg__(self):
        return num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return num(z3.If(self.e >= 0, self.e, -self.e))

    def astype(self, t):
        return t(self)

    def item(self):
        return self

    def any(self):
        return SBool(self.e != 0)
    all = any

    def __round__(self, nd=None):
        return vround(self)


NPFLOAT = [None]


def is_npfloat(x):
    """numpy floats: a division by zero gives an infinite value, no exception"""
    dt = getattr(x, 'dtype', None)
    return isinstance(x, SNum) and dt is not None and dt.kind == 'f'


def _small(x):
    dt = getattr(x, 'dtype', None)
    return dt if dt is not None and isinstance(x, SNum) and dt.is_int and not dt.exact() else None


def _scalar_type(name, a, b, r):
    """numpy scalars keep their machine type: obligations against wrap around"""
    if not isinstance(r, SNum):
        return r
    if not r.is_int:
        if is_npfloat(a) or is_npfloat(b):
            r.dtype = NPFLOAT[0]
        return r
    if name not in ('add', 'sub', 'mul'):
        return r
    da, db = _small(a), _small(b)
    if da is None and db is None:
        return r
    from . import arr
    if da is not None and db is not None:
        dt = arr.promote(da, db)
        if dt.is_int and not dt.exact():
            ctx().oblige('no wrap around in %s' % name, arr.in_range(dt, r.e))
            r.dtype = dt
            return r
        if dt.is_int:
            return r
        # float64
    d = da if da is not None else db
    if d.kind == 'u' and not (d.bits is not None and d.bits < 64):
        if not (d.bits is None and ctx().quick(Zi(d.maxv) < 2 ** 63)):
            # uint64 with a signed integer gives a float64
            ctx().oblige('integer converted to a float64 without loss', z3.And(r.e <= 2 ** 53, r.e >= -2 ** 53))
    return r


def _binop(name, f):
    def op(self, other):
        if getattr(other, '__vc_arr__', False) and other.ndim:
            return NotImplemented
        r = try_num(other)
        if r is None:
            return NotImplemented
        if name == 'truediv' and (is_npfloat(self) or is_npfloat(other)):
            return npdiv(self.e, r)
        return _scalar_type(name, self, other, f(self.e, r))

    def rop(self, other):
        r = try_num(other)
        if r is None:
            return NotImplemented
        if name == 'truediv' and (is_npfloat(self) or is_npfloat(other)):
            return npdiv(r, self.e)
        return _scalar_type(name, other, self, f(r, self.e))
    setattr(SNum, '__%s__' % name, op)
    setattr(SNum, '__r%s__' % name, rop)


def npdiv(a, b):
    """division of numpy floats: arbitrary when the divisor is null"""
    a, b = Zr(wrap(a)), Zr(wrap(b))
    s = z3.simplify(b)
    if z3.is_rational_value(s) and s.as_fraction() != 0:
        return SNum(a / b, NPFLOAT[0])
    w = z3.Real(ctx().fresh_name('div0'))
    return SNum(z3.If(b == 0, w, a / b), NPFLOAT[0])


def num(e, dtype=None):
    """SNum, or a Python number when constant"""
    e = z3.simplify(e, som=False) if e.num_args() else e
    if z3.is_int_value(e):
        return e.as_long()
    return SNum(e, dtype)


def coerce(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == z3.IntSort():
        return z3.ToReal(a), b
    return a, z3.ToReal(b)


def nlmul(a, b):
    from . import nl
    return nl.mul(a, b)


def floordiv(a, b):
    from . import nl
    a, b = coerce(a, b)
    c = ctx()
    if b.sort() == z3.RealSort():
        c.oblige('no division by zero', b != 0)
        q = z3.ToReal(z3.ToInt(a / b))
        return q
    if not (z3.is_int_value(b) and b.as_long() != 0):
        c.oblige('no division by zero', b != 0)
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    if c.quick(b > 0):
        return nl.div(a, b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def pymod(a, b):
    a, b = coerce(a, b)
    c = ctx()
    if b.sort() == z3.IntSort():
        if z3.is_int_value(b) and b.as_long() > 0:
            return a % b
        c.oblige('no division by zero', b != 0)
        if c.quick(b > 0):
            from . import nl
            return nl.mod(a, b)
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    return a - b * floordiv(a, b)


def truediv(a, b):
    c = ctx()
    if a.sort() == z3.IntSort():
        a = z3.ToReal(a)
    if b.sort() == z3.IntSort():
        b = z3.ToReal(b)
    if not (z3.is_rational_value(z3.simplify(b)) and z3.simplify(b).as_fraction() != 0):
        c.oblige('no division by zero', b != 0)
    return a / b


def _arith(f):
    def g(a, b):
        a, b = coerce(a, b)
        return num(f(a, b))
    return g


def power(a, b):
    b = z3.simplify(b)
    if z3.is_int_value(b) and 0 <= b.as_long() <= 4:
        r = z3.IntVal(1) if a.sort() == z3.IntSort() else z3.RealVal(1)
        for _ in range(b.as_long()):
            r = r * a
        return num(r)
    a = z3.simplify(a)
    if z3.is_int_value(a) and a.as_long() == 2:
        return num(POW2(b))
    raise Unsupported('power')


POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())

_binop('add', _arith(lambda a, b: a + b))
_binop('sub', _arith(lambda a, b: a - b))
_binop('mul', _arith(lambda a, b: nlmul(a, b)))
_binop('floordiv', lambda a, b: num(floordiv(a, b)))
_binop('mod', lambda a, b: num(pymod(a, b)))
_binop('truediv', lambda a, b: num(truediv(a, b)))
_binop('pow', power)


def _cmp(name, f):
    def op(self, other):
        if getattr(other, '__vc_arr__', False) and other.ndim:
            return NotImplemented
        r = try_num(other)
        if r is None:
            if isinstance(other, float) and (math.isinf(other) or math.isnan(other)):
                return cmp_inf(name, other)
            if name == 'eq':
                if hasattr(other, '__vc_arr__'):
                    return NotImplemented
                return False
            if name == 'ne':
                if hasattr(other, '__vc_arr__'):
                    return NotImplemented
                return True
            return NotImplemented
        a, b = coerce(self.e, r)
        return sbool(f(a, b))
    setattr(SNum, '__%s__' % name, op)


def cmp_inf(name, v):
    """comparison of a (finite) symbolic number with an infinite or NaN one"""
    if math.isnan(v):
        return name == 'ne'
    pos = v > 0
    return {'eq': False, 'ne': True, 'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos}[name]


_cmp('lt', lambda a, b: a < b)
_cmp('le', lambda a, b: a <= b)
_cmp('gt', lambda a, b: a > b)
_cmp('ge', lambda a, b: a >= b)
_cmp('eq', lambda a, b: a == b)
_cmp('ne', lambda a, b: a != b)


class SBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().fork(self.e)

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return 'SB(%s)' % self.e

    def __invert__(self):
        return sbool(z3.Not(self.e))

    def _lift(f):
        def op(self, o):
            if isinstance(o, (bool, SBool)):
                return sbool(f(self.e, Zb(o)))
            return NotImplemented
        return op
    __and__ = __rand__ = _lift(lambda a, b: z3.And(a, b))
    __or__ = __ror__ = _lift(lambda a, b: z3.Or(a, b))
    __eq__ = _lift(lambda a, b: a == b)
    __ne__ = _lift(lambda a, b: a != b)

    def _num(self):
        return z3.If(self.e, z3.IntVal(1), z3.IntVal(0))

    def __mul__(self, o):
        return num(self._num()) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return num(self._num()) + o
    __radd__ = __add__

    def __sub__(self, o):
        return num(self._num()) - o

    def all(self):
        return self
    any = all


def sbool(e):
    e = z3.simplify(e) if not z3.is_quantifier(e) else e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


Lab = z3.DeclareSort('Label')
_labconst = {}


class SLab(object):
    """an opaque value (string, key of a group...): only equality is known"""
    __slots__ = ('e', 'tag')

    def __init__(self, e, tag=None):
        self.e = e
        self.tag = tag

    def __repr__(self):
        return 'L(%s)' % self.e

    def __hash__(self):
        return hash(self.e)

    def __eq__(self, o):
        r = lab(o)
        if r is None:
            return False
        return sbool(self.e == r)

    def __ne__(self, o):
        r = lab(o)
        if r is None:
            return True
        return sbool(self.e != r)

    def __bool__(self):
        raise Unsupported('truth of an opaque value')

    def __add__(self, o):
        if isinstance(o, str):
            return SLab(z3.Function('app:' + o, Lab, Lab)(self.e))
        if isinstance(o, SLab):
            return SLab(z3.Function('cat', Lab, Lab, Lab)(self.e, o.e))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SLab(z3.Function('pre:' + o, Lab, Lab)(self.e))
        return NotImplemented

    def __vc_str__(self):
        return self

    def __format__(self, spec):
        return '<%s>' % self.e

    def encode(self, *a):
        return self

    decode = encode

    def strip(self, *a):
        return SLab(z3.Function('strip', Lab, Lab)(self.e))


def lab(x):
    if isinstance(x, SLab):
        return x.e
    if isinstance(x, (str, bytes)):
        if x not in _labconst:
            _labconst[x] = z3.Const('str:%r' % (x,), Lab)
        return _labconst[x]
    return None


def lab_axioms(f):
    """distinct literals are distinct labels"""
    if len(_labconst) > 1:
        return [z3.Distinct(*_labconst.values())]
    return []


def real_of(x):
    fr = Fraction(x)
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def try_num(x):
    """z3 term of a number, or None"""
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return real_of(x)
    if isinstance(x, Fraction):
        return real_of(x)
    if isinstance(x, SBool):
        return x._num()
    if isinstance(x, z3.ArithRef):
        return x
    if hasattr(x, '__vc_scalar__'):
        return try_num(x.__vc_scalar__())
    return None


def Z(x):
    """z3 term of any scalar"""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    r = try_num(x)
    if r is not None:
        return r
    r = lab(x)
    if r is not None:
        return r
    raise Unsupported('no term for %r' % (type(x),))


def Zi(x):
    r = Z(x)
    if r.sort() == z3.BoolSort():
        return z3.If(r, z3.IntVal(1), z3.IntVal(0))
    if r.sort() != z3.IntSort():
        s = z3.simplify(r)
        if z3.is_rational_value(s) and s.denominator_as_long() == 1:
            return z3.IntVal(s.numerator_as_long())
        if s.num_args() == 1 and s.decl().kind() == z3.Z3_OP_TO_REAL:
            return s.arg(0)
        raise Unsupported('an integer is expected, got a real')
    return r


def Zr(x):
    r = Z(x)
    if r.sort() == z3.IntSort():
        return z3.ToReal(r)
    if r.sort() == z3.BoolSort():
        return z3.If(r, z3.RealVal(1), z3.RealVal(0))
    return r


def Zb(x):
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, z3.QuantifierRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SNum):
        return x.e != 0
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    raise Unsupported('no boolean term for %r' % (type(x),))


def wrap(e, dtype=None):
    """proxy (or constant) of a z3 term"""
    if e.sort() == z3.BoolSort():
        return sbool(e)
    if e.sort() == Lab:
        return SLab(e)
    r = num(e)
    if isinstance(r, SNum):
        r.dtype = dtype
    return r


def sort_of(kind):
    return {'i': z3.IntSort(), 'u': z3.IntSort(), 'f': z3.RealSort(),
            'b': z3.BoolSort(), 'O': Lab, 'L': Lab}[kind]


# ---------------------------------------------------------- fresh values

def fresh_int(name='n', lo=None, hi=None):
    v = z3.Int(ctx().fresh_name(name))
    if lo is not None:
        ctx().assume(v >= Zi(lo))
    if hi is not None:
        ctx().assume(v <= Zi(hi))
    return SNum(v)


def fresh_real(name='x'):
    return SNum(z3.Real(ctx().fresh_name(name)))


def fresh_bool(name='b'):
    return SBool(z3.Bool(ctx().fresh_name(name)))


def fresh_lab(name='k'):
    return SLab(z3.Const(ctx().fresh_name(name), Lab))


def fresh_fun(name, *sorts):
    return z3.Function(ctx().fresh_name(name), *sorts)


_qv = [0]


def bound(n, base='q'):
    """n fresh bound variables"""
    out = []
    for _ in range(n):
        c = ctx() if CTX is not None else None
        nm = c.fresh_name('%' + base) if c is not None else '%%%s%d' % (base, _qv[0])
        _qv[0] += 1
        out.append(z3.Int(nm))
    return out


def forall(ranges, body, pats=None):
    """ranges: list of (lo, hi) (hi excluded) or None; body(*SNum) -> truth"""
    for r in ranges:
        if r is not None:
            lo, hi = r if isinstance(r, tuple) else (0, r)
            if isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
                return z3.BoolVal(True)
    vs = bound(len(ranges))
    g = []
    for v, r in zip(vs, ranges):
        if r is None:
            continue
        if not isinstance(r, tuple):
            r = (0, r)
        g.append(v >= Zi(r[0]))
        if r[1] is not None:
            g.append(v < Zi(r[1]))
    b = Zb(body(*[SNum(v) for v in vs]))
    f = z3.Implies(z3.And(*g), b) if g else b
    kw = {}
    if pats is not None:
        p = pats(*vs)
        if p is not None:
            kw['patterns'] = p if isinstance(p, list) else [p]
    return z3.ForAll(vs, f, **kw)


def And(*a):
    a = [Zb(x) for x in a]
    return z3.And(*a) if len(a) != 1 else a[0]


def Or(*a):
    return z3.Or(*[Zb(x) for x in a])


def Not(a):
    return z3.Not(Zb(a))


def Implies(a, b):
    return z3.Implies(Zb(a), Zb(b))


def If(c, a, b):
    c = Zb(c)
    a, b = Z(a), Z(b)
    if a.sort() != b.sort() and a.sort() != Lab:
        a, b = coerce(a, b)
    return wrap(z3.If(c, a, b))


def vround(x):
    """round half to even: only |r - x| <= 1/2 is used"""
    if not isinstance(x, SNum):
        return round(x)
    if x.is_int:
        return x
    r = fresh_int('round')
    rr = z3.ToReal(r.e)
    ctx().assume(z3.And(rr - x.e <= z3.RealVal('1/2'), x.e - rr <= z3.RealVal('1/2')))
    return r


# ---------------------------------------------------------- exploration

class Explorer(object):
    """explores all the paths of run(); collects the obligations"""

    def __init__(self, title, run, max_paths=400):
        self.title = title
        self.run = run
        self.max_paths = max_paths
        self.obligations = []
        self.trivial = 0
        self.paths = 0
        self.frames = {}         # loop key -> set of heap locations to havoc
        self.sorts = {}          # loop key, variable -> kind
        self.dropped = set()     # candidate invariants given up
        self.final_pcs = []

    def redo(self):
        """the frames grew: explore again once the other paths have told theirs"""
        self.again = True
        raise PathEnd('redo')

    def explore(self):
        for attempt in range(25):
            try:
                self._explore()
                return self.obligations
            except Restart:
                continue
        raise Unsupported('no stable frame for the loops of %s' % self.title)

    def _explore(self):
        self.obligations = []
        self.trivial = 0
        self.paths = 0
        self.ended = 0
        self.final_pcs = []
        self.cuts = {}           # cut points: trace of the path that goes on
        self.again = False
        work = [[]]
        while work:
            prefix = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            c = Ctx(prefix, self)
            set_ctx(c)
            try:
                self.run(c)
                self.ended += 1
                self.final_pcs.append(list(c.pc))
            except PathEnd:
                pass
            except Unsupported:
                if self.again:
                    raise Restart()
                raise
            finally:
                set_ctx(None)
            self.obligations.extend(c.obligations)
            work.extend(c.alternatives)
        if self.again:
            raise Restart()
