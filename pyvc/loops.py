"""Loops over a symbolic number of iterations, cut by their invariants."""
import inspect
import z3
from . import core
from .core import (ctx, SNum, SBool, SLab, Z, Zi, Zb, num, wrap, sbool, fresh_int, fresh_real,
                   fresh_bool, fresh_lab, Unsupported, PathEnd, Restart, Implies, is_sym)
from .arr import Arr, DT, fresh_arr, same_dim, INT64, FLOAT64
from .vlist import VList


class _Undef(object):
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Dead(object):
    """a variable whose values have different natures from one iteration to another:
    it can be assigned again, not used"""
    def __getattr__(self, n):
        if n.startswith('__vc'):
            raise AttributeError(n)
        raise Unsupported('a variable that changes of nature in a loop is used')

    def __repr__(self):
        return 'DEAD'


def _dead(*a, **k):
    raise Unsupported('a variable that changes of nature in a loop is used')


for _n in ('call', 'iter', 'getitem', 'setitem', 'bool', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'len',
           'contains', 'enter', 'exit', 'index', 'int', 'float', 'hash', 'floordiv', 'truediv', 'mod', 'neg', 'invert', 'and', 'or'):
    setattr(Dead, '__%s__' % _n, _dead)
DEAD = Dead()


class NS(object):
    """read-only view of some variables"""

    def __init__(self, d):
        self.__dict__.update(d)


# ---------------------------------------------------------------- kinds

def kind(v):
    if v is UNDEF:
        return ('undef',)
    if v is DEAD:
        return ('dead',)
    if v is None:
        return ('none',)
    if isinstance(v, (bool, SBool)):
        return ('bool',)
    if isinstance(v, SNum):
        return ('int',) if v.is_int else ('real',)
    if isinstance(v, int):
        return ('int',)
    if isinstance(v, float):
        return ('real',)
    if isinstance(v, SLab):
        return ('lab',)
    if isinstance(v, str):
        return ('str', v)
    if isinstance(v, Arr):
        return ('arr', v)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(kind(x) for x in v)
    if isinstance(v, VList):
        return ('own', v, v.vc_kind())
    if hasattr(v, 'vc_join'):
        return ('own', v)
    return ('obj', v)


def join_(a, b):
    """kind that covers both (None: impossible)"""
    if a[0] == b[0] and (len(a) == 1 or a[0] == 'str' and a == b):
        return a
    if a[0] == 'dead' or b[0] == 'dead':
        return ('dead',)
    if a[0] == 'undef':
        return b if b[0] != 'maybe' else b
    if b[0] == 'undef':
        return a
    nums = ('bool', 'int', 'real')
    if a[0] in nums and b[0] in nums:
        return (nums[max(nums.index(a[0]), nums.index(b[0]))],)
    if a[0] in ('str', 'lab') and b[0] in ('str', 'lab'):
        return ('lab',)
    if a[0] == 'none' and b[0] != 'none':
        return ('opt', b[1] if b[0] == 'opt' else b)
    if b[0] == 'none':
        return ('opt', a[1] if a[0] == 'opt' else a)
    if a[0] == 'opt' or b[0] == 'opt':
        j = join_(a[1] if a[0] == 'opt' else a, b[1] if b[0] == 'opt' else b)
        return None if j is None or j[0] == 'dead' else ('opt', j)
    if a[0] == 'arr' and b[0] == 'arr':
        x, y = a[1], b[1]
        if x.ndim != y.ndim or x.dtype.kind != y.dtype.kind:
            return None
        free = set(a[2] if len(a) > 2 else ()) | set(b[2] if len(b) > 2 else ())
        for d, (s, t) in enumerate(zip(x.shape, y.shape)):
            if not same_dim(s, t):
                free.add(d)
        if not same_dtype(x.dtype, y.dtype):
            free.add(-1)
        return ('arr', x, tuple(sorted(free)))
    if a[0] == 'tuple' and b[0] == 'tuple' and len(a) == len(b):
        js = [join_(x, y) for x, y in zip(a[1:], b[1:])]
        return None if any(j is None for j in js) else ('tuple',) + tuple(js)
    if a[0] == 'own' and b[0] == 'own' and type(a[1]) is type(b[1]):
        if len(a) == 3 and len(b) == 3:
            try:
                return ('own', a[1], a[1].vc_join_kind(a[2], b[2]))
            except Unsupported:
                return None
        return a
    if a[0] == 'obj' and b[0] == 'obj':
        try:
            if a[1] is b[1] or bool(a[1] == b[1]):
                return a
        except (Exception, Unsupported):
            pass
    return None


def same_dtype(a, b):
    if a is b or not a.is_int or a.exact() and b.exact():
        return True
    if a.bits is not None and b.bits is not None:
        return a.bits == b.bits
    return ctx().quick(Zi(a.maxv) == Zi(b.maxv))


def join(a, b):
    r = join_(a, b)
    return ('dead',) if r is None else r


def same_kind(a, b):
    if a is None or b is None:
        return a is b
    if a[0] != b[0]:
        return False
    if a[0] == 'arr':
        return (a[2] if len(a) > 2 else ()) == (b[2] if len(b) > 2 else ())
    if a[0] == 'tuple':
        return len(a) == len(b) and all(same_kind(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == 'opt':
        return same_kind(a[1], b[1])
    if a[0] == 'own':
        return len(a) != 3 or len(b) != 3 or a[2] == b[2]
    return True


def havoc(k, init, name):
    t = k[0]
    if t == 'undef':
        return UNDEF
    if t == 'dead':
        return DEAD
    if t == 'none':
        return None
    if t == 'int':
        return fresh_int(name)
    if t == 'real':
        return fresh_real(name)
    if t == 'bool':
        return fresh_bool(name)
    if t == 'lab':
        return fresh_lab(name)
    if t == 'str':
        return k[1]
    if t == 'opt':
        if ctx().fork(fresh_bool(name + '.isnone')):
            return None
        return havoc(k[1], None, name)
    if t == 'arr':
        a = init if isinstance(init, Arr) else k[1]
        free = k[2] if len(k) > 2 else ()
        if not isinstance(init, Arr):
            free = [d for d, s in enumerate(a.shape) if not isinstance(s, int)] + [d for d in free if d == -1]
        shape = [fresh_int(name + '.n', 0) if d in free else s for d, s in enumerate(a.shape)]
        dt = a.dtype
        if -1 in free:
            # the machine type changes from one iteration to another
            m = fresh_int(name + '.max', 127 if dt.kind == 'i' else 255)
            ctx().assume(m <= 2 ** 64 - 1)
            dt = DT(dt.kind, None, 0 if dt.kind == 'u' else -m - 1, m, 'some type')
        r = fresh_arr(name, shape, dt)
        r.st.foreign = True
        return r
    if t == 'tuple':
        init = init if isinstance(init, tuple) else (None,) * (len(k) - 1)
        return tuple(havoc(x, i, name) for x, i in zip(k[1:], init))
    if t == 'own' and len(k) == 3:
        r = VList()              # no kind: no element in any of the iterations seen so far
        if k[2] is not None:
            r.vc_havoc(k[2])
        return r
    if t == 'own':
        return (init if init is not None and init is not UNDEF else k[1]).vc_fresh(name)
    if t == 'obj':
        return k[1]
    raise Unsupported('havoc of %s' % (k,))


# ------------------------------------------------------- iteration domains

def iter_domain(it):
    """('conc', list) or ('sym', length, element function)"""
    if isinstance(it, VRange):
        return it.domain()
    if hasattr(it, '__vc_iter__'):
        r = it.__vc_iter__()
        n, f = r
        if isinstance(n, int):
            return ('conc', [f(i) for i in range(n)])
        return ('sym', n, f)
    if isinstance(it, (list, tuple, str, range, dict, set, frozenset)):
        return ('conc', list(it))
    if hasattr(it, '__vc_gen__'):
        return ('gen', it)
    try:
        return ('conc', list(it))
    except TypeError:
        raise


class VRange(object):
    """range() with symbolic bounds"""

    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a
        for x in a:
            if isinstance(x, float) or (isinstance(x, SNum) and not x.is_int):
                raise TypeError("'float' object cannot be interpreted as an integer")
        if not isinstance(self.step, int):
            raise Unsupported('range with a symbolic step')

    def __vclen__(self):
        s = self.step
        d = (Zi(self.stop) - Zi(self.start)) if s > 0 else (Zi(self.start) - Zi(self.stop))
        k = abs(s)
        n = d if k == 1 else (d + (k - 1)) / k
        n = z3.simplify(n)
        if not ctx().quick(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return num(n)

    def item(self, i):
        return wrap(Zi(self.start) + Zi(i) * self.step)

    def domain(self):
        n = self.__vclen__()
        if isinstance(n, int):
            return ('conc', [self.item(i) for i in range(n)])
        return ('sym', n, self.item)

    def __iter__(self):
        d = self.domain()
        if d[0] == 'conc':
            return iter(d[1])
        raise Unsupported('iteration over a symbolic range outside of a loop')

    def __vc_iter__(self):
        return self.__vclen__(), self.item

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a range')
        n = self.__vclen__()
        ctx().oblige('index within bounds', z3.And(Zi(i) >= 0, Zi(i) < Zi(n)))
        return self.item(i)


def vrange(*a):
    if all(isinstance(x, int) and not isinstance(x, bool) for x in a):
        return range(*a)
    a = tuple(x.__vc_scalar__() if hasattr(x, '__vc_scalar__') else x for x in a)
    return VRange(*a)


# ---------------------------------------------------------------- loops

class Spec(object):
    """loop contract: invariants are functions of named variables"""

    def __init__(self, *inv, **kw):
        self.inv = list(inv)
        self.variant = kw.get('variant')
        self.unroll = kw.get('unroll', False)
        self.ghost = kw.get('ghost')         # ghost update at the end of an iteration
        self.lemma = kw.get('lemma', [])     # facts proved at the top, usable for the preservation
        self.exit = kw.get('exit', [])       # lemmas proved at the exit of the loop
        self.first = kw.get('first', False)  # the first iteration apart: natures of the variables at the next ones only


def call_spec(f, env, what):
    args = []
    for p, q in inspect.signature(f).parameters.items():
        if p not in env or env[p] is UNDEF:
            if q.default is not q.empty:
                ctx().optional = True
                args.append(q.default)       # not assigned yet
                continue
            raise MissingName('%s: no variable %s' % (what, p))
        args.append(env[p])
    c = ctx()
    c.spec += 1
    try:
        return f(*args)
    finally:
        c.spec -= 1


class MissingName(Unsupported):
    pass


class Loop(object):
    """state of a loop being executed"""

    def __init__(self, engine, fname, ordinal, dom, is_while):
        self.engine = engine
        self.fname, self.ordinal = fname, ordinal
        c = ctx()
        self.key = (fname, ordinal)
        self.label = '%s: loop %d' % (fname, ordinal + 1)
        self.dom = dom
        self.conc = None
        self.is_while = is_while
        self.state = 0
        self.spec = engine.loop_spec(fname, ordinal)
        if not is_while and dom[0] == 'conc':
            self.conc = iter(dom[1])
        if is_while and self.spec is not None and self.spec.unroll:
            self.conc = 'while'
        if self.conc is None and self.spec is None:
            self.spec = engine.guess_spec(self)
        if self.conc is None and not is_while and dom[0] == 'gen':
            raise Unsupported('loop over a generator of unknown length')
        self.it = None
        self.steps = 0

    # environment of the invariants
    def env(self, loc):
        e = dict(self.engine.ghost_env())
        e.update(loc)
        if not self.is_while:
            e['_n'] = self.dom[1]
        e['_it'] = self.it
        e['_pre'] = self.pre
        e['_g'] = ctx().ghost
        return e

    def top(self, loc, names):
        if self.conc is not None:
            self.steps += 1
            if self.steps > 300:
                raise Unsupported('%s: too many iterations of a concrete loop' % self.label)
            return tuple(loc.get(n, UNDEF) for n in names)
        if self.state == 0:
            return self.enter(loc, names)
        return self.back_edge(loc, names)

    def invariants(self, env):
        out = []
        sp = self.spec
        if sp is None:
            return out
        for n, f in enumerate(sp.inv):
            if (self.key, n) in self.engine.explorer.dropped:
                continue
            out.append((n, call_spec(f, env, self.label)))
        return out

    def enter(self, loc, names):
        c = ctx()
        ex = self.engine.explorer
        self.names = names
        self.state = 1
        self.it = 0
        self.pre = NS({k: snapshot(v) for k, v in loc.items()})
        if self.spec is None and not self.engine.allow_bare_loops:
            raise Unsupported('%s has no invariant' % self.label)
        for n, f in self.invariants(self.env(loc)):
            c.oblige('%s: invariant %d holds initially' % (self.label, n + 1), f, 'invariant')
        # havoc
        kinds = ex.sorts.setdefault(self.key, {})
        bindmode = getattr(ex, 'bindmode', False)
        self.fkey = (self.key, tuple(c.trace))
        self.it = fresh_int('it', 0)
        vals = []
        self.kinds = {}
        first = None
        apart = self.apart = self.spec is not None and self.spec.first
        if bindmode or apart:
            first = c.fork(self.it == 0)
            if first:
                self.it = 0
        for n in names:
            v = loc.get(n, UNDEF)
            k0 = kind(v)
            if apart and first:
                self.kinds[n] = kinds.get(n, ('undef',))
                vals.append(v)
                continue
            if apart and n in kinds:
                self.kinds[n] = kinds[n]
                vals.append(havoc(kinds[n], v if same_kind(k0, kinds[n]) else None, n))
                continue
            k = k0
            if n in kinds:
                k = join(k0, kinds[n])
                if k is None:
                    raise Unsupported('%s: the variable %s changes of nature' % (self.label, n))
            self.kinds[n] = k
            if v is UNDEF:
                if bindmode and not first and n in kinds:
                    vals.append(havoc(kinds[n], None, n))
                else:
                    vals.append(UNDEF)
            else:
                vals.append(havoc(k, v, n))
        if not self.is_while:
            c.assume(Zi(self.it) <= Zi(self.dom[1]))
        frame = ex.frames.setdefault(self.fkey, {})
        for l in sorted(frame):
            o = c.heap.get(l)
            if o is not None:
                c.wrote(l)
                o.vc_havoc(frame[l])
        self.log = set()
        c.writes.append(self.log)
        loc = dict(loc)
        for n, v in zip(names, vals):
            loc[n] = v
        env = self.env(loc)
        self.deferred = None
        c.optional = False
        try:
            for n, f in self.invariants(env):
                c.assume(f)
            if c.optional and not bindmode and not apart:
                # variables that the first iteration assigns: distinguish it
                ex.bindmode = True
                raise Restart()
        except MissingName:
            raise
        except Unsupported as e:
            # the frame may not be known yet
            self.deferred = e
        if self.spec is not None and self.spec.variant is not None:
            self.v0 = call_spec(self.spec.variant, env, self.label)
        self.heap_before = set(c.heap)
        self.vals = dict(zip(names, vals))
        return tuple(vals)

    def back_edge(self, loc, names):
        c = ctx()
        ex = self.engine.explorer
        # the frame must cover what this iteration wrote
        frame = ex.frames[self.fkey]
        new = False
        for l in self.log:
            if l not in self.heap_before:
                continue
            o = c.heap.get(l)
            k = o.vc_kind()
            if l not in frame:
                frame[l] = k
                new = True
            elif k is not None:
                j = o.vc_join_kind(frame[l], k) if hasattr(o, 'vc_join_kind') else k
                if j != frame[l]:
                    frame[l] = j
                    new = True
        kinds = ex.sorts[self.key]
        for n in names:
            v = loc.get(n, UNDEF)
            k = kind(v)
            if k[0] == 'obj' and v is self.vals.get(n):
                continue             # the object of the beginning of the iteration
            if n not in kinds:
                kinds[n] = k
                if self.kinds[n][0] == 'undef':
                    if getattr(ex, 'bindmode', False) or self.apart:
                        new = True
                    continue
            j = join(self.kinds[n] if self.kinds[n][0] != 'undef' else kinds[n], k)
            if j is None:
                raise Unsupported('%s: the variable %s changes of nature (%s, %s)' % (self.label, n, self.kinds[n][0], k[0]))
            if not same_kind(j, self.kinds[n] if self.kinds[n][0] != 'undef' else kinds[n]):
                kinds[n] = j
                new = True
        if new:
            ex.redo()
        if self.deferred is not None:
            raise self.deferred
        if self.spec is not None and self.spec.ghost is not None:
            # ghost assignments of this iteration (ghost maps extended at a new index)
            call_spec(self.spec.ghost, self.env(loc), self.label)
        self.it = self.it + 1
        env = self.env(loc)
        if self.spec is not None:
            for f in self.spec.lemma:
                c.oblige('%s: %s' % (self.label, getattr(f, 'vc_name', 'lemma')), call_spec(f, env, self.label), 'lemma')
        for n, f in self.invariants(env):
            c.oblige('%s: invariant %d is preserved' % (self.label, n + 1), f, 'invariant')
        if self.spec is not None and self.spec.variant is not None:
            v = call_spec(self.spec.variant, env, self.label)
            c.oblige('%s: the variant decreases' % self.label, z3.And(Zi(self.v0) >= 0, Zi(v) < Zi(self.v0)), 'variant')
        raise PathEnd('back edge')

    def has_next(self):
        if self.conc is not None:
            try:
                self.cur = next(self.conc)
                return True
            except StopIteration:
                return False
        if self.state != 1:
            raise Unsupported('loop in an unexpected state')
        c = ctx()
        r = c.fork(sbool(Zi(self.it) < Zi(self.dom[1])))
        if not r:
            self.leave()
        return r

    def next(self):
        if self.conc is not None:
            return self.cur
        return self.dom[2](self.it)

    def leave(self):
        """normal exit"""
        c = ctx()
        if self.conc is None and self.log in c.writes:
            pass

    def done(self):
        """after the loop, whatever the exit"""
        c = ctx()
        if self.conc is None and self.state == 1:
            # writes of the last iteration belong to the enclosing loops as well
            c.writes[:] = [w for w in c.writes if w is not self.log]


def snapshot(v):
    if isinstance(v, Arr):
        # content at the entry of the loop
        f = v.snap()
        return Arr(v.shape, f, v.dtype)
    if v is DEAD:
        return v
    if hasattr(v, 'vc_snapshot'):
        return v.vc_snapshot()
    return v
