"""Loads the code of the repository and runs the contracts on it."""
import os, sys, types, traceback, time
import z3
from . import core, xform, shims, symnp, loops
from .core import ctx, Unsupported, PathEnd, Restart, Explorer, SNum, SBool, SLab, Zb, Zi, sbool
from .loops import UNDEF, Loop, Spec, iter_domain, NS
from .vlist import VList
from .arr import Arr

REPO = os.environ.get('ABX_REPO', '/repo')


class StubModule(object):
    """a module of which only some names are modelled"""

    def __init__(self, name, **names):
        self.__dict__['_name'] = name
        self.__dict__.update(names)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s is not modelled' % (self._name, n))


class Lazy(object):
    """attribute access loads modules of the repository"""

    def __init__(self, eng, name):
        self.__dict__['_eng'], self.__dict__['_n'] = eng, name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        e = self.__dict__['_eng']
        full = self.__dict__['_n'] + '.' + n
        return e.module_by_name(full, self.__dict__['_n'])


_code = {}


def compiled(rel, points=()):
    path = os.path.join(REPO, rel)
    key = (rel, frozenset(points))
    if key not in _code:
        if rel.endswith('.pyx'):
            from . import depyx
            src = depyx.convert(open(path).read())
        else:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        tree = xform.rewrite(src, '<vc:%s>' % rel, points)
        _code[key] = compile(tree, '<vc:%s>' % rel, 'exec')
    return _code[key]


class VC(object):
    """the object called __vc__ in the rewritten code"""
    UNDEF = UNDEF

    def __init__(self, eng):
        self.eng = eng

    def while_begin(self, fname, ordinal):
        return Loop(self.eng, fname, ordinal, None, True)

    def for_begin(self, fname, ordinal, it):
        return Loop(self.eng, fname, ordinal, iter_domain(it), False)

    def cut(self, fname, var, loc, names):
        """a point where the contract states what holds: the paths that reach it go on as one,
        from what is stated only.  The contract gives (key, values of variables): the paths with the
        same key are merged; the other variables are lost, but for those whose value is one of the
        objects kept"""
        c = ctx()
        r = self.eng.target.points[fname, var](NS(dict((k, v) for k, v in loc.items() if not k.startswith('_vc'))))
        if r is None:            # no cut here
            return tuple(loc.get(n, UNDEF) for n in names)
        key, new, keep = r
        cuts = self.eng.explorer.cuts
        trace = tuple(c.trace)
        self.eng.reached.add((fname, var))
        vals, fs = new()         # which also drops what is known since base
        if cuts.setdefault(key, trace) != trace:
            raise PathEnd('cut')
        c.ghost.pop('%cache', None)
        for f in fs:
            c.assume(f)
        out = []
        for n in names:
            v = loc.get(n, UNDEF)
            if n in vals:
                v = vals[n]
            elif v is UNDEF or any(v is k for k in keep) or isinstance(v, (str, bool, types.FunctionType, types.ModuleType)) and n in ('__name__',):
                pass
            else:
                v = loops.DEAD
            out.append(v)
        return tuple(out)

    def mklist(self, x):
        return VList(x)

    def join(self, sep, x):
        return shims.vjoin(sep, x)

    def fmt(self, s, x):
        if any(core.is_sym(y) or isinstance(y, Arr) for y in (x if isinstance(x, tuple) else (x,))):
            return core.fresh_lab('formatted')
        return s % x

    def mkset(self, x):
        return shims.VSet(list(x))

    def mkdict(self, d):
        h = self.eng.hooks.get('dict')
        return h(d) if h else d

    def unsupported(self, what):
        raise Unsupported(what)

    def unpack(self, x, n):
        if isinstance(x, (tuple, list)):
            return x
        if hasattr(x, '__vc_iter__'):
            k, f = x.__vc_iter__()
            if isinstance(k, int):
                return [f(i) for i in range(k)]
        return x

    def contains(self, a, b, neg):
        if hasattr(b, '__vc_contains__'):
            r = b.__vc_contains__(a)
        elif isinstance(b, (VList, Arr, shims.VSet)):
            r = b.__contains__(a)
        elif isinstance(b, (list, tuple)):
            r = any(bool(x is a or x == a) for x in b)
        elif isinstance(b, dict) and core.is_sym(a):
            r = any(bool(x == a) for x in b)
        elif isinstance(b, VRangeT):
            r = bool(sbool(z3.And(Zi(a) >= Zi(b.start), Zi(a) < Zi(b.stop))))
        else:
            r = a in b
        if neg:
            return (not r) if isinstance(r, bool) else ~r
        return r

    def comp(self, kind, depth, f, it, cond):
        d = iter_domain(it)
        if d[0] == 'conc':
            items = d[1]
            if cond is not None:
                items = [x for x in items if bool(cond(x))]
            res = [f(x) for x in items]
            if depth > 1 and any(isinstance(r, VList) and r.conc is None for r in res):
                flat = VList()
                for r in res:
                    flat = flat + r
                if kind not in ('inner', 'list', 'gen'):
                    raise Unsupported('nested comprehension')
                return flat
            if depth > 1:
                flat = []
                for r in res:
                    flat.extend(list(r))
                res = flat
            if kind == 'inner':
                return res
            if kind == 'dict':
                r = {}
                for k, v in res:
                    r[k] = v
                return self.mkdict(r)
            if kind == 'set':
                return shims.VSet(res)
            return VList(res)
        if d[0] != 'sym' or depth > 1 and kind in ('dict', 'set'):
            raise Unsupported('nested comprehension')
        n, g = d[1], d[2]
        if cond is not None:
            # positions of the selected elements
            m = symnp.np_where(Arr((n,), lambda i: Zb(self.pure(cond, g(i))), symnp.BOOL))[0]
            at = m.snap()
            n2, g2 = m.shape[0], lambda i: g(at(Zi(i)))
        else:
            n2, g2 = n, g
        if kind == 'dict' or kind == 'set':
            h = self.eng.hooks.get(kind + 'comp')
            if h is None:
                raise Unsupported('%s comprehension over a symbolic number of elements' % kind)
            ev = lambda i: self.pure(f, g2(i))
            ev.raw = lambda i: f(g2(i))      # with its obligations
            return h(n2, ev)
        # safety of the element expression, for an arbitrary element
        q = core.fresh_int('celem', 0)
        c = ctx()
        base = len(c.pc)
        if c.feasible(Zi(n2) > 0):
            c.assume(z3.And(Zi(n2) > 0, q.e < Zi(n2)))
            known = dict(c.ghost.get('%cache', {}))
            try:
                f(g2(q.e))
            except PathEnd as e:
                if str(e) != 'infeasible':
                    raise
            c.drop(base)         # an exception leaves with the hypothesis
            c.ghost['%cache'] = known
        if depth > 1:
            return flatten(n2, lambda i: self.pure(f, g2(Zi(i))))
        # the value is the one of now: what the expression reads may change later
        names = lambda: sum(v for k, v in c.counter.items() if k[0] not in '%@')
        before = names(), len(c.pc)
        v = self.pure(f, g2(q.e))
        if scalar(v) and (names(), len(c.pc)) == before:
            return VList.sym(n2, lambda i: at_index(v, q.e, Zi(i)))
        return VList.sym(n2, lambda i: self.pure(f, g2(Zi(i))))

    def pure(self, f, x):
        c = ctx()
        c.spec += 1
        try:
            return f(x)
        finally:
            c.spec -= 1


def scalar(v):
    return isinstance(v, (bool, int, float, str, bytes, core.SNum, core.SBool, core.SLab)) or type(v) is tuple and all(map(scalar, v))


def at_index(v, q, i):
    if type(v) is tuple:
        return tuple(at_index(x, q, i) for x in v)
    if not core.is_sym(v):
        return v
    e = z3.substitute(v.e, (q, i))
    if isinstance(v, core.SNum):
        return core.SNum(e, v.dtype)
    return type(v)(e)


VRangeT = loops.VRange


def flatten(n, f):
    """concatenation of an unknown number of lists"""
    c = ctx()
    I = z3.IntSort()
    off, seg = core.fresh_fun('flat.offset', I, I), core.fresh_fun('flat.list', I, I)

    def item(i):
        l = f(i)
        return l if isinstance(l, VList) else VList(l)
    k, p = core.bound(2)
    ln = lambda k: Zi(item(k).__vclen__())
    N = Zi(n)
    c.assume(off(z3.IntVal(0)) == 0)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(off(k + 1) == off(k) + ln(k), off(k) >= 0, off(k + 1) <= off(N))), patterns=[off(k)]))
    c.assume(off(N) >= 0)
    c.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < off(N)), z3.And(seg(p) >= 0, seg(p) < N, off(seg(p)) <= p, p < off(seg(p)) + ln(seg(p)))), patterns=[seg(p)]))
    # which list an element comes from
    c.assume(z3.ForAll([k, p], z3.Implies(z3.And(k >= 0, k < N, off(k) <= p, p < off(k) + ln(k)), seg(p) == k), patterns=[z3.MultiPattern(off(k), seg(p))]))
    c.ghost.setdefault('flat', []).append((off, seg, n))

    def fn(p):
        l = item(seg(Zi(p))).vc_snapshot()
        l._symbolize()
        return l.fn(Zi(p) - off(seg(Zi(p))))
    return VList.sym(core.num(off(N)), fn)


def real_module(name):
    return __import__(name)


class Engine(object):
    def __init__(self, target):
        self.target = target
        self.hooks = {}
        self.allow_bare_loops = False
        self.guessed = False
        self.reached = set()

    # -- loops
    def loop_spec(self, fname, ordinal):
        return self.target.loops.get((fname, ordinal))

    def guess_spec(self, loop):
        """a loop without a contract of its own (moved to a helper...): take
        the invariants that make sense there; failures are not alarms"""
        self.guessed = True
        self.explorer.guessed = True
        return None

    def ghost_env(self):
        return self.genv

    # -- modules
    def start_path(self):
        self.modules = {}
        self.genv = {}
        self.hooks = dict(self.target.hooks)
        self.np = symnp.NP()
        self.stubs = {'numpy': self.np}
        m = StubModule('math', floor=lambda x: shims.vint(symnp.np_floor(x)), ceil=lambda x: shims.vint(symnp.np_ceil(x)),
                       sqrt=symnp.np_sqrt, log=symnp.np_log, exp=symnp.np_exp, pi=3.141592653589793,
                       lgamma=symnp.real_fun('lgamma'), isnan=symnp.np_isnan, factorial=symnp.real_fun('factorial'))
        self.stubs['math'] = m
        noop = lambda *a, **k: None
        self.stubs['warnings'] = StubModule('warnings', warn=noop, simplefilter=noop, filterwarnings=noop)
        self.stubs['time'] = StubModule('time', time=lambda: core.fresh_real('time'))
        self.stubs['datetime'] = StubModule('datetime')
        self.stubs['logging'] = StubModule('logging', debug=noop, info=noop, warning=noop, error=noop)

        class Out(object):
            def write(self, *a):
                pass
            flush = write
        self.stubs['sys'] = StubModule('sys', stdout=Out(), stderr=Out(), version_info=sys.version_info, maxsize=2 ** 63 - 1,
                                       path=[], argv=[])
        self.stubs['__future__'] = real_module('__future__')
        for n in ('collections', 'itertools', 'functools', 'operator', 'traceback', 'string', 'copy', 'abc', 'enum'):
            self.stubs[n] = None     # the real one
        self.stubs.update(self.target.stubs(self) if self.target.stubs else {})

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get('__package__') or ''
            parts = pk.split('.')
            parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if name in self.stubs and (fromlist or '.' not in name):
            m = self.stubs[name]
            m = m if m is not None else real_module(name)
            return m
        if top in self.stubs:
            m = self.stubs[top]
            m = m if m is not None else real_module(top)
            if not fromlist:
                return m
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m
        if top == 'ABXpy':
            if fromlist:
                return self.module_by_name(name, None)
            return Lazy(self, 'ABXpy')
        m = StubModule(name)
        if not fromlist:
            # import a.b: a, of which only b is known
            parts = name.split('.')
            m = StubModule(parts[-1])
            for k in range(len(parts) - 2, -1, -1):
                m = StubModule(parts[k], **{parts[k + 1]: m})
        return m

    def module_by_name(self, full, parent):
        if full in self.stubs:
            return self.stubs[full]
        rel = full.replace('.', '/')
        if os.path.isfile(os.path.join(REPO, rel + '.py')):
            return self.mod(rel + '.py')
        if os.path.isdir(os.path.join(REPO, rel)):
            init = rel + '/__init__.py'
            if os.path.isfile(os.path.join(REPO, init)) and full != 'ABXpy':
                last = full.split('.')[-1]
                if os.path.isfile(os.path.join(REPO, rel, last + '.pyx')):
                    return self.mod('%s/%s.pyx' % (rel, last))
                # names defined in the package
                m = self.mod(init)
                return PackageView(self, full, m)
            return Lazy(self, full)
        raise AttributeError("module has no attribute %r" % full)

    def mod(self, rel):
        if rel in self.modules:
            return self.modules[rel]
        if not os.path.isfile(os.path.join(REPO, rel)):
            raise MissingTarget('%s does not exist' % rel)
        m = types.ModuleType(rel[:-3].replace('/', '.'))
        g = m.__dict__
        g['__name__'] = rel.rsplit('.', 1)[0].replace('/', '.').replace('.__init__', '')
        g['__package__'] = g['__name__'] if rel.endswith('__init__.py') else g['__name__'].rpartition('.')[0]
        g['__file__'] = '/repo/' + rel
        b = shims.builtin_dict({'__import__': self.imp, 'locals': __builtins__['locals'] if isinstance(__builtins__, dict) else __builtins__.locals})
        b.update(self.target.builtins(self) if self.target.builtins else {})
        g['__builtins__'] = b
        g['__vc__'] = VC(self)
        self.modules[rel] = m
        code = compiled(rel, self.target.points if rel == self.target.path else ())
        exec(code, g)
        for v in list(g.values()):
            if isinstance(v, type) and v.__module__ == g['__name__'] and not issubclass(v, BaseException):
                instrument(v)
        st = self.target.replace.get(rel)
        if st:
            for k, f in st.items():
                o, parts = m, k.split('.')
                for q in parts[:-1]:
                    if not hasattr(o, q):
                        raise MissingTarget('%s has no %s' % (rel, k))
                    o = getattr(o, q)
                if not hasattr(o, parts[-1]):
                    raise MissingTarget('%s has no %s' % (rel, k))
                setattr(o, parts[-1], f)
        return m

    def fn(self, name, rel=None):
        m = self.mod(rel or self.target.path)
        o = m
        for p in name.split('.'):
            if not hasattr(o, p):
                raise MissingTarget('%s has no %s' % (rel or self.target.path, name))
            o = getattr(o, p)
        return o


class PackageView(object):
    def __init__(self, eng, full, m):
        self.__dict__['_a'] = (eng, full, m)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        eng, full, m = self.__dict__['_a']
        if hasattr(m, n):
            return getattr(m, n)
        return eng.module_by_name(full + '.' + n, full)


class MissingTarget(Unsupported):
    pass


class AttrCell(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def vc_kind(self):
        return loops.kind(self.obj.__dict__.get(self.name, UNDEF))

    def vc_join_kind(self, a, b):
        j = loops.join(a, b)
        if j is None:
            raise Unsupported('the attribute %s changes of nature' % self.name)
        return a if loops.same_kind(a, j) else j

    def vc_havoc(self, k):
        cur = self.obj.__dict__.get(self.name, UNDEF)
        self.obj.__dict__[self.name] = loops.havoc(loops.join(loops.kind(cur), k) or k, cur if cur is not UNDEF else None, self.name)


def instrument(cls):
    def setattr_(self, n, v):
        d = self.__dict__
        cells = d.setdefault('_vc_cells', {})
        if n not in cells:
            cells[n] = ctx().register(AttrCell(self, n), 'at')
        ctx().wrote(cells[n])
        d[n] = v
    if '__setattr__' not in cls.__dict__:
        cls.__setattr__ = setattr_


class Target(object):
    """a function under contract"""

    def __init__(self, name, path, drive, props=(), loops=None, stubs=None, replace=None, hooks=None, builtins=None,
                 assumptions=(), trusted=(), scale=1., max_paths=400, kind='proof', covers=(), points=None):
        self.name, self.path, self.drive = name, path, drive
        self.props = list(props)
        self.loops = loops or {}
        self.stubs, self.replace, self.hooks, self.builtins = stubs, replace or {}, hooks or {}, builtins
        self.assumptions, self.trusted = list(assumptions), list(trusted)
        self.scale, self.max_paths = scale, max_paths
        self.kind = kind
        self.points = points or {}       # (function, variable): contract of a cut point
        self.covers = list(covers) or [name]


def run_target(t):
    """generate the obligations of a target -> Explorer"""
    eng = Engine(t)

    def run(c):
        eng.start_path()
        try:
            t.drive(eng)
        except (PathEnd, Restart, Unsupported):
            raise
        except UnboundLocalError as e:
            if not getattr(ex, 'bindmode', False):
                ex.bindmode = True
                raise Restart()
            c.oblige('no exception (%s: %s)' % (type(e).__name__, e), z3.BoolVal(False), 'exception')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, AttributeError) or isinstance(e, TypeError) and str(e).startswith('stub_'):
                # fields or helpers that the contract does not know
                raise Unsupported('%s: %s' % (type(e).__name__, e))
            rel = [f for f in tb if '<vc:' in f.filename]
            if not rel or isinstance(e, (z3.Z3Exception, NotImplementedError)) or '<vc:' not in tb[-1].filename and not isinstance(e, (ValueError, IndexError, TypeError, KeyError, IOError)):
                raise Unsupported('internal error: %s\n%s' % (e, traceback.format_exc()[-1500:]))
            o = 'no exception (%s: %s)' % (type(e).__name__, str(e)[:200])
            if c.past_prefix():
                ob = core.Obligation(o, list(c.pc), z3.BoolVal(False), '%s:%d' % (rel[-1].filename[4:-1], rel[-1].lineno), 'exception')
                ob.func = ex.title
                c.obligations.append(ob)
            raise PathEnd('exception')
    ex = Explorer(t.name, run, t.max_paths)
    ex.guessed = False
    eng.explorer = ex
    ex.explore()
    if set(t.points) - eng.reached:
        ex.guessed = True        # not where the contract expects it
    return ex
