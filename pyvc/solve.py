"""Discharges obligations in a pool of processes."""
import os, subprocess, tempfile, time
import multiprocessing as mp
import z3
from . import core

AXIOMS = []      # functions () -> list of formulas that only define symbols


def to_smt2(pc, goal, axioms):
    s = z3.Solver()
    for f in axioms:
        s.add(f)
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


_NL = {}


def _nl(name, *sorts):
    k = (name,) + tuple(x.name() for x in sorts)
    if k not in _NL:
        _NL[k] = z3.Function('nl_' + '_'.join(k), *sorts)
    return _NL[k]


class Linear(object):
    """products, quotients of two unknowns as function symbols (what holds for
    any function holds for these ones)"""

    def __init__(self):
        self.memo = {}
        self.used = False
        self.k = 0
        self.keep = []
        self.runs = {}

    def run(self, f):
        """-> formula, whether it had a non linear term"""
        k = f.get_id()
        if k not in self.runs:
            self.keep.append(f)
            self.used = False
            self.memo = {}
            self.k = 0
            r = self.lin(z3.simplify(f, som=True))
            self.runs[k] = (r, self.used)
        return self.runs[k]

    def lin(self, e):
        key = e.get_id()
        if key in self.memo:
            return self.memo[key]
        self.keep.append(e)
        r = self._lin(e)
        self.memo[key] = r
        return r

    def _lin(self, e):
        if z3.is_quantifier(e):
            n = e.num_vars()
            vs = []
            for i in range(n):
                self.k += 1
                vs.append(z3.Const('%s~%d' % (e.var_name(i), self.k), e.var_sort(i)))
            sub = list(reversed(vs))
            body = self.lin(z3.substitute_vars(e.body(), *sub))
            pats = []
            for i in range(e.num_patterns()):
                ts = [self.lin(z3.substitute_vars(t, *sub)) for t in e.pattern(i).children()]
                pats.append(z3.MultiPattern(*ts))
            kw = dict(patterns=pats) if pats else {}
            return z3.ForAll(vs, body, **kw) if e.is_forall() else z3.Exists(vs, body, **kw) if not e.is_lambda() else e
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        a = [self.lin(x) for x in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            nums = [x for x in a if z3.is_int_value(x) or z3.is_rational_value(x)]
            rest = sorted([x for x in a if not (z3.is_int_value(x) or z3.is_rational_value(x))], key=lambda x: x.sexpr())
            if len(rest) > 1:
                self.used = True
                r = rest[0]
                for x in rest[1:]:
                    r = _nl('mul', r.sort(), x.sort(), r.sort())(r, x)
                for x in nums:
                    r = x * r
                return r
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not (z3.is_int_value(a[1]) or z3.is_rational_value(a[1])):
            self.used = True
            nm = {z3.Z3_OP_IDIV: 'idiv', z3.Z3_OP_MOD: 'mod', z3.Z3_OP_DIV: 'div'}[k]
            return _nl(nm, a[0].sort(), a[1].sort(), e.sort())(a[0], a[1])
        if k == z3.Z3_OP_POWER:
            return e
        try:
            return e.decl()(*a) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_DISTINCT) else (
                z3.And(*a) if k == z3.Z3_OP_AND else z3.Or(*a) if k == z3.Z3_OP_OR else z3.Sum(*a) if k == z3.Z3_OP_ADD
                else z3.Distinct(*a) if k == z3.Z3_OP_DISTINCT else _sub(a))
        except z3.Z3Exception:
            return e


def _sub(a):
    r = a[0]
    for x in a[1:]:
        r = r - x
    return r


_L = []


def linear_smt2(pc, goal, axioms):
    """None when there is no non linear term"""
    if not _L or len(_L[0].keep) > 400000:
        _L[:] = [Linear()]
    L = _L[0]
    rs = [L.run(f) for f in pc]
    g, u = L.run(goal)
    if not u and not any(x for _, x in rs):
        return None
    fs = [f for f, _ in rs]
    text = to_smt2(fs, g, axioms)
    for k, f in sorted(_NL.items()):
        if k[0] == 'mul' and k[1] == k[2] and f.name() in text:
            u, v = z3.Const('u~', f.domain(0)), z3.Const('v~', f.domain(0))
            fs.append(z3.ForAll([u, v], f(u, v) == f(v, u), patterns=[f(u, v)]))
    return to_smt2(fs, g, axioms)


def _z3(text, timeout, opts):
    s = z3.Solver(ctx=z3.Context())       # nothing depends on what was checked before
    s.set('timeout', int(timeout * 1000))
    for k, v in opts.items():
        s.set(k, v)
    s.from_string(text)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', ''
    if r == z3.sat:
        try:
            m = str(s.model())[:4000]
        except Exception:
            m = ''
        return 'sat', m
    return 'unknown', s.reason_unknown()


def _cvc5(text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + '\n'.join(l for l in text.splitlines() if not l.startswith('(set-')))
        name = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', name],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
        o = r.stdout.decode().strip().splitlines()
        o = o[0] if o else ''
        return (o if o in ('sat', 'unsat') else 'unknown'), o
    except Exception as e:
        return 'unknown', str(e)
    finally:
        os.unlink(name)


OBLS = None


def _job(a):
    n, scale, thorough = a
    t0 = time.time()
    o = OBLS[n]
    text = to_smt2(o.pc, o.goal, core.lab_axioms(None))
    try:
        lin = linear_smt2(o.pc, o.goal, core.lab_axioms(None))
    except z3.Z3Exception:
        lin = None
    plans = [('z3', 2, {'smt.mbqi': False, 'smt.auto_config': False}), ('cvc5', 2, None), ('z3', 4, {}),
             ('z3', 8, {'smt.mbqi': False, 'smt.auto_config': False, 'smt.arith.solver': 2, 'smt.random_seed': 7}),
             ('cvc5', 10, None), ('z3', 12, {'smt.random_seed': 3})]
    if thorough:
        plans += [('z3', 25, {'smt.mbqi': False, 'smt.auto_config': False, 'smt.qi.eager_threshold': 100.0})]
    best = ('unknown', '')
    if lin is not None:
        for t, o in ((3, {'smt.mbqi': False, 'smt.auto_config': False}), (3, {})):
            try:
                r, info = _z3(lin, t * scale, o)
            except Exception as e:
                r, info = 'unknown', ''
            if r == 'unsat':
                return n, 'unsat', 'z3', time.time() - t0, info
    for back, t, o in plans:
        try:
            if back == 'z3':
                r, info = _z3(text, t * scale, o)
            else:
                r, info = _cvc5(text, t * scale)
        except Exception as e:
            r, info = 'unknown', 'error %s' % e
        if r == 'unsat':
            return n, 'unsat', back, time.time() - t0, info
        if r == 'sat':
            best = ('sat', info)
            if back == 'z3' and not o:
                break
            if back == 'z3':
                continue
            break
        if best[0] != 'sat':
            best = (r, info)
    return n, best[0], 'z3', time.time() - t0, best[1]


def discharge(obls, jobs=6, scale=1., thorough=False, budget=400):
    """sets status, backend, time of the obligations"""
    global OBLS
    OBLS = obls                  # inherited by the processes
    work = []
    seen = {}
    for n, o in enumerate(obls):
        k = (frozenset(f.get_id() for f in o.pc), o.goal.get_id())
        if k in seen:
            o.meta = seen[k]
            continue
        seen[k] = n
        work.append((n, scale, thorough))
    t0 = time.time()
    bad = 0
    if work:
        pool = mp.get_context('spawn' if False else 'fork').Pool(min(jobs, len(work)))
        try:
            it = pool.imap_unordered(_job, work, chunksize=1)
            for _ in work:
                left = budget - (time.time() - t0)
                if left <= 0:
                    break
                try:
                    n, r, back, t, info = it.next(timeout=left)
                except mp.TimeoutError:
                    break
                o = obls[n]
                o.status, o.backend, o.time, o.model = r, back, t, info
                if r != 'unsat':
                    bad += 1
                    if bad >= 4:
                        break
        finally:
            pool.terminate()
    # not decided: again, alone, with more time (a busy machine is not a reason to fail)
    again = [w for w in work if obls[w[0]].status not in (None, 'unsat', 'sat')]
    left = budget - (time.time() - t0)
    if os.environ.get('PYVC_TRACE'):
        print('first pass: %d obligations, %.1f s, %d again' % (len(work), time.time() - t0, len(again)), [(obls[w[0]].name, round(obls[w[0]].time, 1)) for w in again][:5], flush=True)
    if again and bad < 4 and left > 60:
        pool = mp.get_context('fork').Pool(min(jobs, len(again)))
        try:
            it = pool.imap_unordered(_job, [(n, 2.5 * sc, th) for n, sc, th in again], chunksize=1)
            for _ in again:
                try:
                    n, r, back, t, info = it.next(timeout=max(1, budget - (time.time() - t0)))
                except mp.TimeoutError:
                    break
                o = obls[n]
                o.status, o.backend, o.time, o.model = r, back, o.time + t, info
                if r != 'unsat':
                    break
        finally:
            pool.terminate()
    for o in obls:
        if o.meta is not None:
            s = obls[o.meta]
            o.status, o.backend, o.time, o.model = s.status, s.backend, 0., s.model
        if o.status is None:
            o.status, o.backend, o.model = 'not attempted', 'none', 'others failed' if bad >= 4 else 'the time budget is exhausted'


PCS = None


def _contra(n):
    return _z3(to_smt2(PCS[n], z3.BoolVal(False), core.lab_axioms(None)), 2, {'smt.mbqi': False, 'smt.auto_config': False})[0] == 'unsat'


def contradictory(pcs, limit=6):
    """how many of these path conditions are refuted (killed after the limit: z3 does not always stop in time)"""
    global PCS
    PCS = pcs
    if not pcs:
        return 0
    pool = mp.get_context('fork').Pool(len(pcs))
    n, end = 0, time.time() + limit
    try:
        rs = [pool.apply_async(_contra, (k,)) for k in range(len(pcs))]
        for r in rs:
            try:
                n += bool(r.get(timeout=max(0.1, end - time.time())))
            except Exception:
                pass
    finally:
        pool.terminate()
    return n
