"""C10 (DTW), C11 (frame distances), C19 (UTW)."""
import itertools, math
import numpy as np
from hx import require, fail, need, Skip

RULE_C10 = ('distance matrices with values in a small set of dyadic numbers (many ties, zeros), random reals, all matrices over {0, 1, 2} '
            'of sizes up to 2x3, every shape up to 7x7, long thin ones, infinite values; optimum by enumeration of all alignments up to 5x5 and by '
            'an independent dynamic program above; non-trivial: both sequences have at least two frames')
BOUNDS_C10 = 'at most 60 frames'
RULE_C11 = ('random frames of 1 to 8 dimensions, 1 to 6 frames, float32 and float64, null, equal, opposite and proportional rows, zero '
            'coordinates, compared with scalar definitions; non-trivial: a special row or several frames')
BOUNDS_C11 = 'at most 8 frames of 8 dimensions; tolerance 1e-6 relative (float32: 2e-3)'
RULE_C19 = ('every pair of lengths up to 40 plus random pairs up to 300, frame distances compared with exact rational arithmetic; '
            'non-trivial: lengths differ')
BOUNDS_C19 = 'at most 300 frames'


# ---------------------------------------------------------------- C10

def cases_C10(rng, tier):
    q = tier == 'quick'
    out = []
    for N in range(1, 8):
        for M in range(1, 8):
            for k in range(3 if q else 12):
                out.append(dict(N=N, M=M, style=rng.choice(['ties', 'ties', 'real', 'zero', 'inf', 'corner']), seed=rng.randrange(10 ** 9)))
    for _ in range(60 if q else 800):
        out.append(dict(N=rng.randrange(1, 60), M=rng.randrange(1, 60), style=rng.choice(['ties', 'ties', 'real', 'zero', 'corner', 'band']), seed=rng.randrange(10 ** 9)))
    for n in (1, 2, 30, 60):
        out.append(dict(N=1, M=n, style='ties', seed=n))
        out.append(dict(N=n, M=1, style='ties', seed=n))
    for N, M in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]:
        out.append(dict(N=N, M=M, style='all', seed=0))
    out.append(dict(empty=True, N=0, M=0, style='', seed=0))
    return out


def matrix(case):
    N, M = case['N'], case['M']
    r = np.random.RandomState(case['seed'])
    s = case['style']
    if s == 'ties':
        return r.choice([0., .5, 1., 2.], size=(N, M))
    if s == 'real':
        return r.rand(N, M)
    if s == 'zero':
        return np.zeros((N, M)) if case['seed'] % 2 else r.choice([0., 0., 0., 1.], size=(N, M))
    if s == 'inf':
        return r.choice([0., 1., np.inf], p=[.45, .45, .1], size=(N, M))
    if s == 'corner':
        d = r.choice([0., 1.], size=(N, M))
        d[0, 0] = 8; d[-1, -1] = 16; d[0, :] += .25
        return d
    return np.abs(np.subtract.outer(np.arange(N), np.arange(M))) * 1.


def brute(d):
    N, M = d.shape

    def go(i, j):
        if i == 0 and j == 0:
            return d[0, 0]
        best = np.inf
        if i > 0:
            best = min(best, go(i - 1, j))
        if j > 0:
            best = min(best, go(i, j - 1))
        if i > 0 and j > 0:
            best = min(best, go(i - 1, j - 1))
        return best + d[i, j]
    return go(N - 1, M - 1)


def dp(d):
    """forward, by path suffixes: minimal cost from each cell to the end"""
    N, M = d.shape
    c = np.full((N + 1, M + 1), np.inf)
    for i in range(N - 1, -1, -1):
        for j in range(M - 1, -1, -1):
            if i == N - 1 and j == M - 1:
                c[i, j] = d[i, j]
            else:
                c[i, j] = d[i, j] + min(c[i + 1, j], c[i, j + 1], c[i + 1, j + 1])
    return c[0, 0]


def optimal_lengths(d):
    """set of the numbers of pairs of the optimal alignments; exact values only"""
    N, M = d.shape
    c = {}
    for i in range(N):
        for j in range(M):
            if i == 0 and j == 0:
                c[i, j] = (d[0, 0], {1})
                continue
            prev = [c[p] for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if p in c]
            m = min(p[0] for p in prev)
            c[i, j] = (m + d[i, j], set().union(*[{l + 1 for l in p[1]} for p in prev if p[0] == m]))
    return c[N - 1, M - 1]


def check_matrix(d, dtw):
    N, M = d.shape
    x, y = np.zeros((N, 1)), np.zeros((M, 1))
    keep = d.copy()
    got = dtw(x, y, lambda a, b: d, False)
    exp = brute(d) if N <= 5 and M <= 5 else dp(d)
    exact = np.all(np.isinf(d) | (d * 8 == np.round(d * 8)))
    require(got == exp if exact or np.isinf(exp) else abs(got - exp) <= 1e-9 * max(1., abs(exp)),
            'DTW of %s is %r, the cheapest alignment costs %r' % (d.tolist() if d.size < 50 else d.shape, got, exp))
    require(np.array_equal(d, keep), 'the matrix of distances is modified')
    norm = dtw(x, y, lambda a, b: d, True)
    if np.isinf(exp):
        require(np.isinf(norm), 'normalized DTW %r for an infinite cost' % norm)
    elif exact:
        cost, lens = optimal_lengths(d)
        require(any(norm == cost / l for l in lens),
                'normalized DTW of %s is %r: cost %r, lengths of the optimal alignments %s' % (
                    d.tolist() if d.size < 50 else d.shape, norm, cost, sorted(lens)))
        n = backtrack_len(d)
        require(norm == cost / n, 'normalized DTW of %s is %r: cost %r, %d pairs on the alignment found by backtracking' % (
            d.tolist() if d.size < 50 else d.shape, norm, cost, n))
    else:
        require(any(abs(norm - exp / l) <= 1e-9 * max(1., abs(exp)) for l in range(max(N, M), N + M)), 'normalized DTW %r for a cost of %r' % (norm, exp))


def backtrack_len(d):
    """documented tie breaking: diagonal first, then the previous frame of y, then of x"""
    N, M = d.shape
    c = np.empty((N, M))
    for i in range(N):
        for j in range(M):
            if i == 0 and j == 0:
                c[i, j] = d[0, 0]
            else:
                c[i, j] = d[i, j] + min(([c[i - 1, j]] if i else []) + ([c[i, j - 1]] if j else []) + ([c[i - 1, j - 1]] if i and j else []))
    i, j, n = N - 1, M - 1, 1
    while i or j:
        if i and j:
            u, l, g = c[i - 1, j], c[i, j - 1], c[i - 1, j - 1]
            if g <= l and g <= u:
                i, j = i - 1, j - 1
            elif l <= u:
                j -= 1
            else:
                i -= 1
        elif i:
            i -= 1
        else:
            j -= 1
        n += 1
    return n


def check_C10(case, tmp):
    dtw = need('ABXpy.distances.metrics.dtw', 'dtw')
    if case.get('empty'):
        for a, b in [(0, 0), (0, 3), (3, 0)]:
            for nrm in (True, False):
                try:
                    dtw(np.zeros((a, 2)), np.zeros((b, 2)), lambda x, y: np.zeros((a, b)), nrm)
                except ValueError:
                    continue
                fail('DTW of %d and %d frames is accepted' % (a, b))
        return dict(nontrivial=True)
    if case['style'] == 'all':
        n = case['N'] * case['M']
        for v in itertools.product([0., 1., 2.], repeat=n):
            check_matrix(np.array(v).reshape(case['N'], case['M']), dtw)
        return dict(nontrivial=case['N'] > 1 and case['M'] > 1, checks=3 ** n)
    check_matrix(matrix(case), dtw)
    return dict(nontrivial=case['N'] > 1 and case['M'] > 1)


# ---------------------------------------------------------------- C11

def cases_C11(rng, tier):
    q = tier == 'quick'
    out = []
    kinds = ['cosine', 'ncosine', 'kl', 'js', 'sqrtjs', 'hellinger']
    for k in kinds:
        for _ in range(40 if q else 500):
            out.append(dict(kind=k, n=rng.choice([1, 1, 2, 3, 6]), m=rng.choice([1, 1, 2, 4, 8]), dim=rng.choice([1, 2, 3, 8]),
                            f32=rng.random() < .3, seed=rng.randrange(10 ** 9), thr=rng.random() < .6, sym=rng.random() < .5, nrm=rng.random() < .6))
    for _ in range(60 if q else 500):
        out.append(dict(kind='cosine', n=rng.choice([2, 3, 4, 6]), m=rng.choice([2, 3, 4, 6]), dim=rng.choice([1, 2, 4]), nulls=rng.choice([.4, .7, 1.]),
                        f32=rng.random() < .3, seed=rng.randrange(10 ** 9), thr=False, sym=False, nrm=False))
    for _ in range(20 if q else 200):
        out.append(dict(kind='item', n=rng.choice([0, 0, 1, 4]), m=rng.choice([0, 0, 1, 5]), dim=rng.choice([1, 2, 5]), seed=rng.randrange(10 ** 9),
                        f32=False))
    return out


def rows_of(case, positive):
    r = np.random.RandomState(case['seed'])
    def mk(n):
        a = r.rand(n, case['dim']) + (.01 if positive else -.4)
        for i in range(n):
            u = r.rand()
            if positive:
                if u < .2:
                    a[i] = 1.
                elif u < .4:
                    a[i] = 1e-3
                    a[i, 0] = 1.
                elif u < .5:
                    a[i] *= 100
            else:
                if u < .2:
                    a[i] = 0.
                elif u < .35:
                    a[i] = np.round(a[i] * 4)
                elif u < .4:
                    a[i] *= 1e3
        return a
    x, y = mk(case['n']), mk(case['m'])
    if case.get('nulls'):
        x[r.rand(len(x)) < case['nulls']] = 0.
        y[r.rand(len(y)) < case['nulls']] = 0.
    elif len(x) and len(y):
        u = r.rand()
        if u < .2:
            y[-1] = x[0]
        elif u < .3:
            y[0] = 2 * x[-1]
        elif u < .35 and not positive:
            y[0] = -x[0]
    if case['f32']:
        x, y = x.astype(np.float32), y.astype(np.float32)
    return x, y


def ref_cos(a, b):
    na, nb = math.sqrt(math.fsum(e * e for e in a)), math.sqrt(math.fsum(e * e for e in b))
    if na == 0 and nb == 0:
        return 0.
    if na == 0 or nb == 0:
        return 1.
    c = math.fsum(e * f for e, f in zip(a, b)) / na / nb
    return math.acos(max(-1., min(1., c))) / math.pi


def ref_norm(a):
    s = math.fsum(a)
    return [e / s for e in a]


def ref_kl(a, b):
    return math.fsum(e * (math.log(e) - math.log(f)) for e, f in zip(a, b))


def ref_js(a, b):
    m = [(e + f) / 2 for e, f in zip(a, b)]
    return .5 * ref_kl(a, m) + .5 * ref_kl(b, m)


def ref_hel(a, b):
    return math.sqrt(math.fsum((math.sqrt(e) - math.sqrt(f)) ** 2 for e, f in zip(a, b)) / 2)


def check_C11(case, tmp):
    with np.errstate(all='ignore'):
        return check_C11_(case, tmp)


def check_C11_(case, tmp):
    k = case['kind']
    if k == 'item':
        return check_item(case)
    pos = k != 'cosine'
    x, y = rows_of(case, pos)
    x0, y0 = x.copy(), y.copy()
    tol = 2e-3 if case['f32'] else 1e-6
    args = [list(map(float, e)) for e in x], [list(map(float, e)) for e in y]
    if k == 'cosine':
        f = need('ABXpy.distances.metrics.cosine', 'cosine_distance')
        ref = ref_cos
        d = f(x, y)
        tol = max(tol, 1e-7)
    elif k == 'ncosine':
        f = need('ABXpy.distances.metrics.cosine', 'normalize_cosine_distance')
        d = f(x, y)
        ref = lambda a, b: ref_cos(ref_norm(a), ref_norm(b))
    elif k == 'kl':
        f = need('ABXpy.distances.metrics.kullback_leibler', 'kl_divergence')
        if not (case['thr'] or case['nrm']):
            # the inputs are taken as they are: give distributions
            x = x / x.sum(1)[:, None]; y = y / y.sum(1)[:, None]
            x0, y0 = x.copy(), y.copy()
            args = [list(map(float, e)) for e in x], [list(map(float, e)) for e in y]
        d = f(x, y, thresholded=case['thr'], symmetrized=case['sym'], normalize=case['nrm'])
        eps = float(np.finfo(x.dtype).eps)
        def prep(a):
            if case['thr'] or case['nrm']:
                a = ref_norm(a)
            if case['thr']:
                a = ref_norm([e + eps for e in a])
            return a
        def ref(a, b):
            a, b = prep(a), prep(b)
            return .5 * ref_kl(a, b) + .5 * ref_kl(b, a) if case['sym'] else ref_kl(a, b)
    elif k == 'js':
        f = need('ABXpy.distances.metrics.kullback_leibler', 'js_divergence')
        if case['nrm']:
            d = f(x, y)
            ref = lambda a, b: ref_js(ref_norm(a), ref_norm(b))
        else:
            d = f(x, y, normalize=False)
            ref = ref_js
    elif k == 'sqrtjs':
        f = need('ABXpy.distances.metrics.kullback_leibler', 'sqrt_js_divergence')
        d = f(x, y)
        ref = lambda a, b: math.sqrt(max(0., ref_js(ref_norm(a), ref_norm(b))))
        tol = max(tol, 2e-2 if case['f32'] else 1e-6)
    else:
        f = need('ABXpy.distances.metrics.kullback_leibler', 'hellinger_distance')
        d = f(x, y)
        ref = lambda a, b: ref_hel(ref_norm(a), ref_norm(b))
    require(np.array_equal(x, x0) and np.array_equal(y, y0), '%s modifies its inputs' % k)
    require(d.shape == (case['n'], case['m']), '%s: shape %s for %d x %d frames' % (k, d.shape, case['n'], case['m']))
    require(d.dtype == np.float64, '%s: distances of type %s' % (k, d.dtype))
    for i in range(case['n']):
        for j in range(case['m']):
            e = ref(args[0][i], args[1][j])
            g = float(d[i, j])
            t = tol * max(1., abs(e))
            if k in ('cosine', 'ncosine'):
                require(g >= 0, '%s: negative distance %r between %s and %s' % (k, g, args[0][i], args[1][j]))
                # arccos is ill conditioned near 0 and pi: compare the cosines there
                ok = abs(g - e) <= t or abs(math.cos(g * math.pi) - math.cos(e * math.pi)) <= (1e-5 if case['f32'] else 1e-12)
            elif k == 'sqrtjs':
                ok = math.isnan(g) and e < 1e-3 or abs(g - e) <= t or abs(g * g - e * e) <= (1e-5 if case['f32'] else 1e-12)
            else:
                ok = abs(g - e) <= t
            require(ok, '%s: distance between %s and %s is %r instead of %r' % (k, args[0][i], args[1][j], g, e))
    return dict(nontrivial=case['n'] * case['m'] > 1, checks=case['n'] * case['m'])


def lev(a, b):
    prev = list(range(len(b) + 1))
    for i, u in enumerate(a):
        cur = [i + 1]
        for j, v in enumerate(b):
            cur.append(min(prev[j + 1] + 1, cur[-1] + 1, prev[j] + (u != v)))
        prev = cur
    return prev[-1]


def check_item(case):
    dd, dk, ed = need('ABXpy.distance', 'default_distance', 'dtw_kl_distance', 'edit_distance')
    r = np.random.RandomState(case['seed'])
    x = r.rand(case['n'], case['dim']) + .1
    y = r.rand(case['m'], case['dim']) + .1
    sx = r.randint(0, 3, size=(case['n'], 1)).astype(float)
    sy = r.randint(0, 3, size=(case['m'], 1)).astype(float)
    x0, y0 = x.copy(), y.copy()
    for name, f, u, v, kw in [('default_distance', dd, x, y, dict(normalized=True)), ('default_distance', dd, x, y, dict(normalized=False)),
                              ('dtw_kl_distance', dk, x, y, {}), ('dtw_kl_distance', dk, x, y, dict(normalized=False)), ('edit_distance', ed, sx, sy, {})]:
        g = f(u, v, **kw)
        n, m = u.shape[0], v.shape[0]
        if n == 0 and m == 0:
            e = 0.
        elif n == 0 or m == 0:
            e = np.inf
        elif name == 'edit_distance':
            e = lev([tuple(t) for t in u], [tuple(t) for t in v])
        else:
            if name == 'default_distance':
                d = np.array([[ref_cos(a, b) for b in v] for a in u])
            else:
                eps = float(np.finfo(np.float64).eps)
                p = lambda a: ref_norm([t + eps for t in ref_norm(a)])
                d = np.array([[.5 * ref_kl(p(a), p(b)) + .5 * ref_kl(p(b), p(a)) for b in v] for a in u])
            e = dp(d)
            if kw.get('normalized', True):
                e = e / backtrack_len(d)
        require(g == e or abs(g - e) <= 1e-6, '%s of %d and %d frames is %r instead of %r (%s)' % (name, n, m, g, e, kw))
        if not (n == 0 or m == 0):
            require(np.array_equal(x, x0) and np.array_equal(y, y0), '%s modifies its inputs' % name)
    return dict(nontrivial=True, checks=5)


# ---------------------------------------------------------------- C19

def cases_C19(rng, tier):
    out = []
    L = 24 if tier == 'quick' else 40
    for n in range(1, L + 1):
        out.append(dict(pairs=[[n, m] for m in range(1, L + 1)], seed=n))
    for _ in range(20 if tier == 'quick' else 200):
        n = rng.randrange(1, 60)
        k = rng.randrange(1, 6)
        out.append(dict(pairs=[[n, n * k], [n, n * k + 1], [2 * n, 3 * n], [n, rng.randrange(1, 300)], [rng.randrange(1, 300), n]], seed=rng.randrange(1000)))
    return out


def ref_utw(x, y, div):
    """exact: the j-th frame of the longer one is centered at n1*(2j+1)/(2*n2)"""
    if len(x) > len(y):
        x, y = y, x
    n1, n2 = len(x), len(y)
    s = 0.
    for j in range(n2):
        num, den = n1 * (2 * j + 1), 2 * n2
        i = num // den
        if num % den == 0:
            s += .5 * div(x[i - 1], y[j]) + .5 * div(x[i], y[j])
        else:
            s += div(x[i], y[j])
    return s


def check_C19(case, tmp):
    utw = need('ABXpy.distances.metrics.utw', 'utw')
    r = np.random.RandomState(case['seed'])
    div = lambda a, b: np.sum(np.abs(a - b), axis=1)
    one = lambda a, b: float(np.sum(np.abs(a - b)))
    k = 0
    for n, m in case['pairs']:
        x = r.randint(0, 1000, size=(n, 2)).astype(np.float64) * 2
        y = r.randint(0, 1000, size=(m, 2)).astype(np.float64) * 2
        x0, y0 = x.copy(), y.copy()
        g, h, e = utw(x, y, div), utw(y, x, div), ref_utw(x, y, one)
        require(g == e, 'UTW of %d and %d frames is %r instead of %r' % (n, m, g, e))
        require(g == h, 'UTW of %d and %d frames depends on the order: %r, %r' % (n, m, g, h))
        require(np.array_equal(x, x0) and np.array_equal(y, y0), 'UTW modifies its inputs')
        k += n != m
    return dict(nontrivial=k > 0, checks=len(case['pairs']))
