"""C12 (scores) and C13 (analysis)."""
import os, warnings, collections
import numpy as np
from hx import require, fail, need, Skip
import h_task

RULE_C12 = ('task files written directly in the task format (1 to 30 BY blocks, empty to 60000 triplets, item indices up to 5000, unused pairs, '
            'pair codes up to 32 bits and above) and real tasks, distances with many ties, infinities and tiny differences; non-trivial: both signs or a tie occur')
BOUNDS_C12 = 'at most 120000 triplets'
RULE_C13 = ('task and score files written directly in the format (1 to 6 regressors with 1 to 10**6 levels, levels never used, products above 2**32 and 2**53, '
            'groups of one and many triplets, several BY blocks) and real tasks; every row compared with exact rational means; non-trivial: a group of at least two triplets')
BOUNDS_C13 = 'at most 30000 triplets'


def synth_task(path, blocks, regs=None):
    """blocks: list of (by, base, triplets int array, extra pair codes)"""
    import h5py
    from h5py import special_dtype
    st = special_dtype(vlen=str)
    data, pairs, idx, att = [], [], [], {}
    pos = ppos = 0
    top = 0
    for by, base, t, extra in blocks:
        t = np.asarray(t, dtype=np.int64).reshape(-1, 3)
        codes = np.unique(np.concatenate([t[:, 0] + base * t[:, 2], t[:, 1] + base * t[:, 2], np.asarray(extra, dtype=np.int64)]))
        data.append(t)
        pairs.append(codes)
        idx.append((pos, pos + len(t)))
        att[by] = (base, ppos, ppos + len(codes))
        pos += len(t)
        ppos += len(codes)
        top = max(top, int(t.max()) if t.size else 0)
    data = np.concatenate(data)
    pairs = np.concatenate(pairs)
    tt = np.min_scalar_type(top)
    with h5py.File(path, 'w') as f:
        f.create_dataset('bys', data=np.array([b[0] for b in blocks], dtype=object), dtype=st)
        g = f.create_group('triplets')
        g.create_dataset('data', data=data.astype(tt))
        g.create_dataset('by_index', data=np.array(idx, dtype=np.int64))
        g = f.create_group('unique_pairs')
        pt = np.min_scalar_type(int(pairs.max()) if len(pairs) else 0)
        g.create_dataset('data', data=pairs.astype(pt).reshape(-1, 1))
        for b in att:
            g.attrs[b] = att[b]
        if regs:
            r = f.create_group('regressors')
            for (by, base, t, extra), (names, ind, levels) in zip(blocks, regs):
                h = r.create_group(by)
                h.create_dataset('indexed_datasets', data=np.array(names, dtype=object), dtype=st)
                rt = np.min_scalar_type(max([len(l) for l in levels] + [1]))
                h.create_dataset('indexed_data', data=np.asarray(ind, dtype=np.int64).astype(rt))
                k = h.create_group('indexes')
                for n, l in zip(names, levels):
                    if isinstance(l[0], str):
                        k.create_dataset(n, data=np.array(l, dtype=object), dtype=st)
                    else:
                        k.create_dataset(n, data=np.array(l))
    return data, pairs, idx, att


def write_distance(path, dis):
    import h5py
    with h5py.File(path, 'w') as f:
        f.attrs['done'] = True
        f.create_group('distances').create_dataset('data', data=dis.reshape(-1, 1))


# ---------------------------------------------------------------- C12

def cases_C12(rng, tier):
    q = tier == 'quick'
    out = []
    for _ in range(90 if q else 900):
        nb = rng.choice([1, 1, 2, 3, 30])
        bl = []
        for b in range(nb):
            bl.append([rng.choice([2, 3, 10, 15, 16, 17, 100, 255, 256, 257, 5000, 65535, 65536, 70000]), rng.choice([1, 2, 5, 40, 300]), rng.choice([0, 0, 3])])
        out.append(dict(kind='synth', blocks=bl, style=rng.choice(['ties', 'real', 'inf', 'close', 'same', 'int']), seed=rng.randrange(10 ** 9)))
    for n in (33333, 33334, 12501, 60000) if q else (33333, 33334, 4166, 4167, 8333, 8334, 12500, 12501, 25000, 60000, 120000):
        for base in (3, 300, 70000):
            out.append(dict(kind='synth', blocks=[[base, n, 0], [base, 7, 1], [base, n // 2, 0]], style='ties', seed=n))
    for _ in range(15 if q else 150):
        out.append(dict(kind='task', task=h_task.base_case(rng, n=rng.choice([8, 16, 30])), style='ties', seed=rng.randrange(10 ** 9)))
    return out


def distances(r, n, style):
    if style == 'ties':
        return r.choice([0., .5, 1., 2.], size=n)
    if style == 'real':
        return r.rand(n)
    if style == 'inf':
        return r.choice([0., 1., np.inf], size=n)
    if style == 'close':
        return 1. + r.choice([0., 2.220446049250313e-16, 1e-12], size=n)
    if style == 'same':
        return np.ones(n)
    return r.randint(-3, 4, size=n).astype(np.float64)


def check_C12(case, tmp):
    import h5py
    score = need('ABXpy.score', 'score')
    r = np.random.RandomState(case['seed'])
    p = os.path.join(tmp, 't.abx')
    if case['kind'] == 'synth':
        blocks = []
        for i, (base, n, extra) in enumerate(case['blocks']):
            lo = 0 if r.rand() < .5 else max(0, base - 6)
            t = r.randint(lo, base, size=(n, 3))
            e = [int(v) for v in r.randint(0, 2 ** 31 - 1, size=extra).astype(np.int64) % (base * base)]
            blocks.append(('b%d' % i, base, t, e))
        data, pairs, idx, att = synth_task(p, blocks)
        bys = [b[0] for b in blocks]
    else:
        task, p = h_task.generate(case['task'], tmp)
        if p is None:
            return dict(nontrivial=False)
        rd = h_task.read_task(p)
        data, pairs, idx, att = rd['data'].astype(np.int64), rd['pairs'][:, 0].astype(np.int64), rd['by_index'], rd['pattrs']
        bys = rd['bys']
    dis = distances(r, len(pairs), case['style'])
    d = os.path.join(tmp, 'd.distance')
    write_distance(d, dis)
    out = os.path.join(tmp, 's.score')
    score(p, d, out)
    with h5py.File(out, 'r') as f:
        got = f['scores'][...]
    require(got.shape == (len(data), 1), '%s scores for %d triplets' % (got.shape, len(data)))
    exp = np.empty(len(data), dtype=np.int64)
    for b, (s, e) in zip(bys, idx):
        base, ps, pe = att[b]
        look = {int(c): float(v) for c, v in zip(pairs[ps:pe], dis[ps:pe])}
        for k in range(int(s), int(e)):
            a, bb, x = (int(v) for v in data[k])
            ax, bx = look[a + base * x], look[bb + base * x]
            exp[k] = 1 if ax < bx else (-1 if ax > bx else 0)
    bad = np.where(got[:, 0] != exp)[0]
    if len(bad):
        k = int(bad[0])
        fail('%d of %d scores are wrong, first at %d: triplet %s has score %d instead of %d' % (
            len(bad), len(exp), k, data[k].tolist(), got[k, 0], exp[k]))
    return dict(nontrivial=len(set(exp.tolist())) > 1 or 0 in exp, checks=len(exp))


# ---------------------------------------------------------------- C13

def cases_C13(rng, tier):
    q = tier == 'quick'
    out = []
    for _ in range(110 if q else 1200):
        nb = rng.choice([1, 1, 2, 5])
        nr = rng.choice([1, 2, 3, 4, 6])
        out.append(dict(kind='synth', sizes=[rng.choice([1, 2, 5, 60, 400]) for _ in range(nb)],
                        levels=[rng.choice([1, 2, 3, 8, 255, 256, 257, 300]) for _ in range(nr)],
                        used=rng.choice([1, 2, 3, 1000]), labels=rng.choice(['s', 's', 'i', 'f']), seed=rng.randrange(10 ** 9)))
    for lv in ([70000, 70000], [65536, 65536, 2], [100000, 100000, 100000], [1000000, 1000000, 9000], [300, 300, 300, 300, 300], [256, 256], [255, 257],
               [2 ** 16, 2 ** 16, 2 ** 16], [2097152, 2097152, 2097152], [2, 2 ** 20, 2 ** 20, 3]):
        out.append(dict(kind='synth', sizes=[50, 20], levels=lv, used=rng.choice([2, 3]), labels='i', top=True, seed=rng.randrange(10 ** 9)))
    out.append(dict(kind='synth', sizes=[20000], levels=[50, 40], used=1000, labels='s', seed=5))
    for _ in range(15 if q else 150):
        out.append(dict(kind='task', task=h_task.base_case(rng, n=rng.choice([8, 16, 24])), seed=rng.randrange(10 ** 9)))
    return out


def check_C13(case, tmp):
    import h5py
    analyze = need('ABXpy.analyze', 'analyze')
    r = np.random.RandomState(case['seed'])
    p = os.path.join(tmp, 't.abx')
    if case['kind'] == 'synth':
        blocks, regs = [], []
        names = ['r%d_%s' % (i, 'ABX'[i % 3]) for i in range(len(case['levels']))]
        for i, n in enumerate(case['sizes']):
            blocks.append(('b%d' % i, 10, r.randint(0, 10, size=(n, 3)), []))
            ind = np.empty((n, len(names)), dtype=np.int64)
            lev = []
            for j, L in enumerate(case['levels']):
                pool = r.randint(0, L, size=min(L, case['used']))
                if case.get('top'):
                    pool[-1] = L - 1
                ind[:, j] = pool[r.randint(0, len(pool), size=n)]
                if case.get('top'):
                    ind[0, j] = L - 1
                    # neighbours of the largest code
                    for k in range(1, min(n, 3)):
                        ind[k, j] = L - 1 - (k if j == len(names) - 1 and L > k else 0)
                if case['labels'] == 's':
                    lev.append(['%s%d' % ('xyzt'[j % 4], (k * 7) % L if L % 7 else k) for k in range(L)])
                elif case['labels'] == 'i':
                    lev.append(np.arange(L) * 3 + 1)
                else:
                    lev.append(np.arange(L) + .5)
            regs.append((names, ind, lev))
        data, pairs, idx, att = synth_task(p, blocks, regs)
        bys = [b[0] for b in blocks]
    else:
        task, p = h_task.generate(case['task'], tmp)
        if p is None:
            return dict(nontrivial=False)
        rd = h_task.read_task(p)
        data, idx, bys = rd['data'], rd['by_index'], rd['bys']
        regs = []
        for b in bys:
            nm, ind, ix = rd['regs'][b]
            regs.append((nm, ind.astype(np.int64), [ix[n] for n in nm]))
        names = regs[0][0]
    sc = r.choice([-1, 0, 1], size=len(data)).astype(np.int8)
    if r.rand() < .1:
        sc[:] = r.choice([-1, 1])
    s = os.path.join(tmp, 's.score')
    with h5py.File(s, 'w') as f:
        f.create_dataset('scores', data=sc.reshape(-1, 1))
    out = os.path.join(tmp, 'r.csv')
    analyze(p, s, out)
    lines = open(out).read().split('\n')
    require(lines[-1] == '', 'the last line is not ended')
    lines = [l.split('\t') for l in lines[:-1]]
    require(lines[0] == list(names) + ['by', 'score', 'n'], 'header %s' % lines[0])
    exp = {}
    big = False
    for b, (u, v), (nm, ind, lev) in zip(bys, idx, regs):
        for k in range(int(u), int(v)):
            key = tuple(str(lev[j][int(ind[k - int(u), j])]) for j in range(len(nm))) + (b,)
            e = exp.setdefault(key, [0, 0])
            e[0] += int(sc[k])
            e[1] += 1
            big = big or e[1] > 1
    seen = set()
    for l in lines[1:]:
        key = tuple(l[:-2])
        require(key in exp, 'row %s: no triplet has these values' % l)
        require(key not in seen, 'row %s appears twice' % (key,))
        seen.add(key)
        t, n = exp[key]
        require(l[-1] == str(n), 'row %s: n should be %d' % (l, n))
        m = (t / float(n) + 1) / 2
        require(abs(float(l[-2]) - m) < 1e-9, 'row %s: the mean score should be %r' % (l, m))
    require(len(seen) == len(exp), '%d rows for %d combinations' % (len(seen), len(exp)))
    return dict(nontrivial=big, checks=len(exp))
