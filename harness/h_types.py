"""C17: integer types."""
import os
import numpy as np
from hx import require, fail, need, Skip
import h_task

RULE_C17 = ('fit_integer_type at every power of two +-2 up to 2**64, signed or not, plus random values; tasks whose '
            'numbers of items, triplets, levels or pairs cross a type, compared with exact integers; non-trivial: '
            'the value is within 2 of a boundary, or the task has a triplet')
BOUNDS_C17 = 'tasks of at most 400 items'


def cases_C17(rng, tier):
    out = []
    vals = {0, 1, 2, 3, 100, 1000, 10 ** 6, 10 ** 12}
    for k in range(1, 66):
        for d in range(-2, 3):
            if 2 ** k + d >= 0:
                vals.add(2 ** k + d)
    for _ in range(200 if tier == 'quick' else 5000):
        vals.add(rng.randrange(2 ** rng.randrange(1, 66)))
    for s in (True, False):
        out.append(dict(kind='fit', values=[str(v) for v in sorted(vals)], signed=s))
        out.append(dict(kind='fitnp', values=[str(v) for v in sorted(vals) if v < 2 ** 63], signed=s))
    # tasks around the boundaries
    for lead in (124, 125, 126, 127, 252, 253, 254, 255):
        out.append(dict(kind='task', task=h_task.sized_case(1, 1, 2, lead=lead)))
    for (na, nb, nx) in [(1, 1, 126), (1, 1, 127), (1, 1, 128), (1, 1, 254), (1, 1, 255), (1, 127, 1), (1, 128, 1), (1, 255, 1), (1, 256, 1),
                         (254, 1, 1), (255, 1, 1), (256, 1, 1), (12, 13, 14), (32, 32, 32), (40, 41, 40)]:
        out.append(dict(kind='task', task=h_task.sized_case(na, nb, nx)))
    # many small by blocks: large counts of blocks and positions
    for nby in (60, 130, 260):
        rows = [['s%d' % i, 0, 1, i % 2, (i // 2) % 2, i // 4] for i in range(4 * nby)]
        out.append(dict(kind='task', task=dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=['c2'], rows=rows, style='list')))
    # regressors with many levels: product of the cardinals above 8, 16, 32 bits
    for lv in (6, 17, 41, 90, 128, 129):
        rows = []
        for i in range(2 * lv):
            rows.append(['s%d' % i, 0, 1, 'ab'[i % 2] if i < 8 else 'a%d' % (i % 2), 'x%d' % ((i // 2) % 2), 'p%d' % i, 'q%d' % (i % lv), 'r%d' % ((i * 7) % lv)])
        out.append(dict(kind='regs', task=dict(cols=['c0', 'c1', 'c2', 'c3', 'c4'], on='c0', across=['c1'], by=[], rows=rows[:26], style='list',
                                               regressors=['c2_A', 'c2_B', 'c2_X', 'c3_B', 'c3_X', 'c4_B', 'c4_X'], threshold=1, seed=0)))
    return out


def check_C17(case, tmp):
    fit = need('ABXpy.misc.type_fitting', 'fit_integer_type')
    if case['kind'] in ('fit', 'fitnp'):
        s = case['signed']
        for v in case['values']:
            v = int(v)
            arg = np.int64(v) if case['kind'] == 'fitnp' else v
            exp = None
            for bits in (8, 16, 32, 64):
                if v <= 2 ** (bits - (1 if s else 0)) - 1:
                    exp = np.dtype(('int%d' if s else 'uint%d') % bits)
                    break
            try:
                got = np.dtype(fit(arg, is_signed=s))
            except ValueError:
                got = None
            require(got == exp, 'fit_integer_type(%d, is_signed=%s) gives %s instead of %s' % (v, s, got, exp))
        return dict(nontrivial=True, checks=len(case['values']))
    t = case['task']
    m, exp, task, r = h_task.compare_triplets(t, tmp, exact=case['kind'] == 'task')
    if r is None:
        return dict(nontrivial=False)
    n = 0
    for b in r['bys']:
        base, s, e = r['pattrs'][b]
        tr = h_task.by_slices(r)[b]
        codes = set()
        for row in tr.tolist():
            codes.add(row[0] + base * row[2])
            codes.add(row[1] + base * row[2])
        got = [int(x) for x in r['pairs'][s:e, 0]]
        require(set(got) == codes and len(got) == len(codes), 'block %s: pair codes are truncated' % b)
        n += len(codes)
        names, data, idx = r['regs'][b]
        for j, nme in enumerate(names):
            require(int(data[:, j].max()) < len(idx[nme]) and int(data[:, j].min()) >= 0, 'regressor %s out of its levels' % nme)
    if case['kind'] == 'regs':
        h_task.check_C03(t, os.path.join(tmp, _mk(tmp)))
        h_task.check_C07(t, os.path.join(tmp, _mk(tmp)))
    # block boundaries stored next to the triplets
    import h5py
    with h5py.File(os.path.join(tmp, 'o.abx'), 'r') as f:
        if 'on_across_block_index' in f['triplets']:
            bi = f['triplets/on_across_block_index'][...]
            require(bi.size == 0 or int(bi.min()) >= 0, 'on_across_block_index wraps around: %d' % bi.min())
    return dict(nontrivial=True, checks=n)


def _mk(tmp, k=[0]):
    k[0] += 1
    d = 'sub%d' % k[0]
    os.makedirs(os.path.join(tmp, d))
    return d
