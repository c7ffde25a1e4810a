"""Specification of the planted bugs: writes /verif/seeded (python3 tools/seeds_spec.py [ID...])."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed

HEAD = '''import os, sys, tempfile, shutil, itertools, collections
import numpy as np, h5py
if not hasattr(np, 'float'):
    np.float = float
import ABXpy
assert os.path.dirname(os.path.dirname(os.path.abspath(ABXpy.__file__))) == os.getcwd(), ABXpy.__file__
tmp = tempfile.mkdtemp()


def items(rows, cols, name='data.item', bounds=None):
    """item file: one row of labels by item"""
    p = os.path.join(tmp, name)
    with open(p, 'w') as f:
        f.write('#file onset offset #' + ' '.join(cols) + '\\n')
        for i, r in enumerate(rows):
            on, off = bounds[i] if bounds else (0, 1)
            f.write(' '.join(['f%d' % i, str(on), str(off)] + [str(x) for x in r]) + '\\n')
    return p


def run():
@BODY@


try:
    run()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
'''


def demo(body):
    return HEAD.replace('%s\n\n', '%s\n\n', 1).replace('@BODY@', '\n'.join('    ' + l if l.strip() else l for l in body.strip('\n').splitlines()))


T = 'ABXpy/task.py'
SPEC = {}


def add(i, prop, edits, needs, breaks, body):
    SPEC[i] = (prop, edits, needs, breaks, demo(body))


add('s01-feature-cache', 'C08', [
    ('ABXpy/distances/distances.py', "    n_blocks = len(job_description['by'])\n", "    n_blocks = len(job_description['by'])\n    cache = {}\n"),
    ('ABXpy/distances/distances.py', "        features = get_features(items)\n        dis =", "        # items shared by several blocks are loaded only once\n        cache.update(get_features(\n            items.loc[[ix for ix in items.index if ix not in cache]]))\n        features = cache\n        dis =")],
    'two BY blocks processed by the same job: the indices of the items are relative to their BY block',
    'the distances of the second block are computed with the features of the items of the first block', '''
import h5features
from ABXpy.task import Task
from ABXpy.distances import distances
rows = [(o, a, b) for b in 'xyz' for o in 'pq' for a in 'uv']
it = items(rows, ['on', 'ac', 'by'])
rng = np.random.RandomState(0)
feats = [rng.rand(1, 2) for _ in rows]
ff = os.path.join(tmp, 'f.h5f')
h5features.write(ff, 'features', ['f%d' % i for i in range(len(rows))], [np.array([.5])] * len(rows), feats)
t = os.path.join(tmp, 'o.abx')
Task(it, 'on', 'ac', 'by').generate_triplets(t)
d = os.path.join(tmp, 'o.dist')
distances.compute_distances(ff, 'features', t, d, lambda x, y: float(np.abs(x - y).sum()), None, n_cpu=1)
with h5py.File(t, 'r') as ft, h5py.File(d, 'r') as fd:
    dis = fd['distances/data'][:, 0]
    for k, by in enumerate('xyz'):
        base, a, b = ft['unique_pairs'].attrs[by]
        for n in range(a, b):
            p = ft['unique_pairs/data'][n, 0]
            i, j = p % base, p // base
            e = np.abs(feats[4 * k + i] - feats[4 * k + j]).sum()
            assert abs(dis[n] - e) < 1e-12, (by, i, j)
''')

add('s02-score-key-type', 'C12', [
    ('ABXpy/score.py', 'fit_integer_type((base) ** 2 - 1,', 'fit_integer_type((base - 1) ** 2 - 1,')],
    'a BY block of exactly 17 (or 257, 65537) items',
    'the keys of the pairs wrap around: a triplet is scored with the distances of other pairs', '''
from ABXpy.task import Task
from ABXpy.score import score
rows = [('p', 'u'), ('q', 'u'), ('p', 'v'), ('q', 'v')] * 4 + [('p', 'u')]
it = items(rows, ['on', 'ac'])
t, d, s = [os.path.join(tmp, x) for x in ('a.abx', 'a.dist', 'a.score')]
Task(it, 'on', 'ac').generate_triplets(t)
with h5py.File(t, 'r') as f:
    n = f['unique_pairs/data'].shape[0]
    pairs = f['unique_pairs/data'][:, 0]
    base = f['unique_pairs'].attrs['0'][0]
    tr = f['triplets/data'][...].astype(int)
dis = np.random.RandomState(1).rand(n)
with h5py.File(d, 'w') as f:
    f.create_dataset('distances/data', data=dis.reshape(-1, 1))
look = dict(zip(pairs, dis))
score(t, d, s)
with h5py.File(s, 'r') as f:
    sc = f['scores'][:, 0]
for (a, b, x), v in zip(tr, sc):
    e = np.sign(look[b + base * x] - look[a + base * x])
    assert v == e, (a, b, x, v, e)
''')

add('s03-last-pair', 'C04', [
    (T, '''                                if pairs[0, 0] == last:
                                    pairs = pairs[1:]
                                if pairs.size > 0:
                                    last = pairs[-1, 0]
                                    out.write(pairs)''', '''                                if pairs[0, 0] == last:
                                    pairs = pairs[1:]
                                if pairs.size > 0:
                                    last = pairs[0, 0]
                                    out.write(pairs)''')],
    'more pairs than a read buffer holds (100 kB), with the same pair on both sides of the boundary',
    'a pair is stored twice among the unique pairs', '''
from ABXpy.task import Task
rows = [(o, a) for o in 'pq' for a in 'uv' for _ in range(21)]
it = items(rows, ['on', 'ac'])
t = os.path.join(tmp, 'a.abx')
Task(it, 'on', 'ac').generate_triplets(t)
with h5py.File(t, 'r') as f:
    p = f['unique_pairs/data'][:, 0]
assert len(set(p)) == len(p), 'duplicated pair'
assert list(p) == sorted(p)
''')

add('s04-no-across-range', 'C01', [
    (T, '''            B = np.array(
                list(set(self.by_dbs[by].index).difference(on_set)),
                dtype=self.types[by])
        else:
            # remove B with the same 'on' than A
            B = np.array(
                list(set(self.across_blocks''', '''            B = np.array(
                list(set(range(len(self.by_dbs[by]))).difference(on_set)),
                dtype=self.types[by])
        else:
            # remove B with the same 'on' than A
            B = np.array(
                list(set(self.across_blocks''')],
    'no ACROSS, and a filter on the items that leaves gaps in the indices',
    'items removed by the filter are used as B, items that are kept never are', '''
from ABXpy.task import Task
rows = [('p', 0), ('q', 1), ('q', 1), ('p', 1), ('p', 1), ('q', 1)]
it = items(rows, ['on', 'k'])
t = os.path.join(tmp, 'a.abx')
Task(it, 'on', filters=['[x == 1 for x in k]']).generate_triplets(t)
with h5py.File(t, 'r') as f:
    got = sorted(map(tuple, f['triplets/data'][...].astype(int).tolist()))
ok = [i for i in range(6) if rows[i][1] == 1]
exp = sorted((a, b, x) for a in ok for b in ok for x in ok
             if a != x and rows[a][0] == rows[x][0] != rows[b][0])
assert got == exp, (got, exp)
''')

add('s05-filter-context', 'C02', [
    ('ABXpy/sideop/filter_manager.py', 'context[var] = [context[var][e] for e in still_up]', 'context[var] = [context[var][e] for e in kept\n                            if e < len(context[var])]')],
    'three filters on the same element, the first two removing items',
    'the third filter is evaluated on the values of other items', '''
from ABXpy.task import Task
rng = np.random.RandomState(3)
rows = [(o, a, int(rng.randint(3)), int(rng.randint(3)), int(rng.randint(3))) for o in 'pq' for a in 'uv' for _ in range(12)]
it = items(rows, ['on', 'ac', 'e', 'g', 'h'])
t = os.path.join(tmp, 'a.abx')
Task(it, 'on', 'ac', filters=['[v != 0 for v in e_X]', '[v != 1 for v in g_X]', '[v != 2 for v in h_X]']).generate_triplets(t)
with h5py.File(t, 'r') as f:
    got = collections.Counter(map(tuple, f['triplets/data'][...].astype(int).tolist()))
n = range(len(rows))
exp = collections.Counter(
    (a, b, x) for a in n for b in n for x in n
    if rows[a][0] == rows[x][0] != rows[b][0] and rows[a][1] == rows[b][1] != rows[x][1]
    and rows[x][2] != 0 and rows[x][3] != 1 and rows[x][4] != 2)
assert got == exp
''')

add('s06-large-groups', 'C03', [
    (T, '        if threshold and c > threshold:\n', '        if threshold and c > 100 * threshold:\n            # much faster for the largest groups\n            new_permut.append(permut[np.random.randint(i, i + c, threshold)])\n        elif threshold and c > threshold:\n')],
    'a threshold and a group more than 100 times larger than the threshold',
    'the same triplet can be sampled twice', '''
from ABXpy.task import sort_and_threshold
np.random.seed(0)
for c, th in ((700, 6), (5000, 40), (205, 2)):
    for _ in range(300):
        idx = np.zeros(c, dtype=np.int64)
        p, _ = sort_and_threshold(np.arange(c), idx, np.int64, threshold=th)
        assert len(p) == th and len(set(p.tolist())) == th, (c, th)
''')

add('s07-regressor-columns', 'C07', [
    ('ABXpy/h5tools/h5io.py', 'indexed_values = [data[dset] for dset in self.non_fused_datasets]', 'indexed_values = [data[dset] for dset in self.indexes]')],
    'a column used in ACROSS whose name sorts before that of ON',
    'the columns of the regressors are swapped in the task file', '''
from ABXpy.task import Task
rows = [(o, a) for o in ('p', 'q', 'r') for a in ('u', 'v')] * 2
it = items(rows, ['zon', 'aac'])
t = os.path.join(tmp, 'a.abx')
Task(it, 'zon', 'aac').generate_triplets(t)
with h5py.File(t, 'r') as f:
    g = f['regressors/0']
    names = [x if isinstance(x, str) else x.decode() for x in g['indexed_datasets'][...]]
    data = g['indexed_data'][...].astype(int)
    index = {n: [x if isinstance(x, str) else x.decode() for x in g['indexes'][n][...]] for n in names}
    tr = f['triplets/data'][...].astype(int)
for (a, b, x), r in zip(tr, data):
    exp = {'zon_1': rows[a][0], 'zon_2': rows[b][0], 'aac_1': rows[a][1], 'aac_2': rows[x][1]}
    got = {n: index[n][v] if v < len(index[n]) else None for n, v in zip(names, r)}
    assert got == exp, (got, exp)
''')

add('s08-bounds-float32', 'C09', [
    ('ABXpy/distances/distances.py', "            f = str(f)\n\n            t = np.where", "            f = str(f)\n            on, off = np.float32(on), np.float32(off)\n\n            t = np.where")],
    'a frame exactly at the onset or the offset of an item, at a time that is not exact in single precision',
    'the first or the last frame of the item is lost', '''
import pandas
from ABXpy.distances.distances import Features_Accessor
times = np.arange(40) / 100.
acc = Features_Accessor({'a': times}, {'a': np.arange(80.).reshape(40, 2)})
df = pandas.DataFrame({'file': ['a'] * 30, 'onset': times[:30], 'offset': times[5:35]})
got = acc.get_features_from_raw(df)
for i in range(30):
    assert np.array_equal(got[i][:, 0], 2. * np.arange(i, i + 6)), (i, got[i])
''')

add('s09-dtw-backtrack', 'C10', [
    ('ABXpy/distances/metrics/dtw/dtw.pyx', 'if c_diag <= c_left and c_diag <= c_up:', 'if c_diag <= c_left or c_diag <= c_up:')],
    'a normalized DTW whose optimal path has horizontal and vertical steps away from the borders',
    'the cost is divided by the length of a path that is not optimal', '''
from ABXpy.distances.metrics import dtw
rng = np.random.RandomState(0)
for _ in range(3000):
    n, m = rng.randint(1, 7), rng.randint(1, 7)
    d = rng.rand(n, m)
    c = np.full((n, m), np.inf)
    l = np.zeros((n, m), int)
    for i in range(n):
        for j in range(m):
            if i == j == 0:
                c[0, 0], l[0, 0] = d[0, 0], 1
                continue
            o = [(c[a, b], l[a, b]) for a, b in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if a >= 0 and b >= 0]
            k = min(o)
            c[i, j], l[i, j] = d[i, j] + k[0], k[1] + 1
    got = dtw.dtw(np.zeros((n, 1)), np.zeros((m, 1)), lambda x, y: d, True)
    assert abs(got - c[-1, -1] / l[-1, -1]) < 1e-9
''')

add('s10-cosine-null', 'C11', [
    ('ABXpy/distances/metrics/cosine.py', '    for i in np.where(ix)[0]:\n        d[i, iy] = 0.\n', '    if np.count_nonzero(ix) == np.count_nonzero(iy):\n        d[ix, iy] = 0.\n    else:\n        for i in np.where(ix)[0]:\n            d[i, iy] = 0.\n')],
    'several null frames in both items, as many in one as in the other',
    'the distance between two null frames is 1 for some of them', '''
from ABXpy.distances.metrics.cosine import cosine_distance
x = np.array([[0., 0.], [1., 2.], [0., 0.]])
y = np.array([[0., 0.], [0., 0.], [3., 1.]])
d = cosine_distance(x, y)
for i in (0, 2):
    for j in (0, 1):
        assert d[i, j] == 0, (i, j, d[i, j])
    assert d[i, 2] == 1
assert d[1, 0] == d[1, 1] == 1
''')

add('s11-mean-int8', 'C13', [
    ('ABXpy/analyze.py', 'means[a] = np.mean(scores[i:i+c])', 'means[a] = np.sum(scores[i:i+c], dtype=scores.dtype) / float(c)')],
    'more than 127 triplets with the same regressors',
    'the sum of the scores wraps around', '''
from ABXpy.analyze import unique
idx = np.array([0] * 300 + [1] * 5)
sc = np.array([[1]] * 250 + [[-1]] * 50 + [[1]] * 2 + [[0]] * 3, dtype=np.int8)
m, u, n = unique(idx, sc)
assert list(u) == [0, 1] and list(n) == [300, 5]
assert abs(m[0] - 250 / 300.) < 1e-12, m
assert abs(m[1] - (2 / 5. + 1) / 2) < 1e-12, m
''')

add('s12-int32-chunk', 'C14', [
    ('ABXpy/sampling/sampler.py', '        sample = sample_without_replacement(k, n, self.type)\n', '        # positions in a chunk are small\n        sample = sample_without_replacement(\n            k, n, np.int32 if n < 2 ** 31 else self.type)\n')],
    'absolute indexing and a chunk that contains the position 2**31',
    'the positions of the chunk wrap around to negative values', '''
from ABXpy.sampling.sampler import IncrementalSampler
np.random.seed(0)
N, K = 2 ** 31 + 2 ** 29, 2000
s = IncrementalSampler(N, K, step=2 ** 30 - 7, relative_indexing=False)
r = np.concatenate([x for x in s])
assert len(r) == K and len(np.unique(r)) == K and r.min() >= 0 and r.max() < N, (r.min(), r.max())
''')

add('s13-read-alias', 'C15', [
    ('ABXpy/h5tools/h52np.py', 'data.append(np.copy(self.buf[self.buf_ix:next_buf_ix, :]))', 'data.append(self.buf[self.buf_ix:next_buf_ix, :])')],
    'a dataset larger than the read buffer',
    'rows returned by read are overwritten when the buffer is refilled', '''
from ABXpy.h5tools.h52np import H52NP
p = os.path.join(tmp, 'a.h5')
x = np.arange(3000).reshape(-1, 3)
with h5py.File(p, 'w') as f:
    f.create_dataset('g/d', data=x)
with H52NP(p) as h:
    b = h.add_dataset('g', 'd', buf_size=5)
    out = []
    while not b.isempty():
        out.append(b.read(100))
assert np.array_equal(np.concatenate(out), x)
''')

add('s14-merge-bisect', 'C16', [
    ('ABXpy/h5tools/h5_handler.py', '''                                for d in range(1, len(self.datasets)):
                                    data = []
                                    # for all chunks: read up to the
                                    # appropriate index, concatenate, sort and
                                    # output
                                    for c in range(n_chunks):
                                        if amounts[c] > 0:
                                            data.append(
                                                i_buf[d][c].read(amounts[c]))
                                    data = np.concatenate(data)
''', '''                                for d in range(1, len(self.datasets)):
                                    data = []
                                    # for all chunks: read up to the
                                    # appropriate index, concatenate, sort and
                                    # output
                                    for c in np.argsort(amounts)[::-1]:
                                        if amounts[c] > 0:
                                            data.append(
                                                i_buf[d][c].read(amounts[c]))
                                    data = np.concatenate(data)
''')],
    'several chunks and a second dataset sorted along with the keys, with amounts of rows that are not decreasing',
    'rows of the other datasets are associated with the key of another row', '''
from ABXpy.h5tools.h5_handler import H5Handler
p = os.path.join(tmp, 'a.h5')
k = np.random.RandomState(0).permutation(1000).reshape(-1, 1)
with h5py.File(p, 'w') as f:
    f.create_dataset('k/k', data=k)
    f.create_dataset('d/d', data=np.hstack([k * 2, k * 3]))
H5Handler(p, 'k', 'k', ['d'], ['d']).sort(buffer_size=6, o_buffer_size=6, tmpdir=tmp)
with h5py.File(p, 'r') as f:
    a, b = f['k/k'][:, 0], f['d/d'][...]
assert list(a) == list(range(1000))
assert np.array_equal(b[:, 0], a * 2) and np.array_equal(b[:, 1], a * 3)
''')

add('s15-pair-key-type', 'C17', [
    (T, '''                pair_key_type = fit_integer_type(
                    (max_ind + 1) ** 2 - 1, is_signed=False)''', '''                pair_key_type = fit_integer_type(
                    max_ind ** 2 - 1, is_signed=False)''')],
    'a BY block of exactly 17 (or 257) items',
    'the keys of the pairs wrap around in the task file', '''
from ABXpy.task import Task
rows = [('p', 'u'), ('q', 'u'), ('p', 'v'), ('q', 'v')] * 4 + [('p', 'u')]
it = items(rows, ['on', 'ac'])
t = os.path.join(tmp, 'a.abx')
Task(it, 'on', 'ac').generate_triplets(t)
with h5py.File(t, 'r') as f:
    tr = f['triplets/data'][...].astype(int)
    p = f['unique_pairs/data'][:, 0].tolist()
    base = int(f['unique_pairs'].attrs['0'][0])
exp = sorted({int(a + base * x) for a, b, x in tr} | {int(b + base * x) for a, b, x in tr})
assert p == exp
''')

add('s16-verify-header', 'C18', [
    ('ABXpy/verify.py', "        assert cols[3][0] == '#', 'The fourth column must start with #'\n", "        assert any(c[0] == '#' for c in cols[3:]), (\n            'The fourth column must start with #')\n")],
    'a header whose fourth column is not a label, with a label column after it',
    'an item file with a wrong header is accepted', '''
import h5features
from ABXpy.verify import check
ff = os.path.join(tmp, 'f.h5f')
h5features.write(ff, 'features', ['spk', 'b'], [np.array([.5])] * 2, [np.zeros((1, 2))] * 2)
p = os.path.join(tmp, 'x.item')
def ok(header):
    with open(p, 'w') as f:
        f.write(header + '\\nspk 0 1 a u\\nb 0 1 b u\\n')
    try:
        check(p, ff)
    except AssertionError:
        return False
    return True
assert ok('#file onset offset #on by')
assert not ok('#file onset offset on by')
assert not ok('#file onset offset on #by')
assert not ok('#file offset onset #on #by')
''')

add('s17-utw-half', 'C19', [
    ('ABXpy/distances/metrics/utw.py', '        dis = dis + np.sum(div(x[i_whole, :], y[j_whole, :]))', '        dis = np.sum(div(x[i_whole, :], y[j_whole, :]))')],
    'two items whose numbers of frames give frames on a boundary as well as inside',
    'the half-weighted pairs are lost', '''
from ABXpy.distances.metrics.utw import utw
m = lambda x, y: np.sum(np.abs(x - y), axis=1)
x = np.array([[0, 0], [0, -1], [0, 0], [4, 0], [0, 1], [-4, 5], [5, 0]])
y = np.array([[0, 1], [0, 1], [0, -2], [1, 1]])
assert utw(x, y, m) == 26.5, utw(x, y, m)
assert utw(y, x, m) == 26.5
''')

add('s18-default-output', 'C20', [
    (T, '''            output = os.path.splitext(self.database)[0] + '.abx'
        if os.path.exists(output):
            raise ValueError(
                'The output file already exists: {}'.format(output))
''', '''            output = os.path.splitext(self.database)[0] + '.abx'
        elif os.path.exists(output):
            raise ValueError(
                'The output file already exists: {}'.format(output))
''')],
    'no output file given, and an HDF5 file of the default name that already exists',
    'the triplets are added to a file that already exists', '''
from ABXpy.task import Task
rows = [(o, a) for o in 'pq' for a in 'uv']
it = items(rows, ['on', 'ac'])
o = os.path.join(tmp, 'data.abx')
with h5py.File(o, 'w') as f:
    f['mine'] = np.arange(3)
before = open(o, 'rb').read()
try:
    Task(it, 'on', 'ac').generate_triplets()
except Exception:
    assert open(o, 'rb').read() == before, 'refused but altered'
else:
    raise SystemExit('an existing file was accepted')
''')

add('s19-last-batch', 'C21', [
    ('ABXpy/misc/any2h5features.py', '    if features:\n', '    if i < batch_size and features:\n')],
    'a number of files that is a multiple of the size of the batches',
    'the last batch is never written', '''
import h5features
from ABXpy.misc.any2h5features import any_to_h5features
names = []
for i in range(6):
    np.savez(os.path.join(tmp, 'a%d.npz' % i), time=np.array([.1 * i, 1.]), features=np.full((2, 3), float(i)))
    names.append('a%d.npz' % i)
for b in (2, 3, 4, 6, 500):
    o = os.path.join(tmp, 'o%d.h5f' % b)
    any_to_h5features(tmp, names, o, '/features/', batch_size=b)
    t, f = h5features.read(o, '/features/')[:2]
    assert sorted(f) == ['a%d' % i for i in range(6)], (b, sorted(f))
    for i in range(6):
        assert (f['a%d' % i] == i).all()
''')

add('s20-filtered-index', 'C05', [
    (T, '                by_frame = self.filters.generic_filter(by_values, by_frame)\n', '                by_frame = self.filters.generic_filter(\n                    by_values, by_frame).reset_index(drop=True)\n')],
    'a filter on the items that removes an item before another one',
    'the indices of the triplets designate other items in the table of locations', '''
import pandas
from ABXpy.task import Task
rows = [('p', 'u', 0), ('p', 'u', 1), ('q', 'u', 1), ('p', 'v', 1), ('q', 'v', 0), ('q', 'v', 1)]
it = items(rows, ['on', 'ac', 'k'])
t = os.path.join(tmp, 'a.abx')
Task(it, 'on', 'ac', filters=['[x == 1 for x in k]']).generate_triplets(t)
with h5py.File(t, 'r') as f:
    tr = f['triplets/data'][...].astype(int)
st = pandas.HDFStore(t, 'r')
loc = st['feat_dbs/0']
st.close()
for a, b, x in tr:
    ra, rb, rx = [rows[int(loc['file'].iloc[i][1:])] for i in (a, b, x)]
    assert ra[0] == rx[0] != rb[0] and ra[1] == rb[1] != rx[1] and ra[2] == rb[2] == rx[2] == 1, (a, b, x)
''')

add('s21-stats-items', 'C06', [
    (T, "stats['nb_items'] = len(self.by_dbs[by])", "stats['nb_items'] = len(self.feat_dbs[by])")],
    'no ACROSS and a filter on the items',
    'the announced number of triplets counts items that were filtered out', '''
from ABXpy.task import Task
rows = [('p', 0), ('q', 1), ('q', 1), ('p', 1), ('p', 1), ('q', 0)]
it = items(rows, ['on', 'k'])
t = os.path.join(tmp, 'a.abx')
task = Task(it, 'on', filters=['[x == 1 for x in k]'])
n = task.stats['nb_triplets']
task.generate_triplets(t)
with h5py.File(t, 'r') as f:
    m = f['triplets/data'].shape[0]
assert n == m, (n, m)
''')

add('s22-symmetric-pairs', 'C08', [
    ('ABXpy/distances/distances.py', "        for i in range(n_pairs):\n            dataA = features[pairs[i, 0]]\n            dataB = features[pairs[i, 1]]\n",
     "        known = {}\n        for i in range(n_pairs):\n            dataA = features[pairs[i, 0]]\n            dataB = features[pairs[i, 1]]\n            if (pairs[i, 1], pairs[i, 0]) in known:\n                # the distance of these items has already been computed\n                dis[i, 0] = dis[known[(pairs[i, 1], pairs[i, 0])], 0]\n                continue\n            known[(pairs[i, 0], pairs[i, 1])] = i\n")],
    'a distance that is not symmetric, and the pairs (A, B) and (B, A) in the same block',
    'one of the two pairs has the distance of the other one', '''
import h5features, pandas
from ABXpy.task import Task
from ABXpy.distances import distances
it = items([(o, a) for o in 'pq' for a in 'uvu'], ['on', 'ac'])
ff = os.path.join(tmp, 'f.h5f')
h5features.write(ff, 'features', ['f%d' % i for i in range(6)], [np.array([.5])] * 6, [np.array([[1. + i]]) for i in range(6)])
tk = os.path.join(tmp, 't.abx')
Task(it, 'on', verbose=0).generate_triplets(output=tk)
d = os.path.join(tmp, 'd')
distances.compute_distances(ff, 'features', tk, d, lambda x, y, normalized=None: x[0, 0] + 100 * y[0, 0], None, n_cpu=1)
with h5py.File(tk) as f, h5py.File(d) as g:
    by = f['bys'][0]
    base = f['unique_pairs'].attrs[by][0]
    c = f['unique_pairs/data'][:, 0]
    got = g['distances/data'][:, 0]
assert len(c) > 4
for k, v in zip(c, got):
    assert v == (1 + k % base) + 100 * (1 + k // base), (k, v)
''')

add('s23-stale-write', 'C23', [
    ('ABXpy/distances/distances.py', "            base = attrs[0]\n        if synchronize:\n", "            base = attrs[0]\n        with h5py.File(distance_file, 'r') as fh:\n            data = fh['distances/data'][...]\n        if synchronize:\n"),
    ('ABXpy/distances/distances.py', "            fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis\n", "            data[attrs[1]+start:attrs[1]+stop, :] = dis\n            fh['distances/data'][...] = data\n")],
    'a worker that writes its distances while another one is computing its own',
    'the distances of the first one are overwritten with the content of the file at an earlier time', '''
import h5features, threading
from ABXpy.task import Task
from ABXpy.distances import distances
it = items([(o, a) for o in 'pq' for a in 'uvu'], ['on', 'ac'])
ff = os.path.join(tmp, 'f.h5f')
h5features.write(ff, 'features', ['f%d' % i for i in range(6)], [np.array([.5])] * 6, [np.array([[1. + i]]) for i in range(6)])
tk = os.path.join(tmp, 't.abx')
Task(it, 'on', verbose=0).generate_triplets(output=tk)
d = os.path.join(tmp, 'd')
jobs = distances.create_distance_jobs(tk, d, 2)
lock = threading.Lock()
done = []
def other(x, y):
    return x[0, 0] + 100 * y[0, 0]
def dist(x, y):
    # the second worker runs while the first one computes its first distance
    if not done:
        done.append(1)
        distances.run_distance_job(jobs[1], d, other, [ff], ['features'], False, 1, None, lock)
    return other(x, y)
distances.run_distance_job(jobs[0], d, dist, [ff], ['features'], False, 0, None, lock)
with h5py.File(tk, 'r') as f, h5py.File(d, 'r') as g:
    by = f['bys'][0]
    base = f['unique_pairs'].attrs[by][0]
    c = f['unique_pairs/data'][:, 0]
    got = g['distances/data'][:, 0]
for k, v in zip(c, got):
    assert v == (1 + k % base) + 100 * (1 + k // base), (k, v)
''')

add('s24-contiguous-frames', 'C09', [
    ('ABXpy/distances/distances.py', "            features[ix] = self.features[f][t, :]\n", "            features[ix] = self.features[f][t[0]:t[-1] + 1, :] \\\n                if len(t) else self.features[f][t, :]\n")],
    'frames that are not stored in the order of their times',
    'frames outside the interval of the item are given', '''
import pandas
from ABXpy.distances.distances import Features_Accessor
times = np.array([.0, .1, .2, .9, .3, .4])
acc = Features_Accessor({'a': times}, {'a': np.arange(12.).reshape(6, 2)})
df = pandas.DataFrame({'file': ['a', 'a'], 'onset': [.1, .35], 'offset': [.35, 1.]}, index=[4, 7])
got = acc.get_features_from_raw(df)
assert np.array_equal(got[4][:, 0], [2, 4, 8]), got[4]
assert np.array_equal(got[7][:, 0], [6, 10]), got[7]
''')

add('s25-across-filter', 'C02', [
    ('ABXpy/sideop/side_operations_manager.py', "and not(s in ['A', 'B'] and r in self.across_cols))", "and not(s in ['_A', '_B', '_X'] and r in self.across_cols))")],
    'a filter on the ACROSS column of X',
    'the filter is applied to the ACROSS value of A and B instead of that of X', '''
from ABXpy.task import Task
rows = [(o, a) for o in 'pq' for a in 'uvw']
it = items(rows, ['on', 'ac'])
out = os.path.join(tmp, 't.abx')
Task(it, 'on', 'ac', filters=["[e != 'v' for e in ac_X]"], verbose=0).generate_triplets(output=out)
with h5py.File(out, 'r') as f:
    got = sorted(map(tuple, f['triplets/data'][...]))
want = sorted((a, b, x) for a, b, x in itertools.permutations(range(6), 3) if rows[a][0] == rows[x][0] != rows[b][0]
              and rows[a][1] == rows[b][1] != rows[x][1] and rows[x][1] != 'v')
assert [tuple(map(int, t)) for t in got] == want, (got, want)
''')

add('s26-float-index', 'C13', [
    ('ABXpy/analyze.py', "        ([True], index[1:] != index[:-1], [True]))", "        ([True], np.diff(index.astype(float)) > 0, [True]))")],
    'more than 2**53 possible combinations of regressors, and two that differ by their last regressor',
    'different combinations are averaged together', '''
from ABXpy import analyze
n = 2 ** 53
index = np.array([3, n, n, n + 1, n + 2], dtype=np.uint64)
means, found, counts = analyze.unique(index, np.array([1, 1, -1, 0, -1]))
assert [int(k) for k in found] == [3, n, n + 1, n + 2], found
assert list(counts) == [1, 2, 1, 1] and list(means) == [1, .5, .5, 0], (counts, means)
''')

add('s27-counts-by-block', 'C06', [
    (T, "                        nb_triplets = self.on_across_triplets(\n                            by, on, across, block, on_across_by_values,\n                            with_regressors=False).shape[0]\n",
        "                        if (block_key, count) not in counts:\n                            counts[block_key, count] = self.on_across_triplets(\n                                by, on, across, block, on_across_by_values,\n                                with_regressors=False).shape[0]\n                        nb_triplets = counts[block_key, count]\n"),
    (T, "        for by, db in iteritems(self.by_dbs):\n            stats = self.by_stats[by]\n            stats['block_sizes'] = {}\n", "        counts = {}\n        for by, db in iteritems(self.by_dbs):\n            stats = self.by_stats[by]\n            stats['block_sizes'] = {}\n")],
    'several ACROSS columns (or a filter), and two BY levels with a block of the same ON and ACROSS values and the same size',
    'the second BY level has the number of triplets of the first one', '''
from ABXpy.task import Task
rows = [('p', 'u', 'k', 0), ('p', 'v', 'l', 0), ('q', 'u', 'k', 0), ('q', 'v', 'l', 0)] * 2
rows += [('p', 'u', 'k', 1)] * 2 + [('p', 'v', 'l', 1)] * 5 + [('q', 'u', 'k', 1)] * 2
it = items(rows, ['on', 'a1', 'a2', 'by'])
out = os.path.join(tmp, 't.abx')
t = Task(it, 'on', ['a1', 'a2'], 'by', verbose=0)
t.generate_triplets(output=out)
with h5py.File(out, 'r') as f:
    n = f['triplets/data'].shape[0]
assert t.stats['nb_triplets'] == n, (t.stats['nb_triplets'], n)
''')

add('s28-dots-in-names', 'C21', [
    ('ABXpy/misc/any2h5features.py', "os.path.splitext(f)[0]", "f.split('.')[0]")],
    'two files whose names share what comes before their first dot',
    'the files do not have their own name in the h5features file', '''
import h5features
from ABXpy.misc import any2h5features
d = os.path.join(tmp, 'npz')
os.mkdir(d)
names = ['s01.%d' % i for i in range(3)] + ['plain']
for i, n in enumerate(names):
    np.savez(os.path.join(d, n + '.npz'), features=np.full((2, 3), 1. + i), time=np.array([.1, .2]))
h5 = os.path.join(tmp, 'f.h5f')
any2h5features.convert(d, h5)
times, feats = h5features.read(h5, '/features/')
assert sorted(feats) == sorted(names), sorted(feats)
for i, n in enumerate(names):
    assert np.array_equal(feats[n], np.full((2, 3), 1. + i))
''')

add('s29-scalar-type', 'C07', [
    (T, "                    np.array(reg), (np.size(triplets, 0), 1))", "                    np.array(reg, dtype=np.uint8), (np.size(triplets, 0), 1))")],
    'a column with more than 256 levels',
    'the ON or ACROSS value of a triplet is decoded to the label of another level', '''
from ABXpy.task import Task
rows = [('o%03d' % (i // 2),) for i in range(560)]
it = items(rows, ['on'])
t = os.path.join(tmp, 'a.abx')
Task(it, 'on').generate_triplets(t)
with h5py.File(t, 'r') as f:
    g = f['regressors/0']
    names = [x if isinstance(x, str) else x.decode() for x in g['indexed_datasets'][...]]
    data = g['indexed_data'][...].astype(int)
    index = {n: [x if isinstance(x, str) else x.decode() for x in g['indexes'][n][...]] for n in names}
    tr = f['triplets/data'][...].astype(int)
k = names.index('on_1')
level = {l: i for i, l in enumerate(index['on_1'])}
want = np.array([level[r[0]] for r in rows])
assert len(tr) and np.array_equal(data[:, k], want[tr[:, 0]])
''')


add('s30-levels-of-x', 'C06', [
    (T, "                        X = set(X) & set(self.antiacross_blocks[by][across])\n                    X = np.array(", "                        X = self.antiacross_blocks[by][across]\n                    X = np.array(")],
    'several ACROSS columns, and items of another ON value that differ from A on every ACROSS column',
    'the number of levels counts levels of X that have another ON value than A', '''
from ABXpy.task import Task
rows = [(o, a, b) for o in 'pqr' for a in 'uv' for b in 'kl']
del rows[5], rows[0]
it = items(rows, ['on', 'a1', 'a2'])
t = Task(it, 'on', ['a1', 'a2'], verbose=0)
t.compute_nb_levels()
n = 0
for A in set(rows):
    B = set(r for r in rows if r[0] != A[0] and r[1:] == A[1:])
    X = set(r for r in rows if r[0] == A[0] and r[1] != A[1] and r[2] != A[2])
    n += len(B) * len(X)
assert n and t.stats['nb_levels'] == n, (t.stats['nb_levels'], n)
''')


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(SPEC):
        seed.new(i, *SPEC[i])
        print(i)
