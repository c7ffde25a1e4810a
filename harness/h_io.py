"""C15: buffered reading and writing; C16: external sort."""
import os
import numpy as np
from hx import require, fail, need, Skip

RULE_C15 = ('random datasets, dtypes, columns, buffer sizes from one row up, intervals, refill policies, sequences of '
            'request or piece sizes (0 rows for writes, larger than the buffer), initial sizes; non-trivial: more '
            'than one buffer of data')
BOUNDS_C15 = 'at most 3000 rows'

DT = ['int8', 'uint8', 'int16', 'int32', 'int64', 'uint64', 'float64']


def cases_C15(rng, tier):
    out = []
    n = 500 if tier == 'quick' else 6000
    for _ in range(n):
        cols = rng.choice([1, 1, 2, 3, 5])
        dt = rng.choice(DT)
        size = np.dtype(dt).itemsize * cols
        rows_buf = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 33, 100])
        buf = (rows_buf + rng.choice([0, 0, .2, -.2])) * size / 1000.
        if rng.random() < .05:      # a buffer that cannot hold one row
            buf, rows_buf = .3 * size / 1000., 1
        rows = rng.choice([1, 2, 3, 5, rows_buf, rows_buf + 1, max(1, rows_buf - 1), 2 * rows_buf, 3 * rows_buf + 1, 50, 300])
        kind = rng.choice(['read', 'read', 'write', 'write', 'iter'])
        c = dict(kind=kind, cols=cols, dtype=dt, buf=buf, rows=rows, seed=rng.randrange(10 ** 6))
        if kind in ('read', 'iter'):
            c['portion'] = rng.choice([.25, .25, .01, .5, .9, 1.])
            a = rng.randrange(rows + 1)
            b = rng.randrange(rows + 1)
            c['interval'] = rng.choice([None, [min(a, b), max(a, b)], [0, rows], [a, rows], [0, b]])
            c['requests'] = [rng.choice([None, 1, 2, 3, rows_buf, rows_buf + 1, 2 * rows_buf + 3, 1000, max(1, rows // 3)]) for _ in range(6 + 2 * rows // 1)]
        else:
            pieces = []
            left = rows
            while left > 0:
                p = min(left, rng.choice([0, 1, 1, 2, 3, rows_buf, rows_buf - 1, rows_buf + 1, 2 * rows_buf, 3 * rows_buf + 2, left]))
                pieces.append(p)
                left -= p
                if len(pieces) > 400:
                    pieces.append(left)
                    left = 0
            if rng.random() < .2:
                pieces.append(0)
            c['pieces'] = pieces
            c['fixed'] = rng.random() < .4
            c['n_rows'] = rows if c['fixed'] else rng.choice([0, 0, 1, rows, max(0, rows - 1), rows // 2, 2 * rows_buf])
            c['short'] = c['fixed'] and rng.random() < .2
            c['handle'] = rng.random() < .2
            if not c['fixed']:
                c['n_rows'] = min(c['n_rows'], rows)
            c['overwrite'] = c['fixed'] and rng.random() < .3
        out.append(c)
    return out


def payload(rows, cols, dt, seed):
    rs = np.random.RandomState(seed)
    if dt == 'float64':
        return rs.randn(rows, cols)
    info = np.iinfo(dt)
    hi = min(int(info.max), 2 ** 62)
    a = (rs.randint(0, 2 ** 31 - 1, (rows, cols)).astype(object) * 7919 + np.arange(rows)[:, None]) % (hi + 1)
    return a.astype(dt)


def check_C15(case, tmp):
    import h5py
    data = payload(case['rows'], case['cols'], case['dtype'], case['seed'])
    path = os.path.join(tmp, 'f.h5')
    bs = case['buf']
    rows_buf = max(1, int(round(bs * 1000. / (data.dtype.itemsize * case['cols']))))
    if case['kind'] in ('read', 'iter'):
        H = need('ABXpy.h5tools.h52np', 'H52NP')
        with h5py.File(path, 'w') as f:
            f.create_dataset('g/d', data=data)
        with H(path) as r:
            if case['interval'] is None:
                b = r.add_dataset('g', 'd', buf_size=bs, minimum_occupied_portion=case['portion'])
                exp = data
            else:
                b = r.add_subdataset('g', 'd', buf_size=bs, minimum_occupied_portion=case['portion'], indexes=case['interval'])
                exp = data[case['interval'][0]:case['interval'][1]]
            got = []
            pos = 0
            if case['kind'] == 'iter':
                for a in b:
                    got.append(a)
                    require(a.shape[0] > 0, 'an empty piece is returned')
                    require(len(got) <= len(exp) + 5, 'the iteration does not stop')
                keep = [x.copy() for x in got]
            else:
                keep = []
                for q in case['requests']:
                    if b.isempty():
                        break
                    a = b.read(q) if q is not None else b.read()
                    if q is not None:
                        require(a.shape[0] == min(q, len(exp) - pos), 'read(%s) returns %d rows, %d are left' % (q, a.shape[0], len(exp) - pos))
                    else:
                        require(0 < a.shape[0] <= len(exp) - pos, 'read() returns %d rows, %d are left' % (a.shape[0], len(exp) - pos))
                    got.append(a)
                    keep.append(a.copy())
                    pos += a.shape[0]
                    require(b.isempty() == (pos == len(exp)), 'isempty() is %s with %d rows left' % (b.isempty(), len(exp) - pos))
                exp = exp[:pos] if pos < len(exp) and len(case['requests']) <= len(got) else exp
                if b.isempty():
                    try:
                        b.read(1)
                    except StopIteration:
                        pass
                    else:
                        fail('reading after the end does not stop')
            for a, k in zip(got, keep):
                require(np.array_equal(a, k), 'rows already returned are modified afterwards')
            g = np.concatenate(got) if got else np.empty((0, case['cols']), data.dtype)
            require(g.shape == exp.shape, '%d rows read, %d expected' % (g.shape[0], exp.shape[0]))
            require(np.array_equal(g, exp), 'rows are altered or out of order')
        return dict(nontrivial=len(exp) > rows_buf, checks=len(exp))
    W = need('ABXpy.h5tools.np2h5', 'NP2H5')
    pieces = list(case['pieces'])
    if case['short']:
        while pieces and pieces[-1] == 0:
            pieces.pop()
        last = pieces.pop()
        if last > 1:
            pieces.append(last - 1)
    if case.get('overwrite'):
        with h5py.File(path, 'w') as f:
            f.create_dataset('g/d', data=np.zeros_like(data))
    handle = h5py.File(path, 'a') if case['handle'] else None
    raised = False
    try:
        with W(handle if handle is not None else path) as w:
            out = w.add_dataset('g', 'd', n_rows=case['n_rows'], n_columns=case['cols'], buf_size=bs, chunk_size=bs,
                                item_type=data.dtype, fixed_size=case['fixed'], overwrite=case.get('overwrite', False))
            pos = 0
            for p in pieces:
                piece = data[pos:pos + p].copy()
                out.write(piece)
                piece[...] = 0            # the writer must not keep a reference
                pos += p
    except Warning:
        raised = True
    if handle is not None:
        handle.close()
    require(raised == bool(case['short']), 'incomplete fixed size dataset: %s' % ('reported although complete' if raised else 'not reported'))
    with h5py.File(path, 'r') as f:
        g = f['g/d'][...]
    if not case['fixed']:
        require(g.shape[0] == len(data), '%d rows stored, %d written' % (g.shape[0], len(data)))
    require(np.array_equal(g[:pos], data[:pos]), 'the rows stored are not the rows written')
    require(g.dtype == data.dtype, 'dtype changed')
    return dict(nontrivial=len(data) > rows_buf, checks=len(data))


RULE_C16 = ('random keys with duplicates (few or many distinct values), 0-2 other datasets, rows from 1 to 600, buffers '
            'from a few rows (many chunks and refills) to everything in one chunk; non-trivial: at least two chunks')
BOUNDS_C16 = 'at most 4000 rows'


def cases_C16(rng, tier):
    out = []
    for _ in range(200 if tier == 'quick' else 2500):
        rows = rng.choice([1, 2, 3, 5, 10, 25, 60, 61, 100, 257, 600])
        extra = [[rng.choice([1, 2, 3]), rng.choice(DT)] for _ in range(rng.choice([0, 1, 1, 2]))]
        kd = rng.choice(['int64', 'uint8', 'uint16', 'uint32', 'int32'])
        lw = np.dtype(kd).itemsize + sum(c * np.dtype(d).itemsize for c, d in extra)
        # the merge needs at least as many buffer rows as chunks
        lo = int(np.ceil(np.sqrt(rows))) + 1
        br = rng.choice([lo, lo, lo + 1, 2 * lo, max(lo, rows // 2), max(lo, rows - 1), rows, rows + 1, 2 * rows])
        br = max(br, lo)
        out.append(dict(rows=rows, extra=extra, kd=kd, buf=br * lw / 1000., obuf=rng.choice([1, 2, 3, 10, 1000]) * lw / 1000.,
                        distinct=rng.choice([1, 2, 5, 50, 10 ** 6]), order=rng.choice(['rand', 'rand', 'asc', 'desc', 'blocks']),
                        seed=rng.randrange(10 ** 6)))
    out.append(dict(rows=4000, extra=[[2, 'int32']], kd='int64', buf=1.2, obuf=1., distinct=700, order='rand', seed=5))
    return out


def check_C16(case, tmp):
    import h5py
    H = need('ABXpy.h5tools.h5_handler', 'H5Handler')
    rs = np.random.RandomState(case['seed'])
    n = case['rows']
    hi = min(case['distinct'], np.iinfo(case['kd']).max)
    key = rs.randint(0, hi, (n, 1)).astype(case['kd'])
    if case['order'] == 'asc':
        key = np.sort(key, 0)
    elif case['order'] == 'desc':
        key = np.sort(key, 0)[::-1].copy()
    elif case['order'] == 'blocks':
        key = np.sort(key, 0)
        key = np.concatenate([key[n // 2:], key[:n // 2]])
    others = []
    for i, (c, d) in enumerate(case['extra']):
        o = payload(n, c, d, case['seed'] + 1 + i)
        o[:, 0] = (np.arange(n) % 120).astype(d)
        others.append(o)
    path = os.path.join(tmp, 'f.h5')
    with h5py.File(path, 'w') as f:
        f.create_dataset('k/key', data=key)
        f.create_dataset('k/bystander', data=key)
        for i, o in enumerate(others):
            f.create_dataset('o/d%d' % i, data=o)
    scratch = os.path.join(tmp, 'scratch')
    os.makedirs(scratch)
    h = H(path, 'k', 'key', ['o'] * len(others), ['d%d' % i for i in range(len(others))])
    h.sort(buffer_size=case['buf'], o_buffer_size=case['obuf'], tmpdir=scratch)
    with h5py.File(path, 'r') as f:
        k2 = f['k/key'][...]
        o2 = [f['o/d%d' % i][...] for i in range(len(others))]
        by = f['k/bystander'][...]
        names = sorted(f['k'].keys()) + sorted(f['o'].keys() if others else [])
    require(np.array_equal(by, key), 'an unrelated dataset changed')
    require(names == ['bystander', 'key'] + ['d%d' % i for i in range(len(others))], 'datasets of the file: %s' % names)
    require(k2.shape == key.shape and k2.dtype == key.dtype, 'key: %s %s' % (k2.shape, k2.dtype))
    require(np.all(k2[1:, 0] >= k2[:-1, 0]), 'the key is not sorted')
    a = sorted(tuple([key[i, 0]] + [v for o in others for v in o[i].tolist()]) for i in range(n))
    b = sorted(tuple([k2[i, 0]] + [v for o in o2 for v in o[i].tolist()]) for i in range(n))
    require(a == b, 'rows are lost, duplicated or mixed up')
    require(not os.listdir(scratch), 'temporary files are left: %s' % os.listdir(scratch))
    lw = key.dtype.itemsize + sum(o.shape[1] * o.dtype.itemsize for o in others)
    return dict(nontrivial=n > round(case['buf'] * 1000. / lw), checks=n)
