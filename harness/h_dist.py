"""C08 (distances of the pairs, jobs) and C09 (frames of an item)."""
import os, warnings, zlib, random
import numpy as np
from hx import require, fail, need, Skip
import h_task

RULE_C08 = ('real tasks and h5features files with 1 to 8 cpus, 0 or more flags, an asymmetric distance that identifies '
            'the frames of both items and their order; synthetic pair files (up to 10**8 pairs, never materialized) for the '
            'split in jobs; non-trivial: at least two pairs')
BOUNDS_C08 = 'tasks of at most 40 items; jobs on at most 40 blocks and 64 cpus'
RULE_C09 = ('tasks on feature files whose frame times are multiples of 1/64, 1/100 or 1/1000, items whose bounds fall on, between, before and '
            'after frame times, empty and reversed intervals, items sharing files, one to three feature files, irregular '
            'frame times (unsorted and repeated ones through the accessor); the distance identifies every frame value; non-trivial: an item has a frame exactly on a bound or no frame')
BOUNDS_C09 = 'at most 30 items, files of at most 60 frames'


def ident(a, b, normalized=None):
    """asymmetric, identifies every value of both arrays"""
    a, b = np.asarray(a), np.asarray(b)
    h = zlib.crc32(np.ascontiguousarray(a, dtype=np.float64).tobytes() + repr(a.shape).encode())
    h2 = zlib.crc32(np.ascontiguousarray(b, dtype=np.float64).tobytes() + repr(b.shape).encode(), h)
    flag = {None: 0, True: 1, False: 2}[normalized if normalized is None else bool(normalized)]
    return float(h2 * 4 + flag)


class Boom(Exception):
    pass


def failing(a, b, normalized=None):
    v = ident(a, b, normalized)
    if int(v) % 7 == 0:
        raise Boom('refused')
    return v


def write_feats(spec, tmp):
    """spec: list of {file: [times, seed]} (one dict per feature file) -> paths, {file: (times, feats)}"""
    import h5features
    paths, content = [], {}
    for n, files in enumerate(spec):
        p = os.path.join(tmp, 'f%d.features' % n)
        names, ts, fs = [], [], []
        for f in sorted(files):
            times, seed, dim = files[f]
            t = np.array(times, dtype=np.float64)
            r = np.random.RandomState(seed)
            x = r.rand(len(t), dim)
            names.append(f); ts.append(t); fs.append(x)
            if f not in content:
                content[f] = (t, x)
        h5features.write(p, 'features', names, ts, fs)
        paths.append(p)
    return paths, content


def frames(content, loc):
    f, on, off = loc
    t, x = content[str(f)]
    on, off = float(on), float(off)
    return x[[i for i in range(len(t)) if on <= t[i] <= off], :]


def feats_case(rng, c, nfiles=1, dim=None):
    """give every row of the item table an identifying location (multiples of 1/64, 1/100 or 1/1000)"""
    rows = c['rows']
    names = ['s%d' % i for i in range(rng.choice([1, 2, 3, max(1, len(rows) // 2)]))]
    dim = dim or rng.choice([1, 2, 5])
    spec = [dict() for _ in range(nfiles)]
    grid = rng.choice([64., 100., 1000.])
    times = {}
    for i, f in enumerate(names):
        n = rng.choice([1, 2, 5, 20, 60])
        style = rng.choice(['regular', 'irregular', 'offset', 'dense'])
        step = rng.choice([1, 2, 4, 16])
        if style == 'regular':
            t = [k * step for k in range(n)]
        elif style == 'offset':
            t = [k * step + 33 for k in range(n)]
        elif style == 'dense':
            t = sorted({rng.randrange(0, 30) for _ in range(n)})
        else:
            t = sorted(rng.sample(range(0, 400), n))
        times[f] = t
        spec[rng.randrange(nfiles)][f] = [[e / grid for e in t], rng.randrange(10 ** 6), dim]
    for i in range(nfiles):
        if not spec[i]:
            spec[i]['z%d' % i] = [[0., 1.], 3, dim]
    for r in rows:
        f = rng.choice(names)
        t = times[f]
        lo, hi = t[0], t[-1]
        k = rng.random()
        if k < .6:
            a, b = sorted([rng.choice(t), rng.choice(t)])
            a += rng.choice([0, 0, .5, -.5])
            b += rng.choice([0, 0, .5, -.5])
        elif k < .7:
            a = b = rng.choice(t) + rng.choice([0, 0, .5])
        elif k < .8:
            a, b = hi + 1, hi + 10
        elif k < .9:
            a, b = lo - 10, hi + 10
        else:
            a, b = rng.choice(t), rng.choice(t)
        r[0], r[1], r[2] = f, a / grid, b / grid
    c['feats'] = spec
    return c


def compute(case, tmp, path, paths, n_cpu, out, normalized=None, distance=ident, as_list=None):
    cd = need('ABXpy.distances.distances', 'compute_distances')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if as_list or len(paths) > 1:
            cd(paths, ['features'] * len(paths), path, out, distance, normalized, n_cpu=n_cpu, feature_file_as_list=True)
        else:
            cd(paths[0], 'features', path, out, distance, normalized, n_cpu=n_cpu)


def expected(case, r, path, content, normalized=None):
    """the definition, from the item table itself (not from the task's own location table)"""
    m = h_task.Model(case)
    rows = block_rows(m)
    out = np.empty((r['pairs'].shape[0],))
    out[:] = np.nan
    for b in r['bys']:
        base, s, e = r['pattrs'][b]
        for k in range(s, e):
            code = int(r['pairs'][k, 0])
            i, j = code % base, code // base
            out[k] = ident(frames(content, m.loc[rows[b][i]]), frames(content, m.loc[rows[b][j]]), normalized)
    return out


def block_rows(m):
    """block key -> row number of each of its indices"""
    return {k: [m.rows[i] for i in v] for k, v in m.blocks.items()}


def cases_C08(rng, tier):
    q = tier == 'quick'
    out = []
    for _ in range(45 if q else 500):
        c = h_task.base_case(rng, n=rng.choice([6, 10, 16, 24, 40]), levels=[2, 2, rng.choice([1, 2, 3]), 2])
        if rng.random() < .5:
            h_task.enrich(rng, c, threshold=.3)
        c = feats_case(rng, c, nfiles=1)
        out.append(dict(kind='run', task=c, n_cpu=rng.choice([1, 1, 2, 3, 4, 8]), normalized=rng.choice([None, None, 0, 1])))
    for n_cpu in (1, 2, 5):
        c = h_task.base_case(rng, n=30, nacross=1, nby=1, levels=[2, 2, 8, 2])
        c['on'], c['across'], c['by'] = 'c0', ['c1'], ['c2']
        out.append(dict(kind='run', task=feats_case(rng, c), n_cpu=n_cpu, normalized=None))
    for n_cpu in (1, 2):
        c = h_task.base_case(rng, n=16, nacross=1, nby=0, levels=[2, 2, 2, 2])
        out.append(dict(kind='boom', task=feats_case(rng, c), n_cpu=n_cpu))
    for _ in range(60 if q else 600):
        nb = rng.choice([1, 1, 2, 5, 40])
        mx = rng.choice([1, 3, 50, 10 ** 4, 2 * 10 ** 7, 6 * 10 ** 7])
        out.append(dict(kind='jobs', pairs=[rng.randrange(1, mx + 1) for _ in range(nb)], n_cpu=rng.choice([1, 2, 3, 4, 7, 8, 64]),
                        gap=rng.choice([0, 0, 3])))
    for p, n in [([12500000], 1), ([12500001], 1), ([25000000], 2), ([25000001, 3], 2), ([10 ** 8], 3), ([1], 8), ([1, 1, 1], 2), ([7], 7), ([8], 7), ([100, 100], 3)]:
        out.append(dict(kind='jobs', pairs=p, n_cpu=n, gap=0))
    return out


def check_C08(case, tmp):
    import h5py
    if case['kind'] == 'jobs':
        f = need('ABXpy.distances.distances', 'create_distance_jobs')
        p = os.path.join(tmp, 'p.abx')
        d = os.path.join(tmp, 'd.distance')
        pos = case['gap']
        att = {}
        for i, n in enumerate(case['pairs']):
            att['b%d' % i] = [5, pos, pos + n]
            pos += n
        with h5py.File(p, 'w') as fh:
            fh.create_dataset('bys', data=np.array(sorted(att, key=lambda b: int(b[1:])), dtype=object), dtype=h5py.special_dtype(vlen=str))
            g = fh.create_group('unique_pairs')
            g.create_dataset('data', shape=(pos, 1), dtype=np.int64, chunks=(min(10000, pos), 1))
            for b in att:
                g.attrs[b] = att[b]
        try:
            jobs = f(p, d, case['n_cpu'])
        except TypeError as e:
            if 'argument' in str(e):
                raise Skip('create_distance_jobs takes other arguments')
            raise
        cover = {b: [] for b in att}
        for job in jobs:
            if not (isinstance(job, dict) and {'by', 'start', 'stop'} <= set(job)):
                raise Skip('jobs are described otherwise')
            require(len(job['by']) == len(job['start']) == len(job['stop']), 'a job with lists of different lengths')
            for b, s, e in zip(job['by'], job['start'], job['stop']):
                b = b if isinstance(b, str) else b.decode()
                require(int(s) == s and int(e) == e, 'a job has bounds %r' % ((s, e),))
                require(np.asarray(s).dtype.kind in 'iu' and np.asarray(e).dtype.kind in 'iu', 'bounds of a job are not integers: %r' % ((s, e),))
                cover[b].append((int(s), int(e)))
        for b in att:
            n = att[b][2] - att[b][1]
            pos = 0
            for s, e in sorted(cover[b]):
                require(s == pos and e > s, 'block %s of %d pairs: jobs cover %s' % (b, n, sorted(cover[b])[:6]))
                pos = e
            require(pos == n, 'block %s of %d pairs: jobs end at %d' % (b, n, pos))
        require(len(jobs) <= case['n_cpu'], '%d jobs for %d cpus' % (len(jobs), case['n_cpu']))
        with h5py.File(d, 'r') as fh:
            require(not fh.attrs.get('done', False), 'the file is marked as done before any distance is computed')
        return dict(nontrivial=sum(case['pairs']) > 1)
    c = case['task']
    task, path = h_task.generate(c, tmp)
    if path is None:
        return dict(nontrivial=False)
    r = h_task.read_task(path)
    paths, content = write_feats(c['feats'], tmp)
    out = os.path.join(tmp, 'o.distance')
    if case['kind'] == 'boom':
        exp = expected(c, r, path, content)
        boom = any(int(v) % 7 == 0 for v in exp)
        try:
            compute(c, tmp, path, paths, case['n_cpu'], out, distance=failing)
            raised = False
        except Exception:
            raised = True
        if boom:
            require(raised, 'an error of the distance function is swallowed')
            with h5py.File(out, 'r') as fh:
                require(not fh.attrs.get('done', False), 'the file is marked as done although a distance failed')
        return dict(nontrivial=boom)
    exp = expected(c, r, path, content, case['normalized'])
    compute(c, tmp, path, paths, case['n_cpu'], out, case['normalized'])
    check_file(out, exp, r, case['n_cpu'])
    return dict(nontrivial=len(exp) > 1, checks=len(exp))


def check_file(out, exp, r, n_cpu=1):
    import h5py
    with h5py.File(out, 'r') as fh:
        got = fh['distances/data'][...]
        require(bool(fh.attrs['done']), 'the file is not marked as done')
    require(got.shape == (len(exp), 1), '%s distances for %d pairs' % (got.shape, len(exp)))
    bad = np.where(got[:, 0] != exp)[0]
    require(len(bad) == 0, '%d of %d pairs have a wrong distance with n_cpu=%d, first at position %s (blocks %s)' % (
        len(bad), len(exp), n_cpu, bad[:3].tolist(), list(r['pattrs'].items())[:3]))


def cases_C09(rng, tier):
    q = tier == 'quick'
    out = []
    for _ in range(130 if q else 1500):
        c = h_task.base_case(rng, n=rng.choice([4, 6, 10, 20, 30]), levels=[2, 2, rng.choice([1, 2]), 2], nby=rng.choice([0, 0, 1]))
        if rng.random() < .4:
            h_task.enrich(rng, c, threshold=.3)
        out.append(dict(task=feats_case(rng, c, nfiles=rng.choice([1, 1, 2, 3])), dup=False))
    for _ in range(3):
        c = h_task.base_case(rng, n=10, nacross=1, nby=0, levels=[2, 2, 1, 1])
        c = feats_case(rng, c, nfiles=2)
        f = sorted(c['feats'][0])[0]
        c['feats'][1][f] = [[0., 1.], 77, c['feats'][0][f][2]]
        out.append(dict(task=c, dup=True))
    for _ in range(60 if q else 600):
        files = {}
        for f in range(rng.choice([1, 2, 4])):
            files['s%d' % f] = [rng.randrange(0, 12) for _ in range(rng.choice([0, 1, 3, 12]))]
            if rng.random() < .5:
                files['s%d' % f].sort()
        items = [['s%d' % rng.randrange(len(files)), rng.randrange(-1, 13), rng.randrange(-1, 13)] for _ in range(rng.choice([0, 1, 5, 9]))]
        ix = rng.sample(range(50), len(items))
        out.append(dict(acc=True, files=files, items=items, ix=ix, seed=rng.randrange(1000), grid=rng.choice([1, 1, 100, 3, 1000]), shift=rng.choice([0, 0, 1234, 10 ** 7]), eps=rng.random() < .2))
    return out


def check_acc(case):
    import pandas
    A = need('ABXpy.distances.distances', 'Features_Accessor')
    need('ABXpy.distances.distances', 'Features_Accessor.get_features_from_raw')
    rs = np.random.RandomState(case['seed'])
    def at(t):
        return (t + case['shift']) / float(case['grid'])
    case = dict(case, files={f: [at(e) for e in t] for f, t in case['files'].items()},
                items=[[f, at(a), at(b)] for f, a, b in case['items']])
    if case['eps']:          # frames and bounds apart by one unit in the last place
        case['files'] = {f: [float(np.nextafter(e, rs.choice([-1e9, e, 1e9]))) for e in t] for f, t in case['files'].items()}
    times = {f: np.array(t, dtype=np.float64) for f, t in case['files'].items()}
    feats = {f: rs.rand(len(t), 2) for f, t in case['files'].items()}
    items = pandas.DataFrame(case['items'], columns=['file', 'onset', 'offset'], index=case['ix'])
    if len(items) == 0:
        items = pandas.DataFrame({'file': [], 'onset': [], 'offset': []})
    copies = {f: feats[f].copy() for f in feats}
    got = A(dict(times), dict(feats)).get_features_from_raw(items)
    require(sorted(got) == sorted(items.index), 'features of items %s instead of %s' % (sorted(got), sorted(items.index)))
    for ix, (f, on, off) in zip(case['ix'], case['items']):
        exp = copies[f][[i for i, t in enumerate(case['files'][f]) if on <= t <= off], :]
        require(np.array_equal(got[ix], exp), 'item %s: %d frames instead of %d' % ((f, on, off), len(got[ix]), len(exp)))
    require(all(np.array_equal(feats[f], copies[f]) for f in feats), 'the features are modified')
    return dict(nontrivial=len(items) > 0, checks=len(items))


def check_C09(case, tmp):
    if case.get('acc'):
        return check_acc(case)
    c = case['task']
    task, path = h_task.generate(c, tmp)
    if path is None:
        return dict(nontrivial=False)
    r = h_task.read_task(path)
    paths, content = write_feats(c['feats'], tmp)
    out = os.path.join(tmp, 'o.distance')
    if case['dup']:
        try:
            compute(c, tmp, path, paths, 1, out)
        except Exception:
            return dict(nontrivial=True)
        fail('a file described by two feature files is accepted')
    exp = expected(c, r, path, content)
    compute(c, tmp, path, paths, 1, out, as_list=len(paths) > 1)
    check_file(out, exp, r)
    special = False
    for row in c['rows']:
        t, _ = content[row[0]]
        on, off = float(row[1]), float(row[2])
        special = special or on in t or off in t or not any(on <= x <= off for x in t)
    return dict(nontrivial=special, checks=len(exp))


RULE_C23 = ('real tasks, features and jobs for 2 to 6 cpus. Either the jobs are run by the real pool of processes, or each job is run in turn with a '
            'lock that runs the whole of another job whenever it is acquired (every such point of the job is tried), while the files opened by the job are '
            'recorded: a file that a job writes is opened under the lock only, and closed before it is released; non-trivial: at least two jobs with pairs')
BOUNDS_C23 = 'tasks of at most 40 items, 6 processes; one preemption by a complete job'


def cases_C23(rng, tier):
    q = tier == 'quick'
    out = []
    for k in range(24 if q else 250):
        c = h_task.base_case(rng, n=rng.choice([10, 16, 24, 40]), levels=[2, 2, rng.choice([1, 2, 5]), 2])
        c = feats_case(rng, c, nfiles=rng.choice([1, 2]))
        out.append(dict(kind='pool' if k % 6 == 0 else 'lock', task=c, n_cpu=rng.choice([2, 2, 3, 4, 6]), at=rng.randrange(4), n=rng.choice([None, 0, 1])))
    return out


class Adversary(object):
    """a lock; when it is acquired for the n-th time, another job runs first"""

    def __init__(self, at=None, other=None):
        self.at, self.other, self.count, self.held = at, other, 0, False
        self.handles, self.written, self.unlocked = [], set(), set()

    def acquire(self, *a, **k):
        require(not self.held, 'a worker waits for the lock that it holds')
        if self.other is not None and self.count == self.at:
            o, self.other = self.other, None
            o(self)
        self.count += 1
        self.held = True
        return True

    def release(self):
        require(self.held, 'a lock that is not held is released')
        require(all(not is_open(h) for h in self.handles), 'a file is still open when the lock is released')
        self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def opened(self, name, mode, h):
        if mode != 'r':
            self.written.add(name)
        if not self.held:
            self.unlocked.add(name)
        require(not (self.written & self.unlocked), 'files that workers write are opened without the lock: %s' % sorted(os.path.basename(x) for x in self.written & self.unlocked))
        self.handles.append(h)


def is_open(h):
    return h.is_open if hasattr(h, 'is_open') else bool(h)


class Proxy(object):
    def __init__(self, mod, **k):
        self.__dict__.update(k)
        self.mod = mod

    def __getattr__(self, n):
        return getattr(self.mod, n)


def check_C23(case, tmp):
    import ABXpy.distances.distances as D
    c = case['task']
    task, path = h_task.generate(c, tmp)
    if path is None:
        return dict(nontrivial=False)
    r = h_task.read_task(path)
    paths, content = write_feats(c['feats'], tmp)
    out = os.path.join(tmp, 'o.distance')
    exp = expected(c, r, path, content, case['n'])
    if case['kind'] == 'pool':
        compute(c, tmp, path, paths, case['n_cpu'], out, case['n'], as_list=True)
        check_file(out, exp, r, case['n_cpu'])
        return dict(nontrivial=len(exp) > 1)
    run = need('ABXpy.distances.distances', 'run_distance_job')
    jobs = need('ABXpy.distances.distances', 'create_distance_jobs')(path, out, case['n_cpu'])
    lock = Adversary()
    shared = {os.path.realpath(path), os.path.realpath(out)}
    saved = D.__dict__.get('h5py'), D.__dict__.get('pandas')

    def File(name, mode='r', *a, **k):
        h = saved[0].File(name, mode, *a, **k)
        if os.path.realpath(str(name)) in shared:
            lock.opened(os.path.realpath(str(name)), mode, h)
        return h

    def HDFStore(name, mode='a', *a, **k):
        h = saved[1].HDFStore(name, mode, *a, **k)
        if os.path.realpath(str(name)) in shared:
            lock.opened(os.path.realpath(str(name)), mode, h)
        return h

    def job(i):
        run(jobs[i], out, ident, paths, ['features'] * len(paths), False, i, case['n'], lock)
        require(not lock.held, 'a job ends with the lock')
    try:
        if saved[0] is not None:
            D.h5py = Proxy(saved[0], File=File)
        if saved[1] is not None:
            D.pandas = Proxy(saved[1], HDFStore=HDFStore)
        i = 0
        while i < len(jobs):
            if i + 1 < len(jobs):
                lock.at, lock.count, lock.other = case['at'], 0, (lambda l, i=i: job(i + 1))
                job(i)
                if lock.other is not None:
                    lock.other = None
                    job(i + 1)
            else:
                lock.other = None
                job(i)
            i += 2
    finally:
        if saved[0] is not None:
            D.h5py = saved[0]
        if saved[1] is not None:
            D.pandas = saved[1]
    import h5py
    with h5py.File(out, 'r') as fh:
        got = fh['distances/data'][...]
    bad = np.where(got[:, 0] != exp)[0]
    require(len(bad) == 0, '%d of %d pairs have a wrong distance after jobs that interleave' % (len(bad), len(exp)))
    return dict(nontrivial=sum(len(j['by']) > 0 for j in jobs) > 1, checks=len(exp))
