"""C18 (consistency check), C20 (existing results), C21 (conversion)."""
import os, hashlib, warnings
import numpy as np
from hx import require, fail, need, Skip
import h_task, h_dist, h_score

RULE_C18 = ('item files with right and wrong headers, tabs and spaces, blank lines, items present in and absent from the feature file (also as '
            'a prefix, suffix or another case of a name), first and last lines, both layouts of feature files; non-trivial: at least two items')
BOUNDS_C18 = 'at most 12 items'
RULE_C20 = ('task, distance, score files and datasets existing beforehand with empty, foreign, partial or complete content; bytes or logical '
            'content compared before and after; non-trivial: the existing file is not empty')
BOUNDS_C20 = 'fixed list of kinds of existing content, 1 or 2 cpus'
RULE_C21 = ('0 to 12 npz files with every batch size from 1 to n+1, names with several dots and folders, custom loaders; '
            'non-trivial: more files than the batch')
BOUNDS_C21 = 'at most 12 files (thorough: 40)'


# ---------------------------------------------------------------- C18

HEAD = ['#file', 'onset', 'offset', '#phone', 'talker']


def cases_C18(rng, tier):
    out = []
    heads = [HEAD, HEAD[:4], HEAD[:4] + ['a', 'b'], ['file'] + HEAD[1:], ['#files'] + HEAD[1:], ['#file', 'offset', 'onset', '#phone'], ['#file', 'onset', '#phone', 'x'],
             ['#file', 'onset', 'offset'], ['#file', 'onset', 'offset', 'phone'], ['#file', 'onset', 'offset', 'phone', '#talker'], ['#file', 'onset', 'Offset', '#phone'],
             ['#file', 'start', 'offset', '#phone'], ['#FILE', 'onset', 'offset', '#phone'], []]
    n = 60 if tier == 'quick' else 800
    for h in heads:
        out.append(dict(head=h, items=['s1', 's2'], feats=['s1', 's2'], sep=' ', blank=None, layout='items'))
    # names close to one of the features
    for f in ('s1', 'a.b', 'dir/s1', '12', 'Spk_01-x'):
        for g in (f + '.wav', f + '.v2', f + '.', '.' + f, f[:-1], f[1:], f + 'x', 'x' + f, f.upper(), f.lower(), f.replace('.', '_'), 'dir/' + f,
                  f.split('/')[-1], f.split('.')[0], './' + f, '/' + f, f + '/', f + '#', '#' + f, '0' + f, f + '0', f + '.0', f.replace('/', '\\'), f.swapcase(),
                  f + ',', '"' + f + '"', f.replace('_', '-'), f.capitalize()):
            if g and g != f:
                for its in ([f, g, f], [g], [f, f, g]):
                    out.append(dict(head=HEAD, items=its, feats=[f, 'zz'], sep=' ', blank=None, layout=rng.choice(['items', 'files'])))
                out.append(dict(head=HEAD, items=[f, g, f], feats=[f, g], sep=' ', blank=None, layout=rng.choice(['items', 'files'])))
    for _ in range(n):
        feats = rng.sample(['s1', 's2', 's10', 'S1', 's', 'a.b', 'dir/s1', '12', 's1x', 'onset'], rng.choice([1, 2, 4]))
        items = [rng.choice(feats) for _ in range(rng.choice([0, 1, 2, 5, 12]))]
        if items and rng.random() < .5:
            other = [f for f in ['s1', 's2', 's10', 'S1', 's', 'a.b', 'dir/s1', '12', 's1x', 'zz', 's1 '.strip() + 'y'] if f not in feats]
            items[rng.choice([0, len(items) - 1, rng.randrange(len(items))])] = rng.choice(other)
        out.append(dict(head=HEAD if rng.random() < .9 else rng.choice(heads), items=items, feats=feats, sep=rng.choice([' ', '\t', '  ', ' \t']),
                        blank=rng.choice([None, None, 'end', 'mid']), layout=rng.choice(['items', 'files', 'real'])))
    return out


def check_C18(case, tmp):
    import h5py
    chk = need('ABXpy.verify', 'check')
    item, ff = os.path.join(tmp, 'd.item'), os.path.join(tmp, 'd.features')
    lines = [case['sep'].join(case['head'])]
    for i, f in enumerate(case['items']):
        lines.append(case['sep'].join([f, '%d.5' % i, '%d.75' % i, 'ph%d' % (i % 3), 't']))
        if case['blank'] == 'mid' and i == 0:
            lines.append('')
    with open(item, 'w') as f:
        f.write('\n'.join(lines) + '\n' + ('\n' if case['blank'] == 'end' else ''))
    if case['layout'] == 'real':
        import h5features
        h5features.write(ff, 'features', list(case['feats']), [np.array([0., 1.])] * len(case['feats']), [np.ones((2, 2))] * len(case['feats']))
    else:
        with h5py.File(ff, 'w') as f:
            f.create_group('features').create_dataset(case['layout'], data=np.array(case['feats'], dtype=object), dtype=h5py.special_dtype(vlen=str))
    h = case['head']
    ok = len(h) >= 4 and h[:3] == HEAD[:3] and h[3].startswith('#') and all(f in case['feats'] for f in case['items'])
    try:
        chk(item, ff)
        got, err = True, None
    except Exception as e:
        got, err = False, e
    require(got or not ok, 'a consistent item file is refused: %r' % err)
    require(ok or not got, 'an inconsistent item file is accepted')
    return dict(nontrivial=len(case['items']) > 1)


# ---------------------------------------------------------------- C20

def cases_C20(rng, tier):
    out = []
    for k in ('task', 'task_default', 'score', 'score_default'):
        for content in ('empty', 'text', 'hdf5', 'own', 'partial'):
            out.append(dict(kind=k, content=content, seed=rng.randrange(10 ** 6)))
    for content in ('own', 'partial', 'undone', 'text'):
        for n in (1, 2):
            out.append(dict(kind='distance', content=content, n_cpu=n, seed=rng.randrange(10 ** 6)))
    for g in ('g', 'a/b', '/'):
        for fixed in (True, False):
            for rows in (1, 5):
                out.append(dict(kind='dataset', group=g, fixed=fixed, rows=rows, seed=1))
    return out


def dump(path):
    """logical content of an hdf5 file"""
    import h5py
    out = {}
    def attrs(name, o):
        for k in o.attrs:
            out[name + '@' + k] = np.asarray(o.attrs[k]).tolist()
    with h5py.File(path, 'r') as f:
        attrs('/', f)
        def visit(name, o):
            attrs(name, o)
            if isinstance(o, h5py.Dataset):
                out[name] = (o.shape, str(o.dtype), np.asarray(o[...]).tobytes() if o.dtype != object else [str(e) for e in np.asarray(o[...]).ravel()])
            else:
                out[name] = 'group'
        f.visititems(visit)
    return out


def small_task(tmp, seed):
    rows = [['s%d' % i, 0, 1, 'ab'[i % 2], 'xy'[(i // 2) % 2], 'k'] for i in range(8)]
    return dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=['c2'], style='list', rows=rows)


def put(path, content, tmp, own):
    import h5py
    if os.path.exists(path):
        os.remove(path)
    if content == 'empty':
        open(path, 'w').close()
    elif content == 'text':
        with open(path, 'w') as f:
            f.write('precious\n' * 20)
    elif content == 'hdf5':
        with h5py.File(path, 'w') as f:
            f['other/data'] = np.arange(10)
    elif content == 'own':
        own(path)
    elif content == 'partial':
        with h5py.File(path, 'w') as f:
            f.create_group('triplets')['data'] = np.arange(12).reshape(4, 3)
            f.create_dataset('scores', data=np.ones((4, 1), dtype=np.int8))


def md5(path):
    with open(path, 'rb') as f:
        return hashlib.md5(f.read()).hexdigest()


def check_C20(case, tmp):
    import h5py
    k = case['kind']
    if k == 'dataset':
        NP2H5 = need('ABXpy.h5tools.np2h5', 'NP2H5')
        p = os.path.join(tmp, 'x.h5')
        with h5py.File(p, 'w') as f:
            g = f.require_group(case['group']) if case['group'] != '/' else f
            g['data'] = np.arange(case['rows'] * 2).reshape(-1, 2)
        before = dump(p)
        try:
            with NP2H5(p) as f:
                out = f.add_dataset(case['group'], 'data', n_rows=case['rows'], n_columns=2, item_type=np.int64, fixed_size=case['fixed'])
                out.write(np.zeros((case['rows'], 2), dtype=np.int64))
        except Exception:
            require(dump(p) == before, 'an existing dataset is altered although it is refused')
            return dict(nontrivial=True)
        fail('an existing dataset is accepted')
    c = small_task(tmp, case['seed'])
    if k in ('task', 'task_default'):
        task = h_task.make_task(c, tmp)
        out = os.path.join(tmp, 'o.abx' if k == 'task' else 'd.abx')
        def own(path):
            h_task.make_task(c, tmp).generate_triplets(output=path)
        put(out, case['content'], tmp, own)
        h = md5(out)
        try:
            task.generate_triplets(output=out) if k == 'task' else task.generate_triplets()
        except Exception:
            require(md5(out) == h, 'an existing task file is altered although it is refused')
            return dict(nontrivial=case['content'] != 'empty')
        fail('an existing task file (%s) is accepted' % case['content'])
    _, path = h_task.generate(c, tmp)
    r = h_task.read_task(path)
    if k in ('score', 'score_default'):
        score = need('ABXpy.score', 'score')
        d = os.path.join(tmp, 'd.distance')
        h_score.write_distance(d, np.random.RandomState(case['seed']).rand(len(r['pairs'])))
        if k == 'score':
            out = os.path.join(tmp, 'o.score')
        else:
            os.chdir(tmp)
            path, d = 'o.abx', 'd.distance'
            out = 'o_d.score'
        put(out, case['content'], tmp, lambda p: score(path, d, p))
        h = md5(out)
        try:
            score(path, d, out) if k == 'score' else score(path, d)
        except Exception:
            require(md5(out) == h, 'an existing score file is altered although it is refused')
            return dict(nontrivial=case['content'] != 'empty')
        fail('an existing score file (%s) is accepted' % case['content'])
    spec = [{'s%d' % i: [[0., .5, 1.], i, 2] for i in range(8)}]
    paths, content = h_dist.write_feats(spec, tmp)
    out = os.path.join(tmp, 'o.distance')
    if case['content'] in ('own', 'undone'):
        h_dist.compute(c, tmp, path, paths, 1, out)
        with h5py.File(out, 'a') as f:
            if case['content'] == 'undone':
                f.attrs['done'] = False
    elif case['content'] == 'text':
        put(out, 'text', tmp, None)
    else:
        with h5py.File(out, 'w') as f:
            f.create_group('distances')['data'] = np.arange(3.)
            f.attrs['done'] = True
    text = case['content'] == 'text'
    before = md5(out) if text else dump(out)
    try:
        h_dist.compute(c, tmp, path, paths, case['n_cpu'], out)
    except Exception:
        require((md5(out) if text else dump(out)) == before, 'an existing distance file is altered although it is refused')
        return dict(nontrivial=True)
    fail('an existing distance file (%s) is accepted' % case['content'])


# ---------------------------------------------------------------- C21

def cases_C21(rng, tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 7):
        for b in range(1, n + 2):
            out.append(dict(n=n, batch=b, style=rng.choice(['plain', 'dots', 'ext']), order=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    for _ in range(12 if q else 100):
        n = rng.randrange(1, 13 if q else 41)
        out.append(dict(n=n, batch=rng.choice([1, 2, n, max(1, n - 1), n + 1, 500, None]), style=rng.choice(['plain', 'dots', 'ext']), order=True, seed=rng.randrange(10 ** 6)))
    return out


def check_C21(case, tmp):
    import h5features
    f = need('ABXpy.misc.any2h5features', 'any_to_h5features')
    r = np.random.RandomState(case['seed'])
    src = os.path.join(tmp, 'src')
    os.makedirs(src)
    names, content = [], {}
    for i in range(case['n']):
        nm = {'plain': 'f%02d', 'dots': 'a.b%02d', 'ext': 'rec%02d'}[case['style']] % i
        nm += '.npz'
        t = np.cumsum(r.rand(r.randint(1, 5)) + .01)
        x = r.rand(len(t), 3)
        np.savez(os.path.join(src, nm), time=t, features=x)
        names.append(nm)
        content[nm[:-4]] = (t, x)
    if case['order']:
        r.shuffle(names)
    loaded = []
    calls = []
    real = h5features.write

    def load(path):
        loaded.append(os.path.basename(path))
        return np.load(path)
    out = os.path.join(tmp, 'o.h5')
    kw = {} if case['batch'] is None else dict(batch_size=case['batch'])
    f(src, names, out, '/features/', load=load, **kw)
    if case['n'] == 0:
        return dict(nontrivial=False)
    require(loaded == names, 'files loaded: %s instead of %s' % (loaded, names))
    t, x = h5features.read(out, '/features/')[:2]
    dec = lambda d: {k.decode() if isinstance(k, bytes) else k: v for k, v in d.items()}
    t, x = dec(t), dec(x)
    require(sorted(t) == sorted(content), 'files converted: %s instead of %s' % (sorted(t), sorted(content)))
    for k in content:
        require(np.array_equal(t[k], content[k][0]) and np.array_equal(x[k], content[k][1]), 'the times or features of %s are not its own' % k)
    import h5py
    with h5py.File(out, 'r') as h:
        g = h['features']
        items = [s.decode() if isinstance(s, bytes) else s for s in g['items' if 'items' in g else 'files'][...]]
    require(items == [n[:-4] for n in names], 'files are stored in the order %s instead of %s' % (items, names))
    return dict(nontrivial=case['batch'] is not None and case['n'] > case['batch'])
