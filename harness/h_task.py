"""Contracts of the task part (C01 ... C07) against a brute force definition."""
import itertools, os, re, random, warnings
import numpy as np
from hx import require, fail, need, Skip

EXTS = ['_AX', '_AB', '_A', '_B', '_X', '_1', '_2', '']

# ---------------------------------------------------------------- inputs


def item_text(case):
    cols = case['cols']
    lines = ['#file onset offset #' + ' '.join(cols)]
    for r in case['rows']:
        lines.append(' '.join(str(e) for e in r))
    sep = case.get('sep', ' ')
    return '\n'.join(l.replace(' ', sep) for l in lines) + '\n' + case.get('tail', '')


def write_items(case, tmp, name='d.item'):
    path = os.path.join(tmp, name)
    with open(path, 'w') as f:
        f.write(item_text(case))
    for col, (acols, arows) in case.get('aux', {}).items():
        with open(os.path.join(tmp, 'd.' + col), 'w') as f:
            f.write(' '.join([col] + acols) + '\n')
            for r in arows:
                f.write(' '.join(map(str, r)) + '\n')
    return path


NA = 'NaN'


def conv(col):
    """type pandas gives to a column read from text"""
    try:
        v = [int(e) for e in col]
        return v
    except ValueError:
        pass
    try:
        return [float(e) for e in col]
    except ValueError:
        return [str(e) for e in col]


class Model(object):
    """the definition, straight from the item table"""

    def __init__(self, case):
        self.case = case
        cols = list(case['cols'])
        rows = [[str(e) for e in r] for r in case['rows']]
        table = {c: [r[3 + i] for r in rows] for i, c in enumerate(cols)}
        self.loc = [r[:3] for r in rows]
        self.children = {}
        missing = [False] * len(rows)
        for col, (acols, arows) in case.get('aux', {}).items():
            m = {str(r[0]): [str(e) for e in r[1:]] for r in arows}
            for j, ac in enumerate(acols):
                table[ac] = [m[v][j] if v in m else NA for v in table[col]]
            self.children[col] = acols
        for c in table:
            for i, v in enumerate(table[c]):
                if v == NA:
                    missing[i] = True
        keep = [i for i in range(len(rows)) if not missing[i]]
        # types are given by the whole column (floats with missing integers)
        self.table = {}
        for c in table:
            if NA in table[c]:
                v = [e for e in table[c] if e != NA]
                cv = conv(v)
                if cv and isinstance(cv[0], int):
                    cv = [float(e) for e in cv]
                it = iter(cv)
                full = [next(it) if e != NA else None for e in table[c]]
            else:
                full = conv(table[c])
            self.table[c] = [full[i] for i in keep]
        self.rows = keep          # original row numbers
        self.n = len(keep)
        self.on = case['on']
        self.across = case.get('across', [])
        self.by = case.get('by', [])
        # blocks, in order of the file
        self.blocks = {}
        for i in range(self.n):
            if self.by:
                k = tuple(self.table[c][i] for c in self.by)
                k = str(k[0]) if len(k) == 1 else str(k)
            else:
                k = '0'
            self.blocks.setdefault(k, []).append(i)
        self.filters = [Filter(f, self) for f in case.get('filters', [])]

    def descend(self, cols):
        out = set(cols)
        for c in list(cols):
            out |= set(self.children.get(c, []))
        return out

    def triplets(self):
        """{by: set of (a, b, x)} with indices relative to the by block"""
        out = {}
        self.items_kept = {}
        for k, items in self.blocks.items():
            ok = all(f.by_ok(items) for f in self.filters)
            if not ok:
                continue
            kept = [p for p, i in enumerate(items)
                    if all(f.item_ok(i, items) for f in self.filters)]
            if not kept:
                continue
            self.items_kept[k] = kept
            T = self.table
            res = set()
            on = T[self.on]
            for a in kept:
                ia = items[a]
                for x in kept:
                    ix = items[x]
                    if on[ix] != on[ia] or a == x:
                        continue
                    if any(T[c][ix] == T[c][ia] for c in self.across):
                        continue
                    for b in kept:
                        ib = items[b]
                        if on[ib] == on[ia]:
                            continue
                        if any(T[c][ib] != T[c][ia] for c in self.across):
                            continue
                        if all(f.triplet_ok(ia, ib, ix) for f in self.filters):
                            res.add((a, b, x))
            out[k] = res
        return out

    def blocks_oab(self):
        """{by: {(on, across...): [positions kept]}}; needs triplets() before"""
        out = {}
        for k, kept in self.items_kept.items():
            items = self.blocks[k]
            d = {}
            for p in kept:
                i = items[p]
                key = (self.table[self.on][i],) + (
                    tuple(self.table[c][i] for c in self.across)
                    if self.across else (p,))
                d.setdefault(key, []).append(p)
            out[k] = d
        return out

    def value(self, name, ia, ib, ix):
        """value of an extended column name for a triplet"""
        col, ext = split(name, self.table)
        T = self.table[col]
        if ext in ('_A', '_AX', '_AB', '_1'):
            return T[ia]
        if ext == '_B':
            return T[ib]
        if ext == '_X':
            return T[ix]
        if ext == '_2':
            return T[ib] if col in self.descend([self.on]) else T[ix]
        return T[ia]


def split(name, table):
    for e in EXTS:
        if e and name.endswith(e) and name[:-len(e)] in table:
            return name[:-len(e)], e
    return name, ''


class Filter(object):
    def __init__(self, text, model):
        self.text = text
        self.m = model
        words = set(re.findall(r'[A-Za-z]\w*', text))
        self.names = sorted(w for w in words
                            if split(w, model.table)[0] in model.table)
        bycols = model.descend(model.by)
        parts = [split(w, model.table) for w in self.names]
        rest = [p for p in parts if p[0] not in bycols]
        if not rest:
            self.kind = 'by'
        elif all(e == '' for _, e in rest):
            self.kind = 'generic'
        else:
            self.kind = 'triplet'
        self.is_col = text in self.names

    def ev(self, env):
        if self.is_col:
            return bool(env[self.text])
        ns = {k: [v] for k, v in env.items()}
        return bool(eval(self.text, ns)[0])

    def by_ok(self, items):
        if self.kind != 'by':
            return True
        i = items[0]
        return self.ev({w: self.m.table[split(w, self.m.table)[0]][i] for w in self.names})

    def item_ok(self, i, items):
        if self.kind != 'generic':
            return True
        return self.ev({w: self.m.table[split(w, self.m.table)[0]][i] for w in self.names})

    def triplet_ok(self, ia, ib, ix):
        if self.kind != 'triplet':
            return True
        return self.ev({w: self.m.value(w, ia, ib, ix) for w in self.names})


# ---------------------------------------------------------------- running

def make_task(case, tmp):
    Task = need('ABXpy.task', 'Task')
    path = write_items(case, tmp)
    kw = {}
    for k in ('filters', 'regressors'):
        if case.get(k):
            kw[k] = list(case[k])
    across = case.get('across', [])
    by = case.get('by', [])
    if case.get('style') == 'str':       # a single attribute given as a string
        across = across[0] if len(across) == 1 else across
        by = by[0] if len(by) == 1 else by
    if case.get('style') == 'none':
        across, by = across or None, by or None
    return Task(path, case['on'], across, by,
                verbose=bool(case.get('verbose', False)), **kw)


def generate(case, tmp, task=None):
    task = task or make_task(case, tmp)
    out = os.path.join(tmp, 'o.abx')
    kw = {}
    if case.get('threshold') is not None:
        kw['threshold'] = case['threshold']
    if case.get('seed') is not None:
        kw['seed'] = case['seed']
    if case.get('tmpdir'):
        d = os.path.join(tmp, 'scratch')
        os.makedirs(d, exist_ok=True)
        kw['tmpdir'] = d
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        task.generate_triplets(output=out, **kw)
    return task, (out if os.path.exists(out) else None)


def read_task(path):
    import h5py
    r = {}
    with h5py.File(path, 'r') as f:
        r['bys'] = [b if isinstance(b, str) else b.decode() for b in f['bys'][...]]
        r['by_index'] = f['triplets/by_index'][...]
        r['data'] = f['triplets/data'][...]
        r['n_rows'] = f['triplets/data'].shape[0]
        r['pairs'] = f['unique_pairs/data'][...]
        r['pattrs'] = {b: [int(e) for e in f['unique_pairs'].attrs[b]] for b in r['bys']}
        r['regs'] = {}
        for b in r['bys']:
            g = f['regressors'][b]
            names = [s if isinstance(s, str) else s.decode() for s in g['indexed_datasets'][...]]
            r['regs'][b] = (
                names, g['indexed_data'][...],
                {n: [v.decode() if isinstance(v, bytes) else v for v in g['indexes'][n][...]]
                 for n in names})
    return r


def by_slices(r):
    return {b: r['data'][int(s):int(e)] for b, (s, e) in zip(r['bys'], r['by_index'])}


def compare_triplets(case, tmp, exact=True):
    m = Model(case)
    exp = m.triplets()
    total = sum(len(v) for v in exp.values())
    task, path = generate(case, tmp)
    if total == 0:
        if path is not None:
            r = read_task(path)
            require(r['n_rows'] == 0, 'no triplet is possible but %d are listed' % r['n_rows'])
        return m, exp, task, None
    require(path is not None, 'no task file although there are %d triplets' % total)
    r = read_task(path)
    sl = by_slices(r)
    require(len(set(r['bys'])) == len(r['bys']), 'a by block is listed twice')
    # by_index covers the data
    pos = 0
    for b, (s, e) in zip(r['bys'], r['by_index']):
        require(int(s) == pos and int(e) > int(s), 'by_index %r is not a partition' % (r['by_index'].tolist(),))
        pos = int(e)
    require(pos == r['n_rows'], 'by_index ends at %d, %d rows stored' % (pos, r['n_rows']))
    if exact:
        require(set(r['bys']) == {k for k in exp if exp[k]},
                'by blocks %s, expected %s' % (sorted(r['bys']), sorted(k for k in exp if exp[k])))
        for b in r['bys']:
            got = [tuple(int(e) for e in t) for t in sl[b]]
            gs = set(got)
            require(len(gs) == len(got), 'block %s: %d triplets listed more than once' % (b, len(got) - len(gs)))
            if gs != exp[b]:
                extra = sorted(gs - exp[b])[:3]
                lack = sorted(exp[b] - gs)[:3]
                fail('block %s: wrong triplets %s, missing triplets %s' % (b, extra, lack))
    return m, exp, task, r


# ---------------------------------------------------------------- generators

LAB = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']


def rand_rows(rng, n, ncols, levels, kinds=None, missing=0., shuffle=True):
    rows = []
    for i in range(n):
        labs = []
        for j in range(ncols):
            v = rng.randrange(levels[j])
            kind = (kinds or ['i'] * ncols)[j]
            if kind == 's':
                labs.append('%s%d' % (LAB[j], v))
            elif kind == 'f':
                labs.append(v + 0.5)
            else:
                labs.append(v)
            if missing and rng.random() < missing:
                labs[-1] = NA
        on = round(rng.uniform(0, 5), 2)
        rows.append(['s%d' % rng.randrange(max(2, n // 2)), on, round(on + rng.uniform(0, 2), 2)] + labs)
    return rows


def base_case(rng, n=None, ncols=4, missing=0., nacross=None, nby=None, levels=None):
    n = n if n is not None else rng.choice([1, 2, 3, 5, 8, 12, 16, 24])
    levels = levels or [rng.choice([1, 2, 2, 3, 4]) for _ in range(ncols)]
    kinds = [rng.choice('iss') for _ in range(ncols)]
    cols = ['c%d' % j for j in range(ncols)]
    perm = cols[:]
    rng.shuffle(perm)
    na = nacross if nacross is not None else rng.choice([0, 1, 1, 1, 2])
    nb = nby if nby is not None else rng.choice([0, 1, 1, 2])
    on = perm.pop()
    across = [perm.pop() for _ in range(min(na, len(perm)))]
    by = [perm.pop() for _ in range(min(nb, len(perm)))]
    return dict(cols=cols, rows=rand_rows(rng, n, ncols, levels, kinds, missing),
                on=on, across=across, by=by, free=perm, levels=levels, kinds=kinds,
                style=rng.choice(['list', 'str', 'none']))


def enrich(rng, c, filters=.5, missing=.25, aux=.25, threshold=.15, regs=.2):
    """filters, missing labels, auxiliary files, thresholds and regressors added
    to a random case"""
    if rng.random() < missing:
        for r in c['rows']:
            for j in range(3, len(r)):
                if rng.random() < .08:
                    r[j] = NA
    if rng.random() < aux:
        j = rng.randrange(len(c['cols']))
        col = c['cols'][j]
        vals = sorted({str(r[3 + j]) for r in c['rows']} - {NA})
        if c['kinds'][j] == 's' and vals:
            if rng.random() < .3 and len(vals) > 1:
                vals = vals[:-1]       # missing entry: its items are dropped
            rng.shuffle(vals)
            c['aux'] = {col: (['z1', 'z2'], [[v, 'p' + v[-1], 'q%d' % (k % 2)] for k, v in enumerate(vals)])}
    if rng.random() < filters:
        fs = [rand_filter(rng, c) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .3:
            j = rng.randrange(len(c['cols']))
            fs.append('[v %s %s for v in %s]' % (
                rng.choice(['==', '!=', '!=']), const_of(rng, c, j), c['cols'][j]))
        c['filters'] = [f for f in fs if f]
    if rng.random() < regs and not c.get('regressors'):
        c['regressors'] = [col + e for col in c['free'] for e in ('_A', '_B', '_X') if rng.random() < .3]
    if rng.random() < threshold:
        c['threshold'] = rng.choice([1, 2, 5, 1000])
        c['seed'] = rng.randrange(100)
    return c


def const_of(rng, c, j):
    v = rng.randrange(c['levels'][j])
    return {'s': repr('%s%d' % (LAB[j], v)), 'i': repr(v), 'f': repr(v + .5)}[c['kinds'][j]]


def sized_case(na, nb, nx, lead=0, by=None, across=1, on_first=True):
    """one block with na A items, nb B items and nx X items, after `lead` items
    alone in their own on/across cell"""
    rows = []
    def add(on, ac):
        i = len(rows)
        rows.append(['s%d' % i, 0, 1, 'o%d' % on, 'x%s' % ac, 'k'])
    for i in range(lead):
        add(90 + i, 'L%d' % i)
    for i in range(na):
        add(0, 0)
    for i in range(nb):
        add(1, 0)
    for i in range(nx):
        add(0, 1)
    return dict(cols=['c0', 'c1', 'c2'], rows=rows, on='c0', across=['c1'] if across else [],
                by=['c2'] if by else [], style='list')


RULE_C01 = ('random item tables (1-24 items, 4 label columns of 1-4 levels, 0-2 across, 0-2 by), with and without filters, missing labels and auxiliary files, plus '
            'tables crafted around the 8/16 bits integer types (127/128/255/256/300 items per role, item '
            'index above 255, products above 65535, many by blocks); non-trivial: at least one triplet exists')
BOUNDS_C01 = 'tables of at most 600 items, at most 700000 triplets'


def cases_C01(rng, tier):
    n = 260 if tier == 'quick' else 2500
    out = []
    # boundaries of the integer types
    for (na, nb, nx) in [(1, 1, 127), (1, 1, 128), (1, 128, 1), (1, 1, 255), (1, 1, 256), (1, 257, 1), (300, 1, 1),
                         (2, 128, 1), (16, 16, 1), (1, 16, 16), (4, 8, 8), (2, 3, 43), (40, 42, 40)]:
        out.append(sized_case(na, nb, nx))
    for lead in (126, 127, 128, 253, 254, 255, 256, 300):
        out.append(sized_case(1, 1, 2, lead=lead))
        out.append(sized_case(2, 2, 2, lead=lead, by=True, across=0)) if lead < 130 else None
    # several by blocks, some empty, of unequal size
    for nb in (1, 3, 40):
        c = base_case(rng, n=nb * 4, nacross=1, nby=1, levels=[2, 2, nb, 2])
        c['on'], c['across'], c['by'] = 'c0', ['c1'], ['c2']
        out.append(c)
    # a large task: several buffers
    big = dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=['c2'], style='list',
               rows=[['s%d' % i, 0, 1, i % 2, (i // 2) % 2, 1 if i < 160 else 2] for i in range(200)])
    out.append(big)
    if tier != 'quick':
        out.append(dict(big, rows=[['s%d' % i, 0, 1, i % 3, (i // 3) % 2, 1 if i < 300 else 2] for i in range(360)]))
        out.append(sized_case(1, 1, 65534)) if False else None
    for _ in range(n):
        out.append(base_case(rng))
    for _ in range(2 * n):
        c = enrich(rng, base_case(rng, n=rng.choice([6, 10, 16, 24, 32]), levels=[rng.choice([2, 2, 3]) for _ in range(4)]),
                   filters=.7, threshold=0)
        out.append(c)
    for c in out:
        c['verbose'] = rng.random() < .05
    return [c for c in out if c]


def fast_model(case):
    return len(case['rows']) > 60


def check_C01(case, tmp):
    m, exp, task, r = compare_triplets(case, tmp)
    return dict(nontrivial=r is not None, checks=max(1, sum(map(len, exp.values()))))


# ---- C02

RULE_C02 = ('random tables and tasks with 1-4 random filters (column names or list expressions over suffixed '
            'columns, by, generic, one item, several items); non-trivial: the filters remove some but not all '
            'of the triplets')
BOUNDS_C02 = 'tables of at most 40 items, at most 4 filters'


def rand_filter(rng, c):
    cols = c['cols']
    on, across, by = c['on'], c['across'], c['by']

    def ext(col, allow_generic=False):
        if col in by:
            return rng.choice(['', '_A', '_B', '_X'])
        es = ['_A', '_B', '_X']
        if col == on:
            es += ['_AX', '_1', '_2']
        if col in across:
            es += ['_AB', '_1', '_2']
        return rng.choice(es)

    def const(col):
        j = cols.index(col)
        v = rng.randrange(c['levels'][j])
        return {'s': repr('%s%d' % (LAB[j], v)), 'i': repr(v), 'f': repr(v + .5)}[c['kinds'][j]]

    kind = rng.choice(['one', 'one', 'one', 'two', 'two', 'gen', 'by', 'col', 'three'])
    op = rng.choice(['==', '!=', '!=', '<=', '>'])
    if kind == 'by' and by:
        col = rng.choice(by)
        return '[v %s %s for v in %s]' % (op, const(col), col)
    if kind == 'gen':
        col = rng.choice(cols)
        if rng.random() < .5 and len(cols) > 1:
            col2 = rng.choice(cols)
            return '[str(v) %s str(w) for v, w in zip(%s, %s)]' % (op, col, col2)
        return '[v %s %s for v in %s]' % (op, const(col), col)
    if kind == 'col':
        cc = [x for i, x in enumerate(cols) if c['kinds'][i] == 'i']
        if cc:
            col = rng.choice(cc)
            return col + (ext(col) if rng.random() < .7 else '')
    if kind == 'two':
        a, b = rng.choice(cols), rng.choice(cols)
        if rng.random() < .6:
            b = a
        ea, eb = ext(a), ext(b)
        if (a not in by and ea == '') or (b not in by and eb == ''):
            return None
        return '[str(v) %s str(w) for v, w in zip(%s%s, %s%s)]' % (op, a, ea, b, eb)
    if kind == 'three':
        a = rng.choice(cols)
        if a in by:
            return None
        return '[u %s v or v %s w for u, v, w in zip(%s_A, %s_B, %s_X)]' % (
            op, rng.choice(['==', '!=']), a, a, a)
    col = rng.choice(cols)
    return '[v %s %s for v in %s%s]' % (op, const(col), col, ext(col))


def cases_C02(rng, tier):
    n = 420 if tier == 'quick' else 4000
    out = []
    for _ in range(n):
        c = base_case(rng, n=rng.choice([6, 9, 12, 16, 20, 30]), levels=[rng.choice([2, 2, 3]) for _ in range(4)],
                      nby=rng.choice([0, 0, 1]))
        fs = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            f = rand_filter(rng, c)
            if f:
                fs.append(f)
        if not fs:
            continue
        enrich(rng, c, filters=0, missing=.15, aux=.2, threshold=0)
        c['filters'] = fs
        out.append(c)
    # suffixes that must be refused
    for col, e in [('c2', '_AX'), ('c1', '_AX'), ('c2', '_AB'), ('c0', '_AB'), ('c2', '_1'), ('c2', '_2')]:
        c = dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=[], style='list',
                 rows=[['s%d' % i, 0, 1, i % 2, (i // 2) % 2, i % 3] for i in range(8)],
                 filters=['[v == 0 for v in %s%s]' % (col, e)], refused=True)
        out.append(c)
    # columns of an auxiliary file depend on their parent
    for f in ['[v == "u" for v in k1_1]', '[v == "u" for v in k1_AX]', '[v == "u" for v in k1_2]',
              '[v != "u" for v in k1_B]', '[v == "p" for v in q1_AB]', '[v == "p" for v in q1_2]',
              '[v == w for v, w in zip(k1_B, q1_X)]', '[v == "u" for v in k1]', '[v=="p" for v in q1]']:
        c = dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=[], style='list',
                 rows=[['s%d' % i, 0, 1, 'abc'[i % 3], 'xyz'[(i // 3) % 3], i % 4] for i in range(18)],
                 aux={'c0': (['k1'], [['a', 'u'], ['b', 'v'], ['c', 'u']]),
                      'c1': (['q1'], [['x', 'p'], ['y', 'q'], ['z', 'u']])},
                 filters=[f])
        out.append(c)
    # large index: the filters are applied to the right items of big blocks
    for f in ['[v == 1 for v in c2_X]', '[v == 1 for v in c2_A]', '[v == 1 for v in c2_B]', '[v == 1 for v in c2]',
              '[v != w for v, w in zip(c2_A, c2_X)]']:
        out.append(dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=[], style='list', levels=None,
                        rows=[['s%d' % i, 0, 1, 'o%d' % (i % 2 if i > 270 else 2 + i), 'x%d' % ((i // 2) % 2), i % 3]
                              for i in range(300)], filters=[f]))
    return out


def check_C02(case, tmp):
    if case.get('refused'):
        try:
            make_task(case, tmp)
        except ValueError:
            return dict(nontrivial=True)
        fail('a meaningless suffix is accepted: %s' % case['filters'])
    m, exp, task, r = compare_triplets(case, tmp)
    m0 = Model(dict(case, filters=[]))
    t0 = sum(map(len, m0.triplets().values()))
    t = sum(map(len, exp.values()))
    require(task.stats['nb_triplets'] == t, 'stats announce %d triplets, there are %d' % (task.stats['nb_triplets'], t))
    return dict(nontrivial=0 < t < t0, checks=max(1, t0))


# ---- C03

RULE_C03 = ('random tasks with additional regressors, filters and thresholds, groups crossing 255/256/65535 '
            'triplets; non-trivial: at least one group is larger than the threshold')
BOUNDS_C03 = 'groups of at most 70000 triplets'


def cases_C03(rng, tier):
    n = 150 if tier == 'quick' else 1500
    out = []
    for _ in range(n):
        c = base_case(rng, n=rng.choice([8, 12, 16, 24, 30]), levels=[2, 2, rng.choice([1, 2]), rng.choice([2, 3])])
        regs = []
        for col in c['free']:
            for e in ('_A', '_B', '_X'):
                if rng.random() < .3:
                    regs.append(col + e)
        c['regressors'] = regs
        if rng.random() < .3:
            f = rand_filter(rng, c)
            if f:
                c['filters'] = [f]
        if rng.random() < .4:
            enrich(rng, c, filters=.3, threshold=0, regs=0)
        c['threshold'] = rng.choice([1, 1, 2, 3, 5, 10])
        c['seed'] = rng.randrange(1000)
        out.append(c)
    # groups much larger than the threshold
    for (na, nb, nx), ts in [((20, 30, 25), (5, 20, 60, 100, 140)), ((12, 12, 12), (2, 8, 16)),
                             ((41, 41, 41), (100, 300, 600, 690))] + (
            [] if tier == 'quick' else [((50, 60, 50), (300, 900, 1400))]):
        for t in ts:
            for sd in range(3):
                c = sized_case(na, nb, nx)
                c['threshold'], c['seed'] = t, sd
                out.append(c)
    for (na, nb, nx) in [(1, 1, 255), (1, 1, 256), (1, 1, 257), (1, 16, 17), (7, 7, 7), (1, 300, 1), (20, 30, 25),
                         (300, 1, 1), (30, 1, 30)]:
        for t in (1, 100, 150, 254, 255, 256, 299, 300, 1000):
            c = sized_case(na, nb, nx)
            c['threshold'] = t
            c['seed'] = rng.randrange(1000)
            out.append(c)
    for t in (10, 40000, 66000):
        c = sized_case(41, 41, 41)
        c['threshold'] = t
        c['seed'] = t
        out.append(c)
    return out


def check_C03(case, tmp):
    m = Model(case)
    exp = m.triplets()
    total = sum(map(len, exp.values()))
    task, path = generate(case, tmp)
    if total == 0:
        require(path is None, 'triplets out of nowhere')
        return dict(nontrivial=False)
    require(path is not None, 'no task file although there are %d triplets' % total)
    r = read_task(path)
    sl = by_slices(r)
    require(set(r['bys']) == {k for k in exp if exp[k]}, 'by blocks %s' % r['bys'])
    t = case['threshold']
    bcols = m.descend(m.by)
    # attributes of B and X (inside a block) that are regressors
    names = list(case.get('regressors', [])) + [m.on + '_2']
    names += [c + '_2' for c in m.descend(m.across)] + [c + '_2' for c in m.descend([m.on])]
    # (a column computed from A only does not separate groups; A differs by block only)
    gb, gx = [], []
    ond, acd = m.descend([m.on]), m.descend(m.across)
    for nme in names:
        col, e = split(nme, m.table)
        if col in bcols:
            continue
        if e == '_B' or (e == '_2' and col in ond):
            gb.append(col)
        elif e == '_X' or (e == '_2' and col in acd):
            gx.append(col)
    big = False
    for b in r['bys']:
        items = m.blocks[b]

        def key(tr):
            a, bb, x = (items[i] for i in tr)
            blk = (m.table[m.on][a],) + tuple(m.table[c][a] for c in m.across)
            if not m.across:
                blk = (a,)
            return (blk, tuple(m.table[c][bb] for c in gb), tuple(m.table[c][x] for c in gx))
        want, have = {}, {}
        for tr in exp[b]:
            k = key(tr)
            want[k] = want.get(k, 0) + 1
        got = [tuple(int(e) for e in tr) for tr in sl[b]]
        require(len(set(got)) == len(got), 'block %s: a triplet is sampled twice' % b)
        bad = set(got) - exp[b]
        require(not bad, 'block %s: sampled triplets %s do not belong to the task' % (b, sorted(bad)[:3]))
        for tr in got:
            k = key(tr)
            have[k] = have.get(k, 0) + 1
        for k in want:
            w = min(t, want[k])
            require(have.get(k, 0) == w, 'block %s group %s: %d triplets kept, expected %d of %d' % (
                b, k, have.get(k, 0), w, want[k]))
            big = big or want[k] > t
    return dict(nontrivial=big, checks=len(want))


# ---- C04

RULE_C04 = ('random tasks and large ones (pairs over several 100 kB buffers, pair codes on 1, 2 and 4 bytes, many by '
            'blocks, filters removing the last items); non-trivial: a pair is shared by two triplets')
BOUNDS_C04 = 'at most 350 items per block and 700000 triplets'


def cases_C04(rng, tier):
    n = 150 if tier == 'quick' else 1500
    out = []
    for _ in range(n):
        c = base_case(rng, levels=[2, 2, rng.choice([1, 2, 3]), 2])
        if rng.random() < .4:
            f = rand_filter(rng, c)
            if f:
                c['filters'] = [f]
        if rng.random() < .2:
            c['threshold'] = rng.choice([1, 2, 4])
            c['seed'] = 3
        c['tmpdir'] = rng.random() < .3
        out.append(c)
        out.append(enrich(rng, base_case(rng, n=rng.choice([12, 20, 30, 40]), levels=[rng.choice([2, 3]) for _ in range(4)]), threshold=.3))
    for (na, nb, nx) in [(1, 1, 13), (1, 1, 14), (5, 5, 5), (6, 5, 5), (1, 1, 252), (1, 1, 253), (1, 1, 254), (100, 100, 56), (60, 60, 60)]:
        out.append(sized_case(na, nb, nx))
    # more than one buffer of pairs, with pairs repeated across buffers
    for k, L in ((100, 2), (60, 3)):
        rows = [['s%d' % i, 0, 1, i % 2, (i // 2) % L, 1 if i < k else 2] for i in range(k + 24)]
        out.append(dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=['c2'], style='list', rows=rows))
    rows = [['s%d' % i, 0, 1, i % 2, (i // 2) % 2, i // 8] for i in range(240)]
    out.append(dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=['c2'], style='list', rows=rows))
    if tier != 'quick':
        rows = [['s%d' % i, 0, 1, i % 2, (i // 2) % 2, i // 290] for i in range(310)]
        out.append(dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=['c2'], style='list', rows=rows))
    return out


def check_C04(case, tmp):
    task, path = generate(case, tmp)
    if path is None:
        return dict(nontrivial=False)
    r = read_task(path)
    sl = by_slices(r)
    used = []
    shared = False
    for b in r['bys']:
        base, s, e = r['pattrs'][b]
        t = sl[b].astype(np.int64)
        require(t.size == 0 or base > t.max(), 'block %s: base %d is not larger than item %d' % (b, base, t.max()))
        codes = np.concatenate([t[:, 0] + base * t[:, 2], t[:, 1] + base * t[:, 2]])
        exp = np.unique(codes)
        got = r['pairs'][s:e, 0].astype(np.int64)
        require(0 <= s <= e <= r['pairs'].shape[0], 'block %s: interval %s out of range' % (b, (s, e)))
        require(np.all(got[1:] > got[:-1]), 'block %s: pairs are not strictly increasing' % b)
        if not np.array_equal(got, exp):
            fail('block %s: %d pairs stored, %d expected; wrong: %s, missing: %s' % (
                b, len(got), len(exp), sorted(set(got.tolist()) - set(exp.tolist()))[:4],
                sorted(set(exp.tolist()) - set(got.tolist()))[:4]))
        used.append((s, e))
        shared = shared or len(codes) > len(exp)
    used.sort()
    pos = 0
    for s, e in used:
        require(s == pos, 'the intervals of the blocks do not partition the pairs: %s' % used)
        pos = e
    require(pos == r['pairs'].shape[0], '%d pairs stored, intervals end at %d' % (r['pairs'].shape[0], pos))
    if case.get('tmpdir'):
        left = os.listdir(os.path.join(tmp, 'scratch'))
        require(not left, 'temporary files left: %s' % left)
    return dict(nontrivial=shared, checks=len(r['bys']))


# ---- C05

RULE_C05 = ('random item files with interleaved blocks, missing labels, auxiliary label files, tabs, blank ends and '
            'filters; each item has unique location; non-trivial: an index differs from the row number')
BOUNDS_C05 = 'at most 40 items'


def cases_C05(rng, tier):
    n = 260 if tier == 'quick' else 2500
    out = []
    for _ in range(n):
        c = base_case(rng, n=rng.choice([4, 8, 12, 16, 24, 40]), levels=[2, 2, rng.choice([1, 2, 3]), 2],
                      missing=rng.choice([0, 0, .05, .15]))
        for i, r in enumerate(c['rows']):
            r[0] = 'f%d' % ((i * 7) % len(c['rows']))
            r[1] = i * 0.5
            r[2] = i * 0.5 + 0.25
        if rng.random() < .4:
            f = rand_filter(rng, c)
            if f:
                c['filters'] = [f]
        c['sep'] = rng.choice([' ', ' ', '\t', '  '])
        c['tail'] = rng.choice(['', '', '\n', '  \n'])
        if rng.random() < .3:
            j = rng.randrange(4)
            col = c['cols'][j]
            vals = sorted({str(r[3 + j]) for r in c['rows']} - {NA})
            if c['kinds'][j] == 's' and vals:
                if rng.random() < .3 and len(vals) > 1:
                    vals = vals[:-1]       # missing entry: its items are dropped
                rng.shuffle(vals)
                c['aux'] = {col: (['z1', 'z2'], [[v, 'p' + v[-1], 'q%d' % (k % 2)] for k, v in enumerate(vals)])}
        c['threshold'] = rng.choice([None, None, 2])
        c['seed'] = 5
        out.append(c)
    return out


def check_C05(case, tmp):
    import pandas
    m = Model(case)
    m.triplets()
    task, path = generate(case, tmp)
    nontriv = False
    for k, items in m.blocks.items():
        if k not in m.items_kept:
            continue
        if not (hasattr(task, 'by_dbs') and hasattr(task, 'feat_dbs')):
            break
        keys = [kk for kk in task.by_dbs if str(kk) == k]
        if not keys:
            continue          # empty block removed
        db, fdb = task.by_dbs[keys[0]], task.feat_dbs[keys[0]]
        kept = m.items_kept[k]
        require(list(db.index) == kept, 'block %s: indices %s, expected %s' % (k, list(db.index), kept))
        for p in kept:
            i = items[p]
            for c in m.table:
                require(db.loc[p][c] == m.table[c][i], 'block %s index %d: label %s is %r instead of %r' % (
                    k, p, c, db.loc[p][c], m.table[c][i]))
            check_loc(m, fdb.iloc[p], i, k, p)
            nontriv = nontriv or m.rows[i] != p
    if path is None:
        return dict(nontrivial=False)
    r = read_task(path)
    sl = by_slices(r)
    for b in r['bys']:
        store = pandas.HDFStore(path, 'r')
        try:
            fdb = store['feat_dbs/' + b]
        finally:
            store.close()
        items = m.blocks[b]
        names, data, idx = r['regs'][b]
        for row, tr in enumerate(sl[b]):
            for p in tr:
                require(int(p) < len(items), 'index %d out of block %s' % (p, b))
                check_loc(m, fdb.iloc[int(p)], items[int(p)], b, int(p))
            a, bb, x = (items[int(p)] for p in tr)
            require(m.table[m.on][a] == m.table[m.on][x] != m.table[m.on][bb],
                    'block %s: triplet %s does not designate items of the definition' % (b, tr))
    return dict(nontrivial=nontriv, checks=m.n)


def check_loc(m, got, i, k, p):
    f, on, off = m.loc[m.rows[i]]
    require(str(got['file']) == f and float(got['onset']) == float(on) and float(got['offset']) == float(off),
            'block %s index %d: location %s instead of %s' % (k, p, (got['file'], got['onset'], got['offset']), (f, on, off)))


# ---- C06

RULE_C06 = ('random unbalanced tables, tasks and filters; non-trivial: some block has triplets and some has none')
BOUNDS_C06 = 'at most 40 items'


def cases_C06(rng, tier):
    n = 300 if tier == 'quick' else 3000
    out = []
    for _ in range(n):
        c = base_case(rng, n=rng.choice([3, 6, 10, 14, 20, 30, 40]))
        if rng.random() < .5:
            fs = [rand_filter(rng, c) for _ in range(rng.choice([1, 1, 2]))]
            c['filters'] = [f for f in fs if f]
        out.append(c)
        out.append(enrich(rng, base_case(rng, n=rng.choice([8, 14, 20, 30, 40]), levels=[rng.choice([2, 3]) for _ in range(4)]), threshold=0))
    for (na, nb, nx) in [(1, 1, 255), (16, 16, 1), (6, 7, 7), (40, 41, 42)]:
        out.append(sized_case(na, nb, nx))
    return out


def check_C06(case, tmp):
    m = Model(case)
    exp = m.triplets()
    task = make_task(case, tmp)
    st = task.stats
    total = sum(map(len, exp.values()))
    require(st['nb_triplets'] == total, 'nb_triplets is %s, there are %d' % (st['nb_triplets'], total))
    require(st['nb_by_levels'] == len(m.items_kept), 'nb_by_levels is %s, expected %d' % (st['nb_by_levels'], len(m.items_kept)))
    blocks = m.blocks_oab()
    nbl = sum(len(d) for d in blocks.values())
    require(st['nb_blocks'] == nbl, 'nb_blocks is %s, expected %d' % (st['nb_blocks'], nbl))
    stats = {str(k): v for k, v in task.by_stats.items()}
    require(set(stats) == set(m.items_kept), 'by_stats has blocks %s' % sorted(stats))
    some = none = False
    for k in stats:
        require(stats[k]['nb_triplets'] == len(exp[k]), 'block %s: nb_triplets is %s, there are %d' % (k, stats[k]['nb_triplets'], len(exp[k])))
        require(stats[k]['nb_items'] == len(m.items_kept[k]), 'block %s: nb_items' % k)
        items = m.blocks[k]
        cnt = {}
        for (a, b, x) in exp[k]:
            ia = items[a]
            key = (m.table[m.on][ia],) + (tuple(m.table[c][ia] for c in m.across) if m.across else (a,))
            cnt[key] = cnt.get(key, 0) + 1
        if m.across:
            bs = {tuple(kk): v for kk, v in stats[k]['block_sizes'].items()}
            require(set(bs) == set(blocks[k]), 'block %s: on/across blocks %s' % (k, sorted(map(str, bs))[:4]))
            for kk in bs:
                require(bs[kk] == cnt.get(kk, 0), 'block %s %s: size %s, there are %d' % (k, kk, bs[kk], cnt.get(kk, 0)))
                some, none = some or bs[kk] > 0, none or bs[kk] == 0
        else:
            require(sorted(stats[k]['block_sizes'].values()) == sorted(cnt.get(kk, 0) for kk in blocks[k]), 'block %s: sizes' % k)
            some = none = True
    # consistency with the file
    task2, path = generate(case, tmp, task)
    n = read_task(path)['n_rows'] if path else 0
    require(n == total, 'the file has %d triplets, %d were announced' % (n, total))
    # levels
    if not any(f.kind == 'triplet' for f in m.filters):
        t3 = make_task(case, tmp)
        if not hasattr(t3, 'compute_nb_levels'):
            return dict(nontrivial=some and none)
        t3.compute_nb_levels()
        lv = 0
        for k in exp:
            items = m.blocks[k]
            grp = [m.on] + (list(m.across) if m.across else [])
            seen = set()
            for (a, b, x) in exp[k]:
                ia, ib, ix = items[a], items[b], items[x]
                blk = (m.table[m.on][ia],) + (tuple(m.table[c][ia] for c in m.across) if m.across else (a,))
                seen.add((blk, tuple(m.table[c][ib] for c in grp), tuple(m.table[c][ix] for c in grp)))
            s3 = {str(kk): v for kk, v in t3.by_stats.items()}
            require(s3[k]['nb_levels'] == len(seen), 'block %s: nb_levels is %s, expected %d' % (k, s3[k]['nb_levels'], len(seen)))
            lv += len(seen)
        require(t3.stats['nb_levels'] == lv, 'nb_levels is %s, expected %d' % (t3.stats['nb_levels'], lv))
    return dict(nontrivial=some and none, checks=nbl)


# ---- C07

RULE_C07 = ('random tasks with column regressors on A, B, X, by, filters and thresholds; non-trivial: two rows of a '
            'block have different regressor values')
BOUNDS_C07 = 'at most 40 items (300 for the crafted ones)'


def cases_C07(rng, tier):
    n = 300 if tier == 'quick' else 3000
    out = []
    for _ in range(n):
        c = base_case(rng, n=rng.choice([6, 10, 14, 20, 30]), levels=[2, rng.choice([2, 3]), rng.choice([1, 2]), rng.choice([2, 3])])
        regs = []
        for col in c['free']:
            for e in ('_A', '_B', '_X'):
                if rng.random() < .5:
                    regs.append(col + e)
        for col in c['by']:
            if rng.random() < .5:
                regs.append(col)
        rng.shuffle(regs)
        c['regressors'] = regs
        if rng.random() < .5:
            fs = [rand_filter(rng, c) for _ in range(rng.choice([1, 2]))]
            c['filters'] = [f for f in fs if f]
        c['threshold'] = rng.choice([None, None, 1, 2, 5])
        c['seed'] = rng.randrange(100)
        if rng.random() < .5:
            enrich(rng, c, filters=.3, threshold=0, regs=0)
        out.append(c)
    # many levels: 8 bits and 16 bits indexes
    for lv in (127, 128, 255, 256, 257, 300):
        rows = [['s%d' % i, 0, 1, 'o%d' % i, 'x%d' % (i % 2), 'k%d' % i] for i in range(lv - 2)]
        rows += [['t%d' % i, 0, 1, 'zz', 'x%d' % (i % 2), 'k%d' % i] for i in range(4)]
        out.append(dict(cols=['c0', 'c1', 'c2'], on='c0', across=['c1'], by=[], style='list', rows=rows,
                        regressors=['c2_B', 'c2_A', 'c2_X']))
    return out


def check_C07(case, tmp):
    m = Model(case)
    task, path = generate(case, tmp)
    if path is None:
        return dict(nontrivial=False)
    r = read_task(path)
    sl = by_slices(r)
    want = set(case.get('regressors', [])) | {m.on + '_1', m.on + '_2'}
    for c in m.descend(m.across):
        want |= {c + '_1', c + '_2'}
    nontriv = False
    n = 0
    for b in r['bys']:
        names, data, idx = r['regs'][b]
        items = m.blocks[b]
        require(set(names) == want, 'block %s: regressors %s, expected %s' % (b, sorted(names), sorted(want)))
        require(data.shape == (len(sl[b]), len(names)), 'block %s: %s regressor values for %d triplets' % (b, data.shape, len(sl[b])))
        for row, tr in zip(data, sl[b]):
            ia, ib, ix = (items[int(p)] for p in tr)
            for j, nme in enumerate(names):
                require(int(row[j]) < len(idx[nme]), 'regressor %s: level %d out of %d' % (nme, row[j], len(idx[nme])))
                got = idx[nme][int(row[j])]
                exp = m.value(nme, ia, ib, ix)
                require(got == exp, 'block %s triplet %s: regressor %s is %r instead of %r' % (b, [int(p) for p in tr], nme, got, exp))
                n += 1
        nontriv = nontriv or len({tuple(x) for x in data.tolist()}) > 1
    return dict(nontrivial=nontriv, checks=n)
