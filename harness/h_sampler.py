"""C14: sampling without replacement."""
import numpy as np
from hx import require, fail, need, Skip

RULE_C14 = ('direct samplings for every (n, N) with N <= 12 and random larger ones up to 10**6 (both algorithms), '
            'incremental samplers over random chunk sequences (chunks of 0, 1, all the rest, more than the rest), '
            'expected samples above 10**5 per chunk; non-trivial: 0 < k < N')
BOUNDS_C14 = 'N <= 10**15 for the incremental sampler, at most 10**6 sampled items'


def cases_C14(rng, tier):
    out = []
    q = tier == 'quick'
    for N in range(0, 13):
        out.append(dict(kind='direct', pairs=[[n, N] for n in range(N + 1)], seed=N))
    ns = [99, 100, 101, 102, 150, 200, 255, 256, 257, 1000, 5000, 65536, 100000]
    for N in ns:
        fr = [0, 1, 2, N // 10, N // 3, int(N * .59), int(N * .6), int(N * .61), N - 1, N]
        out.append(dict(kind='direct', pairs=[[min(n, N), N] for n in fr], seed=N))
    for _ in range(20 if q else 300):
        N = rng.randrange(1, 10 ** rng.randrange(1, 6))
        out.append(dict(kind='direct', pairs=[[rng.randrange(N + 1), N] for _ in range(8)], seed=rng.randrange(10 ** 6)))
    out.append(dict(kind='direct', pairs=[[0, 0], [1, 10 ** 15], [1000, 10 ** 15], [200, 2 ** 40]], seed=1))
    for N in range(0, 9):
        out.append(dict(kind='hyper', triples=[[N, K, n] for K in range(N + 1) for n in range(N + 1)], reps=4, seed=N))
    for _ in range(15 if q else 200):
        N = rng.randrange(1, 10 ** rng.randrange(1, 12))
        out.append(dict(kind='hyper', triples=[[N, rng.randrange(N + 1), rng.randrange(N + 1)] for _ in range(25)], reps=1, seed=rng.randrange(10 ** 6)))
    for _ in range(150 if q else 2000):
        N = rng.choice([0, 1, 2, 3, 5, 10, 50, 101, 200, 1000, 3000])
        K = rng.choice([0, 1, N // 2, N, N - 1, rng.randrange(N + 1)])
        K = max(0, min(K, N))
        ch = []
        left = N
        while left > 0 and len(ch) < 60:
            c = rng.choice([0, 1, 2, 7, left, left + 5, max(1, left // 2), max(1, left // 10), rng.randrange(left + 1)])
            ch.append(c)
            left -= min(c, left)
        if left > 0:
            ch.append(left)
        out.append(dict(kind='inc', N=N, K=K, chunks=ch, relative=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    for N, K, st in [(10, 3, 4), (1000, 1000, 7), (0, 0, 3), (5, 0, 2), (1, 1, 1), (200, 30, None), (10 ** 5, 10 ** 4, None), (3 * 10 ** 4, 2 * 10 ** 4, 1000), (7, 7, None)]:
        for rel in (True, False):
            out.append(dict(kind='iter', N=N, K=K, step=st, relative=rel, seed=3))
    # chunks whose expected sample is larger than 10**5
    for N, K, ch in [(300000, 250000, [300000]), (400000, 300000, [200000, 200000]), (1000000, 350000, [10, 999990]), (450001, 450001, [450001]),
                     (10 ** 9, 260000, [5 * 10 ** 8, 5 * 10 ** 8])]:
        for rel in (True, False):
            out.append(dict(kind='inc', N=N, K=K, chunks=ch, relative=rel, seed=11))
    for b in (7, 8, 15, 16, 24, 31, 32, 40, 48):
        for rel in (True, False):
            out.append(dict(kind='inc', N=2 ** (b + 1) + 5, K=rng.choice([20, 100]), chunks=[2 ** b - 3, 2, 2, 2, 2 ** b], relative=rel, seed=b))
            out.append(dict(kind='inc', N=2 ** (b + 1) + 5, K=50, chunks=[2 ** (b - 1)] * 6, relative=rel, seed=b))
            out.append(dict(kind="inc", N=2 ** (b + 1) + 5, K=60, chunks=[2 ** (b - 1) - 7] * 6, relative=rel, seed=b))
    out.append(dict(kind='inc', N=10 ** 15, K=1000, chunks=[10 ** 14] * 10, relative=False, seed=2))
    return out


def check_direct(s, n, N, what):
    s = np.asarray(s)
    require(s.shape == (n,), '%s: %s values for n=%d N=%d' % (what, s.shape, n, N))
    if n:
        require(int(s.min()) >= 0 and int(s.max()) < N, '%s: values in [%d, %d] for N=%d' % (what, s.min(), s.max(), N))
        require(len(np.unique(s)) == n, '%s: duplicates for n=%d N=%d' % (what, n, N))


def check_C14(case, tmp):
    import ABXpy.sampling.sampler as sp
    np.random.seed(case['seed'])
    k = case['kind']
    if k == 'direct':
        f = need('ABXpy.sampling.sampler', 'sample_without_replacement')
        for n, N in case['pairs']:
            n, N = min(n, N), N
            check_direct(f(n, N), n, N, 'sample_without_replacement')
            check_direct(f(np.int64(n), np.int64(N)), n, N, 'sample_without_replacement')
            if N <= 100 and hasattr(sp, 'Knuth_sampling'):
                check_direct(sp.Knuth_sampling(n, N), n, N, 'Knuth_sampling')
            if 0 < N and n < .7 * N and hasattr(sp, 'rejection_sampling') and n <= 10 ** 5:
                check_direct(sp.rejection_sampling(n, N), n, N, 'rejection_sampling')
        return dict(nontrivial=True, checks=len(case['pairs']))
    if k == 'hyper':
        f = need('ABXpy.sampling.sampler', 'hypergeometric_sample')
        for N, K, n in case['triples']:
            for _ in range(case['reps']):
                r = f(N, K, n)
                require(int(r) == r and max(0, n + K - N) <= r <= min(n, K), 'hypergeometric_sample(%d, %d, %d) = %s' % (N, K, n, r))
        return dict(nontrivial=True, checks=len(case['triples']))
    S = need('ABXpy.sampling.sampler', 'IncrementalSampler')
    N, K = case['N'], case['K']
    if k == 'iter':
        s = S(N, K, step=case['step'], relative_indexing=case['relative'])
        st = s.step
        pos, allv = 0, []
        for a in s:
            a = np.asarray(a).astype(np.int64)
            size = min(st, N - pos)
            lo = 0 if case['relative'] else pos
            require(a.size == 0 or (a.min() >= lo and a.max() < lo + size), 'iteration: position out of the chunk')
            allv.append(a + (pos if case['relative'] else 0))
            pos += size
        v = np.concatenate(allv) if allv else np.array([], dtype=int)
        require(pos == N, 'the iteration stops at %d of %d' % (pos, N))
        check_direct(v, K, N, 'iteration')
        return dict(nontrivial=0 < K < N)
    s = S(N, K, relative_indexing=case['relative'])
    pos, allv = 0, []
    for c in case['chunks']:
        if pos == N:
            break
        a = np.asarray(s.sample(c)).astype(np.int64)
        size = min(c, N - pos)
        lo = 0 if case['relative'] else pos
        require(a.size == 0 or (a.min() >= lo and a.max() < lo + size),
                'chunk of %d at %d of %d: positions in [%s, %s]' % (size, pos, N, a.min() if a.size else '', a.max() if a.size else ''))
        require(len(np.unique(a)) == len(a), 'chunk of %d at %d: duplicates' % (size, pos))
        allv.append(a + (pos if case['relative'] else 0))
        pos += size
    v = np.concatenate(allv) if allv else np.array([], dtype=int)
    if pos == N:
        check_direct(v, K, N, 'incremental sampling')
    else:
        require(len(v) <= K and len(np.unique(v)) == len(v), 'incremental sampling: %d positions for K=%d' % (len(v), K))
    return dict(nontrivial=0 < K < N, checks=len(case['chunks']))
