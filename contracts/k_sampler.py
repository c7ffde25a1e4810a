"""Contracts of the samplers (C14)."""
from pyvc.api import *

P = 'ABXpy/sampling/sampler.py'
REAL = 'floating point arithmetic is treated as real arithmetic (sampler)'
RNG = 'assumed contract of numpy.random: rand() in [0, 1), randint(a, b, n) gives n integers of [a, b)'


def distinct(a, lo, hi):
    """all the values of a are distinct and in [lo, hi)"""
    return And(forall([(0, a.shape[0])], lambda j: And(a[j] >= lo, a[j] < hi)),
               forall([(0, a.shape[0]), (0, a.shape[0])], lambda i, j: Implies(i < j, Not(a[i] == a[j]))))


def is_sample(r, n, N):
    """contract of the functions drawing n out of N"""
    if not isinstance(r, Arr) or r.ndim != 1:
        return False
    return And(r.shape[0] == n, distinct(r, 0, N))


def drive_draw(name):
    def drive(E):
        f = E.fn(name)
        N = fresh_int('N', 0)
        n = fresh_int('n', 0, N)
        r = f(n, N)
        ensures('returns exactly n distinct integers of [0, N)', lambda: is_sample(r, n, N))
    return drive


def stub_draw(n, N, dtype=INT64):
    c = ctx()
    c.oblige('called with 0 <= n <= N', And(n >= 0, n <= N) if is_sym(n) or is_sym(N) else (0 <= n <= N), 'precondition')
    dt = as_dt(dtype)
    c.oblige('the positions are representable in the type asked for', Implies(Z(n) > 0, Z(N) <= Z(dt.maxv) + 1) if dt.is_int and dt.bits != 64 else dt.is_int, 'precondition')
    r = fresh_arr('sample', (n,), dt)
    c.assume(spec(is_sample, r, n, N))
    return r


from pyvc.core import is_sym
from pyvc.arr import as_dt

knuth_inv = Spec(
    lambda m, n: And(0 <= m, m <= n),
    lambda t, m, n, N: And(t >= m, n - m <= N - t),
    lambda sample, n: sample.shape[0] == n,
    lambda sample, m, t: forall([(0, m)], lambda j: And(sample[j] >= 0, sample[j] < t)),
    lambda sample, m: forall([(0, m), (0, m)], lambda i, j: Implies(i < j, Not(sample[i] == sample[j]))))

reject_inv = Spec(
    lambda remaining, n, sample: remaining == n - sample.shape[0],
    lambda remaining: remaining >= 0,
    lambda sample, N: distinct(sample, 0, N))


# ------------------------------------------------------------ hypergeometric

def hyper_post(k, N, K, n):
    if not (isinstance(k, int) or isinstance(k, SNum) and k.is_int):
        return False
    return And(k >= 0, k <= K, k <= n, n - k <= N - K)


def drive_hyper(E):
    N = fresh_int('N', 0)
    K = fresh_int('K', 0, N)
    n = fresh_int('n', 0, N)
    k = E.fn('hypergeometric_sample')(N, K, n)
    ensures('as many as the two urns allow, neither more nor less', lambda: hyper_post(k, N, K, n))


def stub_hyper(N, K, n):
    c = ctx()
    c.oblige('called with K <= N and n <= N', And(0 <= Z(K), Z(K) <= Z(N), 0 <= Z(n), Z(n) <= Z(N)), 'precondition')
    k = fresh_int('k')
    c.assume(spec(hyper_post, k, N, K, n))
    return k


# ------------------------------------------------------------ the class

def sampler(E, relative=None):
    cls = E.fn('IncrementalSampler')
    s = cls.__new__(cls)
    s.N = fresh_int('N', 0)
    s.K = fresh_int('K', 0, s.N)
    s.initial_N = fresh_int('N0', s.N)
    s.relative_indexing = ctx().fork(fresh_bool('relative')) if relative is None else relative
    s.type = INT64
    s.step = fresh_int('step', 1)
    return s


def drive_init(E):
    cls = E.fn('IncrementalSampler')
    N = fresh_int('N', 0)
    K = fresh_int('K', 0)
    rel = ctx().fork(fresh_bool('relative'))
    step = None if ctx().fork(fresh_bool('default_step')) else fresh_int('step', 1)
    try:
        s = cls(N, K, step, rel)
    except AssertionError:
        ensures('refused only when K > N', K > N)
        return
    ensures('accepted only when K <= N', K <= N)
    ensures('nothing is sampled yet', And(s.N == N, s.K == K, s.initial_N == N))
    ensures('the indexing is the one requested', s.relative_indexing is rel or s.relative_indexing == rel)
    ensures('iterating makes progress', Implies(N > 0, s.step > 0))
    ensures('the step requested is used', True if step is None else s.step == step)


def simple_post(r, n, N0, K0, s):
    return And(s.N == N0 - n, s.K >= 0, s.K <= s.N, r.shape[0] == K0 - s.K, distinct(r, 0, n))


def drive_simple(E):
    s = sampler(E)
    N0, K0 = s.N, s.K
    i0, rel = s.initial_N, s.relative_indexing
    n = fresh_int('n', 0, N0)
    r = s.simple_sample(n)
    ensures('distinct positions of the chunk, and the state is updated', lambda: simple_post(r, n, N0, K0, s))
    ensures('the rest of the state is kept', And(s.initial_N == i0, s.relative_indexing == rel))
    ensures('positions of 64 bits, so that adding the position of the chunk cannot wrap around', r.dtype.is_int and r.dtype.bits == 64)


def stub_simple(self, n):
    c = ctx()
    N0, K0 = self.N, self.K
    c.oblige('called with a chunk inside what remains', And(0 <= Z(n), Z(n) <= Z(N0), 0 <= Z(K0), Z(K0) <= Z(N0)), 'precondition')
    self.N = N0 - n
    self.K = fresh_int('K')
    r = fresh_arr('part', (K0 - self.K,), INT64)
    c.assume(spec(simple_post, r, n, N0, K0, self))
    return r


def sample_post(r, n, N0, K0, initial, relative, s):
    """n: what is asked for"""
    m = If(n <= N0, n, N0)
    off = 0 if relative else initial - N0
    return And(s.N == N0 - m, s.K >= 0, s.K <= s.N, r.shape[0] == K0 - s.K,
               distinct(r, off, off + m))


def drive_sample(E):
    s = sampler(E)
    N0, K0, i0, rel, step = s.N, s.K, s.initial_N, s.relative_indexing, s.step
    requires(N0 > 0)
    n = fresh_int('n', 0)
    g = ctx().ghost
    g['n0'], g['N0'], g['K0'] = If(n <= N0, n, N0), N0, K0
    use_times()
    r = s.sample(n)
    ensures('distinct positions inside the chunk, as many as removed from K', lambda: sample_post(r, n, N0, K0, i0, rel, s))
    ensures('the rest of the state is kept', And(s.initial_N == i0, s.relative_indexing == rel, s.step == step))


def piece_ok(sample, chunk_size, p, n0):
    a = sample[p]
    return And(forall([(0, a.shape[0])], lambda j: And(a[j] >= times(p, chunk_size), a[j] < times(p, chunk_size) + chunk_size, a[j] < n0)),
               forall([(0, a.shape[0]), (0, a.shape[0])], lambda i, j: Implies(i < j, Not(a[i] == a[j]))))


from pyvc.shims import vlen

sample_inv = Spec(
    lambda sample, i: And(i >= 0, vlen(sample) == i),
    lambda n, _g: And(n >= 0, n <= _g['n0']),
    lambda chunk_size: chunk_size > 0,
    lambda n, i, chunk_size, _g: Implies(n > 0, _g['n0'] - n == i * chunk_size),
    lambda n, i, chunk_size, _g: i * chunk_size >= _g['n0'] - n,
    lambda i, n, _g: Implies(n < _g['n0'], i > 0),
    lambda self, n, _g: self.N == _g['N0'] - (_g['n0'] - n),
    lambda self: And(self.K >= 0, self.K <= self.N),
    lambda self, sample, _g: sample.total() == _g['K0'] - self.K,
    lambda sample, i, chunk_size, _g: forall([(0, i)], lambda p: piece_ok(sample, chunk_size, p, _g['n0'])))


# ------------------------------------------------------------ whole iterations

CLIENT = '''
def client(s, chunk):
    """any sequence of chunks until everything has been seen"""
    parts = []
    while s.N > 0:
        parts.append(s.sample(chunk()))
    return parts
'''


def drive_next(E):
    s = sampler(E)
    N0, K0 = s.N, s.K
    nxt = getattr(s, '__next__', None)
    ensures('the sampler is iterable', nxt is not None and iter_is_self(s))
    try:
        r = nxt()
    except StopIteration:
        ensures('stops only when everything has been seen, all the items having been sampled', And(N0 == 0, K0 == 0))
        return
    ensures('stops when everything has been seen', N0 > 0)
    ensures('gives the next chunk', lambda: sample_post(r, s.step, N0, K0, s.initial_N, s.relative_indexing, s))
    ensures('makes progress', s.N < N0)


def iter_is_self(s):
    return s.__iter__() is s


def stub_sample(self, n, dtype=INT64):
    c = ctx()
    N0, K0 = self.N, self.K
    c.oblige('called before the end', And(Z(N0) > 0, Z(n) >= 0, Z(K0) <= Z(N0), Z(K0) >= 0), 'precondition')
    self.N, self.K = fresh_int('N'), fresh_int('K')
    r = fresh_arr('chunk', (K0 - self.K,), INT64)
    c.assume(spec(sample_post, r, n, N0, K0, self.initial_N, self.relative_indexing, self))
    return r


HY = 'hypergeometric_sample'
TARGETS = [
    Target('Knuth_sampling', P, drive_draw('Knuth_sampling'), ['C14', 'C03'], loops={('Knuth_sampling', 0): knuth_inv}, assumptions=[REAL, RNG]),
    Target('rejection_sampling', P, drive_draw('rejection_sampling'), ['C14', 'C03'], loops={('rejection_sampling', 0): reject_inv}, assumptions=[RNG]),
    Target('sample_without_replacement', P, drive_draw('sample_without_replacement'), ['C14', 'C03'],
           replace={P: {'Knuth_sampling': stub_draw, 'rejection_sampling': stub_draw}}, assumptions=[REAL]),
    Target(HY, P, drive_hyper, ['C14'], loops={(HY, 0): Spec()}, assumptions=[REAL, RNG]),
    Target('IncrementalSampler.__init__', P, drive_init, ['C14']),
    Target('IncrementalSampler.simple_sample', P, drive_simple, ['C14'],
           replace={P: {'sample_without_replacement': stub_draw, HY: stub_hyper}}),
    Target('IncrementalSampler.sample', P, drive_sample, ['C14'], loops={('IncrementalSampler.sample', 0): sample_inv},
           replace={P: {'IncrementalSampler.simple_sample': stub_simple}}, assumptions=[REAL]),
    Target('IncrementalSampler.next', P, drive_next, ['C14'], replace={P: {'IncrementalSampler.sample': stub_sample}}),
]
