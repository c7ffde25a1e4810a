"""Contracts of the uniform time warping (C19)."""
from pyvc.api import *
from pyvc.core import bound

P = 'ABXpy/distances/metrics/utw.py'


def witness(j, off=0):
    """candidate positions of j in the results (positions given by np.where)"""
    out = []
    for k, v in ctx().ghost.get('%cache', {}).items():
        if k[0] == 'where':
            idx, rank, m = v
            out.append(wrap(rank(Zi(j))))
            if off:
                out.append(wrap(rank(Zi(j)) + Zi(m)))
    return out


def occurs(I_, J, i, j):
    """(i, j) is one of the pairs"""
    ws = ctx().ghost.get('coord_witness') or witness(j, 1)
    return Or(*[And(w >= 0, w < J.shape[0], J[w] == j, I_[w] == i) for w in ws])


def well_formed(I_, J, n1, n2):
    return And(I_.shape[0] == J.shape[0],
               forall([(0, J.shape[0])], lambda r: And(J[r] >= 0, J[r] < n2, I_[r] >= 0, I_[r] < n1)))


def once(I_, J):
    return forall([(0, J.shape[0]), (0, J.shape[0])], lambda r, s: Implies(r < s, Not(And(I_[r] == I_[s], J[r] == J[s]))))


def boundary(j, n1, n2):
    """the relative position n1 * (2 j + 1) / (2 n2) is a boundary between frames"""
    return wrap(Zi(n1 * (2 * j + 1)) % Zi(2 * n2)) == 0


def frame(j, n1, n2):
    return wrap(Zi(n1 * (2 * j + 1)) / Zi(2 * n2))


def coords_post(ih, jh, iw, jw, n1, n2, complete=True):
    if not all(isinstance(a, Arr) and a.ndim == 1 and a.dtype.is_int for a in (ih, jh, iw, jw)):
        return [('four vectors of indices', False)]
    out = [('indices of existing frames (whole)', well_formed(iw, jw, n1, n2)),
           ('indices of existing frames (half)', well_formed(ih, jh, n1, n2)),
           ('a frame of the longer sequence with weight one is inside the frame of the shorter one', forall(
               [(0, jw.shape[0])], lambda r: And(Not(boundary(jw[r], n1, n2)), iw[r] == frame(jw[r], n1, n2)))),
           ('a frame of the longer sequence with weight one half is at the boundary of the frame of the shorter one', forall(
               [(0, jh.shape[0])], lambda r: And(boundary(jh[r], n1, n2), Or(ih[r] == frame(jh[r], n1, n2), ih[r] == frame(jh[r], n1, n2) - 1)))),
           ('no pair twice (whole)', once(iw, jw)), ('no pair twice (half)', once(ih, jh))]
    if complete:
        out += [('every frame is compared (whole)', forall([(0, n2)], lambda j: Implies(Not(boundary(j, n1, n2)), occurs(iw, jw, frame(j, n1, n2), j)))),
                ('every frame is compared (half)', forall([(0, n2)], lambda j: Implies(boundary(j, n1, n2), And(
                    occurs(ih, jh, frame(j, n1, n2), j), occurs(ih, jh, frame(j, n1, n2) - 1, j)))))]
    return out


def drive_coords(E):
    n1 = fresh_int('n1', 1)
    n2 = fresh_int('n2', n1)
    # the positions are inside the shorter sequence (non linear arithmetic, stated once)
    j, = bound(1)
    pos = lambda j: n1.e * (2 * j + 1)
    lemma('positions are inside the sequence', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n2.e), z3.And(
        pos(j) > 0, pos(j) < n1.e * (2 * n2.e)))))
    q, k = bound(2)
    lemma('quotients are inside the sequence', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n2.e), z3.And(
        pos(j) / (2 * n2.e) >= 0, pos(j) / (2 * n2.e) < n1.e, z3.Implies(pos(j) % (2 * n2.e) == 0, pos(j) / (2 * n2.e) >= 1)))))
    lemma('a multiple of the divisor has no remainder', z3.ForAll([j], (pos(j) == 2 * n2.e * (pos(j) / (2 * n2.e))) == (pos(j) % (2 * n2.e) == 0)))
    r = E.fn('distance_coordinates')(n1, n2)
    ensures('returns four vectors', isinstance(r, tuple) and len(r) == 4)
    ih, jh, iw, jw = r
    for name, f in spec(coords_post, ih, jh, iw, jw, n1, n2):
        ensures(name, f)


def stub_coords(n1, n2):
    c = ctx()
    c.oblige('called with the shorter sequence first, not empty', And(n1 >= 1, n1 <= n2), 'precondition')
    m, k = fresh_int('nh', 0), fresh_int('nw', 0)
    ih, jh, iw, jw = [fresh_arr(n, (s,), INT64) for n, s in (('ih', m), ('jh', m), ('iw', k), ('jw', k))]
    for name, f in spec(coords_post, ih, jh, iw, jw, n1, n2, False):
        c.assume(f)
    c.ghost['coords'] = (n1, n2, ih, jh, iw, jw)
    return ih, jh, iw, jw


def drive_utw(E):
    nx, ny = fresh_int('nx', 1), fresh_int('ny', 1)
    d = fresh_int('dim', 1)
    x, y = fresh_arr('x', (nx, d), FLOAT64), fresh_arr('y', (ny, d), FLOAT64)
    D_ = z3.Function('frame_distance', R, R, R)

    def D(a, b):          # symmetric: one order of the arguments
        a, b = sorted([z3.simplify(a), z3.simplify(b)], key=lambda t: t.sexpr())
        return D_(a, b)

    def div(u, v):
        ok = isinstance(u, Arr) and isinstance(v, Arr) and u.ndim == 2 and v.ndim == 2
        ctx().oblige('the distance gets two matrices with the same number of frames', And(u.shape[0] == v.shape[0], u.shape[1] == d, v.shape[1] == d) if ok else False, 'precondition')
        fu, fv = u.snap(), v.snap()
        z = z3.IntVal(0)
        return Arr((u.shape[0],), lambda r: D(fu(r, z), fv(r, z)), FLOAT64)
    x0, y0 = x.snap(), y.snap()
    got = E.fn('utw')(x, y, div)
    if 'coords' not in ctx().ghost:
        raise Unsupported_('the alignment is computed otherwise')
    n1, n2, ih, jh, iw, jw = ctx().ghost['coords']
    ensures('the alignment is the one of the two lengths', And(n1 == If(nx <= ny, nx, ny), n2 == If(nx <= ny, ny, nx)))
    z = z3.IntVal(0)
    fih, fjh, fiw, fjw = [t.snap() for t in (ih, jh, iw, jw)]

    def total(short, long_):
        half = symnp.sum_term(lambda r: D(short(fih(r), z), long_(fjh(r), z)), jh.shape[0])
        whole = symnp.sum_term(lambda r: D(short(fiw(r), z), long_(fjw(r), z)), jw.shape[0])
        return half / 2 + whole
    xy, yx = spec(total, x0, y0), spec(total, y0, x0)
    ensures('sum of the distances along the alignment, with their weights', Or(And(nx <= ny, Zr(got) == xy), And(nx >= ny, Zr(got) == yx)))
    ensures('the inputs are not modified', lambda: And(forall([(0, nx), (0, d)], lambda i, j: x[i, j] == wrap(x0(i.e, j.e))),
                                                     forall([(0, ny), (0, d)], lambda i, j: y[i, j] == wrap(y0(i.e, j.e)))))


from pyvc.core import Unsupported as Unsupported_

TARGETS = [
    Target('utw.distance_coordinates', P, drive_coords, ['C19'], assumptions=['no 64 bits overflow of the products of two lengths']),
    Target('utw.utw', P, drive_utw, ['C19'], replace={P: {'distance_coordinates': stub_coords}},
           assumptions=['the frame distance given by the caller is a symmetric function of the rows (here identified by their first coordinate)',
                        'floating point arithmetic is treated as real arithmetic (utw)', 'both sequences have at least one frame']),
]
