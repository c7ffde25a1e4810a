"""Contracts of the buffered reading and writing of HDF5 datasets (C15)."""
from pyvc.api import *
from pyvc.h5model import DSet, H5Store, H5File
from pyvc.arr import same_dim

PR = 'ABXpy/h5tools/h52np.py'
PW = 'ABXpy/h5tools/np2h5.py'
REAL = 'floating point arithmetic is treated as real arithmetic (portion of the buffer that is occupied, size of the buffers)'
H5 = 'assumed contract of h5py: slices of a dataset are copies of its rows, assignments require equal shapes, resizing keeps the rows (pyvc/h5model.py)'


class Parent(object):
    """what a buffer uses of the object that owns the file"""

    def __init__(self, file_=None, open_=True):
        self.file_open = open_
        self.file = file_
        self.filename = 'file.h5'


# ---------------------------------------------------------------- reading

def end_of(b):
    return b.dataset_end if 'dataset_end' in b.__dict__ else b.n_rows


def pos(b):
    """position of the next row"""
    return b.dataset_ix - (b.buf_len - b.buf_ix)


def same_row(a, i, b, j, ncol):
    return forall([(0, ncol)], lambda k: a[i, k] == b[j, k])


def r_inv(b, D, start, full=True):
    """representation invariant of a reading buffer over the rows [start, end) of D"""
    e = end_of(b)
    if not (isinstance(b.buf, Arr) and b.buf.ndim == 2 and b.buf.dtype == b.type):
        return False
    out = [b.n_rows == e, b.buf_len >= 1, 0 <= b.buf_ix, b.buf_ix <= b.buf_len, start <= pos(b), b.dataset_ix <= e,
           b.buf.shape[0] == b.buf_len, b.buf.shape[1] == b.n_columns, b.minimum_occupied_portion > 0]
    if full:
        out.append(forall([(b.buf_ix, b.buf_len), (0, b.n_columns)], lambda j, k: b.buf[j, k] == D[b.dataset_ix - b.buf_len + j, k]))
    return And(*out)


def progress(b):
    """the buffer is not empty unless everything has been read"""
    return Or(b.buf_ix < b.buf_len, b.dataset_ix == end_of(b))


def reader(E, cls):
    """any state of a reader that satisfies the invariant"""
    C = E.fn(cls)
    b = C.__new__(C)
    n, ncol = fresh_int('rows', 0), fresh_int('columns', 1)
    D = fresh_arr('D', (n, ncol), INT64)
    b.dataset = DSet(D)
    b.parent = Parent()
    b.type = INT64
    b.n_columns = ncol
    b.buf_len = fresh_int('buf_len', 1)
    b.buf_ix = fresh_int('buf_ix', 0, b.buf_len)
    start = fresh_int('start', 0)
    end = fresh_int('end', start, n)
    b.dataset_ix = fresh_int('dataset_ix', start, end)
    if cls == 'H5dataset2NPbuffer':
        b.dataset_end = end
    else:
        requires(end == n)
    b.n_rows = end
    b.minimum_occupied_portion = fresh_real('portion')
    b.buf = fresh_arr('buf', (b.buf_len, ncol), INT64)
    requires(lambda: r_inv(b, D, start))
    return b, D, start, end


def kept(b, D, D0):
    return And(b.dataset.arr is D, b.type is INT64, b.parent.file_open is True)


def drive_refill(cls):
    def drive(E):
        b, D, start, end = reader(E, cls)
        p0, len0, ix0, was_empty = pos(b), b.buf_len, b.dataset_ix, b.buf_ix == b.buf_len
        D0 = D.snap()
        b.refill_buffer()
        ensures('the state of the buffer is consistent', lambda: r_inv(b, D, start))
        ensures('no row is skipped or repeated', pos(b) == p0)
        ensures('an empty buffer is refilled as long as rows are left', progress(b))
        ensures('rows already read from the dataset are not read again', And(b.dataset_ix >= ix0, end_of(b) == end, b.buf_len == len0))
        ensures('the dataset is not modified', lambda: And(b.dataset.arr is D, forall([(0, D.shape[0]), (0, D.shape[1])], lambda i, k: D[i, k] == wrap(D0(i.e, k.e)))))
    return drive


def stub_refill(b):
    """contract of refill_buffer (the state around it is the one of drive_refill)"""
    c = ctx()
    g = c.ghost['reader']
    D, start = g['D'], g['start']
    for f, name in ((lambda: r_inv(b, D, start), 'refill: the state of the buffer is consistent'),):
        c.oblige(name, spec(f), 'precondition')
    p0 = pos(b)
    b.buf_ix = fresh_int('buf_ix', 0, b.buf_len)
    ix0 = b.dataset_ix
    b.dataset_ix = fresh_int('dataset_ix', ix0)
    b.buf[:, :] = fresh_arr('buf', (b.buf_len, b.n_columns), b.type)
    c.assume(spec(lambda: And(r_inv(b, D, start), pos(b) == p0, progress(b), Implies(ix0 >= end_of(b), b.dataset_ix == ix0))))


def rows_are(r, D, p, m, ncol):
    """r is the rows [p, p + m) of D"""
    if not (isinstance(r, Arr) and r.ndim == 2):
        return False
    return And(r.shape[0] == m, r.shape[1] == ncol, forall([(0, m), (0, ncol)], lambda i, k: r[i, k] == D[p + i, k]))


def drive_read(cls):
    def drive(E):
        b, D, start, end = reader(E, cls)
        requires(progress(b))
        ctx().ghost['reader'] = dict(D=D, start=start, p0=pos(b), end=end)
        p0 = pos(b)
        default = ctx().fork(fresh_bool('default'))
        amount = None if default else fresh_int('amount')
        buffered = b.buf_len - b.buf_ix
        try:
            r = b.read() if default else b.read(amount)
        except ValueError:
            ensures('only amounts that are not positive are refused', False if default else amount <= 0)
            ensures('a refused request reads nothing', And(pos(b) == p0))
            return
        except StopIteration:
            ensures('stops only when everything has been read', p0 == end)
            ensures('a reader that stops stays at the end', pos(b) == p0)
            return
        if not default:
            ensures('positive amount', amount > 0)
        ensures('rows are left', p0 < end)
        m = r.shape[0] if isinstance(r, Arr) else -1
        if default:
            ensures('some rows are returned, not more than there are', And(m > 0, m <= end - p0))
        else:
            ensures('as many rows as asked for or as are left', m == If(amount <= end - p0, amount, end - p0))
        ensures('the next rows of the dataset, in order', lambda: rows_are(r, D, p0, m, b.n_columns))
        ensures('the rows returned are not memory of the buffer', And(*[r.st is not x.st for x in (b.buf, D)]) if isinstance(r, Arr) else False)
        ensures('the reader is now after these rows', pos(b) == p0 + m)
        ensures('the state of the buffer is consistent', lambda: And(r_inv(b, D, start), progress(b)))
    return drive


def pieces_ok(data, b, _g):
    g = _g['reader']
    D, p0 = g['D'], g['p0']
    if data.conc is not None and not data.conc:
        return True
    data_ = data
    n = data.__vclen__()

    def ok(p):
        a = data_[p]
        return And(a.shape[0] > 0, a.shape[1] == b.n_columns,
                   forall([(0, a.shape[0]), (0, b.n_columns)], lambda i, k: a[i, k] == D[p0 + off(data, p) + i, k]))
    return forall([(0, n)], ok)


def off(data, p):
    if data.conc is not None:
        r = 0
        for q in range(len(data.conc) - 1, -1, -1):
            r = If(p > q, total_before(data, q + 1), r) if q else If(p > 0, total_before(data, 1) if q == 0 else r, 0)
        return r
    return wrap(data.off(Zi(p)))


def total_before(data, q):
    r = 0
    for x in data.conc[:q]:
        r = r + x.shape[0]
    return r


read_inv = Spec(
    lambda amount, _g, _pre: amount == _pre.amount,
    lambda amount_found, amount: And(amount_found >= 0, amount_found <= amount, amount > 0),
    lambda self, amount_found, _g: pos(self) == _g['reader']['p0'] + amount_found,
    lambda data, amount_found: data.total() == amount_found,
    lambda self, _g: r_inv(self, _g['reader']['D'], _g['reader']['start']),
    lambda self, _g: And(progress(self), end_of(self) == _g['reader']['end']),
    lambda self, data, _g: pieces_ok(data, self, _g),
    variant=lambda amount, amount_found: amount - amount_found)


# creation

def drive_open(cls):
    sub = cls == 'H5dataset2NPbuffer'

    def drive(E):
        C = E.fn(cls)
        n, ncol = fresh_int('rows', 0), fresh_int('columns', 1)
        ty = FLOAT64 if ctx().fork(fresh_bool('float')) else INT16
        D = fresh_arr('D', (n, ncol), ty)
        there = ctx().fork(fresh_bool('exists'))
        st = H5Store(known={'g/d': DSet(D, 'g/d') if there else 'absent'})
        par = Parent(H5File(st))
        size = fresh_real('buf_size')
        portion = fresh_real('portion')
        requires(size > 0)
        requires(portion > 0)
        kw = {}
        start, end = 0, n
        if sub:
            if ctx().fork(fresh_bool('indexes')):
                start = fresh_int('first', 0)
                end = fresh_int('last', start, n)
                kw['indexes'] = (start, end)
        ctx().ghost['reader'] = dict(D=D, start=start)
        try:
            b = C(par, 'g', 'd', size, portion, **kw)
        except IOError:
            ensures('refused only if the dataset does not exist', not there)
            return
        ensures('the dataset exists', there)
        ensures('the state of the buffer is consistent', lambda: And(r_inv(b, D, start), progress(b)))
        ensures('starts at the first row', pos(b) == start)
        ensures('ends after the last row', end_of(b) == end)
        ensures('the rows are kept in their own type', And(b.type == ty, b.buf.dtype == ty))
        ensures('the refill policy is the one requested', b.minimum_occupied_portion == portion)
        ensures('the dataset and the file are those asked for', And(b.dataset is st.items['g/d'], b.parent is par, b.dataset.arr is D, len(st.log) == 0))
    return drive


def drive_state(cls):
    """the predicates on the state"""
    def drive(E):
        b, D, start, end = reader(E, cls)
        ensures('isempty: everything has been read', Iff(b.isempty(), pos(b) == end))
        ensures('buffer_empty', Iff(b.buffer_empty(), b.buf_ix == b.buf_len))
        ensures('dataset_empty: all the rows are in the buffer or have been read', Iff(b.dataset_empty(), b.dataset_ix == end))
    return drive


def drive_next(cls):
    def drive(E):
        b, D, start, end = reader(E, cls)
        requires(progress(b))
        ctx().ghost['reader'] = dict(D=D, start=start)
        p0 = pos(b)
        ensures('is its own iterator', b.__iter__() is b)
        try:
            r = b.__next__()
        except StopIteration:
            ensures('the iteration stops only when everything has been read', p0 == end)
            return
        ensures('the iteration stops at the end', p0 < end)
        m = r.shape[0]
        ensures('gives at least one row, and the next rows in order', lambda: And(m > 0, rows_are(r, D, p0, m, b.n_columns)))
        ensures('the reader is now after these rows', lambda: And(pos(b) == p0 + m, r_inv(b, D, start), progress(b)))
    return drive


def stub_read(b, amount=None):
    c = ctx()
    g = c.ghost['reader']
    D, start = g['D'], g['start']
    c.oblige('read: the state of the buffer is consistent', spec(lambda: And(r_inv(b, D, start), progress(b))), 'precondition')
    if amount is not None and c.fork(sbool(Zi(amount) <= 0)):
        raise ValueError('amount')
    p0, end = pos(b), end_of(b)
    if c.fork(p0 == end):
        raise StopIteration
    m = fresh_int('m', 1)
    if amount is None:
        c.assume(m <= end - p0)
    else:
        c.assume(m == If(amount <= end - p0, amount, end - p0))
    b.buf_ix = fresh_int('buf_ix', 0, b.buf_len)
    b.dataset_ix = fresh_int('dataset_ix', b.dataset_ix)
    b.buf[:, :] = fresh_arr('buf', (b.buf_len, b.n_columns), b.type)
    r = fresh_arr('read', (m, b.n_columns), b.type)
    c.assume(spec(lambda: And(rows_are(r, D, p0, m, b.n_columns), pos(b) == p0 + m, r_inv(b, D, start), progress(b))))
    return r


# ------------------------------------------------ the object owning the file

def h5py_stub(E):
    def File(name, mode='r', *a, **k):
        st = ctx().ghost['store']
        ctx().oblige('opens the file asked for, without emptying it', And(name == st.filename, mode in ('r', 'r+', 'a')), 'precondition')
        st.log.append(('open', mode))
        return H5File(st, mode)
    return {'h5py': StubModule('h5py', File=File)}


def drive_H52NP(E):
    C = E.fn('H52NP')
    n, ncol = fresh_int('rows', 0), fresh_int('columns', 1)
    D = fresh_arr('D', (n, ncol), INT64)
    st = H5Store(known={'g/d': DSet(D, 'g/d')})
    ctx().ghost['store'] = st
    made = []

    def stub_buffer(parent, group, dataset, buf_size=100, minimum_occupied_portion=.25, indexes=None):
        b = (parent, group, dataset, buf_size, minimum_occupied_portion, indexes)
        made.append(b)
        return b
    m = E.mod(PR)
    m.H52NPbuffer = lambda p, g, d, s, o: stub_buffer(p, g, d, s, o)
    m.H5dataset2NPbuffer = lambda p, g, d, s, o, indexes=None: stub_buffer(p, g, d, s, o, indexes)
    managed = ctx().fork(fresh_bool('name'))
    h = C(st.filename if managed else H5File(st))
    sub = ctx().fork(fresh_bool('sub'))
    size, portion, ix = fresh_real('s'), fresh_real('o'), (fresh_int('a'), fresh_int('b'))
    if managed:
        ensures('cannot be used out of a with statement', raises(IOError, lambda: h.add_dataset('g', 'd')) is not None)
    failing = ctx().fork(fresh_bool('failing'))
    seen = None
    try:
        with h as r:
            ensures('the with statement gives the reader, with its file open', And(r is h, h.file_open is True))
            b = r.add_subdataset('g', 'd', size, portion, indexes=ix) if sub else r.add_dataset('g', 'd', size, portion)
            ensures('a buffer over the dataset asked for', b is made[-1] and b[0] is h and b[1:3] == ('g', 'd'))
            ensures('with the parameters requested', And(b[3] == size, b[4] == portion, b[5] is (ix if sub else None) or not sub))
            if failing:
                raise KeyError('x')
    except KeyError as e:
        seen = e
    ensures('exceptions go through', (seen is not None) == failing)
    ensures('the file is closed exactly if it was opened here', [x[0] for x in st.log] == (['open', 'close'] if managed else []))


def Iff(a, b):
    return sbool(Zb(a) == Zb(b))


# ---------------------------------------------------------------- writing

def w_inv(b, W, n0):
    """the rows written so far are the first rows of W: some in the dataset, the others in the buffer"""
    d = b.dataset.arr
    if not (isinstance(b.buf, Arr) and b.buf.ndim == 2 and d.ndim == 2 and b.buf.dtype == b.type and d.dtype == b.type):
        return False
    out = [b.buf_len >= 1, 0 <= b.buf_ix, b.buf_ix < b.buf_len, b.dataset_ix >= 0, b.buf.shape[0] == b.buf_len,
           b.buf.shape[1] == b.n_columns, d.shape[1] == b.n_columns, n0 <= b.n_rows]
    if b.fixed_size:
        out += [b.n_rows == n0, d.shape[0] == n0, b.dataset_ix + b.buf_ix <= n0]
    else:
        out += [d.shape[0] == If(n0 >= b.dataset_ix, n0, b.dataset_ix), b.n_rows <= d.shape[0]]
    return And(*(out + w_rows(b, W)))


def w_rows(b, W):
    d = b.dataset.arr
    return [forall([(0, b.dataset_ix), (0, b.n_columns)], lambda i, k: d[i, k] == W[i, k]),
            forall([(0, b.buf_ix), (0, b.n_columns)], lambda i, k: b.buf[i, k] == W[b.dataset_ix + i, k])]


def written(b):
    return b.dataset_ix + b.buf_ix


def writer(E):
    C = E.fn('NP2H5buffer')
    b = C.__new__(C)
    ncol = fresh_int('columns', 1)
    b.fixed_size = ctx().fork(fresh_bool('fixed'))
    b.type = INT64
    b.buf_len = fresh_int('buf_len', 1)
    b.buf_ix = fresh_int('buf_ix', 0)
    b.dataset_ix = fresh_int('dataset_ix', 0)
    b.n_columns = ncol
    b.parent = Parent()
    n0 = fresh_int('n0', 0)
    if b.fixed_size:
        b.n_rows = n0
    else:
        b.n_rows = fresh_int('n_rows', n0)
    b.buf = fresh_arr('buf', (b.buf_len, ncol), INT64)
    d = fresh_arr('d', (n0 if b.fixed_size else If(n0 >= b.dataset_ix, n0, b.dataset_ix), ncol), INT64)
    b.dataset = DSet(d)
    W = fresh_arr('W', (fresh_int('all', 0), ncol), INT64)
    requires(lambda: w_inv(b, W, n0))
    return b, W, n0


def drive_write(E):
    b, W, n0 = writer(E)
    p0 = written(b)
    m = fresh_int('m', 0)
    data = fresh_arr('data', (m, b.n_columns), INT64)
    requires(lambda: forall([(0, m), (0, b.n_columns)], lambda i, k: W[p0 + i, k] == data[i, k]))
    if b.fixed_size:
        requires(p0 + m <= n0)
    L, t0, ix0 = b.buf_len, b.buf_ix + m, b.dataset_ix
    ctx().ghost['writer'] = dict(W=W, t0=t0, ix0=ix0, n0=n0, fixed=b.fixed_size, L=L)
    p, = bound(1)
    lemma('full buffers fit in the rows that were added', z3.ForAll([p], z3.Implies(p * L.e <= t0.e, p * L.e <= L.e * (t0.e / L.e))))
    lemma('the rows added are a part of the data', And(wrap(L.e * (t0.e / L.e)) <= t0, wrap(L.e * (t0.e / L.e)) >= 0, wrap(L.e * (t0.e / L.e)) + L > t0))
    data0 = data.snap()
    b.write(data)
    ensures('all the rows are in the dataset or in the buffer, once and in order', lambda: w_inv(b, W, n0))
    ensures('as many rows as given', written(b) == p0 + m)
    ensures('the data given are not modified', lambda: forall([(0, m), (0, b.n_columns)], lambda i, k: data[i, k] == wrap(data0(i.e, k.e))))
    ensures('the buffer is not memory of the caller', b.buf.st is not data.st)


def add_(a, b):
    return a + b


write_inv = Spec(
    lambda self, _it, _g: And(self.dataset_ix == _g['writer']['ix0'] + _it * self.buf_len, self.buf_len == _g['writer']['L']),
    lambda target_ix, _it, self, _g: target_ix == _g['writer']['t0'] - _it * self.buf_len,
    lambda self, target_ix: And(0 <= self.buf_ix, self.buf_ix < self.buf_len, self.buf_ix <= target_ix),
    lambda self, data, target_ix: And(data.ndim == 2 and data.dtype == self.type, data.shape[0] == target_ix - self.buf_ix, data.shape[1] == self.n_columns),
    lambda self, data, _g: forall([(0, data.shape[0]), (0, self.n_columns)], lambda i, k: data[i, k] == _g['writer']['W'][written(self) + i, k]),
    lambda self, _g: And(*w_rows(self, _g['writer']['W'])),
    lambda self: And(self.buf.shape[0] == self.buf_len, self.buf.shape[1] == self.n_columns),
    variant=lambda target_ix: target_ix)


def drive_flush(E):
    b, W, n0 = writer(E)
    p0 = written(b)
    b.flush()
    ensures('all the rows are in the dataset, once and in order', lambda: And(w_inv(b, W, n0), b.dataset_ix == p0, b.buf_ix == 0))
    ensures('the dataset has the rows written and no other', b.dataset.shape[0] == (n0 if b.fixed_size else If(n0 >= p0, n0, p0)))
    b.flush()
    ensures('flushing again does nothing', lambda: And(w_inv(b, W, n0), b.dataset_ix == p0, b.buf_ix == 0))


def drive_complete(E):
    b, W, n0 = writer(E)
    requires(b.buf_ix == 0)
    ensures('complete: a fixed size is filled', Iff(b.iscomplete(), True if not b.fixed_size else b.dataset_ix == n0))


def drive_nblines(E):
    size, ncol = fresh_int('item_size', 1), fresh_int('columns', 1)
    mem = fresh_real('mem')
    requires(mem > 0)
    r = E.fn('nb_lines')(size, ncol, mem)
    ensures('at least one line', nb_post(r))


def nb_post(r):
    return And(r >= 1) if isinstance(r, (int, SNum)) and not isinstance(r, bool) and (isinstance(r, int) or r.is_int) else False


def stub_nb_lines(item_size, n_columns, size_in_mem):
    ctx().oblige('nb_lines: positive sizes', And(Z(item_size) >= 1, Z(n_columns) >= 1, Zr(size_in_mem) > 0), 'precondition')
    r = fresh_int('nb_lines')
    ctx().assume(spec(nb_post, r))
    return r


def drive_create(E):
    C = E.fn('NP2H5buffer')
    n, ncol = fresh_int('rows', 0), fresh_int('columns', 1)
    ty = FLOAT64 if ctx().fork(fresh_bool('float')) else INT16
    fixed, over = ctx().fork(fresh_bool('fixed')), ctx().fork(fresh_bool('overwrite'))
    old = None
    if ctx().fork(fresh_bool('exists')):
        oty = ty if ctx().fork(fresh_bool('same_type')) else INT64
        old = DSet(fresh_arr('old', (fresh_int('old_rows', 0), fresh_int('old_columns', 1)), oty))
        old_arr, old_fn = old.arr, old.arr.snap()
        st = H5Store(known={'g/d': old})
    elif ctx().fork(fresh_bool('group')):
        st = H5Store(known={'g': 'group', 'g/d': 'absent'})
    else:
        st = H5Store(known={'g': 'absent'})
    par = Parent(H5File(st))
    chunk, size = fresh_real('chunk'), fresh_real('size')
    requires(chunk > 0)
    requires(size > 0)

    def unchanged():
        return And(st.items['g/d'] is old, old.arr is old_arr, len([x for x in st.log if x[0] != 'create_group']) == 0,
                   forall([(0, old_arr.shape[0]), (0, old_arr.shape[1])], lambda i, k: old_arr[i, k] == wrap(old_fn(i.e, k.e))))
    try:
        b = C(par, 'g', 'd', n, ncol, chunk, size, ty, over, fixed)
    except ValueError:
        ensures('arguments refused only if they are contradictory', Or(And(fixed, n == 0), over and not fixed))
        if old is not None:
            ensures('the existing dataset is not altered by a refusal', unchanged)
        return
    except IOError:
        ensures('refused only if the dataset exists already', old is not None)
        if old is not None:
            same = And(old_arr.shape[0] == n, old_arr.shape[1] == ncol, oty == ty)
            ensures('overwriting a dataset of the right shape is not refused', Not(same) if over else True)
            ensures('the existing dataset is not altered by a refusal', unchanged)
        return
    ensures('contradictory arguments are refused', Not(Or(And(fixed, n == 0), over and not fixed)))
    if old is not None:
        ensures('an existing dataset is refused unless it is to be overwritten', over)
        ensures('overwriting needs the same shape and type', And(old_arr.shape[0] == n, old_arr.shape[1] == ncol, oty == ty))
        ensures('an existing dataset is written in place', b.dataset is old)
    d = st.items.get('g/d')
    ensures('writes in the dataset asked for', b.dataset is d)
    W = fresh_arr('W', (fresh_int('all', 0), ncol), ty)
    ensures('nothing is written yet', lambda: And(w_inv(b, W, n), written(b) == 0))
    ensures('in the type and with the size asked for', And(b.type == ty, d.dtype == ty, b.fixed_size is fixed, b.n_rows == n, b.parent is par))
    ensures('a dataset without fixed size can be extended', True if fixed else d.maxrows is None)


# ------------------------------------------------ the object owning the file

class Buf(object):
    """any buffer: its contract is w_inv, flush, delete and iscomplete"""

    def __init__(self, G, i):
        self.G, self.i = G, i

    def vc_join(self):
        pass

    def vc_fresh(self, name):
        return Buf(self.G, fresh_int(name, 0))

    def flush(self):
        self.G.need_open('flush')
        self.G.flushed[self.i] = 1

    def delete(self):
        self.G.need_open('delete')
        self.G.deleted[self.i] = 1

    def iscomplete(self):
        return sbool(self.G.complete(Zi(self.i)))


class Ghost(object):
    def __init__(self, n, owner):
        self.n, self.owner = n, owner
        self.flushed = Arr((n,), lambda i: z3.IntVal(0), INT64)
        self.deleted = Arr((n,), lambda i: z3.IntVal(0), INT64)
        self.complete = z3.Function('complete', I, B)

    def need_open(self, what):
        ctx().oblige('%s: the file is open' % what, self.owner.file_open is True and self.owner.file.open, 'precondition')


def flushed_inv(_it, _g):
    return forall([(0, _it)], lambda j: _g['bufs'].flushed[j] == 1)


def drive_NP2H5(E):
    C = E.fn('NP2H5')
    st = H5Store(known={})
    ctx().ghost['store'] = st
    made = []
    m = E.mod(PW)
    m.NP2H5buffer = lambda *a: made.append(a) or made[-1]
    managed = ctx().fork(fresh_bool('name'))
    h = C(st.filename if managed else H5File(st))
    if managed:
        ensures('cannot be used out of a with statement', raises(IOError, lambda: h.add_dataset('g', 'd', 1, 1)) is not None)
    failing = ctx().fork(fresh_bool('failing'))
    n = fresh_int('n', 0)
    G = Ghost(n, h)
    ctx().ghost['bufs'] = G
    seen = warn = None
    try:
        with h as w:
            ensures('the with statement gives the writer, with its file open', And(w is h, h.file_open is True))
            a = (fresh_int('r', 1), fresh_int('c', 1), fresh_real('k'), fresh_real('s'), INT16, False, True)
            b = w.add_dataset('g', 'd', *a)
            ensures('a buffer over the dataset asked for, with the parameters requested', And(b is made[-1], b == (h, 'g', 'd') + a))
            ensures('the buffer will be flushed', h.buffers[-1] is b)
            ensures('the number of columns is needed', raises(ValueError, lambda: w.add_dataset('g', 'e')) is not None)
            h.buffers = VList.sym(n, lambda i: Buf(G, i))
            if failing:
                raise KeyError('x')
    except KeyError as e:
        seen = e
    except Warning as e:
        warn = e
    ensures('exceptions go through', (seen is not None) == failing)
    ensures('every buffer is flushed', lambda: forall([(0, n)], lambda j: G.flushed[j] == 1))
    if not failing:
        ensures('an incomplete dataset of a fixed size is reported, and only then', Iff(
            warn is None, sbool(forall([(0, n)], lambda j: sbool(G.complete(Zi(j)))))))
    ops = [x[0] for x in st.log]
    ensures('the file is closed exactly if it was opened here', h.file_open is (not managed) and h.file.open is (not managed))


READERS = ['H52NPbuffer', 'H5dataset2NPbuffer']
TARGETS = []
for _c in READERS:
    TARGETS += [
        Target('%s.refill_buffer' % _c, PR, drive_refill(_c), ['C15', 'C16'], assumptions=[REAL, H5]),
        Target('%s.read' % _c, PR, drive_read(_c), ['C15', 'C16'], loops={('H52NPbuffer.read', 0): read_inv},
               replace={PR: {'%s.refill_buffer' % _c: stub_refill}}, assumptions=[H5]),
        Target('%s.__init__' % _c, PR, drive_open(_c), ['C15', 'C16'], replace={PR: {'%s.refill_buffer' % _c: stub_refill}}, assumptions=[REAL, H5]),
        Target('%s.isempty' % _c, PR, drive_state(_c), ['C15', 'C16'], covers=['%s.isempty' % _c, '%s.buffer_empty' % _c, '%s.dataset_empty' % _c]),
        Target('%s.__next__' % _c, PR, drive_next(_c), ['C15'], replace={PR: {'%s.read' % _c: stub_read}}),
    ]
TARGETS.append(Target('H52NP', PR, drive_H52NP, ['C15'], stubs=h5py_stub, covers=['H52NP.__init__', 'H52NP.__enter__', 'H52NP.__exit__', 'H52NP.add_dataset', 'H52NP.add_subdataset'], assumptions=[H5]))
WR = 'NP2H5buffer.'
TARGETS += [
    Target(WR + 'write', PW, drive_write, ['C15', 'C16'], loops={(WR + 'write', 0): write_inv}, assumptions=[H5, 'a dataset of a fixed size is not given more rows than its size']),
    Target(WR + 'flush', PW, drive_flush, ['C15', 'C16'], assumptions=[H5]),
    Target(WR + 'iscomplete', PW, drive_complete, ['C15', 'C16']),
    Target('nb_lines', PW, drive_nblines, ['C15', 'C16'], assumptions=[REAL]),
    Target(WR + '__init__', PW, drive_create, ['C15', 'C16', 'C20'], replace={PW: {'nb_lines': stub_nb_lines}}, assumptions=[H5]),
    Target('NP2H5', PW, drive_NP2H5, ['C15', 'C16'], stubs=h5py_stub, loops={('NP2H5.__exit__', 0): Spec(flushed_inv), ('NP2H5.__exit__', 1): Spec()},
           covers=['NP2H5.__init__', 'NP2H5.__enter__', 'NP2H5.__exit__', 'NP2H5.add_dataset'], assumptions=[H5]),
]
