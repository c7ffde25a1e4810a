"""Stubs shared by the contracts: integer types, files, paths."""
from pyvc.api import *
from pyvc.h5model import H5Store, H5File, DSet, Group, Attrs
from pyvc.core import is_sym, Unsupported

H5 = 'assumed contract of h5py (pyvc/h5model.py)'


def stub_fit_integer_type(n, is_signed=True):
    """contract proved in k_types"""
    c = ctx()
    c.oblige('fit_integer_type: called with a positive number', Z(n) >= 0, 'precondition')
    dt = symbolic_int('fit') if is_signed else symbolic_uint('fit')
    if c.fork(sbool(Zi(n) > (2 ** 63 - 1 if is_signed else 2 ** 64 - 1))):
        raise ValueError('no type')
    c.assume(dt.maxv >= wrap(Zi(n)))
    return dt


class Files(object):
    """the file system: what exists is decided by the contract"""

    def __init__(self, stores=None, exists=None):
        self.stores = stores or {}            # name -> H5Store
        self.exists_ = dict(exists or {})     # name -> bool
        self.log = []
        self.protected = set()                # may not be opened for writing

    def exists(self, name):
        if not isinstance(name, str):
            raise Unsupported('name of a file')
        if name in self.exists_:
            return self.exists_[name]
        raise Unsupported('%s: not known whether it exists' % name)

    def File(self, name, mode='r', *a, **k):
        self.log.append((mode, name))
        if mode != 'r' and name in self.protected:
            from pyvc.core import PathEnd
            ctx().oblige('an existing result is not opened for writing', False, 'precondition')
            raise PathEnd('protected file')
        if mode in ('w', 'w-', 'x'):
            if mode != 'w' and self.exists(name):
                raise IOError('Unable to create file')
            self.stores[name] = H5Store(name)
            self.stores[name].created.add('')
            self.stores[name].empty = True
            self.exists_[name] = True
        if not self.exists(name):
            if mode == 'a':
                self.stores[name] = H5Store(name)
                self.stores[name].empty = True
                self.exists_[name] = True
            else:
                raise IOError('Unable to open file')
        if name not in self.stores:
            raise OSError('Unable to open file (file signature not found)')
        f = H5File(self.stores[name], mode)
        return f

    def writes(self):
        return [x for x in self.log if x[0] != 'r']

    def modules(self):
        import os.path as op

        def conc(f):
            def g(*a):
                if all(isinstance(x, str) for x in a):
                    return f(*a)
                raise Unsupported('path that is not concrete')
            return g
        path = StubModule('os.path', exists=self.exists, isfile=self.exists, splitext=conc(op.splitext), basename=conc(op.basename),
                          join=conc(op.join), dirname=conc(op.dirname), abspath=conc(op.abspath), sep='/',
                          getsize=lambda f: fresh_int('size', 0))

        def remove(name):
            self.log.append(('remove', name))
            self.exists_[name] = False
            self.stores.pop(name, None)
        return {'h5py': StubModule('h5py', File=self.File, special_dtype=lambda **k: __import__('pyvc.arr', fromlist=['OBJ']).OBJ),
                'os': StubModule('os', path=path, remove=remove, sep='/'), 'os.path': path}


def files_stub(E):
    """the files are given by the contract: ctx().ghost['files']"""
    fs = Files()
    ctx().ghost['files'] = fs
    return fs.modules()


class RowReader(object):
    """contract of the buffered reader (proved in k_h5buf): iterating gives the rows of
    [start, end) once and in order, in non empty pieces"""

    def __init__(self, arr, start, end):
        from pyvc.core import fresh_fun
        self.arr, self.start, self.end = arr, start, end
        off = fresh_fun('piece', I, I)
        self.off = lambda k: wrap(off(Zi(k)))
        self.n = fresh_int('pieces', 0)
        c = ctx()
        k, = bound(1)
        k2 = bound(2)[1]
        c.assume(off(z3.IntVal(0)) == Zi(start))
        c.assume(off(Zi(self.n)) == Zi(end))
        c.assume(fa([k], z3.Implies(z3.And(k >= 0, k < Zi(self.n)), z3.And(off(k) < off(k + 1), off(k) >= Zi(start), off(k + 1) <= Zi(end))), off(k)))

    def __vc_iter__(self):
        return self.n, self.item

    def item(self, k):
        f = self.arr.snap()
        a = self.off(k)
        n = wrap(z3.simplify(Zi(self.off(k + 1)) - Zi(a)))
        return Arr((n,) + tuple(self.arr.shape[1:]), lambda i, *j: f(Zi(a) + i, *j), self.arr.dtype)
