"""Contracts of h5py (assumed): datasets and files of symbolic content.

A dataset is an array whose rows can be read (copies), written (the shapes must
agree: h5py does not extend a dataset on assignment) and resized along the first
dimension (the rows kept are unchanged, the new ones are 0).  A file is a map from
group and dataset names to datasets; opening a closed dataset is not modelled.
"""
import z3
from . import core
from .core import ctx, Z, Zi, num, wrap, Unsupported, is_sym
from .arr import Arr, DT, fresh_arr, as_dt, OBJ, reify_slice


class Attrs(dict):
    check = None              # called when an attribute is written

    def create(self, k, v, *a, **kw):
        self[k] = v

    def modify(self, k, v):
        self[k] = v

    def __setitem__(self, k, v):
        if self.check is not None:
            self.check(k, v)
        dict.__setitem__(self, k, v)


class DSet(object):
    def __init__(self, arr, name='dataset', maxrows=None):
        self.__dict__['arr'] = arr
        self.__dict__['name'] = name
        self.__dict__['maxrows'] = maxrows          # None: any
        self.__dict__['attrs'] = Attrs()
        self.__dict__['loc'] = ctx().register(self, 'ds')

    # heap protocol: only the shape (the content is a storage of its own)
    def vc_kind(self):
        return ('dset', len(self.arr.shape))

    def vc_havoc(self, k):
        a = self.arr
        self.__dict__['arr'] = fresh_arr('dset', (core.fresh_int('rows', 0),) + tuple(a.shape[1:]), a.dtype)

    @property
    def shape(self):
        return self.arr.shape

    @property
    def dtype(self):
        return self.arr.dtype

    @property
    def ndim(self):
        return self.arr.ndim

    @property
    def size(self):
        return self.arr.size

    def __vclen__(self):
        return self.arr.shape[0]

    def __len__(self):
        n = self.arr.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported('length of a symbolic dataset')

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 0:
            return self.arr.copy()
        r = self.arr[k]
        if not isinstance(r, Arr):
            return r
        if k is Ellipsis:
            return r.copy()
        base = [m[1] for m in self.arr.maps]
        if r.ndim and r.st is self.arr.st and all(isinstance(o, int) and o == 0 for o in base) and all(m[0] == 'fix' or m[0] == 'rng' and m[2] == 1 for m in r.maps):
            return reify_slice(r, self.arr, [m if m[0] == 'fix' else ('rng', m[1], m[3]) for m in r.maps])
        return r.copy()

    def __vc_array__(self):
        return self.arr.copy()

    def __vc_iter__(self):
        return self.arr.copy().__vc_iter__()

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 0:
            k = Ellipsis
        self.arr[k] = v

    def resize(self, shape, axis=None):
        if axis is not None or not isinstance(shape, (tuple, list)):
            raise Unsupported('resize along an axis')
        c = ctx()
        a = self.arr
        if len(shape) != a.ndim:
            raise TypeError('new shape length must be equal to rank')
        c.oblige('a dataset is resized to a valid shape, along its first dimension', core.And(
            Z(shape[0]) >= 0 if not is_sym(shape[0]) else shape[0] >= 0,
            *[core.SBool(Zi(s) == Zi(t)) if is_sym(s) or is_sym(t) else s == t for s, t in zip(shape[1:], a.shape[1:])]), 'precondition')
        if self.maxrows is not None:
            c.oblige('the dataset can be extended', Zi(shape[0]) <= Zi(self.maxrows), 'precondition')
        f, n0 = a.snap(), a.shape[0]
        c.wrote(self.loc)
        zero = {'f': z3.RealVal(0), 'b': z3.BoolVal(False)}.get(a.dtype.kind, z3.IntVal(0))
        if a.dtype.kind == 'O':
            raise Unsupported('resize of a dataset of strings')
        self.__dict__['arr'] = Arr((shape[0],) + tuple(a.shape[1:]), lambda i, *j: z3.If(i < Zi(n0), f(i, *j), zero), a.dtype)

    def __setattr__(self, n, v):
        raise Unsupported('attribute of a dataset')


class Group(object):
    """group of a file: names are concrete"""

    def __init__(self, f, path):
        self.__dict__['f'], self.__dict__['path'] = f, path

    @property
    def name(self):
        return '/' + self.path

    @property
    def file(self):
        return self.f.file_

    @property
    def attrs(self):
        return self.f.attr_of(self.path)

    def _p(self, k):
        if not isinstance(k, str):
            raise Unsupported('name of a dataset')
        k = k.strip('/')
        return (self.path + '/' + k) if self.path else k

    def __contains__(self, k):
        return self.f.exists(self._p(k))

    def __vc_contains__(self, k):
        return self.f.exists(self._p(k))

    def __getitem__(self, k):
        return self.f.get(self._p(k))

    def create_group(self, k):
        return self.f.create_group(self._p(k))

    def require_group(self, k):
        p = self._p(k)
        return self.f.get(p) if self.f.exists(p) else self.f.create_group(p)

    def create_dataset(self, name, shape=None, dtype=None, data=None, maxshape=None, chunks=None, **kw):
        return self.f.create_dataset(self._p(name), shape, dtype, data, maxshape, chunks)

    def __delitem__(self, k):
        self.f.delete(self._p(k))

    def keys(self):
        return self.f.keys(self.path)

    def __iter__(self):
        return iter(self.keys())

    def __setattr__(self, n, v):
        raise Unsupported('attribute of a group')


class H5Store(object):
    """content of one file; `unknown(path)` decides about names not seen yet"""

    def __init__(self, filename='file.h5', known=None):
        self.filename = filename
        self.items = dict(known or {})       # path -> DSet, 'group' or 'absent'
        self.log = []
        self.created = set()          # groups created here: nothing else is in them
        self.attrs = {}
        self.empty = False            # nothing but what is known
        self.file_ = None

    def attr_of(self, p):
        return self.attrs.setdefault(p, Attrs())

    def state(self, p):
        if p in self.items:
            return self.items[p]
        # a parent absent: absent
        parts = p.split('/')
        for n in range(1, len(parts)):
            q = '/'.join(parts[:n])
            if self.items.get(q) == 'absent':
                return 'absent'
        if any('/'.join(parts[:n]) in self.created for n in range(1, len(parts))):
            return 'absent'
        for q, v in self.items.items():
            if q.startswith(p + '/') and v != 'absent':
                return 'group'
        if self.empty:
            return 'absent'
        raise Unsupported('%s: not known whether it is in the file' % p)

    def exists(self, p):
        return self.state(p) != 'absent'

    def get(self, p):
        s = self.state(p)
        if isinstance(s, str) and s == 'absent':
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)
        return Group(self, p) if isinstance(s, str) else s

    def mark(self, p):
        parts = p.split('/')
        for n in range(1, len(parts)):
            q = '/'.join(parts[:n])
            if self.items.get(q) == 'absent':
                self.created.add(q)
            if self.items.get(q) == 'absent' or q not in self.items:
                self.items[q] = 'group'

    def create_group(self, p):
        if self.exists(p):
            raise ValueError('Unable to create group (name already exists)')
        self.mark(p)
        self.items[p] = 'group'
        self.created.add(p)
        self.log.append(('create_group', p))
        return Group(self, p)

    def create_dataset(self, p, shape, dtype, data, maxshape, chunks):
        if self.exists(p):
            raise RuntimeError('Unable to create link (name already exists)')
        c = ctx()
        if data is not None:
            from . import symnp
            a = symnp.np_array(data)
            d = DSet(a.copy() if dtype is None else a.astype(dtype), p, maxrows=a.shape[0] if maxshape is None else None)
        else:
            shape = shape if isinstance(shape, (tuple, list)) else (shape,)
            for s in shape:
                c.oblige('dimensions of a dataset', Zi(s) >= 0, 'precondition')
            if chunks is not None and not isinstance(chunks, bool):
                for s in chunks:
                    c.oblige('chunks of a dataset', Zi(s) >= 1, 'precondition')
            dt = as_dt(dtype) if dtype is not None else core.__dict__.get('FLOAT32')
            zero = {'f': z3.RealVal(0), 'b': z3.BoolVal(False)}.get(dt.kind, z3.IntVal(0))
            d = DSet(Arr(shape, lambda *i: zero, dt), p, maxrows=shape[0] if maxshape is None else maxshape[0])
        self.mark(p)
        self.items[p] = d
        self.log.append(('create_dataset', p))
        return d

    def delete(self, p):
        if not self.exists(p):
            raise KeyError(p)
        self.items[p] = 'absent'
        self.log.append(('delete', p))

    def keys(self, p):
        pre = p + '/' if p else ''
        return sorted({q[len(pre):].split('/')[0] for q, v in self.items.items() if q.startswith(pre) and q != p and v != 'absent'})


class H5File(Group):
    def __init__(self, store, mode='a'):
        Group.__init__(self, store, '')
        self.__dict__['open'] = True
        self.__dict__['mode'] = mode
        store.file_ = self

    @property
    def filename(self):
        return self.f.filename

    def close(self):
        self.__dict__['open'] = False
        self.f.log.append(('close',))

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False
