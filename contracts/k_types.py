"""Contract of fit_integer_type."""
from pyvc.api import *

P = 'ABXpy/misc/type_fitting.py'


def drive(E):
    f = E.fn('fit_integer_type')
    n = fresh_int('n', 0)
    signed = ctx().fork(fresh_bool('is_signed'))
    types = [INT8, INT16, INT32, INT64] if signed else [UINT8, UINT16, UINT32, UINT64]
    try:
        t = f(n, signed)
    except ValueError:
        ensures('refused only when no 64 bits type can represent the value', n > types[3].maxv)
        return
    ensures('an integer type is returned', isinstance(t, DT) and t.bits is not None and t.is_int)
    ensures('the type has the requested signedness', any(t is u for u in types))
    ensures('the type can represent the value', n <= t.maxv)
    k = types.index(t)
    if k:
        ensures('no smaller type can', n > types[k - 1].maxv)


TARGETS = [Target('fit_integer_type', P, drive, ['C17'])]
