"""Contracts of the conversion to h5features (C21) and of the consistency check (C18)."""
from contracts.common import *
from pyvc.core import Lab as LAB

CONV = 'ABXpy/misc/any2h5features.py'
OUT, GROUP = 'out.h5f', '/features/'


class Counter(object):
    """ghost: number of files written so far"""

    def __init__(self):
        self.n = 0
        self.loc = ctx().register(self, 'ghost')

    def vc_kind(self):
        return 'counter'

    def vc_havoc(self, k):
        self.n = fresh_int('written', 0)

    def set(self, n):
        ctx().wrote(self.loc)
        self.n = n


class Loaded(object):
    """content of one feature file"""

    def __init__(self, **d):
        self.d = d

    def __getitem__(self, k):
        if k not in self.d:
            raise Unsupported('field %r' % (k,))
        return self.d[k]

    def get(self, k):
        return self[k]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def conv_facts(g, names, times, feats, base):
    """formulas: the pending lists are those of the files base, base + 1..."""
    p, i, j = bound(3)
    L = Zi(names.__vclen__())
    out = [L == Zi(times.__vclen__()), L == Zi(feats.__vclen__())]
    lists = []
    for l in (names, times, feats):
        a = l.vc_snapshot()
        if a.conc is not None and not a.conc:
            return out
        a._symbolize()
        lists.append(a.fn)
    fn, ft, ff = lists
    F = lambda p: g['F'](base + p)
    r = z3.And(p >= 0, p < L)
    out.append(z3.ForAll([p], z3.Implies(r, Z(fn(p)) == g['ROOT'](F(p)))))
    t, x = ft(p), ff(p)
    if not (isinstance(t, Arr) and isinstance(x, Arr) and t.ndim == 1 and x.ndim == 2):
        raise Unsupported('what is written is not an array')
    P = lambda p: g['PATH'](F(p))
    out.append(z3.ForAll([p], z3.Implies(r, z3.And(Zi(t.shape[0]) == g['T'](P(p)), Zi(x.shape[0]) == g['T'](P(p)), Zi(x.shape[1]) == g['D'](P(p))))))
    out.append(z3.ForAll([p, i], z3.Implies(z3.And(r, i >= 0, i < g['T'](P(p))), t.at(i) == g['TM'](P(p), i))))
    out.append(z3.ForAll([p, i, j], z3.Implies(z3.And(r, i >= 0, i < g['T'](P(p)), j >= 0, j < g['D'](P(p))), x.at(i, j) == g['FT'](P(p), i, j))))
    return out


NAMES = ['as many names as times and features', 'as many names as features', 'names of the files, without extension, in order',
         'shapes of the times and of the features', 'the times are those of the file', 'the features are those of the file']


def conv_stubs(E):
    c = ctx()
    g = c.ghost['conv'] = {}
    k = z3.Const('%k', LAB)
    g['F'] = fresh_fun('file', I, LAB)
    g['ROOT'], g['EXT'] = fresh_fun('root', LAB, LAB), fresh_fun('extension', LAB, LAB)
    JOIN = fresh_fun('join', LAB, LAB, LAB)
    g['folder'] = fresh_lab('folder')
    g['PATH'] = lambda f: JOIN(g['folder'].e, f)
    g['T'], g['D'] = fresh_fun('nframes', LAB, I), fresh_fun('dim', LAB, I)
    g['TM'], g['FT'] = fresh_fun('time', LAB, I, R), fresh_fun('feature', LAB, I, I, R)
    for f in (g['T'], g['D']):
        c.assume(z3.ForAll([k], f(k) >= 0, patterns=[f(k)]))
    g['W'] = Counter()

    def lab_(x):
        if not isinstance(x, (str, SLab)):
            raise Unsupported('path')
        return Z(x)

    def write(filename, group, names, times, features, *a, **kw):
        if a or kw:
            raise Unsupported('options of h5features.write')
        if isinstance(names, list) or isinstance(times, list) or isinstance(features, list):
            names, times, features = [VList(x) if isinstance(x, list) else x for x in (names, times, features)]
        if not all(isinstance(x, VList) for x in (names, times, features)):
            raise Unsupported('arguments of h5features.write')
        W = g['W']
        c = ctx()
        c.oblige('h5features.write: the output and its group', And(filename == OUT, group == GROUP), 'precondition')
        fs = spec(conv_facts, g, names, times, features, Zi(W.n))
        c.oblige('h5features.write: at least one file', Zi(names.__vclen__()) >= 1, 'precondition')
        for n, f in zip(NAMES, fs):
            c.oblige('h5features.write: ' + n, f, 'precondition')
        c.oblige('h5features.write: no more files than given', Zi(W.n) + Zi(names.__vclen__()) <= Zi(g['n']), 'precondition')
        W.set(wrap(Zi(W.n) + Zi(names.__vclen__())))

    def load(p):
        p = lab_(p)
        return Loaded(features=Arr((wrap(g['T'](p)), wrap(g['D'](p))), lambda i, j: g['FT'](p, i, j), FLOAT64),
                      time=Arr((wrap(g['T'](p)),), lambda i: g['TM'](p, i), FLOAT64))
    g['load'] = load
    path = StubModule('os.path', join=lambda a, b: SLab(JOIN(lab_(a), lab_(b))), splitext=lambda a: (SLab(g['ROOT'](lab_(a))), SLab(g['EXT'](lab_(a)))), sep='/')
    return {'h5features': StubModule('h5features', write=write), 'os': StubModule('os', path=path, sep='/'), 'os.path': path}


def drive_conv(E):
    c = ctx()
    g = c.ghost['conv']
    n = g['n'] = fresh_int('files', 0)
    batch = g['batch'] = fresh_int('batch', 1)
    files = VList.sym(n, lambda i: SLab(g['F'](Zi(i))))
    E.fn('any_to_h5features')(g['folder'], files, OUT, GROUP, batch, g['load'])
    ensures('every file is written once', lambda: Zi(g['W'].n) == Zi(n))


def inv_conv(internal_files, times, features, _it, _g, i=None):
    g = _g['conv']
    base, L = Zi(g['W'].n), Zi(internal_files.__vclen__())
    return z3.And(base >= 0, base + L == Zi(_it), *(conv_facts(g, internal_files, times, features, base) + ([L == Zi(i)] if i is not None else [])))


# ------------------------------------------------------------- C18

CHECK = 'ABXpy/verify.py'
FIRST = z3.Function('first_char', LAB, LAB)


class Word(SLab):
    """a non empty string: its first character is another opaque value"""
    __slots__ = ()

    def __getitem__(self, k):
        if k == 0 and not is_sym(k) or isinstance(k, slice) and k in (slice(None, 1), slice(0, 1)):
            return SLab(FIRST(self.e))
        raise Unsupported('character of an opaque string')

    def startswith(self, s):
        if isinstance(s, str) and len(s) == 1:
            return SLab(FIRST(self.e)) == s
        raise Unsupported('startswith')


class Line(object):
    """a line of text: blank, or made of words"""

    def __init__(self, blank, words):
        self.blank, self.words = blank, words

    def strip(self, *a):
        if a:
            raise Unsupported('strip with characters')
        return self
    rstrip = lstrip = strip

    def __bool__(self):
        raise Unsupported('truth of a line')

    def __eq__(self, o):
        raise Unsupported('comparison of a line')

    __hash__ = None

    def split(self, *a):
        if a and a != (None,):
            raise Unsupported('split with a separator')
        return self.words()


class Stripped(Line):
    def __bool__(self):
        return not bool(sbool(self.blank))

    def __eq__(self, o):
        if o == '':
            return sbool(self.blank)
        raise Unsupported('comparison of a line')

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r
    __hash__ = None

    def __vclen__(self):
        raise Unsupported('length of a line')


def _strip(self, *a):
    if a:
        raise Unsupported('strip with characters')
    return Stripped(self.blank, self.words)


Line.strip = Line.rstrip = Line.lstrip = _strip


class Text(object):
    """a text file opened for reading: the header and then the lines"""

    def __init__(self, header, n, line):
        self.header, self.n, self.line = header, n, line
        self.at_header = True

    def readline(self):
        if not self.at_header:
            raise Unsupported('readline after the header')
        self.at_header = False
        return self.header

    def __vc_iter__(self):
        if self.at_header:
            raise Unsupported('iteration from the header')
        self.at_header = None
        return self.n, self.line

    def readlines(self):
        n, f = self.__vc_iter__()
        return VList.sym(n, f)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def check_stubs(E):
    c = ctx()
    fs = Files()
    c.ghost['files'] = fs
    g = c.ghost['check'] = {}
    # header: short ones, or at least four words
    HW = fresh_fun('header_word', I, LAB)
    NH = None
    for k in range(4):
        if c.fork(fresh_bool('%d words in the header' % k)):
            NH = k
            break
    n = fresh_int('words', 4) if NH is None else NH
    g['NH'], g['HW'] = n, HW
    words = lambda f, n: VList.sym(n, lambda i: Word(f(Zi(i)))) if is_sym(n) else VList([Word(f(z3.IntVal(i))) for i in range(n)])
    header = Line(z3.BoolVal(NH == 0), lambda: words(HW, n))
    # lines
    N = g['N'] = fresh_int('lines', 0)
    BL, NW, WD = fresh_fun('blank', I, B), fresh_fun('n_words', I, I), fresh_fun('word', I, I, LAB)
    i, = bound(1)
    c.assume(z3.ForAll([i], z3.And(NW(i) >= 0, BL(i) == (NW(i) == 0)), patterns=[BL(i)]))
    c.assume(z3.ForAll([i], z3.And(NW(i) >= 0, BL(i) == (NW(i) == 0)), patterns=[NW(i)]))
    g['BL'], g['WD'] = BL, WD
    text = Text(header, N, lambda i: Line(BL(Zi(i)), lambda: words(lambda j: WD(Zi(i), j), wrap(NW(Zi(i))))))
    # features: recent or ancient layout
    m = g['m'] = fresh_int('files', 0)
    FILES = g['FILES'] = fresh_arr('files', (m,), OBJ)
    recent = c.fork(fresh_bool('recent layout'))
    known = {'features': 'group', 'features/items': DSet(FILES), 'features/files': 'absent'} if recent else \
            {'features': 'group', 'features/items': 'absent', 'features/files': DSet(FILES)}
    fs.stores['my.features'] = st = H5Store('my.features', known=known)
    fs.exists_['my.features'] = True

    def open_(name, mode='r', *a, **k):
        if name != 'my.item' or mode != 'r' or a or k:
            raise Unsupported('open')
        return text
    g['open'] = open_
    r = fs.modules()
    r['argparse'] = StubModule('argparse')
    return r


def in_files(g, l):
    k, = bound(1, 'k')
    F = g['FILES'].snap()
    return z3.Exists([k], z3.And(k >= 0, k < Zi(g['m']), F(k) == l))


def drive_check(E):
    c = ctx()
    g = c.ghost['check']
    f = E.fn('check')
    verbose = fresh_int('verbose')
    try:
        f('my.item', 'my.features', verbose)
        accepted = True
    except Exception as e:
        if isinstance(e, (AttributeError, TypeError, NameError)):
            raise            # defects of the model or of the code
        accepted = False
    HW = lambda k: SLab(g['HW'](z3.IntVal(k)))
    header = z3.And(Zi(g['NH']) >= 4, *[Zb(x) for x in (HW(0) == '#file', HW(1) == 'onset', HW(2) == 'offset', SLab(FIRST(HW(3).e)) == '#')])
    i, = bound(1)
    present = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Zi(g['N']), z3.Not(g['BL'](i))), in_files(g, g['WD'](i, z3.IntVal(0)))))
    if accepted:
        ensures('what is accepted has the mandatory columns', header)
        ensures('what is accepted refers only to files of the features', present)
    else:
        ensures('what is refused is not consistent', z3.Not(z3.And(header, present)))
    ensures('nothing is written', all(x[0] == 'r' for x in c.ghost['files'].log) and all(x[0] == 'close' for x in c.ghost['files'].stores['my.features'].log))


def inv_check(_it, _g):
    g = _g['check']
    i, = bound(1)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Zi(_it), z3.Not(g['BL'](i))), in_files(g, g['WD'](i, z3.IntVal(0)))))


TARGETS = [
    Target('any2h5features.any_to_h5features', CONV, drive_conv, ['C21'], loops={('any_to_h5features', 0): Spec(inv_conv)}, stubs=conv_stubs,
           assumptions=['assumed contract of h5features.write: appends the items of the lists to the file, in order',
                        'the batch size is at least one', 'the values of a loaded file are arrays (times: one dimension, features: two)',
                        'os.path.join and os.path.splitext are functions of their arguments']),
    Target('verify.check', CHECK, drive_check, ['C18'], loops={('check', 0): Spec(inv_check)}, stubs=check_stubs,
           builtins=lambda E: {'open': ctx().ghost['check']['open']},
           assumptions=[H5, 'contract of text files: readline and the iteration give the lines in order; split and strip on white space',
                        'the names of the files of the features are read as text (h5py)']),
]
