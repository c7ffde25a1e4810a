"""Common part of the concrete contract checks (run under /opt/venv).

The real code is imported from the repository's working tree; the Cython
extension is rebuilt from the current dtw.pyx into a scratch directory (the
built one is ignored by git and can be stale).
"""
import importlib, importlib.util, os, shutil, subprocess, sys, tempfile, json
import signal, time, warnings, hashlib, random

REPO = os.environ.get('ABX_REPO', '/repo')
PY = '/opt/venv/bin/python'


class Skip(Exception):
    """the case does not apply to this tree (a helper was renamed, ...)"""


class Failure(Exception):
    pass


def fail(msg):
    raise Failure(msg)


def require(cond, msg):
    if not cond:
        raise Failure(msg)


def need(module, *names):
    mod = importlib.import_module(module)
    out = []
    for n in names:
        o = mod
        for part in n.split('.'):
            if not hasattr(o, part):
                raise Skip('%s.%s not found' % (module, n))
            o = getattr(o, part)
        out.append(o)
    return out[0] if len(out) == 1 else out


def find_pyx():
    for root, _, files in os.walk(os.path.join(REPO, 'ABXpy')):
        for f in files:
            if f == 'dtw.pyx':
                return os.path.join(root, f)
    return None


def build_dtw(scratch):
    """cythonize + compile the current dtw.pyx into scratch; returns path"""
    src = find_pyx()
    if src is None:
        return None
    d = os.path.join(scratch, 'dtwbuild')
    os.makedirs(d)
    shutil.copy(src, os.path.join(d, 'dtw.pyx'))
    code = (
        "import numpy, sys\n"
        "from setuptools import setup, Extension\n"
        "from Cython.Build import cythonize\n"
        "setup(name='dtwx', script_args=['-q','build_ext','--inplace'],"
        " ext_modules=cythonize([Extension('dtw',['dtw.pyx'],"
        "extra_compile_args=['-O3','-w'],include_dirs=[numpy.get_include()])],"
        "quiet=True))\n")
    r = subprocess.run([PY, '-W', 'ignore', '-c', code], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    so = [f for f in os.listdir(d) if f.endswith('.so')]
    if not so:
        raise RuntimeError('cannot build dtw.pyx:\n' + r.stdout.decode()[-3000:])
    return os.path.join(d, so[0])


def load_dtw(path):
    if path is None:
        return
    name = 'ABXpy.distances.metrics.dtw'
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    pkg = importlib.import_module('ABXpy.distances.metrics')
    sys.modules[name] = m
    pkg.dtw = m


def init_repo(so=None):
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    for k in [k for k in sys.modules if k == 'ABXpy' or k.startswith('ABXpy.')]:
        del sys.modules[k]
    import ABXpy
    assert os.path.realpath(ABXpy.__file__).startswith(os.path.realpath(REPO)), ABXpy.__file__
    # load the extension without running the package's own import of it
    if so is not None:
        name = 'ABXpy.distances.metrics.dtw'
        spec = importlib.util.spec_from_file_location(name, so)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        import ABXpy.distances.metrics as pkg
        pkg.dtw = m


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout('no answer after the time limit (non-termination)')


def run_case(fn, case, limit=150):
    """-> (status, info): 'ok'/'skip'/'fail'"""
    tmp = tempfile.mkdtemp(prefix='abxcase')
    cwd = os.getcwd()
    os.chdir(tmp)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        info = fn(case, tmp)
        return 'ok', info
    except Skip as e:
        return 'skip', str(e)
    except Failure as e:
        return 'fail', str(e)
    except Timeout as e:
        return 'fail', str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        import traceback
        return 'fail', 'raised %s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


class quiet(object):
    """silence stdout/stderr of the code under test (fd level)"""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.saved = os.dup(1), os.dup(2)
        self.null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.null, 1); os.dup2(self.null, 2)

    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(self.saved[0], 1); os.dup2(self.saved[1], 2)
        for fd in self.saved + (self.null,):
            os.close(fd)
