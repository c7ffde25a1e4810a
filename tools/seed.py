"""seed.py: build /verif/seeded/<id>/ from a specification, and confirm it.

  seed.py new ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.py   (OLD/NEW: files or strings)
  seed.py confirm ID...     in a scratch copy: applies, passes the tests, demo passes / fails
  seed.py check ID...       runs the check of the property on a patched scratch copy
"""
import sys, os, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'

DEMO = '''#!/bin/bash
# exit 0: the behaviour is right
cd "${PWD}"
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def new(i, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new)"""
    d = copy()
    try:
        for f, old, nw in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, nw))
        diff = subprocess.check_output(['git', 'diff'], cwd=d).decode()
        assert diff
        o = os.path.join(S, i)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'demo.py'), 'w').write(demo)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rebuild(d):
    """in place build of the extension of a copy when the pyx differs"""
    if subprocess.call(['cmp', '-s', d + '/ABXpy/distances/metrics/dtw/dtw.pyx', '/repo/ABXpy/distances/metrics/dtw/dtw.pyx']):
        subprocess.check_call('rm -f ABXpy/distances/metrics/dtw/*.c ABXpy/distances/metrics/*.so; %s setup.py -q build_ext --inplace >/dev/null 2>&1' % PY, shell=True, cwd=d)


def tests(d):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])
    out = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-rf', '--no-cov', '-p', 'no:cacheprovider', 'test'] , cwd=d, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    return out.strip().splitlines()[-1] + ' ' + ' '.join(l for l in out.splitlines() if l.startswith('FAILED')), out


def demo(i, d):
    t = tempfile.mkdtemp(prefix='demo')
    try:
        shutil.copytree(os.path.join(S, i), t + '/x')
        r = subprocess.run(['bash', t + '/x/demo.sh'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode()[-400:]
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        d = copy()
        try:
            meta = json.load(open(os.path.join(S, i, 'meta.json')))
            if cmd == 'confirm':
                c = demo(i, d)
            subprocess.check_call(['git', 'apply', os.path.join(S, i, 'patch.diff')], cwd=d)
            rebuild(d)
            if cmd == 'confirm':
                x = demo(i, d)
                t, full = tests(d)
                print(i, meta['property'], 'clean', c[0], 'patched', x[0], '| tests:', t)
                if c[0]:
                    print(c[1])
                if '-v' in os.environ.get('SEED', ''):
                    print(x[1], full[-2000:])
            else:
                r = subprocess.run(['python3', 'check.py', meta['property']], cwd=HERE, env=dict(os.environ, ABX_REPO=d),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                print(i, 'exit', r.returncode)
                for l in r.stdout.decode().splitlines()[-6:]:
                    print('    ', l[:220])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()


if __name__ == '__main__':
    main()
