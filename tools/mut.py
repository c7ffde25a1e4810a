"""mut.py PID FILE OLD NEW [--only T] [--full]: run the prover (or the whole check) on a mutated copy"""
import sys, os, shutil, subprocess, tempfile, argparse
ap = argparse.ArgumentParser()
ap.add_argument('pid'); ap.add_argument('file'); ap.add_argument('old'); ap.add_argument('new')
ap.add_argument('--only'); ap.add_argument('--full', action='store_true'); ap.add_argument('--nth', type=int, default=0)
a = ap.parse_args()
d = tempfile.mkdtemp(prefix='mut')
try:
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    p = os.path.join(d, a.file)
    s = open(p).read()
    assert a.old in s, 'pattern not found'
    parts = s.split(a.old)
    k = a.nth + 1
    s = a.old.join(parts[:k]) + a.new + a.old.join(parts[k:])
    open(p, 'w').write(s)
    env = dict(os.environ, ABX_REPO=d)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if a.full:
        cmd = ['python3', 'check.py', a.pid]
    else:
        cmd = ['python3-vt', '-m', 'pyvc.prove', a.pid] + (['--only', a.only] if a.only else [])
    r = subprocess.run(cmd, cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode()
    print('### %s -> %s' % (a.old, a.new))
    for l in o.splitlines():
        if a.full or not l.startswith('proved'):
            print('  ', l[:260])
finally:
    shutil.rmtree(d, ignore_errors=True)
