#!/usr/bin/env python3
"""check.py PID: decides one property on the current tree of the repository.

1. the deductive verifier (pyvc) generates the obligations of the contracts of
   the property from the current source and discharges them;
2. the same contracts are evaluated on concrete inputs of the real code (the
   bounded stand-in, which also looks for a failing input).

exit 0: held.  exit 1: 'VIOLATION property=<id> replay=<path>'.
"""
import argparse, json, os, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ABX_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'


def known(pid):
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    if a.replay:
        rep = json.load(open(a.replay))
        if 'case' in rep:
            return subprocess.call([PY, os.path.join(HERE, 'harness', 'run.py'), pid, '--out', os.devnull,
                                    '--replay', a.replay])
        a.no_harness = True
    t0 = time.time()
    quick = a.tier != 'thorough'
    tmp = tempfile.mkdtemp(prefix='abxcheck')
    env = dict(os.environ, ABX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(a.seed))
    try:
        ph = pp = None
        ho, po = os.path.join(tmp, 'h.json'), os.path.join(tmp, 'p.json')
        if not a.no_harness:
            ph = subprocess.Popen(
                [PY, os.path.join(HERE, 'harness', 'run.py'), pid, '--out', ho, '--tier', a.tier,
                 '--seed', str(a.seed), '--budget', '120' if quick else '1500', '--jobs', '4' if quick else '6'],
                stdout=open(os.path.join(tmp, 'h.log'), 'w'), stderr=subprocess.STDOUT, env=env, cwd=tmp)
        if not a.no_proof:
            pp = subprocess.Popen(
                [VT, '-m', 'pyvc.prove', pid, '--out', po, '--tier', a.tier, '--budget', '420' if quick else '3000'],
                stdout=open(os.path.join(tmp, 'p.log'), 'w'), stderr=subprocess.STDOUT,
                env=dict(env, PYTHONPATH=HERE), cwd=tmp)
        for p in (ph, pp):
            if p is not None:
                try:
                    p.wait(780 if quick else 7200)
                except subprocess.TimeoutExpired:
                    p.kill()
        H = json.load(open(ho)) if os.path.exists(ho) else None
        P = json.load(open(po)) if os.path.exists(po) else None
        hlog = open(os.path.join(tmp, 'h.log')).read() if ph else ''
        plog = open(os.path.join(tmp, 'p.log')).read() if pp else ''
        if H is not None and P and P['failed'] and not (H['failures'] or H['lost']) and quick:
            # an obligation fails: look harder for an input on which the real code fails
            left = 780 - (time.time() - t0)
            ho2 = os.path.join(tmp, 'h2.json')
            if left > 60:
                ph = subprocess.Popen(
                    [PY, os.path.join(HERE, 'harness', 'run.py'), pid, '--out', ho2, '--tier', 'thorough', '--shuffle',
                     '--seed', str(a.seed + 1), '--budget', str(min(240, left - 30)), '--jobs', '8'],
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=tmp)
                try:
                    ph.wait(left)
                except subprocess.TimeoutExpired:
                    ph.kill()
                if os.path.exists(ho2):
                    H2 = json.load(open(ho2))
                    H['failures'], H['lost'], H['n_failures'] = H2['failures'], H2['lost'], H2['n_failures']
                    H['evaluations'] += H2['evaluations']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if H is None and not a.no_harness:
        # the code under test cannot even be loaded or built
        H = dict(evaluations=0, distinct_nontrivial=0, rule='', bounds='', samples=[], skipped=0, not_run=0,
                 failures=[dict(case=None, error='the real code cannot be loaded:\n' + hlog[-3000:])],
                 n_failures=1, lost=[], checks=0, wall_s=0.)
    if P is None:
        P = dict(functions=[], failed=[], obligations=0, discharged=0, trivial=0, assumptions=[], backends={},
                 solver_s=0., error=plog[-2000:])
    if a.v:
        print(plog)
        if H:
            print(hlog[-2000:])
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    out = []
    bad = (H['failures'] + H['lost']) if H else []
    for f in (H or {}).get('unconfirmed', []):
        print('%s: not a violation, the exception does not happen again on the same case: %s' % (pid, str(f['error']).strip()[-1200:]))
    nproved = [f for f in P['functions'] if f['status'] == 'proved']
    fallback = [f for f in P['functions'] if f['status'] == 'fallback']
    if bad:
        path = os.path.join(replays, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=bad[0]['case'], error=bad[0]['error'],
                           others=[b['error'][:300] for b in bad[1:]],
                           failed_obligations=P['failed'][:20],
                           command='python3 %s %s --replay %s' % (os.path.join(HERE, 'check.py'), pid, path)),
                      f, indent=1, default=str)
        print('%s: %s' % (pid, str(bad[0]['error']).strip().splitlines()[0][:300]))
        for l in str(bad[0]['error']).strip().splitlines()[1:][-12:]:
            print('%s:   %s' % (pid, l[:200]))
        for o in P['failed'][:5]:
            print('%s: obligation not discharged: %s' % (pid, o['name']))
        out.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif P['failed']:
        path = os.path.join(replays, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, failed_obligations=P['failed'],
                           harness=None if H is None else dict(evaluations=H['evaluations']),
                           command='python3 %s %s --replay %s' % (os.path.join(HERE, 'check.py'), pid, path)),
                      f, indent=1, default=str)
        for o in P['failed'][:5]:
            print('%s: obligation not discharged: %s (%s) %s' % (pid, o['name'], o['line'], o['verdict']))
        out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    proved = bool(P['obligations']) and P['discharged'] == P['obligations'] and bool(nproved)
    cov = dict(
        obligations=P['obligations'], discharged=P['discharged'],
        obligations_trivial=P['trivial'],
        checker_cmd='cd /verif && %s -m pyvc.prove %s' % (VT, pid),
        trusted_base=['pyvc (the obligation generator of /verif/pyvc)', 'z3', 'CPython (executes the functions)'] + P.get('trusted', []),
        functions_under_contract=P['functions'], backends=P['backends'], solver_s=round(P['solver_s'], 2),
        fallback_to_bounded=[f['name'] + ': ' + str(f.get('why')) for f in fallback],
        prover_error=P.get('error', ''))
    if H is not None:
        cov['bounded_complement'] = dict(
            label='bounded: not counted as proved', evaluations=H['evaluations'],
            not_confirmed=[dict(case=f['case'], error=str(f['error'])[:2000]) for f in H.get('unconfirmed', [])],
            contract_clauses_evaluated=H['checks'], skipped=H['skipped'], not_run=H['not_run'], bounds=H['bounds'])
        cov.update(evaluations=H['evaluations'], distinct_nontrivial=H['distinct_nontrivial'],
                   rule=H['rule'], samples=H['samples'])
    ev = dict(property=pid, tier='quick' if quick else 'thorough', seed=a.seed,
              level='proof' if proved else 'exploration', coverage=cov,
              assumptions=P['assumptions'], wall_s=round(time.time() - t0, 2),
              violations=len(bad) + len(P['failed']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.replay:
        with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known(pid):
        print(k)
    for l in out:
        print(l)
    if not out:
        print('%s held: %d/%d obligations in %d functions, %d fallback, %d concrete evaluations, %.0f s' % (
            pid, P['discharged'], P['obligations'], len(nproved), len(fallback),
            H['evaluations'] if H else 0, time.time() - t0))
        if P.get('error'):
            print('note: ' + P['error'].strip().splitlines()[-1])
    return 1 if out else 0


if __name__ == '__main__':
    sys.exit(main())
