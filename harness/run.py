"""run.py PID --out FILE [--tier quick|thorough] [--seed N] [--replay FILE]

Evaluates the contracts of a property on concrete inputs of the real code.
"""
import argparse, json, os, sys, time, tempfile, shutil, hashlib, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
import hx

MODULES = {
    'C01': 'h_task', 'C02': 'h_task', 'C03': 'h_task', 'C04': 'h_task',
    'C05': 'h_task', 'C06': 'h_task', 'C07': 'h_task',
    'C08': 'h_dist', 'C09': 'h_dist', 'C23': 'h_dist',
    'C10': 'h_metrics', 'C11': 'h_metrics', 'C19': 'h_metrics',
    'C12': 'h_score', 'C13': 'h_score', 'C14': 'h_sampler',
    'C15': 'h_io', 'C16': 'h_io', 'C17': 'h_types',
    'C18': 'h_misc', 'C20': 'h_misc', 'C21': 'h_misc'}


class NoDaemonProcess(multiprocessing.Process):
    pass


def worker(pid, so, cases, q, deadline):
    hx.init_repo(so)
    mod = __import__(MODULES[pid])
    fn = getattr(mod, 'check_' + pid)
    for n, case in cases:
        if time.time() > deadline:
            q.put((n, 'late', None))
            continue
        with hx.quiet():
            st, info = hx.run_case(fn, case)
        q.put((n, st, info))
    q.put(None)


def confirm(pid, so, case):
    for k in range(5):
        q = multiprocessing.Queue()
        p = multiprocessing.Process(target=worker, args=(pid, so, [(0, case)], q, time.time() + 200))
        p.start()
        try:
            m = q.get(timeout=200)
        except Exception:
            m = (0, 'fail', None)
        p.join(2)
        if p.is_alive():
            p.kill()
        if m[1] == 'fail':
            return True
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--out', required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=60.)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--replay')
    ap.add_argument('--shuffle', action='store_true', help='deep search: stop at the first failure')
    a = ap.parse_args()
    pid = a.pid
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='abxh')
    tempfile.tempdir = scratch
    try:
        so = hx.build_dtw(scratch)
        hx.init_repo(so)
        import random
        mod = __import__(MODULES[pid])
        if a.replay:
            cases = [json.load(open(a.replay))['case']]
        else:
            rng = random.Random('%s-%d' % (pid, a.seed))
            cases = list(getattr(mod, 'cases_' + pid)(rng, a.tier))
            if a.shuffle:
                rng.shuffle(cases)
        # every case must survive a round trip: it is what a replay reads
        cases = json.loads(json.dumps(cases))
        jobs = 1 if a.replay else max(1, min(a.jobs, len(cases)))
        q = multiprocessing.Queue()
        deadline = time.time() + a.budget
        procs = []
        for j in range(jobs):
            p = multiprocessing.Process(
                target=worker,
                args=(pid, so, list(enumerate(cases))[j::jobs], q, deadline))
            p.start()
            procs.append(p)
        res = {}
        alive = jobs
        hard = deadline + 400
        while alive:
            try:
                m = q.get(timeout=5)
            except Exception:
                if time.time() > hard:
                    break
                if not any(p.is_alive() for p in procs) and q.empty():
                    break
                continue
            if m is None:
                alive -= 1
            else:
                res[m[0]] = m[1:]
                if a.shuffle and m[1] == 'fail':
                    break
        for p in procs:
            p.join(0 if a.shuffle else 2)
            if p.is_alive():
                p.kill()
        crashed = [n for n in range(len(cases)) if n not in res]
        fails = []
        for n in sorted(res):
            if res[n][0] == 'fail':
                fails.append(dict(case=cases[n], error=res[n][1]))
        # an exception is reported when the same case raises again (one of five fresh processes)
        unconfirmed = []
        if fails and not a.replay and all(str(f['error']).startswith('raised ') for f in fails):
            for f in fails[:6]:
                if confirm(pid, so, f['case']):
                    break
            else:
                unconfirmed, fails = fails, []
        # a worker killed by the code under test (hard crash)
        lost = []
        for n in crashed[:0 if a.shuffle else 1]:
            if a.replay or any(p.exitcode not in (0, None) for p in procs):
                lost.append(dict(case=cases[n], error='the process died'))
        done = [n for n in res if res[n][0] in ('ok', 'fail')]
        nontriv = {json.dumps(cases[n], sort_keys=True) for n in done
                   if res[n][0] == 'fail' or (res[n][1] or {}).get('nontrivial', True)}
        out = dict(
            property=pid, evaluations=len(done),
            distinct_nontrivial=len(nontriv),
            skipped=len([n for n in res if res[n][0] == 'skip']),
            skipped_why=sorted({res[n][1] for n in res if res[n][0] == 'skip'})[:5],
            not_run=len([n for n in res if res[n][0] == 'late']),
            checks=sum((res[n][1] or {}).get('checks', 1) for n in done
                       if res[n][0] == 'ok'),
            samples=[cases[n] for n in sorted(done)[:2]],
            failures=fails[:10], n_failures=len(fails), lost=lost, unconfirmed=unconfirmed[:5],
            rule=getattr(mod, 'RULE_' + pid, ''),
            bounds=getattr(mod, 'BOUNDS_' + pid, ''),
            wall_s=time.time() - t0)
        with open(a.out, 'w') as f:
            json.dump(out, f, default=str)
        if a.replay:
            print('REPRODUCED' if fails or lost else 'not reproduced')
            for f in fails + lost:
                print(f['error'])
            return 1 if fails or lost else 0
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
