"""python -m pyvc.prove PID: obligations of the contracts of a property."""
import argparse, importlib, json, os, sys, time, traceback, glob
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
import z3
from pyvc import core, engine, solve
from pyvc.core import Unsupported


def targets(pid):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', 'k_*.py'))):
        m = importlib.import_module('contracts.' + os.path.basename(f)[:-3])
        out += [t for t in m.TARGETS if pid in t.props]
    return out


def one(t, tier, jobs, budget):
    t0 = time.time()
    r = dict(name=t.name, file=t.path, covers=t.covers, status=None, why='', obligations=0, trivial=0, discharged=0, paths=0,
             solver_s=0., failed=[], backends={}, wall_s=0.)
    try:
        ex = engine.run_target(t)
    except Unsupported as e:
        r.update(status='fallback', why=str(e)[:1500])
        return r
    except RecursionError as e:
        r.update(status='fallback', why='recursion')
        return r
    except Exception as e:
        r.update(status='fallback', why='internal error: ' + traceback.format_exc()[-1500:])
        return r
    obls = ex.obligations
    r['gen_s'] = round(time.time() - t0, 2)
    # vacuity: some path reaches the end of the contract, with satisfiable assumptions
    r['paths'] = ex.paths
    r['paths_ended'] = ex.ended
    if not obls and not ex.trivial or not ex.ended:
        r.update(status='fallback', why='vacuous: no obligation, or no path reaches the postcondition')
        return r
    solve.discharge(obls, jobs=jobs, scale=t.scale * (3 if tier == 'thorough' else 1), thorough=tier == 'thorough', budget=budget)
    r['obligations'], r['trivial'] = len(obls), ex.trivial
    for o in obls:
        r['solver_s'] += o.time
        if o.status == 'unsat':
            r['discharged'] += 1
            r['backends'][o.backend] = r['backends'].get(o.backend, 0) + 1
        elif o.status != 'not attempted' or 'budget' in o.model:
            r['failed'].append(dict(name='%s: %s' % (t.name, o.name), line=o.line, kind=o.kind, verdict=o.status,
                                    output=str(o.model)[:2500], goal=str(o.goal)[:1500]))
    # vacuity of the assumptions at the end of the paths
    sat = -solve.contradictory(ex.final_pcs[:3]) if not r['failed'] else 0
    if not r['failed'] and ex.final_pcs and sat == -len(ex.final_pcs[:3]):
        r.update(status='fallback', why='vacuous: contradictory assumptions')
        return r
    if r['failed'] and ex.guessed:
        r.update(status='fallback', why='loop without a contract: ' + r['failed'][0]['name'])
        r['failed'] = []
    else:
        r['status'] = 'failed' if r['failed'] else 'proved'
    r['wall_s'] = round(time.time() - t0, 2)
    return r


def _one(a):
    pid, n, tier, jobs, budget = a
    return one(targets(pid)[n], tier, jobs, budget)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=400)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    ts = targets(a.pid)
    res = []
    t0 = time.time()
    if a.only:
        idx = [n for n, t in enumerate(ts) if a.only in t.name]
    else:
        idx = list(range(len(ts)))
    par = max(1, min(len(idx), 4))
    jobs = max(2, a.jobs // par) if par > 1 else a.jobs
    if a.v or len(idx) == 1:
        for n in idx:
            res.append(one(ts[n], a.tier, a.jobs, max(30, a.budget - (time.time() - t0))))
    elif idx:
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(par, mp_context=mp.get_context('spawn')) as ex:
            for r in ex.map(_one, [(a.pid, n, a.tier, jobs, a.budget * 0.8) for n in idx]):
                res.append(r)
    out = dict(property=a.pid, obligations=sum(r['obligations'] for r in res if r['status'] in ('proved', 'failed')),
               discharged=sum(r['discharged'] for r in res if r['status'] in ('proved', 'failed')),
               trivial=sum(r['trivial'] for r in res), solver_s=sum(r['solver_s'] for r in res),
               failed=[f for r in res for f in r['failed']], backends={}, functions=[], assumptions=[], trusted=[])
    for r in res:
        for b, k in r['backends'].items():
            out['backends'][b] = out['backends'].get(b, 0) + k
        out['functions'].append({k: r[k] for k in r if k not in ('failed', 'backends')})
    for t in ts:
        for x in t.assumptions:
            if x not in out['assumptions']:
                out['assumptions'].append(x)
        for x in t.trusted:
            if x not in out['trusted']:
                out['trusted'].append(x)
    if a.out:
        json.dump(out, open(a.out, 'w'), indent=1, default=str)
    for r in res:
        print('%-9s %-45s %d/%d (+%d trivial) paths %d, %.1f s (gen %s) %s' % (
            r['status'], r['name'], r['discharged'], r['obligations'], r['trivial'], r['paths'], r['wall_s'], r.get('gen_s'), r['why']))
        for f in r['failed'][:12 if a.v else 5]:
            print('    FAILED %s (%s) [%s]' % (f['name'], f['line'], f['verdict']))
            if a.v:
                print('       goal:', f['goal'][:700])
                print('       ', f['output'][:500])
    return 0


if __name__ == '__main__':
    sys.exit(main())
