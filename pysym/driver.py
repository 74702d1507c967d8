"""Runs the obligations of one property, writes evidence, prints the verdict."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _worker(arg):
    prop, name, tier, seed = arg
    from . import runtime
    try:
        mod = importlib.import_module('checks.' + prop.lower())
        for ob in mod.obligations(tier):
            if ob.name == name:
                return runtime.run_obligation(ob, tier, seed)
        raise KeyError(name)
    except Exception as e:  # noqa
        return dict(_blank(name), status='error', notes=[traceback.format_exc()[-1500:]])


def _blank(name):
    return {'name': name, 'status': 'error', 'notes': [],
            'violation': None, 'functions': [], 'replayed': 0, 'paths': 0, 'queries': 0,
            'checks': 0, 'forks': 0, 'solver_s': 0.0, 'unknown': 0, 'aborted': 0,
            'reached': 0, 'wall_s': 0.0, 'bounds': '', 'stubs': [], 'samples': []}


def known_findings(prop):
    """[(obligation, substring)] listed as known (not fixed) findings"""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'known':
                out.append(d)
    return out


def _listed(known, r):
    return [d for d in known if d['obligation'] == r['name']
            and d['label'] in r['violation']['label']]


def main(argv):
    prop = argv[0]
    tier = 'quick'
    replay = None
    only = None
    jobs = int(os.environ.get('PYSYM_JOBS', '8'))
    i = 1
    verbose = False
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 2
        elif argv[i] == '--replay':
            replay = argv[i + 1]
            i += 2
        elif argv[i] == '--only':
            only = argv[i + 1]
            i += 2
        elif argv[i] == '-v':
            verbose = True
            i += 1
        else:
            raise SystemExit('unknown argument ' + argv[i])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import runtime
    runtime.load_ignis()
    mod = importlib.import_module('checks.' + prop.lower())
    if replay:
        d = json.load(open(replay))
        for ob in mod.obligations('thorough'):
            if ob.name == d['obligation']:
                st, lab, inp = runtime.run_concrete(ob, d['values'])
                print('replay %s: %s %s' % (ob.name, st, lab))
                return 1 if st == 'fail' else 0
        print('no such obligation')
        return 2
    t0 = time.time()
    obs = mod.obligations(tier)
    if only:
        obs = [o for o in obs if only in o.name]
    tasks = [(prop, o.name, tier, seed) for o in obs]
    results = []
    known = known_findings(prop)
    deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
    if jobs > 1 and len(tasks) > 1:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_worker, tasks, chunksize=1)
            for _ in tasks:
                try:
                    r = it.next(timeout=max(1.0, deadline - time.time()))
                except multiprocessing.TimeoutError:
                    break
                results.append(r)
                if r['status'] == 'violated' and tier == 'quick' and not _listed(known, r):
                    # the verdict is known; give the other obligations a little longer
                    deadline = min(deadline, time.time() + float(
                        os.environ.get('PYSYM_AFTER', '90')))
                if verbose:
                    _show(r)
            pool.terminate()
        done = {r['name'] for r in results}
        for o in obs:
            if o.name not in done:
                results.append(dict(_blank(o.name), status='degraded', bounds=o.bounds,
                                    notes=['out of time before a verdict']))
    else:
        for t in tasks:
            r = _worker(t)
            results.append(r)
            if verbose:
                _show(r)
    results.sort(key=lambda r: [o.name for o in obs].index(r['name']))
    viol = []
    for r in results:
        if r['status'] == 'violated':
            k = _listed(known, r)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
                r['known'] = True
            else:
                viol.append(r)
    wall = time.time() - t0
    fns = sorted({f for r in results for f in r['functions']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLANATION,
            'technique': 'path-forking symbolic execution of the real Python functions with '
                         'z3 deciding branch feasibility and every assertion',
            'functions_encoded': fns,
            'obligations': len(results),
            'discharged': sum(r['status'] == 'proved' for r in results),
            'degraded': [{'obligation': r['name'], 'notes': r['notes'],
                          'fallback_concrete_runs': r.get('fallback_runs', 0)}
                         for r in results if r['status'] == 'degraded'],
            'paths': sum(r['paths'] for r in results),
            'queries_discharged': sum(r['queries'] for r in results),
            'assertions_decided': sum(r['checks'] for r in results),
            'solver_unknown': sum(r['unknown'] for r in results),
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'models_replayed_on_real_code': sum(r['replayed'] for r in results),
            'reachability': 'every obligation reached its assertions on %d path(s) or more' %
                            min([r['reached'] for r in results] or [0]),
            'per_obligation': [{k: r[k] for k in ('name', 'bounds', 'status', 'paths', 'queries',
                                                  'checks', 'solver_s', 'wall_s', 'stubs',
                                                  'notes')} for r in results],
            'samples': [{'obligation': r['name'], 'values': s}
                        for r in results for s in r.get('samples', [])[:1]][:6],
            'outside_bounds': getattr(mod, 'OUTSIDE', ''),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'Python floats are read as exact reals; literals within 1e-13 of a small rational or '
            'of a small rational multiple of sqrt(2), sqrt(3), sqrt(6) are read as that number',
            'z3 is sound; qiskit-terra and numpy/scipy behave as documented'],
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in results:
        if r['status'] == 'degraded':
            print('DEGRADED property=%s obligation=%s: not decided by the solver on this tree '
                  '(%s); %d concrete runs held' % (prop, r['name'], '; '.join(r['notes'])[:300],
                                                   r.get('fallback_runs', 0)))
    errs = [r for r in results if r['status'] == 'error']
    if viol:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for r in viol:
            p = os.path.join(d, '%s-%s.json' % (prop, r['name'].replace('/', '_')))
            with open(p, 'w') as f:
                json.dump({'property': prop, 'obligation': r['name'],
                           'values': r['violation']['values'],
                           'label': r['violation']['label']}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  obligation %s: %s' % (r['name'], r['violation']['label']))
            print('  inputs: %s' % json.dumps(r['violation']['values'])[:600])
        return 1
    for r in errs:
        print('ERROR %s: %s' % (r['name'], r['notes'][0]))
    print('%s %s: %d/%d obligations proved within bounds, %d paths, %d queries, solver %.1fs, '
          'wall %.1fs' % (prop, tier, ev['coverage']['discharged'], len(results),
                          ev['coverage']['paths'], ev['coverage']['queries_discharged'],
                          ev['coverage']['solver_s'], wall))
    return 2 if errs else 0


def _show(r):
    print('  [%s] %s paths=%d queries=%d checks=%d solver=%.1fs wall=%.1fs %s' % (
        r['status'], r['name'], r['paths'], r['queries'], r['checks'], r['solver_s'],
        r['wall_s'], '; '.join(r['notes'])[:400]))
    if r['violation']:
        print('      ', r['violation']['label'], json.dumps(r['violation']['values'])[:300])
    sys.stdout.flush()
