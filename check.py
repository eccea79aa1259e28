#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough] [--only harness] [-v]"""
import argparse
import json
import os
import pickle
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
ENV = dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           DASK_SCHEDULER='synchronous', PYTHONHASHSEED='0', HDF5_USE_FILE_LOCKING='FALSE')
if os.environ.get('EMC2V_CHILD') != '1':
    e = dict(os.environ, EMC2V_CHILD='1', **ENV)
    e.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    e.pop('PYTHONPATH', None)
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def short(x, n=400):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + '...'


def worker(emc2, fn, cfg, srv, path, seed, prefixes, slice_s, deadline):
    from engine import symenv
    import numpy as np
    harness, params, opts = cfg['harness'], cfg['params'], cfg['opts']
    t0 = time.time()

    def native(v, d):
        return srv.call(harness, params, v, d, timeout=opts.get('native_timeout', 20))
    try:
        opts = dict(opts, budget_s=max(1.0, deadline - time.time()))
        r = symenv.explore(emc2, fn, params, opts, native=native, seed=seed, prefixes=prefixes, slice_s=slice_s)
        r = dict(r)
        r['samples'] = []
        bad = []
        for t in r.pop('traces'):
            y = native(t['values'], t['draws'])
            if y.get('error') or y.get('discarded'):
                bad.append(dict(why=y.get('error') or 'the assumptions do not hold natively', values=t['values']))
                continue
            if y.get('failed'):
                r['violations'].append(dict(check=y['failed'][0], symbolic_check='trace replay', values=t['values'],
                                            draws=t['draws'], detail='failed when a path of the exploration was replayed',
                                            native=y))
                continue
            diff = None
            for (n1, a), (n2, b) in zip(t['obs'], y['obs']):
                a, b = np.array(a, dtype=float), np.array(b, dtype=float)
                if a.shape != b.shape or not np.allclose(a, b, rtol=opts.get('obs_rtol', 1e-6),
                                                         atol=opts.get('obs_atol', 1e-300), equal_nan=True):
                    diff = (n1, a.tolist(), b.tolist())
                    break
            if diff:
                bad.append(dict(why='the encoding predicts another result', obs=diff[0], encoding=diff[1],
                                real=diff[2], values=t['values'], draws=t['draws']))
                continue
            r['validated'] += 1
            if len(r['samples']) < 1:
                r['samples'].append(dict(harness=harness, params=params, inputs=short(t['values']),
                                         observed=short(y['obs'])))
        r['validation_failed'] = bad
    except BaseException as e:
        r = dict(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))
    r['wall'] = time.time() - t0
    with open(path, 'wb') as f:
        rest = r.pop('rest', [])
        pickle.dump((json.loads(json.dumps(r, default=str)), rest), f)


def merge(a, b):
    if a is None or b.get('error'):
        return b if a is None else dict(a, error=b['error'])
    for k in ('paths', 'completed', 'validated', 'wall', 'wall_s'):
        a[k] += b[k]
    for k in ('violations', 'unreproduced', 'unsupported', 'samples', 'validation_failed'):
        a[k] += b[k]
    for k, v in b['checked'].items():
        a['checked'][k] = a['checked'].get(k, 0) + v
    for k, v in b['stats'].items():
        a['stats'][k] += v
    a['functions'] = sorted(set(a['functions']) | set(b['functions']))
    if b['incomplete']:
        a['incomplete'], a['why'] = True, b.get('why')
    return a


def deal(rest, n):
    """split the open path prefixes into about n jobs"""
    n = max(1, min(n, len(rest)))
    return [rest[i::n] for i in range(n)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--strict', action='store_true', help='any undecided obligation is an error')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from engine import patch
    patch.load_z3()
    emc2 = patch.load_emc2()
    from engine import native as nat
    from props import registry
    H = registry.HARNESSES
    spec = registry.PROPERTIES[a.property]
    cfgs = [c for c in spec['configs'] if a.tier in c['tiers'] and (not a.only or a.only in c['harness'])]
    srv = nat.Server(emc2, lambda n: H[n])
    try:
        patch.setup()
        jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
        tmp = tempfile.mkdtemp(prefix='emc2v')
        running, results = {}, {}
        queue = [(i, c, None) for i, c in enumerate(cfgs)]
        limit = spec.get('limit', {}).get(a.tier, 600 if a.tier == 'quick' else 7200)
        deadline = t0 + limit
        kf = known_findings(a.property)
        n, stop = 0, False
        sys.stdout.flush()
        while (queue and not stop) or running:
            while queue and len(running) < jobs and not stop:
                i, c, pre = queue.pop(0)
                if pre is not None and time.time() > deadline:
                    results[i]['incomplete'], results[i]['why'] = True, 'time limit of the tier (%d s)' % limit
                    continue
                n += 1
                p = os.path.join(tmp, '%d.pkl' % n)
                pid = os.fork()
                if pid == 0:
                    try:
                        worker(emc2, H[c['harness']], c, srv, p, seed, pre, 6.0, max(deadline, time.time() + 30))
                    finally:
                        os._exit(0)
                running[pid] = (i, c, p)
            if not running:
                break
            pid, st = os.wait()
            if pid not in running:
                continue
            i, c, p = running.pop(pid)
            rest = []
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    r, rest = pickle.load(f)
                os.unlink(p)
            else:
                r = dict(error='worker ended without a result (status %s)' % st)
            results[i] = merge(results.get(i), r)
            if r.get('error') or len(results[i].get('unreproduced', ())) > 6:
                rest = []
                if not r.get('error'):
                    results[i]['incomplete'], results[i]['why'] = True, 'stopped after undecided obligations'
            if any(not match(kf, c, v) for v in results[i].get('violations', ())):
                stop = True
            elif results[i].get('violations'):
                rest = []
            if rest:
                queue += [(i, c, d) for d in deal(rest, max(1, jobs - len(running) - len(queue)))]
        cfgs, results = [cfgs[i] for i in sorted(results)], [results[i] for i in sorted(results)]
        os.rmdir(tmp)
    finally:
        srv.stop()
    return report(a, seed, spec, cfgs, results, t0)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get('property') == pid and k.get('status') == 'open']


def match(kf, c, v):
    return [k for k in kf if k['harness'] == c['harness'] and k['params'] == c['params'] and v['check'] in k['checks']]


def report(a, seed, spec, cfgs, results, t0):
    kf = known_findings(a.property)
    viol, known, undecided, errors = [], [], [], []
    tot = dict(paths=0, completed=0, validated=0, queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, forks=0,
               checks=0, algebraic=0, incomplete=0)
    funcs, samples, perh = set(), [], []
    for i, c in enumerate(cfgs):
        r = results[i]
        name = '%s %s' % (c['harness'], json.dumps(c['params'], sort_keys=True))
        if r.get('error'):
            errors.append('%s: %s' % (name, r['error']))
            continue
        st = r['stats']
        for k in ('queries', 'solver_s', 'unsat', 'sat', 'unknown', 'forks', 'checks', 'algebraic'):
            tot[k] += st[k]
        for k in ('paths', 'completed', 'validated'):
            tot[k] += r[k]
        funcs |= set(r['functions'])
        samples += r['samples']
        und = []
        for v in r['violations']:
            hit = match(kf, c, v)
            (known if hit else viol).append((c, v, hit))
        if r['incomplete']:
            tot['incomplete'] += 1
            und.append('exploration stopped: %s' % r.get('why'))
        for u in r['unsupported']:
            und.append('not encoded: %s' % u)
        for u in r['unreproduced']:
            und.append('obligation "%s": the counterexample of the encoding does not reproduce on the real code %s'
                       % (u['check'], (u.get('detail') or '')[:600 if a.v else 200]))
        for u in r['validation_failed']:
            und.append('trace: %s' % json.dumps(u, default=str)[:600 if not a.v else 4000])
        if not r['violations'] :
            if not r['completed']:
                und.append('no path reached the end of the harness (vacuous)')
            elif not r['validated'] and not r['validation_failed']:
                und.append('no path could be turned into a concrete run')
        undecided += [(name, u) for u in und]
        perh.append(dict(harness=c['harness'], params=c['params'], paths=r['paths'], completed=r['completed'],
                         validated=r['validated'], checks=r['checked'], queries=st['queries'],
                         solver_s=round(st['solver_s'], 3), wall_s=round(r['wall'], 2),
                         exhaustive=not und, undecided=und[:5]))
        if a.v:
            print('%-60s paths %d/%d checks %d queries %d solver %.1fs wall %.1fs validated %d und %d viol %d' % (
                name[:60], r['completed'], r['paths'], st['checks'], st['queries'], st['solver_s'], r['wall'],
                r['validated'], len(und), len(r['violations'])))
    for c, v, hit in known:
        print('KNOWN-FINDING: property=%s %s' % (a.property, hit[0]['what']))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    for n, (c, v, _) in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%d.json' % (a.property, n))
        with open(p, 'w') as f:
            json.dump(dict(property=a.property, harness=c['harness'], params=c['params'], check=v['check'],
                           values=v['values'], draws=v['draws'], detail=v['detail'],
                           native={k: v['native'].get(k) for k in ('failed', 'detail', 'tb', 'obs')}), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.property, os.path.relpath(p, HERE)))
        print('  harness %s %s: %s' % (c['harness'], json.dumps(c['params']), v['check']))
        print('  inputs %s draws %s' % (json.dumps(v['values'])[:1500], json.dumps(v['draws'])[:300]))
        if v['native'].get('detail'):
            print('  real code: %s' % v['native']['detail'][:500])
        elif a.v and v['detail']:
            print('  ' + v['detail'][:500])
    for n, u in undecided[:20]:
        print('INCONCLUSIVE %s: %s' % (n, u))
    for e in errors:
        print('ERROR %s' % e)
    cov = dict(
        states=tot['completed'], transitions=tot['forks'] + tot['completed'],
        traces_validated_against_impl=tot['validated'], samples=samples[:6],
        exhaustive=not undecided and not errors,
        explanation='states = feasible symbolic paths of the real code explored to the end, each standing for all inputs '
                    'of that path within the bounds; transitions = solver-decided branch points plus path ends',
        functions_encoded=sorted(funcs), bounds=spec['bounds'], harnesses=perh,
        obligations=tot['checks'], discharged=tot['checks'] - len(viol) - len(known) - len(undecided),
        queries=tot['queries'], solver_s=round(tot['solver_s'], 3), unsat=tot['unsat'], sat=tot['sat'],
        unknown=tot['unknown'], settled_by_normal_form=tot['algebraic'],
        undecided=['%s: %s' % u for u in undecided][:20],
        known_findings=[h[0]['what'] for _, _, h in known])
    ev = dict(property=a.property, tier=a.tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=spec['assumptions'], wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d harness runs, %d paths, %d obligations, %d queries, %.1f s solver, %d traces validated, %d inconclusive, '
          '%d violations, %.1f s' % (a.property, len(cfgs), tot['completed'], tot['checks'], tot['queries'],
                                     tot['solver_s'], tot['validated'], len(undecided), len(viol), time.time() - t0))
    if viol:
        return 1
    if errors:
        return 2
    bad = {n for n, _ in undecided}
    if undecided and (a.strict or len(bad) * 2 > len(cfgs)):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
