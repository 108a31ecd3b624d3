#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] — decide one property on /repo's current working tree.

1. compile /repo to LLVM IR, build the plain and the address-sanitizer extension (all in a scratch directory);
2. discharge every contract obligation of the property's functions (tvc: symbolic execution with loop invariants, z3/cvc5);
3. a failed obligation is re-examined in bounded mode and searched for on the real extension by the replay drivers;
4. the drivers also run as a labelled bounded stand-in for what the contracts do not reach.
"""
import os, sys, json, time, argparse, tempfile, shutil, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import multiprocessing as mp
from tvc import front, concrete, registry
sys.setrecursionlimit(20000)
CTX = {}


def _task(a):
    from tvc import suites
    key, budget, unroll = a
    try:
        return key, suites.run(CTX, key, budget, unroll)
    except Exception as ex:
        return key, dict(label=str(key), error='internal: %r' % ex, obs=[], tb=traceback.format_exc(), queries=0, solver_time=0, time=0, assumed=[], inlined=[], paths=0, loops=[])


def pool_run(tasks, deadline, budget, unroll=0, nproc=8):
    res, left = {}, [t for t in tasks]
    if not tasks:
        return res, left
    pool = mp.get_context('fork').Pool(min(nproc, len(tasks)), maxtasksperchild=8)
    try:
        it = pool.imap_unordered(_task, [(t, budget, unroll) for t in tasks], 1)
        while left:
            try:
                k, r = it.next(timeout=max(0.5, deadline - time.time()))
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            res[k] = r
            left.remove(k)
    finally:
        pool.terminate()
        pool.join()
    return res, left


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-drivers', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    A = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = registry.PROPS[A.prop]
    thorough = A.tier == 'thorough'
    scratch = tempfile.mkdtemp(prefix='tvc-')
    try:
        return decide(A, P, seed, t0, thorough, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(A, P, seed, t0, thorough, scratch):
    jobs, errs = {}, []

    def bg(name, f):
        def w():
            try:
                jobs[name] = f()
            except Exception as ex:
                errs.append('%s: %s' % (name, ex))
        th = threading.Thread(target=w)
        th.start()
        return th
    ths = [bg('ir', lambda: front.build_ir(scratch + '/ir')), bg('plain', lambda: concrete.build(scratch + '/plain', False)), bg('asan', lambda: concrete.build(scratch + '/asan', True))]
    for th in ths:
        th.join()
    if errs:
        print('the extension does not build:\n' + '\n'.join(errs))
        return 2
    tbuild = time.time() - t0

    # concrete drivers run while the obligations are discharged
    drv_results, lock, running = [], threading.Lock(), []
    queue = []
    for (script, args, sc, asc) in ([] if A.no_drivers else P.get('drivers', [])):
        seeds = [seed] if not thorough else [seed + i for i in range(6)]
        for s in seeds:
            queue.append((False, script, args, s, sc * (3 if thorough else 1)))
            if asc:
                queue.append((True, script, args, s, asc * (3 if thorough else 1)))

    def drv_worker():
        while True:
            with lock:
                if not queue:
                    return
                asan, script, args, s, sc = queue.pop(0)
            r = concrete.run(jobs['asan' if asan else 'plain'], asan, HERE + '/drv/' + script, args, s, sc, scratch, timeout=1200 if thorough else 240)
            with lock:
                drv_results.append(r)
    dths = [threading.Thread(target=drv_worker) for _ in range(2)]
    for th in dths:
        th.start()

    from tvc import suites
    res, left, tasks = {}, [], []
    bres = {}
    if not A.no_proof and P.get('specs'):
        CTX.update(suites.load(jobs['ir'], P['specs']))
        tasks = suites.tasks(CTX, P['specs'], thorough)
        budget = 600 if thorough else 60
        deadline = time.time() + (3000 if thorough else 110)
        res, left = pool_run(tasks, deadline, budget)
        # second look, bounded, at whatever was not proved
        open_ = [t for t in tasks if t in res and not proved(res[t])]
        bres, _ = pool_run(open_, time.time() + (600 if thorough else 60), 60, unroll=4 if thorough else 3)
    for th in dths:
        th.join()
    suspicious = {t: r for t, r in bres.items() if any(o['status'] == 'failed' for o in r['obs'])}
    fails = [r for r in drv_results if not r['ok']]
    if suspicious and not fails and not A.no_drivers:
        # look harder for a concrete failing input before reporting an obligation
        for (script, args, sc, asc) in P.get('drivers', []):
            for i in range(1, 9):
                queue.append((False, script, args, seed * 1000 + i, sc * 2))
            if asc:
                queue.append((True, script, args, seed * 1000 + 9, asc * 2))
        dths = [threading.Thread(target=drv_worker) for _ in range(8)]
        for th in dths:
            th.start()
        for th in dths:
            th.join()
        fails = [r for r in drv_results if not r['ok']]

    known = sorted({k for r in drv_results for k in r['known']})
    for k in known:
        if k in registry.KNOWN and registry.KNOWN[k][0] == A.prop:
            print('KNOWN-FINDING: property=%s %s' % (A.prop, registry.KNOWN[k][1]))
    viol = []
    os.makedirs(HERE + '/replays', exist_ok=True)
    if fails:
        path = '%s/replays/%s-concrete.json' % (HERE, A.prop)
        json.dump(dict(property=A.prop, kind='concrete', failures=fails[:5],
                       failed_obligations=[obs_brief(t, r) for t, r in suspicious.items()]), open(path, 'w'), indent=1)
        print('concrete failure: %s: %s' % (fails[0]['kind'], str(fails[0].get('detail'))[:600]))
        print('  rerun: ' + fails[0]['command'])
        for t, r in list(suspicious.items())[:3]:
            print('failed obligation: ' + obs_brief(t, r)['obligations'][0]['msg'][:300])
        viol.append('VIOLATION property=%s replay=%s' % (A.prop, path))
    elif suspicious:
        path = '%s/replays/%s-obligation.json' % (HERE, A.prop)
        json.dump(dict(property=A.prop, kind='obligation', failed_obligations=[obs_brief(t, r) for t, r in suspicious.items()]), open(path, 'w'), indent=1)
        for t, r in list(suspicious.items())[:3]:
            print('failed obligation: ' + obs_brief(t, r)['obligations'][0]['msg'][:300])
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (A.prop, path))
    write_evidence(A, P, seed, thorough, t0, tbuild, tasks, res, left, bres, drv_results, len(viol))
    if A.v:
        for t in tasks:
            r = res.get(t)
            print('%-8s %s %s' % ('proved' if r and proved(r) else 'open', r['label'] if r else t, (r['error'] or '') if r else 'not finished'))
    for v in viol:
        print(v)
    print('%s: %d/%d contract cases proved, %d driver runs, %.0f s' % (A.prop, sum(1 for t in tasks if t in res and proved(res[t])), len(tasks), len(drv_results), time.time() - t0))
    return 1 if viol else 0


def proved(r):
    return not r['error'] and all(o['status'] == 'proved' for o in r['obs']) and not r.get('bounded')


def obs_brief(t, r):
    return dict(task=r['label'], obligations=[{k: o.get(k) for k in ('status', 'kind', 'msg', 'where', 'model')} for o in r['obs'] if o['status'] == 'failed'][:4])


def write_evidence(A, P, seed, thorough, t0, tbuild, tasks, res, left, bres, drv, nviol):
    obs = [o for r in res.values() for o in r['obs']]
    by = {}
    for o in obs:
        if o['status'] == 'proved':
            by[o.get('backend') or 'z3'] = by.get(o.get('backend') or 'z3', 0) + 1
    fully = sorted(res[t]['label'] for t in tasks if t in res and proved(res[t]))
    open_ = [(res[t]['label'] if t in res else '/'.join(map(str, t))) + ': ' + ((res[t]['error'] or '%d obligations open' % sum(o['status'] != 'proved' for o in res[t]['obs'])) if t in res else 'not finished in this run') for t in tasks if not (t in res and proved(res[t]))]
    bounded = []
    for t, r in bres.items():
        ok = not r['error'] and all(o['status'] == 'proved' for o in r['obs'])
        bounded.append('%s: %s (bounded: at most %d loop iterations)' % (r['label'], 'no violation' if ok else (r['error'] or 'open'), 4 if thorough else 3))
    from tvc import suites
    assumed = sorted({a for r in res.values() for a in r.get('assumed', [])})
    inl = sorted({a for r in res.values() for a in r.get('inlined', [])})
    samples = [s for r in drv for s in (r['stats'].get('samples') or [])][:4]
    cov = dict(obligations=len(obs), discharged=sum(o['status'] == 'proved' for o in obs),
               checker_cmd='python3-vt check.py %s --tier %s' % (A.prop, A.tier), trusted_base=suites.TRUSTED + ['assumed contract of engine function: ' + a for a in assumed],
               functions_under_contract=inl, cases_proved=fully, cases_open=open_, bounded_stand_ins=bounded,
               discharged_by_backend=by, solver_queries=sum(r.get('queries', 0) for r in res.values()), solver_time_s=round(sum(r.get('solver_time', 0) for r in res.values()), 2),
               concrete_runs=[dict(driver=r['driver'], args=r['args'], seed=r['seed'], asan=r['asan'], ok=r['ok'], evaluations=r['stats'].get('evaluations'), distinct_nontrivial=r['stats'].get('distinct_nontrivial'), wall_s=round(r['wall'], 1)) for r in drv],
               evaluations=sum(r['stats'].get('evaluations') or 0 for r in drv), distinct_nontrivial=sum(r['stats'].get('distinct_nontrivial') or 0 for r in drv),
               rule='concrete stand-in (bounded, not counted as proved): seeded random operation sequences on the real extension against a reference in plain PHP; non-trivial: more than one operation, counted by distinct text', samples=samples,
               build_s=round(tbuild, 1))
    ev = dict(property=A.prop, tier=A.tier if A.tier in ('quick', 'thorough') else 'quick', seed=seed, level=P.get('level', 'proof'), coverage=cov,
              assumptions=suites.TRUSTED + ['engine contract: ' + a for a in assumed], wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, A.prop), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
