"""check entry point:  python -m symv.run PROPERTY [--tier quick|thorough] [--only NAME] [--replay FILE]"""
import argparse
import warnings
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['solver.velocity', 'solver.coefs', 'solver.forces', 'solver.panels', 'solver.mesher', 'solver.interpolator',
           'solver.additional_functions', 'solver.vlm', 'inlet.winds', 'inlet.inlet_conditions', 'rotations.geometry_calc',
           'rotations.csys_transformations', 'thin_airfoil.vlm_airfoil', 'yacht_geometry.sail_geometry',
           'yacht_geometry.sail_factory', 'yacht_geometry.hull_geometry', 'results.inviscid_flow', 'results.save_utils',
           'runner.aircraft', 'runner.sail', 'runner.container']


def _alarm(sig, frm):
    raise TimeoutError('scenario time limit')


def work(args):
    prop, idx, tier, seed, budget = args
    from symv import core, harness, loader, prove
    sc = harness.SCENARIOS[prop][idx][1]
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget * 1.1 + 5, 4)
    prove.STATS.__init__()
    fns = set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'symv')

        def start(code, off):
            if code.co_filename.startswith(loader.REPO + os.sep):
                fns.add((os.path.relpath(code.co_filename, loader.REPO), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tool, mon.events.PY_START, start)
        mon.set_events(tool, mon.events.PY_START)
    except ValueError:
        pass
    t = time.time()
    out = {'id': sc.id, 'error': None}
    run = harness.Run(sc, seed=seed, tier=tier, budget=budget)
    try:
        try:
            run.execute()
            if run.mismatch and not run.violations:
                run.inconclusive.append('encoding differs from the real code: ' + run.mismatch[0])
            if run.inconclusive and not run.violations:
                out['explored_concretely'] = run.explore_concretely(60)
        except TimeoutError:
            run.inconclusive.append('time limit')
        signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeoutError:
        signal.setitimer(signal.ITIMER_REAL, 0)
        run.inconclusive.append('time limit')
    except Exception:
        signal.setitimer(signal.ITIMER_REAL, 0)
        out['error'] = traceback.format_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    out.update(proved=run.proved, paths=run.paths, validated=run.validated, inconclusive=run.inconclusive[:12],
               n_inconclusive=len(run.inconclusive), violations=run.violations[:3], labels=run.obl,
               assumed=sorted(run.assumed), stats=prove.STATS.as_dict(), wall=time.time() - t,
               functions=sorted('%s:%s' % f for f in fns), samples=run.samples_out, vars=len(run.ex.sampler.vars))
    return out


def _child(conn, fn, args):
    try:
        conn.send(fn(args))
    except BaseException:
        try:
            conn.send({'crash': traceback.format_exc()})
        except BaseException:
            pass
    conn.close()
    os._exit(0)


def points_only(args):
    """Fallback for a scenario that had to be stopped: points of its domain through the real code (never counted as proof)."""
    prop, idx, tier, seed, budget = args
    from symv import harness
    sc = harness.SCENARIOS[prop][idx][1]
    run = harness.Run(sc, seed=seed, tier=tier, budget=5)
    out = _empty(args, 'stopped at its time limit')
    out['explored_concretely'] = run.explore_concretely(60)
    out['violations'] = run.violations[:3]
    return out


def _empty(args, why):
    from symv import harness, prove
    sc = harness.SCENARIOS[args[0]][args[1]][1]
    return {'id': sc.id, 'error': None, 'proved': 0, 'paths': 0, 'validated': 0, 'inconclusive': [why], 'n_inconclusive': 1, 'violations': [],
            'labels': {}, 'assumed': [], 'stats': prove.Stats().as_dict(), 'wall': 0.0, 'functions': [], 'samples': [], 'vars': 0}


def schedule(tasks, jobs, deadline):
    """One process per scenario, each with a hard time limit; results as they come."""
    ctx = mp.get_context('fork')
    todo = [(work, t) for t in reversed(tasks)]
    live = {}
    while todo or live:
        while todo and len(live) < jobs and time.time() < deadline:
            fn, t = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, t))
            p.start()
            b.close()
            lim = t[4] * 1.3 + 40 if fn is work else 45
            live[a] = (p, fn, t, time.time() + lim)
        if not live:
            for fn, t in todo:
                yield _empty(t, 'not started within the time of the check')
            return
        ready = mp.connection.wait(list(live), timeout=1)
        for c in ready:
            p, fn, t, lim = live.pop(c)
            try:
                r = c.recv()
            except (EOFError, OSError):
                r = {'crash': 'process ended without a result'}
            c.close()
            p.join()
            if 'crash' in r:
                r0 = _empty(t, 'no result: ' + r['crash'].strip().splitlines()[-1])
                if fn is work and 'process ended' not in r['crash'] and 'Memory' not in r['crash']:
                    r0['error'], r0['inconclusive'] = r['crash'], []
                r = r0
            yield r
        now = time.time()
        for c in list(live):
            p, fn, t, lim = live[c]
            if now > lim or now > deadline + 60:
                del live[c]
                p.kill()
                p.join()
                c.close()
                if fn is work and now < deadline:
                    todo.append((points_only, t))
                else:
                    yield _empty(t, 'stopped at its time limit')


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from symv import harness, loader
    if a.replay:
        r = json.load(open(a.replay))
        importlib.import_module('props.' + r['property'].lower())
        for tier, sc in harness.SCENARIOS[r['property']]:
            if sc.id == r['scenario']:
                st, viol, C = harness.run_concrete(sc, r['inputs'])
                print('replay of %s / %s: %s' % (r['property'], sc.id, st))
                for l, m in viol:
                    print('  %s: %s' % (l, m))
                sys.exit(1 if viol else 0)
        print('no such scenario')
        sys.exit(2)
    prop = a.prop
    t0 = time.time()
    importlib.import_module('props.' + prop.lower())
    scs = harness.SCENARIOS[prop]
    errors = []
    for m in MODULES:
        for what, f in (('symbolic', loader.load), ('real', loader.real)):
            try:
                f(loader.PKG + '.' + m)
            except Exception as e:
                errors.append('%s load of %s: %s: %s' % (what, m, type(e).__name__, e))
    tasks = []
    for i, (tier, sc) in enumerate(scs):
        if tier == 'thorough' and a.tier != 'thorough':
            continue
        if a.only and a.only not in sc.id:
            continue
        budget = sc.opts.get('budget', 100 if a.tier == 'quick' else 900)
        tasks.append((prop, i, a.tier, seed, budget))
    tasks.sort(key=lambda t: -scs[t[1]][1].opts.get('cost', 1))
    jobs = a.jobs or min(8, os.cpu_count() or 1, max(1, len(tasks)))
    res = []
    total = 660 if a.tier == 'quick' else 10 ** 6
    for r in schedule(tasks, jobs, t0 + total):
            res.append(r)
            if a.v:
                print('%-70s paths %4d proved %5d validated %3d queries %4d solver %.1fs wall %.1fs%s' % (
                    r['id'][:70], r['paths'], r['proved'], r['validated'], r['stats']['queries'], r['stats']['time'], r['wall'],
                    ' INCONCLUSIVE' if r['inconclusive'] else ''), flush=True)
                for x in r['inconclusive']:
                    print('      ', x[:300])
                if r['error']:
                    print(r['error'])
                for v in r['violations']:
                    print('      VIOL', v[0], v[1])
    res.sort(key=lambda r: r['id'])
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    nviol = 0
    exitcode = 0
    rdir = os.path.join(VERIF, 'replays')
    reported_known = set()
    for r in res:
        for label, msg, vals in r['violations']:
            k = [q for q in known if r['id'].startswith(q['scenario']) and q['label'] == label]
            if k:
                reported_known.add(k[0]['what'])
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            name = '%s_%s.json' % (prop, hashlib.md5((r['id'] + label).encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'scenario': r['id'], 'label': label, 'message': msg,
                           'inputs': {q: float(v) for q, v in vals.items()},
                           'how': '/verif/check --replay ' + path}, f, indent=1)
            print('violated: scenario %s, obligation %s: %s' % (r['id'], label, msg))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            exitcode = 1
    for w in sorted(reported_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    inc = [(r['id'], x) for r in res for x in r['inconclusive']]
    for i, x in inc[:20]:
        print('INCONCLUSIVE scenario %s: %s' % (i, x))
    errs = [r for r in res if r['error']]
    for r in errs:
        print('ERROR scenario %s\n%s' % (r['id'], r['error']))
    for e in errors:
        print('note:', e)
    proved = sum(r['proved'] for r in res)
    S = lambda k: sum(r['stats'][k] for r in res)
    wall = time.time() - t0
    fns = sorted({f for r in res for f in r['functions']})
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in res),
            'transitions': S('branches'),
            'traces_validated_against_impl': sum(r['validated'] for r in res),
            'samples': [s for r in res for s in r['samples']][:6],
            'scenarios': len(res),
            'obligations_proved': proved,
            'obligation_labels': sorted({l for r in res for l in r['labels']}),
            'solver_queries': S('queries'), 'solver_unsat': S('unsat'), 'solver_sat': S('sat'),
            'solver_unknown': S('unknown'), 'solver_seconds': round(S('time'), 2),
            'largest_term_count': max([r['stats']['max_terms'] for r in res] or [0]),
            'functions_encoded': fns,
            'bounds': [{'scenario': r['id'], 'paths': r['paths'], 'symbolic_inputs': r['vars'], 'proved': r['proved'],
                        'seconds': round(r['wall'], 2)} for r in res],
            'inconclusive': [{'scenario': i, 'why': x} for i, x in inc],
            'points_run_on_inconclusive': sum(r.get('explored_concretely', 0) for r in res),
            'known_findings_reported': sorted(reported_known),
        },
        'assumptions': sorted({x for r in res for x in r['assumed']} | set(GLOBAL_ASSUMPTIONS)),
        'violations': nviol,
        'wall_s': round(wall, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d paths, %d obligations proved, %d solver queries (%.1f s), %d validated against the real code, '
          '%d inconclusive, %d violations, %.1f s' % (prop, a.tier, len(res), ev['coverage']['states'], proved, S('queries'),
                                                      S('time'), ev['coverage']['traces_validated_against_impl'], len(inc), nviol, wall))
    if exitcode == 0 and proved == 0 and not reported_known:
        exitcode = 2
    sys.exit(exitcode)


GLOBAL_ASSUMPTIONS = [
    'real arithmetic: floating-point rounding is outside the claim; decimal literals denote the decimals written',
    'inputs range over the boxes stated in the scenarios (by default every real in -1000 .. 1000, positive ones from 1e-6 to 1000, angles from -180 to 180 degrees); sizes are those listed under bounds',
    'divisors met on a path are non-zero unless the obligation is that they are (label ...:divisor)',
]

if __name__ == '__main__':
    main()
