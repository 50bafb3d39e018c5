"""Run the monitors of one property.  Exit 0 held, 1 violated, 2 anything else."""
import argparse
import gc
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import shutil
import sys
import tempfile
import time
import traceback

T0 = time.time()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')


def load_pynlo(scratch):
    """Third-party imports first; then pynlo from source, never from a .pyc."""
    import numpy, scipy, scipy.interpolate, scipy.optimize, scipy.signal   # noqa
    import scipy.ndimage, scipy.fftpack, scipy.misc                        # noqa
    import matplotlib.pyplot, tables, jsonpickle                           # noqa
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    sys.dont_write_bytecode = True
    from mon.core import REPO_SRC
    sys.path.insert(0, REPO_SRC)
    import pynlo
    if not os.path.abspath(pynlo.__file__).startswith(REPO_SRC + os.sep):
        raise RuntimeError('pynlo imported from ' + pynlo.__file__)


def watchdog(sig, frm):
    raise SystemExit(3)


def worker(w, nproc, args, ncases, cap, pipe, scratch):
    from mon import core
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        signal.signal(signal.SIGALRM, watchdog)
        mod = importlib.import_module('mon.props.' + args.prop.lower())
        core.REACH.start()
        gc.collect()
        gc.freeze()      # the solver calls gc.collect() after every run
        os.chdir(scratch)
        agg = dict(cases=0, strata={}, events={}, checks={}, sigs=set(),
                   samples=[], viol=[], margins={}, cut=False)
        for i in range(w, ncases, nproc):
            if time.time() - T0 > cap:
                agg['cut'] = True
                break
            signal.alarm(args.case_timeout)
            ctx = core.run_case(mod, args.prop, args.seed, i, args.tier)
            signal.alarm(0)
            agg['cases'] += 1
            agg['strata'][ctx.stratum] = agg['strata'].get(ctx.stratum, 0) + 1
            for k, v in ctx.events.items():
                agg['events'][k] = agg['events'].get(k, 0) + v
            for k, v in ctx.checks.items():
                agg['checks'][k] = agg['checks'].get(k, 0) + v
            for k, v in ctx.margins.items():
                agg['margins'][k] = max(v, agg['margins'].get(k, 0))
            if ctx.checks:
                agg['sigs'].add(hash(ctx.stratum + json.dumps(ctx.params, sort_keys=True)))
            if i < 3 * nproc and len(agg['samples']) < 3:
                agg['samples'].append({'case': i, 'stratum': ctx.stratum,
                                       'params': ctx.params,
                                       'checks': sum(ctx.checks.values())})
            for v in ctx.violations:
                if len(agg['viol']) < 50:
                    agg['viol'].append(dict(v, case=i, stratum=ctx.stratum,
                                            params=ctx.params))
            if sum(1 for v in agg['viol']) >= args.stop_after:
                break
        agg['funcs'] = core.REACH.funcs
        agg['lines'] = core.REACH.lines
        agg['max_steps'] = core.REACH.max_steps
        pipe.send_bytes(pickle.dumps(('ok', agg)))
    except BaseException:
        try:
            pipe.send_bytes(pickle.dumps(('error', traceback.format_exc())))
        except Exception:
            pass
    finally:
        pipe.close()
        os._exit(0)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def is_known(prop, v, known):
    for k in known:
        if k['property'] == prop and k['clause'] == v['clause'] and \
                k.get('stratum', v['stratum']) == v['stratum']:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--case-timeout', type=int, default=240)
    ap.add_argument('--stop-after', type=int, default=3)
    ap.add_argument('--margins', action='store_true')
    ap.add_argument('--strata', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    args.prop = args.prop.upper()
    scratch = tempfile.mkdtemp(prefix='pynlo-mon-')
    try:
        return go(args, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def go(args, scratch):
    os.makedirs(EVID, exist_ok=True)
    load_pynlo(scratch)
    from mon import core
    mod = importlib.import_module('mon.props.' + args.prop.lower())
    if args.replay:
        return replay(args, mod, scratch)
    n = args.cases or (mod.QUICK if args.tier == 'quick' else mod.THOROUGH)
    cap = 240 if args.tier == 'quick' else 780
    procs, results, errors = [], [], []
    mpc = mp.get_context('fork')
    for w in range(args.procs):
        a, b = mpc.Pipe(False)
        sub = os.path.join(scratch, 'w%d' % w)
        os.mkdir(sub)
        p = mpc.Process(target=worker, args=(w, args.procs, args, n, cap, b, sub))
        p.start()
        b.close()
        procs.append((p, a))
    for p, a in procs:
        try:
            kind, val = pickle.loads(a.recv_bytes())
        except EOFError:
            kind, val = 'error', 'worker died without a result'
        p.join()
        (results if kind == 'ok' else errors).append(val)
    agg = dict(cases=0, strata={}, events={}, checks={}, funcs={}, margins={})
    sigs, samples, viol, lines, cut, msteps = set(), [], [], {}, False, 0
    for r in results:
        agg['cases'] += r['cases']
        for f in ('strata', 'events', 'checks', 'funcs'):
            for k, v in r[f].items():
                agg[f][k] = agg[f].get(k, 0) + v
        for k, v in r['margins'].items():
            agg['margins'][k] = max(v, agg['margins'].get(k, 0))
        sigs |= r['sigs']
        samples += r['samples']
        viol += r['viol']
        cut |= r['cut']
        msteps = max(msteps, r['max_steps'])
        for k, v in r['lines'].items():
            lines.setdefault(k, set()).update(v)
    samples.sort(key=lambda s: s['case'])
    viol.sort(key=lambda v: v['case'])
    known = known_findings()
    fresh, seen = [], {}
    for v in viol:
        k = is_known(args.prop, v, known)
        if k is None:
            fresh.append(v)
        else:
            seen[k['id']] = k
    for k in known:
        if k['property'] == args.prop:
            print('KNOWN-FINDING: property=%s %s' % (args.prop, k['what']))
    src = core.REPO_SRC
    rel = lambda f: os.path.relpath(f, os.path.dirname(src))
    nchecks = sum(agg['checks'].values())
    reached = {rel(f): len(s) for f, s in lines.items()}
    if os.environ.get('VERIF_LINES'):      # for tools/reach.py
        with open(os.path.join(os.environ['VERIF_LINES'], args.prop + '.json'), 'w') as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    top = sorted(((c, '%s:%s' % (os.path.basename(f), q))
                  for (f, q), c in agg['funcs'].items()), reverse=True)[:15]
    missing = [f for f in getattr(mod, 'FILES', []) if f not in reached]
    wall = time.time() - T0
    ev = {
        'property': args.prop, 'tier': args.tier, 'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': agg['cases'],
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE + ' A case counts as non-trivial when at least one '
                    'oracle decision was taken on it; distinct means a different '
                    'scenario or different recorded parameters.',
            'samples': samples[:6],
            'oracle_decisions': nchecks,
            'oracle_decisions_by_clause': agg['checks'],
            'cases_by_scenario': agg['strata'],
            'observed_events': agg['events'],
            'source_lines_reached': reached,
            'entries_into_code_under_test': sum(agg['funcs'].values()),
            'most_entered_functions': ['%s x%d' % (q, c) for c, q in top],
            'largest_case_steps': msteps,
            'closest_margin_by_clause': {k: round(v, 4) for k, v in agg['margins'].items()},
            'stopped_at_time_cap': cut,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) +
        ['held on the executions listed here; nothing is claimed about others'],
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    if not args.no_evidence:
        tmp = os.path.join(EVID, '.%s.%d.tmp' % (args.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, args.prop + '.json'))
    if args.margins:
        for k, v in sorted(agg['margins'].items(), key=lambda t: -t[1]):
            print('  margin %-40s %.3g' % (k, v))
    if args.strata:
        print(agg['strata'], agg['events'], 'max steps', msteps)
    if fresh:
        clauses = []
        for v in fresh:
            if v['clause'] in clauses:
                continue
            clauses.append(v['clause'])
            path = os.path.join(EVID, 'replay-%s-%d-%d.json' % (args.prop, args.seed, v['case']))
            with open(path, 'w') as f:
                json.dump(dict(v, property=args.prop, seed=args.seed, tier=args.tier), f, indent=1)
            print('  clause %s (scenario %s, case %d): %s' % (
                v['clause'], v['stratum'], v['case'], json.dumps(v['detail'])[:600]))
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
            if len(clauses) >= 3:
                break
        return 1
    if errors:
        print('INCONCLUSIVE property=%s: %s' % (args.prop, errors[0]))
        return 2
    if nchecks < mod.MIN_CHECKS or missing or len(agg['strata']) < len(
            {s[0] for s in mod.STRATA}):
        print('INCONCLUSIVE property=%s: %d decisions (need %d), unreached %s, scenarios %s' % (
            args.prop, nchecks, mod.MIN_CHECKS, missing, sorted(agg['strata'])))
        return 2
    print('HELD property=%s tier=%s seed=%d cases=%d distinct=%d decisions=%d wall=%.1fs%s' % (
        args.prop, args.tier, args.seed, agg['cases'], len(sigs), nchecks, wall,
        ' (time cap)' if cut else ''))
    return 0


def replay(args, mod, scratch):
    from mon import core
    with open(args.replay) as f:
        r = json.load(f)
    core.REACH.start()
    os.chdir(scratch)
    ctx = core.run_case(mod, args.prop, r['seed'], r['case'], r.get('tier', 'quick'), r['stratum'])
    print('replayed', args.prop, 'case', r['case'], r['stratum'], json.dumps(ctx.params))
    for v in ctx.violations:
        print(' ', v['clause'], json.dumps(v['detail']))
    if ctx.violations:
        print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
