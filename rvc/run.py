"""usage: run.py PROPERTY [--tier quick|thorough] [--unit NAME] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import shutil
import signal
import sys
import tempfile
import time
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from rvc import harness, prog, replay, smt          # noqa: E402
from rvc.engine import Undecided                      # noqa: E402

PROG = None
WORK = None
START = time.time()
BUDGET = float(os.environ.get('RVC_BUDGET', '800'))


def load_specs():
    import specs
    for m in pkgutil.iter_modules(specs.__path__):
        importlib.import_module('specs.' + m.name)


def work(job):
    prop, ui, pi = job
    u = harness.UNITS[prop][ui]
    p = u.params[pi]
    os.setpgid(0, 0) if False else None
    left = BUDGET - (time.time() - START)
    res, E, v = harness.run_unit(PROG, u, p, timeout=max(20, min(u.timeout, left - 60)))
    res['index'] = (ui, pi)
    if res['status'] in ('failed', 'undecided', 'found') and not E.contracts and not v.noreplay and not str(res.get('why', '')).startswith('engine:'):
        try:
            hunt(u, p, res, E, v)
        except Exception as e:          # the search for an input is best effort
            import traceback
            res['hunt_error'] = traceback.format_exc()[-800:]
    return res


def try_model(u, p, model, res, name):
    nat = replay.Native(PROG, WORK)
    r2, E2, v2 = harness.run_unit(PROG, u, p, mode='concrete', model=model, native=nat, timeout=120)
    res.setdefault('replays', []).append({'obligation': name, 'outcome': r2['status'], 'why': r2.get('why', ''), 'notes': r2.get('notes', [])[:3]})
    if r2['status'] == 'violated':
        res['confirmed'] = {'obligation': name, 'observed': r2.get('why'), 'native': nat.log,
                            'inputs': sorted(str(d) + ' = ' + str(model[d])[:80] for d in model.decls() if '!' not in d.name())[:60]}
        return True
    return False


def hunt(u, p, res, E, v):
    """find a real failing input for a unit whose proof failed"""
    t0 = time.time()
    cap = 150
    for name, f in list(E.ob.fail.items())[:6]:
        if time.time() - t0 > 60:
            break
        E.smt.deadline = time.time() + 20
        r, m = E.smt.check(list(f.state.pc) + v.smalls, z3.Not(f.cond), full=True, want_model=True, timeout=8000)
        if m is not None and try_model(u, p, m, res, name):
            return
        if f.model is not None and not v.smalls:
            if try_model(u, p, f.model, res, name):
                return
    for bound in (1, 2, 3, u.hunt_bound, u.hunt_bound + 3):
        left = min(cap - (time.time() - t0), BUDGET - (time.time() - START) - 10)
        if left < 8:
            break
        r2, E2, v2 = harness.run_unit(PROG, u, p, mode='hunt', timeout=left, bound=bound)
        res.setdefault('hunts', []).append({'bound': bound, 'status': r2['status'], 'why': r2.get('why'), 'paths': r2['paths'], 'wall': r2['wall']})
        for name, snap, c, r, m in E2.hits:
            if m is not None and try_model(u, p, m, res, name):
                return


def main():
    global PROG, WORK
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--param', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    load_specs()
    WORK = tempfile.mkdtemp(prefix='rvc-')
    code = 2
    try:
        code = check(a)
    finally:
        if not a.keep:
            shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(code)


def check(a):
    global PROG
    prop = a.prop
    t0 = time.time()
    prog.build(WORK + '/ll')
    PROG = prog.Program(WORK + '/ll')
    harness.OFFS.load(harness.WANT, WORK, prog.REPO)
    units = harness.UNITS.get(prop, [])
    jobs = []
    for ui, u in enumerate(units):
        if a.unit and a.unit != u.name:
            continue
        if u.tier == 'thorough' and a.tier != 'thorough':
            continue
        for pi in range(len(u.params)):
            if a.param is not None and a.param != pi:
                continue
            if pi >= u.nquick and a.tier != 'thorough' and a.param is None:
                continue
            jobs.append((prop, ui, pi))
    jobs.sort(key=lambda j: -units[j[1]].timeout)
    results = []
    if a.j == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(work(j))
            if a.v:
                show(results[-1])
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(work, jobs):
                results.append(r)
                if a.v:
                    show(r)
    bad = [r for r in results if r['status'] != 'proved']
    os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
    viol = []
    for r in bad:
        rid = '%s-%s%s' % (prop, r['unit'], '' if r['param'] is None else '-' + ''.join(ch if ch.isalnum() else '_' for ch in r['param'])[:60])
        path = '%s/evidence/replay/%s.json' % (VERIF, rid)
        json.dump(r, open(path, 'w'), indent=1, default=str)
        viol.append((r, path))
    write_evidence(prop, a, results, viol, time.time() - t0, units)
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if not jobs:
        print('no units for', prop)
        return 2
    conf = [x for x in viol if x[0].get('confirmed')]
    rest = [x for x in viol if not x[0].get('confirmed')]
    for r, path in conf:
        print('failed obligation: %s (%s) observed on the real code: %s' % (r['confirmed']['obligation'], r['unit'], r['confirmed']['observed']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if not conf:
        for r, path in rest:
            ob = r['failed'][0]['obligation'] if r['failed'] else r.get('why', '')
            print('undischarged obligation: %s (%s, %s)' % (ob, r['unit'], r['status']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    tot = sum(r['obligations'] for r in results)
    print('%s: %d units, %d obligations, %d discharged, %.1fs' % (prop, len(results), tot, sum(r['discharged'] for r in results), time.time() - t0))
    return 1 if viol else 0


def show(r):
    print('%-9s %-40s %-14s ob=%d/%d paths=%d q=%d %.1fs %s' % (r['status'], r['unit'], (r['param'] or '')[:14], r['discharged'], r['obligations'], r['paths'],
                                                     r['solver']['queries'], r['wall'], r.get('why', '')))
    for f in r['failed']:
        print('     FAIL', f)
    for x in r.get('replays', []):
        print('     replay', x)
    for x in r.get('hunts', []):
        print('     hunt', x)
    if r.get('hunt_error'):
        print('     ', r['hunt_error'])
    if r.get('confirmed'):
        print('     CONFIRMED', r['confirmed']['observed'], r['confirmed']['inputs'])
    sys.stdout.flush()


def known(prop):
    p = VERIF + '/known_findings.jsonl'
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') == 'known':
                    out.append(d['what'])
    return out


TRUST = [
    'clang 18 front end and mem2reg: LLVM IR at -O0 is taken as the meaning of the C source (DEBUG build flags)',
    'rvc itself (/verif/rvc: IR reader, memory model, loop cutting, contract language) and z3 as its only solver back end',
    'libc models: malloc/calloc/realloc/free/memcpy/memmove/memset/strlen behave as specified by C; allocation succeeds',
    'objects are smaller than 2^47 bytes, distinct objects have distinct addresses, and output functions (printf) have no effect on program state',
]


def write_evidence(prop, a, results, viol, wall, units):
    fns = {}
    loops = {}
    contracts = {}
    for r in results:
        for k, n in r['functions'].items():
            fns[k] = fns.get(k, 0) + n
        for k, n in r['contracts'].items():
            contracts[k] = contracts.get(k, 0) + n
        for k, d in r['loops'].items():
            loops[k] = max(loops.get(k, 0), d['invariants'])
    ub = [u for u in units if u.bounded]
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proved' if False else None,
        'coverage': {
            'obligations': sum(r['obligations'] for r in results),
            'discharged': sum(r['discharged'] for r in results),
            'discharged_by': {
                'simplifier': sum(r['trivial'] for r in results),
                'z3 (bit-vector queries answered)': sum(r['solver']['bitvector'] for r in results),
                'z3 (integer-translated queries answered)': sum(r['solver']['integer'] for r in results),
            },
            'solver_queries': sum(r['solver']['queries'] for r in results),
            'solver_time_s': round(sum(r['solver']['time'] for r in results), 1),
            'paths': sum(r['paths'] for r in results),
            'units': [{'unit': r['unit'], 'param': r['param'], 'status': r['status'], 'obligations': r['obligations'], 'discharged': r['discharged'],
                       'paths': r['paths'], 'wall_s': r['wall'], 'reachable_calls': r['reached']} for r in sorted(results, key=lambda r: (r['unit'], str(r['param'])))],
            'functions_under_contract': sorted(set(t for u in units for t in u.targets)),
            'functions_executed_symbolically': sorted(fns),
            'callee_contracts_applied': contracts,
            'loops_cut_by_invariant': loops,
            'bounded_units': [{'unit': u.name, 'bound': u.bounded} for u in ub],
            'checker_cmd': 'python3-vt /verif/rvc/run.py %s --tier %s' % (prop, a.tier),
            'trusted_base': TRUST,
            'failed': [{'unit': r['unit'], 'replay': p, 'confirmed': bool(r.get('confirmed')),
                        'obligations': [f['obligation'] for f in r['failed']] or [r.get('why', '')]} for r, p in viol],
        },
        'assumptions': TRUST + sorted(set(n for r in results for n in r['notes'])),
        'wall_s': round(wall, 1),
        'violations': len(viol),
    }
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']}
    except Exception:
        pass
    ev['level'] = man.get(prop, {}).get('level', 'proof')
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1, default=str)


if __name__ == '__main__':
    main()
