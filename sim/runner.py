"""Runs a property's simulation: many seeded runs over forked workers, fault
and schedule statistics, determinism self-check, minimisation, replay files,
evidence.

exit 0: the property held on everything explored; exit 1: VIOLATION line.
"""
import gc
import hashlib
import importlib
import json
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'out'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
FINDINGS = os.path.join(VERIF, 'known_findings.json')


class HarnessError(Exception):
    """the machinery failed (not a verdict on the code)"""


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


def digest(x):
    return hashlib.sha256(jdump(x).encode()).hexdigest()[:16]


def load(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def seed_of(pid, base, i):
    return '%s/%s/%d' % (base, pid, i)


def one(mod, seed, tier):
    # a plan is plain JSON data: exactly what a replay file holds
    plan = json.loads(jdump(mod.plan(random.Random(seed), tier)))
    plan['seed'] = seed
    return plan, safe(mod, plan)


WALL = 30., 120.    # real seconds of one simulated process, second try


def safe(mod, plan, walls=WALL):
    """execute; a harness exception is a result of its own class"""
    for wall in walls:
        try:
            res = mod.execute(plan, wall)
        except Exception:
            res = {'violation': None, 'harness': traceback.format_exc(),
                   'events': [], 'stats': {}}
        if (res.get('violation') or {}).get('class') != 'hang':
            break
    if res.get('harness'):
        where = escaped(res['harness'])
        if where:
            res = {'violation': {
                'class': 'escaped', 'sig': 'escaped', 'what':
                'an exception escapes from %s' % where},
                'events': ['escaped'], 'stats': {}}
    return res


def escaped(tb):
    """an exception raised inside the code under test where the simulator
    reads a state that is always readable: (file, what) or None"""
    files = re.findall(r'^  File "([^"]+)", line (\d+), in (\S+)', tb, re.M)
    if not files:
        return None
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    name = os.path.realpath(files[-1][0])
    if not name.startswith(os.path.join(repo, 'dcf') + os.sep):
        return None
    return '%s %s(): %s' % (os.path.relpath(name, repo), files[-1][2],
                            tb.strip().splitlines()[-1][:300])


def merge(total, stats):
    for k, v in stats.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, list):
            s = total.setdefault(k, set())
            s.update(v)
        else:
            total[k] = total.get(k, 0) + v


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, set):
        return sorted(x)
    return x


def worker(pid, base, tier, w, n, runs, cap, path, stop, recheck):
    mod = load(pid)
    gc.collect()
    gc.freeze()
    out = {'runs': 0, 'digests': {}, 'stats': {}, 'harness': [],
           'violations': [], 'distinct': set(), 'samples': [], 'redo': 0,
           'nondet': [], 'trivial': 0, 'capped': False}
    t0 = time.monotonic()
    for i in range(w, runs, n):
        if time.monotonic() - t0 > cap:
            out['capped'] = True
            break
        if os.path.exists(stop):
            break
        seed = seed_of(pid, base, i)
        plan, res = one(mod, seed, tier)
        out['runs'] += 1
        if res.get('harness'):
            out['harness'].append([seed, res['harness']])
            continue
        dg = digest(res['events'])
        merge(out['stats'], res.get('stats', {}))
        for m in res.get('measure', [dg]):
            out['distinct'].add(m)
        if res.get('trivial'):
            out['trivial'] += 1
        if len(out['samples']) < 1 and not res.get('trivial'):
            out['samples'].append({'seed': seed,
                                   'plan': mod.show(plan)})
        if res['violation']:
            out['violations'].append([i, seed, res['violation']])
            if not known(pid, res['violation']):
                open(stop, 'w').close()
                break
        elif recheck and i % recheck == 0:
            res2 = one(mod, seed, tier)[1]
            out['redo'] += 1
            if digest(res2.get('events')) != dg:
                out['nondet'].append(seed)
    out['distinct'] = sorted(out['distinct'])
    out['stats'] = plain(out['stats'])
    with open(path, 'w') as f:
        json.dump(out, f)


def findings(pid):
    try:
        with open(FINDINGS) as f:
            return [e for e in json.load(f) if e.get('property') == pid]
    except FileNotFoundError:
        return []


def known(pid, violation):
    for e in findings(pid):
        if e.get('status') == 'known' and violation.get('sig') == e.get('sig'):
            return e
    return None


def minimise(mod, plan, violation, limit=90.):
    """greedy delta debugging on the plan while the same class of violation
    persists"""
    cls = violation['class']
    t0 = time.monotonic()
    best, bviol, tries = plan, violation, 0
    progress = True
    while progress and time.monotonic() - t0 < limit:
        progress = False
        for cand in mod.shrink(best):
            if time.monotonic() - t0 > limit:
                break
            tries += 1
            cand['seed'] = plan.get('seed')
            r = safe(mod, cand, (20.,))
            v = r.get('violation')
            if v and v['class'] == cls and not r.get('harness'):
                best, bviol = cand, v
                progress = True
                break
    return best, bviol, tries


def run(pid):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    base = os.environ.get('VERIF_SEED', '1')
    mod = load(pid)
    runs = int(os.environ.get('VERIF_RUNS', 0)) or mod.RUNS[tier]
    n = int(os.environ.get('VERIF_WORKERS', 0)) or max(
        1, min(8, os.cpu_count() or 1))
    cap = float(os.environ.get('VERIF_CAP', 600 if tier == 'quick' else 3000))
    print('%s: VERIF_SEED=%s tier=%s runs=%d workers=%d code=%s' % (
        pid, base, tier, runs, n, os.environ.get('VERIF_REPO', '/repo')),
        flush=True)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='dst-%s-' % pid)
    stop = os.path.join(tmp, 'stop')
    pids = []
    for w in range(n):
        path = os.path.join(tmp, '%d.json' % w)
        p = os.fork()
        if p == 0:
            code = 0
            try:
                worker(pid, base, tier, w, n, runs, cap, path, stop,
                       getattr(mod, 'RECHECK', 40))
            except BaseException:
                traceback.print_exc()
                code = 2
            finally:
                sys.stdout.flush()
                os._exit(code)
        pids.append(p)
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        bad += st != 0
    tot = {'runs': 0, 'stats': {}, 'harness': [], 'violations': [],
           'distinct': set(), 'samples': [], 'redo': 0, 'nondet': [],
           'trivial': 0, 'capped': False}
    for w in range(n):
        path = os.path.join(tmp, '%d.json' % w)
        if not os.path.exists(path):
            continue
        with open(path) as f:
            o = json.load(f)
        for k in ('runs', 'redo', 'trivial'):
            tot[k] += o[k]
        for k in ('harness', 'violations', 'samples', 'nondet'):
            tot[k] += o[k]
        tot['capped'] |= o['capped']
        tot['distinct'].update(o['distinct'])
        merge(tot['stats'], o['stats'])
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    code = 0
    unlisted, kn = [], {}
    for i, seed, v in sorted(tot['violations'], key=lambda x: x[0]):
        e = known(pid, v)
        if e:
            kn[e['sig']] = e
        else:
            unlisted.append([i, seed, v])
    report = None
    if unlisted:
        code = 1
        i, seed, v = unlisted[0]
        plan, _ = one(mod, seed, tier)
        small, sv, tries = minimise(mod, plan, v)
        path = os.path.join(OUT, 'replay-%s-%s.json' % (pid, digest(small)))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'plan': small,
                       'violation': sv, 'minimised_by': tries,
                       'original_ops': len(plan.get('ops', []))}, f,
                      indent=1, sort_keys=True)
        # a fresh interpreter has to fail in the same way
        r = subprocess.run(
            [sys.executable, '-B', os.path.join(VERIF, 'check.py'), pid,
             '--replay', path], capture_output=True, text=True,
            env=dict(os.environ, PYTHONHASHSEED='random'))
        report = {'seed': seed, 'violation': sv, 'replay': path,
                  'replay_reproduced': r.returncode == 1}
        print('seed %s' % seed)
        print('violation: %s' % json.dumps(sv))
        print('trace: %s' % json.dumps(mod.show(small))[:4000])
        print('replay in a fresh interpreter: %s' % (
            'reproduced' if r.returncode == 1 else
            'NOT reproduced (exit %d)' % r.returncode))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for e in kn.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    for e in findings(pid):
        if e.get('status') == 'known' and e['sig'] not in kn:
            v = mod.probe(e) if hasattr(mod, 'probe') else None
            if v is None or v:
                print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    wall = time.monotonic() - t0
    if tot['nondet'] and code == 0:
        bad += 1
        print('HARNESS: not deterministic: %s' % tot['nondet'][:5])
    if tot['harness']:
        print('HARNESS: %d runs failed in the machinery, first:\n%s\n%s' % (
            len(tot['harness']), tot['harness'][0][0],
            tot['harness'][0][1][-1500:]))
    stats = plain(tot['stats'])
    cov = {
        'evaluations': tot['runs'],
        'distinct_nontrivial': len(tot['distinct']),
        'rule': mod.RULE,
        'samples': tot['samples'][:3],
        'seeds': 'VERIF_SEED=%s, run seeds "%s" .. "%s"' % (
            base, seed_of(pid, base, 0), seed_of(pid, base, runs - 1)),
        'planned_runs': runs,
        'stopped_at_wall_cap': tot['capped'],
        'runs_per_hour': int(tot['runs'] / max(wall, 1e-9) * 3600),
        'trivial_runs': tot['trivial'],
        'determinism_rechecks': tot['redo'],
        'determinism_failures': len(tot['nondet']),
        'harness_failures': len(tot['harness']),
        'workers': n,
        'measured': stats,
        'real_components': mod.REAL,
        'stub_components': mod.STUB,
    }
    if report:
        cov['violation'] = report
    ev = {'property': pid, 'tier': tier, 'seed': int(base)
          if base.lstrip('-').isdigit() else 0,
          'level': 'exploration', 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2),
          'violations': len(unlisted)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d runs, %d distinct, %.1fs, violations=%d' % (
        pid, tot['runs'], len(tot['distinct']), wall, len(unlisted)))
    # a run lost to the machine (a killed process) leaves the others valid
    lost = len(tot['harness']) > max(2, .002 * tot['runs'])
    if code == 0 and (bad or lost or not tot['runs']):
        return 2
    return code


def replay(pid, path):
    mod = load(pid)
    with open(path) as f:
        data = json.load(f)
    res = safe(mod, data['plan'])
    if res.get('harness'):
        print(res['harness'])
        return 2
    v = res['violation']
    if not v:
        print('replay: no violation')
        return 0
    print('violation: %s' % json.dumps(v))
    print('event log digest: %s' % digest(res['events']))
    same = v['class'] == data['violation']['class']
    print('replay: %s' % ('same violation' if same else 'other violation'))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main(argv):
    pid = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(pid, argv[2])
    if len(argv) > 2 and argv[1] == '--digest':
        mod = load(pid)
        base = os.environ.get('VERIF_SEED', '1')
        for i in range(int(argv[2])):
            res = one(mod, seed_of(pid, base, i), 'quick')[1]
            print(i, digest(res['events']), 'H' if res.get('harness') else '')
        return 0
    return run(pid)
