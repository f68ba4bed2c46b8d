"""C02 history independence: after any history, every answer equals the one of
freshly built objects holding the same current data."""
from copy import deepcopy

from ..gen import Gen
from ..history import HistGen, Live, setup, track, twin
from ..procs import fork_json
from ..seam import SEAM
from ..shrink import shrink  # noqa F401
from ..world import same_q

ID = 'C02'
RUNS = {'quick': 15000, 'thorough': 300000}
RECHECK = 100
RULE = ('a run is a seeded world of curves, cashflow lists, models, fx '
        'containers and ratings put through a seeded history of updates, '
        'queries and aborted valuations with checkpoints; non-trivial: at '
        'least one update took effect before a checkpoint; distinct by the '
        'digest of the full event log')
REAL = ['all of dcf', 'scipy.integrate.quad', 'businessdate (bd worlds)',
        'datetime.date (date worlds)']
STUB = ['date package (sim worlds)', 'user day counts', 'user interpolation',
        'user forward/volatility callables', 'user payoffs', 'user models']
ASSUMPTIONS = [
    'the twin process runs the same code on fresh objects, so a rule that is '
    'wrong for fresh objects too is out of scope of this property',
    'floating point comparison 1e-9 relative; 1e-6 for bracketed solutions']


def plan(rng, tier):
    gen = Gen(rng).build()
    world = deepcopy(gen.world)
    hist = HistGen(rng, gen)
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        for _ in range(rng.choice((2, 4, 8, 14))):
            op = hist.op()
            track(gen, op)
            ops.append(op)
        ops.append(['check', [gen.query() for _ in range(
            rng.choice((4, 8, 12)))]])
    return {'world': world, 'ops': ops}


def show(p):
    return {'world': p['world'], 'ops': p['ops']}


def run_live(p):
    SEAM.reset()
    setup()
    try:
        live = Live(p['world'])
    except Exception as e:
        return {'events': ['unbuildable', type(e).__name__], 'checks': [],
                'bad': [], 'stats': {'worlds_refused_by_constructors': 1}}
    events, checks, bad = [], [], []
    stats = {'ops': {}, 'faults_fired': {}, 'faults_armed': 0}
    SEAM.on = True
    for k, op in enumerate(p['ops']):
        if any(o not in live.world['objs'] for o in op[1:2]
               if isinstance(o, str) and o.isdigit()):
            continue
        stats['ops'][op[0]] = stats['ops'].get(op[0], 0) + 1
        if op[0] == 'check':
            res = [live.q.run(q) for q in op[1]]
            checks.append([deepcopy(live.world), op[1], res])
            events.append(['check', res])
            continue
        out = live.apply(op)
        SEAM.on = True
        events.append([op[0], out])
        if op[0] == 'fq':
            stats['faults_armed'] += 1
            if out[1]:
                key = '%s at %s' % (op[3], out[1])
                stats['faults_fired'][key] = \
                    stats['faults_fired'].get(key, 0) + 1
        if op[0] == 'set' and op[4] != (out == 'ok'):
            bad.append([k, op, out])
    stats['simulated_steps'] = SEAM.total
    return {'events': events, 'checks': checks, 'bad': bad, 'stats': stats}


def execute(p, wall=60.):
    st, r = fork_json(lambda: run_live(p), wall)
    if st == 'hang':
        return viol('hang', 'the history did not finish')
    if st != 'ok':
        return crash(r)
    res = {'violation': None, 'events': r['events'], 'stats': r['stats']}
    if r['bad']:
        k, op, out = r['bad'][0]
        res['violation'] = {
            'class': 'update', 'sig': 'update/%s' % op[0],
            'what': 'update %s: expected %s, outcome %s' % (
                op, 'success' if op[4] else 'refusal', out)}
        return res
    mut = [o for o in p['ops'] if o[0] not in ('check', 'q')]
    res['trivial'] = not mut or not r['checks']
    nq = nexc = 0
    for world, qs, live_res in r['checks']:
        st, t = fork_json(lambda: twin(world, qs), wall)
        if st == 'hang':
            return viol('hang', 'the twin did not finish')
        if st != 'ok':
            return crash(t)
        for q, a, b in zip(qs, live_res, t):
            nq += 1
            nexc += a[0] == 'exc'
            if not same_q(q, a, b, world):
                res['violation'] = {
                    'class': 'stale:' + q[0], 'sig': 'stale/%s' % q[0],
                    'what': 'after the history %s gives %s, fresh objects '
                    'with the same data give %s' % (q, a, b)}
                return res
    res['stats']['queries_compared'] = nq
    res['stats']['queries_raising_in_both'] = nexc
    return res


def viol(cls, what):
    return {'violation': {'class': cls, 'sig': cls, 'what': what},
            'events': [cls], 'stats': {}}


def crash(r):
    if 'MemoryError' in str(r):
        return viol('memory', 'the run exhausted its memory limit')
    return {'violation': None, 'harness': str(r), 'events': [], 'stats': {}}
