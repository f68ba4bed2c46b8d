"""C01 failure atomicity of reading operations: pricing, sensitivities, fits,
curve and model queries leave everything as found, whether they succeed, a
collaborator fails, or they are cancelled; repeated without faults they give
what fresh objects give."""
from copy import deepcopy

from ..gen import Gen
from ..history import HistGen, Live, setup, track, twin
from ..procs import fork_json
from ..seam import SEAM, StepBudget
from ..shrink import shrink_ops, shrink_world
from ..snap import Snap, diff
from ..world import canon, same_q

ID = 'C01'
RUNS = {'quick': 9000, 'thorough': 250000}
RECHECK = 100
RULE = ('a run is a seeded world, an optional history of updates, and one to '
        'three reading operations, each run fault free and then under seeded '
        'faults at collaborator calls (transient exceptions, outages, '
        'cancellations, corrupted answers); after every single attempt the '
        'observable state of all objects, argument containers and registries '
        'is compared with the state before; non-trivial: at least one fault '
        'fired; distinct by the digest of the event log')
REAL = ['all of dcf', 'scipy.integrate.quad', 'businessdate (bd worlds)',
        'datetime.date (date worlds)']
STUB = ['date package (sim worlds)', 'user day counts', 'user interpolation',
        'user forward/volatility callables', 'user discount curves',
        'user payoffs', 'user models']
ASSUMPTIONS = [
    'failures and cancellations arrive while a collaborator is being called '
    '(date arithmetic, day count, interpolation, forward / volatility / '
    'discount function, payoff, model); an asynchronous exception between '
    'two bytecodes of dcf itself is not injected',
    'bitwise comparison of observable state; results 1e-9 relative, 1e-6 '
    'for bracketed solutions']

EXCS = ('SimFault', 'SimFault', 'SimAbort', 'ValueError', 'ZeroDivisionError',
        'ArithmeticError', 'KeyError', 'TypeError', 'AttributeError',
        'AssertionError', 'OSError', 'TimeoutError', 'MemoryError',
        'RecursionError', 'StopIteration', 'KeyboardInterrupt',
        'GeneratorExit', 'SystemExit')
CORRUPT = ('nan', 'inf', '-inf', None, 'text', 0.0, -1.0, 1e300)
BUDGET = 200000     # collaborator calls of one attempt


def plan(rng, tier):
    gen = Gen(rng, kinds=('sim', 'sim', 'sim', 'sim', 'bd', 'float', 'date',
                         'dt'),
              themes=rng.choice((
                  None, ('rates', 'options', 'rates', 'options', 'credit',
                         'vol', 'fx'), ('rates', 'options')))).build()
    if rng.random() < .3:
        gen.new({'t': 'duck', 'origin': 0,
                 'rate': round(rng.uniform(0, .05), 4),
                 'dom': gen.dates(3)})
    world = deepcopy(gen.world)
    hist = HistGen(rng, gen)
    for k in ('q', 'fq', 'badset'):
        hist.weights[k] = 0
    ops = []
    for _ in range(rng.choice((0, 0, 1, 3, 6))):
        op = hist.op()
        track(gen, op)
        ops.append(op)
    lists = gen.of('list')
    for _ in range(rng.choice((1, 2, 3))):
        q = None
        d = gen.disc()
        if lists and d and rng.random() < .75:
            oid = rng.choice(lists)
            s = gen.objs[oid]
            q = gen.solver(oid, s, d) if rng.random() < .65 else \
                ['pv', oid, d, gen.vdate()]
        if q is None:
            q = gen.query()
        faults = []
        for _ in range(rng.choice((2, 4, 8))):
            x = rng.random()
            u = rng.choice((round(rng.random(), 4), round(rng.random(), 4),
                            0., 1.))
            if x < .6:
                faults.append(['raise', u, rng.choice(EXCS)])
            elif x < .75:
                faults.append(['outage', u, rng.choice(EXCS)])
            else:
                faults.append(['corrupt', u, rng.choice(CORRUPT)])
        ops.append(['read', q, faults])
    return {'world': world, 'ops': ops}


def show(p):
    return {'world': p['world'], 'ops': p['ops']}


def attempt(live, q):
    SEAM.total = 0
    SEAM.budget = BUDGET
    live.q.made = []
    try:
        return ['ok', canon(live.q.raw(q))]
    except BaseException as e:
        return ['exc', type(e).__name__]
    finally:
        SEAM.budget = None


def frame(live, snap, before):
    """what has changed: objects, or the lists handed to the request"""
    for x, y in live.q.made:
        if len(x) != len(y) or any(a is not b for a, b in zip(x, y)):
            return '/a list handed in', canon(y), canon(x)
    return diff(before, snap.take())


def run_live(p):
    SEAM.reset()
    setup()
    try:
        live = Live(p['world'], keep_args=True)
    except Exception as e:
        return {'events': ['unbuildable', type(e).__name__], 'reads': [],
                'bad': None, 'stats': {'worlds_refused_by_constructors': 1}}
    events, reads = [], []
    stats = {'faults_armed': {}, 'faults_fired': {}, 'fault_sites': {},
             'routines': {}, 'simulated_steps': 0}
    out = {'events': events, 'reads': reads, 'bad': None, 'stats': stats}

    def bump(k, name):
        stats[k][name] = stats[k].get(name, 0) + 1

    snap = Snap(live)
    for op in p['ops']:
        if any(o not in live.world['objs'] for o in op[1:2]
               if isinstance(o, str) and o.isdigit()):
            continue
        if op[0] != 'read':
            events.append([op[0], live.apply(op)])
            continue
        q, faults = op[1], op[2]
        bump('routines', q[0])
        before = snap.take()
        SEAM.arm()
        first = attempt(live, q)
        n = SEAM.disarm()
        stats['simulated_steps'] += n
        events.append([q[0], n, first])
        d = frame(live, snap, before)
        if d:
            out['bad'] = bad(q, d, 'succeeding' if first[0] == 'ok'
                             else 'failing without a fault')
            return out
        for kind, u, arg in faults:
            k = 1 + int(u * max(n - 1, 0))
            bump('faults_armed', kind)
            if kind == 'corrupt':
                v = float(arg) if arg in ('nan', 'inf', '-inf') else arg
                SEAM.arm(corrupt=(k, v))
            else:
                SEAM.arm(k, arg, sticky=kind == 'outage')
            res = attempt(live, q)
            fired = SEAM.fired
            stats['simulated_steps'] += SEAM.disarm()
            events.append([kind, k, arg, fired, res])
            if fired:
                bump('faults_fired', kind if kind == 'corrupt'
                     else '%s %s' % (kind, arg))
                bump('fault_sites', fired)
            d = frame(live, snap, before)
            if d:
                out['bad'] = bad(q, d, 'a %s %s at collaborator call %d (%s)'
                                 % (kind, arg, k, fired))
                return out
        SEAM.arm()
        last = attempt(live, q)
        stats['simulated_steps'] += SEAM.disarm()
        events.append([q[0], 'again', last])
        reads.append([deepcopy(live.world), q, first, last])
    return out


def bad(q, d, why):
    path = d[0].split('/')[1] if '/' in d[0] else ''
    return {'class': 'state:' + q[0], 'sig': 'state/%s' % q[0],
            'what': '%s after %s changed object %s: %s was %s, is %s' % (
                q, why, path, d[0], d[1], d[2])}


def execute(p, wall=60.):
    st, r = fork_json(lambda: run_live(p), wall)
    if st == 'hang':
        return viol('hang', 'a routine did not come back after a fault')
    if st != 'ok':
        return crash(r)
    res = {'violation': r['bad'], 'events': r['events'], 'stats': r['stats']}
    if r['bad']:
        return res
    res['trivial'] = not r['stats'].get('faults_fired')
    n = 0
    for world, q, first, last in r['reads']:
        if 'StepBudget' in (first[1], last[1]):
            continue
        st, t = fork_json(lambda: twin(world, [q]), wall)
        if st == 'hang':
            return viol('hang', 'the twin did not finish')
        if st != 'ok':
            return crash(t)
        n += 1
        for what, x in (('the first time', first), ('after faults', last)):
            if not same_q(q, x, t[0], world):
                res['violation'] = {
                    'class': 'retry:' + q[0], 'sig': 'retry/%s' % q[0],
                    'what': '%s %s gives %s, fresh objects with the same '
                    'data give %s' % (q, what, x, t[0])}
                return res
    res['stats']['retries_compared'] = n
    return res


def viol(cls, what):
    return {'violation': {'class': cls, 'sig': cls, 'what': what},
            'events': [cls], 'stats': {}}


def crash(r):
    if 'MemoryError' in str(r):
        return viol('memory', 'the run exhausted its memory limit')
    return {'violation': None, 'harness': str(r), 'events': [], 'stats': {}}


def shrink(plan):
    yield from shrink_ops(plan)
    for i, op in enumerate(plan['ops']):
        if op[0] == 'read' and op[2]:
            n = len(op[2])
            for k in range(n):
                cand = dict(plan)
                cand['ops'] = list(plan['ops'])
                cand['ops'][i] = ['read', op[1], op[2][:k] + op[2][k + 1:]]
                yield cand
    yield from shrink_world(plan)
