"""C03 concurrent and re-entrant use: readers of shared objects, and threads
working on objects of their own, get the answers they get when running alone,
under every schedule."""
from copy import deepcopy

from ..gen import Gen
from ..history import HistGen, Live, setup, track
from ..procs import fork_json
from ..sched import Sched, Schedule
from ..seam import SEAM
from ..shrink import refs
from ..snap import Snap, diff
from ..world import canon, same

ID = 'C03'
RUNS = {'quick': 3500, 'thorough': 120000}
RECHECK = 60
RULE = ('a run is a seeded world of shared objects, which threads only read, '
        'and private objects per thread, which their thread also updates and '
        'solves on; two to four real threads under the baton scheduler, '
        'preempted at lines or bytecodes of dcf, or one thread whose '
        'collaborators call back into dcf; non-trivial: at least one switch '
        'or nested call happened; distinct by the sequence of switches')
REAL = ['all of dcf', 'python threads', 'scipy.integrate.quad',
        'businessdate (bd worlds)']
STUB = ['thread scheduler (baton, seeded)', 'date package (sim worlds)',
        'user day counts', 'user interpolation', 'user callables',
        'user payoffs', 'user models']
ASSUMPTIONS = [
    'claimed for reading operations on shared objects (values, rates, '
    'tables, present value, yield to maturity, accrued interest, casts, fx '
    'and rating reads) and for any operation on objects of one thread only; '
    'get_fair_rate, get_basis_point_value, get_bucketed_delta and '
    'get_curve_fit temporarily modify the objects handed to them and are '
    'claimed for thread private objects only',
    'preemption at lines or bytecodes of dcf and at collaborator calls']

LIMIT = 300000      # preemption points of one run
UNSAFE = 'bpv', 'bucket', 'fair', 'fit'
EXCS = 'SimFault', 'SimAbort', 'ValueError', 'KeyboardInterrupt'


def rename(x, m):
    if isinstance(x, dict):
        return {k: (m.get(v, v) if k == 'ref' else rename(v, m))
                for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, m) for v in x]
    return x


def safe_query(gen):
    for _ in range(100):
        q = gen.query()
        if q[0] not in UNSAFE:
            return q


def reader(rng, gen):
    x = rng.random()
    lists, d = gen.of('list'), gen.disc()
    if x < .45 and lists and d:
        return ['pv', rng.choice(lists), d, gen.vdate()]
    c = gen.of('curve')
    if x < .55 and c:
        return [rng.choice(('iter', 'iter2')), rng.choice(c)]
    return safe_query(gen)


def private(rng, gen, t):
    """a renamed copy of the world, owned by one thread"""
    m = {i: str(1000 * (t + 1) + int(i)) for i in gen.objs}
    p = deepcopy(gen)
    p.rng = rng
    p.objs = {m[i]: rename(deepcopy(s), m) for i, s in gen.objs.items()}
    for s in p.objs.values():
        if 'legs' in s:
            s['legs'] = [m[i] for i in s['legs']]
    return p


def plan(rng, tier):
    kind = rng.random()
    gen = Gen(rng, kinds=('sim', 'sim', 'bd', 'float', 'date', 'dt'))
    gen.steppers = False    # daily stepping: too many preemption points
    gen.build()
    world = deepcopy(gen.world)
    if kind < .25:
        prog = [reader(rng, gen) for _ in range(rng.choice((1, 2, 4)))]
        nest = [[round(rng.random(), 5), reader(rng, gen)]
                for _ in range(rng.choice((1, 2, 4, 8)))]
        # nested calls of the same kind on the same objects
        for i in range(len(nest)):
            if rng.random() < .4:
                q = list(rng.choice(prog))
                if q[0] == 'pv':
                    q[3] = gen.vdate()
                nest[i][1] = q
        return {'mode': 'reentrant', 'world': world, 'ops': prog,
                'nest': nest}
    n = rng.choice((2, 2, 2, 3, 4))
    progs, faults = [], {}
    focus = rng.random() < .5 and [reader(rng, gen) for _ in range(2)]
    own = rng.random() < .5
    for t in range(n):
        ops = []
        pg = hist = None
        if own and rng.random() < .7:
            pg = private(rng, gen, t)
            world['objs'].update(deepcopy(pg.objs))
            hist = HistGen(rng, pg)
            hist.weights['flag'] = 0
            hist.weights['fq'] = 0
            hist.weights['q'] = 0
        for _ in range(rng.choice((1, 2, 4, 6))):
            x = rng.random()
            if hist is not None and x < .5:
                if x < .2:
                    op = hist.op()
                    track(pg, op)
                    ops.append(op)
                else:
                    q = None
                    lists, d = pg.of('list'), pg.disc()
                    if lists and d and rng.random() < .5:
                        oid = rng.choice(lists)
                        q = pg.solver(oid, pg.objs[oid], d)
                    ops.append(['q', q or pg.query()])
            elif focus and x < .8:
                q = list(rng.choice(focus))
                if q[0] == 'pv':
                    q[3] = gen.vdate()
                ops.append(['q', q])
            else:
                ops.append(['q', reader(rng, gen)])
        progs.append(ops)
        if rng.random() < .15:
            faults[str(t)] = [int(10 ** rng.uniform(0, 2.5)),
                              rng.choice(EXCS)]
    if rng.random() < .5:
        sched = {'kind': 'few', 'seed': rng.getrandbits(32), 'points':
                 [round(rng.random(), 6)
                  for _ in range(rng.choice((1, 2, 3, 5, 10)))]}
    else:
        sched = {'kind': 'walk', 'seed': rng.getrandbits(32),
                 'p': rng.choice((.002, .02, .1, .5))}
    return {'mode': 'threads', 'world': world, 'progs': progs,
            'faults': faults, 'sched': sched,
            'opcodes': rng.random() < .25}


def show(p):
    return {k: v for k, v in p.items() if k not in ('seed', 'recorded')}


def step(live, op):
    try:
        if op[0] == 'q':
            return ['ok', canon(live.q.raw(op[1]))]
        return ['op', live.apply(op)]
    except BaseException as e:
        return ['exc', type(e).__name__]


def known(live, op):
    i = op[1][1] if op[0] == 'q' else op[1]
    i = i[0] if isinstance(i, list) else i
    return not (isinstance(i, str) and i.isdigit()
                and i not in live.world['objs'])


def prog(live, ops):
    def run():
        return [step(live, op) for op in ops if known(live, op)]
    return run


def start(world):
    SEAM.reset()
    setup()
    return Live(world, keep_args=True)


def alone(p, t):
    """the oracle: one thread's program on its own"""
    live = start(p['world'])
    f = p['faults'].get(str(t))
    s = Sched([prog(live, p['progs'][t])], None, {'0': f} if f else None,
              p['opcodes'])
    r = s.run()[0]
    return {'res': r, 'steps': s.step}


def together(p, total, shared):
    live = start(p['world'])
    snap = Snap(live)
    before = snap.take(shared) if shared else {}
    s = Sched([prog(live, ops) for ops in p['progs']],
              Schedule(p['sched'], total), p['faults'], p['opcodes'])
    res = s.run()
    after = snap.take(shared) if shared else {}
    return {'res': res, 'switches': s.switches, 'sites': sorted(s.sites),
            'steps': s.step, 'fired': s.fired, 'diff': diff(before, after)}


def threads(p, wall):
    try:
        start(p['world'])
    except Exception as e:
        return {'violation': None, 'events': ['unbuildable'],
                'stats': {'worlds_refused_by_constructors': 1},
                'trivial': True}
    ref, total = [], 0
    for t in range(len(p['progs'])):
        st, r = fork_json(lambda: alone(p, t), wall)
        if st != 'ok':
            return crash(st, r)
        ref.append(r['res'])
        total += r['steps']
    if total > LIMIT:
        return {'violation': None, 'events': ['too long', total],
                'stats': {'runs_too_long_to_interleave': 1}, 'trivial': True}
    shared = [i for i in p['world']['objs'] if int(i) < 1000]
    st, r = fork_json(lambda: together(p, total, shared), wall)
    if st != 'ok':
        return crash(st, r)
    stats = {'mode': {'threads %d' % len(p['progs']): 1},
             'schedule_kind': {p['sched']['kind']: 1},
             'granularity': {'bytecode' if p['opcodes'] else 'line': 1},
             'preemption_points': r['steps'],
             'switches': len(r['switches']), 'preempted_at': r['sites'],
             'faults_fired': {}}
    for f in r['fired']:
        stats['faults_fired'][f] = stats['faults_fired'].get(f, 0) + 1
    out = {'violation': None, 'stats': stats,
           'events': [r['switches'], r['res']],
           'trivial': not r['switches']}
    if p['sched']['kind'] != 'explicit':
        p['recorded'] = r['switches']
    for t, (a, b) in enumerate(zip(r['res'], ref)):
        ops = [o for o in p['progs'][t]]
        for k, (x, y) in enumerate(zip(a or [], b)):
            if not same(x, y, 1e-12, 0.):
                op = ops[k] if len(ops) == len(b) else '?'
                q = op[1][0] if op[0] == 'q' else op[0]
                out['violation'] = {
                    'class': 'race', 'sig': 'race/%s' % q,
                    'what': 'thread %d: %s gives %s, running alone %s' % (
                        t, op, x, y)}
                return out
        if a is None or len(a) != len(b):
            out['violation'] = {
                'class': 'race', 'sig': 'race/died',
                'what': 'thread %d died' % t}
            return out
    if r['diff']:
        out['violation'] = {
            'class': 'state', 'sig': 'state/shared',
            'what': 'shared object changed by readers: %s was %s, is %s' %
                    tuple(r['diff'])}
    return out


# -- re-entrant calls -------------------------------------------------------------

def single(p):
    out = []
    for q in p['ops'] + [x[1] for x in p['nest']]:
        live = start(p['world'])
        out.append(step(live, ['q', q]) if known(live, ['q', q]) else None)
    live = start(p['world'])
    SEAM.on = True
    for q in p['ops']:
        if known(live, ['q', q]):
            step(live, ['q', q])
    n = SEAM.total
    return {'res': out, 'calls': n}


def nested(p, calls):
    live = start(p['world'])
    snap = Snap(live)
    before = snap.take()
    at = {}
    for i, (u, q) in enumerate(p['nest']):
        at.setdefault(1 + int(u * max(calls - 1, 0)), []).append(i)
    inner = {}
    st = {'n': 0, 'busy': False}

    def hook(label):
        if st['busy']:
            return
        st['n'] += 1
        for i in at.get(st['n'], ()):
            q = p['nest'][i][1]
            if known(live, ['q', q]):
                st['busy'] = True
                try:
                    inner[str(i)] = [label, step(live, ['q', q])]
                finally:
                    st['busy'] = False
    SEAM.on = True
    SEAM.hook = hook
    outer = [step(live, ['q', q]) if known(live, ['q', q]) else None
             for q in p['ops']]
    SEAM.hook = None
    SEAM.on = False
    return {'outer': outer, 'inner': inner, 'diff': diff(before, snap.take())}


def reentrant(p, wall):
    try:
        start(p['world'])
    except Exception as e:
        return {'violation': None, 'events': ['unbuildable'],
                'stats': {'worlds_refused_by_constructors': 1},
                'trivial': True}
    st, ref = fork_json(lambda: single(p), wall)
    if st != 'ok':
        return crash(st, ref)
    st, r = fork_json(lambda: nested(p, ref['calls']), wall)
    if st != 'ok':
        return crash(st, r)
    n = len(p['ops'])
    pairs = list(zip(p['ops'], r['outer'], ref['res'][:n], ['outer'] * n))
    for i, (label, x) in r['inner'].items():
        pairs.append((p['nest'][int(i)][1], x, ref['res'][n + int(i)],
                      'called back from %s' % label))
    out = {'violation': None, 'events': [r['outer'], r['inner']],
           'stats': {'mode': {'re-entrant': 1},
                     'nested_calls': len(r['inner']), 'nested_in': {}},
           'trivial': not r['inner']}
    for i, (label, x) in r['inner'].items():
        k = out['stats']['nested_in']
        k[label] = k.get(label, 0) + 1
    for q, x, y, how in pairs:
        if not same(x, y, 1e-12, 0.):
            out['violation'] = {
                'class': 'reentrant', 'sig': 'reentrant/%s' % q[0],
                'what': '%s (%s) gives %s, alone %s' % (q, how, x, y)}
            return out
    if r['diff']:
        out['violation'] = {
            'class': 'state', 'sig': 'state/shared',
            'what': 'object changed by readers: %s was %s, is %s' %
                    tuple(r['diff'])}
    return out


def execute(p, wall=60.):
    return reentrant(p, wall) if p['mode'] == 'reentrant' \
        else threads(p, wall)


def crash(st, r):
    if st == 'hang':
        return {'violation': {'class': 'hang', 'sig': 'hang',
                              'what': 'the threads did not finish'},
                'events': ['hang'], 'stats': {}}
    return {'violation': None, 'harness': str(r), 'events': [], 'stats': {}}


def used_world(plan, ops):
    from ..shrink import ids_in
    objs = plan['world']['objs']
    used = set(i for i in ids_in(ops) if i in objs)
    todo = list(used)
    while todo:
        s = objs[todo.pop()]
        for r in list(refs(s)) + list(s.get('legs', ())):
            if r in objs and r not in used:
                used.add(r)
                todo.append(r)
    return {i: s for i, s in objs.items() if i in used}


def shrink(plan):
    if plan['mode'] == 'reentrant':
        for key in ('nest', 'ops'):
            for k in range(len(plan[key])):
                cand = dict(plan)
                cand[key] = plan[key][:k] + plan[key][k + 1:]
                yield cand
        ops = [plan['ops'], [x[1] for x in plan['nest']]]
    else:
        if plan['sched']['kind'] != 'explicit' and 'recorded' in plan:
            cand = dict(plan)
            cand['sched'] = {'kind': 'explicit',
                             'switches': plan['recorded']}
            cand.pop('recorded')
            yield cand
        if plan['sched']['kind'] == 'explicit':
            sw = plan['sched']['switches']
            size = len(sw)
            while size >= 1:
                for k in range(0, len(sw), size):
                    cand = dict(plan)
                    cand['sched'] = {'kind': 'explicit',
                                     'switches': sw[:k] + sw[k + size:]}
                    yield cand
                size //= 2
        for t in list(plan['faults']):
            cand = dict(plan)
            cand['faults'] = {k: v for k, v in plan['faults'].items()
                              if k != t}
            yield cand
        for t, ops in enumerate(plan['progs']):
            for k in range(len(ops)):
                cand = dict(plan)
                cand['progs'] = list(plan['progs'])
                cand['progs'][t] = ops[:k] + ops[k + 1:]
                yield cand
        ops = plan['progs']
    objs = used_world(plan, ops)
    if len(objs) < len(plan['world']['objs']):
        cand = dict(plan)
        cand['world'] = dict(plan['world'], objs=objs)
        yield cand
