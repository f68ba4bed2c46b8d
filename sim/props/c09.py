"""C09 optional packages: everything works without them, and gives the same."""
from copy import deepcopy

from ..envs import interpreter
from ..feed import FeedGen, FeedHist
from ..history import track
from ..ref import Ref
from ..refcurve import Undefined
from ..world import same, same_q
from . import c12
from .c10 import shrink as shrink10

ID = 'C09'
RUNS = {'quick': 320, 'thorough': 16000}
RECHECK = 40
RULE = ('a run is a batch of seeded histories executed by two interpreters: '
        'one with all optional packages, one where some are not installed '
        'or come and go while the history runs; their event logs are '
        'compared, integrals with the reference model too; non-trivial: at '
        'least ten answers; distinct by the digest of the event logs')
REAL = ['all of dcf', 'the import system', 'scipy.integrate.quad',
        'businessdate', 'datetime.date (date worlds)']
STUB = ['installation of packages (import hook)', 'date package (sim worlds)',
        'user day counts', 'user interpolation', 'user callables',
        'user payoffs', 'user models']
ASSUMPTIONS = ['integrals by quadrature and by daily steps agree to 2e-3',
               'releases of scipy with scipy.misc.derivative not covered']
PACKAGES = 'scipy', 'businessdate', 'matplotlib', 'numpy', 'dateutil', \
    'tabulate'


class NoDateGen(FeedGen):
    product_kinds = 'float', 'date', 'dt'

    def __init__(self, rng, **kw):
        super().__init__(rng, kinds=('sim', 'float', 'date', 'dt'), **kw)


def plan(rng, tier):
    missing = sorted(rng.sample(PACKAGES, rng.choice((1, 1, 2, 6))))
    moving = rng.random() < .5
    if moving:
        missing = [x for x in missing if x != 'businessdate'] or ['scipy']
    cls = NoDateGen if 'businessdate' in missing else FeedGen
    jobs = []
    for _ in range(rng.choice((6, 12))):
        gen = cls(rng, themes=('vol', 'vol', 'options', 'rates', 'credit',
                               'plain', 'fx')).build()
        world = deepcopy(gen.world)
        hist = FeedHist(rng, gen)
        ops = []
        for _ in range(rng.choice((4, 8, 14))):
            x = rng.random()
            if x < .3:
                op = hist.next()
                if op is not None:
                    track(gen, op)
                    ops.append(op)
            elif x < .4 and moving:
                ops.append([rng.choice(('missing', 'installed')),
                            rng.choice(missing)])
            elif x < .6:
                c = [i for i in gen.of('curve')
                     if gen.objs[i]['cls'] != 'Curve']
                if c:
                    i = gen.pick(c)
                    a, b = gen.date(0), gen.date(0)
                    ops.append(['q', rng.choice((
                        ['integrate', i, a, b],
                        ['integrate', i, a, b], ['derivative', i, a]))])
            else:
                ops.append(['q', c12.query(gen) if rng.random() < .3
                            else gen.query()])
        jobs.append({'world': world, 'ops': ops})
    return {'world': {'objs': {}}, 'jobs': jobs, 'ops': [],
            'env': {} if moving else {'missing': missing}}


def show(p):
    return {'env': p['env'], 'jobs': p['jobs']}


def execute(p, wall=120.):
    jobs, env = p['jobs'], p['env']
    plain = [dict(j, ops=[op if op[0] not in ('missing', 'installed')
                          else ['installed', 'nothing'] for op in j['ops']])
             for j in jobs]
    s0, a = interpreter({}, plain, wall, True)
    s1, b = interpreter(env, jobs, wall, True)
    if 'hang' in (s0, s1):
        return {'violation': {'class': 'hang', 'sig': 'hang', 'what':
                              'the run did not finish'},
                'events': ['hang'], 'stats': {}}
    if s0 != 'ok':
        return {'violation': None, 'harness': a, 'events': [], 'stats': {}}
    if s1 != 'ok':
        return {'violation': {
            'class': 'died', 'sig': 'died', 'what':
            'the interpreter of %s ended in %s' % (env, b)},
            'events': ['died'], 'stats': {}}
    n, bad = 0, None
    for job, x, y in zip(jobs, a['events'], b['events']):
        bad = bad or differ(job, x, y)
        n += len(x)
    away = sum(op[0] == 'missing' for j in jobs for op in j['ops'])
    st = {'answers': n, 'interpreters': 2, 'packages_lost_in_a_run': away,
          'packages_returned_in_a_run': sum(
              op[0] == 'installed' for j in jobs for op in j['ops']),
          'not_installed': {k: 1 for k in env.get('missing', ())},
          'simulated_steps': a['steps'] + b['steps']}
    c = {'ok': 0, 'undefined': 0}
    for who, log in (('with', a['keep']), ('without', b['keep'])):
        for q, out, world in log:
            if bad or q[0] == 'tvol' and world['objs'][q[1]]['cls'] != \
                    'InstantaneousVolatilityCurve':
                continue
            w = check(world, q, out)
            if w in c:
                c[w] += 1
            else:
                bad = '%s all packages %s %s' % (who, q, w)
    st['integrals_compared'] = c['ok']
    st['integrals_not_defined_by_the_rules'] = c['undefined']
    return {'violation': bad and {'class': 'differs', 'sig': 'differs',
                                  'what': 'with %s: %s' % (env, bad)},
            'events': [a['events'], b['events']], 'stats': st,
            'trivial': n < 10}


def check(world, q, out):
    """integrals by daily steps, up to what steps of a day can tell"""
    ref = Ref(world)
    if q[0] == 'derivative':
        return ref.check(q, out)
    try:
        c = ref.obj(q[1])
        ends = [ref.d(n) for n in q[2:]]
        a, b = ends if len(ends) > 1 else (c.o, ends[0])
        if a == b or q[0] == 'tvol' and a > b or 'log_linear_rate' in c.it:
            return 'undefined'
        want = c.integrate(a, b)
        tau = abs(c.year(a, b))
    except (Undefined, ZeroDivisionError, OverflowError, ValueError):
        return 'undefined'
    slack = 0.
    for x in (c, c.spread):
        if x is not None:
            ys = [v for _, v in sorted(x.pts.items())]
            slack += sum(abs(u - v) for u, v in zip(ys[:-1], ys[1:])) / 365.
    if out[0] != 'ok':
        return 'ends in %s, the rules give %r' % (out[1], want)
    if abs(out[1] - want) <= 2e-3 * abs(want) + 1e-4 + slack / tau:
        return 'ok'
    return 'gives %r, the rules give %r' % (out[1], want)


def depends(world):
    return any(o.get('cls') == 'InstantaneousVolatilityCurve'
               for o in world['objs'].values())


def differ(job, x, y):
    if len(x) != len(y):
        return 'histories of %d and %d events' % (len(x), len(y))
    for op, u, v in zip(job['ops'], x, y):
        if u == v or op[0] in ('missing', 'installed'):
            continue
        if op[0] == 'q' and op[1][0] == 'integrate':
            continue            # compared with the reference model
        if op[0] == 'q' and u[0] == v[0] and depends(job['world']):
            continue            # up to the integrals they are made of
        if op[0] == 'q' and u[0] == v[0] == 'ok':
            if same_q(op[1], u, v, job['world']):
                continue
        return '%s gives %s, not %s' % (op, v, u)


shrink = shrink10
assert same
