"""C10 answers do not depend on the machine, the clock or the interpreter."""
from copy import deepcopy

from ..envs import ZONES, interpreter
from ..feed import FeedGen, FeedHist
from ..history import track
from ..world import same_q
from . import c12

ID = 'C10'
RUNS = {'quick': 400, 'thorough': 20000}
RECHECK = 40
RULE = ('a run is a batch of seeded histories executed by two interpreters '
        'in different simulated environments, one of which moves while dcf '
        'runs (clock, time zone, working directory, collector, random '
        'state, ...); their event logs are compared; non-trivial: at least '
        'ten answers; distinct by the digest of the event log')
REAL = ['all of dcf', 'the interpreter, its hash seed and its optimisation',
        'scipy.integrate.quad', 'businessdate (bd worlds)',
        'datetime.date (date worlds)']
STUB = ['clock of the machine', 'date package (sim worlds)',
        'user day counts', 'user interpolation', 'user callables',
        'user payoffs', 'user models']
ASSUMPTIONS = ['floating point arithmetics of one machine',
               'locales C and C.utf8 (no other is installed)']
# calls of dates in the order of a set are not counted as points of a fault
STABLE = {'q', 'repr'}


def plan(rng, tier):
    jobs = []
    # integrals load scipy, which takes longer than all the rest
    heavy = rng.random() < .15
    themes = ('rates', 'options', 'credit', 'fx', 'plain', 'rating') + (
        ('vol',) if heavy else ())
    for _ in range(rng.choice((6, 12, 20))):
        gen = FeedGen(rng, themes=themes).build()
        world = deepcopy(gen.world)
        hist = FeedHist(rng, gen)
        ops = []
        for _ in range(rng.choice((4, 8, 14))):
            x = rng.random()
            if x < .35:
                op = hist.next()
                if op is not None:
                    track(gen, op)
                    ops.append(op)
            elif x < .45:
                ops.append(['repr', rng.choice(sorted(gen.objs, key=int))])
            else:
                q = c12.query(gen) if rng.random() < .4 else gen.query()
                if heavy or q[0] != 'integrate':
                    ops.append(['q', q])
        jobs.append({'world': world, 'ops': ops})
    env = {}
    if rng.random() < .8:
        env['hashseed'] = rng.randint(1, 10 ** 6)
    if rng.random() < .8:
        env['jumps'] = {'seed': rng.randint(0, 10 ** 9),
                        'p': rng.choice((.01, .1, .5))}
    if rng.random() < .6:
        env['now'] = rng.choice((0., 1e8, 9.46684799e8, 1.2e9, 4e9))
    if rng.random() < .5:
        env['tz'] = rng.choice(ZONES)
    if rng.random() < .4:
        env['flags'] = [rng.choice(('-O', '-O', '-Xdev', '-s'))]
    if rng.random() < .3:
        env['thread'] = True
    if rng.random() < .3:
        env['cwd'] = rng.choice(('/', '/tmp', '/usr'))
    if rng.random() < .3:
        env['vars'] = {'LANG': 'C', 'PYTHONUTF8': '0', 'DEBUG': '1',
                       'PYTHONMALLOC': rng.choice(('malloc', 'debug'))}
    return {'world': {'objs': {}}, 'jobs': jobs, 'env': env, 'ops': []}


def show(p):
    return {'env': p['env'], 'jobs': p['jobs']}


def execute(p, wall=120.):
    jobs, env = p['jobs'], p['env']
    s0, a = interpreter({}, jobs, wall)
    s1, b = interpreter(env, jobs, wall)
    if 'hang' in (s0, s1):
        return {'violation': {'class': 'hang', 'sig': 'hang', 'what':
                              'the run did not finish'},
                'events': ['hang'], 'stats': {}}
    if s0 != 'ok':
        return {'violation': None, 'harness': a, 'events': [], 'stats': {}}
    if s1 != 'ok':
        return {'violation': {
            'class': 'died', 'sig': 'died', 'what':
            'the interpreter of %s ended in %s' % (env, b)},
            'events': ['died'], 'stats': {}}
    n, bad = 0, None
    for job, x, y in zip(jobs, a['events'], b['events']):
        bad = bad or differ(job, x, y)
        n += len(x)
    st = {'answers': n, 'interpreters': 2, 'moves': b['jumps'],
          'simulated_steps': a['steps'] + b['steps'],
          'environments': {k: 1 for k in env},
          'clock_reads_of_the_code': b['clock_reads']}
    for f in env.get('flags', ()):
        st['environments'][f] = 1
    return {'violation': bad and {'class': 'differs', 'sig': 'differs',
                                  'what': 'under %s: %s' % (env, bad)},
            'events': a['events'], 'stats': st, 'trivial': n < 10}


def differ(job, x, y):
    if len(x) != len(y):
        return 'histories of %d and %d events' % (len(x), len(y))
    for op, u, v in zip(job['ops'], x, y):
        if u == v:
            continue
        if op[0] == 'q' and u[0] == v[0] == 'ok' and \
                same_q(op[1], u, v, job['world']):
            continue
        return '%s gives %s, not %s' % (op, v, u)


def shrink(p):
    for k in p['env']:
        cand = deepcopy(p)
        del cand['env'][k]
        yield cand
    n = len(p['jobs'])
    for i in range(n):
        if n > 1:
            yield dict(p, jobs=[p['jobs'][i]])
    for i, job in enumerate(p['jobs']):
        m = len(job['ops'])
        size = max(m // 2, 1)
        while size:
            for k in range(0, m, size):
                cand = deepcopy(p)
                cand['jobs'][i]['ops'] = job['ops'][:k] + \
                    job['ops'][k + size:]
                yield cand
            size //= 2
