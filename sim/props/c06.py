"""C06 persistence: an object graph restored from its persisted form in another
process, deep copied, or rebuilt from the constructor arguments it reports,
answers like the original at that point, and is independent from it."""
import base64
import pickle
from copy import deepcopy

from ..gen import Gen
from ..history import HistGen, Live, setup, track
from ..procs import fork_json
from ..seam import SEAM
from ..shrink import shrink_world
from ..snap import Snap, diff
from ..world import same_q

ID = 'C06'
RUNS = {'quick': 9000, 'thorough': 300000}
RECHECK = 120
RULE = ('a run is a seeded world with a seeded history; it is persisted at a '
        'seeded point (first attempts may be interrupted), goes on, and '
        'crashes: only the persisted bytes survive and are restored in '
        'another process which goes on with another history; or it is deep '
        'copied, or its curves are rebuilt from their constructor arguments, '
        'and original and copy go on separately; non-trivial: objects were '
        'restored and queried; distinct by the digest of the event log')
REAL = ['all of dcf', 'pickle and copy of python']
STUB = ['storage (bytes in memory)', 'date package (sim worlds)',
        'user day counts', 'user interpolation', 'user callables',
        'user payoffs', 'user models']
ASSUMPTIONS = [
    'collaborators can be pickled themselves (BusinessDate of the installed '
    'package cannot, so businessdate worlds take the constructor argument '
    'route only)',
    'constructor arguments are claimed for curves carrying neither spread '
    'nor fixings (both are no constructor arguments and are baked into the '
    'reported data)']
EXCS = 'SimFault', 'SimAbort', 'OSError', 'MemoryError', 'KeyboardInterrupt'


def history(rng, gen, k):
    hist = HistGen(rng, gen)
    for x in ('flag', 'q', 'fq', 'badset'):
        hist.weights[x] = 0
    ops = []
    for _ in range(k):
        op = hist.op()
        track(gen, op)
        ops.append(op)
    return ops


def plan(rng, tier):
    route = rng.choice(('pickle', 'pickle', 'deepcopy', 'kwargs'))
    kinds = ('sim', 'sim', 'float', 'date', 'dt') if route != 'kwargs' else \
        ('sim', 'bd', 'float', 'date', 'dt')
    gen = Gen(rng, kinds=kinds).build()
    world = deepcopy(gen.world)
    pre = history(rng, gen, rng.choice((0, 1, 3, 6)))
    for op in pre:      # a long life
        if op[0] == 'set' and op[4] is True and rng.random() < .03:
            op.append(rng.choice((400, 1500)))
    asked = [gen.query() for _ in range(rng.choice((4, 8)))]
    g2 = deepcopy(gen)
    g2.rng = rng
    ops_a = history(rng, g2, rng.choice((0, 1, 3)))
    ops_b = history(rng, gen, rng.choice((0, 1, 3)))
    asked_b = [gen.query() for _ in range(rng.choice((4, 8)))]
    return {'route': route, 'world': world, 'pre': pre, 'asked': asked,
            'ops': ops_a, 'ops_b': ops_b, 'asked_b': asked_b,
            'protocol': rng.choice((2, 3, 4, 5)),
            'interrupt': [[round(rng.random(), 4), rng.choice(EXCS)]
                          for _ in range(rng.choice((0, 0, 1, 2)))]}


def show(p):
    return {k: v for k, v in p.items() if k != 'seed'}


def ask(live, qs):
    return [live.q.run(q) for q in qs
            if not (isinstance(q[1], str) and q[1] not in live.world['objs'])]


def go(live, ops):
    return [live.apply(op) for op in ops
            if op[0] != 'q' and op[1] in live.world['objs']]


def start(p):
    SEAM.reset()
    setup()
    live = Live(p['world'])
    return live, go(live, p['pre'])


def crash_run(p):
    """persist, go on, crash: only the bytes come out"""
    try:
        live, out = start(p)
    except Exception as e:
        return {'refused': type(e).__name__}
    snap = Snap(live)
    before = snap.take()
    fired = {}
    SEAM.arm()
    try:
        pickle.dumps(live.b.cache, p['protocol'])
    except Exception as e:
        return {'unpicklable': repr(e)}
    n = SEAM.disarm()
    for u, exc in p['interrupt']:
        SEAM.arm(1 + int(u * max(n - 1, 0)), exc)
        try:
            pickle.dumps(live.b.cache, p['protocol'])
        except BaseException:
            pass
        if SEAM.fired:
            fired[exc] = fired.get(exc, 0) + 1
        SEAM.disarm()
    d = diff(before, snap.take())
    data = pickle.dumps(live.b.cache, p['protocol'])
    d = d or diff(before, snap.take())
    asked = ask(live, p['asked'])
    world = deepcopy(live.world)
    lost = go(live, p['ops'])
    return {'data': base64.b64encode(data).decode(), 'world': world,
            'out': out, 'asked': asked, 'lost': lost, 'fired': fired,
            'diff': d}


def restart(p, data, world):
    """another process: restore, ask, go on"""
    SEAM.reset()
    setup()
    try:
        cache = pickle.loads(base64.b64decode(data))
    except Exception as e:
        return {'unpicklable': repr(e)}
    live = Live.adopt(world, cache)
    a = ask(live, p['asked'])
    out = go(live, p['ops_b'])
    return {'asked': a, 'out': out, 'asked_b': ask(live, p['asked_b'])}


def uncrashed(p, key):
    live, _ = start(p)
    out = go(live, p[key])
    return {'out': out, 'asked_b': ask(live, p['asked_b']),
            'asked': ask(live, p['asked'])}


def copied(p):
    """deep copy; original and copy go on separately, step by step"""
    try:
        live, out = start(p)
    except Exception as e:
        return {'refused': type(e).__name__}
    snap = Snap(live)
    before = snap.take()
    try:
        cache = deepcopy(live.b.cache)
    except Exception as e:
        return {'unpicklable': repr(e)}
    d = diff(before, snap.take())
    copy = Live.adopt(live.world, cache)
    asked, asked_copy = ask(live, p['asked']), ask(copy, p['asked'])
    oa, ob = [], []
    for i in range(max(len(p['ops']), len(p['ops_b']))):
        oa += go(live, p['ops'][i:i + 1])
        ob += go(copy, p['ops_b'][i:i + 1])
    return {'out': out, 'asked': asked, 'asked_copy': asked_copy, 'diff': d,
            'out_a': oa, 'out_b': ob, 'end_a': ask(live, p['asked']),
            'end_b': ask(copy, p['asked_b'])}


def rebuilt(p):
    """every curve without spread and fixings rebuilt from its kwargs"""
    try:
        live, out = start(p)
    except Exception as e:
        return {'refused': type(e).__name__}
    ids = [i for i, s in live.world['objs'].items() if s['t'] == 'curve'
           and not s.get('spread') and not s.get('fix')]
    snap = Snap(live)
    before = snap.take()
    cache = dict(live.b.cache)
    bad = []
    for i in ids:
        c = live.get(i)
        try:
            cache[i] = type(c)(**c.kwargs)
        except Exception as e:
            bad.append(['rebuild', i, repr(e)])
    d = diff(before, snap.take())
    copy = Live.adopt(live.world, cache)
    names = {'kwargs', 'str', 'dom'}
    qs = [q for q in p['asked'] + p['asked_b'] if q[1] in ids]
    for i in ids:
        s = live.world['objs'][i]
        qs += [['val', i, n] for n in (s.get('dom') or [0]) + [33, 77]]
    res = []
    for q in qs:
        if q[0] not in names:
            res.append([q, live.q.run(q), copy.q.run(q)])
    # changes of the one are not seen by the other
    csnap = Snap(copy)
    ca = csnap.take(ids)
    sets = [o for o in p['ops'] + p['ops_b'] if o[0] in (
        'set', 'fix', 'spread') and o[1] in ids and not (
            o[0] == 'spread' and o[2] and 'ref' in o[2])]
    forward = [i for i in ids if {'yield', 'domc', 'forc'} & set(
        live.world['objs'][i])]     # linked curves are not copied
    half = len(sets) // 2
    go(copy, sets[:half])
    d2 = diff(before, snap.take())
    ca = csnap.take([i for i in ids if i not in forward])
    go(live, sets[half:])
    d3 = diff(ca, csnap.take([i for i in ids if i not in forward]))
    return {'out': out, 'res': res, 'bad': bad, 'diff': d, 'd2': d2,
            'd3': d3, 'n': len(ids)}


def viol(cls, what, **kw):
    return dict({'violation': {'class': cls, 'sig': cls, 'what': what},
                 'events': [cls], 'stats': {}}, **kw)


class Stop(Exception):
    pass


def child(f, wall):
    st, r = fork_json(f, wall)
    if st == 'hang':
        raise Stop(viol('hang', 'the run did not finish'))
    if st != 'ok':
        raise Stop({'violation': None, 'harness': str(r), 'events': [],
                    'stats': {}})
    return r


REFUSED = {'violation': None, 'events': ['unbuildable'], 'trivial': True,
           'stats': {'worlds_refused_by_constructors': 1}}


def compare(p, key, a, b, what, world):
    qs = [q for q in p[key] if not (
        isinstance(q[1], str) and q[1] not in world['objs'])]
    for q, x, y in zip(qs, a, b):
        if not same_q(q, x, y, world):
            return viol('answer:' + q[0], '%s: %s gives %s, not %s' % (
                what, q, x, y))


def execute(p, wall=60.):
    try:
        return globals()['do_' + p['route']](p, wall)
    except Stop as e:
        return e.args[0]


def do_pickle(p, wall):
    a = child(lambda: crash_run(p), wall)
    if 'refused' in a:
        return dict(REFUSED)
    if 'unpicklable' in a:
        return viol('persist', 'objects cannot be persisted: '
                    + a['unpicklable'])
    if a['diff']:
        return viol('state', 'persisting changed %s from %s to %s' %
                    tuple(a['diff']))
    b = child(lambda: restart(p, a['data'], a['world']), wall)
    if 'unpicklable' in b:
        return viol('restore', 'objects cannot be restored: '
                    + b['unpicklable'])
    c = child(lambda: uncrashed(p, 'ops_b'), wall)
    w = p['world']
    v = compare(p, 'asked', b['asked'], a['asked'],
                'after the restart', w) or \
        compare(p, 'asked_b', b['asked_b'], c['asked_b'],
                'going on after the restart', w)
    if not v and b['out'] != c['out']:
        v = viol('update', 'after the restart updates give %s, not %s' % (
            b['out'], c['out']))
    if v:
        return v
    return {'violation': None, 'events': [a['out'], a['asked'], a['lost'],
                                          b['out'], b['asked_b']],
            'stats': {'route': {'crash and restart': 1},
                      'persist_interrupted': a['fired'],
                      'operations_lost_in_crash': len(a['lost']),
                      'answers_compared': len(b['asked']) +
                      len(b['asked_b'])}}


def do_deepcopy(p, wall):
    a = child(lambda: copied(p), wall)
    if 'refused' in a:
        return dict(REFUSED)
    if 'unpicklable' in a:
        return viol('copy', 'objects cannot be copied: ' + a['unpicklable'])
    if a['diff']:
        return viol('state', 'copying changed %s from %s to %s' %
                    tuple(a['diff']))
    ra = child(lambda: uncrashed(p, 'ops'), wall)
    rb = child(lambda: uncrashed(p, 'ops_b'), wall)
    w = p['world']
    v = compare(p, 'asked', a['asked_copy'], a['asked'], 'the copy', w) or \
        compare(p, 'asked', a['end_a'], ra['asked'],
                'the original, used next to its copy', w) or \
        compare(p, 'asked_b', a['end_b'], rb['asked_b'],
                'the copy, used next to the original', w)
    if v:
        return v
    return {'violation': None, 'events': [a['out'], a['asked'], a['end_a'],
                                          a['end_b']],
            'stats': {'route': {'deep copy': 1},
                      'answers_compared': len(a['asked']) +
                      len(a['end_a']) + len(a['end_b'])}}


def do_kwargs(p, wall):
    a = child(lambda: rebuilt(p), wall)
    if 'refused' in a:
        return dict(REFUSED)
    for d, what in ((a['diff'], 'reading constructor arguments changed'),
                    (a['d2'], 'updating the rebuilt curve changed original'),
                    (a['d3'], 'updating the original changed rebuilt')):
        if d:
            return viol('state', '%s %s from %s to %s' % (what, *d))
    for _, i, e in a['bad']:
        return viol('rebuild', 'curve %s (%s) cannot be rebuilt from its '
                    'constructor arguments: %s' % (
                        i, p['world']['objs'][i]['cls'], e))
    for q, x, y in a['res']:
        if not same_q(q, y, x, p['world']):
            return viol('answer:' + q[0], 'rebuilt curve: %s gives %s, the '
                        'original %s' % (q, y, x))
    return {'violation': None, 'events': [a['out'], a['res']],
            'trivial': not a['n'],
            'stats': {'route': {'constructor arguments': 1},
                      'curves_rebuilt': a['n'],
                      'answers_compared': len(a['res'])}}


def shrink(plan):
    for key in ('interrupt', 'pre', 'ops', 'ops_b', 'asked', 'asked_b'):
        for k in range(len(plan[key])):
            cand = dict(plan)
            cand[key] = plan[key][:k] + plan[key][k + 1:]
            yield cand
    fake = dict(plan, ops=[plan[k] for k in (
        'pre', 'ops', 'ops_b', 'asked', 'asked_b')])
    for c in shrink_world(fake):
        yield dict(plan, world=c['world'])
