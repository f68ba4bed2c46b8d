"""C04 curve point store: after any sequence of point updates, refused and
interrupted updates, fixings and spreads, a curve answers like the documented
interpolation of the points it currently holds (reference model)."""
from copy import deepcopy

from ..gen import Gen, r6
from ..history import setup
from ..procs import fork_json
from ..refcurve import RefCurve, Undefined, close
from ..seam import SEAM
from ..shrink import shrink_ops, shrink_world
from ..world import Builder, ONE_MINUS, VOL, IR, CREDIT, canon, sort

ID = 'C04'
RUNS = {'quick': 20000, 'thorough': 600000}
RECHECK = 200
RULE = ('a run is one to three seeded curves of any curve class and a seeded '
        'sequence of point updates, refused updates, updates interrupted by a '
        'fault at a collaborator call, fixings, spreads and curve algebra; '
        'all nodes and random dates are compared with the reference model '
        'after every step; non-trivial: at least one update; distinct by the '
        'digest of the event log')
REAL = ['dcf.curves', 'dcf.interpolation', 'dcf.daycount',
        'businessdate (bd worlds)', 'datetime.date (date worlds)']
STUB = ['date package (sim worlds)', 'user day counts', 'user interpolation']
ASSUMPTIONS = [
    'a probability curve is updated with survival probabilities, as its '
    'values are',
    'ties of nearest interpolation, forward prices beyond the last date, '
    'log interpolation of non positive values and discount factors at an '
    'origin that is no node are outside of the reference model',
    'algebra of date curves: of the same class and origin, the second one '
    'without fixings, spread (and interpolation of its own), as it is '
    'sampled at its points',
    'comparison 1e-8 relative']

CLASSES = ('Curve', 'Curve', 'DateCurve', 'DateCurve', 'ForwardCurve') + IR \
    + CREDIT + ('TerminalVolatilityCurve',)
EXCS = 'SimFault', 'SimAbort', 'ValueError', 'KeyboardInterrupt', 'MemoryError'


def value(gen, s, n):
    v = gen.value(s['cls'], max(n, 0))
    return r6(1. - v) if s['cls'] in ONE_MINUS else v


SUMS = 'Curve', 'DateCurve', 'ZeroRateCurve'


def origin(s):
    if s['cls'] == 'Curve':
        return None
    return s['dom'][0] if s.get('origin') is None else s['origin']


def plan(rng, tier):
    gen = Gen(rng, kinds=('sim', 'sim', 'bd', 'float', 'date', 'dt'),
              themes=('plain',))
    gen.p_interp = rng.choice((.3, .8))
    gen.p_unsorted = rng.choice((0., .5))
    n = rng.choice((1, 1, 2, 3))
    for _ in range(n):
        s = gen.curve_spec(rng.choice(CLASSES))
        if gen.objs and rng.random() < .3:
            # a curve to add to the first one
            t = gen.objs[sorted(gen.objs, key=int)[0]]
            s = gen.curve_spec(t['cls'])
            if t['cls'] != 'Curve':
                s['origin'] = origin(t)
        gen.new(s)
    world = deepcopy(gen.world)
    ids = sorted(gen.objs, key=int)
    dates = {i: set(gen.objs[i]['dom']) for i in ids}
    spreads, as_spread = {}, set()
    ops = []
    w = {k: rng.choice((0, 1, 1, 3)) for k in (
        'bad', 'fset', 'fix', 'spread', 'alg', 'iter')}
    w['set'] = rng.choice((2, 4, 6))
    for _ in range(rng.choice((2, 5, 10, 20))):
        k = rng.choices(sorted(w), [w[x] for x in sorted(w)])[0]
        i = rng.choice(ids)
        s = gen.objs[i]
        d = rng.choice(sorted(dates[i])) if rng.random() < .5 \
            else gen.date(-10 if rng.random() < .2 else 0)
        probes = [gen.date() for _ in range(3)]
        if k == 'set':
            ops.append(['set', i, d, value(gen, s, d), probes])
            dates[i].add(d)
        elif k == 'bad':
            x = rng.random()
            if x < .2:
                ops.append(['badkey', i, 'bad', .5,
                            probes])
            else:
                ops.append(['set', i, d, rng.choice(
                    (None, 'bad', -1., 0.)), probes])
        elif k == 'fset':
            ops.append(['fset', i, d, value(gen, s, d),
                        int(10 ** rng.uniform(0, 1.8)), rng.choice(EXCS),
                        probes])
        elif k == 'fix' and s['cls'] != 'Curve':
            if rng.random() < .4:
                ops.append(['unfix', i, d, probes])
            else:
                ops.append(['fix', i, d, value(gen, s, d), probes])
        elif k == 'spread' and s['cls'] in IR + CREDIT + VOL:
            if i in as_spread:
                continue
            if i in spreads and rng.random() < .6:
                ops.append(['spread', i, None, probes])
                spreads.pop(i)
                continue
            c = [j for j in ids if j != i and j not in spreads
                 and gen.objs[j]['cls'] in ('DateCurve', 'ZeroRateCurve')]
            if c and rng.random() < .6:
                j = rng.choice(c)
                ref = {'ref': j}
            else:
                ns = gen.dates(rng.randint(1, 3)) or [0]
                ref = {'spec': {'t': 'curve', 'cls': 'DateCurve', 'dom': ns,
                                'origin': ns[0], 'data': [
                                    r6(rng.uniform(-.01, .01)) for _ in ns]}}
            ops.append(['spread', i, ref, probes])
            if i not in spreads:
                spreads[i] = ref
                if 'ref' in ref:
                    as_spread.add(ref['ref'])
        elif k == 'alg':
            c = [j for j in ids if gen.objs[j]['cls'] == s['cls']
                 and origin(gen.objs[j]) == origin(s)]
            if s['cls'] in SUMS:
                ops.append(['alg', i, rng.choice('+-*/'), rng.choice(c),
                            probes])
        elif k == 'iter':
            ops.append(['iter', i, probes])
    return {'world': world, 'ops': ops}


def show(p):
    return {'world': p['world'], 'ops': p['ops']}


class Run(object):
    def __init__(self, p):
        SEAM.reset()
        setup()
        self.b = Builder(p['world'])
        self.env = self.b.env
        self.kind = p['world']['kind']
        self.specs = p['world']['objs']
        self.live = {i: self.b.get(i) for i in sorted(self.specs, key=int)}
        self.ref = {}
        for i, s in self.specs.items():
            self.ref[i] = RefCurve(s, self.kind, self.ref.get)
        self.stats = {'ops': {}, 'outcomes': {}, 'faults_fired': {},
                      'values_compared': 0, 'values_undefined': 0}
        self.extra = []

    def key(self, i, n):
        return self.b.key(self.specs[i], n)

    # every op returns an event or raises Bad
    def op_set(self, i, n, v):
        c, r = self.live[i], self.ref[i]
        try:
            c[self.key(i, n)] = v
            out = 'ok'
        except Exception as e:
            out = type(e).__name__
        if (out != 'ok') != r.rejects(v):
            raise Bad('update', 'update at %s by %s: outcome %s' % (
                n, v, out), i)
        if out == 'ok':
            r.pts[n] = v
        return out

    def op_badkey(self, i, k, v):
        try:
            self.live[i][k] = v
            raise Bad('update', 'update at %s accepted' % k, i)
        except Exception as e:
            if isinstance(e, Bad):
                raise
            return type(e).__name__

    def op_fset(self, i, n, v, k, exc):
        key = self.key(i, n)
        SEAM.arm(k, exc)
        try:
            self.live[i][key] = v
            out = 'ok'
        except BaseException as e:
            out = type(e).__name__
        fired = SEAM.fired
        SEAM.disarm()
        if fired:
            f = '%s at %s' % (exc, fired)
            self.stats['faults_fired'][f] = \
                self.stats['faults_fired'].get(f, 0) + 1
        elif (out == 'ok') == self.ref[i].rejects(v):
            raise Bad('update', 'update at %s by %s: %s' % (n, v, out), i)
        if out == 'ok':
            self.ref[i].pts[n] = v
        return [out, fired]

    def op_fix(self, i, n, v):
        self.live[i].fixings[self.key(i, n)] = v
        self.ref[i].fix[n] = v
        return 'ok'

    def op_unfix(self, i, n):
        self.live[i].fixings.pop(self.key(i, n), None)
        self.ref[i].fix.pop(n, None)
        return 'ok'

    def op_spread(self, i, x):
        r = self.ref[i]
        c = self.live[i]
        if x is None:
            live = ref = None
        elif 'ref' in x:
            live, ref = self.live[x['ref']], self.ref[x['ref']]
        else:
            live = self.b.build(x['spec'])
            ref = RefCurve(x['spec'], self.kind, self.ref.get)
        try:
            c.spread = live
            out = 'ok'
        except TypeError:
            out = 'refused'
        if (out == 'refused') != (ref is not None and r.spread is not None):
            raise Bad('spread', 'setting a spread: %s' % out, i)
        if out == 'ok':
            r.spread = ref
        return out

    def op_alg(self, i, op, j):
        a, b = self.live[i], self.live[j]
        ra, rb = self.ref[i], self.ref[j]
        if ra.cls != 'Curve' and (
                ra.origin != rb.origin or rb.fix or rb.spread or
                ra.cls != 'DateCurve' and rb.interp != 'linear_scheme'):
            return 'undefined'
        ns = sorted(set(ra.pts) | set(rb.pts))
        try:
            u = [ra.value(n) for n in ns]
            v = [rb.value(n) for n in ns]
        except Undefined:
            return 'undefined'
        tiny = any(abs(y) < 1e-9 for y in v)
        try:
            c = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                 '/': lambda: a / b}[op]()
        except (ZeroDivisionError, ValueError) as e:
            if op == '/' and tiny or \
                    type(e) is ValueError and ra.interp in (
                        'log_linear_scheme', 'S:loglinear'):
                return type(e).__name__
            raise Bad('algebra', '%s raised %r' % (op, e), i)
        except Exception as e:
            raise Bad('algebra', '%s raised %r' % (op, e), i)
        if op == '/' and tiny:
            return 'division by nearly zero'
        if ra.cls != 'Curve':
            if type(c) is not type(a):
                raise Bad('algebra', 'is of type %s' % type(c).__name__, i)
            ks = [self.key(i, n) for n in ns]
            if not self.eq(c.origin, a.origin) or len(c.domain) != len(ks) \
                    or not all(self.eq(x, y)
                               for x, y in zip(sort(c.domain), sort(ks))):
                raise Bad('algebra', 'domain %s and origin %s' % (
                    canon(c.domain), canon(c.origin)), i)
            for x in ks:
                if not close(c.day_count(x), a.day_count(x)):
                    raise Bad('algebra', 'counts days differently', i)
            got = canon([c(x) for x in ks])
        else:
            got = canon([c(n / 360.) for n in ns])
        want = [{'+': x + y, '-': x - y, '*': x * y,
                 '/': x / y if y else 0.}[op] for x, y in zip(u, v)]
        for n, x, y in zip(ns, got, want):
            if not (isinstance(x, float) and close(x, y)):
                raise Bad('algebra', 'curve %s curve at %s is %s, not %s' % (
                    op, n, x, y), i)
        return 'ok'

    def op_iter(self, i):
        c, r = self.live[i], self.ref[i]
        want = sort([self.key(i, n) for n in r.pts])
        for how, got in (('iteration', list(c)),
                         ('iteration again', [x for x in c]),
                         ('domain', list(c.domain))):
            if len(got) != len(want) or not all(
                    self.eq(x, y) for x, y in zip(sort(got), want)):
                raise Bad('nodes', '%s gives %s' % (how, canon(sort(got))), i)
        return 'ok'

    def call(self, i, n, item=False):
        c, k = self.live[i], self.key(i, n)
        try:
            return canon(c[k] if item else c(k))
        except Exception as e:
            return ['exc', type(e).__name__]

    def eq(self, x, y):
        if isinstance(y, float):
            return abs(x - y) < 1e-9
        return x == y

    def check(self, i, probes):
        c, r = self.live[i], self.ref[i]
        ns = sorted(set(r.pts) | set(r.fix) | set(probes))
        for n in ns:
            k = self.key(i, n)
            if (k in c) != (n in r.pts) and self.kind != 'float' and \
                    r.cls != 'Curve':
                raise Bad('nodes', '%s in curve: %s' % (n, k in c), i)
            try:
                want = r.value(n)
            except Undefined:
                self.stats['values_undefined'] += 1
                continue
            self.stats['values_compared'] += 1
            got = self.call(i, n)
            if not isinstance(got, float) or not close(got, want):
                raise Bad('value', 'value at %s is %s, should be %s' % (
                    n, got, want), i)
            if n in r.pts:
                got = self.call(i, n, True)
                if not isinstance(got, float) or not close(got, want):
                    raise Bad('value', 'item %s is %s, should be %s' % (
                        n, got, want), i)


class Bad(Exception):
    def __init__(self, cls, what, i):
        super().__init__(what)
        self.cls, self.what, self.i = cls, what, i


def run_live(p):
    run = Run(p)
    events = []
    bad = None
    k = -1
    try:
        for i in run.live:
            run.check(i, [])
        for k, op in enumerate(p['ops']):
            ids = [op[1]] + ([op[3]] if op[0] == 'alg' else []) + (
                [op[2]['ref']] if op[0] == 'spread' and op[2]
                and 'ref' in op[2] else [])
            if any(x not in run.live for x in ids):
                continue
            run.stats['ops'][op[0]] = run.stats['ops'].get(op[0], 0) + 1
            ev = getattr(run, 'op_' + op[0])(*op[1:-1])
            o = '%s %s' % (op[0], ev if isinstance(ev, str) else ev[0])
            run.stats['outcomes'][o] = run.stats['outcomes'].get(o, 0) + 1
            for i in run.live:
                run.check(i, op[-1])
            events.append([op[0], ev, [run.call(i, n) for i in run.live
                                       for n in op[-1][:1]]])
        for i in run.live:
            run.op_iter(i)
    except Bad as e:
        s = run.specs[e.i]
        bad = {'class': e.cls, 'sig': '%s/%s' % (e.cls, s['cls']),
               'what': '%s %s after step %d %s: %s' % (
                   s['cls'], e.i, k, p['ops'][k] if k >= 0 else 'creation',
                   e.what)}
    return {'bad': bad, 'events': events, 'stats': run.stats}


def execute(p, wall=60.):
    st, r = fork_json(lambda: run_live(p), wall)
    if st != 'ok':
        if st == 'hang':
            return {'violation': {'class': 'hang', 'sig': 'hang', 'what':
                                  'the updates did not finish'},
                    'events': ['hang'], 'stats': {}}
        return {'violation': None, 'harness': str(r), 'events': [],
                'stats': {}}
    return {'violation': r['bad'], 'events': r['events'], 'stats': r['stats'],
            'trivial': not any(o[0] in ('set', 'fset') for o in p['ops'])}


def shrink(plan):
    yield from shrink_ops(plan)
    yield from shrink_world(plan)
