"""C05 isolation: an operation changes the object it is made on and what is
linked to it, and nothing else - neither other objects built from the same or
equal containers, nor the containers callers keep, nor later objects."""
from copy import deepcopy

from ..collab import dcf
from ..gen import Gen, r6
from ..history import HistGen, Live, setup, track
from ..procs import fork_json
from ..seam import SEAM
from ..shrink import refs, shrink_ops, shrink_world
from ..snap import Snap, diff
from ..world import IR, CREDIT, VOL, canon

ID = 'C05'
RUNS = {'quick': 9000, 'thorough': 250000}
RECHECK = 120
RULE = ('a run is a seeded world in which objects share containers handed '
        'in, are duplicates of each other and link to each other, and a '
        'seeded history of updates, queries, faults, callers changing '
        'containers they handed in or got back, and callers changing '
        'derived objects; after every step the observable state of every '
        'object that is not linked to the target is compared with the state '
        'before; non-trivial: at least one step that changes something; '
        'distinct by the digest of the event log')
REAL = ['all of dcf', 'scipy.integrate.quad', 'businessdate (bd worlds)',
        'datetime.date (date worlds)']
STUB = ['date package (sim worlds)', 'user day counts', 'user interpolation',
        'user callables', 'user payoffs', 'user models']
ASSUMPTIONS = [
    'objects linked on purpose (curve of a curve, model of a list, leg of a '
    'leg list, curve of an fx container) are live links',
    'the fixings dictionary, payoffs and the master scale are handed out by '
    'reference on purpose', 'bitwise comparison']
DERIVE = {'curve': ('domain', 'kwargs', 'table', 'cast', 'cast', 'alg',
                    'shifted'),
          'list': ('domain', 'kwargs', 'table', 'fixed', 'fixed', 'flows',
                   'callres', 'legs'),
          'fx': ('fxdict', 'kwargs'), 'rating': ('vector', 'kwargs')}


def plan(rng, tier):
    gen = Gen(rng).build()
    # duplicates: built from equal (shared) containers
    for i in sorted(gen.objs, key=int):
        if rng.random() < .35:
            gen.new(deepcopy(gen.objs[i]))
    world = deepcopy(gen.world)
    world['shared'] = True
    hist = HistGen(rng, gen)
    hist.weights['flag'] = 0
    hist.weights['badset'] = rng.choice((0, 1))
    w = [rng.choice((0, 1, 3)), rng.choice((0, 1, 3)), 4]
    ops = []
    for _ in range(rng.choice((4, 8, 14))):
        k = rng.choices(('arg', 'res', 'op'), w)[0]
        oid = rng.choice(sorted(gen.objs, key=int))
        if k == 'arg':
            ops.append(['mutarg', oid, rng.randrange(8), rng.choice(
                ('clear', 'append', 'pop', 'reverse', 'replace')),
                rng.randrange(8)])
        elif k == 'res':
            kind = gen.objs[oid]['t']
            ops.append(['derive', oid, rng.choice(
                DERIVE.get(kind, ('kwargs', 'table'))),
                        rng.randrange(1000), gen.date(0),
                        r6(rng.uniform(.001, .05))])
        else:
            op = hist.op()
            track(gen, op)
            ops.append(op)
    return {'world': world, 'ops': ops}


def show(p):
    return {'world': p['world'], 'ops': p['ops']}


# -- what callers do -----------------------------------------------------------

def mangle(x, how, i):
    """a caller changes a container"""
    if isinstance(x, dict):
        ks = list(x)
        if how == 'clear' or not ks:
            x.clear()
        elif how == 'pop':
            x.pop(ks[i % len(ks)])
        else:
            x[ks[i % len(ks)]] = .77
        return
    if not isinstance(x, list):
        return
    if how == 'clear' or not x:
        del x[:]
    elif how == 'append':
        x.append(x[i % len(x)])
    elif how == 'pop':
        x.pop(i % len(x))
    elif how == 'reverse':
        x.reverse()
    else:
        x[i % len(x)] = x[(i + 1) % len(x)] if i % 2 else .77


def deep_mangle(x, i):
    if isinstance(x, dict):
        for v in list(x.values()):
            deep_mangle(v, i)
        mangle(x, ('clear', 'pop', 'replace')[i % 3], i)
    elif isinstance(x, list):
        for v in x:
            deep_mangle(v, i)
        mangle(x, ('clear', 'append', 'pop', 'reverse', 'replace')[i % 5], i)


class Run(object):
    def __init__(self, p):
        SEAM.reset()
        setup()
        self.live = Live(p['world'], keep_args=True)
        # objects made later on get containers of their own
        self.live.b.pool = None

    def op_mutarg(self, oid, a, how, i):
        kw = self.live.b.args.get(oid)
        if not kw:
            return 'no containers'
        name = sorted(kw)[a % len(kw)]
        mangle(kw[name], how, i)
        return name

    def op_derive(self, oid, what, i, n, v):
        x = self.live.get(oid)
        try:
            return getattr(self, 'd_' + what)(oid, x, i, n, v)
        except Exception as e:
            return type(e).__name__

    def change(self, c, n, v):
        """a caller changes a curve he got"""
        key = n / 360. if not isinstance(c, dcf.DateCurve) else \
            self.live.env.d(n)
        c[key] = v
        for k in list(c.domain)[:2]:
            c[k] = v
        if isinstance(c, dcf.DateCurve):
            c.fixings[key] = v
            c.fixings[list(c.domain)[0]] = v
        if hasattr(c, 'spread') and c.spread is None:
            c.spread = dcf.DateCurve(list(c.domain)[:1], [v])
        for a in ('yield_curve', 'domestic_curve', 'foreign_curve'):
            if hasattr(c, a):
                setattr(c, a, None)
        return 'changed'

    def d_domain(self, oid, x, i, n, v):
        if not hasattr(x, 'domain'):
            return 'none'
        d = x.domain
        mangle(d, ('clear', 'append', 'pop', 'reverse', 'replace')[i % 5], i)
        return type(d).__name__

    def d_kwargs(self, oid, x, i, n, v):
        kw = getattr(x, 'kwargs', None)
        deep_mangle(kw, i)
        return type(kw).__name__

    def d_table(self, oid, x, i, n, v):
        deep_mangle(x.table if i % 3 == 0 or not isinstance(x, dcf.Curve)
                    else None, i)
        return 'table'

    def d_cast(self, oid, x, i, n, v):
        if not isinstance(x, dcf.Curve):
            return 'none'
        cls = type(x).__name__
        pool = IR[:2] if cls in IR else CREDIT[:3] if cls in CREDIT else \
            VOL if cls in VOL else (cls,)
        if i % 2:
            y = getattr(dcf, pool[i // 2 % len(pool)])(x)
        else:
            y = type(x)(x)
        return self.change(y, n, v)

    def d_alg(self, oid, x, i, n, v):
        if type(x).__name__ != 'Curve':
            return 'none'
        y = (x + x, x - x, x * x)[i % 3]
        return self.change(y, n, v)

    def d_shifted(self, oid, x, i, n, v):
        if type(x).__name__ not in ('Curve', 'DateCurve'):
            return 'none'
        y = x.shifted(self.live.env.days(3) if isinstance(x, dcf.DateCurve)
                      else .1)
        return self.change(y, n, v)

    def d_fixed(self, oid, x, i, n, v):
        if not isinstance(x, dcf.CashFlowList):
            return 'none'
        y = dcf.FixedCashFlowList(x)
        for d in y.domain:
            y.payoff(d).amount = v
        return 'changed'

    def d_callres(self, oid, x, i, n, v):
        if not isinstance(x, dcf.CashFlowList):
            return 'none'
        deep_mangle(x()[list(x.domain)], i)
        return 'changed'

    def d_flows(self, oid, x, i, n, v):
        if not isinstance(x, dcf.CashFlowList):
            return 'none'
        arg = list(x.domain)
        out = x[arg]
        deep_mangle(out, i)
        mangle(arg, 'clear', i)
        return type(out).__name__

    def d_legs(self, oid, x, i, n, v):
        if not hasattr(x, 'legs'):
            return 'none'
        mangle(x.legs, ('clear', 'append', 'pop', 'reverse')[i % 4], i)
        return 'changed'

    def d_fxdict(self, oid, x, i, n, v):
        if not isinstance(x, dcf.FxContainer):
            return 'none'
        mangle(x[x.currency], ('clear', 'pop', 'replace')[i % 3], i)
        return 'changed'

    def d_vector(self, oid, x, i, n, v):
        if not isinstance(x, dcf.RatingClass):
            return 'none'
        deep_mangle(x.vector, i)
        ms = x.masterscale
        if ms is not None:
            for y in (ms.keys(), ms.values(), ms.items(),
                      ms.rating_classes()):
                mangle(y, ('clear', 'append', 'pop', 'reverse')[i % 4], i)
            # another rating on a scale made from this one
            z = dcf.RatingClass(float(x), dict(ms))
            z.masterscale['A'] = .5
        return 'changed'


def closure(objs, target):
    """ids of target and of everything linking to it"""
    out = {target}
    grown = True
    while grown:
        grown = False
        for i, s in objs.items():
            if i not in out and (set(refs(s)) | set(s.get('legs', ()))) & out:
                out.add(i)
                grown = True
    return out


def strip(op, snap):
    """the part of the target's own state an operation must not change"""
    s = deepcopy(snap)
    k = op[0]

    def drop(*names):
        for n in names:
            s.pop(n, None)

    if k in ('set', 'badset'):
        drop('domain', 'values', 'probes', 'spread at')
    elif k in ('fix', 'unfix'):
        drop('fixings', 'values', 'probes')
    elif k == 'spread':
        drop('spread', 'spread at', 'values', 'probes')
    elif k == 'frate':
        drop('fixed_rate', 'flows')
        for e in s['payoffs']:
            e.pop('fixed_rate', None)
    elif k == 'pattr':
        drop('fixed_rate')
        s['flows'][op[2]] = None
        s['payoffs'][op[2]].pop(op[3], None)
    elif k in ('mattr', 'cattr'):
        drop(op[2])
        if k == 'cattr':
            drop('values', 'probes')
    elif k == 'lattr':
        drop(op[2], 'flows')
    elif k == 'fxadd':
        for pair in list(s):
            if op[2] in pair.split('/'):
                s.pop(pair)
    return s


def frame(op, before, after, ids):
    """first change outside of what op may change"""
    quiet = op[0] in ('q', 'fq', 'mutarg', 'derive')
    a, b = dict(before), dict(after)
    if op[0] == 'mutarg':
        a.pop('args')
        b.pop('args')
    if not quiet:
        for i in ids:
            if i != op[1]:
                a.pop(i), b.pop(i)
        if not (op[0] == 'set' and op[4] is False):
            a[op[1]] = strip(op, a[op[1]])
            b[op[1]] = strip(op, b[op[1]])
    return diff(a, b)


def run_live(p):
    try:
        run = Run(p)
    except Exception as e:
        return {'events': ['unbuildable', type(e).__name__], 'bad': None,
                'stats': {'worlds_refused_by_constructors': 1}}
    live = run.live
    snap = Snap(live)
    stats = {'ops': {}, 'outcomes': {}, 'faults_fired': {},
             'states_compared': 0}
    events, bad = [], None
    before = snap.take()
    for k, op in enumerate(p['ops']):
        target = op[1] if op[0] not in ('q', 'fq') else op[1][1]
        if isinstance(target, str) and target not in live.world['objs']:
            continue
        ids = () if op[0] in ('q', 'fq') else \
            closure(live.world['objs'], target)
        live.q.made = []
        if hasattr(run, 'op_' + op[0]):
            out = getattr(run, 'op_' + op[0])(*op[1:])
        else:
            SEAM.on = op[0] == 'fq'
            out = live.apply(op)
            SEAM.on = False
        handed = [x for x in live.q.made if x[0] != x[1]]
        ids = set(ids) | closure(live.world['objs'], target) \
            if ids else ids
        events.append([op[0], canon(out)])
        name = op[0] if op[0] != 'derive' else 'derive ' + op[2]
        stats['ops'][name] = stats['ops'].get(name, 0) + 1
        if op[0] == 'fq' and out[1]:
            stats['faults_fired'][op[3]] = \
                stats['faults_fired'].get(op[3], 0) + 1
        if handed:
            bad = {'class': 'argument', 'sig': 'argument/%s' % op[1][0],
                   'what': '%s changed a list it was given from %s to %s' % (
                       op[1], canon(handed[0][1]), canon(handed[0][0]))}
            break
        # callers go on using their lists for something else
        for x, _ in live.q.made:
            del x[:]
        after = snap.take()
        stats['states_compared'] += len(live.world['objs'])
        d = frame(op, before, after, ids)
        if d:
            bad = {'class': 'frame:' + name, 'sig': 'frame/%s' % name,
                   'what': 'step %d %s (%s) changed %s from %s to %s' % (
                       k, op, out, d[0], d[1], d[2])}
            break
        before = after
    return {'events': events, 'bad': bad, 'stats': stats}


def execute(p, wall=60.):
    st, r = fork_json(lambda: run_live(p), wall)
    if st == 'hang':
        return {'violation': {'class': 'hang', 'sig': 'hang', 'what':
                              'a step did not finish'},
                'events': ['hang'], 'stats': {}}
    if st != 'ok':
        return {'violation': None, 'harness': str(r), 'events': [],
                'stats': {}}
    return {'violation': r['bad'], 'events': r['events'],
            'stats': r['stats'],
            'trivial': not any(o[0] not in ('q', 'fq') for o in p['ops'])}


def shrink(plan):
    yield from shrink_ops(plan)
    yield from shrink_world(plan)

