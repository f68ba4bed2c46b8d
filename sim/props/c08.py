"""C08 every operation ends: bounded work, failures reported at once, progress
once faults stop."""
import pickle
import random
from copy import deepcopy

from ..collab import SimDate, dcf
from ..feed import FeedGen, FeedHist
from ..gen import r6
from ..history import Live, setup, track, twin
from ..procs import fork_json
from ..ref import Cal
from ..seam import SEAM, EXC, StepBudget
from ..shrink import shrink_ops, shrink_world
from ..steps import STEPS
from ..world import DAY_COUNTS, Env, same_q
from . import c12

ID = 'C08'
RUNS = {'quick': 9000, 'thorough': 300000}
RECHECK = 60
RULE = ('a run is a seeded world with a history of updates, in which '
        'readings, solvers and product builders with ordinary and extreme '
        'arguments run on a step clock, under outages, transient outages '
        'with a retrying client, deadlines on slow collaborators and '
        'corrupted answers; non-trivial: at least one operation measured; '
        'distinct by the digest of the event log')
REAL = ['all of dcf', 'businessdate (bd worlds)',
        'datetime.date (date worlds)']
STUB = ['date package (sim worlds)', 'user day counts',
        'user interpolation', 'user callables', 'user payoffs',
        'user models', 'clock (steps, latency of collaborators)']
ASSUMPTIONS = [
    'steps are calls, resumptions and jumps of dcf byte code; loops inside '
    'the date package show as a hang in real time',
    'periods are positive, curves are not linked in cycles']
FAULTS = ('SimFault', 'SimAbort', 'OSError', 'TimeoutError',
          'KeyboardInterrupt', 'MemoryError')
READ = 400000           # steps of any reading
VALUATIONS = 1200       # valuations of a solver per unknown
AFTER = 10              # collaborator calls after the first failure
CORRUPT = 'nan', 'inf', '-inf', 0., -1., 1e12, 1e-12, -1e12
FNAN = {'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf')}
SOLVERS = 'fair', 'ytm', 'fit', 'bpv', 'bucket'
SCALES = ('curve', 'updates', 'pv', 'bpv', 'bucket', 'fit', 'ytm', 'fair',
          'cast', 'annuity', 'fx', 'table', 'option', 'credit', 'product',
          'rating')


class BoundGen(FeedGen):
    product_kinds = 'bd', 'float', 'date', 'dt'


def extreme(rng, q):
    """targets, bounds and shifts nobody asks for twice"""
    big = rng.choice((0., 1., -1., 1e-9, 1e3, -1e3, 1e12, -1e12, 1e300))
    if q[0] == 'fair':
        q = q[:4] + [big]
    elif q[0] == 'ytm':
        q = q[:3] + [big]
    elif q[0] == 'fit':
        q = q[:6] + [big, rng.choice((
            [-.1, .2], [.2, -.1], [.05, .05], [-1., 1.], [0., 0.],
            [-1e-9, 1e-9], [-1e3, 1e3]))]
    elif q[0] == 'bpv':
        q = (q + [None])[:5] + [rng.choice((1e-12, -1., 1e3, 1e-300))]
    return q


def product(rng):
    kind = rng.choice(('bd', 'bd', 'float', 'date', 'dt', 'sim'))
    start = rng.choice((0, 0, rng.randint(0, 400)))
    unit = rng.choice('MMMWDY' if kind == 'bd' else 'MMD')
    per = {'M': rng.choice((1, 1, 2, 3, 3, 4, 5, 6, 6, 7, 12, 18, 24)),
           'W': rng.randint(1, 9), 'D': rng.randint(8, 200),
           'Y': rng.randint(1, 4)}[unit]
    if rng.random() < .06:
        per = rng.choice((0, -1, -per))
    end = start + rng.choice((
        rng.randint(1, 60), rng.randint(20, 1500), 360 * rng.randint(1, 10),
        365 * rng.randint(1, 10), 30 * per * rng.randint(1, 20)))
    end = min(end, 12000)   # the calendar ends as well
    return ['prod', rng.choice(('bond', 'bond', 'interest_rate_swap')), kind,
            start, end, per, unit,
            rng.choice((None, 'sum')) if rng.random() < .3 else None]


def plan(rng, tier):
    if rng.random() < .15:
        ops = [product(rng) for _ in range(rng.randint(1, 5))]
        return {'world': {'kind': 'float', 'objs': {}}, 'ops': ops}
    if rng.random() < .04:
        return {'world': {'kind': 'float', 'objs': {}}, 'ops': [
            ['scale', rng.choice(SCALES), rng.choice(('float', 'sim')),
             rng.randint(0, 10 ** 6)]]}
    if rng.random() < .02:
        return {'world': {'kind': 'float', 'objs': {}}, 'ops': [
            ['age', rng.choice(('float', 'sim', 'bd', 'date', 'dt')),
             rng.randint(0, 10 ** 6), rng.choice((100, 400, 1200))]]}
    gen = BoundGen(rng).build()
    world = deepcopy(gen.world)
    hist = FeedHist(rng, gen)
    ops = []
    p_set = rng.choice((0, .2, .5))
    for _ in range(rng.choice((3, 6, 10))):
        if rng.random() < p_set:
            op = hist.next()
            if op is not None:
                track(gen, op)
                ops.append(op)
        q = c12.query(gen) if rng.random() < .6 else gen.query()
        if rng.random() < .3:
            q = extreme(rng, q)
        k = int(10 ** rng.uniform(0, 2.3))
        x = rng.random()
        if x < .3:
            ops.append(['run', q])
        elif x < .5:
            ops.append(['outage', q, k, rng.choice(FAULTS)])
        elif x < .7:
            ops.append(['retry', q, k, rng.choice((1, 2, 5)),
                        rng.choice(FAULTS)])
        elif x < .8:
            ops.append(['deadline', q, round(10 ** rng.uniform(-3, 1), 4),
                        rng.randint(0, 999)])
        else:
            ops.append(['corrupt', q, k, rng.choice(CORRUPT),
                        rng.random() < .5])
    return {'world': world, 'ops': ops}


def show(p):
    return {'world': p['world'], 'ops': p['ops']}


def chain(e):
    """types an exception and what it was raised from"""
    seen = []
    while e is not None and len(seen) < 20:
        seen.append(type(e).__name__)
        e = e.__cause__ or e.__context__
    return seen


def attempt(f, budget):
    """-> (outcome, result, exception chain, steps)"""
    STEPS.start(budget)
    try:
        r = f()
    except StepBudget as e:
        STEPS.stop()
        return 'budget', None, [str(e)], budget
    except BaseException as e:
        return type(e).__name__, None, chain(e), STEPS.stop()
    return 'ok', r, [], STEPS.stop()


class Bounds(object):
    def __init__(self, live):
        self.live = live

    def budget(self, q):
        """readings: constant; solvers: a number of valuations"""
        if q[0] not in SOLVERS:
            return READ
        disc = q[2] if q[0] != 'ytm' else None
        lists = q[1] if isinstance(q[1], list) else [q[1]]
        unit = 0
        for i in lists:
            if disc is None:
                f = (lambda: self.live.q.raw(['call', i]))
            else:
                f = (lambda: self.live.q.raw(['pv', i, disc, q[3]]))
            for _ in range(1):
                out, _, _, n = attempt(f, READ)
                unit += n
        unit += 3000 * len(lists) + 20 * sum(
            len(s.get('dom') or ()) + len(s.get('pay') or ())
            for s in self.live.world['objs'].values())
        unknowns = 1
        if q[0] in ('fit', 'bucket'):
            g = q[5]
            unknowns = 2 + sum(
                len(s.get('dom') or ()) + len(s.get('pay') or ())
                for s in self.live.world['objs'].values()) if g is None \
                else 2 + len(g)
        if q[0] in ('bpv', 'bucket'):
            return 20 * unit * unknowns
        return VALUATIONS * unit * unknowns


def run_query(live, q, **fault):
    """one query under a fault -> outcome, result, chain, steps, fired, fires,
    calls after the first failure"""
    budget = Bounds(live).budget(q)
    SEAM.arm(**fault)
    r = attempt(lambda: live.q.raw(q), budget)
    fired, fires = SEAM.fired, SEAM.fires
    SEAM.disarm()
    return r + (fired, fires)


def bad_end(q, r, what=''):
    if r[0] == 'budget':
        return '%s%s takes more than %d steps (at %s)' % (
            q, what, r[3], r[2][0])
    if r[0] == 'RecursionError':
        return '%s%s recurses without bound' % (q, what)


class Op(object):
    def __init__(self, live):
        self.live, self.st = live, {
            'operations': {}, 'faults_fired': {}, 'endings': {},
            'most_steps': {}}

    def done(self, kind, q, r):
        st = self.st
        st['operations'][kind] = st['operations'].get(kind, 0) + 1
        e = r[0] if r[0] in ('ok', 'budget') else 'exception'
        st['endings'][e] = st['endings'].get(e, 0) + 1
        st['steps'] = st.get('steps', 0) + r[3]

    def fired(self, exc, at):
        k = '%s at %s' % (exc, at)
        f = self.st['faults_fired']
        f[k] = f.get(k, 0) + 1

    def run(self, q):
        r = run_query(self.live, q)
        self.done('plain', q, r)
        return r[0], bad_end(q, r)

    def failing(self, q, r, exc, note):
        """a run that met a failure of a collaborator must report it"""
        if r[0] == 'ok':
            return '%s%s: a failure (%s at %s) is swallowed' % (
                q, note, exc, r[4])
        if exc not in r[2]:
            return '%s%s: %s at %s is reported as %s' % (
                q, note, exc, r[4], r[2])
        if r[5] > AFTER:
            return '%s%s: %d more failures after the first' % (
                q, note, r[5])

    def outage(self, q, k, exc):
        r = run_query(self.live, q, target=k, exc=exc, sticky=True)
        self.done('outage', q, r)
        bad = bad_end(q, r, ' in an outage')
        if r[4]:
            self.fired(exc, r[4])
            bad = bad or self.failing(q, r, exc, ' in an outage')
        return [r[0], r[4]], bad

    def retry(self, q, k, m, exc):
        budget = Bounds(self.live).budget(q)
        SEAM.arm(k, exc, sticky=m)
        tries = 0
        try:
            while True:
                tries += 1
                f0 = SEAM.fires
                r = attempt(lambda: self.live.q.raw(q), budget)
                if SEAM.fires == f0:
                    break
                self.fired(exc, SEAM.fired)
                r += (SEAM.fired, SEAM.fires - f0)
                bad = bad_end(q, r, ' in a transient outage') or \
                    self.failing(q, r, exc, ' in a transient outage')
                if bad:
                    return [r[0], tries], bad
                if tries > m:
                    return [r[0], tries], '%s: no progress after %d ' \
                        'failures of %d' % (q, SEAM.fires, m)
        finally:
            SEAM.disarm()
        self.done('transient outage', q, r)
        bad = bad_end(q, r, ' after a transient outage')
        if bad:
            return [r[0], tries], bad
        got = self.live.q.run(q)
        return [r[0], tries, got], None

    def deadline(self, q, limit, seed):
        """collaborators take their time; past the deadline they time out"""
        rng = random.Random(seed)
        cost = {}
        now = [0., 0]

        def hook(label):
            if label not in cost:
                cost[label] = 10 ** rng.uniform(-4, -1)
            now[0] += cost[label]
            if now[0] > limit:
                now[1] += 1
                raise EXC['TimeoutError']('deadline')
        budget = Bounds(self.live).budget(q)
        SEAM.arm()
        SEAM.hook = hook
        try:
            r = attempt(lambda: self.live.q.raw(q), budget)
        finally:
            SEAM.hook = None
            SEAM.disarm()
        self.done('deadline', q, r)
        self.st['simulated_seconds'] = \
            self.st.get('simulated_seconds', 0) + round(now[0], 3)
        bad = bad_end(q, r, ' with slow collaborators')
        if now[1]:
            self.fired('TimeoutError', 'deadline')
            bad = bad or self.failing(
                q, r + ('deadline', now[1]), 'TimeoutError',
                ' past its deadline')
        return [r[0], now[1]], bad

    def corrupt(self, q, k, v, ever):
        v = FNAN.get(v, v)
        r = run_query(self.live, q, corrupt=(k, v, True) if ever else (k, v))
        self.done('corrupted', q, r)
        if r[4] or r[5]:
            self.fired('corrupted answer', 'any call' if ever else r[4])
        return r[0], bad_end(q, r, ' with corrupted answers (%r)' % v)


# -- products ------------------------------------------------------------------

def sched(kind, start, end, per, unit):
    """payment dates of a schedule rolled backwards from its end"""
    cal = Cal(kind)
    a, b = cal.d(start), cal.d(end)

    def back(k):
        if unit == 'M':
            return cal.months(b, -per * k)
        if unit == 'Y':
            return cal.months(b, -12 * per * k)
        if unit == 'W':
            return b - 7 * per * k
        return cal.days(b, -per * k)
    ns, k = [b], 1
    while back(k) > a + 1e-9:
        ns.insert(0, back(k))
        k += 1
    return [cal.adjust(x) for x in ns]


def build(op):
    _, cls, kind, start, end, per, unit, amt = op
    env = Env(kind)
    want = sched(kind, start, end, per, unit) if per > 0 else ()
    if kind == 'bd':
        p = '%d%s' % (per, unit)
    elif kind == 'sim':
        p = per * (30 if unit == 'M' else 1)
    elif unit == 'M':
        p = env.per(per)
    else:
        p = env.days(per)
    kw = {'start_date': env.d(start), 'end_date': env.d(end), 'period': p,
          'fixed_rate': .02, 'notional_amount': 100.,
          'day_count': DAY_COUNTS['act365']}
    if cls == 'interest_rate_swap':
        kw.update(rec_leg_period=p,
                  rec_leg_day_count=DAY_COUNTS['act365'])
    elif amt and kind != 'float':
        kw['notional_amount'] = [1. + k for k in range(len(want))]
    x = getattr(dcf, cls)(**kw)
    return x


def number(kind, d):
    if kind == 'sim':
        return d.n
    if kind == 'float':
        return d
    return (d.to_date() if hasattr(d, 'to_date') else d).toordinal() - \
        __import__('datetime').date(2016, 12, 31).toordinal()


def op_prod(op):
    _, cls, kind, start, end, per, unit, amt = op
    if per <= 0:
        r = attempt(lambda: build(op), 20000)
        bad = bad_end(op, r)
        if not bad and r[0] == 'ok':
            bad = '%s: a period of %d%s is accepted' % (op, per, unit)
        return [r[0]], bad
    want = sched(kind, start, end, per, unit)
    r = attempt(lambda: build(op), 20000 + 400 * len(want))
    bad = bad_end(op, r)
    if bad or r[0] != 'ok':
        return [r[0], r[2]], bad or '%s ends in %s' % (op, r[2])
    x = r[1]
    coupons = x.legs[1:] if cls == 'bond' else x.legs
    got = []
    for leg in coupons:
        ds = [number(kind, d) for d in leg.domain]
        got.append(ds)
        if kind == 'float':
            ds = [d for d in ds if d > start / 360. + 1e-9]
        ok = len(ds) == len(set(want)) and all(
            abs(a - b) < 1e-9 for a, b in zip(ds, sorted(set(want))))
        if not ok:
            return got, '%s pays at %s, its schedule is %s' % (op, ds, want)
    flows = attempt(lambda: [float(f) for leg in x.legs
                             for f in leg[leg.domain]],
                    20000 + 2000 * len(want))
    return got + [flows[:2]], bad_end(op, flows, ' (flows)') or (
        None if flows[0] == 'ok' else '%s ends in %s' % (op, flows[2]))


# -- growth --------------------------------------------------------------------

def sized(what, kind, seed, n):
    """a call whose size is n"""
    rng = random.Random('%s %s %s %d' % (what, kind, seed, n))
    if what == 'cast':      # needs period strings
        kind = 'sim'
    env = Env(kind)
    ns = [30 * k for k in range(n + 1)]
    ds = [env.d(k) for k in ns]
    rates = [rng.uniform(.0, .05) for _ in ns]
    cls = rng.choice((dcf.ZeroRateCurve, dcf.CashRateCurve))
    disc = dcf.ZeroRateCurve(ds, rates, forward_tenor=env.per(3))
    fwd = cls(ds, rates, forward_tenor=env.per(3))
    pay = ds[1:]
    amounts = [rng.uniform(1, 2) for _ in pay]
    fix = dcf.FixedCashFlowList(pay, amounts, origin=ds[0])
    rate = dcf.RateCashFlowList(pay, [100.] * n, fixed_rate=.01,
                                origin=ds[0], forward_curve=fwd)
    o = ds[0]
    if what == 'curve':
        return lambda: dcf.ZeroRateCurve(ds, rates)(ds[n // 2])
    if what == 'updates':
        c = dcf.ZeroRateCurve(ds[:1], rates[:1])

        def f():
            for d, r in zip(ds, rates):
                c[d] = r
        return f
    if what == 'pv':
        return lambda: dcf.get_present_value(rate, disc, o)
    if what == 'bpv':
        return lambda: dcf.get_basis_point_value(rate, disc, o, fwd)
    if what == 'bucket':
        return lambda: dcf.get_bucketed_delta(fix, disc, o, disc,
                                              delta_grid=ds)
    if what == 'fit':
        k = max(n // 8, 2)
        lists = [dcf.FixedCashFlowList([ds[j]], [100.], origin=o)
                 for j in range(1, k + 1)]
        return lambda: dcf.get_curve_fit(
            lists, disc, o, fitting_curve=disc, fitting_grid=ds[1:k + 1],
            present_value=[95.] * k, bounds=(-.5, 2.))
    if what == 'ytm':
        return lambda: dcf.get_yield_to_maturity(
            fix, o, present_value=.98 * sum(amounts))
    if what == 'fair':
        return lambda: dcf.get_fair_rate(rate, disc, o)
    if what == 'cast':
        return lambda: dcf.DiscountFactorCurve(disc)(ds[n // 2])
    if what == 'annuity':
        return lambda: disc.get_swap_annuity(ds)
    if what == 'fx':
        def g():
            x = dcf.FxContainer('USD', disc)
            for k in range(n // 4 + 1):
                x.add('C%02d' % k, disc, 1. + k)
            return len(x)
        return g
    if what == 'table':
        return lambda: (rate.table, dcf.rate_table(
            disc, ds, [env.days(1), env.days(20)]))
    if what == 'option':
        m = dcf.models.NormalOptionPayOffModel(o, fwd, .01)
        x = dcf.OptionCashflowList(pay, 1., .02, False, payoff_model=m,
                                   origin=o)
        return lambda: dcf.get_present_value(x, disc, o)
    if what == 'credit':
        c = dcf.HazardRateCurve(ds, [abs(r) for r in rates]) \
            if kind == 'sim' else dcf.FlatIntensityCurve(ds, rates)
        return lambda: c.get_survival_prob(o, ds[-1])
    if what == 'product':
        return lambda: dcf.bond(0., n / 4., .25, notional_amount=1.)
    ms = dcf.RatingClass('A', ['A'] + ['R%d' % k for k in range(n)])
    return lambda: (list(ms), str(ms))


SIZES = 8, 16, 32, 64


def op_scale(what, kind, seed):
    steps = []
    for n in SIZES:
        f = sized(what, kind, seed, n)
        prev = steps[-1] if steps else None
        r = attempt(f, 3 * 10 ** 6 if prev is None
                    else 16 * prev + 20000)
        if bad_end([what, n], r):
            return steps, '%s of size %d on %s takes more than %d steps, ' \
                'sizes %s take %s' % (what, n, kind, r[3], SIZES[:len(
                    steps)], steps)
        if r[0] != 'ok':
            return steps + [r[0], r[2]], None
        steps.append(r[3])
    return 'ok', None


def op_age(kind, seed, m):
    """a book after m more operations which leave it as it was: requests take
    the steps they took before, the objects are stored in the same size"""
    rng = random.Random('age %s %s' % (kind, seed))
    env = Env(kind)
    ds = [env.d(30 * k) for k in range(7)]
    data = {'disc': [.01, .02, .03, .02, .01, .02, .03],
            'fwd': [.02, .01, .02, .03, .02, .01, .02],
            'spot': [100., 101., 103., 102., 104., 103., 105.],
            'cred': [.01, .02, .01, .02, .03, .02, .01],
            'vol': [.1, .2, .15, .1, .2, .1, .1]}
    flat = dcf.ZeroRateCurve if kind not in ('sim', 'float') else \
        rng.choice((dcf.ZeroRateCurve, dcf.DiscountFactorCurve))
    if flat is dcf.DiscountFactorCurve:
        data['disc'] = [1., .99, .98, .97, .96, .95, .94]
    c = {'disc': flat(ds, data['disc'], forward_tenor=env.per(3)),
         'fwd': dcf.CashRateCurve(ds, data['fwd'], forward_tenor=env.per(3)),
         'spot': dcf.ForwardCurve(ds, data['spot']),
         'cred': dcf.FlatIntensityCurve(ds, data['cred']),
         'vol': dcf.TerminalVolatilityCurve(ds, data['vol'])}
    pay, o = ds[1:], ds[0]
    fix = dcf.FixedCashFlowList(pay, [1.] * 6, origin=o)
    rate = dcf.RateCashFlowList(pay, [100.] * 6, fixed_rate=.01, origin=o,
                                forward_curve=c['fwd'])
    m1 = dcf.models.NormalOptionPayOffModel(o, c['spot'], .01)
    m2 = dcf.models.LogNormalOptionPayOffModel(o, c['spot'], c['vol'])
    opt = dcf.OptionCashflowList(pay, 1., 100., False, payoff_model=m1,
                                 origin=o)
    both = dcf.CashFlowLegList([fix, rate, opt])
    fx = dcf.FxContainer('USD', c['disc'])
    for k in range(3):
        fx.add('C%d' % k, c['disc'], 2. + k)
    r = dcf.RatingClass('B', ['A', 'B', 'C'])
    far = env.d(400)
    ask = [('curve %s' % k, (lambda x=x: (x(far), x(ds[3]), x.domain,
                                          str(x)))) for k, x in c.items()]
    ask += [
        ('pv', lambda: dcf.get_present_value(both, c['disc'], o)),
        ('table', lambda: (both.table, rate.table, opt.table)),
        ('bpv', lambda: dcf.get_basis_point_value(both, c['disc'], o)),
        ('bucket', lambda: dcf.get_bucketed_delta(fix, c['disc'], o)),
        ('fair', lambda: dcf.get_fair_rate(rate, c['disc'], o)),
        ('accrued', lambda: dcf.get_interest_accrued(both, ds[2])),
        ('cash', lambda: c['fwd'].get_cash_rate(ds[1])),
        ('survival', lambda: c['cred'].get_survival_prob(o, ds[4])),
        ('option', lambda: m2.get_call_value(ds[3], 101.)),
        ('fx', lambda: [fx[a, b](far) for a in ('USD', 'C0', 'C2')
                        for b in ('C1', 'C2') if a != b]),
        ('pairs', lambda: sorted(map(str, fx))),
        ('kwargs', lambda: [x.kwargs for x in c.values()]),
        ('cast', lambda: dcf.DateCurve(c['fwd'])(far)),
        ('sum', lambda: (dcf.DateCurve(c['disc']) + dcf.DateCurve(c['fwd']))(
            far) if kind == 'float' else None),
        ('rating', lambda: (float(r), str(r), list(r))),
        ('copy', lambda: deepcopy([c, both, m2, fx, r]) and None),
        ('stored', lambda: len(pickle.dumps([c, both, m2, fx, r]))),
    ]

    def measure():
        res = {}
        for name, f in ask:
            f()
            x = attempt(f, READ * 20)
            if x[0] != 'ok':
                return {name: x}
            res[name] = x[3], x[1] if name == 'stored' else 0
        return res

    def same(k):
        c[k].fixings.clear()
        for d, v in zip(ds, data[k]):
            c[k][d] = v

    def touch():
        k = rng.choice(sorted(c))
        x = rng.random()
        if x < .5:
            j = rng.randint(0, 6)
            c[k][ds[j]] = data[k][j] * rng.uniform(.9, 1.)
        elif x < .6:
            c[k].fixings[rng.choice(ds)] = data[k][0]
        elif x < .65:
            c[k].spread = None
            if rng.random() < .5 and hasattr(c[k], 'get_zero_rate'):
                c[k].spread = dcf.DateCurve([o], [1e-4])
        elif x < .75:
            fx.add('C%d' % rng.randint(0, 2), c['disc'], rng.uniform(1, 3))
        elif x < .8:
            rate.fixed_rate = rng.uniform(0, .02)
        elif x < .85:
            opt.payoff_model = m1
            rate.forward_curve = c['fwd']
        else:
            n = 9 if x > .995 else 2
            name, f = ask[rng.choice((
                [j for j in range(len(ask) - n + 1)]))]
            try:
                f()
            except (AssertionError, TypeError):
                pass        # spreads of their own
    try:
        before = measure()
        for k in c:
            same(k)
        before = measure()
    except Exception as e:
        return 'unbuildable: %s' % type(e).__name__, None
    for name, x in before.items():
        if isinstance(x[0], str):
            return 'unbuildable: %s %s' % (name, x[0]), None
    for _ in range(m):
        touch()
    for k in c:
        same(k)
        c[k].spread = None
    for k in range(3):
        fx.add('C%d' % k, c['disc'], 2. + k)
    rate.fixed_rate = .01
    try:
        after = measure()
    except Exception as e:
        return 'failed', 'after %d operations on %s the same requests ' \
            'fail: %s' % (m, kind, type(e).__name__)
    for name, x in after.items():
        if isinstance(x[0], str):
            return 'failed', 'after %d operations on %s %s ends with %s' % (
                m, kind, name, x[0])
        y = before[name]
        if x[0] > 2 * y[0] + 200 or x[1] > 1.5 * y[1] + 1000:
            return 'grown', 'after %d operations on %s %s takes %s (steps, ' \
                'bytes), before %s' % (m, kind, name, x, y)
    return 'ok', None


def run(p):
    SEAM.reset()
    setup()
    try:
        live = Live(p['world'])
    except Exception as e:
        return {'events': ['unbuildable', type(e).__name__], 'retries': [],
                'stats': {'worlds_refused_by_constructors': 1}, 'bad': None,
                'n': 0}
    x = Op(live)
    events, retries, bad, n = [], [], None, 0
    for op in p['ops']:
        SEAM.on = True
        b = None
        if op[0] == 'prod':
            e, b = op_prod(op)
            x.done('product', op, ['ok', 0, 0, 0])
        elif op[0] == 'scale':
            e, b = op_scale(*op[1:])
            if e != 'ok' and not b:
                raise AssertionError('%s: %s' % (op, e))
            x.done('growth', op, ['ok', 0, 0, 0])
        elif op[0] == 'age':
            e, b = op_age(*op[1:])
            x.done('ageing %s' % e, op, ['ok', 0, 0, 0])
        elif op[0] in ('run', 'outage', 'retry', 'deadline', 'corrupt'):
            if not known(live, op[1]):
                continue
            e, b = getattr(x, op[0])(*op[1:])
            n += 1
            if op[0] == 'retry' and not b:
                retries.append([deepcopy(live.world), op[1], e[2]])
        else:
            e = live.apply(op) if op[0] == 'flag' or \
                op[1] in live.world['objs'] else 'unknown'
        events.append([op[0], e])
        if b:
            bad = [op[0], b]
            break
    x.st['simulated_steps'] = SEAM.total
    return {'events': events, 'retries': retries, 'stats': x.st, 'bad': bad,
            'n': n}


def known(live, q):
    objs = live.world['objs']
    ids = [x for y in q[1:] for x in (y if isinstance(y, list) else [y])
           if isinstance(x, str) and x.isdigit()]
    return all(i in objs for i in ids)


def execute(p, wall=60.):
    st, r = fork_json(lambda: run(p), wall)
    if st == 'hang':
        return {'violation': {'class': 'hang', 'sig': 'hang',
                              'what': 'the run did not finish'},
                'events': ['hang'], 'stats': {}}
    if st != 'ok':
        return {'violation': None, 'harness': str(r), 'events': [],
                'stats': {}}
    res = {'violation': None, 'events': r['events'], 'stats': r['stats'],
           'trivial': not r['events']}
    if r['bad']:
        k, what = r['bad']
        res['violation'] = {'class': k, 'sig': k, 'what': what}
        return res
    for world, q, got in r['retries']:
        st, want = fork_json(lambda: twin(world, [q]), wall)
        want = want[0] if st == 'ok' else got
        if got != want and not (got[0] == want[0] == 'ok' and same_q(
                q, got, want, world)):
            res['violation'] = {
                'class': 'retry', 'sig': 'retry',
                'what': '%s answers %s after a transient outage, not %s' % (
                    q, got, want)}
            return res
    return res


def shrink(p):
    yield from shrink_ops(p)
    yield from shrink_world(p)


assert SimDate and r6
