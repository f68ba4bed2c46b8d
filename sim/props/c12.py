"""C12 risk figures and calibration follow from repricing, through time."""
from math import exp

from .. import feed
from ..feed import execute, show, shrink  # noqa F401
from ..gen import r6
from ..world import IR

ID = 'C12'
RUNS = {'quick': 6000, 'thorough': 300000}
RECHECK = 120
RULE = ('a run is a seeded book of cash flow lists, options and curves fed '
        'by a publisher over a simulated network, with a moving clock, '
        'faults in the middle of solvers and sensitivities, crashes and '
        'restarts; risk figures and solutions are compared with repricing '
        'by the reference model; non-trivial: at least one risk figure; '
        'distinct by the digest of the event log')
REAL = ['all of dcf', 'pickle', 'businessdate (bd worlds)',
        'datetime.date (date worlds)']
STUB = ['network, publisher, disk and clock of the desk',
        'date package (sim worlds)', 'user day counts',
        'user interpolation', 'user callables', 'user payoffs',
        'user models']
ASSUMPTIONS = [
    'solutions are judged by repricing with the reference model, refusals '
    'by the signs at the bounds',
    'greeks by their documented closed formulas or difference quotients']
THEMES = 'rates', 'book', 'options', 'options', 'credit', 'book'


def query(gen):
    rng = gen.rng
    lists = gen.of('list')
    models = gen.of('model')
    d = gen.disc()
    x = rng.random()
    if lists and d and rng.random() < .1:
        q = boot(gen, d)
        if q:
            return q
    if models and x < .25:
        i = gen.pick(models)
        n = gen.date(40)
        k = rng.choice((None, r6(rng.uniform(80, 120)),
                        r6(rng.uniform(.005, .05))))
        return [rng.choice(('delta', 'pdelta', 'gamma', 'vega', 'theta',
                            'pgamma', 'pvega', 'ptheta', 'mcall', 'mput')),
                i, n, k]
    if lists and d and x < .9:
        i = gen.pick(lists)
        s = gen.objs[i]
        v = gen.vdate()
        if rng.random() < .12:
            return ['accrued', i, gen.date(0)]
        if rng.random() < .12:
            return ['pv', i, d, v]
        q = gen.solver(i, s, d)
        if q[0] == 'ytm':
            # near the value of the list
            amt = s.get('amt')
            amt = sum(amt) if isinstance(amt, list) else (amt or 1.)
            q[3] = r6(amt * rng.uniform(.0, 1.3))
        if q[0] == 'fair':
            amt = s.get('amt')
            amt = sum(amt) if isinstance(amt, list) else (amt or 1.)
            q[4] = r6(amt * rng.uniform(-.02, .1))
        if q[0] == 'bpv' and rng.random() < .3:
            q.append(rng.choice((.001, -.0001, .00001)))
        return q
    i = gen.pick(gen.of(*IR))
    if i is None:
        return gen.query()
    return rng.choice((
        lambda: ['zero', i, gen.date(0), gen.date(0)],
        lambda: ['cash', i, gen.date(0)],
        lambda: ['annuity', i, gen.dates(3)]))()


def boot(gen, d):
    """a curve fitted to several instruments"""
    rng = gen.rng
    if gen.objs[d]['t'] != 'curve' or gen.objs[d]['cls'] != 'ZeroRateCurve':
        return None
    ls = {}
    for i in gen.of('FixedCashFlowList', 'CashFlowList', 'RateCashFlowList',
                    'bond'):
        s = gen.objs[i]
        ls[max(s['pay']) if 'pay' in s else s['end']] = i
    ns = sorted(rng.sample(sorted(ls), min(len(ls), rng.randint(1, 4))))
    if not ns:
        return None
    pvs = []
    for n in ns:
        s = gen.objs[ls[n]]
        a = s['amt']
        a = sum(a) if isinstance(a, list) else a * len(s.get('pay', [0]))
        if s['cls'] == 'RateCashFlowList':
            a *= s['rate'] * n / 360.
        if s['cls'] == 'bond':
            a *= s['rate']
        pvs.append(r6(a * exp(-rng.uniform(0., .05) * n / 360.)))
    z = list(zip(ns, pvs))
    rng.shuffle(z)
    return ['fit', [ls[n] for n, _ in z], d, 0, None, gen.anyhow(ns),
            [p for _, p in z]]


class BookGen(feed.FeedGen):
    def theme_book(self):
        """bills and notes on one discount curve"""
        rng = self.rng
        self.rate_curve('ZeroRateCurve')
        for _ in range(rng.randint(1, 4)):
            self.rate_list(rng.choice(('FixedCashFlowList', 'CashFlowList',
                                       'FixedCashFlowList', 'product')))


def plan(rng, tier):
    return feed.plan(rng, THEMES, query, BookGen)
