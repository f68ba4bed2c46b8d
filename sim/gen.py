"""Seeded generation of worlds, mutations and queries (pure function of the
random.Random handed in; swarm style: every run draws its own feature mix)."""
from copy import deepcopy
from math import exp

from .collab import POSITIVE_ONLY
from .world import IR, CREDIT, VOL, STEPPERS

GRID_S = (0, 30, 60, 90, 120, 150, 180, 210, 240)
GRID_L = (0, 30, 90, 180, 270, 360, 450, 540, 720, 900, 1080)


def r6(x):
    return round(x, 6)


class Gen(object):
    more = ()    # further kinds of option models
    more_greeks = ()
    product_kinds = 'bd', 'float'

    def __init__(self, rng, kinds=('sim', 'sim', 'sim', 'bd', 'bd', 'float',
                                  'date', 'dt'),
                 themes=None):
        self.rng = rng
        self.kind = rng.choice(kinds)
        self.objs = {}
        self.n = 0
        self.steppers = rng.random() < .25
        self.grid = GRID_S if self.steppers else GRID_L
        self.p_dc = rng.choice((0., .2, .6))
        self.p_interp = rng.choice((0., .3, .7))
        self.p_origin = rng.choice((0., .5, .9))
        self.p_unsorted = rng.choice((0., .0, .3))
        self.p_tuple = rng.choice((0., .3))
        pool = themes or ('rates', 'options', 'credit', 'fx', 'vol', 'plain',
                          'rating')
        k = rng.choice((1, 1, 2, 3))
        self.themes = sorted(rng.sample(pool, min(k, len(pool))))

    @property
    def world(self):
        return {'kind': self.kind, 'objs': self.objs}

    def new(self, spec):
        self.n += 1
        oid = str(self.n)
        self.objs[oid] = spec
        return oid

    def of(self, *names):
        """ids of objects by class name or spec type"""
        return [i for i, s in self.objs.items()
                if s.get('cls') in names or s['t'] in names]

    focus = None    # an object at the centre of the history

    def pick(self, ids):
        if self.focus in ids and self.rng.random() < .6:
            return self.focus
        return self.rng.choice(ids) if ids else None

    # -- value generators -----------------------------------------------------
    def date(self, lo=None, hi=None):
        """a day number: on grid, off grid, outside"""
        rng = self.rng
        lo = -20 if lo is None else lo
        hi = self.grid[-1] + 60 if hi is None else hi
        if rng.random() < .5:
            g = [n for n in self.grid if lo <= n <= hi]
            if g:
                return rng.choice(g)
        return rng.randint(lo, hi)

    def dates(self, k, lo=0, hi=None):
        hi = self.grid[-1] if hi is None else hi
        g = [n for n in self.grid if lo <= n <= hi]
        k = min(k, len(g))
        ns = self.rng.sample(g, k)
        if self.rng.random() < .2:
            ns = list({n + self.rng.randint(0, 9): 0 for n in ns})
        return sorted(set(ns))

    def value(self, cls, n=0):
        u = self.rng.uniform
        if cls in ('ZeroRateCurve', 'ShortRateCurve', 'CashRateCurve'):
            return r6(u(-.01, .06))
        if cls in ('FlatIntensityCurve', 'HazardRateCurve'):
            return r6(u(.001, .06))
        if cls == 'DiscountFactorCurve':
            return r6(exp(-u(.0, .05) * n / 360.))
        if cls == 'SurvivalProbabilityCurve':
            return r6(exp(-u(.001, .05) * n / 360.))
        if cls == 'DefaultProbabilityCurve':
            return r6(1. - exp(-u(.001, .05) * n / 360.))
        if cls == 'MarginalSurvivalProbabilityCurve':
            return r6(u(.95, .999))
        if cls == 'MarginalDefaultProbabilityCurve':
            return r6(u(.001, .05))
        if cls in VOL:
            return r6(u(.05, .3))
        if cls in ('ForwardCurve', 'FxForwardCurve'):
            return r6(u(80, 120))
        return r6(u(.1, 5.))

    def interp(self, cls):
        rng = self.rng
        if rng.random() >= self.p_interp:
            return None
        c = ['linear_scheme', 'C:linear', 'C:constant', 'C:left', 'C:right',
             'C:nearest', 'S:linear', 'S:constant', 'S:right', 'S:nearest',
             'S:linear_scheme', 'SimInterp', 'sim_interp_function',
             'REG:simlin', 'zero_linear_scheme']
        if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve',
                   'ForwardCurve', 'FxForwardCurve',
                   'MarginalSurvivalProbabilityCurve', 'Curve', 'DateCurve'):
            c += ['log_linear_scheme', 'S:loglinear'] * 2
        if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve'):
            c += ['C:loglinearrate', 'C:logconstantrate'] * 3
        if cls in ('Curve', 'DateCurve', 'ZeroRateCurve',
                   'HazardRateCurve') + VOL:
            c += ['C:zero']
        return rng.choice(c)

    def curve_spec(self, cls, k=None, lo=0, interp=True):
        rng = self.rng
        k = rng.randint(1, 6) if k is None else k
        if cls == 'Curve':
            k = max(k, 1)
        ns = self.dates(k, lo)
        if not ns:
            ns = [0]
        if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve',
                   'DefaultProbabilityCurve') and len(ns) == 1:
            ns.append(ns[0] + 90)  # annual rates need a point off origin
        data = [self.value(cls, n) for n in ns]
        spec = {'t': 'curve', 'cls': cls}
        origin = None
        if cls != 'Curve':
            if rng.random() < self.p_origin or cls in (
                    'DiscountFactorCurve', 'SurvivalProbabilityCurve',
                    'DefaultProbabilityCurve') and rng.random() < .5:
                origin = min(0, ns[0])
            if rng.random() < self.p_dc:
                spec['dc'] = rng.choice(('act365', 'act360', 'SIMDC'))
        if rng.random() < self.p_unsorted and len(ns) > 1:
            z = list(zip(ns, data))
            rng.shuffle(z)
            ns, data = map(list, zip(*z))
            origin = 0 if cls != 'Curve' else None
        if rng.random() < self.p_tuple:
            spec['dt'] = 'tuple'
        spec.update(dom=list(ns), data=list(data), origin=origin)
        it = self.interp(cls) if interp else None
        if it:
            spec['interp'] = it
        if cls in IR + CREDIT:
            if self.kind in ('float', 'date', 'dt') or rng.random() < .5:
                spec['tenor'] = rng.choice((1, 3, 6) if cls in IR
                                           else (6, 12))
        return spec

    def ref(self, oid):
        return {'ref': oid}

    def rate_curve(self, cls=None, **kw):
        cls = cls or self.rng.choice(
            IR if self.steppers else
            ('ZeroRateCurve', 'ZeroRateCurve', 'DiscountFactorCurve',
             'CashRateCurve'))
        return self.new(self.curve_spec(cls, **kw))

    def flat_vol(self):
        rng = self.rng
        x = rng.random()
        if x < .25:
            return r6(rng.uniform(.05, .3))
        if x < .5:
            return {'fn': [r6(rng.uniform(.05, .3)), r6(rng.uniform(0, .2)),
                           'volatility']}
        return self.ref(self.new(self.curve_spec(
            'TerminalVolatilityCurve', k=rng.choice((1, 1, 2, 3)))))

    def pay(self, kmax=4):
        ns = [n for n in self.dates(self.rng.randint(1, kmax), lo=30)]
        return ns or [90]

    def amounts(self, k):
        rng = self.rng
        s = rng.choice((1., 100., 1e4, 1e6))
        if rng.random() < .5:
            return s
        return [r6(s * rng.uniform(.5, 2) * rng.choice((1, 1, -1)))
                for _ in range(k)]

    def model(self, cls=None, rates=False):
        rng = self.rng
        if rates:
            cls = cls or rng.choice(('NormalOptionPayOffModel', 'SimModel',
                                     'IntrinsicOptionPayOffModel'))
            f = self.pick(self.of(*IR))
            fwd = self.ref(f) if f and rng.random() < .8 else \
                rng.choice((0., r6(rng.uniform(-.01, .03)),
                            {'fn': [r6(rng.uniform(.005, .04)), .3,
                                    'forward']}))
            vol = r6(rng.uniform(.002, .01)) if rng.random() < .5 else \
                {'fn': [r6(rng.uniform(.002, .01)), .2, 'volatility']}
        else:
            cls = cls or rng.choice((
                'LogNormalOptionPayOffModel', 'LogNormalOptionPayOffModel',
                'DisplacedLogNormalOptionPayOffModel',
                'NormalOptionPayOffModel', 'IntrinsicOptionPayOffModel',
                'BinaryLogNormalOptionPayOffModel', 'SimModel') + self.more)
            f = self.pick(self.of('ForwardCurve'))
            fwd = self.ref(f) if f and rng.random() < .7 else \
                rng.choice((r6(rng.uniform(50., 150.)),
                            {'fn': [100., .05, 'forward']}))
            vol = self.flat_vol()
        spec = {'t': 'model', 'cls': cls, 'val': rng.choice((0, 0, 10, 30)),
                'fwd': fwd, 'vol': vol}
        if rng.random() < .3:
            spec['dc'] = rng.choice(('act365', 'act360'))
        if rng.random() < .3:
            spec['bump'] = rng.random() < .5
        if 'Displaced' in cls:
            spec['disp'] = r6(rng.uniform(0, 5))
        return self.new(spec)

    def castable(self):
        # periods given as strings are part of casting to a cash rate curve
        if self.kind in ('float', 'date', 'dt'):
            return ('ZeroRateCurve', 'ShortRateCurve') if self.steppers \
                else ('ZeroRateCurve',)
        return IR if self.steppers else IR[:2]

    # -- themes ---------------------------------------------------------------
    def build(self):
        for t in self.themes:
            getattr(self, 'theme_' + t)()
        return self

    def theme_plain(self):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            self.new(self.curve_spec(rng.choice(('Curve', 'DateCurve',
                                                 'DateCurve'))))
        d = rng.choice(self.of('curve'))
        if rng.random() < .5:
            self.new({'t': 'price', 'value': r6(rng.uniform(1, 9)),
                      'origin': 0})
        return d

    def theme_rates(self):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            self.rate_curve()
        if rng.random() < .3:
            src = self.pick(self.of(*IR))
            s = self.objs[src]
            if not s.get('cast') and len(s['dom']) > 1 and \
                    (s['cls'] != 'CashRateCurve' or s.get('tenor')):
                self.new({'t': 'curve', 'cls': rng.choice(self.castable()),
                    'cast': deepcopy(s), 'dom': None})
        self.rate_lists(rng.randint(1, 3))

    def rate_lists(self, k):
        rng = self.rng
        for _ in range(k):
            cls = rng.choice(('CashFlowList', 'FixedCashFlowList',
                              'RateCashFlowList', 'RateCashFlowList',
                              'RateCashFlowList',
                              'ContingentRateCashFlowList',
                              'ContingentCashFlowList', 'product'))
            self.rate_list(cls)
        plain = [i for i in self.of('list')
                 if self.objs[i]['cls'] not in ('CashFlowLegList',)]
        if len(plain) > 1 and rng.random() < .7:
            legs = rng.sample(plain, 2)
            if rng.random() < .2:
                legs.append(rng.choice(legs))
            self.new({'t': 'list', 'cls': 'CashFlowLegList',
                      'legs': sorted(legs)})

    def rate_list(self, cls):
        rng = self.rng
        pay = self.pay()
        spec = {'t': 'list', 'cls': cls, 'pay': pay}
        if rng.random() < .8:
            spec['origin'] = 0
        elif rng.random() < .3:
            pay[1:] = []
        if cls == 'product':
            if self.kind not in self.product_kinds:
                cls = 'RateCashFlowList'
            else:
                cls = rng.choice(('bond', 'interest_rate_swap'))
                f = self.pick(self.of(*IR))
                spec = {'t': 'list', 'cls': cls, 'start': 0,
                        'end': rng.choice((180, 360)), 'period': 3,
                        'period2': 6, 'amt': 100.,
                        'dc': rng.choice(('act365', 'act360', None)),
                        'rate': r6(rng.uniform(0, .05)),
                        'fwd': self.ref(f) if f and rng.random() < .5
                        else None, 'fwd2': self.ref(f) if f else None}
                return self.new(spec)
            spec['cls'] = cls
        if cls in ('CashFlowList', 'FixedCashFlowList',
                   'ContingentCashFlowList'):
            self.jumble(pay)
        if cls == 'CashFlowList':
            spec['amt'] = [r6(rng.uniform(-100, 200)) for _ in pay] \
                if rng.random() < .8 else r6(rng.uniform(-100, 200))
        elif cls == 'FixedCashFlowList':
            spec['amt'] = self.amounts(len(pay))
        elif cls == 'RateCashFlowList':
            spec['amt'] = self.amounts(len(pay))
            spec['rate'] = r6(rng.uniform(0, .05))
            f = self.pick(self.of(*IR))
            if f and rng.random() < .7:
                spec['fwd'] = self.ref(f)
            elif rng.random() < .3:
                spec['fwd'] = {'fn': [r6(rng.uniform(.005, .04)), .3,
                                      'forward']}
            elif rng.random() < .3:
                spec['fwd'] = rng.choice((0., r6(rng.uniform(.005, .04))))
            if rng.random() < .3:
                spec['dc'] = rng.choice(('act365', 'act360'))
            if rng.random() < .2:
                spec['fixoff'] = 2
            if rng.random() < .2:
                spec['payoff'] = 2
        elif cls == 'ContingentRateCashFlowList':
            spec['amt'] = self.amounts(len(pay))
            spec['rate'] = r6(rng.uniform(0, .02))
            if rng.random() < .6:
                spec['cap'] = 0. if rng.random() < .1 else r6(
                    rng.uniform(.02, .05))
            if rng.random() < .6:
                spec['floor'] = r6(rng.uniform(0, .02))
            spec['model'] = self.ref(self.model(rates=True))
            if rng.random() < .2:
                spec['fixoff'] = 2
            if rng.random() < .2:
                spec['payoff'] = 2
            if rng.random() < .3:
                spec['dc'] = rng.choice(('act365', 'act360'))
        if 'Rate' in cls and rng.random() < .15:
            spec['over'] = {str(rng.randrange(len(pay))): {
                'fixed_rate': r6(rng.uniform(0, .05))}}
        if cls == 'ContingentCashFlowList':
            spec['payoffs'] = [{'duck': r6(rng.uniform(1, 100))}
                               if rng.random() < .8 else
                               r6(rng.uniform(1, 100)) for _ in pay]
            m = self.pick(self.of('model'))
            spec['model'] = self.ref(m or self.model(rates=True))
        return self.new(spec)

    def theme_options(self):
        rng = self.rng
        if not self.of(*IR):
            self.rate_curve('ZeroRateCurve')
        s = self.curve_spec('ForwardCurve', k=rng.choice((1, 1, 2, 3)))
        x = rng.random()
        if x < .3:
            s['yield'] = r6(rng.uniform(-.02, .05))
        elif x < .8:
            s['yield'] = self.ref(self.pick(self.of(*IR)))
        elif x < .9:
            s['yield'] = {'fn': [.9, .1, 'yield']}
        elif x < .95:
            s['yield'] = None
        self.new(s)
        self.model()
        if rng.random() < .3:
            self.model()
        for _ in range(rng.randint(1, 2)):
            self.option_list()
        if rng.random() < .3:
            m = self.pick(self.of('LogNormalOptionPayOffModel',
                                  'NormalOptionPayOffModel'))
            if m:
                o = self.objs[m]
                s = {'t': 'model', 'cls': 'Binary', 'inner': self.ref(m),
                     'val': 10, 'dc': 'act365', 'fwd': o['fwd'],
                     'vol': o['vol']}
                for k in ('val', 'dc', 'fwd', 'vol'):
                    if rng.random() < .4:   # the one of the inner model
                        s[k] = None
                if rng.random() < .4:
                    s['shift'] = rng.choice((.001, .5))
                self.new(s)

    def jumble(self, pay):
        """payment dates in any order"""
        if self.rng.random() < .15:
            self.rng.shuffle(pay)

    def option_list(self):
        rng = self.rng
        m = self.ref(self.pick(self.of('model')))
        pay = self.pay(3)
        self.jumble(pay)
        if rng.random() < .7:
            spec = {'t': 'list', 'cls': 'OptionCashflowList', 'pay': pay,
                    'amt': self.amounts(len(pay)), 'origin': 0,
                    'strike': [r6(rng.uniform(85, 120)) for _ in pay],
                    'put': [rng.random() < .4 for _ in pay], 'model': m}
            if rng.random() < .2:
                spec['fixoff'] = 2
        else:
            a, b = rng.randint(0, 2), rng.randint(1, 2)
            spec = {'t': 'list', 'cls': 'OptionStrategyCashflowList',
                    'pay': pay,
                    'camt': [r6(rng.uniform(-2, 2)) for _ in range(a)],
                    'cstrike': [r6(rng.uniform(85, 120)) for _ in range(a)],
                    'pamt': [r6(rng.uniform(-2, 2)) for _ in range(b)],
                    'pstrike': [r6(rng.uniform(85, 120)) for _ in range(b)],
                    'origin': 0, 'model': m}
            if rng.random() < .2:
                spec['fixoff'] = 2
        for k, v in (('payoff', 2), ('origin', None)):
            if rng.random() < .2:
                spec[k] = v
        for k in ('amt', 'strike', 'put'):      # one for all
            if isinstance(spec.get(k), list) and rng.random() < .15:
                spec[k] = spec[k][0]
        return self.new(spec)

    def theme_credit(self):
        rng = self.rng
        pool = CREDIT if self.steppers else tuple(
            c for c in CREDIT if c not in STEPPERS)
        for _ in range(rng.randint(1, 3)):
            self.new(self.curve_spec(rng.choice(pool),
                                     k=rng.randint(2, 5)))

    def theme_vol(self):
        rng = self.rng
        for _ in range(rng.randint(1, 2)):
            self.new(self.curve_spec(rng.choice(VOL)))

    def theme_fx(self):
        rng = self.rng
        base = self.rate_curve('ZeroRateCurve', interp=False)
        adds = []
        for c in rng.sample(('EUR', 'GBP', 'JPY', 'CHF'), rng.randint(1, 3)):
            adds.append([c, self.ref(self.rate_curve(
                rng.choice(IR[:2]), interp=False)),
                r6(rng.uniform(.3, 3.))])
        if rng.random() < .4:
            s = self.curve_spec('FxForwardCurve', k=rng.choice((1, 1, 2, 3)))
            s.update(domc=self.ref(base), forc=rng.choice(adds)[1])
            self.new(s)
        self.new({'t': 'fx', 'base': 'USD', 'domc': self.ref(base),
                  'adds': adds})

    def theme_rating(self):
        rng = self.rng
        ms = rng.choice((
            ['A', 'B', 'C', 'D'], None,
            {'A': .001, 'B': .01, 'C': .1, 'D': 1.},
            {'low': .02, 'B': .1, 'top': .3},
            {'z': .5, 'B': .25, 'a': .0625},
            ['B', 'D'], 'LONG', 'MID'))
        v = rng.choice(('B', r6(rng.uniform(.0005, 1.)),
                        r6(10 ** rng.uniform(-6, 0.)))) if ms \
            else r6(rng.uniform(.001, 1.))
        self.new({'t': 'rating', 'value': v, 'ms': ms})

    # -- queries --------------------------------------------------------------
    def query(self, oid=None):
        """a query on a random object"""
        rng = self.rng
        if self.focus and rng.random() < .4:
            oid = self.focus
        oid = oid or rng.choice(sorted(self.objs, key=int))
        s = self.objs[oid]
        if rng.random() < .04:
            return self.bad(oid, s)
        return getattr(self, 'qq_' + s['t'])(oid, s)

    def bad(self, oid, s):
        """a request whose parts do not fit together"""
        rng, cls, t = self.rng, s.get('cls'), s['t']
        c = [['log', rng.choice((0., -1.))], ['scheme']]
        if t == 'curve':
            c += [['len']]
            if cls in IR + CREDIT + VOL:
                c += [['cast']]
                if s.get('spread'):
                    c += [['spread']]
            if cls in IR:
                c += [['step', self.date(0), rng.choice((1, 3, 6)),
                       rng.choice((-7, 5, 40))]] * 5
                c += [['to', rng.choice((-300, -200, -50, -10)), 0,
                       rng.choice((0, 1, 3, 6))]] * 3
        elif t == 'list':
            c += [['len'], ['legs'], ['options']]
            if self.kind in self.product_kinds:
                c += [['plan', rng.choice((2, 3, 5, 7))]]
        elif t == 'rating' and s['ms']:
            c = [['name']]
        elif t == 'fx':
            k = rng.choice(('EUR', 'AUD'))
            c = [['key'], ['pair', k], ['set', k], ['add', k]]
        return ['bad', oid] + rng.choice(c)

    def qq_duck(self, oid, s):
        return ['df', oid, self.date(0), self.date(0)]

    def qq_price(self, oid, s):
        return ['price', oid]

    def qq_rating(self, oid, s):
        return [self.rng.choice(('rvec', 'rstr', 'rms', 'rget')), oid]

    def qq_curve(self, oid, s):
        rng, cls = self.rng, s['cls']
        d = self.date
        c = [lambda: ['val', oid, d()], lambda: ['val', oid, d()],
             lambda: ['vals', oid, [d() for _ in range(3)]],
             lambda: ['dom', oid], lambda: ['item', oid, d()],
             lambda: ['in', oid, d()], lambda: ['kwargs', oid],
             lambda: ['str', oid]]
        if cls != 'Curve':
            c += [lambda: ['origin', oid], lambda: ['dcount', oid, d(), d()]]
            if rng.random() < .3:
                c += [lambda: ['integrate', oid, d(0, 60), d(90)],
                      lambda: ['derivative', oid, d(0)]]
        if rng.random() < .1:
            c += [lambda: ['table', oid]]
        if rng.random() < .4:
            c += [lambda: ['rtab', oid, *self.grids(self.anyhow)]]
        if cls in ('Curve', 'DateCurve') and rng.random() < .2:
            c += [lambda: ['shifted', oid, rng.randint(0, 40) or None]]
        if rng.random() < .25:
            c += [lambda: self.recast(oid, cls)]
        if cls in IR:
            c += [lambda: ['df', oid, *self.two()], lambda: ['df', oid, d(0)],
                  lambda: ['df', oid, *self.two()],
                  lambda: ['zero', oid, *self.two()],
                  lambda: ['zero', oid, d(0)],
                  lambda: ['short', oid, d(0)], lambda: ['cash', oid, d(0)],
                  lambda: ['annuity', oid, self.dates(3)]]
            if rng.random() < .3:
                c += [lambda: ['cash', oid, d(0), rng.choice((1, 3, 6))],
                      lambda: ['cast', oid, rng.choice(self.castable())]]
        elif cls in CREDIT:
            c += [lambda: ['surv', oid, *self.two()],
                  lambda: ['surv', oid, d(0)],
                  lambda: ['inten', oid, *self.two()],
                  lambda: ['inten', oid, d(0)], lambda: ['haz', oid, d(0)]]
            if rng.random() < .2:
                c += [lambda: ['cast', oid, rng.choice(
                    ('SurvivalProbabilityCurve', 'FlatIntensityCurve',
                     'DefaultProbabilityCurve', 'HazardRateCurve',
                     'MarginalSurvivalProbabilityCurve',
                     'MarginalDefaultProbabilityCurve'))]]
        elif cls in VOL:
            if rng.random() < .15:
                c += [lambda: ['cast', oid, rng.choice(VOL)]]
            c += [lambda: ['tvol', oid, *self.two()],
                  lambda: ['tvol', oid, d(0)],
                  lambda: ['ivol', oid, d(0)]]
        elif cls in ('ForwardCurve', 'FxForwardCurve'):
            c += [lambda: ['fwd', oid, d()], lambda: ['fwd', oid, d()]]
        return rng.choice(c)()

    def two(self):
        a = self.date(0)
        return a, a if self.rng.random() < .06 else self.date(0)

    def grids(self, order=sorted):
        """dates and periods of a table"""
        rng = self.rng
        xs = order(sorted(set(self.dates(rng.randint(1, 4)))))
        ys = order(sorted({rng.choice((0, 1, 10, 31, 45, 92, 100))
                           for _ in range(rng.randint(1, 3))}))
        return xs, ys

    def recast(self, oid, cls):
        """a curve made of another one, on its dates or on others"""
        rng = self.rng
        ns = None
        if rng.random() < .6:
            ns = sorted({self.date(0) for _ in range(rng.randint(1, 3))})
        to = [['Curve', 'DateCurve', 'ForwardCurve'], ['Curve']][
            cls == 'Curve']
        if cls in IR and rng.random() < .7:
            to = self.castable() if ns is None else [
                'ZeroRateCurve', 'ZeroRateCurve', 'DiscountFactorCurve',
                'ShortRateCurve']
        elif cls in CREDIT and ns and rng.random() < .7:
            to = ('SurvivalProbabilityCurve', 'FlatIntensityCurve',
                  'DefaultProbabilityCurve', 'HazardRateCurve')
        elif cls in VOL and ns and rng.random() < .7:
            to = VOL[:1]
        return ['recast', oid, rng.choice(to), ns,
                [self.date(0) for _ in range(3)]]

    def vdate(self):
        return self.rng.choice((None, 0, 0, 10, 30, 45))

    def disc(self):
        return self.pick(self.of(*IR) + self.of('duck'))

    def qq_list(self, oid, s):
        rng = self.rng
        d = self.disc()
        c = [lambda: ['flows', oid], lambda: ['flow', oid, self.date(0)],
             lambda: ['lorigin', oid], lambda: ['ltab', oid],
             lambda: ['prates', oid]]
        if s['cls'] != 'CashFlowLegList':
            c += [lambda: ['call', oid]]
        if s['cls'] in ('RateCashFlowList', 'ContingentRateCashFlowList',
                        'OptionCashflowList', 'OptionStrategyCashflowList'):
            c += [lambda: self.payoff(oid, s)]
        if 'rate' in s and s['cls'].endswith('List'):
            c += [lambda: ['frate', oid]]
        c += [lambda: ['accrued', oid, self.date(0)]]
        if rng.random() < .2:
            c += [lambda: ['ytm', oid, 0, r6(rng.uniform(50, 150))],
                  lambda: ['fixedcast', oid, rng.choice((None, 0, 5))]]
        if d:
            c += [lambda: ['pv', oid, d, self.vdate()]] * 4
            if rng.random() < .5:
                c += [lambda: self.solver(oid, s, d)]
        return rng.choice(c)()

    def payoff(self, oid, s):
        rng = self.rng
        js = [None] + self.of('model')
        if 'Rate' in s['cls']:
            js += self.of(*IR)
        if s['cls'] == 'RateCashFlowList':
            js += self.of('OptionCashflowList')
        return [rng.choice(('pay', 'pdet')), oid,
                rng.randrange(len(s['pay'])), rng.choice(js)]

    def solver(self, oid, s, d):
        rng = self.rng
        c = [lambda: ['bpv', oid, d, self.vdate(), self.delta()],
             lambda: ['bucket', oid, d, self.vdate(), self.delta(),
                      self.dates(3) or None if rng.random() < .3 else None]]
        if s['cls'] in ('RateCashFlowList', 'ContingentRateCashFlowList'):
            c += [lambda: ['fair', oid, d, self.vdate(),
                           r6(rng.uniform(-1, 1))]] * 2
        if s['cls'] in ('RateCashFlowList', 'FixedCashFlowList'):
            c += [lambda: ['ytm', oid, 0, r6(rng.uniform(50, 150))]]
        if self.objs[d]['t'] == 'curve' and self.objs[d]['cls'] in IR[:1]:
            c += [lambda: ['fit', [oid], d, 0, self.pick(self.of(*IR)),
                           self.anyhow(self.dates(2, 30))
                           if rng.random() < .5 else None,
                           r6(rng.uniform(-5, 5))]]
        v = self.of('TerminalVolatilityCurve')
        if v and s['cls'].startswith('Option'):
            c += [lambda: ['fit', [oid], d, 0, self.pick(v),
                           [max(s['pay'])], r6(rng.uniform(.5, 8.)),
                           [1e-4, .5]]] * 2
        return rng.choice(c)()

    def anyhow(self, ns):
        if self.rng.random() < .3:
            self.rng.shuffle(ns)
        return ns

    def delta(self):
        rng = self.rng
        ids = self.of(*IR)
        x = rng.random()
        if x < .4 or not ids:
            return None
        if x < .7:
            return self.pick(ids)
        return sorted(rng.sample(ids, min(len(ids), 2)))

    def qq_model(self, oid, s):
        rng = self.rng
        n = self.date(40)
        k = rng.choice((None, r6(rng.uniform(80, 120)),
                        r6(rng.uniform(.005, .05))))
        q = rng.choice(('mcall', 'mcall', 'mput', 'delta', 'pdelta', 'gamma',
                        'vega', 'theta', 'mdetails', 'mval') + self.more_greeks)
        return [q, oid] if q == 'mval' else [q, oid, n, k]

    def qq_fx(self, oid, s):
        rng = self.rng
        cc = [s['base']] + sorted({a[0] for a in s['adds']})
        a, b = rng.choice(cc), rng.choice(cc)
        return rng.choice((
            ['fx', oid, a, b, self.date(0)], ['fxc', oid, a, b, self.date(0)],
            ['fxc', oid, a, b, 0], ['fxkeys', oid],
            ['fxdict', oid, a, self.date(0)]))
