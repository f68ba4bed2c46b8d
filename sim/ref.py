"""Executable reference model: answers every query from the *specs* of a world
(its current data) by the documented rules of each kind of object, without any
dcf code.  `Undefined` is raised where no rule defines the answer.

Dates are plain numbers: day numbers, or years for worlds of float dates.
"""
import datetime
from copy import copy
from math import exp, log, sqrt, erf, pi, sin, isfinite

from .refcurve import DEFAULT, LOG, RATES, Undefined, interp
from .world import BASE, IR, CREDIT, VOL, ONE_MINUS

RATE = IR + CREDIT + VOL
YEAR = 365.25
BASE_ORD = BASE.toordinal()
STEP_DC = {None: 365.25, 'act365': 365., 'act360': 360., 'SIMDC': 364.}
FWD = 'ForwardCurve', 'FxForwardCurve'


def cdf(x):
    return .5 * (1. + erf(x / sqrt(2.)))


def cdf_used():
    """the package's own approximation of the normal distribution function (if
    it is one), to judge formulas built on it to rounding"""
    try:
        from dcf.models.distibutions import normal_cdf
        ok = all(abs(normal_cdf(x / 64.) - cdf(x / 64.)) < 2e-7
                 for x in range(-600, 601))
    except Exception:
        ok = False
    if not ok:
        return cdf, 1.

    def used(x):
        y = normal_cdf(x)
        return y if abs(y - cdf(x)) < 2e-7 else cdf(x)
    return used, 1e-5


CDF, LOOSE = cdf_used()
MID = 'AAA AA A BBB BB B CCC CC C D'.split()
SCALES = {'MID': MID, 'LONG': [k + s for k in MID[:-1]
                               for s in ('+', '', '-')] + ['D']}


def pdf(x):
    return exp(-.5 * x * x) / sqrt(2. * pi)


def closed(d):
    """weekends and TARGET holidays"""
    if d.weekday() > 4 or (d.month, d.day) in ((1, 1), (5, 1), (12, 25),
                                              (12, 26)):
        return True
    # Easter by Oudin
    y = d.year
    g, c = y % 19, y // 100
    h = (c - c // 4 - (8 * c + 13) // 25 + 19 * g + 15) % 30
    i = h - (h // 28) * (1 - (29 // (h + 1)) * ((21 - g) // 11))
    j = (y + y // 4 + i + 2 - c + c // 4) % 7
    k = i - j
    m = 3 + (k + 40) // 44
    easter = datetime.date(y, m, k + 28 - 31 * (m // 4))
    return (d - easter).days in (-2, 1)


def plans(n, kind, amount=1., rate=.01):
    if kind == 'same':
        return [amount] * n
    if kind == 'bullet':
        return [0.] * (n - 1) + [amount]
    if kind == 'amortize':
        return [amount / n] * n
    if kind == 'annuity':
        # equal sums of redemption and interest on what is left
        if not rate:
            return [amount / n] * n
        x = amount * rate / (1. - (1. + rate) ** -n)
        out, left = [], amount
        for _ in range(n):
            out.append(x - left * rate)
            left -= out[-1]
        return out
    if kind == 'consumer':
        return [(amount + amount * rate * n) / n] * n
    raise Undefined(kind)


class Cal(object):
    """date arithmetics of a kind of dates"""

    def __init__(self, kind):
        self.kind = kind

    def d(self, n):
        if n is None:
            return None
        return float(n) / 360. if self.kind == 'float' else n

    def months(self, x, m):
        k = self.kind
        if k == 'float':
            return x + m / 12.
        if k != 'bd':
            return x + 30 * m
        d = BASE + datetime.timedelta(x)
        y, mm = divmod(d.year * 12 + d.month - 1 + m, 12)
        nxt = datetime.date(y + (mm == 11), (mm + 1) % 12 + 1, 1)
        last = (nxt - datetime.timedelta(1)).day
        return (datetime.date(y, mm + 1, min(d.day, last)) - BASE).days

    def days(self, x, k):
        return x + k / 360. if self.kind == 'float' else x + k

    def adjust(self, x, conv='mod_follow', hols=None):
        """business day conventions; holidays of TARGET if not given"""
        if self.kind != 'bd' or conv == 'no':
            return x

        def month(n):
            return (BASE + datetime.timedelta(n)).month

        def shut(n):
            d = BASE + datetime.timedelta(n)
            return closed(d) if hols is None else \
                d.weekday() > 4 or n in hols

        def roll(n, sign):
            while shut(n):
                n += sign
            return n
        sign = -1 if 'previous' in conv else 1
        y = roll(x, sign)
        if conv.startswith('mod') and month(y) != month(x):
            y = roll(x, -sign)
        return y

    def shift(self, x, sign=1):
        """x + '1D'"""
        if self.kind in ('float', 'date', 'dt'):
            raise Undefined('period string')
        return x + sign

    def year(self, a, b, dc=None):
        d = b - a
        if self.kind == 'float':
            return d * 365. / 360. if dc == 'act360' else d
        return d / STEP_DC[dc]

    def num(self, x):
        if self.kind == 'float':
            return x
        if self.kind == 'sim':
            return x / YEAR
        return (BASE_ORD + x) / YEAR - 2010.


class Num(object):
    """a flat number in place of a curve"""

    def __init__(self, v):
        self.v = v


class Fn(object):
    def __init__(self, cal, level, slope, label=''):
        self.cal, self.level, self.slope = cal, level, slope

    def __call__(self, x):
        return self.level * (1. + self.slope * sin(self.cal.num(x)))


class Duck(object):
    def __init__(self, ref, spec):
        self.cal = ref.cal
        self.o = ref.cal.d(spec['origin'])
        self.rate = spec['rate']
        self.dom = [ref.cal.d(n) for n in spec.get('dom', ())] or [self.o]
        self.spread = None

    def df(self, a, b):
        s = self.spread.v(b) if self.spread is not None else 0.
        return exp(-(self.rate + s) * (self.cal.num(b) - self.cal.num(a)))


class Cv(object):
    """a curve"""

    def __init__(self, ref, spec):
        self.ref = ref
        cal = self.cal = ref.cal
        cls = self.cls = spec['cls']
        self.it = spec.get('interp') or DEFAULT.get(cls, 'linear_scheme')
        self.dc = spec.get('dc')
        self.tenor = spec.get('tenor')
        self.fix = {}
        self.spread = None
        if cls == 'Curve':
            self.pts = {n / 360.: v for n, v in
                        zip(spec['dom'], spec['data'])}
            self.o = None
            self.order = list(self.pts)
            for n, v in spec.get('sets', ()):
                self.pts[n / 360.] = v
            return
        if spec.get('cast') is not None:
            src = Cv(ref, spec['cast'])
            self.cast(src, spec)
        else:
            w = (lambda v: 1. - v) if cls in ONE_MINUS else (lambda v: v)
            self.pts = {cal.d(n): w(v) for n, v in
                        zip(spec['dom'], spec['data'])}
            self.order = list(self.pts)
            self.o0 = cal.d(spec.get('origin'))
        for n, v in spec.get('sets', ()):
            self.o0 = self.order[0] if self.o0 is None else self.o0
            self.pts[cal.d(n)] = v
        self.o = self.order[0] if self.o0 is None else self.o0
        self.fix = {cal.d(int(n)): v for n, v in spec.get('fix', {}).items()}
        if spec.get('spread') is not None:
            self.spread = ref.get(spec['spread'])
        if cls == 'ForwardCurve':
            self.yc = ref.get(spec['yield']) if 'yield' in spec else Num(0.)
        if cls == 'FxForwardCurve':
            self.yc = ref.get(spec.get('domc')), ref.get(spec.get('forc'))

    @classmethod
    def raw(cls, ref, name, pts, origin=None, dc=None, it=None):
        c = cls.__new__(cls)
        c.ref, c.cal, c.cls = ref, ref.cal, name
        c.it = it or DEFAULT.get(name, 'linear_scheme')
        c.dc, c.tenor, c.fix, c.spread = dc, None, {}, None
        c.pts = dict(pts)
        c.order = list(c.pts)
        c.o0 = origin
        c.o = c.order[0] if origin is None else origin
        return c

    @property
    def dom(self):
        return sorted(self.pts)

    def cast(self, src, spec):
        cal, cls = self.cal, self.cls
        if spec.get('origin') is not None or spec.get('dc'):
            raise Undefined('cast with arguments')
        self.o0, self.dc = src.o, src.dc
        if spec.get('dom') is not None:
            dom = [cal.d(n) for n in spec['dom']]
        else:
            dom = list(src.order) + [x for x in src.dom
                                     if x not in src.order]
            extra = []
            if cls == 'DiscountFactorCurve':
                extra = [cal.shift(src.o), cal.shift(max(dom))]
            elif cls in ('SurvivalProbabilityCurve',
                         'DefaultProbabilityCurve',
                         'MarginalSurvivalProbabilityCurve',
                         'MarginalDefaultProbabilityCurve'):
                extra = [cal.shift(src.o), self.plus('1y', max(dom))]
            elif cls in CREDIT:
                extra = [self.plus('1y', max(dom))]
            elif cls == 'TerminalVolatilityCurve':
                extra = [cal.shift(src.o), self.plus('10y', max(dom))]
            elif cls == 'CashRateCurve':
                if self.tenor is None:
                    self.tenor = src.tenor
                m = src.months() if self.tenor is None else self.tenor
                for x in dom:
                    while src.o < x:
                        extra.append(x)
                        x = cal.months(x, -m)
                extra = extra or dom[:1]
            elif cls == 'InstantaneousVolatilityCurve':
                raise Undefined('cast')
            if extra or cls == 'CashRateCurve':
                dom = sorted(set(dom + extra))
        self.order = dom
        st = {'DiscountFactorCurve': lambda x: src.df(src.o, x),
              'ZeroRateCurve': lambda x: src.zero(src.o, x),
              'ShortRateCurve': src.short, 'CashRateCurve': src.cash,
              'SurvivalProbabilityCurve': lambda x: src.df(src.o, x),
              'FlatIntensityCurve': lambda x: src.zero(src.o, x),
              'HazardRateCurve': src.hazard,
              'TerminalVolatilityCurve': src.tvol}.get(cls)
        if st is None:
            raise Undefined('cast')
        self.pts = {x: st(x) for x in dom}
        if self.it in LOG and min(self.pts.values()) <= 0.:
            raise Undefined('logarithm of nothing')

    def plus(self, per, x):
        if self.cal.kind in ('float', 'date', 'dt'):
            raise Undefined('period string')
        return self.cal.months(x, {'1y': 12, '10y': 120}[per])

    def months(self):
        if self.tenor is not None:
            return self.tenor
        if self.cal.kind in ('float', 'date', 'dt'):
            raise Undefined('period string')
        return 12 if self.cls in CREDIT else 3

    def year(self, a, b):
        return self.cal.year(a, b, self.dc)

    # -- values ----------------------------------------------------------------
    def base(self, x):
        """interpolated points"""
        if self.cls == 'Curve':
            return interp(self.it, list(self.pts.items()), x)
        if x in self.pts and self.it not in RATES:
            return self.pts[x]
        return interp(self.it, [(self.year(self.o, k), y)
                                for k, y in self.pts.items()],
                      self.year(self.o, x))

    def v(self, x):
        if self.cls in FWD:
            return self.fwd(x)
        y = self.fix[x] if x in self.fix else self.base(x)
        if self.spread is not None:
            y += self.spread.v(x)
        return y

    def fwd(self, x):
        last = max(self.pts)
        if x in self.fix:
            return self.fix[x]
        if x <= last:
            return self.base(x)
        p = self.fix[last] if last in self.fix else self.base(last)
        y = self.yc
        if self.cls == 'FxForwardCurve':
            return p * y[0].df(last, x) / y[1].df(last, x)
        if y is None:
            return p
        if isinstance(y, Num):
            return p / exp(-self.year(last, x) * y.v)
        if isinstance(y, Fn):
            return p / (y(x) / y(last))
        return p / y.df(last, x)

    # -- rates -------------------------------------------------------------------
    def df(self, a, b):
        """discount factor, survival probability"""
        c = self.cls
        if c in ('DiscountFactorCurve', 'SurvivalProbabilityCurve',
                 'DefaultProbabilityCurve'):
            if a == self.o:
                return self.v(b)
            if a == b and self.v(a) > 0:
                return 1.
            return self.v(b) / self.v(a)
        if c.startswith('Marginal'):
            if a == b:
                self.pos(self.v(a))
                return 1.
            x, df, m = a, 1., self.months()
            while self.cal.months(x, m) < b:
                df *= self.pos(self.v(x))
                x = self.cal.months(x, m)
            p = self.pos(self.v(x))
            return df * p ** (self.year(x, b)
                              / self.year(x, self.cal.months(x, m)))
        if a == b:
            return 1.
        return exp(-self.zero(a, b) * self.year(a, b))

    @staticmethod
    def pos(p):
        if p < 1e-300:
            raise Undefined('probability')
        return p

    def zero(self, a, b):
        """zero rate, flat intensity"""
        c = self.cls
        if c in ('ZeroRateCurve', 'FlatIntensityCurve'):
            if a == self.o:
                return self.v(b)
            if a == b:
                return self.zero(a, self.cal.shift(a))
            return (self.v(b) * self.year(self.o, b)
                    - self.v(a) * self.year(self.o, a)) / self.year(a, b)
        if c in ('ShortRateCurve', 'HazardRateCurve'):
            if a == b:
                return self.v(a)
            x, s = a, 0.
            nxt = self.cal.shift(x)
            while nxt < b:
                s += self.v(x) * self.year(x, nxt)
                x, nxt = nxt, self.cal.shift(nxt)
            s += self.v(x) * self.year(x, b)
            return s / self.year(a, b)
        if c == 'CashRateCurve':
            if a == b:
                return self.v(a)
            x, df, m = a, 1., self.months()
            nxt = self.cal.months(x, m)
            while nxt < b:
                df /= 1. + self.v(x) * self.year(x, nxt)
                x, nxt = nxt, self.cal.months(nxt, m)
            df /= 1. + self.v(x) * self.year(x, b)
            return self.rate(df, a, b)
        if a == b == self.o and not c.startswith('Marginal'):
            later = [x for x in self.pts if self.o < x]
            if not later:
                raise Undefined('no point')
            b = min(later)
        if a == b:
            b = self.cal.shift(a)
        return self.rate(self.df(a, b), a, b)

    def rate(self, df, a, b):
        if df <= 0.:
            raise Undefined('log')
        return -log(df) / self.year(a, b)

    def short(self, x):
        """short rate, hazard rate by node intervals"""
        if self.cls in ('ShortRateCurve', 'HazardRateCurve'):
            return self.v(x)
        marg = self.cls.startswith('Marginal')
        lo, hi = min(self.pts), max(self.pts)
        if lo == hi and not marg:
            return self.zero(x, self.cal.shift(x))
        if x < lo:
            return self.short(lo)
        if hi <= x:
            if marg:
                return self.zero(hi, self.cal.shift(hi))
            return self.short(self.cal.shift(hi, -1))
        return self.zero(max(d for d in self.pts if d <= x),
                         min(d for d in self.pts if x < d))

    hazard = short

    def cash(self, x, m=None):
        if m is None:
            stop = self.cal.months(x, self.months())
        else:
            stop = self.cal.months(x, m)
        if self.cls == 'CashRateCurve' and \
                stop == self.cal.months(x, self.months()):
            return self.v(x)
        return (1. / self.df(x, stop) - 1.) / self.year(x, stop)

    def annuity(self, xs):
        return sum(self.df(self.o, e) * self.year(s, e)
                   for s, e in zip(xs[:-1], xs[1:]))

    # -- volatility ----------------------------------------------------------------
    def tvol(self, a, b=None):
        if self.cls == 'InstantaneousVolatilityCurve':
            if b is None:
                a, b = self.o, a
            if a == b:
                return self.v(a)
            if a > b:
                return 0.
            return self.integrate(a, b)
        if b is None:
            return self.v(a)
        if a == self.o:
            return self.v(b)
        if a == b:
            b = self.cal.shift(a)
        if a > b:
            return 0.
        var = (self.year(self.o, b) * self.v(b) ** 2
               - self.year(self.o, a) * self.v(a) ** 2) / self.year(a, b)
        floor = self.ref.flags.get('FLOOR')
        if floor is not None:
            var = max(var, floor ** 2)
        elif abs(var) < 1e-14:
            raise Undefined('variance close to zero')
        elif var < 0.:
            return ZeroDivisionError
        return sqrt(var)

    def ivol(self, a):
        if self.cls == 'InstantaneousVolatilityCurve':
            return self.v(a)
        return self.tvol(a, self.cal.shift(a))

    G = ((-.9061798459386640, .2369268850561891),
         (-.5384693101056831, .4786286704993665), (0., .5688888888888889),
         (.5384693101056831, .4786286704993665),
         (.9061798459386640, .2369268850561891))

    def jumps(self):
        """accuracy of adaptive quadrature of a curve which jumps"""
        t = 0.
        if self.it.endswith(('constant', 'left', 'right', 'nearest')) \
                or self.it.startswith('zero'):
            v = list(self.pts.values()) + [0.] * self.it.startswith('zero')
            t = .05 * (max(v) - min(v))
        return t + (0. if self.spread is None else self.spread.jumps())

    def integrate(self, a, b):
        if a == b:
            raise Undefined('empty')
        y = self.year
        s, e = y(self.o, a), y(self.o, b)
        sg = 1.
        if e < s:
            s, e, sg = e, s, -1.
        p = sorted((y(self.o, k), v) for k, v in self.pts.items())
        xs = [x for x, _ in p]
        xs += [.5 * (u + w) for u, w in zip(xs[:-1], xs[1:])]
        cut = sorted({s, e}.union(x for x in xs if s < x < e))
        t = 0.
        if self.it in LOG:      # may fall by magnitudes between two points
            cut = [u + k * (w - u) / 16 for u, w in zip(cut[:-1], cut[1:])
                   for k in range(16)] + cut[-1:]
        for u, w in zip(cut[:-1], cut[1:]):
            h = .5 * (w - u)
            t += h * sum(g * interp(self.it, p, .5 * (u + w) + h * z)
                         for z, g in self.G)
        r = sg * t / y(a, b)
        if self.spread is not None and self.cls in RATE:
            r += self.spread.integrate(a, b)
        return r


class Flow(object):
    """a payoff"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Ls(object):
    """a cashflow list"""

    def __init__(self, ref, spec):
        self.ref, self.cal = ref, ref.cal
        self.spec = spec
        c = self.cls = spec['cls']
        d = self.cal.d
        self.legs = None
        if c == 'CashFlowLegList':
            self.legs = [ref.obj(i) for i in spec['legs']]
        elif c in ('bond', 'interest_rate_swap'):
            self.legs = self.product(spec)
        if self.legs is not None:
            self.pay = sorted(set().union(*[x.pay for x in self.legs]))
            self.o = min(x.o for x in self.legs)
            return
        if spec.get('raw'):
            d = (lambda x: x)
        self.pay = [d(n) for n in spec['pay']]
        self.o0 = d(spec.get('origin'))
        self.o = self.pay[0] if self.o0 is None else self.o0
        self.fwd = ref.get(spec.get('fwd'))
        self.model = ref.get(spec.get('model'))
        self.flows = self.build(spec)
        for i, over in spec.get('over', {}).items():
            f = self.flows[int(i)]
            for a, v in over.items():
                if a in ('start', 'end', 'expiry'):
                    v = d(v)
                setattr(f, a, v)

    def build(self, s):
        c, k = self.cls, len(self.pay)
        amt = s.get('amt')
        amts = amt if isinstance(amt, list) else [amt] * k
        off = (lambda x, j: self.cal.days(x, -j) if j else x)
        if c == 'CashFlowList':
            return [Flow('num', amount=a) for a in amts]
        if c == 'FixedCashFlowList':
            return [Flow('fixed', amount=a) for a in amts]
        if c in ('RateCashFlowList', 'ContingentRateCashFlowList'):
            if self.o0 is not None:
                starts = [self.o0] + self.pay[:-1]
            elif k > 1:
                if self.cal.kind == 'bd':
                    raise Undefined('step of business dates')
                step = self.pay[1] - self.pay[0]
                starts = [self.pay[0] - step] + self.pay[:-1]
            else:
                starts = self.pay
            po, dc = s.get('payoff'), s.get('dc')
            return [Flow('rate' if c[0] == 'R' else 'crate',
                         start=off(x, po), end=off(e, po), amount=a,
                         day_count=None if dc == 'SIMDC' else dc,
                         fixing_offset=s.get('fixoff'), fixed_rate=s['rate'],
                         cap_strike=s.get('cap'), floor_strike=s.get('floor'))
                    for x, e, a in zip(starts, self.pay, amts)]
        if c == 'OptionCashflowList':
            ks, ps = s['strike'], s['put']
            ks = ks if isinstance(ks, list) else [ks] * k
            ps = ps if isinstance(ps, list) else [ps] * k
            return [Flow('option', amount=a, strike=q, is_put=p, expiry=off(
                         off(x, s.get('payoff')), s.get('fixoff')))
                    for x, a, q, p in zip(self.pay, amts, ks, ps)]
        if c == 'OptionStrategyCashflowList':
            return [Flow('strategy', expiry=off(
                off(x, s.get('payoff')), s.get('fixoff')), opts=[
                (a, q, False) for a, q in zip(s['camt'], s['cstrike'])] + [
                (a, q, True) for a, q in zip(s['pamt'], s['pstrike'])])
                for x in self.pay]
        if c == 'ContingentCashFlowList':
            return [Flow('num', amount=p) if isinstance(p, (int, float))
                    else Flow('duck', amount=p['duck'])
                    for p in s['payoffs']]
        raise Undefined(c)

    def product(self, s):
        cal = self.cal
        if cal.kind == 'sim':
            raise Undefined('calendar')
        n0, n1 = cal.d(s['start']), cal.d(s['end'])

        def sched(m):
            ns, k = [n1], 1
            while cal.months(n1, -m * k) > n0 + 1e-12:
                ns.insert(0, cal.months(n1, -m * k))
                k += 1
            return [cal.adjust(x, s.get('conv', 'mod_follow'), s.get('hols'))
                    for x in ns]

        def leg(cls, pay, amt, **kw):
            return Ls(self.ref, dict(t='list', cls=cls, pay=pay, amt=amt,
                                     origin=n0, raw=True, **kw))
        dc = s.get('dc')
        p1 = sched(s['period'])
        offs = {k: s[k] for k in ('fixoff', 'payoff') if s.get(k)}
        if self.cls == 'bond':
            if s.get('plan'):
                amt = plans(len(p1), *s['plan'])
            else:
                amt = s['amt']
            if not isinstance(amt, list):
                return [leg('FixedCashFlowList', [n0, n1], [-amt, amt]),
                        leg('RateCashFlowList', p1, amt, rate=s['rate'],
                            dc=dc, fwd=s.get('fwd'), **offs)]
            if len(amt) != len(p1):
                raise Undefined('refused')
            left = [sum(amt[k:]) for k in range(len(amt))]
            return [leg('FixedCashFlowList', [n0] + p1, [-left[0]] + amt),
                    leg('RateCashFlowList', p1, left, rate=s['rate'], dc=dc,
                        fwd=s.get('fwd'), **offs)]
        return [leg('RateCashFlowList', p1, -s['amt'], rate=s['rate'], dc=dc,
                    fwd=s.get('fwd'), **offs),
                leg('RateCashFlowList', sched(s['period2']), s['amt'],
                    rate=s.get('rate2') or 0., dc=dc, fwd=s.get('fwd2'),
                    **offs)]

    # -- flows -----------------------------------------------------------------
    def forward(self, fc, x):
        if fc is None or isinstance(fc, Num) and not fc.v:
            return None
        if isinstance(fc, Num):
            return fc.v
        if isinstance(fc, Fn):
            return fc(x)
        if isinstance(fc, Cv):
            return fc.cash(x) if fc.cls in IR else fc.v(x)
        raise Undefined('forward')

    def flow(self, f, val=None, rate=None):
        """amount of a payoff; val: valuation date put into the model"""
        k, m = f.kind, self.model
        if k in ('num', 'fixed'):
            return f.amount
        if k == 'duck':
            v = val if val is not None else (m.val if m else None)
            t = 0. if v is None else self.cal.num(v)
            return f.amount * exp(-.03 * t)
        if k in ('rate', 'crate'):
            yf = self.cal.year(f.start, f.end, f.day_count)
            x = f.start
            if f.fixing_offset:
                x = self.cal.days(x, -f.fixing_offset)
            fc = self.fwd if k == 'rate' else (m.fwd if m else None)
            fw = self.forward(fc, x)
            r = f.fixed_rate if rate is None else rate
            cf = (r + (fw or 0.)) * yf * f.amount
            if k == 'crate' and m is not None:
                if fw is None:
                    raise Undefined('no forward')
                if f.floor_strike is not None:
                    cf += m.put(x, f.floor_strike, val) * yf * f.amount
                if f.cap_strike is not None:
                    cf -= m.call(x, f.cap_strike, val) * yf * f.amount
            return cf
        if m is None:
            raise Undefined('no model')
        if k == 'option':
            return f.amount * (m.put if f.is_put else m.call)(
                f.expiry, f.strike, val)
        return sum(a * (m.put if p else m.call)(f.expiry, q, val)
                   for a, q, p in f.opts)

    def at(self, x):
        if self.legs is not None:
            return sum(leg.at(x) for leg in self.legs if x in leg.pay)
        if x not in self.pay:
            return 0.
        return self.flow(self.flows[self.pay.index(x)])

    def values(self, disc, v, rate=None):
        """discounted flows"""
        if self.legs is not None:
            return sum((leg.values(disc, v, rate) for leg in self.legs), [])
        if self.model is None and self.cls not in (
                'CashFlowList', 'FixedCashFlowList', 'RateCashFlowList'):
            raise Undefined('no model')
        return [disc.df(v, t) * self.flow(f, v, rate)
                for t, f in zip(self.pay, self.flows) if v <= t]

    def pv(self, disc, v, rate=None):
        return sum(self.values(disc, v, rate))

    def gross(self, disc, v, rate=None):
        return sum(map(abs, self.values(disc, v, rate)))

    def accrued(self, v):
        if self.legs is not None:
            return sum(leg.accrued(v) for leg in self.legs)
        ac = 0.
        for t, f in zip(self.pay, self.flows):
            if v <= t and f.kind in ('rate', 'crate') and f.start < v:
                if v > f.end:
                    raise Undefined('after the period')
                y = self.cal.year
                tot = y(f.start, f.end, f.day_count)
                if not tot:
                    raise Undefined('empty period')
                ac += self.flow(f) * (1. - y(v, f.end, f.day_count) / tot)
        return ac


class Formula(object):
    """the user's option formula: mean of max(u - k, 0) for u uniform"""

    def price(self, t, k, f, s):
        w = s * (abs(t) + 1e-9) ** .5 * (
            3. ** .5 * abs(f) if s < 1. else 1.)
        if w <= 0.:
            return max(f - k, 0.)
        x = min(max((f + w - k) / (2 * w), 0.), 1.)   # chance of u > k
        return x * ((f + w + max(k, f - w)) / 2 - k)


class Md(object):
    """an option model"""

    def __init__(self, ref, spec):
        self.ref, self.cal = ref, ref.cal
        self.cls = spec['cls']
        self.val = ref.cal.d(spec.get('val'))
        self.fwd = ref.get(spec.get('fwd'))
        self.vol = ref.get(spec.get('vol'))
        self.dc = spec.get('dc')
        if self.dc == 'SIMDC':
            self.dc = None
        self.bump = spec.get('bump')
        self.disp = spec.get('disp') or 0.
        if self.cls == 'Binary':
            self.inner = Formula() if spec['inner'] == 'formula' \
                else ref.get(spec['inner'])
            self.h = .0001 if spec.get('shift') is None else spec['shift']
            self.bump = True
            if isinstance(self.inner, Md):
                # taken from the inner model where not given
                for k in ('val', 'fwd', 'vol', 'dc'):
                    if getattr(self, k) is None:
                        setattr(self, k, getattr(self.inner, k))

    def tsfv(self, x, k, val=None):
        t, k, f, s = self.raw(x, k, val)
        return max(t, 0.), k, f, s   # expired: worth its payoff

    def raw(self, x, k, val=None):
        f, fc, vc = 0., self.fwd, self.vol
        if isinstance(fc, Num):
            f = fc.v
        elif isinstance(fc, Fn):
            f = fc(x)
        elif isinstance(fc, Cv):
            f = fc.cash(x) if fc.cls in IR else fc.v(x)
        k = f if k is None else k
        s = 0.
        if isinstance(vc, Num):
            s = vc.v
        elif isinstance(vc, Fn):
            s = vc(x)
        elif isinstance(vc, Cv):
            s = vc.tvol(x) if vc.cls in VOL else vc.v(x)
        val = self.val if val is None else val
        if val is None:
            raise Undefined('no valuation date')
        if self.dc:
            t = self.cal.year(val, x, self.dc)
        elif isinstance(vc, Cv):
            t = vc.year(val, x)
        elif isinstance(fc, Cv):
            t = fc.year(val, x)
        else:
            t = self.cal.year(val, x)
        return t, k, f, s

    def price(self, t, k, f, s):
        c = self.cls
        if c.startswith('Intrinsic'):
            return max(f - k, 0.)
        if c.startswith('BinaryIntrinsic'):
            return 1. if f > k else 0.
        if c == 'SimModel':
            t = abs(t) + 1e-9
        if t <= 0. or s <= 0.:
            raise Undefined('time or volatility')
        if c == 'Binary':
            h = self.h
            return (self.inner.price(t, k - h / 2, f, s)
                    - self.inner.price(t, k + h / 2, f, s)) / h
        k, f = k + self.disp, f + self.disp
        s = s * sqrt(t)
        if 'Log' in c:
            if f <= 0. or k <= 0.:
                raise Undefined('log')
            d = log(f / k) / s + s / 2
            if c.startswith('Binary'):
                return CDF(d - s)
            return f * CDF(d) - k * CDF(d - s)
        d = (f - k) / s
        if c.startswith('Binary'):
            return CDF(d)
        return (f - k) * CDF(d) + s * pdf(d)

    def call(self, x, k=None, val=None):
        t, k, f, s = self.tsfv(x, k, val)
        if not s or not t:
            if self.cls.startswith('Binary'):
                return 0. if f <= k else 1.
            return max(f - k, 0.)
        return self.price(t, k, f, s)

    def put(self, x, k=None, val=None):
        if self.cls.startswith('Binary'):
            return 1. - self.call(x, k, val)
        t, k, f, s = self.tsfv(x, k, val)
        if not s or not t:
            return max(k - f, 0.)
        return k - f + self.price(t, k, f, s)

    def greek(self, name, x, k):
        """-> value, tolerance"""
        t, k, f, s = self.tsfv(x, k)
        c, g = self.cls, self.ref.flags.get
        h, e = g('DELTA_SHIFT', 1e-4), g('DELTA_SCALE', 1e-4)
        hv, ev = g('VEGA_SHIFT', .01), g('VEGA_SCALE', .01)
        ht, et = g('THETA_SHIFT', 1 / YEAR), g('THETA_SCALE', 1 / YEAR)
        if not s or not t:
            if name == 'delta' and not c.startswith('Binary'):
                return (0. if f < k else e), 1e-15
            return 0., 1e-15
        if c == 'Binary':
            raise Undefined('noise')
        if c.startswith('BinaryIntrinsic'):
            if self.bump:
                raise Undefined('jump')
            return 0., 1e-15
        p = self.price
        ana = not self.bump
        size = max(abs(f), abs(k), abs(self.disp))
        tol = 2e-6 * LOOSE * (size + s)  # accuracy of the cdf in use, twice
        fine = 1e-13 * size * (1. + .1 / (s * sqrt(abs(t)))) + 1e-15
        if LOOSE == 1.:
            fine = 1e-7 * size + 1e-10
        if t <= 0.:
            raise Undefined('time')
        if 'Log' in c and min(f, k) + self.disp <= 0.:
            raise Undefined('log')
        if name == 'delta':
            if ana and not c.startswith(('Binary',)):
                if c.startswith('Intrinsic'):
                    return (0. if f < k else e), 1e-15
                z = s * sqrt(t)
                if 'Log' in c:
                    a, b = f + self.disp, k + self.disp
                    return cdf(log(a / b) / z + z / 2) * e, 1e-6 * e
                return cdf((f - k) / z) * e, 1e-6 * e
            if ana:
                a, b, z = f + self.disp, k + self.disp, s * sqrt(t)
                if 'Log' not in c:
                    return pdf((a - b) / z) / z * e, 1e-6 * e
                return pdf(log(a / b) / z - z / 2) / (z * a) * e, 1e-6 * e
            return (p(t, k, f + h, s) - p(t, k, f, s)) * e / h, \
                (1e-7 * h + fine) * e / h
        if name == 'gamma':
            if c == 'BinaryNormalOptionPayOffModel' and ana:
                z = s * sqrt(t)
                d = (f - k) / z
                return -d * pdf(d) / z / z * e * e, 1e-6 * e * e / z / z
            if c.startswith(('Binary', 'Intrinsic')):
                raise Undefined('gamma')
            if c in ('NormalOptionPayOffModel', 'SimModel') and ana:
                z = s * sqrt(t)
                return pdf((f - k) / z) / z * e * e, 1e-4 * e * e
            return (p(t, k, f + h, s) - 2 * p(t, k, f, s)
                    + p(t, k, f - h, s)) * (e / h) ** 2, fine * (e / h) ** 2
        if name == 'vega':
            if ana and c.startswith('Binary'):
                a, b, z = f + self.disp, k + self.disp, s * sqrt(t)
                if 'Log' not in c:
                    d = (a - b) / z
                    return -d * pdf(d) / s * ev, 1e-7 * ev / s
                d = log(a / b) / z + z / 2
                return -d * pdf(d - z) / s * ev, 1e-7 * ev / s
            if ana and 'Log' in c:
                a, b, z = f + self.disp, k + self.disp, s * sqrt(t)
                d = log(a / b) / z + z / 2
                return a * sqrt(t) * pdf(d) * ev, 1e-7 * ev * abs(a)
            if c.startswith('Intrinsic'):
                return 0., 1e-15
            if ana:
                return sqrt(t) * pdf((f - k) / (s * sqrt(t))) * ev, 1e-7 * ev
            return (p(t, k, f, s + hv) - p(t, k, f, s)) * ev / hv, \
                tol * ev / hv
        if name == 'theta':
            return (p(t + ht, k, f, s) - p(t, k, f, s)) * et / ht, \
                tol * et / ht
        raise Undefined(name)


class Fx(object):
    """triangulation of spots, forwards by both discount curves"""

    def __init__(self, ref, spec):
        self.ref = ref
        self.base = spec['base']
        self.spot = {self.base: 1.}
        self.curve = {self.base: ref.get(spec['domc'])}
        for ccy, r, s in spec['adds']:
            self.spot[ccy] = s
            self.curve[ccy] = ref.get(r)
        self.o = ref.get(spec['domc']).o

    def fwd(self, d, f, x):
        s = self.spot[f] / self.spot[d]
        if x <= self.o:
            return s
        return s * self.curve[d].df(self.o, x) / self.curve[f].df(self.o, x)


class Ref(object):
    """answers queries; `ask(q)` -> (kind, payload)"""

    def __init__(self, world):
        self.cal = Cal(world['kind'])
        self.objs = world['objs']
        self.flags = world.get('flags', {})
        self.cache = {}

    def obj(self, oid):
        oid = str(oid)
        if oid not in self.cache:
            s = self.objs[oid]
            self.cache[oid] = {'curve': Cv, 'list': Ls, 'model': Md,
                               'fx': Fx, 'duck': Duck,
                               'rating': lambda _, s: s,
                               'price': lambda _, s: s}[s['t']](self, s)
        return self.cache[oid]

    def get(self, r):
        if r is None:
            return None
        if isinstance(r, (int, float)):
            return Num(float(r))
        if 'ref' in r:
            return self.obj(r['ref'])
        if 'fn' in r:
            return Fn(self.cal, *r['fn'])
        return Cv(self, r['spec'])

    # -- checks: (query, real outcome) -> None or what is wrong ----------------
    def check(self, q, out):
        """-> 'ok', 'undefined' or a description of the difference"""
        f = getattr(self, 'x_' + q[0], None)
        if f is None:
            return 'undefined'
        try:
            r = f(out, *q[1:])
        except (Undefined, ZeroDivisionError, OverflowError):
            return 'undefined'
        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
            if out[0] == 'exc':
                raise
            return 'answers %.200r, which has another form' % (out[1],)
        return r or 'ok'

    @staticmethod
    def num(out, want, rel=1e-8, tol=1e-11):
        if isinstance(want, type):
            if out[0] == 'exc' and out[1] == want.__name__:
                return
            return 'gives %s, the rules demand %s' % (out, want.__name__)
        if not isfinite(want):
            raise Undefined('overflow')
        if out[0] == 'exc':
            return 'raises %s, the rules give %r' % (out[1], want)
        got = out[1]
        if not isinstance(got, float) or \
                abs(got - want) > max(tol, rel * max(abs(got), abs(want))):
            return 'gives %r, the rules give %r' % (got, want)

    def d(self, n):
        return self.cal.d(n)

    def key(self, c, n):
        return n / 360. if c.cls == 'Curve' else self.cal.d(n)

    def rel(self, c):
        return 1e-8

    def x_val(self, out, i, n):
        c = self.obj(i)
        return self.num(out, c.v(self.key(c, n)))

    def x_vals(self, out, i, ns):
        c = self.obj(i)
        want = [c.v(self.key(c, n)) for n in ns]
        return self.seq(out, want)

    def seq(self, out, want, rel=1e-8, tol=1e-11):
        if out[0] == 'exc':
            return 'raises %s, the rules give %s' % (out[1], want)
        if len(out[1]) != len(want):
            return 'gives %d values, the rules give %d' % (
                len(out[1]), len(want))
        for k, (a, b) in enumerate(zip(out[1], want)):
            r = self.num(['ok', a], b, rel, tol)
            if r:
                return 'at %d: %s' % (k, r)

    def se(self, c, a, b):
        return (c.o, self.d(a)) if b is None else (self.d(a), self.d(b))

    def x_item(self, out, i, n):
        c = self.obj(i)
        x = self.key(c, n)
        return self.num(out, c.v(x) if x in c.pts else KeyError)

    def x_rtab(self, out, i, xs, ys):
        c = self.obj(i)
        xs = [self.key(c, n) for n in xs]
        one = c.cls == 'Curve' or self.cal.kind == 'float'
        ys = [y / 360. if one else y for y in ys]
        want = []
        for k, x in enumerate(xs):
            end = xs[k + 1] if k + 1 < len(xs) else x + ys[-1] * 2
            if any(abs(x + y - end) < 1e-9 for y in ys) and one:
                raise Undefined('rounding')
            want.append([c.v(x + y) for y in ys if x + y < end])
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        if out[1][0] != len(ys) + 1 or len(out[1]) != len(xs) + 1:
            return 'has the wrong size'
        for k, (x, row) in enumerate(zip(xs, out[1][1:])):
            if (row[0] if one else self.date(row[0])) != x:
                return 'has row %s for %s' % (row[0], x)
            r = self.seq(['ok', row[1:]], want[k])
            if r:
                return 'row %d %s' % (k, r)

    def x_comp(self, out, i, name, *args):
        a, t = args[:2]
        m = {'annually': 1, 'semi': 2, 'quarterly': 4, 'monthly': 12,
             'daily': 365}.get(name.split('_')[0])
        if name.endswith('_rate'):
            # a rate which compounds to the factor
            if out[0] == 'exc':
                return 'raises %s' % out[1]
            r = out[1]
            if name == 'simple_rate':
                f = 1. / (1. + r * t)
            elif name == 'continuous_rate':
                f = exp(-r * t)
            else:
                f = (1. + r / args[2]) ** (-t * args[2])
            return None if abs(f - a) < 1e-9 else \
                'gives %r, which compounds to %r' % (r, f)
        m = m or (args[2] if name == 'periodic_compounding' else None)
        if m:
            want = exp(-t * m * log(1. + a / m))
        elif name == 'simple_compounding':
            want = 1. / (1. + a * t)
        else:
            want = exp(-a * t)
        return self.num(out, want)

    def x_plan(self, out, i, name, *args):
        if name != 'outstanding':
            return self.seq(out, plans(args[0], name, *args[1:]), 1e-8, 1e-8)
        plan, amount, sign = args
        s = 1 if sign else -1
        return self.seq(out, [amount + s * sum(plan[:k])
                              for k in range(len(plan))], 1e-8, 1e-8)

    def x_itp(self, out, i, name, xs, ys, x, way):
        p = list(zip(xs, ys))
        def one(name):
            return interp('S:loglinear' if name == 'loglinear'
                          else 'C:' + name, p, x)
        if name == 'flat':
            want = ys[0]
        elif name in ('default', 'no'):
            want = dict(p).get(x, 42. if name == 'default' else None)
        elif isinstance(name, list):
            # by itself (between the ends), with right (beyond), with left
            inside = min(xs) <= x <= max(xs)
            if len(name) == 1:
                name = ['constant', name[0], 'constant']
            elif len(name) == 2:
                name = [name[1]] + name
            want = one(name[1] if inside else
                       name[0] if x < min(xs) else name[2])
        else:
            want = one(name)
        if want is None:
            return None if out == ['ok', None] else 'gives %s' % (out,)
        return self.num(out, want)

    def x_bad(self, out, i, *args):
        if out[0] != 'exc':
            return 'accepts what does not fit together'

    def x_in(self, out, i, n):
        c = self.obj(i)
        want = ['ok', self.key(c, n) in c.pts]
        if out != want:
            return 'gives %s, the rules give %s' % (out, want)

    def x_sprd(self, out, i, n):
        c = self.obj(i)
        if c.spread is None:
            return None if out == ['ok', None] else 'gives %s' % (out,)
        return self.num(out, c.spread.v(self.d(n)))

    def x_kwargs(self, out, i):
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        c = self.obj(i)
        w = (lambda v: 1. - v) if c.cls in ONE_MINUS else (lambda v: v)
        got = sorted([x if c.cls == 'Curve' else self.date(x), y]
                     for x, y in out[1][0])
        if [x for x, _ in got] != c.dom:
            return 'domain %s, the rules give %s' % (got, c.dom)
        return self.seq(['ok', [y for _, y in got]],
                        [w(c.v(x)) for x in c.dom])

    def x_alg(self, out, i, op, j):
        a, b = self.obj(i), self.obj(j)
        if a.cls != 'Curve' or b.cls != 'Curve' or a.it != b.it:
            # kept for the comparison with fresh objects
            raise Undefined('algebra of date curves')
        xs = sorted(set(a.pts) | set(b.pts))
        f = {'+': lambda u, v: u + v, '-': lambda u, v: u - v,
             '*': lambda u, v: u * v, '/': lambda u, v: u / v}[op]
        want = [f(a.v(x), b.v(x)) for x in xs]
        if 'log' in a.it and min(want) <= 0.:
            raise Undefined('log')
        if out[0] == 'exc':
            return 'raises %s, the rules give %s' % (out[1], want)
        c, order = out[1]
        if c['domain'] != xs or order != xs:
            return 'domain %s, the rules give %s' % (order, xs)
        return self.seq(['ok', c['data']], want)

    def x_df(self, out, i, a, b=None):
        c = self.obj(i)
        return self.num(out, c.df(*self.se(c, a, b)))

    x_surv = x_df

    def tau_tol(self, c, a, b):
        """rates are quotients by the length of the period"""
        t = abs(c.year(a, b)) if a != b else 1 / 400.
        return 1e-11 + 1e-14 / max(t, 1e-4)

    def x_zero(self, out, i, a, b=None):
        c = self.obj(i)
        a, b = self.se(c, a, b)
        return self.num(out, c.zero(a, b), tol=self.tau_tol(c, a, b))

    x_inten = x_zero

    def x_short(self, out, i, a):
        c = self.obj(i)
        return self.num(out, c.short(self.d(a)), tol=1e-10)

    x_haz = x_short

    def x_cash(self, out, i, a, step=None):
        return self.num(out, self.obj(i).cash(self.d(a), step), tol=1e-10)

    def x_annuity(self, out, i, ns):
        return self.num(out, self.obj(i).annuity([self.d(n) for n in ns]))

    def x_tvol(self, out, i, a, b=None):
        c = self.obj(i)
        r, t = (1e-8, 1e-7)
        if c.cls == 'InstantaneousVolatilityCurve':
            r, t = 1e-3, 1e-4 + c.jumps()
        return self.num(out, c.tvol(self.d(a), self.d(b)), r, t)

    def x_ivol(self, out, i, a):
        return self.num(out, self.obj(i).ivol(self.d(a)), 1e-7, 1e-7)

    def x_fwd(self, out, i, a):
        return self.num(out, self.obj(i).fwd(self.d(a)))

    def x_integrate(self, out, i, a, b):
        if a == b:
            raise Undefined('empty')
        c = self.obj(i)
        if c.it == 'C:zero':
            raise Undefined('origin')
        return self.num(out, c.integrate(self.d(a), self.d(b)), 2e-3,
                        1e-4 + c.jumps())

    def x_derivative(self, out, i, a):
        c = self.obj(i)
        a = self.d(a)
        b = self.cal.shift(a)
        return self.num(out, (c.v(b) - c.v(a)) / c.year(a, b), 1e-6, 1e-7)

    def x_origin(self, out, i):
        return None if self.date(out[1]) == self.obj(i).o else \
            'gives %s' % (out,)

    def date(self, x):
        if isinstance(x, float):
            return x
        if isinstance(x, list) and len(x) == 2 and x[0] == 'd':
            if isinstance(x[1], str):
                y = x[1].replace('-', '')
                d = datetime.date(int(y[:4]), int(y[4:6]), int(y[6:8]))
                return (d - BASE).days
            return int(x[1])
        return None

    def x_dom(self, out, i):
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        c = self.obj(i)
        got = [x if c.cls == 'Curve' else self.date(x) for x in out[1]]
        if got != c.dom:
            return 'domain %s, the rules give %s' % (got, c.dom)

    def x_dcount(self, out, i, a, b):
        return self.num(out, self.obj(i).year(self.d(a), self.d(b)))

    def x_cast(self, out, i, cls, ns=None):
        src = self.objs[i]
        spec = {'cls': cls, 'cast': src, 'dom': ns}
        try:
            c = Cv(self, spec)
        except RecursionError:
            raise Undefined('recursion')
        if out[0] == 'exc':
            return 'raises %s, the rules give a curve' % out[1]
        got = [self.date(x) for x in out[1]['domain']]
        if got != c.dom:
            return 'domain %s, the rules give %s' % (got, c.dom)
        r, t = 1e-7, 1e-9
        if src['cls'] in VOL:
            r, t = (1e-7, 1e-7) if src['cls'] == VOL[0] else \
                (1e-3, 1e-4 + self.obj(i).jumps())
        return self.seq(['ok', out[1]['data']], [c.v(x) for x in c.dom], r, t)

    def x_shifted(self, out, i, k):
        c = self.obj(i)
        if c.it in LOG:
            raise Undefined('logarithm')
        xs = c.dom
        if k is not None:
            k = self.d(k) if c.cls != 'Curve' else k / 360.
            xs = [x + k for x in xs]
        if out[0] == 'exc':
            return 'raises %s, the rules give a curve' % out[1]
        got = [self.date(x) for x in out[1][0]]
        if len(got) != len(xs) or any(abs(a - b) > 1e-9
                                      for a, b in zip(got, xs)):
            return 'domain %s, the rules give %s' % (got, xs)
        return self.seq(['ok', out[1][1]], [c.v(x) for x in xs], 1e-7, 1e-9)

    def x_recast(self, out, i, cls, ns, ds):
        src, s = self.objs[i], self.obj(i)
        one = s.cls == 'Curve'
        key = (lambda n: n / 360.) if one else self.d
        if cls in IR + CREDIT + VOL:
            try:
                c = Cv(self, {'cls': cls, 'cast': src, 'dom': ns})
            except RecursionError:
                raise Undefined('recursion')
        else:
            xs = s.dom if ns is None else [key(n) for n in ns]
            it = src.get('interp')
            if src.get('cast') is None and not it and \
                    src['cls'] == 'Curve':
                it = None
            at = (lambda x: s.year(s.o, x)) if cls == 'Curve' and not one \
                else (lambda x: x)
            c = Cv.raw(self, cls, {at(x): s.v(x) for x in xs},
                       None if one else s.o, None if one else s.dc, it)
            c.yc = Num(0.)
            if c.it in LOG and min(c.pts.values()) <= 0.:
                raise Undefined('logarithm of nothing')
        xs = [key(n) for n in ds]
        want = [c.v(s.year(s.o, x) if cls == 'Curve' and not one else x)
                for x in xs]
        if cls in IR + CREDIT and cls != 'CashRateCurve' and \
                not cls.startswith('Marg'):
            want.append(c.df(*xs[:2]))
        if out[0] == 'exc':
            return 'raises %s, the rules give a curve' % out[1]
        got, o, vals = out[1]
        if cls == 'Curve':
            if len(got) != len(c.pts) or any(
                    abs(a - b) > 1e-9 for a, b in zip(got, c.dom)):
                return 'domain %s, the rules give %s' % (got, c.dom)
        else:
            got = [self.date(x) for x in got]
            if got != c.dom:
                return 'domain %s, the rules give %s' % (got, c.dom)
            if self.date(o) != c.o:
                return 'origin %s, the rules give %s' % (o, c.o)
        r, t = 1e-7, 1e-9
        if src['cls'] in VOL:
            r, t = (1e-7, 1e-7) if src['cls'] == VOL[0] else \
                (1e-3, 1e-4 + self.obj(i).jumps())
        return self.seq(['ok', vals], want, r, t)

    # lists
    def opts(self, ls):
        """amount of cashflows priced by a normal distribution"""
        if ls.legs is not None:
            return sum(self.opts(x) for x in ls.legs)
        if not ls.model or ls.model.cls.startswith('Intr'):
            return 0.
        t = 0.
        bn = 1e5 if ls.model.cls == 'Binary' else 1.
        for f in ls.flows:
            if f.kind == 'crate':
                t += abs(f.amount) * 3
            elif f.kind == 'option':
                t += abs(f.amount) * 300 * bn
            elif f.kind == 'strategy':
                t += sum(abs(o[0]) for o in f.opts) * 300 * bn
        return t * 2e-7 * LOOSE

    def x_flow(self, out, i, n):
        x = self.obj(i)
        return self.num(out, x.at(self.d(n)), 1e-8, 1e-9 + self.opts(x))

    def x_flows(self, out, i):
        x = self.obj(i)
        return self.seq(out, [x.at(t) for t in x.pay], 1e-8,
                        1e-9 + self.opts(x))

    def x_pay(self, out, i, k, j=None):
        x, m = self.obj(i), None if j is None else self.obj(j)
        f = x.flows[k]
        y = copy(x)
        y.model = y.fwd = None
        if f.kind in ('rate', 'crate') and isinstance(m, Cv):
            f = copy(f)
            f.kind, y.fwd = 'rate', m
        elif f.kind == 'rate' and m is not None:
            m = m.model if isinstance(m, Ls) else m
            y.fwd = m.fwd if m else None
        elif f.kind in ('option', 'strategy') and m is None:
            return self.num(out, 0.)
        else:
            y.model = m
        y.flows = [f]
        return self.num(out, y.flow(f), 1e-8, 1e-9 + self.opts(y))

    def x_pdet(self, out, i, k, j=None):
        if out[0] == 'exc':
            return self.x_pay(out, i, k, j)
        got, f = out[1], self.obj(i).flows[k]
        if f.kind in ('rate', 'crate'):
            want = {'notional': f.amount, 'fixed rate': f.fixed_rate,
                    'year fraction': self.cal.year(f.start, f.end,
                                                   f.day_count)}
            words = {'pay/rec': 'pay' if f.amount > 0 else 'rec'}
            dates = {'start date': f.start, 'end date': f.end}
        elif f.kind == 'option':
            want = {'notional': f.amount, 'strike': f.strike}
            words = {'put/call': 'put' if f.is_put else 'call',
                     'long/short': 'long' if f.amount > 0 else 'short'}
            dates = {'expiry date': f.expiry}
        else:
            want, words, dates = {}, {}, {}
        for key, v in want.items():
            r = self.num(['ok', got[key]], v)
            if r:
                return '%s %s' % (key, r)
        for key, v in words.items():
            if got[key] != v:
                return '%s is %s, not %s' % (key, got[key], v)
        for key, v in dates.items():
            if abs(self.date(got[key]) - v) > 1e-9:
                return '%s is %s' % (key, got[key])
        return self.x_pay(['ok', got['cashflow']], i, k, j)

    def x_call(self, out, i):
        x = self.obj(i)
        want = [x.at(t) for t in x.pay]
        if out[0] == 'exc':
            return 'raises %s, the rules give %s' % (out[1], want)
        if [self.date(t) for t in out[1]['domain']] != x.pay:
            return 'domain %s' % out[1]['domain']
        return self.seq(['ok', out[1]['flows']], want, 1e-8,
                        1e-9 + self.opts(x))

    def x_fixedcast(self, out, i, o=None):
        if o is None:
            return self.x_call(out, i)
        x = self.obj(i)
        want = [self.d(o)] + x.pay, [x.at(t) for t in x.pay]
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        got = [self.date(t) for t in [out[1][0]] + out[1][1]]
        if len(got) != len(want[0]) or any(
                abs(a - b) > 1e-9 for a, b in zip(got, want[0])):
            return 'has dates %s, not %s' % (got, want[0])
        return self.seq(['ok', out[1][2]], want[1], 1e-8, 1e-9 + self.opts(x))


    def x_frate(self, out, i):
        x = self.obj(i)
        want = {f.fixed_rate for f in x.flows}
        want = ['ok', want.pop() if len(want) == 1 else None]
        if out != want:
            return 'gives %s, set is %s' % (out, want)

    def x_prates(self, out, i):
        x = self.obj(i)
        want = ['ok', [None] * len(x.pay) if x.legs is not None else
                [getattr(f, 'fixed_rate', None) for f in x.flows]]
        if out != want:
            return 'gives %s, set is %s' % (out, want)

    def x_ltab(self, out, i):
        """the table shows the cashflows, periods and rates of the list"""
        x = self.obj(i)
        want = [x.at(t) for t in x.pay]
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        head, rows = out[1][0], out[1][1:]
        if len(rows) != len(want):
            return '%d rows for %d cashflows' % (len(rows), len(want))
        tol = 1e-9 + self.opts(x)
        for k, (row, cf) in enumerate(zip(rows, want)):
            row = dict(zip(head, row))
            r = self.num(['ok', row['cashflow']], cf, 1e-8, tol)
            if r:
                return 'row %d: cashflow %s' % (k, r)
            if self.date(row['pay date']) != x.pay[k]:
                return 'row %d: pay date %s' % (k, row['pay date'])
            if x.legs is not None or x.flows[k].kind not in ('rate',
                                                             'crate'):
                continue
            f = x.flows[k]
            if self.date(row['start date']) != f.start or \
                    self.date(row['end date']) != f.end:
                return 'row %d: period %s %s, set is %s %s' % (
                    k, row['start date'], row['end date'], f.start, f.end)
            for key, v in (('fixed rate', f.fixed_rate), (
                    'notional', f.amount), ('year fraction', self.cal.year(
                        f.start, f.end, f.day_count))):
                r = self.num(['ok', row[key]], v)
                if r:
                    return 'row %d: %s %s' % (k, key, r)

    def x_lorigin(self, out, i):
        x = self.obj(i)
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        o, dom = self.date(out[1][0]), [self.date(t) for t in out[1][1]]
        if o != x.o or dom != x.pay:
            return 'gives %s %s, the rules give %s %s' % (o, dom, x.o, x.pay)

    def disc(self, d, v):
        c = self.obj(d)
        return c, c.o if v is None else self.d(v)

    def pv_tol(self, x, disc, v):
        return 1e-9 + 1e-9 * x.gross(disc, v) + self.opts(x) * 3

    def x_pv(self, out, i, d, v=None):
        x = self.obj(i)
        c, v = self.disc(d, v)
        return self.num(out, float(x.pv(c, v)), 1e-8, self.pv_tol(x, c, v))

    def x_accrued(self, out, i, v):
        x = self.obj(i)
        return self.num(out, x.accrued(self.d(v)), 1e-8,
                        1e-9 + self.opts(x))

    # solvers
    def solved(self, out, err, lo, hi, x, gross, slack):
        """a solution reprices, a refusal needs no change of sign"""
        fa, fb = err(lo), err(hi)
        sure = slack + 1e-9 * (abs(fa) + abs(fb))
        if out[0] == 'exc':
            if out[1] != 'AssertionError':
                return 'raises %s' % out[1]
            if min(fa, fb) < -sure and max(fa, fb) > sure:
                return 'raises %s, but the target is between the values ' \
                    'at the bounds (%r and %r)' % (out[1], fa, fb)
            return
        r = out[1]
        if not isinstance(r, float):
            return 'gives %r' % r
        if not lo - 1e-6 <= r <= hi + 1e-6:
            return 'gives %r out of bounds' % r
        if min(fa, fb) > sure or max(fa, fb) < -sure:
            return 'gives %r, but the target %s the values at the bounds ' \
                '(differences %r and %r)' % (r, 'is not between', fa, fb)
        e = err(r)
        w = abs(err(min(hi, r + 2e-7)) - err(max(lo, r - 2e-7)))
        if abs(e) > slack + w + 2e-7:
            return 'gives %r which misses the target by %r' % (r, e)

    def x_fair(self, out, i, d, v=None, pv=0.):
        x = self.obj(i)
        c, v = self.disc(d, v)
        return self.solved(out, lambda r: x.pv(c, v, r) - pv, -.1, .2, x,
                           0., self.pv_tol(x, c, v))

    def x_ytm(self, out, i, v, pv):
        x = self.obj(i)
        v = self.d(v)

        def flat(r):
            return Cv.raw(self, 'ZeroRateCurve', {v: r})

        return self.solved(out, lambda r: x.pv(flat(r), v) - pv, -.1, .2, x,
                           0., self.pv_tol(x, flat(-.1), v))

    def deltas(self, d, dd):
        ids = [d] if dd is None else dd if isinstance(dd, list) else [dd]
        return [self.obj(j) for j in ids]

    def shifted(self, x, c, v, curves, sp):
        if any(k.spread is not None and not isinstance(k, Duck)
               for k in curves):
            return None
        old = [k.spread for k in curves]
        try:
            for k in curves:
                k.spread = sp(k)
            return x.pv(c, v)
        finally:
            for k, s in zip(curves, old):
                k.spread = s

    def bumped(self, out, i, d, v, dd, sp, shift):
        x = self.obj(i)
        c, v = self.disc(d, v)
        cs = self.deltas(d, dd)
        p0 = x.pv(c, v)
        h = abs(shift)
        tol = (2e-12 * x.gross(c, v) + self.opts(x) * (.01 + 100 * h)
               + 1e-12) / h * 1e-4 + 1e-9
        res = []
        for f in sp:
            p1 = self.shifted(x, c, v, cs, f)
            if p1 is None:
                res.append(TypeError)
            else:
                res.append((p1 - p0) / shift * .0001)
        return res, tol

    def x_bpv(self, out, i, d, v=None, dd=None, shift=.0001):
        sp = [lambda k: Cv.raw(self, 'DateCurve', {k.o: shift})]
        (r,), tol = self.bumped(out, i, d, v, dd, sp, shift)
        return self.num(out, r, 1e-5, tol)

    def x_bucket(self, out, i, d, v=None, dd=None, grid=None):
        g = [self.d(n) for n in grid] if grid else \
            sorted({t for c in self.deltas(d, dd) for t in c.dom})
        h = .0001

        def tri(j):
            pts = {t: (h if t == g[j] else 0.) for t in
                   g[max(0, j - 1):j + 2]}
            return lambda k: Cv.raw(self, 'DateCurve', pts)
        sp = [tri(j) for j in range(len(g))]
        res, tol = self.bumped(out, i, d, v, dd, sp, h)
        if TypeError in res:
            return self.num(out, TypeError)
        return self.seq(out, res, 1e-5, tol)

    def x_fit(self, out, ii, d, v=None, c=None, grid=None, pv=0.,
              bounds=(-.1, .2)):
        """a fitted curve reprices every instrument it was fitted to last"""
        disc, v = self.disc(d, v)
        fc = disc if c is None else self.obj(c)
        if fc.spread is not None:
            return self.num(out, TypeError)
        if fc.cls not in ('ZeroRateCurve', 'CashRateCurve',
                          'TerminalVolatilityCurve'):
            raise Undefined('kind of spread')
        if grid:
            g = [self.d(n) for n in grid]
        else:
            g = list(fc.order) + [k for k in fc.dom if k not in fc.order]
        g0, g = g, sorted(g)
        if out[0] == 'exc':
            return self.refused(out, ii, disc, v, fc, g, pv, bounds)
        if len(out[1]) != len(g):
            return 'gives %d values for %d dates' % (len(out[1]), len(g))
        got = dict(zip(g0, out[1]))
        pvs = pv if isinstance(pv, list) else [pv] * len(ii)
        base = [fc.v(k) for k in g]
        sprd = Cv.raw(self, fc.cls, {k: got[k] - b for k, b in
                                     zip(g, base)}, dc=fc.dc)
        lists = [self.obj(i) for i in ii]
        fc.spread = sprd

        def err(t):
            # the instruments covered by a date of the grid
            return sum(x.pv(disc, v) - p for x, p in zip(lists, pvs)
                       if max(x.pay) <= t)
        try:
            slack = sum(x.gross(disc, v) for x in lists) * 1e-7 + 1e-6 \
                + sum(map(self.opts, lists)) * 3
            for k, t in enumerate(g):
                e = err(t)
                if abs(e) <= slack or self.later(sprd, g[k + 1:], err, t, e):
                    continue
                if not self.jump(fc, sprd, t, lists, pvs, disc, v):
                    return 'gives %s which misses the target at %r by %r' % (
                        out[1], t, e)
                fc.spread = sprd
        finally:
            fc.spread = None

    @staticmethod
    def later(sprd, g, err, t, e):
        """instruments depend on later points of the fitted curve, too"""
        for x in g:
            y = sprd.pts[x]
            sprd.pts[x] = y + .01
            try:
                if abs(err(t) - e) > 1e-12:
                    return True
            finally:
                sprd.pts[x] = y
        return False

    def refused(self, out, ii, disc, v, fc, g, pv, bounds):
        """refuses only if the bounds enclose no solution at some date"""
        if fc.cls == 'CashRateCurve' or g != sorted(g) or \
                out[1] != 'AssertionError':
            raise Undefined('no fit')
        if len(g) * len(ii) > 12:
            raise Undefined('effort')
        lists = [self.obj(i) for i in ii]
        pvs = pv if isinstance(pv, list) else [pv] * len(ii)
        slack = sum(x.gross(disc, v) for x in lists) * 1e-7 + 1e-6 \
            + sum(map(self.opts, lists)) * 3
        sprd = Cv.raw(self, fc.cls, {k: 0. for k in g}, dc=fc.dc)
        fc.spread = sprd
        try:
            for x in g:
                def err(y):
                    sprd.pts[x] = y
                    return sum(i.pv(disc, v) - p for i, p in zip(lists, pvs)
                               if max(i.pay) <= x)
                a, b = bounds
                fa, fb = err(a), err(b)
                if max(fa, fb) < slack or min(fa, fb) > -slack:
                    return      # no sign change here
                for _ in range(40):
                    m = (a + b) / 2
                    if (err(m) < 0.) == (fa < fb):
                        a = m
                    else:
                        b = m
        finally:
            fc.spread = None
        return 'refuses, the bounds enclose a solution at each date'

    def jump(self, fc, sprd, x, lists, pvs, disc, v):
        """the target lies in a jump at the solution"""
        y, r = sprd.pts[x], []
        fc.spread = sprd
        try:
            for h in (-2e-7, 2e-7):
                sprd.pts[x] = y + h
                r.append(sum(i.pv(disc, v) - p for i, p in zip(lists, pvs)
                             if max(i.pay) <= x))
        finally:
            fc.spread, sprd.pts[x] = None, y
        return r[0] * r[1] <= 0.

    # models
    def mtol(self, m, n, k):
        if m.cls == 'Binary':
            return 2e-2 * max(LOOSE, 1e-4)
        t, k, f, s = m.tsfv(self.d(n), k)
        return 2e-7 * LOOSE * (1. if m.cls.startswith('Binary') else
                       abs(f) + abs(k) + 2 * abs(m.disp) + s)

    def x_mcall(self, out, i, n, k=None):
        m = self.obj(i)
        return self.num(out, m.call(self.d(n), k), 1e-8, self.mtol(m, n, k))

    def x_mput(self, out, i, n, k=None):
        m = self.obj(i)
        return self.num(out, m.put(self.d(n), k), 1e-8, self.mtol(m, n, k))

    def greek(self, name, out, i, n, k, put=False):
        m = self.obj(i)
        g, tol = m.greek(name, self.d(n), k)
        if put and m.cls.startswith('Binary'):
            g = -g
        elif put and name == 'delta':
            g -= self.flags.get('DELTA_SCALE', 1e-4)
        return self.num(out, g, 1e-4, tol)

    def x_delta(self, out, i, n, k=None):
        return self.greek('delta', out, i, n, k)

    def x_pdelta(self, out, i, n, k=None):
        return self.greek('delta', out, i, n, k, True)

    def x_gamma(self, out, i, n, k=None):
        return self.greek('gamma', out, i, n, k)

    def x_vega(self, out, i, n, k=None):
        return self.greek('vega', out, i, n, k)

    def x_theta(self, out, i, n, k=None):
        return self.greek('theta', out, i, n, k)

    def x_pgamma(self, out, i, n, k=None):
        return self.greek('gamma', out, i, n, k, True)

    def x_pvega(self, out, i, n, k=None):
        return self.greek('vega', out, i, n, k, True)

    def x_ptheta(self, out, i, n, k=None):
        return self.greek('theta', out, i, n, k, True)

    def x_mdetails(self, out, i, n, k=None):
        m = self.obj(i)
        t, k, f, s = m.raw(self.d(n), k)
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        got = out[1]
        if self.date(got.get('valuation date')) != m.val:
            return 'valuation date %s, set is %s' % (
                got.get('valuation date'), m.val)
        for a, b in (('time to expiry', t), ('strike', k), ('forward', f),
                     ('volatility', s)):
            if a == 'forward' and m.fwd is None:
                continue
            if a == 'volatility' and m.vol is None:
                continue
            r = self.num(['ok', got.get(a)], b)
            if r:
                return '%s %s' % (a, r)

    def x_mval(self, out, i):
        if out[0] == 'exc' or self.date(out[1]) != self.obj(i).val:
            return 'gives %s, set is %s' % (out, self.obj(i).val)

    # fx
    def x_fx(self, out, i, a, b, n):
        x = self.obj(i)
        if a not in x.spot or b not in x.spot or a == b != x.base:
            raise Undefined('unknown pair')
        return self.num(out, x.fwd(a, b, self.d(n)), 1e-10)

    x_fxc = x_fxagain = x_fx

    def x_fxkeys(self, out, i):
        x = self.obj(i)
        want = sorted([[a, b] for a in x.spot for b in x.spot
                       if a != b or a == x.base])
        if out != ['ok', want]:
            return 'gives %s, the rules give %s' % (out, want)

    def x_fxdict(self, out, i, a, n):
        x = self.obj(i)
        if a not in x.spot:
            raise Undefined('unknown currency')
        want = {b: x.fwd(a, b, self.d(n)) for b in x.spot
                if a != b or a == x.base}
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        if set(out[1]) != set(want):
            return 'gives %s, the rules give %s' % (
                sorted(out[1]), sorted(want))
        for b in want:
            r = self.num(['ok', out[1][b]], want[b], 1e-10)
            if r:
                return '%s: %s' % (b, r)

    # ratings
    def scale(self, i):
        """-> classes by value, value of the rating"""
        s = self.objs[i]
        ms = s.get('ms')
        if ms is None:
            return None, s['value']
        ms = SCALES.get(str(ms), ms)
        if isinstance(ms, dict):
            vals = sorted((v, k) for k, v in ms.items())
        else:
            n = len(ms)
            vals = [(exp(-(n - 1) * log(10) * (1 - k / (n - 1))), x)
                    for k, x in enumerate(ms)]
        return vals, {k: v for v, k in vals}.get(s['value'], s['value'])

    def x_rvec(self, out, i):
        vals, val = self.scale(i)
        if vals is None:
            raise Undefined('no scale')
        return self.weights(out, [v for v, _ in vals], val)

    def weights(self, out, vals, val):
        if not vals[0] - 2e-7 < val < vals[-1] + 2e-7:
            if self.flags.get('SLOPPY'):
                # all weight on the class at the edge
                n = len(vals)
                k = 0 if val < vals[0] else n - 1
                return self.seq(out, [val / vals[k] if i == k else 0.
                                      for i in range(n)], 2e-6, 2e-6 / vals[0]
                                * val if k == 0 else 2e-7)
            return self.num(out, ValueError)
        if min(abs(val - vals[0]), abs(val - vals[-1])) < 2e-7:
            if out[0] == 'exc':
                raise Undefined('edge')
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        w = out[1]
        if len(w) != len(vals):
            return 'gives %d weights for %d classes' % (len(w), len(vals))
        nz = [k for k, u in enumerate(w) if u]
        if abs(sum(w) - 1.) > 1e-6 or any(u < 0 or u > 1 for u in w):
            return 'weights %s do not sum up to one' % w
        # (classes closer than the rounding are one)
        if len(nz) > 2 or len(nz) == 2 and nz[1] != nz[0] + 1:
            return 'weights %s are not on adjacent classes' % w
        e = sum(u * x for u, x in zip(w, vals))
        if abs(e - val) > 1e-6:
            return 'weights %s give %r, not %r' % (w, e, val)

    def inside(self, vals, val):
        """-> if there are weights"""
        if not self.flags.get('SLOPPY'):
            if min(abs(val - vals[0][0]), abs(val - vals[-1][0])) < 2e-7:
                raise Undefined('edge')
            return vals[0][0] < val < vals[-1][0]
        return True

    def text(self, vals, val):
        """what a rating is called"""
        if vals is None:
            return 'RatingClass(%0.7f)' % val
        for v, k in vals:
            if abs(v - val) <= 1e-12 * v:
                if any(x != v and abs(x - v) < 2e-7 for x, _ in vals):
                    raise Undefined('rounding')
                return k
        if any(abs(v - val) < 2e-7 for v, k in vals):
            raise Undefined('rounding')
        return None     # a mix of classes

    def x_rstr(self, out, i):
        vals, val = self.scale(i)
        name = self.text(vals, val)
        if name is None and not self.inside(vals, val):
            return self.num(out, ValueError)
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        s, r, x = out[1]
        if abs(x - val) > 1e-12 * val:
            return 'is worth %r, set is %r' % (x, val)
        if name is None:
            parts = [p.split(' ', 1) for p in s.split(' + ')]
            w = {k: float(u) for u, k in parts}
            r = r[len(s) + 2:]
            if not set(w) <= {k for _, k in vals}:
                return 'is called %r' % s
            return self.weights(['ok', [w.get(k, 0.) for _, k in vals]],
                                [v for v, _ in vals], val)
        if s != name:
            return 'is called %r, not %r' % (s, name)
        if r != (name if vals is None else
                 '[%s]-RatingClass(%0.7f)' % (name, val)):
            return 'is written %r' % r

    def x_rget(self, out, i):
        vals, val = self.scale(i)
        name = self.text(vals, val)
        if vals is None:
            return None if out == ['ok', [val, name, []]] else \
                'gives %s, set is %r' % (out, val)
        if name is None and not self.inside(vals, val):
            return self.num(out, ValueError)
        if out[0] == 'exc':
            return 'raises %s' % out[1]
        v, n, w, *rest = out[1]
        no, classes = rest[-2:]
        if abs(v - val) > 1e-12 * val or name is not None and n != name:
            return 'is %r called %r, set is %r %r' % (v, n, val, name)
        r = self.weights(['ok', w], [v for v, _ in vals], val)
        if r:
            return r
        if no is not None:
            return 'has a class that it has not'
        if len(rest) != len(vals) + 2:
            return 'classes are %s' % rest
        for j, (v, k) in enumerate(vals):
            if all(abs(v - x) > 2e-7 for x, y in vals if y != k):
                x = rest[j]
                if [x[0]] + x[2:] != [k, k, j] or self.seq(
                        ['ok', [x[1], classes[j]]], [v, v]):
                    return 'class %s of %r is %s' % (k, v, x)

    def x_rms(self, out, i):
        vals, _ = self.scale(i)
        if vals is None:
            return None if out == ['ok', None] else 'gives %s' % out
        if out[0] == 'exc' or out[1][0] != [k for _, k in vals]:
            return 'gives %s, set is %s' % (out, vals)
        return self.seq(['ok', out[1][1]], [v for v, _ in vals], 1e-12, 0.)

    def x_price(self, out, i):
        s = self.objs[i]
        if out[0] == 'exc' or out[1][0] != s['value'] \
                or out[1][1] != s['value']:
            return 'gives %s' % (out,)
