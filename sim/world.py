"""World specs: JSON descriptions of every object of a simulated run, how to
build the real dcf objects from them, how to query them and how to compare.

A world is {'kind': date kind, 'objs': {id: spec}}.  A spec always describes
the *current data* of an object, so that `Builder(world).get(id)` constructs a
fresh object holding the same data; that is the reference twin of the live
object which went through the history.
"""
import datetime
import math
from collections import OrderedDict
from copy import deepcopy  # noqa F401

from .collab import (dcf, SimDate, SimInterp, CallFn, DuckDiscount,  # noqa
                     DuckPayoff, DAY_COUNTS, INTERP, MODELS, FORMULA,
                     num)
try:
    import businessdate  # noqa E402
except ImportError:  # the package is optional, and taken away by C09

    class businessdate(object):
        class BusinessDate(object):
            pass

        class BusinessPeriod(object):
            pass

BASE = datetime.date(2016, 12, 31)
KINDS = 'sim', 'bd', 'float', 'date', 'dt'

IR = ('ZeroRateCurve', 'DiscountFactorCurve', 'ShortRateCurve',
      'CashRateCurve')
CREDIT = ('SurvivalProbabilityCurve', 'DefaultProbabilityCurve',
          'FlatIntensityCurve', 'HazardRateCurve',
          'MarginalSurvivalProbabilityCurve',
          'MarginalDefaultProbabilityCurve')
VOL = 'TerminalVolatilityCurve', 'InstantaneousVolatilityCurve'
STEPPERS = ('ShortRateCurve', 'HazardRateCurve')
ONE_MINUS = 'DefaultProbabilityCurve', 'MarginalDefaultProbabilityCurve'
LISTS = ('CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
         'ContingentRateCashFlowList', 'OptionCashflowList',
         'OptionStrategyCashflowList', 'ContingentCashFlowList')


class Env(object):
    """date kind of a run"""

    def __init__(self, kind):
        self.kind = kind

    def d(self, n):
        if n is None:
            return None
        if self.kind == 'sim':
            return SimDate(n)
        if self.kind == 'float':
            return float(n) / 360.
        if self.kind == 'date':
            return BASE + datetime.timedelta(n)
        if self.kind == 'dt':
            return datetime.datetime.combine(
                BASE, datetime.time(9)) + datetime.timedelta(n)
        b = BASE + datetime.timedelta(n)
        return businessdate.BusinessDate(b.year * 10000 + b.month * 100
                                         + b.day)

    def per(self, m):
        """period of m months"""
        if m is None:
            return None
        if self.kind == 'float':
            return m / 12.
        if self.kind in ('date', 'dt'):
            return datetime.timedelta(30 * m)
        if self.kind == 'bd':
            return businessdate.BusinessPeriod('%dM' % m)
        return '%dM' % m

    def days(self, k):
        if k is None:
            return None
        if self.kind == 'float':
            return k / 360.
        if self.kind in ('date', 'dt'):
            return datetime.timedelta(k)
        if self.kind == 'bd':
            return businessdate.BusinessPeriod('%dD' % k)
        return '%dD' % k

    def seq(self, ns, typ='list'):
        s = [self.d(n) for n in ns]
        return tuple(s) if typ == 'tuple' else s


class Builder(object):
    """builds real dcf objects from specs (fresh ones, each date a fresh
    object), resolving references between them"""

    def __init__(self, world, keep_args=False):
        self.env = Env(world['kind'])
        self.objs = world['objs']
        self.flags = world.get('flags', {})
        self.cache = {}
        self.args = {} if keep_args else None  # containers handed to ctors
        # equal containers handed in as one and the same object
        self.pool = {} if keep_args and world.get('shared') else None

    def share(self, kw):
        if self.pool is not None:
            for k, v in kw.items():
                if isinstance(v, (list, dict)):
                    kw[k] = self.pool.setdefault(
                        '%s %s' % (type(v).__name__, canon(v)), v)

    def keep(self, oid, **kw):
        if self.args is not None and oid is not None:
            self.args.setdefault(oid, {}).update(kw)

    def get(self, oid):
        oid = str(oid)
        if oid not in self.cache:
            self.cache[oid] = self.build(self.objs[oid], oid)
        return self.cache[oid]

    def ref(self, r):
        """resolve a reference or inline value"""
        if r is None or isinstance(r, (int, float)):
            return r
        if 'ref' in r:
            return self.get(r['ref'])
        if 'fn' in r:
            return CallFn(*r['fn'])
        if 'spec' in r:
            return self.build(r['spec'], None)
        raise KeyError(r)

    def build(self, spec, oid=None):
        return getattr(self, '_' + spec['t'])(spec, oid)

    # curves
    def _curve(self, spec, oid):
        env = self.env
        cls = getattr(dcf, spec['cls'])
        kw = OrderedDict()
        if spec.get('cast') is not None:
            src = self.build(spec['cast'], None)
            if spec.get('dom') is None:
                kw['domain'] = src
            else:
                kw['domain'] = env.seq(spec['dom'], spec.get('dt', 'list'))
                kw['data'] = src
        elif spec['cls'] == 'Curve':
            kw['domain'] = [n / 360. for n in spec['dom']]
            kw['data'] = list(spec['data'])
            if spec.get('dt') == 'tuple':
                kw = OrderedDict((k, tuple(v)) for k, v in kw.items())
        else:
            kw['domain'] = env.seq(spec['dom'], spec.get('dt', 'list'))
            kw['data'] = list(spec['data'])
        if spec.get('interp'):
            kw['interpolation'] = INTERP[spec['interp']]
        if spec['cls'] != 'Curve':
            if spec.get('origin') is not None:
                kw['origin'] = env.d(spec['origin'])
            if spec.get('dc'):
                kw['day_count'] = DAY_COUNTS[spec['dc']]
        if spec.get('tenor') is not None:
            kw['forward_tenor'] = env.per(spec['tenor'])
        if spec['cls'] == 'ForwardCurve' and 'yield' in spec:
            kw['yield_curve'] = self.ref(spec['yield'])
        if spec['cls'] == 'FxForwardCurve':
            kw['domestic_curve'] = self.ref(spec.get('domc'))
            kw['foreign_curve'] = self.ref(spec.get('forc'))
        self.share(kw)
        self.keep(oid, **{k: kw[k] for k in ('domain', 'data')
                          if isinstance(kw.get(k), list)})
        if spec.get('ctor') and len(spec['dom']) == 1:
            # from a price, or a number and the origin
            p = dcf.Price(spec['data'][0], kw['domain'][0])
            if spec['ctor'] == 'price':
                kw['domain'] = p
                kw.pop('origin', None)
            else:
                kw['domain'], kw['origin'] = spec['data'][0], p.origin
            del kw['data']
        c = cls(**kw)
        for n, v in spec.get('sets', ()):
            c[self.key(spec, n)] = v
        for n, v in spec.get('fix', {}).items():
            c.fixings[env.d(int(n))] = v
        if spec.get('spread') is not None:
            c.spread = self.ref(spec['spread'])
        return c

    def key(self, spec, n):
        return n / 360. if spec['cls'] == 'Curve' else self.env.d(n)

    def _duck(self, spec, oid):
        dc = DuckDiscount(self.env.d(spec['origin']), spec['rate'],
                          self.env.seq(spec.get('dom', ())))
        return dc

    # cashflow lists
    def _list(self, spec, oid):
        env = self.env
        cls = getattr(dcf, spec['cls'])
        c = spec['cls']
        pay = env.seq(spec.get('pay', ()), spec.get('dt', 'list'))
        kw = OrderedDict()
        if c == 'CashFlowLegList':
            legs = [self.get(i) for i in spec['legs']]
            self.keep(oid, legs=legs)
            return cls(legs)
        if c in ('bond', 'interest_rate_swap'):
            kw = dict(start_date=env.d(spec['start']),
                      end_date=env.d(spec['end']),
                      period=env.per(spec['period']),
                      convention=spec.get('conv', 'mod_follow'),
                      notional_amount=spec['amt'],
                      fixed_rate=spec['rate'],
                      forward_curve=self.ref(spec.get('fwd')))
            if spec.get('hols') is not None:
                kw['holidays'] = [env.d(n) for n in spec['hols']]
                if env.kind == 'bd':
                    kw['holidays'] = businessdate.BusinessHolidays(
                        kw['holidays'])
            if spec.get('dc'):
                kw['day_count'] = DAY_COUNTS[spec['dc']]
            if isinstance(spec['amt'], list):
                kw['notional_amount'] = list(spec['amt'])
            if spec.get('plan'):
                # redemptions by a payment plan, one for each coupon
                x = cls(**kw)
                kind, *args = spec['plan']
                kw['notional_amount'] = getattr(dcf.plans, kind)(
                    len(x.legs[1].domain), *args)
            if spec.get('fixoff'):
                kw['fixing_offset'] = env.days(spec['fixoff'])
            if spec.get('payoff'):
                kw['pay_offset'] = env.days(spec['payoff'])
            if c == 'interest_rate_swap':
                kw['rec_leg_period'] = env.per(spec['period2'])
                if spec.get('dc'):
                    kw['rec_leg_day_count'] = DAY_COUNTS[spec['dc']]
                kw['rec_leg_forward_curve'] = self.ref(spec.get('fwd2'))
                if spec.get('rate2') is not None:
                    kw['rec_leg_fixed_rate'] = spec['rate2']
            return cls(**kw)
        amt = spec.get('amt')
        if isinstance(amt, list):
            amt = list(amt)
        kw['payment_date_list'] = pay
        if spec.get('origin') is not None:
            kw['origin'] = env.d(spec['origin'])
        if c in ('CashFlowList', 'FixedCashFlowList'):
            kw['amount_list'] = amt
        elif c in ('RateCashFlowList', 'ContingentRateCashFlowList'):
            kw['amount_list'] = amt
            kw['fixed_rate'] = spec['rate']
            if spec.get('dc') and spec['dc'] != 'SIMDC':
                kw['day_count'] = DAY_COUNTS[spec['dc']]
            if spec.get('fixoff'):
                kw['fixing_offset'] = env.days(spec['fixoff'])
            if spec.get('payoff'):
                kw['pay_offset'] = env.days(spec['payoff'])
            if c == 'RateCashFlowList':
                kw['forward_curve'] = self.ref(spec.get('fwd'))
            else:
                kw['cap_strike'] = spec.get('cap')
                kw['floor_strike'] = spec.get('floor')
                kw['payoff_model'] = self.ref(spec.get('model'))
        elif c == 'OptionCashflowList':
            kw['amount_list'] = amt
            kw['strike_list'] = deepcopy(spec['strike'])
            kw['is_put_list'] = deepcopy(spec['put'])
            if spec.get('fixoff'):
                kw['fixing_offset'] = env.days(spec['fixoff'])
            if spec.get('payoff'):
                kw['pay_offset'] = env.days(spec['payoff'])
            kw['payoff_model'] = self.ref(spec.get('model'))
        elif c == 'OptionStrategyCashflowList':
            if spec.get('fixoff'):
                kw['fixing_offset'] = env.days(spec['fixoff'])
            if spec.get('payoff'):
                kw['pay_offset'] = env.days(spec['payoff'])
            kw['call_amount_list'] = list(spec['camt'])
            kw['call_strike_list'] = list(spec['cstrike'])
            kw['put_amount_list'] = list(spec['pamt'])
            kw['put_strike_list'] = list(spec['pstrike'])
            kw['payoff_model'] = self.ref(spec.get('model'))
        elif c == 'ContingentCashFlowList':
            kw['payoff_list'] = [
                p if isinstance(p, (int, float)) else DuckPayoff(p['duck'])
                for p in spec['payoffs']]
            kw['payoff_model'] = self.ref(spec.get('model'))
        self.share(kw)
        self.keep(oid, **{k: v for k, v in kw.items() if isinstance(v, list)})
        x = cls(**kw)
        for i, attrs in spec.get('over', {}).items():
            p = x.payoff(env.d(spec['pay'][int(i)]))
            for a, v in attrs.items():
                setattr(p, a, self.attr(a, v))
        return x

    def attr(self, a, v):
        """value of a payoff / model attribute"""
        if a in ('start', 'end', 'expiry', 'valuation_date'):
            return self.env.d(v)
        if a == 'day_count':
            return DAY_COUNTS.get(v)
        if a == 'fixing_offset':
            return self.env.days(v)
        if a in ('forward_curve', 'volatility_curve', 'yield_curve',
                 'domestic_curve', 'foreign_curve', 'payoff_model'):
            return self.ref(v)
        return v

    def _model(self, spec, oid):
        cls = MODELS[spec['cls']]
        kw = OrderedDict()
        if spec['cls'] == 'Binary':
            kw['pricing_formula'] = FORMULA() if spec['inner'] == 'formula' \
                else self.ref(spec['inner'])
            if spec.get('shift') is not None:
                kw['strike_shift'] = spec['shift']
        kw['valuation_date'] = self.env.d(spec.get('val'))
        kw['forward_curve'] = self.ref(spec.get('fwd'))
        kw['volatility_curve'] = self.ref(spec.get('vol'))
        if spec.get('dc') and spec['dc'] != 'SIMDC':
            kw['day_count'] = DAY_COUNTS[spec['dc']]
        if spec.get('bump') is not None and spec['cls'] != 'Binary':
            kw['bump_greeks'] = spec['bump']
        if spec.get('disp') is not None:
            kw['displacement'] = spec['disp']
        return cls(**kw)

    def _fx(self, spec, oid):
        x = dcf.FxContainer(spec['base'], self.ref(spec['domc']))
        for ccy, r, spot in spec['adds']:
            x.add(ccy, self.ref(r), spot)
        return x

    def _rating(self, spec, oid):
        ms = spec.get('ms')
        if isinstance(ms, str):
            # the scales of the package
            ms = {'LONG': dcf.ratingclass.LONG_MASTER_SCALE,
                  'MID': dcf.ratingclass.MASTER_SCALE}[ms]
        if isinstance(ms, dict):
            ms = OrderedDict(ms)
        elif isinstance(ms, list):
            ms = list(ms)
        if ms is not None:
            kw = {'ms': ms}
            self.share(kw)
            ms = kw['ms']
            self.keep(oid, ms=ms)
        return dcf.RatingClass(spec['value'], ms)

    def _price(self, spec, oid):
        return dcf.Price(spec['value'], self.env.d(spec['origin']))


# -- canonical results ---------------------------------------------------------

def canon(x, env=None, depth=0):
    """JSON-able canonical form of any result"""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, float)):
        x = float(x)
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        return x
    if isinstance(x, complex):
        return ['complex', x.real, x.imag]
    if isinstance(x, SimDate):
        return ['d', x.n]
    if isinstance(x, businessdate.BusinessDate):
        return ['d', str(x)]
    if isinstance(x, (datetime.date, datetime.timedelta)):
        return ['d', str(x)]
    if isinstance(x, businessdate.BusinessPeriod):
        return ['p', str(x)]
    if isinstance(x, dict):
        return {str(canon(k)): canon(v) for k, v in x.items()
                if not (isinstance(k, str) and k.endswith('-id'))}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, dcf.CashFlowList):
        return {'domain': canon(x.domain), 'flows': canon(x[x.domain])}
    if isinstance(x, dcf.Curve):
        return {'cls': type(x).__name__, 'domain': canon(sort(x.domain)),
                'data': canon(x(sort(x.domain)))}
    if isinstance(x, dcf.Price):
        return canon(float(x))
    if hasattr(x, '__name__'):
        return ['fn', x.__name__]
    return ['obj', type(x).__name__]


def sort(dates):
    try:
        return sorted(dates)
    except TypeError:
        return list(dates)


def same(a, b, rel=1e-9, abs_=1e-12):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            same(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(
            same(a[k], b[k], rel, abs_) for k in a)
    return type(a) is type(b) and a == b


SOLVED = 'ytm', 'fair', 'fit'     # found by bracketing
DIFFED = 'bpv', 'bucket'          # finite differences


def same_q(q, a, b, world=None):
    name = q[0]
    if world and name in ('tvol', 'ivol') and world['objs'][q[1]].get(
            'cls') == 'InstantaneousVolatilityCurve':
        return same(a, b, 1e-6, 1e-7)  # adaptive quadrature
    if world and any(o.get('cls') == 'Binary'
                     for o in world['objs'].values()):
        # difference quotients of prices: rounding is amplified by 1e4
        if name in ('delta', 'pdelta', 'gamma', 'vega', 'theta'):
            return a[0] == b[0]
        return same(a, b, 1e-5, 1e-2 if name not in ('mcall', 'mput')
                    else 1e-6)
    if name in SOLVED:
        return same(a, b, 1e-6, 2e-7)
    if name in DIFFED:
        return same(a, b, 1e-5, 1e-3)
    if name in ('derivative', 'delta', 'gamma', 'vega', 'theta', 'pdelta',
                'integrate'):
        return same(a, b, 1e-5, 1e-7)
    return same(a, b)


# -- queries -------------------------------------------------------------------

class Queries(object):
    """evaluates queries [name, id, *args] on built objects; `get` resolves
    ids to objects (live ones or fresh twins)"""

    def __init__(self, get, env, ref=None):
        self.get, self.env = get, env
        self.ref = ref
        self.made = None    # containers handed to calls, if recorded

    def run(self, q):
        """-> ['ok', canonical result] or ['exc', type name]"""
        try:
            return ['ok', canon(self.raw(q))]
        except Exception as e:
            return ['exc', type(e).__name__]

    def raw(self, q):
        return getattr(self, 'q_' + q[0])(*q[1:])

    def ds(self, ns):
        return self.hand([self.env.d(n) for n in ns])

    def hand(self, x):
        if self.made is not None:
            self.made.append((x, list(x)))
        return x

    def key(self, c, n):
        return self.env.d(n) if isinstance(c, dcf.DateCurve) \
            else n / 360.

    # curves
    def q_val(self, i, n):
        c = self.get(i)
        return c(self.key(c, n))

    def q_vals(self, i, ns):
        c = self.get(i)
        return list(c(self.hand([self.key(c, n) for n in ns])))

    def q_dom(self, i):
        return sort(self.get(i).domain)

    def q_item(self, i, n):
        c = self.get(i)
        return c[self.key(c, n)]

    def q_iter(self, i):
        return sorted(canon(list(self.get(i))))

    def q_iter2(self, i):
        c = self.get(i)
        return sorted([canon(x), sum(1 for _ in c)] for x in c)

    def q_in(self, i, n):
        c = self.get(i)
        return self.key(c, n) in c

    def q_origin(self, i):
        return self.get(i).origin

    def q_integrate(self, i, a, b):
        return self.get(i).integrate(self.env.d(a), self.env.d(b))

    def q_derivative(self, i, a):
        return self.get(i).derivative(self.env.d(a))

    def q_table(self, i):
        return self.get(i).table

    def q_rtab(self, i, xs, ys):
        c = self.get(i)
        if type(c) is dcf.Curve:
            t = dcf.rate_table(c, self.hand([x / 360. for x in xs]),
                               self.hand([y / 360. for y in ys]))
        else:
            t = dcf.rate_table(c, self.ds(xs), self.hand([
                self.env.days(y) for y in ys]))
        return [len(t[0])] + [list(r) for r in t[1:]]

    def q_comp(self, i, name, *args):
        return getattr(dcf.compounding, name)(*args)

    def q_itp(self, i, name, xs, ys, x, way):
        """an interpolation used by itself"""
        m = dcf.interpolation
        if isinstance(name, list):
            return m.interpolation_scheme(
                xs, ys, tuple(getattr(m, k) for k in name))(x)
        if name == 'flat':
            return m.flat(ys[0])(x)
        if name == 'default':
            return m.default_value_interpolation(xs, ys, 42.)(x)
        cls = getattr(m, name)
        if way == 'dict':
            f = cls.from_dict(dict(zip(xs, ys)))
        else:
            f = cls(self.hand(list(xs)), self.hand(list(ys)))
        if way == 'in' and not name.startswith('log'):
            return [k in f for k in xs] == [True] * len(xs) and f(x)
        return f(x)

    def q_bad(self, i, what, *args):
        """a request whose parts do not fit together"""
        x, env = self.get(i), self.env
        a, b = env.d(0), env.d(90)
        if what == 'len':
            # more dates than values
            if isinstance(x, dcf.CashFlowList):
                return dcf.FixedCashFlowList([a, b], [1.]) and 'ok'
            return type(x)(self.ds([0, 90, 180]) if isinstance(
                x, dcf.DateCurve) else [0., 1., 2.], [1., 2.]) and 'ok'
        if what == 'cast':
            return type(x)(x, [1.]) and 'ok'
        if what == 'step':
            # start, end and period of a rate
            n, m, off = args
            stop = env.d(n) + env.per(m) + env.days(off)
            return x.get_cash_rate(env.d(n), stop, env.per(m))
        if what == 'to':
            # the same, ending at time zero or having an empty period
            n, stop, m = args
            return x.get_cash_rate(env.d(n), env.d(stop), env.per(m))
        if what == 'spread':
            if x.spread is None:
                raise TypeError('nothing to replace')
            x.spread = dcf.DateCurve([a], [.01])
        elif what == 'log':
            return dcf.Curve([0., 1.], [1., args[0]], dcf.interpolation.
                             log_linear_scheme)(.5)
        elif what == 'legs':
            return dcf.CashFlowLegList([x, 1.]) and 'ok'
        elif what == 'options':
            k = [1.] * 6
            return dcf.OptionStrategyCashflowList([b], k, k, k, k) and 'ok'
        elif what == 'plan':
            return dcf.bond(a, env.d(360), env.per(3),
                            notional_amount=[1.] * args[0]) and 'ok'
        elif what == 'name':
            return dcf.RatingClass('X', x.masterscale) and 'ok'
        elif what == 'key':
            return x[1] and 'ok'
        elif what == 'pair':
            x[args[0], 'USD'] = x.domestic_curve
        elif what == 'set':
            x[args[0]] = 1.1
        elif what == 'add':
            x.add(args[0], x.domestic_curve, 1)
        elif what == 'scheme':
            m = dcf.interpolation
            return m.linear_scheme([0., 1., 1.], [1., 2., 3.])(.5)
        return 'accepted'

    def q_plan(self, i, name, *args):
        return getattr(dcf.plans, name)(*args)

    def q_kwargs(self, i):
        kw = self.get(i).kwargs
        dom, data = kw.pop('domain'), kw.pop('data')
        kw.pop('interpolation', None)
        kw.pop('origin', None)  # its default is implied by the domain
        kw.pop('day_count', None)
        for k in ('yield_curve', 'domestic_curve', 'foreign_curve'):
            kw.pop(k, None)
        return [sorted(canon(list(map(list, zip(dom, data))))),
                sorted(map(str, kw))]

    def q_str(self, i):
        return len(str(self.get(i))) > 0 and len(repr(self.get(i))) > 0

    def q_dcount(self, i, a, b):
        return self.get(i).day_count(self.env.d(a), self.env.d(b))

    def q_shifted(self, i, k):
        c = self.get(i)
        s = c.shifted() if k is None else c.shifted(
            self.env.days(k) if isinstance(c, dcf.DateCurve) else k / 360.)
        return [sort(s.domain), s(sort(s.domain))]

    def q_alg(self, i, op, j):
        a, b = self.get(i), self.get(j)
        c = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
             '/': lambda: a / b}[op]()
        return [c, list(c.domain)]

    def q_df(self, i, a, b=None):
        return self.get(i).get_discount_factor(*self.se(a, b))

    def q_zero(self, i, a, b=None):
        return self.get(i).get_zero_rate(*self.se(a, b))

    def q_short(self, i, a):
        return self.get(i).get_short_rate(self.env.d(a))

    def q_cash(self, i, a, step=None):
        if step is None:
            return self.get(i).get_cash_rate(self.env.d(a))
        return self.get(i).get_cash_rate(
            self.env.d(a), step=self.env.per(step))

    def q_annuity(self, i, ns):
        return self.get(i).get_swap_annuity(self.ds(ns))

    def q_surv(self, i, a, b=None):
        return self.get(i).get_survival_prob(*self.se(a, b))

    def q_inten(self, i, a, b=None):
        return self.get(i).get_flat_intensity(*self.se(a, b))

    def q_haz(self, i, a):
        return self.get(i).get_hazard_rate(self.env.d(a))

    def q_tvol(self, i, a, b=None):
        return self.get(i).get_terminal_vol(*self.se(a, b))

    def q_ivol(self, i, a):
        return self.get(i).get_instantaneous_vol(self.env.d(a))

    def q_fwd(self, i, a):
        return self.get(i).get_forward_price(self.env.d(a))

    def q_cast(self, i, cls, ns=None):
        c = self.get(i)
        if ns is None:
            return getattr(dcf, cls)(c)
        return getattr(dcf, cls)(self.ds(ns), c)

    def q_recast(self, i, cls, ns, ds):
        c = self.get(i)
        one = not isinstance(c, dcf.DateCurve)
        x = (lambda n: n / 360.) if one else self.env.d
        k = getattr(dcf, cls)
        t = k(c) if ns is None else k([x(n) for n in ns], c)
        ds = [x(n) for n in ds]
        if isinstance(t, dcf.DateCurve) or one:
            vals = list(t(ds))
        else:   # measures time from the origin of the curve
            vals = [t(c.day_count(d)) for d in ds]
        f = getattr(t, 'get_discount_factor',
                    getattr(t, 'get_survival_prob', None))
        if f and cls != 'CashRateCurve' and not cls.startswith('Marg'):
            vals.append(f(*ds[:2]))
        return [sort(t.domain), getattr(t, 'origin', None), vals]

    def q_sprd(self, i, n):
        s = self.get(i).spread
        return None if s is None else s(self.env.d(n))

    def se(self, a, b):
        return (self.env.d(a),) if b is None \
            else (self.env.d(a), self.env.d(b))

    # lists
    def q_flow(self, i, n):
        return self.get(i)[self.env.d(n)]

    def q_flows(self, i):
        x = self.get(i)
        return list(x[self.hand(list(x.domain))])

    def q_call(self, i):
        return self.get(i)()

    def q_ltable(self, i):
        return sorted(map(str, canon(self.get(i).table)))

    def q_ltab(self, i):
        return self.get(i).table

    def q_lorigin(self, i):
        x = self.get(i)
        return [x.origin, list(x.domain)]

    def q_frate(self, i):
        return self.get(i).fixed_rate

    def q_prates(self, i):
        x = self.get(i)
        return [getattr(x.payoff(d), 'fixed_rate', None) for d in x.domain]

    def q_pay(self, i, k, j=None):
        """a payoff asked with no, or another, model or forward curve"""
        x = self.get(i)
        p = x.payoff(list(x.domain)[k])
        m = None if j is None else self.get(j)
        return p() if m is None and k % 2 else p(m)

    def q_pdet(self, i, k, j=None):
        x = self.get(i)
        p = x.payoff(list(x.domain)[k])
        return p.details(None if j is None else self.get(j))

    def q_fixedcast(self, i, o=None):
        if o is None:
            return dcf.FixedCashFlowList(self.get(i))
        x = dcf.FixedCashFlowList(self.get(i), origin=self.env.d(o))
        return [x.origin, list(x.domain), list(x[x.domain])]

    def q_pv(self, i, d, v=None):
        return dcf.get_present_value(
            self.get(i), self.get(d), self.env.d(v))

    def q_ytm(self, i, v, pv):
        return dcf.get_yield_to_maturity(
            self.get(i), self.env.d(v), present_value=pv)

    def q_accrued(self, i, v):
        return dcf.get_interest_accrued(self.get(i), self.env.d(v))

    def q_fair(self, i, d, v=None, pv=0.0):
        return dcf.get_fair_rate(
            self.get(i), self.get(d), self.env.d(v), present_value=pv)

    def deltas(self, dd):
        if dd is None:
            return None
        if isinstance(dd, list):
            return self.hand([self.get(x) for x in dd])
        return self.get(dd)

    def q_bpv(self, i, d, v=None, dd=None, shift=.0001):
        return dcf.get_basis_point_value(
            self.get(i), self.get(d), self.env.d(v),
            delta_curve=self.deltas(dd), shift=shift)

    def q_bucket(self, i, d, v=None, dd=None, grid=None):
        return dcf.get_bucketed_delta(
            self.get(i), self.get(d), self.env.d(v),
            delta_curve=self.deltas(dd),
            delta_grid=None if grid is None else self.ds(grid))

    def q_fit(self, ii, d, v=None, c=None, grid=None, pv=0.0,
              bounds=(-0.1, .2)):
        return dcf.get_curve_fit(
            self.hand([self.get(i) for i in ii]), self.get(d),
            self.env.d(v), fitting_curve=None if c is None else self.get(c),
            fitting_grid=None if grid is None else self.ds(grid),
            present_value=self.hand(list(pv)) if isinstance(pv, list)
            else pv,
            bounds=tuple(bounds))

    # models
    def q_mcall(self, i, n, k=None):
        return self.get(i).get_call_value(self.env.d(n), k)

    def q_mput(self, i, n, k=None):
        return self.get(i).get_put_value(self.env.d(n), k)

    def q_delta(self, i, n, k=None):
        return self.get(i).get_call_delta(self.env.d(n), k)

    def q_pdelta(self, i, n, k=None):
        return self.get(i).get_put_delta(self.env.d(n), k)

    def q_gamma(self, i, n, k=None):
        return self.get(i).get_call_gamma(self.env.d(n), k)

    def q_vega(self, i, n, k=None):
        return self.get(i).get_call_vega(self.env.d(n), k)

    def q_theta(self, i, n, k=None):
        return self.get(i).get_call_theta(self.env.d(n), k)

    def q_pgamma(self, i, n, k=None):
        return self.get(i).get_put_gamma(self.env.d(n), k)

    def q_pvega(self, i, n, k=None):
        return self.get(i).get_put_vega(self.env.d(n), k)

    def q_ptheta(self, i, n, k=None):
        return self.get(i).get_put_theta(self.env.d(n), k)

    def q_mdetails(self, i, n, k=None):
        return self.get(i).details(self.env.d(n), k)

    def q_mval(self, i):
        return self.get(i).valuation_date

    # fx
    def q_fx(self, i, a, b, n):
        return self.get(i).get_forward_price(a, b, self.env.d(n))

    def q_fxc(self, i, a, b, n):
        return self.get(i)[a, b](self.env.d(n))

    def q_fxkeys(self, i):
        return sorted([a, b] for a, b in self.get(i).keys())

    def q_fxdict(self, i, a, n):
        return {k: v(self.env.d(n)) for k, v in self.get(i)[a].items()}

    def q_fxagain(self, i, a, b, n):
        # the same curves once more
        x = self.get(i)
        x[a, b] = x[a, b]
        if b != x.currency and a == x.currency:
            x[b] = x[a, b]
        return x[a, b](self.env.d(n))

    # ratings
    def q_rget(self, i):
        # by the classes of the scale
        x = self.get(i)
        ms = x.masterscale
        if ms is None:
            return [x.value, x.name, list(x.vector)]
        return [x.value, x.name, list(x.vector)] + [
            [k, ms.get(k).value, str(ms.get(k)), list(ms.get(k)).index(1.)]
            for k in ms.keys()] + [ms.get('no such'), [
                r.value for r in ms.rating_classes()]]

    def q_rvec(self, i):
        return list(self.get(i))

    def q_rstr(self, i):
        return [str(self.get(i)), repr(self.get(i)), float(self.get(i))]

    def q_rms(self, i):
        ms = self.get(i).masterscale
        return None if ms is None else [list(ms.keys()), list(ms.values()),
                                        str(ms)]

    def q_price(self, i):
        p = self.get(i)
        return [float(p), p.value, str(p)]
