"""Simulated collaborators handed to dcf (all of them go through the seam)."""
import os
import re
import sys
from functools import total_ordering
from math import exp, sin

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import dcf  # noqa E402
import dcf.models  # noqa E402

if not os.environ.get('SIM_COLD'):
    try:  # dcf imports these lazily; warm them up before workers fork runs
        import scipy.integrate  # noqa F401
        import scipy.misc  # noqa F401
    except ImportError:
        pass

from .seam import SEAM  # noqa E402

assert os.path.realpath(dcf.__file__).startswith(
    os.path.realpath(REPO) + os.sep), dcf.__file__

_PER = re.compile(r'^\s*(-?\d+)\s*([dDwWmMyY])\s*$')
_UNIT = {'d': 1, 'w': 7, 'm': 30, 'y': 360}


def _days(p):
    m = _PER.match(p)
    if not m:
        raise ValueError('no period: %r' % (p,))
    return int(m.group(1)) * _UNIT[m.group(2).lower()]


@total_ordering
class SimDate(object):
    """date of a user's own date package: duck typed, value semantics, every
    operation is a simulated step"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = int(n)

    def __reduce__(self):
        SEAM.hit('persist')
        return SimDate, (self.n,)

    def __repr__(self):
        return 'SimDate(%d)' % self.n

    def __hash__(self):
        return hash(('SimDate', self.n))

    def __eq__(self, other):
        if not isinstance(other, SimDate):
            return NotImplemented
        return self.n == other.n

    def __lt__(self, other):
        if not isinstance(other, SimDate):
            return NotImplemented
        SEAM.hit('date.lt')
        return self.n < other.n

    def __add__(self, other):
        SEAM.hit('date.add')
        if isinstance(other, str):
            other = _days(other)
        if not isinstance(other, int):
            return NotImplemented
        return SimDate(self.n + other)

    def __sub__(self, other):
        SEAM.hit('date.sub')
        if isinstance(other, SimDate):
            return self.n - other.n
        if isinstance(other, str):
            other = _days(other)
        if not isinstance(other, int):
            return NotImplemented
        return SimDate(self.n - other)

    def diff_in_days(self, end):
        SEAM.hit('date.diff')
        if not isinstance(end, SimDate):
            raise TypeError('SimDate expected, got %r' % type(end))
        return SEAM.ret('date.diff', end.n - self.n)


# -- day count functions -----------------------------------------------------

def _diff(start, end):
    if hasattr(start, 'diff_in_days'):
        return float(start.diff_in_days(end))
    d = end - start
    return float(getattr(d, 'days', d))


def dc_act365(start, end):
    SEAM.hit('day_count')
    d = _diff(start, end)
    return SEAM.ret('day_count', d if isinstance(start, float) else d / 365.)


def dc_act360(start, end):
    SEAM.hit('day_count')
    d = _diff(start, end)
    return SEAM.ret('day_count',
                    d * 365. / 360. if isinstance(start, float) else d / 360.)


def dc_named(start, end):
    """registered in DateCurve.DAY_COUNT as 'SIMDC'"""
    SEAM.hit('day_count')
    d = _diff(start, end)
    return SEAM.ret('day_count', d if isinstance(start, float) else d / 364.)


def dc_named_alt(start, end):
    SEAM.hit('day_count')
    d = _diff(start, end)
    return SEAM.ret('day_count',
                    d * 1.01 if isinstance(start, float) else d / 361.)


DAY_COUNTS = {'act365': dc_act365, 'act360': dc_act360, 'SIMDC': 'SIMDC'}


# -- interpolation factory of a user -----------------------------------------

class SimInterp(object):
    """piecewise linear, constant outside; a user supplied interpolation"""

    def __init__(self, x_list, y_list):
        SEAM.hit('interpolation.init')
        self.pts = sorted((float(x), float(y)) for x, y in zip(x_list, y_list))
        if not self.pts:
            raise ValueError('no points')

    def __call__(self, x):
        SEAM.hit('interpolation.call')
        p = self.pts
        if x <= p[0][0]:
            return p[0][1]
        if x >= p[-1][0]:
            return p[-1][1]
        for (a, u), (b, v) in zip(p[:-1], p[1:]):
            if a <= x <= b:
                return SEAM.ret('interpolation.call',
                                u + (v - u) * (x - a) / (b - a))


def sim_interp_function(x_list, y_list):
    """user supplied interpolation given as a plain function"""
    SEAM.hit('interpolation.init')
    return SimInterp(x_list, y_list)


_I = dcf.interpolation
INTERP = {
    'linear_scheme': _I.linear_scheme,
    'log_linear_scheme': _I.log_linear_scheme,
    'log_linear_rate_scheme': _I.log_linear_rate_scheme,
    'zero_linear_scheme': _I.zero_linear_scheme,
    'C:linear': _I.linear, 'C:constant': _I.constant, 'C:left': _I.left,
    'C:right': _I.right, 'C:nearest': _I.nearest, 'C:zero': _I.zero,
    'C:loglinearrate': _I.loglinearrate,
    'C:logconstantrate': _I.logconstantrate,
    'S:linear': 'linear', 'S:constant': 'constant', 'S:right': 'right',
    'S:nearest': 'nearest', 'S:loglinear': 'loglinear',
    'S:linear_scheme': 'linear_scheme',
    'SimInterp': SimInterp,
    'sim_interp_function': sim_interp_function,
    'REG:simlin': 'SIMLIN',
}
POSITIVE_ONLY = {'log_linear_scheme', 'log_linear_rate_scheme', 'S:loglinear',
                 'C:loglinearrate', 'C:logconstantrate'}

REGISTRY_BASE = dict(SIMDC=dc_named, SIMLIN=SimInterp)


def install_registries():
    """user level registration hooks of dcf"""
    dcf.DateCurve.DAY_COUNT['SIMDC'] = dc_named
    dcf.Curve.INTERPOLATIONS['SIMLIN'] = SimInterp


# -- callables and duck types -------------------------------------------------

def num(date):
    """year number of any supported date"""
    if isinstance(date, SimDate):
        return date.n / 365.25
    if isinstance(date, (int, float)):
        return float(date)
    if hasattr(date, 'toordinal'):
        return date.toordinal() / 365.25 - 2010.
    return float(date)


class CallFn(object):
    """deterministic forward / volatility / yield function of a user"""

    def __init__(self, level, slope=0.0, label='forward'):
        self.level, self.slope, self.label = level, slope, label

    def __reduce__(self):
        SEAM.hit('persist')
        return CallFn, (self.level, self.slope, self.label)

    def __call__(self, date):
        SEAM.hit(self.label)
        return SEAM.ret(self.label,
                        self.level * (1. + self.slope * sin(num(date))))


class DuckDiscount(object):
    """discount curve of a user: not a dcf curve"""

    def __init__(self, origin, rate, domain=()):
        self.origin = origin
        self.rate = rate
        self.domain = list(domain) or [origin]
        self.spread = None

    def get_discount_factor(self, start, stop):
        SEAM.hit('discount')
        s = self.spread(stop) if self.spread is not None else 0.0
        return SEAM.ret('discount',
                        exp(-(self.rate + s) * (num(stop) - num(start))))


class DuckPayoff(object):
    """contingent payoff of a user; depends on the model's valuation date"""

    def __init__(self, amount):
        self.amount = amount

    def __call__(self, model=None):
        SEAM.hit('payoff')
        v = getattr(model, 'valuation_date', None)
        t = 0.0 if v is None else num(v)
        return SEAM.ret('payoff', self.amount * exp(-.03 * t))


class SimModel(dcf.models.NormalOptionPayOffModel):
    """option model of a user"""

    def _call_price(self, time, strike, forward, volatility):
        SEAM.hit('model')
        r = super()._call_price(abs(time) + 1e-9, strike, forward, volatility)
        return SEAM.ret('model', r)


MODELS = {m: getattr(dcf.models, m) for m in (
    'IntrinsicOptionPayOffModel', 'NormalOptionPayOffModel',
    'LogNormalOptionPayOffModel', 'DisplacedLogNormalOptionPayOffModel',
    'BinaryIntrinsicOptionPayOffModel', 'BinaryNormalOptionPayOffModel',
    'BinaryLogNormalOptionPayOffModel',
    'BinaryDisplacedLogNormalOptionPayOffModel')}
MODELS['SimModel'] = SimModel
MODELS['Binary'] = dcf.models.optionpricing.BinaryOptionPayOffModel


def user_formula(time, strike, forward, volatility):
    """option pricing formula of a user: uniformly distributed payoff"""
    SEAM.hit('formula')
    w = volatility * (abs(time) + 1e-9) ** .5 * (
        3. ** .5 * abs(forward) if volatility < 1. else 1.)
    a, b = forward - w, forward + w
    if strike <= a:
        r = forward - strike
    elif strike >= b:
        r = 0.
    else:
        r = (b - strike) ** 2 / (4. * w)
    return SEAM.ret('formula', r)


FORMULA = dcf.models.optionpricing.OptionPricingFormula.from_function(
    user_formula, 'FORMULA')
FORMULA.__module__ = __name__
