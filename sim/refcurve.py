"""Small executable reference model of curves: a dictionary of points, fixings,
a spread and the documented interpolation of the current points."""
from math import exp, log

from .world import BASE, ONE_MINUS

DEFAULT = {
    'ForwardCurve': 'log_linear_scheme', 'FxForwardCurve': 'log_linear_scheme',
    'DiscountFactorCurve': 'log_linear_rate_scheme',
    'SurvivalProbabilityCurve': 'log_linear_rate_scheme',
    'DefaultProbabilityCurve': 'log_linear_rate_scheme',
    'MarginalSurvivalProbabilityCurve': 'log_linear_scheme',
    'MarginalDefaultProbabilityCurve': 'log_linear_scheme',
    'HazardRateCurve': 'S:constant', 'ShortRateCurve': 'S:constant',
}


class Undefined(Exception):
    """outside of what the reference model defines"""


def lin(p, x, extra=False):
    """piecewise linear through points; constant (or linear) outside"""
    if len(p) == 1:
        return p[0][1]
    if not extra:
        if x <= p[0][0]:
            return p[0][1]
        if x >= p[-1][0]:
            return p[-1][1]
    for (a, u), (b, v) in zip(p[:-1], p[1:]):
        if x <= b or b == p[-1][0]:
            w = (x - a) / (b - a)
            return u * (1. - w) + v * w


def step_left(p, x):
    y = p[0][1]
    for a, u in p:
        if a <= x:
            y = u
    return y


def step_right(p, x):
    for a, u in p:
        if x <= a:
            return u
    return p[-1][1]


def near(p, x):
    return min(((abs(a - x), a), u) for a, u in p)[1]


def interp(name, points, x):
    p = sorted(points)
    if name in ('linear_scheme', 'S:linear_scheme', 'SimInterp',
                'sim_interp_function', 'REG:simlin'):
        return lin(p, x)
    if name in ('C:linear', 'S:linear'):
        return lin(p, x, True)
    if name in ('C:constant', 'S:constant', 'C:left', 'S:left'):
        return step_left(p, x)
    if name in ('C:right', 'S:right'):
        return step_right(p, x)
    if name in ('C:nearest', 'S:nearest'):
        for a, u in p:
            if abs(a - x) < 1e-12:
                return u
        ds = sorted(abs(a - x) for a, _ in p)
        if len(ds) > 1 and abs(ds[0] - ds[1]) < 1e-9:
            raise Undefined('tie')
        return near(p, x)
    if name == 'zero_linear_scheme':
        return 0. if x < p[0][0] else lin(p, x)
    if name == 'C:zero':
        return dict(p).get(x, 0.)
    if any(y <= 0. for _, y in p):
        raise Undefined('log')
    if name == 'log_linear_scheme':
        return exp(lin([(a, log(u)) for a, u in p], x))
    if name == 'S:loglinear':
        return exp(lin([(a, log(u)) for a, u in p], x, True))
    if name in RATES:
        z = [u for a, u in p if not a]
        if not x:
            if z:
                return z[0]
            return 1.
        q = [(a, log(u) / a) for a, u in p if a]
        if not q:
            raise Undefined('no rate')
        if name == 'C:logconstantrate':
            return exp(step_left(q, x) * x)
        return exp(lin(q, x, name == 'C:loglinearrate') * x)
    raise Undefined(name)


RATES = 'log_linear_rate_scheme', 'C:loglinearrate', 'C:logconstantrate'
LOG = ('log_linear_scheme', 'S:loglinear') + RATES


class RefCurve(object):
    def __init__(self, spec, kind, get):
        self.cls = spec['cls']
        self.kind = kind
        self.get = get        # id -> RefCurve
        self.interp = spec.get('interp') or DEFAULT.get(
            self.cls, 'linear_scheme')
        self.dc = spec.get('dc')
        self.origin = spec.get('origin')
        if self.origin is None and self.cls != 'Curve':
            self.origin = spec['dom'][0]
        w = (lambda v: 1. - v) if self.cls in ONE_MINUS else (lambda v: v)
        self.pts = {n: w(v) for n, v in zip(spec['dom'], spec['data'])}
        self.fix = {}
        self.spread = None    # RefCurve

    def year(self, a, b):
        """year fraction of day numbers"""
        if self.cls == 'Curve':
            return b / 360.
        d = float(b - a)
        if self.kind == 'float':
            d = b / 360. - a / 360.
            if self.dc == 'act360':
                return d * 365. / 360.
            return d
        return d / {None: 365.25, 'act365': 365., 'act360': 360.,
                    'SIMDC': 364.}[self.dc]

    def rejects(self, v):
        """a point with value v cannot be stored"""
        if v is None or isinstance(v, str):
            return True
        return self.interp in LOG and v <= 0.

    def base(self, n):
        o = self.origin or 0
        x = self.year(o, n)
        if n in self.pts and self.interp not in RATES:
            return self.pts[n]
        try:
            return interp(self.interp, [(self.year(o, k), v)
                                        for k, v in self.pts.items()], x)
        except OverflowError:
            raise Undefined('beyond floats')

    def value(self, n):
        if self.cls == 'ForwardCurve' and n > max(self.pts) \
                and n not in self.fix:
            raise Undefined('yield extrapolation')
        if n in self.fix:
            y = self.fix[n]
        else:
            y = self.base(n)
        if self.spread is not None:
            y += self.spread.value(n)
        return y


def close(a, b):
    return abs(a - b) <= max(1e-11, 1e-8 * max(abs(a), abs(b)))


assert BASE
