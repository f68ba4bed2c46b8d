"""Observable state of a live world: what a user can see of every object, of
the containers handed in and of the registries.  Taken without faults, with
the seam switched off (no simulated step is consumed)."""
from .collab import dcf
from .seam import SEAM
from .world import canon

P_ATTRS = ('amount', 'start', 'end', 'expiry', 'strike', 'is_put',
           'fixed_rate', 'fixing_offset', 'cap_strike', 'floor_strike')
P_REFS = 'forward_curve', 'day_count'
M_ATTRS = 'valuation_date', 'bump_greeks', 'displacement'
M_REFS = 'forward_curve', 'volatility_curve', 'day_count'
C_REFS = 'yield_curve', 'domestic_curve', 'foreign_curve'
PROBES = 7, 45, 200, 500


class Snap(object):
    def __init__(self, live):
        self.live = live
        self.ids = {id(o): k for k, o in live.b.cache.items()}

    def ident(self, x):
        """which object it is: a world id, the value, or the identity"""
        if x is None or isinstance(x, (bool, int, float, str)):
            return x
        return self.ids.get(id(x), 'object %d' % id(x))

    def safe(self, f):
        try:
            return canon(f())
        except Exception as e:
            return ['exc', type(e).__name__]

    def take(self, ids=None):
        on, SEAM.on = SEAM.on, False
        try:
            out = {oid: self.obj(self.live.get(oid), oid)
                   for oid in sorted(self.live.world['objs'] if ids is None
                                 else ids, key=int)}
            if ids is None:
                out['args'] = self.args()
                out['globals'] = self.globals()
            return out
        finally:
            SEAM.on = on

    def args(self):
        return {oid: {k: canon(lst) if isinstance(lst, dict) else
                      [self.ident(v) if isinstance(v, dcf.CashFlowList)
                       else canon(v) for v in lst]
                      for k, lst in kw.items()}
                for oid, kw in (self.live.b.args or {}).items()}

    @staticmethod
    def globals():
        return {
            'interpolations': sorted(map(str, dcf.Curve.INTERPOLATIONS)),
            'day_counts': sorted(map(str, dcf.DateCurve.DAY_COUNT)),
            'floor': canon(dcf.TerminalVolatilityCurve.FLOOR),
            'sloppy': canon(dcf.RatingClass.SLOPPY)}

    def obj(self, o, oid):
        if isinstance(o, dcf.CashFlowLegList):
            return {'domain': self.safe(lambda: list(o.domain)),
                    'flows': self.safe(lambda: [o[d] for d in o.domain]),
                    'origin': self.safe(lambda: o.origin),
                    'legs': [self.ident(x) for x in o.legs]}
        if isinstance(o, dcf.CashFlowList):
            return self.flows(o)
        if isinstance(o, dcf.Curve):
            return self.curve(o, oid)
        if isinstance(o, dcf.FxContainer):
            d = self.live.env.d
            return {'%s/%s' % k: [self.safe(lambda n=n: c(d(n)))
                                  for n in (0,) + PROBES]
                    for k, c in o.items()}
        if isinstance(o, dcf.RatingClass):
            return [self.safe(lambda: list(o)), self.safe(lambda: str(o)),
                    self.safe(lambda: float(o))]
        if isinstance(o, dcf.Price):
            return [self.safe(lambda: float(o)), self.safe(lambda: o.origin)]
        if hasattr(o, 'get_call_value'):
            out = {a: self.safe(lambda: getattr(o, a, None)) for a in M_ATTRS}
            out.update({a: self.ident(getattr(o, a, None)) for a in M_REFS})
            return out
        return {'spread': self.ident(getattr(o, 'spread', None))}

    def curve(self, c, oid):
        key = self.live.b.key
        spec = self.live.world['objs'][oid]
        out = {'domain': self.safe(lambda: list(c.domain)),
               'values': self.safe(lambda: [c(x) for x in c.domain]),
               'probes': [self.safe(lambda n=n: c(key(spec, n)))
                          for n in PROBES]}
        if isinstance(c, dcf.DateCurve):
            out['origin'] = self.safe(lambda: c.origin)
            out['fixings'] = sorted([str(canon(k)), canon(v)]
                                    for k, v in c.fixings.items())
        if isinstance(c, dcf.curves.curve.RateCurve):
            s = c.spread
            out['spread'] = self.ident(s)
            out['tenor'] = self.safe(lambda: c.forward_tenor)
            if s is not None:
                out['spread at'] = self.safe(lambda: [s(x) for x in c.domain])
        for a in C_REFS:
            if a in spec or a + '_' in spec:
                y = getattr(c, a, None)
                out[a] = self.ids.get(id(y), type(y).__name__)
        return out

    def flows(self, x):
        out = {'domain': self.safe(lambda: list(x.domain)),
               'flows': [self.safe(lambda d=d: x[d]) for d in x.domain],
               'origin': self.safe(lambda: x.origin),
               'fixed_rate': self.safe(
                   lambda: getattr(x, 'fixed_rate', None)),
               'forward_curve': self.ident(getattr(x, 'forward_curve', None)),
               'payoff_model': self.ident(getattr(x, 'payoff_model', None))}
        pp = []
        for d in x.domain:
            p = x.payoff(d)
            e = {'type': type(p).__name__}
            for a in P_ATTRS:
                if hasattr(p, a):
                    v = getattr(p, a)
                    e[a] = canon(v)
            for a in P_REFS:
                if hasattr(p, a):
                    e[a] = self.ident(getattr(p, a))
            pp.append(e)
        out['payoffs'] = pp
        return out


def diff(a, b, path=''):
    """first difference of two snapshots (exact) or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return path + '/' + k, a.get(k, 'absent'), b.get(k, 'absent')
            r = diff(a[k], b[k], path + '/' + k)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if type(a) is type(b) and a == b:
        return None
    return path, a, b
