"""Histories: mutation operations, applied to live dcf objects and to the spec
of the world (its current data)."""
from copy import deepcopy

from .collab import dcf, install_registries
from .gen import r6
from .seam import SEAM
from .ref import Cv, Ref
from .refcurve import Undefined
from .world import (Builder, Env, Queries, IR, CREDIT, VOL, ONE_MINUS,
                    canon)  # noqa F401

BAD = [None, 'bad']


class Live(object):
    """the live world of a run"""

    def __init__(self, world, keep_args=False):
        self.world = deepcopy(world)
        self.b = Builder(self.world, keep_args)
        self.env = self.b.env
        self.q = Queries(self.b.get, self.env)
        for oid in sorted(self.world['objs'], key=int):
            self.b.get(oid)

    @classmethod
    def adopt(cls, world, cache):
        """a live world around existing objects"""
        live = cls.__new__(cls)
        live.world = deepcopy(world)
        live.b = Builder(live.world)
        live.b.cache = cache
        live.env = live.b.env
        live.q = Queries(live.b.get, live.env)
        return live

    def get(self, oid):
        return self.b.get(oid)

    def outcome(self, f):
        try:
            f()
            return 'ok'
        except Exception as e:
            return type(e).__name__

    # each op_* returns 'ok' or the exception name, and keeps the spec current
    def apply(self, op):
        return getattr(self, 'op_' + op[0])(*op[1:])

    def op_set(self, oid, n, v, valid=True, times=1):
        spec = self.world['objs'][oid]
        c = self.get(oid)
        key = self.b.key(spec, n) if not isinstance(n, str) else n

        def f():
            for _ in range(times):
                c[key] = v
        out = self.outcome(f)
        if out == 'ok':
            self.spec_set(spec, n, v)
        return out

    @staticmethod
    def spec_set(spec, n, v):
        if spec.get('cast') is not None:
            spec.setdefault('sets', []).append([n, v])
            return
        w = 1. - v if spec['cls'] in ONE_MINUS else v
        if n in spec['dom']:
            spec['data'][spec['dom'].index(n)] = w
        else:
            if spec['cls'] != 'Curve' and spec.get('origin') is None:
                # the default origin is the first date given
                spec['origin'] = spec['dom'][0]
            spec['dom'].append(n)
            spec['data'].append(w)

    def op_fix(self, oid, n, v):
        c = self.get(oid)
        spec = self.world['objs'][oid]
        c.fixings[self.env.d(n)] = v
        spec.setdefault('fix', {})[str(n)] = v
        return 'ok'

    def op_unfix(self, oid, n):
        c = self.get(oid)
        spec = self.world['objs'][oid]
        c.fixings.pop(self.env.d(n), None)
        spec.get('fix', {}).pop(str(n), None)
        return 'ok'

    def op_spread(self, oid, ref):
        spec = self.world['objs'][oid]
        c = self.get(oid)
        s = self.b.ref(ref)

        def f():
            c.spread = s
        out = self.outcome(f)
        if out == 'ok':
            spec['spread'] = ref
        return out

    def op_frate(self, oid, v):
        spec = self.world['objs'][oid]
        x = self.get(oid)

        def f():
            x.fixed_rate = v
        out = self.outcome(f)
        if out == 'ok':
            spec['rate'] = v
            for o in spec.get('over', {}).values():
                o.pop('fixed_rate', None)
        return out

    def op_pattr(self, oid, i, a, v):
        spec = self.world['objs'][oid]
        p = self.get(oid).payoff(self.env.d(spec['pay'][i]))
        setattr(p, a, self.b.attr(a, v))
        spec.setdefault('over', {}).setdefault(str(i), {})[a] = v
        return 'ok'

    MATTR = {'valuation_date': 'val', 'forward_curve': 'fwd',
             'volatility_curve': 'vol', 'day_count': 'dc',
             'bump_greeks': 'bump', 'displacement': 'disp'}

    def op_mattr(self, oid, a, v):
        spec = self.world['objs'][oid]
        setattr(self.get(oid), a, self.b.attr(a, v))
        spec[self.MATTR[a]] = v
        return 'ok'

    LATTR = {'forward_curve': 'fwd', 'payoff_model': 'model'}

    def op_lattr(self, oid, a, v):
        spec = self.world['objs'][oid]
        setattr(self.get(oid), a, self.b.attr(a, v))
        spec[self.LATTR[a]] = v
        return 'ok'

    CATTR = {'yield_curve': 'yield', 'domestic_curve': 'domc',
             'foreign_curve': 'forc'}

    def op_cattr(self, oid, a, v):
        spec = self.world['objs'][oid]
        setattr(self.get(oid), a, self.b.attr(a, v))
        spec[self.CATTR[a]] = v
        return 'ok'

    def op_flag(self, name, v):
        set_flag(name, v)
        self.world.setdefault('flags', {})[name] = v
        return 'ok'

    def op_fxadd(self, oid, ccy, ref, spot):
        spec = self.world['objs'][oid]
        x = self.get(oid)
        out = self.outcome(lambda: x.add(ccy, self.b.ref(ref), spot))
        if out == 'ok':
            self.spec_add(spec, ccy, ref, spot)
        return out

    @staticmethod
    def spec_add(spec, ccy, ref, spot):
        for a in spec['adds']:
            if a[0] == ccy:
                a[1:] = [ref, spot]
                break
        else:
            spec['adds'].append([ccy, ref, spot])

    def op_fxset(self, oid, ccy, ref, spot, pts=None):
        """a currency given by its fx curve, maybe of another day"""
        x, b = self.get(oid), self.b
        if pts:
            rules = Ref(self.world)
            fx = rules.obj(oid)
            try:
                spot = Cv(rules, {
                    'cls': 'FxForwardCurve', 'dom': [n for n, _ in pts],
                    'data': [v for _, v in pts], 'forc': ref,
                    'domc': self.world['objs'][oid]['domc']}).v(fx.o)
            except (Undefined, ZeroDivisionError, OverflowError):
                return 'unknown'
            dom, data = self.env.seq([n for n, _ in pts]), [v for _, v in pts]
        else:
            dom, data = [x.domestic_curve.origin], [spot]
        c = dcf.FxForwardCurve(dom, data, domestic_curve=x.domestic_curve,
                               foreign_curve=b.ref(ref))

        def f():
            x[ccy] = c
        out = self.outcome(f)
        if out == 'ok':
            self.spec_add(self.world['objs'][oid], ccy, ref, spot)
        return out

    def op_q(self, q):
        return self.q.run(q)

    def op_fq(self, q, k, exc):
        """query during which the k-th collaborator call raises"""
        SEAM.arm(k, exc)
        try:
            out = ['ok', canon(self.q.raw(q))]
        except BaseException as e:
            out = ['exc', type(e).__name__]
        finally:
            fired = SEAM.fired
            SEAM.disarm()
        return [out, fired]


OPTION = dcf.models.optionpricing.OptionPayOffModel
SHIFTS = tuple('%s_%s' % (g, k) for g in ('DELTA', 'VEGA', 'THETA')
               for k in ('SHIFT', 'SCALE'))
FLAGS = {'FLOOR': dcf.TerminalVolatilityCurve.FLOOR,
         'SLOPPY': dcf.RatingClass.SLOPPY}
FLAGS.update((k, getattr(OPTION, k)) for k in SHIFTS)


def set_flag(name, v):
    """settings of classes"""
    if name == 'FLOOR':
        dcf.TerminalVolatilityCurve.FLOOR = v
    elif name == 'SLOPPY':
        dcf.RatingClass.SLOPPY = v
    elif name in SHIFTS:
        setattr(OPTION, name, v)
    else:
        raise KeyError(name)


def setup(flags=None):
    """settings of classes as shipped, but for those given"""
    install_registries()
    for k, v in dict(FLAGS, **(flags or {})).items():
        set_flag(k, v)


def twin(world, queries):
    """the same queries on freshly built objects holding the same data; every
    query gets objects of its own"""
    setup(world.get('flags'))
    out = []
    for q in queries:
        b = Builder(world)
        out.append(Queries(b.get, b.env).run(q))
    return out


class HistGen(object):
    """generates mutation ops against a spec-level copy of the world"""

    def __init__(self, rng, gen):
        self.rng, self.gen = rng, gen
        self.spreadable = set()
        self.as_spread = set()
        kinds = ['set', 'q', 'spread', 'fix', 'frate', 'pattr', 'mattr',
                 'lattr', 'cattr', 'flag', 'fxadd', 'badset', 'fq']
        self.weights = {k: rng.choice((0, 1, 1, 3)) for k in kinds}
        self.weights['set'] = rng.choice((1, 3, 5))
        self.weights['q'] = rng.choice((1, 3, 5))
        self.past = []
        self.p_again = rng.choice((0, .1, .3))
        if rng.random() < .35:
            ids = [i for i in gen.of('curve', 'list', 'model', 'fx')]
            gen.focus = rng.choice(ids) if ids else None
            if gen.focus:
                own = self.OWN[gen.objs[gen.focus]['t']]
                for k in kinds:
                    if k in own:
                        self.weights[k] = 3
                    elif k != 'q' and rng.random() < .7:
                        self.weights[k] = 0

    OWN = {'curve': ('set', 'spread', 'fix', 'cattr'), 'fx': ('fxadd',),
           'list': ('frate', 'pattr', 'lattr'), 'model': ('mattr', 'flag')}

    AGAIN = ('set', 'fix', 'frate', 'pattr', 'mattr', 'lattr', 'cattr',
             'fxadd')

    def op(self):
        rng = self.rng
        if self.past and rng.random() < self.p_again:
            # what was said before, said again
            return deepcopy(rng.choice(self.past))
        for _ in range(50):
            ks = sorted(self.weights)
            k = rng.choices(ks, [self.weights[x] for x in ks])[0]
            o = getattr(self, 'g_' + k)()
            if o is not None:
                if o[0] in self.AGAIN and o[-1] is not False:
                    self.past.append(deepcopy(o))
                return o
        return ['q', self.gen.query()]

    def g_q(self):
        return ['q', self.gen.query()]

    EXCS = ('SimFault', 'SimAbort', 'ValueError', 'ZeroDivisionError',
            'KeyboardInterrupt', 'MemoryError', 'OSError')

    def g_fq(self):
        rng = self.rng
        return ['fq', self.gen.query(), int(10 ** rng.uniform(0, 2.5)),
                rng.choice(self.EXCS)]

    def curve_id(self, *cls):
        ids = self.gen.of(*cls) if cls else self.gen.of('curve')
        return self.gen.pick(ids)

    def g_set(self):
        i = self.curve_id()
        if i is None:
            return
        s = self.gen.objs[i]
        rng = self.rng
        dom = s.get('dom') or []
        n = rng.choice(dom) if dom and rng.random() < .5 else \
            self.gen.date(-10 if rng.random() < .2 else 0)
        if s.get('cast') is not None and rng.random() < .5:
            return
        cls = s['cls']
        v = self.gen.value(cls, max(n, 0))
        if cls in ONE_MINUS:
            v = r6(1. - v)
        if n < 0 and cls in ('DiscountFactorCurve',
                             'SurvivalProbabilityCurve',
                             'DefaultProbabilityCurve'):
            return
        if s.get('interp') is None and cls in (
                'DiscountFactorCurve', 'SurvivalProbabilityCurve',
                'DefaultProbabilityCurve') and s.get('origin') is None \
                and not s.get('cast') and n == s['dom'][0]:
            return
        return ['set', i, n, v, True]

    def g_badset(self):
        i = self.curve_id()
        if i is None:
            return
        rng = self.rng
        s = self.gen.objs[i]
        if rng.random() < .3:
            return ['set', i, 'bad', .5, False]
        dom = s.get('dom') or [0]
        n = rng.choice(dom) if rng.random() < .5 else self.gen.date(0)
        return ['set', i, n, rng.choice(BAD), False]

    def g_fix(self):
        ids = [i for i in self.gen.of('curve')
               if self.gen.objs[i]['cls'] != 'Curve']
        i = self.gen.pick(ids)
        if i is None:
            return
        s = self.gen.objs[i]
        rng = self.rng
        fx = list(s.get('fix', {}))
        if fx and rng.random() < .5:
            return ['unfix', i, int(rng.choice(fx))]
        dom = s.get('dom') or [0]
        n = rng.choice(dom) if rng.random() < .6 else self.gen.date(0)
        v = self.gen.value(s['cls'], max(n, 0))
        if s['cls'] in ONE_MINUS:
            v = r6(1. - v)
        return ['fix', i, n, v]

    def g_spread(self):
        rng = self.rng
        ids = self.gen.of(*(IR + CREDIT + VOL))
        i = self.gen.pick(ids)
        if i is None or i in self.as_spread:
            return
        s = self.gen.objs[i]
        if s.get('spread') is not None:
            if rng.random() < .8:
                return ['spread', i, None]
        src = [j for j in self.gen.of('ZeroRateCurve', 'DateCurve')
               if j != i and self.gen.objs[j].get('spread') is None]
        j = self.gen.pick(src)
        if j is not None and rng.random() < .6:
            self.as_spread.add(j)
            return ['spread', i, {'ref': j}]
        k = rng.randint(1, 3)
        ns = self.gen.dates(k) or [0]
        sp = {'t': 'curve', 'cls': 'DateCurve', 'dom': ns, 'origin': ns[0],
              'data': [r6(rng.uniform(-.01, .01)) for _ in ns]}
        return ['spread', i, {'spec': sp}]

    def g_frate(self):
        ids = self.gen.of('RateCashFlowList', 'ContingentRateCashFlowList')
        i = self.gen.pick(ids)
        if i is None:
            return
        before = [o[2] for o in self.past if o[:2] == ['frate', i]]
        if before and self.rng.random() < .4:
            return ['frate', i, self.rng.choice(before)]
        return ['frate', i, r6(self.rng.uniform(0, .05))]

    def g_pattr(self):
        rng = self.rng
        ids = self.gen.of('RateCashFlowList', 'ContingentRateCashFlowList',
                          'FixedCashFlowList', 'OptionCashflowList')
        i = self.gen.pick(ids)
        if i is None:
            return
        s = self.gen.objs[i]
        k = rng.randrange(len(s['pay']))
        n = s['pay'][k]
        c = [('amount', r6(rng.uniform(1, 1e3)))]
        if 'Rate' in s['cls']:
            c += [('fixed_rate', r6(rng.uniform(0, .05))),
                  ('start', max(0, n - rng.choice((30, 60)))),
                  ('end', n + rng.choice((0, 5))),
                  ('day_count', rng.choice(('act365', 'act360'))),
                  ('fixing_offset', rng.choice((None, 2)))]
        if 'Contingent' in s['cls']:
            c += [('cap_strike', rng.choice((None, .03))),
                  ('floor_strike', rng.choice((None, .01)))]
        if 'Option' in s['cls']:
            c += [('strike', r6(rng.uniform(85, 120))),
                  ('is_put', rng.random() < .5),
                  ('expiry', max(30, n - 5))]
        a, v = rng.choice(c)
        return ['pattr', i, k, a, v]

    def g_mattr(self):
        rng = self.rng
        i = self.gen.pick(self.gen.of('model'))
        if i is None:
            return
        s = self.gen.objs[i]
        if any(x.get('cls') == 'Binary' and x['inner'] == {'ref': i} and
               None in (x['val'], x['dc'], x['fwd'], x['vol'])
               for x in self.gen.objs.values()):
            return  # others took its data when they were made
        c = [('valuation_date', rng.choice((0, 5, 20))),
             ('day_count', rng.choice(('act365', 'act360')))]
        if s['cls'] != 'Binary':
            c += [('bump_greeks', rng.random() < .5)]
        if 'disp' in s:
            c += [('displacement', r6(rng.uniform(0, 5)))]
        fwd = s['fwd']
        rates = isinstance(fwd, dict) and (
            'fn' in fwd and fwd['fn'][0] < 1 or
            'ref' in fwd and self.gen.objs[fwd['ref']]['cls'] in IR)
        if rates:
            f = self.gen.pick(self.gen.of(*IR))
            if f:
                c += [('forward_curve', {'ref': f})] * 2
            c += [('volatility_curve', r6(rng.uniform(.002, .01)))]
        else:
            f = self.gen.pick(self.gen.of('ForwardCurve'))
            if f:
                c += [('forward_curve', {'ref': f})] * 2
            v = self.gen.pick(self.gen.of('TerminalVolatilityCurve'))
            if v:
                c += [('volatility_curve', {'ref': v})] * 2
            c += [('volatility_curve', r6(rng.uniform(.05, .3)))]
        a, v = rng.choice(c)
        return ['mattr', i, a, v]

    def g_lattr(self):
        rng = self.rng
        ids = self.gen.of('RateCashFlowList', 'ContingentRateCashFlowList',
                          'OptionCashflowList', 'OptionStrategyCashflowList')
        i = self.gen.pick(ids)
        if i is None:
            return
        if self.gen.objs[i]['cls'] == 'RateCashFlowList':
            f = self.gen.pick(self.gen.of(*IR))
            if f is None or rng.random() < .2:
                return ['lattr', i, 'forward_curve', None]
            return ['lattr', i, 'forward_curve', {'ref': f}]
        cur = self.gen.objs[i]['model']
        m = self.gen.pick(self.gen.of('model'))
        if m is None or cur is None:
            return
        return ['lattr', i, 'payoff_model', {'ref': m}]

    def g_cattr(self):
        rng = self.rng
        i = self.gen.pick(self.gen.of('FxForwardCurve'))
        if i and rng.random() < .5:
            return ['cattr', i, rng.choice((
                'domestic_curve', 'foreign_curve')), {'ref': self.gen.pick(
                    self.gen.of(*IR[:2]))}]
        i = self.gen.pick(self.gen.of('ForwardCurve'))
        if i is None:
            return
        if 'yield' not in self.gen.objs[i]:
            return
        f = self.gen.pick(self.gen.of(*IR))
        if f is None or rng.random() < .2:
            return ['cattr', i, 'yield_curve', rng.choice((
                {'fn': [.9, .1, 'yield']}, None, r6(rng.uniform(-.02, .05))))]
        return ['cattr', i, 'yield_curve', {'ref': f}]

    def g_flag(self):
        rng = self.rng
        if self.gen.of('TerminalVolatilityCurve') and rng.random() < .5:
            return ['flag', 'FLOOR', rng.choice((None, .01, .1))]
        if self.gen.of('rating') and rng.random() < .5:
            return ['flag', 'SLOPPY', rng.random() < .5]
        if self.gen.of('model'):
            k = rng.choice(SHIFTS)
            return ['flag', k, FLAGS[k] if rng.random() < .3 else
                    rng.choice((1e-3, .01, 1.) if k.endswith('SCALE') else
                               (1e-3, .002, .005))]

    def g_fxadd(self):
        rng = self.rng
        i = self.gen.pick(self.gen.of('fx'))
        if i is None:
            return
        s = self.gen.objs[i]
        c = rng.choice([a[0] for a in s['adds']] + ['AUD', 'NZD'])
        r = self.gen.pick(self.gen.of(*IR[:2]))
        return self.partly(
            ['fxadd', i, c, {'ref': r}, r6(rng.uniform(.3, 3.))])

    def partly(self, op):
        """an update of an fx pair in one of its two parts, or in none"""
        rng = self.rng
        for c, r, spot in self.gen.objs[op[1]]['adds']:
            if c == op[2]:
                if rng.random() < .3:
                    op[3] = r
                if rng.random() < .3:
                    op[4] = spot
        return op


def track(gen, op):
    """keep the generator's view of the specs current (the run itself tracks
    the real one)"""
    k = op[0]
    objs = gen.objs
    if k == 'set' and op[4]:
        Live.spec_set(objs[op[1]], op[2], op[3])
    elif k == 'fix':
        objs[op[1]].setdefault('fix', {})[str(op[2])] = op[3]
    elif k == 'unfix':
        objs[op[1]].get('fix', {}).pop(str(op[2]), None)
    elif k == 'spread':
        s = objs[op[1]]
        if not (op[2] is not None and s.get('spread') is not None):
            s['spread'] = op[2]
    elif k == 'mattr':
        objs[op[1]][Live.MATTR[op[2]]] = op[3]
    elif k == 'lattr':
        objs[op[1]][Live.LATTR[op[2]]] = op[3]
    elif k == 'cattr':
        objs[op[1]][Live.CATTR[op[2]]] = op[3]
    elif k == 'fxadd':
        for a in objs[op[1]]['adds']:
            if a[0] == op[2]:
                a[1:] = [op[3], op[4]]
                break
        else:
            objs[op[1]]['adds'].append([op[2], op[3], op[4]])
