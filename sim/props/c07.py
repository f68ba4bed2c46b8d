"""C07 all fx pairs of a container agree with each other and with the discount
curves, after every spot or curve update applied, refused or interrupted."""
from copy import deepcopy

from ..feed import Desk, FeedGen, FeedHist, known, topic
from ..gen import r6
from ..history import setup, track
from ..procs import fork_json
from ..ref import Ref
from ..refcurve import Undefined
from ..seam import SEAM
from ..shrink import shrink_ops, shrink_world
from ..world import canon, dcf, IR

ID = 'C07'
RUNS = {'quick': 12000, 'thorough': 300000}
RECHECK = 120
RULE = ('a run is a seeded fx desk fed by spot and curve messages over a '
        'lossy network, with refused and interrupted additions, crashes and '
        'restarts; after every step the full matrix of pairs is audited; '
        'non-trivial: at least two currencies and one update; distinct by '
        'the digest of the event log')
REAL = ['all of dcf', 'pickle', 'businessdate (bd worlds)']
STUB = ['network, publisher, disk and clock of the desk',
        'date package (sim worlds)', 'user interpolation',
        'user day counts']
ASSUMPTIONS = ['forward = spot * df(domestic) / df(foreign), the convention '
               'pinned by the tests of dcf',
               'pairs of a currency with itself exist for the base only']
CCYS = 'EUR', 'GBP', 'JPY', 'CHF', 'AUD', 'NZD'
BAD = ('int spot', 'no curve', 'number for curve', 'number for currency',
       'volatility for curve', 'none spot')


class FxGen(FeedGen):
    def theme_fx(self):
        rng = self.rng
        kw = {'interp': rng.random() < .3}
        cls = (lambda: rng.choice(
            ('ZeroRateCurve', 'ZeroRateCurve', 'DiscountFactorCurve')))
        base = self.rate_curve('ZeroRateCurve', **kw)
        pool = [self.rate_curve(cls(), **kw)
                for _ in range(rng.randint(1, 4))]
        adds = [[c, self.ref(rng.choice(pool)), r6(rng.uniform(.3, 3.))]
                for c in rng.sample(CCYS, rng.randint(0, 4))]
        self.new({'t': 'fx', 'base': 'USD', 'domc': self.ref(base),
                  'adds': adds})
        if rng.random() < .4:
            s = self.curve_spec('FxForwardCurve', k=rng.choice((1, 1, 2, 3)))
            s['domc'], s['forc'] = self.ref(base), self.ref(rng.choice(pool))
            self.new(s)


def plan(rng, tier):
    gen = FxGen(rng, themes=('fx',)).build()
    world = deepcopy(gen.world)
    hist = FeedHist(rng, gen)
    fx = gen.of('fx')[0]
    hist.weights = {k: 0 for k in hist.weights}
    hist.weights.update(fxadd=3, set=rng.choice((0, 1, 3)))
    loss, bad, cut = (rng.choice((0, .2)), rng.choice((0, .2)),
                      rng.choice((0, .3)))
    pub, ops, held = [], [], []
    for _ in range(rng.choice((2, 5, 10, 16))):
        op = hist.next()
        if op is None:
            continue
        if op[0] == 'fxadd':
            op[2] = rng.choice(CCYS)
            op = hist.partly(op)
            if rng.random() < .25:
                op[0] = 'fxset'
                if rng.random() < .5:   # as of about the origin
                    n = min(world['objs'][world['objs'][fx]['domc']['ref']][
                        'dom'])
                    op.append([[n + k, r6(op[4] * rng.uniform(.9, 1.1))]
                               for k in sorted(rng.sample(
                                   (-9, -2, 0, 3, 40), rng.randint(1, 3)))])
        track(gen, ['fxadd'] + op[1:5] if op[0] == 'fxset' else op)
        k = len(pub)
        pub.append(op)
        if rng.random() < loss:
            continue
        if rng.random() < .2:
            held.append(k)
            continue
        if rng.random() < cut:
            ops.append(['cut', k, rng.randint(1, 30),
                        rng.choice(FeedHist.EXCS)])
        ops.append(['msg', k])
        if held and rng.random() < .4:
            ops.append(['msg', held.pop(rng.randrange(len(held)))])
        if rng.random() < bad:
            ops.append(['bad', fx, rng.choice(CCYS), rng.choice(BAD)])
        if rng.random() < .1:
            ops.append(['ckpt', rng.random() < .2])
        if rng.random() < .07:
            ops.append(['crash'])
        if rng.random() < .5:
            ops.append(['audit', fx, sorted({0, gen.date(-10), gen.date(0),
                                             gen.date(0)})])
        c = gen.of('FxForwardCurve')
        if c and rng.random() < .5:
            ops.append(['check', [['fwd', gen.pick(c), gen.date()],
                                  ['val', gen.pick(c), gen.date()]]])
    ops.append(['heal', len(pub)])
    ops.append(['audit', fx, sorted({0, gen.date(0), gen.date(0)})])
    return {'world': world, 'pub': pub, 'ops': ops}


def show(p):
    return {'world': p['world'], 'pub': p['pub'], 'ops': p['ops']}


class FxDesk(Desk):
    def matrix(self, i, ns):
        """every pair on every way it can be asked"""
        x, env = self.live.get(i), self.live.env
        out = {}
        for d, f in sorted(x):
            rows = out['%s/%s' % (d, f)] = []
            for n in ns:
                try:
                    rows.append(canon([
                        x[d, f](env.d(n)), x[d][f](env.d(n)),
                        x.get_forward_price(d, f, env.d(n))]))
                except Exception as e:
                    rows.append(type(e).__name__)
        return out

    def bad(self, i, ccy, what):
        x = self.live.get(i)
        curve = x.domestic_curve
        o = curve.origin
        args = {'int spot': (ccy, curve, 2), 'no curve': (ccy, None, 1.1),
                'number for curve': (ccy, .03, 1.1),
                'number for currency': (7, curve, 1.1),
                'volatility for curve':
                (ccy, dcf.ForwardCurve([o], [1.2]), 1.1),
                'none spot': (ccy, curve, None)}[what]
        before = self.matrix(i, [0, 200])
        try:
            x.add(*args)
            out = 'ok'
        except Exception as e:
            out = type(e).__name__
        if out == 'ok':
            return out, 'an addition with %s is accepted' % what
        if self.matrix(i, [0, 200]) != before:
            return out, 'a refused addition (%s) changed the pairs' % what
        return out, None

    def cut(self, k, at, exc, fx):
        """a message interrupted at a collaborator call"""
        op = self.pub[k]
        if op[0] not in ('fxadd', 'fxset') or op[1] not in \
                self.live.world['objs'] or \
                self.seq.get(str(topic(op)), -1) >= k:
            return 'skip', None
        before = self.matrix(op[1], [0, 200])
        SEAM.arm(at, exc)
        try:
            out = self.live.apply(op)
        except BaseException as e:  # cancelled
            out = type(e).__name__
        finally:
            fired = SEAM.fired
            SEAM.disarm()
        SEAM.on = True
        if out == 'ok':
            self.seq[str(topic(op))] = k
        elif self.matrix(op[1], [0, 200]) != before:
            return out, 'an interrupted addition changed the pairs'
        elif not fired:
            return out, 'an addition ended in %s' % out
        return [out, fired], None


def run(p):
    SEAM.reset()
    setup()
    try:
        desk = FxDesk(p)
        for i in p['world']['objs']:
            desk.live.get(i)
    except Exception as e:
        return {'events': ['unbuildable', type(e).__name__], 'checks': [],
                'stats': {}, 'bad': None}
    events, checks, bad = [], [], None
    st = {'messages': 0, 'refused': 0, 'interrupted': {}, 'crashes': 0,
          'audits': 0}
    for op in p['ops']:
        SEAM.on = True
        e = r = None
        if op[0] in ('msg', 'cut') and op[1] >= len(p['pub']):
            continue
        if op[0] == 'msg':
            e = desk.apply(op[1])
            st['messages'] += 1
            if e not in ('ok', 'old', 'unknown'):
                r = 'message %s ended in %s' % (p['pub'][op[1]], e)
        elif op[0] == 'cut':
            e, r = desk.cut(op[1], op[2], op[3], None)
            if isinstance(e, list) and e[1]:
                k = '%s at %s' % (op[3], e[1])
                st['interrupted'][k] = st['interrupted'].get(k, 0) + 1
        elif op[0] == 'bad':
            if op[1] in p['world']['objs']:
                e, r = desk.bad(*op[1:])
                st['refused'] += 1
        elif op[0] == 'ckpt':
            desk.checkpoint(op[1])
        elif op[0] == 'crash':
            desk.crash()
            st['crashes'] += 1
        elif op[0] == 'heal':
            e = desk.heal(op[1])
            if any(x not in ('ok', 'old', 'unknown') for x in e):
                r = 'resynchronisation ended in %s' % e
        elif op[0] == 'audit' and op[1] in p['world']['objs']:
            e = desk.matrix(op[1], op[2])
            st['audits'] += 1
            checks.append([deepcopy(desk.live.world), op, e])
        elif op[0] == 'check':
            qs = [q for q in op[1] if known(desk, q)]
            e = [desk.live.q.run(q) for q in qs]
            checks.append([deepcopy(desk.live.world), op[:1] + [qs], e])
        events.append([op[0], e])
        bad = bad or r
    st['simulated_steps'] = SEAM.total
    return {'events': events, 'checks': checks, 'stats': st, 'bad': bad}


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-6)


def audit(world, op, m, n):
    """the matrix against the rules and against itself"""
    fx = Ref(world).obj(op[1])
    cc = sorted(fx.spot)
    pairs = sorted('%s/%s' % (a, b) for a in cc for b in cc
                   if a != b or a == fx.base)
    if sorted(m) != pairs:
        return 'pairs %s, currencies %s' % (sorted(m), cc)
    rules = {}
    for pair in pairs:
        a, b = pair.split('/')
        for k, (x, row) in enumerate(zip(op[2], m[pair])):
            try:
                want = fx.fwd(a, b, fx.ref.d(x))
            except (Undefined, ZeroDivisionError, OverflowError):
                n['undefined'] += 1
                continue
            if isinstance(row, str):
                return '%s at %s raises %s' % (pair, x, row)
            if row[0] != row[1] or row[0] != row[2]:
                return '%s at %s differs by the way it is asked for: %s' % (
                    pair, x, row)
            n['ok'] += 1
            rules[pair, k] = row[0]
            if not near(row[0], want):
                return '%s at %s is %r, spots and discount factors give %r' \
                    % (pair, x, row[0], want)
    for (pair, k), v in rules.items():
        a, b = pair.split('/')
        inv = rules.get(('%s/%s' % (b, a), k))
        if inv is not None and not near(v * inv, 1.):
            return '%s and its inverse are %r and %r' % (pair, v, inv)
        for c in cc:
            u, w = (rules.get(('%s/%s' % (b, c), k)),
                    rules.get(('%s/%s' % (a, c), k)))
            if u is not None and w is not None and not near(v * u, w):
                return '%s times %s/%s is %r, not %r' % (pair, b, c, v * u, w)


def execute(p, wall=60.):
    st, r = fork_json(lambda: run(p), wall)
    if st == 'hang':
        return {'violation': {'class': 'hang', 'sig': 'hang',
                              'what': 'the run did not finish'},
                'events': ['hang'], 'stats': {}}
    if st != 'ok':
        return {'violation': None, 'harness': str(r), 'events': [],
                'stats': {}}
    res = {'violation': None, 'events': r['events'], 'stats': r['stats'],
           'trivial': len(r['checks']) < 2}
    if r['bad']:
        res['violation'] = {'class': 'message', 'sig': 'message',
                            'what': r['bad']}
        return res
    n = {'ok': 0, 'undefined': 0}
    for world, op, got in r['checks']:
        if op[0] == 'audit':
            w = audit(world, op, got, n)
            if w:
                res['violation'] = {'class': 'matrix', 'sig': 'matrix',
                                    'what': w}
                return res
            continue
        ref = Ref(world)
        for q, o in zip(op[1], got):
            c = ref.check(q, o)
            if c not in n:
                res['violation'] = {'class': 'ref:' + q[0],
                                    'sig': 'ref/' + q[0],
                                    'what': '%s %s' % (q, c)}
                return res
            n[c] += 1
    res['stats']['pairs_compared'] = n['ok']
    res['stats']['pairs_not_defined_by_the_rules'] = n['undefined']
    return res


def shrink(p):
    yield from shrink_ops(p)
    for i, op in enumerate(p['pub']):
        if op != ['spread', 'none', None]:
            cand = deepcopy(p)
            cand['pub'][i] = ['spread', 'none', None]
            yield cand
    for cand in shrink_world(dict(p, ops=p['ops'] + [p['pub']])):
        cand['ops'] = cand['ops'][:-1]
        yield cand


assert IR
