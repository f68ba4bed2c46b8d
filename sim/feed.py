"""A valuation desk fed by a publisher over an unreliable network.

The publisher owns the truth: a seeded sequence of updates (quotes, fixings,
spreads, rates, payoff terms, model settings, re-linked curves, fx spots).
Each is a numbered message on a topic.  The network delays, reorders,
duplicates, loses and corrupts messages.  The desk applies what is newer than
what it has, values its book while the clock moves, is interrupted by faults
of collaborators, checkpoints its objects as bytes, crashes, restarts from the
last checkpoint that reached the disk, and after a heal catches up.  All
objects are real dcf objects; the reference model answers from the data that
was applied.
"""
import pickle
from copy import deepcopy
from math import exp

from .gen import Gen, r6
from .history import HistGen, Live, setup, track
from .procs import fork_json
from .ref import Ref, Undefined
from .seam import SEAM
from .shrink import shrink_ops, shrink_queries, shrink_world
from .world import IR

MORE = ('BinaryNormalOptionPayOffModel', 'BinaryIntrinsicOptionPayOffModel',
        'BinaryDisplacedLogNormalOptionPayOffModel',
        'DisplacedLogNormalOptionPayOffModel', 'NormalOptionPayOffModel')


class FeedGen(Gen):
    """book of the desk; the clock drives valuation dates"""
    more = MORE
    more_greeks = 'pgamma', 'pvega', 'ptheta'
    clock = 0
    product_kinds = 'bd', 'float', 'date', 'dt'

    def new(self, spec):
        getattr(self, 'new_' + spec['t'], lambda s: None)(spec)
        return super().new(spec)

    def new_list(self, s):
        rng, c = self.rng, s['cls']
        if c == 'bond':
            if rng.random() < .5:
                kind = rng.choice(('amortize', 'annuity', 'same', 'consumer',
                                   'bullet'))
                s['plan'] = [kind, s['amt']]
                if kind in ('annuity', 'consumer') and rng.random() < .7:
                    s['plan'].append(
                        0. if rng.random() < .1 else
                        r6(rng.uniform(.001, .05)))
            if rng.random() < .2:
                s['fixoff'] = 2
            if rng.random() < .2:
                s['payoff'] = 3
            if rng.random() < .3:
                s['period'] = 6
        if c in ('bond', 'interest_rate_swap'):
            if rng.random() < .5:
                s['conv'] = rng.choice(('mod_follow', 'follow', 'previous',
                                        'mod_previous', 'no'))
            if rng.random() < .5:
                s['hols'] = sorted({rng.choice((
                    s['end'], s['end'] - 1, s['end'] - 91, s['end'] + 1,
                    rng.randint(0, s['end'])))
                    for _ in range(rng.randint(0, 5))})
            if rng.random() < .2:
                s['start'] = rng.choice((-3, 12, 45))
        if c == 'interest_rate_swap':
            if rng.random() < .2:
                s['fixoff'] = 2
            if rng.random() < .2:
                s['payoff'] = 3
            if rng.random() < .4:
                s['rate2'] = r6(rng.uniform(-.01, .05))
        if c.startswith('Option') and rng.random() < .2:
            s['payoff'] = 3

    def new_curve(self, s):
        if s['cls'] == 'ForwardCurve' and len(s['dom']) == 1 and \
                self.rng.random() < .4:
            s['ctor'] = self.rng.choice(('price', 'number'))
            s['origin'] = s['dom'][0]

    def new_model(self, s):
        if s['cls'] == 'Binary':
            if None not in s.values() and self.rng.random() < .4:
                s['inner'] = 'formula'

    def query(self, oid=None):
        rng, x = self.rng, self.rng.random()
        if x < .05:
            return self.function(rng.choice(sorted(self.objs, key=int)))
        if x < .1:
            i = self.pick(self.of('curve'))
            if i:
                return ['rtab', i, *self.grids()]
        if x < .13:
            c = self.of('Curve')
            if c and rng.random() < .3:
                c = self.of('DateCurve') or c
            if c:
                return ['alg', self.pick(c), rng.choice('+-*/'),
                        self.pick(c)]
        q = super().query(oid)
        if q[0] == 'fxc' and rng.random() < .3:
            q[0] = 'fxagain'
        return q

    STEPS = ('left', 'constant', 'right', 'nearest', 'linear', 'loglinear')

    def itp(self, i):
        """an interpolation used by itself"""
        rng = self.rng
        name = rng.choice(self.STEPS + ('flat', 'default', 'no', 'zero',
                                        'loglinearrate', 'logconstantrate'))
        if rng.random() < .4:
            name = [rng.choice(self.STEPS) for _ in range(rng.randint(1, 3))]
        k = rng.randint(1, 5)
        xs = rng.sample([0., .25, .5, 1., 1.5, 2., 3., 5.], k)
        ys = [r6(rng.uniform(.1, 3.)) for _ in xs]
        x = rng.choice((rng.choice(xs), r6(rng.uniform(-1., 6.))))
        return ['itp', i, name, xs, ys, x,
                rng.choice(('list', 'dict', 'in'))]

    def function(self, i):
        rng = self.rng
        if rng.random() < .25:
            return self.itp(i)
        if rng.random() < .4:
            kind = rng.choice(('amortize', 'annuity', 'same', 'consumer',
                               'bullet', 'outstanding'))
            n, a = rng.randint(1, 12), r6(rng.uniform(.5, 1e4))
            if kind == 'outstanding':
                return ['plan', i, kind, [r6(rng.uniform(-5, 50))
                                          for _ in range(n)], a,
                        rng.random() < .5]
            q = ['plan', i, kind, n, a]
            if kind in ('annuity', 'consumer') and rng.random() < .7:
                q.append(0. if rng.random() < .1 else
                         r6(rng.uniform(.0005, .08)))
            return q
        f = rng.choice((
            'simple_compounding', 'simple_rate', 'continuous_compounding',
            'continuous_rate', 'periodic_compounding', 'periodic_rate',
            'annually_compounding', 'semi_compounding',
            'quarterly_compounding', 'monthly_compounding',
            'daily_compounding'))
        r, t = r6(rng.uniform(-.02, .09)), r6(rng.uniform(.05, 12))
        q = ['comp', i, f, r6(exp(-r * t)) if f.endswith('_rate') else r, t]
        if f.startswith('periodic'):
            q.append(rng.choice((1, 2, 4, 12, 52)))
        return q

    def vdate(self):
        return self.rng.choice((None, self.clock, self.clock, self.clock, 0))


class FeedHist(HistGen):
    def __init__(self, rng, gen):
        super().__init__(rng, gen)
        for k in ('q', 'fq', 'badset'):
            self.weights[k] = 0
        if not any(self.weights.values()):
            self.weights['set'] = 1

    def g_pattr(self):
        op = super().g_pattr()
        if op and op[3] == 'fixed_rate':
            return None     # shares its topic with the rate of the list
        return op

    def next(self):
        for _ in range(30):
            op = self.op()
            if op[0] != 'q':
                return op
        return None


def topic(op):
    k = op[0]
    if k in ('set', 'pattr', 'mattr', 'lattr', 'cattr'):
        return [k] + op[1:(4 if k == 'pattr' else 3)]
    if k in ('fix', 'unfix'):
        return ['fix', op[1], op[2]]
    if k in ('fxadd', 'fxset'):
        return ['fxadd', op[1], op[2]]
    return [k, op[1]]   # the class setting, or the object


def plan(rng, themes, query, cls=FeedGen):
    gen = cls(rng, themes=themes).build()
    world = deepcopy(gen.world)
    hist = FeedHist(rng, gen)
    p_loss = rng.choice((0, .1, .3))
    p_dup = rng.choice((0, .2))
    p_bad = rng.choice((0, .1))
    lag = rng.choice((0, 1, 4))
    p_fault = rng.choice((0, .2, .5))
    p_crash = rng.choice((0, 0, .15))
    p_ckpt = rng.choice((.1, .4))
    pub, ops, wire = [], [], []
    for tick in range(rng.choice((2, 4, 8))):
        for _ in range(rng.choice((0, 1, 2, 4))):
            op = hist.next()
            if op is None:
                continue
            track(gen, op)
            k = len(pub)
            pub.append(op)
            if rng.random() >= p_loss:
                wire.append([tick + rng.randint(0, lag), k, 0])
            if rng.random() < p_dup:
                wire.append([tick + rng.randint(0, lag + 2), k, 0])
            if rng.random() < p_bad and op[0] == 'set':
                wire.append([tick + rng.randint(0, lag), k, 1])
        due = [w for w in wire if w[0] <= tick]
        wire = [w for w in wire if w[0] > tick]
        rng.shuffle(due)
        for _, k, bad in due:
            ops.append(['msg', k, rng.choice((None, 'bad')) if bad else 0])
        gen.clock = max(0, gen.clock + rng.choice((0, 1, 10, 30, 30, -20)))
        if rng.random() < p_ckpt:
            ops.append(['ckpt', rng.random() < .2])
        if rng.random() < p_crash:
            ops.append(['crash'])
        for _ in range(rng.choice((0, 1, 2))):
            if rng.random() < p_fault:
                ops.append(['fq', query(gen), int(10 ** rng.uniform(0, 2.5)),
                            rng.choice(HistGen.EXCS)])
        qs = [query(gen) for _ in range(rng.choice((1, 2, 4)))]
        ops.append(['check', qs])
        if rng.random() < .1:
            ops.append(['heal', len(pub)])
    ops.append(['heal', len(pub)])
    ops.append(['check', [query(gen) for _ in range(rng.choice((4, 8)))]])
    return {'world': world, 'pub': pub, 'ops': ops}


def show(p):
    return {'world': p['world'], 'pub': p['pub'], 'ops': p['ops']}


class Desk(object):
    def __init__(self, p):
        self.pub = p['pub']
        self.world0 = p['world']
        self.live = Live(p['world'])
        self.seq = {}
        self.disk = None
        self.kind = p['world']['kind']

    def apply(self, k, value=0):
        """one message; -> outcome"""
        op = self.pub[k]
        t = str(topic(op))
        if value != 0:      # corrupted on the wire
            return self.live.apply(['set', op[1], op[2], value, False])
        if self.seq.get(t, -1) >= k:
            return 'old'
        if op[1] not in self.live.world['objs'] and op[0] != 'flag':
            return 'unknown'
        if op[0] == 'spread' and op[2] is not None and \
                self.live.world['objs'][op[1]].get('spread') is not None:
            self.live.apply(['spread', op[1], None])
        out = self.live.apply(op)
        if out == 'ok':
            self.seq[t] = k
        return out

    def checkpoint(self, torn):
        if self.kind == 'bd':   # business dates can not be pickled
            data = None
        else:
            data = pickle.dumps(self.live.b.cache)
        if torn:                # fails its checksum: not durable
            return
        self.disk = data, deepcopy(self.live.world), dict(self.seq)

    def crash(self):
        setup((self.disk[1] if self.disk else self.world0).get('flags'))
        if self.disk is None:
            self.live, self.seq = Live(self.world0), {}
            return
        data, world, seq = self.disk
        if data is None:
            self.live = Live(world)
        else:
            self.live = Live.adopt(world, pickle.loads(data))
        self.seq = dict(seq)

    def heal(self, upto):
        """the publisher resends the latest message of every topic"""
        last = {}
        for k, op in enumerate(self.pub[:upto]):
            last[str(topic(op))] = k
        return [self.apply(k) for k in sorted(last.values())]


def daily(world):
    """may a world be refused? curves made from short rates, or turned into
    these, want dates that understand a step of '1D'; and curves made of others
    which are nothing at some date have no logarithm"""
    casts = {i: s for i, s in world['objs'].items() if s.get('cast')}
    if world['kind'] not in ('sim', 'bd') and any(
            'ShortRateCurve' in (s['cls'], s['cast']['cls'])
            for s in casts.values()):
        return True
    rules = Ref(world)
    for i in casts:
        try:
            rules.obj(i)
        except (Undefined, ZeroDivisionError, OverflowError, ValueError):
            return True
    return False


def run(p):
    SEAM.reset()
    setup()
    try:
        desk = Desk(p)
    except Exception as e:
        return {'events': ['unbuildable', type(e).__name__], 'checks': [],
                'stats': {'worlds_refused_by_constructors': 1},
                'bad': None if daily(p['world']) else
                'well-formed objects are refused: %r' % e}
    events, checks, bad = [], [], None
    st = {'messages': {}, 'crashes': 0, 'checkpoints': 0, 'torn': 0,
          'heals': 0, 'faults_fired': {}, 'simulated_days': 0}
    for k, op in enumerate(p['ops']):
        SEAM.on = True
        if op[0] == 'msg':
            if op[1] >= len(p['pub']):
                continue
            out = desk.apply(op[1], op[2])
            valid = p['pub'][op[1]]
            key = 'corrupted' if op[2] != 0 else \
                'late or duplicate' if out == 'old' else 'applied'
            st['messages'][key] = st['messages'].get(key, 0) + 1
            if op[2] != 0 and out == 'ok' or op[2] == 0 and \
                    out not in ('ok', 'old', 'unknown'):
                bad = bad or 'message %s (%s) ended in %s' % (
                    valid, 'corrupted' if op[2] != 0 else 'intact', out)
            events.append(['msg', op[1], out])
        elif op[0] == 'ckpt':
            desk.checkpoint(op[1])
            st['torn' if op[1] else 'checkpoints'] += 1
        elif op[0] == 'crash':
            desk.crash()
            st['crashes'] += 1
        elif op[0] == 'heal':
            outs = desk.heal(op[1])
            st['heals'] += 1
            events.append(['heal', outs])
            if any(o not in ('ok', 'old', 'unknown') for o in outs):
                bad = bad or 'resynchronisation ended in %s' % outs
        elif op[0] == 'fq':
            if not known(desk, op[1]):
                continue
            out, fired = desk.live.op_fq(*op[1:])
            if fired:
                key = '%s at %s' % (op[3], fired)
                st['faults_fired'][key] = st['faults_fired'].get(key, 0) + 1
            events.append(['fq', out])
        elif op[0] == 'check':
            qs = [q for q in op[1] if known(desk, q)]
            res = [desk.live.q.run(q) for q in qs]
            checks.append([deepcopy(desk.live.world), qs, res])
            events.append(['check', res])
    st['simulated_steps'] = SEAM.total
    return {'events': events, 'checks': checks, 'stats': st, 'bad': bad}


def known(desk, q):
    objs = desk.live.world['objs']
    ids = [x for y in q[1:] for x in (y if isinstance(y, list) else [y])
           if isinstance(x, str) and x.isdigit()]
    return all(i in objs for i in ids)


def execute(p, wall=60.):
    st, r = fork_json(lambda: run(p), wall)
    if st == 'hang':
        return {'violation': {'class': 'hang', 'sig': 'hang',
                              'what': 'the run did not finish'},
                'events': ['hang'], 'stats': {}}
    if st != 'ok':
        return {'violation': None, 'harness': str(r), 'events': [],
                'stats': {}}
    res = {'violation': None, 'events': r['events'], 'stats': r['stats'],
           'trivial': not r['checks']}
    if r['bad']:
        res['violation'] = {'class': 'message', 'sig': 'message',
                            'what': r['bad']}
        return res
    n = {'ok': 0, 'undefined': 0}
    by, un = {}, {}
    for world, qs, outs in r['checks']:
        ref = Ref(world)
        for q, o in zip(qs, outs):
            c = ref.check(q, o)
            if c not in n:
                res['violation'] = {
                    'class': 'ref:' + q[0], 'sig': 'ref/' + q[0],
                    'what': '%s %s' % (q, c)}
                return res
            n[c] += 1
            if c == 'undefined':
                un[q[0]] = un.get(q[0], 0) + 1
            if c == 'ok':
                by[q[0]] = by.get(q[0], 0) + 1
    res['stats']['answers_compared'] = by
    res['stats']['answers_not_defined_by_the_rules'] = un
    return res


def shrink(p):
    yield from shrink_ops(p)
    yield from shrink_queries(p)
    for i, op in enumerate(p['pub']):
        # messages no longer delivered become inert
        if op[0] != 'spread' or op[2] is not None:
            cand = deepcopy(p)
            cand['pub'][i] = ['spread', 'none', None]
            if op != cand['pub'][i]:
                yield cand
    for cand in shrink_world(dict(p, ops=p['ops'] + [p['pub']])):
        cand['ops'] = cand['ops'][:-1]
        yield cand


assert IR and r6
