"""runs histories in interpreters of a simulated environment"""
import decimal
import gc
import json
import os
import random
import re
import subprocess
import sys
import tempfile
import threading
import time
import warnings
from copy import deepcopy

from . import envsetup
from .history import Live, setup
from .seam import SEAM

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ZONES = ('UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Apia',
         'XXX-13:45', 'YYY+11')
CLOCK = envsetup.CLOCK


def interpreter(env, jobs, wall=120., keep=False):
    """-> (status, list of event lists)"""
    e = {k: os.environ[k] for k in ('PATH', 'VERIF_REPO', 'HOME')
         if k in os.environ}
    e['PYTHONHASHSEED'] = str(env.get('hashseed', 0))
    e.update(MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', SIM_COLD='1')
    e.update(env.get('vars', {}))
    cmd = [sys.executable, '-B'] + env.get('flags', []) + [
        os.path.join(HERE, 'sim_env.py')]
    try:
        r = subprocess.run(cmd, input=json.dumps({
            'env': env, 'jobs': jobs, 'keep': keep}),
                           capture_output=True, text=True, env=e,
                           timeout=wall, cwd=env.get('cwd', HERE))
    except subprocess.TimeoutExpired:
        return 'hang', None
    if r.returncode:
        return 'died', r.stderr[-3000:]
    return 'ok', json.loads(r.stdout)


class Jumps(object):
    """the environment moves while dcf runs"""

    def __init__(self, spec):
        self.rng = random.Random(spec['seed'])
        self.p = spec['p']
        self.tmp = None
        self.n = {}

    KINDS = ('clock', 'clock', 'zone', 'cwd', 'gc', 'random', 'warnings',
             'recursion', 'switch', 'decimal', 'locale', 'variables',
             'collector', 'garbage')

    def __call__(self, label=None):
        if self.rng.random() >= self.p:
            return
        k = self.rng.choice(self.KINDS)
        self.n[k] = self.n.get(k, 0) + 1
        getattr(self, k)()

    def clock(self):
        CLOCK.now = max(0., CLOCK.now + self.rng.choice((
            1., 3600., 86400., -86400., 3e7, -3e7, 1e9, -1e9)))
        CLOCK.now = min(CLOCK.now, 4e9)

    def zone(self):
        os.environ['TZ'] = self.rng.choice(ZONES)
        time.tzset()

    def cwd(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='dst-env-')
        os.chdir(self.rng.choice((self.tmp, '/', HERE)))

    def gc(self):
        gc.collect()

    def collector(self):
        self.rng.choice((gc.disable, gc.enable,
                         lambda: gc.set_threshold(1)))()

    def garbage(self):
        self.junk = [object() for _ in range(self.rng.randint(0, 5000))]

    def random(self):
        random.seed(self.rng.random())

    def warnings(self):
        warnings.simplefilter(self.rng.choice(
            ('ignore', 'always', 'default', 'once')))

    def recursion(self):
        sys.setrecursionlimit(self.rng.choice((1000, 1500, 5000)))

    def switch(self):
        sys.setswitchinterval(self.rng.choice((1e-6, .005, 1.)))

    def decimal(self):
        decimal.getcontext().prec = self.rng.choice((1, 5, 28))

    def locale(self):
        import locale
        locale.setlocale(locale.LC_ALL, self.rng.choice(('C', 'C.utf8')))

    def variables(self):
        for k in ('LANG', 'LC_ALL', 'USER', 'HOME', 'DEBUG'):
            os.environ[k] = str(self.rng.random())

    def end(self):
        os.chdir(HERE)
        if self.tmp:
            os.rmdir(self.tmp)


ADDR = re.compile('0x[0-9a-f]+')


def text(f, x):
    try:
        return ADDR.sub('', f(x))
    except Exception as e:  # a rating beyond its masterscale has no name
        return ['raises', type(e).__name__]


def history(job, jumps, keep=None):
    SEAM.reset()
    setup(job['world'].get('flags'))
    try:
        live = Live(job['world'])
    except Exception as e:
        return ['unbuildable', type(e).__name__]
    out = []
    for op in job['ops']:
        SEAM.on = True
        SEAM.hook = jumps
        if jumps:
            jumps()
        if op[0] == 'repr':
            x = live.get(op[1])
            e = [text(f, x) for f in (str, repr)]
        elif op[0] == 'missing':
            # a package that never was there stays away
            envsetup.forget(op[1])
            e = None
        elif op[0] == 'installed':
            envsetup.bring_back(op[1])
            e = None
        elif op[0] in ('fq', 'q'):
            e = live.apply(op)
        elif op[0] == 'flag' or op[1] in live.world['objs']:
            e = live.apply(op)
        else:
            e = 'unknown'
        out.append(e)
        if keep is not None and op[0] == 'q' and op[1][0] in (
                'integrate', 'tvol', 'derivative'):
            keep.append([op[1], e, deepcopy(live.world)])
    SEAM.hook = None
    return out


def serve(todo):
    env = todo['env']
    jumps = Jumps(env['jumps']) if env.get('jumps') else None
    res, steps = [], [0]
    keep = [] if todo.get('keep') else None
    gc.collect()
    gc.freeze()

    def work():
        for job in todo['jobs']:
            res.append(history(job, jumps, keep))
            steps[0] += SEAM.total
    if env.get('thread'):
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    if jumps:
        jumps.end()
    assert len(res) == len(todo['jobs']), 'a job escaped'
    return {'events': res, 'keep': keep, 'jumps': jumps.n if jumps else {},
            'steps': steps[0], 'clock_reads': CLOCK.reads}
