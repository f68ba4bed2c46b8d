"""what surrounds an interpreter: clock, time zone, installed packages;
to be set up before dcf is imported"""
import datetime
import os
import sys
import time

REAL_DATE, REAL_DATETIME = datetime.date, datetime.datetime


class Clock(object):
    """the wall clock of the simulated machine"""

    def __init__(self):
        self.now = 1.6e9    # September 2020
        self.reads = 0

    def time(self):
        self.reads += 1
        return self.now


CLOCK = Clock()


class Meta(type):
    """the patched classes stand for the real ones; those derived from them
    for themselves"""
    real = {}

    def __instancecheck__(cls, x):
        r = Meta.real.get(cls)
        return isinstance(x, r) if r else type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        r = Meta.real.get(cls)
        return issubclass(c, r) if r else type.__subclasscheck__(cls, c)


class SimClockDate(REAL_DATE, metaclass=Meta):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(CLOCK.time())


class SimClockDatetime(REAL_DATETIME, metaclass=Meta):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(CLOCK.time(), tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(CLOCK.time())


Meta.real.update({SimClockDate: REAL_DATE,
                  SimClockDatetime: REAL_DATETIME})


def patch_clock():
    t = time
    local, gm, ctime, strf = t.localtime, t.gmtime, t.ctime, t.strftime

    def now(x):
        return CLOCK.time() if x is None else x
    t.time = CLOCK.time
    t.time_ns = lambda: int(CLOCK.time() * 1e9)
    for n in ('monotonic', 'perf_counter'):
        setattr(t, n, CLOCK.time)
        setattr(t, n + '_ns', t.time_ns)
    t.localtime = lambda x=None: local(now(x))
    t.gmtime = lambda x=None: gm(now(x))
    t.ctime = lambda x=None: ctime(now(x))
    t.strftime = lambda f, x=None: strf(
        f, local(CLOCK.time()) if x is None else x)
    datetime.date, datetime.datetime = SimClockDate, SimClockDatetime


class Missing(object):
    """packages that are not installed"""

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names or name in self.names:
            raise ModuleNotFoundError('No module named %r' % name, name=name)


MISSING = Missing(())


def forget(name):
    """take a package away, also from those who import it lazily"""
    MISSING.names.add(name)
    for m in list(sys.modules):
        if m == name or m.startswith(name + '.'):
            STASH[m] = sys.modules.pop(m)


def bring_back(name):
    MISSING.names.discard(name)
    for m in list(STASH):
        if m == name or m.startswith(name + '.'):
            sys.modules[m] = STASH.pop(m)


STASH = {}


def prepare(env):
    CLOCK.now = env.get('now', CLOCK.now)
    if env.get('tz'):
        os.environ['TZ'] = env['tz']
        time.tzset()
    sys.meta_path.insert(0, MISSING)
    for n in env.get('missing', ()):
        MISSING.names.add(n)
    patch_clock()
