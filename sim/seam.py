"""The one seam through which every collaborator call of a simulated run goes.

A *collaborator* is anything dcf calls back into: the date objects handed to
it, day count functions, interpolation factories, forward / volatility
callables, discount curves of a user, payoffs and option models of a user.
All of them are simulator classes that announce every call with `SEAM.hit`.
The seam counts the calls (simulated steps), raises the scheduled fault at the
scheduled call, returns corrupted values, lets the scheduler switch threads,
and enforces the step budget.
"""


class SimFault(Exception):
    """injected: a collaborator failed"""


class SimAbort(BaseException):
    """injected: the running operation was cancelled (not an Exception)"""


class StepBudget(BaseException):
    """a routine used more simulated steps than the budget allows"""


EXC = {
    'SimFault': SimFault,
    'SimAbort': SimAbort,
    'ValueError': ValueError,
    'ZeroDivisionError': ZeroDivisionError,
    'ArithmeticError': ArithmeticError,
    'KeyError': KeyError,
    'TypeError': TypeError,
    'AttributeError': AttributeError,
    'AssertionError': AssertionError,
    'OSError': OSError,
    'TimeoutError': TimeoutError,
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'StopIteration': StopIteration,
    'KeyboardInterrupt': KeyboardInterrupt,
    'GeneratorExit': GeneratorExit,
    'SystemExit': SystemExit,
}


class Seam(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.on = False       # count calls only while a routine is running
        self.count = 0        # collaborator calls of the current routine
        self.total = 0        # ... of the whole run: simulated steps
        self.labels = {}
        self.target = None    # raise `exc` at this call
        self.exc = None
        self.sticky = False   # an outage: every later call raises too, or
        #                       the given number of them
        self.fired = None     # label at which the fault fired
        self.fires = 0        # faults raised by this arming
        self.only = None      # restrict counting of faults to these labels
        self.budget = None
        self.hook = None      # scheduler / reentrancy hook, called as hook(label)
        self.corrupt = None   # (target, value): corrupted return value

    def arm(self, target=None, exc=None, only=None, corrupt=None,
            sticky=False):
        self.count = 0
        self.sticky = sticky
        self.fires = 0
        self.target = target
        self.exc = exc
        self.only = only
        self.fired = None
        self.corrupt = corrupt
        self.on = True

    def disarm(self):
        self.on = False
        self.target = self.exc = self.only = self.corrupt = None
        self.sticky = False
        n = self.count
        self.count = 0
        return n

    def hit(self, label):
        if not self.on:
            return
        self.total += 1
        if self.budget is not None and self.total > self.budget:
            raise StepBudget(label)
        if self.hook is not None:
            self.hook(label)
        if self.only is not None and label not in self.only:
            return
        self.count += 1
        if self.target is not None and self.count == self.target:
            self.fired = self.fired or label
            self.fires += 1
            if self.sticky is True or self.fires < self.sticky:
                self.target += 1
            else:
                self.target = None
            raise EXC[self.exc]('injected at %s call' % label)

    def ret(self, label, value):
        """possibly corrupted return value of a collaborator"""
        c = self.corrupt
        if c is not None and self.on and self.count >= c[0] \
                and self.fired is None:
            if len(c) < 3:      # once, and not for ever
                self.fired = label
                self.corrupt = None
            self.fires += 1
            return c[1]
        return value


SEAM = Seam()
