"""The step clock: executed calls, resumptions and jumps of the code under
test.  It is the simulated time of a run, the same
on every execution, and it ends whatever does not end by itself."""
import os
import sys

from .collab import dcf
from .seam import StepBudget

MON = sys.monitoring
TOOL = 4
PKG = os.path.dirname(dcf.__file__) + os.sep


class Steps(object):
    n = 0
    limit = None

    def start(self, limit):
        """count until stop; StepBudget beyond the limit"""
        if MON.get_tool(TOOL) is None:
            E = MON.events
            MON.use_tool_id(TOOL, 'steps')
            for e in (E.PY_START, E.PY_RESUME, E.JUMP):
                MON.register_callback(TOOL, e, self.event)
            MON.set_events(TOOL, E.PY_START | E.PY_RESUME | E.JUMP)
        self.n, self.limit = 0, limit

    def stop(self):
        self.limit = None
        return self.n

    def event(self, code, *_):
        f = code.co_filename
        if not f.startswith(PKG):
            return MON.DISABLE
        if self.limit is not None:
            self.n += 1
            if self.n > self.limit:
                self.limit = None
                raise StepBudget('%s %s' % (os.path.basename(f),
                                            code.co_name))


STEPS = Steps()
