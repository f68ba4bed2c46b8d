"""Baton scheduler: real threads run the real code, but only the holder of the
baton runs; at every executed line (or bytecode) of dcf and at every
collaborator call the seeded schedule decides who runs next."""
import os
import random
import sys
import threading

from .collab import REPO
from .seam import SEAM, EXC, StepBudget

PREFIX = os.path.join(os.path.realpath(REPO), 'dcf') + os.sep
ALT = os.path.join(REPO, 'dcf') + os.sep


class Schedule(object):
    """decides, step by step; explicit switches or a seeded random mode"""

    def __init__(self, spec, total):
        self.spec = spec
        self.kind = spec['kind']
        if self.kind == 'explicit':
            self.at = {int(s): t for s, t in spec['switches']}
        elif self.kind == 'few':
            rng = random.Random(spec['seed'])
            self.at = {1 + int(u * max(total - 1, 0)): rng.random()
                       for u in spec['points']}
        else:
            self.rng = random.Random(spec['seed'])
            self.p = spec['p']

    def decide(self, step, tid, runnable):
        if self.kind == 'walk':
            if len(runnable) > 1 and self.rng.random() < self.p:
                return self.rng.choice([t for t in runnable if t != tid])
            return tid
        t = self.at.get(step)
        if t is None or len(runnable) < 2:
            return tid
        if self.kind == 'few':
            other = [x for x in runnable if x != tid]
            return other[int(t * len(other))]
        return t if t in runnable else tid


class Sched(object):
    def __init__(self, programs, schedule, faults=None, opcodes=False,
                 limit=5000000):
        self.programs = programs          # callables, one per thread
        self.n = len(programs)
        self.schedule = schedule
        self.faults = faults or {}        # tid -> [k, exc]
        self.opcodes = opcodes
        self.limit = limit
        self.sem = [threading.Semaphore(0) for _ in programs]
        self.done = threading.Semaphore(0)
        self.runnable = list(range(self.n))
        self.current = None
        self.step = 0
        self.steps = [0] * self.n
        self.hits = [0] * self.n
        self.switches = []
        self.sites = set()
        self.fired = []
        self.results = [None] * self.n
        self.over = False

    # -- preemption points ----------------------------------------------------
    def point(self, site=None):
        tid = self.current
        self.step += 1
        self.steps[tid] += 1
        if self.step > self.limit:
            self.over = True
            raise StepBudget('schedule')
        if self.schedule is None:
            return
        t = self.schedule.decide(self.step, tid, self.runnable)
        if t != tid:
            self.switches.append([self.step, t])
            if site is not None:
                self.sites.add('%s:%s' % site)
            self.current = t
            self.sem[t].release()
            self.sem[tid].acquire()

    def hook(self, label):
        """every collaborator call"""
        tid = self.current
        if tid is None:
            return
        self.hits[tid] += 1
        f = self.faults.get(str(tid))
        if f and self.hits[tid] == f[0]:
            self.fired.append('%s at %s' % (f[1], label))
            raise EXC[f[1]]('injected at %s call' % label)

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(PREFIX) or name.startswith(ALT):
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.point((os.path.basename(name), frame.f_lineno))
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point((os.path.basename(frame.f_code.co_filename),
                        frame.f_lineno))
        return self.local

    # -- threads ----------------------------------------------------------------
    def body(self, tid):
        self.sem[tid].acquire()
        sys.settrace(self.trace)
        try:
            self.results[tid] = self.programs[tid]()
        finally:
            sys.settrace(None)
            self.runnable.remove(tid)
            if self.runnable:
                self.current = self.runnable[0]
                self.sem[self.current].release()
            else:
                self.current = None
                self.done.release()

    def run(self):
        SEAM.hook = self.hook
        SEAM.on = True
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True)
              for i in range(self.n)]
        for t in ts:
            t.start()
        self.current = 0
        self.sem[0].release()
        self.done.acquire()
        for t in ts:
            t.join()
        SEAM.hook = None
        SEAM.on = False
        return self.results
