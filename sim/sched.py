"""Threads of the library under a scheduler that is part of the scenario.

Every thread is a real one, but only the holder of the baton runs. The baton
passes at the source lines of pdfme which the scenario names, so that one
scenario is one interleaving. Locks made by pdfme give the baton away instead
of blocking."""
import _thread
import os
import sys
import threading

from . import world
from .core import Violation

PKG = world.PKG
active = [None]     # the scheduler that is running


class Stuck(BaseException):
    pass


class Lock:
    """What pdfme gets for threading.Lock and threading.RLock"""

    def __init__(self, real, reentrant):
        self.real = real
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        if not blocking or active[0] is None:
            return self.real.acquire(blocking, timeout)
        n = 0
        while not self.real.acquire(False):
            if timeout is not None and timeout >= 0 and n > 3:
                return False
            n += 1
            if n > 200:
                active[0].stuck = True
                raise Stuck()
            active[0].give_way()
        return True

    def release(self):
        self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install():
    """Before pdfme is imported."""
    for name, again in (('Lock', False), ('RLock', True)):
        def make(real=getattr(threading, name), again=again):
            f = sys._getframe(1).f_code.co_filename
            return Lock(real(), again) if f.startswith(PKG) else real()
        setattr(threading, name, make)


class Scheduler:
    def __init__(self, jobs, switches, log, interrupts=()):
        """jobs: functions. switches: [how, count, who]. interrupts: by job,
        (line, exception) or None"""
        self.jobs = jobs
        self.switches = switches
        self.log = log
        self.interrupts = list(interrupts) + [None] * len(jobs)
        n = len(jobs)
        self.baton = [_thread.allocate_lock() for _ in range(n)]
        for b in self.baton:
            b.acquire()
        self.done = [False] * n
        self.results = [None] * n
        self.lines = [0] * n
        self.places = [set() for _ in range(n)]
        self.fired = [False] * n
        self.end = _thread.allocate_lock()
        self.end.acquire()
        self.now = 0
        self.at = 0         # next switch
        self.left = None
        self.trace = []
        self.stuck = False
        self.load()

    def load(self):
        """Prepare for the next switch"""
        if self.at < len(self.switches):
            s = self.switches[self.at]
            if not isinstance(s, list) or len(s) != 3 or not isinstance(s[1], int):
                from .core import Invalid
                raise Invalid('switch')
            self.how, self.left, self.who = s
        else:
            self.how, self.left = None, None

    def pass_to(self, k):
        me = self.now
        if k == me:
            return
        self.now = k
        self.log.n('switches')
        self.baton[k].release()
        self.baton[me].acquire()

    def give_way(self):
        n = len(self.jobs)
        for d in range(1, n):
            k = (self.now + d) % n
            if not self.done[k]:
                self.log.n('lock waits')
                self.pass_to(k)
                return

    def point(self, me, frame):
        """A source line of pdfme is about to run in thread me"""
        self.lines[me] += 1
        it = self.interrupts[me]
        if it is not None and self.lines[me] > it[0] and not self.fired[me]:
            self.fired[me] = True
            self.log.fault('interrupt:line')
            raise it[1]()
        if self.left is None:
            return
        how = self.how
        file = frame.f_code.co_filename
        if how == 't':
            self.left -= 1
        elif how == 'n':
            p = (file, frame.f_lineno)
            if p in self.places[me]:
                return
            self.places[me].add(p)
            self.left -= 1
        elif os.path.basename(file) == how:
            self.left -= 1
        else:
            return
        if self.left <= 0:
            at = '%s:%d' % (os.path.basename(file), frame.f_lineno)
            alive = [k for k in range(len(self.jobs)) if not self.done[k] and k != me]
            who = self.who
            self.at += 1
            self.load()
            if alive:
                k = alive[who % len(alive)]
                self.log.state('switch', at)
                self.trace.append((me, k, at))
                self.pass_to(k)

    def body(self, me):
        self.baton[me].acquire()

        def local(frame, event, arg):
            if event == 'line':
                self.point(me, frame)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(PKG) else None
        try:
            sys.settrace(tracer)
            try:
                v = self.jobs[me]()
            finally:
                sys.settrace(None)
            self.results[me] = ('done', v)
        except BaseException as e:
            self.results[me] = ('raised', e)
        self.done[me] = True
        for d in range(1, len(self.jobs)):
            k = (me + d) % len(self.jobs)
            if not self.done[k]:
                self.now = k
                self.baton[k].release()
                return
        self.end.release()

    def run(self):
        active[0] = self
        threads = [threading.Thread(target=self.body, args=(k,), daemon=True)
                   for k in range(len(self.jobs))]
        for t in threads:
            t.start()
        self.now = 0
        self.baton[0].release()
        self.end.acquire()
        for t in threads:
            t.join()
        active[0] = None
        if self.stuck:
            raise Violation('deadlock', 'a lock is never released')
        self.log.event(self.trace)
        return self.results
