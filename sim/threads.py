"""Threads of one simulated process under the seeded scheduler.

The threads are real Python threads, but one runs at a time; the running one may be
preempted whenever it reaches a line of the repository's code, and the scheduler
decides after how many lines and in favour of which thread.
"""
import os
import sys
import threading

from . import shim

GAPS = [0, 1, 1, 1, 2, 2, 3, 4, 5, 7, 9, 12, 16, 20, 26, 34, 45, 60, 80, 110, 160, 240, 400, 900]   # 0: not preempted again


class Threads:
    def __init__(self, funcs, mode, repo=None):
        """mode: 'line' counts every line towards the next preemption, 'new' only lines the thread reaches for the first time."""
        self.funcs, self.mode = funcs, mode
        self.repo = os.path.realpath(repo or os.environ.get("RMTSIM_REPO", "/repo")) + os.sep
        self.sems = [threading.Semaphore(0) for _ in funcs]
        self.live = list(range(len(funcs)))
        self.left = [0] * len(funcs)
        self.seen = [set() for _ in funcs]
        self.ticks = self.switches = 0
        self.current = None
        self.done = threading.Event()
        self.inside = {}                           # file name -> belongs to the repository

    def _gap(self, i):
        g = GAPS[shim.choose(len(GAPS), "gap")]
        self.left[i] = g or 1 << 60

    def _pass_on(self, i, targets):
        j = targets[shim.choose(len(targets), "thread")] if len(targets) > 1 else targets[0]
        if j != i:
            self.switches += 1
            self.current = j
            self.sems[j].release()
            return True
        return False

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.ticks += 1
                if self.mode == "new":
                    k = (frame.f_code, frame.f_lineno)
                    if k in self.seen[i]:
                        return local
                    self.seen[i].add(k)
                self.left[i] -= 1
                if self.left[i] <= 0 and len(self.live) > 1:
                    self._gap(i)
                    if self._pass_on(i, self.live):
                        self.sems[i].acquire()
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            if f not in self.inside:
                self.inside[f] = os.path.realpath(f).startswith(self.repo)
            return local if self.inside[f] else None

        return glob

    def _body(self, i):
        self.sems[i].acquire()
        self._gap(i)
        try:
            self.funcs[i](self._call, i)
        finally:
            sys.settrace(None)
            self.live.remove(i)
            if self.live:
                self._pass_on(i, self.live)
            else:
                self.done.set()

    def _call(self, i, f, /, *a, **k):
        """Run one library call of thread i, traced."""
        self.seen[i] = set()
        sys.settrace(self._tracer(i))
        try:
            return f(*a, **k)
        finally:
            sys.settrace(None)

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.funcs))]
        for t in ts:
            t.start()
        self.current = 0
        self._pass_on(-1, self.live)
        last = -1
        while not self.done.wait(5):               # a thread that waits for a lock another one holds: let the others on
            if self.ticks == last and len(self.live) > 1:
                self.sems[next(j for j in self.live if j != self.current)].release()
            last = self.ticks
        for t in ts:
            t.join(5)
        return self.switches
