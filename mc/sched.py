"""Controlled scheduler for two or more threads: preemption at chosen lines of the code of /repo/ruleskit.

A plan is a list of (thread, lines): thread runs for that many traced lines, then the next element of the plan takes
over; when a plan element's thread is finished the next one runs; in the end every thread runs to completion. Only one
thread runs at a time. A thread that blocks on a lock held by a preempted thread makes the scheduler wake another one.
"""
import sys
import threading
import time

ROOT = "/repo/ruleskit/"


class Run:
    def __init__(self, bodies, plan, at_switch=None, trace=None, places=None, at_line=None):
        self.places, self.at_line = places, at_line  # the lines run by thread 0; called at each of them
        self.bodies, self.plan, self.at_switch = bodies, list(plan), at_switch
        n = len(bodies)
        self.trace = trace or [True] * n
        self.gate = [threading.Semaphore(0) for _ in range(n)]
        self.lines = [0] * n
        self.budget = [None] * n
        self.done = [False] * n
        self.result = [None] * n
        self.error = [None] * n
        self.current = None
        self.switches = 0
        self.blocked = 0
        self.finished = threading.Event()
        self.guard = threading.Lock()
        self.problem = None

    def _next(self, me=None):
        """Chooses the thread to run, and wakes it up. Returns it."""
        with self.guard:
            while self.plan:
                t, k = self.plan.pop(0)
                if not self.done[t]:
                    self.budget[t] = k
                    break
            else:
                left = [i for i in range(len(self.bodies)) if not self.done[i]]
                if not left:
                    self.finished.set()
                    return None
                # whoever did not just run first
                t = next((i for i in left if i != me), left[0])
                self.budget[t] = None
            self.current = t
        if t != me:
            self.switches += 1
            self.gate[t].release()
        return t

    def _local(self, t):
        def trace(frame, event, arg):
            if event == "line":
                self.lines[t] += 1
                if t == 0 and self.places is not None:
                    self.places.append((frame.f_code, frame.f_lineno))
                    if self.at_line is not None and self.problem is None:
                        self.problem = self.at_line(frame)
                b = self.budget[t]
                if b is not None and self.current == t:
                    if b <= 0:
                        self.budget[t] = None
                        if self.at_switch is not None and self.problem is None:
                            self.problem = self.at_switch(frame)
                        if self._next(t) != t:
                            self.gate[t].acquire()
                        if self.budget[t] is None and not self.plan:  # no more preemption of this thread
                            sys.settrace(None)
                            frame.f_trace = None
                            return None
                    else:
                        self.budget[t] = b - 1
            return trace

        return trace

    def _thread(self, t):
        local = self._local(t)

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        self.gate[t].acquire()
        if self.trace[t]:
            sys.settrace(glob)
        try:
            self.result[t] = self.bodies[t]()
        except BaseException as e:  # noqa
            self.error[t] = e
        finally:
            sys.settrace(None)
            self.done[t] = True
            if self.current == t or self.current is None:
                self._next(t)
            elif all(self.done):
                self.finished.set()

    def go(self, timeout=30):
        ths = [threading.Thread(target=self._thread, args=(t,), daemon=True) for t in range(len(self.bodies))]
        for th in ths:
            th.start()
        self._next()
        t0 = time.time()
        last = None
        while not self.finished.wait(0.3):
            now = list(self.lines)
            if now == last:  # the running thread does not advance: let another one run
                self.blocked += 1
                self._next(self.current)
            last = now
            if time.time() - t0 > timeout:
                return "the threads do not end (deadlock)"
        for th in ths:
            th.join(1)
        return self.problem
