"""Controlled interleaving of two threads at source-line granularity.

interleave(bodies, switches) runs the bodies in two real threads of which one runs at a time.  Control passes to the other
thread after the stated number of points of the traced package (its lines, or with calls=True the calls of its functions):
switches = [(0, p), (1, q), ...] means thread 0 runs up to its point p+1, then thread 1 runs q more, and so on; after the last
entry (or when a thread ends) the other runs on.
"""
import os
import sys
import threading

import pxmcmc

ROOT = os.path.realpath(pxmcmc.__path__[0]) + os.sep


class Stuck(Exception):
    pass


class _Run:
    def __init__(self, bodies, switches, on_switch, calls):
        self.bodies, self.on_switch, self.calls = bodies, on_switch, calls
        self.switches = list(switches)
        self.turn = threading.Condition()
        self.current = self.switches[0][0] if self.switches else 0
        self.left = self.switches[0][1] if self.switches else None
        self.k = 0
        self.done = [False, False]
        self.points = [0, 0]
        self.error = [None, None]
        self.files = {}

    def traced(self, filename):
        if filename not in self.files:
            self.files[filename] = os.path.realpath(filename).startswith(ROOT)
        return self.files[filename]

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def enter(frame, event, arg):
            if not self.traced(frame.f_code.co_filename):
                return None
            if self.calls:
                self.point(me)
                return None
            return local

        return enter

    def point(self, me):
        self.points[me] += 1
        if self.left is None:
            return
        if self.left == 0:
            self.k += 1
            if self.k < len(self.switches):
                self.left = self.switches[self.k][1]
            else:
                self.left = None
            if not self.done[1 - me]:
                self.pass_on(1 - me)
                self.wait(me)
        if self.left is not None:
            self.left -= 1

    def pass_on(self, to):
        with self.turn:
            self.current = to
            self.on_switch(to)
            self.turn.notify_all()

    def wait(self, me):
        with self.turn:
            while self.current != me:
                if not self.turn.wait(60):
                    raise Stuck("the other thread did not give control back")

    def thread(self, me):
        try:
            self.wait(me)
            sys.settrace(self.tracer(me))
            try:
                self.bodies[me]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.error[me] = e
        self.done[me] = True
        if not self.done[1 - me]:
            self.left = None
            self.pass_on(1 - me)


def interleave(bodies, switches, on_switch=lambda t: None, calls=False):
    """(points passed by each thread, exception of each thread or None)"""
    r = _Run(bodies, switches, on_switch, calls)
    on_switch(r.current)
    ts = [threading.Thread(target=r.thread, args=(i,), daemon=True) for i in (0, 1)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    if any(t.is_alive() for t in ts):
        raise Stuck("a thread did not finish")
    return r.points, r.error
