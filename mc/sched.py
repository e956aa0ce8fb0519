"""Two threads under a controlled scheduler: exactly one runs at a time, switches happen only at chosen points.

A point is a line event (or, with grain="call", a function entry) inside the repository's files."""
import os
import sys
import threading

from mc import env


class Hung(Exception):
    pass


class Sched:
    def __init__(self, plan, grain="line", only=None):
        """plan: list of (thread, points to run before handing over); afterwards threads run to their end in turn."""
        self.plan = list(plan)
        self.grain = grain
        self.only = only                # restrict points to files with one of these names
        self.go = [threading.Event(), threading.Event()]
        self.done = [False, False]
        self.points = [0, 0]
        self.error = [None, None]
        self.value = [None, None]
        self.left = None

    def _next(self, me):
        """Called by the running thread at the end of its slice or of its work: picks who runs now."""
        while self.plan:
            t, k = self.plan.pop(0)
            if not self.done[t]:
                self.left = k
                return t
        self.left = None
        other = 1 - me
        if not self.done[other]:
            return other
        return me if not self.done[me] else None

    def _hand(self, me):
        t = self._next(me)
        if t is None or t == me:
            return
        self.go[me].clear()
        self.go[t].set()
        if not self.done[me] and not self.go[me].wait(60):
            raise Hung()

    def _point(self, me):
        self.points[me] += 1
        if self.left is None:
            return
        while self.left == 0:
            self._hand(me)
            if self.left is None:
                return
        self.left -= 1

    def _tracer(self, me):
        root = env.REPO + os.sep
        files = {}

        def local(frame, event, arg):
            if event == "line":
                self._point(me)
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            x = files.get(f)
            if x is None:
                x = files[f] = f.startswith(root) and (self.only is None or os.path.basename(f) in self.only)
            if not x:
                return None
            if self.grain == "call":
                self._point(me)
                return None
            return local
        return tracer

    def _body(self, me, fn, tape):
        self.go[me].wait(60)
        try:
            with env.use_tape(tape, thread=True):
                sys.settrace(self._tracer(me))
                try:
                    self.value[me] = fn()
                finally:
                    sys.settrace(None)
        except BaseException as e:
            self.error[me] = e
        self.done[me] = True
        t = self._next(me)
        if t is not None:
            self.go[t].set()

    def run(self, fns, tapes):
        ts = [threading.Thread(target=self._body, args=(i, fns[i], tapes[i]), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        first = self._next(1)
        self.go[first].set()
        for t in ts:
            t.join(120)
            if t.is_alive():
                raise Hung()
        for e in self.error:
            if e is not None:
                raise e
        return self.value


def solo(fn, tape, grain="line", only=None):
    """Result and number of points when run alone (in a thread of its own)."""
    s = Sched([(0, None)], grain, only)
    s.done[1] = True
    s.plan = []
    out = {}

    def body():
        try:
            with env.use_tape(tape, thread=True):
                sys.settrace(s._tracer(0))
                try:
                    out["v"] = fn()
                finally:
                    sys.settrace(None)
        except BaseException as e:
            out["e"] = e
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(120)
    if "e" in out:
        raise out["e"]
    return out["v"], s.points[0]
