"""Real processes under a controlled scheduler: each stops at every line it executes in the drivers' files.

fork + pipes; the parent lets exactly one process go on at a time."""
import os
import sys

from mc import env

SKIP = os.path.join("source_py", "")


class Crash(BaseException):
    """The process dies at this point."""


def tracer(point):
    """Trace function calling point() at every line of the repository outside of source_py."""
    root = env.REPO + os.sep
    skip = root + SKIP

    def local(frame, event, arg):
        if event == "line":
            point()
        return local

    def tr(frame, event, arg):
        f = frame.f_code.co_filename
        return local if f.startswith(root) and not f.startswith(skip) else None
    return tr


def count(fn):
    """Number of points of fn."""
    n = [0]

    def point():
        n[0] += 1
    sys.settrace(tracer(point))
    try:
        fn()
    finally:
        sys.settrace(None)
    return n[0]


def crash_at(fn, k):
    """fn, interrupted at its k-th point. True if the point exists."""
    n = [0]

    def point():
        n[0] += 1
        if n[0] > k:
            sys.settrace(None)
            raise Crash()
    sys.settrace(tracer(point))
    try:
        fn()
        return False
    except Crash:
        return True
    finally:
        sys.settrace(None)


class Proc:
    def __init__(self, fn):
        up_r, self.up_w = os.pipe()
        self.down_r, down_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(up_r)
                os.close(down_w)
                code = self._child(fn)
            finally:
                os._exit(code)
        os.close(self.up_w)
        os.close(self.down_r)
        self.up, self.down, self.done, self.error, self.points = up_r, down_w, False, None, 0
        self._wait()

    def _child(self, fn):
        free = [False]

        def point():
            if free[0]:
                return
            os.write(self.up_w, b".")
            if os.read(self.down_r, 1) != b"g":
                free[0] = True
                sys.settrace(None)
        try:
            point()                     # before anything
            sys.settrace(tracer(point))
            try:
                fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            os.write(self.up_w, ("!%s: %s" % (type(e).__name__, e)).encode()[:4000])
            return 1
        return 0

    def _wait(self):
        """Until it stops at a point or ends."""
        x = os.read(self.up, 1)
        if x == b".":
            self.points += 1
            return
        if x == b"!":
            self.error = ""
            while True:
                y = os.read(self.up, 4000)
                if not y:
                    break
                self.error += y.decode(errors="replace")
        self.done = True
        os.close(self.up)
        os.close(self.down)
        _, status = os.waitpid(self.pid, 0)
        if status and self.error is None:
            self.error = "exit status %d" % status

    def step(self, k):
        for _ in range(k):
            if self.done:
                return
            os.write(self.down, b"g")
            self._wait()

    def finish(self):
        if not self.done:
            os.write(self.down, b"f")
            self._wait()


def run(fns, plan):
    """plan: [(process, points)]; then all run to their end in turn. List of errors (None: ended well)."""
    ps = [Proc(f) for f in fns]
    for i, k in plan:
        ps[i].step(k)
    for p in ps:
        p.finish()
    return [p.error for p in ps]


def clean(fn, *args):
    """fn(*args) computed in a child process forked now: what it leaves behind in the process is gone afterwards.
    Returns ("ok", value) or ("error", text)."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ("ok", fn(*args))
            except BaseException as e:
                res = ("error", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process died")
