"""Stand-ins for processes and threads: workers run inline, when the explored schedule says so."""
import contextlib
import multiprocessing
import sys
import threading

from mc.engine import Violation


class Chooser:
    """Answers choices from a prefix, then 0; records them."""

    def __init__(self, prefix=()):
        self.prefix, self.trace = list(prefix), []

    def draw(self, n):
        k = len(self.trace)
        c = min(self.prefix[k], n - 1) if k < len(self.prefix) else 0
        self.trace.append((n, c))
        return c


def schedules(fn, limit=10 ** 6):
    """Runs fn(chooser) for every sequence of choices, depth first; yields (result, choices)."""
    prefix = []
    for _ in range(limit):
        ch = Chooser(prefix)
        res = fn(ch)
        yield res, [c for _, c in ch.trace]
        i = len(ch.trace) - 1
        while i >= 0 and ch.trace[i][1] + 1 >= ch.trace[i][0]:
            i -= 1
        if i < 0:
            return
        prefix = [c for _, c in ch.trace[:i]] + [ch.trace[i][1] + 1]
    raise RuntimeError("too many schedules")


class Pool:
    """All workers of one launch."""

    def __init__(self, chooser, failing=(), around=None):
        self.chooser, self.failing, self.around = chooser, set(failing), around
        self.workers = []           # in the order they were started
        self.order = []             # numbers in the order they ran
        self.errors = {}

    def pending(self):
        return [w for w in self.workers if not w._done]

    def run(self, w):
        k = self.workers.index(w)
        self.order.append(k)
        w._done = True
        try:
            if k in self.failing:
                raise RuntimeError("injected failure of worker %d" % k)
            with (self.around(k) if self.around else contextlib.nullcontext()):
                w.run()
            w._code = 0
        except Exception as e:
            w._code = 1
            self.errors[k] = e
        except SystemExit as e:
            w._code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if w._code:
                self.errors[k] = e

    def some(self):
        """The scheduler lets any started workers run, in any order."""
        while self.pending():
            c = self.chooser.draw(len(self.pending()) + 1)
            if c == 0:
                return
            self.run(self.pending()[c - 1])

    def until(self, w):
        while not w._done:
            p = self.pending()
            self.run(p[self.chooser.draw(len(p))])


def fake_class(pool):
    class Worker:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None, **k):
            self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
            self.name, self.daemon = name or "worker", daemon
            self._started = self._done = False
            self._code = None
            self.pid = self.ident = None

        def run(self):
            if self._target is not None:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if self._started:
                raise RuntimeError("a worker can only be started once")
            self._started = True
            pool.workers.append(self)
            self.pid = self.ident = 100000 + len(pool.workers)
            pool.some()

        def join(self, timeout=None):
            if not self._started:
                raise RuntimeError("cannot join a worker that was not started")
            if timeout is None:
                pool.until(self)
            else:
                pool.some()

        def is_alive(self):
            if self._started and not self._done:
                p = pool.pending()
                pool.run(p[pool.chooser.draw(len(p))])
            return self._started and not self._done

        @property
        def exitcode(self):
            return self._code

        def terminate(self):
            if self._started and not self._done:
                self._done, self._code = True, -15
                pool.errors[pool.workers.index(self)] = RuntimeError("terminated by the launcher")
        kill = terminate

        def close(self):
            pass
    return Worker


@contextlib.contextmanager
def fakes(pool):
    """Process and Thread are stand-ins wherever the repository's modules find them."""
    fake = fake_class(pool)
    real = (multiprocessing.Process, threading.Thread)
    todo = [(multiprocessing, "Process"), (threading, "Thread")]
    from mc import env
    for m in list(sys.modules.values()):
        if (getattr(m, "__file__", None) or "").startswith(env.REPO):
            todo += [(m, k) for k, v in list(vars(m).items()) if v is real[0] or v is real[1]]
    saved = [(m, k, getattr(m, k)) for m, k in todo]
    for m, k, _ in saved:
        setattr(m, k, fake)
    try:
        yield
    finally:
        for m, k, v in saved:
            setattr(m, k, v)


def finished(pool, what):
    if pool.pending():
        raise Violation("%s: returned before the workers %s had finished" % (what, [pool.workers.index(w) for w in pool.pending()]))
