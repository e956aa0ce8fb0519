"""Owns the environment of the code under test: where it is imported from, its random draws, its output.

Importing this module installs the controllable random generator *before* any module of the repository is imported,
so that `from random import x` inside the repository is controlled too.
"""
import importlib
import math
import os
import random
import sys
import threading
from fractions import Fraction

REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"      # never read stale byte code lying in the repository
os.environ.setdefault("MPLBACKEND", "Agg")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Divergence(Exception):
    """The same prefix of draws led to another draw: the code depends on something that is not controlled."""


class Budget(Exception):
    """Too many random draws in one execution: the run does not seem to end."""


class Tape:
    """Answers of the random generator for one execution.

    `prefix`: forced choices; `default(k, n)`: the choice at the k-th draw (out of n) after the prefix.
    Every draw is recorded in `trace` as (n, choice). `expect` (optional): n of each prefix draw, any difference is a
    Divergence.
    """

    def __init__(self, prefix=(), default=None, expect=None, limit=200000):
        self.prefix = list(prefix)
        self.default = default or (lambda k, n: 0)
        self.expect = expect
        self.trace = []
        self.limit = limit

    def draw(self, n):
        k = len(self.trace)
        if k >= self.limit:
            raise Budget("more than %d random draws in one execution" % self.limit)
        if self.expect is not None and k < len(self.expect) and self.expect[k] != n:
            raise Divergence("draw %d has %d outcomes, %d when first executed" % (k, n, self.expect[k]))
        if k < len(self.prefix):
            c = self.prefix[k]
            if not 0 <= c < n:
                raise Divergence("draw %d: forced choice %d out of %d" % (k, c, n))
        else:
            c = self.default(k, n) % n
        self.trace.append((n, c))
        return c


_tapes = {}          # thread id (or None for all threads) -> Tape


def current_tape():
    if not _tapes:
        return None
    t = _tapes.get(threading.get_ident())
    return t if t is not None else _tapes.get(None)


class use_tape:
    """with use_tape(tape): all draws come from the tape (in this thread only if thread=True)."""

    def __init__(self, tape, thread=False):
        self.tape, self.thread = tape, thread

    def __enter__(self):
        self.key = threading.get_ident() if self.thread else None
        self.old = _tapes.get(self.key)
        _tapes[self.key] = self.tape
        return self.tape

    def __exit__(self, *a):
        if self.old is None:
            _tapes.pop(self.key, None)
        else:
            _tapes[self.key] = self.old


_GRID = 2520


class _Unit:
    """A uniform number of [0, 1) of which only an interval is known; every question narrows it, with exact odds."""

    def __init__(self, tape):
        self.tape, self.lo, self.hi = tape, Fraction(0), Fraction(1)

    def narrow(self, cuts):
        """Decides between which of the ascending cuts the number lies; the index of the piece."""
        cuts = [c for c in cuts if self.lo < c < self.hi]
        ends = [self.lo] + cuts + [self.hi]
        if len(ends) > 2:
            parts = [(y - x) / (self.hi - self.lo) for x, y in zip(ends, ends[1:])]
            d = math.lcm(*(x.denominator for x in parts))
            if d > 10 ** 6:
                raise Budget("a random number is compared too finely")
            c = Fraction(self.tape.draw(d), d)
            i = 0
            while c >= parts[i]:
                c -= parts[i]
                i += 1
            self.lo, self.hi = ends[i], ends[i + 1]

    def settle(self):
        if self.hi - self.lo > Fraction(1, _GRID):
            n = -(-(self.hi - self.lo).numerator * _GRID // (self.hi - self.lo).denominator)
            w = (self.hi - self.lo) / n
            self.narrow([self.lo + i * w for i in range(1, n)])
        return (self.lo + self.hi) / 2


def _exact(x):
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float) and math.isfinite(x):
        f = Fraction(x)
        g = f.limit_denominator(5040)
        return g if abs(f - g) < Fraction(1, 10 ** 14) else f
    return None


class Uniform:
    """a + k * (uniform number of [0, 1)), k > 0: what random() returns under a tape. Taking its integer part or comparing
    it with a constant decides only that much; anything else makes it an ordinary float."""
    __slots__ = ("u", "a", "k")

    def __init__(self, u, a=Fraction(0), k=Fraction(1)):
        self.u, self.a, self.k = u, a, k

    def __float__(self):
        return float(self.a + self.k * self.u.settle())

    def _floor(self):
        lo, hi = self.a + self.k * self.u.lo, self.a + self.k * self.u.hi
        first, last = math.floor(lo), math.ceil(hi)
        if last - first > 10 ** 5:
            self.u.settle()
            return math.floor(self.a + self.k * (self.u.lo + self.u.hi) / 2)
        self.u.narrow([(m - self.a) / self.k for m in range(first + 1, last)])
        return math.floor(self.a + self.k * (self.u.lo + self.u.hi) / 2)

    __floor__ = _floor

    def __int__(self):
        if self.a < 0:
            return int(float(self))
        return self._floor()

    __trunc__ = __int__

    def __ceil__(self):
        return self._floor() + 1

    def __round__(self, n=None):
        return Uniform(self.u, self.a + Fraction(1, 2), self.k)._floor() if n is None else round(float(self), n)

    def __mul__(self, o):
        x = _exact(o)
        return Uniform(self.u, self.a * x, self.k * x) if x is not None and x > 0 else float(self) * o

    def __truediv__(self, o):
        x = _exact(o)
        return Uniform(self.u, self.a / x, self.k / x) if x is not None and x > 0 else float(self) / o

    def __add__(self, o):
        x = _exact(o)
        return Uniform(self.u, self.a + x, self.k) if x is not None else float(self) + o

    def __sub__(self, o):
        x = _exact(o)
        return Uniform(self.u, self.a - x, self.k) if x is not None else float(self) - o

    def __floordiv__(self, o):
        return float(self / o // 1) if o != 1 else float(self._floor())

    __rmul__, __radd__ = __mul__, __add__

    def _less(self, o):
        x = _exact(o)
        if x is None:
            return float(self) < float(o)
        c = (x - self.a) / self.k
        self.u.narrow([c])
        return (self.u.lo + self.u.hi) / 2 < c

    def __lt__(self, o):
        return self._less(o)

    __le__ = __lt__

    def __gt__(self, o):
        return not self._less(o)

    __ge__ = __gt__

    def __eq__(self, o):
        return float(self) == o

    def __hash__(self):
        return hash(float(self))

    def __bool__(self):
        return True

    def __repr__(self):
        return repr(float(self))

    def __format__(self, spec):
        return format(float(self), spec)

    def __str__(self):
        return str(float(self))


def _plain(name):
    def f(self, *a):
        return getattr(float(self), name)(*(float(x) if isinstance(x, Uniform) else x for x in a))
    return f


for _n in ("__rsub__", "__neg__", "__abs__", "__pow__", "__rpow__", "__rtruediv__", "__mod__", "__rmod__", "__rfloordiv__", "__divmod__",
           "is_integer", "as_integer_ratio", "hex"):
    setattr(Uniform, _n, _plain(_n))


class Draws(random.Random):
    """random.Random whose integer draws come from the current tape, if there is one; otherwise the normal stream."""

    def _randbelow(self, n):
        t = current_tape()
        if t is None:
            return self._randbelow_with_getrandbits(n)
        return t.draw(n) if n > 0 else 0

    def random(self):
        t = current_tape()
        if t is None:
            return super().random()
        return Uniform(_Unit(t))

    def getrandbits(self, k):
        t = current_tape()
        if t is None:
            return super().getrandbits(k)
        return t.draw(1 << k)


def _install():
    if getattr(random, "_vp_installed", False):
        return
    inst = Draws()
    random._inst = inst
    for name in dir(inst):
        if not name.startswith("_") and callable(getattr(inst, name)) and hasattr(random, name) \
                and not isinstance(getattr(random, name), type):
            setattr(random, name, getattr(inst, name))
    random.Random = Draws
    random._vp_installed = True
    if hasattr(os, "register_at_fork"):
        os.register_at_fork(after_in_child=inst.seed)


_install()

_real_stdout = sys.stdout
_devnull = None


def silence():
    """The repository prints a lot; its output is discarded."""
    global _devnull
    if _devnull is None:
        _devnull = open(os.devnull, "w")
    sys.stdout = _devnull


def say(*a):
    print(*a, file=_real_stdout, flush=True)


_classes = {}


def cls(name):
    """The simulation class of a mode: L0, L1, L2, SP (shortest path), BASE."""
    if name not in _classes:
        old = sys.stdout
        silence()
        try:
            mod, attr = {
                "BASE": ("percolation_sq_lattice", "SitePercolation"),
                "L0": ("percolation_sq_lattice_L0", "SitePercolationL0"),
                "L1": ("percolation_sq_lattice_L1L2", "SitePercolationL1"),
                "L2": ("percolation_sq_lattice_L1L2", "SitePercolationL2"),
                "SP": ("percolation_sq_lattice_shortest_path", "ShortestPathAfter_pc"),
            }[name]
            _classes[name] = getattr(importlib.import_module("source_py.simulation." + mod), attr)
        finally:
            sys.stdout = old
    return _classes[name]


def module(name):
    old = sys.stdout
    silence()
    try:
        return importlib.import_module(name)
    finally:
        sys.stdout = old


def fair_tape(t):
    """Deterministic, fair-looking default policy number t (a hash of the draw index)."""
    def default(k, n):
        x = (k * 2654435761 + t * 40503 + 12345) & 0xffffffff
        x ^= x >> 15
        x = (x * 2246822519) & 0xffffffff
        x ^= x >> 13
        x = (x * 3266489917) & 0xffffffff
        x ^= x >> 16
        return x % n
    return default


def leaves(fn, limit=10 ** 7, tape_limit=200000):
    """Runs fn(tape) for every possible sequence of draws (depth first); yields (result, trace)."""
    prefix, expect = [], None
    count = 0
    while True:
        tape = Tape(prefix, expect=expect, limit=tape_limit)
        with use_tape(tape):
            res = fn(tape)
        trace = tape.trace
        if len(trace) < len(prefix):
            raise Divergence("only %d draws, %d were made before" % (len(trace), len(prefix)))
        yield res, trace
        count += 1
        if count >= limit:
            raise RuntimeError("too many leaves")
        i = len(trace) - 1
        while i >= 0 and trace[i][1] + 1 >= trace[i][0]:
            i -= 1
        if i < 0:
            return
        prefix = [c for _, c in trace[:i]] + [trace[i][1] + 1]
        expect = [n for n, _ in trace[:i + 1]]
