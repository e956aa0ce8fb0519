"""Curve crossings and reference lines."""
import itertools

from mc import env
from mc.engine import Family, Violation

MAGS = (1e-9, 1e-3, 1.0, 1e6)
FINE = (1e-100, 1e-30, 1e-14, 1.0, 1e30)     # with a second curve that is zero: the differences are exact


class Ax:
    """Stands for a matplotlib axis."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
            return [None]
        return f


def expected(signs):
    """Allowed answers, None if the pattern is outside of the property."""
    ch = [i for i in range(len(signs) - 1) if signs[i] * signs[i + 1] < 0]
    nz = [(i, s) for i, s in enumerate(signs) if s]
    changes = [(a[0], b[0]) for a, b in zip(nz, nz[1:]) if a[1] != b[1]]
    if len(changes) != 1:
        return None
    i, j = changes[0]
    if not ch and signs.count(0) != j - i - 1:
        return None                     # equal samples both at the crossing and elsewhere: not specified
    return {i} if ch else {i, j - 1}


def curves(base, signs, mags):
    import numpy as np
    y2 = np.array(base)
    y1 = np.array([b + s * m for b, s, m in zip(base, signs, mags)])
    return y1, y2


def ask(f1, f2, a, b, col, want, what, ctx):
    import numpy as np
    a0, b0 = a.copy(), b.copy()
    for x, y in ((a, b), (b, a)):
        args = (x, y) if col is None else (x, y, col)
        for variant, call in (("find_intersection", lambda: f1(*args)), ("find_intersection_and_plot", lambda: f2(*args, ax=Ax()))):
            got = call()
            ctx.transitions += 1
            if got not in want or int(got) != got:
                raise Violation("%s(%s) answers %r for %s, the crossing is at %s" % (
                    variant, "swapped curves" if x is b else "", got, what, sorted(want)))
        if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
            raise Violation("the curves of the caller were changed (%s)" % what)
    if col is not None:
        return
    if f1(a, b) != f2(a, b, ax=Ax()):
        raise Violation("the two variants disagree for %s" % what)


BASES = {
    "zero": lambda n: [0.0] * n,
    "up": lambda n: [i / n for i in range(n)],
    "down": lambda n: [5.0 - 3 * i for i in range(n)],
    "wave": lambda n: [[0.25, -1.0, 2.0, 0.0, -0.5][i % 5] for i in range(n)],
}


def sign(x):
    return 1 if x > 0 else -1 if x < 0 else 0


def run_vectors(case, ctx):
    f = env.module("source_py.analyze.lines")
    n, signs = case["n"], case["signs"]
    for mags in itertools.product({"all": MAGS, "two": (1.0, 1e-9), "fine": FINE, "fine-two": (1e-100, 1e-14)}[case["mags"]], repeat=n):
        y1, y2 = curves(BASES[case["base"]](n), signs, mags)
        real = [sign(float(a) - float(b)) for a, b in zip(y1, y2)]
        want = expected(real)
        if want is None:
            continue
        ask(f.find_intersection, f.find_intersection_and_plot, y1, y2, None, want, "differences %s" % [float(a) - float(b) for a, b in zip(y1, y2)], ctx)
        ctx.state(n, tuple(real), mags, case["base"])
    ctx.traces += 1


def run_columns(case, ctx):
    """Tables: the chosen column crosses at one place, the other columns at others."""
    import numpy as np
    f = env.module("source_py.analyze.lines")
    n, cols = case["n"], case["cols"]
    for places in itertools.product(range(n - 1), repeat=cols):
        for flip in (1, -1):
            a, b = np.zeros((n, cols)), np.zeros((n, cols))
            for c, i in enumerate(places):
                a[:, c] = [flip * (1 if k <= i else -1) * (c + 1) * 10 ** (c - 1) for k in range(n)]
                b[:, c] = [k * 1e-4 for k in range(n)]
            if case["dtype"] == "int":
                a, b = (a * 10).astype(int), (b * 0).astype(int)
            for c in list(range(cols)) + [-1]:
                ask(f.find_intersection, f.find_intersection_and_plot, a, b, c, {places[c]}, "column %d of tables that cross at %s" % (c, places), ctx)
            ctx.state(n, places, flip, case["dtype"])
    ctx.traces += 1


def run_long(case, ctx):
    """Longer curves: a crossing at every place."""
    import numpy as np
    f = env.module("source_py.analyze.lines")
    n = case["n"]
    for i in range(0, n - 1, case.get("step", 1)):
        for lead in (0, i):                   # samples at which the curves are equal before and after
            signs = [0 if k < lead else 1 if k <= i else -1 if k < n - lead or k == i + 1 else 0 for k in range(n)]
            mags = [0.3 + abs(k - i) * case["slope"] for k in range(n)]
            y1, y2 = curves(BASES["up"](n), signs, mags)
            ask(f.find_intersection, f.find_intersection_and_plot, y1, y2, None, {i}, "%d samples, crossing at %d, equal before %d" % (n, i, lead), ctx)
            t1, t2 = np.column_stack([y2, y1]), np.column_stack([y2 + 1, y2])
            ask(f.find_intersection, f.find_intersection_and_plot, t1, t2, 1, {i}, "%d rows, crossing at %d" % (n, i), ctx)
            ctx.state(n, i, lead)
    ctx.traces += 1


def run_lines(case, ctx):
    f = env.module("source_py.analyze.lines")
    v, rng, size = case["value"], tuple(case["range"]), case["size"]
    for name, g, kw in (("vertical", f.draw_vertical_line_at, "yrange"), ("horizontal", f.draw_horizontal_line_at, "xrange")):
        outs = [g(v, rng, size), g(v, **{kw: list(rng), "size": size})]
        if size == 100:
            outs.append(g(v, rng))
            if rng == (0, 1) and name == "vertical":
                outs.append(g(v))
        for xx, yy in outs:
            const, run = (xx, yy) if name == "vertical" else (yy, xx)
            what = "draw_%s_line_at(%r, %r, %r)" % (name, v, rng, size)
            if len(xx) != size or len(yy) != size:
                raise Violation("%s: vectors of %d and %d" % (what, len(xx), len(yy)))
            if any(abs(c - v) > 1e-12 * abs(v) for c in const):
                raise Violation("%s: not at the constant: %s" % (what, list(const)))
            tol = 1e-12 * (abs(rng[0]) + abs(rng[1]))
            if abs(run[0] - rng[0]) > tol or abs(run[-1] - rng[1]) > tol:
                raise Violation("%s: runs from %r to %r" % (what, run[0], run[-1]))
            up = rng[1] >= rng[0]
            if any((b - a < -tol) if up else (b - a > tol) for a, b in zip(run, run[1:])):
                raise Violation("%s: goes back and forth: %s" % (what, list(run)))
            ctx.transitions += 1
    ctx.traces += 1
    ctx.state("line", v, rng, size)


def families(tier):
    T = tier == "thorough"

    def vectors():
        for n in range(2, 8 if not T else 10):
            for signs in itertools.product((1, 0, -1), repeat=n):
                if expected(signs) is None:
                    continue
                full = n <= (4 if not T else 6)
                for base in BASES if n <= 5 or T else ("zero", "wave"):
                    yield dict(n=n, signs=list(signs), base=base, mags="all" if full else "two")
                yield dict(n=n, signs=list(signs), base="zero", mags="fine" if full else "fine-two")

    def columns():
        for n in range(2, 6 if not T else 8):
            for cols in (1, 2, 3, 4):
                for d in ("float", "int"):
                    yield dict(n=n, cols=cols, dtype=d)

    def long():
        for n in (10, 25, 100) + ((400, 2500) if T else ()):
            for s in (0, 1e-6, 0.5, 100.0):
                yield dict(n=n, slope=s)
        for n, step in (() if T else ((520, 37), (1100, 173), (3000, 499))) + ((12000, 1999), (70000, 23321)):
            for s in (0, 0.5):
                yield dict(n=n, slope=s, step=step)

    def lines():
        for v in (0, 0.0, 0.5927, -3, 1e9, -1e-9, 7):
            for r in ((0, 1), (1, 0), (-2, 5), (-7.5, -0.25), (3, 3), (0, 1e8), (0.4, 0.8), (10, -10)):
                for s in (2, 3, 5, 17, 100, 1000):
                    yield dict(value=v, range=list(r), size=s)

    return [
        Family("vectors", "every pattern of signs (with equal samples) of up to %d samples with one change of sign, x magnitudes of every sample over 15 decades (130 over a second curve that is zero), x 4 shapes of the second curve, both orders of the curves" % (9 if T else 7), vectors, run_vectors),
        Family("columns", "tables of 1-4 columns, every combination of crossing places, every column asked for, floats and integers", columns, run_columns),
        Family("long", "up to %d samples, a crossing at every place, equal samples elsewhere; up to 70000 samples, crossings at some places" % (2500 if T else 100), long, run_long),
        Family("lines", "both line helpers: constants x ranges x sizes", lines, run_lines),
    ]
