"""Site and relative indexes are integer vectors: arithmetic without surprises and without side effects."""
import itertools

import numpy as np

from mc import env
from mc.engine import Family, Violation


def classes():
    m = env.module("source_py.simulation.index")
    return m.Index, m.RelativeIndex


def pair(x):
    return x.row(), x.column()


def all_ways(x, at, want):
    got = [pair(x), tuple(x.as_list())]
    if hasattr(x, "x_coord"):
        got.append((x.x_coord(), x.y_coord()))
    for g in got:
        if g != want:
            raise Violation("%s: the value is %s, expected %s" % (at, g, want))


def sign(v):
    a, b = v
    if a == 0 and b != 0:
        return 0, b // abs(b)
    if b == 0 and a != 0:
        return a // abs(a), 0
    return v


def run_pairs(case, ctx):
    """All partners of one value."""
    cl = classes()
    a = tuple(case["a"])
    R = case["range"]
    for A in cl:
        x = A(*a)
        all_ways(x, "%s%s" % (A.__name__, a), a)
        for b in itertools.product(R, repeat=2):
            for B in cl:
                y = B(*b)
                d, s = x - y, x + y
                at = "%s%s and %s%s" % (A.__name__, a, B.__name__, b)
                all_ways(d, at + ", difference", (a[0] - b[0], a[1] - b[1]))
                all_ways(s, at + ", sum", (a[0] + b[0], a[1] + b[1]))
                all_ways(s - y, at + ", sum minus the second", a)
                d.normalize()
                all_ways(d, at + ", difference, normalized", sign((a[0] - b[0], a[1] - b[1])))
                all_ways(x, at + ", the first one afterwards", a)
                all_ways(y, at + ", the second one afterwards", b)
                ctx.transitions += 4
            ctx.state(a, b)
    c = cl[1](index=x)
    all_ways(c, "RelativeIndex(index=RelativeIndex%s)" % (a,), a)
    c = cl[1](index=cl[0](*a))
    all_ways(c, "RelativeIndex(index=Index%s)" % (a,), a)
    for t in (np.int64, np.int32, int):
        for A in cl:
            all_ways(A(t(a[0]), t(a[1])), "%s of %s" % (A.__name__, t.__name__), a)
    ctx.traces += 1


def run_ops(case, ctx):
    """Every sequence of operations on three values: all values are followed."""
    I, R = classes()
    start = [tuple(v) for v in case["values"]]

    def do(vals, model, op):
        k = op[0]
        if k == "sub":
            x, m = vals[op[1]] - vals[op[2]], tuple(p - q for p, q in zip(model[op[1]], model[op[2]]))
        elif k == "add":
            x, m = vals[op[1]] + vals[op[2]], tuple(p + q for p, q in zip(model[op[1]], model[op[2]]))
        elif k == "rel":
            x, m = R(index=vals[op[1]]), model[op[1]]
        elif k == "norm":
            vals[op[1]].normalize()
            model[op[1]] = sign(model[op[1]])
            return
        vals[op[3]] = x
        model[op[3]] = m

    names = [["sub", 0, 1, 2], ["sub", 2, 0, 1], ["sub", 1, 1, 0], ["add", 0, 1, 2], ["add", 2, 2, 0], ["add", 1, 2, 1], ["rel", 0, 0, 1], ["rel", 1, 1, 2], ["rel", 2, 2, 2],
             ["norm", 0], ["norm", 1], ["norm", 2]]
    for seq in itertools.product(range(len(names)), repeat=case["depth"]):
        vals = [I(*start[0]), R(*start[1]), R(*start[2])]
        model = list(start)
        for k in seq:
            do(vals, model, names[k])
            for j in range(3):
                all_ways(vals[j], "values %s, after %s: value %d" % (start, [names[i] for i in seq], j), model[j])
        ctx.transitions += case["depth"]
        ctx.state(tuple(model))
    ctx.traces += 1


def families(tier):
    T = tier == "thorough"
    r = list(range(-6, 7)) + [-130, 40] if not T else list(range(-12, 13)) + [-1000, 300]

    def pairs():
        for a in itertools.product(r, repeat=2):
            yield dict(a=list(a), range=r)

    def ops():
        v = [(0, 0), (0, 3), (-2, 0), (1, -1), (4, 2)]
        for t in itertools.product(v, repeat=3):
            yield dict(values=[list(x) for x in t], depth=4 if T else 3)

    return [
        Family("pairs", "all pairs of values with components %d..%d and two far ones, both classes" % (r[0], r[-3]), pairs, run_pairs),
        Family("sequences", "every sequence of %d operations (12 kinds) on every three of 5 values" % (4 if T else 3), ops, run_ops),
    ]
