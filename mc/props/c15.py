"""Same class, side and seed: same results, whatever happened before and in whatever process."""
import hashlib
import itertools
import os
import random
import subprocess
import sys

from mc import env, ops
from mc.engine import VERIF, Family, Violation
from mc.files import outputs, read_table, scratch

CLSS = ("L0", "L1", "L2", "SP", "BASE")
SCRIPTS = {
    "steps": lambda p: ops.place(12)(p),
    "run": lambda p: p.run_once(),
    "reset-run": lambda p: (ops.place(4)(p), p.reset(), p.run_once()),
    "shuffled": lambda p: (p.set_custome_site_id_list([0, 3, 1, 8, 6, 4], do_shuffle=True), ops.place(9)(p), p.reset(), ops.place(3)(p)),
    "runs": lambda p: [(p.run_once(), p.reset()) for _ in range(3)] and p.run_once(),
}


def result(cls, L, seed, script):
    p = env.cls(cls)(length=L, seed=seed)
    first = ops.sequence(p)
    SCRIPTS[script](p)
    return (first, ops.figures(p), ops.data(p))


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()


def _np():
    import numpy
    numpy.random.seed(5)
    numpy.random.random(3)


POLLUTE = {
    "nothing": lambda: None,
    "draws": lambda: [random.random() for _ in range(7)],
    "one-draw": lambda: random.getrandbits(3),
    "seed": lambda: random.seed(123456),
    "numpy": _np,
    "L0": lambda: ops.place(5)(env.cls("L0")(length=4)),
    "L1": lambda: env.cls("L1")(length=3, seed=99).run_once(),
    "L2": lambda: env.cls("L2")(length=3).run_once(),
    "SP": lambda: (lambda p: (p.run_once(), p.reset(), p.run_once()))(env.cls("SP")(length=5, seed=1)),
    "list": lambda: (lambda p: (p.set_custome_site_id_list([1, 2, 3], do_shuffle=True), p.run_once()))(env.cls("L0")(length=3)),
    "sort": lambda: random.shuffle([1, 2, 3, 4]),
    "gauss": lambda: random.gauss(0, 1),
}


def run_pollution(case, ctx):
    ref = None
    for pol in case["pollute"]:
        for x in pol:
            POLLUTE[x]()
        got = result(case["cls"], case["L"], case["seed"], case["script"])
        ctx.transitions += 1
        ctx.state(case["cls"], case["L"], case["seed"], case["script"], tuple(pol))
        if ref is None:
            ref = got
        elif got != ref:
            names = ("site sequence at the start", "figures at the end", "data table")
            k = next(k for k in range(3) if got[k] != ref[k])
            raise Violation("%s(length=%d, seed=%r), %s: %s differs when built after %s: %s != %s" % (
                case["cls"], case["L"], case["seed"], case["script"], names[k], pol, got[k], ref[k]))
    ctx.traces += len(case["pollute"])


def run_distinct(case, ctx):
    L, cls = case["L"], case["cls"]
    seen = {}
    for s in case["seeds"]:
        p = env.cls(cls)(length=L, seed=s)
        if cls in ("L1", "L2"):
            p.run_once()
        seen.setdefault(tuple(p.get_site_id_sequence()), []).append(s)
        ctx.transitions += 1
        ctx.state(cls, L, s)
    if len(seen) < 0.9 * len(case["seeds"]):
        same = max(seen.values(), key=len)
        raise Violation("%s, side %d: %d seeds give only %d different orders (the same for %s)" % (
            cls, L, len(case["seeds"]), len(seen), same[:10]))
    ctx.traces += len(case["seeds"])


# ---------------------------------------------------------------- other processes

PROGRAM = """
import sys, os
sys.path.insert(0, {verif!r})
os.environ["VP_REPO"] = {repo!r}
plain = {plain!r}
import random
if plain:
    random._vp_installed = True         # the generator is left alone in this process
from mc import env, ops
from mc.props import c15
env.silence()
out = []
for case in {cases!r}:
    out.append(c15.digest(c15.result(*case)))
env.say(" ".join(out))
"""


def run_process(case, ctx):
    cases = [tuple(x) for x in case["cases"]]
    e = dict(os.environ, PYTHONHASHSEED=case["hashseed"], TZ=case["tz"])
    prog = PROGRAM.format(verif=VERIF, repo=env.REPO, plain=case["plain"], cases=cases)
    with scratch():
        r = subprocess.run([sys.executable, "-c", prog], env=e, capture_output=True, text=True, timeout=140)
    if r.returncode:
        raise Violation("a fresh process failed: " + r.stderr.strip()[-600:])
    other = r.stdout.split()
    for c, d in zip(cases, other):
        ctx.transitions += 1
        ctx.state(c, case["hashseed"])
        if digest(result(*c)) != d:
            raise Violation("%s(length=%d, seed=%r), %s: another result in a fresh process with hash seed %s" % (c + (case["hashseed"],)))
    if len(other) != len(cases):
        raise Violation("a fresh process answered only %d of %d cases" % (len(other), len(cases)))
    ctx.traces += len(cases)


# ---------------------------------------------------------------- seeded ensembles

def numbers(case, pol):
    """What a seeded ensemble saves: the numbers of its files, by kind."""
    for x in pol:
        POLLUTE[x]()
    ens = env.module("run_py.ensemble")
    sp = env.module("run_py.shortest_path_run")
    with scratch():
        kw = dict(seed=case["seed"])
        if case["thread"] is not None:
            kw["thread_count"] = case["thread"]
        f = sp.ensemble_shortest_path_v2_thread if case["cls"] == "SP" else ens.run_ensemble_entropy_order_threads_v2
        f(env.cls(case["cls"]), case["L"], case["En"], **kw)
        out = {}
        for path in outputs():
            head, rows = read_table(path)
            out[tuple(head["columns"])] = rows
    return out


def run_ensemble(case, ctx):
    ref = None
    for pol in case["pollute"]:
        got = numbers(case, pol)
        ctx.transitions += 1
        ctx.state(case["cls"], case["L"], case["En"], case["seed"], tuple(pol))
        if not got:
            raise Violation("the ensemble wrote no file")
        if ref is None:
            ref = got
        elif got != ref:
            raise Violation("ensemble of %d realizations of %s, side %d, seed %r: other numbers when run after %s" % (
                case["En"], case["cls"], case["L"], case["seed"], pol))
    ctx.traces += len(case["pollute"])


def families(tier):
    T = tier == "thorough"
    seeds = list(range(0, 24 if not T else 200)) + [-1, -7, 255, 256, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 64 + 3, 12345678901234567890, "abc", "run 17", "", 0.5, 2.0 ** 70, -1.5]
    pols = sorted(POLLUTE)

    def pollution():
        i = 0
        for s in seeds:
            for c in CLSS:
                for L in (3, 4, 6):
                    for script in SCRIPTS:
                        i += 1
                        yield dict(cls=c, L=L, seed=s, script=script,
                                   pollute=[["nothing"], [pols[i % len(pols)]], [pols[(i * 5 + 3) % len(pols)], pols[(i * 7 + 1) % len(pols)]]])
        for c in CLSS:
            for L in (20, 70):
                for s in (0, 5, 2 ** 33):
                    yield dict(cls=c, L=L, seed=s, script="steps" if L == 70 else "reset-run", pollute=[["nothing"], ["draws"], ["SP", "L1"]])
            for s in (1, 2 ** 40):            # many times in one process
                yield dict(cls=c, L=3, seed=s, script="run", pollute=[["nothing"], ["draws"]] + [[x] for x in pols] * 12)
        for c in CLSS:                        # every pair of things beforehand
            for s in (0, 7):
                for script in SCRIPTS:
                    yield dict(cls=c, L=3, seed=s, script=script, pollute=[["nothing"]] + [[a, b] for a in pols for b in pols])

    def distinct():
        for c in CLSS:
            for L in (4, 5, 10):
                yield dict(cls=c, L=L, seeds=list(range(0, 60)))
                yield dict(cls=c, L=L, seeds=list(range(-30, 0)) + [256 * k for k in range(1, 30)])
                yield dict(cls=c, L=L, seeds=[2 ** k for k in range(0, 70)])
                yield dict(cls=c, L=L, seeds=["seed %d" % k for k in range(40)] + [k / 8 for k in range(1, 40)])

    def processes():
        cases = [(c, L, s, script) for s in (0, 1, 5, 42, 2 ** 40, -3, "abc", 0.25) for c in CLSS for L in (3, 4, 7) for script in SCRIPTS]
        for i, h in enumerate(("0", "1", "2", "77", "random", "4294967295") if not T else ["random"] + [str(k * 37) for k in range(40)]):
            for plain in (False, True):
                yield dict(hashseed=h, tz=("UTC", "Asia/Dhaka")[i % 2], plain=plain, cases=cases[(i % 2)::2] if not T else cases)

    def ensembles():
        i = 0
        for c in ("L0", "L1", "L2", "SP"):
            for s in (0, 1, 2, 3, 17, 2 ** 33, -5, "abc", 0.5) if not T else seeds[:40]:
                for En in (1, 2, 3):
                    for L in (3, 4):
                        i += 1
                        yield dict(cls=c, L=L, En=En, seed=s, thread=(None, 0, 3)[i % 3],
                                   pollute=[["nothing"], [pols[i % len(pols)]], ["draws", pols[(3 * i + 1) % len(pols)]], ["L0"]])

    return [
        Family("pollution", "%d seeds, all classes, sides 3, 4, 6 (three seeds: 20, 70), five scripts of operations, after other simulations and draws (all pairs of them for two seeds)" % len(seeds), pollution, run_pollution),
        Family("distinct", "ranges of seeds give different orders", distinct, run_distinct),
        Family("processes", "fresh processes with other hash seeds and time zones, with and without the controlled generator", processes, run_process),
        Family("ensembles", "numbers saved by the seeded ensemble drivers", ensembles, run_ensemble),
    ]
