"""Result files: stored whatever the folder, never replaced, whoever writes at the same time."""
import contextlib
import datetime
import itertools
import json
import os
import subprocess
import sys

from mc import env, launch, procs, sched
from mc.clock import BASE, clock
from mc.engine import Family, Violation
from mc.files import outputs, read_table, scratch
from mc.props.c20 import CRIT, PATH, TABLE, Watch, quantity

SINGLE = {"single"}

# name: (how, mode, side, worker)
OPS = {
    "table": ("write_entropy_order", "L0", 3, "default"),
    "table-1": ("write_entropy_order", "L0", 3, 1),
    "table-L1": ("write_entropy_order", "L1", 3, 1),
    "critical-1": ("write_critical_values", "L0", 3, 1),
    "path-1": ("write_p_p_star", "SP", 3, 1),
    "plain": ("plain", "L0", 3, "default"),
    "threads-0": ("threads", "L0", 3, 0),
    "v2-1": ("threads_v2", "L0", 3, 1),
    "v2-L2": ("threads_v2", "L2", 3, 0),
    "driver-path": ("path", "SP", 3, 1),
    "single": ("single", "L0", 3, None),
    "single-L1": ("single", "L1", 3, None),
}
KINDS = {"write_entropy_order": [TABLE], "write_critical_values": [CRIT], "write_p_p_star": [PATH], "plain": [TABLE, CRIT],
         "threads": [TABLE], "threads_v2": [TABLE, CRIT], "path": [PATH], "single": [SINGLE]}


def script(tag):
    """Realization number e of the save with this tag: recognisable numbers."""
    return lambda e: dict(p=[.25, .5, 1.], H=[tag, 2., 3.], largest=[.25, .5, 1.], wrapping=[0., .5, 1.], pc=tag, sites=3, bonds=4, star=tag)


def perform(name, tag, En=2):
    """One save of recognisable numbers."""
    import numpy as np
    how, mode, L, worker = OPS[name] if isinstance(name, str) else name
    C = env.cls(mode)
    kw = {} if worker == "default" else dict(thread_count=worker)
    run, ens, sp = (env.module("run_py." + x) for x in ("rsbd_percolatioin_run", "ensemble", "shortest_path_run"))
    if how.startswith("write_"):
        now = ens.datetime.now() if hasattr(ens, "datetime") and hasattr(ens.datetime, "now") else datetime.datetime.now()
        cur = now.strftime("%Y%m%d_%H%M%S")
        sig = C(length=3).get_signature()
        if how == "write_entropy_order":
            ens.write_entropy_order(cur, np.array([[.25, tag, .25, 0.], [.5, 2., .5, .5], [1., 3., 1., 1.]]), En, L, now, sig, **kw)
        elif how == "write_critical_values":
            ens.write_critical_values(cur, [[tag, 3, 4]] * En, En, L, now, sig, **kw)
        else:
            sp.write_p_p_star(cur, [[tag, tag]] * En, En, L, now, sig, **kw)
        return
    if how == "single":
        # the tag of a real realization is its tape
        run.single_realization(C, L)
        return
    with Watch(C, script(tag)):
        if how == "plain":
            ens.run_ensemble_entropy_order(C, L, En)
        elif how == "threads":
            ens.run_ensemble_entropy_order_threads(C, L, En, **kw)
        elif how == "threads_v2":
            ens.run_ensemble_entropy_order_threads_v2(C, L, En, **kw)
        else:
            sp.ensemble_shortest_path_v2_thread(C, L, En, **kw)


def contents():
    """path -> bytes of all files."""
    out = {}
    for f in outputs():
        if f.startswith("logs"):
            continue
        with open(f, "rb") as h:
            out[f] = h.read()
    return out


def parse(path, what):
    """(kind, tag, side) of a complete file."""
    with open(path) as f:
        text = f.read()
    if not text.startswith("#"):
        try:
            d = json.loads(text)
            assert len(d["site_id_sequence"]) == d["L"] ** 2 == len(d["entropy_list"])
        except (ValueError, KeyError, TypeError, AssertionError):
            raise Violation("%s: %s is not a complete result: %s" % (what, path, text[:200]))
        return "single", None, d["L"]
    head, rows = read_table(path)
    descs = dict(x.split("=", 1) for x in head.get("desc", ()) if "=" in x)
    cols = [quantity(x, descs.get(x, "")) for x in head["columns"]]
    want = 3 if set(cols) == TABLE else head["ensemble_size"]
    if len(rows) != want or any(len(r) != len(cols) for r in rows):
        raise Violation("%s: %s is not complete: %s" % (what, path, text[:300]))
    kind = "table" if set(cols) == TABLE else "critical" if set(cols) == CRIT else "path" if set(cols) == PATH else "?"
    return kind, round(rows[0][cols.index("H" if kind == "table" else "pc")], 9), head["L"]


def name_of(k):
    return "table" if k == TABLE else "critical" if k == CRIT else "path" if k == PATH else "single"


def expected(name, tag):
    how, _, L, _ = OPS[name] if isinstance(name, str) else name
    return sorted((name_of(k), None if k == SINGLE else tag, L) for k in KINDS[how])


def unchanged(before, after, what):
    for f in before:
        if f not in after:
            raise Violation("%s: %s, which was there before, is gone" % (what, f))
        if after[f] != before[f]:
            raise Violation("%s: %s, which was there before, has been changed" % (what, f))


def judge(before, names, tags, what):
    """After the saves `names`: all old files as they were; the new ones are the results of the saves."""
    after = contents()
    unchanged(before, after, what)
    got = sorted((parse(f, what) for f in after if f not in before), key=str)
    want = sorted((x for n, t in zip(names, tags) for x in expected(n, t)), key=str)
    if got != want:
        raise Violation("%s: new results (kind, mark, side) are %s, the saves are %s (files %s)" % (
            what, got, want, sorted(f for f in after if f not in before)))
    return after


def run_sequence(case, ctx):
    what = "saves %s, clock %s, folder %s" % (case["ops"], case["clock"], "there" if case["data"] else "missing")
    with scratch(case["data"]):
        have = contents()
        with clock(case["clock"]):
            for i, name in enumerate(case["ops"]):
                if case.get("gone") == i:
                    # somebody moved the folder away between two saves
                    for f in have:
                        os.remove(f)
                    if os.path.isdir("data"):
                        os.rmdir("data")
                    have = {}
                perform(name, i + 1.5)
                have = judge(have, [name], [i + 1.5], what + ", save number %d" % i)
                ctx.transitions += 1
        ctx.state(tuple(sorted(have)), tuple(case["ops"]), case["clock"])
    ctx.traces += 1


def run_taken(case, ctx):
    """The names a save would use are taken by other files."""
    name = case["op"]
    with scratch(), clock("same"):
        perform(name, 1.5)
        names = outputs()
    for k in range(1, len(names) + 1):
        for taken in itertools.combinations(names, k):
            for text in ("precious", "# {\"a\": 1}\n1 2 3\n", "x" * 100000):
                with scratch(), clock("same"):
                    for f in taken:
                        os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
                        with open(f, "w") as h:
                            h.write(text)
                    before = contents()
                    perform(name, 2.5)
                    judge(before, [name], [2.5], "%s, %s already there" % (name, taken))
                    ctx.transitions += 1
                    ctx.state(name, taken, len(text))
    ctx.traces += 1


def run_crash(case, ctx):
    """A save that dies at any of its lines leaves the finished results alone, and later saves work."""
    a, b, k = case["first"], case["second"], 0
    with scratch(), clock("same"):
        n = procs.count(lambda: perform(b, 9.5))
    for k in range(n):
        what = "%s saved; then %s interrupted at its line %d of %d; then %s" % (a, b, k, n, b)
        with scratch(), clock("same"):
            perform(a, 1.5)
            before = contents()
            with env.use_tape(env.Tape((), env.fair_tape(3), limit=10 ** 6)):
                try:
                    procs.crash_at(lambda: perform(b, 2.5), k)
                except Exception as e:
                    raise Violation("%s: %s: %s" % (what, type(e).__name__, e))
            after = contents()
            unchanged(before, after, what)
            perform(b, 3.5)
            judge(after, [b], [3.5], what)
            ctx.transitions += 1
            ctx.state(a, b, k)
    ctx.traces += 1


# ---------------------------------------------------------------- concurrent saves

def schedules(na, nb, preempt):
    """Plans for two actors with na and nb points."""
    yield []
    yield [(1, nb + 1)]
    for a in range(na + 1):
        yield [(0, a), (1, nb + 1)]
    for b in range(nb + 1):
        yield [(1, b), (0, na + 1)]
    if preempt >= 2:
        for a in range(na + 1):
            for b in range(1, nb + 1):
                yield [(0, a), (1, b), (0, na + 1)]


def run_processes(case, ctx):
    """Two (or three) processes: every schedule with a bounded number of preemptions."""
    names = case["ops"]
    tags = [i + 1.5 for i in range(len(names))]
    with clock("same"):
        points = []
        for n in names:
            with scratch(case["data"]):
                points.append(procs.count(lambda: perform(n, 9.5)) + 1)
        if len(names) == 2:
            plans = list(schedules(points[0], points[1], case["preempt"]))
        else:
            plans = [[(0, a), (1, b), (2, points[2] + 1), (1, points[1] + 1)] for a in range(points[0] + 1) for b in range(points[1] + 1)]
        plans = plans[case["part"][0]::case["part"][1]]
        for plan in plans:
            what = "processes saving %s at once, schedule %s" % (names, plan)
            with scratch(case["data"]):
                errors = procs.run([lambda n=n, t=t: perform(n, t) for n, t in zip(names, tags)], plan)
                for n, e in zip(names, errors):
                    if e:
                        raise Violation("%s: %s failed: %s" % (what, n, e))
                judge({}, names, tags, what)
            ctx.transitions += sum(points)
            ctx.traces += 1
            ctx.state(tuple(names), case["data"], tuple(plan))


def run_threads(case, ctx):
    """Two threads of one process (the drivers are run in threads, too)."""
    names = case["ops"]
    tags = [1.5, 2.5]
    tape = [lambda: env.Tape((), env.fair_tape(5), limit=10 ** 6), lambda: env.Tape((), env.fair_tape(6), limit=10 ** 6)]
    only = {x for x in os.listdir(os.path.join(env.REPO, "run_py")) if x.endswith(".py")}
    with clock("same"):
        pts = []
        for i, n in enumerate(names):
            with scratch(case["data"]):
                pts.append(sched.solo(lambda: perform(n, tags[i]), tape[i](), only=only)[1])
        for plan in list(schedules(pts[0], pts[1], case["preempt"]))[case["part"][0]::case["part"][1]]:
            what = "threads saving %s at once, schedule %s" % (names, plan)
            with scratch(case["data"]):
                try:
                    sched.Sched(plan, only=only).run([lambda: perform(names[0], tags[0]), lambda: perform(names[1], tags[1])], [tape[0](), tape[1]()])
                except (Exception, SystemExit) as e:
                    raise Violation("%s: %s: %s" % (what, type(e).__name__, e))
                judge({}, names, tags, what)
            ctx.transitions += sum(pts)
            ctx.traces += 1
            ctx.state("threads", tuple(names), case["data"], tuple(plan))


# ---------------------------------------------------------------- names, launches, the program

def run_names(case, ctx):
    """Each save alone, all within one second: different configurations, different names."""
    seen = {}
    for how, modes in (("write_entropy_order", ("L0", "L1", "L2")), ("write_critical_values", ("L0", "L1", "L2")), ("write_p_p_star", ("SP",)), ("single", ("L0", "L1", "L2"))):
        for mode in modes:
            for L in case["sides"] if how != "single" else [x for x in case["sides"] if x < 15]:
                for w in case["workers"] if how != "single" else (None,):
                    with scratch(), clock("same"):
                        perform((how, mode, L, w), 1.5)
                        for f in outputs():
                            me = (how, mode, L, w)
                            if f in seen:
                                raise Violation("%s and %s (kind, mode, side, worker) both go to %s" % (seen[f], me, f))
                            seen[f] = me
                            ctx.transitions += 1
    for how, mode, w in (("plain", "L0", "default"), ("threads", "L1", 2), ("threads_v2", "L2", 3), ("path", "SP", 1)):
        with scratch(), clock("same"):
            perform((how, mode, 3, w), 1.5)
            names = outputs()
            if len(names) != len(KINDS[how]):
                raise Violation("%s wrote %s" % (how, names))
    ctx.state(str(case), len(seen))
    ctx.traces += 1


def run_launches(case, ctx):
    """Launches one after the other within a second: all results of all of them are kept."""
    from mc.props.c21 import start
    what = "launches %s within one second" % (case["launches"],)
    have = {}
    for order in ("early", "late"):
        from mc.props.c21 import Early
        with scratch(case["data"]), clock("same"):
            have = contents()
            for name, En, workers in case["launches"]:
                pool = launch.Pool(Early() if order == "early" else launch.Chooser())
                with launch.fakes(pool):
                    start(name, 3, En, workers)
                launch.finished(pool, what)
                for k, e in pool.errors.items():
                    raise Violation("%s: worker %d failed: %s: %s" % (what, k, type(e).__name__, e))
                after = contents()
                unchanged(have, after, what)
                heads = [read_table(f)[0] for f in after if f not in have]
                per = 1 if name == "path" else 2
                if sum(h["ensemble_size"] for h in heads) != per * En:
                    raise Violation("%s: the launch %s left %s" % (what, (name, En, workers), sorted(set(after) - set(have))))
                have = after
                ctx.transitions += 1
    ctx.traces += 1
    ctx.state(str(case))


def run_main(case, ctx):
    """The program, started several times at once and again in the same folder."""
    def begin():
        return subprocess.Popen([sys.executable, os.path.join(env.REPO, "main.py")], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                env=dict(os.environ, PYTHONPATH=env.REPO))
    with scratch(False):
        have = {}
        for together in case["rounds"]:
            ps = [begin() for _ in range(together)]
            for p in ps:
                _, err = p.communicate(timeout=140)
                if p.returncode or "Traceback" in err:
                    raise Violation("main.py failed (%d at once): %s" % (together, err.strip()[-500:]))
            after = {f: x for f, x in contents().items() if not f.startswith("logs")}
            unchanged(have, after, "main.py x %s" % case["rounds"])
            n = sum(read_table(f)[0]["ensemble_size"] for f in after if f not in have)
            if n != 200 * together:
                raise Violation("main.py, started %d times at once, left results of %d realizations: %s" % (together, n // 2, sorted(set(after) - set(have))))
            have = after
            ctx.transitions += together
    ctx.traces += 1
    ctx.state(str(case))


def families(tier):
    T = tier == "thorough"
    names = list(OPS)

    def sequences():
        for data in (True, False):
            for c in ("same", "each", "second", "back"):
                for k in (1, 2) if c != "same" or not data else (1, 2, 3):
                    for ops in itertools.product(names, repeat=k):
                        yield dict(ops=list(ops), clock=c, data=data)
        for n in names:
            yield dict(ops=[n] * 13, clock="same", data=False)
            if not n.startswith(("plain", "threads", "path-run")):
                yield dict(ops=[n] * 105, clock="same", data=False)
            for c in ("same", "back"):
                yield dict(ops=[n] * 6, clock=c, data=True)
                for g in (1, 2):
                    yield dict(ops=[n] * 3, clock=c, data=False, gone=g)
        if T:
            for ops in itertools.product(names, repeat=4):
                yield dict(ops=list(ops), clock="same", data=False)
            for n in names:
                yield dict(ops=[n] * 120, clock="same", data=False)

    def crashes():
        for a in names:
            for b in names:
                yield dict(first=a, second=b)

    def split(d, parts):
        for i in range(parts):
            yield dict(d, part=[i, parts])

    def processes():
        for a in names:
            for b in names:
                if a == b or (T and names.index(a) < names.index(b)):
                    yield from split(dict(ops=[a, b], data=False, preempt=2 if OPS[a][0].startswith("write_") or T else 1), 4 if not T else 16)
                elif names.index(a) < names.index(b):
                    yield dict(ops=[a, b], data=False, preempt=1, part=[0, 1])
        for a in ("table-1", "critical-1", "path-1") if not T else names:
            yield from split(dict(ops=[a, a, a], data=False, preempt=1), 4)

    def threads():
        for a in names:
            if OPS[a][0] in ("plain", "threads", "threads_v2", "path"):
                continue                # scripted runs patch the class: one thread at a time only
            for b in names:
                if a != b and not T or OPS[b][0] in ("plain", "threads", "threads_v2", "path"):
                    continue
                for data in (True, False):
                    yield from split(dict(ops=[a, b], data=data, preempt=2 if T or OPS[a][0] != "single" else 1), 4)

    def namesets():
        yield dict(sides=[3, 4, 11, 12, 13, 31, 112], workers=[None, 0, 1, 2, 11, 12, 21, 111])
        yield dict(sides=[3, 30, 300, 100, 1000], workers=[0, 10, 100, 1, 19])

    def launches():
        ls = [("v3", 3, 2), ("v4-1", 3, 2), ("v4-2", 2, 2), ("path", 3, 2), ("v4-0", 5, 3)]
        for k in (1, 2, 3):
            for x in itertools.product(ls, repeat=k):
                for data in (True, False):
                    yield dict(launches=[list(y) for y in x], data=data)

    def mains():
        for r in ([1, 1], [2, 1], [3, 3]):
            yield dict(rounds=r)

    return [
        Family("sequences", "every sequence of up to %d of 12 kinds of save within one second (up to 2 under three other clocks), output folder there or missing or removed in between; up to %d equal saves" % ((4, 120) if T else (3, 105)), sequences, run_sequence),
        Family("taken", "every non-empty subset of the names a save would use already taken", lambda: iter(dict(op=n) for n in names), run_taken),
        Family("crashes", "every pair of saves, the second interrupted at every line it executes, then repeated", crashes, run_crash),
        Family("processes", "two real processes saving at once, folder missing at the start: every schedule of their lines with up to 2 preemptions (1 for different kinds of save); three processes", processes, run_processes),
        Family("threads", "two threads saving at once: every schedule of their lines with up to 2 preemptions", threads, run_threads),
        Family("names", "names of all results of one second: modes x sides x workers x kinds", namesets, run_names, shards=2),
        Family("launches", "every sequence of up to 3 launches within one second", launches, run_launches),
        Family("main", "main.py started several times at once and again", mains, run_main, shards=3),
    ]
