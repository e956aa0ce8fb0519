"""Launchers: every realization exactly once, whatever the schedule of the workers, whoever fails."""
import contextlib
import itertools
import os
import random
import subprocess
import sys

from mc import env, launch
from mc.engine import Family, Violation
from mc.files import outputs, read_table, scratch

LAUNCHERS = {
    "v3": ("run_py.rsbd_percolatioin_run", "run_simulation_threads_v3", "L0", {}),
    "v4-0": ("run_py.rsbd_percolatioin_run", "run_simulation_threads_v4", "L0", {"interaction": 0}),
    "v4": ("run_py.rsbd_percolatioin_run", "run_simulation_threads_v4", "L0", {}),
    "v4-1": ("run_py.rsbd_percolatioin_run", "run_simulation_threads_v4", "L1", {"interaction": 1}),
    "v4-2": ("run_py.rsbd_percolatioin_run", "run_simulation_threads_v4", "L2", {"interaction": 2}),
    "path": ("run_py.shortest_path_run", "run_simulation_shortest_path_threads", "SP", {}),
}


def kind_of(head):
    c = head.get("columns")
    return "table" if "H" in c else "path" if "p*" in c else "critical"


def collect(what):
    """All result files: kind -> list of (header, rows, path)."""
    out = {}
    for f in outputs():
        if f.startswith("logs"):
            continue
        head, rows = read_table(f)
        k = kind_of(head)
        n = head.get("ensemble_size")
        if k != "table" and len(rows) != n:
            raise Violation("%s: %s says %r realizations and has %d rows" % (what, f, n, len(rows)))
        out.setdefault(k, []).append((head, rows, f))
    return out


def judge(files, cls, L, total, workers, what, exact=True):
    """total: realizations that must be in the files."""
    sig = env.cls(cls)(length=3).get_signature()
    kinds = {"path"} if cls == "SP" else {"table", "critical"}
    if set(files) - kinds:
        raise Violation("%s: files of another kind were written: %s" % (what, [x[2] for k in set(files) - kinds for x in files[k]]))
    for k in kinds:
        fs = files.get(k, [])
        if len(fs) > workers:
            raise Violation("%s: %d files (%s) of %d workers" % (what, len(fs), k, workers))
        for head, rows, f in fs:
            if not os.path.basename(f).startswith(sig):
                raise Violation("%s: wrote %s, the mode asked for is %s" % (what, f, sig))
            if head.get("L") != L or head.get("length") != L:
                raise Violation("%s: %s is for side %r, not %d" % (what, f, head.get("L"), L))
            if k == "table" and len(rows) != L * L:
                raise Violation("%s: %s has %d rows for side %d" % (what, f, len(rows), L))
        got = sum(h.get("ensemble_size") for h, _, _ in fs)
        if got != total:
            raise Violation("%s: the workers' %s files hold %s = %d realizations, not %d" % (
                what, k, "+".join(str(h.get("ensemble_size")) for h, _, _ in fs) or "0", got, total))


@contextlib.contextmanager
def watching(cls, boom=None):
    """Counts runs; the run with number `boom` fails. Yields the list of (worker, sequence of sites)."""
    C = env.cls(cls)
    orig, own = C.run_once, "run_once" in C.__dict__
    log = []
    state = {"worker": None}

    def run_once(p, *a, **k):
        if boom is not None and len(log) == boom:
            log.append((state["worker"], None))
            raise RuntimeError("injected failure of run %d" % boom)
        r = orig(p, *a, **k)
        log.append((state["worker"], tuple(p.get_site_id_sequence())))
        return r
    C.run_once = run_once
    try:
        yield log, state
    finally:
        if own:
            C.run_once = orig
        else:
            del C.run_once


def start(name, L, En, workers):
    mod, fn, cls, kw = LAUNCHERS[name]
    f = getattr(env.module(mod), fn)
    if name == "path" and workers == 2 and En % 2:
        return f(L, En)                     # two workers is the default
    f(L, En, thread=workers, **kw) if En % 2 else f(L, En, workers, **kw)


def once(case, chooser, failing=(), boom=None):
    """One launch with inline workers: (pool, log, files)."""
    name, L, En, workers = case["launcher"], case["L"], case["En"], case["workers"]
    cls = LAUNCHERS[name][2]
    what = "%s(%d, %d, %d)" % (name, L, En, workers)
    random.seed(1000 * En + workers)
    with scratch(), watching(cls, boom) as (log, state):
        @contextlib.contextmanager
        def around(k):
            state["worker"] = k
            yield
        pool = launch.Pool(chooser, failing, around)
        with launch.fakes(pool):
            try:
                start(name, L, En, workers)
            except Violation:
                raise
            except (Exception, SystemExit) as e:
                raise Violation("%s, schedule %s, failing workers %s: the launcher raised %s: %s" % (
                    what, chooser.trace, sorted(failing) if boom is None else "(run %d)" % boom, type(e).__name__, e))
        launch.finished(pool, what + ", schedule %s" % (chooser.trace,))
        return pool, list(log), collect(what)


def run_counts(case, ctx):
    """All workers run when they are started, or when they are joined."""
    cls = LAUNCHERS[case["launcher"]][2]
    what = "%(launcher)s, side %(L)d, %(En)d realizations, %(workers)d workers" % case
    for late in (0, 1):
        ch = Early() if not late else launch.Chooser()
        pool, log, files = once(case, ch)
        if pool.errors:
            shares = {k: sum(w == k for w, _ in log) for k in pool.errors}
            for k, e in pool.errors.items():
                if shares[k]:
                    raise Violation("%s: worker %d failed: %s: %s" % (what, k, type(e).__name__, e))
        judge(files, cls, case["L"], case["En"], case["workers"], what)
        if pool.workers and len(log) != case["En"]:
            raise Violation("%s: %d realizations were run" % (what, len(log)))
        if case["L"] > 3:
            distinct(log, what)
        ctx.transitions += len(log)
        ctx.state(case["launcher"], case["L"], case["En"], case["workers"], late)
    ctx.traces += 2


class Early(launch.Chooser):
    """Every worker runs as soon as it is started."""

    def draw(self, n):
        self.trace.append((n, 1 if n > 1 else 0))
        return 1 if n > 1 else 0


def distinct(log, what):
    seen = {}
    for w, s in log:
        if s in seen and s is not None:
            raise Violation("%s: workers %s and %s ran the same realization %s" % (what, seen[s], w, s))
        seen[s] = w


def run_schedules(case, ctx):
    """Every schedule of the workers."""
    cls = LAUNCHERS[case["launcher"]][2]
    what = "%(launcher)s, side %(L)d, %(En)d realizations, %(workers)d workers" % case
    base, _, _ = once(case, launch.Chooser())
    nw = len(base.workers)

    def go(ch):
        return once(case, ch, failing=case.get("failing", ()))
    shares = None
    for (pool, log, files), trace in launch.schedules(go):
        done = [k for k in range(nw) if k not in case.get("failing", ())]
        for k, e in pool.errors.items():
            if k in done and sum(w == k for w, _ in log):
                raise Violation("%s, schedule %s, failing workers %s: worker %d failed: %s: %s" % (
                    what, trace, case.get("failing"), k, type(e).__name__, e))
        if shares is None:
            _, full, _ = once(case, launch.Chooser())
            shares = {k: sum(w == k for w, _ in full) for k in range(nw)}
        judge(files, cls, case["L"], sum(shares[k] for k in done), case["workers"], "%s, schedule %s (workers ran in the order %s)%s" % (
            what, trace, pool.order, ", workers %s fail" % case["failing"] if case.get("failing") else ""))
        ctx.transitions += len(trace)
        ctx.traces += 1
        ctx.state(case["launcher"], case["En"], case["workers"], tuple(trace), tuple(case.get("failing", ())))


def run_fault(case, ctx):
    """One of the runs fails: its worker is lost, no other."""
    cls = LAUNCHERS[case["launcher"]][2]
    what = "%(launcher)s, side %(L)d, %(En)d realizations, %(workers)d workers" % case
    _, full, _ = once(case, Early())
    for boom in range(len(full)):
        for ch in (Early(), launch.Chooser()):
            pool, log, files = once(case, ch, boom=boom)
            lost = {w for w, s in log if s is None}
            share = sum(w in lost for w, _ in full) if isinstance(ch, Early) else None
            if share is None:
                _, f2, _ = once(case, launch.Chooser())
                share = sum(w in lost for w, _ in f2)
            judge(files, cls, case["L"], case["En"] - share, case["workers"], "%s, run %d of all fails (worker %s)" % (what, boom, sorted(lost)))
            ctx.transitions += len(log)
            ctx.traces += 1
            ctx.state(case["launcher"], case["En"], case["workers"], boom)


# ---------------------------------------------------------------- launchers with fixed numbers (runs replaced by cheap ones)

def run_fixed(case, ctx):
    from mc.props.c20 import Watch
    run = env.module("run_py.rsbd_percolatioin_run")
    C = env.cls("L0")

    def script(e):
        return dict(p=[.5], H=[1. + e], largest=[.25], wrapping=[.125], pc=.5, sites=1, bonds=2, star=0)
    reset = C.reset
    C.reset = lambda p: None
    own = "reset" in C.__dict__
    want = {200: 500, 300: 500, 400: 500} if case["launcher"] == "threads" else {10: 1000}
    f = getattr(run, dict(threads="run_simulation_threads", threads_v2="run_simulation_threads_v2")[case["launcher"]])
    init = C.__init__
    try:
        # sides are only recorded: the lattices themselves are small
        def small(p, *a, **k):
            asked = k.get("length", a[0] if a else None)
            k["length"] = 3
            init(p, **k)
            sides.append(asked)
        sides = []
        C.__init__ = small
        with scratch(), Watch(C, script) as w:
            if case["order"] == "real":
                f()
                pool = None
            else:
                pool = launch.Pool(Early() if case["order"] == "early" else launch.Chooser(case["order"]))
                with launch.fakes(pool):
                    f()
                launch.finished(pool, f.__name__)
                for k, e in pool.errors.items():
                    raise Violation("%s: worker %d failed: %s: %s" % (f.__name__, k, type(e).__name__, e))
            got = {}
            tags = set()
            for path in outputs():
                head, rows = read_table(path)
                if kind_of(head) == "table":
                    got[head["L"]] = got.get(head["L"], 0) + head["ensemble_size"]
            if got != want:
                raise Violation("%s: side -> realizations is %s, not %s" % (f.__name__, got, want))
            runs = sum(x[0] == "run" for x in w.log)
            if runs != sum(want.values()):
                raise Violation("%s: %d realizations were run, not %d" % (f.__name__, runs, sum(want.values())))
            if set(sides) != set(want):
                raise Violation("%s: simulations of the sides %s were made" % (f.__name__, sorted(set(sides))))
    finally:
        C.__init__ = init
        C.reset = reset
    ctx.traces += 1
    ctx.transitions += sum(want.values())
    ctx.state(str(case))


def run_huge(case, ctx):
    """Large ensembles of cheap runs: what is run and what the files say add up."""
    name, En, workers = case["launcher"], case["En"], case["workers"]
    cls = LAUNCHERS[name][2]
    what = "%s(3, %d, %d)" % (name, En, workers)
    import numpy as np
    C = env.cls(cls)
    row = np.zeros((9, 4))
    runs = [0]

    def run_once(p, *a, **k):
        runs[0] += 1
    new = dict(reset=lambda p: None, run_once=run_once, get_data_array=lambda p: row.copy(), get_pc=lambda p: .5,
               get_site_count_wrapping_cluster_pc=lambda p: 3, get_bond_count_wrapping_cluster_pc=lambda p: 3)
    if hasattr(C, "get_shortest_path_p"):
        new["get_shortest_path_p"] = lambda p: .5
    saved = {k: C.__dict__[k] for k in new if k in C.__dict__}
    for k, f in new.items():
        setattr(C, k, f)
    try:
        with scratch():
            pool = launch.Pool(Early() if case["early"] else launch.Chooser())
            with launch.fakes(pool):
                start(name, 3, En, workers)
            launch.finished(pool, what)
            for k, e in pool.errors.items():
                raise Violation("%s: worker %d failed: %s: %s" % (what, k, type(e).__name__, e))
            judge(collect(what), cls, 3, En, workers, what)
    finally:
        for k in new:
            if k in saved:
                setattr(C, k, saved[k])
            else:
                delattr(C, k)
    if runs[0] != En:
        raise Violation("%s: %d realizations were run" % (what, runs[0]))
    ctx.traces += 1
    ctx.transitions += En
    ctx.state(str(case))


# ---------------------------------------------------------------- real processes

def run_real(case, ctx):
    name, L, En, workers = case["launcher"], case["L"], case["En"], case["workers"]
    cls = LAUNCHERS[name][2]
    what = "%s(%d, %d, %d) with real processes" % (name, L, En, workers)
    ens = env.module("run_py.ensemble")
    sp = env.module("run_py.shortest_path_run")
    saved = []
    failing = set(case.get("failing", ()))
    if failing:
        for m, k in ((ens, "run_ensemble_entropy_order_threads_v2"), (sp, "ensemble_shortest_path_v2_thread")):
            orig = getattr(m, k)

            def wrapped(*a, _orig=orig, **kw):
                th = kw.get("thread_count", a[3] if len(a) > 3 else 0)
                if th in failing:
                    sys.stderr = open(os.devnull, "w")
                    raise RuntimeError("injected failure")
                return _orig(*a, **kw)
            saved.append((m, k, orig))
            setattr(m, k, wrapped)
    try:
        with scratch():
            start(name, L, En, workers)
            files = collect(what)
    finally:
        for m, k, o in saved:
            setattr(m, k, o)
    base, extra = divmod(En, workers)
    lost = sum(base + (i < extra) for i in failing)
    if failing:
        # the shares are found from an undisturbed launch
        with scratch():
            start(name, L, En, workers)
            f0 = collect(what)
        kind = "path" if cls == "SP" else "critical"
        by_tag = {f.rsplit("_th", 1)[1]: h["ensemble_size"] for h, _, f in f0[kind]}
        lost = sum(n for t, n in by_tag.items() if int("".join(c for c in t.split(".")[0].split("_")[0] if c.isdigit())) in failing)
    judge(files, cls, L, En - lost, workers, what + (", workers %s fail" % sorted(failing) if failing else ""))
    if not failing and cls != "SP" and L >= 8:
        rows = [tuple(map(tuple, r)) for _, r, _ in files["table"]]
        if len(set(rows)) != len(rows):
            raise Violation("%s: two workers report identical averages: they ran the same realizations" % what)
    ctx.traces += 1
    ctx.transitions += En
    ctx.state(name, L, En, workers, tuple(failing), "real")


def run_main(case, ctx):
    """The program itself."""
    with scratch(case["data"]):
        r = subprocess.run([sys.executable, os.path.join(env.REPO, "main.py")], capture_output=True, text=True, timeout=140,
                           env=dict(os.environ, PYTHONPATH=env.REPO))
        if r.returncode:
            raise Violation("main.py failed: " + r.stderr.strip()[-600:])
        if "Traceback" in r.stderr:
            raise Violation("main.py: a worker failed: " + r.stderr.strip()[-600:])
        judge(collect("main.py"), "L1", 10, 100, 2, "main.py")
    ctx.traces += 1
    ctx.transitions += 100
    ctx.state("main", case["data"])


def families(tier):
    T = tier == "thorough"
    names = list(LAUNCHERS)

    def counts():
        for n in names:
            for w in range(1, 7 if not T else 13):
                for En in range(1, 14 if not T else 41):
                    yield dict(launcher=n, L=3 if (En + w) % 4 else 4, En=En, workers=w)
        for n in names:
            for w, En in ((10, 3), (20, 1), (20, 19), (7, 50), (2, 101), (3, 100), (33, 100), (64, 70), (70, 64), (1, 300), (100, 150), (129, 128), (200, 300), (300, 299)):
                yield dict(launcher=n, L=3, En=En, workers=w)

    def sched():
        for n in names:
            for w, En in ((1, 2), (2, 2), (2, 3), (3, 3), (3, 5), (3, 2)) + (((4, 4), (4, 7), (5, 3), (5, 5)) if T else ((4, 4),) if n in ("v4-1", "path") else ()):
                yield dict(launcher=n, L=3, En=En, workers=w)

    def failing():
        for n in names:
            for w, En in ((2, 3), (3, 4), (3, 3)) + (((4, 5),) if T else ()):
                for k in range(1, w + 1):
                    for f in itertools.combinations(range(w), k):
                        yield dict(launcher=n, L=3, En=En, workers=w, failing=list(f))

    def faults():
        for n in names:
            for w, En in ((2, 3), (3, 5), (1, 2)) + (((4, 9), (2, 8)) if T else ()):
                yield dict(launcher=n, L=3, En=En, workers=w)

    def fixed():
        for l in ("threads", "threads_v2"):
            for o in ("early", [], [0, 0, 0, 1], [0, 0, 0, 2, 1], [0, 1, 0, 1], "real"):
                yield dict(launcher=l, order=o)

    def huge():
        i = 0
        for n in names:
            for w, En in ((3, 1000), (7, 9999), (300, 10007), (1, 20001)) + (((3, 300007), (7, 1000003)) if T else ((3, 100003),) if n in ("v4", "path") else ()):
                i += 1
                yield dict(launcher=n, En=En, workers=w, early=i % 2)

    def real():
        for n in names:
            for w, En in ((1, 1), (2, 3), (3, 2), (3, 7), (4, 4)) + (((8, 20), (5, 13)) if T else ()):
                for L in (3, 8):
                    yield dict(launcher=n, L=L, En=En, workers=w)
            for w, En, f in ((2, 3, [0]), (2, 3, [1]), (3, 4, [0, 2]), (3, 3, [1])):
                yield dict(launcher=n, L=3, En=En, workers=w, failing=f)

    return [
        Family("counts", "every launcher and mode x 1-%d workers x 1-%d realizations (and larger ones), workers running at their start or when joined" % ((12, 40) if T else (6, 13)), counts, run_counts),
        Family("schedules", "every order and moment at which up to %d workers can run" % (5 if T else 4), sched, run_schedules),
        Family("failing", "every non-empty set of failing workers under every schedule", failing, run_schedules),
        Family("faults", "a failure in each single realization", faults, run_fault),
        Family("fixed", "the two thread launchers with fixed numbers, inline in several orders and with real threads (cheap realizations)", fixed, run_fixed, shards=4),
        Family("huge", "1000 to %d realizations (cheap ones) on 1-300 workers" % (1000003 if T else 100003), huge, run_huge, shards=8),
        Family("real", "real processes: several sizes, failing workers", real, run_real),
        Family("main", "the program main.py, output folder present or missing", lambda: iter([dict(data=True), dict(data=False)]), run_main, shards=2),
    ]
