"""Files written by the ensemble drivers: means, per-realization rows, headers."""
import contextlib
import itertools

from mc import env
from mc.engine import Family, Violation
from mc.files import outputs, read_table, scratch


# ---------------------------------------------------------------- watching the simulations a driver uses

GETTERS = dict(get_occupation_prob_array="p", get_entropy_array="H", get_order_param_largest_array="largest",
               get_order_param_wrapping_array="wrapping", get_pc="pc", get_site_count_wrapping_cluster_pc="sites",
               get_bond_count_wrapping_cluster_pc="bonds", get_shortest_path_p="star")


class Watch:
    """Records resets and runs of all instances of a class, and what each run ended with."""

    def __init__(self, C, script=None):
        self.C, self.script = C, script
        self.log = []               # ("reset"|"run", instance, record)

    def __enter__(self):
        C, me = self.C, self
        reset, run_once = C.reset, C.run_once
        current = {}

        def w_reset(p, *a, **k):
            r = reset(p, *a, **k)
            current.pop(id(p), None)
            me.log.append(("reset", id(p), None))
            return r

        def w_run(p, *a, **k):
            if me.script is None:
                r = run_once(p, *a, **k)
            else:
                r = None
                current[id(p)] = me.script(sum(x[0] == "run" for x in me.log))
            me.log.append(("run", id(p), me.record(p)))
            return r
        new = dict(reset=w_reset, run_once=w_run)
        if me.script is not None:
            import numpy as np

            def answer(key):
                return lambda p: current[id(p)][key]
            for name, key in GETTERS.items():
                if hasattr(C, name):
                    new[name] = answer(key)
            new["get_data_array"] = lambda p: np.array([[current[id(p)][k][i] for k in ("p", "H", "largest", "wrapping")]
                                                        for i in range(len(current[id(p)]["p"]))])
        self.saved = {k: C.__dict__[k] for k in new if k in C.__dict__}
        self.new = list(new)
        for k, f in new.items():
            setattr(C, k, f)
        return self

    def __exit__(self, *a):
        for k in self.new:
            if k in self.saved:
                setattr(self.C, k, self.saved[k])
            else:
                delattr(self.C, k)

    @staticmethod
    def record(p):
        return dict(
            p=list(p.get_occupation_prob_array()), H=list(p.get_entropy_array()), largest=list(p.get_order_param_largest_array()),
            wrapping=list(p.get_order_param_wrapping_array()), pc=p.get_pc(), sites=p.get_site_count_wrapping_cluster_pc(),
            bonds=p.get_bond_count_wrapping_cluster_pc(), star=p.get_shortest_path_p() if hasattr(p, "get_shortest_path_p") else None)

    def runs(self):
        return [x[2] for x in self.log if x[0] == "run"]


def judge_calls(w, En, what):
    kinds = "".join(x[0][:3] + " " for x in w.log)
    if [x[0] for x in w.log] != ["reset", "run"] * En:
        raise Violation("%s: %d realizations were asked for, the simulation was used like this: %s" % (what, En, kinds or "not at all"))
    if len({x[1] for x in w.log}) > 1:
        raise Violation("%s: the realizations were run on %d different simulations" % (what, len({x[1] for x in w.log})))


def quantity(label, desc):
    """What a header says a column holds, None if it is not clear."""
    text = (label + " " + desc).lower()
    if "site" in label.lower() and "count" in label.lower():
        return "sites"
    if "bond" in label.lower() and "count" in label.lower():
        return "bonds"
    if label == "pc":
        return "pc"
    if "p*" in label or "shortest" in text:
        return "star"
    if "entropy" in text:
        return "H"
    if "largest" in text:
        return "largest"
    if "wrapping" in text:
        return "wrapping"
    if "occupation" in text or label == "p":
        return "p"
    return None


def close(x, y):
    return abs(x - y) <= 2e-10 * abs(y) + 1e-13


TABLE, CRIT, PATH = {"p", "H", "largest", "wrapping"}, {"pc", "sites", "bonds"}, {"pc", "star"}


def judge_files(runs, L, En, kinds, what):
    """The files of one driver: one per kind (a set of quantities)."""
    files = outputs()
    found = []
    for f in files:
        if not f.startswith("data"):
            raise Violation("%s: wrote %s" % (what, f))
        head, rows = read_table(f)
        for k, v in dict(length=L, L=L, ensemble_size=En, En=En).items():
            if head.get(k) != v:
                raise Violation("%s: the header of %s says %s = %r, it is %r" % (what, f, k, head.get(k), v))
        labels = head.get("columns")
        descs = dict(x.split("=", 1) for x in head.get("desc", ()) if "=" in x)
        cols = [quantity(x, descs.get(x, "")) for x in labels]
        if None in cols or len(set(cols)) != len(cols):
            raise Violation("%s: the header of %s names the columns %s (%s), which is not clear" % (what, f, labels, head.get("desc")))
        kind = set(cols)
        if kind not in kinds:
            raise Violation("%s: %s holds the columns %s" % (what, f, labels))
        found.append(kind)
        if any(len(r) != len(cols) for r in rows):
            raise Violation("%s: %s has rows of %s numbers for the columns %s" % (what, f, {len(r) for r in rows}, labels))
        want_rows = len(runs[0]["p"]) if kind == TABLE else En
        if len(rows) != want_rows:
            raise Violation("%s: %s has %d rows instead of %d" % (what, f, len(rows), want_rows))
        for j, q in enumerate(cols):
            for i, r in enumerate(rows):
                if kind == TABLE:
                    want = sum(x[q][i] for x in runs) / En
                    ok = abs(r[j] - want) <= 2e-10 * max(abs(want), max(abs(x[q][i]) for x in runs) * 1e-4) + 1e-13
                else:
                    want = runs[i][q]
                    ok = close(r[j], want)
                if not ok:
                    raise Violation("%s: %s, row %d, column %r (%s) is %r, the realizations give %r" % (
                        what, f, i, labels[j], descs.get(labels[j], ""), r[j], want))
    for k in kinds:
        if found.count(k) != 1:
            raise Violation("%s: %d files with the columns %s (files: %s)" % (what, found.count(k), sorted(k), files))


DRIVERS = {
    "plain": ("run_py.ensemble", "run_ensemble_entropy_order", [TABLE, CRIT]),
    "threads": ("run_py.ensemble", "run_ensemble_entropy_order_threads", [TABLE]),
    "threads_v2": ("run_py.ensemble", "run_ensemble_entropy_order_threads_v2", [TABLE, CRIT]),
    "path": ("run_py.shortest_path_run", "ensemble_shortest_path_v2_thread", [PATH]),
}


def call(driver, C, L, En, thread, seed):
    mod, name, kinds = DRIVERS[driver]
    f = getattr(env.module(mod), name)
    kw = {}
    if driver != "plain" and thread is not None:
        kw["thread_count"] = thread
    if driver in ("threads_v2", "path") and seed is not None:
        kw["seed"] = seed
    f(C, L, En, **kw)
    return kinds


def run_real(case, ctx):
    L, En, cls = case["L"], case["En"], case["cls"]
    C = env.cls(cls)
    what = "%s, %s, side %d, %d realizations (tape %d)" % (case["driver"], cls, L, En, case["tape"])
    with scratch():
        for j in range(case.get("times", 1)):
            with env.use_tape(env.Tape((), env.fair_tape(case["tape"] + 31 * j), limit=10 ** 6)), Watch(C) as w:
                kinds = call(case["driver"], C, L, En, case["thread"], case["seed"])
            judge_calls(w, En, what)
            judge_files(w.runs(), L, En, kinds, what)
            for f in outputs():
                env.os.remove(f)
            ctx.transitions += En
            ctx.state(case["driver"], cls, L, En, case["tape"], j)
    ctx.traces += 1


# ---------------------------------------------------------------- scripted realizations

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113]


def run_scripted(case, ctx):
    """Each realization ends with a given table: zero but for the given cells, or all cells different."""
    L, En, R = case["L"], case["En"], case["rows"]
    C = env.cls(case["cls"])
    cells = {tuple(k): v for k, v in case["cells"]}

    def value(e, r, c):
        if case["cells"]:
            return cells.get((e, r, c), 0.0)
        return PRIMES[(e * 7 + r * 4 + c) % 30] * case["scale"] + e / 7. + c / 3.

    def script(e):
        return dict({k: [value(e, r, j) for r in range(R)] for j, k in enumerate(("p", "H", "largest", "wrapping"))},
                    pc=((e * 5 + 1) % (L * L + 1)) / (L * L), sites=e * 3 + 2, bonds=e * 4 + 5, star=(e * 3 + 1) / 17.)

    what = "%s with scripted realizations, %d of them, cells %s" % (case["driver"], En, case["cells"] or "all different")
    with scratch():
        with Watch(C, script) as w:
            kinds = call(case["driver"], C, L, En, case["thread"], None)
        judge_calls(w, En, what)
        judge_files(w.runs(), L, En, kinds, what)
    ctx.transitions += En
    ctx.state(case["driver"], En, R, str(case["cells"]), case["scale"])
    ctx.traces += 1


# ---------------------------------------------------------------- entry points without parameters, and the writers themselves

def run_entry(case, ctx):
    what = case["entry"]
    with scratch():
        if case["entry"] == "run_simulations":
            C = env.cls("L0")
            with Watch(C) as w:
                env.module("run_py.rsbd_percolatioin_run").run_simulations()
            judge_calls(w, 100, what)
            judge_files(w.runs(), 5, 100, [TABLE, CRIT], what)
        elif case["entry"] == "v1":
            C = env.cls("SP")
            L, En = case["L"], case["En"]
            with Watch(C) as w:
                env.module("run_py.shortest_path_run").ensemble_shortest_path_v1(L, En)
            judge_calls(w, En, "ensemble_shortest_path_v1(%d, %d)" % (L, En))
            for f in outputs():
                raise Violation("%s: wrote %s" % (what, f))
    ctx.transitions += 1
    ctx.traces += 1
    ctx.state(str(case))


def run_writer(case, ctx):
    """write_entropy_order, write_critical_values, write_p_p_star with given numbers."""
    import datetime
    import numpy as np
    L, En = case["L"], case["En"]
    now = datetime.datetime(2024, 2, 3, 4, 5, 6)
    cur = now.strftime("%Y%m%d_%H%M%S")
    vals = case["values"]
    kw = {} if case["thread"] == "default" else dict(thread_count=case["thread"])
    what = "%s(L=%d, En=%d)" % (case["writer"], L, En)
    with scratch():
        if case["writer"] == "write_entropy_order":
            rows = [[vals[(i * 4 + j) % len(vals)] for j in range(4)] for i in range(case["rows"])]
            env.module("run_py.ensemble").write_entropy_order(cur, np.array(rows), En, L, now, "Sig_", **kw)
            runs = [dict(p=[r[0] for r in rows], H=[r[1] for r in rows], largest=[r[2] for r in rows], wrapping=[r[3] for r in rows])]
            _writer_files(runs, L, En, [TABLE], what, 1)
        elif case["writer"] == "write_critical_values":
            rows = [[vals[(i * 3 + j) % len(vals)] for j in range(3)] for i in range(En)]
            env.module("run_py.ensemble").write_critical_values(cur, rows, En, L, now, "Sig_", **kw)
            _writer_files([dict(pc=r[0], sites=r[1], bonds=r[2], p=()) for r in rows], L, En, [CRIT], what, En)
        else:
            rows = [[vals[(i * 2 + j) % len(vals)] for j in range(2)] for i in range(En)]
            env.module("run_py.shortest_path_run").write_p_p_star(cur, rows, En, L, now, "Sig_", **kw)
            _writer_files([dict(pc=r[0], star=r[1], p=()) for r in rows], L, En, [PATH], what, En)
    ctx.transitions += 1
    ctx.traces += 1
    ctx.state(str(case))


def _writer_files(runs, L, En, kinds, what, count):
    if kinds == [TABLE]:
        runs = runs * En
    judge_files(runs, L, En, kinds, what)


def families(tier):
    T = tier == "thorough"

    def real():
        i = 0
        for L in (3, 4, 5) if not T else (3, 4, 5, 6, 8):
            for En in (1, 2, 3, 4, 5, 7, 10) if not T else list(range(1, 16)) + [30]:
                for d in ("plain", "threads", "threads_v2"):
                    for c in ("L0", "L1", "L2", "BASE"):
                        for th in (None, 0, 1, 4):
                            for seed in (None, 0, 7) if d == "threads_v2" else (None,):
                                i += 1
                                if d == "plain" and th is not None or c == "BASE" and i % 3:
                                    continue
                                yield dict(driver=d, cls=c, L=L, En=En, thread=th, seed=seed, tape=i % 97, times=1 + (i % 5 == 0))
                for th in (None, 0, 1, 4):
                    for seed in (None, 0, 7):
                        i += 1
                        yield dict(driver="path", cls="SP", L=L, En=En, thread=th, seed=seed, tape=i % 97, times=1 + (i % 5 == 0))
        for En in (101, 300):
            for d, c in (("plain", "L0"), ("threads", "L1"), ("threads_v2", "L2"), ("path", "SP")):
                yield dict(driver=d, cls=c, L=3, En=En, thread=0 if d != "plain" else None, seed=None, tape=En)
        for d, c in (("plain", "L0"), ("threads", "L1"), ("threads_v2", "L2"), ("path", "SP")):
            yield dict(driver=d, cls=c, L=20, En=3, thread=1 if d != "plain" else None, seed=None, tape=5)
            yield dict(driver=d, cls=c, L=12, En=11, thread=1 if d != "plain" else None, seed=None, tape=5)
        for t in range(100 if not T else 2000):
            for d, c in (("plain", "L0"), ("threads", "L1"), ("threads_v2", "L2"), ("path", "SP")):
                yield dict(driver=d, cls=c, L=3, En=3, thread=0 if d != "plain" else None, seed=None, tape=100 + t)

    def scripted():
        vals = (1.0, 1e-7, 123456.789, -2.5)
        for d in ("plain", "threads", "threads_v2"):
            for En in (1, 2, 3, 4):
                for R in (1, 2, 3, 9):
                    for sc in (1, 1e-6, 1e5):
                        yield dict(driver=d, cls="L0", L=3, En=En, rows=R, cells=[], scale=sc, thread=0)
                for R in (1, 2, 3):
                    allc = [(e, r, c) for e in range(En) for r in range(R) for c in range(4)]
                    for x in allc:
                        for v in vals:
                            yield dict(driver=d, cls="L0", L=3, En=En, rows=R, cells=[[list(x), v]], scale=0, thread=0)
                    if T or En * R <= 4:
                        for x, y in itertools.combinations(allc, 2):
                            yield dict(driver=d, cls="L0", L=4, En=En, rows=R, cells=[[list(x), 1.0], [list(y), 3.0]], scale=0, thread=1)
        for En in range(1, 30):
            yield dict(driver="path", cls="SP", L=3, En=En, rows=1, cells=[], scale=1, thread=0)
            yield dict(driver="plain", cls="L0", L=3, En=En, rows=2, cells=[], scale=1, thread=0)
            yield dict(driver="threads", cls="L0", L=3, En=En, rows=2, cells=[], scale=1, thread=2)
            yield dict(driver="threads_v2", cls="L0", L=3, En=En, rows=2, cells=[], scale=1, thread=3)

    def entry():
        yield dict(entry="run_simulations")
        for L in (3, 4, 6):
            for En in range(1, 8):
                yield dict(entry="v1", L=L, En=En)

    def writers():
        sets = [[0.5, 0.25, 0.125], [1.0], [0.0, 1.0], [1 / 3., 2 / 3., 1e-9, 12345.678901234], [123456789.123, 3.0, 5.0, 7.0, 11.0]]
        for w in ("write_entropy_order", "write_critical_values", "write_p_p_star"):
            for L in (3, 4, 10, 1000):
                for En in (1, 2, 3, 11, 1000):
                    for v in sets:
                        for th in ("default", None, 0, 12):
                            yield dict(writer=w, L=L, En=En, values=v, thread=th, rows=1 + En % 4)

    return [
        Family("real", "all four drivers, all modes, sides 3-%d, ensembles of 1-%d (also 101, 300), side 20, worker numbers, seeds" % (8 if T else 5, 30 if T else 10), real, run_real),
        Family("scripted", "realizations with given tables: every single cell (and every pair, small ensembles) nonzero, all cells different at three magnitudes, ensembles up to 29", scripted, run_scripted),
        Family("entry", "run_simulations and ensemble_shortest_path_v1", entry, run_entry),
        Family("writers", "the three writers with given numbers", writers, run_writer),
    ]
