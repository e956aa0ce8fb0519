"""Two simulations in one process: all interleavings of their calls; thread schedules with bounded preemptions."""
import itertools

from mc import env, ops, procs, sched
from mc.engine import Family, Violation
from mc.files import outputs, read_table, scratch


def mk(cls, L):
    def f(box):
        box.append(env.cls(cls)(length=L))
        return None
    return f


def on(fn):
    def f(box):
        p = box[0]
        r = fn(p)
        return r if isinstance(r, (bool, int, float)) else None
    return f


OPS = {
    "place": on(lambda p: p.place_one_site()), "place3": on(ops.place(3)), "det": on(lambda p: p.detect_wrapping()),
    "run": on(lambda p: p.run_once()), "reset": on(lambda p: p.reset()), "list": on(ops.custom([4, 3, 5, 0, 7])),
    "mixed": on(ops.custom([1, 2, 6, 8], True)), "views": on(ops.views), "look": on(ops.lookups),
    "row": on(ops.custom([0, 1, 2, 3, 4, 5, 6, 7, 8])),
    "new0": mk("L0", 3), "new1": mk("L1", 3), "new2": mk("L2", 3), "newS": mk("SP", 3), "newB": mk("BASE", 3),
    "new04": mk("L0", 4), "new14": mk("L1", 4),
}

SCRIPTS = {
    "a": ["new0", "place", "det", "place3", "reset", "place3"],
    "b": ["new0", "row", "place3", "det", "run", "reset"],
    "c": ["new1", "place3", "run", "reset", "place3", "det"],
    "d": ["new2", "place3", "place3", "reset", "run", "views"],
    "e": ["newS", "run", "reset", "list", "run", "look"],
    "f": ["new04", "place3", "run", "reset", "mixed", "place3"],
    "g": ["newB", "mixed", "place", "det", "reset", "run"],
    "h": ["new14", "place3", "place3", "views", "run", "reset"],
}

# larger simulations, in bigger steps
for _c, _k in (("0", "L0"), ("1", "L1"), ("2", "L2"), ("S", "SP"), ("B", "BASE")):
    for _l in (8, 12):
        OPS["new%s-%d" % (_c, _l)] = mk(_k, _l)
OPS["half"] = on(ops.place(40))
BIG = {}
for _l in (8, 12):
    BIG.update({
        "L0-%d" % _l: ["new0-%d" % _l, "run", "reset", "half"],
        "L0r-%d" % _l: ["new0-%d" % _l, "reset", "half", "run"],
        "L1-%d" % _l: ["new1-%d" % _l, "half", "reset", "run"],
        "L2-%d" % _l: ["new2-%d" % _l, "run", "reset", "half"],
        "SP-%d" % _l: ["newS-%d" % _l, "run", "reset", "run"],
        "BASE-%d" % _l: ["newB-%d" % _l, "half", "reset", "run"],
    })
ALL = dict(SCRIPTS, **BIG)


class Actor:
    def __init__(self, script, tape, init=False):
        self.script, self.k, self.box = script, 0, []
        self.tape = env.Tape((), env.fair_tape(tape), limit=10 ** 6)

    def step(self):
        with env.use_tape(self.tape):
            r = OPS[self.script[self.k]](self.box)
        self.k += 1
        return r

    def figures(self):
        return ops.figures(self.box[0]) if self.box else None


# What each script gives alone is computed before anything else, each in a process of its own in which no simulation has
# ever existed; the processes that run the cases inherit the results.
_alone = {}


def alone(fn, *key):
    if (fn, key) not in _alone:
        _alone[(fn, key)] = procs.clean(fn, *key)
    what, v = _alone[(fn, key)]
    if what == "error":
        raise Violation("%s alone: %s" % (key, v))
    return v


def prepare():
    for c in ("L0", "L1", "L2", "SP", "BASE"):
        env.cls(c)
    for m in ("run_py.ensemble", "run_py.shortest_path_run"):
        env.module(m)
    todo = [(_solo, (x, t)) for x in SCRIPTS for t in (11, 18, 25)] + [(_solo, (x, t)) for x in BIG for t in (11, 18)]
    todo += [(_tsolo, (x, i, g)) for x in T_SCRIPTS for i in (0, 1) for g in ("line", "call")]
    todo += [(_esolo, (c, i)) for c in ("L0", "L1", "L2", "SP") for i in (0, 1)]
    for fn, key in todo:
        try:
            alone(fn, *key)
        except Violation:
            pass                    # reported by the cases that need it


def _solo(name, tape):
    a = Actor(ALL[name], tape)
    out = []
    for _ in a.script:
        r = a.step()
        out.append((r, a.figures()))
    return out


def solo(name, tape):
    return alone(_solo, name, tape)


def interleavings(a, b, fix=""):
    """Words over 0/1 with a zeros and b ones."""
    for pos in itertools.combinations(range(a + b), a):
        w = [1] * (a + b)
        for k in pos:
            w[k] = 0
        yield w


def run_calls(case, ctx):
    names = case["scripts"]
    want = [solo(x, 11 + 7 * i) for i, x in enumerate(names)]
    actors = [Actor(ALL[x], 11 + 7 * i) for i, x in enumerate(names)]
    for j, i in enumerate(case["word"]):
        a = actors[i]
        r = a.step()
        ctx.transitions += 1
        for m, b in enumerate(actors):
            if not b.k:
                continue
            wr, wf = want[m][b.k - 1]
            got = b.figures()
            d = ops.differ(wf, got)
            if m == i and r != wr:
                raise Violation("interleaving %s of %s: %s answers %r, alone %r" % (case["word"][:j + 1], [ALL[x] for x in names], a.script[a.k - 1], r, wr))
            if d:
                raise Violation("interleaving %s of the calls %s: simulation %d after its call %d (%s), alone / with the other: %s" % (
                    case["word"][:j + 1], [ALL[x] for x in names], m, b.k, b.script[b.k - 1], d))
        ctx.state(tuple(names), tuple(x.k for x in actors))
    ctx.traces += 1


def run_crowd(case, ctx):
    """Many simulations alive at the same time, in turn."""
    names = [sorted(SCRIPTS)[(i * case["stride"]) % len(SCRIPTS)] for i in range(case["count"])]
    want = [solo(x, 11 + 7 * (i % 3)) for i, x in enumerate(names)]
    actors = [Actor(SCRIPTS[x], 11 + 7 * (i % 3)) for i, x in enumerate(names)]
    for k in range(6):
        got = [a.step() for a in (actors if k % 2 == 0 else actors[::-1])]
        got = got if k % 2 == 0 else got[::-1]
        for m, a in enumerate(actors):
            wr, wf = want[m][k]
            d = ops.differ(wf, a.figures())
            ctx.transitions += 1
            if got[m] != wr or d:
                raise Violation("%d simulations in turn, number %d (%s) after its call %d: answer %r, alone %r; alone / together: %s" % (
                    len(names), m, SCRIPTS[names[m]], k + 1, got[m], wr, d))
            ctx.state(names[m], m, k)
    ctx.traces += 1


def run_successors(case, ctx):
    """Simulations built, used and dropped one after another: what a dead one leaves behind shows in no other."""
    import gc
    words = case["names"]
    for i in range(case["count"]):
        name = words[i % len(words)]
        a = Actor(SCRIPTS[name], 11)
        for j, (wr, wf) in enumerate(solo(name, 11)):
            r = a.step()
            ctx.transitions += 1
            d = ops.differ(wf, a.figures())
            if r != wr or d:
                raise Violation("simulation number %d of %s, built after the others were dropped, call %d: answer %r, alone %r; alone / now: %s" % (
                    i + 1, words, j + 1, r, wr, d))
        ctx.state(tuple(words), i)
        del a
        if i % 7 == 3:
            gc.collect()
    ctx.traces += 1


# ---------------------------------------------------------------- threads

T_SCRIPTS = {
    "new0": ["new0", "place"], "new1": ["new1", "place"], "newS": ["newS", "det"],
    "p0": ["row", "place", "det", "place", "det", "place", "det"], "p1": ["place3", "place"], "p2": ["place3", "place3"],
    "run0": ["run"], "run1": ["run"], "run2": ["run"], "runS": ["run"], "reset0": ["place3", "reset", "place"],
    "reset1": ["place3", "reset", "place"], "list0": ["mixed", "place3"],
    "one0": ["place"], "one1": ["place"], "rs0": ["reset"], "rs1": ["reset"],
}
T_CLASS = {"p0": "L0", "p1": "L1", "p2": "L2", "run0": "L0", "run1": "L1", "run2": "L2", "runS": "SP", "reset0": "L0",
           "reset1": "L1", "list0": "L0",
           "one0": "L0", "one1": "L1", "rs0": "L0", "rs1": "L1"}


def body(name, tape):
    """A function for a thread; what must not be interleaved is built here."""
    box = []
    if name in T_CLASS:
        with env.use_tape(env.Tape((), env.fair_tape(tape + 50))):
            box.append(env.cls(T_CLASS[name])(length=3))

    def fn():
        return [OPS[o](box) for o in T_SCRIPTS[name]]
    return fn, box


def tapes(case):
    return [env.Tape((), env.fair_tape(5 + 3 * i), limit=10 ** 5) for i in (0, 1)]


def _tsolo(name, i, grain):
    fn, box = body(name, i)
    v, pts = sched.solo(fn, tapes(None)[i], grain)
    return v, ops.figures(box[0]), pts


def tsolo(name, i, grain):
    return alone(_tsolo, name, i, grain)


def one_schedule(case, plan, ctx):
    names = case["scripts"]
    bodies = [body(x, i) for i, x in enumerate(names)]
    try:
        vals = sched.Sched(plan, case["grain"]).run([b[0] for b in bodies], tapes(case))
    except sched.Hung:
        raise Violation("threads %s with schedule %s do not finish" % (names, plan))
    except Exception as e:
        raise Violation("threads %s with schedule %s: raised %s: %s" % (names, plan, type(e).__name__, e), dict(case, plan=plan))
    ctx.traces += 1
    for i, x in enumerate(names):
        v, fig, _ = tsolo(x, i, case["grain"])
        d = ops.differ(fig, ops.figures(bodies[i][1][0]))
        if d or v != vals[i]:
            raise Violation("threads %s with schedule %s (thread, %ss): thread %d alone / together: %s" % (
                names, plan, case["grain"], i, d or (v, vals[i])), dict(case, plan=plan))


def run_threads(case, ctx):
    if case.get("plan"):
        return one_schedule(case, [tuple(x) for x in case["plan"]], ctx)
    names = case["scripts"]
    f = case["first"]
    n = [tsolo(names[i], i, case["grain"])[2] for i in (0, 1)]
    ks = range(case["from"], n[f] + 1, case["step"])
    for k in ks:
        if case["bound"] == 1:
            one_schedule(case, [(f, k), (1 - f, 10 ** 9)], ctx)
            ctx.transitions += n[0] + n[1]
            ctx.state(tuple(names), case["grain"], f, k)
        else:
            for j in range(0, n[1 - f] + 1):
                one_schedule(case, [(f, k), (1 - f, j), (f, 10 ** 9)], ctx)
                ctx.transitions += n[0] + n[1]
                ctx.state(tuple(names), case["grain"], f, k, j)


# ---------------------------------------------------------------- ensembles in threads

def ens_body(cls, th):
    ens = env.module("run_py.ensemble")
    sp = env.module("run_py.shortest_path_run")

    def fn():
        if cls == "SP":
            sp.ensemble_shortest_path_v2_thread(env.cls(cls), 3, 2, thread_count=th)
        elif cls == "L1":
            ens.run_ensemble_entropy_order_threads(env.cls(cls), 3, 2, thread_count=th)
        else:
            ens.run_ensemble_entropy_order_threads_v2(env.cls(cls), 3, 2, thread_count=th)
    return fn


def collect():
    out = {}
    for path in outputs():
        head, rows = read_table(path)
        th = path.rsplit("_th", 1)[1][0] if "_th" in path else "?"
        out.setdefault((path.split("_L3_")[0], th), []).append(rows)
    return {k: sorted(v) for k, v in out.items()}


E_ONLY = ("ensemble.py", "shortest_path_run.py")


def _esolo(cls, i):
    with scratch():
        _, pts = sched.solo(ens_body(cls, i), tapes(None)[i], "line", E_ONLY)
        return collect(), pts


def esolo(cls, i):
    return alone(_esolo, cls, i)


def run_ens(case, ctx):
    names, f = case["clss"], case["first"]
    n = [esolo(names[i], i)[1] for i in (0, 1)]
    want = {}
    for i in (0, 1):
        for k, v in esolo(names[i], i)[0].items():
            want.setdefault(k, []).extend(v)
    plans = [[(f, k), (1 - f, 10 ** 9)] for k in range(case["from"], n[f] + 1, case["step"])] if not case.get("plan") else [[tuple(x) for x in case["plan"]]]
    for plan in plans:
        with scratch():
            try:
                sched.Sched(plan, "line", E_ONLY).run([ens_body(c, i) for i, c in enumerate(names)], tapes(case))
            except sched.Hung:
                raise Violation("ensembles %s with schedule %s do not finish" % (names, plan))
            except Exception as e:
                raise Violation("ensembles %s with schedule %s: raised %s: %s" % (names, plan, type(e).__name__, e), dict(case, plan=plan))
            got = collect()
        ctx.traces += 1
        ctx.transitions += n[0] + n[1]
        ctx.state(tuple(names), f, str(plan))
        if got != want:
            raise Violation("ensembles %s in two threads, schedule %s: other files or numbers than alone: %s" % (
                names, plan, [k for k in set(got) | set(want) if got.get(k) != want.get(k)]), dict(case, plan=plan))


def families(tier):
    T = tier == "thorough"
    prepare()

    def calls():
        names = sorted(SCRIPTS)
        for i, a in enumerate(names):
            for b in names[i:]:
                for w in interleavings(6, 6):
                    if a == b and w[0] == 1:
                        continue
                    yield dict(scripts=[a, b], word=w)

    def calls3():
        names = [("a", "c", "e"), ("b", "d", "g"), ("a", "b", "c"), ("h", "f", "e")]
        for trio in names:
            # blocks of two calls each: all interleavings of three block sequences
            for w in _multi(3, 3):
                yield dict(scripts=list(trio), word=[x for x in w for _ in (0, 1)])

    def large():
        pairs8 = [("L0-8", "L0r-8"), ("L1-8", "L2-8"), ("SP-8", "BASE-8"), ("L0-8", "L1-8"), ("L0-8", "L0-12"), ("SP-8", "SP-8")]
        pairs12 = [("L0-12", "L0-12"), ("L1-12", "L0r-12"), ("L2-12", "SP-12"), ("BASE-12", "L1-12")]
        for pair in pairs8 + pairs12:
            words = list(interleavings(4, 4))
            if not T:
                words = words[::2] if pair[1].endswith("8") else [[0, 1] * 4, [0, 0, 1, 1, 0, 1, 0, 1], [1, 1, 1, 0, 0, 0, 1, 0], [0, 1, 1, 0, 1, 0, 0, 1], [0, 0, 0, 1, 1, 1, 0, 1], [1, 0, 0, 0, 1, 1, 0, 1]]
            for w in words:
                yield dict(scripts=list(pair), word=list(w))

    def threads(pairs, grain, bound, step):
        for a, b in pairs:
            for f in (0, 1):
                for r in range(step):
                    yield {"scripts": [a, b], "grain": grain, "bound": bound, "first": f, "from": r, "step": step}

    small = ["new0", "new1", "newS", "p0", "p1", "p2", "reset0", "reset1", "list0"]
    pairs = [("new0", "new0"), ("new1", "newS"), ("p0", "p0"), ("p0", "p1"), ("p1", "p2"), ("reset0", "list0"), ("reset1", "p1"), ("reset0", "new1")]
    runs = [("run0", "run0"), ("run1", "run2"), ("runS", "run0")]
    if T:
        pairs = list(itertools.combinations_with_replacement(small, 2))
        runs = list(itertools.combinations_with_replacement(["run0", "run1", "run2", "runS"], 2))
    fams = [
        Family("calls", "all interleavings of the six calls of two simulations, for all pairs out of %d scripts" % len(SCRIPTS), calls, run_calls),
        Family("calls-large", "two simulations of sides 8 and 12 in bigger steps (whole and half runs): " + ("all interleavings" if T else "every second interleaving on side 8, six on side 12"), large, run_calls),
        Family("crowd", "up to 60 simulations alive at once, their calls in turn", lambda: (dict(count=n, stride=k) for n in (3, 9, 20, 60) for k in (1, 3, 5, 7)), run_crowd),
        Family("successors", "60 simulations built, used and dropped one after another: all pairs of scripts",
               lambda: (dict(names=list(x), count=60) for x in itertools.chain(itertools.combinations_with_replacement(sorted(SCRIPTS), 2), [sorted(SCRIPTS)])), run_successors),
        Family("calls-three", "three simulations, all interleavings of pairs of calls", calls3, run_calls),
        Family("threads-1-line", "two threads, one preemption at every source line, pairs %s" % (pairs,), lambda: threads(pairs, "line", 1, 8), run_threads),
        Family("threads-1-runs", "two threads that each run a whole realization, one preemption at every function entry: %s" % (runs,), lambda: threads(runs, "call", 1, 16), run_threads),
        Family("threads-2-call", "two preemptions at function entries, pairs of short scripts", lambda: threads([("one0", "one1")] if not T else [("one0", "one1"), ("one1", "rs0"), ("rs1", "rs0"), ("one1", "one1"), ("new0", "one1"), ("p1", "one0")], "call", 2, 128), run_threads),
        Family("ensembles", "two ensemble drivers in threads, one preemption at every line of the drivers",
               lambda: (dict(clss=list(c), first=f, **{"from": r, "step": 8}) for c in (("L0", "L0"), ("L0", "L1"), ("L1", "L2"), ("SP", "L0"), ("SP", "SP")) for f in (0, 1) for r in range(8)), run_ens),
    ]
    if T:
        fams.append(Family("threads-1-line-runs", "whole realizations, one preemption at every source line", lambda: threads(runs, "line", 1, 64), run_threads))
        fams.append(Family("threads-2-line", "two preemptions at every pair of source lines", lambda: threads([("one0", "one1")], "line", 2, 256), run_threads))
    return fams


def _multi(kinds, each):
    """All words with `each` copies of every letter."""
    def rec(left):
        if not any(left):
            yield []
            return
        for i in range(kinds):
            if left[i]:
                l2 = list(left)
                l2[i] -= 1
                for w in rec(l2):
                    yield [i] + w
    return rec([each] * kinds)
