"""A reset cures a realization that was abandoned at any line (Ctrl-C, an exception)."""
import sys

from mc import env, ops
from mc.engine import Family, Violation
from mc.props.c14 import NAMES, bare, fresh, full_order, once, same, steps

PLAIN = ("L0", "SP", "BASE")


class Abandoned(KeyboardInterrupt):
    pass


def cut(f, k):
    """Calls f and abandons it before its k-th line of the repository; True if that happened, False if f ended before."""
    root = env.REPO.rstrip("/") + "/"
    left = [k]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                raise Abandoned()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        f()
        return left[0] <= 0
    except Abandoned:
        return True
    finally:
        sys.settrace(old)


OPS = {
    "run": lambda p: p.run_once(),
    "place": lambda p: p.place_one_site(),
    "detect": lambda p: p.detect_wrapping(),
    "reset": lambda p: p.reset(),
    "view": lambda p: (p.viewLattice(1), p.viewLattice(3), p.viewCluster()),
    "table": lambda p: (p.get_index_sequence(), p.get_data_array()),
}


def prepare(p, L, before, order):
    if order is not None:
        p.set_custome_site_id_list(list(order))
    for name, times in before:
        for _ in range(times):
            if name == "step":
                p.place_one_site()
                p.detect_wrapping()
            else:
                OPS[name](p)


def run(case, ctx):
    """All lines of one operation (every `every`-th, from `start`)."""
    L, cls, order = case["L"], case["cls"], case["order"]
    n = L * L
    k = case["start"]
    if "only" in case:
        k = case["only"]
    while True:
        what = "%s, side %d, order %s, %s, then %s abandoned at its line %d" % (cls, L, order, case["before"], case["op"], k)
        here = dict(case, only=k)
        with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=20000 * n)):
            p = env.cls(cls)(length=L)
            empty = bare(p, L)
            prepare(p, L, case["before"], order)
            hit = cut(lambda: OPS[case["op"]](p), k)
            try:
                for round in range(2):
                    p.reset()
                    d = ops.differ(empty, bare(p, L))
                    if d:
                        raise Violation("%s: right after the reset (left) a new simulation (right): %s" % (what, d), here)
                    if cls in PLAIN:
                        o = list(p.get_site_id_sequence())
                        if order is not None and o != list(order):
                            raise Violation("%s: the reset replays %s" % (what, o), here)
                        if order is None and sorted(o) != list(range(n)):
                            raise Violation("%s: after the reset the sequence is %s" % (what, o), here)
                        if round and not case.get("thorough") and k % 5:
                            continue
                        if (k + round) % 2:
                            got, want = steps(p, len(o) + 1), fresh(cls, L, "steps", o, len(o) + 1)
                        else:
                            got, want = once(p), fresh(cls, L, "once", o, 0)
                        same(got, want, what + ", then reset")
                    else:
                        if round and not case.get("thorough") and k % 5:
                            continue
                        got = trials(p, n, k + round)
                        want = fresh_trials(cls, L, (k + round) % 5)
                        if got != want:
                            j = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                            raise Violation("%s: with the same draws, trial %d after the reset and after a reset of a new simulation: %s != %s" % (
                                what, j, str(got[j:j + 1])[:400], str(want[j:j + 1])[:400]), here)
                    ctx.transitions += len(got)
            except Violation as v:
                v.case = here
                raise
        ctx.traces += 1
        ctx.state(cls, L, case["op"], str(case["before"]), k)
        if not hit or "only" in case:
            return
        k += case["every"]


def trials(p, n, t):
    out = []
    with env.use_tape(env.Tape((), env.fair_tape(t % 5), limit=5000 * n)):
        for k in range(500 * n):
            more = p.place_one_site()
            det = bool(p.detect_wrapping())
            out.append((ops.light(p), more, det))
            if more is False:
                break
    out.append(ops.figures(p))
    return out


_fresh = {}


def fresh_trials(cls, L, t):
    if (cls, L, t) not in _fresh:
        with env.use_tape(env.Tape((), env.fair_tape(3))):
            q = env.cls(cls)(length=L)
            q.reset()
        _fresh[cls, L, t] = trials(q, L * L, t)
    return _fresh[cls, L, t]


def families(tier):
    T = tier == "thorough"

    def single():
        for L in (3, 4) if not T else (3, 4, 5):
            n = L * L
            row = full_order(n, list(range(L)) + [L + 1])
            for c in PLAIN + ("L1", "L2"):
                for order in ((None, row, row[:L + 2]) if c in PLAIN else (None,)):
                    m = n if order is None else len(order)
                    for k in range(0, m + 1) if L == 3 or T else range(0, m + 1, 4):
                        for op in ("place", "detect", "reset"):
                            if op == "detect":
                                before = [["step", max(0, k - 1)], ["place", 1]]
                            else:
                                before = [["step", k]]
                            w = 1 if T else {"place": 1, "detect": 1, "reset": 3}[op] if order is None and L == 3 else 9
                            yield dict(thorough=T, cls=c, L=L, order=order, before=before, op=op, tape=k % 4, start=1 + k % w, every=w)
                        if L == 3 and (c not in PLAIN or order is None and T):
                            # in L1 and L2 a trial may be unsuccessful: more of them, then the reset of a later run
                            yield dict(thorough=T, cls=c, L=L, order=order, before=[["step", 3 * k]], op="place", tape=k % 3, start=1, every=1)
                            w = 1 if T else 9
                            yield dict(thorough=T, cls=c, L=L, order=order, before=[["run", 1], ["reset", 1], ["step", k]], op="reset", tape=1, start=1 + k % w, every=w)

    def runs():
        for L in (3, 4) if not T else (3, 4, 5):
            n = L * L
            row = full_order(n, list(range(L)) + [L + 1])
            col = full_order(n, [r * L for r in range(L)])[:n - 2]
            w = 16 if not T else 4
            for c in PLAIN + ("L1", "L2"):
                for order in ((None, row, col) if c in PLAIN else (None,)):
                    for before in ([], [["step", 2]], [["run", 1], ["reset", 1]]):
                        if not T and L > 3 and before:
                            continue
                        for s in range(w):
                            yield dict(thorough=T, cls=c, L=L, order=order, before=before, op="run", tape=s % 3 if T else 1, start=1 + s, every=w * (1 if T else 3 if L == 3 and not before else 37))
                    for op in ("view", "table"):
                        yield dict(thorough=T, cls=c, L=L, order=order, before=[["step", n // 2]], op=op, tape=0, start=1, every=1 if T else 7)

    def large():
        for L, w in ((8, 1409), (10, 5503)) if not T else ((7, 301), (8, 509), (10, 1009), (12, 2003)):
            n = L * L
            row = full_order(n, list(range(L)) + [L + 1])
            for i, c in enumerate(PLAIN + ("L1", "L2")):
                for before in ([["step", n // 2 + 3]], [["run", 1], ["reset", 1], ["step", n - 5]]):
                    for op in ("place", "reset"):
                        yield dict(thorough=T, cls=c, L=L, order=None, before=before, op=op, tape=i % 4, start=1 + i * 7, every=97 if op == "place" else w)
                for order in ((None, row) if c in PLAIN else (None,)):
                    for s in range(4):
                        yield dict(thorough=T, cls=c, L=L, order=order, before=[["run", 1], ["reset", 1]] if s % 2 else [], op="run", tape=i % 3, start=1 + (s * w) // 4, every=4 * w)

    return [
        Family("large", "sides %s: placements, resets and runs abandoned at some lines" % ("7, 8, 10, 12" if T else "8, 10"), large, run),
        Family("single", "sides 3, 4%s, all classes: every state of a run, a placement, a detection or a reset abandoned at every line (quick: placements and detections at every line, resets at every third, with a list and on side 4 at every ninth, starting differently in each state), then two resets with runs compared with new simulations" % (", 5" if T else ""), single, run),
        Family("runs", "a whole run (new, continued, second), abandoned at every line (quick: new runs of side 3 every third line, otherwise every 37th); views and tables abandoned", runs, run),
    ]
