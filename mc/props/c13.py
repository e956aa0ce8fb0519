"""Runs of the interacting modes: every trial sound, exhaustion exactly when the lattice is full."""
import itertools

from mc import env, interact, ops, ref
from mc.engine import Family, Violation
from mc.fam import occupied_sites


def execute(case, forced, ctx):
    """One execution: `runs` realizations under a tape; `forced`: {draw: choice}. Returns the trace of draws."""
    L, mode = case["L"], case["cls"]
    n = L * L
    base = env.fair_tape(case["tape"])
    hold = case.get("hold")                 # (from, to, kind): draws of this window take an extreme choice

    def default(k, m):
        if k in forced:
            return forced[k]
        if hold and hold[0] <= k < hold[1]:
            return {"low": 0, "high": m - 1, "mid": m // 2}[hold[2]]
        return base(k, m)
    tape = env.Tape((), default, limit=60 * n * 4 * case.get("runs", 1) + 4000)
    with env.use_tape(tape):
        p = env.cls(mode)(length=L)
        for run in range(case.get("runs", 1)):
            if run:
                p.reset()
            judge_run(p, L, ctx, case, run)
    ctx.traces += 1
    return tape.trace


def judge_run(p, L, ctx, case, run):
    n = L * L
    lat = p.lattice_ref
    before = set(occupied_sites(p, n))
    if before:
        raise Violation("run %d starts with the sites %s occupied" % (run, sorted(before)))
    light = ops.light(p)
    part = None
    where = "run %d" % run
    trials = 0
    stop = case.get("stop")
    while True:
        more = p.place_one_site()
        trials += 1
        ctx.transitions += 1
        now = set(occupied_sites(p, n))
        new = now - before
        if len(new) > 1 or before - now:
            raise Violation("%s, trial %d changed the occupied sites from %s to %s" % (where, trials, sorted(before), sorted(now)))
        if new:
            if more is False:
                raise Violation("%s, trial %d placed site %s and reported the end" % (where, trials, new))
            before = now
            p.detect_wrapping()
            light = ops.light(p)
            part = None
            if abs(light[0] * n - len(now)) > 1e-6:
                raise Violation("%s, trial %d: %d sites are occupied, the occupation probability is %r" % (where, trials, len(now), light[0]))
            if abs(light[1] - ref.info(L, frozenset(now)).entropy) > 1e-6:
                raise Violation("%s, trial %d: wrong entropy %r for %s" % (where, trials, light[1], sorted(now)))
            if light[4] != ref.info(L, frozenset(now)).largest:
                raise Violation("%s, trial %d: largest cluster %r reported for %s" % (where, trials, light[4], sorted(now)))
            ctx.state(case["cls"], L, frozenset(now), new.pop())
            if stop is not None and run == 0 and len(now) >= stop:
                return
            continue
        # an unsuccessful trial, or the end
        if more is False:
            if len(now) != n:
                raise Violation("%s, trial %d: the end is reported with only %s occupied" % (where, trials, sorted(now)))
        l2 = ops.light(p)
        if l2 != light:
            raise Violation("%s, trial %d placed nothing but changed the figures from %s to %s" % (where, trials, light, l2))
        if part is None:
            part = ops.partition(p, n), ops.sequence(p)
            if ref_partition(L, now) != part[0][0]:
                raise Violation("%s, trial %d placed nothing, clusters are now %s" % (where, trials, part[0][0]))
        elif (ops.partition(p, n), ops.sequence(p)) != part:
            raise Violation("%s, trial %d placed nothing but changed the clusters or the recorded sequence" % (where, trials))
        p.detect_wrapping()
        if ops.light(p) != light:
            raise Violation("%s, trial %d placed nothing; detecting wrapping again changed the figures" % (where, trials))
        if more is False:
            break
    fig = ops.figures(p)
    for _ in range(3):
        if p.place_one_site() is not False:
            raise Violation("%s: after the end was reported, a trial reports that the run goes on" % where)
        p.detect_wrapping()
        d = ops.differ(fig, ops.figures(p))
        if d:
            raise Violation("%s: a trial after the end changed: %s" % (where, d))


def ref_partition(L, occ):
    i = ref.info(L, frozenset(occ))
    first = {}
    return tuple(first.setdefault(i.comp[s], s) if s in occ else -1 for s in range(L * L))


def run_base(case, ctx):
    execute(case, {}, ctx)


def run_dev(case, ctx):
    """All single deviations from the tape at draw k (and, if asked for, every second deviation later on)."""
    trace = execute(case, {}, Quiet(ctx))
    k = case["k"]
    if k >= len(trace):
        return
    m, base = trace[k]
    for c in range(m):
        if c == base:
            continue
        t2 = execute_at(case, {k: c}, ctx)
        if case.get("second"):
            for k2 in range(k + 1, min(len(t2), k + 1 + case["second"])):
                for c2 in range(t2[k2][0]):
                    if c2 != t2[k2][1]:
                        execute_at(case, {k: c, k2: c2}, ctx)


def execute_at(case, forced, ctx):
    try:
        return execute(case, forced, ctx)
    except Violation as v:
        v.msg = "draws %s forced on tape %d: %s" % (forced, case["tape"], v.msg)
        raise


class Quiet:
    """Counts nothing."""

    def __init__(self, ctx):
        self.transitions = self.traces = 0

    def state(self, *a):
        pass


def run_cross(case, ctx):
    """Every outcome of every draw of the next trial, with a few neighbouring sites occupied on a larger lattice."""
    L, mode = case["L"], case["cls"]
    n = L * L
    p = interact.fresh(mode, L, case["tape"])
    occ = set()
    for s in case["order"]:
        p = interact.force(p, s)
        occ.add(s)
    light = ops.light(p)
    ctx.state(mode, L, frozenset(occ))
    placed = 0
    for x in interact.trial(interact.Snap(p), L, occ, keep=True):
        ctx.transitions += 1
        how = "%s, side %d, %s occupied, draws %s" % (mode, L, sorted(occ), list(x.choices))
        if x.more is False:
            raise Violation("%s: the run ended" % how)
        l2 = ops.light(x.p)
        if x.site is None:
            if l2 != light:
                raise Violation("%s: placed nothing but changed the figures from %s to %s" % (how, light, l2))
            continue
        placed += 1
        now = frozenset(occ | {x.site})
        if abs(l2[0] * n - len(now)) > 1e-6:
            raise Violation("%s: %d sites are occupied, the occupation probability is %r" % (how, len(now), l2[0]))
        if abs(l2[1] - ref.info(L, now).entropy) > 1e-6 or l2[4] != ref.info(L, now).largest:
            raise Violation("%s: wrong figures %s for %s" % (how, l2, sorted(now)))
    if not placed:
        raise Violation("%s, side %d, %s occupied: no outcome of the draws places a site" % (mode, L, sorted(occ)))
    ctx.traces += 1


def families(tier):
    T = tier == "thorough"
    modes = ("L1", "L2")

    def base():
        for L, n in ((18, 2), (24, 1), (3, 400), (4, 150), (5, 60), (6, 30), (8, 8), (12, 2)) if not T else ((3, 6000), (4, 2000), (5, 800), (6, 300), (8, 100), (12, 20), (16, 6), (18, 6), (24, 4), (32, 2)):
            for t in range(n):
                for m in modes:
                    yield dict(cls=m, L=L, tape=t, runs=3 if L < 6 else 2, **({"stop": t % (L * L) + 1} if t % 3 == 2 else {}))

    def devs():
        for L, tapes, kmax in ((3, 4, 260), (4, 1, 120)) if not T else ((3, 40, 300), (4, 10, 500), (5, 2, 500)):
            for t in range(tapes):
                for m in modes:
                    for k in range(kmax):
                        yield dict(cls=m, L=L, tape=t, k=k, runs=2 if L == 3 else 1)

    def dev2():
        for t in range(4):
            for m in modes:
                for k in range(8, 80):
                    yield dict(cls=m, L=3, tape=t, k=k, runs=1, second=12)

    def holds():
        for L in (3, 4, 5) if not T else (3, 4, 5, 6):
            for m in modes:
                for kind in ("low", "high", "mid"):
                    for a in range(0, 8 * L * L, max(1, L * L // 2)):
                        for w in (6, 20, 8 * L * L):
                            for t in range(2 if not T else 5):
                                yield dict(cls=m, L=L, tape=t, runs=2, hold=[a, a + w, kind])

    def cross():
        for L in range(5, 11) if not T else range(4, 17):
            for x, occ in interact.crosses(L, range(L * L) if L < 7 else interact.edges(L)):
                for m in modes:
                    yield dict(cls=m, L=L, order=occ, tape=x % 5)

    fams = [
        Family("tapes", "sides 3-%d: runs with fixed tapes, up to three on one object, some first runs stopped half-way" % (32 if T else 24), base, run_base),
        Family("holds", "windows of extreme draws (always the first, last, middle outcome) at every position of fair tapes", holds, run_base),
        Family("one-deviation", "every outcome of every single draw of base tapes (sides 3, 4%s)" % (", 5" if T else ""), devs, run_dev),
        Family("crosses", "sides %s: a site with one or all neighbours occupied, with and without those behind them: every outcome of the next trial" % ("4-16" if T else "5-10"), cross, run_cross, interact.shrink),
    ]
    if T:
        fams.append(Family("two-deviations", "side 3: every pair of deviations at most 12 draws apart", dev2, run_dev))
    return fams
