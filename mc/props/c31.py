"""The summary of the interacting modes: how many trials looked at a first neighbour, and at a second one."""
import contextlib
import io
import itertools
import re
from fractions import Fraction

from mc import env, ref
from mc.engine import Family, Violation
from mc.fam import occupied_sites
from mc.interact import Snap, _chains9, crosses, edges, force, fresh, shrink, trial

LINES = {"L1": 1, "L2": 2}


def summary(p, mode):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p.occupied_summary()
    got = tuple(int(x) for x in re.findall(r"(-?\d+)\s+times", out.getvalue()))
    if len(got) != LINES[mode]:
        raise Violation("occupied_summary() of %s shows %d counts: %r" % (mode, len(got), out.getvalue()))
    return got


def rule(L, occ, mode):
    """Weights of (site placed, first neighbours looked at, second neighbours looked at), and what an unsuccessful trial adds."""
    w = {}
    nb = ref.neighbours(L)
    for x in range(L * L):
        if x not in occ:
            w[x, 0, 0] = 4
            continue
        for y, (dr, dc) in nb[x]:
            if y not in occ:
                w[y, 1, 0] = w.get((y, 1, 0), 0) + 1
            elif mode == "L2":
                r, c = divmod(y, L)
                z = ((r + dr) % L) * L + (c + dc) % L
                if z not in occ:
                    w[z, 1, 1] = w.get((z, 1, 1), 0) + 1
    return w


def judge(snap, L, occ, mode, ctx, how):
    base = summary(snap.get(), mode)
    got = {}
    leaves = trial(snap, L, occ, True)
    for x in leaves:
        d = tuple(b - a for a, b in zip(base, summary(x.p, mode)))
        if x.site is None:
            want = (0,) * LINES[mode] if x.more is False else (1,) * LINES[mode]
            if d != want:
                raise Violation("%s: the summary was %s; %s added %s to it instead of %s" % (
                    how(), base, "the end of the run" if x.more is False else "an unsuccessful trial", d, want))
            continue
        k = (x.site,) + d + (0,) * (2 - len(d))
        got[k] = got.get(k, 0) + x.prob
    want = rule(L, occ, mode)
    tg, tw = sum(got.values()), sum(want.values())
    for k in sorted(set(got) | set(want)):
        a, b = Fraction(got.get(k, 0)) / tg if tg else 0, Fraction(want.get(k, 0), tw)
        if a != b:
            raise Violation("%s: with probability %s the next placement is on site %d and adds %s to the summary %s, by the rule with probability %s" % (
                how(), a, k[0], k[1:1 + LINES[mode]], base, b))
    ctx.transitions += len(leaves)
    return leaves


def run_chain(case, ctx):
    mode, L = case["cls"], case["L"]
    p = fresh(mode, L, case.get("tape", 1), case.get("reset", 0))
    occ = set()
    if any(summary(p, mode)):
        raise Violation("%s, side %d: the summary is %s %s" % (mode, L, summary(p, mode), "after a run and a reset" if case.get("reset") else "of a new simulation"))
    for k, s in enumerate([None] + case["order"]):
        if s is not None:
            p = force(p, s)
            occ.add(s)
            if any(summary(p, mode)):
                raise Violation("%s, side %d: the summary is %s after %s were placed, each picked at once" % (mode, L, summary(p, mode), case["order"][:k]))
        if case.get("only") and k not in case["only"]:
            continue
        ctx.state(mode, L, frozenset(occ))
        judge(Snap(p), L, occ, mode, ctx, lambda: "%s, side %d, occupied %s" % (mode, L, sorted(occ)))
    ctx.traces += 1


def run_tape(case, ctx):
    """Runs with a fixed tape: the summary is the sum of what the trials added; the outcomes of the next trial at some states."""
    mode, L = case["cls"], case["L"]
    n = L * L
    what = "%s, side %d, tape %d" % (mode, L, case["tape"])
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=400000)):
        p = env.cls(mode)(length=L)
        for run in range(case["runs"]):
            if run:
                p.reset()
            total = summary(p, mode)
            if any(total):
                raise Violation("%s: the summary is %s at the start of run %d" % (what, total, run))
            k = 0
            while True:
                occ = set(occupied_sites(p, n))
                if k % case["every"] == 0:
                    ctx.state(mode, L, frozenset(occ), k)
                    judge(Snap(p), L, occ, mode, ctx, lambda: "%s, run %d, trial %d, occupied %s" % (what, run, k, sorted(occ)))
                more = p.place_one_site()
                now = summary(p, mode)
                d = tuple(b - a for a, b in zip(total, now))
                new = set(occupied_sites(p, n)) - occ
                ok = {tuple(x[1:1 + LINES[mode]]) for x in rule(L, occ, mode) if x[0] in new} if new else {(0,) * LINES[mode] if more is False else (1,) * LINES[mode]}
                if d not in ok:
                    raise Violation("%s, run %d, trial %d placed %s and added %s to the summary, possible: %s" % (what, run, k, sorted(new), d, sorted(ok)))
                total = now
                k += 1
                ctx.transitions += 1
                p.detect_wrapping()
                if more is False or case.get("stop") and run + 1 < case["runs"] and k == case["stop"]:
                    break
    ctx.traces += 1


def families(tier):
    T = tier == "thorough"

    def sets3():
        for mode in ("L1", "L2"):
            for i, o in enumerate(_chains9()):
                yield dict(cls=mode, L=3, order=o, tape=i % 5, reset=i % 3)

    def sets4():
        for mode in ("L1", "L2"):
            for k in (2, 3) if T else (2,):
                for i, pre in enumerate(itertools.combinations(range(16), k)):
                    rest = [(x * 5 + i) % 16 for x in range(16)]
                    yield dict(cls=mode, L=4, order=list(pre) + [x for x in rest if x not in pre], tape=i % 5, reset=i % 2, only=[k, 4 + i % 5, 9 + i % 5, 14 + i % 2])

    def cross(L):
        nb = ref.neighbours(L)
        for mode in ("L1", "L2"):
            for x in range(L * L) if T else (0, 3, 4, 12, 15, 23, 24):
                ys = [y for y, _ in nb[x]]
                zs = [((y // L + dr) % L) * L + (y % L + dc) % L for y, (dr, dc) in nb[x]]
                for pat in range(1, 16):
                    for zp in (range(16) if T else (0, pat) if mode == "L2" else (0,)):
                        occ = list(dict.fromkeys([x] + [ys[d] for d in range(4) if pat >> d & 1] + [zs[d] for d in range(4) if zp >> d & 1]))
                        yield dict(cls=mode, L=L, order=occ, only=[len(occ)], tape=x % 5, reset=x % 2)

    def wide():
        for L in (6, 7, 8, 10) if not T else range(6, 15):
            for x, occ in crosses(L, edges(L)):
                for mode in ("L1", "L2"):
                    yield dict(cls=mode, L=L, order=occ, only=[len(occ)], tape=x % 5, reset=0)

    def tapes():
        for mode in ("L1", "L2"):
            for L, m, every in ((3, 40, 2), (4, 12, 5), (5, 6, 17), (6, 4, 41), (8, 3, 201), (12, 2, 1001), (20, 1, 10 ** 6)) if not T else ((3, 600, 1), (4, 200, 1), (5, 60, 2), (6, 30, 5), (8, 10, 29), (12, 6, 401), (20, 4, 4001)):
                for t in range(m):
                    for stop in (0, 1, 7) if t % 3 == 0 else (0,):
                        yield dict(cls=mode, L=L, tape=t, runs=3 if L < 8 else 2, every=every, stop=stop)

    return [
        Family("tapes", "runs with fixed tapes, sides 3-20, with resets (also of unfinished runs): every trial adds what it may, the exact odds at every few trials", tapes, run_tape),
        Family("sets-L3", "side 3: the exact joint odds of site and counts in each of the 512 occupied sets", sets3, run_chain, shrink),
        Family("sets-L4", "side 4: all %s of occupied sites and three larger sets around each" % ("pairs and triples" if T else "pairs"), sets4, run_chain, shrink),
        Family("cross-L5", "side 5: %s with every pattern of its neighbours and %ssites behind them" % ("each site" if T else "seven sites (corners, edges, inside)", "" if T else "none or all of the "), lambda: cross(5), run_chain, shrink),
        Family("cross-wide", "sides %s: corners, edges and middle with one or all neighbours occupied, with and without the sites behind them" % ("6-14" if T else "6-10"), wide, run_chain, shrink),
    ]
