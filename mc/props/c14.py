"""After a reset a simulation is as good as new."""
import itertools

from mc import env, interact, ops
from mc.engine import Family, Violation

PLAIN = ("L0", "SP", "BASE")


def walled(order, k):
    """Installs an order and places its first k sites with detection (only meaningful on an empty lattice)."""
    def f(p):
        p.set_custome_site_id_list(list(order))
        ops.place(k)(p)
    return f


def full_order(n, first):
    return list(first) + [s for s in range(n) if s not in first]


def make_ops(L):
    n = L * L
    row = list(range(L))
    col = [r * L for r in range(L)]
    return {
        "place": ops.place(1), "place4": ops.place(4), "blind3": ops.place(3, False), "fill": ops.place(n + 1),
        "run": lambda p: p.run_once(), "detect": lambda p: p.detect_wrapping(), "reset": lambda p: p.reset(),
        "figures": ops.figures,
        "row": walled(full_order(n, row), L), "row+": walled(full_order(n, row), L + 3),
        "col-list": walled(col, L), "short": walled([1, n - 2, n // 2], 2), "mixed": ops.custom(list(range(0, n, 2)), True),
    }


PLACING = {"place", "place4", "blind3", "fill", "run", "row", "row+", "col-list", "short"}
LISTS = {"row", "row+", "col-list", "short", "mixed"}


def ok(h):
    placed = False
    for o in h:
        if o == "reset":
            placed = False
            continue
        if o in LISTS and placed:
            return False
        if o in PLACING:
            placed = True
    return True


def do_history(p, L, hist):
    o = make_ops(L)
    for name in hist:
        o[name](p)


def steps(p, count):
    """Figures after each of the next trials, then what attempts beyond the end do."""
    out = [ops.figures(p)]
    for _ in range(count):
        more = p.place_one_site()
        det = bool(p.detect_wrapping())
        out.append(ops.figures(p) + (more, det))
    return out


def once(p):
    p.run_once()
    return [ops.figures(p), ops.data(p)]


_fresh = {}


def fresh(cls, L, kind, order, count):
    """What a new simulation reports for the same site order."""
    key = (cls, L, kind, tuple(order), count)
    if key not in _fresh:
        if len(_fresh) > 3000:
            _fresh.clear()
        with env.use_tape(env.Tape((), env.fair_tape(77))):
            p = env.cls(cls)(length=L)
            p.set_custome_site_id_list(list(order))
            _fresh[key] = steps(p, count) if kind == "steps" else once(p)
    return _fresh[key]


NAMES = ops.NAMES[:-1] + ("p* / summary / answers", "answer of place_one_site", "answer of detect_wrapping")


def same(a, b, what):
    if len(a) != len(b):
        raise Violation("%s: %d results instead of %d" % (what, len(a), len(b)))
    for k, (x, y) in enumerate(zip(a, b)):
        d = ops.differ(x, y, NAMES)
        if d:
            raise Violation("%s: result %d differs (after the reset / on a new simulation): %s" % (what, k, d))


def bare(p, L):
    """Figures of an empty simulation, without the sequence."""
    return ops.figures(p, seq=False)


def run_plain(case, ctx):
    L, cls = case["L"], case["cls"]
    n = L * L
    what = "%s, side %d, history %s" % (cls, L, case["hist"])
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]))):
        p = env.cls(cls)(length=L)
        empty = bare(p, L)
        do_history(p, L, case["hist"])
        for j, follow in enumerate(case["follow"]):
            p.reset()
            d = ops.differ(empty, bare(p, L))
            if d:
                raise Violation("%s: right after the reset (left) a new simulation (right): %s" % (what, d))
            if follow["order"] is not None:
                p.set_custome_site_id_list(list(follow["order"]))
            order = list(p.get_site_id_sequence())
            if follow["kind"] == "steps":
                got = steps(p, len(order) + 1)
                want = fresh(cls, L, "steps", order, len(order) + 1)
            else:
                got = once(p)
                want = fresh(cls, L, "once", order, 0)
            ctx.transitions += len(got)
            ctx.state(cls, L, tuple(case["hist"]), tuple(order), j)
            same(got, want, what + ", then reset, then %s" % follow)
    ctx.traces += 1


_inter = {}


def trials(p, limit, names):
    out = [ops.figures(p)]
    k = 0
    while k < limit:
        k += 1
        more = p.place_one_site()
        det = bool(p.detect_wrapping())
        out.append((ops.light(p), ops.sequence(p)[0] if k % 5 == 0 else (), more, det))
        if more is False:
            break
    out.append(ops.figures(p))
    return out


def run_inter(case, ctx):
    L, cls = case["L"], case["cls"]
    n = L * L
    what = "%s, side %d, history %s" % (cls, L, case["hist"])

    def after(p, t):
        with env.use_tape(env.Tape((), env.fair_tape(1000 + t))):
            p.reset()
        with env.use_tape(env.Tape((), env.fair_tape(2000 + t), limit=2000 * n)):
            if case["kind"] == "trials":
                return trials(p, 400 * n, None)
            return once(p)

    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=4000 * n)):
        p = env.cls(cls)(length=L)
        empty = bare(p, L)
        do_history(p, L, case["hist"])
    lists = LISTS & set(case["hist"])
    for t in case["tapes"]:
        got = after(p, t)
        ctx.transitions += len(got)
        ctx.state(cls, L, tuple(case["hist"]), t)
        if not lists:
            key = (cls, L, case["kind"], t)
            if key not in _inter:
                with env.use_tape(env.Tape((), env.fair_tape(3))):
                    q = env.cls(cls)(length=L)
                _inter[key] = after(q, t)
            names = ("figures", "site sequence", "answer of place_one_site", "answer of detect_wrapping")
            a, b = got, _inter[key]
            if len(a) != len(b):
                raise Violation("%s: %d trials after the reset, %d on a new simulation with the same draws" % (what, len(a), len(b)))
            for k, (x, y) in enumerate(zip(a, b)):
                d = ops.differ(x, y, names if len(x) == 4 else NAMES)
                if d:
                    raise Violation("%s: with the same draws, trial %d after the reset (left) and on a new simulation (right): %s" % (what, k, d))
        # the figures of the run are those of a new simulation given the same site order
        seq = list(p.get_site_id_sequence())
        if sorted(seq) != list(range(n)):
            raise Violation("%s: the run after the reset placed %s" % (what, seq))
        q_light = fresh("L0", L, "steps", seq, n)[-1][1]
        if ops.light(p) != q_light:
            raise Violation("%s: figures after the reset %s, on a new simulation with the same order %s" % (what, ops.light(p), q_light))
        if case["kind"] == "once":
            want = fresh("L0", L, "once", seq, 0)
            if got[1] != want[1] or got[0][3] != want[0][3]:
                raise Violation("%s: recorded data differs from that of a new simulation with the same order" % what)
        p2 = None
    # the odds right after the reset are those of the rule
    with env.use_tape(env.Tape((), env.fair_tape(5))):
        p.reset()
    d = ops.differ(empty, bare(p, L))
    if d:
        raise Violation("%s: right after the reset (left) a new simulation (right): %s" % (what, d))
    if case.get("odds"):
        occ = set()
        for s in case["odds"]:
            p = interact.force(p, s)
            occ.add(s)
            interact.judge(interact.Snap(p), L, occ, cls, ctx, lambda: what + ", then reset, then sites %s placed" % sorted(occ))
    ctx.traces += 1


def shrink(case):
    for i in range(len(case["hist"])):
        h = case["hist"][:i] + case["hist"][i + 1:]
        if ok(h):
            yield dict(case, hist=h)
    if len(case.get("follow", ())) > 1:
        yield dict(case, follow=case["follow"][:1])
        yield dict(case, follow=case["follow"][1:])


def families(tier):
    T = tier == "thorough"
    names = sorted(make_ops(3))

    def hists(depth):
        for k in range(0, depth + 1):
            for h in itertools.product(names, repeat=k):
                if ok(h):
                    yield list(h)
        for a in names:                     # many realizations on one object
            for b in names if depth > 2 else ["run", "place4"]:
                for k in (3, 6, 10) + ((40,) if a == "run" or b == "run" else ()):
                    h = ([a, "reset"] + [b, "reset"] * (b != a)) * k
                    if ok(h):
                        yield h

    def plain(L, depth):
        n = L * L
        later = [None, full_order(n, [L, 0, 2 * L]), full_order(n, [n - 1, n - 1 - L, 1])[::-1], [0, 1, n - 1]]
        for i, h in enumerate(hists(depth)):
            for j, c in enumerate(PLAIN):
                if len(h) == 3 and L > 3 and (i + j) % 3:
                    continue
                yield dict(cls=c, L=L, hist=h, tape=i % 7, follow=[
                    dict(order=None, kind=("steps", "once")[(i + j) % 2]),
                    dict(order=later[(i + j) % 4], kind=("once", "steps")[(i + j) % 2]),
                    dict(order=None, kind="steps")])

    def inter(L, depth):
        odds = {3: ([0, 1, 2, 3, 5], [4, 3, 7, 1, 5, 8, 0, 2]), 4: ([0, 1, 4], [5, 6, 9])}
        for i, h in enumerate(hists(depth)):
            for c in ("L1", "L2"):
                o = odds.get(L)
                yield dict(cls=c, L=L, hist=h, tape=i % 7, kind=("trials", "once")[i % 2], tapes=[i % 3, (i + 1) % 3],
                           odds=o[i % 2] if o and (len(h) < 2 or T or i % 4 == 0) else None)

    def big():
        for L in (12, 20) if not T else (12, 20, 32):
            n = L * L
            nm = make_ops(L)
            order = full_order(n, [n - 1, n - 1 - L, 1, L, 0])
            for i, h in enumerate([x] for x in sorted(nm)):
                for c in PLAIN:
                    yield dict(cls=c, L=L, hist=h, tape=i, follow=[dict(order=None, kind="once"), dict(order=order, kind="once")])
                for c in ("L1", "L2"):
                    yield dict(cls=c, L=L, hist=h, tape=i, kind="once", tapes=[i % 3], odds=None)

    return [
        Family("big", "sides 12, 20%s: every single operation, reset, whole runs compared with new simulations, all classes" % (", 32" if T else ""), big,
               lambda case, ctx: (run_inter if "kind" in case else run_plain)(case, ctx)),
        Family("plain-L3", "L0, shortest path and base class, side 3: every history of up to %d operations out of %s, reset, then three following realizations compared with new simulations" % (4 if T else 3, names), lambda: plain(3, 4 if T else 3), run_plain, shrink),
        Family("plain-L45", "the same on sides 4 and 5, up to 3 and %d operations, side 8, one" % (3 if T else 2), lambda: itertools.chain(plain(4, 3), plain(5, 3 if T else 2), plain(8, 1)), run_plain, shrink),
        Family("interacting-L3", "L1 and L2, side 3: every history of up to 3 operations, reset; same draws, same order, same odds as new", lambda: inter(3, 3), run_inter, shrink),
        Family("interacting-L4", "the same on side 4, up to %d operations" % (3 if T else 2), lambda: inter(4, 3 if T else 2), run_inter, shrink),
    ]
