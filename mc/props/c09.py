"""Uncorrelated mode: every site once, in the announced order; all orders equally likely."""
import itertools
import math
from fractions import Fraction

from mc import env, ops
from mc.engine import Family, Violation
from mc.fam import occupied_sites
from mc.interact import Snap

F9 = math.factorial(9)


def _leaves_under(case, fn, first):
    """All outcomes of fn() whose first draws are `first` (skipped if the code draws in another pattern)."""
    def run(tape):
        return fn()
    prefix, expect = list(first), None
    k0 = len(first)
    while True:
        tape = env.Tape(prefix, expect=expect, limit=20000)
        with env.use_tape(tape):
            res = fn()
        yield res, tape.trace
        i = len(tape.trace) - 1
        while i >= k0 and tape.trace[i][1] + 1 >= tape.trace[i][0]:
            i -= 1
        if i < k0:
            return
        prefix = [c for _, c in tape.trace[:i]] + [tape.trace[i][1] + 1]
        expect = [n for n, _ in tape.trace[:i + 1]]


def _prob(trace):
    x = 1
    for n, _ in trace:
        x *= n
    return x


def announced(p, n, ids=None):
    seq = list(p.get_site_id_sequence())
    if sorted(seq) != sorted(ids if ids is not None else range(n)):
        raise Violation("the announced order %s is not an order of the sites" % seq)
    return seq


# ---------------------------------------------------------------- exact distribution over all 9! orders

def run_all9(case, ctx):
    C = env.cls(case["cls"])
    base = None
    if case["when"] == "reset":
        with env.use_tape(env.Tape((), env.fair_tape(case["tape"]))):
            base = C(length=3)
            base.run_once()
        snap = Snap(base)

    def go():
        if base is None:
            return announced(C(length=3), 9)
        p = snap.get()
        p.reset()
        return announced(p, 9)
    probe = env.Tape((), env.fair_tape(1), limit=20000)
    with env.use_tape(probe):
        go()
    if _prob(probe.trace) > F9 or [n for n, _ in probe.trace[:2]] != [9, 8]:
        ctx.count("not_enumerable", 1)          # another way of shuffling: left to the family `injective`
        return
    seen = set()
    for seq, trace in _leaves_under(case, go, case["first"]):
        if _prob(trace) != F9:
            raise Violation("an order is drawn with probability 1/%d instead of 1/9! (draws %s)" % (_prob(trace), [n for n, _ in trace]))
        code = 0
        for s in seq:
            code = code * 9 + s
        if code in seen:
            raise Violation("two different outcomes of the draws lead to the same order %s" % seq)
        seen.add(code)
        ctx.transitions += len(trace)
    ctx.outcomes |= seen
    ctx.states |= seen
    ctx.traces += len(seen)


def final9(outcomes, executions):
    if executions and (executions != F9 or len(outcomes) != F9):
        raise Violation("%d of the 362880 orders are possible, out of %d equally likely outcomes" % (len(outcomes), executions))


# ---------------------------------------------------------------- exact distribution of short lists, after any history

HIST = {
    "new": lambda p: None, "place": ops.place(1), "place3": ops.place(3), "run": lambda p: p.run_once(),
    "reset": lambda p: p.reset(), "fixed": ops.custom([7, 1, 4]), "mixed": ops.custom([3, 8, 0, 5], True),
    "figures": ops.figures,
}
PLACES = {"place", "place3", "run"}


def ok(h):
    placed = False
    for o in h:
        if o in PLACES:
            placed = True
        elif o == "reset":
            placed = False
        elif o in ("fixed", "mixed") and placed:
            return False
    return True


def run_short(case, ctx):
    ids = case["ids"]
    C = env.cls(case["cls"])
    L = case["L"]

    def go(tape):
        with env.use_tape(env.Tape((), env.fair_tape(5))):
            p = C(length=L)
            for o in case["hist"]:
                HIST[o](p)
            if case["when"] != "set":
                p.reset()
                if case.get("index"):
                    p.set_custome_site_index_list([divmod(s, L) for s in ids], do_shuffle=True)
                else:
                    p.set_custome_site_id_list(list(ids), do_shuffle=True)
                if case["when"] == "reset-after-run":
                    p.run_once()
            elif any(o in PLACES for o in case["hist"]):
                p.reset()
        if case["when"] == "set":
            if case.get("index"):
                p.set_custome_site_index_list([divmod(s, L) for s in ids], do_shuffle=True)
            else:
                p.set_custome_site_id_list(list(ids), do_shuffle=True)
        else:
            p.reset()
        return tuple(announced(p, L * L, ids))
    dist = {}
    for seq, trace in env.leaves(go, limit=5000):
        dist[seq] = dist.get(seq, 0) + Fraction(1, _prob(trace))
        ctx.transitions += 1
        ctx.traces += 1
        ctx.state(case["when"], tuple(case["hist"]), seq)
    want = Fraction(1, math.factorial(len(ids)))
    for seq in itertools.permutations(ids):
        if dist.get(seq, 0) != want:
            raise Violation("after %s the order %s has probability %s instead of %s" % (
                case["hist"], seq, dist.get(seq, 0), want))


# ---------------------------------------------------------------- larger lattices: no two outcomes give the same order

def run_inject(case, ctx):
    """All draw outcomes that differ from a base tape in at most `dev` draws: equally likely, orders pairwise distinct."""
    L, C = case["L"], env.cls(case["cls"])
    n = L * L

    def go(forced):
        tape = env.Tape((), lambda k, m: forced.get(k, base(k, m)))
        fixed = env.Tape((), env.fair_tape(9))
        if case["when"] == "reset":
            with env.use_tape(fixed):
                p = C(length=L)
                if case.get("after") == "runs":
                    p.run_once()
                    p.reset()
                    p.run_once()
                elif case.get("after") == "run":
                    p.run_once()
                else:
                    ops.place(3)(p)
            with env.use_tape(tape):
                p.reset()
        else:
            with env.use_tape(tape):
                p = C(length=L)
        return tuple(announced(p, n)), tape.trace
    base = env.fair_tape(case["tape"])
    seq, trace = go({})
    fact = math.factorial(n)
    x = _prob(trace)
    if x < fact:
        raise Violation("side %d: an order is drawn with probability 1/%d, more than 1/%d!" % (L, x, n))
    if x != fact:
        ctx.count("not_counted", 1)
        return
    seen = {seq: ()}
    ks = range(len(trace))
    if case.get("few"):
        # some draws only: the first, the last and some between; and other base tapes
        ks = sorted({0, 1, len(trace) // 2, len(trace) - 2, len(trace) - 1} & set(ks))
        for t in range(3):
            base = env.fair_tape(case["tape"] + 11 + t)
            s2, t2 = go({})
            if s2 in seen:
                raise Violation("side %d: two different outcomes of the draws lead to the same order %s" % (L, s2))
            seen[s2] = t
        base = env.fair_tape(case["tape"])
    for k in ks:
        for c in range(trace[k][0]):
            if c == trace[k][1]:
                continue
            dev = {k: c}
            s2, t2 = go(dev)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(L, s2)
            if s2 in seen:
                raise Violation("side %d: two different outcomes of the draws lead to the same order %s" % (L, s2))
            seen[s2] = dev


def run_invert(case, ctx):
    """Looks for the outcome of the draws that leads to a given order. If the order found in the end is another one, and
    that one is reached by other outcomes too, the orders are not equally likely (n! equally likely outcomes)."""
    L, C = case["L"], env.cls(case["cls"])
    n = L * L
    with env.use_tape(env.Tape((), env.fair_tape(9))):
        start = Snap(C(length=L))
    fact = math.factorial(n)
    spent = []

    def go(choices, tail=0):
        tape = env.Tape((), lambda k, m: min(choices.get(k, m - 1 if tail == 0 else 0), m - 1))
        if case["when"] == "new":
            with env.use_tape(tape):
                p = C(length=L)
        else:
            p = start.get()
            with env.use_tape(tape):
                p.reset()
        ctx.transitions += 1
        return tuple(announced(p, n)), tape.trace

    def search(target, way, width):
        """Draw by draw the outcomes whose order agrees longest with the target, from its end or from its beginning (the
        draws to come all last or all first). Returns the outcomes of all draws that lead to the target, and those of
        all orders met at the last two draws."""
        want = list(target)[::way]
        beam, end, met = [{}], [], {}
        for k in range(len(trace)):
            best, nxt = -1, []
            if spent and ctx.transitions > spent[0] + 8000:     # another way of shuffling: not searched for ever
                break
            for ch in beam:
                for c in range(trace[k][0]):
                    score = -1
                    for tail in (0, 1):
                        s2, t2 = go({**ch, k: c}, tail)
                        x = [x for _, x in t2]
                        if list(s2) == list(target) and x not in end:
                            end.append(x)
                        if k >= len(trace) - 2:
                            met[s2] = x
                        score = max(score, next((i for i, (x, y) in enumerate(zip(s2[::way], want)) if x != y), n))
                        if score == n or k == len(trace) - 1:
                            break
                    if score > best:
                        best, nxt = score, []
                    if score == best and len(nxt) < width:
                        nxt.append({**ch, k: c})
            beam = nxt
            if len(end) >= (2 if width > 1 else 1):
                break
        return end, met
    seq0, trace = go({})
    if _prob(trace) != fact:
        ctx.count("not_counted", 1)
        return
    t = list(range(n))
    i = t.index(case["site"])
    t[case["place"]], t[i] = t[i], t[case["place"]]
    ctx.traces += 1
    ctx.state(L, tuple(t))
    failed, spent[:] = [], []
    for way in (-1, 1):
        end, met = search(t, way, 1)
        if end:
            return
        failed.append((way, met))
    ctx.count("not_reached", 1)
    spent.append(ctx.transitions)
    for way, met in failed:
        for seq, tape in met.items():
            for other in search(seq, way, 8)[0]:
                if other != tape:
                    raise Violation("side %d: two different outcomes of the draws, %s and %s, lead to the same order %s" % (L, tape, other, list(seq)))


# ---------------------------------------------------------------- the announced order is the order of placement

def run_follow(case, ctx):
    L = case["L"]
    n = L * L
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]))):
        p = env.cls(case["cls"])(length=L)
        ids = None
        if case.get("ids"):
            ids = case["ids"]
            p.set_custome_site_id_list(list(ids), do_shuffle=True)
        for run in range(case["runs"]):
            if run:
                p.reset()
            seq = announced(p, n, ids)
            idx = [tuple(x) for x in p.get_index_sequence()]
            if idx != [divmod(s, L) for s in seq]:
                raise Violation("the index sequence %s does not match the site sequence %s" % (idx, seq))
            stop = case.get("stop")
            before = set()
            for k, s in enumerate(seq):
                if stop is not None and run == 0 and k == stop:
                    break
                if p.place_one_site() is False:
                    raise Violation("run %d stops after %d of %d sites" % (run, k, len(seq)))
                now = set(occupied_sites(p, n))
                if now != before | {s}:
                    raise Violation("run %d, placement %d: site %d was announced, occupied now: %s, before: %s" % (
                        run, k, s, sorted(now), sorted(before)))
                if abs(p.occupation_prob() * n - (k + 1)) > 1e-9:
                    raise Violation("after %d placements the occupation probability is %r" % (k + 1, p.occupation_prob()))
                if case.get("detect"):
                    p.detect_wrapping()
                if list(p.get_site_id_sequence()) != seq:
                    raise Violation("the announced order changed during the run")
                before = now
                ctx.transitions += 1
                ctx.state(L, frozenset(now), s)
            else:
                fig = ops.figures(p)
                for _ in range(3):
                    if p.place_one_site() is not False:
                        raise Violation("run %d goes on after all %d sites were placed" % (run, len(seq)))
                    d = ops.differ(fig, ops.figures(p))
                    if d:
                        raise Violation("an attempt after the end changed something: " + d)
    ctx.traces += 1


def families(tier):
    T = tier == "thorough"
    clss = ("L0", "SP", "BASE")
    firsts = [[i, j] for i in range(9) for j in range(8)]

    def short():
        hists = [h for k in range(0, 4 if T else 3) for h in itertools.product(sorted(HIST), repeat=k) if ok(h)]
        for when in ("set", "reset", "reset-after-run"):
            for h in hists:
                for c in clss:
                    yield dict(cls=c, L=3, ids=[5, 2, 7], hist=list(h), when=when)
                    yield dict(cls=c, L=3, ids=[0, 8, 4, 3], hist=list(h), when=when, index=1)
        for c in clss:
            for ids in ([3], [0, 1], [8, 6, 4, 2, 0], [1, 3, 5, 7, 0, 8]):
                for when in ("set", "reset", "reset-after-run"):
                    yield dict(cls=c, L=3, ids=ids, hist=["place3"], when=when)

    def inject():
        for L in ((4, 5, 6, 8) if not T else (3, 4, 5, 6, 7, 8, 10)):
            for t in range((3 if L < 6 else 1) if not T else 4):
                for when in ("new", "reset"):
                    for c in (("L0",) if L > 5 else clss):
                        yield dict(cls=c, L=L, tape=t, when=when)

    def inject_large():
        for L in (10, 12, 16, 20) if not T else (7, 9, 10, 11, 12, 14, 16, 20, 24, 32):
            for c in clss:
                for t, after in enumerate(("run", "runs")):
                    yield dict(cls=c, L=L, tape=t, when="reset", after=after, few=1)
                yield dict(cls=c, L=L, tape=2, when="new", few=1)

    def inversions():
        for L in (4, 5, 6, 7) if not T else (4, 5, 6, 7, 8):
            n = L * L
            sites = range(n) if L < 5 or T and L < 7 else sorted({0, 1, L, n // 2, n - 2, n - 1})
            for s in sites:
                for place in (0, -1):
                    if L > 5 and place and s not in (0, n - 1):
                        continue
                    yield dict(cls=clss[s % 3], L=L, site=s, place=place, when="new" if (s + place) % 2 else "reset")

    def follow():
        for L in (3, 4, 5, 6, 7, 9, 12):
            for t in range((40 if L < 6 else 8 if L < 9 else 2) * (8 if T else 1)):
                for c in clss:
                    yield dict(cls=c, L=L, tape=t, runs=4 if L < 6 else 3, detect=t % 2)
        for c in clss:
            yield dict(cls=c, L=20, tape=2, runs=2, detect=1)
            for L, k in ((40, 200), (130, 20)):
                yield dict(cls=c, L=L, tape=5, runs=1, stop=k, detect=1)
            yield dict(cls=c, L=20, tape=3, runs=2, detect=1, ids=list(range(399, 60, -1)))
            yield dict(cls=c, L=3, tape=3, runs=60, detect=1)
            for stop in range(0, 10):
                for t in range(4):
                    yield dict(cls=c, L=3, tape=t, runs=3, stop=stop, detect=1)
            for k in range(1, 9):
                for t in range(4):
                    yield dict(cls=c, L=3, tape=t, runs=3, detect=1, ids=list(range(9))[::-1][:k])

    fams = []
    for c, when in (("L0", "new"), ("L0", "reset")) + ((("SP", "new"), ("BASE", "reset")) if T else ()):
        fams.append(Family("all-orders-%s-%s" % (when, c), "side 3, %s: every outcome of the draws of the shuffle (%s): 9! equally likely outcomes, 9! orders" % (c, when),
                           lambda c=c, when=when: (dict(cls=c, when=when, tape=3, first=f) for f in firsts), run_all9, final=final9))
    return fams + [
        Family("short-lists", "shuffled custom lists of up to 6 sites, both forms: exact distribution at installation and at reset, after every history of up to %d operations" % (3 if T else 2), short, run_short),
        Family("injective", "sides up to %d: all outcomes that differ in one draw from a base tape are equally likely and give different orders" % (10 if T else 8), inject, run_inject),
        Family("injective-large", "sides %s: new, and after one and two whole runs: outcomes that differ in the first, last and some other draws" % ("7-32" if T else "10-20"), inject_large, run_inject),
        Family("inversion", "sides 4-%d: outcomes of the draws found for orders that begin or end with a given site; an order reached in two ways is not as likely as the others" % (8 if T else 7), inversions, run_invert),
        Family("follow", "placements follow the announced order, then stop; sides 3-20 (40, 130: the first placements), several runs (up to 60), partial first runs", follow, run_follow),
    ]
