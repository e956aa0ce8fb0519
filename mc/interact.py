"""The interacting modes: exact distribution of the next trial, by enumerating all outcomes of its random draws."""
import copy
import itertools
import pickle
from fractions import Fraction

from mc import env, ref
from mc.engine import Family, Violation
from mc.fam import chains, occupied_sites, patterns


class Snap:
    """A state of a simulation that can be continued any number of times."""

    def __init__(self, p):
        try:
            self.blob = pickle.dumps(p, -1)
        except Exception:
            self.blob = None
            self.p = copy.deepcopy(p)

    def get(self):
        return pickle.loads(self.blob) if self.blob is not None else copy.deepcopy(self.p)


class Leaf:
    __slots__ = ("choices", "prob", "site", "more", "p")


def trial(snap, L, occ, keep=False):
    """All outcomes of one trial from the state: list of Leaf."""
    n = L * L
    out = []

    def go(tape):
        p = snap.get()
        more = p.place_one_site()
        return p, more
    for (p, more), trace in env.leaves(go, limit=20000, tape_limit=2000):
        x = Leaf()
        now = set(occupied_sites(p, n))
        new = now - occ
        if len(new) > 1 or occ - now:
            raise Violation("one trial changed the occupied sites from %s to %s" % (sorted(occ), sorted(now)))
        x.site = new.pop() if new else None
        x.more = more
        x.choices = tuple(c for _, c in trace)
        d = 1
        for k, _ in trace:
            d *= k
        x.prob = Fraction(1, d)
        x.p = p if keep else None
        out.append(x)
    return out


def judge(snap, L, occ, mode, ctx, how, keep=False):
    """Compares the distribution of the next placement with the rule; returns the leaves."""
    ls = trial(snap, L, occ, keep)
    got = {}
    for x in ls:
        if x.site is not None:
            got[x.site] = got.get(x.site, 0) + x.prob
        if x.more is False and x.site is not None:
            raise Violation("%s: a trial placed site %d and reported the end" % (how(), x.site))
    if sum(x.prob for x in ls) != 1:
        raise Violation("the probabilities of the outcomes of the draws do not add up to 1")
    want, fail = ref.rule_weights(L, occ, mode)
    ctx.transitions += len(ls)
    ctx.count("distributions")
    tg, tw = sum(got.values()), sum(want.values())
    if not want:
        if got:
            raise Violation("%s: a site was placed on a full lattice" % how())
        return ls
    if not got:
        raise Violation("%s: no outcome of the draws places a site, %s are empty" % (how(), sorted(set(range(L * L)) - occ)))
    for s in sorted(set(got) | set(want)):
        a, b = Fraction(got.get(s, 0)) / tg, Fraction(want.get(s, 0), tw)
        if a != b:
            raise Violation("%s: the next placed site is %d (row %d, column %d) with probability %s, the rule says %s" % (
                how(), s, s // L, s % L, a, b))
    return ls


_pairs = {}


def _plan_of(p, pair):
    lst = p.__dict__.get(pair[0])
    off = p.__dict__.get(pair[1]) if pair[1] is not None else 0
    return (lst, off) if isinstance(lst, list) and type(off) is int else (None, 0)


def _find_pair(mode):
    """Which attributes hold the candidates and the number of those dropped: found by behaviour (every draw that places a
    site at once must show that site there, in all states of a few runs), whatever they are called. None if none fit;
    they only serve to find a draw quickly."""
    good = None
    for L, tape in ((3, 1), (3, 2), (4, 1)):
        with env.use_tape(env.Tape((), env.fair_tape(tape), limit=100000)):
            p = env.cls(mode)(length=L)
        k = 0
        done = False
        while not done and k < 40 * L * L:
            occ = set(occupied_sites(p, L * L))
            if k % 7 == 0 or len(occ) > L * L - 4:
                direct = {x.choices[0]: x.site for x in trial(Snap(p), L, occ) if len(x.choices) == 1 and x.site is not None}
                if good is None:
                    ints = [a for a, v in p.__dict__.items() if type(v) is int]
                    good = [(a, b) for a, v in p.__dict__.items() if isinstance(v, list) for b in ints + [None]]
                keep = []
                for pair in good:
                    lst, off = _plan_of(p, pair)
                    if lst is not None and all(0 <= c + off < len(lst) and lst[c + off] == s for c, s in direct.items()):
                        keep.append(pair)
                good = keep
            k += 1
            with env.use_tape(env.Tape((), lambda i, n, k=k, t=tape: env.fair_tape(t)(2 * k + i, n))):
                done = p.place_one_site() is False
    return good[0] if good else None


def index_of(p, site):
    """The outcome of the first draw that picks `site`, as far as can be told; None if it is not a candidate."""
    mode = type(p).__name__
    if mode not in _pairs:
        _pairs[mode] = None
        try:
            _pairs[mode] = _find_pair({"SitePercolationL1": "L1", "SitePercolationL2": "L2"}[mode])
        except Exception:
            pass
    if _pairs[mode] is None:
        return None
    lst, off = _plan_of(p, _pairs[mode])
    try:
        return lst.index(site, off) - off
    except (AttributeError, ValueError, TypeError):
        return None


def force(p, site, ctx=None):
    """Makes the simulation place exactly `site` (an empty one), picked directly."""
    L = p.lattice_ref.length
    n = L * L
    g = index_of(p, site)
    snap = None
    order = ([g] if g is not None else []) + [i for i in range(n) if i != g]
    before = set(occupied_sites(p, n))
    for c in order:
        if snap is None:
            snap = Snap(p)
        with env.use_tape(env.Tape((), lambda k, m: (c if k == 0 else 0))):
            p.place_one_site()
        if set(occupied_sites(p, n)) - before == {site}:
            p.detect_wrapping()
            return p
        p = snap.get()
    raise Violation("empty site %d cannot be placed next" % site)


def fresh(cls, L, tape=1, reset=0):
    with env.use_tape(env.Tape((), env.fair_tape(tape))):
        p = env.cls(cls)(length=L)
        for _ in range(reset):
            p.run_once()
            p.reset()
    return p


def text(case, occ, extra=""):
    return lambda: "%s, side %d, occupied %s%s" % (case["cls"], case["L"], sorted(occ), extra)


# ---------------------------------------------------------------- runs

def build(case):
    p = fresh(case["cls"], case["L"], case.get("tape", 1), case.get("reset", 0))
    occ = set()
    for s in case["occ"]:
        p = force(p, s)
        occ.add(s)
    return p, occ


def run_chain(case, ctx):
    """The distribution at every state along an order of placements, without unsuccessful trials before."""
    mode, L = case["cls"], case["L"]
    p = fresh(mode, L, case.get("tape", 1), case.get("reset", 0))
    occ = set()
    for k, s in enumerate([None] + case["order"]):
        if s is not None:
            p = force(p, s)
            occ.add(s)
        if case.get("only") and k not in case["only"]:
            continue
        ctx.state(mode, L, frozenset(occ))
        try:
            judge(Snap(p), L, occ, mode, ctx, text(case, occ))
        except Violation as v:
            v.case = dict(case, order=case["order"][:k])
            raise
    ctx.traces += 1


def run_fails(case, ctx):
    """All sequences of up to `depth` unsuccessful trials that pick one candidate, states merged when identical."""
    mode, L = case["cls"], case["L"]
    p, occ = build(case)
    c = index_of(p, case["x"])
    level = [(Snap(p), ())]
    seen = set()
    for depth in range(case["depth"] + 1):
        nxt = []
        for snap, path in level:
            last = depth == case["depth"]
            ls = judge(snap, L, occ, mode, ctx, text(case, occ, ", after the unsuccessful trials (draws) %s" % (list(path),)), keep=not last)
            ctx.state(mode, L, frozenset(occ), path)
            if last:
                continue
            for x in ls:
                if x.site is not None or x.more is False:
                    continue
                if c is not None and x.choices and x.choices[0] != c:
                    continue
                s = Snap(x.p)
                if s.blob is not None:
                    h = (depth, hash(s.blob))
                    if h in seen:
                        continue
                    seen.add(h)
                nxt.append((s, path + (x.choices,)))
        level = nxt
    ctx.traces += 1


def hopeless(L, occ, x, mode):
    for y, (dr, dc) in ref.neighbours(L)[x]:
        if y not in occ:
            return False
        if mode == "L2":
            r, c = divmod(y, L)
            if ((r + dr) % L) * L + (c + dc) % L not in occ:
                return False
    return True


def run_drops(case, ctx):
    """Candidates without any hope are tried in all four directions, one after another, in every order; the distribution
    is judged after each, and again after every possible next placement."""
    mode, L = case["cls"], case["L"]
    n = L * L
    p, occ = build(case)
    cand = [x for x in sorted(occ) if hopeless(L, occ, x, mode)]
    start = Snap(p)

    def go(snap, done):
        how = text(case, occ, ", after all directions of %s were tried in vain" % (done,))
        judge(snap, L, occ, mode, ctx, how)
        ctx.state(mode, L, frozenset(occ), tuple(done))
        if done:
            # place each empty site next
            for s in case.get("then", []):
                if s not in occ:
                    q = force(snap.get(), s)
                    o2 = occ | {s}
                    judge(Snap(q), L, o2, mode, ctx, text(case, o2, ", after all directions of %s were tried in vain, then site %d" % (done, s)))
                    q = None
        if len(done) >= case["k"]:
            return
        for x in cand:
            if x in done:
                continue
            q = snap.get()
            c = index_of(q, x)
            if c is None:
                continue
            for d in ((0, 1, 2, 3), (3, 1, 0, 2))[len(done) % 2]:
                with env.use_tape(env.Tape((), lambda k, m: (c if k == 0 else d))):
                    if q.place_one_site() is False:
                        if len(occ) < n:
                            raise Violation(how() + ": the run ended before the lattice was full")
                        return
                if set(occupied_sites(q, n)) != occ:
                    raise Violation(how() + ": a trial on site %d, which has no empty neighbour, placed a site" % x)
            go(Snap(q), done + [x])
    go(start, [])
    ctx.traces += 1


def run_tape(case, ctx):
    """The distribution at every state (unsuccessful trials included) of runs with a fixed tape."""
    mode, L = case["cls"], case["L"]
    n = L * L
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=100000)):
        p = env.cls(mode)(length=L)
        for run in range(case.get("runs", 1)):
            if run:
                p.reset()
            k = 0
            while True:
                occ = set(occupied_sites(p, n))
                if k % case.get("every", 1) == 0 if "at" not in case else k == case["at"]:
                    ctx.state(mode, L, frozenset(occ), k)
                    judge(Snap(p), L, occ, mode, ctx, text(case, occ, ", tape %d, run %d, trial %d" % (case["tape"], run, k)))
                k += 1
                if k > case.get("at", k):
                    break
                if p.place_one_site() is False:
                    break
                p.detect_wrapping()
    ctx.traces += 1


def run_stubborn(case, ctx):
    """Between two placements as many unsuccessful trials as possible (up to `most`), chosen in a fixed manner."""
    mode, L = case["cls"], case["L"]
    p = fresh(mode, L, case["tape"], case.get("reset", 0))
    n = L * L
    occ = set()
    step = 0
    fails = 0
    while True:
        snap = Snap(p)
        ctx.state(mode, L, frozenset(occ), step)
        ls = judge(snap, L, occ, mode, ctx, text(case, occ, ", %d unsuccessful trials in a row" % fails), keep=True)
        bad = [x for x in ls if x.site is None and x.more is not False]
        good = [x for x in ls if x.site is not None]
        step += 1
        if not good or step > 60 * n:
            break
        pick = {0: lambda z: z[0], 1: lambda z: z[-1], 2: lambda z: z[step % len(z)], 3: lambda z: z[(step * 7) % len(z)],
                4: lambda z: z[min(fails, len(z) - 1)]}[case["policy"]]
        if bad and (fails < case["most"] or not good):
            x = pick(bad)
            fails += 1
        else:
            x = pick(good)
            occ.add(x.site)
            fails = 0
        p = x.p
        if x.site is not None:
            p.detect_wrapping()
    ctx.traces += 1


def shrink(case):
    if "occ" in case:
        for i in range(len(case["occ"])):
            if case["occ"][i] != case.get("x"):
                yield dict(case, occ=case["occ"][:i] + case["occ"][i + 1:])
    if "order" in case:
        for i in range(len(case["order"]) - 1):
            yield dict(case, order=case["order"][:i] + case["order"][i + 1:])


def edges(L):
    """Corners, middles of the edges and the middle."""
    n = L * L
    return sorted({0, L - 1, n - L, n - 1, L // 2, n - 1 - L // 2, L * (L // 2), L * (L // 2) + L - 1, L * (L // 2) + L // 2})


def crosses(L, xs):
    """Site x with one or all neighbours, with and without the sites behind them."""
    nb = ref.neighbours(L)
    for x in xs:
        for pat in (1, 2, 4, 8, 15):
            ys, zs = [], []
            for d, (y, (dr, dc)) in enumerate(nb[x]):
                if pat >> d & 1:
                    r, c = divmod(y, L)
                    ys.append(y)
                    zs.append(((r + dr) % L) * L + (c + dc) % L)
            for occ in ([x] + ys, [x] + ys + zs):
                yield x, list(dict.fromkeys(occ))


def families_for(mode, tier):
    T = tier == "thorough"

    def sets3():
        for i, o in enumerate(_chains9()):
            yield dict(cls=mode, L=3, order=o, tape=i % 5, reset=i % 2)

    def sets4():
        if T:
            for i, o in enumerate(chains(16)):
                yield dict(cls=mode, L=4, order=o, tape=i % 5, reset=i % 2)
        else:
            for i, pre in enumerate(itertools.combinations(range(16), 2)):
                rest = [(x * 5 + i) % 16 for x in range(16)]
                o = list(pre) + [x for x in rest if x not in pre]
                yield dict(cls=mode, L=4, order=o, tape=i % 5, reset=i % 2, only=[2, 4 + i % 4, 9 + i % 5, 14, 15])

    def plus(L):
        nb = ref.neighbours(L)
        for x in range(L * L):
            ys = [y for y, _ in nb[x]]
            zs = []
            for y, (dr, dc) in nb[x]:
                r, c = divmod(y, L)
                zs.append(((r + dr) % L) * L + (c + dc) % L)
            for pat in range(1, 16):
                for zp in ((0, pat) if L < 6 or pat in (1, 2, 4, 8, 15) else (pat,)) if not T else range(16):
                    occ = [x] + [ys[d] for d in range(4) if pat >> d & 1] + [zs[d] for d in range(4) if zp >> d & 1]
                    occ = list(dict.fromkeys(occ))
                    yield dict(cls=mode, L=L, order=occ, tape=x % 5, only=[len(occ)], reset=x % 2)

    def plus_wide():
        for L in (7, 8, 9, 10) if not T else range(6, 17):
            for x, occ in crosses(L, edges(L)):
                yield dict(cls=mode, L=L, order=occ, tape=x % 5, only=[len(occ)], reset=0)

    def fails(L, xs):
        nb = ref.neighbours(L)
        for x in xs:
            ys = [y for y, _ in nb[x]]
            zs = []
            for y, (dr, dc) in nb[x]:
                r, c = divmod(y, L)
                zs.append(((r + dr) % L) * L + (c + dc) % L)
            for pat in range(1, 16):
                for zp in ((0,) if mode == "L1" else sorted({pat, pat & 5, pat & 10, pat & 7} - {0})):
                    occ = [x] + [ys[d] for d in range(4) if pat >> d & 1] + [zs[d] for d in range(4) if zp >> d & 1]
                    occ = list(dict.fromkeys(occ))
                    yield dict(cls=mode, L=L, occ=occ, x=x, depth=6 if T else 5, tape=x % 5, reset=x % 2)

    def drops():
        for e in (0, 1, 2, 3) if T else (0, 1, 2):
            for empty in itertools.combinations(range(9), e):
                occ = [s for s in range(9) if s not in empty]
                k = {0: 2, 1: 3, 2: 2, 3: 2}[e] + (1 if T else 0)
                for t in (0, 1):
                    yield dict(cls=mode, L=3, occ=occ, k=k, then=list(empty), tape=t, reset=t)
        for L in (4, 5):
            for e in range(L * L):
                occ = [s for s in range(L * L) if s != e]
                yield dict(cls=mode, L=L, occ=occ, k=1, then=[], tape=e % 3, reset=e % 2)

    def tapes():
        for L, n, every in ((3, 60, 1), (4, 16, 1), (5, 8, 3), (6, 4, 7)) if not T else ((3, 800, 1), (4, 200, 1), (5, 60, 1), (6, 30, 3), (8, 8, 17)):
            for t in range(n):
                yield dict(cls=mode, L=L, tape=t, runs=2, every=every)

    def wide():
        for L, ats in ((12, range(40, 400, 90)), (18, (30, 200, 420, 700, 1000))) if not T else ((12, range(0, 900, 12)), (18, range(0, 2000, 45)), (23, range(0, 3000, 130))):
            for at in ats:
                for t in range(2 if not T else 4):
                    yield dict(cls=mode, L=L, tape=(at + t) % 17, at=at)

    def stubborn():
        for L in (3, 4):
            for policy in range(5):
                for most in (1, 3, 5, 12) + ((40,) if T or L == 3 else ()):
                    for t in range((3 if L == 3 else 1) * (3 if T else 1)):
                        yield dict(cls=mode, L=L, tape=t, policy=policy, most=most, reset=t % 2)
        for policy in range(5):
            yield dict(cls=mode, L=5, tape=policy, policy=policy, most=4)

    return [
        Family("wide", "sides 12, 18%s: states along runs with fixed tapes" % (", 23" if T else ""), wide, run_tape),
        Family("sets-L3", "side 3: the exact distribution of the next placement in each of the 512 occupied sets", sets3, run_chain, shrink),
        Family("sets-L4", "side 4: " + ("each of the 65536 occupied sets" if T else "all pairs of occupied sites and four larger sets around each"), sets4, run_chain, shrink),
        Family("cross-L5", "side 5: each site occupied with every pattern of its neighbours and sites behind them", lambda: plus(5), run_chain, shrink),
        Family("cross-L6", "the same on side 6", lambda: plus(6), run_chain, shrink),
        Family("cross-wide", "sides %s: corners, edges and middle with one or all neighbours occupied, with and without the sites behind them" % ("6-16" if T else "7-10"), plus_wide, run_chain, shrink),
        Family("fails-L3", "side 3: every site with every pattern of occupied neighbours; all sequences of up to %d unsuccessful trials on it; distribution in each state" % (6 if T else 5), lambda: fails(3, range(9)), run_fails, shrink),
        Family("fails-L4", "the same on side 4" + ("" if T else ", three sites"), lambda: fails(4, range(16) if T else (0, 5, 11)), run_fails, shrink),
        Family("drops", "nearly full lattices: sites without hope tried in all directions, in every order; then each next placement", drops, run_drops, shrink),
        Family("tapes", "every state of two runs with fixed tapes, sides 3-%d" % (8 if T else 6), tapes, run_tape),
        Family("stubborn", "runs with as many unsuccessful trials as possible between placements (five ways of choosing them)", stubborn, run_stubborn),
    ]


def _chains9():
    return list(chains(9))
