"""Site lists given by the caller."""
import itertools
import math
from fractions import Fraction

from mc import env, ops
from mc.engine import Family, Violation
from mc.fam import affine, large_order, occupied_sites, patterns


def as_form(ids, L, form):
    if form == "ids":
        return list(ids)
    if form == "tuple-ids":
        return tuple(ids)
    rc = [divmod(s, L) for s in ids]
    if form == "index-list":
        return [list(x) for x in rc]
    if form == "Index":
        I = env.module("source_py.simulation.index").Index
        return [I(r, c) for r, c in rc]
    return rc


def install(p, value, form, shuffle=False):
    f = p.set_custome_site_id_list if form in ("ids", "tuple-ids") else p.set_custome_site_index_list
    if shuffle:
        f(value, do_shuffle=True)
    else:
        f(value)


def show(value, form):
    return [x.as_list() for x in value] if form == "Index" else [tuple(x) if isinstance(x, list) else x for x in value]


def placed(p, n, k, before):
    """Places one site; returns it."""
    if p.place_one_site() is False:
        raise Violation("the run stopped after %d sites" % k)
    now = set(occupied_sites(p, n))
    new = now - before
    if len(new) != 1 or before - now:
        raise Violation("a placement changed the occupied sites from %s to %s" % (sorted(before), sorted(now)))
    return new.pop()


def expect_end(p, n, before):
    fig = ops.light(p)
    for _ in range(2):
        if p.place_one_site() is not False:
            raise Violation("the run goes on after the last site of the list")
        if set(occupied_sites(p, n)) != before or ops.light(p) != fig:
            raise Violation("an attempt after the end changed something")


def follow(p, n, want, ctx, before=(), detect=True, upto=None):
    before = set(before)
    for k, s in enumerate(want):
        x = placed(p, n, k, before)
        if x != s:
            raise Violation("placement %d is site %d, the list says %d (list %s)" % (k, x, s, want))
        before.add(x)
        if detect:
            p.detect_wrapping()
        ctx.transitions += 1
        ctx.state(n, frozenset(before), x)
    return before


def run_valid(case, ctx):
    """install; follow; end; reset; replay. The caller's list stays as it was and may be changed afterwards."""
    L, form = case["L"], case["form"]
    n = L * L
    want = list(case["ids"])
    with env.use_tape(env.Tape((), env.fair_tape(2))):
        p = env.cls(case["cls"])(length=L)
        if case.get("before") == "run":
            p.run_once()
            p.reset()
        elif case.get("before") == "custom":
            install(p, [n - 1, 0], "ids")
            ops.place(1)(p)
            p.reset()
        elif case.get("before") in ("shuffled", "shuffled-rc"):
            install(p, as_form([n - 1, 0, 4], L, "rc" if case["before"] == "shuffled-rc" else "ids"), "rc" if case["before"] == "shuffled-rc" else "ids", True)
            ops.place(1)(p)
            p.reset()
        value = as_form(want, L, form)
        given = show(value, form)
        install(p, value, form, case.get("shuffle"))
        if show(value, form) != given:
            raise Violation("the list of the caller was changed from %s to %s" % (given, show(value, form)))
        if case.get("shuffle"):
            got = list(p.get_site_id_sequence())
            if sorted(got) != sorted(want):
                raise Violation("shuffled list %s announces %s" % (want, got))
            want = got
        elif list(p.get_site_id_sequence()) != want or [tuple(x) for x in p.get_index_sequence()] != [divmod(s, L) for s in want]:
            raise Violation("list %s announces %s / %s" % (want, p.get_site_id_sequence(), p.get_index_sequence()))
        if isinstance(value, list) and case.get("alias"):
            value.reverse()                    # what the caller does with the list afterwards is his business
            value.append(value[0])
        if case.get("stop") is not None:
            follow(p, n, want[:case["stop"]], ctx)
        else:
            expect_end(p, n, follow(p, n, want, ctx))
        p.reset()
        if case.get("shuffle"):
            want = list(p.get_site_id_sequence())
            if sorted(want) != sorted(case["ids"]):
                raise Violation("after a reset the shuffled list %s announces %s" % (case["ids"], want))
        expect_end(p, n, follow(p, n, want, ctx))
        if isinstance(value, list) and not case.get("alias") and show(value, form) != given:
            raise Violation("the list of the caller was changed from %s to %s" % (given, show(value, form)))
        p.reset()
        if not case.get("shuffle") and case["cls"] != "SP":
            p.run_once()
            got = [round(x * n) for x in p.get_occupation_prob_array()]
            if set(occupied_sites(p, n)) != set(want) or got != list(range(1, len(want) + 1)):
                raise Violation("run_once on the list %s placed %s" % (want, occupied_sites(p, n)))
    ctx.traces += 1


def run_shuffled(case, ctx):
    """A list to be shuffled: all orders equally likely, in every form, at installation and at every reset."""
    L, form, ids = case["L"], case["form"], case["ids"]
    C = env.cls(case["cls"])

    def go(tape):
        with env.use_tape(env.Tape((), env.fair_tape(4))):
            p = C(length=L)
            if case["before"]:
                install(p, as_form([L * L - 1, 0], L, case["before"][0]), case["before"][0], case["before"][1])
            if case["resets"] is not None:
                install(p, as_form(ids, L, form), form, True)
                for k in range(case["resets"]):
                    ops.place((1, len(ids), len(ids) + 1, 0)[(k + case.get("full", 0)) % 4])(p)
                    p.reset()
                ops.place((0, len(ids) + 1, len(ids), 1)[case.get("full", 0)])(p)
        if case["resets"] is None:
            install(p, as_form(ids, L, form), form, True)
        else:
            p.reset()
        return tuple(p.get_site_id_sequence())
    dist = {}
    for seq, trace in env.leaves(go, limit=5000):
        w = Fraction(1)
        for m, _ in trace:
            w /= m
        dist[seq] = dist.get(seq, 0) + w
        ctx.transitions += 1
        ctx.traces += 1
        ctx.state(form, seq)
    want = Fraction(1, math.factorial(len(ids)))
    for seq in itertools.permutations(ids):
        if dist.get(seq, 0) != want:
            raise Violation("the list %s (%s, to be shuffled) is placed in the order %s with probability %s instead of %s" % (
                ids, form, seq, dist.get(seq, 0), want))


def run_continue(case, ctx):
    """list a, k of its sites placed; then a list with the same first k sites, placed to the end; then reset."""
    L, form = case["L"], case["form"]
    n = L * L
    with env.use_tape(env.Tape((), env.fair_tape(2))):
        p = env.cls(case["cls"])(length=L)
        before, done = set(), 0
        for j, (ids, upto) in enumerate(case["lists"]):
            value = as_form(ids, L, form)
            install(p, value, form)
            for s in ids[done:upto]:
                x = placed(p, n, done, before)
                if x != s:
                    raise Violation("lists %s: placement %d is site %d instead of %d" % (case["lists"], done, x, s))
                before.add(x)
                done += 1
                p.detect_wrapping()
                ctx.transitions += 1
                ctx.state(n, frozenset(before), x)
            if upto == len(ids):
                expect_end(p, n, before)
        p.reset()
        expect_end(p, n, follow(p, n, case["lists"][-1][0], ctx))
    ctx.traces += 1


def run_invalid(case, ctx):
    """A rejected list changes nothing: the same history without it goes on identically."""
    L = case["L"]
    n = L * L

    def history(reject):
        out = []
        with env.use_tape(env.Tape((), env.fair_tape(3))):
            p = env.cls(case["cls"])(length=L)
            if case["plan"] == "custom":
                install(p, [5, 2, 7, 3, 1], "ids")
            elif case["plan"] == "shuffled":
                install(p, [5, 2, 7, 3, 1], "ids", True)
            elif case["plan"] == "index":
                install(p, [(1, 1), (0, 2), (2, 0)], "rc")
            ops.place(case["k"])(p)
            out.append(ops.figures(p))
            if reject:
                value = [tuple(x) if isinstance(x, list) else x for x in case["value"]]
                given = list(value)
                try:
                    if case.get("form") == "Index":
                        I = env.module("source_py.simulation.index").Index
                        value = [I(*x) for x in value]
                        given = list(value)
                    install(p, value, case["form"], case.get("shuffle"))
                except (ValueError, IndexError):
                    pass
                if value != given:
                    raise Violation("the rejected list of the caller was changed")
            for _ in range(n + 2 if case["cls"] not in ("L1", "L2") else 4):
                out.append(ops.figures(p))
                p.place_one_site()
                p.detect_wrapping()
            p.reset()
            out.append(ops.figures(p))
            ops.place(3)(p)
            out.append(ops.figures(p))
        return out
    base = _base(case, history)
    got = history(True)
    ctx.traces += 1
    ctx.transitions += len(got)
    ctx.state(case["cls"], case["plan"], case["k"], str(case["value"]))
    for k, (a, b) in enumerate(zip(base, got)):
        d = ops.differ(a, b)
        if d:
            raise Violation("the list %s is outside of a lattice of side %d, but giving it (plan %s, %d placed) changed: %s"
                            % (case["value"], L, case["plan"], case["k"], d))


_bases = {}


def _base(case, history):
    key = (case["cls"], case["L"], case["plan"], case["k"])
    if key not in _bases:
        _bases[key] = history(False)
    return _bases[key]


def run_interacting(case, ctx):
    """L1 / L2 with a candidate list end, with all candidates occupied, without error; the list stays as it was."""
    L = case["L"]
    n = L * L
    tape = env.Tape(case.get("prefix", ()), env.fair_tape(case["tape"]), limit=3000 * L * L)
    with env.use_tape(tape):
        p = env.cls(case["cls"])(length=L)
        value = as_form(case["ids"], L, case["form"])
        given = show(value, case["form"])
        install(p, value, case["form"], case.get("shuffle"))
        before = set()
        while p.place_one_site():
            now = set(occupied_sites(p, n))
            if len(now - before) > 1 or before - now:
                raise Violation("one trial changed the occupied sites from %s to %s" % (sorted(before), sorted(now)))
            before = now
            p.detect_wrapping()
            ctx.transitions += 1
            ctx.state(L, frozenset(before))
        if not set(case["ids"]) <= before:
            raise Violation("the run on the candidates %s ended with only %s occupied" % (case["ids"], sorted(before)))
        expect_end(p, n, before)
        if show(value, case["form"]) != given:
            raise Violation("the list of the caller was changed from %s to %s" % (given, show(value, case["form"])))
        seq = list(p.get_site_id_sequence())
        if set(seq) != before or len(seq) != len(before):
            raise Violation("occupied %s, reported sequence %s" % (sorted(before), seq))
        p.reset()
        p.run_once()
        if set(case["ids"]) - set(occupied_sites(p, n)):
            raise Violation("the run after a reset left candidates empty")
    ctx.traces += 1


def families(tier):
    T = tier == "thorough"
    forms = ("ids", "rc", "index-list", "Index", "tuple-ids")
    clss = ("L0", "SP", "BASE")

    def valid():
        i = 0
        for k in (1, 2, 3):
            for ids in itertools.permutations(range(9), k):
                for c in clss:
                    i += 1
                    yield dict(cls=c, L=3, ids=list(ids), form="ids", alias=1, before=(None, "run", "custom", "shuffled", "shuffled-rc")[i % 5])
                    yield dict(cls=c, L=3, ids=list(ids), form=forms[1:][i % 4], before=(None, "run", "custom", "shuffled", "shuffled-rc")[(i // 3) % 5])
                yield dict(cls=clss[i % 3], L=3, ids=list(ids), form=forms[i % 5], shuffle=1, alias=(i // 5) % 2)
        for L in (4, 5, 7):
            for o in itertools.chain(patterns(L), affine(L, (0, L + 1))):
                i += 1
                m = (L * L, L * L // 2, L + 1)[i % 3]
                yield dict(cls=clss[i % 3], L=L, ids=o[:m], form=forms[i % 5], alias=(i // 5) % 2, before=(None, "run", "custom")[i % 3])
                yield dict(cls=clss[i % 3], L=L, ids=o[:m], form=forms[i % 5], stop=m // 2)
        for L, m in ((18, 324), (20, 150), (130, 120), (260, 60), (330, 40)):
            for j, name in enumerate(("scrambled1", "cross", "staircase")):
                for f in forms:
                    i += 1
                    yield dict(cls=clss[i % 3], L=L, ids=large_order(L, name)[:m], form=f, alias=j % 2, before=(None, "custom")[j % 2] if L > 50 else (None, "run", "custom")[j])
        for ids in itertools.permutations(range(9), 4 if not T else 5):
            i += 1
            yield dict(cls=clss[i % 3], L=3, ids=list(ids), form=forms[i % 5], stop=i % 4)
        for L in (4, 5):
            for ids in itertools.permutations(range(L * L), 2 if not T else 3):
                i += 1
                yield dict(cls=clss[i % 3], L=L, ids=list(ids), form=forms[i % 5])

    def shuffled():
        befores = (None, ("ids", False), ("rc", False), ("ids", True), ("rc", True))
        for c in clss:
            for form in forms:
                for b in befores:
                    for r in (None, 0, 1, 2):
                        for full in range(4) if r is not None else (0,):
                            for ids in ([2, 7], [4, 0, 8]) + (([1, 3, 5, 7],) if T else ()):
                                yield dict(cls=c, L=3, form=form, before=b, resets=r, full=full, ids=ids)

    def cont():
        orders = [list(o) for o in patterns(3)] + [[4, 0, 8, 2, 6, 1, 3, 5, 7], [1, 7, 3, 5, 0, 2, 6, 8, 4]]
        i = 0
        for o in orders:
            for a in range(1, 9):
                for k in range(0, a + 1):
                    for b in range(max(1, k), 10):       # longer, as long, shorter (down to what is placed)
                        i += 1
                        yield dict(cls=clss[i % 3], L=3, form=forms[i % 5], lists=[[o[:a], k], [o[:b], b]])
                        # the second list may differ after what has been placed
                        tail = [x for x in o if x not in o[:k]][::-1][:b - k]
                        yield dict(cls=clss[i % 3], L=3, form=forms[(i + 1) % 5], lists=[[o[:a], k], [o[:k] + tail, k + len(tail)]])
        for o in orders[:6 if not T else None]:
            for a, b, c in itertools.combinations(range(1, 10), 3):
                i += 1
                yield dict(cls=clss[i % 3], L=3, form=forms[i % 5], lists=[[o[:a], a], [o[:b], b - 1], [o[:c], c]])

    def invalid():
        L = 3
        n = 9
        bad_ids = (-1, -2, -9, -10, 9, 10, 17, 18, 81, 10 ** 6, -10 ** 6)
        bad_rc = ((-1, 0), (0, -1), (3, 0), (0, 3), (2, 3), (3, 3), (-1, -1), (1, 7), (1, -1), (-1, 4), (5, -6), (2, -3), (0, 8), (-3, 2), (100, 1))
        good_ids = [0, 4, 8, 2, 6]
        plans = ("none", "custom", "shuffled", "index")
        i = 0
        for m in (0, 1, 2, 3):
            for pos in range(m + 1):
                for b in bad_ids:
                    value = good_ids[:pos] + [b] + good_ids[pos:m]
                    for c in clss + ("L1", "L2"):
                        for plan in (plans if m < 3 or T else ("none", "custom")):
                            for k in ((0, 2) if not T else (0, 1, 3)):
                                i += 1
                                yield dict(cls=c, L=L, plan=plan, k=k, value=value, form="ids", shuffle=i % 2)
                for b in bad_rc:
                    good = [list(divmod(s, L)) for s in good_ids]
                    value = good[:pos] + [list(b)] + good[pos:m]
                    for c in clss + ("L1", "L2"):
                        for plan in (plans if m < 2 or T else ("none", "index")):
                            for k in ((0, 2) if not T else (0, 1, 3)):
                                i += 1
                                yield dict(cls=c, L=L, plan=plan, k=k, value=value, form=("rc", "Index")[i // 2 % 2], shuffle=i % 2)
        for L in (4, 5):
            for r in range(-2, L + 3):
                for c in range(-2, L + 3):
                    if not (0 <= r < L and 0 <= c < L):
                        for kl in ("L0", "SP"):
                            yield dict(cls=kl, L=L, plan="none", k=1, value=[[0, 0], [r, c], [1, 1]], form="rc")
            for s in itertools.chain(range(-2 * L, 0), range(L * L, L * L + 2 * L)):
                for kl in ("L0", "SP"):
                    yield dict(cls=kl, L=L, plan="custom", k=1, value=[0, s, 3], form="ids")

    def interacting():
        i = 0
        for k in (1, 2, 3):
            for ids in itertools.combinations(range(9), k):
                for c in ("L1", "L2"):
                    for t in range(3 if not T else 8):
                        i += 1
                        yield dict(cls=c, L=3, ids=list(ids), form=forms[i % 4], tape=t, shuffle=i % 2)
        for k in (4, 6, 8, 9):
            for ids in itertools.combinations(range(9), k):
                for c in ("L1", "L2"):
                    i += 1
                    yield dict(cls=c, L=3, ids=list(ids)[::-1], form=forms[i % 4], tape=i % 7)
        for L in (4, 5, 6):
            for o in patterns(L):
                for m in (3, L * L // 2, L * L):
                    for c in ("L1", "L2"):
                        i += 1
                        yield dict(cls=c, L=L, ids=o[:m], form=forms[i % 4], tape=i % 5)

    return [
        Family("valid", "side 3: all lists of 1-3 distinct sites (lists of 4%s with an early reset), all forms and classes, aliasing, after other activity, shuffled; sides 4, 5, 7, 18-260: regular orders, pairs" % ("-5" if T else ""), valid, run_valid),
        Family("shuffled", "lists to be shuffled, in every form, alone and after every kind of list: exact distribution of the order at installation and at the first resets", shuffled, run_shuffled),
        Family("continued", "side 3: a list, every number of its sites placed, then every longer or shorter list that begins with them; three lists in a row; then reset", cont, run_continue),
        Family("invalid", "every invalid identifier / row / column of a set, at every position of lists of up to 4, every plan in force, before and during a run", invalid, run_invalid),
        Family("interacting", "L1 and L2 with every candidate set of 1-4, 6, 8, 9 sites of side 3, and regular ones on sides 4-6", interacting, run_interacting),
    ]
