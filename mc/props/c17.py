"""The recorded table: one aligned row per placed site, equal to what step-by-step placement reports."""
import itertools

from mc import env, fam, ops
from mc.engine import Family, Violation
from mc.fam import occupied_sites

COLUMNS = ("occupation probability", "entropy", "largest cluster", "wrapping cluster")


def step_run(p, n, rows):
    """A run done by hand: a row after every placement."""
    k = len(occupied_sites(p, n))
    while p.place_one_site():
        m = len(occupied_sites(p, n))
        if m == k:
            continue
        k = m
        p.detect_wrapping()
        rows.append((p.occupation_prob(), p.entropy(), p.order_param_largest_clstr(), p.order_param_wrapping()))


def close(a, b):
    return abs(a - b) <= 1e-9


def judge(p, n, rows, what):
    arrays = [list(a) for a in (p.get_occupation_prob_array(), p.get_entropy_array(), p.get_order_param_largest_array(),
                                p.get_order_param_wrapping_array())]
    k = len(occupied_sites(p, n))
    if k != len(rows):
        raise Violation("%s: %d sites are occupied, %d when placed step by step" % (what, k, len(rows)))
    for name, a in zip(COLUMNS, arrays):
        if len(a) != k:
            raise Violation("%s: %d values of %s for %d placed sites" % (what, len(a), name, k))
    for i, row in enumerate(rows):
        if not close(arrays[0][i], (i + 1) / n):
            raise Violation("%s: row %d has occupation probability %r instead of %d/%d" % (what, i, arrays[0][i], i + 1, n))
        for j in range(4):
            if not close(arrays[j][i], row[j]):
                raise Violation("%s: row %d: %s is %r, step-by-step placement reports %r" % (what, i, COLUMNS[j], arrays[j][i], row[j]))
    data = p.get_data_array()
    if tuple(data.shape) != (k, 4):
        raise Violation("%s: the data table has shape %s for %d placed sites" % (what, data.shape, k))
    for i in range(k):
        for j in range(4):
            if float(data[i][j]) != float(arrays[j][i]):
                raise Violation("%s: data table row %d column %d is %r, the %s array says %r" % (what, i, j, data[i][j], COLUMNS[j], arrays[j][i]))


def apply(p, op, L, rows, byhand):
    """One operation; byhand: runs are done step by step and fill `rows`."""
    name = op if isinstance(op, str) else op[0]
    if name == "list":
        p.set_custome_site_id_list(list(op[1]))
    elif name == "index":
        p.set_custome_site_index_list([divmod(s, L) for s in op[1]])
    elif name == "mixed":
        p.set_custome_site_id_list(list(op[1]), do_shuffle=True)
    elif name == "reset":
        p.reset()
        del rows[:]
    elif name == "detect":
        p.detect_wrapping()
    elif name == "look":
        p.get_data_array()
        ops.views(p)
    elif byhand:
        step_run(p, L * L, rows)
    else:
        p.run_once()


def run(case, ctx):
    L, cls = case["L"], case["cls"]
    n = L * L

    def tape():
        return env.use_tape(env.Tape(case.get("prefix", ()), env.fair_tape(case.get("tape", 0)), limit=4000 * n))
    want = []
    with tape():
        p = env.cls(cls)(length=L)
        rows = []
        for op in case["ops"]:
            apply(p, op, L, rows, True)
            want.append(list(rows))
    with tape():
        p = env.cls(cls)(length=L)
        for i, op in enumerate(case["ops"]):
            apply(p, op, L, [], False)
            judge(p, n, want[i], "%s, side %d, after %s" % (cls, L, case["ops"][:i + 1]))
            ctx.transitions += len(want[i])
    ctx.state(cls, L, str(case["ops"]), case.get("tape", 0))
    ctx.traces += 1


def shrink(case):
    o = case["ops"]
    for i in range(len(o)):
        yield dict(case, ops=o[:i] + o[i + 1:])
    if not any(isinstance(x, str) and x == "list" for x in o):
        for i, x in enumerate(o):
            if not isinstance(x, str) and len(x[1]) > 1 and sum(not isinstance(y, str) for y in o) == 1:
                for j in range(len(x[1])):
                    yield dict(case, ops=o[:i] + [[x[0], x[1][:j] + x[1][j + 1:]]] + o[i + 1:])


def histories(L, depth):
    """All sequences of operations; a list is only installed on an empty lattice or to continue the one in use."""
    n = L * L
    short = [4, 1, 7, 3]
    mid = short + [0, 5, n - 1]
    whole = mid + [s for s in range(n) if s not in mid]
    alphabet = ["run", "reset", "detect", "look", ["list", short], ["list", mid], ["list", whole], ["index", whole], ["mixed", mid]]
    cont = {4: 0, 5: 1, 6: 2, 7: 2}
    for k in range(1, depth + 1):
        for h in itertools.product(range(len(alphabet)), repeat=k):
            placed, cur, ok = 0, None, True         # cur: length of the list in use, None: random order
            for j in h:
                if j == 0:
                    placed = max(placed, n if cur is None else cur)
                elif j == 1:
                    placed = 0
                elif j >= 4:
                    m = len(alphabet[j][1])
                    if placed and (cur is None or j == 8 or cur == -1 or m < placed or mixed):
                        ok = False
                        break
                    cur, mixed = m, j == 8
            if ok and 0 in h and (k < 3 or h[-1] == 0 or h[-2] == 0):
                yield [alphabet[j] for j in h]


def families(tier):
    T = tier == "thorough"

    def lists(orders, L, after=(), clss=("L0", "BASE")):
        for i, o in enumerate(orders):
            yield dict(cls=clss[i % len(clss)], L=L, ops=[["list", list(o)], "run"] + list(after))

    def prefix():
        for k in (1, 2, 3) if not T else (1, 2, 3, 4):
            for i, o in enumerate(fam.prefixes(9, k)):
                w = fam.full(o, 9)
                ops_ = [["list", o], "run", ["list", w[:min(9, k + 3)]], "run", ["list", w], "run", "reset", "run"]
                yield dict(cls=("L0", "BASE")[i % 2], L=3, ops=ops_)

    def hist():
        i = 0
        for L, d in ((3, 5 if not T else 6), (4, 3 if not T else 4), (5, 2)):
            for h in histories(L, d):
                i += 1
                for c in ("L0",) if i % 2 else ("BASE",):
                    yield dict(cls=c, L=L, ops=h, tape=i % 11)

    def inter():
        i = 0
        for L, d in ((3, 4 if not T else 5), (4, 3)):
            for h in histories(L, d):
                # lists are sets of candidates here: only on an empty lattice
                fresh, ok = True, True
                for o in h:
                    if not isinstance(o, str) and not fresh:
                        ok = False
                    if o == "run":
                        fresh = False
                    if o == "reset":
                        fresh = True
                if ok:
                    for c in ("L1", "L2"):
                        i += 1
                        yield dict(cls=c, L=L, ops=h, tape=i % 13)

    def tapes():
        for L, m in ((3, 60), (4, 30), (5, 16), (7, 4), (10, 1)) if not T else ((3, 2000), (4, 600), (5, 300), (6, 100), (8, 30), (12, 6), (16, 2)):
            for t in range(m):
                for c in ("L0", "L1", "L2", "BASE"):
                    yield dict(cls=c, L=L, ops=["run", "reset", "run"] + ["reset", "run"] * (t % 3), tape=t)

    def wide():
        for c in ("L0", "L1", "L2", "BASE"):
            yield dict(cls=c, L=20, ops=["run", "reset", "run"], tape=1)
            yield dict(cls=c, L=30 if not T else 50, ops=["run"], tape=2)
        for L in (130, 260):
            for o, k in (("scrambled4", 300), ("cross", 280), ("staircase", 290)):
                o = fam.large_order(L, o)
                yield dict(cls=("L0", "BASE")[k % 4 == 0], L=L, ops=[["list", o[:k // 2]], "run", ["list", o[:k]], "run", "reset", "run"])

    def many():
        for c in ("L0", "L1", "L2"):
            for k in (5, 12, 30, 70):
                yield dict(cls=c, L=3, ops=["run", "reset"] * k + ["run"], tape=k)
                yield dict(cls=c, L=4, ops=["run", "reset"] * (k // 2) + ["run"], tape=k)

    def fams():
        yield "prefixes", "side 3: every ordered list of up to %d sites, run; continued twice with longer lists; reset; run" % (4 if T else 3), prefix
        yield "orders-L3", "side 3: every ordered prefix of %d sites, completed" % (7 if T else 5), lambda: lists(fam.prefixes(9, 7 if T else 4, True), 3)
        yield "sets-L4", "side 4: every occupied set (symmetric chain decomposition)" , lambda: lists(fam.chains(16), 4)
        yield "affine", "sides 5, 6: affine orders", lambda: itertools.chain(lists(fam.affine(5), 5), lists(fam.affine(6, None if T else range(0, 36, 5)), 6), lists(fam.affine(7, range(0, 49, 7)), 7) if T else ())
        yield "rings", "sides 5%s: winding paths" % (", 6" if T else ""), lambda: itertools.chain(lists(itertools.islice(fam.rings(5, (-1, 0, 1, 2)), 0, None, 1 if T else 2), 5), lists(fam.rings(6, (0, 1, -1)), 6) if T else ())
        yield "patterns", "sides 8, 12, 16%s: regular orders" % (", 20, 25" if T else ""), lambda: itertools.chain.from_iterable(lists(itertools.islice(fam.patterns(L), 0, None, 1 if T else 4), L) for L in ((8, 12, 16, 20, 25) if T else (8, 12, 16)))
        yield "histories", "every sequence of up to %d operations (run, reset, detect, views, lists of 4 / 7 / all sites as ids or indices, shuffled list), L0 and base class" % (6 if T else 5), hist
        yield "histories-interacting", "the same for L1 and L2, up to %d" % (5 if T else 4), inter
        yield "tapes", "all recording modes under fixed tapes, up to four realizations", tapes
        yield "wide", "sides 20, 30 (random draws), 130, 260 (lists of up to 300 sites)", wide
        yield "many", "up to 71 realizations on one object", many
    return [Family(a, b, c, run, shrink) for a, b, c in fams()]
