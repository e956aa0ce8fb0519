"""Shortest-path realizations: where they stop and what they report."""
import itertools

from mc import env, fam, ref
from mc.engine import Family, Violation
from mc.fam import occupied_sites


def expected(L, order):
    """(sites placed, p* as a count or 0, (occupied, sites, bonds) at the first wrapping or None, rows full, columns full)."""
    n = L * L
    nb = ref.neighbours(L)
    parent, off = {}, {}                # union-find with displacement to the root
    members, rows, cols = {}, {}, {}
    tracked = crit = None

    def find(x):
        if parent[x] == x:
            return x, (0, 0)
        r, d = find(parent[x])
        o = off[x]
        parent[x], off[x] = r, (o[0] + d[0], o[1] + d[1])
        return r, off[x]

    full = (0, 0)
    for k, s in enumerate(order, 1):
        parent[s], off[s] = s, (0, 0)
        members[s] = 1
        rows[s] = [0] * L
        cols[s] = [0] * L
        rows[s][s // L] = cols[s][s % L] = 1
        winds = False
        for t, (dr, dc) in nb[s]:
            if t not in parent:
                continue
            a, da = find(s)
            b, db = find(t)
            # position(t) - position(s) must be (dr, dc)
            if a == b:
                if (db[0] - da[0], db[1] - da[1]) != (dr, dc):
                    winds = True
                continue
            parent[b] = a
            off[b] = (da[0] + dr - db[0], da[1] + dc - db[1])
            members[a] += members.pop(b)
            rows[a] = [x + y for x, y in zip(rows[a], rows.pop(b))]
            cols[a] = [x + y for x, y in zip(cols[a], cols.pop(b))]
        if winds and tracked is None:
            tracked = s
            root = find(s)[0]
            inside = [x for x in parent if find(x)[0] == root]
            crit = (k, len(inside), len({b for x in inside for b in ref.site_bonds(L)[x]}))
        if tracked is not None:
            root = find(tracked)[0]
            full = (int(L in rows[root]), int(L in cols[root]))
            if any(full):
                return k, k, crit, full
    return len(order), 0, crit, full


def judge(p, L, order, what, ctx):
    n = L * L
    k, star, crit, full = expected(L, order)
    occ = sorted(occupied_sites(p, n))
    if occ != sorted(order[:k]):
        raise Violation("%s: the run placed %s, it should stop after %s" % (what, occ, order[:k]))
    if abs(p.get_shortest_path_p() - star / n) > 1e-12:
        raise Violation("%s: reports p* = %r instead of %d/%d" % (what, p.get_shortest_path_p(), star, n))
    if abs(p.occupation_prob() - k / n) > 1e-12:
        raise Violation("%s: the occupation probability is %r instead of %d/%d" % (what, p.occupation_prob(), k, n))
    want = crit or (0, 0, 0)
    got = (p.get_pc() * n, p.get_site_count_wrapping_cluster_pc(), p.get_bond_count_wrapping_cluster_pc())
    if abs(got[0] - want[0]) > 1e-9 or got[1:] != want[1:]:
        raise Violation("%s: critical figures %s (occupied, sites, bonds) instead of %s" % (what, got, want))
    scans = sorted((bool(p.scan_all_rows()), bool(p.scan_all_cols())))
    if scans != sorted(map(bool, full)):
        raise Violation("%s: the scans of all rows and columns say %s, there is %s" % (
            what, scans, ["no full row", "a full row"][full[0]] + " and " + ["no full column", "a full column"][full[1]]))
    if star:
        last = p.lattice_ref.get_site_by_id(order[k - 1]).get_index()
        a = any(p.scan_row_col_of_selected_site(last))
        r, c = divmod(order[k - 1], L)
        mine = set(_cluster(L, set(order[:k]), order[k - 1]))
        b = all(r * L + j in mine for j in range(L)) or all(j * L + c in mine for j in range(L))
        if a != b:
            raise Violation("%s: the scan of the row and column of the last site says %s" % (what, a))
    ctx.transitions += k
    ctx.state(L, tuple(sorted(order[:k])), order[k - 1] if k else -1)
    ctx.outcomes.add((L, k, star, crit))
    if star and crit:
        ctx.count("stops_after_wrapping" if star > crit[0] else "stops_at_wrapping")
    elif crit:
        ctx.count("wrapped_but_no_line")
    else:
        ctx.count("never_wrapped")


def _cluster(L, occ, s):
    nb = ref.neighbours(L)
    seen, todo = {s}, [s]
    while todo:
        for t, _ in nb[todo.pop()]:
            if t in occ and t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


def run_list(case, ctx):
    L = case["L"]
    p = env.cls("SP")(length=L)
    for j, seg in enumerate(case["segs"]):
        if j and not case.get("cont"):
            p.reset()
            if p.get_shortest_path_p() != 0 or p.get_pc() != 0:
                raise Violation("after a reset p* = %r and pc = %r are reported" % (p.get_shortest_path_p(), p.get_pc()))
        if not (j and case.get("same")):
            if case.get("index"):
                p.set_custome_site_index_list([divmod(s, L) for s in seg])
            else:
                p.set_custome_site_id_list(list(seg))
        p.run_once()
        judge(p, L, list(seg), "side %d, lists %s%s" % (L, case["segs"][:j + 1], " (continued)" if case.get("cont") else ""), ctx)
    ctx.traces += 1


def run_tape(case, ctx):
    L = case["L"]
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]))):
        p = env.cls("SP")(length=L)
        for j in range(case["runs"]):
            if j or case["tape"] % 2:
                p.reset()
            order = list(p.get_site_id_sequence())
            p.run_once()
            judge(p, L, order, "side %d, random tape %d, run %d, order %s" % (L, case["tape"], j, order), ctx)
    ctx.traces += 1


def shrink(case):
    for c in fam.shrink_seq(dict(case, kind="seq")):
        yield c


def families(tier):
    T = tier == "thorough"

    def lists(L, gen, **kw):
        def g():
            for o in gen():
                yield dict(L=L, segs=[list(o)], **kw)
        return g

    out = []

    def add(name, bound, cases):
        out.append(Family(name, bound, cases, run_list, shrink))

    add("short", "every ordered list of 1-4 sites on side 3, 1-3 on sides 4 and 5: the list ends first", lambda: itertools.chain(
        *[lists(3, lambda k=k: fam.prefixes(9, k))() for k in (1, 2, 3, 4)], *[lists(L, lambda k=k, L=L: fam.prefixes(L * L, k))() for L in (4, 5) for k in (1, 2, 3)]))
    k = 9 if T else 6
    add("orders-L3", "side 3: " + ("all 9! orders" if T else "all ordered prefixes of 6 sites, completed"), lists(3, lambda: fam.prefixes(9, k, True)))
    add("ends-L3", "side 3: all ordered lists of 5 sites", lists(3, lambda: fam.prefixes(9, 5)))
    add("sets-L4", "side 4: every " + ("placement from every occupied set" if T else "occupied set along several chain decompositions"),
        lists(4, lambda: fam.edge_cover(16)) if T else lists(4, lambda: ([(a * s + b) % 16 for s in o] for a, b in ((1, 0), (3, 1), (5, 3), (7, 2), (11, 9)) for o in fam.chains(16))))
    for L in (5, 6, 7, 8) if T else (5, 6, 7):
        add("affine-L%d" % L, "side %d: all affine orders" % L, lists(L, lambda L=L: fam.affine(L)))
    for L, st in ((5, (-1, 0, 1, 2)), (6, (0, 1, -1)), (4, (-1, 0, 1, 2))) if not T else ((4, (-2, -1, 0, 1, 2)), (5, (-2, -1, 0, 1, 2, 3)), (6, (-1, 0, 1, 2)), (7, (-1, 0, 1))):
        add("rings-L%d" % L, "side %d: closed winding paths with vertical moves %s; then completed" % (L, st), lists(L, lambda L=L, st=st: fam.rings(L, st)))
        add("rings-full-L%d" % L, "side %d: the same, then the rest of the lattice in four orders" % L,
            lambda L=L, st=st: (dict(L=L, segs=[_rest(L, o, i % 4)]) for i, o in enumerate(fam.rings(L, st)) if T or L < 6 or i % 2 == 0))
    for L, rows in ((5, None), (6, (0, 4)), (7, (6,))) if not T else ((5, None), (6, None), (7, None), (8, (0, 5))):
        add("tworings-L%d" % L, "side %d: a ring that is not straight, a straight ring, every site joining them, both orders; ring rows %s" % (L, "all" if rows is None else rows),
            lists(L, lambda L=L, rows=rows: fam.two_rings(L, rows)))
    for L, rows in ((5, None), (6, (5,))) if not T else ((5, None), (6, None), (7, (0, 6))):
        add("blob-L%d" % L, "side %d: straight ring and rectangle" % L, lists(L, lambda L=L, rows=rows: fam.ring_and_blob(L, rows)))
        add("blob-first-L%d" % L, "side %d: winding path, then rectangles and straight rings of another orientation around it" % L,
            lambda L=L: (dict(L=L, segs=[_rest(L, [x for x in o if x % L != q and x // L != q], 2)]) for q in range(L) for o in itertools.islice(fam.rings(L, (-1, 0, 1)), 0, None, 3)))
    for L, ml in ((4, 3), (5, 3), (6, 3), (7, 2), (8, 2)) if not T else ((4, 4), (5, 4), (6, 4), (7, 3), (8, 3), (10, 3)):
        add("walks-L%d" % L, "side %d: induced paths (helices, staircases), every closing site, then the rest" % L, lists(L, lambda L=L, ml=ml: fam.walks(L, ml)))
    add("patterns", "sides 3-16%s: regular orders, as ids and as indices" % (", 25" if T else ""),
        lambda: (dict(L=L, segs=[list(o)], index=i % 2) for L in (3, 4, 5, 6, 7, 8, 9, 12, 16) + ((25,) if T else ()) for i, o in enumerate(fam.patterns(L))))
    add("continued", "a list that ends before the line, replaced by a longer one", lambda: itertools.chain(
        (dict(L=3, segs=[o[:m], o], cont=1) for i, o in enumerate(fam.prefixes(9, 5, True)) for m in (expected(3, o)[0] - 1,) if m > 0 and (T or i % 3 == 0)),
        (dict(L=5, segs=[o[:m], o], cont=1) for o in fam.affine(5) for m in (expected(5, o)[0] - 1, expected(5, o)[2][0] - 1, expected(5, o)[2][0]) if 0 < m < expected(5, o)[0]),
        (dict(L=5, segs=[o[:m], o], cont=1) for o in fam.two_rings(5, (1,)) for m in (expected(5, o)[0] - 1,) if m > 0)))
    add("again", "the same list replayed after resets; other lists after resets", lambda: itertools.chain(
        (dict(L=3, segs=[o, o, o], same=1) for o in fam.prefixes(9, 4, True)),
        (dict(L=5, segs=[a, b, a]) for a in list(fam.affine(5))[::23] for b in list(fam.two_rings(5, (0,)))[::60]),
        (dict(L=4, segs=[a, b, c]) for a in list(fam.patterns(4))[::3] for b in list(fam.patterns(4))[::5] for c in ([0, 1, 2], list(range(16)))),
        (dict(L=5, segs=[a, b]) for a in list(fam.rings(5, (-1, 0, 1)))[::9] for b in list(fam.two_rings(5, (2,)))[::40])))

    add("wide", "sides 20-260: scrambled and regular orders, up to the line", lambda: (
        dict(L=L, segs=[o]) for L, ks in ((130, (3,)), (260, ()), (64, (0, 1, 2)), (40, (0, 1, 2, 3)), (20, range(12)))
        for o in itertools.chain((fam.large_order(L, "scrambled%d" % k) for k in ks),
                                 (fam.large_order(L, w) for w in (("cross", "staircase", "stripes", "columns", "snake") if L < 100 or T else ("cross", "stripes"))))))

    def tapes():
        for L, m in ((3, 400), (4, 200), (5, 100), (6, 60), (8, 20), (12, 6), (20, 2)) if not T else ((3, 4000), (4, 3000), (5, 2000), (6, 1000), (8, 300), (12, 60), (20, 10), (30, 4)):
            for t in range(m):
                yield dict(L=L, tape=t, runs=1 + t % 4)
    out.append(Family("tapes", "random orders under fixed tapes, up to four realizations on one object", tapes, run_tape))
    return out


def _rest(L, o, how):
    """o, then the other sites: ascending, descending, by columns, scattered."""
    o = list(dict.fromkeys(o))
    have = set(o)
    rest = [s for s in range(L * L) if s not in have]
    if how == 1:
        rest = rest[::-1]
    elif how == 2:
        rest.sort(key=lambda s: (s % L, s // L))
    elif how == 3:
        rest.sort(key=lambda s: (s * 7919 + 13) % 31)
    return o + rest
