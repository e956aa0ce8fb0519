"""The lattice: topology and conversions, for all sides of a range, and after every short history of operations."""
import itertools

from mc import env, ops, ref
from mc.engine import Family, Violation


def check_lattice(lat, L, full=True):
    n = L * L
    Index = env.module("source_py.simulation.index").Index
    nb, sb = ref.neighbours(L), ref.site_bonds(L)
    if (lat.length, lat.site_count, lat.bond_count) != (L, n, 2 * n):
        raise Violation("side %d: length, site and bond count are %s" % (L, (lat.length, lat.site_count, lat.bond_count)))
    if list(lat.get_site_id_list()) != list(range(n)) or list(lat.get_bond_id_list()) != list(range(2 * n)):
        raise Violation("side %d: the identifier lists are %s and %s" % (L, lat.get_site_id_list(), lat.get_bond_id_list()))
    for s in range(n):
        r, c = divmod(s, L)
        x = lat.get_site_by_id(s)
        want = sorted(t for t, _ in nb[s])
        for name in ("get_all_neighbor_sites", "get_site_neighbor_of_site"):
            got = getattr(lat, name)(s)
            if sorted(got) != want:
                raise Violation("side %d: %s(%d) = %s, the neighbours are %s" % (L, name, s, got, want))
        for got in (lat.get_neighbor_bonds(s), x.connecting_bonds()):
            if sorted(got) != sorted(sb[s]):
                raise Violation("side %d: the bonds of site %d are %s, not %s" % (L, s, sorted(sb[s]), got))
        if full and sorted(lat.find_neighbor_bonds(s)) != sorted(sb[s]):
            raise Violation("side %d: find_neighbor_bonds(%d) = %s, not %s" % (L, s, lat.find_neighbor_bonds(s), sb[s]))
        i = x.get_index()
        if x.get_id() != s or (i.row(), i.column()) != (r, c) or tuple(i.as_list()) != (r, c):
            raise Violation("side %d: site %d has id %r and index %s" % (L, s, x.get_id(), i))
        if tuple(lat.get_row_col_from_id(s)) != (c, r):
            raise Violation("side %d: get_row_col_from_id(%d) = %s, column and row are %s" % (
                L, s, lat.get_row_col_from_id(s), (c, r)))
        ids = dict(get_id_from_index=lat.get_id_from_index(r, c),
                   calculate_id_from_index=lat.calculate_id_from_index(Index(r, c)),
                   calculate_id_from_tuple=lat.calculate_id_from_index((r, c)),
                   calculate_id_from_list=lat.calculate_id_from_index([r, c]),
                   get_site_by_index=lat.get_site_by_index(Index(r, c)).get_id())
        for name, got in ids.items():
            if got != s:
                raise Violation("side %d: %s of row %d column %d is %r, not %d" % (L, name, r, c, got, s))
        if lat.get_site_by_index(Index(r, c)) is not x:
            raise Violation("side %d: two different objects for site %d" % (L, s))
        for t, (dr, dc) in nb[s]:
            d = tuple(lat.distance_btn_sites(x, lat.get_site_by_id(t)))
            if d != (abs(dr), abs(dc)) or tuple(lat.distance_btn_sites(i, lat.get_site_by_id(t).get_index())) != d:
                raise Violation("side %d: distance between the adjacent sites %d and %d is %s" % (L, s, t, d))
    for b in range(2 * n):
        ty, s = divmod(b, n)
        r, c = divmod(s, L)
        want = sorted(ref.bond_ends(L, b))
        x = lat.get_bond_by_id(b)
        for got in (lat.get_neighbor_sites(b), x.connected_sites()):
            if sorted(got) != want:
                raise Violation("side %d: bond %d joins %s, reported %s" % (L, b, want, got))
        if x.get_id() != b or tuple(x.get_index()) != (ty, r, c):
            raise Violation("side %d: bond %d has id %r and index %s" % (L, b, x.get_id(), x.get_index()))
        if lat.get_bond_by_index(r, c, ty) is not x or ty == 0 and lat.get_bond_by_index(r, c) is not x or lat.calculate_id_from_index(x.get_index()) != b:
            raise Violation("side %d: bond (%d,%d,%d) is found as %r / %r" % (
                L, ty, r, c, lat.get_bond_by_index(r, c, ty).get_id(), lat.calculate_id_from_index(x.get_index())))


def answers(lat, L):
    """Every lookup as it is given, order included: a history may not change it."""
    n = L * L
    return ([(list(lat.get_all_neighbor_sites(s)), list(lat.get_site_neighbor_of_site(s)), list(lat.get_neighbor_bonds(s)),
              list(lat.get_site_by_id(s).connecting_bonds())) for s in range(n)],
            [(list(lat.get_neighbor_sites(b)), list(lat.get_bond_by_id(b).connected_sites())) for b in range(2 * n)])


def same_answers(lat, L, before):
    for kind, a, b in zip(("site", "bond"), before, answers(lat, L)):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                raise Violation("side %d: the neighbours and bonds of %s %d were given as %s, now as %s" % (L, kind, k, x, y))


OPS = {
    "place": ops.place(1), "place2": ops.place(2, False), "reset": lambda p: p.reset(), "run": lambda p: p.run_once(),
    "detect": lambda p: p.detect_wrapping(), "view": ops.views, "look": ops.lookups, "scan": ops.scans,
    "ids": ops.custom([4, 1, 7, 3, 5]), "shuffled": ops.custom([8, 4, 2, 6], True),
    "index": lambda p: p.set_custome_site_index_list([(0, 0), (1, 1), (2, 0)]),
    "figures": ops.figures,
}


def allowed(hist, cls):
    """Histories that do what they say: a list is installed only before anything is placed in the realization."""
    placed = False
    for o in hist:
        if o in ("place", "place2", "run"):
            placed = True
        elif o == "reset":
            placed = False
        elif o in ("ids", "shuffled", "index") and placed:
            return False
    return True


def check_simulation(p, L):
    """The lookups of a simulation: the sites at the other ends of bonds."""
    lat = p.lattice_ref
    nb = ref.neighbours(L)
    for s in range(L * L):
        bonds = list(lat.get_neighbor_bonds(s))
        want = [next(t for t in ref.bond_ends(L, b) if t != s) for b in bonds]
        got = p.get_connected_sites(lat.get_site_by_id(s), list(bonds))
        if list(got) != want or sorted(want) != sorted(t for t, _ in nb[s]):
            raise Violation("side %d: the bonds %s of site %d lead to %s, get_connected_sites says %s" % (L, bonds, s, want, got))
        one = [p.get_neighbor_site(s, b) for b in bonds]
        if one != want:
            raise Violation("side %d: the bonds %s of site %d lead to %s, get_neighbor_site says %s" % (L, bonds, s, want, one))


def run_geometry(case, ctx):
    L = case["L"]
    lat = env.module("source_py.simulation.lattice").Lattice(L)
    check_lattice(lat, L)
    lat.reset()
    check_lattice(lat, L)
    ctx.transitions += 6 * L * L
    ctx.traces += 1
    for s in range(3 * L * L):
        ctx.state(L, s)


def run_history(case, ctx):
    L = case["L"]
    tape = env.Tape((), env.fair_tape(case.get("tape", 1)))
    with env.use_tape(tape):
        p = env.cls(case["cls"])(length=L)
        before = answers(p.lattice_ref, L)
        for o in case["ops"]:
            OPS[o](p)
            ctx.transitions += 1
        try:
            check_lattice(p.lattice_ref, L)
            check_simulation(p, L)
            same_answers(p.lattice_ref, L, before)
        except Violation as v:
            raise Violation("after %s: %s" % (case["ops"], v.msg))
    ctx.traces += 1
    ctx.state(case["cls"], L, tuple(case["ops"]))


def run_steps(case, ctx):
    L = case["L"]
    tape = env.Tape((), env.fair_tape(case["tape"]))
    with env.use_tape(tape):
        p = env.cls(case["cls"])(length=L)
        before = answers(p.lattice_ref, L)
        for _ in range(2):
            k = 0
            while p.place_one_site():
                k += 1
                p.detect_wrapping()
                try:
                    check_lattice(p.lattice_ref, L, False)
                    same_answers(p.lattice_ref, L, before)
                except Violation as v:
                    raise Violation("after %d trials: %s" % (k, v.msg))
                ctx.transitions += 1
            ops.views(p)
            ops.lookups(p)
            ops.scans(p)
            p.reset()
            check_lattice(p.lattice_ref, L)
    ctx.traces += 1


def run_big(case, ctx):
    L = case["L"]
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]))):
        p = env.cls(case["cls"])(length=L)
        before = answers(p.lattice_ref, L)
        for run in range(2):
            for k in range(300):
                p.place_one_site()
                p.detect_wrapping()
            check_lattice(p.lattice_ref, L, L < 50)
            if L < 50:
                ops.views(p)
                ops.lookups(p)
                ops.scans(p)
            same_answers(p.lattice_ref, L, before)
            p.reset()
        check_lattice(p.lattice_ref, L, L < 50)
        same_answers(p.lattice_ref, L, before)
    ctx.transitions += 600
    ctx.traces += 1


def families(tier):
    T = tier == "thorough"
    top = 96 if T else 40
    clss = ("L0", "L1", "L2", "SP", "BASE")

    def hist():
        for k in range(1, (5 if T else 4)):
            for h in itertools.product(sorted(OPS), repeat=k):
                if allowed(h, None):
                    for c in (clss if k < 4 else ("L0", "L1", "SP")):
                        yield dict(cls=c, L=3, ops=list(h))

    def hist4():
        for k in range(1, 4 if T else 3):
            for h in itertools.product(sorted(OPS), repeat=k):
                if allowed(h, None):
                    for L in (4, 5):
                        for c in clss:
                            yield dict(cls=c, L=L, ops=list(h), tape=2)

    def drop(case):
        for i in range(len(case["ops"])):
            h = case["ops"][:i] + case["ops"][i + 1:]
            if allowed(h, None):
                yield dict(case, ops=h)

    return [
        Family("geometry", "every side 3..%d, 130, 260, 320%s: every site, bond, neighbour and conversion; again after a reset of the lattice" % (top, ", 183, 300, 520" if T else ""),
               lambda: (dict(L=L) for L in itertools.chain(range(3, top + 1), (130, 260, 320) if not T else (130, 183, 260, 300, 320, 520))), run_geometry),
        Family("big-runs", "sides 18 and 130: after a run of 300 sites, all views and lookups, a reset and a second run, all classes",
               lambda: (dict(cls=c, L=L, tape=3) for L in (18, 130) for c in clss), run_big),
        Family("histories-L3", "side 3, all classes: every sequence of up to %d operations out of %s" % (4 if T else 3, sorted(OPS)), hist, run_history, drop),
        Family("histories-L45", "sides 4 and 5: every sequence of up to %d operations" % (3 if T else 2), hist4, run_history, drop),
        Family("steps", "after every trial of two realizations, all classes, sides 3-6",
               lambda: (dict(cls=c, L=L, tape=t) for L in (3, 4, 5, 6) for t in range(8 if T else 3) for c in clss), run_steps),
    ]
