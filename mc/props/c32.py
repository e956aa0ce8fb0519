"""The built-in self-checks accept every sound simulation and reject corrupted ones."""
import itertools

from mc import env, fam, ops, ref
from mc.engine import Family, Violation
from mc.fam import Oracle, core_families

CLASSES = ("L0", "SP", "BASE", "L1", "L2")
LATTICE = ("test_neighbor_count", "test_relative_index", "scan_sites", "scan_bonds")


def accepts(f, what, at):
    try:
        f()
    except AssertionError:
        raise Violation("%s: %s fails although nothing is wrong" % (at, what))


def rejects(f):
    try:
        f()
    except Exception:
        return True
    return False


def sound(p, at, wrapped, full, parts=True):
    for name in LATTICE if parts else ():
        accepts(getattr(p.lattice_ref, name), name + "() of the lattice", at)
    if wrapped or not full:         # on a full lattice these two speak of the wrapping cluster, which must have been looked for
        accepts(p.test_lattice, "test_lattice()", at)
        accepts(p.test_clusters, "test_clusters()", at)


class O(Oracle):
    def begin(self, p):
        self.judge(p, True)

    def step(self, p, site, det):
        k = len(self.occ)
        if self.L <= 4 or self.first_wrap or k == self.n or self.L <= 16 and k % 6 == 0:
            self.judge(p, k == self.n)

    def judge(self, p, parts):
        full = len(self.occ) == self.n
        sound(p, "after placing %s (side %d)" % (self.order, self.L), self.wrapped, full, parts or full)


# ---------------------------------------------------------------- corruptions

def places(n, some):
    """All places, or some: both ends, powers of two and their neighbours, regular ones."""
    if not some:
        return range(n)
    out = {0, 1, n // 2, n - 2, n - 1} | set(range(some, n, max(1, n // 8)))
    for k in range(4, 14):
        out |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    return sorted(x for x in out | {99, 100, 255, 999, 1000} if x < n)


def corruptions(p, full, some=0):
    """(name, checks that have to notice it, do, undo)"""
    lat, pool = p.lattice_ref, p.cluster_pool_ref
    L = lat.length
    n = L * L
    nb = ref.neighbours(L)
    for s in places(n, some):
        x = lat.get_site_by_id(s)
        r = x.get_relative_index()
        for other in sorted({(s + 1) % n, (s + L) % n, n - 1 - s} - {s}):
            yield ("site %d calls itself %d" % (s, other), (lat.scan_sites, p.test_lattice),
                   lambda x=x, other=other: x.set_id(other), lambda x=x, s=s: x.set_id(s))
        if x.is_occupied() and any(lat.get_site_by_id(t).is_occupied() for t, _ in nb[s]):
            far = type(r)(r.row() + 17 * L, r.column() + 23 * L)
            yield ("site %d is far from all of its neighbours" % s, (lat.test_relative_index, p.test_lattice),
                   lambda x=x, far=far: x.set_relative_index(far), lambda x=x, r=r: x.set_relative_index(r))
    for b in places(2 * n, some):
        y = lat.get_bond_by_id(b)
        for other in sorted({(b + 1) % (2 * n), (b + n) % (2 * n)}):
            yield ("bond %d calls itself %d" % (b, other), (lat.scan_bonds, p.test_lattice),
                   lambda y=y, other=other: y.set_id(other), lambda y=y, b=b: y.set_id(b))
    if not full:
        return
    w = lat.get_site_gid_by_id(0)
    labels = [-1] + [g for g in places(2 * n, some) if g != w]
    few = labels if not some else [-1, labels[1], labels[-1]]
    for s in places(n, some):
        for g in few:
            yield ("site %d carries label %d" % (s, g), (lambda: lat.test_lattice(w), p.test_lattice),
                   lambda s=s, g=g: lat.set_site_gid_by_id(s, g), lambda s=s: lat.set_site_gid_by_id(s, w))
    for b in places(2 * n, some):
        for g in few:
            yield ("bond %d carries label %d" % (b, g), (lambda: lat.test_lattice(w), p.test_lattice),
                   lambda b=b, g=g: lat.set_bond_gid_by_id(b, g), lambda b=b: lat.set_bond_gid_by_id(b, w))
    yield ("every label is another one than expected", (lambda: lat.test_lattice(w + 1),), lambda: None, lambda: None)
    for g in labels[1:]:
        yield ("cluster %d has a site" % g, (p.test_clusters,), lambda g=g: pool.add_sites(g, g % n), lambda g=g: pool.clear_cluster(g))
        yield ("cluster %d has a bond" % g, (p.test_clusters,), lambda g=g: pool.add_bonds(g, g), lambda g=g: pool.clear_cluster(g))

    sites, bonds = list(pool.get_sites(w)), list(pool.get_bonds(w))

    def rebuild(ss, bb):
        pool.clear_cluster(w)
        pool.add_sites(w, list(ss))
        pool.add_bonds(w, list(bb))

    for name, ss, bb in (("lacks a site", sites[1:], bonds), ("lacks a bond", sites, bonds[:-1]), ("has a site twice", sites + sites[:1], bonds),
                         ("has a bond twice", sites, bonds + bonds[-1:]), ("is empty", [], []), ("has no bonds", sites, []), ("has no sites", [], bonds)):
        yield ("the wrapping cluster " + name, (p.test_clusters,), lambda ss=ss, bb=bb: rebuild(ss, bb), lambda: rebuild(sites, bonds))


def run_corrupt(case, ctx):
    L, cls = case["L"], case["cls"]
    n = L * L
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=50000 * n)):
        p = env.cls(cls)(length=L)
        for _ in range(case["runs"]):
            while p.place_one_site() is not False:
                p.detect_wrapping()
            p.reset()
        while case["k"] is None or len(fam.occupied_sites(p, n)) < case["k"]:
            if p.place_one_site() is False:
                break
            p.detect_wrapping()
    full = case["k"] is None or case["k"] >= n
    at = "%s, side %d, tape %d, %s sites" % (cls, L, case["tape"], case["k"])
    sound(p, at, full, full)
    for name, checks, do, undo in corruptions(p, full, case.get("some", 0)):
        do()
        for i, c in enumerate(checks):
            if not rejects(c):
                raise Violation("%s: %s, and the self-check %s does not notice" % (at, name, getattr(c, "__name__", "of the labels")))
            ctx.transitions += 1
        undo()
    sound(p, at, full, full)
    ctx.state(cls, L, case["tape"], case["k"], case["runs"])
    ctx.traces += 1


# ---------------------------------------------------------------- the realization with built-in assertions

def run_once(case, ctx):
    """test_run_once(): places until the first wrapping or the end of the plan; rows for all placements before the wrapping one."""
    L, cls = case["L"], case["cls"]
    n = L * L
    p, q = env.cls(cls)(length=L), env.cls(cls)(length=L)
    for order in case["orders"]:
        p.reset()
        q.reset()
        p.set_custome_site_id_list(list(order))
        q.set_custome_site_id_list(list(order))
        rows, k = [], 0
        while q.place_one_site() is not False:
            k += 1
            if q.detect_wrapping():
                break
            rows.append((q.occupation_prob(), q.entropy(), q.order_param_largest_clstr(), q.order_param_wrapping()))
            ctx.transitions += 1
        at = "%s, side %d, order %s" % (cls, L, order)
        accepts(p.test_run_once, "test_run_once()", at)
        if fam.occupied_sites(p, n) != fam.occupied_sites(q, n) or p.get_pc() != q.get_pc():
            raise Violation("%s: test_run_once() placed %s and reports %r, step by step until the wrapping: %s and %r" % (
                at, fam.occupied_sites(p, n), p.get_pc(), fam.occupied_sites(q, n), q.get_pc()))
        got = list(zip(p.get_occupation_prob_array(), p.get_entropy_array(), p.get_order_param_largest_array(), p.get_order_param_wrapping_array()))
        if len(got) != len(rows) or any(abs(a - b) > 1e-9 for x, y in zip(got, rows) for a, b in zip(x, y)):
            raise Violation("%s: test_run_once() recorded %s, step by step it is %s" % (at, got, rows))
        ctx.state(cls, L, tuple(order))
    ctx.traces += 2 * len(case["orders"])


def shrink_once(case):
    if len(case["orders"]) > 1:
        for o in case["orders"]:
            yield dict(case, orders=[o])
    elif len(case["orders"][0]) > 1:
        for i in range(len(case["orders"][0])):
            yield dict(case, orders=[case["orders"][0][:i] + case["orders"][0][i + 1:]])


def families(tier):
    T = tier == "thorough"

    def corrupt():
        for c in CLASSES:
            for L in (3, 4, 5) + ((6, 7) if T else ()):
                for t in range(8 if T else 3):
                    for runs in (0, 1):
                        yield dict(cls=c, L=L, tape=t, k=None, runs=runs)
                        for k in [L * L] + list(range(0, L * L, 1 if L == 3 or T else 3)):
                            yield dict(cls=c, L=L, tape=t, k=k, runs=runs)

    def large():
        i = 0
        for L in (9, 12) + ((16, 24, 33, 48) if T else ()):
            for c in CLASSES:
                for k in (None, L * L // 2):
                    for some in range(1, 5 if T else 2):
                        i += 1
                        yield dict(cls=c, L=L, tape=i % 3, k=k, runs=i % 2, some=some)
        if not T:
            yield dict(cls="L0", L=24, tape=1, k=None, runs=0, some=1)
            yield dict(cls="L2", L=24, tape=1, k=None, runs=0, some=2)

    def once():
        for c in ("L0", "BASE"):
            for chunk in itertools.zip_longest(*[iter(itertools.permutations(range(9), 4))] * 24):
                yield dict(cls=c, L=3, orders=[list(o) for o in chunk if o])
        for c in ("L0", "BASE"):
            for o in itertools.permutations(range(9), 3):
                yield dict(cls=c, L=3, orders=[list(o) + [s for s in range(9) if s not in o][::d] for d in (1, -1)])
        for j, o in enumerate(fam.chains(16)):
            if T or j % 8 == 0:
                yield dict(cls=("L0", "BASE")[j % 2], L=4, orders=[list(o)])
        for L in (5, 6, 7) + ((8, 11) if T else ()):
            for o in fam.affine(L):
                yield dict(cls="L0", L=L, orders=[list(o)])

    return [
        Family("once", "test_run_once: side 3: all orders of four sites, of three completed in two ways; side 4: symmetric chains%s; affine orders of sides 5-%d" % ("" if T else " (every eighth)", 11 if T else 7), once, run_once, shrink_once),
        Family("corrupt", "every single corruption (identifier, label, far position, members of the registry) that the setters allow, in full and part-full states of sides 3-%d, all classes" % (7 if T else 5), corrupt, run_corrupt),
        Family("corrupt-large", "sides 9-%d: corruptions at both ends, around powers of two and at regular places" % (48 if T else 24), large, run_corrupt),
    ] + core_families(O, tier)
