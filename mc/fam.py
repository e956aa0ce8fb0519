"""Families of histories: which site orders and which random tapes are enumerated, and the driver that executes them."""
import itertools
import math

from mc import env, ref
from mc.engine import Family, Violation


# ---------------------------------------------------------------- drivers

class Oracle:
    """Follows one simulation. `begin` after construction and after each reset, `step` after each placement."""

    def __init__(self, ctx):
        self.ctx = ctx

    def start(self, p, L):
        self.L, self.n = L, L * L
        self.occ = frozenset()
        self.wrapped = False
        self.tracked = None            # site whose cluster closed first
        self.crit = None               # (occupied, sites, bonds) at the first wrapping
        self.order = []
        self.begin(p)

    def advance(self, p, site, det):
        """det: answer of detect_wrapping, None if it was not called."""
        if site in self.occ:
            raise Violation("site %d was placed twice" % site)
        self.occ = self.occ | {site}
        self.order.append(site)
        i = self.info = ref.info(self.L, self.occ)
        self.first_wrap = False
        if det is not None and not self.wrapped and i.wraps[i.comp[site]]:
            self.wrapped = self.first_wrap = True
            self.tracked = site
            k = i.comp[site]
            self.crit = (len(self.occ), len(i.sites[k]), i.bonds[k])
        self.ctx.transitions += 1
        self.ctx.state(self.L, self.occ, self.wrapped, self.tracked is not None and i.comp[self.tracked])
        self.step(p, site, det)

    # large lattices: `light` oracles are asked after every placement (without self.info), others at checkpoints only
    light = False

    def start_large(self, p, L):
        self.L, self.n = L, L * L
        self.grow = ref.Growing(L)
        self.occ = set()
        self.wrapped = False
        self.tracked = self.crit = self.info = None
        self.order = Long()
        self.begin(p)

    def advance_large(self, p, site, det, check):
        if site in self.occ:
            raise Violation("site %d was placed twice" % site)
        self.occ.add(site)
        self.order.append(site)
        g = self.grow
        r = g.add(site)
        self.first_wrap = False
        if not self.wrapped and g.wraps[r]:
            self.wrapped = self.first_wrap = check = True
            self.tracked = site
            self.crit = (len(self.occ), g.size[r], g.bonds[r])
        self.ctx.transitions += 1
        if check:
            i = self.info = ref.Info(self.L, self.occ)
            k = i.comp[site]
            if (len(i.sites[k]), i.bonds[k], i.wraps[k]) != (g.size[r], g.bonds[r], g.wraps[r]):
                raise RuntimeError("the two reference models disagree")
            self.ctx.state(self.L, len(self.occ), tuple(self.order[-20:]), self.wrapped)
            self.gap()
        if check or self.light:
            self.step(p, site, det)

    def gap(self):
        """Called before a step that does not follow the one seen last."""

    def begin(self, p):
        pass

    def step(self, p, site, det):
        pass

    def idle(self, p):
        pass

    def end(self, p):
        pass


class Long(list):
    """A long order of placements with a short text."""

    def __repr__(self):
        return list.__repr__(self) if len(self) <= 60 else "%d sites, the last ones %s" % (len(self), list(self[-8:]))

    __str__ = __repr__


def large_order(L, name):
    n = L * L
    if name.startswith("scrambled"):
        m = 2654435761 + 2 * int(name[9:] or 0) * 40503
        return sorted(range(n), key=lambda s: ((s + 1) * m ^ (s * 97)) % 4294967291)
    if name == "snake":
        return [r * L + (c if r % 2 == 0 else L - 1 - c) for r in range(L) for c in range(L)]
    if name == "columns":
        return [r * L + c for c in range(L - 1, -1, -1) for r in range(L)]
    if name == "staircase":           # a diagonal ring from the far corner, then rings next to it
        out = []
        for k in range(L):
            for i in range(L):
                out += [((-1 - i) % L) * L + (k - 1 - i) % L] if k else [((-1 - i) % L) * L + (-1 - i) % L, ((-1 - i) % L) * L + (-2 - i) % L]
        return _uniq(out)
    if name == "cross":               # last column, last row, then outwards
        return sorted(range(n), key=lambda s: (min(L - 1 - s // L, L - 1 - s % L), s))
    if name == "stripes":             # every other row, then the rows between them from the end
        return sorted(range(n), key=lambda s: ((s // L) % 2, s if (s // L) % 2 == 0 else -s))
    raise ValueError(name)


def walk_large(case, ctx, oracle):
    """kind "large": the order is given by its name, checkpoints every `every` placements and around the first wrapping."""
    L, every = case["L"], case["every"]
    n = L * L
    C = env.cls(case["cls"])
    ctx.traces += 1
    if case["order"] == "draws":
        with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=60 * n)):
            p = C(length=L)
            oracle.start_large(p, L)
            p.reset()
            oracle.start_large(p, L)
            k = 0
            lat = p.lattice_ref
            while p.place_one_site():
                if round(p.occupation_prob() * n) == k:
                    if oracle.light:
                        oracle.idle(p)
                    continue
                k += 1
                x = getattr(p, "selected_id", None)
                if x is None or x in oracle.occ or not lat.get_site_by_id(x).is_occupied():
                    x = next((s for s in range(n) if s not in oracle.occ and lat.get_site_by_id(s).is_occupied()), None)
                    if x is None:
                        raise Violation("no new site is occupied after trial")
                oracle.advance_large(p, x, bool(p.detect_wrapping()), k % every < 2 or k > n - 2)
                if k >= case.get("stop", n):
                    break
            oracle.end(p)
        return
    order = large_order(L, case["order"])[:case.get("stop", n)]
    g = ref.Growing(L)
    first = next((k for k, s in enumerate(order) if g.wraps[g.add(s)]), None)
    p = C(length=L)
    oracle.start_large(p, L)
    p.set_custome_site_id_list(order)
    for k, s in enumerate(order):
        if p.place_one_site() is False:
            raise Violation("no site was placed although the list has more (%d of %d placed)" % (k, len(order)))
        oracle.advance_large(p, s, bool(p.detect_wrapping()), k % every < 2 or k > len(order) - 3 or first is not None and abs(k - first) <= 2)
    oracle.end(p)


def large_cases(tier):
    T = tier == "thorough"
    for order, c, stop in (("scrambled0", "L0", None), ("scrambled1", "SP", None), ("staircase", "BASE", 600), ("cross", "L0", 800)) \
            + ((("scrambled2", "L0", None), ("scrambled3", "SP", None), ("stripes", "L0", None), ("snake", "L0", None), ("columns", "SP", None)) if T else ()):
        for L in (130, 260) if not T else (64, 130, 183, 260):
            if L == 260 and c == "SP" and not T:
                continue
            k = dict(kind="large", cls=c, L=L, order=order, every=max(40, (stop or L * L) // (5 if not T else 25)))
            if stop:
                k["stop"] = stop
            yield k
    for L in (130,) if not T else (64, 130, 183):
        for c in ("L1", "L2") + (("L0", "SP") if T else ()):
            yield dict(kind="large", cls=c, L=L, order="draws", tape=L % 7, every=L * L // (4 if not T else 25))


def occupied_sites(p, n):
    lat = p.lattice_ref
    return [i for i in range(n) if lat.get_site_by_id(i).is_occupied()]


def walk(case, ctx, oracle):
    """Executes a case; see the module text of DESIGN.md for the case format."""
    L = case["L"]
    detect = case.get("detect", 1)
    C = env.cls(case["cls"])
    ctx.traces += 1
    if case["kind"] == "seq":
        p = C(length=L)
        oracle.start(p, L)
        done = []
        for j, seg in enumerate(case["segs"]):
            if j:
                p.reset()
                oracle.start(p, L)
            parts = [seg]
            if case.get("cont"):
                m = max(1, len(seg) // 2)
                parts = [seg[:m], seg]
            k = 0
            for part in parts:
                p.set_custome_site_id_list(list(part))
                while k < len(part):
                    if p.place_one_site() is False:
                        raise Violation("no site was placed although the list has more", dict(case, segs=done + [seg[:k + 1]]))
                    det = None
                    if detect == 1 or (detect == 2 and k == len(part) - 1):
                        det = bool(p.detect_wrapping())
                    k += 1
                    try:
                        oracle.advance(p, seg[k - 1], det)
                    except Violation as v:
                        v.case = dict(case, segs=done + [seg[:k]])
                        raise
            done.append(seg)
        oracle.end(p)
        return p
    # random tape
    tape = env.Tape(case.get("prefix", ()), env.fair_tape(case["tape"]), limit=case.get("limit", 400 * L * L + 4000))
    with env.use_tape(tape):
        p = C(length=L)
        oracle.start(p, L)
        n = L * L
        for run in range(case.get("runs", 1)):
            if run or case.get("reset0"):
                p.reset()
                oracle.start(p, L)
            before = set()
            while p.place_one_site():
                now = set(occupied_sites(p, n))
                new = now - before
                if len(new) > 1 or before - now:
                    raise Violation("one trial changed the occupied sites from %s to %s" % (sorted(before), sorted(now)))
                before = now
                if not new:
                    oracle.idle(p)
                    continue
                det = bool(p.detect_wrapping()) if detect else None
                oracle.advance(p, new.pop(), det)
                if len(now) >= case.get("stop", n + 1):
                    break
        oracle.end(p)
    return p


def shrink_seq(case):
    if case.get("kind") != "seq":
        return
    segs = case["segs"]
    for j in range(len(segs)):
        if len(segs) > 1:
            yield dict(case, segs=segs[:j] + segs[j + 1:])
    for j in range(len(segs)):
        for i in range(len(segs[j])):
            if len(segs[j]) > 1:
                yield dict(case, segs=segs[:j] + [segs[j][:i] + segs[j][i + 1:]] + segs[j + 1:])


# ---------------------------------------------------------------- site orders

def full(prefix, n):
    s = set(prefix)
    return list(prefix) + [i for i in range(n) if i not in s]


def prefixes(n, k, complete=False):
    for pre in itertools.permutations(range(n), k):
        yield full(pre, n) if complete else list(pre)


def chains(nbits=16):
    """Symmetric chain decomposition of the subsets of range(nbits): every subset is a prefix set of some order."""
    for mask in range(1 << nbits):
        stack, unmatched0, ok = [], [], True
        for i in range(nbits):
            if mask >> i & 1:
                if stack:
                    stack.pop()
                else:
                    ok = False
                    break
            else:
                stack.append(i)
        if not ok:
            continue
        ones = [i for i in range(nbits) if mask >> i & 1]
        rest = [i for i in range(nbits) if not mask >> i & 1 and i not in stack]
        yield ones + stack + rest


def edge_cover(nbits=16):
    """Orders that together perform every single placement from every subset: every edge of the Boolean lattice."""
    size = 1 << nbits
    todo = bytearray()
    fullmask = size - 1
    left = {}
    remaining = [fullmask & ~m for m in range(size)]     # uncovered additions of each subset
    # go from the lowest subset that still has uncovered edges, reached in ascending order
    for start in sorted(range(size), key=lambda m: (bin(m).count("1"), m)):
        while remaining[start]:
            order = [i for i in range(nbits) if start >> i & 1]
            m = start
            while m != fullmask:
                r = remaining[m]
                if r:
                    b = r & -r
                    remaining[m] &= ~b
                else:
                    r = fullmask & ~m
                    b = r & -r
                order.append(b.bit_length() - 1)
                m |= b
            yield order


def affine(L, offsets=None):
    n = L * L
    for a in range(1, n):
        if math.gcd(a, n) == 1:
            for b in (range(n) if offsets is None else offsets):
                yield [(a * k + b) % n for k in range(n)]


def _rc(L, cells, transpose):
    return [(c % L) * L + r % L if transpose else (r % L) * L + c % L for r, c in cells]


def _uniq(xs):
    seen, out = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def winding_paths(L, steps, both_ends=True):
    """All paths that visit the columns one after another, moving vertically by one of `steps` in each column, and close
    after one turn (total vertical move a multiple of L)."""
    for mv in itertools.product(steps, repeat=L):
        if sum(mv) % L:
            continue
        cells, r = [], 0
        for c, m in enumerate(mv):
            cells.append((r, c))
            for _ in range(abs(m)):
                r += 1 if m > 0 else -1
                cells.append((r, c))
        yield cells


def rings(L, steps):
    """Closed winding paths as site orders: two positions of the closing site, both orientations, shifted."""
    for i, cells in enumerate(winding_paths(L, steps)):
        shift = i % L
        cells = [(r + shift, c) for r, c in cells]
        for t in (False, True):
            ids = _uniq(_rc(L, cells, t))
            if len(ids) == L * L:
                continue
            j = (i * 7 + 3) % len(ids)
            ring = ids[j:] + ids[:j]
            yield ring + [x for x in range(L * L) if x not in set(ring)][: L]
            # grow from both ends, close in the middle
            m = len(ring) // 2
            inter = _uniq([x for pair in itertools.zip_longest(ring[:m], reversed(ring[m:])) for x in pair if x is not None])
            yield inter


def ring_and_blob(L, rows=None):
    """A thin straight ring (row or column) and a rectangle that does not touch it, then a site that joins them, then
    the rest of the lattice. The rectangle may be larger or smaller than the ring."""
    for r in (rows if rows is not None else range(L)):
        for h in range(1, L - 2):
            for w in range(1, L):
                for off in range(L):
                    blob = [(r + 2 + i, off + j) for i in range(h) for j in range(w)]
                    ring = [(r, c) for c in range(L)]
                    for con in ({0, w - 1}):
                        link = [(r + 1, off + con)]
                        for t in (False, True):
                            for parts in ((ring, blob, link), (blob, ring, link), (ring, blob[::-1], link)):
                                ids = _uniq(_rc(L, [x for q in parts for x in q], t))
                                yield full(ids, L * L)


def two_rings(L, rows=None):
    """A ring A that is not straight (two rows, any pattern) and a straight ring B two rows further, joined through every
    possible single site, in both orders; then a few more sites."""
    for r in (rows if rows is not None else range(L)):
        for pat in range(1, 2 ** L - 1):
            a = []
            for c in range(L):
                cur, prev = pat >> c & 1, pat >> ((c - 1) % L) & 1
                if cur != prev:
                    a.append((r + prev, c))
                a.append((r + cur, c))
            for jb in range(3, L - 1):
                b = [(r + jb, c) for c in range(L)]
                for link_row in {2, L - 1}:
                    if link_row == 2 and jb != 3 or link_row == L - 1 and jb != L - 2:
                        continue
                    for c in range(L):
                        neigh = r + 1 if link_row == 2 else r
                        link = [(r + link_row, c)]
                        for t in (False, True):
                            for parts in ((a, b, link), (b, a, link)):
                                yield _uniq(_rc(L, [x for q in parts for x in q], t))


def walks(L, maxlen=3):
    """Induced paths (helices, staircases, spirals: the head only ever touches its predecessor) that prefer the
    directions of a periodic word; once stuck, each possible next site, then the rest of the lattice."""
    nb = ref.neighbours(L)
    n = L * L
    seen = set()
    for k in range(1, maxlen + 1):
        for word in itertools.product(range(4), repeat=k):
            start = (sum(word) * (L + 1)) % n
            path, occ = [start], {start}
            i = 0
            while True:
                head = path[-1]
                d0 = word[i % k]
                i += 1
                for d in (d0, (d0 + 1) % 4, (d0 + 3) % 4, (d0 + 2) % 4):
                    t = nb[head][d][0]
                    if t not in occ and sum(u in occ for u, _ in nb[t]) == 1:
                        path.append(t)
                        occ.add(t)
                        break
                else:
                    break
            nxt = [t for t, _ in nb[path[-1]] if t not in occ] or [t for t in range(n) if t not in occ][:1]
            if tuple(path) in seen:
                continue
            seen.add(tuple(path))
            for j, t in enumerate(nxt):
                o = path + [t]
                if j % 2:
                    o = path[::-1] + [t]
                rest = [x for x in range(n) if x not in set(o)]
                yield o + (rest[::-1] if j % 3 == 2 else rest)


def patterns(L):
    """A few regular orders, each also reversed, transposed."""
    n = L * L
    row = list(range(n))
    snake = [r * L + (c if r % 2 == 0 else L - 1 - c) for r in range(L) for c in range(L)]
    diag = sorted(row, key=lambda s: ((s // L + s % L) % L, s // L))
    anti = sorted(row, key=lambda s: ((s // L - s % L) % L, s % L))
    checker = sorted(row, key=lambda s: ((s // L + s % L) % 2, s))
    stripes = sorted(row, key=lambda s: ((s // L) % 2, s))
    spread = sorted(row, key=lambda s: ((s * 7919) % 101, s))
    centre = sorted(row, key=lambda s: (max(abs(s // L - L // 2), abs(s % L - L // 2)), s))
    for o in (row, snake, diag, anti, checker, stripes, spread, centre):
        t = [(s % L) * L + s // L for s in o]
        for x in (o, o[::-1], t, t[::-1]):
            yield x


# ---------------------------------------------------------------- the families used by most properties

def seq_cases(orders, cls="L0", L=3, detect=1, cont=0, clss=None):
    for i, o in enumerate(orders()):
        c = dict(kind="seq", cls=clss[i % len(clss)] if clss else cls, L=L, segs=[list(o)], detect=detect)
        if cont:
            c["cont"] = 1
        yield c


def core_families(oracle_cls, tier, nodetect=True, heavy=1):
    """oracle_cls(ctx): an Oracle. nodetect: also without calling detect_wrapping."""
    fams = []
    T = tier == "thorough"

    def run(case, ctx):
        (walk_large if case["kind"] == "large" else walk)(case, ctx, oracle_cls(ctx))

    fams.append(Family("huge", "sides 130 and 260 (thorough: 64-260): runs in scrambled and regular orders and with fixed draws in all modes, judged at checkpoints and around the first wrapping",
                       lambda: large_cases(tier), run, shards=10 if tier != "thorough" else 40))

    def add(name, bound, cases):
        fams.append(Family(name, bound, cases, run, shrink_seq))

    for L in (3, 4, 5, 6, 7) if not T else (3, 4, 5, 6, 7, 8, 9, 10):
        k = 3 if L <= (5 if not T else 7) else 2
        add("prefix%d-L%d" % (k, L), "all ordered lists of %d sites, side %d" % (k, L),
            lambda L=L, k=k: seq_cases(lambda: prefixes(L * L, k), L=L, clss=("L0", "SP", "BASE")))
    add("orders-L3", "side 3: " + ("all 9! placement orders" if T else "all ordered prefixes of 6 sites, completed in ascending order"),
        lambda: seq_cases(lambda: prefixes(9, 9 if T else 6, True)))
    if T:
        add("edges-L4", "side 4: every placement from each of the 65536 occupied sets",
            lambda: seq_cases(lambda: edge_cover(16), L=4, clss=("L0", "SP")))
    else:
        add("sets-L4", "side 4: each of the 65536 occupied sets (symmetric chain decomposition)",
            lambda: seq_cases(lambda: chains(16), L=4, clss=("L0", "SP")))
    add("sets-L4-scrambled", "side 4: each of the 65536 occupied sets, along other chains (sites renumbered)",
        lambda: seq_cases(lambda: ([(5 * s + 3) % 16 for s in o] for o in chains(16)), L=4))
    for L, off in ((5, None), (6, None), (7, range(0, 49, 12))) if not T else ((5, None), (6, None), (7, None), (8, None), (9, range(0, 81, 4)), (10, range(0, 100, 9)), (11, range(0, 121, 30))):
        add("affine-L%d" % L, "side %d: all orders s_k = (a k + b) mod L^2, a coprime to L^2, b in %s" % (L, "all" if off is None else list(off)),
            lambda L=L, off=off: seq_cases(lambda: affine(L, off), L=L))
    for L, st in ((5, (-1, 0, 1, 2)), (6, (0, 1, -1))) if not T else ((5, (-2, -1, 0, 1, 2, 3)), (6, (-1, 0, 1, 2)), (7, (-1, 0, 1))):
        add("rings-L%d" % L, "side %d: all closed one-turn winding paths with vertical moves %s, closing site varied, both orientations" % (L, st),
            lambda L=L, st=st: seq_cases(lambda: rings(L, st), L=L, clss=("L0", "L0", "SP")))
    for L, rows in ((5, (0, 2, 4)), (6, (4,)), (7, (1,))) if not T else ((5, None), (6, None), (7, (0, 5)), (8, (7,))):
        add("blob-L%d" % L, "side %d: thin ring and every separate rectangle, joined by one site, then filled; ring rows/columns %s" % (L, "all" if rows is None else rows),
            lambda L=L, rows=rows: seq_cases(lambda: ring_and_blob(L, rows), L=L))
    for L, rows in ((5, (0, 3)),) if not T else ((5, None), (6, (0, 4))):
        add("tworings-L%d" % L, "side %d: every two-row ring, a straight ring, every joining site, both orders" % L,
            lambda L=L, rows=rows: seq_cases(lambda: two_rings(L, rows), L=L))
    for L in (4, 5, 6, 7, 8) if not T else (4, 5, 6, 7, 8, 9, 10, 12):
        ml = (4 if L < 7 else 3) if T else (3 if L < 7 else 2)
        add("walks-L%d" % L, "side %d: induced paths (helices, spirals, staircases) following every periodic word of up to %d directions, every closing site, then filled" % (L, ml),
            lambda L=L, ml=ml: seq_cases(lambda: walks(L, ml), L=L, clss=("L0", "SP")))
    add("large", "sides 20, 25%s: regular orders of the whole lattice" % (", 32, 40" if T else ""),
        lambda: (c for L in ((20, 25) if not T else (20, 25, 32, 40)) for c in
                 seq_cases(lambda: itertools.islice(patterns(L), 0, 32, 4 if not T and L > 20 else 2), L=L)))
    for L in (8, 9, 12, 16) if not T else (8, 9, 12, 13, 16, 20, 25, 32):
        add("patterns-L%d" % L, "side %d: 32 regular orders of the whole lattice" % L,
            lambda L=L: seq_cases(lambda: patterns(L), L=L))

    def tapes():
        for L, n in ((3, 60), (4, 30), (5, 16), (6, 10), (8, 5), (11, 2)) if not T else ((3, 1500), (4, 600), (5, 300), (6, 200), (8, 80), (11, 30), (16, 8)):
            for t in range(n):
                for c in ("L1", "L2", "L0", "SP"):
                    yield dict(kind="tape", cls=c, L=L, tape=t, runs=2 if L > 4 else 2 + t % 4, detect=1)
    add("tapes", "runs of all modes with fixed tapes of random draws, two (sides 3, 4: up to five) realizations each, sides 3..%d" % (16 if T else 11), tapes)

    def second():
        later = [[0, 1, 2, 4, 7, 3, 5, 6, 8], [4, 0, 8, 2, 6, 1, 3, 5, 7], [8, 7, 6, 5, 4, 3, 2, 1, 0]]
        firsts = [list(p) for k in (1, 2, 3) for p in itertools.permutations(range(9), k)]
        firsts += list(prefixes(9, 2 if not T else 3, True))
        for i, a in enumerate(firsts):
            for b in (later if T else [later[i % 3]]):
                yield dict(kind="seq", cls=("L0", "SP")[i % 2], L=3, segs=[a, b], detect=1)
        for L in (4, 5, 6):
            for a in patterns(L):
                for b in list(patterns(L))[:8]:
                    yield dict(kind="seq", cls="L0", L=L, segs=[a[:L * L // 2], b, a], detect=1)
    add("resets", "runs after resets: every first run of up to 3 sites and full first runs, side 3; half/full/full, sides 4-6", second)
    add("continued", "list replaced half-way by a longer list, side 3 (prefixes of 4), 5 (affine)",
        lambda: itertools.chain(seq_cases(lambda: prefixes(9, 4, True), cont=1), seq_cases(lambda: affine(5, range(0, 25, 6)), L=5, cont=1)))
    if nodetect:
        add("nodetect", "placements without wrapping detection in between: side 3 (prefixes of 4), side 4 (all occupied sets), side 5 affine, blobs",
            lambda: itertools.chain(seq_cases(lambda: prefixes(9, 4, True), detect=0),
                                    seq_cases(lambda: ([(3 * s + 1) % 16 for s in o] for o in chains(16)), L=4, detect=0),
                                    seq_cases(lambda: affine(5, range(0, 25, 5)), L=5, detect=0),
                                    seq_cases(lambda: ring_and_blob(6, (2,)), L=6, detect=0)))
    return fams
