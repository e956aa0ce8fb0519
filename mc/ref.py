"""The reference model: a square lattice on a torus, clusters by breadth-first search from scratch. Deliberately plain.

Site (r, c) has id r*L + c. Bond i < L*L joins site i and its right neighbour, bond L*L + i joins site i and the site
below it.
"""
import math

STEPS = ((0, 1), (1, 0), (0, -1), (-1, 0))      # right, below, left, above
_nb = {}


def neighbours(L):
    """neighbours(L)[site] = 4 pairs (neighbour, step)."""
    if L not in _nb:
        _nb[L] = [[(((r + dr) % L) * L + (c + dc) % L, (dr, dc)) for dr, dc in STEPS]
                  for r in range(L) for c in range(L)]
    return _nb[L]


def bond_ends(L, b):
    n = L * L
    if b < n:
        r, c = divmod(b, L)
        return b, r * L + (c + 1) % L
    r, c = divmod(b - n, L)
    return b - n, ((r + 1) % L) * L + c


_sb = {}


def site_bonds(L):
    """site_bonds(L)[site] = the four bonds that touch the site."""
    if L not in _sb:
        out = [[] for _ in range(L * L)]
        for b in range(2 * L * L):
            for s in bond_ends(L, b):
                out[s].append(b)
        _sb[L] = out
    return _sb[L]


class Info:
    """Clusters of a set of occupied sites."""
    __slots__ = ("L", "occ", "comp", "sites", "bonds", "wraps", "pos", "entropy", "largest", "bond_comp")

    def __init__(self, L, occ):
        nb = neighbours(L)
        self.L = L
        self.occ = occ                      # sorted tuple or frozenset of sites
        comp = self.comp = {}               # site -> cluster number
        pos = self.pos = {}                 # site -> displacement from the first site of the cluster
        self.sites, self.wraps = [], []
        for s0 in sorted(occ):
            if s0 in comp:
                continue
            k = len(self.sites)
            comp[s0] = k
            pos[s0] = (0, 0)
            members, wraps = [s0], False
            for s in members:               # grows while it is scanned
                pr, pc = pos[s]
                for t, (dr, dc) in nb[s]:
                    if t not in occ:
                        continue
                    q = (pr + dr, pc + dc)
                    if t not in comp:
                        comp[t] = k
                        pos[t] = q
                        members.append(t)
                    elif pos[t] != q:
                        wraps = True
            self.sites.append(members)
            self.wraps.append(wraps)
        sb = site_bonds(L)
        bond_comp = self.bond_comp = {}     # touched bond -> cluster number
        for s, k in comp.items():
            for b in sb[s]:
                bond_comp[b] = k
        self.bonds = [0] * len(self.sites)
        for k in bond_comp.values():
            self.bonds[k] += 1
        nb_total = 2 * L * L
        h = -(nb_total - len(bond_comp)) * (1.0 / nb_total) * math.log(1.0 / nb_total)
        for x in self.bonds:
            m = x / nb_total
            h -= m * math.log(m)
        self.entropy = h
        self.largest = max(self.bonds) if self.bonds else 0


class Growing:
    """The same for one placement after another on a large lattice: union-find with displacements. Only cluster sizes,
    bond counts and windings; agrees with Info (see selfcheck)."""

    def __init__(self, L):
        self.L = L
        self.nb = neighbours(L)
        self.up, self.off = {}, {}
        self.size, self.bonds, self.wraps = {}, {}, {}

    def find(self, s):
        r, dr, dc = s, 0, 0
        while self.up[r] != r:
            a, b = self.off[r]
            dr, dc, r = dr + a, dc + b, self.up[r]
        return r, dr, dc

    def add(self, s):
        self.up[s], self.off[s] = s, (0, 0)
        self.size[s], self.bonds[s], self.wraps[s] = 1, 0, False
        free = 0
        for t, (dr, dc) in self.nb[s]:
            if t not in self.up:
                free += 1
                continue
            r1, a1, b1 = self.find(s)
            r2, a2, b2 = self.find(t)
            # position of root 2 as seen from root 1
            d = (a1 + dr - a2, b1 + dc - b2) if r1 != r2 else None
            if d is None:
                if (a1 + dr, b1 + dc) != (a2, b2):
                    self.wraps[r1] = True
                continue
            if self.size[r1] < self.size[r2]:
                r1, r2, d = r2, r1, (-d[0], -d[1])
            self.up[r2], self.off[r2] = r1, d
            self.size[r1] += self.size[r2]
            self.bonds[r1] += self.bonds[r2]
            self.wraps[r1] = self.wraps[r1] or self.wraps[r2]
        r = self.find(s)[0]
        self.bonds[r] += free
        return r


_memo = {}


def info(L, occ):
    """occ: frozenset. Remembered for small lattices only."""
    if L > 4:
        return Info(L, occ)
    key = (L, occ)
    x = _memo.get(key)
    if x is None:
        if len(_memo) > 70000:
            _memo.clear()
        x = _memo[key] = Info(L, occ)
    return x


def straight_line(L, sites):
    """Does the set of sites contain a complete row or column?"""
    s = set(sites)
    for r in range(L):
        if all(r * L + c in s for c in range(L)):
            return True
    for c in range(L):
        if all(r * L + c in s for r in range(L)):
            return True
    return False


def rule_weights(L, occ, mode):
    """Unnormalised weights (integers, in units of 1/(4 L^2)) of the next placed site for L1 / L2, and the weight of
    an unsuccessful trial."""
    w = {}
    nb = neighbours(L)
    fail = 0
    for x in range(L * L):
        if x not in occ:
            w[x] = w.get(x, 0) + 4
            continue
        for y, (dr, dc) in nb[x]:
            if y not in occ:
                w[y] = w.get(y, 0) + 1
                continue
            if mode == "L2":
                r, c = divmod(y, L)
                z = ((r + dr) % L) * L + (c + dc) % L
                if z not in occ:
                    w[z] = w.get(z, 0) + 1
                    continue
            fail += 1
    return w, fail
