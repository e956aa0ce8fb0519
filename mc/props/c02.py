"""Bonds and occupied sites are partitioned by the clusters, and the registry agrees with the labels."""
from mc import ref
from mc.engine import Violation
from mc.fam import Oracle, core_families


class O(Oracle):
    def begin(self, p):
        self.seen = set()
        self.check(p)

    def step(self, p, site, det):
        self.check(p)

    def check(self, p):
        L, n, occ = self.L, self.n, self.occ
        lat, pool = p.lattice_ref, p.cluster_pool_ref
        at = "after placing %s: " % self.order
        bonds, sites = {}, {}
        gid = [lat.get_bond_gid_by_id(b) for b in range(2 * n)]
        for b, g in enumerate(gid):
            if g < 0:
                raise Violation(at + "bond %d belongs to no cluster" % b)
            bonds.setdefault(g, []).append(b)
        for s in occ:
            g = lat.get_site_gid_by_id(s)
            sites.setdefault(g, []).append(s)
        sb = ref.site_bonds(L)
        for g, ss in sites.items():
            for s in ss:
                for b in sb[s]:
                    if gid[b] != g:
                        raise Violation(at + "bond %d touches site %d (label %r) but has label %r" % (b, s, g, gid[b]))
        info = self.info if occ else None
        for g, bb in bonds.items():
            if g not in sites and len(bb) != 1:
                raise Violation(at + "bonds %s touch no occupied site but share label %r" % (bb, g))
            if len(bb) > 1 or occ:
                for b in bb:
                    touched = info is not None and b in info.bond_comp
                    if touched != (g in sites):
                        raise Violation(at + "bond %d has label %r, the label of sites %s" % (b, g, sites.get(g)))
        nsites = nbonds = 0
        for g in bonds:
            rb, rs = list(pool.get_bonds(g)), list(pool.get_sites(g))
            if sorted(rb) != bonds[g]:
                raise Violation(at + "cluster %r lists the bonds %s, label carried by %s" % (g, sorted(rb), bonds[g]))
            if sorted(rs) != sorted(sites.get(g, [])):
                raise Violation(at + "cluster %r lists the sites %s, label carried by %s" % (
                    g, sorted(rs), sorted(sites.get(g, []))))
            cb, cs = pool.get_cluster_bond_count(g), pool.get_cluster_site_count(g)
            if cb != len(rb) or cs != len(rs):
                raise Violation(at + "cluster %r counts %r bonds and %r sites, has %d and %d" % (g, cb, cs, len(rb), len(rs)))
            nsites += cs
            nbonds += cb
        self.seen |= bonds.keys()
        for g in self.seen:
            if g not in bonds:
                if (pool.get_cluster_bond_count(g), pool.get_cluster_site_count(g)) != (0, 0) \
                        or pool.get_bonds(g) or pool.get_sites(g):
                    raise Violation(at + "label %r is no longer in use, yet the registry lists %s / %s" % (
                        g, pool.get_sites(g), pool.get_bonds(g)))
        if nsites != len(occ) or nbonds != 2 * n:
            raise Violation(at + "counts add up to %d sites and %d bonds" % (nsites, nbonds))


def families(tier):
    return core_families(O, tier)
