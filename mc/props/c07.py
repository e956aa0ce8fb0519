"""Relative indices inside a cluster that does not wrap are real displacements."""
from mc.engine import Violation
from mc.fam import Oracle, core_families


class O(Oracle):
    def begin(self, p):
        self.prev = {}
        self.prev_info = None

    def gap(self):
        self.prev_info = None

    def step(self, p, site, det):
        i = self.info
        lat = p.lattice_ref
        now = {}
        for k, members in enumerate(i.sites):
            m0 = members[0]
            for s in members:
                x = lat.get_site_by_id(s).get_relative_index()
                now[s] = (x.row(), x.column())
                if bool(lat.get_site_by_id(s).is_root()) != (now[s] == (0, 0)):
                    raise Violation("after placing %s: site %d is at %s, is_root() is %r" % (
                        self.order, s, now[s], lat.get_site_by_id(s).is_root()))
            if i.wraps[k]:
                continue
            d = (now[m0][0] - i.pos[m0][0], now[m0][1] - i.pos[m0][1])
            for s in members:
                e = (now[s][0] - i.pos[s][0], now[s][1] - i.pos[s][1])
                if e != d:
                    raise Violation("after placing %s (side %d): relative indices of sites %d and %d are %s and %s, "
                                    "their displacement is %s" % (
                                        self.order, self.L, m0, s, now[m0], now[s],
                                        (i.pos[s][0] - i.pos[m0][0], i.pos[s][1] - i.pos[m0][1])))
        k = i.comp[site]
        if len(i.sites[k]) == 1 and now[site] != (0, 0):
            raise Violation("after placing %s: the isolated site %d is at %s, not at the origin" % (
                self.order, site, now[site]))
        # a merge moves all members of each old cluster by one common vector; clusters not touched do not move
        if self.prev_info is not None:
            for j, members in enumerate(self.prev_info.sites):
                m0 = members[0]
                d = (now[m0][0] - self.prev[m0][0], now[m0][1] - self.prev[m0][1])
                if i.comp[m0] != k and d != (0, 0):
                    raise Violation("after placing %s: cluster of site %d moved by %s although it was not touched" % (
                        self.order, m0, d))
                for s in members:
                    if (now[s][0] - self.prev[s][0], now[s][1] - self.prev[s][1]) != d:
                        raise Violation("after placing %s: members %d and %d of one cluster were shifted differently" % (
                            self.order, m0, s))
        self.prev, self.prev_info = now, i


def families(tier):
    return core_families(O, tier)
