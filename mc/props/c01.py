"""Cluster labels are the connected components."""
from mc.engine import Violation
from mc.fam import Oracle, core_families


class O(Oracle):
    def begin(self, p):
        lat = p.lattice_ref
        for s in range(self.n):
            if lat.get_site_by_id(s).is_occupied() or lat.get_site_gid_by_id(s) >= 0:
                raise Violation("site %d is occupied at the start" % s)

    def step(self, p, site, det):
        lat = p.lattice_ref
        i, occ = self.info, self.occ
        label_of, comp_of = {}, {}
        for s in (site, self.n - 1 - site):
            if lat.get_site_gid_by_index(lat.get_site_by_id(s).get_index()) != lat.get_site_gid_by_id(s):
                raise Violation("site %d: two answers for its label: %r by index, %r by identifier" % (
                    s, lat.get_site_gid_by_index(lat.get_site_by_id(s).get_index()), lat.get_site_gid_by_id(s)))
        for s in range(self.n):
            x = lat.get_site_by_id(s)
            g = lat.get_site_gid_by_id(s)
            if x.get_gid() != g:
                raise Violation("site %d: two answers for its label: %r and %r" % (s, g, x.get_gid()))
            if s not in occ:
                if g >= 0 or x.is_occupied():
                    raise Violation("after placing %s: empty site %d has label %r" % (self.order, s, g))
                continue
            if g < 0 or not x.is_occupied():
                raise Violation("after placing %s: site %d counts as empty (label %r)" % (self.order, s, g))
            c = i.comp[s]
            if label_of.setdefault(c, g) != g:
                raise Violation("after placing %s: connected sites %d and %d have labels %r and %r" % (
                    self.order, i.sites[c][0], s, label_of[c], g))
            if comp_of.setdefault(g, c) != c:
                raise Violation("after placing %s: sites %d and %d are not connected but both have label %r" % (
                    self.order, i.sites[comp_of[g]][0], s, g))

    def idle(self, p):
        if any((p.lattice_ref.get_site_gid_by_id(s) >= 0) != (s in self.occ) for s in range(self.n)):
            raise Violation("an unsuccessful trial changed the occupied sites")


def families(tier):
    return core_families(O, tier)
