"""Wrapping is reported exactly when a cluster winds round the torus for the first time."""
from mc import ref
from mc.engine import Violation
from mc.fam import Oracle, core_families


class O(Oracle):
    light = True

    def step(self, p, site, det):
        if det is None:
            return
        if det != self.wrapped:
            raise Violation("after placing %s (side %d) wrapping is %s, reported %s" % (
                self.order, self.L, self.wrapped, det))
        self.ctx.outcomes.add((self.L, len(self.occ)) if self.first_wrap else 0)
        w = getattr(p, "wrapping_cluster_id", None)
        if self.wrapped and w is not None:
            g = p.lattice_ref.get_site_gid_by_id(self.tracked)
            if w != g:
                raise Violation("after placing %s: the cluster that wrapped first has label %r, tracked is %r" % (
                    self.order, g, w))

    def idle(self, p):
        if bool(p.detect_wrapping()) != self.wrapped:
            raise Violation("after placing %s and an unsuccessful trial wrapping is %s" % (self.order, not self.wrapped))


def families(tier):
    return core_families(O, tier, nodetect=False)
