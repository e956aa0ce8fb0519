"""Order parameters are the true cluster sizes."""
from mc.engine import Violation
from mc.fam import Oracle, core_families


class O(Oracle):
    def begin(self, p):
        self.last = (0, 0, 0)
        self.judge(p)

    def step(self, p, site, det):
        self.judge(p)

    def idle(self, p):
        self.judge(p)

    def judge(self, p):
        N, nb = self.n, 2 * self.n
        large = self.info.largest if self.occ else 0
        wrap = self.info.bonds[self.info.comp[self.tracked]] if self.wrapped else 0
        want = (large / nb, wrap / nb, len(self.occ) / N)
        got = (p.order_param_largest_clstr(), p.order_param_wrapping(), p.occupation_prob())
        names = ("largest-cluster order parameter", "wrapping order parameter", "occupation probability")
        for name, w, g in zip(names, want, got):
            if not abs(w - g) <= 1e-12:
                raise Violation("after placing %s (side %d): %s is %r, should be %r" % (self.order, self.L, name, g, w))
        if p.largest_cluster() != large:
            raise Violation("after placing %s: the largest cluster has %d bonds, reported %r" % (
                self.order, large, p.largest_cluster()))
        if any(g < l - 1e-12 for g, l in zip(got, self.last)):
            raise Violation("after placing %s: figures fell from %s to %s" % (self.order, self.last, got))
        self.last = got
        if len(self.occ) == N and not all(abs(g - 1) <= 1e-12 for g in got[::2]):
            raise Violation("full lattice, but the figures are %s" % (got,))


def families(tier):
    return core_families(O, tier)
