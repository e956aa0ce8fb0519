"""Entropy is the Shannon entropy of the cluster sizes."""
import math

from mc.engine import Violation
from mc.fam import Oracle, core_families

TOL = 1e-9


class O(Oracle):
    def begin(self, p):
        self.judge(p, math.log(2 * self.n))

    def step(self, p, site, det):
        self.judge(p, self.info.entropy)

    def idle(self, p):
        self.judge(p, self.info.entropy if self.occ else math.log(2 * self.n))

    def judge(self, p, want):
        for name in ("entropy", "entropy_v1", "entropy_v2"):
            f = getattr(p, name, None)
            if f is None and name != "entropy":
                continue
            got = f()
            if not abs(got - want) <= TOL:
                raise Violation("after placing %s (side %d): %s() is %r, should be %r" % (
                    self.order, self.L, name, got, want))


def families(tier):
    return core_families(O, tier)
