"""Critical figures are those of the first wrapping, for ever; 0 before."""
from mc.engine import Violation
from mc.fam import Oracle, core_families


class O(Oracle):
    light = True

    def figures(self, p):
        return (p.get_pc(), p.get_site_count_wrapping_cluster_pc(), p.get_bond_count_wrapping_cluster_pc())

    def begin(self, p):
        self.judge(p, "before the first placement")

    def step(self, p, site, det):
        self.judge(p, "after placing %s" % self.order)

    def idle(self, p):
        self.judge(p, "after placing %s and an unsuccessful trial" % self.order)

    def judge(self, p, at):
        if self.crit is None:
            want = (0, 0, 0)
        else:
            k, s, b = self.crit
            want = (k / self.n, s, b)
        got = self.figures(p)
        if got[1:] != want[1:] or abs(got[0] - want[0]) > 1e-12:
            raise Violation("%s (side %d): critical point, site and bond count are %s, expected %s" % (
                at, self.L, got, want))

    def end(self, p):
        # more detections, and attempts to place beyond the end, change nothing
        for _ in range(2):
            p.detect_wrapping()
            self.judge(p, "at the end, after another detection")
        if len(self.order) == self.n:
            p.place_one_site()
            p.detect_wrapping()
            self.judge(p, "after an attempt to place beyond the end")


def families(tier):
    return core_families(O, tier, nodetect=False)
