"""The cluster registry as a component: every short history of its operations against a plain model."""
import itertools

from mc import env
from mc.engine import Family, Violation

class World:
    """A registry with its lattice and the model of both. Sites and bonds are handed out in a scattered order."""

    def __init__(self, side):
        self.side = side
        self.pool = env.module("source_py.simulation.cluster").ClusterPool()
        self.lat = env.module("source_py.simulation.lattice").Lattice(side)
        n = side * side
        self.free_s = [(4 * k + 1) % n for k in range(n)] if n % 2 else [(5 * k + 1) % n for k in range(n)]
        self.free_b = [(5 * k + 2) % (2 * n) for k in range(2 * n)] if (2 * n) % 5 else [(7 * k + 2) % (2 * n) for k in range(2 * n)]
        self.members = []            # [sites, bonds] or None once cleared
        self.label = {}

    def take(self, free, k):
        out, free[:] = free[:k], free[k:]
        return out

    def do(self, op):
        pool, lat = self.pool, self.lat
        name = op[0]
        if name == "create":
            s, b = self.take(self.free_s, op[1]), self.take(self.free_b, op[2])
            ls, lb = list(s), list(b)
            if not s and not b and op[3]:
                pool.create_new_cluster()
            else:
                pool.create_new_cluster(ls, lb, lat)
            if (ls, lb) != (s, b):
                raise Violation("create_new_cluster changed the lists it was given: %s, %s instead of %s, %s" % (ls, lb, s, b))
            ls += [0]               # they belong to the caller
            lb += [0]
            k = len(self.members)
            self.members.append([s, b])
            for x in s:
                self.label["s", x] = k
            for x in b:
                self.label["b", x] = k
            return True
        if name == "reset":
            pool.reset()
            lat.reset()
            self.members, self.label = [], {}
            return True
        k = op[1]
        if k >= len(self.members) or self.members[k] is None:
            return False
        if name in ("add-site", "add-sites", "add-bond", "add-bonds"):
            kind = 0 if "site" in name else 1
            many = name.endswith("s")
            x = self.take((self.free_s, self.free_b)[kind], 2 if many else 1)
            if not x:
                return False
            arg = list(x) if many else x[0]
            (pool.add_sites, pool.add_bonds)[kind](k, arg)
            if many:
                if arg != x:
                    raise Violation("%s changed the list it was given" % name)
                arg += [0]
            self.members[k][kind] = self.members[k][kind] + x
            return True
        if name == "merge":
            j = op[2]
            if j == k or j >= len(self.members) or self.members[j] is None:
                return False
            pool.merge_cluster_with(k, j, lat)
            for t, c in ((0, "s"), (1, "b")):
                for x in self.members[j][t]:
                    self.label[c, x] = k
                self.members[k][t] = self.members[k][t] + self.members[j][t]
            pool.clear_cluster(j)
            self.members[j] = None
            return True
        if name == "clear":
            pool.clear_cluster(k)
            self.members[k] = None
            return True
        raise ValueError(op)

    def judge(self, hist):
        pool, lat = self.pool, self.lat
        at = "after %s" % hist

        for k, m in enumerate(self.members):
            want = [sorted(x) for x in m] if m else [[], []]
            got = [sorted(pool.get_sites(k)), sorted(pool.get_bonds(k))]
            if got != want:
                raise Violation("%s: cluster %d has the sites and bonds %s, expected %s" % (at, k, got, want))
            c = pool.get_cluster(k)
            counts = (pool.get_cluster_site_count(k), pool.get_cluster_bond_count(k), c.get_site_count(), c.get_bond_count())
            if counts != (len(want[0]), len(want[1])) * 2:
                raise Violation("%s: cluster %d counts %s, expected %s" % (at, k, counts, (len(want[0]), len(want[1]))))
            if bool(c.is_empty()) != (want == [[], []]):
                raise Violation("%s: cluster %d with members %s: is_empty() is %s" % (at, k, want, c.is_empty()))
            if m is not None and (c.get_gid() != k or c.get_id() != k):
                raise Violation("%s: cluster %d has label %s and id %s" % (at, k, c.get_gid(), c.get_id()))
        if pool.get_cluster(len(self.members)) is not None:
            raise Violation("%s: there is a cluster %d, only %d were created" % (at, len(self.members), len(self.members)))
        n = self.side ** 2
        for s in range(n):
            if lat.get_site_gid_by_id(s) != self.label.get(("s", s), -1):
                raise Violation("%s: site %d has label %s, expected %s" % (at, s, lat.get_site_gid_by_id(s), self.label.get(("s", s), -1)))
        for b in range(2 * n):
            if lat.get_bond_gid_by_id(b) != self.label.get(("b", b), -1):
                raise Violation("%s: bond %d has label %s, expected %s" % (at, b, lat.get_bond_gid_by_id(b), self.label.get(("b", b), -1)))


def run(case, ctx):
    w = World(case["L"])
    other = World(case["L"]) if case.get("other") else None
    done = []
    if other:
        other.do(["create", 1, 1, 0])
        other.do(["create", 0, 1, 0])
    for op in case["ops"]:
        if w.do(op):
            done.append(op)
            w.judge(done)
            ctx.transitions += 1
            ctx.state(str(w.members), str(sorted(w.label.items())))
    if other:
        other.judge("operations on another registry (%s)" % done)
        other.do(["merge", 0, 1])
        other.judge("operations on another registry (%s), and a merge" % done)
        w.judge("%s and a merge in another registry" % done)
    ctx.traces += 1


def shrink(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])


def families(tier):
    T = tier == "thorough"
    create = [["create", 0, 0, 1], ["create", 0, 1, 0], ["create", 1, 2, 0], ["create", 2, 0, 0]]
    rest = [["add-site", 0], ["add-sites", 1], ["add-bond", 1], ["add-bonds", 0], ["add-sites", 2], ["merge", 0, 1], ["merge", 1, 0], ["merge", 0, 2], ["merge", 2, 1], ["clear", 0], ["clear", 1], ["reset"]]

    def short():
        for k in range(1, 7 if T else 6):
            for o in itertools.product(create + rest, repeat=k):
                if o[0][0] == "create":
                    yield dict(L=3, ops=list(o), other=len(o) < 4)

    def built():
        """three clusters of every kind, then every sequence of the other operations"""
        for a in itertools.product(create, repeat=3):
            for k in range(1, 4 if T else 3):
                for o in itertools.product(rest + create[1:3], repeat=k):
                    yield dict(L=4, ops=list(a) + list(o), other=0)

    def long():
        for side in (5, 9, 20):
            n = side * side
            for f in (1, 2, 3, 7):
                a = [["create", 0, 1, 0]] * (2 * n)
                merges = []
                alive = list(range(2 * n))
                k = 0
                while len(alive) > 1:
                    i = (k * f) % len(alive)
                    j = (k * f + 1 + k % 3) % len(alive)
                    if i != j:
                        merges.append(["merge", alive[i], alive[j]])
                        if k % 4 == 0 and k // 4 < n:
                            merges.append(["add-site", alive[i]])
                        del alive[j]
                    k += 1
                yield dict(L=side, big=1, ops=a + merges + [["reset"]] + [["create", 1, 2, 0]], other=0)

    def run_long(case, ctx):
        w = World(case["L"])
        for k, op in enumerate(case["ops"]):
            if w.do(op):
                ctx.transitions += 1
                if k % 97 == 0 or k > len(case["ops"]) - 6:
                    w.judge("%d operations, the last ones %s" % (k + 1, case["ops"][max(0, k - 5):k + 1]))
                    ctx.state(k, case["L"], len(w.members))
        ctx.traces += 1

    return [
        Family("long", "sides 5, 9, 20: one cluster per bond, merged in several orders into one, then a reset", long, run_long),
        Family("short", "side 3: every history of up to %d operations out of %d (create with and without members, add one or several, merge, clear, reset), beside a second registry" % (6 if T else 5, len(create + rest)), short, run, shrink),
        Family("built", "side 4: every three clusters, then every %d further operations" % (3 if T else 2), built, run, shrink),
    ]
