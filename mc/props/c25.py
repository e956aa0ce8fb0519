"""What was read from a simulation before a reset stays as it was."""
import copy
import itertools

import numpy as np

from mc import env, ops
from mc.engine import Family, Violation

CLASSES = ("L0", "SP", "BASE", "L1", "L2")

READ = (
    ("get_site_id_sequence()", lambda p: p.get_site_id_sequence()),
    ("get_index_sequence()", lambda p: p.get_index_sequence()),
    ("get_occupation_prob_array()", lambda p: p.get_occupation_prob_array()),
    ("get_entropy_array()", lambda p: p.get_entropy_array()),
    ("get_order_param_largest_array()", lambda p: p.get_order_param_largest_array()),
    ("get_order_param_wrapping_array()", lambda p: p.get_order_param_wrapping_array()),
    ("get_data_array()", lambda p: p.get_data_array()),
    ("the figures", lambda p: [p.get_signature(), p.occupation_prob(), p.entropy(), p.entropy_v1(), p.largest_cluster(),
                               p.order_param_largest_clstr(), p.order_param_wrapping(), p.get_pc(),
                               p.get_site_count_wrapping_cluster_pc(), p.get_bond_count_wrapping_cluster_pc()]
     + ([p.get_shortest_path_p()] if hasattr(p, "get_shortest_path_p") else [])),
)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    return a == b


def make_ops(L):
    n = L * L
    whole = [(7 * k + 2) % n for k in range(n)] if n % 7 else [(5 * k + 1) % n for k in range(n)]
    index = lambda ids: [(s // L, s % L) for s in ids]

    def if_new(f):
        def g(p):
            if p.occupation_prob() == 0:
                f(p)
        return g
    return {
        "run": lambda p: p.run_once(),
        "place": ops.place(1),
        "place5": ops.place(5),
        "look": ops.figures,
        "list": if_new(lambda p: p.set_custome_site_id_list(list(whole))),
        "short": if_new(lambda p: p.set_custome_site_id_list([n - 1, 0, n // 2])),
        "index": if_new(lambda p: p.set_custome_site_index_list(index(whole[:n - 2]))),
        "mixed": if_new(lambda p: p.set_custome_site_id_list(list(range(0, n, 2)), do_shuffle=True)),
        "mixed-index": if_new(lambda p: p.set_custome_site_index_list(index(whole), do_shuffle=True)),
        "longer": lambda p: p.set_custome_site_id_list(list(p.get_site_id_sequence()) + [s for s in range(n) if s not in p.get_site_id_sequence()])
        if p.lattice_ref.length and not hasattr(p, "occupied_summary") else None,
        "other": lambda p: type(p)(length=L).run_once(),
        "reset": lambda p: p.reset(),
    }


def run(case, ctx):
    L, cls = case["L"], case["cls"]
    n = L * L
    o = make_ops(L)
    held = []
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=20000 * n)):
        p = env.cls(cls)(length=L)
        for k, name in enumerate(case["hist"]):
            if name == "reset":             # what is read now belongs to a realization that is over
                for what, f in READ:
                    x = f(p)
                    held.append((what, k, x, copy.deepcopy(x)))
            o[name](p)
            ctx.transitions += 1
            for what, at, x, y in held:
                if not same(x, y):
                    raise Violation("%s, side %d, %s: what %s returned before the reset (operation %d) was %s and is %s after operation %d (%s)" % (
                        cls, L, case["hist"], what, at, str(y)[:300], str(x)[:300], k, name))
            ctx.state(cls, L, ops.light(p), len(held))
    ctx.traces += 1


def shrink(case):
    for i in range(len(case["hist"])):
        yield dict(case, hist=case["hist"][:i] + case["hist"][i + 1:])


def families(tier):
    T = tier == "thorough"
    names = sorted(make_ops(3))

    def hists(before, after):
        """up to `before` operations, a reset, up to `after` operations (with resets among them)"""
        for k in range(1, before + 1):
            for a in itertools.product(names, repeat=k):
                if a[-1] == "reset":
                    continue
                for j in range(0, after + 1):
                    for b in itertools.product(names, repeat=j):
                        yield list(a) + ["reset"] + list(b)

    def small():
        for i, h in enumerate(hists(2, 2)):
            for j, c in enumerate(CLASSES):
                if len(h) == 5 and not T and (i + j) % 5:
                    continue
                yield dict(cls=c, L=3, hist=h, tape=i % 5)

    def larger():
        for L in (4, 5, 8):
            for i, h in enumerate(hists(2 if T else 1, 2)):
                for j, c in enumerate(CLASSES):
                    if not T and (i + j) % 3:
                        continue
                    yield dict(cls=c, L=L, hist=h, tape=i % 5)

    def long():
        for L in (3, 6, 12):
            for c in CLASSES:
                for t in range(4):
                    for a in ("run", "place5", "list", "short", "mixed", "mixed-index", "index"):
                        yield dict(cls=c, L=L, hist=[a, "run", "reset", "run", "reset", "place5", "look", "reset", "run", "other", "longer", "run", "reset"] * 2, tape=t)
                    yield dict(cls=c, L=L, hist=["run", "reset"] * 30, tape=t)
        for L in (20, 40) if T else (20,):
            for c in CLASSES:
                yield dict(cls=c, L=L, hist=["run", "reset", "run", "reset", "place5", "reset", "short", "run", "reset"], tape=0)

    return [
        Family("long", "sides 3, 6, 12, 20%s: histories of up to 60 operations" % (", 40" if T else ""), long, run, shrink),
        Family("small", "side 3, all classes: up to 2 operations out of %s, reset, up to 2 more operations%s" % (
            names, "" if T else " (with two before and two after: one class in turn)"), small, run, shrink),
        Family("larger", "sides 4, 5, 8: up to %d operations, reset, up to 2 more" % (2 if T else 1), larger, run, shrink),
    ]
