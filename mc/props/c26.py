"""Every printed view shows the state of that moment."""
import io
import itertools
import re
import sys

from mc import env, fam, ops
from mc.engine import Family, Violation

CLASSES = ("L0", "L1", "L2", "SP", "BASE")


def text_of(f):
    out, old = io.StringIO(), sys.stdout
    sys.stdout = out
    try:
        f()
    finally:
        sys.stdout = old
    return out.getvalue()


def body(text):
    """What stands between the marks of a view, if it has marks."""
    i = text.rfind("BEGIN")
    j = text.rfind("END")
    if i >= 0:
        text = text[i + 5:j if j > i else len(text)]
    return text


def numbers(text):
    return [int(x) for x in re.findall(r"(?<!\d)-?\d+", text)]


def state(p):
    """Everything the accessors answer."""
    lat = p.lattice_ref
    n = lat.length ** 2
    sites, bonds = [], []
    for s in range(n):
        x = lat.get_site_by_id(s)
        sites.append((x.get_id(), lat.get_site_gid_by_id(s), x.get_index().row(), x.get_index().column(),
                      x.get_relative_index().row(), x.get_relative_index().column(), list(lat.get_neighbor_bonds(s))))
    for b in range(2 * n):
        x = lat.get_bond_by_id(b)
        t, r, c = x.get_index()
        bonds.append((x.get_id(), lat.get_bond_gid_by_id(b), t, r, c, list(lat.get_neighbor_sites(b))))
    return sites, bonds


def lattice_view(L, st, mode):
    sites, bonds = st
    n = L * L
    out = []

    def site(s):
        i, g, r, c = sites[s][:4]
        return {0: [r, c], 1: [g, i], 2: [i, r, c]}[mode]

    def bond(b):
        i, g, t, r, c = bonds[b][:5]
        return {0: [r, c], 1: [g, i], 2: [i, r, c]}[mode]

    for r in range(L):
        for c in range(L):
            out += site(r * L + c) + bond(r * L + c)
        for c in range(L):
            out += bond(n + r * L + c)
    return out


def grid(L, st, positions):
    out = list(range(L))
    for r in range(L):
        out.append(r)
        for c in range(L):
            s = st[0][r * L + c]
            out += [s[1]] + ([s[4], s[5]] if positions else [])
    return out


def cut(text, word):
    i = text.find(word)
    return text[i + len(word):] if i >= 0 else text


def judge(p, at, ctx):
    lat = p.lattice_ref
    L = lat.length
    n = L * L
    st = state(p)

    def expect(what, text, want):
        got = numbers(text)
        ctx.transitions += 1
        if got != want:
            k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("%s: %s shows %d numbers, expected %d; number %d is %s, expected %s\n%s" % (
                at, what, len(got), len(want), k, got[k:k + 6], want[k:k + 6], text[:800]))

    for mode in (0, 1, 2):
        expect("viewLattice(%d)" % mode, body(text_of(lambda: p.viewLattice(mode))), lattice_view(L, st, mode))
    expect("viewLattice()", body(text_of(lambda: p.viewLattice())), lattice_view(L, st, 0))
    expect("viewLattice(3)", body(text_of(lambda: p.viewLattice(3))), grid(L, st, True))
    expect("viewLattice(4)", body(text_of(lambda: p.viewLattice(4))), grid(L, st, False))
    expect("list_all_sites()", text_of(lat.list_all_sites), [x for s in st[0] for x in list(s[:6]) + s[6]])
    expect("list_all_bonds()", text_of(lat.list_all_bonds), [x for b in st[1] for x in list(b[:5]) + b[5]])
    expect("print_sites()", text_of(lat.print_sites), [x for s in st[0] for x in [s[0], s[1], s[0]] + s[6]])
    expect("print_bonds()", text_of(lat.print_bonds), [x for b in st[1] for x in [b[0], b[1], b[0]] + b[5]])
    letters = re.findall(r"(?<![A-Za-z])[hv](?![A-Za-z])", body(text_of(lambda: p.viewLattice(0))))
    if letters != (["h"] * L + ["v"] * L) * L:
        raise Violation("%s: viewLattice(0) marks the bonds %s" % (at, "".join(letters)))
    strings(p, st, expect, at)
    clusters(p, st, at, text_of(p.viewCluster))
    ctx.transitions += 1


def strings(p, st, expect, at):
    """The strings of single sites, bonds, indices and clusters: those the views are made of."""
    lat = p.lattice_ref
    for s, (i, g, r, c, x, y, _) in enumerate(st[0]):
        o = lat.get_site_by_id(s)
        text = "\n".join([str(o), o.get_str(), o.get_str(0), o.get_str(1), o.get_str(2), str(o.get_index()), str(o.get_relative_index())])
        expect("the strings of site %d" % s, text, [r, c] * 3 + [g, i] + [i, r, c] + [r, c] + [x, y])
    for b, (i, g, t, r, c, _) in enumerate(st[1]):
        o = lat.get_bond_by_id(b)
        text = "\n".join([str(o), o.get_str(), o.get_str(0), o.get_str(1), o.get_str(2)])
        expect("the strings of bond %d" % b, text, [g, i] + [r, c] * 2 + [g, i] + [i, r, c])
        for z in (o.get_str(), o.get_str(0)):
            if re.findall("[a-z]", z) != ["hv"[t]]:
                raise Violation("%s: get_str(0) of bond %d is %r, its type is %d" % (at, b, z, t))
    ns, nb = {}, {}
    for s in st[0]:
        ns[s[1]] = ns.get(s[1], 0) + 1
    for b in st[1]:
        nb[b[1]] = nb.get(b[1], 0) + 1
    for g in sorted(set(nb) | set(ns) - {-1}):
        o = p.cluster_pool_ref.get_cluster(g)
        expect("the string of cluster %d" % g, str(o), [g, g, ns.get(g, 0), nb.get(g, 0)])
        if o.is_empty() or o.get_id() != g or o.get_gid() != g:
            raise Violation("%s: cluster %d says it is empty or another one: %s" % (at, g, o))


def clusters(p, st, at, text):
    """Each label in use is shown once: label twice (id, gid), number of sites, sites, number of bonds, bonds."""
    want = {}
    for s in st[0]:
        if s[1] >= 0:
            want.setdefault(s[1], ([], []))[0].append(s[0])
    for b in st[1]:
        if b[1] >= 0:
            want.setdefault(b[1], ([], []))[1].append(b[0])
    x = numbers(text)

    def bad(why):
        raise Violation("%s: viewCluster() %s\n%s" % (at, why, text[:1200]))

    seen = {}
    i = 0
    try:
        while i < len(x) - 1:
            k, g, ns = x[i:i + 3]
            sites = x[i + 3:i + 3 + ns]
            i += 3 + ns
            nb = x[i]
            bonds = x[i + 1:i + 1 + nb]
            i += 1 + nb
            if g in seen:
                bad("shows the cluster %d twice" % g)
            seen[g] = (sites, bonds)
            if g not in want:
                bad("shows a cluster %d, no site or bond carries this label" % g)
            if sorted(sites) != want[g][0] or len(sites) != ns:
                bad("shows %d sites %s in cluster %d, these carry its label: %s" % (ns, sites, g, want[g][0]))
            if sorted(bonds) != want[g][1] or len(bonds) != nb:
                bad("shows %d bonds %s in cluster %d, these carry its label: %s" % (nb, bonds, g, want[g][1]))
    except (ValueError, IndexError):
        bad("is not a list of clusters with label, counts and members")
    if set(seen) != set(want):
        bad("shows the clusters %s, those in use are %s" % (sorted(seen), sorted(want)))
    if i != len(x) - 1 or x[-1] != len(want):
        bad("states %s clusters, there are %d" % (x[i:], len(want)))


def run(case, ctx):
    """hist: operations; the views are judged after each of them (from `from` on)."""
    L, cls = case["L"], case["cls"]
    n = L * L
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=50000 * n)):
        p = env.cls(cls)(length=L)
        if case.get("order"):
            p.set_custome_site_id_list(list(case["order"]))
        if case.get("from", 0) <= 0:
            judge(p, "%s, side %d, new" % (cls, L), ctx)
        for k, (op, times) in enumerate(case["hist"]):
            for _ in range(times):
                if op == "step":
                    p.place_one_site()
                    p.detect_wrapping()
                elif op == "blind":
                    p.place_one_site()
                elif op == "run":
                    p.run_once()
                elif op == "reset":
                    p.reset()
            if k + 1 >= case.get("from", 0):
                judge(p, "%s, side %d, %s, after %s" % (cls, L, "order %s" % case["order"] if case.get("order") else "tape %d" % case["tape"], case["hist"][:k + 1]), ctx)
            ctx.state(cls, L, ops.light(p), tuple(x.get_gid() for x in (p.lattice_ref.get_site_by_id(s) for s in range(min(n, 40)))))
    ctx.traces += 1


def shrink(case):
    for i in range(len(case["hist"])):
        yield dict(case, hist=case["hist"][:i] + case["hist"][i + 1:])


def families(tier):
    T = tier == "thorough"

    def sets():
        for j, order in enumerate(fam.chains(9)):
            for c in ("L0", "SP") if j % 2 else ("BASE", "L0"):
                yield dict(cls=c, L=3, order=list(order), hist=[["step" if (j + T) % 3 else "blind", 1]] * len(order), tape=0)
        for o in itertools.permutations(range(9), 3):
            rest = [s for s in range(9) if s not in o]
            yield dict(cls=("L0", "SP")[sum(o) % 2], L=3, order=list(o) + rest, hist=[["step", 1]] * 9, tape=0)

    def tapes():
        for L in (3, 4, 5, 6) + ((7, 9) if T else ()):
            for c in CLASSES:
                for t in range(6 if T else 3):
                    yield dict(cls=c, L=L, order=None, hist=[["step", 1]] * (L * L) + [["run", 1], ["reset", 1], ["step", L], ["reset", 1], ["run", 1]], tape=t)

    def wide():
        for L in (8, 11, 16, 33) + ((40, 60, 101) if T else ()):
            for c in CLASSES:
                k = L * L // 3
                yield dict(cls=c, L=L, order=None, hist=[["step", k], ["step", k], ["run", 1], ["reset", 1], ["step", L]], tape=L % 3)
            # a long row and a long column: relative positions of two digits and signs
            row = [s for s in range(L * L) if s // L == L // 2][::-1]
            col = [s for s in range(L * L) if s % L == 1][::-1]
            yield dict(cls="L0", L=L, order=row, hist=[["step", L - 1], ["step", 1]], tape=0)
            yield dict(cls="SP", L=L, order=col, hist=[["step", L - 1], ["step", 1]], tape=0)

    def long():
        # lines of more than 100 sites: relative positions of three digits and a sign
        for L, m in ((130, 112),) + (((260, 120),) if T else ()):
            row = [s for s in range(L * L) if s // L == L // 2][::-1][:m]
            col = [s for s in range(L * L) if s % L == 1][::-1][:m]
            for c, o in (("L0", row), ("SP", col), ("BASE", row[::-1]), ("L0", col[::-1])):
                yield dict(cls=c, L=L, order=o, hist=[["step", m]], tape=0, **{"from": 1})

    def orders():
        for j, order in enumerate(itertools.chain(fam.chains(16))):
            if not T and j % 9:
                continue
            yield dict(cls=("L0", "SP", "BASE")[j % 3], L=4, order=list(order), hist=[["step", 1]] * len(order), tape=0)

    return [
        Family("wide", "sides 8-33%s: all views at several moments of runs, resets and later runs, all classes" % (" (101)" if T else ""), wide, run, shrink),
        Family("long", "side 130%s: straight lines of more than 100 sites, in both directions" % (", 260" if T else ""), long, run, shrink),
        Family("sets", "side 3: every occupied set (symmetric chains), all orders of three sites, completed; all views after every placement", sets, run, shrink),
        Family("tapes", "sides 3-6%s: runs under fixed draws, resets, later runs, all classes" % (", 7, 9" if T else ""), tapes, run, shrink),
        Family("orders-L4", "side 4: symmetric chains of occupied sets (%s)" % ("all" if T else "every ninth"), orders, run, shrink),
    ]
