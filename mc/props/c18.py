"""Queries and views inserted anywhere into a history: no error, and everything afterwards as without them."""
import contextlib
import io
import itertools

from mc import env, fam, ops
from mc.engine import Family, Violation


# ---------------------------------------------------------------- the questions

def _norm(x):
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return round(x, 9)
    if isinstance(x, dict):
        return tuple(sorted((_norm(a), _norm(b)) for a, b in x.items()))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(_norm, x)))
    if isinstance(x, (list, tuple)):
        return tuple(_norm(y) for y in x)
    if hasattr(x, "tolist"):
        return _norm(x.tolist())
    if hasattr(x, "row") and hasattr(x, "column"):
        r, c = x.row, x.column
        return (r() if callable(r) else r, c() if callable(c) else c)
    return type(x).__name__


def getter(name, *args):
    return lambda p: getattr(p, name)(*args)


def lat_all(name):
    """A lattice query for every site."""
    return lambda p: [getattr(p.lattice_ref, name)(s) for s in range(p.lattice_ref.length ** 2)]


def lat_bonds(name):
    return lambda p: [getattr(p.lattice_ref, name)(b) for b in range(2 * p.lattice_ref.length ** 2)]


def lat(name, *args):
    return lambda p: getattr(p.lattice_ref, name)(*args)


def sites(f):
    return lambda p: [f(p.lattice_ref.get_site_by_id(s)) for s in range(p.lattice_ref.length ** 2)]


def bonds(f):
    return lambda p: [f(p.lattice_ref.get_bond_by_id(b)) for b in range(2 * p.lattice_ref.length ** 2)]


def pool(f):
    return lambda p: [f(p.cluster_pool_ref, g) for g in range(2 * p.lattice_ref.length ** 2)]


def pairs(f):
    def g(p):
        l = p.lattice_ref
        return [f(p, s, t) for s in range(l.length ** 2) for t in l.get_site_neighbor_of_site(s)]
    return g


def by_index(p):
    l = p.lattice_ref
    I = env.module("source_py.simulation.index").Index
    out = []
    for r in range(l.length):
        for c in range(l.length):
            out += [l.get_id_from_index(r, c), l.calculate_id_from_index((r, c)), l.get_site_by_index(I(r, c)).get_id(),
                    l.get_site_gid_by_index(I(r, c)), l.get_bond_by_index(r, c, 0).get_id(), l.get_bond_by_index(r, c, 1).get_id(),
                    l.get_row_str(r, c % 3), l.get_row_v_str(r, c % 3)]
    return out


def arithmetic(p):
    idx = env.module("source_py.simulation.index")
    l = p.lattice_ref
    out = []
    a = [l.get_site_by_id(s).get_index() for s in range(l.length ** 2)]
    b = [l.get_site_by_id(s).get_relative_index() for s in range(l.length ** 2)]
    for x, y in zip(a, a[1:]):
        out += [x + y, x - y, str(x), x.as_list()]
    for x, y in zip(b, b[1:]):
        out += [str(x), x.x_coord(), idx.RelativeIndex(index=x - y).y_coord()]
        p.get_change_in_relative_index(x, y)
        p.wrapping_correction_relative_index(idx.RelativeIndex(index=x))
    return out


def connected(p):
    l = p.lattice_ref
    return [p.get_connected_sites(l.get_site_by_id(s), l.get_neighbor_bonds(s)) for s in range(l.length ** 2)]


def neighbor_by_bond(p):
    l = p.lattice_ref
    return [p.get_neighbor_site(s, b) for s in range(l.length ** 2) for b in l.get_neighbor_bonds(s)]


def only(name, f):
    """Questions that only some classes answer."""
    f.needs = name
    return f


def full_scan(p):
    return [p.scan_row_col_of_selected_site(p.lattice_ref.get_site_by_id(s).get_index()) for s in range(p.lattice_ref.length ** 2)]


def wrap_index(p):
    I = env.module("source_py.simulation.index").Index
    return [p.correct_index_for_periodicity(I(r, c)) for r in range(-1, p.lattice_ref.length + 1) for c in (-1, 0, p.lattice_ref.length)]


QUERIES = dict(
    {n: getter(n) for n in (
        "get_pc", "get_site_count_wrapping_cluster_pc", "get_bond_count_wrapping_cluster_pc", "get_order_param_wrapping_array",
        "get_order_param_largest_array", "get_entropy_array", "get_occupation_prob_array", "get_data_array", "get_site_id_sequence",
        "get_index_sequence", "get_signature", "occupation_prob", "entropy", "entropy_v1", "entropy_v2", "largest_cluster",
        "order_param_largest_clstr", "order_param_wrapping", "viewCluster", "detect_wrapping")},
    **{"viewLattice(%d)" % m: getter("viewLattice", m) for m in (-1, 0, 1, 2, 3, 4, 5)},
    **{"lattice." + n: lat_all(n) for n in (
        "get_neighbor_bonds", "get_site_neighbor_of_site", "get_sites_for_wrapping_test", "get_all_neighbor_sites", "find_neighbor_bonds",
        "bottom_bond_of_site", "top_bond_of_site", "right_bond_of_site", "left_bond_of_site", "get_row_col_from_id", "get_site_gid_by_id")},
    **{"lattice." + n: lat_bonds(n) for n in ("get_neighbor_sites", "get_bond_gid_by_id")},
    **{"lattice." + n: lat(n) for n in (
        "list_all_sites", "list_all_bonds", "scan_sites", "scan_bonds", "print_bonds", "print_sites", "get_site_id_list", "get_bond_id_list",
        "view_relative_index", "view_site_gids", "print_row_separator")},
    **{
        "lattice.by_index": by_index, "index arithmetic": arithmetic,
        "get_connected_sites": connected, "get_neighbor_site": neighbor_by_bond,
        "get_bond_gids": lambda p: sorted(p.get_bond_gids(list(range(2 * p.lattice_ref.length ** 2)))),
        "get_site_gids": lambda p: sorted(p.get_site_gids(list(range(p.lattice_ref.length ** 2)))),
        "uniqe_gid_bond_neighbors": lambda p: [p.uniqe_gid_bond_neighbors(list(p.lattice_ref.get_neighbor_bonds(s))) for s in range(p.lattice_ref.length ** 2)],
        "get_relative_index": pairs(lambda p, s, t: p.get_relative_index(s, t)),
        "distance": pairs(lambda p, s, t: p.lattice_ref.distance_btn_sites(p.lattice_ref.get_site_by_id(s), p.lattice_ref.get_site_by_id(t))),
        "site strings": sites(lambda s: (str(s), s.get_str(0), s.get_str(1), s.get_str(2))),
        "site state": sites(lambda s: (s.get_gid(), s.get_id(), s.is_occupied(), s.get_index(), s.get_relative_index(), s.connecting_bonds(), s.get_nn_count(), s.is_removable(), s.is_removable(1), s.is_removable(2))),
        "bond strings": bonds(lambda b: (str(b), b.get_str(0), b.get_str(1), b.get_str(2))),
        "bond state": bonds(lambda b: (b.get_gid(), b.get_id(), b.get_index(), b.connected_sites())),
        "cluster lists": pool(lambda c, g: (c.get_sites(g), c.get_bonds(g), c.get_cluster_bond_count(g), c.get_cluster_site_count(g))),
        "cluster objects": pool(lambda c, g: (str(c.get_cluster(g)), c.get_cluster(g).view(), c.get_cluster(g).is_empty(), c.get_cluster(g).get_id(), c.get_cluster(g).get_gid())),
        "no such cluster": lambda p: p.cluster_pool_ref.get_cluster(2 * p.lattice_ref.length ** 2),
        "four neighbours": only("get_four_neighbor_sites", lambda p: [p.get_four_neighbor_sites(s) for s in range(p.lattice_ref.length ** 2)]),
        "occupied_summary": only("occupied_summary", getter("occupied_summary")),
        "correct_index": only("correct_index_for_periodicity", wrap_index),
        "scan_all_rows": only("scan_all_rows", getter("scan_all_rows")),
        "scan_all_cols": only("scan_all_cols", getter("scan_all_cols")),
        "scan_row_col": only("scan_row_col_of_selected_site", full_scan),
        "get_shortest_path_p": only("get_shortest_path_p", getter("get_shortest_path_p")),
    })
NAMES = sorted(QUERIES)
GETTERS = {q for q in QUERIES if not q.startswith("lattice.") and "get_" + q[4:] == q} | {"entropy_v1", "entropy_v2", "largest_cluster"}


def has(cls, q):
    """Whether the class has this method at all."""
    name = getattr(QUERIES[q], "needs", q.split("(")[0])
    if name.startswith("lattice.") and name != "lattice.by_index":
        return hasattr(env.module("source_py.simulation.lattice").Lattice, name[8:])
    if q in GETTERS or hasattr(QUERIES[q], "needs"):
        return hasattr(env.cls(cls), name)
    return True


def ask(p, q, at):
    """The answer and what is printed."""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            r = _norm(QUERIES[q](p))
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s: asking %s raised %s: %s" % (at, q, type(e).__name__, e))
    return r, buf.getvalue()


# ---------------------------------------------------------------- histories

def act(p, a):
    """One action; its answer."""
    if a == "P":
        return bool(p.place_one_site())
    if a == "D":
        return bool(p.detect_wrapping())
    if a == "R":
        p.reset()
    elif a == "run":
        p.run_once()
    elif a == "shuffled":
        p.set_custome_site_id_list([1, 4, 5, 7, 8, 2], do_shuffle=True)
    elif isinstance(a, (list, tuple)):
        p.set_custome_site_id_list(list(a))


_plain = {}


def everything(p, cls, asked=True):
    out = [ops.figures(p)]
    if asked:
        out += [(q, ask(p, q, "at the end")) for q in NAMES if has(cls, q) and q != "detect_wrapping"]
    return out


def plain(cls, L, hist, tape, upto):
    """Figures after the first `upto` actions, the answers so far and the number of draws, without any question."""
    key = (cls, L, str(hist), tape, upto)
    if key not in _plain:
        if len(_plain) > 4000:
            _plain.clear()
        t = env.Tape((), env.fair_tape(tape), limit=10 ** 5)
        with env.use_tape(t):
            p = env.cls(cls)(length=L)
            ans = [act(p, a) for a in hist[:upto]]
            n = len(t.trace)
            _plain[key] = (everything(p, cls), ans, n)
    return _plain[key]


def compare(p, want, got_ans, cls, trace, what, final):
    fig, ans, draws = want
    now = ops.figures(p)
    d = ops.differ(fig[0], now)
    if d:
        raise Violation("%s: without / with the questions: %s" % (what, d))
    if got_ans != ans:
        raise Violation("%s: answers of the actions without the questions %s, with them %s" % (what, ans, got_ans))
    if trace is not None and len(trace) != draws:
        raise Violation("%s: %d random draws without the questions, %d with them" % (what, draws, len(trace)))
    if final:
        for x, y in zip(fig[1:], everything(p, cls)[1:]):
            if x != y:
                raise Violation("%s: later answer of %s differs: %s" % (what, x[0], _first(x[1], y[1])))


def _first(a, b):
    return "returned %s instead of %s" % (b[0], a[0]) if a[0] != b[0] else "other text is printed"


def run(case, ctx):
    L, cls, hist = case["L"], case["cls"], case["hist"]
    asked = {int(k): v for k, v in case["ask"].items()} if isinstance(case["ask"], dict) else None
    stop = case.get("stop", len(hist))
    what = "%s, side %d, history %s, questions %s (from tape %d)" % (cls, L, hist[:stop], case["ask"], case.get("tape", 0))
    t = env.Tape((), env.fair_tape(case.get("tape", 0)), limit=10 ** 5)
    with env.use_tape(t):
        p = env.cls(cls)(length=L)
        ans = []
        for i in range(stop + 1):
            qs = asked.get(i, ()) if asked is not None else [q for q in NAMES if has(cls, q)]
            for q in qs:
                if q == "detect_wrapping" and not allowed(hist, i):
                    continue
                before = len(t.trace)
                where = "%s, side %d, after %s" % (cls, L, hist[:i])
                a = ask(p, q, where)
                if len(t.trace) != before:
                    raise Violation("%s: asking %s draws random numbers" % (where, q))
                b = ask(p, q, where + ", asked again")
                if a != b:
                    raise Violation("%s: asked twice, %s answers differently: %s" % (where, q, _first(a, b)))
                ctx.transitions += 2
                ctx.state(cls, L, str(hist[:i]), q)
            if i < stop:
                ans.append(act(p, hist[i]))
        compare(p, plain(cls, L, hist, case.get("tape", 0), stop), ans, cls, t.trace, what, case.get("final", True))
    ctx.traces += 1


def allowed(hist, i):
    """detect_wrapping is a mere question when the last placement has already been followed by a detection."""
    for a in reversed(hist[:i]):
        if a == "P":
            return False
        if a in ("D", "R", "run"):
            return True
    return True


def shrink(case):
    if isinstance(case["ask"], dict):
        for k, v in case["ask"].items():
            for j in range(len(v)):
                r = {x: list(y) for x, y in case["ask"].items()}
                r[k] = v[:j] + v[j + 1:]
                yield dict(case, ask=r)
    else:
        n = len(case["hist"]) + 1
        for q in NAMES:
            if has(case["cls"], q):
                yield dict(case, ask={str(i): [q] for i in range(n)})


def pd(k):
    return ["P", "D"] * k


def families(tier):
    T = tier == "thorough"
    diag = [0, 4, 8, 1, 5, 6, 2, 3, 7]
    hs = {
        "L0": [[diag] + pd(9) + ["P"], [[3, 4, 1]] + pd(3) + ["P", "D", [3, 4, 1, 5, 0]] + pd(2) + ["R"] + pd(2),
               pd(4) + ["R"] + pd(4), ["run", "R", "run", "R", "P"], ["shuffled"] + pd(3) + ["R"] + pd(4), ["P", "P", "P", "P", "D", "P", "D", "R", "D", "P", "D"],
               [[0, 1, 2, 6, 7, 8]] + ["P"] * 6 + ["D", "R", "run"]],
        "BASE": [pd(5) + ["R"] + pd(5), [diag[::-1]] + ["P"] * 9 + ["R", "run"]],
        "L1": [pd(14) + ["R"] + pd(8), ["run", "R", "P", "D", "run"], ["P"] * 30],
        "L2": [pd(14) + ["R"] + pd(8), ["run", "R", "P", "D", "run"], ["P"] * 30],
        "SP": [["run", "R", "run", "R", "P"], [[1, 4, 7, 0]] + pd(3) + ["run", "R", "run"], [[0, 1, 3, 4]] + ["run", "R"] + pd(4) + ["run"]],
    }

    def one():
        for c in hs:
            for t, h in enumerate(hs[c]):
                for q in NAMES:
                    if not has(c, q):
                        continue
                    for i in range(len(h) + 1):
                        yield dict(cls=c, L=3, hist=h, tape=t, ask={str(i): [q]}, stop=i, final=False)       # right after it
                        yield dict(cls=c, L=3, hist=h, tape=t, ask={str(i): [q]}, final=(i % 4 == 0 or T))   # at the end

    def every():
        """Each single question at all points."""
        for c in hs:
            for t, h in enumerate(hs[c]):
                for q in NAMES:
                    if has(c, q):
                        yield dict(cls=c, L=3, hist=h, tape=t, ask={str(i): [q, q] for i in range(len(h) + 1)})

    def two():
        for c in hs:
            h = hs[c][0]
            for a, b in itertools.permutations([q for q in NAMES if has(c, q)], 2):
                yield dict(cls=c, L=3, hist=h, tape=0, ask={str(i): [a, b] for i in range(0, len(h) + 1, 3)})

    def all_at_all():
        i = 0
        for k in (1, 2, 3, 4) if T else (1, 2, 3):
            for o in fam.prefixes(9, k):
                i += 1
                yield dict(cls=("L0", "BASE", "SP")[i % 3], L=3, hist=[o] + pd(k) + (["R"] + pd(k) if i % 2 else []), tape=0, ask="all")
        for o in itertools.islice(fam.prefixes(9, 5, True), 0, None, 5 if T else 30):
            i += 1
            yield dict(cls=("L0", "BASE", "SP")[i % 3], L=3, hist=[o] + pd(9), tape=0, ask="all")
        for L, gens in ((4, [fam.walks(4, 2), fam.patterns(4)]), (5, [itertools.islice(fam.rings(5, (-1, 0, 1, 2)), 0, None, 4 if T else 40), fam.patterns(5)])):
            for o in itertools.chain(*gens):
                i += 1
                yield dict(cls=("L0", "SP")[i % 2], L=L, hist=[list(o)] + pd(len(o)), tape=0, ask="all")
        for L, m in ((3, 30 if not T else 300), (4, 8 if not T else 60), (5, 2 if not T else 10)):
            for t in range(m):
                for c in ("L0", "L1", "L2", "SP", "BASE"):
                    yield dict(cls=c, L=L, hist=["P", "D"] * (3 * L * L) + ["R"] + ["P"] * (L * L) + ["D", "run", "R", "run"], tape=t, ask="all")
                    yield dict(cls=c, L=L, hist=["run", "R", "run", "R", "D", "P", "P", "R"], tape=t, ask="all")

    def histories():
        """All short histories of actions, all questions everywhere."""
        alphabet = ["P", "D", "R", "run", [4, 3, 5, 0], "shuffled"]
        for k in range(1, (4 if not T else 6) + 1):
            for j, h in enumerate(itertools.product(alphabet, repeat=k)):
                placed = False
                for a in h:
                    if a in ("P", "run"):
                        placed = True
                    elif a == "R":
                        placed = False
                    elif a != "D" and placed:
                        break
                else:
                    for c in (("L0", "BASE")[j % 2], "SP", "L1", "L2"):
                        yield dict(cls=c, L=3, hist=list(h), tape=k, ask="all")

    fams = [
        Family("one", "%d questions x every point of %d histories, all classes: figures right after it, and at the end of the history" % (len(NAMES), sum(map(len, hs.values()))), one, run, shrink),
        Family("every-point", "each question (twice) at every point of the same histories", every, run, shrink),
        Family("all", "all questions at every point: all ordered lists of up to %d sites, full orders, induced paths, rings, random tapes in all modes, sides 3-5" % (4 if T else 3), all_at_all, run, shrink),
        Family("histories", "all questions at every point of all histories of up to %d actions (place, detect, reset, run, list, shuffled list)" % (6 if T else 4), histories, run, shrink),
    ]
    if T:
        fams.append(Family("two", "every ordered pair of questions at every third point of one history per class", two, run, shrink))
    return fams
