"""What can be done to a simulation and what it reports: shared by the checks on histories."""
import contextlib
import io
import re

from mc import env, ref
from mc.engine import Violation


# ---------------------------------------------------------------- everything a simulation reports

def _r(x):
    return round(float(x), 9)


def partition(p, n):
    """Clusters of sites and bonds, named by their smallest site / bond, and what the registry says of them."""
    lat, pool = p.lattice_ref, p.cluster_pool_ref
    first = {}
    sites = []
    for s in range(n):
        g = lat.get_site_gid_by_id(s)
        sites.append(first.setdefault(("s", g), s) if g >= 0 else -1)
    bonds = []
    reg = {}
    for b in range(2 * n):
        g = lat.get_bond_gid_by_id(b)
        k = first.setdefault(("b", g), b) if g >= 0 else -1
        bonds.append(k)
        if k == b:
            reg[b] = (tuple(sorted(pool.get_bonds(g))), tuple(sorted(pool.get_sites(g))),
                      pool.get_cluster_bond_count(g), pool.get_cluster_site_count(g))
    return tuple(sites), tuple(bonds), tuple(sorted(reg.items()))


def positions(p, n):
    """Relative positions of the sites of clusters that do not wrap, taken from the smallest member."""
    lat = p.lattice_ref
    L = lat.length
    occ = frozenset(s for s in range(n) if lat.get_site_by_id(s).is_occupied())
    i = ref.info(L, occ)
    out = []
    for k, members in enumerate(i.sites):
        if i.wraps[k]:
            continue
        o = lat.get_site_by_id(min(members)).get_relative_index()
        for s in sorted(members):
            x = lat.get_site_by_id(s).get_relative_index()
            out.append((s, x.row() - o.row(), x.column() - o.column()))
    return tuple(out)


def light(p):
    """The figures, without touching lattice and clusters."""
    return (_r(p.occupation_prob()), _r(p.entropy()), _r(p.order_param_largest_clstr()), _r(p.order_param_wrapping()),
            p.largest_cluster(), _r(p.get_pc()), p.get_site_count_wrapping_cluster_pc(),
            p.get_bond_count_wrapping_cluster_pc())


def tables(p):
    return tuple(tuple(_r(x) for x in a) for a in (
        p.get_occupation_prob_array(), p.get_entropy_array(), p.get_order_param_largest_array(),
        p.get_order_param_wrapping_array()))


def data(p):
    a = p.get_data_array()
    return tuple(tuple(_r(x) for x in row) for row in a)


def sequence(p):
    return tuple(p.get_site_id_sequence()), tuple(tuple(x) for x in p.get_index_sequence())


def figures(p, seq=True):
    n = p.lattice_ref.length ** 2
    out = [p.get_signature(), light(p), _r(p.entropy_v1()), tables(p), partition(p, n), positions(p, n)]
    if seq:
        out.append(sequence(p))
    if hasattr(p, "get_shortest_path_p"):
        out.append(_r(p.get_shortest_path_p()))
    elif hasattr(p, "occupied_summary"):
        out.append(summary(p))
    return tuple(out)


def summary(p):
    """The numbers of the summary the interacting modes print."""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        p.occupied_summary()
    return tuple(int(x) for x in re.findall(r"(-?\d+)\s+times", b.getvalue()))


NAMES = ("signature", "figures (p, H, P1, P2, largest, pc, sites at pc, bonds at pc)", "entropy_v1", "recorded columns",
         "clusters", "relative positions", "site sequence", "p* / summary")


def differ(a, b, names=NAMES):
    """Text on the first difference of two results of figures(), None if equal."""
    if a == b:
        return None
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "%s: %s != %s" % (names[k] if k < len(names) else k, x, y)
    return "%s != %s" % (a, b)


# ---------------------------------------------------------------- operations

def custom(ids, shuffle=False):
    def f(p):
        p.set_custome_site_id_list(list(ids), do_shuffle=shuffle)
    return f


def place(k, detect=True):
    def f(p):
        for _ in range(k):
            p.place_one_site()
            if detect:
                p.detect_wrapping()
    return f


def views(p):
    for m in (0, 1, 2, 3, 4, -1):
        p.viewLattice(m)
    p.viewCluster()
    p.lattice_ref.list_all_sites()
    p.lattice_ref.list_all_bonds()
    p.lattice_ref.print_bonds()
    p.lattice_ref.print_sites()


def lookups(p):
    lat = p.lattice_ref
    n = lat.length ** 2
    for s in range(n):
        lat.get_site_neighbor_of_site(s)
        lat.get_all_neighbor_sites(s)
        lat.get_sites_for_wrapping_test(s)
        bonds = lat.get_neighbor_bonds(s)
        p.get_connected_sites(lat.get_site_by_id(s), bonds)
        for b in bonds:
            p.get_neighbor_site(s, b)
        p.uniqe_gid_bond_neighbors(bonds)
        if hasattr(p, "get_four_neighbor_sites"):
            p.get_four_neighbor_sites(s)


def scans(p):
    lat = p.lattice_ref
    if hasattr(p, "scan_all_rows"):
        p.scan_all_rows()
        p.scan_all_cols()
        p.scan_row_col_of_selected_site(lat.get_site_by_id(0).get_index())
    if hasattr(p, "occupied_summary"):
        p.occupied_summary()
    lat.scan_bonds()
    lat.scan_sites()
    p.test_lattice()
