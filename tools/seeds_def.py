"""Planted bugs: edits of /repo, and demonstrations (run with cwd = the repository)."""
PSL = "source_py/simulation/percolation_sq_lattice.py"
L1L2 = "source_py/simulation/percolation_sq_lattice_L1L2.py"
SPP = "source_py/simulation/percolation_sq_lattice_shortest_path.py"
LAT = "source_py/simulation/lattice.py"
SITE = "source_py/simulation/site.py"
CLU = "source_py/simulation/cluster.py"
ENS = "run_py/ensemble.py"
RUN = "run_py/rsbd_percolatioin_run.py"
SPR = "run_py/shortest_path_run.py"
LINES = "source_py/analyze/lines.py"

SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


QUIET = '''
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)

from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0 as L0

def labels(p):
    n = p.lattice_ref.length ** 2
    return [p.lattice_ref.get_site_gid_by_id(s) for s in range(n)]

def with_list(C, L, ids):
    p = quiet(C, length=L)
    quiet(p.set_custome_site_id_list, ids)
    return p
'''

seed("C01-union-by-size", "C01",
     "after wrapping, a placement that joins the wrapping cluster with a larger cluster",
     "clusters are merged into the larger one, but the caller assumes the label of the wrapping cluster persists: the placed site and the members of the merged cluster carry different labels",
     [(CLU, """        gid = self.cluster_list[cluster_A_id].get_gid()
        # print("cluster ", cluster_A_id, " gid ", gid)
        for bb in self.cluster_list[cluster_B_id].bond_ids:""",
       """        bigger = max(cluster_A_id, cluster_B_id, key=self.get_cluster_site_count)
        gid = self.cluster_list[bigger].get_gid()
        if bigger == cluster_B_id:
            # relabel the smaller one
            for ss in self.cluster_list[cluster_A_id].site_ids:
                lattice_ref.set_site_gid_by_id(ss, gid)
        # print("cluster ", cluster_A_id, " gid ", gid)
        for bb in self.cluster_list[cluster_B_id].bond_ids:""")],
     QUIET + '''
L = 6
ring = [0, 1, 2, 3, 4, 5]
blob = [12, 13, 14, 15, 16, 18, 19, 20, 21, 22]
p = with_list(L0, L, ring + blob + [6, 17, 23])
while quiet(p.place_one_site):
    quiet(p.detect_wrapping)
occ = [g for g in labels(p) if g >= 0]
lab = set(occ)
print("labels of one connected cluster:", lab)
b = {p.lattice_ref.get_bond_gid_by_id(x) for s in range(L * L) if p.lattice_ref.get_site_gid_by_id(s) >= 0 for x in p.lattice_ref.get_neighbor_bonds(s)}
sys.exit(0 if len(lab) == 1 and b == lab else 1)
''')

seed("C02-append-to-longer", "C02",
     "after wrapping, the wrapping cluster absorbs a cluster with more bonds",
     "the shorter list is appended to the longer one, which both clusters then share; clearing the absorbed cluster empties it",
     [(CLU, """        self.cluster_list[cluster_A_id].bond_ids += self.cluster_list[cluster_B_id].bond_ids
""", """        a, b = self.cluster_list[cluster_A_id], self.cluster_list[cluster_B_id]
        if len(b.bond_ids) > len(a.bond_ids):
            b.bond_ids += a.bond_ids
            a.bond_ids = b.bond_ids
        else:
            a.bond_ids += b.bond_ids
"""),
      (CLU, """    def clear(self):
        self.site_ids = []
        self.bond_ids = []
""", """    def clear(self):
        self.site_ids.clear()
        self.bond_ids.clear()
""")],
     QUIET + '''
L = 6
p = with_list(L0, L, [0, 1, 2, 3, 4, 5] + [12, 13, 14, 15, 16, 18, 19, 20, 21, 22] + [6])
try:
    while quiet(p.place_one_site):
        quiet(p.detect_wrapping)
except ValueError as e:
    print(e)
bonds = sum(p.cluster_pool_ref.get_cluster_bond_count(i) for i in range(2 * L * L))
sites = sum(p.cluster_pool_ref.get_cluster_site_count(i) for i in range(2 * L * L))
print(bonds, "bonds of", 2 * L * L, "and", sites, "sites of 17")
sys.exit(0 if (bonds, sites) == (2 * L * L, 17) else 1)
''')

seed("C03-side-three", "C03",
     "the smallest lattice (side 3)",
     "relative positions two steps apart are taken for ordinary neighbours",
     [(PSL, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if max(abs(delta_x), abs(delta_y)) > 2:")],
     QUIET + '''
p = with_list(L0, 3, [0, 1, 2])
got = []
while quiet(p.place_one_site):
    got.append(quiet(p.detect_wrapping))
print(got)
sys.exit(0 if got == [False, False, True] else 1)
''')

seed("C04-rows-as-count", "C04",
     "placing and detecting step by step instead of calling run_once",
     "the critical point is computed from the number of recorded rows",
     [(PSL, "                self.pc_occupied_site_count = self.occupied_site_count\n", "                self.pc_occupied_site_count = len(self.entropy_list) + 1\n")],
     QUIET + '''
p = with_list(L0, 4, [0, 1, 2, 3])
while quiet(p.place_one_site):
    quiet(p.detect_wrapping)
print(quiet(p.get_pc))
sys.exit(0 if quiet(p.get_pc) == 0.25 else 1)
''')

seed("C05-largest-is-wrapping", "C05",
     "a site joins the wrapping cluster while another cluster is larger",
     "the largest-cluster order parameter falls to the size of the wrapping cluster",
     [(PSL, "        if new_size > self.largest_cluster_sz:", "        if new_size > self.largest_cluster_sz or (self.after_wrapping and new_cluster == self.wrapping_cluster_id):")],
     QUIET + '''
L = 6
p = with_list(L0, L, [12, 13, 14, 15, 16, 18, 19, 20, 21, 22] + [0, 1, 2, 3, 4, 5] + [35])
last, ok = 0, True
while quiet(p.place_one_site):
    quiet(p.detect_wrapping)
    x = p.order_param_largest_clstr()
    ok = ok and x >= last
    last = x
print("order parameter of the largest cluster", "never falls" if ok else "falls")
sys.exit(0 if ok else 1)
''')

seed("C06-late-restart", "C06",
     "asking for the entropy after a reset, before the first placement",
     "the entropy of the full lattice of the previous run is reported for the empty one",
     [(PSL, "        self.entropy_value = self.max_entropy\n        self.occupied_site_count = 0\n", "        self.occupied_site_count = 0\n"),
      (PSL, """        H = 0
        for gg in gids:""", """        H = 0
        if self.occupied_site_count == 1:
            self.entropy_value = self.max_entropy
        for gg in gids:""")],
     QUIET + '''
import math
p = quiet(L0, length=4, seed=3)
quiet(p.run_once)
quiet(p.reset)
print(p.entropy(), math.log(32))
sys.exit(0 if abs(p.entropy() - math.log(32)) < 1e-9 else 1)
''')

seed("C07-folded", "C07",
     "a cluster that winds more than once round the lattice as a helix without closing",
     "relative positions are folded back into a window of two lattice sides on either side",
     [(PSL, """        new_relative_index = old_relative_index + idx
        # print("new_relative_index type ", type(new_relative_index))
        # print("new_relative_index type ", type(RelativeIndex(index=new_relative_index)))
        return RelativeIndex(index=new_relative_index)""", """        new_relative_index = old_relative_index + idx
        bound = 2 * self.lattice_ref.length
        fold = lambda v: (v + bound) % (2 * bound) - bound
        # print("new_relative_index type ", type(new_relative_index))
        # print("new_relative_index type ", type(RelativeIndex(index=new_relative_index)))
        return RelativeIndex(fold(new_relative_index.row()), fold(new_relative_index.column()))""")],
     QUIET + '''
# a helix on side 10: a turn is nine sites to the right and two down
L = 10
path, c = [], 0
for r in range(0, L - 1, 2):
    path += [(r, (c + k) % L) for k in range(L - 1)]
    c += L - 2
    path.append((r + 1, c % L))
path = path[:-1]
ids = [a * L + b for a, b in path]
p = with_list(L0, L, ids)
while quiet(p.place_one_site):
    pass
pos = [p.lattice_ref.get_site_by_id(s).get_relative_index().as_list() for s in ids]
steps = {(b[0] - a[0], b[1] - a[1]) for a, b in zip(pos, pos[1:])}
print(steps)
sys.exit(0 if steps <= {(0, 1), (1, 0)} else 1)
''')

seed("C08-sorted-bonds", "C08",
     "asking for the neighbours of a site on the left or upper edge after it was placed",
     "placing a site reorders its list of bonds: the neighbours no longer come in the order right, below, left, above",
     [(PSL, """        gids = []
        unique_bond_ids = []
        for bb in bond_neighbors:""", """        gids = []
        unique_bond_ids = []
        bonds = bond_neighbors
        bonds.sort()
        for bb in bonds:""")],
     QUIET + '''
p = quiet(L0, length=4)
before = [list(p.lattice_ref.get_all_neighbor_sites(s)) for s in range(16)]
quiet(p.run_once)
after = [list(p.lattice_ref.get_all_neighbor_sites(s)) for s in range(16)]
print([s for s in range(16) if before[s] != after[s]])
sys.exit(0 if before == after else 1)
''')

seed("C09-sattolo", "C09",
     "statistics of the shuffled orders",
     "the shuffle never leaves a site where it was: many orders cannot occur",
     [(PSL, """            random.shuffle(self.site_ids_indices)
            # print("id order : ", self.site_ids_indices)""",
       """            for i in range(len(self.site_ids_indices) - 1, 0, -1):
                j = random.randrange(i)
                self.site_ids_indices[i], self.site_ids_indices[j] = self.site_ids_indices[j], self.site_ids_indices[i]
            # print("id order : ", self.site_ids_indices)""")],
     QUIET + '''
import random
random.seed(5)
seen = {quiet(L0, length=3).get_site_id_sequence()[8] for _ in range(400)}
print(sorted(seen))
sys.exit(0 if len(seen) == 9 else 1)
''')

seed("C10-negative-ids", "C10",
     "a list with a negative identifier that is not the first",
     "only the first identifier is compared with the lower bound; negative ones are counted from the end of the lattice",
     [(PSL, "        if max(site_id_list) > max_index or min(site_id_list) < min_index:", "        if max(site_id_list) > max_index or site_id_list[0] < min_index:")],
     QUIET + '''
p = quiet(L0, length=4, seed=1)
before = list(p.get_site_id_sequence())
quiet(p.set_custome_site_id_list, [3, -2, 5])
print(p.get_site_id_sequence())
sys.exit(0 if list(p.get_site_id_sequence()) == before else 1)
''')

seed("C11-used-candidates", "C11",
     "a second realization of an L1 simulation on the same object",
     "the reset keeps the list of candidates of the previous realization, in which dropped sites are missing and others are doubled: some sites cannot be drawn any more",
     [(L1L2, """        super(SitePercolationL1, self).reset()
        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
""", """        super(SitePercolationL1, self).reset()
""")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
p = quiet(L1, length=3, seed=5)
quiet(p.run_once)
first = set()
for _ in range(500):
    quiet(p.reset)
    quiet(p.place_one_site)
    first |= {s for s, g in enumerate(labels(p)) if g >= 0}
print("first sites of later realizations:", sorted(first))
sys.exit(0 if len(first) == 9 else 1)
''')

seed("C12-upper-edge", "C12",
     "L2 mode: the step from the first row upwards (or from the first column to the left) behind an occupied neighbour",
     "the site behind the boundary is computed by reflection instead of periodically",
     [(L1L2, "        row = index.row() % self.lattice_ref.length\n", "        row = abs(index.row()) % self.lattice_ref.length\n")],
     QUIET + '''
import copy, random
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2 as L2
# sites 7 and 2 (above it) are occupied on side 5; trials on 7 can lead to 6, 8, 12 and, straight on over the edge, 22
random.seed(4)
while True:
    p = with_list(L2, 5, [7, 2])
    quiet(p.place_one_site)
    while p.occupation_prob() < 2 / 25 - 1e-9:
        quiet(p.place_one_site)
    if {s for s, g in enumerate(labels(p)) if g >= 0} == {2, 7}:
        break
quiet(p.set_custome_site_id_list, [7])
nxt = set()
for _ in range(300):
    q = copy.deepcopy(p)
    quiet(q.place_one_site)
    nxt |= {s for s, g in enumerate(labels(q)) if g >= 0}
print(sorted(nxt - {2, 7}))
sys.exit(0 if nxt - {2, 7} == {6, 8, 12, 22} else 1)
''')

seed("C13-selected-early", "C13",
     "wrapping detection after a trial that placed nothing (L1 mode, step by step)",
     "an unsuccessful trial changes the selected site, so that the next detection compares positions of two different sites and reports a wrapping that does not exist",
     [(L1L2, """        # print("randomly_selected_site ", rnd)
        central_X = self.site_ids_indices[rnd]
""", """        # print("randomly_selected_site ", rnd)
        central_X = self.selected_id = self.site_ids_indices[rnd]
""")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
bad = 0
for seed in range(200):
    p = quiet(L1, length=8, seed=seed)
    for _ in range(200):
        before = p.occupation_prob()
        if not quiet(p.place_one_site):
            break
        d = quiet(p.detect_wrapping)
        if p.occupation_prob() == before and d:
            bad += 1
        if d:
            break
print(bad, "wrappings detected after a trial that placed nothing")
sys.exit(1 if bad else 0)
''')

seed("C14-second-count", "C14",
     "a second L2 run of the same object",
     "the counter of usable directions is not restored by a reset: in the next run sites are dropped at once",
     [(SITE, """        self.relative_index = RelativeIndex()
        self.first_nn_count = 4  # for L1 percolation
        self.second_directional_nn_count = 4  # for L2 percolation
""", """        self.relative_index = RelativeIndex()
        self.first_nn_count = 4  # for L1 percolation
""")],
     QUIET + '''
import random
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2 as L2
bad = 0
for seed in range(20):
    p, q = quiet(L2, length=4), quiet(L2, length=4)
    random.seed(99)
    quiet(p.run_once)
    quiet(p.reset)
    quiet(q.reset)
    out = []
    for x in (p, q):
        random.seed(seed)
        try:
            quiet(x.run_once)
            out.append(list(x.get_site_id_sequence()))
        except Exception as e:
            out.append(repr(e))
    bad += out[0] != out[1]
print(bad, "of 20 second runs differ from the first run of a new object with the same draws")
sys.exit(1 if bad else 0)
''')

seed("C15-seed-zero", "C15",
     "seed 0",
     "the seed 0 is taken for no seed",
     [(PSL, """        if "seed" in kwargs.keys():""", """        if kwargs.get("seed"):""")],
     QUIET + '''
a = [quiet(L0, length=5, seed=0).get_site_id_sequence() for _ in range(3)]
print(a[0][:8], a[1][:8])
sys.exit(0 if a[0] == a[1] == a[2] else 1)
''')

seed("C16-shared-buffer", "C16",
     "two simulations in concurrent threads, switched between the lines of the wrapping test",
     "the list of neighbours to compare is shared by all lattices",
     [(LAT, """        bonds = central_site.connecting_bonds()
        # print("bonds ", bonds)
        out_list = []
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            gid""", """        bonds = central_site.connecting_bonds()
        # print("bonds ", bonds)
        out_list = _wrapping_test_sites
        out_list.clear()
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            gid"""),
      (LAT, "from source_py.simulation.index import Index\n", "from source_py.simulation.index import Index\n\n# neighbors to compare in the wrapping test\n_wrapping_test_sites = []\n")],
     QUIET + '''
# two results held at the same time, as two threads do
p = with_list(L0, 6, [0, 1, 2])
q = with_list(L0, 6, [20, 21, 22, 28])
for _ in range(3):
    quiet(p.place_one_site)
for _ in range(4):
    quiet(q.place_one_site)
a = p.lattice_ref.get_sites_for_wrapping_test(1)
first = list(a)
b = q.lattice_ref.get_sites_for_wrapping_test(22)
print(first, a, b)
sys.exit(0 if list(a) == first else 1)
''')

seed("C17-cached-table", "C17",
     "asking for the table, then continuing with a longer list, then asking again",
     "the table asked for the first time is returned for ever after (until a reset)",
     [(PSL, """        return np.c_[pp, HH, PP_largest, PP_wraping]""", """        if self.data_array is None:
            self.data_array = np.c_[pp, HH, PP_largest, PP_wraping]
        return self.data_array"""),
      (PSL, """        self.order_largest_list = list()
        self.max_iteration_limit""", """        self.order_largest_list = list()
        self.data_array = None
        self.max_iteration_limit"""),
      (PSL, """        self.order_largest_list = list()
        pass

    def get_pc(self):""", """        self.order_largest_list = list()
        self.data_array = None
        pass

    def get_pc(self):""")],
     QUIET + '''
p = with_list(L0, 4, [0, 5, 6])
quiet(p.run_once)
n = len(p.get_data_array())
quiet(p.set_custome_site_id_list, [0, 5, 6, 7, 8])
quiet(p.run_once)
print(n, len(p.get_data_array()), len(p.get_entropy_array()))
sys.exit(0 if len(p.get_data_array()) == 5 else 1)
''')

seed("C18-connected-sites", "C18",
     "asking for the sites at the other ends of a site's bonds",
     "the question takes the site out of its bonds' own lists",
     [(PSL, "            connected_sites = list(sb2.connected_sites())\n", "            connected_sites = sb2.connected_sites()\n")],
     QUIET + '''
p = quiet(L0, length=4)
s = p.lattice_ref.get_site_by_id(5)
a = p.get_connected_sites(s, s.connecting_bonds())
try:
    b = p.get_connected_sites(s, s.connecting_bonds())
except Exception as e:
    b = repr(e)
print(a, b)
sys.exit(0 if a == b else 1)
''')

seed("C19-stale-path", "C19",
     "a realization whose site list ends before the path exists, after one that found it",
     "the path of the earlier realization is reported",
     [(SPP, """        super(ShortestPathAfter_pc, self).reset()
        self.shortest_path_p = 0
""", """        super(ShortestPathAfter_pc, self).reset()
""")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc as SP
p = quiet(SP, length=4, seed=1)
quiet(p.run_once)
quiet(p.set_custome_site_id_list, [0, 5])
quiet(p.reset)
quiet(p.run_once)
print(p.get_shortest_path_p())
sys.exit(0 if p.get_shortest_path_p() == 0 else 1)
''')

SCRATCH = '''
import tempfile, shutil, json, glob
HERE = os.getcwd()
def scratch():
    d = tempfile.mkdtemp()
    os.chdir(d)
    os.mkdir("data")
    return d
'''

seed("C20-running-mean", "C20",
     "ensembles of three or more realizations",
     "the realizations are averaged pairwise: later ones weigh more",
     [(ENS, """        aaa = percolation.get_data_array()
        print(aaa[-1,:])
        if data is None:
            data = aaa
        else:
            data += aaa
            pass
        pass
        # print("temp ")
        # print(aaa)
        end_t""", """        aaa = percolation.get_data_array()
        print(aaa[-1,:])
        if data is None:
            data = aaa
        else:
            data = (data + aaa) / 2  # running average
            pass
        pass
        # print("temp ")
        # print(aaa)
        end_t"""),
      (ENS, """        print("Iteration {:4} | Time elapsed {:.5f} sec".format(en, end_t))
        pass

    data /= ensembleSize  # taking average
""", """        print("Iteration {:4} | Time elapsed {:.5f} sec".format(en, end_t))
        pass

""")],
     QUIET + SCRATCH + '''
import numpy as np
from run_py import ensemble
d = scratch()
try:
    tables = []
    class Spy(L0):
        def get_data_array(self):
            x = super().get_data_array()
            tables.append(x.copy())
            return x
    quiet(ensemble.run_ensemble_entropy_order, Spy, 4, 4)
    f = glob.glob("data/*entropy_order*")[0]
    got = np.loadtxt(f)
    want = sum(tables) / 4
    print(abs(got - want).max())
    ok = np.allclose(got, want, atol=1e-8)
finally:
    os.chdir(HERE)
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
''')

seed("C21-join-last", "C21",
     "the last worker finishes before another one",
     "the launcher returns when the last worker has finished, the others may still be at work",
     [(SPR, """    for process in all_processes:
        process.join()
        pass""", """    process.join()""")],
     QUIET + SCRATCH + '''
import time
from run_py import shortest_path_run as sp
d = scratch()
try:
    orig = sp.ensemble_shortest_path_v2_thread
    def slow(*a, **k):
        if (a[3] if len(a) > 3 else k.get("thread_count", 0)) == 0:
            time.sleep(3)
        with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
            return orig(*a, **k)
    sp.ensemble_shortest_path_v2_thread = slow
    sp.run_simulation_shortest_path_threads(4, 4, thread=2)
    n = len(glob.glob("data/*"))
    print(n, "files when the launcher returns")
    time.sleep(4)
finally:
    os.chdir(HERE)
    shutil.rmtree(d)
sys.exit(0 if n == 2 else 1)
''')

seed("C22-plan-not-record", "C22",
     "a recorded realization of the L1 mode",
     "the index sequence is the (unordered) list of candidates, not the order in which the sites were occupied",
     [(L1L2, """    def get_index_sequence(self):
        indices = []
        for id in self.site_id_sequence_record:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices

    def get_signature(self):
        return self.signature

    def occupied_summary(self):
        print("SitePercolationL1""", """    def get_index_sequence(self):
        indices = []
        for id in sorted(self.site_id_sequence_record):
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices

    def get_signature(self):
        return self.signature

    def occupied_summary(self):
        print("SitePercolationL1""")],
     QUIET + SCRATCH + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
from run_py.rsbd_percolatioin_run import single_realization
d = scratch()
try:
    quiet(single_realization, L1, 4)
    with open(glob.glob("data/*")[0]) as f:
        x = json.load(f)
    ids = [4 * r + c for r, c in x["site_index_sequence"]]
    print(ids, x["site_id_sequence"])
finally:
    os.chdir(HERE)
    shutil.rmtree(d)
sys.exit(0 if ids == x["site_id_sequence"] else 1)
''')

seed("C23-column-zero", "C23",
     "asking for the crossing of the first column of two tables",
     "column 0 is taken for no column",
     [(LINES, """def find_intersection(line1, line2, col=None):
    if col is None:""", """def find_intersection(line1, line2, col=None):
    if not col:""")],
     '''
import numpy as np
from source_py.analyze.lines import find_intersection
n = 6
a = np.array([[1 if i <= 3 else -1, 1 if i <= 1 else -1] for i in range(n)], float)
b = np.zeros((n, 2))
print(find_intersection(a, b, 0), find_intersection(a, b, 1))
sys.exit(0 if (find_intersection(a, b, 0), find_intersection(a, b, 1)) == (3, 1) else 1)
''')

seed("C24-common-temporary", "C24",
     "two workers that write their results at the same time",
     "all workers write to the same temporary file before renaming it: one result goes under another's name, or is lost",
     [(SPR, """    filename = ensemble.new_data_file(filename)
    np.savetxt(filename, data, fmt="%.10e", header=header_str)


    pass

def ensemble""", """    filename = ensemble.new_data_file(filename)
    # complete files only: write to another name first
    temporary = os.path.join(os.path.dirname(filename), "unfinished.tmp")
    np.savetxt(temporary, data, fmt="%.10e", header=header_str)
    os.replace(temporary, filename)


    pass

def ensemble"""),
      (SPR, "import json\nimport numpy as np\n", "import json\nimport os\nimport numpy as np\n")],
     QUIET + SCRATCH + '''
import datetime, threading
import numpy as np
from run_py import shortest_path_run as sp
d = scratch()
try:
    # two writers; the second runs as a whole between the first one's writing and whatever follows it
    now = datetime.datetime(2024, 1, 1)
    cur = now.strftime("%Y%m%d_%H%M%S")
    real = np.savetxt
    state = {"n": 0}
    def hooked(*a, **k):
        r = real(*a, **k)
        state["n"] += 1
        if state["n"] == 1:
            quiet(sp.write_p_p_star, cur, [[0.5, 0.5]], 1, 4, now, "Sig_", thread_count=1)
        return r
    np.savetxt = hooked
    try:
        quiet(sp.write_p_p_star, cur, [[0.25, 0.25]], 1, 4, now, "Sig_", thread_count=0)
    except OSError as e:
        print(e)
    np.savetxt = real
    got = sorted(float(np.loadtxt(f).flat[0]) if os.path.getsize(f) else -1. for f in glob.glob("data/*"))
    print(got)
finally:
    os.chdir(HERE)
    shutil.rmtree(d)
sys.exit(0 if got == [0.25, 0.5] else 1)
''')


# ---------------------------------------------------------------- second set

seed("C03-diagonal", "C03",
     "the closing site joins two arms whose displacement differs by one lattice side in one direction and one step back in the other",
     "the two differences are added before they are compared, so a wrapping through a diagonal difference is missed",
     [(PSL, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if abs(delta_x + delta_y) > 1:")],
     QUIET + '''
import itertools
def winds(occ, L):
    """Does an occupied cluster wind round? Positions by search."""
    pos = {}
    for s in occ:
        if s in pos:
            continue
        pos[s] = (0, 0)
        todo = [s]
        while todo:
            x = todo.pop()
            r, c = divmod(x, L)
            for dr, dc in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                y = (r + dr) % L * L + (c + dc) % L
                if y in occ:
                    q = (pos[x][0] + dr, pos[x][1] + dc)
                    if y not in pos:
                        pos[y] = q
                        todo.append(y)
                    elif pos[y] != q:
                        return True
    return False
bad = 0
for L in (4, 5, 6):
    for sign in (1, -1):
        stairs = [x for k in range(L) for x in (k * L + sign * k % L, k * L + sign * (k + 1) % L)]
        for first in range(2 * L):
            ids = stairs[first:] + stairs[:first]
            p = with_list(L0, L, ids)
            occ = set()
            for s in ids:
                quiet(p.place_one_site)
                occ.add(s)
                if bool(p.detect_wrapping()) != winds(occ, L):
                    bad += 1
                    break
print(bad, "runs with a missed or false wrapping")
sys.exit(1 if bad else 0)
''')

seed("C04-dropped-candidates", "C04",
     "an interacting run",
     "the number of sites at the critical point is taken from the counter of dropped candidates, which is the number of placed sites in the uncorrelated mode only",
     [(PSL, "self.pc_occupied_site_count = self.occupied_site_count\n", "self.pc_occupied_site_count = self.current_idx\n")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
p = quiet(L1, length=8, seed=3)
while quiet(p.place_one_site):
    if p.detect_wrapping():
        break
n = len([g for g in labels(p) if g >= 0])
print(p.get_pc(), n / 64)
sys.exit(0 if abs(p.get_pc() - n / 64) < 1e-12 else 1)
''')

seed("C05-follow-largest", "C05",
     "after wrapping, another cluster is larger than the wrapping one",
     "the wrapping order parameter is taken from the largest cluster",
     [(PSL, "            count = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)\n            ret_val", "            count = self.largest_cluster_sz\n            ret_val")],
     QUIET + '''
L = 7
row = list(range(L))
blob = [14 + 7 * r + c for r in range(4) for c in range(5)]
p = with_list(L0, L, row + blob)
bad = 0
while quiet(p.place_one_site):
    if p.detect_wrapping():
        lab = p.lattice_ref.get_site_gid_by_id(0)
        n = sum(p.lattice_ref.get_bond_gid_by_id(b) == lab for b in range(2 * L * L))
        bad += abs(p.order_param_wrapping() - n / (2 * L * L)) > 1e-12
print(bad, "wrong figures")
sys.exit(1 if bad else 0)
''')

seed("C06-last-label", "C06",
     "the largest label is in use (its bond has not been joined to another cluster)",
     "the cluster with the largest label is left out when the entropy is computed afresh",
     [(PSL, "        for i in range(self.cluster_count):", "        for i in range(self.cluster_count - 1):")],
     QUIET + '''
p = with_list(L0, 5, [6, 12])
bad = 0
while quiet(p.place_one_site):
    bad += abs(p.entropy() - p.entropy_v1()) > 1e-9
print(bad)
sys.exit(1 if bad else 0)
''')

seed("C08-neighbour-removed", "C08",
     "asking for a site's neighbours twice",
     "the list of the two ends of a bond is edited in place: the lattice loses the connection",
     [(LAT, """        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            out_list""", """        for bb in bonds:
            nn = self.get_neighbor_sites(bb)
            # print("nn ", nn)
            if len(nn) > 1:
                nn.remove(s0_index)
            out_list""")],
     QUIET + '''
p = quiet(L0, length=4)
lat = p.lattice_ref
ok = True
for s in range(16):
    r, c = divmod(s, 4)
    want = sorted([(r + 1) % 4 * 4 + c, (r - 1) % 4 * 4 + c, r * 4 + (c + 1) % 4, r * 4 + (c - 1) % 4])
    ok = ok and sorted(lat.get_site_neighbor_of_site(s)) == want
ok = ok and all(len(lat.get_neighbor_sites(b)) == 2 for b in range(32))
print(ok)
sys.exit(0 if ok else 1)
''')

seed("C09-unused-order", "C09",
     "a reset when no site has been placed since the last shuffle",
     "the order is shuffled anew only if it has been used: two resets in a row leave the same order",
     [(PSL, "        self.init_clusters()\n        self.shuffle()\n", "        self.init_clusters()\n        if self.current_idx > 0:\n            self.shuffle()\n")],
     QUIET + '''
import random
same = 0
for seed in range(20):
    p = quiet(L0, length=6, seed=seed)
    a = list(p.get_site_id_sequence())
    quiet(p.reset)
    same += list(p.get_site_id_sequence()) == a
print(same, "of 20 resets left the order as it was")
sys.exit(1 if same else 0)
''')

seed("C10-kept-order", "C10",
     "a list of row/column pairs, to be shuffled, given to a simulation that has had no list before",
     "the wish to shuffle is only honoured if a list was installed before",
     [(PSL, """        self.mode_custome_site_id = True
        self.do_shuffle = do_shuffle
        self.max_iteration_limit = len(self.site_ids_indices)
""", """        self.do_shuffle = do_shuffle and self.mode_custome_site_id
        self.mode_custome_site_id = True
        self.max_iteration_limit = len(self.site_ids_indices)
""")],
     QUIET + '''
orders = set()
for seed in range(12):
    p = quiet(L0, length=5, seed=seed)
    quiet(p.set_custome_site_index_list, [(r, c) for r in range(5) for c in range(5)], True)
    orders.add(tuple(p.get_site_id_sequence()))
print(len(orders), "different orders of 12")
sys.exit(0 if len(orders) > 1 else 1)
''')

seed("C14-kept-column", "C14",
     "a reset of a run that has not wrapped yet, followed by another realization",
     "the recorded order parameter of the wrapping cluster survives the reset as long as it is zero everywhere",
     [(PSL, """        self.order_wrapping_list = list()
        self.order_largest_list = list()
        pass
""", """        self.order_wrapping_list = [x for x in self.order_wrapping_list if not any(self.order_wrapping_list)]
        self.order_largest_list = list()
        pass
""")],
     QUIET + '''
p = quiet(L0, length=4, seed=1)
quiet(p.set_custome_site_id_list, [0, 5])
quiet(p.run_once)
quiet(p.reset)
print(len(p.get_order_param_wrapping_array()))
sys.exit(0 if len(p.get_order_param_wrapping_array()) == 0 else 1)
''')

seed("C16-common-record", "C16",
     "two L1 simulations in one process, before the first reset",
     "the record of the placed sites belongs to the class until the first reset",
     [(L1L2, """        self.x_occupied = 0

        # Once the sequece is recorded, we can use it in regular site percolation. To check the outcomes.
        self.site_id_sequence_record = []
""", """        self.x_occupied = 0

"""), (L1L2, "class SitePercolationL1(SitePercolation):\n", """class SitePercolationL1(SitePercolation):
    # Once the sequece is recorded, we can use it in regular site percolation. To check the outcomes.
    site_id_sequence_record = []

""")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
p, q = quiet(L1, length=4, seed=1), quiet(L1, length=4, seed=2)
quiet(p.place_one_site)
print(list(q.get_site_id_sequence()))
sys.exit(0 if list(q.get_site_id_sequence()) == [] else 1)
''')

seed("C18-sorted-members", "C18",
     "looking at the clusters of a simulation, then merging",
     "the view sorts the members of every cluster it prints",
     [(CLU, "        print(\"  sites ({}) \".format(len(self.site_ids)), self.site_ids)", "        members = self.site_ids\n        members.sort()\n        print(\"  sites ({}) \".format(len(members)), members)")],
     QUIET + '''
p = with_list(L0, 5, [7, 6, 5])
while quiet(p.place_one_site):
    pass
lab = p.lattice_ref.get_site_gid_by_id(6)
a = list(p.cluster_pool_ref.get_sites(lab))
quiet(p.viewCluster)
b = list(p.cluster_pool_ref.get_sites(lab))
print(a, b)
sys.exit(0 if a == b else 1)
''')

seed("C19-any-row", "C19",
     "after the wrapping, another cluster completes a whole column (it winds round without touching the first)",
     "a column counts as complete if its sites are occupied, whatever cluster they belong to",
     [(SPP, "            if gid != self.wrapping_cluster_id:\n                row_flag = False", "            if gid < 0:\n                row_flag = False")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc as SP
L = 7
bent = [(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (4, 1), (5, 1), (6, 1), (6, 0)]
straight = [(r, 4) for r in range(7)]
p = with_list(SP, L, [r * L + c for r, c in bent + straight])
quiet(p.run_once)
print(p.get_shortest_path_p())
sys.exit(0 if p.get_shortest_path_p() == 0 else 1)
''')

seed("C20-distinct-rows", "C20",
     "two realizations of an ensemble with the same critical values",
     "the header counts the distinct realizations",
     [(ENS, """    head['ensemble_size'] = ensembleSize
    head['En'] = ensembleSize
    head['date'] = now.strftime("%Y.%m.%d")
    head['time'] = now.strftime("%H:%M:%S")
    head['columns'] = ["pc", "wrapping cluster site""", """    head['ensemble_size'] = len(set(map(tuple, data)))
    head['En'] = ensembleSize
    head['date'] = now.strftime("%Y.%m.%d")
    head['time'] = now.strftime("%H:%M:%S")
    head['columns'] = ["pc", "wrapping cluster site""")],
     QUIET + SCRATCH + '''
from run_py import ensemble
d = scratch()
try:
    quiet(ensemble.run_ensemble_entropy_order, L0, 3, 60)
    with open(glob.glob("data/*critical_values*")[0]) as f:
        head = json.loads(f.readline().lstrip("# "))
    print(head["ensemble_size"])
finally:
    os.chdir(HERE)
    shutil.rmtree(d)
sys.exit(0 if head["ensemble_size"] == 60 else 1)
''')

seed("C23-strict-product", "C23",
     "the curves are exactly equal at a sample on the way through the crossing",
     "the crossing is looked for where the product of neighbouring differences is negative",
     [(LINES, "    dx = np.diff(np.sign(difference))\n    idx = np.argmax(np.abs(dx))\n    return idx\n\n\ndef", "    dx = difference[1:] * difference[:-1] < 0\n    idx = np.argmax(dx)\n    return idx\n\n\ndef")],
     '''
import numpy as np
from source_py.analyze.lines import find_intersection
a = np.array([3., 2., 1., 0., -1., -2.])
i = int(find_intersection(a, np.zeros(6)))
print(i)
sys.exit(0 if i in (2, 3) else 1)
''')

seed("C24-same-signature", "C24",
     "results of the two interacting modes, same side, saved within one second",
     "both interacting modes use the same name",
     [(L1L2, "        self.signature += \"L2_\"", "        self.signature += \"L1_\"")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1, SitePercolationL2 as L2
a, b = quiet(L1, length=4).get_signature(), quiet(L2, length=4).get_signature()
print(a, b)
sys.exit(0 if a != b else 1)
''')

# ---------------------------------------------------------------- third set

seed("C25-emptied-column", "C25",
     "the recorded entropies of one realization kept while the next one is run",
     "reset empties the recorded list in place, the list handed out for the realization before is emptied and filled again",
     [(PSL, "        self.entropy_list = list()\n        self.order_wrapping_list = list()\n        self.order_largest_list = list()\n        pass\n",
       "        self.entropy_list.clear()\n        self.order_wrapping_list = list()\n        self.order_largest_list = list()\n        pass\n")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
p = quiet(L1, length=4, seed=3)
quiet(p.run_once)
a = p.get_entropy_array()
b = list(a)
quiet(p.reset)
quiet(p.place_one_site)
print(len(a), len(b))
sys.exit(0 if list(a) == b else 1)
''')

seed("C25-reused-record", "C25",
     "the order of sites of one L1 realization kept until after the next reset",
     "the record of placed sites is cleared in place, so the sequence handed out earlier becomes that of the next realization",
     [(L1L2, "        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))\n        self.x_occupied = 0\n        self.site_id_sequence_record = []\n\n    def get_site_id_sequence(self):\n        return self.site_id_sequence_record\n\n    def get_index_sequence(self):\n        indices = []\n        for id in self.site_id_sequence_record:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n        return indices\n\n    def get_signature(self):\n        return self.signature\n\n    def occupied_summary(self):\n        print(\"SitePercolationL1",
       "        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))\n        self.x_occupied = 0\n        del self.site_id_sequence_record[:]\n\n    def get_site_id_sequence(self):\n        return self.site_id_sequence_record\n\n    def get_index_sequence(self):\n        indices = []\n        for id in self.site_id_sequence_record:\n            idx = self.lattice_ref.get_site_by_id(id).get_index()\n            indices.append(idx.as_list())\n            pass\n        return indices\n\n    def get_signature(self):\n        return self.signature\n\n    def occupied_summary(self):\n        print(\"SitePercolationL1")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
p = quiet(L1, length=4, seed=3)
quiet(p.run_once)
a = p.get_site_id_sequence()
b = list(a)
quiet(p.reset)
quiet(p.run_once)
print(a, b)
sys.exit(0 if list(a) == b else 1)
''')

seed("C26-hidden-bonds", "C26",
     "the cluster view while some bonds are still untouched",
     "the cluster view leaves out clusters without sites and does not count them",
     [(CLU, "        if self.is_empty():\n            return 0", "        if not self.site_ids:\n            return 0")],
     QUIET + '''
p = with_list(L0, 4, [5, 6, 9])
for k in range(3):
    quiet(p.place_one_site)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    p.viewCluster()
n = int(out.getvalue().split()[-1])
want = len({p.lattice_ref.get_bond_gid_by_id(b) for b in range(32)})
print(n, want)
sys.exit(0 if n == want else 1)
''')

seed("C26-bond-above", "C26",
     "the lattice view with labels or identifiers, looking at vertical bonds",
     "the view shows below each site the bond above it",
     [(LAT, "            s_index = row * self.length + cc\n            v_bond_index = s_index + self.length ** 2\n", "            s_index = row * self.length + cc\n            v_bond_index = self.top_bond_of_site(s_index)\n")],
     QUIET + '''
import re
p = with_list(L0, 3, [4])
out = io.StringIO()
with contextlib.redirect_stdout(out):
    p.viewLattice(2)
t = out.getvalue()
t = t[t.index("VIEW BEGIN"):]
ids = [int(x) for x in re.findall(r"(\\d+)\\s*\\(", t)]
want = []
for r in range(3):
    for c in range(3):
        want += [3 * r + c, 3 * r + c]
    want += [9 + 3 * r + c for c in range(3)]
print(ids, want)
sys.exit(0 if ids == want else 1)
''')

seed("C27-running-flag", "C27",
     "a run abandoned by an exception, then a reset and another run",
     "a flag against nested runs stays set when a run is abandoned; every later run does nothing",
     [(PSL, "        # sq_lattice_p.viewLattice(3)\n        # sq_lattice_p.viewCluster()\n        # print(\"get_occupation_prob_array \", self.get_occupation_prob_array())\n        while self.place_one_site():\n            # print(\"self.selection_flag \", self.selection_flag)\n            if self.selection_flag == SelectionState.SUCESS:\n                self.detect_wrapping()\n                p = self.occupation_prob()\n                # print(\"p = \", p)\n                H = self.entropy()\n                P1 = self.order_param_wrapping()\n                P2 = self.order_param_largest_clstr()\n                self.occupation_prob_list.append(p)\n                self.entropy_list.append(H)\n                self.order_wrapping_list.append(P1)\n                self.order_largest_list.append(P2)\n        # if self.first_run:",
       "        if getattr(self, 'running', False):\n            return\n        self.running = self.place_one_site()\n        while self.running:\n            # print(\"self.selection_flag \", self.selection_flag)\n            if self.selection_flag == SelectionState.SUCESS:\n                self.detect_wrapping()\n                p = self.occupation_prob()\n                # print(\"p = \", p)\n                H = self.entropy()\n                P1 = self.order_param_wrapping()\n                P2 = self.order_param_largest_clstr()\n                self.occupation_prob_list.append(p)\n                self.entropy_list.append(H)\n                self.order_wrapping_list.append(P1)\n                self.order_largest_list.append(P2)\n            self.running = self.place_one_site()\n        # if self.first_run:")],
     QUIET + '''
p = quiet(L0, length=4)
def trace(frame, event, arg):
    if event == "call" and frame.f_code.co_name == "detect_wrapping":
        raise KeyboardInterrupt
sys.settrace(trace)
try:
    quiet(p.run_once)
except KeyboardInterrupt:
    pass
finally:
    sys.settrace(None)
quiet(p.reset)
quiet(p.run_once)
print(p.occupation_prob())
sys.exit(0 if p.occupation_prob() == 1 else 1)
''')

seed("C27-skipped-rebuild", "C27",
     "a reset abandoned half-way (Ctrl-C), then another reset",
     "a reset clears the count of sites first and rebuilds the lattice only if sites were placed: after an abandoned reset the next one leaves the old clusters in place",
     [(PSL, "        super(SitePercolation, self).reset()\n        self.init_clusters()\n        self.shuffle()\n        self.current_idx = 0",
       "        touched = self.occupied_site_count > 0\n        self.occupied_site_count = 0\n        if touched:\n            super(SitePercolation, self).reset()\n            self.init_clusters()\n        self.shuffle()\n        self.current_idx = 0"),
      (PSL, "        self.entropy_value = self.max_entropy\n        self.occupied_site_count = 0\n        self.selection_flag = None",
       "        self.entropy_value = self.max_entropy\n        self.selection_flag = None")],
     QUIET + '''
p = quiet(L0, length=4)
quiet(p.run_once)
left = [60]
def trace(frame, event, arg):
    if event == "line" and os.sep + "source_py" + os.sep in frame.f_code.co_filename:
        left[0] -= 1
        if left[0] == 0:
            raise KeyboardInterrupt
    return trace
sys.settrace(trace)
try:
    quiet(p.reset)
except KeyboardInterrupt:
    pass
finally:
    sys.settrace(None)
quiet(p.reset)
print(labels(p))
sys.exit(0 if set(labels(p)) == {-1} else 1)
''')

seed("C28-borrowed-list", "C28",
     "two clusters created from the same list (or the default), or a list changed by the caller afterwards",
     "the first list of sites given to a cluster is kept instead of copied",
     [(CLU, "        if type(site_ids) is list:\n            self.site_ids += site_ids", "        if type(site_ids) is list:\n            self.site_ids = self.site_ids + site_ids if self.site_ids else site_ids")],
     QUIET + '''
from source_py.simulation.cluster import ClusterPool
from source_py.simulation.lattice import Lattice
lat, pool = Lattice(4), ClusterPool()
quiet(pool.create_new_cluster, [], [0], lat)
quiet(pool.create_new_cluster)
quiet(pool.create_new_cluster)
pool.add_sites(1, 7)
print([pool.get_sites(k) for k in range(3)])
sys.exit(0 if [pool.get_sites(k) for k in range(3)] == [[], [7], []] else 1)
''')

seed("C28-kept-count", "C28",
     "asking for the cluster just beyond the last one",
     "the bound of the registry is off by one: IndexError instead of 'does not exist'",
     [(CLU, "        if cluster_id >= len(self.cluster_list):", "        if cluster_id > len(self.cluster_list):")],
     QUIET + '''
from source_py.simulation.cluster import ClusterPool
from source_py.simulation.lattice import Lattice
lat, pool = Lattice(4), ClusterPool()
quiet(pool.create_new_cluster, [], [0], lat)
try:
    x = quiet(pool.get_cluster, 1)
except IndexError:
    x = "IndexError"
print(x)
sys.exit(0 if x is None else 1)
''')

IDX = "source_py/simulation/index.py"
seed("C29-shared-sum", "C29",
     "a sum with a zero vector, whose result is normalized afterwards",
     "adding a zero vector returns the operand itself; normalizing the sum changes the operand",
     [(IDX, "        component_2 = self.component_2 + other.component_2\n        return Index(component_1, component_2)\n",
       "        component_2 = self.component_2 + other.component_2\n        return self if (component_1, component_2) == self.as_list() else Index(component_1, component_2)\n")],
     QUIET + '''
from source_py.simulation.index import Index
a = Index(0, 4)
b = a + Index(0, 0)
b.normalize()
print(a, b)
sys.exit(0 if a.as_list() == (0, 4) and b.as_list() == (0, 1) else 1)
''')

seed("C29-normalized-diagonal", "C29",
     "normalizing a displacement that is along no axis",
     "diagonal displacements are scaled as well",
     [(IDX, "        elif (self.component_1 != 0) and (self.component_2 == 0):\n            self.component_1 = self.component_1 // abs(self.component_1)\n",
       "        elif (self.component_1 != 0) and (self.component_2 in (0, self.component_1, -self.component_1)):\n            self.component_2 = self.component_2 // abs(self.component_1)\n            self.component_1 = self.component_1 // abs(self.component_1)\n")],
     QUIET + '''
from source_py.simulation.index import Index
a = Index(3, -3)
a.normalize()
print(a)
sys.exit(0 if a.as_list() == (3, -3) else 1)
''')

seed("C30-month-for-minute", "C30",
     "critical values saved in a minute whose number differs from that of the month",
     "the time in the header of the critical-values file shows the month where the minute belongs",
     [(ENS, """    head['time'] = now.strftime("%H:%M:%S")
    head['columns'] = ["pc", "wrapping""", """    head['time'] = now.strftime("%H:%m:%S")
    head['columns'] = ["pc", "wrapping""")],
     QUIET + '''
import datetime, json, os, tempfile
from run_py import ensemble
d = tempfile.mkdtemp(); os.chdir(d); os.mkdir("data")
now = datetime.datetime(2024, 3, 5, 14, 41, 9)
ensemble.write_critical_values("x", [[0.5, 3, 4]], 1, 3, now, "Sig")
head = json.loads(open("data/" + os.listdir("data")[0]).readline().lstrip("#"))
print(head["time"])
import shutil; os.chdir("/"); shutil.rmtree(d)
sys.exit(0 if head["time"] == "14:41:09" else 1)
''')

seed("C30-afternoon", "C30",
     "a shortest-path ensemble that ends in the afternoon",
     "the name of the file holds the hour of a 12-hour clock: the file of 15:00 is called like one of 03:00",
     [(SPR, """    current_time = now.strftime("%Y%m%d_%H%M%S")
    print("current_time ", current_time)

    write_p_p_star""", """    current_time = now.strftime("%Y%m%d_%I%M%S")
    print("current_time ", current_time)

    write_p_p_star""")],
     QUIET + '''
import datetime, os, shutil, tempfile
from run_py import shortest_path_run as s
class Clock(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2024, 3, 5, 15, 41, 9)
s.datetime = Clock
d = tempfile.mkdtemp(); os.chdir(d); os.mkdir("data")
quiet(s.ensemble_shortest_path_v2_thread, s.ShortestPathAfter_pc, 3, 1)
name = os.listdir("data")[0]
print(name)
os.chdir("/"); shutil.rmtree(d)
sys.exit(0 if "20240305_154109" in name else 1)
''')

seed("C30-two-looks", "C30",
     "a single realization recorded while the day turns (the clock is looked at twice)",
     "the header combines the date of one look at the clock with the time of another: it is off by a day",
     [(RUN, """    head['date'] = now.strftime("%Y.%m.%d")
""", """    head['date'] = datetime.now().strftime("%Y.%m.%d")
""")],
     QUIET + '''
import datetime, json, os, shutil, tempfile
from run_py import rsbd_percolatioin_run as r
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
looks = [0]
class Clock(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        looks[0] += 1
        t = datetime.datetime(2024, 3, 5, 23, 59, 58) + datetime.timedelta(seconds=looks[0])
        return cls(t.year, t.month, t.day, t.hour, t.minute, t.second)
r.datetime = Clock
d = tempfile.mkdtemp(); os.chdir(d); os.mkdir("data")
quiet(r.single_realization, SitePercolationL0, 3)
head = json.load(open("data/" + os.listdir("data")[0]))
print(head["date"], head["time"])
os.chdir("/"); shutil.rmtree(d)
sys.exit(0 if (head["date"], head["time"]) in (("2024.03.05", "23:59:59"), ("2024.03.06", "00:00:00"), ("2024.03.06", "00:00:01")) else 1)
''')

seed("C31-only-in-vain", "C31",
     "an L1 trial on an occupied site whose neighbour is free",
     "only unsuccessful looks at a first neighbour are counted",
     [(L1L2, """            self.x_occupied += 1

            # sites = self.get_four_neighbor_sites(central_X)
""", """            # sites = self.get_four_neighbor_sites(central_X)
"""), (L1L2, """                # print("first neighbor is occupied")
""", """                self.x_occupied += 1
""")],
     QUIET + '''
import random
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1
p = SitePercolationL1(length=3)
p.place_one_site()
draws = [0]
i = list(p.site_ids_indices).index(p.get_site_id_sequence()[0])
real = random.randint
random.randint = lambda a, b: i if b > 3 else 1
p.place_one_site()
random.randint = real
out = io.StringIO()
with contextlib.redirect_stdout(out):
    p.occupied_summary()
print(out.getvalue())
sys.exit(0 if " 1  times" in out.getvalue() else 1)
''')

seed("C31-kept-count", "C31",
     "the second realization of an L2 simulation",
     "the count of second neighbours goes on over resets",
     [(L1L2, """        self.x_occupied = 0
        self.y_occupied = 0
        self.site_id_sequence_record = []

    def get_site_id_sequence""", """        self.x_occupied = 0
        self.site_id_sequence_record = []

    def get_site_id_sequence""")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2
p = SitePercolationL2(length=4, seed=3)
quiet(p.run_once)
p.reset()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    p.occupied_summary()
print(out.getvalue())
sys.exit(0 if out.getvalue().count(" 0  times") == 2 else 1)
''')

seed("C32-last-cluster", "C32",
     "a full lattice in whose registry a cluster other than the wrapping one (not the last of the list) still has a member",
     "test_clusters looks only at the last cluster instead of adding up all",
     [(PSL, "                bsum += b1\n                ssum += s1\n", "                bsum = b1\n                ssum = s1\n")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
p = quiet(lambda: SitePercolationL0(length=4, seed=3))
quiet(p.run_once)
quiet(p.test_clusters)
w = p.lattice_ref.get_site_gid_by_id(0)
p.cluster_pool_ref.add_sites(5 if w != 5 else 6, 2)
try:
    quiet(p.test_clusters)
except AssertionError:
    sys.exit(0)
sys.exit(1)
''')

seed("C32-plan-counter", "C32",
     "an L1 or L2 run that is full although sites are left on the list of candidates, and a wrong label",
     "test_lattice recognizes the full lattice by the position in the plan, which does not count placements in L1 and L2",
     [(PSL, "        if self.occupied_site_count == self.lattice_ref.site_count:\n\n            self.lattice_ref.test_lattice", "        if self.current_idx == self.lattice_ref.site_count:\n\n            self.lattice_ref.test_lattice")],
     QUIET + '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2
p = quiet(lambda: SitePercolationL2(length=4, seed=3))
while p.occupied_site_count < 16:
    quiet(p.place_one_site)
    quiet(p.detect_wrapping)
quiet(p.test_lattice)
p.lattice_ref.set_site_gid_by_id(7, -1)
try:
    quiet(p.test_lattice)
except AssertionError:
    sys.exit(0)
sys.exit(1)
''')

seed("C12-three-directions", "C12",
     "L2 mode: trials on an occupied site have failed in three directions, the fourth can still succeed",
     "a site is dropped when one of its directions is still open",
     [(SITE, "            return self.second_directional_nn_count == 0\n", "            return self.second_directional_nn_count <= 1\n")],
     QUIET + '''
import random
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2 as L2
# side 5: sites 12 and its neighbours 7, 11, 13, 17, and three of the four sites behind them. The fourth, 2, is empty:
# a trial on 12 can still reach it, whatever trials have failed before
L, shape = 5, [12, 7, 11, 13, 17, 10, 14, 22]
def build(seed):
    random.seed(seed)
    p = with_list(L2, L, [12])
    def occ():
        return {s for s, g in enumerate(labels(p)) if g >= 0}
    for s in shape:
        quiet(p.set_custome_site_id_list, [s])
        quiet(p.place_one_site)
    assert occ() == set(shape), occ()
    quiet(p.set_custome_site_id_list, [12])
    for k in range(200):
        if not quiet(p.place_one_site):
            return False                    # said to be exhausted
        if occ() != set(shape):
            return occ() - set(shape) == {2}
    return False
got = [build(s) for s in range(60)]
print(got.count(True), "of", len(got))
sys.exit(0 if all(got) else 1)
''')

seed("C13-last-for-first", "C13",
     "an interacting run that drops many sites before the last empty ones are found",
     "a dropped candidate is replaced by the last of the list while the first is passed over: candidates are lost and the run may stop with empty sites",
     [(L1L2, """                    # print("self.site_ids_indices before ", self.site_ids_indices)
                    # print("rnd ", rnd, " self.current_idx ", self.current_idx)
                    self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]
""", """                    # print("self.site_ids_indices before ", self.site_ids_indices)
                    # print("rnd ", rnd, " self.current_idx ", self.current_idx)
                    self.site_ids_indices[rnd] = self.site_ids_indices[-1]
""")],
     QUIET + """
import random
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as L1
early = 0
for L, n in ((3, 300), (4, 100), (6, 60), (10, 30)):
    for s in range(n):
        random.seed(s)
        p = quiet(L1, length=L)
        while quiet(p.place_one_site):
            pass
        early += min(labels(p)) < 0
    print(L, early, "runs ended with empty sites so far")
sys.exit(1 if early else 0)
""")

seed("C15-hash-of-seed", "C15",
     "a fresh process with another hash seed, for a seed given as a string",
     "the generator is seeded with the hash of the seed",
     [(PSL, "            random.seed(kwargs['seed'])\n", "            random.seed(hash(kwargs['seed']))\n")],
     '''
import subprocess
code = """
import contextlib, io
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0 as L0
with contextlib.redirect_stdout(io.StringIO()):
    p = L0(length=5, seed="run 7")
print(p.get_site_id_sequence())
"""
out = [subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=os.getcwd()), capture_output=True, text=True).stdout
       for h in ("1", "2", "3")]
print(*out)
sys.exit(0 if out[0] and out[0] == out[1] == out[2] else 1)
''')

seed("C21-impatient", "C21",
     "a worker that needs more than ten seconds",
     "the launcher waits ten seconds at most for each worker",
     [(RUN, """        process.start()

        pass
    for process in all_processes:
        process.join()
        pass


def run_simulations():""", """        process.start()

        pass
    for process in all_processes:
        process.join(10)
        pass


def run_simulations():""")],
     QUIET + SCRATCH + '''
import time
from run_py import ensemble, rsbd_percolatioin_run as run
d = scratch()
try:
    orig = ensemble.run_ensemble_entropy_order_threads_v2
    def slow(*a, **k):
        if (a[3] if len(a) > 3 else k.get("thread_count", 0)) == 1:
            time.sleep(14)
        with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
            return orig(*a, **k)
    ensemble.run_ensemble_entropy_order_threads_v2 = slow
    run.run_simulation_threads_v4(4, 4, 2, interaction=1)
    n = len(glob.glob("data/*"))
    print(n, "files when the launcher returns")
    if n < 4:
        time.sleep(8)
finally:
    os.chdir(HERE)
    shutil.rmtree(d)
sys.exit(0 if n == 4 else 1)
''')

seed("C22-rounded-pc", "C22",
     "a single realization recorded on a side whose critical point is not a short decimal fraction (e.g. 6, 7)",
     "the critical point is rounded to four digits when it is recorded",
     [(RUN, "    head['pc'] = percolation.get_pc()\n", "    head['pc'] = round(percolation.get_pc(), 4)\n")],
     QUIET + SCRATCH + '''
from run_py.rsbd_percolatioin_run import single_realization
d = scratch()
try:
    bad = 0
    for k in range(6):
        quiet(single_realization, L0, 7)
    for f in glob.glob("data/*"):
        with open(f) as h:
            x = json.load(h)
        p = with_list(L0, 7, x["site_id_sequence"])
        quiet(p.run_once)
        print(x["pc"], p.get_pc())
        bad += abs(x["pc"] - p.get_pc()) > 1e-9
finally:
    os.chdir(HERE)
    shutil.rmtree(d)
sys.exit(1 if bad else 0)
''')
