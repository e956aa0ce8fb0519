"""Writes /verif/properties.jsonl (kept as a script so that the text stays in one reviewable place)."""
import json, os
P = []
PERC = "source_py/simulation/percolation_sq_lattice.py"
L12 = "source_py/simulation/percolation_sq_lattice_L1L2.py"
SP = "source_py/simulation/percolation_sq_lattice_shortest_path.py"
LAT = "source_py/simulation/lattice.py"
CL = "source_py/simulation/cluster.py"
ENS = "run_py/ensemble.py"
RUN = "run_py/rsbd_percolatioin_run.py"
SPR = "run_py/shortest_path_run.py"

def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

add("C01", "Cluster labels are exactly the connected components of the occupied sites",
    "After every placement of a simulation on a periodic square lattice of side 3 or more, two occupied sites carry the same cluster label if and only if they are joined by a path of occupied nearest neighbours (the lattice wraps round in both directions). Empty sites carry no label (they report as unoccupied), every placed site is occupied and stays so, and placing a site occupies no other site.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order, every prefix of it, every selection mode",
    "The tests only check that a completely full lattice ends with one label, for a few seeds; wrong labels in the middle of a run heal by the time the lattice is full.",
    [PERC, CL, "source_py/simulation/element.py", "source_py/simulation/site.py"],
    [("merge_clusters_v2: chooses the root cluster and joins the others to it", PERC), ("merge_cluster_with: relabels the members of the absorbed cluster", CL)],
    [("g_id", "cluster label of a site or bond, -1 when the site is empty", "Element")],
    ["lattice_ref.get_site_gid_by_id", "Site.is_occupied"])

add("C02", "Every bond and every occupied site is counted in exactly one cluster",
    "At every moment of a simulation (side 3 or more) each of the 2L^2 bonds belongs to exactly one cluster: a bond touching an occupied site belongs to that site's cluster, and a bond touching none is a cluster of its own. For every label in use, the cluster registry's member lists and counts of sites and bonds are exactly (without repeats) the sites and bonds carrying that label; labels no longer in use have no members, so counts always add up to 2L^2 bonds and to the number of occupied sites.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order and every prefix of it, before the first placement and after a reset too",
    "test_clusters looks at the counts only when the lattice is completely full; lost, duplicated or stale members in between are never looked at.",
    [CL, PERC], [("merge_cluster_with / clear_cluster / create_new_cluster", CL), ("init_clusters", PERC)],
    [("cluster_list", "members of each cluster", "ClusterPool")],
    ["cluster_pool_ref.get_cluster_bond_count/get_cluster_site_count/get_sites/get_bonds", "lattice_ref.get_bond_gid_by_id"])

add("C03", "Wrapping is reported exactly when a cluster first winds round the torus",
    "When wrapping detection is run after each placement (side 3 or more), it answers true for the first time exactly at the first placement after which some connected cluster winds round the periodic lattice horizontally, vertically or diagonally (i.e. contains a closed path of nearest-neighbour steps with non-zero net displacement), and false before that. Once true it stays true until the simulation is reset, and the cluster it tracks from then on is the one that closed first.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order; every winding class of the closing path",
    "The tests check that a full lattice has wrapped, and one hand-made winding path; neither false detections, late detections nor unusual winding paths are checked.",
    [PERC, LAT, "source_py/simulation/index.py"],
    [("detect_wrapping: compares relative indices of the new site and its same-label neighbours", PERC), ("get_sites_for_wrapping_test", LAT)],
    [("relative_index", "displacement of a site inside its cluster", "Site"), ("wrapping_cluster_id", "label of the wrapping cluster", "SitePercolation")],
    ["detect_wrapping()", "wrapping_cluster_id"])

add("C04", "Critical-point figures are taken at the first wrapping and then frozen",
    "The reported critical point equals (number of sites occupied when wrapping is first detected) / L^2, and the reported critical site and bond counts are the sizes of the wrapping cluster at that very moment. They never change for the rest of the run, however many further sites are placed or detections are made, and all three are 0 before wrapping and after a reset.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order, every point of the run, every selection mode",
    "Five recorded data files are compared at the end of the run; nothing checks the values on other orders, in the interacting modes, or that later placements leave them alone.",
    [PERC], [("detect_wrapping stores pc_* values", PERC), ("get_pc, get_site_count_wrapping_cluster_pc, get_bond_count_wrapping_cluster_pc", PERC)],
    [("pc_occupied_site_count", "occupied sites at first wrapping", "SitePercolation")],
    ["get_pc()", "get_site_count_wrapping_cluster_pc()", "get_bond_count_wrapping_cluster_pc()"])

add("C05", "Order parameters are the true sizes of the largest and the wrapping cluster",
    "After every placement (side 3 or more) the largest-cluster order parameter is the bond count of the largest cluster containing an occupied site divided by 2L^2, and the wrapping order parameter is 0 before wrapping is detected and afterwards the current bond count, divided by 2L^2, of the cluster containing the sites that wrapped first. The occupation probability is the number of occupied sites divided by L^2; all three never decrease during a run and all are 1 when the lattice is full.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order and prefix, including small wrapping clusters that absorb or meet larger ones",
    "The tests require only that the wrapping order parameter ends at 1; five recorded files sample the middle of five runs of one mode.",
    [PERC, CL], [("track_largest_cluster, order_param_largest_clstr, order_param_wrapping, occupation_prob", PERC), ("after wrapping the wrapping cluster is always the root of a merge", PERC)],
    [("largest_cluster_sz", "bond count of the largest cluster", "SitePercolation")],
    ["order_param_largest_clstr()", "order_param_wrapping()", "occupation_prob()", "largest_cluster()"])

add("C06", "Entropy equals the Shannon entropy of the cluster size distribution",
    "At every moment of a simulation (side 3 or more) the reported entropy equals, up to floating-point rounding, minus the sum over all clusters of m*ln(m), where m is the cluster's share of the 2L^2 bonds and untouched bonds are clusters of one bond; the incremental value and the value recomputed from scratch agree. It is ln(2L^2) on the empty lattice and 0 on the full one, in every run and after every reset.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order and prefix, repeated runs on one object",
    "Entropy is compared only with five recorded runs; cluster configurations that do not occur in them (four distinct neighbours, the same cluster met on several sides, tiny lattices, second runs) are not checked.",
    [PERC], [("entropy_subtract / entropy_add keep the running value", PERC), ("entropy_v1 recomputes", PERC)],
    [("entropy_value", "running entropy", "SitePercolation")],
    ["entropy()", "entropy_v1()", "entropy_v2()", "get_entropy_array()"])

add("C07", "Relative positions inside a cluster match real displacements",
    "As long as a cluster has not wrapped (side 3 or more), the relative positions stored for any two adjacent sites of it differ by exactly the one lattice step that separates them, also for neighbours across the periodic boundary; so the difference between any two members is the net displacement of any path inside the cluster. Merging clusters shifts all members of an absorbed cluster by one common vector, and an isolated new site sits at the origin. A site says that it is a root exactly when it is at the origin.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order, every cluster that does not wind round the torus",
    "test_relative_index only asks that some neighbour differs by 1 or L-1 in some component, and stops at the first one found.",
    [PERC, "source_py/simulation/index.py", "source_py/simulation/site.py"],
    [("get_relative_index, wrapping_correction_relative_index, relabel_relative_indices", PERC), ("RelativeIndex arithmetic", "source_py/simulation/index.py")],
    [("relative_index", "displacement of the site from its cluster's origin", "Site")],
    ["Site.get_relative_index()"])

add("C08", "The lattice is a correct periodic square lattice, for every size and for ever",
    "For every side L >= 3 the lattice has L^2 sites and 2L^2 bonds; each site has four distinct nearest neighbours (right, below, left, above, with wrap-round) and four distinct bonds, each bond joins exactly two adjacent sites, and the two directions of every site-bond lookup agree. All conversions between row/column and identifiers are mutually inverse bijections for sites and for both bond orientations, and nothing a simulation does (placing, detecting, scanning, resetting, viewing) ever alters this structure or the answer to such a lookup.",
    ["inputs", "histories"], "every lattice side >= 3, every site and bond, every operation history",
    "The topology test covers six sides on freshly built lattices and checks only mutual membership of lists, not which neighbours they are, nor the structure after simulations have used it.",
    [LAT, "source_py/simulation/site.py", "source_py/simulation/bond.py", "source_py/simulation/index.py"],
    [("init_lattice/init_ids build the tables", LAT), ("lookups hand out copies before removing an element", LAT)],
    [("connecting_bond_ids / connected_site_ids", "adjacency tables", "Site / Bond")],
    ["get_all_neighbor_sites", "get_site_neighbor_of_site", "get_neighbor_bonds", "get_neighbor_sites", "get_id_from_index", "get_row_col_from_id", "calculate_id_from_index", "get_site_by_index", "get_bond_by_index", "distance_btn_sites (adjacent sites)"])

add("C09", "Uncorrelated mode places each site once, in a uniformly random order",
    "In the uncorrelated mode a run places every lattice site exactly once, in exactly the order the simulation announces as its site sequence, then reports exhaustion, and further attempts change nothing. Given uniform random draws, every one of the possible orders is equally likely, at construction and again at every reset, independently of what the object did before; the same holds for a caller-supplied list that is to be shuffled.",
    ["inputs", "histories"], "all outcomes of the random generator, at construction, at reset and for shuffled custom lists; all run lengths",
    "Tests run a few seeds and never look at the order itself, so a biased, stale or incomplete order passes.",
    [PERC, "source_py/simulation/percolation_sq_lattice_L0.py"], [("shuffle(), select_site(), reset()", PERC)],
    [("site_ids_indices", "the announced order", "SitePercolation"), ("current_idx", "next position in it", "SitePercolation")],
    ["get_site_id_sequence()", "get_index_sequence()", "place_one_site()"])

add("C10", "Caller-supplied site sequences are followed exactly, or rejected unchanged",
    "A valid list of distinct sites given as identifiers or as row/column pairs makes an uncorrelated (or shortest-path) run place exactly those sites in exactly that order (or, if shuffling is asked for, exactly those sites with every order equally likely, drawn anew at each reset), then stop; both forms are equivalent, the caller's list is never modified, a later list that begins with the sites already placed continues after them, and a reset replays the list from the start. A list naming any site outside the lattice (an identifier or a row or column out of range) is rejected and leaves the simulation's plan unchanged. The interacting modes accept a valid list as their set of candidate sites and still finish without error.",
    ["inputs", "histories"], "all short lists on small lattices, all invalid values in all positions, all continuation points",
    "Tests use three hand-made lists and five recorded files, all valid; rejection, aliasing and reset behaviour are not tested.",
    [PERC, L12, LAT], [("set_custome_site_id_list / set_custome_site_index_list", PERC), ("calculate_id_from_index", LAT), ("select_site bounds", PERC + ", " + L12)],
    [("max_iteration_limit", "length of the custom sequence", "SitePercolation")],
    ["set_custome_site_id_list()", "set_custome_site_index_list()", "place_one_site()", "get_site_id_sequence()"])

add("C11", "L1 mode picks the next site with exactly the nearest-neighbour rule's odds",
    "In L1 mode a trial picks a site uniformly: if it is empty it is occupied; otherwise one of its four nearest neighbours (periodic), chosen uniformly, is occupied if empty, and if not the trial places nothing. In every state a run can reach, given that a trial places a site, each empty site is chosen with exactly the probability this rule implies over all L^2 sites: sites are dropped from consideration only when no trial on them could ever succeed again, and edge sites are treated like any other.",
    ["inputs", "histories"], "all reachable states (occupied set and failed trials so far) of small lattices, all outcomes of the random draws of the next trial",
    "Tests only run seeded simulations to the full lattice; the distribution of the next site is never examined, and a biased rule also fills the lattice.",
    [L12, LAT, "source_py/simulation/site.py"], [("SitePercolationL1.select_site", L12), ("reduce_1st_nn / is_removable decide when a site is dropped", "source_py/simulation/site.py")],
    [("first_nn_count", "neighbours not yet found occupied", "Site"), ("site_ids_indices[current_idx:]", "candidate sites", "SitePercolationL1")],
    ["place_one_site()", "lattice_ref.get_site_gid_by_id"])

add("C12", "L2 mode picks the next site with exactly the straight-on-neighbour rule's odds",
    "In L2 mode a trial picks a site X uniformly and occupies it if empty; otherwise it picks one of the four nearest neighbours Y uniformly and occupies it if empty; otherwise it takes the site Z one step further in the same direction (periodic lattice, also when X and Y lie on opposite edges) and occupies it if empty, else the trial places nothing. In every state a run can reach, given that a trial places a site, each empty site is chosen with exactly the probability this rule implies over all L^2 sites, sites being dropped from consideration only when no trial on them could ever succeed again.",
    ["inputs", "histories"], "all reachable states of small lattices, all outcomes of the random draws of the next trial, all positions including edges and corners",
    "Tests only run seeded simulations to the full lattice; the direction rule at the boundary and the dropping of sites are never examined.",
    [L12, LAT, "source_py/simulation/site.py", "source_py/simulation/index.py"], [("SitePercolationL2.select_site, correct_index_for_periodicity", L12), ("Index.normalize", "source_py/simulation/index.py")],
    [("second_directional_nn_count", "directions not yet found blocked", "Site")],
    ["place_one_site()", "lattice_ref.get_site_gid_by_id"])

add("C13", "Interacting runs always complete: no double placement, no early end, no dead end",
    "Whatever the random draws, every trial of an L1 or L2 run places at most one site, on an empty site, and counts it once; an unsuccessful trial changes no cluster, entropy, order parameter or occupation figure. The run reports exhaustion if and only if every site can no longer produce a placement, at which point the whole lattice is occupied; until then trials report that the run goes on and completion stays possible, and after it further trials change nothing.",
    ["inputs", "histories"], "all runs within a bounded number of deviations from baseline draw tapes, on small lattices, first and later runs on the same object",
    "Seeded runs follow a few tapes of random draws; a bookkeeping slip that needs particular draws (dropping the wrong site, dropping twice) shows up only on some of them.",
    [L12, PERC], [("select_site's replacement of a dropped candidate and termination test", L12), ("place_one_site handles the three outcomes", PERC)],
    [("current_idx", "number of dropped candidates", "SitePercolationL1/L2")],
    ["place_one_site()", "selection_flag", "occupied_site_count"])

add("C14", "A reset simulation behaves like a freshly built one",
    "After a reset at any point of any history (never run, stopped half-way, wrapped, full, reset before, custom list installed) every figure the simulation reports equals that of a new one, and any following sequence of placements and detections produces the same results as on a new simulation given the same site order or the same random draws. Nothing of an earlier realization shows in a later one, in any mode.",
    ["histories"], "all histories up to a bounded length on small lattices, then a reset, then a following run; all modes",
    "Tests reset once, before or after one full run, and only check that the lattice can be filled again.",
    [PERC, L12, SP, LAT, CL, "source_py/simulation/site.py", "source_py/simulation/bond.py"], [("reset() methods of all classes", PERC + ", " + L12 + ", " + SP)],
    [("all attributes of the simulation, lattice and cluster registry", "must be re-initialised or irrelevant", "reset()")],
    ["reset()", "every getter", "run_once()"])

add("C15", "Same class, size and seed give the same results, whatever happened before",
    "Building a simulation of a given class, side and seed and performing given operations on it yields identical site orders, figures and data arrays every time: in a fresh process, with a different hash seed, or after other simulations and random draws in the same process. The same holds for a seeded ensemble's saved numbers; different seeds are able to give different orders.",
    ["configurations", "histories", "inputs"], "all seeds of a range, all classes, all short histories of other activity beforehand, several hash seeds and clock values",
    "The tests pass seeds but never run anything twice and compare.",
    [PERC, ENS, SPR], [("random.seed in the constructor before any draw", PERC), ("seed parameter of the ensemble drivers", ENS)],
    [("global random state", "the only source of randomness", "random module")],
    ["get_site_id_sequence()", "get_data_array()", "files written by the ensemble drivers"])

add("C16", "Simulations sharing a process do not influence each other",
    "Any number of simulation objects can exist in one process: however their operations are interleaved, call by call or line by line in concurrent threads (the package runs ensembles in threads), each reports exactly what it would report if it ran alone with the same site order or the same own random draws.",
    ["schedules", "histories"], "all interleavings of the calls of two simulations; all thread schedules with a bounded number of preemptions at source-line granularity; all pairs of modes",
    "No test has two simulations alive at the same time in use, and none uses threads.",
    [PERC, CL, LAT, L12, RUN], [("all state is kept in instances; defaults like [] are never mutated", CL)],
    [("instance attributes", "the only mutable state", "Percolation and parts")],
    ["every getter", "run_simulation_threads, run_simulation_threads_v2"])

add("C17", "The recorded data table has one aligned, correct row per placed site",
    "After single-realization runs (all sites since construction or the last reset having been placed by such runs), the recorded arrays and the combined table hold exactly one row per site placed since then, in placement order: occupation probability k/L^2, entropy, largest-cluster order parameter and wrapping order parameter (in that column order), each equal to what step-by-step placement and detection report after that placement. This holds in the uncorrelated and both interacting modes (the shortest-path search records no table), for full lattices and custom lists, for first and later runs, after resets, and when a run is continued with a longer list.",
    ["inputs", "histories"], "all placement orders of small lattices, all histories of run / reset / new list / continued run up to a bounded length, all modes",
    "Tests inspect the arrays of five first runs; later runs, runs of another length and the combined table's alignment and columns are not tested.",
    [PERC, L12], [("run_once appends to the four lists", PERC), ("get_data_array", PERC), ("reset clears the lists", PERC)],
    [("occupation_prob_list, entropy_list, order_wrapping_list, order_largest_list", "recorded columns", "SitePercolation")],
    ["run_once()", "get_data_array()", "get_*_array()"])

add("C18", "Looking at a simulation never changes it and always works",
    "Asking any question of a simulation or printing any of its views, any number of times and at any point of its life (before the first placement, between placements, after wrapping, when full, after a reset), raises no error and changes no later answer and no later behaviour. Repeating wrapping detection without placing a site gives the same answer and changes no figure.",
    ["histories"], "every query at every point of all short histories on small lattices, singly and repeated, all modes",
    "Tests call some views for their side effect on the screen; none compares a simulation with and without queries.",
    [PERC, LAT, CL, L12], [("getters copy lists before removing elements", LAT), ("detect_wrapping returns early after wrapping", PERC)],
    [("adjacency and member lists", "handed out by reference by some getters", "Lattice, ClusterPool")],
    ["all getters and views"])

add("C19", "Straight-path search stops at the wrapping cluster's first full row or column",
    "A shortest-path realization (side 3 or more) stops at exactly the first placement after which the detected wrapping cluster contains a complete row or a complete column of the lattice, and reports that occupation probability k/L^2 (it never places further sites in that run). If the given site sequence ends before that happens it reports 0; the critical point it reports is still that of the first wrapping, and row/column scans of the whole lattice agree with the result.",
    ["inputs", "histories"], "every lattice side >= 3, every placement order, including rows completed in another cluster and joined later; repeated runs",
    "Tests only check that a random seeded run ends with some straight line; an early or late stop, or a line that becomes part of the wrapping cluster by a merge elsewhere, is not seen.",
    [SP, PERC], [("run_once, scan_row_col_of_selected_site", SP), ("scan_all_rows / scan_all_cols", SP)],
    [("shortest_path_p", "reported p*", "ShortestPathAfter_pc")],
    ["run_once()", "get_shortest_path_p()", "get_pc()", "scan_all_rows()/scan_all_cols()"])

add("C20", "Ensemble files contain the exact averages and values of the realizations run",
    "An ensemble driver resets and runs the simulation exactly the requested number of times; the entropy/order file holds the element-wise mean over these realizations of their data tables, and the critical-values (or pc/p*) file one row per realization, in order, to the printed precision. The header of every file is JSON that states the true side, ensemble size and columns, and what it says a column contains is what that column contains.",
    ["inputs", "configurations"], "all ensemble sizes and sides of a small range, all modes, all drivers, all data tables of a small alphabet",
    "No test runs an ensemble driver or reads its files.",
    [ENS, SPR], [("run_ensemble_entropy_order, run_ensemble_entropy_order_threads(_v2)", ENS), ("write_entropy_order, write_critical_values", ENS), ("ensemble_shortest_path_v2_thread, write_p_p_star", SPR)],
    [("data", "running sum of tables", "ensemble drivers")],
    ["files under ./data"])

add("C21", "Launching an ensemble over workers runs every realization exactly once",
    "Each launcher starts its workers with the mode and side asked for, waits for all of them, and the workers' ensemble sizes add up to exactly the requested number of realizations, also when it does not divide evenly or is smaller than the number of workers; different workers do not repeat each other's random realizations. Every worker with work to do succeeds and leaves its own result files, whatever order or overlap the workers run in, and a failing worker does not prevent the others' results.",
    ["schedules", "inputs", "fault_sequences"], "all small ensemble sizes x worker counts x modes x launchers, all execution orders of the workers, every subset of failing workers",
    "No test calls a launcher.",
    [RUN, SPR, ENS], [("run_simulation_threads, _v2, _v3, _v4", RUN), ("run_simulation_shortest_path_threads", SPR)],
    [("En_per_thread", "share of each worker", "launchers")],
    ["files under ./data", "calls of the worker function"])

add("C22", "A recorded realization can be replayed and reproduces itself",
    "A single realization saved for cross-checking, in the uncorrelated or an interacting mode, is valid JSON whose identifier sequence and index sequence both list, in placement order, every site of the lattice exactly once and agree with each other. Replaying either sequence in the uncorrelated mode reproduces the saved critical point, critical cluster sizes, entropy list and both order-parameter lists. The sequences and figures a simulation reports after a full run, its first or any later one, reproduce themselves likewise.",
    ["inputs", "histories"], "all random tapes of a bounded family for all three modes and small sides; first and later realizations; the sequences reported by the simulation itself",
    "The test replays five stored files of the uncorrelated mode; no file is produced, and the sequences reported by the interacting modes are never checked.",
    [RUN, PERC, L12], [("single_realization", RUN), ("get_site_id_sequence / get_index_sequence", PERC + ", " + L12)],
    [("site_id_sequence_record", "sites in the order they were placed", "SitePercolationL1")],
    ["single_realization()", "get_site_id_sequence()", "get_index_sequence()", "data_pytest/*.txt"])

add("C23", "The curve-crossing helper finds the crossing",
    "For two sampled curves (given as vectors, or as a chosen column of two tables) whose difference is nowhere zero and changes sign exactly once, the intersection search returns the index i such that the sign changes between samples i and i+1, whatever the magnitudes and whichever curve starts above; if the sign change passes through samples where the curves are equal (and they are equal nowhere else), the returned step leads into or out of that equality. When the sign changes between two adjacent samples, equal samples elsewhere (both curves start at 0 or end at 1) do not move the answer. The plotting variant returns the same index, and the line helpers return equally long vectors that run from one end of the requested range to the other at the requested constant.",
    ["inputs"], "all sign patterns with one crossing up to a bounded length, a small alphabet of magnitudes, all column choices",
    "No test touches the analysis module.",
    ["source_py/analyze/lines.py"], [("find_intersection, find_intersection_and_plot", "source_py/analyze/lines.py"), ("draw_vertical_line_at, draw_horizontal_line_at", "source_py/analyze/lines.py")],
    [], ["return values"])

add("C24", "Finished results are never lost or overwritten",
    "When a driver finishes its realizations the results are stored even if the output folder does not exist yet, and storing never changes or replaces a result file that already exists: two results with the same mode, side and worker number that are saved within the same second, by one process or by concurrent ones, both survive complete. Different modes, sides, workers and kinds of result always go to different files.",
    ["schedules", "fault_sequences", "histories"], "all sequences of up to three saves over a small alphabet of writers and clock readings, folder present or missing, all interleavings of the file operations of two concurrent saves",
    "No test writes a result file; collisions need two results in one second.",
    [ENS, SPR, RUN], [("file names built from signature, side, time to the second and worker number", ENS)],
    [("./data", "output folder", "working directory")],
    ["files under ./data"])

add("C25", "What a simulation has handed out is not changed by later realizations",
    "Everything read from a simulation before a reset (the site and index sequences, the recorded columns, the combined table and the figures of the realization that is over) keeps its value afterwards: neither that reset, nor later realizations, further resets, lists installed later or other simulations alter a result that has already been handed out. So results of several realizations of one object can be collected in a list and compared afterwards.",
    ["histories"], "every sequence of operations of bounded length before and after a reset, all classes, everything read just before each reset",
    "Tests read a result and judge it at once; nothing is kept over a reset.",
    [PERC, L12], [("reset: new recorded lists instead of emptied ones", PERC), ("get_site_id_sequence: the announced order", PERC + ", " + L12)],
    [("entropy_list, order_wrapping_list, order_largest_list, occupation_prob_list, site_ids_indices", "handed out to the user", PERC)],
    ["get_site_id_sequence", "get_index_sequence", "get_*_array"])

add("C26", "Every printed view shows the state of that moment",
    "Whenever it is printed (new, half-way, wrapped, full, after a reset) each view shows exactly the current state: the lattice view shows row by row every site, horizontal bond and vertical bond with its index, its cluster label and identifier, or its identifier and index, according to the format asked for; the label view every site's label and the position view also its relative position; the listings of sites and bonds show each one's identifier, label and own bonds or sites (and its index and position where the listing has them); and the cluster view shows each non-empty cluster once, with its label, the counts and exactly its present sites and bonds, and states the right number of clusters. The strings of single sites, bonds, indices and clusters say the same.",
    ["histories", "inputs"], "every occupied set of small sides and every moment of bounded histories, all classes, all views; larger sides (numbers of several digits and signs)",
    "Tests print views, nobody reads what they print.",
    [LAT, CL, PERC, "source_py/simulation/site.py", "source_py/simulation/bond.py"], [("view, view_relative_index, view_site_gids, list_all_sites, list_all_bonds, print_sites, print_bonds", LAT), ("ClusterPool.view / OneCluster.view", CL)],
    [], ["standard output of viewLattice(0..4), viewCluster(), lattice_ref.list_all_*(), print_*()"])

add("C27", "A reset repairs a realization abandoned at any point",
    "If a placement, a detection, a run, a view or a reset itself is abandoned at any line by an exception (Ctrl-C in a long run, an error), the next reset leaves the simulation as good as new: every figure equals that of a new simulation, the plan of sites is still the one in force, and the following realizations give what a new simulation gives for the same site order or the same random draws.",
    ["fault_sequences", "crash_points", "histories"], "every line executed by an operation as the place where it is abandoned, from every state of bounded runs, all classes; two resets and runs afterwards",
    "No test interrupts anything; the states in between two lines are never seen.",
    [PERC, L12, SP, LAT, CL], [("reset", PERC + ", " + L12 + ", " + SP), ("place_one_site / run_once, whose updates are spread over many lines", PERC)],
    [("occupied_site_count, current_idx, entropy_value, cluster pool", "updated one after the other", PERC)],
    ["all figures after reset"])

add("C28", "The cluster registry keeps its books under every order of operations",
    "Used on its own, the cluster registry numbers clusters consecutively from 0 in the order of their creation since the last reset; a cluster has exactly the sites and bonds given to it at its creation and by later additions (one or a list), with the right counts, and creation labels these members on the lattice; merging one cluster into another gives it all members of the other and relabels exactly those; clearing empties only that cluster; a cluster that was never created is reported as missing. Lists given by the caller are neither changed nor shared, and no operation on one cluster or registry affects another.",
    ["histories"], "every sequence of create / add / merge-and-clear / clear / reset operations up to a depth, and long merging sequences on larger lattices",
    "The tests create clusters in one fixed order and look at the result once.",
    [CL], [("create_new_cluster, add_sites, add_bonds, merge_cluster_with, clear_cluster, reset", CL)],
    [("cluster_list, site_ids, bond_ids, gid", "members and labels", CL)],
    ["ClusterPool.get_sites/get_bonds/get_cluster_*_count/get_cluster", "lattice labels"])

add("C29", "Index arithmetic is exact, componentwise and free of side effects",
    "Site indexes and relative indexes are integer vectors: the sum and the difference of any two (of either kind) are componentwise and leave the operands unchanged, a relative index built from another index has its components and is independent of it, all accessors give the same components in the order row, column, and normalizing a displacement along one axis gives the unit step in its direction and leaves every other displacement unchanged.",
    ["inputs", "histories"], "all pairs of values of a range of components of both signs, every sequence of operations up to a depth on a pool of values",
    "The tests check a few sums of positive values.",
    ["source_py/simulation/index.py"], [("Index and RelativeIndex: __add__, __sub__, normalize", "source_py/simulation/index.py")],
    [], ["row()", "column()", "as_list()", "x_coord()", "y_coord()"])

add("C30", "Result files tell truly when, in which mode and at which side they were made",
    "Every result file (of the ensemble drivers, the writers and the recording of a single realization) states in its header the date and the time of day at which it was saved, also across the turn of a day, month or year; its name begins with the signature of its mode, which differs between the modes, and holds the side, the moment of saving as YYYYMMDD_HHMMSS, and the number of the worker if there is one; the kinds of result have different names.",
    ["inputs", "configurations"], "every month, day, hour, minute and second, turns of day, month and year, with the clock standing or moving on between two looks; all drivers, modes and worker numbers",
    "The time at which tests run is not chosen by them, and no test reads a result file.",
    [ENS, SPR, RUN], [("strftime formats of the headers and names; signature", ENS + ", " + SPR + ", " + RUN)],
    [], ["files under ./data"])

add("C31", "The interacting modes count their looks at first and second neighbours exactly",
    "The summary of the interacting modes counts, since the start of the realization, the trials whose picked site was occupied so that a first neighbour was selected and, in L2, those whose first neighbour was occupied too so that a second neighbour was selected, whether or not the trial then placed a site; it is zero in a new simulation and after a reset. Hence the joint odds of the next placed site and of what the trial adds to the counts are exactly those of the rule in every state.",
    ["inputs", "histories"], "all occupied sets of small lattices, all outcomes of the draws of the next trial, runs with resets",
    "No test reads the summary.",
    [L12], [("x_occupied and y_occupied in select_site; occupied_summary", L12)],
    [("x_occupied, y_occupied", "numbers of looks", "SitePercolationL1, SitePercolationL2")], ["occupied_summary()"])

add("C32", "The built-in self-checks accept every sound simulation and notice corruption",
    "The self-checks a simulation and its lattice carry (test_lattice, test_clusters, test_neighbor_count, test_relative_index, scan_sites, scan_bonds) pass at every moment of every simulation whose wrapping has been looked for, in every mode, and so does the realization with built-in assertions (test_run_once), which places and records exactly what step-by-step placement does until the first wrapping or the end of the plan. They fail when something is wrong: a site or bond whose identifier does not fit its place, a site far from all its neighbours, and on a full lattice any site or bond with another label than the wrapping cluster's, any member left in another cluster, any member missing from or repeated in the wrapping cluster.",
    ["histories", "inputs"], "every moment of all histories of the placement families; every single corruption in full and part-full states of small sides, all classes",
    "The tests rely on these checks as their oracle on a few seeds; nothing tests the oracle.",
    [PERC, LAT], [("test_lattice, test_clusters, test_run_once", PERC), ("test_lattice, test_neighbor_count, test_relative_index, scan_sites, scan_bonds", LAT)],
    [], ["AssertionError or not"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
