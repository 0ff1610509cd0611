#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
S = "source_py/simulation/"
LAT, CLU, PERC = S + "lattice.py", S + "cluster.py", S + "percolation_sq_lattice.py"
L0, L12, SP = S + "percolation_sq_lattice_L0.py", S + "percolation_sq_lattice_L1L2.py", S + "percolation_sq_lattice_shortest_path.py"
SITE, BOND, IDX, EL = S + "site.py", S + "bond.py", S + "index.py", S + "element.py"
ENS, RUN, SPR = "run_py/ensemble.py", "run_py/rsbd_percolatioin_run.py", "run_py/shortest_path_run.py"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Periodic wiring of the lattice",
     "For every lattice length L >= 3, each of the L*L sites is joined to exactly four distinct bonds, the ones leading to its right, lower, left and upper nearest neighbour with periodic wrap-around in both directions. Each of the 2*L*L bonds joins exactly the two adjacent sites it leads between. Every neighbour query on a site or bond answers with exactly these sites or bonds.",
     ["inputs", "configurations"], "all lattice lengths L >= 3, all sites and bonds",
     "The tests build lengths 4 and 6..10 (plus a few random ones up to 50) and only check that the site->bond and bond->site tables mention each other, which a mis-wired (e.g. helical or shifted) lattice also satisfies.",
     [LAT, SITE, BOND], [("neighbour bond arithmetic (right/bottom/left/top)", LAT), ("wiring loop filling both tables", LAT), ("capacity guards 4 / 2", SITE + ", " + BOND)],
     [("site->bond table", "four bond ids per site", SITE), ("bond->site table", "two site ids per bond", BOND)],
     ["Lattice(length).get_neighbor_bonds / get_neighbor_sites / get_all_neighbor_sites / get_site_neighbor_of_site", "SitePercolation.get_neighbor_site / get_connected_sites"])

prop("C02", "Ids, positions and indices agree",
     "For every lattice length, the site at row r and column c has id r*L+c, the horizontal (vertical) bond anchored there has id r*L+c (L*L+r*L+c), and each element reports the index it was created for. Every lookup or conversion between id, index and element returns the element carrying that id and index, so conversions in the two directions are inverse to each other.",
     ["inputs", "configurations"], "all L >= 3, all rows, columns and bond orientations",
     "Tests compare id and index for a handful of lengths through one of the conversion functions only; the other lookups (by index, bond by row/column/orientation, row/column of an id) are never cross-checked.",
     [LAT, EL, IDX, SITE, BOND], [("row-major id arithmetic", LAT), ("construction loop assigning ids and indices", LAT)],
     [("element id / index", "identity of a site or bond", EL + ", " + SITE + ", " + BOND)],
     ["Lattice.calculate_id_from_index, get_id_from_index, get_row_col_from_id, get_site_by_id, get_site_by_index, get_bond_by_id, get_bond_by_index, get_site_gid_by_*"])

prop("C03", "Lattice geometry never changes after construction",
     "Once a lattice is built, no operation (placing sites, merging clusters, wrapping tests, resets, neighbour queries, views) adds, removes, reorders or rewrites the ids, indices or neighbour tables of its sites and bonds, nor the lattice's length and counts.",
     ["histories", "inputs"], "all sequences of public operations on any of the simulation classes",
     "The neighbour tables are handed out by reference, so any caller that forgets to copy before editing corrupts the geometry for the rest of the process; tests sample a few runs and would miss a corruption on a path they do not take or that only shows in a later realisation.",
     [LAT, PERC, L12, SITE, BOND, EL], [("copy before removing the central site", LAT + ", " + PERC), ("reset of sites/bonds leaves tables alone", SITE + ", " + BOND)],
     [("neighbour tables", "site->bonds, bond->sites", SITE + ", " + BOND), ("ids, indices, sizes", "geometry", EL + ", " + LAT)],
     ["Lattice.get_neighbor_bonds / get_neighbor_sites before and after any history"])

prop("C04", "Observers do not disturb the simulation",
     "Reading results or inspecting the system - every getter, scan, count, occupation probability, entropy, order parameter, view/print/list function and self-check - leaves the simulation state untouched and consumes no random numbers. Calling any of them any number of times, at any point, therefore cannot change the rest of the realisation.",
     ["histories", "inputs"], "all observer calls interleaved anywhere in all realisations",
     "Tests never compare a run with interleaved observers against one without; a lazily updating or reordering getter passes them.",
     [PERC, LAT, CLU, SP, L12, SITE, BOND], [("getters return stored values", PERC), ("views only print", LAT + ", " + CLU)],
     [("all simulation state", "everything reachable from a percolation object, and the global random stream", PERC)],
     ["any two runs with equal seed, with and without extra observer calls"])

prop("C05", "Each placement occupies exactly one empty site",
     "A placement step that reports success occupies exactly one site, and that site was unoccupied before; the occupied-site count grows by exactly one and the occupation probability is always that count divided by the number of sites. A step that selects nothing changes neither the count nor any site's occupation, and the step function reports 'no more' exactly when the selection is exhausted.",
     ["inputs", "histories"], "all lengths, seeds, site orders and selection rules (plain, L1, L2, shortest path)",
     "Tests only look at the final, fully occupied state of a few runs; duplicated or skipped placements in the middle, or after custom lists and resets, are not observed.",
     [PERC, L12, SP], [("select step with emptiness assertion", PERC + ", " + L12), ("place step dispatching on the selection outcome", PERC)],
     [("occupied count", "numerator of p", PERC), ("site label", "-1 while empty", SITE if False else EL)],
     ["place_one_site(), occupation_prob(), site gids"])

prop("C06", "Cluster labels and member lists always agree",
     "At every step each bond, and each occupied site, is a member of exactly one cluster and carries that cluster's label; each step joins the new site and all distinct clusters on its four bonds into one of them. Clusters absorbed by a merge give all their sites and bonds to the surviving cluster, with the labels rewritten to the survivor's, and are left empty; no other cluster changes.",
     ["inputs", "histories"], "all lengths, all placement orders, all merge patterns (1-4 distinct clusters around the new site)",
     "Tests check membership only in the final state, where everything is in one cluster; transient double membership, a label left behind, or an undrained cluster in a particular merge pattern is invisible to them.",
     [PERC, CLU, LAT], [("merge routine relabelling and concatenating member lists", CLU), ("survivor choice, distinct-neighbour filtering, draining of absorbed clusters", PERC)],
     [("label of site/bond", "cluster it belongs to, -1 if none", EL), ("member lists", "sites and bonds of each cluster", CLU)],
     ["get_cluster_bond_count/site_count, get_sites/get_bonds, site and bond gids after every place_one_site()"])

prop("C07", "Incremental entropy matches the cluster-size distribution",
     "The running entropy starts at the logarithm of the bond count for the empty lattice, and each successful placement subtracts exactly the contributions -mu*ln(mu) of the distinct clusters that the placement is about to join (each once, with sizes before the merge) and adds the contribution of the merged cluster (size after the merge), mu being the cluster's share of all bonds. Nothing else changes it, and the direct evaluation sums the same expression over all clusters.",
     ["inputs", "histories"], "all lengths, placement orders and merge patterns, all simulation classes, after any reset",
     "Only five recorded L0 runs compare entropies; L1, L2, repeated realisations and interleavings with resets are never compared against the definition.",
     [PERC, CLU], [("subtract before merge / add after merge", PERC), ("distinct neighbour labels", PERC)],
     [("running entropy", "Shannon entropy of bond shares", PERC)],
     ["entropy(), entropy_v1(), entropy_v2() after each step"])

prop("C08", "Largest-cluster order parameter tracks the true maximum",
     "After every successful placement the recorded largest size is the larger of its previous value and the bond count of the cluster just formed, the recorded largest cluster is one having that size, and the order parameter is that size divided by the total number of bonds. Steps that place nothing leave it unchanged.",
     ["inputs", "histories"], "all lengths, placement orders and merge patterns, all simulation classes",
     "Tests check the final value (always the full lattice) and five recorded L0 runs; a tracker that updates before the merge, counts sites, or misses a merge pattern converges to the same final value.",
     [PERC, CLU], [("largest tracking after each merge", PERC)],
     [("largest size and id", "running maximum over merged clusters", PERC)],
     ["largest_cluster(), order_param_largest_clstr()"])

prop("C09", "Wrapping is latched and the critical point recorded once",
     "Wrapping is declared at the first test that finds it and stays declared until a reset; at that moment, and never again, the occupied-site count and the site and bond counts of the wrapping cluster (the one holding the last placed site) are recorded as the critical values. From then on the wrapping cluster keeps its identity through every merge it takes part in, its order parameter is its current share of all bonds (zero before wrapping), and critical values read as zero while nothing has wrapped.",
     ["histories", "inputs"], "all histories of place / test / reset, all classes, all merge patterns before and after wrapping",
     "The unit tests read the critical point only for five recorded L0 runs and never after continued placement or on a second realisation; losing the wrapping cluster when a larger one is merged later needs a rare configuration.",
     [PERC, CLU], [("early return once wrapped; single assignment of the critical values", PERC), ("survivor choice prefers the wrapping cluster", PERC)],
     [("wrapped flag, wrapping id", "latched state", PERC), ("critical counts", "values at pc", PERC)],
     ["detect_wrapping(), get_pc(), get_site_count_wrapping_cluster_pc(), get_bond_count_wrapping_cluster_pc(), order_param_wrapping()"])

prop("C10", "Relative coordinates are consistent, wrapping test is exact",
     "Neighbouring occupied sites joined while no wrap closes between them differ by exactly the unit lattice step in their relative coordinates, also across the periodic edge: a new site takes its coordinates from its neighbour in the surviving cluster, and every site of an absorbed cluster is shifted by one common displacement that restores unit steps to the new site. The wrapping test reports a wrap exactly when some neighbour of the last placed site in the same cluster differs from it by more than one unit in either coordinate.",
     ["inputs", "histories"], "all lengths L >= 3, all neighbour directions including across the edge, all merge patterns",
     "The self-check used by the tests only asks for one neighbour with a plausible difference; a sign error across one edge, a partial shift or a one-coordinate test only shows for particular cluster shapes.",
     [PERC, LAT, IDX], [("periodic correction of index differences", PERC), ("relabelling of absorbed clusters", PERC), ("unit-step test on same-cluster neighbours", PERC)],
     [("relative index", "unwrapped coordinate of a site inside its cluster", SITE)],
     ["get_relative_index() of sites, detect_wrapping()"])

prop("C11", "Reset restores the freshly built state",
     "After a reset, everything a later realisation can read before writing it - labels, relative coordinates, neighbour counters, clusters, counters, entropy, largest and wrapping records, result curves, selection window, per-class extras - has the value it has in a newly constructed object of the same class and length, apart from the configured site order (and its random shuffling). A realisation run after any history followed by a reset is therefore distributed as one on a fresh object.",
     ["histories", "configurations"], "all histories before the reset, all four simulation classes",
     "Tests reset a fresh object or run twice and look only at the final state, which is the same for every realisation; a field that leaks from the previous realisation and only changes intermediate values stays unseen.",
     [PERC, LAT, CLU, SITE, BOND, EL, L0, L12, SP], [("cooperative reset chain over percolation, lattice, sites, bonds, clusters", PERC)],
     [("every mutable attribute", "state of one realisation", PERC)],
     ["two realisations separated by reset() versus two fresh objects"])

prop("C12", "Result curves have one aligned row per placed site",
     "A realisation of the plain, L1 or L2 rule appends to the occupation-probability, entropy and the two order-parameter curves exactly one entry per successfully placed site and none otherwise, all taken after the placement and its wrapping test, so the four curves always have equal length within any one realisation (first or later, with default or custom site orders). The combined data array holds them row by row in the column order p, entropy, largest-cluster order parameter, wrapping-cluster order parameter.",
     ["histories", "inputs"], "all realisations, all histories of resets, custom site lists and continued runs",
     "Tests never call the combined array; the curves are compared for five first realisations only.",
     [PERC, L0, L12], [("per-step recording loop", PERC), ("column assembly", PERC)],
     [("four result lists", "curves of the current realisation", PERC)],
     ["run_once(), get_data_array(), get_*_array()"])

prop("C13", "Handed-out results and handed-in lists are never modified",
     "Curves and site sequences returned for one realisation keep their contents when the object is reset and run again, and a site list supplied by the caller is never modified by the simulation.",
     ["histories"], "all histories that keep a returned list or reuse a supplied list across resets and later runs",
     "No test keeps a result across a reset, and the one test that passes a list for shuffling does not compare it afterwards.",
     [PERC, L12], [("fresh lists on reset", PERC), ("copy of supplied lists", PERC)],
     [("result lists, site order", "objects shared with the caller", PERC)],
     ["get_entropy_array(), get_order_param_*_array(), get_occupation_prob_array(), get_site_id_sequence(), set_custome_site_id_list()"])

prop("C14", "A seed determines the realisation",
     "A simulation object given a seed (any value, including 0) seeds the random stream with exactly that value before drawing from it, and never reseeds afterwards; without a seed it never seeds. All randomness of a realisation comes from this one stream, and no clock, process, hash or other ambient value influences the simulation, so equal class, length, seed and call history give equal results. An ensemble runner that is given a seed creates the object it runs with exactly that seed, and neither seeds nor draws itself.",
     ["inputs", "histories", "configurations"], "all classes, seeds and call histories",
     "No test compares two runs with the same seed, or uses a seed other than a few fixed ones in a way that would notice it being ignored.",
     [PERC, L12, L0, SP, ENS, SPR], [("seeding in the constructor under a presence test", PERC), ("draws through the random module only", PERC + ", " + L12)],
     [("global random stream", "source of all draws", PERC)],
     ["two equal constructions and histories"])

prop("C15", "L1 and L2 choose only sites their rule allows",
     "In the L1 rule a step draws a candidate uniformly from the remaining window and occupies it if empty, otherwise one uniformly drawn nearest neighbour if that is empty; the L2 rule additionally tries the next site in the same direction beyond that neighbour, with periodic wrap-around across the lattice edge, and nothing else is ever occupied. Only occupied candidates are ever dropped from the window, each exactly when a failed step has used up its last neighbour attempt, so every empty site stays selectable and the window is exactly the undropped candidates; with a caller-supplied list the run ends when that list is used up.",
     ["inputs", "histories"], "all lengths, occupations, candidates and directions (including across the edge)",
     "Tests only see that the lattice finally fills; which sites were eligible on the way, in particular across the periodic edge, is never examined.",
     [L12, LAT, IDX], [("candidate / neighbour / beyond-neighbour selection", L12), ("window compaction on exhausted candidates", L12)],
     [("candidate window", "site order and its start position", L12), ("neighbour counters", "attempts left per candidate", SITE)],
     ["SitePercolationL1/L2.select_site(), place_one_site()"])

prop("C16", "Custom site orders are validated and followed",
     "A caller-supplied list of site ids or (row, column) indices containing any position outside the lattice is rejected without changing the object; an accepted list becomes the site order in full, index lists being converted by row*L+column. In the plain rule the sites are then occupied in exactly that order (or a permutation of it if shuffling was requested), one per step, and the run ends after the last; a reset starts over with the same list.",
     ["inputs", "histories"], "all lists (valid, invalid, any length up to L*L), with and without shuffling",
     "Tests use valid lists only, with a fixed handful of configurations.",
     [PERC, LAT], [("range validation before assignment", PERC), ("sequential selection up to the list length", PERC)],
     [("site order, iteration limit, shuffle mode", "custom configuration", PERC)],
     ["set_custome_site_id_list(), set_custome_site_index_list(), place_one_site()"])

prop("C17", "Shortest-path point is the first straight crossing after wrapping",
     "A shortest-path realisation stops at the first placed site for which wrapping has occurred and the whole row or the whole column of that site belongs to the wrapping cluster, and records the occupation probability at that moment; if that never happens it records zero. The full-lattice scans answer true exactly when some complete row (or column) belongs to the wrapping cluster.",
     ["inputs", "histories"], "all lengths, placement orders, and repeated realisations",
     "Tests compare the recorded value against the scans only for being non-zero; recording it late, for the wrong cluster, or a stale value from an earlier realisation passes.",
     [SP, PERC], [("row/column scan of the placed site", SP), ("record and stop", SP)],
     [("shortest-path p", "recorded occupation probability", SP)],
     ["ShortestPathAfter_pc.run_once(), get_shortest_path_p(), scan_all_rows(), scan_all_cols()"])

prop("C18", "Exported site sequence is the order of occupation",
     "For every simulation class the exported site-id sequence and the exported index sequence list the sites of the current realisation in the order in which they were occupied, describe the same sites, and start empty (or at the configured order for the plain rule) after a reset. A realisation can therefore be replayed from its export.",
     ["inputs", "histories"], "all classes, seeds and realisations",
     "The cross-check data covers the plain rule only; for L1/L2 nothing compares the exported sequence with the sites actually occupied.",
     [PERC, L12, RUN], [("sequence getters", PERC + ", " + L12), ("recording at selection", L12)],
     [("sequence record", "ids in order of occupation", L12)],
     ["get_site_id_sequence(), get_index_sequence(), single_realization()"])

prop("C19", "Ensemble averages are over exactly the stated realisations",
     "Every ensemble runner performs exactly the requested number of realisations, each preceded by its own reset and each contributing its data exactly once, and divides the sum by that same number; the ensemble size written in the output header equals it. Per-realisation records (critical values, shortest-path points) have one row per realisation, read after that realisation's run.",
     ["inputs", "histories"], "all ensemble sizes >= 1, lengths, classes",
     "No test touches the run scripts.",
     [ENS, SPR], [("reset / run / accumulate loop and final division", ENS), ("record per realisation", ENS + ", " + SPR)],
     [("running sum", "accumulated data", ENS)],
     ["files written by the ensemble runners"])

prop("C20", "Output files describe the columns they contain",
     "In every data file written, the header is JSON giving the lattice length, the ensemble size, and a column list with one name per data column in the data's own order; the names and descriptions identify the quantity actually stored in that column (in particular largest-cluster versus wrapping-cluster order parameter, site versus bond counts).",
     ["configurations", "inputs"], "all writers, all classes",
     "No test reads or writes an output file through these writers; labels are free text no test interprets.",
     [ENS, SPR, RUN, PERC], [("header dictionaries next to each save", ENS + ", " + SPR + ", " + RUN)],
     [("header", "JSON first line", ENS)],
     ["files under data/"])

prop("C21", "Results of different workers never overwrite each other",
     "Every result file name contains the simulation signature, the kind of data, the lattice length, a time stamp and, for worker processes, the worker number, so that no two workers of one launch, no two lattice lengths, classes or kinds of data share a file. The directory for results and logs is created when missing before anything is written to it, so a finished simulation is never lost for lack of it.",
     ["configurations", "schedules", "fault_sequences"], "all launches, worker counts, classes, lengths; missing output directory",
     "No test runs a writer; collisions need two workers finishing in the same second.",
     [ENS, SPR, RUN, "main.py"], [("file name assembly", ENS + ", " + SPR + ", " + RUN), ("output directory", ENS)],
     [("file name", "identity of a result", ENS)],
     ["names of files under data/ and logs/"])

prop("C22", "A launch starts, feeds and awaits every worker",
     "A parallel launch starts one worker per requested worker number (at most: numbers whose share is empty may be left out) with distinct numbers, gives them shares that add up to exactly the requested number of realisations, and returns only after all started workers have been awaited. Each worker function receives arguments matching its parameters, runs the simulation class selected by the requested interaction, and no two workers are given a common seed.",
     ["configurations", "schedules", "inputs"], "all worker counts and ensemble sizes (divisible or not), all interaction choices",
     "No test launches workers; several launchers have never been executed at all.",
     [RUN, SPR, ENS, "main.py"], [("process/thread fan-out loops", RUN + ", " + SPR)],
     [("shares", "realisations per worker", RUN)],
     ["run_simulation_threads*(), run_simulation_shortest_path_threads()"])

prop("C23", "Line helpers find crossings and draw straight lines",
     "The crossing finder returns the first position at which the sign of the difference of the two given curves (or selected columns) jumps the most, and its plotting variant returns the same position while drawing only on the given axes. The line helpers return equally long coordinate arrays of the requested size, one constant at the given value, the other evenly spaced over the given range, and work with their default range.",
     ["inputs"], "all curves, columns, values, ranges and sizes",
     "No test imports the analysis helpers.",
     ["source_py/analyze/lines.py"], [("sign-change search", "source_py/analyze/lines.py"), ("linspace / constant arrays", "source_py/analyze/lines.py")],
     [], ["find_intersection(), find_intersection_and_plot(), draw_vertical_line_at(), draw_horizontal_line_at()"])

prop("C24", "A fully occupied lattice is one wrapping cluster",
     "When every site has been occupied, all sites and bonds belong to one cluster, wrapping has been declared, both order parameters equal one and the entropy is zero up to rounding.",
     ["inputs", "histories"], "all lengths >= 3, all placement orders and classes",
     "Tests check this end state for some dozens of runs; it must hold for every order.",
     [PERC, CLU, LAT], [("merging", PERC)], [], ["order_param_*() after run_once()"])

prop("C25", "Unbiased statistics and correct critical point",
     "Averaged over seeds, every placement order of the plain rule is equally likely and the measured critical occupation converges, with growing length, to the known site-percolation threshold of the square lattice (and to the L1/L2 values for those rules).",
     ["inputs", "configurations"], "distribution over seeds, limit of large lengths",
     "A statistical and asymptotic claim.",
     [PERC, L12, ENS], [("shuffle / random selection", PERC)], [], ["get_pc() over ensembles"])

prop("C26", "Every realisation terminates and its cost stays bounded",
     "Every realisation ends after finitely many steps with probability one, and its time and memory grow no faster than the documented near-linear cost in the number of sites.",
     ["inputs", "configurations"], "all seeds and lengths",
     "Termination of L1/L2 is almost sure only; cost depends on run-time cluster sizes.",
     [PERC, L12, "Docs/time-required.txt"], [("window shrinkage", L12)], [], ["run_once()"])

prop("C27", "Every name, attribute and call resolves",
     "No operation of the programs - the simulation classes, the runner scripts, the analysis helpers, the entry scripts and their demonstration functions - ever fails because something it refers to does not exist: every variable read is defined on every path to the read, every attribute and method used on an object of the repository's classes or modules (and of the imported standard modules) exists on it, every imported item is there, and every call of the repository's own functions, methods and classes passes arguments its signature accepts.",
     ["inputs", "configurations"], "every function, every path to every use, every call site of the source tree",
     "Python binds names when a line runs; the tests run the lines of a few classes and never the runners, viewers, demonstrations and rarely taken branches, where a stale name or signature only shows up in production.",
     ["main.py", "load_modules.py", RUN, SPR, ENS, LAT, CLU, PERC, L0, L12, SP, SITE, BOND, IDX, EL, "source_py/simulation/arguments.py", "source_py/simulation/states.py", "source_py/analyze/lines.py"],
     [("module imports and star imports", "main.py, load_modules.py, " + RUN), ("class attributes set in constructors", PERC + ", " + LAT), ("calls between classes", PERC + " -> " + LAT + ", " + CLU)],
     [], ["any call of any function or method"])

prop("C28", "Coordinate arithmetic and lattice distances are exact",
     "Sums and differences of indices and relative indices are component-wise, give new objects and leave their operands unchanged; a relative index built from components or from another index has exactly these components; normalising an axis-parallel index turns it into the unit step of the same direction and leaves every other index as it is. The distance of two lattice positions, given as sites or as indices in any mix, is per component the absolute difference with L-1 counting as one (the periodic edge); it is symmetric and is (1,0) or (0,1) for each of the four neighbours, also across an edge.",
     ["inputs", "configurations"], "all component values, all lengths L >= 3, all pairs of positions",
     "The tests touch this arithmetic only through whole runs, where a wrong sign in an unused branch or across one edge goes unnoticed.",
     [IDX, LAT], [("component arithmetic", IDX), ("edge correction of the distance", LAT)],
     [("components of an index", "row and column", IDX)], ["Index/RelativeIndex + - normalize row column x_coord y_coord, Lattice.distance_btn_sites()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties ->", out)
