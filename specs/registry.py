"""Which proof tasks decide which property."""
from specs import validate, select, alloc, extrapolate, mapping, poly, trace, averager, locate, inverse, kd, overlay, textio, stats, build
from vcg import contracts as C
from vcg.views import NT


class Task:
    def __init__(s, name, build, keep, main=None, t1=2.0, t2=20.0, fn=None, bounded=None):
        s.name, s.build, s.keep, s.main, s.t1, s.t2 = name, build, set(keep), main, t1, t2
        s.fn = fn or s.keep


class Prop:
    def __init__(s, id, tasks, harness, assumptions=(), functions=(), always_bounded=None, lemmas=()):
        s.id, s.tasks, s.harness, s.assumptions, s.functions = id, tasks, harness, list(assumptions), list(functions)
        s.always_bounded = always_bounded     # description: parts decided by the bounded stand-in on every run
        s.lemmas = lemmas


A_DIM = "each grid dimension is between 1 and 2^30 and the number of nodes at most 2^31-1 (class invariant of gridnodes, see properties.jsonl)"
A_OWN = "the node arrays are distinct row tables over distinct matrices, as gu_alloc2d returns them (its contract is C19)"
A_PRINT = "stdio output functions (fprintf, fflush) touch no memory of the program"
A_VALID = "a node is valid iff its x coordinate is not NaN, as everywhere in the code"

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.id] = p


V = ["gridnodes_validate"]
prop("C01", [Task("validate_dd", validate.dd, V)], "h_validate", [A_DIM, A_OWN, A_PRINT, A_VALID], ["gridnodes_validate (gridnodes_validate_dd inlined)"])
prop("C02", [Task("validate_cor", validate.cor, V), Task("validate_none", validate.other(0), V), Task("validate_cen", validate.other(2), V)],
     "h_validate", [A_DIM, A_OWN, A_PRINT, A_VALID], ["gridnodes_validate (gridnodes_validate_cor inlined)"])

K = C.KEEP
prop("C03", [Task("dd_to_cor", select.extract(NT["COR"], True), K), Task("dd_to_cen", select.extract(NT["CEN"], True), K),
             Task("dd_to_cor_unvalidated", select.extract(NT["COR"], False), K), Task("dd_to_cen_unvalidated", select.extract(NT["CEN"], False), K),
             Task("dd_to_dd", select.same_type(NT["DD"]), K), Task("dd_to_none", select.same_type(0), K), Task("copy", select.copy, K)],
     "h_select", [A_DIM, A_OWN, A_VALID], ["gridnodes_transform (double density source)", "gridnodes_copy"])
prop("C06", [Task("mask_cen", select.mask_cen, K), Task("mask_dd", select.mask_dd, K), Task("mask_cor", select.mask_refused(NT["COR"]), K), Task("mask_none", select.mask_refused(0), K)],
     "h_select", [A_DIM, A_OWN, A_VALID, "the mask has one int per cell"], ["gridnodes_applymask"])
prop("C07", [Task("copy", select.copy, K), Task("subgrid", select.subgrid, K)], "h_select", [A_DIM, A_OWN], ["gridnodes_copy", "gridnodes_subgrid"])
prop("C19", [Task("alloc2d", alloc.alloc, K)], "h_select", ["unitsize is between 1 and 2^32; dimensions are below 2^63", "a malloc'ed block is 8-byte aligned", "gu_quit does not return"], ["gu_alloc2d"])
A_REAL = "double arithmetic is read as exact real arithmetic (rounding, overflow and underflow left out); comparisons, NaN and infinities of the inputs are exact"
A_MAP = "building a grid map either refuses or returns a map that refers to the given node arrays and touches nothing else (contract gridmap_build; tasks build_* prove the references and the kind, cutting a binary map may refuse)"
BUILD = [Task("build_" + n, f, build.KEEP) for n, f in (("gridmap", build.choice(False)), ("gridmap2", build.choice(True)), ("kmap", build.kmap), ("bmap", build.bmap))]
F_BUILD = ["gridmap_build", "gridmap_build2", "gridkmap_build", "gridbmap_build"]
prop("C04", [Task("refine_cen", mapping.refine(NT["CEN"], True), K), Task("refine_cen_unvalidated", mapping.refine(NT["CEN"], False), K),
             Task("refine_dd", mapping.refine(NT["DD"], True), K), Task("refine_dd_unvalidated", mapping.refine(NT["DD"], False), K),
             Task("fij2xy_kmap", mapping.fij2xy("gridkmap"), mapping.KEEP9), Task("fij2xy_bmap", mapping.fij2xy("gridbmap"), mapping.KEEP9)] + BUILD,
     "h_map", [A_DIM, A_OWN, A_VALID, A_REAL, A_MAP], ["gridnodes_transform (corner source)", "gridmap_fij2xy"] + F_BUILD)
prop("C09", [Task("fij2xy_kmap", mapping.fij2xy("gridkmap"), mapping.KEEP9), Task("fij2xy_bmap", mapping.fij2xy("gridbmap"), mapping.KEEP9)] + BUILD,
     "h_map", [A_DIM, A_OWN, A_REAL, "the two output cells are distinct and outside the map"], ["gridmap_fij2xy"] + F_BUILD)

P = poly.KP
A_POLY = "a polyline holds at most 2^28 points, all finite, in two separate arrays; its extent is up to date (class invariant, re-established by every operation)"
A_POLYR = "differences, products and distances are read over the reals (no rounding); comparisons are exact"
prop("C15", [Task("poly_containspoint", poly.contains, P)], "h_poly", [A_POLY, A_POLYR], ["poly_containspoint"])
prop("C16", [Task("poly_" + f.__name__, f, P) for f in (poly.create, poly.addpoint, poly.addpointat, poly.deletepoint, poly.append, poly.clear, poly.copy, poly.close, poly.destroy)],
     "h_poly", [A_POLY, A_POLYR, "an insertion index is not negative, a deletion index is that of a point", "appending: the two polylines are different objects"],
     ["poly_create", "poly_addpoint", "poly_addpointat", "poly_deletepoint", "poly_append", "poly_clear", "poly_copy", "poly_close", "poly_destroy"])
prop("C17", [Task("poly_" + f, getattr(poly, f), P) for f in ("resample", "despike", "reverse", "compact")], "h_poly", [A_POLY, A_POLYR], ["poly_resample", "poly_despike", "poly_reverse", "poly_compact"])
prop("C18", [Task("poly_formbound", trace.formbound, P), Task("poly_formboundij", trace.formboundij, P), Task("poly_create", poly.create, P), Task("poly_addpoint", poly.addpoint, P), Task("poly_close", poly.close, P)],
     "h_poly", [A_DIM, A_POLYR, A_VALID, "coordinates of valid nodes are finite; the tracing ends and the boundary has at most 2^28 points"], ["poly_formbound", "poly_formboundij", "poly_create", "poly_addpoint", "poly_close"])
A_GRIDMAP = "all map fields are those of a map as built (tasks build_*) or as left by earlier calls"
prop("C10", [Task("xy2fij_safe_" + k, inverse.safe("grid" + k), K) for k in ("kmap", "bmap")]
     + [Task("xy2fij_%s_%s" % (w, k), inverse.inverse("grid" + k, c), K) for k in ("kmap", "bmap") for c, w in ((0, "affine"), (1, "plus"), (-1, "minus"))]
     + [Task("xy2fij_first_%s%s_%s" % (w, "" if r else "_parallel", k), inverse.first("grid" + k, c, r), K) for k in ("kmap", "bmap") for c, w in ((1, "plus"), (-1, "minus")) for r in (True, False) if r or k == "kmap"] + BUILD,
     "h_map", [A_DIM, A_REAL, A_GRIDMAP, "location (C11) is a function of the point; the corners of a located cell and the point are finite", "exactness is shown for cells whose quadratic coefficient is 0 or at least 1e-5 in size, and if the branch on record is that of the cell (all cells of a map are taken to have the orientation of the first one located)",
               "the branch chosen on the first call: the Jacobian of the cell has one sign, no line of constant u in it is shorter than 1e-5"],
     ["gridmap_xy2fij", "calc_branch"] + F_BUILD)
prop("C11", [Task("xy2ij_tree_of_nodes", locate.kmap, locate.KEEP), Task("xy2ij_tree_of_cells", locate.bmap, locate.KEEP)]
     + [Task("xy2ij_" + k, locate.xy2ij("grid" + k), locate.KEEP) for k in ("kmap", "bmap")] + [Task("poly_containspoint", poly.contains, P)] + BUILD,
     "h_map", [A_DIM, A_REAL, A_GRIDMAP, "the nearest-node search returns a node of a non-empty tree (C13); a tree of nodes holds grid nodes only, with their original numbers (C12)", "the tree of cells is well formed: linked parts exist and leaves name cells of the grid"],
     ["gridmap_xy2ij", "gridkmap_xy2ij", "gridbmap_xy2ij", "poly_containspoint", "poly_create", "poly_addpoint"] + F_BUILD)
prop("C20", [Task("ga_%s_%s" % (f.__name__, k), f("grid" + k), averager.KEEP) for f in (averager.create, averager.addpoints, averager.getvalue) for k in ("kmap", "bmap")] + BUILD,
     "h_map", [A_DIM, A_OWN, A_REAL, "location (C11) is a function of the point", "point values are finite and fewer than 2^31 points are added in total"], ["ga_create", "ga_addpoints", "ga_getvalue"] + F_BUILD)

KD = kd.KEEP
A_KD = "trees of 2 or 3 dimensions (the library makes 2; 1 to 4 are covered by the executable contract only); at most 2^30 nodes and 2^30 places of storage; the subtree relations are defined by recursion from where each node was attached"
prop("C12", [Task("kd_create", kd.create(2), KD)] + [Task("kd_destroy_" + c, kd.destroy(2, c), KD) for c in ("empty", "full", "room")]
     + [Task("kd_attach_%s_%d" % (c, d), kd.insert(d, c), KD) for d in (2, 3) for c in ("root", "first", "left", "right")]
     + [Task("kd_refused_%d" % d, kd.refused(d), KD) for d in (2, 3)]
     + [Task("kd_insertnode_%s_%d" % (c, d), kd.insertnode(d, c), KD) for d in (2, 3) for c in ("empty", "full", "room")]
     + [Task("kd_shuffle", kd.shuffle("kdtree"), KD)]
     + [Task("kd_insertnodes_%s_%s_%d" % (c, "shuffled" if r else "plain", d), kd.insertnodes(d, c, r), KD) for d, r in ((2, False), (2, True), (3, True)) for c in ("empty", "grow", "room")]
     + [Task(f, kd.getters(f, 2), KD) for f in ("kd_getsize", "kd_getnodecoords", "kd_getnodeorigid", "kd_getminmax")],
     "h_kd", [A_KD, "where the first coordinate is finite the others are not NaN"],
     ["kd_create", "kd_destroy", "_kd_insertnode", "kd_insertnode", "kd_insertnodes", "shuffle", "kd_getsize", "kd_getnodecoords", "kd_getnodeorigid", "kd_getminmax"])
A_KDR = "differences, squares and sums are read over the reals; a square is known by sign, evenness and monotonicity; coordinates of nodes and query are finite"
prop("C13", [Task("kd_nearest_below_%d" % d, kd.nearest_below(d), KD) for d in (2, 3)] + [Task("kd_nearest_%d" % d, kd.nearest(d), KD) for d in (2, 3)],
     "h_kd", [A_KD, A_KDR, "the tree is well formed, as insertion leaves it (C12), and not empty"], ["kd_findnearestnode", "_kd_findnearestnode"])
prop("C14", [Task("kdset_insert_" + c, kd.set_insert(c), KD) for c in ("empty", "some")]
     + [Task("kd_range_below_%d" % d, kd.range_below(d), KD) for d in (2, 3)] + [Task("kd_range_%s_%d" % (c, d), kd.range_search(d, c), KD) for d in (2, 3) for c in ("empty", "some")]
     + [Task("kdset_read_" + c, kd.read(c), KD) for c in ("null", "empty", "begin", "next", "end")] + [Task("kdset_free_" + c, kd.release(c), KD) for c in ("null", "any")]
     + [Task("kdset_getsize", kd.getters("kdset_getsize", 2), KD)],
     "h_kd", [A_KD, A_KDR, "the range is finite and not negative", "a set of distinct nodes is no larger than the tree (counting)", "the tree is well formed, as insertion leaves it (C12)"],
     ["kd_findnodeswithinrange", "_kd_findnodeswithinrange", "_kdset_insert", "kdset_read", "kdset_free", "kdset_getsize"])

A_TEXT = "lines are shorter than the buffer they are read into (10240 characters) and hold no NUL character; a stream delivers the text of its file, and writing to it succeeds"
A_SCAN = "sscanf is a function of the line and the format; fprintf of the value and the conversion (their text is not modelled further)"
A_CMD = "the command line is arbitrary (parse_commandline is not under contract: it ends the program or sets its variables to anything)"
prop("C08", [Task("insertgrid_" + w, overlay.insert(m), overlay.KEEP, main="insertgrid") for w, m in (("insert", False), ("merge", True))],
     "h_tools", [A_DIM, A_CMD, "offsets and dimensions of the combined grid are within 2^30 and its number of nodes within 2^31-1", "gridnodes_read returns a grid (C22), gridnodes_validate keeps or erases nodes (C01, C02), gridnodes_write writes it (C23)"],
     ["main of insertgrid", "gridnodes_create", "gridnodes_destroy", "gridnodes_getnx", "gridnodes_getny", "gridnodes_getx", "gridnodes_gety"])
X = textio.KEEP
prop("C22", [Task("read_" + t.lower(), textio.read(NT[t]), X) for t in ("NONE", "DD", "CEN", "COR")] + [Task("readnextpoint", textio.nextpoint, X)],
     "h_tools", [A_TEXT, A_SCAN, A_OWN, "the header's numbers fit into int"], ["gridnodes_read", "gridnodes_readnextpoint"])
prop("C23", [Task("write_" + w, textio.write(w), X) for w in ("x", "y", "xy")],
     "h_tools", [A_DIM, A_OWN, A_VALID, A_SCAN, "writing to the stream succeeds"], ["gridnodes_write"])
prop("C24", [Task("readmask", textio.mask, X)], "h_tools", [A_TEXT, "mask dimensions are at least 1 and their product at most 2^31-1"], ["gu_readmask"])
prop("C25", [Task("setbathy_" + w, textio.setbathy(h), X, main="setbathy") for w, h in (("header", True), ("dimensions", False))],
     "h_tools", [A_TEXT, A_SCAN, A_CMD, "a value to set was given (-z)"], ["main of setbathy"])

EX = extrapolate.KEEP
prop("C05", [Task("extrapolate_%s%s" % (w, "" if v else "_unvalidated"), extrapolate.extrapolate(NT[t], v), EX, t1=4.0) for w, t in (("cor", "COR"), ("dd", "DD")) for v in (True, False)]
     + [Task("fij2xy_extrapolate", extrapolate.fij2xy, EX), Task("shuffle", kd.shuffle("gridnodes"), KD)]
     + [Task("validate_%s_direct" % k, validate.direct(k), EX) for k in ("cor", "dd")],
     "h_map", [A_DIM, A_OWN, A_VALID, A_REAL, "a centre grid has at most 2^30 nodes", "the tree is used through the contracts of C12 and C13: a set of positions, and a position of it none is nearer than", "hypot is the Euclidean length (compared with 1.5 on half-integers)"],
     ["gridnodes_transform (centre source)", "fij2xy", "shuffle (of gridnodes.c)", "gridnodes_validate_cor", "gridnodes_validate_dd"])

S = stats.KEEP
prop("C21", [Task("dtheta", stats.dtheta, S), Task("stats_cor_none", stats.calcstats(NT["COR"], None, False), S), Task("stats_cor_some", stats.calcstats(NT["COR"], None, True), S),
             Task("stats_dd", stats.calcstats(NT["DD"], None, False), S), Task("stats_cen", stats.calcstats(NT["CEN"], True, False), S), Task("stats_none", stats.calcstats(NT["NONE"], True, True), S)],
     "h_stats", [A_DIM, A_OWN, A_VALID, A_REAL, "the nodes of complete cells are finite and no side or line between middles of opposite sides of such a cell has length zero", "acos(-t) = pi - acos(t), acos is defined and finite between -1 and 1; hypot(x, y) is a function of x^2 + y^2 with its square equal to it"],
     ["gridnodes_calcstats (gridnodes_calcstats_cor, gridstats_init inlined)", "dtheta"])
