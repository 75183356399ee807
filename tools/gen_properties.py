#!/usr/bin/env python3
"""Source of properties.jsonl (one property per line). Run: python3 tools/gen_properties.py"""
import json, os
A = "crates/mapping-algorithms/src/"
KD, NN, LS, DS, PC = A+"kd_tree/mod.rs", A+"point_clouds/nearest_neighbour.rs", A+"point_clouds/lex_sort.rs", A+"point_clouds/downsample.rs", A+"point_clouds/mod.rs"
ICP, ICPH, ICPT, ISO = A+"point_clouds/icp/mod.rs", A+"point_clouds/icp/helpers.rs", A+"point_clouds/icp/types.rs", A+"types/isometry.rs"
GS, JM, PIP, PM = A+"polygons/graham_scan.rs", A+"polygons/jarvis_march.rs", A+"polygons/point_in_polygon.rs", A+"polygons/mod.rs"
HV, BR, UT, NA, LIB = A+"geo/haversine.rs", A+"lines/bresenham.rs", A+"utils/mod.rs", A+"types/is_nan.rs", A+"lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "KD-tree nearest-neighbour search is exact",
  "For any sequence of finite points inserted into a KD-tree (one at a time or from a slice) and any query point whose squared distances to them are representable, the nearest-point query returns a point that is stored in the tree and no stored point is closer to the query. It returns nothing exactly when the tree is empty.",
  ["histories", "inputs"], "every insertion history (order, duplicates, ties, chains) in 1 to 4 dimensions, and every query point",
  "The tests query one hand-made tree once and one 11-point cloud; pruning errors need a particular insertion order together with a particular query on the other side of a split.",
  [KD, UT], [("branch choice and far-branch pruning", KD+": KDNode::nearest"), ("placement by alternating axis", KD+": KDNode::insert"), ("squared distance", UT+": distance_squared")],
  ["KDTree::nearest", "KDTree::insert", "KDTree::from"], [("tree shape", "binary tree alternating the split axis by depth", KD+": KDNode")])
p("C02", "A KD-tree is a set: size, emptiness and content ignore duplicates",
  "After any sequence of insertions of finite points, the tree contains exactly the distinct points inserted, its reported length is the number of distinct points, and it is empty exactly if nothing was inserted. Inserting a point that is already present, wherever it sits in the tree, changes neither the length, nor the content, nor any query result; building from a slice equals inserting its points one by one.",
  ["histories"], "every insertion history with repetitions",
  "One test inserts one duplicate into a one-element tree; whether a duplicate is recognised depends on the shape of the tree built before it.",
  [KD], [("duplicate check on the descent", KD+": KDNode::insert"), ("element count", KD+": KDTree::insert"), ("From<&[Point]>", KD)],
  ["KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"], [("element_count", "number of stored points", KD+": KDTree")])
p("C03", "KD-tree traversal visits every point once; mutation and clones are sound",
  "Read-only and mutating traversals call the closure exactly once for every stored point, the mutating one stores precisely what the closure wrote, and neither changes the reported length. After a mutation that preserves the order along every axis (such as a translation or a positive scaling), nearest queries and further insertions behave as for a tree built from the mutated points. A clone and its original never affect each other.",
  ["histories"], "every bounded history of insertions, mutating traversals, clones and queries",
  "The tests traverse one four-point tree; no test continues using a tree after mutating or cloning it.",
  [KD], [("in-order recursion", KD+": KDNode::traverse_branch, traverse_branch_mut"), ("derived Clone", KD)],
  ["KDTree::traverse_tree", "KDTree::traverse_tree_mut", "Clone"])
p("C04", "Naive nearest-neighbour search returns a closest point",
  "For any slice of finite points whose squared distances are representable and any query, the exhaustive nearest-neighbour search returns one of the slice's points at minimal distance from the query, whatever the order of the slice. It returns nothing exactly when the slice is empty.",
  ["inputs"], "every slice (position of the minimum, ties, duplicates) and query point, in 1 to 4 dimensions",
  "One four-point example and the empty slice are tested.",
  [NN, UT], [("linear scan for the minimum", NN), ("squared distance", UT+": distance_squared")], ["find_nearest_neighbour_naive"])
p("C05", "Lexicographic sorting is a sorted permutation, in all three variants",
  "For any NaN-free cloud, each of the three lexicographic sorts (in place, copying, by reference) yields exactly the input points, each as many times as given, ordered by first coordinate, then second, and so on; the copying and by-reference variants leave the input alone and the latter refers to the original elements. A cloud with a NaN in any coordinate of any point, or zero-dimensional points, is refused and the input is left unmodified.",
  ["inputs"], "every cloud: order, repetitions, infinities, signed zeros, NaN position, dimension, element type",
  "Handful of 3-point clouds with one NaN position.",
  [LS], [("NaN validation", LS+": validate_input"), ("lexicographic comparison", LS+": lex_sort_func")], ["lex_sort", "lex_sort_in_place", "lex_sort_ref"])
p("C06", "Voxel downsampling keeps one centroid per occupied voxel",
  "For any cloud of finite points with representable sums and any positive voxel size, the downsampled cloud contains exactly one point per voxel (floor of coordinate over size, on every axis) that holds at least one input point, and that point is the mean of the input points in the voxel. The result does not depend on the order of the input, up to the order of the output.",
  ["inputs"], "every cloud (negative coordinates, voxel boundaries, repetitions, sizes) and voxel size, in 1 to 3 dimensions",
  "One 7-point cloud with one voxel size.",
  [DS], [("voxel key by floor", DS), ("mean per voxel", DS)], ["downsample_point_cloud_voxel"], [("voxel map", "points of each occupied voxel", DS)])
p("C07", "Centroid and rigid transform of point clouds are exact maps",
  "The centre of a non-empty cloud with representable sums is the mean of its points and that of an empty cloud is the origin. Transforming a cloud yields a cloud of the same length in which the i-th point is the rotation followed by the translation of the i-th input point, for every rotation and translation, in 2D and 3D, with the input unchanged.",
  ["inputs"], "every cloud and every rigid transform",
  "Centre tested on one cloud; transform has no test of its own.",
  [PC], [("fold and divide", PC+": calculate_point_cloud_center"), ("pointwise map", PC+": transform_point_cloud")], ["calculate_point_cloud_center", "transform_point_cloud"])
p("C08", "Generated clouds have the requested size, bounds and are reproducible",
  "For any count and any non-empty range of representable width per axis, the generated cloud has exactly that many points, each coordinate lies within the range given for its own axis (bounds included), and repeating the call gives the same cloud.",
  ["inputs", "configurations"], "every count, number of dimensions, element type and combination of per-axis ranges",
  "The generator has no test of its own.",
  [PC], [("seeded generator, per-axis sampling", PC+": generate_point_cloud")], ["generate_point_cloud"])
p("C09", "ICP refuses invalid arguments with the right error",
  "ICP refuses, before doing any work, an empty source, an empty target, zero iterations, a convergence interval, or an absolute error threshold that is NaN or does not exceed machine epsilon, each with its own error, the first applicable one in that order. With none of these it never reports any of these errors.",
  ["inputs", "configurations"], "every combination of cloud emptiness and configuration values, 2D and 3D, both precisions",
  "One invalid value per field is tested, one at a time, in 2D f32.",
  [ICP, ICPT], [("argument checks", ICP+": icp"), ("error variants", ICPT+": ICPError")], ["icp", "ICPError"])
p("C10", "One ICP iteration is the best rigid fit to the nearest matches",
  "From any cloud pair with representable squared distances and any current rigid transform, one ICP iteration matches each transformed source point to a nearest target point and moves to a proper rigid transform for which the sum of squared distances to these matches is minimal (up to rounding); the transformed points, the running error, the reported centroids and the convergence verdict (error below the absolute threshold, or changed by less than the interval) all agree with that. Hence the error never increases from one iteration to the next; with no target to match, the iteration fails and changes nothing.",
  ["inputs", "histories"], "every small source and target cloud (degenerate ones included), starting transform and number of preceding iterations",
  "Only end-to-end runs on random clouds are tested; none checks optimality, monotonicity, degenerate clouds or the intermediate state.",
  [ICP, ICPH, ISO, UT], [("matching", ICP+": icp_iteration"), ("cross-covariance and centroids", ICPH+": get_rotation_matrix_and_centroids"), ("SVD update", ISO+": update_transform"), ("convergence test", ICP+": icp_iteration")],
  ["icp_iteration"], [("current transform", "accumulated isometry", ICP), ("current error", "error of the previous iteration", ICP)])
p("C11", "ICP stops at the first converged iteration and reports that state",
  "ICP behaves as a loop of single iterations started from the identity: it succeeds at the first iteration whose verdict is converged and returns that iteration's index (less than the maximum), its transform (a proper rigid motion) and its error, which is the sum of squared distances of the transformed source to its matches. If no iteration up to the maximum converges it reports non-convergence, so raising the maximum never changes a success.",
  ["inputs", "histories", "configurations"], "every small cloud pair, iteration limit and threshold setting",
  "Tests check that a few random clouds converge with a small error, not when, nor that the result is the state of that iteration.",
  [ICP], [("iteration loop", ICP+": icp"), ("verdict", ICP+": icp_iteration")], ["icp", "ICPSuccess"], [("iteration counter", "index of the current iteration", ICP)])
p("C12", "ICP recovers a small rigid displacement of a well-separated cloud",
  "If the target is a rigidly displaced copy of the source (in any point order, possibly with further points far away) and every point moved by less than half the smallest distance between target points, ICP with at least two iterations and thresholds above the rounding error of the squared distances succeeds, and its transform maps every source point onto its displaced copy with negligible reported error.",
  ["inputs", "configurations"], "every small well-separated cloud, admissible displacement, target order, search strategy, precision and dimension",
  "Six random cloud displacements are tested, with an error bound but no check of the recovered motion.",
  [ICP, ICPH, ISO, UT], [("whole ICP pipeline", ICP+": icp"), ("reflection repair", UT+": verify_rotation_matrix_determinant")], ["icp"])
p("C13", "ICP gives the same answer with and without the KD-tree",
  "Whenever the nearest target of every transformed source point is unique in every iteration, ICP returns the same verdict, iteration index, transform and error (up to rounding) with the KD-tree search enabled and disabled.",
  ["inputs", "configurations"], "every small cloud pair without ties, iteration limit and thresholds",
  "The two strategies are tested separately, on loose error bounds only.",
  [ICP, KD, NN], [("search selection", ICP+": icp, icp_iteration"), ("two nearest searches", KD+", "+NN)], ["icp"])
p("C14", "The ICP configuration builder sets exactly what it is told",
  "For any sequence of setter calls, the built configuration behaves as one where each setting has the value of its last setter call, or its documented default (no KD-tree, 20 iterations, no absolute threshold, interval 0.01) if never set. Setters and build leave the builder they are called on unchanged, so it can be reused.",
  ["histories", "configurations"], "every bounded sequence of setter calls with branching reuse of intermediate builders",
  "Each setter is used with one value in the tests, never in combination or after reuse, and no field is compared.",
  [ICPT], [("functional update", ICPT+": ICPConfigurationBuilder"), ("defaults", ICPT+": ICPConfiguration::builder")], ["ICPConfigurationBuilder", "icp"])
p("C15", "The rigid-alignment update is a proper optimal rotation composed on the left",
  "For any cross-covariance matrix whose squared entries are representable (zero, rank-deficient and orientation-reversing ones included), pair of centroids and previous transform, the alignment update yields the previous transform followed by a proper rotation (never a reflection) that maximises the alignment with the matrix (up to rounding) and by the translation that carries the first centroid onto the second, in 2D and 3D.",
  ["inputs"], "every small-integer cross-covariance matrix, centroid pair and previous transform",
  "Never tested directly; end-to-end tests never produce degenerate or reflecting matrices.",
  [ISO, UT], [("SVD and composition", ISO+": update_transform"), ("determinant repair", UT+": verify_rotation_matrix_determinant")], ["AbstractIsometry::update_transform"])
p("C16", "Graham scan returns exactly the corners of the convex hull",
  "For any cloud of NaN-free points whose cross products are representable in the calculation precision, Graham scan returns exactly the corners of the convex hull (no point in the interior of an edge, no repetition), in clockwise boundary order, or nothing when fewer than three points are given or all are collinear or identical. Declaring the input sorted gives the same result if it is sorted.",
  ["inputs"], "every cloud: order, duplicates, collinear runs, scale, both precisions",
  "Seven fixed clouds; collinear and duplicate combinations are mostly untested.",
  [GS, PM, LS], [("monotone chain", GS+": build_hull_segment"), ("turn test", PM+": calculate_determinant"), ("assembly", GS+": graham_scan")], ["graham_scan"])
p("C17", "Jarvis march terminates with the convex hull",
  "For any cloud of NaN-free points whose cross products are representable in the calculation precision, Jarvis march terminates and returns a clockwise boundary walk that contains every corner of the convex hull, only input points on the hull's boundary, and no point twice; or nothing when fewer than three points are given or all are collinear or identical.",
  ["inputs"], "every cloud: order, duplicates, collinear runs, scale, both precisions",
  "Seven fixed clouds; on other orders of collinear points the march used to run forever.",
  [JM, PM], [("next endpoint selection", JM+": jarvis_march"), ("turn test", PM+": calculate_determinant")], ["jarvis_march"], [("march", "current vertex and hull so far", JM)])
p("C18", "Hull voxel option: the hull of the downsampled cloud, sorted or not",
  "With a voxel size given, both convex-hull algorithms return the hull of the voxel-downsampled cloud, or nothing when that has fewer than three points or is collinear, even if the original does not. For Graham scan this holds whether or not the input is declared sorted.",
  ["inputs", "configurations"], "every cloud, voxel size and sortedness flag",
  "No test passes a voxel size or declares the input sorted.",
  [GS, JM, DS], [("preprocessing match", GS+": graham_scan"), ("preprocessing", JM+": jarvis_march")], ["graham_scan", "jarvis_march"])
p("C19", "Convex hulls of integer points are exact for every integer type",
  "For every supported integer point type, signed or unsigned, both hull algorithms return, without overflow, the hull of the points as mathematical integers, over the whole range of the type as far as the calculation precision represents the coordinates and their cross products exactly.",
  ["inputs"], "every integer type and every small cloud over extreme and neighbouring values",
  "All hull tests use f32 coordinates; unsigned types used to panic on an ordinary square.",
  [PM, GS, JM], [("determinant in the calculation precision", PM+": calculate_determinant"), ("pregenerated integer variants", GS+", "+JM)], ["graham_scan_*", "jarvis_march_*"])
p("C20", "Point in polygon follows the even-odd rule",
  "For any polygon (convex, concave, self-intersecting, with repeated vertices, wound either way) and any point further from its boundary than rounding, the test answers true exactly when the point is inside by the even-odd rule. A polygon of fewer than three vertices contains nothing.",
  ["inputs"], "every polygon up to a number of vertices on a grid, and every point of a finer grid around it",
  "One polygon with two points is tested; rays through vertices and horizontal edges are not.",
  [PIP], [("half-open crossing rule", PIP+": does_ray_intersect_polygon_segment"), ("parity", PIP+": is_single_point_in_polygon")], ["is_single_point_in_polygon"])
p("C21", "Point in polygon ignores the vertex listing; cuts partition the plane",
  "For every point, those on the boundary included, the answer is the same whichever vertex the polygon's listing starts with and in whichever direction it runs. When a polygon is cut in two along a segment between two of its vertices, a point belongs to exactly one of the pieces or to both or neither precisely according to parity: membership in the whole is the exclusive or of membership in the pieces.",
  ["inputs"], "every polygon on a grid, rotation and reversal of its listing, cut between two vertices, and every grid point",
  "Never tested; the test named counter-clockwise repeats the clockwise one.",
  [PIP], [("half-open crossing rule", PIP+": does_ray_intersect_polygon_segment")], ["is_single_point_in_polygon"])
p("C22", "Batch point in polygon equals the single test for every point",
  "The batch point-in-polygon test returns one answer per point, in order, each equal to the single-point test, for any number of points anywhere relative to the polygon, boundary and bounding box included. It returns nothing exactly when the polygon has fewer than three vertices.",
  ["inputs"], "every polygon and list of points on a grid",
  "Two points and one polygon are tested.",
  [PIP, PM], [("bounding-box prefilter", PIP+": are_multiple_points_in_polygon"), ("extents", PM+": calculate_polygon_extents")], ["are_multiple_points_in_polygon"])
p("C23", "Polygon extents are the tight bounding box",
  "For any polygon of at least three finite vertices, in any dimension, the extents on each axis run exactly from the smallest to the largest coordinate of its vertices on that axis. With fewer than three vertices there are none.",
  ["inputs"], "every polygon on a grid: order, signs, repetitions, magnitudes, 1 to 3 dimensions",
  "One rectangle and the empty polygon are tested.",
  [PM], [("min and max accumulation", PM+": calculate_polygon_extents")], ["calculate_polygon_extents"])
p("C24", "Haversine distance is the great-circle distance everywhere on the sphere",
  "For every pair of latitude/longitude points, poles, antipodes, coincident points and date-line crossings included, the distance is a finite number between zero and half the circumference that agrees with the great-circle distance up to rounding, is the same in both directions, is zero for coincident points, is unaffected by whole turns of longitude and is proportional to the radius.",
  ["inputs"], "every pair of points of a lattice over the sphere, refined around poles, antipodes and coincidence, both precisions",
  "One pair of cities is tested.",
  [HV], [("haversine formula", HV+": calculate_haversine_distance")], ["calculate_haversine_distance"])
p("C25", "Sphere bearing is the initial great-circle heading in [0, 2 pi)",
  "For every pair of points on the sphere the bearing is at least zero and at most two pi, and unless it is undefined (coincident or antipodal points, or a pole as start) it is, modulo a whole turn and up to rounding, the clockwise angle from north of the great circle towards the second point. It is unaffected by whole turns of longitude.",
  ["inputs"], "every pair of points of a lattice over the sphere, both precisions",
  "One pair of cities is tested, so one quadrant.",
  [HV], [("atan2 and normalisation", HV+": calculate_sphere_bearing")], ["calculate_sphere_bearing"])
p("C26", "A plotted line is a connected minimal path between its end cells",
  "For any two end points with whole coordinates the number type can count up to, in any number of dimensions, the plotted line starts at the first and ends at the second, has exactly one cell more than the largest coordinate difference, and advances in every step by one cell along a longest axis and by at most one cell, never backwards, along each other axis. No cell is as much as one whole unit away from the ideal segment on any axis.",
  ["inputs"], "every direction and length up to a bound, starting cells of any sign, 1 to 4 dimensions, both precisions",
  "Five directions of length ten are tested.",
  [BR], [("primary axis and error accumulation", BR+": plot_bresenham_line")], ["plot_bresenham_line"], [("errors", "accumulated deviation per axis", BR)])
p("C27", "Plotted lines agree across number types and keep fractional end points",
  "For whole end points the plotted cells are the same numbers in every output number type able to hold them. With fractional end points and floating-point output plotting ends, and the line has one point more than the whole part of the largest coordinate difference, ends exactly at the second point, and, if the points are at least one unit apart on some axis, starts exactly at the first.",
  ["inputs", "configurations"], "every direction up to a bound, every output type, every quarter-unit end-point offset",
  "Tests use f32 to isize, and one sub-unit line.",
  [BR], [("output conversion", BR+": plot_bresenham_line"), ("pregenerated variants", BR)], ["plot_bresenham_line", "plot_2d_*_bresenham_line", "plot_3d_*_bresenham_line"])
p("C28", "Every pregenerated function equals its generic counterpart",
  "Each pregenerated single- and double-precision function, for every point and output type it comes in, returns exactly what the generic function returns for the same arguments.",
  ["inputs", "configurations"], "every pregenerated function and bounded arguments, sensitive to argument order, type and precision",
  "No test calls any pregenerated function.",
  [ICP, GS, JM, PIP, HV, BR], [("pregeneration macros", "impl_* macros of each module")], ["single_precision::*", "double_precision::*"])
p("C29", "Every feature configuration builds and computes the same results",
  "The library builds with every combination of its features, including without the standard library, and every public algorithm gives the same results in all of them (up to rounding of the mathematical functions, and up to the unspecified order of downsampled points). With the standard library, ICP errors are standard errors with a message.",
  ["configurations"], "every combination of the std, pregenerated, tracing and cuda features",
  "The test suite is run with all features on; nothing under not(std) or without pregenerated is compiled.",
  [LIB, ICPT, GS, JM, DS], [("feature gates", "cfg(feature) attributes"), ("alloc substitutes", LIB)], ["all public functions"])
p("C30", "Results depend only on the arguments, under any call history and schedule",
  "Every public function is a function of its arguments alone: whatever calls were made before, from whichever thread, and however calls running at the same time (on shared or separate data) interleave, each call returns what it returns when run alone. This includes calls made from inside the closures a tree traversal runs.",
  ["histories", "schedules"], "every bounded sequence of calls, and every interleaving of two concurrent calls within a preemption bound",
  "Tests run each call once on fresh data, and never compare a call with itself in another context.",
  [KD, ICP, GS, JM, PIP, BR, DS], [("no shared mutable state", "whole crate")], ["all public functions"])
p("C31", "NaN coordinates are refused or ignored, never hung on",
  "With a NaN in any coordinate of any point, both convex-hull algorithms (with or without voxels, unless the cloud is declared sorted, which it then is not) return nothing and all lexicographic sorts refuse the cloud, and the point-in-polygon tests answer false for a NaN query point; ICP with a NaN in the source and the exhaustive search reports non-convergence. None of them panics or fails to terminate.",
  ["inputs"], "every position of NaN (any sign) in every small cloud",
  "Two NaN positions, in the sort only, are tested.",
  [LS, GS, JM, PIP, ICP], [("validate_input", LS), ("NaN check", JM)], ["lex_sort*", "graham_scan", "jarvis_march", "is_single_point_in_polygon", "icp"])
p("C32", "The NaN predicate is IEEE NaN for floats and never true for integers",
  "For every f32 and f64 bit pattern the NaN predicate is true exactly for the IEEE NaNs (any sign or payload, quiet or signalling), and for every value of every integer type it is false.",
  ["inputs"], "every f32 bit pattern; every f64 exponent with structured mantissas; every small integer and the extremes of the large ones",
  "Three values per type are tested.",
  [NA], [("trait implementations", NA)], ["IsNan::is_nan"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
