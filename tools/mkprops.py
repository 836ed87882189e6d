#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

BOX = ["freud/box.py", "freud/box/Box.h", "freud/box/export-Box.cc", "freud/util/utils.h"]
p("B01", "Wrapping maps every point to its one lattice-equivalent point in the box",
  "For every box (2D or 3D, orthorhombic or tilted, any periodic flags) Box.wrap returns, for each input vector, the vector displaced by an integer combination of the lattice vectors of the periodic directions whose fractional coordinate lies in [0, 1) along each periodic direction, leaving the non-periodic fractional coordinates unchanged. "
  "Wrapping is idempotent, gives the same answer for a vector and any lattice translate of it along periodic directions, and treats each row of an array independently of the others.",
  ["inputs", "configurations"],
  "all box shapes x periodicity flags x vectors any number of images away, including points exactly on faces, for single vectors and arrays of any length",
  "Tests wrap a handful of hand-picked vectors in a few boxes; faces, multi-image translates, mixed periodicity and long arrays are not enumerated.",
  BOX, [("modulusPositive on fractional coordinates", "freud/box/Box.h wrap"), ("parallel loop over rows", "freud/box/Box.h wrap(vecs)")],
  ["freud.box.Box.wrap"])
p("B02", "Images, unwrap and contains agree with wrap",
  "For every vector, Box.get_images returns the integer lattice translation that separates it from its wrapped copy in a fully periodic box, so that unwrap(wrap(v), get_images(v)) reproduces v (with z dropped in 2D) and get_images(unwrap(w, n)) = n for every w strictly inside the box and integer n. "
  "Box.contains is true exactly for the points whose image is zero.",
  ["inputs", "configurations"],
  "all box shapes x vectors including exact face points x integer images, as single vectors, arrays, and one vector broadcast against many images",
  "Tests check a few vectors well inside images; rounding at faces, tilted boxes with mixed-sign images and broadcasting are sampled at one or two points.",
  BOX, [("getImage rounding", "freud/box/Box.h getImage"), ("unwrap adds lattice vectors", "freud/box/Box.h unwrap"), ("contains = zero image", "freud/box/Box.h contains")],
  ["Box.get_images", "Box.unwrap", "Box.contains"])
p("B03", "Fractional and absolute coordinates are inverse affine maps",
  "make_absolute maps the fractional vector (f1,f2,f3) to (f1-1/2)v1 + (f2-1/2)v2 + (f3-1/2)v3 for the box's lattice vectors, and make_fractional is its exact inverse, for every box and vector whatever the periodic flags (the third component is 0 in 2D). "
  "Both honour a caller-supplied output array and never modify their input unless it is also the output.",
  ["inputs", "configurations"],
  "all box shapes and vectors (inside and far outside the box), single vectors and arrays, with and without out=",
  "Tests check a few vectors; tilts with all three factors non-zero and distinct, aliasing output and large arrays are barely sampled.",
  BOX, [("shear/unshear", "freud/box/Box.h makeAbsolute/makeFractional"), ("_convert_array output handling", "freud/util.py")],
  ["Box.make_absolute", "Box.make_fractional"])
p("B04", "Box distances equal the length of the wrapped separation",
  "Box.compute_distances(q, p)[i] equals the length of wrap(p[i]-q[i]) and Box.compute_all_distances(q, p)[i, j] equals the length of wrap(p[j]-q[i]), so distances are unchanged when any point is moved by a lattice vector of a periodic direction, and equal the true minimum over periodic images whenever that minimum is below half the smallest plane spacing. "
  "Mismatched lengths for compute_distances raise an error.",
  ["inputs", "configurations"],
  "all box shapes, periodic flags and pairs of point sets of any (unequal) sizes",
  "Tests compare a few pairs; the n x m index layout with unequal sizes, half-box ties and mixed periodicity are not enumerated.",
  BOX, [("wrap of the difference", "freud/box/Box.h computeDistance"), ("row-major layout", "freud/box/Box.h computeAllDistances")],
  ["Box.compute_distances", "Box.compute_all_distances"])
p("B05", "Box state: constructors, setters, conversions, equality and scaling cohere",
  "Every way of building the same box (keyword constructor, from_box on another box/dict/attribute object/sequence/matrix, from_matrix, from_box_lengths_and_angles, cube, square) yields boxes with the same parameters, and after any sequence of setter calls the reported lengths, tilts, dimensionality, inverse lengths, volume, lattice vectors, matrix and coordinate transforms all describe the same current box. "
  "Two boxes compare equal exactly when lengths, tilts, dimensionality and periodic flags agree, scaling by s>0 multiplies only the lengths, degenerate or contradictory specifications are rejected with an error, and a 2D box always reports zero Lz and area as volume.",
  ["histories", "inputs", "configurations"],
  "all finite histories of constructor, setter, copy and conversion calls on boxes",
  "Tests exercise each setter once from a fixed starting box; sequences of setters (e.g. length then dimension then tilt) are not explored.",
  BOX, [("python constructors", "freud/box.py from_box/from_matrix"), ("derived state refresh", "freud/box/Box.h setL/set2D")],
  ["freud.box.Box attributes and class methods"],
  state=[("L, tilts, is2D, periodic", "the box", "freud/box/Box.h members m_L, m_Linv, m_lo, m_hi, m_xy, m_xz, m_yz, m_2d, m_periodic")])
p("B06", "Periodic centre of mass and centering",
  "Box.center_of_mass is the per-axis mass-weighted circular mean in fractional coordinates: it lies in the box, is unchanged when any point is moved by lattice vectors, when points (with their masses) are reordered or when all masses are scaled, shifts with the points when all are translated, and equals the point itself for one point. "
  "Box.center returns wrap(v - center_of_mass) for every row with the same masses and leaves its input unchanged.",
  ["inputs", "configurations"],
  "all periodic boxes, point sets and positive masses",
  "Tests check three tiny configurations with unit masses.",
  BOX, [("circular mean", "freud/box/Box.h centerOfMass"), ("center", "freud/box/Box.h center")],
  ["Box.center_of_mass", "Box.center"])

NQ = ["freud/locality.py", "freud/locality/NeighborQuery.h", "freud/locality/AABBQuery.cc", "freud/locality/AABBTree.h", "freud/locality/LinkCell.cc", "freud/locality/CellQuery.cc", "freud/locality/RawPoints.h", "freud/locality/export-NeighborQuery.cc"]
p("Q01", "Ball queries return exactly the pairs within the distance range",
  "For every periodic 2D or 3D box and every accepted r_max, a ball query through AABBQuery, LinkCell (any valid cell width), CellQuery or a plain (box, points) tuple returns exactly one bond for each query point/point pair whose minimum-image distance d satisfies r_min <= d < r_max (omitting equal indices when exclude_ii is set), and no other bond. "
  "This holds for any positions, including points on the faces of the box, outside it (other periodic images) and coincident points, and all these engines agree. AABBQuery, CellQuery and tuples refuse an r_max of at least half the smallest plane spacing; LinkCell accepts it, and the above then holds in orthorhombic boxes.",
  ["inputs", "configurations"],
  "all boxes, point sets, query sets, r_min, r_max, exclude_ii, engine choices and cell widths",
  "Tests compare engines with brute force on a few random systems where boundary distances, tree splits with duplicates, cells at box faces and cell widths near limits never occur.",
  NQ, [("image list and AABB tree descent", "freud/locality/AABBQuery.cc"), ("cell shells", "freud/locality/LinkCell.cc")],
  ["NeighborQuery.query(...).toNeighborList()", "iteration over NeighborQuery.query(...)"])
p("Q02", "Nearest-neighbour queries return exactly the k closest points in range",
  "For every periodic box and any positions (in the box or other images), a num_neighbors=k query through AABBQuery, LinkCell or a (box, points) tuple returns for each query point min(k, m) bonds, where m is the number of distinct points (other than itself when exclude_ii) whose minimum-image distance lies in [r_min, r_max), each point at most once, and no omitted in-range point is closer than a returned one. "
  "The distances reported are the true minimum-image distances, whatever r_guess and scale are supplied. In tilted boxes this holds for neighbours nearer than half the smallest plane spacing.",
  ["inputs", "configurations"],
  "all boxes, point sets, k, r_min, r_max, r_guess, scale and engines",
  "Tests compare small random systems; ties, k near or above the number of points, sparse systems needing many search expansions and extreme r_guess/scale are not enumerated.",
  NQ, [("growing ball search", "freud/locality/AABBQuery.cc AABBQueryIterator"), ("shell termination", "freud/locality/LinkCell.cc LinkCellQueryIterator")],
  ["NeighborQuery.query(dict(num_neighbors=...))"])
p("Q03", "A query's answer depends only on its own inputs, not on other queries",
  "The bonds a query yields are determined by the box, points, query points and arguments alone: any interleaving of creating, partially consuming, abandoning, re-iterating and converting several lazy query results on one neighbour-query object (with different arguments and query points), and using the object in computes in between, gives each of them the answer it would give alone on a fresh object. "
  "Converting a result to a NeighborList any number of times gives equal lists.",
  ["histories", "schedules"],
  "all interleavings of operations on several live query results over one engine object",
  "Tests consume each query at once, before making another; interleavings are never tried.",
  NQ, [("per-query iterators sharing the engine", "freud/locality/NeighborQuery.h"), ("fresh iterator per __iter__/toNeighborList", "freud/locality.py NeighborQueryResult")],
  ["NeighborQueryResult iteration", "NeighborQueryResult.toNeighborList"],
  state=[("engine index structures", "tree/cells built from points", "freud/locality/*Query.*"), ("iterator cursor", "current query point/image/node", "NeighborPerPointIterator subclasses")])
p("Q04", "Every form of a query result describes the same bonds in the documented order",
  "Iterating a query result and converting it with toNeighborList yield the same set of bonds (query point index, point index, distance); the NeighborList is grouped by ascending query point index and, within a query point, ordered by point index or, when sort_by_distance is set, by non-decreasing distance. "
  "For every bond the stored vector is a minimum-image vector from query point to point, the stored distance is its length, the weight is 1, and the list's num_query_points and num_points equal the sizes of the two sets.",
  ["inputs", "histories"],
  "all query results of all engines, boxes and argument sets, including empty results and query points without neighbours",
  "Tests check sorting on small lists without ties and vectors on random systems for one engine.",
  NQ + ["freud/locality/NeighborList.cc"], [("toNeighborList parallel collection and sort", "freud/locality/NeighborQuery.h toNeighborList"), ("vector construction", "freud/locality/NeighborList.cc")],
  ["NeighborQueryResult.__iter__", "NeighborQueryResult.toNeighborList", "NeighborList.vectors/distances/weights"])
p("Q05", "Query arguments are interpreted and rejected consistently",
  "Query arguments mean the same for every engine: the mode is taken from mode or else nearest if num_neighbors is given and ball if only r_max is given; unknown keys, unknown modes, a missing r_max or num_neighbors, contradictory combinations, r_max <= 0, r_max <= r_min, non-periodic boxes (AABBQuery, LinkCell, CellQuery), z-coordinates outside a 2D box's plane and mis-shaped or empty point arrays are rejected with an exception. "
  "A rejected call leaves the object usable and its later answers unchanged, and inside computes exclude_ii defaults to true exactly when no separate query points are given.",
  ["inputs", "histories"],
  "all argument dictionaries over the known keys, on all engines and on computes that accept neighbors=, before and after valid calls",
  "Tests check a few error cases on AABBQuery and LinkCell only.",
  NQ, [("inferMode/validateQueryArgs", "freud/locality/NeighborQuery.h"), ("_QueryArgs", "freud/locality.py"), ("_resolve_neighbors/_make_default_nlist", "freud/locality.py")],
  ["NeighborQuery.query", "compute(neighbors=dict)"])
p("Q06", "NeighborQuery.from_system accepts every documented system form equivalently",
  "A system given as (box, points) tuple, as a NeighborQuery, or as an object with box and position attributes or documented trajectory-frame shape denotes the same box and points, and every compute accepting a system gives identical results for each form. "
  "A frame's 2D dimensionality, box vectors stored as rows (MDAnalysis) and the periodicity of a freud box are preserved, a dimensions argument is honoured (or rejected where it conflicts), the object given is not modified, AABBQuery.from_system and LinkCell.from_system build the same system, an existing NeighborQuery is passed through unchanged, and anything else is rejected with an error.",
  ["inputs", "configurations"],
  "all system forms (including box-like and array-like variants) x computes that accept a system",
  "Tests check from_system conversion types, not that every compute gives equal answers.",
  ["freud/locality.py", "freud/box.py"], [("from_system", "freud/locality.py NeighborQuery.from_system"), ("Box.from_box", "freud/box.py")],
  ["NeighborQuery.from_system", "X.compute(system, ...)"])

NL = ["freud/locality.py", "freud/locality/NeighborList.cc", "freud/locality/NeighborList.h", "freud/locality/export-NeighborList.cc"]
p("L01", "NeighborList arrays always describe one consistent, grouped bond list",
  "In every NeighborList, however produced and after any operations, query_point_indices is non-decreasing, all index, distance, weight and vector arrays have one row per bond and agree row by row (columns of [:] equal the index arrays), every index is below num_query_points/num_points, and distances equal vector lengths. "
  "segments[i] is the first row of every query point i that has bonds, neighbor_counts[i] the number of rows of query point i (zero for those without bonds), and find_first_index(i) returns the first row whose query point index is at least i.",
  ["histories", "inputs"],
  "all NeighborLists reachable from any constructor followed by any sequence of filter, filter_r, sort and copy",
  "Tests look at segments/counts on one list, not after operation sequences leaving empty segments at the ends.",
  NL, [("updateSegmentCounts", "freud/locality/NeighborList.cc"), ("find_first_index bisection", "freud/locality/NeighborList.cc")],
  ["NeighborList properties"],
  state=[("neighbors, distances, weights, vectors", "bond table", "freud/locality/NeighborList.h"), ("segments, counts", "derived, cached", "freud/locality/NeighborList.h m_segments_counts_updated")])
p("L02", "NeighborList operations: filter, filter_r, sort and copy",
  "filter(mask) keeps exactly the bonds whose mask entry is true, in order, filter_r(r_max, r_min) keeps exactly those with r_min <= distance < r_max, and sort(by_distance) permutes the bonds so that they are grouped by query point and ordered by distance or by point index within it, each bond keeping its own distance, weight and vector. "
  "A mask of the wrong length is rejected without changing the list, copies are independent of their source in both directions, and filtering methods return the same list they modify.",
  ["histories", "inputs"],
  "all sequences of filter, filter_r, sort, copy and reads on families of lists",
  "Tests run single operations on one list; sequences, stale derived arrays after an operation and copies modified later are not explored.",
  NL, [("filter compaction", "freud/locality/NeighborList.cc filter"), ("sort", "freud/locality/NeighborList.cc sort"), ("copy", "freud/locality/NeighborList.cc copy")],
  ["NeighborList.filter", "NeighborList.filter_r", "NeighborList.sort", "NeighborList.copy"])
p("L03", "NeighborList.from_arrays and all_pairs build exactly the described list",
  "from_arrays keeps every given bond, index, vector and weight (default 1) in the given order with distance equal to the vector's length, and rejects unsorted query indices, out-of-range indices and arrays of inconsistent shape. "
  "all_pairs contains each query point/point pair once (without equal indices when exclude_ii) in lexicographic order, with the wrapped vector between the two (from query point to point) and its length as distance.",
  ["inputs"],
  "all bond arrays (valid and invalid), and all point sets and boxes for all_pairs",
  "Tests use a few fixed arrays.",
  NL, [("validation in constructor", "freud/locality/NeighborList.cc NeighborList(...)"), ("from_arrays", "freud/locality.py")],
  ["NeighborList.from_arrays", "NeighborList.all_pairs"])
FI = ["freud/locality.py", "freud/locality/Filter.h", "freud/locality/FilterSANN.cc", "freud/locality/FilterRAD.cc"]
p("F01", "SANN filtering keeps exactly the solid-angle neighbour shell",
  "For every neighbour list, FilterSANN keeps for each query point exactly the m nearest of its bonds, m >= 3 being the smallest number with sum of the m nearest distances/(m-2) <= the (m+1)-th distance, and every kept bond retains its vector, distance and weight, while the list sizes are those of the input. "
  "When a query point's shell cannot be completed from its bonds an error is raised unless allow_incomplete_shell is set, in which case all its bonds are kept.",
  ["inputs"], "all neighbour lists (any per-point counts including 0..3, ties, weights) and both flag values",
  "Tests compare with precomputed lists on fcc-like crystals; incomplete shells, few bonds and unsorted input are not enumerated.",
  FI, [("shell growth", "freud/locality/FilterSANN.cc")], ["FilterSANN.compute", "filtered_nlist"])
p("F02", "RAD filtering keeps exactly the bonds no nearer neighbour blocks",
  "For every neighbour list, FilterRAD keeps a bond to k exactly when no nearer bond j of the same query point blocks it, i.e. no j with (R_j/r_j)^2 cos(angle) > (R_k/r_k)^2, R being the given point radii (1 by default), for the open variant, and in the closed variant additionally drops everything at or beyond the first blocked bond. "
  "Every kept bond retains its vector, distance and weight and the list sizes are those of the input; radii that are not positive and finite are rejected.",
  ["inputs"], "all neighbour lists (any counts, directions and distances) and all flag values",
  "Tests compare with precomputed crystal lists.",
  FI, [("blocking test", "freud/locality/FilterRAD.cc")], ["FilterRAD.compute", "filtered_nlist"])
p("P01", "Periodic buffers contain exactly the requested image points",
  "PeriodicBuffer.compute in image mode yields every image of every point displaced by 0..n_i copies along lattice direction i in a box scaled by 1+n_i, and, for points inside the box, in skin mode every image whose position lies in the box enlarged by the buffer distance on both sides, with buffer_ids naming the source point of each. "
  "include_input_points decides whether the un-shifted copies themselves are present, and no image is produced twice or omitted.",
  ["inputs", "configurations"], "all boxes, points, buffer sizes (scalar and per axis) and flags",
  "Tests compare counts on a few boxes.",
  ["freud/locality.py", "freud/locality/PeriodicBuffer.cc"], [("image loops", "freud/locality/PeriodicBuffer.cc compute")],
  ["PeriodicBuffer.buffer_points", "PeriodicBuffer.buffer_ids", "PeriodicBuffer.buffer_box"])
p("U01", "UnitCell.generate_system builds the exact replica lattice",
  "UnitCell.generate_system returns a box whose lattice vectors are the scaled cell vectors times the replica counts and, without noise, exactly one point at each basis position of each replica modulo the box, in the cell's dimensionality. "
  "With noise, the same seed gives the same system, the box is unchanged and points stay within the noise of their basis positions; invalid replica counts are rejected, and make_random_system gives reproducible points inside the requested box.",
  ["inputs"], "all cells (predefined and user supplied bases, tilted boxes), replica counts, scales and seeds",
  "Tests compare a few predefined cells at one or two replica counts.",
  ["freud/data.py", "freud/locality/PeriodicBuffer.cc"], [("replication through PeriodicBuffer", "freud/data.py generate_system")], ["freud.data.UnitCell"])
CL = ["freud/cluster.py", "freud/cluster/Cluster.cc", "freud/cluster/ClusterProperties.cc"]
p("C01", "Clusters are the connected components of the neighbour graph",
  "After Cluster.compute two points have the same cluster_idx exactly when they are connected through neighbour bonds (in either direction); indices are 0..num_clusters-1 ordered by non-increasing size and, among clusters of equal size, by their smallest point index, and cluster_keys[c] holds exactly the keys (point indices by default) of the members of cluster c. "
  "The partition depends only on the bond set, not on bond order, direction or thread scheduling.",
  ["inputs", "schedules"], "all bond graphs on any number of points and all key assignments",
  "Tests check a few graphs of at most a handful of clusters with one thread count.",
  CL, [("concurrent disjoint set union", "freud/cluster/Cluster.cc, dset"), ("renumbering by size", "freud/cluster/Cluster.cc")],
  ["Cluster.cluster_idx", "Cluster.cluster_keys", "Cluster.num_clusters"])
p("C02", "Cluster properties are those of each cluster's own members",
  "For every assignment of points to clusters, ClusterProperties reports for each cluster the number of its members, their total mass, the periodic centre of mass of its members with their own masses, the mass-independent gyration tensor (1/N)sum d d^T and radius sqrt(sum m d^2/sum m) of displacements wrapped from that centre, and the inertia tensor sum m(d^2 I - d d^T), so that reordering the points together with labels and masses changes nothing. "
  "cluster_idx or masses of the wrong length are rejected.",
  ["inputs"], "all label arrays (interleaved, unsorted labels), masses and boxes",
  "Tests use clusters stored contiguously with equal masses.",
  CL, [("per-cluster accumulation", "freud/cluster/ClusterProperties.cc")], ["ClusterProperties.*"])
p("I01", "Interface points are exactly those with a neighbour in the other set",
  "Interface.compute(system, query_points) reports as point_ids exactly the sorted indices of points bonded to at least one query point and as query_point_ids exactly the sorted indices of query points bonded to at least one point, with counts equal to their lengths. "
  "Swapping the two sets swaps the two answers.",
  ["inputs"], "all pairs of point sets and neighbour arguments (dicts and explicit lists)",
  "Tests use two hand-made configurations.",
  ["freud/interface.py"], [("unique over nlist columns", "freud/interface.py compute")], ["Interface.point_ids", "Interface.query_point_ids"])

DE = ["freud/density.py"]
BH = ["freud/util/Histogram.h", "freud/locality/BondHistogramCompute.h"]
p("H01", "RDF counts every pair in its bin and normalises by shell volume",
  "RDF.bin_counts[b] is exactly the number of (query point, point) bonds, over all accumulated frames, with distance in the half-open bin [edge_b, edge_b+1); rdf is that count divided by frames x query points x point number density x shell volume (spherical in 3D, annular in 2D, (N-1)/N corrected for finite_size), and n_r is the cumulative count per query point per frame. "
  "Bins divide [r_min, r_max) uniformly with the reported edges, centres and nbins, and changing the mode changes what is reported accordingly.",
  ["inputs", "configurations"], "all systems, bin layouts, modes, neighbour arguments (including lists reaching beyond r_max)",
  "Tests check ideal-gas averages and analytic totals on random points; bin-edge distances and query/point asymmetry are not enumerated.",
  DE + BH + ["freud/density/RDF.cc"], [("RegularAxis binning", "freud/util/Histogram.h"), ("reduce normalisation", "freud/density/RDF.cc")], ["RDF.bin_counts", "RDF.rdf", "RDF.n_r", "RDF.bin_edges"])
p("H02", "Accumulating with reset=False equals computing over all frames together",
  "For every histogram-type analysis (RDF, CorrelationFunction, the PMFTs, BondOrder), and the frame averages StaticStructureFactorDebye and DiffractionPattern, a sequence of compute calls yields the result of exactly the frames since the last call with reset=True: counts add, averages over frames of one box and size are the mean of the single-frame results (weighted by bonds for correlations), and the order of the frames does not matter. "
  "Reading results between frames, or not, never changes what is reported after later frames.",
  ["histories"], "all interleavings of compute(reset=True), compute(reset=False) and property reads over a set of frames",
  "Tests accumulate the same frame twice; reads between frames and resets in the middle are not explored.",
  DE + BH + ["freud/density/RDF.cc", "freud/density/CorrelationFunction.cc", "freud/pmft", "freud/environment/BondOrder.cc", "freud/diffraction", "freud/msd.py"],
  [("reset / m_reduce flag / frame counter", "freud/locality/BondHistogramCompute.h"), ("lazy reduction", "each analysis' getter")], ["compute(reset=...)", "result properties"],
  state=[("frame counter, thread-local histograms, reduce flag", "accumulated since reset", "freud/locality/BondHistogramCompute.h")])
p("H03", "CorrelationFunction averages value products per distance bin",
  "CorrelationFunction.correlation[b] is the mean over all accumulated bonds in bin b of conj(values[point]) * query_values[query point], zero for an empty bin, and bin_counts[b] is the number of such bonds; when every value is real the result is real. "
  "When query_points/query_values are omitted the points and values serve as both.",
  ["inputs"], "all systems, real and complex value arrays and bin layouts",
  "Tests use constant or symmetric values for which swapping, conjugation or weighting errors cancel.",
  DE + BH + ["freud/density/CorrelationFunction.cc"], [("CFThreadHistogram accumulation", "freud/density/CorrelationFunction.cc")], ["CorrelationFunction.correlation", "CorrelationFunction.bin_counts"])
p("H04", "PMFTs bin each bond in its local frame and normalise it",
  "PMFTXY, PMFTXYZ, PMFTR12 and PMFTXYT count every bond exactly once (once per equivalent orientation for PMFTXYZ) in the bin of its coordinates in the query point's local frame (x,y[,z] rotated by the inverse query orientation; R12 and XYT angles as documented, taken in [0, 2pi)), and drop bonds outside the axes. "
  "The pair correlation is the count normalised by ideal-gas expectation per bin and pmft = -log of it.",
  ["inputs", "configurations"], "all systems, orientations, axis layouts, equivalent orientations and frames",
  "Tests check a handful of two-particle systems and rotational invariance of one configuration.",
  ["freud/pmft.py", "freud/pmft/PMFT.h", "freud/pmft/PMFTXY.cc", "freud/pmft/PMFTXYZ.cc", "freud/pmft/PMFTR12.cc", "freud/pmft/PMFTXYT.cc"] + BH,
  [("local-frame binning", "freud/pmft/*.cc accumulate"), ("jacobian normalisation", "freud/pmft/*.cc reduce")], ["PMFT*.bin_counts", "PMFT*._pcf", "PMFT*.pmft"])
p("H05", "BondOrder counts every bond's direction in its mode's frame",
  "BondOrder places every bond, once per frame, in the (azimuth, polar) bin of its direction: the raw bond direction (bod), the direction in the point's local frame (lbod), in the frame that also carries the query point's orientation (obcd), or the relative orientation of the pair (oocd); no bond is dropped, so counts total the number of bonds. "
  "The reported bond order is counts per frame divided by the solid angle of each bin.",
  ["inputs", "configurations"], "all bonds and orientations, all modes and bin layouts, including bonds along the axes",
  "Tests check totals on one crystal and modes with identity orientations.",
  ["freud/environment.py", "freud/environment/BondOrder.cc"] + BH, [("theta/phi binning", "freud/environment/BondOrder.cc accumulate"), ("solid angle", "freud/environment/BondOrder.cc reduce")], ["BondOrder.bin_counts", "BondOrder.bond_order"])
p("D01", "LocalDensity counts neighbours with linear boundary weighting",
  "For every query point LocalDensity.num_neighbors is the sum over points of 1 when d <= r_max - diameter/2, falling linearly to 0 at d = r_max + diameter/2, and 0 beyond, and density is that number divided by the sphere volume (3D) or disc area (2D) of radius r_max. "
  "The contribution of any bond lies in [0,1] whatever neighbour list is supplied.",
  ["inputs"], "all systems, r_max, diameters and neighbour arguments",
  "Tests check averages of random systems to loose tolerance.",
  DE + ["freud/density/LocalDensity.cc"], [("linear ramp", "freud/density/LocalDensity.cc")], ["LocalDensity.num_neighbors", "LocalDensity.density"])
p("D02", "SphereVoxelization marks exactly the voxels within r_max of a point",
  "In an orthorhombic box, whatever axes are periodic, SphereVoxelization sets voxel (i,j,k) to 1 exactly when some point's minimum-image distance (images along periodic axes only) to the voxel's centre is less than r_max, and to 0 otherwise, independent of point order, of lattice translations of the points and of thread count. "
  "The grid has the requested width along each axis in the order x, y, z (two axes in 2D).",
  ["inputs", "configurations"], "all orthorhombic boxes and periodicities, anisotropic widths, r_max up to and above half the box, and point sets",
  "Tests check one or two points and totals.",
  DE + ["freud/density/SphereVoxelization.cc"], [("bin window around each point", "freud/density/SphereVoxelization.cc")], ["SphereVoxelization.voxels"])
p("D03", "GaussianDensity sums each point's kernel over all voxels within r_max",
  "In an orthorhombic box, whatever axes are periodic, each GaussianDensity voxel equals the sum over points whose minimum-image distance d to the voxel's centre is within r_max of value x normalised Gaussian(d, sigma) and nothing else, so the field is additive over points and linear in values. "
  "The field shifts with the points under grid translations, wraps at box faces, and does not depend on point order.",
  ["inputs", "configurations"], "all orthorhombic boxes and periodicities, anisotropic widths, r_max, sigma, values and point sets",
  "Tests compare total mass and FFT positions for one system.",
  DE + ["freud/density/GaussianDensity.cc"], [("bin window", "freud/density/GaussianDensity.cc"), ("thread-local reduction", "freud/density/GaussianDensity.cc")], ["GaussianDensity.density"])
p("D04", "Debye structure factor equals the Debye sum over all pairs",
  "StaticStructureFactorDebye.S_k equals, for every k, (1/N) times the sum over all query point/point pairs (self pairs included) of sinc(k d) in 3D or J0(k d) in 2D over minimum-image distances, averaged over frames, with N the number of points (or N_total for partial factors). "
  "k_values are uniformly spaced over [k_min, k_max] as requested and min_valid_k is 4 pi over the smallest side length of the system's box.",
  ["inputs", "histories"], "all systems, k grids, partial factors and frame sequences",
  "Tests compare against one external result.",
  ["freud/diffraction.py", "freud/diffraction/StaticStructureFactorDebye.cc", "freud/diffraction/StaticStructureFactor.cc"], [("pairwise sum", "freud/diffraction/StaticStructureFactorDebye.cc")], ["StaticStructureFactorDebye.S_k", "k_values", "min_valid_k"])
p("D05", "DiffractionPattern is invariant under lattice translations and averages frames",
  "For cubic boxes viewed along a box axis DiffractionPattern.diffraction is the squared modulus of the weighted transform of the binned, projected points (Gaussian-damped by peak_width, bilinearly zoomed) divided by the number of particles N and averaged over the frames since reset, so it is unchanged when points are reordered, moved by lattice vectors, or a frame is repeated. "
  "k_values, k_vectors (in the system's frame) and grid/output shapes follow grid_size, output_size, zoom and view, and reading and to_image leave the state unchanged.",
  ["inputs", "histories"], "all systems, grid/output sizes, zooms, view orientations and frame sequences",
  "Tests check shapes, a few peaks and reset.",
  ["freud/diffraction.py"], [("binning, fft, affine transform", "freud/diffraction.py DiffractionPattern.compute")], ["DiffractionPattern.diffraction", "k_values", "k_vectors"])
p("O01", "Hexatic order parameter is the exact bond-angle average",
  "Hexatic.particle_order[i] equals the (weighted, normalised) mean of exp(i k theta) over the bonds of query point i, theta being the in-plane angle of the minimum-image bond vector, not a number for a point without bonds; weights count only when weighted=True. "
  "It depends only on the bonds of i: rotating the system multiplies it by exp(i k alpha), and relabelling other points changes nothing.",
  ["inputs"], "all bond lists, weights and k",
  "Tests check perfect hexagons and range only.",
  ["freud/order.py", "freud/order/HexaticTranslational.cc"], [("bond sum", "freud/order/HexaticTranslational.cc")], ["Hexatic.particle_order"])
p("O02", "Cubatic order: reproducible, bounded, and exact tensors for its own orientation",
  "Cubatic.compute reports, for the orientation it found, the order parameter and per-particle values given by its reported global tensor and the exact particle tensors of the input orientations; values never exceed 1, every particle of a perfectly aligned cubic system has value 1, and the result is the best of the replicates, so that adding replicates to a seeded run never lowers it. "
  "The same orientations, settings and seed give the same result on every run and with any number of threads.",
  ["inputs", "schedules"], "all orientation sets, annealing settings, seeds and thread counts",
  "Tests check ordered and disordered limits with tolerance.",
  ["freud/order.py", "freud/order/Cubatic.cc"], [("seeded annealing per replicate", "freud/order/Cubatic.cc compute"), ("fourth rank tensors", "freud/order/Cubatic.cc")], ["Cubatic.order", "Cubatic.orientation", "Cubatic.particle_order", "Cubatic.global_tensor"])
p("O03", "Rotational autocorrelation equals the hyperspherical-harmonic average",
  "RotationalAutocorrelation.particle_order[i] equals the normalised hyperspherical character of degree l of the relative rotation between reference and current orientation of particle i, and order is their mean, so identical orientations give 1, the value depends only on the relative rotation of each particle, and permuting particles permutes the values. "
  "Arrays of different lengths are rejected.",
  ["inputs"], "all pairs of orientation arrays and even l",
  "Tests compare a few tabulated numbers.",
  ["freud/order.py", "freud/order/RotationalAutocorrelation.cc"], [("hypersphere harmonic sum", "freud/order/RotationalAutocorrelation.cc")], ["RotationalAutocorrelation.order", "particle_order"])
p("E01", "Angular separations are the smallest over the equivalent orientations",
  "AngularSeparationGlobal.angles[i, g] is the minimum over equivalent orientations of the rotation angle between orientation i and global orientation g (equivalent orientations form a group), and AngularSeparationNeighbor.angles[b] that between the two particles of bond b, in the list's bond order, so the angle is zero for identical or equivalent orientations and lies in [0, pi] when the equivalents are closed under sign. "
  "Each bond uses its own query point's and point's orientation whichever way the two sets differ in size, and orientation arrays of the wrong length are rejected.",
  ["inputs"], "all orientation sets, equivalence sets and neighbour lists with distinct query points",
  "Tests use points as their own query points, where swapping roles is invisible.",
  ["freud/environment.py", "freud/environment/AngularSeparation.cc"], [("min over equivalents", "freud/environment/AngularSeparation.cc")], ["AngularSeparationGlobal.angles", "AngularSeparationNeighbor.angles"])
p("E02", "Local bond projections are the largest projection over equivalent vectors",
  "LocalBondProjection.projections[b, v] is the maximum over equivalent orientations of the dot product of bond b's vector, expressed in the bonded point's frame, with the projection vector, as given, rotated by that equivalent orientation (equivalent orientations form a group), and normed_projections is the same divided by the bond length. "
  "Rows follow the neighbour list's bond order and columns the projection vectors, and orientation arrays of the wrong length are rejected.",
  ["inputs"], "all systems, orientations, projection vectors, equivalents and query sets",
  "Tests use one or two bonds with special orientations.",
  ["freud/environment.py", "freud/environment/LocalBondProjection.cc"], [("projection maximum", "freud/environment/LocalBondProjection.cc")], ["LocalBondProjection.projections", "normed_projections"])
p("M01", "MSD equals the defined averages over particles and windows",
  "In direct mode MSD.particle_msd[t, i] is |x_i(t)-x_i(0)|^2 and in window mode the mean over all start frames of |x_i(s+t)-x_i(s)|^2, with positions unwrapped by their images when a box is given, and msd[t] is the mean over all particles accumulated since the last reset. "
  "It is invariant (up to rounding) under translating each particle's whole trajectory, and positions or images of inconsistent shape are rejected.",
  ["inputs", "histories"], "all trajectories, image histories, modes and reset sequences",
  "Tests compare against a naive loop on random data and simple lines.",
  ["freud/msd.py"], [("FFT autocorrelation algorithm", "freud/msd.py _window"), ("unwrap", "freud/msd.py compute")], ["MSD.msd", "MSD.particle_msd"])
ALLPY = ["freud/util.py", "freud/cluster.py", "freud/density.py", "freud/diffraction.py", "freud/environment.py", "freud/order.py", "freud/pmft.py", "freud/locality.py", "freud/msd.py", "freud/interface.py"]
p("K01", "Results are unavailable until a compute has succeeded, settings always are",
  "On every analysis object each result property raises AttributeError until a compute call on that object has succeeded, and every one is readable afterwards; constructor settings read back as given, before and after any computes, and a rejected compute never makes the results of a fresh object available. "
  "Each object's availability is its own: computing one object never exposes or alters another's.",
  ["histories"], "all sequences of construct, failed compute, successful compute and property reads on several objects of every analysis class",
  "Tests check AttributeError before the first compute for a few classes; failed computes and multiple objects are not explored.",
  ALLPY, [("_Compute.__getattribute__ flag", "freud/util.py"), ("@_Compute._computed_property", "freud/util.py")], ["result and setting properties of analysis classes"],
  state=[("_called_compute", "a compute succeeded", "freud/util.py")])
p("K02", "Reusing an analysis object gives the result of a fresh object",
  "For every analysis class, compute on an object that has computed other data before (different box, number of points, neighbours or orientations, and dimensionality where the class accepts a change of it; with reset where it exists) gives exactly the results a newly constructed object gives for that input. "
  "Nothing of an earlier, possibly failed, computation is visible in the results.",
  ["histories"], "all sequences of computes over differently sized and shaped inputs",
  "Tests compute once per object or twice with the same data.",
  ALLPY, [("result arrays re-prepared at every compute", "C++ compute methods"), ("reset", "freud/util.py, BondHistogramCompute.h")], ["compute then result properties"])
p("K03", "Arrays a user already holds do not change when the object computes again",
  "A result array (or neighbour list, box or filtered list) read from an analysis object keeps its value when the same object computes again on other data (with reset where it exists) or is deleted, so results saved from a loop over frames stay what they were when read. "
  "Reading a property twice without computing gives equal values.",
  ["histories"], "all sequences of compute, read-and-hold, compute again, delete, over all analysis classes",
  "Tests read results immediately after each compute and never hold them across another compute.",
  ALLPY + ["freud/util/ManagedArray.h", "freud/util/export-ManagedArray.h"], [("shared ownership of array storage", "freud/util/ManagedArray.h, export-ManagedArray.h")], ["result properties held across computes"])
p("K04", "Inputs are never modified and later changes to them are harmless",
  "No analysis or query modifies the arrays, boxes, neighbour lists or orientation arrays passed to it (apart from explicit out= arguments), whatever their dtype, memory order or contiguity, and equivalent inputs of different dtype, layout or container type give identical results. "
  "Changing or deleting an input after a call returns never changes results already computed, nor the answers of a neighbour-query object built from it as long as that object's own points are unchanged.",
  ["inputs", "histories"], "all argument layouts (float64, Fortran order, strided views, lists, read-only) and later mutations, over all classes",
  "Tests pass float32 contiguous arrays and never mutate them afterwards.",
  ALLPY, [("_convert_array copying rules", "freud/util.py"), ("keep-alive references", "freud/locality.py, export-*.cc")], ["compute/query on views and mutated inputs"])
p("T01", "Results do not depend on the number of threads or on scheduling",
  "Every analysis and query yields the same result for every number of threads set with set_num_threads and on every repetition: index, count and bond results identical, floating-point sums equal up to rounding. "
  "No contribution is lost or counted twice however the work is divided.",
  ["schedules", "inputs"], "all thread counts and work divisions, over all parallel analyses, on systems large enough to be divided",
  "Tests run with the default thread count only, mostly on systems too small to be split.",
  ["freud/util/ThreadStorage.h", "freud/util/utils.h", "freud/locality/NeighborComputeFunctional.h", "freud/locality/NeighborQuery.h", "freud/util/Histogram.h", "freud/density", "freud/order", "freud/environment", "freud/cluster", "freud/diffraction"],
  [("thread-local accumulation and reduction", "freud/util/ThreadStorage.h, freud/util/Histogram.h"), ("disjoint row ranges", "freud/util/utils.h forLoopWrapper")], ["all results under parallel.set_num_threads"])
p("T02", "Thread-count settings nest and restore",
  "get_num_threads reports the last value set through set_num_threads (None meaning automatic), and NumThreads sets its value on entry and on exit, normal or by exception, restores the value in force when it was entered, for any nesting and reuse of context managers and of set_num_threads calls in between. That value is the limit on the threads actually used, and an invalid thread count is rejected without changing it. "
  "Changing the setting never changes any object or result.",
  ["histories"], "all sequences and nestings of set_num_threads, NumThreads entry/exit and exceptions",
  "Tests check one level of nesting.",
  ["freud/parallel.py", "freud/parallel/tbb_config.cc"], [("saved value restored in __exit__", "freud/parallel.py NumThreads")], ["freud.parallel"],
  state=[("_num_threads", "python-visible setting", "freud/parallel.py")])
p("A01", "Arrays that do not fit each other are rejected, those that fit are accepted",
  "Every compute and NeighborList.from_arrays call of the compiled analysis classes raises an exception (and never reads or writes outside an array) when a non-empty per-point array (orientations, values, masses, keys, radii, images, ...) does not have one row per point, or per query point, of the system passed with it, when an array's numbers cannot be arranged in the documented shape (rows of another width, text), or when an explicit neighbor list was made for other numbers of points or query points (Interface excepted, which uses the list alone). "
  "Arguments with exactly the documented shapes and a list made for these points are never rejected on account of them.",
  ["inputs"], "all combinations of array shapes and neighbor list sizes over all computes",
  "Tests pass one wrong shape to a few classes; most mismatches, in particular of neighbor lists and of query points, are never tried.",
  ["freud/util.py", "freud/locality.py", "freud/cluster.py", "freud/density.py", "freud/diffraction.py", "freud/environment.py", "freud/interface.py", "freud/msd.py", "freud/order.py", "freud/pmft.py", "freud/locality/NeighborComputeFunctional.h"],
  [("_convert_array shape checks", "freud/util.py"), ("explicit list size check", "freud/locality/NeighborComputeFunctional.h")], ["compute of every compiled analysis class", "NeighborList.from_arrays"])
p("A02", "Settings outside their domain are rejected, those inside are accepted",
  "Constructors reject non-positive numbers of bins (fewer than 2 for BondOrder), non-positive cutoffs and extents that leave no range (r_max <= 0 or r_max <= r_min, k_max <= k_min), negative diameters, widths and extents, unknown modes, sequences of the wrong length, odd or negative l, negative Hexatic k, non-positive or rising Cubatic temperatures and scales outside (0, 1), and cell widths that are negative or exceed half the smallest plane spacing; two-dimensional systems reject points off the plane (|z| of 0.001 or more) of either sign. "
  "Queries reject unknown keys and modes, missing or contradictory ball and nearest arguments, an r_max that is not positive or not above r_min for ball queries, num_neighbors below 1, and (AABBQuery) a scale of at most 1. All settings strictly inside these domains are accepted.",
  ["inputs"], "all settings of the compiled classes and query arguments",
  "Tests try one or two bad values for some of the settings.",
  ["freud/density", "freud/pmft", "freud/environment", "freud/order", "freud/diffraction", "freud/msd.py", "freud/locality/NeighborQuery.h", "freud/locality/LinkCell.cc"],
  [("constructor checks", "freud/*/*.cc constructors"), ("validateQueryArgs", "freud/locality/NeighborQuery.h")], ["constructors of the compiled classes", "NeighborQuery.query"])
p("W01", "Results do not depend on which images, order or origin describe the system",
  "Replacing any points or query points by other periodic images, listing them (with their per-point data and any explicit neighbor list) in another order, moving the origin of all points together, or (for results that are not vectors, tensors, fields or directions, in orthorhombic boxes) turning the whole system, box included, onto other axes (a quarter turn in 2D, a cyclic exchange of x, y and z in 3D), leaves every result of the compiled analyses unchanged up to rounding, except that per-point rows follow the order of the points, bonds are those of the same particles, and cluster labels may be renumbered. "
  "Fields on a grid and centres follow the points.",
  ["inputs", "histories"], "all sequences of re-descriptions of all systems over all analyses",
  "Tests use points in the box in one fixed order.",
  ["freud/box/Box.h", "freud/locality", "freud/cluster", "freud/density", "freud/diffraction", "freud/environment", "freud/order", "freud/pmft", "freud/msd.py"],
  [("wrapping of separations", "freud/box/Box.h wrap"), ("points outside the box", "freud/locality/NeighborQuery.h getImageInBox")], ["results of every compiled analysis class"])
p("W02", "A periodically repeated system says of every copy what the single cell says",
  "Repeating a system m1 x m2 x m3 times (box, points with their per-point data and any explicit neighbor list, listed in any order), where no bond is longer than half the plane spacing, changes results only as follows, up to rounding: histogram counts and BondOrder values multiply by the number of copies; rdf, n_r, correlation, pcf and pmft values (not rdf in finite_size mode), mean square displacements and the mean rotational autocorrelation stay the same; every copy of a point keeps its local density, number of neighbors, hexatic order, separations and projections; "
  "neighbor lists and filtered lists give every copy the bonds of the single one (vectors, distances, weights); GaussianDensity and SphereVoxelization in orthorhombic boxes tile when the width is multiplied too; Interface contains all copies; every cluster consists of copies of one whole cluster.",
  ["inputs", "histories"], "all sequences of repetitions and reorderings of all systems over all analyses",
  "Tests use one cell size per system.",
  ["freud/box", "freud/locality", "freud/cluster", "freud/density", "freud/environment", "freud/order", "freud/pmft", "freud/msd.py"],
  [("index arithmetic", "freud/locality"), ("normalisations", "freud/density, freud/pmft")], ["results of every compiled analysis class"])
p("W03", "What is said of many points is put together from what is said of parts of them",
  "However the points or the query points of an analysis (with their per-point data; with an explicit list or a cutoff, small systems and systems of hundreds and thousands of points) are divided into parts, up to rounding the histogram counts, n_r (points), densities of GaussianDensity, S(k) of StaticStructureFactorDebye (with N_total of the whole) and numbers of neighbors (points) of the whole are the sums over its parts and SphereVoxelization is their maximum; "
  "results per point or query point (LocalDensity, separations, projections, rotational autocorrelation, displacements), bonds of neighbor lists and of the RAD and SANN filters (query points) and Interface indices are those of the parts under the numbers of the whole.",
  ["inputs", "histories", "sizes"], "all divisions of all systems over the analyses that are sums or rows",
  "Tests compare whole systems with precomputed values or properties only.",
  ["freud/locality", "freud/density", "freud/diffraction", "freud/environment", "freud/order", "freud/pmft", "freud/msd.py"],
  [("loops over points", "freud/util/utils.h, freud/locality/NeighborComputeFunctional.h"), ("thread-local reduction", "freud/util")], ["results of the analyses that are sums or rows"])
p("W04", "Results do not depend on the unit of length",
  "When every length handed over (boxes, points, cutoffs, widths, ranges, buffers and their inverses for wave numbers) is multiplied by a power of two between 2^-12 and 2^12, nothing is refused and, up to rounding, neighbor indices and weights, clusters, shells, orders, counts, normalised functions (g(r), correlations, PMFTs, S(k), voxels) and fractions stay the same, while each result that is a length (wrapped points, distances, vectors, bin edges of distances, centers, radii of gyration, projections, buffer points), a squared length (gyration and inertia tensors, MSD), a volume, a density or a wave number is multiplied by the matching power of the factor.",
  ["inputs", "histories", "sizes"], "all units of length for all systems and analyses",
  "Tests use systems of ordinary sizes (lengths of about 1 to 100) only.",
  ["freud/box", "freud/locality", "freud/cluster", "freud/density", "freud/diffraction", "freud/environment", "freud/order", "freud/pmft", "freud/msd.py", "freud/data.py"],
  [("query defaults", "freud/locality/NeighborQuery.h"), ("normalisations", "freud/density, freud/pmft"), ("kernels", "freud/density")], ["results of the compiled classes that involve lengths"])
p("W05", "Less detail says the same as more detail, put together or left out",
  "An analysis asked for less tells what it tells when asked for more: histograms (RDF, CorrelationFunction, PMFTs, BondOrder) with half as many bins along an axis count the sums of neighboring bins (correlations: their means by count), and with half the range the values of the bins that remain (also of g(r), n_r, correlations and PMFTs, the bonds being the same); "
  "neighbor queries for fewer, nearer or farther neighbors give exactly the bonds of wider ones that qualify, RAD and SANN shells of shorter candidate lists the bonds of the shells within, RAD-closed part of RAD-open; Cluster with a shorter cutoff refines, Interface and PeriodicBuffer give subsets, SphereVoxelization no more voxels; Debye S(k) on part of the wave numbers, the direct MSD of the first frames, "
  "projections and separations on fewer directions are those parts, fewer equivalent orientations never give smaller separations or larger projections and PMFTXYZ counts, and GaussianDensity on a grid three times as wide has the same values at the common centers (sigma a sixth of r_max).",
  ["inputs", "histories", "sizes"], "all settings of detail for all systems",
  "Tests compute each analysis with one setting and never compare settings.",
  ["freud/locality", "freud/cluster", "freud/density", "freud/diffraction", "freud/environment", "freud/interface.py", "freud/pmft", "freud/msd.py"],
  [("binning", "freud/util/Histogram.h"), ("query engines", "freud/locality"), ("filters", "freud/locality/FilterRAD.cc, freud/locality/FilterSANN.cc")], ["results of the classes with a range, a number of bins or a cutoff"])
p("W06", "Analyses that tell of the same thing agree",
  "On the same system, points and frames (accumulated where that is possible): RDF, CorrelationFunction and PMFTR12 summed over its angles count the same bonds per distance bin, n_r is their running sum per query point and frame, a correlation of ones is one where there are bonds, PMFTXYT summed over angles is PMFTXY, the angles of PMFTXYT are those of PMFTR12 from the opposite direction, quadrants of PMFTXY those of PMFTR12, BondOrder's octants those of the local bond projections, its modes agree for unturned points, and all of them count as many bonds as the neighbor list holds, whatever its weights; "
  "LocalDensity's neighbors, Interface's indices, projections, separations (neighbor and global) and the nearest points of the voxels of SphereVoxelization and GaussianDensity are those of the neighbor list; pmft is -log of counts up to a constant; rotational autocorrelation of order 2 follows from the angles of separation; ClusterProperties agree with Box.center_of_mass and with each other; windowed MSD is the mean of direct MSDs of the tails; distances in a periodic box are plain distances to the buffer's copies; Box distances, wrap, unwrap, get_images, contains and fractions agree with each other and with neighbor lists; Hexatic with equal weights is unweighted.",
  ["inputs", "histories"], "all systems, frames and settings",
  "Tests look at one analysis at a time and compare it with stored or analytic values.",
  ["freud/box", "freud/locality", "freud/cluster", "freud/density", "freud/environment", "freud/interface.py", "freud/order", "freud/pmft", "freud/msd.py"],
  [("binning of bonds", "freud/locality/BondHistogramCompute.h, freud/util/Histogram.h"), ("bond frames", "freud/pmft, freud/environment"), ("cluster properties", "freud/cluster/ClusterProperties.cc")], ["results of the classes named"])
p("W07", "Size changes nothing",
  "With more points, query points, bonds, neighbors of one point, clusters, bins or frames than a byte or a 16-bit word can count (tens of thousands, hundreds of frames), every result is what the rule for one item says: neighbor and nearest-neighbor queries of every engine, one point with tens of thousands of neighbors, NeighborList (entries, segments, counts, first indices, filter, filter_r, all_pairs), Cluster and ClusterProperties, RDF, CorrelationFunction and PMFT bins with their edges and centers, "
  "frames accumulated hundreds of times, density grids and voxels, LocalDensity, Hexatic, LocalBondProjection, Interface, MSD, FilterRAD and Box.wrap, unwrap, get_images, make_fractional and compute_distances; and no analysis asks for memory out of proportion to its bins and bonds.",
  ["inputs"], "all sizes", "Tests use a few hundred points, bins and frames at most.",
  ["freud/locality", "freud/util", "freud/cluster", "freud/density", "freud/pmft", "freud/order", "freud/interface.py", "freud/msd.py", "freud/box"],
  [("indices, counters and their types", "freud/locality/AABBTree.h, freud/locality/LinkCell.h, freud/locality/NeighborList.cc, freud/util/Histogram.h, freud/util/ManagedArray.h, freud/locality/BondHistogramCompute.h"), ("shell volumes", "freud/density/RDF.cc")], ["results of the classes named"])
p("G01", "Pictures show the results they are drawn from",
  "Every plot method of a compiled class and every function of freud.plot draws, on the axes given or else on new ones and without removing what is already on them: lines (RDF, CorrelationFunction, MSD, StaticStructureFactorDebye above min_valid_k, line_plot) with exactly the points of the result; images (2D GaussianDensity and SphereVoxelization with x rightwards and y upwards over the box, PMFTXY likewise over its range, DiffractionPattern over its k values with values clipped to vmin and vmax) with exactly its values; "
  "for Cluster and clusters_plot the most frequent keys, most frequent first, with their counts; histograms that count every value once in the right bar; exactly the edges of the (tilted, 2D or 3D) box at the requested image, in the style asked for, and the points of a system, with the title asked for. DiffractionPattern.to_image is brighter for larger values, saturating at vmin and vmax; _repr_png_ is None before compute and for 3D fields and a PNG otherwise.",
  ["inputs", "histories"], "all results, arguments and sequences of drawings on shared axes",
  "Tests only check that plot calls do not raise; none looks at what is drawn.",
  ["freud/plot.py", "freud/density.py", "freud/pmft.py", "freud/cluster.py", "freud/diffraction.py", "freud/msd.py", "freud/order.py", "freud/box.py", "freud/locality.py"],
  [("figure drawing functions", "freud/plot.py"), ("plot methods", "freud/density.py, freud/pmft.py, freud/diffraction.py")], ["plot, to_image, _repr_png_", "freud.plot"])
p("G02", "The representation of an object is an expression for an object like it",
  "The settings an object was constructed with are told by its properties, and evaluating repr() of any compiled analysis object or Box (as made, after its writable properties were assigned, after computing, or itself read from a representation) gives an object of the same class with the same constructor settings, the same repr and str, and the same results on the same inputs, up to rounding.",
  ["inputs", "histories"], "all settings of all classes and all sequences of assignments, computes and copies",
  "Tests compare str(eval(repr(x))) with str(x), which cannot notice a setting that repr omits or that takes another value.",
  ["freud/box.py", "freud/cluster.py", "freud/density.py", "freud/diffraction.py", "freud/environment.py", "freud/interface.py", "freud/locality.py", "freud/msd.py", "freud/order.py", "freud/pmft.py"],
  [("__repr__ of every class", "freud/*.py"), ("properties that tell settings", "freud/*.py")], ["__repr__, __str__", "properties of settings"])
UB = "not compiled in this sandbox (third-party submodules absent)"
p("V01", "Voronoi cells tile the box and neighbours share facets",
  "Voronoi cell volumes are positive and sum to the box volume and the reported neighbours are exactly the pairs of cells sharing a facet with symmetric weights.",
  ["inputs"], "all boxes and point sets", "Tests use a few lattices.",
  ["freud/locality/Voronoi.cc"], [("voro++ container", "freud/locality/Voronoi.cc")], ["Voronoi"], hook=UB)
p("S01", "Steinhardt order parameters are rotation-invariant bond averages",
  "Steinhardt and SolidLiquid order parameters depend only on each particle's bonds and are invariant under rotation of the system.",
  ["inputs"], "all bond lists", "Tests use perfect crystals.",
  ["freud/order/Steinhardt.cc", "freud/order/SolidLiquid.cc"], [("fsph harmonics", "freud/order/Steinhardt.cc")], ["Steinhardt", "SolidLiquid"], hook=UB)
p("N01", "Nematic tensor and order of molecular directors",
  "Nematic.order is the largest eigenvalue of the average director tensor and its director the matching eigenvector.",
  ["inputs"], "all director sets", "Tests use aligned sets.",
  ["freud/order/Nematic.cc"], [("diagonalisation", "freud/util/diagonalize.cc")], ["Nematic"], hook=UB)
p("X01", "Environment matching finds exactly the matching environments",
  "EnvironmentCluster and EnvironmentMotifMatch report as matching exactly the environments that can be superposed within the threshold.",
  ["inputs"], "all environments", "Tests use a few motifs.",
  ["freud/environment/MatchEnv.cc"], [("isSimilar", "freud/environment/MatchEnv.cc")], ["EnvironmentCluster"], hook=UB)
p("S02", "Direct structure factor and local descriptors equal their defining sums",
  "StaticStructureFactorDirect.S_k equals the squared Fourier amplitude averaged over sampled reciprocal vectors and LocalDescriptors.sph the spherical harmonics of each bond.",
  ["inputs"], "all systems", "Tests compare one external result.",
  ["freud/diffraction/StaticStructureFactorDirect.cc", "freud/environment/LocalDescriptors.cc"], [("Eigen/fsph", "same files")], ["StaticStructureFactorDirect", "LocalDescriptors"], hook=UB)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
