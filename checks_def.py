"""What each check builds and runs. See DESIGN.md."""
H = "$V/harness/"
CHECKS = {}
def check(id, rule, units, **kw): CHECKS[id] = dict(rule=rule, units=units, **kw)
def U(name, src, **kw):
    src = [src] if isinstance(src, str) else src
    return dict(name=name, src=[s if s.startswith("$") else H + s for s in src], **kw)

check("C05", "vectors drawn from integer and floating-point ranges incl. near-degenerate, repeated, zero; all 3^k small vectors in 1D/2D; a case is non-trivial by its distinct vertex vectors+numbering",
      [U("pred", "c05_predicates.cc", shards=8)], min={"inside": 2000, "outside": 2000, "parity_simplices": 50000},
      assumptions=["determinants fit the arithmetic used (64-bit integers; GMP floats of the library's default precision)"])
check("C01", "boxes of 2-4 dimensions, lower bounds zero/positive/negative, including one-slice boxes; a case is its box", [U("mesh", "c01_regular_mesh.cc", shards=8)],
      min={"elements": 20000, "sideof_returned": 50000, "large_ids": 2000, "work_index_roundtrips": 5000})
check("C02", "sub-complexes of triangulated 2D/3D grids under random vertex numbering, listing order, vertex order, removed cells, isolated vertices; a case is its connectivity",
      [U("map", "c02_unstructured_mesh.cc", shards=6), U("tbb", "c02_unstructured_mesh.cc", feat="TBB", libs=["-ltbb"], shards=2)],
      min={"base_simplices": 5000, "extruded_simplices": 50000, "extruded_sideof": 5000, "extruded_lookups": 20000, "points_located": 500},
      assumptions=["meshes are manifold (an edge of a 2D mesh has at most two triangles)", "mesh partitioning (METIS) is not built here"])
check("C03", "item counts, thread counts 0..32, both thread backends, injected worker delays, containers, regular/extruded meshes; a case is its (range, threads, backend)",
      [U("pthread", "c03_sweeps.cc", shards=4), U("tbb", "c03_sweeps.cc", feat="TBB", libs=["-ltbb"], shards=2), U("tsan", "c03_sweeps.cc", profile="tsan", shards=4)],
      min={"visits": 100000, "multithreaded_sweeps": 500}, assumptions=["the OpenMP backend is not part of this build"])
check("C04", "boxes of 1-4 dimensions, process counts, given splits, ghost widths, unlimited time; lattices with any origin", [U("part", "c04_partition.cc", shards=4)],
      min={"partitions": 800, "parts": 5000, "roundtrips": 20000})
# technique and level note per property (MANIFEST.json)
TECH, NA = {}, {}
TECH["C05"] = ("runtime oracle: exact rational arithmetic + permutation and face-parity monitors over the real predicates", "exhaustive for 3^k small vectors in 1D/2D, sampled elsewhere; nothing is proved")
TECH["C01"] = ("runtime oracle: independent Freudenthal-triangulation model monitors every element, side, coface, id and work index of the real mesh", "exhaustive per sampled box, boxes sampled")
TECH["C02"] = ("runtime oracle: brute-force combinatorial model of the base and extruded mesh monitors every simplex, side, coface, lookup and id", "exhaustive per sampled mesh, meshes sampled")
TECH["C03"] = ("exactly-once monitor on visited elements under injected delays, both thread backends, plus ThreadSanitizer", "schedules are sampled by delays and thread counts")
TECH["C04"] = ("conservation monitor: every cell of the box owned by exactly one part, ghost extents and id round trips checked against arithmetic on boxes", "exhaustive per sampled box/process count, sampled otherwise")
check("C19", "intervals built by random setter sequences over a small grid of ends (open, closed, unbounded, inverted, empty), join/intersect histories, polynomials and rational functions with known roots, rationals over random operation chains; a case is its operand pair or history",
      [U("alg", "c19_intervals.cc", shards=4), U("asan", "c19_intervals.cc", profile="asan", shards=4)], min={"interval_pairs": 5000, "interval_set_states": 10000, "inequality_probes": 50000, "rational_results": 20000},
      assumptions=["roots separated by at least 0.3 within a polynomial and 0.05 between numerator and denominator unless equal", "values fit long long"])
TECH["C19"] = ("point-set membership monitors on probe points, exact (GMP) arithmetic oracle, AddressSanitizer/UBSan", "sampled histories")
check("C20", "element counts, request sequences (random, chains, stars, repeated, self pairs), threads with yields; a case is its request sequence", [U("seq", "c20_union_find.cc", shards=4), U("tsan", "c20_union_find.cc", profile="tsan", shards=4)],
      min={"pairs_compared": 100000, "concurrent_unions": 20000}, assumptions=["concurrent calls are unite, find and has"])
TECH["C20"] = ("runtime oracle: brute-force partition compared with the structures, after sequential histories and after concurrent ones under ThreadSanitizer", "histories and schedules sampled")
check("C21", "point sets (random, gridded with ties, collinear, duplicated), tree depth limits, triangulations incl. vertices and boundary points; a case is its points or connectivity", [U("search", "c21_search.cc", shards=4), U("asan", "c21_search.cc", profile="asan", shards=4)],
      min={"kd_queries": 20000, "kd_limited": 2000, "located_inside": 5000, "located_outside": 1000, "located_vertices": 1000}, assumptions=["non-empty point sets", "points within 1e-9 (relative) of an edge, other than vertices, may be attributed to either side"])
TECH["C21"] = ("runtime oracle: brute-force search against the tree and the locator, AddressSanitizer/UBSan", "queries sampled, including every vertex of every mesh")
VTKLIBS = ["-rdynamic"] + ["-lvtk%s-9.1" % l for l in "CommonCore CommonDataModel CommonExecutionModel CommonMath CommonSystem CommonMisc IOXML IOXMLParser IOLegacy IOPLY IOGeometry IOCore IOImage IOParallelXML ParallelCore FiltersCore FiltersGeneral FiltersGeometry ImagingCore".split()] + ["-lvtksys-9.1"]
check("C10", "random points, curves, sets and surfaces (empty, single point, loops, repeated labels, 64-bit tags, signed zeros, denormals, values up to 1e150), archives read by fresh trackers, by the writing tracker, and over previous contents; a case is its features",
      [U("files", "c10_persist.cc", shards=2), U("vtk", "c10_persist.cc", feat="VTK", cflags=["-DWITH_VTK"], libs=VTKLIBS, shards=2), U("asan", "c10_persist.cc", profile="asan", shards=4, thorough_only=True)], min={"points_compared": 2000, "sets_compared": 1500, "loops_compared": 300, "text_points": 5000, "surfaces": 500, "vtk_curves": 300, "vtk_loops": 50},
      assumptions=["numbers and statistics are finite", "VTK files are compared in single precision, with ids and tags below 2^32, and without the attributes they do not carry", "attributes of curves whose stored id is not their label: contents only"])
TECH["C10"] = ("runtime oracle: bitwise comparison of every attribute after writing and reading archives, independent parser of the text output, VTK readers on written files", "feature sets sampled")
check("C11", "curves with random types (also 0), ordinal flags, times (ascending, descending, turning, arbitrary), loops, 0..40 points, sets of up to 16 of them with shared labels; random sequences of operations; a case is its curves and operations",
      [U("post", "c11_postprocess.cc", shards=2), U("asan", "c11_postprocess.cc", profile="asan", shards=4)], min={"curves_split": 2000, "loops_rotated": 50, "times_adjusted": 100, "intercepts_nonempty": 2000, "unwrapped_across_period": 100, "pipelines": 500, "geo_cut": 50, "slices": 500},
      assumptions=["coordinates and times are finite", "unwrapped coordinates lie within one period", "whether curves without points stay in a set is not judged"])
TECH["C11"] = ("runtime oracle: independent models of each operation over points identified by tags, after every step of random operation sequences and pipelines; AddressSanitizer/UBSan", "inputs and operation sequences sampled")
check("C12", "integer, random, smooth, moving-plane and moving-sphere fields on 2D and 3D grids (sub-domains, array offsets, 1-4 timesteps, threads, limited or unlimited time), thresholds on and between the values; a case is its field and threshold",
      [U("con", "c12_contours.cc", shards=6), U("asan", "c12_contours.cc", profile="asan", shards=8, thorough_only=True)], min={"edges_compared": 20000, "surface_facets": 10000, "volume_facets": 5000, "slices_2d": 200, "slices_3d": 50, "gradients_compared": 200, "cases_with_ties": 20, "resets": 20},
      assumptions=["values are compared with the threshold after the trackers' fixed-point quantisation (2^21)", "a vertex exactly on the threshold may count on either side, consistently", "gradients on the border of the array are not judged"])
TECH["C12"] = ("runtime oracle: crossing edges of an independent Freudenthal mesh, their positions, counts of crossed cells, and facet incidence (no cracks) of surfaces, volumes and slices compared with the trackers' output; sanitizers in the thorough tier", "fields and thresholds sampled; small grids")
check("C13", "integer (degenerate), random, linear and oscillating vector fields of 2 or 3 components (also with large values) on 3D grids with sub-domains and array offsets and on unstructured meshes, 1-3 timesteps; velocity and scalar fields for derived vortex cores and ridges; order parameters with weak and strong magnetic fields; a case is its field",
      [U("lines", "c13_lines.cc", shards=7), U("asan", "c13_lines.cc", profile="asan", shards=8, thorough_only=True)], min={"pierced": 10000, "degenerate": 500, "locations_judged": 5000, "cells_with_3": 1000, "cells_with_4": 1000, "cells_with_5": 500, "curve_segments": 3000, "derived_fields": 60, "discriminants": 1000, "vorticities": 500, "vortices": 5000, "vortex_locations": 2000, "strong_field_cases": 20, "resets": 8, "u_pierced": 500, "u_locations": 300, "u_curve_segments": 100},
      assumptions=["values are judged after the trackers' fixed-point quantisation (2^21)", "a feature exactly on the border of a triangle may be assigned to any of the adjacent ones, consistently (each tetrahedron has 0 or 2 pierced sides)", "winding numbers within 1e-3 of one half, or with an edge's phase jump within 1e-4 of pi, are not judged", "how a cell with four or five points is split into triangles is not judged", "unstructured line tracking joins curves for single timesteps only (as documented in the code)"])
TECH["C13"] = ("runtime oracle: exact integer piercing test, winding numbers and interpolated zeros on an independent Freudenthal/staircase mesh; incidence monitors on tetrahedra and space-time cells; derived fields recomputed by central differences; sanitizers in the thorough tier", "fields sampled; small grids")
check("C14", "masks (random densities, checkerboards, combs, spirals, full, one-row), graphs, link sets between steps, thresholded field sequences with values at the threshold; a case is its mask/graph/sequence",
      [U("reg", "c14_regions.cc", shards=4), U("asan", "c14_regions.cc", profile="asan", shards=4)], min={"labelled_cells": 100000, "global_labels": 5000, "events": 2000, "event_merge": 50, "event_split": 50, "event_birth": 50, "event_death": 50, "event_compound": 20, "tracked_steps": 2000},
      assumptions=["labelling is implemented for 2D arrays", "a link gives its two regions the same global label when it is the only link on that side of at least one of them (the rule of tracking_graph::relabel)"])
TECH["C14"] = ("runtime oracle: flood fill, brute-force overlap and event model compared with labelling, links, labels, events and dot output; AddressSanitizer/UBSan", "masks, graphs and sequences sampled")
check("C15", "array shapes of 1-5 dimensions incl. size-one and empty extents, value ranges incl. all-negative, histories of 6 operations over 22 operation kinds; interpolation points in, on the border and outside; 13 field operators; convolution kernels with padding; a case is its shape and history",
      [U("arr", "c15_ndarray.cc", shards=4), U("asan", "c15_ndarray.cc", profile="asan", shards=4)], min={"elements_compared": 50000, "subarrays": 100, "fields_derived": 400, "convolutions": 300, "lerp_points": 2000, "empty_arrays": 50},
      assumptions=["the upper border of multilinear interpolation may count as outside", "convolutions divide by the number of kernel entries (as the repository's tests specify)", "gradients and Jacobians of 2D fields are scaled to the unit domain, of 3D fields to grid units", "the border layers the operators leave out are not compared"])
TECH["C15"] = ("runtime oracle: index-tuple model of the array compared after every operation of random histories; finite-difference and convolution definitions; AddressSanitizer/UBSan", "shapes and histories sampled")
CPG = dict(feat="GMP", libs=["-lgmpxx", "-lgmp"])
check("C06", "random, smooth, sparse, small-valued and constant-in-time integer fields (scalar or vector) on grids with sub-domains, array offsets and four coordinate modes, and on unstructured meshes; non-finite values; a case is its field",
      [U("reg", "c06_cp_regular.cc", shards=5, **CPG), U("uns", "c06_cp_unstructured.cc", shards=3, **CPG), U("regint", "c06_cp_regular.cc", feat="NOGMP", shards=5), U("unsint", "c06_cp_unstructured.cc", feat="NOGMP", shards=3)],
      min={"points": 40000, "ordinal_points": 10000, "interval_points": 20000, "types": 20000, "type_2d_16": 500, "type_3d_4": 1000, "cells_crossed": 30000, "filtered_runs": 100, "degrees": 300, "coords_mode_1": 50, "coords_mode_2": 30, "coords_mode_3": 30},
      assumptions=["field values are multiples of 1/4 (exact in every arithmetic the trackers use)", "on unstructured meshes a face whose vertex vectors are linearly dependent may be dropped", "types are compared when the Jacobian is not within 1e-6 (2D) or 1e-4 (3D) of a degenerate one", "3D vector fields have no types (not implemented by the library)", "in degrees mode type 1 means index -1 and type 2 means index +1"])
TECH["C06"] = ("runtime oracle: exact integer model of the piecewise linear field over every space-time face compared with the detected points, plus a per-cell parity monitor", "every face of each sampled field is judged; fields sampled")
check("C07", "integer fields of six kinds (random, smooth, sparse, small, constant in time, with non-finite values) on regular grids with sub-domains and on unstructured meshes, 1-6 time steps, thread counts, type filters, discarding; a case is its field",
      [U("traj", "c07_trajectories.cc", shards=8, **CPG)], min={"points": 10000, "trajectories": 2000, "loops": 80, "single_points": 200, "two_point_curves": 100, "degree_2": 5000, "discarding_runs": 80, "filtered_runs": 60},
      assumptions=["a trajectory through a point with more than two neighbours (possible only for fields that are not exact) may be cut there"])
TECH["C07"] = ("runtime oracle: adjacency graph of the detected faces built from an independent mesh model, compared with every trajectory, its order, loop flag and statistics", "every point and trajectory of each sampled field is judged; fields sampled")
check("C09", "the fields of C07 over 2-6 time steps, tracked offline and with trajectories grown step by step; a case is its field",
      [U("stream", "c09_streaming.cc", shards=8, **CPG)], min={"streamed_points": 8000, "streamed_trajectories": 1500, "plain_curves": 800, "plain_curves_over_3_steps": 50, "met_curves": 30},
      assumptions=["a curve counts as meeting if two separate pieces of it existed after some time step, or if it is a loop", "tracking with streaming runs on one process"])
TECH["C09"] = ("runtime oracle: offline tracking and an incremental component model of the detected faces compared with the streamed trajectories", "every point and trajectory of each sampled field is judged; fields sampled")
check("C08", "the fields of C07 tracked with 1-24 threads, and with 2, 3 and 4 (thorough: up to 7) processes given the full arrays or only their part, with and without streaming, discarding, filters; a case is its field and division",
      [U("threads", "c08_division.cc", shards=5), U("mpi", "c08_division.cc", feat="MPI", np=[2, 3, 4], tnp=[2, 3, 4, 5, 7])],
      min={"points": 20000, "mpi_runs": 400, "partial_runs": 80, "partial_arrays": 50, "threaded_runs": 800, "streaming_runs": 100, "trajectories": 5000},
      assumptions=["the domain can be cut into as many parts as there are processes", "blocks within a process and the thread backend have no effect on tracking in this version"])
TECH["C08"] = ("differential monitor: canonical sets of points and trajectories from threaded and multi-process executions against a single-threaded single-process execution of the same case", "divisions and schedules sampled")
check("C17", "streams of every built synthetic source (random and default sizes, steps, parameters) and of binary, NetCDF (time axis unlimited, fixed or absent; several steps per file), HDF5, VTK image and VTK grid files with 1-3 variables, 0-100 steps, lists and patterns of files; synchronous and asynchronous with random delays of reading and consuming; spatial and temporal smoothing, noise and limits; whole and partial reads in 1-4 processes; a case is its configuration",
      [U("core", "c17_streams.cc", libs=["-ldl"], shards=3), U("netcdf", "c17_streams.cc", feat="NETCDF", libs=["-ldl"]), U("hdf5", "c17_streams.cc", feat="HDF5", libs=["-ldl"]), U("vtk", "c17_streams.cc", feat="VTK", libs=VTKLIBS + ["-ldl"]),
       U("mpi", "c17_mpi.cc", feat="MPI,NETCDF,VTK", libs=VTKLIBS, np=[1, 2, 3, 4], tnp=[1, 2, 3, 4, 6]),
       U("coreasan", "c17_streams.cc", profile="asan", libs=["-ldl"], shards=2), U("coretsan", "c17_streams.cc", profile="tsan", libs=["-ldl"]), U("ncasan", "c17_streams.cc", profile="asan", feat="NETCDF", libs=["-ldl"], thorough_only=True), U("h5asan", "c17_streams.cc", profile="asan", feat="HDF5", libs=["-ldl"], thorough_only=True)],
      min={"synthetic": 900, "steps": 8000, "async": 900, "temporal": 800, "temporal_short": 400, "spatial": 500, "spatial_vectors": 150, "clamped": 700, "noise": 120, "filter": 9000, "filter_short": 3000, "filter_empty": 900, "slow_reading": 400, "binary": 1200, "netcdf": 300, "netcdf_parts": 50, "hdf5": 200, "vti": 200, "vti_parts": 30, "vtu": 120, "vtk_variables": 80, "vtk_vectors": 100, "mpi_streams": 320, "mpi_parts": 300},
      assumptions=["spatial smoothing is for 2D and 3D data with kernels of odd size and averages over the kernel's entries like the convolutions of the library", "a NetCDF variable of four dimensions has time as its first; other variables have time first only if it is unlimited", "ADIOS and parallel NetCDF streams are not part of this build; resampled VTK grids are not judged", "a stream is started once"])
TECH["C17"] = ("runtime monitor of the callback log of real streams (step numbers, shapes, every value, changes of data in use, end of the stream) against independently computed steps, with injected delays of reader and consumer, several processes, AddressSanitizer/UBSan and ThreadSanitizer", "schedules, shapes and values sampled")

check("C18", "well-conditioned matrices (integers, reals, sparse, quarters), polynomials with planted, separated roots (complex pairs, zero roots, vanishing leading coefficients), planted zeros and parallel vectors inside and outside of simplices, affine ODEs, rotations, polygons; a case is its coefficients",
      [U("num", "c18_numeric.cc", shards=2), U("asan", "c18_numeric.cc", profile="asan", shards=8)], min={"compared": 200000, "root_sets": 10000, "pv_s1v2": 3000, "pv_s2v3": 3000, "bilinear_two": 50, "int_zero": 500, "quartic_undefined": 0},
      assumptions=["roots and eigenvalues separated by at least 0.2, determinants bounded away from zero", "multiple roots at zero are not judged (both roots may be reported)", "parallel vectors on edges in 3D are judged for soundness only", "eigenvector signs: the sum of components is not negative (as the repository's tests specify)"])
TECH["C18"] = ("runtime oracle: textbook definitions in independent code evaluated on every result, planted solutions for completeness, AddressSanitizer/UBSan", "inputs sampled")
check("C22", "gather, allgather, all-to-all, redistribution, scattering and broadcasting of maps, sets, lists, arrays, points, curves and JSON among 1-8 processes with equal, skewed, sparse and empty contributions, any root, in-place and not, unequal arrival, large messages; serialization in memory and files; with and without MPI; a case is its type, distribution and contents",
      [U("mpi", "c22_exchange.cc", feat="MPI", np=[1, 2, 3, 4, 6], tnp=[1, 2, 3, 4, 5, 6, 7, 8]), U("serial", "c22_exchange.cc"), U("asan", "c22_exchange.cc", profile="asan"), U("mpiasan", "c22_exchange.cc", feat="MPI", profile="asan", np=[3], thorough_only=True, env={"ASAN_OPTIONS": "detect_leaks=0"})],
      min={"gather": 1200, "allgather": 3000, "gathered_items": 15000, "lists": 1500, "all2all": 1800, "all2all_items": 10000, "redistribute": 1800, "redistributed": 25000, "scatter": 1800, "broadcast": 2200, "json": 450, "large": 150, "nonempty": 2000, "all_empty": 500, "serialized": 2000},
      assumptions=["if several processes contribute different values for the same key, the root's own value or any of the contributed ones is kept", "messages of one exchange have fewer than 2^31 bytes (MPI counts)", "JSON documents are objects within the limits of BSON"])
TECH["C22"] = ("runtime oracle: every process knows all contributions and checks presence, absence, value and ownership of every item after each collective call; AddressSanitizer/UBSan", "process counts 1-8, contents and arrival orders sampled")

check("C25", "random, steady, linear and oscillating velocity fields on 2D/3D grids of 2..14 vertices per axis, 1-6 timesteps, several time increments, steps per interval and per checkpoint, 0-40 seeds (or all grid points), with own starting times on and between steps, 1-13 threads; linear flows with known solutions; rotations of spheres; a case is its field and seeds",
      [U("particles", "c25_particles.cc", shards=8), U("asan", "c25_particles.cc", profile="asan", shards=8, thorough_only=True)], min={"trajectories": 5000, "points": 50000, "moved": 3000, "left_early": 800, "crossed_intervals": 800, "timed_seeds": 400, "streamlines": 1000, "velocities": 3000, "thread_runs": 100, "subset_trajectories": 300, "orders": 25, "sphere_runs": 80},
      assumptions=["the array starts at the origin of the domain", "the RK1 integrator cannot be selected through the public interface (the spherical ones are judged as functions)", "the velocity recorded with a position is judged at a particle's first record, and elsewhere only for being finite and within the field's range", "particles whose path amplifies a perturbation of 1e-11 beyond 1e-9 are not judged", "a position recorded twice in a row counts once"])
TECH["C25"] = ("runtime oracle: independent multilinear space-time interpolation and RK4 with the same checkpoints, exact solutions of linear flows (observed order of convergence), metamorphic runs with other threads and other particles compared bit by bit", "fields sampled; grids up to 14 vertices per axis")
check("C27", "jittered, rotated, scaled and renumbered triangle meshes of up to 10x10 vertices and tetrahedral meshes of up to 4x4x4, also reloaded from files; linear and random fields of 1-4 components; kernel sizes from a tenth to four times the edge length, also rebuilt, reloaded, and cached for several similar meshes; poloidal planes; a case is its mesh and field",
      [U("fields", "c27_meshfields.cc", shards=4), U("asan", "c27_meshfields.cc", profile="asan", shards=8, thorough_only=True)], min={"vertices": 8000, "linear_gradients": 8000, "bounded_gradients": 8000, "reloaded_meshes": 100, "kernels": 5000, "kernel_entries": 60000, "reloaded_kernels": 300, "rebuilt_kernels": 60, "cached_kernels": 300, "smoothed": 15000, "tet_fields": 200, "interpolations": 6000, "planes": 400},
      assumptions=["every vertex belongs to a triangle (gradients)", "neighbours are the vertices within three kernel sizes that are connected to the vertex through such vertices", "kernel weights are exp(-d^2/2s^2)/(s sqrt(2 pi)), not normalised, as in the code", "gradients of non-linear functions are judged to lie between the gradients of the incident triangles"])
TECH["C27"] = ("runtime oracle: exact gradients of linear functions, independent triangle gradients, independent Gaussian kernel sums over breadth-first neighbourhoods, reload and cache round trips compared exactly", "meshes up to about 100 vertices")
check("C28", "toroidal meshes of 3 or more planes (also virtual planes and repeated wedges) over jittered, renumbered triangle meshes of up to 11x11 vertices; linear magnetic fields turning around an axis in either sense; constant and random scalar fields, gradients and Jacobians; perturbations linear per plane and random; angles on both sides of the wrap; regions by psi and angle; thresholded random sequences of 1-4 timesteps with 1-8 threads; HDF5 files; a case is its mesh, field and planes",
      [U("torus", "c28_torus.cc", feat="HDF5", shards=3), U("vtk", "c28_torus.cc", feat="VTK", libs=VTKLIBS, shards=2), U("asan", "c28_torus.cc", profile="asan", shards=8)],
      min={"simplices": 400000, "lookups": 400000, "sides": 70000, "cofaces": 150000, "neighbours": 150000, "coordinates": 40000, "grids": 200, "field_points": 10000, "curls": 8000, "lines": 1500, "along_lines": 20000, "interpolated": 100000, "reloaded_interpolants": 80, "perturbations": 15000, "toroidal": 30000, "smoothed": 15000, "fluctuations": 15000, "rotated": 2500, "turned": 250, "total_points": 600, "total_wrapped": 100, "roi_meshes": 150, "roi_vertices": 1000, "labelled": 40000, "tracked": 250, "several_blobs": 100, "deviations": 250, "meshes_read": 120},
      assumptions=["a torus has at least three planes", "field lines are judged while they keep away from the border of the mesh; elsewhere interpolated values are judged to lie between those of the two planes", "vertices above the threshold without such neighbours may stay unlabelled", "vertices joined only by a diagonal edge between planes may or may not be connected", "the toroidal difference quotient in perturbations may or may not be divided by the radius (the code does not, in cylindrical coordinates one would)", "ADIOS files and the XGC equilibrium interpolator are not covered"])
TECH["C28"] = ("runtime oracle: independent combinatorial model of the periodic mesh, independent field-line integration through an exactly representable field, independent interpolation, flood fill over space and time, metamorphic turns of the torus; AddressSanitizer/UBSan", "meshes up to about 120 vertices per plane; linear magnetic fields")
TDGLSRC = ["tdgl.cpp", "BDATReader.cpp", "GLGPU_IO_Helper.cpp"] + ["glpp/%s.cpp" % f for f in "GL_post_process datafile fileutils paramfile stringutils".split()]
check("C29", "centroidal Voronoi meshes of the sphere with 12 to 90 cells (some with land removed), shuffled elements, plain and other ids, padded connectivity, 2-30 layers, dry deep cells, in NetCDF files of 1-4 timesteps with intervals from an hour to 30 days, in a time zone with daylight saving; rotating, random and zero velocities; points anywhere, also on land, above and below the water; seeds as lists, at cells and on latitude-longitude grids, 1-7 threads; a case is its mesh, times and seeds",
      [U("mpas", "c29_mpas.cc", feat="NETCDF,VTK", libs=VTKLIBS, shards=6, mpienv=True,
         tools=[U("ftk", ["$REPO/src/cli/ftk.cpp", "c26_shim.cc"] + ["$REPO/src/io/tdgl/" + f for f in TDGLSRC], feat="MPI,NETCDF,HDF5,VTK", libs=VTKLIBS)]), U("asan", "c29_mpas.cc", profile="asan", feat="NETCDF", shards=4, env={"VH_SCALE": "0.25"})],
      min={"locations": 15000, "hinted_locations": 15000, "outside": 1500, "weights": 70000, "vertex_values": 800000, "border_values": 80000, "missing_values": 100000, "edge_normals": 10000, "tangent_planes": 4000, "vtk_cells": 3500, "layers": 20000, "trajectories": 7000, "judged": 6000, "points": 12000, "moved": 3000, "several_cells": 350, "several_layers": 800, "several_intervals": 500, "stopped": 2500, "streamlines": 700, "top_layer": 800, "outside_seeds": 2500, "velocities": 3000, "geo_seeds": 1000, "other_ids": 1800, "thread_runs": 180, "subset_trajectories": 500, "depths": 20000, "cli_runs": 20, "cli_lines": 200, "cli_values": 5000, "cli_geo": 5, "cli_streamlines": 3},
      assumptions=["cells are Voronoi cells of at most nine edges, and every vertex that is not on land lies inside the triangle of its three cells", "layer tops decrease", "a particle moves along the great circle in the tangential direction of its velocity, at the full speed of the interpolated vector, as in the code", "seeds at cells lie at the accumulated resting thickness that the mesh reports, whose first entry is zero", "a value below -1e33 is missing; a particle stops where a value it needs is missing", "points within 6 mm of a cell border or 10 micrometres of a layer, and trajectories that amplify a micrometre to a centimetre, are not judged", "edge-to-cell reconstruction is not implemented in the library and not judged"])
TECH["C29"] = ("runtime oracle: independent Voronoi mesh, brute-force location, independent Wachspress and circumcentre interpolation, independent RK4 on the sphere through time-dependent layers, metamorphic runs with other threads and other particles compared bit by bit; AddressSanitizer/UBSan", "meshes up to 90 cells and 30 layers")
check("C16", "arrays of 1-6 dimensions (incl. axes of one element) of the element types each format supports, with extreme and non-finite values; whole and partial reads and writes, several variables per file, series of files, 1-4 processes (thorough: up to 7); a case is its shape and type",
      [U("binary", "c16_arrayio.cc"), U("netcdf", "c16_arrayio.cc", feat="NETCDF", shards=2), U("hdf5", "c16_arrayio.cc", feat="HDF5"), U("vti", "c16_arrayio.cc", feat="VTK", libs=VTKLIBS, shards=2),
       U("mpi", ["c16_mpi.cc", "$REPO/src/bil/bil.c", "$REPO/src/bil/bil_block.c", "$REPO/src/bil/bil_misc.c", "$REPO/src/bil/bil_pio.c", "$REPO/src/bil/bil_sched.c", "$REPO/src/bil/bil_timing.c"], feat="MPI,NETCDF", cflags=["-DDISABLE_PNETCDF", "-I$REPO/include/ftk/external/bil"], np=[1, 2, 3, 4], tnp=[1, 2, 3, 4, 5, 7]),
       U("binasan", "c16_arrayio.cc", profile="asan"), U("ncasan", "c16_arrayio.cc", feat="NETCDF", profile="asan", shards=2), U("h5asan", "c16_arrayio.cc", feat="HDF5", profile="asan", thorough_only=True)],
      min={"binary": 400, "amira": 100, "netcdf_read": 400, "netcdf_write": 240, "parts": 1600, "hdf5_read": 400, "vti": 200, "vti_vectors": 60, "vti_sequences": 150, "vti_variables": 600, "writer_files": 150, "writer_multi": 40, "writer_single": 40, "writer_vti": 50, "netcdf_files": 200, "raw_reads": 300, "values": 5000000},
      assumptions=["VTK images are 2D or 3D and a 3D image has more than one vertex along its last axis (VTK does not record the difference)", "raw files read through BIL have at least as many layers as there are processes (it cannot divide smaller ones)", "ADIOS, parallel NetCDF and numpy input/output are not part of this build", "ndarray::read_netcdf_slice, from_bov, to_bov, to_file and to_png are declared but not implemented"])
TECH["C16"] = ("runtime oracle: files produced and inspected with the format's own C library or plain stdio, element-by-element comparison of whole and partial reads, several processes, AddressSanitizer/UBSan", "shapes and values sampled")

def base(c, n): return next(u for u in CHECKS[c]["units"] if u["name"] == n)
def clone(c, n, profile, scale, shards, least=2, **kw):
    u = dict(base(c, n)); u.pop("np", None); u.pop("tnp", None)
    u.update(name="%s%s%s" % (c.lower(), n, {"asan": "", "tsan": "", "memcheck": "_vg"}[profile]), profile=profile, shards=shards, env={"VH_SCALE": str(scale), "VH_LEAST": str(least)}, **kw)
    return u
SAN = [("C01", "mesh", .1, 2), ("C02", "map", .3, 3), ("C03", "pthread", .5, 2), ("C04", "part", .3, 1), ("C05", "pred", .2, 2), ("C06", "reg", .02, 2), ("C06", "uns", .2, 2), ("C06", "unsint", .2, 2),
       ("C07", "traj", .04, 3), ("C08", "threads", .04, 3), ("C09", "stream", .03, 2), ("C10", "files", .02, 3), ("C11", "post", .3, 2), ("C12", "con", .04, 3), ("C13", "lines", .03, 4), ("C14", "reg", .5, 1), ("C15", "arr", .5, 1),
       ("C16", "binary", .5, 1), ("C16", "netcdf", .3, 1), ("C16", "hdf5", .3, 1), ("C16", "vti", .4, 1), ("C17", "vtk", .3, 3, "streams"), ("C18", "num", .2, 1), ("C19", "alg", .5, 1), ("C20", "seq", .3, 1), ("C21", "search", .5, 1), ("C22", "serial", .5, 1), ("C25", "particles", .02, 3), ("C27", "fields", .2, 3)]
MEM = [("C06", "uns", .02, 1), ("C11", "post", .03, 1), ("C12", "con", .004, 2), ("C14", "reg", .1, 1), ("C15", "arr", .05, 1), ("C17", "core", .05, 1), ("C18", "num", .02, 1), ("C19", "alg", .05, 1), ("C21", "search", .05, 1), ("C25", "particles", .002, 2), ("C27", "fields", .03, 1)]
ALLIO = dict(feat="NETCDF,HDF5,VTK", cflags=["-DVH_ALL"], libs=VTKLIBS + ["-ldl"])
check("C23", "the workloads of the other checks (meshes, trackers, tracing, post-processing, files, streams, numerics, containers) at reduced length; a case is a case of those workloads",
      [clone(*x[:2], "asan", x[2], x[3], **(ALLIO if len(x) > 4 else {})) for x in SAN] + [clone(c, n, "memcheck", s, k, 1) for c, n, s, k in MEM]
      + [dict(clone(c, n, "asan", .3, 1), name=c.lower() + n + "mpi", np=[3], src=base(c, n)["src"], thorough_only=True) for c, n in (("C08", "mpi"), ("C16", "mpi"), ("C17", "mpi"), ("C22", "mpi"))],
      san_only=True, timeout=400, min={"elements": 1000, "extruded_simplices": 20000, "visits": 20000, "points": 4000, "trajectories": 300, "streamed_points": 100, "points_compared": 150, "curves_split": 500, "surface_facets": 800, "surface_triangles": 1000, "labelled_cells": 50000, "convolutions": 50, "vti": 40, "netcdf_read": 50, "hdf5_read": 50, "binary": 50},
      assumptions=["memory errors, undefined behaviour and uninitialised reads are those AddressSanitizer, UndefinedBehaviorSanitizer and valgrind report on the executions; the check does not judge values", "memory that is still referenced at exit is not a leak to be reported (leak detection is off: third-party libraries)", "alignment and vptr checks of UBSan are off"])
TECH["C23"] = ("AddressSanitizer + UndefinedBehaviorSanitizer (incl. float casts), libstdc++ assertions and valgrind memcheck watch the workloads of all other checks", "executions sampled; values are left to the other checks")
RACE = [("C03", "pthread", .3, 1), ("C06", "reg", .02, 3), ("C06", "uns", .15, 2), ("C07", "traj", .03, 3), ("C08", "threads", .06, 4), ("C09", "stream", .015, 2), ("C12", "con", .04, 3), ("C13", "lines", .03, 3), ("C17", "core", .1, 2), ("C20", "seq", .2, 1), ("C25", "particles", .02, 3), ("C27", "fields", .2, 2), ("C28", "torus", .15, 2)]
check("C24", "the multi-threaded workloads of the other checks (sweeps, detection, tracing, contour and line extraction, smoothing, particle tracing, asynchronous streams, concurrent union-find) at reduced length with 1-24 threads; a case is a case of those workloads",
      [clone(*x[:2], "tsan", *x[2:]) for x in RACE], san_only=True, timeout=400,
      min={"visits": 10000, "multithreaded_sweeps": 50, "points": 2000, "threaded_runs": 30, "trajectories": 300, "streamed_points": 80, "surface_facets": 200, "surface_triangles": 500, "async": 10, "concurrent_unions": 1000},
      assumptions=["races are those ThreadSanitizer reports on the executed schedules (happens-before, so also on schedules that did not show the effect)", "TBB and OpenMP backends are not instrumented"])
TECH["C24"] = ("ThreadSanitizer watches the multi-threaded workloads of the other checks with 1-24 threads", "schedules and inputs sampled; values are left to the other checks")
check("C26", "smooth random 2D/3D scalar and vector fields of 1-5 timesteps in raw, NetCDF, HDF5, VTK image and unstructured files, synthetic data, all features (critical points, contours, critical lines, vortex cores, ridges, particles), output types and formats, type filters, post-processing, streaming, smoothing, threads and 1-3 processes; archives fed back in; 41 unusable requests; a case is its data and command line",
      [U("tool", "c26_cli.cc", feat="NETCDF,HDF5,VTK", libs=VTKLIBS, shards=8, mpienv=True,
         tools=[U("ftk", ["$REPO/src/cli/ftk.cpp", "c26_shim.cc"] + ["$REPO/src/io/tdgl/" + f for f in TDGLSRC], feat="MPI,NETCDF,HDF5,VTK", libs=VTKLIBS)])],
      min={"compared": 400, "items": 7000, "unusable": 41, "archives": 15, "unstructured": 25, "particles": 20, "mpi_runs": 48, "trajectories": 500, "contour_traced": 15, "contour_sliced": 1, "line_sliced": 4, "line_traced": 5, "cp_intercepted_vtp": 15, "json_input": 12, "smoothed": 8},
      assumptions=["raw files hold the number of bytes the dimensions call for (the library warns and continues otherwise)", "the tool is built without optimisations that change floating-point results and on the same machine as the library", "ADIOS, GPU and Qt features are not part of this build; MPAS ocean input is run in C29; XGC features need their own data and are not run"])
TECH["C26"] = ("runtime oracle: the library run on the same arrays, the tool's files parsed and compared as multisets of features, exit statuses", "fields up to 20x20 and 9x9x9, 1-5 timesteps, 1-3 processes")
