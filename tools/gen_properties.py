#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
I = "include/ftk/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith(("src","tests")) else I+f for f in files],
            mechanism=[dict(name=n, where=(w if w.startswith("src") else I+w)) for n, w in mech],
            state=state or [], observe_at=observe, hook_needed=hook)))

p("C01", "Regular space-time meshes are consistent simplicial complexes with stable ids",
  "For every dimension and box size, the simplices of the regular (grid) space-time mesh tile the box with no gap or overlap, the sides reported for a simplex are exactly its faces, and the coboundary query is the exact inverse of the side query. Every valid element has its own integer id, which decodes back to the same element, and elements also survive the compact work-index encoding used for partial sweeps. The elements lying in one time slice and those spanning two consecutive slices are disjoint and together are all the elements.",
  ["inputs", "configurations"], "every mesh dimension 2-4, every box lower/upper bound (also not starting at 0), every element dimension and element",
  "The mesh test iterates a few fixed boxes and only checks counts and one id round trip; duality, tiling and ids on shifted boxes or 4D are never compared with an independent model.",
  ["mesh/simplicial_regular_mesh.hh", "mesh/lattice.hh"],
  [("unit-simplex subdivision and type tables", "mesh/simplicial_regular_mesh.hh"), ("element to_integer/from_integer/work index", "mesh/simplicial_regular_mesh.hh"), ("sides/side_of", "mesh/simplicial_regular_mesh.hh")],
  ["elements enumerated by sweeps", "vertices/sides/side_of of each element", "ids"])

p("C02", "Unstructured meshes and their time extrusion are consistent with stable ids",
  "For every triangle or tetrahedral mesh, each edge, triangle and tetrahedron is enumerated exactly once, looking a simplex up by its vertices returns its id, and side and coboundary queries are mutually inverse. The same holds for the mesh extruded over time: its simplices tile every prism, ids of later time steps are the ids of the first step shifted by a fixed stride, and in-slice and between-slice elements are disjoint and complete.",
  ["inputs", "configurations"], "every valid 2D/3D simplicial input mesh (any vertex numbering, connectivity order, boundary or isolated vertices) and every time step",
  "Tests build one 1x1 mesh file and check a handful of ids; arbitrary connectivity and time steps are not reached.",
  ["mesh/simplicial_unstructured_2d_mesh.hh", "mesh/simplicial_unstructured_3d_mesh.hh", "mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh", "mesh/simplicial_unstructured_extruded_2d_mesh.hh", "mesh/simplicial_unstructured_extruded_3d_mesh.hh"],
  [("edge/triangle construction and id maps", "mesh/simplicial_unstructured_2d_mesh.hh"), ("extruded simplex tables", "mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh"), ("extruded 4D tables", "mesh/simplicial_unstructured_extruded_3d_mesh.hh")],
  ["get_simplex/find_simplex/sides/side_of results", "element_for* callbacks"])

p("C03", "Parallel sweeps visit every element exactly once",
  "A parallel sweep over a range, a container or the elements of a mesh invokes the callback exactly once for each element, whatever the number of threads, the thread backend, the chunking and the timing of the workers, and returns only after all invocations have completed. Sweeping in-slice and between-slice elements step by step over consecutive times visits each mesh element exactly once in total.",
  ["schedules", "configurations", "inputs"], "all thread counts (0/1/fewer/more than items), backends, item counts, schedules with delayed workers",
  "Tests run with the default thread count and only look at final feature counts; lost or duplicated visits that depend on thread/item ratios are not observable there.",
  ["object.hh", "mesh/simplicial_regular_mesh.hh", "mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh", "mesh/simplicial_unstructured_extruded_3d_mesh.hh"],
  [("parallel_for / parallel_for_container", "object.hh"), ("element_for, element_for_ordinal, element_for_interval", "mesh/simplicial_regular_mesh.hh")],
  ["callback invocation log"])

p("C04", "Domain decomposition tiles the domain and grid indices round-trip",
  "For every domain, number of parts the domain can be cut into and ghost width, the partition has that many parts; its core regions are pairwise disjoint, lie in the domain and together cover it exactly, and each extended region is its core grown by the requested ghost layers and clipped to the domain. Grid coordinates and linear indices convert to each other without loss on every lattice, including ones not starting at the origin.",
  ["inputs", "configurations"], "every domain box, process count not exceeding the number of cells, per-dimension split request and ghost width",
  "MPI tests use 1 to 4 ranks on square domains; remainders, primes, thin domains, prescribed splits and ghost clipping are not covered.",
  ["mesh/lattice_partitioner.hh", "mesh/lattice.hh"],
  [("partition", "mesh/lattice_partitioner.hh"), ("to_integer/from_integer", "mesh/lattice.hh")],
  ["get_core/get_ext of every part"])

p("C05", "Exact, order-independent and consistent zero-in-simplex decisions",
  "Whether a simplex with vectors at its vertices contains a zero is decided exactly for non-degenerate vectors, and the answer never depends on the order in which the vertices are listed. With degenerate vectors (zeros, collinear, repeated) the answers are still consistent with one infinitesimal perturbation: among the faces of any simplex one dimension higher, either none or exactly two contain a zero.",
  ["inputs"], "all integer and floating-point vectors in 1D to 3D incl. degenerate ones, all vertex numberings, both the integer and the multi-precision arithmetic",
  "No test calls the predicates directly; end-to-end tests use smooth generic fields that never reach degenerate branches.",
  ["numeric/sign_det.hh", "numeric/critical_point_test.hh", "numeric/critical_point_degree.hh", "numeric/det.hh", "numeric/fixed_point.hh"],
  [("robust_sign_det / positive*", "numeric/sign_det.hh"), ("robust_critical_point_in_simplex", "numeric/critical_point_test.hh")],
  ["return values of the predicates"])

p("C06", "Detection finds exactly the critical points, with the right attributes",
  "For every sampled time-varying field on a regular grid or unstructured mesh, the detected critical points are exactly the space-time mesh faces inside the domain whose linearly interpolated vector field has a zero, each reported once. Each reported position and time lies on its face at that zero, its scalar values are the interpolated ones, its in-slice flag and time step match its face, and its type is the one implied by the Jacobian or Hessian there.",
  ["inputs", "configurations"], "all fields (given or derived vector field and Jacobian), grid sizes, domains, type filters, 2D and 3D, regular and unstructured",
  "Tests compare trajectory counts on four synthetic fields; missing, duplicated or misattributed points that leave those counts alone pass.",
  ["filters/critical_point_tracker_2d_regular.hh", "filters/critical_point_tracker_3d_regular.hh", "filters/critical_point_tracker_2d_unstructured.hh", "filters/critical_point_tracker.hh", "numeric/critical_point_type.hh", "numeric/inverse_linear_interpolation_solver.hh", "numeric/linear_interpolation.hh", "ndarray/grad.hh"],
  [("check_simplex", "filters/critical_point_tracker_2d_regular.hh"), ("check_simplex (3D)", "filters/critical_point_tracker_3d_regular.hh"), ("field snapshots and derivation", "filters/critical_point_tracker.hh")],
  ["get_critical_points()"])

p("C07", "Trajectories partition the detected points into connected space-time curves",
  "After tracking, every detected critical point lies on exactly one trajectory and nothing else does; consecutive points of a trajectory lie on faces of a common space-time cell, no trajectory can be joined to another by such a step except at branching points, and a trajectory is flagged as a loop exactly when its ends are so joined. Trajectory statistics (time span, bounds, type, length) agree with its points.",
  ["inputs", "histories"], "all fields and numbers of time steps, regular 2D/3D and unstructured meshes",
  "Existing tests assert only the number of trajectories on a few synthetic fields.",
  ["filters/critical_point_tracker.hh", "geometry/cc2curves.hh", "algorithms/cca.hh", "features/feature_curve.hh", "features/feature_curve_set.hh", "filters/critical_point_tracker_2d_regular.hh", "filters/critical_point_tracker_3d_regular.hh"],
  [("trace_critical_points_offline", "filters/critical_point_tracker.hh"), ("connected_component_to_linear_components / is_loop", "geometry/cc2curves.hh")],
  ["get_traced_critical_points()"])

p("C08", "Tracking results do not depend on how the work is divided",
  "For the same input, the detected critical points and the trajectories are the same set, with the same attributes, for every number of threads, thread backend, number of MPI ranks, number of blocks and whether each rank was handed the full arrays or only its part.",
  ["schedules", "configurations", "inputs"], "thread counts, backends, rank counts, block splits and schedules, for any input",
  "Tests only compare trajectory counts for 1 to 4 ranks on fixed inputs.",
  ["filters/critical_point_tracker_2d_regular.hh", "filters/critical_point_tracker_3d_regular.hh", "filters/critical_point_tracker.hh", "filters/regular_tracker.hh", "utils/gather.hh", "object.hh", "mesh/lattice_partitioner.hh", "filters/critical_point_tracker_2d_unstructured.hh"],
  [("regular_tracker::initialize partition", "filters/regular_tracker.hh"), ("gather to root", "utils/gather.hh"), ("locked result maps", "filters/critical_point_tracker_2d_regular.hh")],
  ["critical points and trajectories at the root rank"])

p("C09", "Streaming trajectories agree with offline trajectories",
  "Growing trajectories while time steps arrive yields the same detected critical points as tracking everything at the end, puts every one of them on exactly one trajectory, and connects two points in a trajectory only if offline tracking connects them. When no trajectories meet or branch, the streamed trajectories are exactly the offline ones.",
  ["histories", "inputs"], "all sequences of time steps and fields",
  "One test runs the streaming mode and compares a count.",
  ["filters/critical_point_tracker.hh", "filters/critical_point_tracker_2d_regular.hh", "filters/critical_point_tracker_3d_regular.hh", "filters/critical_point_tracker_2d_unstructured.hh"],
  [("trace_critical_points_online / grow_trajectories", "filters/critical_point_tracker.hh")],
  ["get_traced_critical_points() in both modes"])

p("C10", "Saved features load back unchanged",
  "Writing detected points, trajectories or feature surfaces to an archive (binary, JSON, VTK polydata where supported) and reading them back, in the same or another tracker, gives the same features: same points in the same order with the same coordinates, times, types, scalars, tags and flags, and trajectories with the same loop status and statistics. Text output lists every feature and point once with the same values.",
  ["inputs", "histories"], "all feature sets: empty, single point, loops, many scalars, large ids, extreme numbers",
  "Tests round-trip one synthetic result and compare counts.",
  ["features/feature_point.hh", "features/feature_curve.hh", "features/feature_curve_set.hh", "features/feature_surface.hh", "filters/critical_point_tracker.hh", "utils/serialization.hh"],
  [("diy/JSON serialization of points, curves and sets", "features/feature_curve.hh"), ("to_vtp/from_vtp, write_text", "features/feature_curve_set.hh")],
  ["reloaded objects compared with the originals", "text files"])

p("C11", "Trajectory post-processing keeps every point it should",
  "Splitting by type, rotating loops, reordering, time unfolding, slicing, interception, selection, filtering and unfolding of trajectories never invents, duplicates or loses points beyond those the operation is defined to remove, keeps the relative order of points, and leaves statistics consistent. In particular the pieces of a split concatenate to the original and are maximal runs of equal type, a slice at a time contains exactly the points of that time step, and an interval interception contains exactly the trajectory points within the interval.",
  ["inputs", "histories"], "all curves (types, times, loops, lengths 0,1,2,...) and all sequences of operations",
  "No unit test covers these operations.",
  ["features/feature_curve.hh", "features/feature_curve_set.hh", "filters/feature_curve_set_post_processor.hh", "features/feature_point_set.hh", "features/feature_surface.hh"],
  [("split/rotate/reorder/smooth/slice/intercept", "features/feature_curve.hh"), ("split_all/filter/foreach/slice/intercept on sets", "features/feature_curve_set.hh")],
  ["returned curves and sets"])

p("C12", "Isocontour tracking extracts exactly the level set, without cracks",
  "For every scalar field and threshold, the reported intersections are exactly the space-time mesh edges in the domain whose end values lie on different sides of the threshold, each located where linear interpolation meets the threshold. The reported sliced contours and isovolume cells connect exactly intersections of a common mesh cell and have no cracks: every facet not on the domain boundary is shared by two cells.",
  ["inputs", "configurations"], "all scalar fields, thresholds, grid sizes, 2D and 3D, thread counts",
  "No existing test exercises the contour trackers' output.",
  ["filters/contour_tracker.hh", "filters/contour_tracker_regular.hh", "filters/contour_tracker_2d_regular.hh", "filters/contour_tracker_3d_regular.hh", "features/feature_surface.hh", "features/feature_volume.hh"],
  [("check_simplex", "filters/contour_tracker_2d_regular.hh"), ("build_isovolumes", "filters/contour_tracker_3d_regular.hh")],
  ["intersections and built surface/volume"])

p("C13", "Line features in 3D are extracted completely and joined within cells",
  "For every field, critical-line and magnetic-vortex tracking report exactly the space-time triangles in the domain pierced by the feature (both plane components change consistently, or non-zero phase winding), each at the interpolated zero. Assembled surfaces contain each reported point once and only use points lying on a common space-time cell.",
  ["inputs", "configurations"], "all input fields, grid sizes, number of time steps and threads",
  "No stable test runs these trackers.",
  ["filters/critical_line_tracker.hh", "filters/critical_line_tracker_3d_regular.hh", "filters/tdgl_vortex_tracker_3d_regular.hh", "filters/sujudi_haimes_tracker_3d_regular.hh", "features/feature_surface.hh"],
  [("check_simplex", "filters/critical_line_tracker_3d_regular.hh"), ("contour integral", "filters/tdgl_vortex_tracker_3d_regular.hh")],
  ["intersections and surfaces of the tracker"])

p("C14", "Region labelling and the tracking graph match connectivity and overlap",
  "Connected-component labelling gives two cells the same label exactly when they are connected, for every mask or graph and whichever algorithm is used. Threshold-based region tracking links two regions of consecutive steps exactly when they overlap, and global labels and events (birth, death, merge, split, compound) are exactly those implied by the links.",
  ["inputs", "histories"], "all masks/graphs (any size, shape and density) and all sequences of time steps",
  "One fixed 2D mask is tested; worst-case label counts and the graph logic are not.",
  ["algorithms/hoshen_kopelman.hh", "algorithms/cca.hh", "algorithms/cca_bfs.hh", "algorithms/bfs.hh", "algorithms/dijkstra.hh", "filters/connected_component_tracker.hh", "filters/threshold_tracker.hh", "tracking_graph/tracking_graph.hh", "tracking_graph/event.hh", "basic/simple_union_find.hh"],
  [("hoshen_kopelman_2d", "algorithms/hoshen_kopelman.hh"), ("extract_connected_components", "algorithms/cca.hh"), ("tracking_graph::relabel/detect_events", "tracking_graph/tracking_graph.hh")],
  ["label arrays", "tracking graph queries and events"])

p("C15", "Arrays behave as multi-dimensional arrays under every operation",
  "Indexing, reshaping, slicing, sub-arrays, transposition, concatenation, stacking, arithmetic, extrema, clamping, casting and multilinear interpolation of n-dimensional arrays agree with the mathematical definition for all shapes, including multi-component and empty ones. Derived gradients, Jacobians and convolutions equal the finite-difference and weighted-sum definitions at every interior grid point.",
  ["inputs", "histories"], "all shapes, component counts, element types, index tuples and operation sequences",
  "Tests check one interpolation and one convolution example.",
  ["ndarray.hh", "ndarray/ndarray_base.hh", "ndarray/grad.hh", "ndarray/conv.hh"],
  [("index/from_index/subarray/slice", "ndarray.hh"), ("gradient/jacobian", "ndarray/grad.hh"), ("conv", "ndarray/conv.hh")],
  ["values of result arrays"])

p("C16", "Array files read back the values that were written",
  "An array written to raw binary, NetCDF, HDF5 or VTK image files and read back, wholly or a sub-region at a time and by one or several processes, has the same shape and values, also with multiple components, multiple variables and multiple time steps in a file.",
  ["inputs", "configurations"], "all shapes, element types, formats, sub-regions and rank counts",
  "Tests write and read one small array per format.",
  ["ndarray.hh", "ndarray/ndarray_base.hh", "ndarray/writer.hh", "ndarray/stream.hh", "src/bil/bil.c"],
  [("to_/read_ binary, netcdf, h5, vti", "ndarray.hh"), ("ndarray_writer", "ndarray/writer.hh")],
  ["bytes on disk", "arrays read back"])

p("C17", "Data streams deliver every time step exactly once, in order",
  "A data stream invokes its consumer once per time step, in increasing order, with that step's data, however fast or slow reading and consuming are and whether reading is asynchronous or not, and then terminates. Pre-processing stages (spatial or temporal smoothing, clamping) deliver the same number of steps in the same order with the transformation applied to the right step.",
  ["schedules", "inputs", "configurations"], "all numbers of time steps, file/synthetic sources, partitions of steps into files, schedules of producer and consumer",
  "Tests consume synchronous streams only, with a fast consumer.",
  ["ndarray/stream.hh", "filters/streaming_filter.hh", "ndarray/synthetic.hh", "ndarray/conv.hh"],
  [("start(): producer/consumer hand-over", "ndarray/stream.hh"), ("streaming_filter push/finish", "filters/streaming_filter.hh")],
  ["callback log: step numbers and array contents"])

p("C18", "Numeric solvers return solutions, all of them, and nothing else",
  "The linear, least-squares, quadratic, cubic, eigenvalue, inverse-interpolation and parallel-vector solvers return values that satisfy the defining equation to rounding accuracy and return every real solution in range for well-conditioned input, with the documented count. Matrix and vector helpers (determinant, inverse, product, transpose, norms, interpolation) agree with their definitions.",
  ["inputs"], "all well-conditioned coefficients and matrices, plus special cases (zero leading/constant coefficients, multiple roots)",
  "Tests sample random generic inputs; special branches (vanishing coefficients) and completeness of the root set are not covered.",
  ["numeric/linear_solver.hh", "numeric/linear_solver1.hh", "numeric/quadratic_solver.hh", "numeric/cubic_solver.hh", "numeric/quartic_solver.hh", "numeric/eigen_solver2.hh", "numeric/eigen_solver3.hh", "numeric/inverse_linear_interpolation_solver.hh", "numeric/inverse_bilinear_interpolation_solver.hh", "numeric/parallel_vector_solver2.hh", "numeric/parallel_vector_solver3.hh", "numeric/matrix_inverse.hh", "numeric/matrix_multiplication.hh", "numeric/det.hh", "numeric/linear_interpolation.hh", "numeric/characteristic_polynomial.hh"],
  [("solve_quadratic_real/solve_cubic_real", "numeric/cubic_solver.hh"), ("solve_eigenvalues", "numeric/eigen_solver3.hh"), ("inverse_lerp_*", "numeric/inverse_linear_interpolation_solver.hh")],
  ["return values"])

p("C19", "Interval sets and rational numbers obey their algebra",
  "Intersection, union, membership and emptiness of intervals and unions of disjoint intervals agree with point-set semantics at every point, including open, closed, unbounded and empty ends; polynomial and rational inequality solving returns exactly the points that satisfy the inequality away from the roots. Rational number arithmetic and comparison agree with exact arithmetic and keep lowest terms.",
  ["inputs", "histories"], "all sequences of interval operations and all rational operands within range",
  "Only one example inequality is tested; open ends and operation sequences are not.",
  ["numeric/basic_interval.hh", "numeric/disjoint_intervals.hh", "numeric/rational_number.hh", "numeric/cubic_inequality_solver.hh", "numeric/cubic_rational_inequality_solver.hh", "numeric/quadratic_rational_inequality_solver.hh", "numeric/linear_inequality_solver.hh", "numeric/gcd.hh", "numeric/polynomial.hh"],
  [("intersect/join/contains", "numeric/basic_interval.hh"), ("operators", "numeric/rational_number.hh")],
  ["membership of sampled points"])

p("C20", "Union-find structures represent exactly the union of the requested pairs",
  "After any sequence of unite requests, from one thread or many, two elements report the same representative exactly when they are connected through requested pairs, and reported set sizes and listings agree. No request is lost when unite and find calls run concurrently on the structure meant for concurrent use.",
  ["schedules", "histories"], "all sequences and all interleavings of unite/find/exists calls",
  "One sequential example is tested; no test runs concurrent unions.",
  ["basic/duf.hh", "basic/union_find.hh", "basic/simple_union_find.hh", "basic/contour_tree.hh"],
  [("duf::unite/find", "basic/duf.hh"), ("union_find::unite/find", "basic/union_find.hh")],
  ["representatives after the run; call log"])

p("C21", "Spatial searches agree with brute force",
  "Nearest-neighbour queries return a point at the minimum distance, and point-location queries return a cell that contains the query point with matching barycentric coordinates exactly when some cell contains it, for every point set or triangulation and every query in or out of the domain.",
  ["inputs"], "all point sets (duplicates, collinear, single point), triangulations and query points incl. vertices, edges and outside points",
  "The test uses uniform random points and interior queries only.",
  ["basic/kd.hh", "mesh/point_locator_2d.hh", "mesh/point_locator_2d_quad.hh", "mesh/bvh2d.hh", "mesh/aabb.hh"],
  [("kd_t::build/find_nearest", "basic/kd.hh"), ("locate", "mesh/point_locator_2d_quad.hh")],
  ["query results"])

p("C22", "Collective exchanges neither lose, duplicate nor corrupt items",
  "Gathering, scattering, broadcasting, all-to-all exchanging and redistributing of maps, sets and vectors between processes deliver every item to exactly the process(es) it is addressed to, unchanged, for every number of processes and every distribution of items including empty contributions.",
  ["configurations", "inputs", "schedules"], "all process counts, item counts per process (incl. 0) and item types",
  "MPI tests only exercise gather of critical points on up to 4 ranks.",
  ["utils/gather.hh", "utils/redistribution.hh", "utils/all2all.hh", "utils/scatter.hh", "utils/bcast.hh", "utils/serialization.hh"],
  [("gather/redistribute", "utils/gather.hh"), ("all2all", "utils/all2all.hh")],
  ["items present on every rank afterwards"])

p("C23", "No memory error or undefined behaviour on any valid workload",
  "Tracking, tracing, post-processing, file input/output and the numeric and container utilities never read or write outside an object, use freed or uninitialised storage, leak a lock, or execute other undefined behaviour, for any valid input, including empty, minimal-size and degenerate ones.",
  ["inputs", "configurations"], "all valid inputs and configurations of the public API",
  "Unit tests run uninstrumented, so silent out-of-bounds accesses pass.",
  ["ndarray.hh", "algorithms/hoshen_kopelman.hh", "numeric/quadratic_solver.hh", "features/feature_curve.hh", "filters/critical_point_tracker_2d_regular.hh", "filters/contour_tracker_3d_regular.hh", "mesh/simplicial_regular_mesh.hh", "mesh/simplicial_unstructured_2d_mesh.hh"],
  [("container bounds and shapes", "ndarray.hh"), ("per-thread snapshots", "filters/critical_point_tracker_2d_regular.hh")],
  ["AddressSanitizer/UBSan/valgrind reports while workloads run"])

p("C24", "Multi-threaded operations are free of data races",
  "With any number of threads, the parallel phases (element sweeps, detection, trajectory construction, contour and line extraction, smoothing, particle tracing, asynchronous streaming, concurrent union-find) never access the same memory concurrently without synchronisation.",
  ["schedules", "inputs"], "all schedules of the worker threads, thread counts and inputs",
  "Races rarely change a count in a unit test.",
  ["object.hh", "filters/critical_point_tracker.hh", "filters/critical_point_tracker_2d_regular.hh", "filters/critical_point_tracker_3d_regular.hh", "filters/contour_tracker_2d_regular.hh", "filters/contour_tracker_3d_regular.hh", "filters/critical_line_tracker_3d_regular.hh", "filters/particle_tracer.hh", "basic/duf.hh", "ndarray/stream.hh", "ndarray/conv.hh"],
  [("lock_guard around result maps", "filters/critical_point_tracker_2d_regular.hh"), ("per-container locks", "basic/duf.hh")],
  ["ThreadSanitizer reports while workloads run"])

p("C25", "Particle tracing follows the velocity field",
  "Each traced particle starts at its seed and, step by step, follows the space-time interpolated velocity field to the accuracy of the selected integrator, with times increasing by the configured step and recorded at the configured checkpoints; it stops exactly where the field is no longer defined. The result for one particle depends neither on the other particles nor on the number of threads.",
  ["inputs", "schedules", "configurations"], "all velocity fields, seeds (inside, at and outside the boundary), step counts and thread counts",
  "No test runs the particle tracer.",
  ["filters/particle_tracer.hh", "filters/particle_tracer_regular.hh", "numeric/rk4.hh", "ndarray.hh"],
  [("update_timestep / eval_vt", "filters/particle_tracer.hh"), ("rk4", "numeric/rk4.hh"), ("mlerp", "ndarray.hh")],
  ["trajectories after each time step"])

p("C26", "The command line tool computes what the library computes",
  "For every supported feature, input format, option combination, thread count and process count, the command-line tool writes exactly the features that the library finds on the same data, in every output form, and its archives fed back in reproduce the same output; unusable requests fail with a non-zero status instead of writing wrong results.",
  ["configurations", "inputs"], "all inputs and option combinations of the tool",
  "One CLI test compares one trajectory count.",
  ["src/cli/ftk.cpp", "filters/json_interface.hh", "ndarray/stream.hh"],
  [("parse_arguments/execute", "src/cli/ftk.cpp"), ("consume/write", "filters/json_interface.hh")],
  ["exit status and output files"])

p("C27", "Fields derived on unstructured meshes match the mesh geometry",
  "On every triangle mesh, the derived gradient is exact for linear functions, and so is the derived Jacobian of linear vector fields at every vertex; smoothed scalars, gradients and Jacobians are the kernel-weighted sums over exactly the neighbours within the kernel's radius, and saved smoothing kernels reload unchanged.",
  ["inputs", "configurations"], "all triangle meshes, fields and kernel widths, thread counts",
  "No stable test checks derived values on unstructured meshes.",
  ["mesh/simplicial_unstructured_2d_mesh.hh", "mesh/simplicial_unstructured_3d_mesh.hh", "numeric/gradient.hh"],
  [("scalar_gradient/vector_gradient", "mesh/simplicial_unstructured_2d_mesh.hh"), ("build_smoothing_kernel/smooth_scalar_gradient_jacobian", "mesh/simplicial_unstructured_2d_mesh.hh")],
  ["derived arrays"])

p("C28", "Toroidal meshes, field lines and field-aligned interpolation are consistent",
  "For every poloidal triangle mesh and number of planes, virtual planes and wedges, the toroidal mesh wraps around: lookups, sides, cofaces, neighbours, plane queries and coordinates agree with the extruded and closed torus. Field lines follow the magnetic field, forwards and backwards, and interpolated values and derivatives on virtual planes are those found along the field line on the two neighbouring planes; original planes keep their values. Smoothed fields, field perturbations, normalised fluctuations and planes rotated along field lines are derived plane by plane, regions of interest keep exactly the selected vertices and their data, and thresholded blobs get one label per component connected in space, around the torus and in time.",
  ["inputs", "configurations"], "all poloidal meshes, plane counts, magnetic fields, scalar fields, thresholds, thread counts",
  "The XGC tests need external data and compare counts only.",
  ["mesh/simplicial_xgc_2d_mesh.hh", "mesh/simplicial_xgc_3d_mesh.hh", "filters/xgc_tracker.hh", "filters/xgc_blob_threshold_tracker.hh"],
  [("find_simplex/sides/side_of/interpolate", "mesh/simplicial_xgc_3d_mesh.hh"), ("magnetic_map/eval_total_B/new_roi_mesh", "mesh/simplicial_xgc_2d_mesh.hh"), ("update_timestep/get_sliced", "filters/xgc_blob_threshold_tracker.hh")],
  ["mesh queries", "interpolated arrays", "labels"])

p("C29", "Ocean (MPAS) meshes and particles traced through them match the sphere",
  "For every MPAS ocean file (any cell, edge and vertex numbering, ids, land, fill values, layers and time stamps), every point is located in the Voronoi cell that contains it and in no other, from any starting cell, or reported to lie outside; cell values reach the vertices by the weights of the surrounding cell centres, are zero on the coast and missing where a value is missing; edge normals, tangent planes and surface cells match the geometry. Each particle starts at its seed (listed, at cells, or on a latitude-longitude-depth grid), moves through the layers and over the sphere by the interpolated horizontal and vertical velocity with the configured steps per day, for as long as the calendar says the snapshots are apart, is recorded at the configured checkpoints with velocity, salinity and temperature, and stops where the water ends; no other particle and no number of threads changes its path.",
  ["inputs", "schedules", "configurations"], "all Voronoi meshes, layer structures, fields, time stamps, seeds, step and thread counts",
  "No test reads an MPAS file.",
  ["mesh/mpas_mesh.hh", "io/mpas_stream.hh", "filters/particle_tracer_mpas_ocean.hh", "filters/particle_tracer.hh", "numeric/mpas.hh", "numeric/wachspress_interpolation.hh", "numeric/rk4.hh"],
  [("locate_cell_i/interpolate_c2v/initialize_edge_normals", "mesh/mpas_mesh.hh"), ("advance_timestep", "io/mpas_stream.hh"), ("eval_v_with_vertical_velocity/initialize_particles_latlonz", "filters/particle_tracer_mpas_ocean.hh"), ("spherical_rk4_with_vertical_velocity", "numeric/rk4.hh")],
  ["mesh queries", "vertex arrays", "trajectories"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for q in P: assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    for q in P:
        for f in q["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
    print(len(P))
