#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay easy to edit)."""
import json, os
H = "src/include/"
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=[H+f for f in files],
                     state=[dict(name=a, meaning=b, where=H+c) for a, b, c in state],
                     mechanism=[dict(name=a, where=H+b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

SPL = ["BSpline.hpp", "Interpolation.hpp", "InterpolationTemplate.hpp", "BandLU.hpp", "BandMatrix.hpp", "Mesh.hpp"]
add("C01", "The interpolant passes through every data point",
    "For any data on a mesh with at least order+1 points per dimension, evaluating the interpolation function at a mesh node returns the data value given for that node. This holds in every dimension count, for every spline order, for evenly spaced and explicitly listed coordinates, and for periodic, aperiodic and mixed dimensions (in a periodic dimension the point one period later repeats the first).",
    ["inputs", "configurations"], "all data values; all nodes; orders, mesh sizes, dimension counts, uniform/nonuniform and periodic/aperiodic mixes within the stated bounds",
    "The tests evaluate a few fixed data sets at ten random points each and never at all nodes; most order/boundary/spacing combinations and the default (non cell layout) evaluation path are never run.",
    SPL, [("coefficient matrix assembly", "InterpolationTemplate.hpp:build_solver_"), ("line-by-line control point solve", "InterpolationTemplate.hpp:solve_for_control_points_"), ("evaluation", "BSpline.hpp:operator()")],
    [("control_points_", "weights of the spline (plain or cell layout)", "BSpline.hpp")], ["InterpolationFunction::operator()"])
add("C02", "Polynomials up to the spline order are reproduced exactly",
    "If the data of an aperiodic interpolation are samples of a polynomial whose degree in each variable does not exceed the spline order, the interpolation function equals that polynomial at every coordinate, inside and outside the mesh, up to rounding. A periodic dimension reproduces constants.",
    ["inputs", "configurations"], "all polynomials of that degree, all evaluation points, all orders/sizes/spacings within the stated bounds",
    "No test uses polynomial data; ten sample points per data set cannot settle an identity over all polynomials and coordinates.",
    SPL, [("knot placement", "Interpolation.hpp:create_knot_vector_"), ("collocation", "InterpolationTemplate.hpp:build_solver_"), ("evaluation", "BSpline.hpp:base_spline_value")], (), ["InterpolationFunction::operator()"])
add("C03", "The result is the unique spline on the documented knots",
    "The interpolation function is the spline of the requested order that passes through the data on the documented breakpoints: in an aperiodic dimension interior breakpoints are the averages of as many consecutive coordinates as the order, in a periodic dimension they are the coordinates themselves (odd order) or the midpoints between neighbours (even order). Between breakpoints it is one polynomial of degree at most the order, and it has order-1 continuous derivatives across each breakpoint.",
    ["inputs", "configurations"], "all data, all evaluation points in and around the range, all orders/sizes/spacings/boundaries within the stated bounds",
    "Tests compare against ten precomputed values per case, with one mesh size per case, and cover orders 0,1,3,4 only in one dimension.",
    SPL, [("uniform and nonuniform knot construction", "Interpolation.hpp:create_knot_vector_"), ("knot search", "BSpline.hpp:get_knot_iter"), ("position hint", "Interpolation.hpp:add_hint_for_spline")],
    [("knots_", "knot vector of each dimension", "BSpline.hpp")], ["InterpolationFunction::operator()"])
add("C04", "Reported derivatives are the derivatives of the value",
    "For any data, coordinate and tuple of derivative orders, the reported (mixed partial) derivative equals the exact derivative of the interpolation function's value there, taken from the polynomial piece used for evaluation. Derivative order zero returns the value itself and any order above the spline order returns zero, through every overload that takes derivative orders.",
    ["inputs", "configurations"], "all data, coordinates, derivative order tuples, orders/sizes/boundaries within the stated bounds",
    "Tests sample derivatives of a few orders at ten points for order 3 and 4 splines only; mixed partials with periodic or nonuniform axes and orders above the spline order are not tested.",
    ["BSpline.hpp", "Interpolation.hpp"], [("derivative by control point differencing", "BSpline.hpp:derivative_at"), ("derivative hints", "Interpolation.hpp:derivative_helper")], (), ["InterpolationFunction::derivative", "InterpolationFunction::derivative_at", "BSpline::derivative_at"])
add("C05", "Periodic dimensions repeat with their period everywhere",
    "In a periodic dimension, shifting a coordinate by any whole number of periods, in either direction, changes neither the value nor any derivative, and the two ends of the range give the same value. Coordinates arbitrarily far below or above the range are accepted.",
    ["inputs", "configurations"], "all data, all coordinates within several periods of the range (including exact period multiples), all shifts, orders and spacings within the stated bounds",
    "Every periodic test evaluates inside the base period only.",
    ["BSpline.hpp", "Interpolation.hpp"], [("coordinate wrapping", "BSpline.hpp:get_knot_iter"), ("periodic knots", "Interpolation.hpp:create_knot_vector_"), ("control point wrap-around", "BSpline.hpp:operator()")], (), ["InterpolationFunction::operator()", "InterpolationFunction::derivative"])
add("C06", "Range-checked access throws exactly outside the range",
    "The range-checked value and derivative accessors throw a domain error if and only if some aperiodic coordinate lies outside the closed interval of coordinates the function was built on; otherwise they return exactly what the unchecked accessors return. The reported range of an aperiodic dimension is that interval, for every order; periodic coordinates never cause an error.",
    ["inputs", "configurations"], "all coordinates (inside, outside and on both ends), every dimension, orders/sizes/spacings/boundaries within the stated bounds",
    "One out-of-range point of one cubic 2D function is tested; both ends, even orders, mixed periodicity and the absence of spurious errors are not.",
    ["Interpolation.hpp", "BSpline.hpp"], [("boundary check", "Interpolation.hpp:boundary_check_"), ("range bookkeeping", "BSpline.hpp:load_knots")], [("range_", "first and last coordinate per dimension", "BSpline.hpp")], ["InterpolationFunction::at", "InterpolationFunction::derivative_at", "InterpolationFunction::range"])
add("C07", "Outside the range the end polynomial pieces are continued",
    "Evaluating (a value or derivative) outside the range of an aperiodic dimension without range checking yields the polynomial of the first or last piece, continued; the function is therefore a single polynomial on each side beyond the outermost interior breakpoint.",
    ["inputs", "configurations"], "all data, all coordinates below and above the range, orders/sizes/spacings within the stated bounds",
    "Two extrapolated points of one cubic function are tested.",
    ["BSpline.hpp", "Interpolation.hpp"], [("bounded knot search", "BSpline.hpp:get_knot_iter"), ("clamped hint", "Interpolation.hpp:add_hint_for_spline")], (), ["InterpolationFunction::operator()", "InterpolationFunction::derivative"])
add("C08", "No access outside live, initialised memory for any coordinate",
    "Constructing, evaluating, differentiating and destroying interpolation functions never reads or writes outside allocated storage, never depends on uninitialised memory and never frees wrongly. This holds for every floating point coordinate, including out-of-range, infinite and NaN ones, and for every position hint that lies within the interior knots.",
    ["inputs", "configurations"], "every IEEE double coordinate (bit-precise comparisons, rounding over-approximated), orders/sizes/boundaries/layouts within the stated bounds",
    "AddressSanitizer runs only see the few coordinates the tests use; wrap-around results that round onto the end of the range need specific coordinates.",
    SPL + ["aligned-allocator.hpp"], [("knot search bounds", "BSpline.hpp:get_knot_iter"), ("hint clamping", "Interpolation.hpp:add_hint_for_spline"), ("index wrap", "BSpline.hpp:operator()"), ("cell layout extents", "BSpline.hpp:generate_cell_layout")], (), ["InterpolationFunction::operator()", "InterpolationFunction::derivative", "BSpline::operator()"])
add("C09", "Build options do not change results",
    "For the same data and coordinates, values and derivatives are the same whether or not the cell layout is enabled, whether periodic data carry the repeated last point or the build declares it implicit (the repeated point's value is ignored), whether assertions are enabled, and in every supported language standard.",
    ["configurations", "inputs"], "all data and evaluation points, orders/sizes/boundaries within the stated bounds, for each combination of the documented build macros and C++11/C++17/C++20",
    "The test programs are built with one fixed set of macros and one language standard, so the default configuration is never executed at all.",
    SPL + ["util.hpp"], [("cell layout", "BSpline.hpp:generate_cell_layout"), ("dummy point handling", "InterpolationTemplate.hpp:solve_for_control_points_"), ("C++11 solver union", "InterpolationTemplate.hpp:EitherSolver")], (), ["InterpolationFunction::operator()", "InterpolationFunction::derivative"])
add("C10", "A template gives the same functions as direct construction, repeatedly",
    "Interpolating data through an interpolation template, by any of its overloads and any number of times in any order with different data, yields functions indistinguishable from directly constructed ones; uses do not influence each other. A pre-computed evaluation proxy for a coordinate returns, for any function made from that template, exactly the value that function has there.",
    ["inputs", "histories", "configurations"], "all data, coordinates and sequences of up to three uses within the stated bounds",
    "The template test only checks smooth data to a loose accuracy threshold, and proxies are tested in the order-3 case only.",
    ["InterpolationTemplate.hpp", "Interpolation.hpp", "BSpline.hpp"], [("interpolate overloads", "InterpolationTemplate.hpp:interpolate"), ("proxy", "BSpline.hpp:pre_calc_coef"), ("cell extents from knots", "BSpline.hpp:calculate_cell_dim_from_knots")], (), ["InterpolationFunctionTemplate::interpolate", "InterpolationFunctionTemplate::eval_proxy"])
add("C11", "Dimensions are treated independently and alike",
    "Interpolation is a tensor product: permuting the axes of the mesh together with ranges, periodicity, coordinates and derivative orders leaves the result unchanged, and data that are a product of one-dimensional data give the product of the one-dimensional interpolants.",
    ["inputs", "configurations"], "all data, coordinates and axis permutations in two and three dimensions with unequal sizes and mixed boundaries, within the stated bounds",
    "Multi-dimensional tests use one cubic mesh each; unequal sizes with mixed boundaries and orders other than 3 are not covered.",
    SPL, [("dimension rotation during solve", "InterpolationTemplate.hpp:solve_for_control_points_"), ("local index order", "BSpline.hpp:operator()"), ("cell index order", "BSpline.hpp:generate_cell_layout")], (), ["InterpolationFunction::operator()", "InterpolationFunction::derivative"])
add("C12", "Mesh addressing is a row-major bijection",
    "Every valid index tuple of a mesh designates its own element in row-major order and the inverse mapping recovers the tuple from a position; all ways of accessing an element (index arguments, index array, flat iteration, iteration along one dimension) agree. Iterating along a dimension visits exactly the elements of that line in order, and iterator arithmetic and comparison behave as for a random access sequence.",
    ["inputs", "configurations"], "all index tuples and positions, all extents within the stated bounds, one to four dimensions",
    "The mesh test touches a handful of elements of two meshes.",
    ["Mesh.hpp"], [("index mapping", "Mesh.hpp:indexing"), ("inverse mapping", "Mesh.hpp:dimwise_indices"), ("strided iterator", "Mesh.hpp:skip_iterator")], (), ["Mesh::operator()", "Mesh::begin", "Mesh::iter_indices"])
add("C13", "The band solvers solve the linear system exactly",
    "For every band matrix, and every band matrix with cyclic corner bands, for which elimination without pivoting meets no zero pivot, the solver returns the vector that multiplied by the matrix gives the right-hand side (up to rounding). Solving through a container, pointer or strided iterator gives the same result, does not alter the solver, and touches only the elements of that vector.",
    ["inputs", "configurations"], "all matrix entries and right-hand sides, sizes and lower/upper band widths within the stated bounds",
    "Tests use constant-coefficient, mostly symmetric matrices of one size with three band shapes and random right-hand sides.",
    ["BandLU.hpp", "BandMatrix.hpp"], [("band elimination", "BandLU.hpp:BandLU<BandMatrix>::compute_impl"), ("cyclic elimination", "BandLU.hpp:BandLU<ExtendedBandMatrix>::compute_impl"), ("substitution", "BandLU.hpp:solve_in_place_impl")], (), ["BandLU::solve", "BandLU::solve_in_place", "BandLU::compute"])
add("C14", "Band matrices store and multiply like the dense matrix they denote",
    "Each in-band (or corner band) element of a band matrix is an independent cell: writing one element is read back unchanged and alters no other element, elements start as zero, and access stays inside the matrix storage. Matrix-vector multiplication gives the product with the dense matrix so described.",
    ["inputs", "configurations"], "all element values, index pairs, vectors, sizes and band widths within the stated bounds",
    "Multiplication is only tested on matrices whose transpose is themselves or that are circulant, so a transposed or shifted band goes unnoticed.",
    ["BandMatrix.hpp"], [("band storage", "BandMatrix.hpp:BandMatrix::operator()"), ("corner storage", "BandMatrix.hpp:ExtendedBandMatrix::side_bands_val"), ("multiplication", "BandMatrix.hpp:operator*")], (), ["BandMatrix::operator()", "BandMatrix::operator*", "ExtendedBandMatrix::operator*"])
add("C15", "Coordinates may be shifted, scaled, or listed explicitly",
    "An evenly spaced mesh given by its end points and the same mesh given by listing its coordinates yield the same function. Shifting and scaling all coordinates of a dimension (by any offset and any positive factor) shifts and scales the argument of the function and leaves its values unchanged, with derivatives scaled accordingly.",
    ["inputs", "configurations"], "all data, offsets, positive scales and evaluation points, orders/sizes/boundaries within the stated bounds",
    "Tests use unit or half spacing starting at zero in nearly every case.",
    ["Interpolation.hpp", "InterpolationTemplate.hpp", "BSpline.hpp"], [("uniform knots", "Interpolation.hpp:create_knot_vector_ (uniform)"), ("nonuniform knots", "Interpolation.hpp:create_knot_vector_ (iterators)"), ("reused basis values on the even part", "InterpolationTemplate.hpp:build_solver_")], (), ["InterpolationFunction::operator()", "InterpolationFunction::derivative"])
add("C16", "Every task given to the thread pool runs exactly once, and the pool stops",
    "For every interleaving, each task submitted to the thread pool whose future is waited for is executed exactly once, its future then becomes ready with its result or exception, and tasks neither get lost between queues nor deadlock the workers. A task nobody has waited for when the pool is destroyed runs at most once, and its future becomes ready or reports a broken promise. Destroying the pool ends and joins all worker threads in every interleaving, and no two threads access the pool's data without synchronisation.",
    ["schedules"], "all interleavings of submitter, destructor and worker threads at synchronisation operations, for small numbers of workers and tasks",
    "A test run exercises a handful of schedules; a wake-up lost between a predicate check and the wait needs a specific preemption.",
    ["DedicatedThreadPool.hpp"], [("main queue and wake-up", "DedicatedThreadPool.hpp:queue_task"), ("batch transfer", "DedicatedThreadPool.hpp:try_pop_from_main"), ("stealing", "DedicatedThreadPool.hpp:try_steal_from_others"), ("shutdown", "DedicatedThreadPool.hpp:~DedicatedThreadPool")], [("main_queue", "submitted tasks", "DedicatedThreadPool.hpp"), ("worker_queues", "per worker queues", "DedicatedThreadPool.hpp"), ("should_terminate", "stop flag", "DedicatedThreadPool.hpp")], ["DedicatedThreadPool::queue_task"])
add("C17", "Multi-threaded construction is race free and gives the same function",
    "With multi-threading enabled, the work items into which construction is split cover every line of the mesh exactly once, and no two work items access a common element that either of them writes. The resulting function therefore equals the single-threaded one for every data set, mesh shape and schedule.",
    ["schedules", "inputs", "configurations"], "all data and task execution orders; mesh shapes, orders and boundaries within the stated bounds; all line counts up to the stated bound for the split itself",
    "Tests observe one schedule per run on large smooth data with loose tolerance.",
    ["InterpolationTemplate.hpp", "BSpline.hpp", "DedicatedThreadPool.hpp"], [("block split of the solve", "InterpolationTemplate.hpp:solve_for_control_points_"), ("block split of cell filling", "BSpline.hpp:generate_cell_layout")], (), ["InterpolationFunction constructor"])
add("C18", "With assertions enabled, invalid input is rejected and valid input accepted",
    "With assertions enabled, coordinate lists that are not strictly increasing or whose length does not match the mesh, spline knots inconsistent with the number of control points, mesh indices outside the extents (given as index arguments or to the checked mapping) and matrix elements outside the bands are each rejected with an exception. Valid input never triggers an assertion.",
    ["inputs", "configurations"], "all coordinate lists, lengths and index values within the stated bounds",
    "One out-of-range mesh access is tested.",
    ["Interpolation.hpp", "BSpline.hpp", "Mesh.hpp", "BandMatrix.hpp", "util.hpp"], [("monotonicity and length assertions", "Interpolation.hpp:create_knot_vector_"), ("knot count assertion", "BSpline.hpp:BSpline"), ("index assertions", "Mesh.hpp:indexing_safe")], (), ["InterpolationFunction constructor", "Mesh::operator()", "BandMatrix::operator()"])
add("C19", "Directly built B-splines evaluate the textbook basis, whatever the hint",
    "A B-spline built from control points and knot vectors evaluates, at every coordinate of its range, to the sum of its control points weighted by the basis functions its knots define; the weights are non-negative, sum to one, and vanish outside each function's support. The optional position hint affects speed only: every hint within the interior knots gives the same value and derivative.",
    ["inputs", "configurations"], "all control points, strictly increasing interior knots, coordinates and hints, orders/sizes within the stated bounds",
    "Tests use one knot vector and ten coordinates, and always the default hint.",
    ["BSpline.hpp"], [("Cox-de Boor recursion", "BSpline.hpp:base_spline_value"), ("knot search with hint", "BSpline.hpp:get_knot_iter"), ("weighted sum", "BSpline.hpp:operator()")], (), ["BSpline::operator()", "BSpline::derivative_at", "BSpline::base_spline_value"])
add("C20", "Interpolation is linear in the data and acts on components",
    "The interpolation function of a linear combination of data sets is the same combination of their interpolation functions, for values and derivatives. Vector-valued data are interpolated component by component, and single precision coordinates or values follow the same formulas.",
    ["inputs", "configurations"], "all data, coefficients and coordinates; double, float and small vector value types; orders/sizes/boundaries within the stated bounds",
    "One smooth vector-valued data set is tested to a loose tolerance.",
    SPL, [("generic value type arithmetic", "BSpline.hpp:operator()"), ("generic substitution", "BandLU.hpp:solve_in_place_impl")], (), ["InterpolationFunction::operator()"])
add("C21", "Function objects are independent values",
    "Copies, moves and assignments of interpolation functions, splines and meshes behave as values: a copy evaluates identically, survives destruction or overwriting of its source and of the template or data it was built from, and changing one object never changes another.",
    ["histories", "inputs"], "all data and coordinates, all short sequences of copy, move, assign, re-interpolate and destroy operations within the stated bounds",
    "Tests evaluate freshly built objects only.",
    ["Interpolation.hpp", "InterpolationTemplate.hpp", "BSpline.hpp", "Mesh.hpp", "util.hpp", "aligned-allocator.hpp"], [("template result from base copy", "InterpolationTemplate.hpp:interpolate"), ("mesh storage", "Mesh.hpp:Mesh"), ("allocator propagation", "aligned-allocator.hpp:AlignedAllocator")], (), ["InterpolationFunction", "Mesh", "BSpline"])
add("C22", "Allocators return aligned, disjoint, sufficient storage or fail cleanly",
    "The aligned allocator returns storage of at least the requested size aligned to its declared alignment, and signals failure with a bad-allocation exception, also when the requested element count does not fit in memory. A fixed-buffer allocator object never hands out overlapping or out-of-buffer storage, throws when exhausted, and reuses storage released in last-in-first-out order.",
    ["inputs", "histories"], "all element counts, all last-in-first-out sequences of allocations and releases up to the stated length, allocation success or failure",
    "The fixed-buffer test is compiled out and the aligned allocator has no test.",
    ["aligned-allocator.hpp", "util.hpp"], [("aligned allocation", "aligned-allocator.hpp:allocate"), ("stack allocator", "util.hpp:stack_allocator")], (), ["AlignedAllocator::allocate", "stack_allocator::allocate"])
add("C23", "Rounding keeps results within a small multiple of machine precision",
    "In IEEE arithmetic, the error of an interpolated value relative to exact arithmetic stays within a modest multiple of machine precision times the condition of the problem.",
    ["inputs"], "all finite data and coordinates",
    "Tests measure the error on a few data sets.",
    SPL, [("elimination without pivoting", "BandLU.hpp"), ("basis recursion", "BSpline.hpp:base_spline_value")], (), ["InterpolationFunction::operator()"])
add("C24", "The MATLAB gateway evaluates the same interpolation",
    "The MATLAB gateway function returns, for every mesh, coordinate and derivative order it accepts, the value the library computes for the transposed (column-major) mesh.",
    ["inputs"], "all meshes and coordinates MATLAB can pass",
    "There is no test of the gateway.",
    [], [("gateway", "../../matlab/bspline.cpp")], (), ["matlab/bspline.cpp"])
P[-1]["anchors"]["files"] = ["matlab/bspline.cpp"]
P[-1]["anchors"]["mechanism"] = [dict(name="gateway", where="matlab/bspline.cpp:interpolation_nd")]
add("C25", "Constant objects may be used by several threads at once",
    "Evaluating, differentiating and range-checking a constant interpolation function or spline, interpolating through a constant template, applying an evaluation proxy, solving with a computed band solver and reading a mesh have no side effects another thread could observe: any number of threads may do so at the same time on one object, or on unrelated objects, without data races, and each obtains the result it would obtain alone.",
    ["schedules", "inputs", "configurations"], "all schedules of two threads (happens-before), all data, coordinates within the stated pieces, orders/sizes/boundaries/layouts within the stated bounds",
    "No test evaluates from more than one thread, and a race shows up only under particular interleavings.",
    SPL, [("evaluation", "BSpline.hpp:operator()"), ("knot search", "BSpline.hpp:get_knot_iter"), ("solve", "BandLU.hpp:solve_in_place_impl"), ("template use", "InterpolationTemplate.hpp:interpolate")], (), ["InterpolationFunction::operator()", "InterpolationFunction::derivative", "InterpolationFunctionTemplate::interpolate", "BandLU::solve_in_place"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
