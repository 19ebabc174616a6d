import json
P=[]
ML=["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs"]
MC=["src/multicubic/mod.rs","src/multicubic/regular.rs","src/multicubic/rectilinear.rs","src/multicubic/regular_recursive.rs","src/multicubic/rectilinear_recursive.rs"]
NN=["src/nearest/regular.rs","src/nearest/rectilinear.rs"]
OD=["src/one_dim/mod.rs","src/one_dim/linear.rs","src/one_dim/hold.rs"]
IX=["src/lib.rs"]
PYF=["src/interpn/__init__.py","src/interpn/raw.py","src/python.rs"]
PYC=["src/interpn/"+f for f in ("multilinear_regular.py","multilinear_rectilinear.py","multicubic_regular.py","multicubic_rectilinear.py","nearest_regular.py","nearest_rectilinear.py")]
SER=["src/interpn/serialization.py"]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LOC=("cell location (get_loc) and clipping to the grid","interp_one/get_loc in each file")
p("C01","Multilinear evaluation equals per-axis linear interpolation/extrapolation",
 "On any valid regular or rectilinear grid, in any supported number of dimensions and for both f32 and f64, every multilinear entry point returns at every finite observation point, up to floating-point roundoff, the value obtained by linearly interpolating along each axis in turn between the two grid points that bracket the point. Outside the grid, on any combination of axes and however far, the line of the nearest end cell is continued.",
 ["inputs","configurations"],"all grids (sizes, spacings, offsets), values, observation points inside/outside/on nodes, dimensions 1..8 (and beyond with the recursive structs), regular and rectilinear, f32 and f64",
 "The unit tests evaluate a handful of fixed grids (sum-of-coordinates fields, min-size grids, f64 only); they never sample mixed grid sizes, f32, far extrapolation, nodes/one-ulp neighbours, large grids or arbitrary values.",
 ML+IX,[LOC,("hypercube unrolling / bounded recursion over axes","interp_one / populate"),("C-order indexing","src/lib.rs index_arr, index_arr_fixed_dims")],
 ["multilinear::{regular,rectilinear}::{interpn,interpn_alloc}","Multilinear{Regular,Rectilinear}[Recursive]::{interp,interp_one}"])
p("C02","Nearest evaluation returns the value of the closest grid point on each axis",
 "On any valid regular or rectilinear grid of 1 to 6 dimensions, nearest-neighbour evaluation returns exactly one stored grid value: the one whose index on every axis is that of the grid point closest to the observation point on that axis, the end point being used beyond the grid. A point exactly halfway between two neighbours takes the lower-index one.",
 ["inputs","configurations"],"all grids, values and observation points, including exact midpoints, nodes, one-ulp neighbours and far extrapolation; dims 1..6, both grid kinds, f32 and f64",
 "Tests use a few linspace grids and a handful of points and recompute the index with the same formula; ties, f32, long axes and large batches are not reached.",
 NN+IX,[LOC,("offset choice dt <= 1/2","interp_one"),("C-order indexing","src/lib.rs index_arr_fixed_dims")],
 ["nearest::{regular,rectilinear}::{interpn,interpn_alloc}","Nearest{Regular,Rectilinear}::{interp,interp_one}"])
p("C03","Multicubic evaluation equals the documented Hermite spline",
 "On any valid grid, every multicubic entry point returns, up to roundoff, the tensor product of the documented 1-D interpolant: on interior cells the Hermite cubic whose node slopes are the (distance-weighted, for uneven spacing) central differences, and on the two end cells the quadratic matching the end values and the inner slope. Outside the grid each axis continues that quadratic, or, when linearized extrapolation is requested, the straight line with the end slope.",
 ["inputs","configurations"],"all grids, values, observation points, dims 1..8 (and more with the recursive structs), regular and rectilinear, linearized or not, f32 and f64",
 "Tests check linear/quadratic fields and compare sin() loosely; slopes on uneven grids, end-cell behaviour per axis combination, large t, f32 and arbitrary values are sampled nowhere.",
 MC+IX,[LOC,("saturation class per axis","get_loc -> Saturation"),("Hermite evaluation and end-slope rule","interp_inner, normalized_hermite_spline, centered_difference_nonuniform")],
 ["multicubic::{regular,rectilinear}::{interpn,interpn_alloc}","Multicubic{Regular,Rectilinear}[Recursive]::{interp,interp_one}"])
p("C04","Interpolants are continuous; the cubic one has a continuous first derivative",
 "Along every axis and at every grid node, including the two ends where interpolation hands over to extrapolation, the multilinear interpolant has no jump in value and the multicubic interpolant has no jump in value or first derivative, whether or not extrapolation is linearized. Within a cell the dependence on each coordinate is a polynomial of degree at most 1 (multilinear) or 3 (multicubic).",
 ["inputs","configurations"],"all grids and values, every node and axis, the other coordinates anywhere (including extrapolated), both grid kinds, both extrapolation modes",
 "No test measures smoothness; it is a limit statement at every cell boundary for arbitrary values.",
 MC+ML,[LOC,("slope rule shared by neighbouring cells; natural end condition","interp_inner")],
 ["interp/interp_one at points on both sides of a node"])
p("C05","Multilinear fields are reproduced by linear, biquadratic ones by cubic",
 "If the grid values sample a function that is linear in each coordinate separately, multilinear evaluation returns that function everywhere, inside and outside the grid, up to roundoff. If they sample a function at most quadratic in each coordinate separately, multicubic evaluation returns it everywhere without linearized extrapolation, and everywhere inside the grid with it.",
 ["inputs","configurations"],"all such functions (including every cross term), grids, points and dimensions, both grid kinds",
 "Tests use one additive quadratic and one sum-of-coordinates field on linspace grids; cross terms, uneven spacing and 4+ dimensions are not covered.",
 ML+MC,[("per-axis exactness of the 1-D rule","interp_inner"),("tensor-product structure","interp_one / populate")],
 ["all multilinear and multicubic entry points"])
p("C06","Stored values are returned at grid nodes",
 "Evaluating at any grid node returns the value stored for that node: exactly for nearest-neighbour, up to roundoff for the multilinear, multicubic and one-dimensional linear interpolants. This holds for interior, edge and corner nodes of regular and rectilinear grids in every supported dimension.",
 ["inputs","configurations"],"every node of every valid grid, all methods, both grid kinds, f32 and f64",
 "Tests visit nodes only incidentally, on small grids with smooth fields where a neighbouring cell would give the same number.",
 ML+MC+NN+OD,[LOC,("value layout","src/lib.rs index_arr*")],["all evaluation entry points at node coordinates"])
p("C07","Linearized extrapolation changes only extrapolated axes and is straight there",
 "With linearized extrapolation, a multicubic result at a point inside the grid is the same as without it, and outside the grid it is an exactly straight-line (affine) function of each out-of-range coordinate while the in-range coordinates keep their interpolated shape. At the boundary the two modes agree in value and slope.",
 ["inputs","configurations"],"all grids, values, dims 1..8 and subsets of axes that are out of range on either side",
 "Tests only compare extrapolated linear/quadratic fields; subsets of extrapolated axes with arbitrary values are not sampled.",
 MC,[("linearize_extrapolation branch per axis","interp_inner Outside* arms")],["multicubic evaluation with linearize_extrapolation true/false"])
p("C08","Regular and rectilinear evaluators agree on the same uniform grid",
 "When a rectilinear grid's coordinates are those of a regular grid (start + i*step), the regular and rectilinear evaluators of the same method return the same result, up to roundoff, at every observation point inside or outside the grid.",
 ["inputs","configurations"],"all uniform grids, values, points, methods (linear, cubic, nearest away from ties, 1-D), dims, f32 and f64",
 "The two families are separate code; no test compares them over generated inputs.",
 ML+MC+NN+OD,[LOC],["regular vs rectilinear entry points of each module"])
p("C09","Every entry point for a method computes the same function",
 "For the same inputs, the convenience function, its allocating variant, the fixed-dimension struct, the recursive struct with exactly enough or with spare maximum dimensions, and single-point evaluation all return the same results up to roundoff, and agree on whether the input is accepted.",
 ["inputs","configurations"],"all valid inputs, methods, grid kinds, dims 1..8, spare capacities of the recursive structs, f32 and f64",
 "The flattened and recursive implementations are duplicated by hand (4 pairs of files); tests exercise each on its own small samples and never against each other over generated inputs.",
 ML+MC+NN,[("flattened unrolling","regular.rs/rectilinear.rs interp_one"),("bounded recursion","*_recursive.rs populate"),("dispatch on ndims","interpn")],["interpn, interpn_alloc, interp, interp_one of flattened and recursive structs"])
p("C10","Batch evaluation is pointwise, complete and independent of history",
 "Successfully evaluating a list of observation points writes, for each i, exactly the result of evaluating point i alone, whatever the batch length, order or neighbouring points, and writes every output element regardless of its previous content. Repeating a call, after any other calls, returns the identical result, and inputs are never altered.",
 ["inputs","histories"],"all batches (empty, single, thousands of points), permutations and splits of them, prior contents of the output, sequences of calls on one interpolator",
 "Tests use fixed batches of one size into zeroed outputs and never reorder, split or repeat them.",
 ML+MC+NN+OD,[("loop over observation points with per-point scratch","interp"),("scratch storage initialised per evaluation","interp_one")],["interp/interpn output slices"])
p("C11","Axes are interchangeable: permuting them consistently permutes nothing else",
 "Values are read in C order (last axis fastest). Reordering the axes of the grid, the observation coordinates and the value array consistently leaves every multilinear, multicubic and nearest result unchanged up to roundoff, including which axes extrapolate.",
 ["inputs","configurations"],"all permutations of axes, grids with unequal sizes and spacings, dims 2..8, all methods and kinds",
 "Tests use symmetric fields (x+y) and equal sizes, for which an axis mix-up is invisible.",
 ML+MC+NN+IX,[("stride (dimprod) accumulation from the last axis","interp_one"),("per-axis arrays indexed consistently","interp_one/populate")],["all N-dimensional entry points"])
p("C12","Results depend only on the values of nearby grid points",
 "A multilinear result depends only on the values at the corners of the containing (or nearest end) cell, a multicubic result only on the four grid points per axis around it, and a nearest result only on the selected value. Changing any other grid value, even to NaN or infinity, leaves the result unchanged, no matter how large the grid is.",
 ["inputs","configurations"],"all grids, points, methods, dims and replacement values elsewhere in the grid",
 "Tests never perturb values away from the evaluation point; the documented locality is a statement about all of them.",
 ML+MC+NN+OD,[("stencil selection","get_loc + index_arr*")],["all evaluation entry points"])
p("C13","Results are linear in the values and unaffected by rescaling the axes",
 "Results are linear in the grid values: scaling, adding or offsetting value arrays scales, adds or offsets the results up to roundoff for multilinear and multicubic methods, and adding a constant to all values adds it to every result. Shifting or rescaling an axis together with its observation coordinates, or mirroring it together with the values, leaves every result unchanged up to roundoff (for nearest-neighbour: away from ties).",
 ["inputs"],"all grids, value arrays, scalars, shifts, scales, mirrored axes, methods, kinds and dims",
 "Metamorphic relations over pairs of inputs; tests evaluate single inputs only.",
 ML+MC+NN,[("normalised coordinate t","interp_one"),("weights independent of values","interp_inner")],["all N-dimensional entry points"])
p("C14","Malformed input is reported as an error, never a panic or a result",
 "The multidimensional constructors, evaluation functions and check_bounds return an error, without panicking, whenever array lengths do not match one another or the dimensionality, an axis has fewer points than the method needs (an empty axis for check_bounds), a step is not positive or the first two coordinates of an axis do not increase (evaluators), or the dimensionality is zero or above the supported maximum (evaluators). The 1-D grids and eval report mismatched lengths and grids of fewer than two points in the same way. Well-formed input is always accepted.",
 ["inputs","configurations"],"every single and combined malformation of every argument of every entry point, including empty slices and size products that overflow",
 "Tests cover two or three mismatches per module; the argument space (which slice, too short or too long, which combination, which dims) is not enumerated.",
 ML+MC+NN+OD,[("argument validation","interpn, new, interp, check_bounds")],["Result of new/interp/interpn/interpn_alloc/check_bounds"])
p("C15","No floating-point input can cause a panic",
 "For structurally well-formed arguments, any floating-point content whatever (NaN, infinities, subnormals, extreme magnitudes, observation points astronomically far away, unsorted coordinates after the first two) makes evaluation and bounds checks return a value or an error and never panic. A NaN coordinate never yields a finite multilinear or multicubic result, and an unrepresentable location on a regular grid is reported as an error.",
 ["inputs"],"all floating-point bit patterns in coordinates, grids, steps and values, all entry points, dims 1..8",
 "Tests contain no non-finite or extreme values.",
 ML+MC+NN+OD,[("checked float-to-integer conversion","get_loc NumCast ... ok_or"),("clamping of cell indices","get_loc max/min")],["all evaluation entry points and check_bounds"])
p("C16","check_bounds flags exactly the axes with out-of-bounds points",
 "check_bounds sets the entry of an axis to true when some observation coordinate on that axis lies outside the closed grid interval by more than the given absolute tolerance, and to false when all of them lie inside it (or outside by less than the tolerance). Every entry is overwritten, axes do not influence each other, and the answer is the same for regular and rectilinear descriptions of the same grid.",
 ["inputs","configurations"],"all grids, observation lists (any position of the offending point in the list), tolerances >= 0, dims 1..8, f32/f64, prior content of the output",
 "Tests check one 2- or 3-point example per module.",
 ["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs"],[("per-axis any() over the observation list","check_bounds")],["check_bounds in every module (re-exported by multicubic and nearest)"])
p("C17","Evaluation never allocates on the heap",
 "Constructing any interpolator and evaluating it, through every entry point except the explicitly allocating ones, performs no heap allocation or deallocation, for any grid size, dimension, batch length, and also on error paths.",
 ["inputs","configurations"],"all inputs accepted or rejected by every non-allocating entry point, dims 1..8, all methods, f32/f64",
 "No test observes the allocator.",
 ML+MC+NN+OD,[("fixed-size stack storage","interp_one"),("no_std crate core","src/lib.rs")],["global allocator calls during new/interp/interp_one/interpn/check_bounds/eval"])
p("C18","Work per point is bounded by the stencil, not by the grid",
 "Evaluating one point performs at most a constant times 2^N (multilinear), 4^N (multicubic) or N (nearest) floating-point operations plus, for rectilinear grids, a logarithmic number of coordinate comparisons per axis; it does not otherwise grow with the number of grid points, the magnitude of the coordinates or the batch length. Building an interpolator costs O(N) regardless of grid size.",
 ["inputs","configurations"],"all grids (up to 10^6 points per axis), points, batch lengths, dims 1..8",
 "No test counts operations.",
 ML+MC+NN+OD,[("bisection search","get_loc partition_point"),("unrolled/bounded recursion","interp_one/populate"),("constructors check only the first two coordinates","new")],["count of arithmetic and comparison operations of an instrumented scalar type"])
p("C19","Stack use is small, linear in dimensions and independent of the data",
 "The stack used by an evaluation is at most a modest constant plus a modest amount per dimension, and is independent of grid size, batch length, values and observation points. Recursion is never deeper than the number of dimensions.",
 ["inputs","configurations"],"all grids, batch lengths, points, dims 1..8 (recursive structs up to their maximum), all methods",
 "No test measures stack depth.",
 ML+MC+NN,[("recursion over axes with fixed-size arrays","populate"),("O(N) scratch","interp_one")],["addresses of scalar operations performed during an evaluation (instrumented scalar type)"])
p("C20","1-D linear interpolators follow the documented line and hold rules",
 "On regular and rectilinear 1-D grids, Linear1D returns the piecewise-linear interpolant and continues the end segments outside; LinearHoldLast1D is identical inside the grid and returns the first or last value outside. eval, eval_alloc and eval_one agree, and mismatched or too-short inputs are reported as errors.",
 ["inputs"],"all 1-D grids of at least 2 points, values, points, f32 and f64",
 "One fixed 77-point grid and random points are tested; nodes, two-point grids, regular/rectilinear agreement, f32 and far points are not.",
 OD,[("cell lookup and extrapolation flag","RegularGrid1D::index, RectilinearGrid1D::index"),("evaluation","Linear1D/LinearHoldLast1D eval_one")],["Interp1D::{eval_one,eval,eval_alloc}"])
p("C21","1-D hold interpolators pick the documented neighbour, also exactly at nodes",
 "Left1D returns the value of the last grid point at or before the location, Right1D that of the first grid point at or after it, and Nearest1D that of the closest grid point with ties to the left; outside the grid all return the end value. A location exactly on a node always yields that node's value, identically for regular and rectilinear grids.",
 ["inputs"],"all 1-D grids of at least 2 points, distinct values, locations including nodes, exact midpoints and one-ulp neighbours, f32 and f64",
 "The single existing test draws random locations that never hit a node or a midpoint.",
 OD,[("cell lookup","RegularGrid1D::index, RectilinearGrid1D::index"),("neighbour choice","Left1D/Right1D/Nearest1D eval_one")],["Interp1D::{eval_one,eval,eval_alloc}"])
p("C22","All feature builds (std, no_std, fma) compute the same results",
 "The crate built with default features, without std, and with the fma feature returns the same results up to roundoff for every input, accepts and rejects the same inputs, and exposes the same evaluation behaviour for all methods including the 1-D ones.",
 ["inputs","configurations"],"all inputs and methods, three feature configurations, f32 and f64",
 "The tests run in one feature configuration; the fma code paths are separately written expressions.",
 ML+MC+NN+OD,[("cfg(feature = \"fma\") arms","interp_inner, normalized_hermite_spline, centered_difference_nonuniform, Linear1D")],["same entry points in three builds of the crate"])
p("C23","linspace and meshgrid produce the documented grids",
 "For n >= 2, linspace returns n values that start exactly at the first bound, end at the second and are evenly spaced up to roundoff; meshgrid returns every combination of the given coordinates exactly once, in C order (last input fastest), whatever the number and sizes of the inputs.",
 ["inputs"],"all bounds (either order), sizes and numbers of axes, f32 and f64",
 "They are only used as helpers by other tests, on a few symmetric sizes.",
 ["src/utils.rs"],[("linspace","src/utils.rs"),("meshgrid","src/utils.rs")],["utils::linspace, utils::meshgrid"])
p("C24","Python function, raw bindings and classes all compute the documented result",
 "From Python, interpn() for each method, the raw functions and the eval methods of the six classes return, up to roundoff of the data type, the documented interpolant of the given arrays, for float32 and float64, for regular and irregular grids, with and without linearized extrapolation. interpn() accepts inputs of any shape or memory layout (multi-dimensional, Fortran-ordered, strided or reversed arrays), reading each in logical C order, and its result has the shape of the observation arrays; the classes' new methods likewise flatten their inputs and cast the grid to the type of the values.",
 ["inputs","configurations"],"all grids, values, observation arrays (shape, strides, dtype), dims 1..8 (nearest 1..6), methods, regular detection on/off, all Python entry points",
 "The Python tests use fixed small contiguous arrays and mostly constant or additive fields.",
 PYF+PYC,[("ravel/ascontiguousarray and regularity detection","src/interpn/__init__.py"),("dispatch on dtype, regularity and method","src/interpn/__init__.py, class eval"),("binding glue","src/python.rs")],["interpn.interpn, interpn.raw.*, class .eval/.eval_unchecked"])
p("C25","A caller-supplied output array receives exactly the result",
 "When an output array is given to a Python entry point, its every element is overwritten with the result regardless of its previous content, the returned array holds the same values and shape, and no memory outside it changes. This holds for any output length including 0 and 1 and for non-contiguous outputs, which are either filled correctly or rejected with an exception.",
 ["inputs","histories"],"output arrays of any shape, content, layout (contiguous, strided view, Fortran order) for interpn() and the class methods, reuse of one output across calls",
 "No Python test passes an output array to interpn() with more than trivial content.",
 PYF+PYC,[("output handling","src/interpn/__init__.py interpn; class eval(out=...)"),("writable numpy borrow","src/python.rs PyReadwriteArray1")],["interpn.interpn(out=...), Class.eval(out=...), Class.eval_unchecked(out)"])
p("C26","Python bounds checking raises exactly when a point is out of bounds",
 "With check_bounds enabled, interpn() raises ValueError if some observation coordinate lies outside the grid on its axis by more than the tolerance (up to rounding of the tolerance comparison and of the computed edge of a regular grid) and otherwise returns the same result as without the check, in any number of dimensions. The classes' check_bounds methods report per axis whether any coordinate is out of bounds.",
 ["inputs","configurations"],"all grids, points, tolerances, dims 1..8, dtypes, regular and irregular grids, methods",
 "The option is exercised by no test beyond one dimension.",
 PYF+PYC,[("bounds option","src/interpn/__init__.py check_bounds branch"),("class check_bounds","src/interpn/*_r*.py")],["interpn.interpn(check_bounds=True), Class.check_bounds"])
p("C27","Serialized interpolators reload to bit-identical interpolators",
 "Dumping any of the six Python interpolator objects to JSON and loading it back yields an object with bit-identical grid, values, data type and settings, whose evaluations are bit-identical to the original's; dumping again gives the same text, and copying, pickling or rebuilding from the dictionary form keep the same contents. This holds for every float32 and float64 value, including subnormals, signed zeros, infinities and extreme magnitudes; NaN values reload as NaN.",
 ["inputs","histories"],"all grid and value contents, dtypes, classes, dims and settings; repeated round trips",
 "Tests round-trip a few small arrays of friendly numbers.",
 PYC+SER,[("ArrayF64/ArrayF32 validators and serializers","src/interpn/serialization.py"),("pydantic models","src/interpn/*_r*.py")],["model_dump_json / model_validate_json, eval after reload"])
p("C28","Malformed Python calls raise ordinary exceptions and never abort or panic",
 "Calling the Python function, the raw bindings or the classes with mismatched lengths, data types it does not convert, too many or zero dimensions, too-short axes, non-positive steps, coordinates that do not increase (the classes look at every pair, the functions at the first), memory it cannot use (read-only or overlapping output; for raw bindings and eval also strided or misaligned arrays) or an unknown method or field raises an ordinary exception (a subclass of Exception), never a Rust panic, a crash, or a silently returned number array. The interpreter and later valid calls are unaffected.",
 ["inputs","histories"],"single and combined malformations of every argument of every Python entry point, interleaved with valid calls",
 "Tests check a few assertion errors on mismatched arrays.",
 PYF+PYC,[("error mapping","src/python.rs PyAssertionError"),("argument unpacking","src/python.rs unpack_vec_of_arr!"),("constructor assertions","class __init__/new/validators")],["exceptions raised by interpn.interpn, interpn.raw.*, class constructors and methods"])
p("C29","Python calls leave inputs intact and do not depend on call history",
 "No Python entry point modifies its input arrays, and an interpolator object gives bit-identical results for the same observation points however many evaluations, bounds checks, serializations or evaluations of other objects happened in between, whichever of its evaluation methods is used. Objects reject attribute reassignment and are not affected when the caller later overwrites the arrays they were made from.",
 ["histories","inputs"],"sequences of constructions, evaluations, bounds checks, dumps and array reuse over several live objects",
 "Tests call each object once; interference needs a history.",
 PYF+PYC,[("frozen pydantic models","src/interpn/*_r*.py"),("read-only numpy borrows","src/python.rs")],["inputs and results across call sequences"])
p("C30","Evaluations running at the same time do not affect each other",
 "Evaluation takes the interpolator by shared reference, so one interpolator object of any kind may be evaluated from several threads at once, and so may any number of interpolators, free functions and bounds checks over the same or different data. Every call returns bit for bit what it returns when run alone, whatever the interleaving.",
 ["inputs","schedules"],"all methods, grid kinds, dims 1..8, batch and point evaluation, 1-D interpolators, 2..6 threads and the interleavings the machine produces",
 "All tests are single-threaded within an interpolator; a cache or scratch buffer behind the shared reference would pass them.",
 ML+MC+NN+OD,[("evaluation through &self without shared state","interp/interp_one, eval_one"),("per-call stack scratch","interp_one/populate")],["results of interp/interp_one/interpn/check_bounds/eval called from several threads"])
p("C31","Python objects and functions may be used from several threads at once",
 "Threads that evaluate, bounds-check and serialize the same Python interpolator objects, call interpn() and the raw bindings, each with its own output, get the same results and the same exceptions as when the calls are made one after another. The arrays of the shared objects stay unchanged.",
 ["inputs","schedules","histories"],"all classes and entry points, shared and separate objects, 2..6 threads with generated call sequences and very short switch intervals",
 "The tests never start a thread.",
 PYF+PYC,[("no shared scratch between calls","src/interpn/__init__.py, class eval"),("borrow checking of numpy arrays","src/python.rs PyReadonlyArray1/PyReadwriteArray1")],["results and exceptions of calls made from several threads"])
p("C32","1-D grids report the cell, its ends, its values and the side of a location",
 "For every location with a representable cell number, index() of a regular or rectilinear 1-D grid returns the index of a cell that contains it, ends included (the first or last cell when outside), and says whether the location is inside, below or above the grid; a location exactly at either end is inside. at() returns that same cell's two end coordinates (up to roundoff on regular grids), its two stored values and the same side.",
 ["inputs"],"all 1-D grids of at least 2 points, both kinds, f32 and f64, locations including nodes, one-ulp neighbours, both ends and far outside",
 "No test calls index or at directly; most errors in them are masked by the interpolator that uses them.",
 ["src/one_dim/mod.rs"],[("cell lookup and extrapolation flag","RegularGrid1D::index, RectilinearGrid1D::index"),("sample of the containing cell","Grid1D::at")],["Grid1D::{index,at}"])
p("C33","Interpolation in N dimensions is consistent with interpolation in fewer",
 "At points whose coordinate on one axis is a grid coordinate, every method in N dimensions returns, up to roundoff, what it returns in N-1 dimensions from the values stored on that plane; if the values do not depend on one axis, the result is the N-1 dimensional result wherever the point lies on that axis. Multilinear and multicubic interpolation of a sum or product of functions of one coordinate each is the sum or product of the one-dimensional interpolants, inside the grid and beyond it.",
 ["inputs","configurations"],"all methods, grid kinds, entry points, dims 2..8 (nearest 2..6) against one fewer or 1, any axis, points inside and outside, f32 and f64",
 "Each dimension count is compiled from a separate instantiation and dispatch arm; tests compare none of them with another.",
 ML+MC+NN,[("dimension dispatch and recursion over axes","interpn / interp_inner / populate"),("per-axis weights and offsets","interp_one")],["results of interpolation in N and in fewer dimensions"])
p("C34","Python results do not depend on pydantic or on how the interpreter was started",
 "pydantic is optional: without it the package imports, every name in __all__ exists, and interpn() and the raw bindings return bit for bit the results and raise the exceptions they do with it. Started with -O or -OO, or with warnings and NumPy floating-point errors turned into exceptions, interpn(), the raw bindings and the six classes likewise return the same results for well-formed arguments and the same exceptions for points out of bounds, array lengths that do not match and unknown methods.",
 ["inputs","configurations"],"generated problems of all methods, grid kinds, dtypes, dims and layouts in four interpreter configurations",
 "The tests run in one interpreter configuration, with pydantic and with assertions enabled.",
 PYF+PYC,[("optional pydantic","src/interpn/__init__.py _PYDANTIC_FOUND"),("assertions without side effects","src/interpn/__init__.py, classes"),("raw re-exports","src/interpn/raw.py")],["results and exceptions of interpn.interpn, interpn.raw.*, classes in separately started interpreters"])
p("C35","The generic interfaces work with types supplied by the caller",
 "The library is generic over any num_traits::Float scalar and, in one dimension, over any Grid1D. With a scalar type of higher precision than f64, every entry point, check_bounds, the 1-D interpolators and the grid utilities give the documented results to the precision of that type. The 1-D interpolators over a consistent grid implemented by the caller follow the same rules as over the built-in grids, using its samples, and pass on its errors. For an interpolator implemented by the caller, the provided eval and eval_alloc give its eval_one at each location or its error, and eval rejects unequal lengths.",
 ["inputs","configurations"],"a double-double scalar on all methods, grid kinds, entry points, dims 1..8; periodic, endless, owning and refusing caller-defined 1-D grids; caller-defined interpolators",
 "Tests use f32 and f64 and the built-in grids only; a step through f64 or an assumption about the grid shows with neither.",
 ML+MC+NN+OD+["src/utils.rs"],[("scalar constants and index conversions through NumCast","all modules"),("provided methods and generic interpolators","src/one_dim/*.rs")],["results with caller-defined scalars, Grid1D and Interp1D"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q,s)
print(len(P), max(len(q["title"]) for q in P))
