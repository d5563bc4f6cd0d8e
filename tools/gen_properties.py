#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": state or [], "observe_at": observe or [], "hook_needed": hook}})
A = "ristra/atomics/src/"
p("C01", "Concurrent atomic updates are applied exactly once, in some serial order",
  "When several threads update one atomic variable concurrently through any mix of the compare-and-swap schemes (strong, weak, strong::pun, weak::pun) and the cpp scheme, or all through the lock scheme, the final value is the one obtained by performing every update exactly once in some serial order. No update is lost, repeated or computed from a value another thread has already replaced, whatever the interleaving and however often a weak compare-and-swap fails spuriously. This holds for every operation (add, sub, mul, div, mod, shifts, and/or/xor, min, max, pre/post increment and decrement), for built-in, pointer and user-defined value types and for volatile variables.",
  ["schedules", "programs", "fault_sequences"], "all interleavings of the threads' atomic steps, all spurious-failure choices, all small programs of operations and schemes",
  "the tests start a few free-running threads with one operation each and compare only the final sum; they reach a negligible share of the interleavings and never a spurious failure at a chosen point",
  [A+"atomics.h", A+"atomics-macro-class.h", A+"atomics-macro-class-prepost.h"],
  [("apply (compare-and-swap loop / mutex / native fetch)", A+"atomics.h"), ("singleton_mutex", A+"atomics.h")],
  ["final value of the variable"], [{"name": "value", "meaning": "content of the atomic", "where": A+"atomics.h"}])
p("C02", "An atomic update returns the result of its own update",
  "The value returned by an atomic update is the value the variable held immediately after that very update in the serial order in which the updates took effect (immediately before it, for post-increment and post-decrement). Consequently results are consistent with real-time order and, e.g., concurrent increments of one counter all return distinct values. This holds for every scheme except serial, in every concurrent execution.",
  ["schedules", "histories"], "all concurrent histories (call/return intervals) of the atomic operations, all interleavings",
  "the threaded tests ignore return values; the single-threaded ones cannot see another thread's update between the update and the reading of its result",
  [A+"atomics-macro-class.h", A+"atomics-macro-class-prepost.h", A+"atomics.h"],
  [("operator() of the operation classes", A+"atomics-macro-class.h"), ("ret vs neu in apply()", A+"atomics.h")],
  ["return value of each call"])
p("C03", "All schemes and call forms of an atomic operation compute the same function",
  "For every value, operand and value type, an atomic operation called as free function, as member function or as operator, with or without explicit memory orders, on a volatile variable or not, with the variable's own scheme or an overriding one, leaves in the variable and returns exactly what the corresponding plain operation on the value type gives: modular wrap-around for unsigned types, C++ truncation for division and remainder, min/max that keep the old value on ties, element-wise steps for pointers. The scheme used is the one explicitly requested, otherwise the variable's own.",
  ["inputs", "configurations"], "all operand values x operations x schemes x call forms x value types",
  "the tests print one or two fixed values per form and compare with a blessed file",
  [A+"atomics.h", A+"atomics-macro-function.h", A+"atomics-macro-member.h", A+"atomics-macro-operator.h", A+"atomics-macro-class.h"],
  [("get_scheme", A+"atomics.h"), ("mineq/maxeq", A+"atomics.h"), ("operation classes", A+"atomics-macro-class.h")],
  ["value and return of each call"])
p("C04", "Atomic updates provide the memory ordering they were asked for",
  "The read-modify-write by which an atomic update takes effect has at least the memory ordering given in the call (the success order when two are given) and sequentially consistent ordering when none is given; a failed compare-and-swap attempt has at least the failure ordering. Hence data written before a releasing update is visible to a thread whose acquiring update on the same variable observed it.",
  ["configurations", "schedules"], "all orders a caller may pass, all schemes that accept them, all call forms, all interleavings of publisher and consumer",
  "x86 hardware hides a weakened order from any test that only runs the code",
  [A+"atomics.h", A+"atomics-macro-class.h", A+"atomics-macro-function.h", A+"atomics-macro-member.h"],
  [("forwarding of sync / success, failure", A+"atomics.h")], ["orders reaching std::atomic operations"])
I = "ristra/initialization/"
p("C05", "Inputs resolve to the Lua value, else the hard-coded default, else fail",
  "After resolving, every registered target holds the value of the Lua source if that source provides the target, otherwise the value of the hard-coded source, and is listed as failed if neither provides it; targets are resolved independently of one another, and for callable targets the resolved function behaves as the chosen source's function. Resolution reports success exactly when no registered target of any type failed, and otherwise prints the names of the targets that failed. Resolving a single target on demand follows the same precedence and throws when no source provides it.",
  ["inputs", "histories", "configurations"], "all sets of targets, all contents of the two sources, with either source present or absent, all orders of registration and resolution",
  "the tests resolve two fixed input decks once each",
  [I+"input_engine.h", I+"input_source.h"],
  [("resolve_inputs_ / resolve_input_", I+"input_engine.h")], ["resolve_inputs()", "get_value", "get_failed_target_set", "get_instant_value"])
p("C06", "Resolving and reading inputs is repeatable and follows the current sources",
  "Resolving or reading inputs never alters a source: repeating a resolution with unchanged sources yields the same outcome and values, and reading a value or resolving one on demand does not change what any other read returns. After the sources or their contents change, the next resolution gives what a first resolution against the current sources would give, for function targets as for plain ones: provided targets take the current value, and the failed set lists exactly the targets that failed in it.",
  ["histories"], "all histories of register, set, resolve, replace source, instant lookup, read and clear",
  "every test resolves at most once per source",
  [I+"input_engine.h", I+"input_source.h"],
  [("hard_coded_source_t::get_value", I+"input_source.h"), ("registry update in resolve_inputs_", I+"input_engine.h")], ["get_value", "resolve_inputs()"])
p("C07", "Inputs are kept apart by name and type, and cleared completely",
  "Targets, values and failures of one value type or name never affect those of another: the same name may be registered under several types with different values, and reading returns the value resolved for that name and type. Reading a name/type pair that has not been resolved throws instead of returning a value. Clearing the registry forgets all targets, values and failures, so that the engine behaves as if newly made; hard-coded defaults set under a name and type override only that pair and clear per type.",
  ["histories", "inputs"], "all histories over a set of names and types",
  "the tests use disjoint names per type and never read after clearing",
  [I+"input_engine.h", I+"input_source.h"],
  [("per-type input_registry / data_registry", I+"input_engine.h")], ["get_value", "resolved", "get_target_set", "get_failed_target_set"])
p("C08", "An initialization value is handed out only when resolved and valid",
  "Getting an initialization value returns the engine's value for its (namespace-qualified) name exactly when the target was resolved and its validator accepts it, and throws otherwise, on the first call and on every later one. The queries resolved() and valid() agree with that and never throw, the validator sees the very value that is handed out, and once a value was found valid or invalid its reported status (and the status's name) says so.",
  ["histories", "inputs"], "all sequences of get/resolved/valid/status calls interleaved with resolution, for all validators and source contents",
  "the tests call get() once without a validator",
  [I+"init_value.h", I+"input_engine.h"],
  [("get/resolved/valid and m_status", I+"init_value.h")], ["get", "resolved", "valid", "status"])
p("C09", "Lua input lookups read the registered table and key, or report absence",
  "A lookup in a Lua input source reads the field with the key's registered Lua name (the key itself if none) of the table registered for the key, tables being found through their own registered parent and Lua name; re-registering a value or table replaces the former definition and says so. A field that is absent in Lua is reported as not found and leaves the caller's variable untouched, a key that was never registered raises an error, and sizes are those of the Lua sequence.",
  ["histories", "inputs"], "all Lua documents of nested tables, all sequences of registrations and lookups",
  "the tests read one fixed document with non-conflicting registrations",
  [I+"input_source.h"], [("m_table_map/m_tables/m_lua_key, load_table", I+"input_source.h")], ["get_value", "register_table", "register_value", "get_size"])
p("C10", "Command-line arguments parse to exactly what was passed",
  "For every set of registered options and every argument vector, an option's value is the one given on the command line (attached, after an equals sign or as the next word, by long name, unambiguous abbreviation or short letter, flags joined) converted to its registered type, the values of a list option in the order given, and the caller's default when it was not given. Unregistered options, positional words and anything after -- never change a registered option. A malformed, missing or superfluous value, an ambiguous name or a repeated single-valued option is reported as an error instead of a wrong value; presence counts equal what was passed. Each call stands for itself, whatever was parsed before or is registered later, and usage is printed exactly when asked for: on error or help, listing every registered option.",
  ["inputs"], "all registered option sets and argument vectors",
  "there is no test of the argument parser at all",
  [I+"arguments.h"], [("process_arguments / as / count", I+"arguments.h")], ["as", "count", "error flag", "printed usage"])
E = "ristra/embedded/"
p("C11", "Values cross the Lua bridge unchanged, and mismatches are errors",
  "A value passed from C++ to a Lua function and returned, or read from Lua, compares equal to the original for every supported type (integers, floating point, booleans, strings including empty ones and embedded zeros, vectors, arrays, tuples in order, nested matrices), multiple results arriving in order. A missing key, a nil, a result or table of the wrong type or length, a Lua error or a script that does not load is reported by an exception or by empty(), never by a fabricated value.",
  ["inputs", "programs"], "all values of the supported types, all argument and result lists, all mismatching requests",
  "the tests convert a handful of constants and no mismatching or failing request",
  [E+"embed_lua.h"], [("lua_value specializations", E+"embed_lua.h"), ("lua_result_t::operator() / as / operator[]", E+"embed_lua.h")], ["as<T>()", "operator()", "size", "empty"])
p("C12", "Lua handles stay valid and independent whatever else is done with the state",
  "A handle to a Lua value keeps denoting that same value as long as the handle lives, regardless of how many other lookups, calls, failed operations or copies and destructions of handles happen in between, and releases it afterwards. Every operation of the interface, successful or failing, leaves the interpreter's stack as it found it, so that arbitrarily long use neither disturbs later operations nor exhausts the stack.",
  ["histories", "fault_sequences"], "all interleavings of lookups, calls, errors, handle copies and destructions on one state",
  "the tests run short straight-line sequences and never inspect the interpreter stack",
  [E+"embed_lua.h"], [("lua_ref_t reference counting", E+"embed_lua.h"), ("push/pop pairing in lua_result_t", E+"embed_lua.h")], ["stack height", "value denoted by each handle", "registry references"])
p("C13", "Values cross the Python bridge unchanged, and failures are errors",
  "Arguments passed to an embedded Python function arrive in order with their types and values, and integers, floating point numbers and tuple elements come back equal to what Python produced (read as an integer, a floating point number is truncated towards zero), for every value of the supported types and any number of arguments, including none. A missing module or one that raises, a missing or non-callable attribute, a tuple index out of range, a value that does not convert, code that does not parse and an exception raised in Python surface as a C++ exception, leave no error pending and the interpreter usable for the next call. Every object handed to the caller is a reference it owns (tuple elements are borrowed), no other reference is gained or lost and repeated failures leave nothing behind, and directories added to the search path are searched before earlier ones.",
  ["inputs", "histories", "fault_sequences"], "all values and argument lists, all histories of good and failing calls",
  "the tests call one module function with two fixed integers",
  [E+"embed_python.h"], [("python_call_function / python_import / python_get_attribute / python_run_string", E+"embed_python.h"), ("python_as_long / python_as_double / python_*_tuple_element", E+"embed_python.h")], ["returned values", "exceptions", "pending errors", "reference counts"])
U = "ristra/utils/"
p("C14", "A fixed-capacity vector behaves like a sequence bounded by its capacity",
  "After any history of construction, assignment, insert (single, counted, range, list), emplace_back, erase, push/pop, resize, clear, swap, copy and move, a fixed vector's size and element order equal those of the same history on an unbounded sequence, and each call returns the same position. at() throws out_of_range exactly for positions at or beyond the size. A call that would exceed the capacity is refused by an assertion instead of writing outside the storage. Equality is that of the sequences, for trivial and non-trivial element types, and no element is leaked or destroyed twice.",
  ["histories", "inputs"], "all histories of operations and arguments up to the capacity, for trivial and resource-owning element types",
  "the tests run a fixed script on vectors of int",
  [U+"fixed_vector.h"], [("length_ and the shifting in insert/erase", U+"fixed_vector.h")], ["size, elements, returned iterator, exception"])
p("C15", "Array views address memory by their shape, for indexing, slices and iteration",
  "For every shape and stride, indexing a view (contiguous, strided or statically sized) at a multi-index inside its bounds reads and writes the element at row-major (respectively strided) offset, distinct indices address distinct elements, and size, extents and strides agree with the shape. Slices and sections are views of exactly the selected elements of the parent. Iterating bounds or a view visits every index or element exactly once in row-major order, and iterator arithmetic, differences and comparisons agree with positions in that order. Bounds-checked access throws exactly outside the bounds, a view is empty exactly when it has no elements, and views compare as the sequences of their elements.",
  ["inputs", "configurations"], "all ranks up to 4, all small shapes, strides, origins and index pairs",
  "the tests use one 3x1x2 array, in which most stride mistakes cannot show",
  [U+"array_view.h"], [("strides / linearize", U+"array_view.h"), ("bounds_iterator", U+"array_view.h"), ("section/slice", U+"array_view.h")], ["element address", "bounds", "iterator positions"])
p("C16", "A reference array always views exactly the elements it was given",
  "A reference array made from a pointer and length, vector, array or other reference array has exactly those elements in order, for indexing, first/last, forward and reverse iteration and conversion back to a vector or string, and reflects later changes of the underlying elements. Slices and dropped fronts or backs view exactly the remaining elements, positions and lengths being clamped or rejected at the ends rather than exceeding the underlying array.",
  ["inputs", "histories"], "all lengths, slice positions and chains of slicing and dropping",
  "the tests only construct one and sum it",
  [U+"array_ref.h"], [("start_/length_", U+"array_ref.h")], ["elements, size"])
p("C17", "Zipped and tuple-wise traversals visit each position once and in order",
  "Iterating zipped containers visits positions 0,1,2,... of all of them in lock step up to their common length, giving access to the very elements (assignments are seen in the containers), and containers of different length are rejected; a task made from a function and containers calls the function with exactly these elements. Tuple-wise operations (element-wise arithmetic and assignment, for-each, zip of tuples, visiting one run-time index) apply to every element exactly once in order, with the value the plain operation gives. A filtering iterator visits exactly the elements that satisfy its predicate, in order; removing duplicates keeps one of each run of equal values, and intersecting unsorted sequences keeps the common values.",
  ["inputs", "configurations"], "all numbers and lengths of containers and tuples, all element values",
  "the tests zip equally long containers of one length and two or three tuples",
  [U+"zip.h", U+"zip_impl.h", U+"tasks.h", U+"tuple_for_each.h", U+"tuple_zip.h", U+"tuple_visit.h", "ristra/math/tuple.h"],
  [("zip_iterator increment/compare", U+"zip_impl.h"), ("tuple_for_each", U+"tuple_for_each_impl.h"), ("operators on tuples", "ristra/math/tuple.h")], ["visited elements, resulting containers/tuples"])
p("C18", "String helpers satisfy their defining laws on every string",
  "Replacing all occurrences of a non-empty pattern substitutes each non-overlapping occurrence from the left once, without re-scanning what was inserted. Splitting at a set of delimiters yields the maximal delimiter-free pieces in order; base name, directory and extension splitting recombine to the original path and separate at the last separator or dot of the last path component. Conversions to text, numbers padded or not, keep the value, and fixed-size and constant strings hold, compare and concatenate as their characters.",
  ["inputs"], "all short strings over alphabets containing delimiters, dots, slashes and pattern letters",
  "the tests try one or two strings per helper",
  [U+"string_utils.h"], [("replace_all, split, basename, ...", U+"string_utils.h")], ["returned strings"])
M = "ristra/math/"
p("C19", "Fixed-size arrays and vectors obey element-wise algebra",
  "For arrays, vectors, dimensioned arrays and numeric tuples of every size, each arithmetic operator (array-array, array-scalar, scalar-array, and the compound forms, also when an operand is the target itself or one of its elements) equals the same operation on every element, and comparison, fill, swap, iteration and bounds-checked access agree with the element sequence. Dot and cross products, triple products, magnitude, normalisation, element-wise and reducing min/max, sums, averages and absolute values equal their mathematical definition.",
  ["inputs"], "all element values on which the arithmetic is exact, all sizes 1..4, all operator forms and aliasings",
  "the tests use one or two vectors per operator and no aliasing",
  [M+"array.h", M+"vector.h", M+"general.h", M+"general_impl.h", M+"tuple.h", U+"dimensioned_array.h", "ristra/geometry/space_vector.h", "ristra/geometry/point.h"], [("operator macros", M+"array.h"), ("free functions", M+"vector.h"), ("general", M+"general.h")], ["resulting elements"])
p("C20", "Multi-dimensional arrays map indices to elements bijectively, row-major",
  "For every static shape, a multi-dimensional array stores one element per multi-index in row-major order: writing through any access form (call operator, nested brackets, flat index, checked access, iterator) is seen through every other form at the same index and nowhere else, and size and extents agree with the shape. Element-wise arithmetic, comparison, fill, swap and copies act on every element exactly once, and checked access outside the bounds throws.",
  ["inputs", "configurations"], "all shapes of rank 1-4 with small extents, all index pairs",
  "the tests cover square 2x2 and 3x3 cases, which cannot tell rows from columns strides",
  [M+"multi_array.h"], [("index/offset computation", M+"multi_array.h")], ["element values through each access form"])
p("C21", "Matrix operations satisfy the laws of linear algebra",
  "For all matrices on which the arithmetic is exact: matrix and matrix-vector products (returning, accumulating, and scaled with alpha and beta), outer products, transposition, struck-out submatrices, trace, norms and double dot products equal their definitions; the determinant is the alternating multilinear one, and the inverse of a regular matrix multiplied with it in either order gives the identity and solves the corresponding linear system. Rotation, reflection and projection matrices are those of the given angle or normal, and the exponential agrees with the exponential series: on diagonalisable, nilpotent and skew matrices it has the known closed form, and exp(A) exp(-A) is the identity.",
  ["inputs"], "all small integer matrices of sizes 2..4 (regular ones with exactly representable inverse)",
  "the tests use symmetric or diagonal samples with one expected result each",
  [M+"matrix.h"], [("matrix functions", M+"matrix.h")], ["resulting matrices, vectors and scalars"])
G = "ristra/geometry/"
p("C22", "Planar areas, normals and centroids obey the geometric invariances",
  "For every triangle, quadrilateral and simple polygon with floating-point coordinates (in three dimensions planar and convex): area equals the shoelace value, is invariant under translation and cyclic renumbering, and is additive when the polygon is cut; the normal of an edge in the plane or of a face in space is orthogonal to it, reverses with the orientation and has the length of the edge (respectively the area of the face) as its length; the centroid is the area-weighted centroid and moves with translations and renumberings as the shape does. Midpoints and centroids of point sets are their means. All overloads and containers of points, in two and three dimensions, agree.",
  ["inputs"], "all small-integer vertex tuples, all cyclic shifts, reversals, translations and embeddings in 3D planes",
  "the tests evaluate the unit square and one or two triangles",
  [G+"area.h", G+"centroid.h", G+"normal.h", G+"shapes/triangle.h", G+"shapes/quadrilateral.h", G+"shapes/polygon.h"], [("shape formulas", G+"shapes/polygon.h")], ["areas, normals, centroids, midpoints"])
p("C23", "Solid volumes and centroids agree between shape types and obey invariances",
  "For every tetrahedron, hexahedron and polyhedron with floating-point coordinates: the volume is non-negative, equals the exact volume of the enclosed body (a warped face being the fan of triangles around the mean of its vertices), is invariant under translation and under renumberings that keep the body, and the same body described as different shape types has the same volume and centroid. The polyhedron result does not depend on the order in which faces are inserted, and the centroid moves with translations.",
  ["inputs", "histories"], "all small-integer vertex tuples, all face orders and renumberings",
  "the tests evaluate one unit cube and one tetrahedron",
  [G+"shapes/tetrahedron.h", G+"shapes/hexahedron.h", G+"shapes/polyhedron.h"], [("volume/centroid formulas", G+"shapes/polyhedron.h")], ["volume, centroid"])
L = "ristra/elements/"
p("C24", "Finite-element shape functions interpolate exactly",
  "For every element (4/8/12-node quadrilaterals, 8/20/32-node and arbitrary-order quadrilaterals and hexahedra, 16-node tesseract): each shape function is one at its own node and zero at the others, the shape functions sum to one and their derivatives to zero everywhere, derivatives are the derivatives of the shape functions, and the physical position is the shape-function-weighted sum of the vertices, so affine maps of the reference element are reproduced exactly. Basis, partials and positions of one element agree with each other and do not depend on what the result arrays or the element object's memory held before.",
  ["inputs"], "all reference points, all vertex positions, all element types and orders",
  "the example program prints results for one point set and asserts nothing",
  [L+"elements.h", L+"elements.cc"], [("basis / partial_* / physical_position", L+"elements.cc")], ["basis values, partials, positions"])
p("C25", "Quadrature rules integrate polynomials exactly up to their degree",
  "Each Gauss rule with p points and each Lobatto rule with p points integrates every monomial up to degree 2p-1 (respectively 2p-3) over the reference interval exactly up to rounding, has points inside the interval (Lobatto including both ends) and positive weights summing to the interval's measure. The 2D, 3D and 4D rules are the tensor products of the line rules: points, per-direction weights and total weights enumerate all combinations exactly once.",
  ["inputs", "configurations"], "all supported orders, all dimensions, all monomials up to the degree",
  "no test evaluates a rule against an integral",
  [L+"elements.cc"], [("LineGaussRuleInfo/LineLobattoRuleInfo", L+"elements.cc"), ("Gauss2D.. Lobatto4D", L+"elements.cc")], ["points and weights"])
p("C26", "Jacobians and their inverses are consistent for every element geometry",
  "For all vertex positions and shape-function derivatives, the Jacobian matrix is the matrix of sums of derivative times coordinate, its determinant is that matrix's determinant, and for non-degenerate geometry the inverse multiplied with it in either order gives the identity, in two, three and four dimensions. Affine images of the reference element have the linear part as constant Jacobian.",
  ["inputs"], "all small-integer vertex positions and partials with exactly representable inverse",
  "no test checks a Jacobian",
  [L+"elements.cc"], [("jacobian, jacobian4D, jacobian_inverse_*", L+"elements.cc")], ["J, det J, inverse J"])
D = "ristra/assertions/"
p("C27", "Contract checks act exactly when their condition is false",
  "In every build configuration, a contract check (require, check, ensure, insist and their comparison, range, membership and ordering variants) whose condition holds has no effect, and one whose condition is violated triggers the configured action (throw, notify, nothing, or one installed at run time) exactly once: throwing an exception or printing a notice that names the condition, file and line, and continuing after a notice; when checks are disabled they have no effect and the comparisons evaluate to the truth of their condition (a disabled membership check counts as satisfied). Insisted conditions trigger the action whether or not checks are disabled. The run-time error macros leave the program flow in every configuration, by their exception or, without exceptions, by aborting, and act as single statements.",
  ["inputs", "configurations"], "all argument values and orderings x all configurations (throw, notify, disabled)",
  "the three tests try one passing and one failing value per macro",
  [D+"dbc.h", D+"dbc_impl.h", D+"dbc_impl.cc", D+"errors.h", D+"exceptions.h"], [("dbc macros and action()", D+"dbc.h")], ["exception / output / return value"])
p("C28", "Type traits and compile-time helpers answer for every type by what it offers",
  "Whether a type counts as a container, a minimal container (size and data), an iterator, writeable to a stream, callable, callable with given arguments or subscriptable with a given index depends exactly on the members and operators it offers: all required ones present means yes, any one missing means no, whatever else it has. The all-same-type question ignores const and references, the all-integral question is true exactly if every type is integral, and decaying keeps wrapped references. Compile-time products, filled arrays and read-only ties have the values of, and refer to, exactly the objects they were given; the counter type selected for a size can hold it.",
  ["inputs", "configurations"], "all types (every combination of members, call signatures and index types), all argument lists",
  "the tests ask about a handful of standard library types",
  [U+"type_traits.h", U+"type_traits_impl.h", U+"template_helpers.h", U+"template_helpers_impl.h"], [("is_container, is_iterator, is_callable, has_call_operator, ...", U+"type_traits.h"), ("multiply, fill, make_array, ctie", U+"template_helpers.h")], ["value of the trait; elements and addresses"])
p("C29", "An input object reflects exactly the files loaded into it",
  "After loading input files one after another, every name has the value last assigned to it, names a file does not mention keep theirs, and other input objects are not affected; a file that is missing, does not parse or fails while running makes the load throw, keeps what was assigned before the failure, and does not become the object's file, which is always the last one that loaded. All ways of access (subscript, checked access, the access macros) see the same value; checked access throws exactly for absent names, and looking never changes anything. The process-wide instance is one and the same object everywhere.",
  ["histories", "inputs"], "all sequences of loads (good, failing, unparsable, missing files) and reads on several input objects",
  "no test exercises the input object",
  ["ristra/initialization/input.h", "ristra/embedded/embed_lua.h"], [("input_t::load / operator[] / try_access", "ristra/initialization/input.h"), ("lua_t::loadfile", "ristra/embedded/embed_lua.h")], ["values, exceptions, file name"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
