# property -> (module in vf/, level)
CHECKS = {
    "C01": ("atomics", "model_checking"),
    "C02": ("atomics", "model_checking"),
    "C03": ("atomics", "model_checking"),
    "C04": ("atomics", "model_checking"),
    "C05": ("inputs", "model_checking"),
    "C06": ("inputs", "model_checking"),
    "C07": ("inputs", "model_checking"),
    "C08": ("inputs", "model_checking"),
    "C09": ("luasource", "model_checking"),
    "C10": ("args", "model_checking"),
    "C11": ("lua", "model_checking"),
    "C12": ("lua", "model_checking"),
    "C13": ("pybridge", "model_checking"),
    "C14": ("fixedvector", "model_checking"),
    "C15": ("utils", "model_checking"),
    "C16": ("utils", "model_checking"),
    "C17": ("utils", "model_checking"),
    "C18": ("utils", "model_checking"),
    "C19": ("linalg", "model_checking"),
    "C20": ("linalg", "model_checking"),
    "C21": ("linalg", "model_checking"),
    "C22": ("geometry", "model_checking"),
    "C23": ("geometry", "model_checking"),
    "C24": ("elements", "model_checking"),
    "C25": ("elements", "model_checking"),
    "C26": ("elements", "model_checking"),
    "C27": ("dbc", "model_checking"),
    "C28": ("utils", "model_checking"),
    "C29": ("utils", "model_checking"),
}
# property -> (technique, level note)
NOTES = {
    "C01": ("TLA+ models Atomics/AtomicsImpl (refinement checked by TLC); real code run under a deterministic scheduler (all schedules within bounds, adversarial schedules, schedules emitted by TLC); every distinct history checked against Atomics",
            "Every call form of every operation on seven value types, 2-3 threads, bounded preemptions and spurious failures, sequentially consistent interleavings. Trusts the std::atomic/std::mutex stand-ins, TLC and g++."),
    "C02": ("as C01, comparing also every returned value (linearizability of the recorded histories against Atomics.tla)",
            "As C01."),
    "C03": ("TLA+ definitions of the operations (AtomOps.tla); every call form, scheme and value type called on tables of values, each distinct result checked by TLC; mechanism used recorded with the std::atomic stand-in",
            "All call forms; exhaustive or boundary-biased value tables. Trusts TLC, g++."),
    "C04": ("TLA+ message-passing model over the memory orders (MemOrder.tla) checked by TLC; orders of the accesses really made by every call form for every order combination checked against it",
            "All call forms on four value types, all order combinations, with and without failing attempts."),
    "C05": ("TLA+ model of engine, sources and registries (InputEngine.tla) checked with TLC; every transition of its state graph replayed into the real engine along covering walks; long random histories of the real engine checked against the model",
            "Exhaustive for two (name, type) pairs, two values, one engine, with Lua document and hard-coded source present, absent or replaced at every point; random histories over 30 pairs, 2 engines, 5 values. Trusts TLC, g++, Lua and the harness."),
    "C06": ("as C05: behaviours of InputEngine.tla replayed (every transition), recorded histories validated; sources dumped after every call", "As C05."),
    "C07": ("as C05: behaviours of InputEngine.tla replayed (every transition), recorded histories over 30 pairs validated", "As C05."),
    "C08": ("init_value_t part of InputEngine.tla: every transition of the model with one initialization value replayed; recorded histories with three values and four validators validated", "As C05."),
    "C09": ("TLA+ model of the registration maps over an arbitrary nested document (LuaSource.tla) checked with TLC; every transition of the two-name model replayed into lua_source_t; random documents and registration/lookup histories validated against the model",
            "Exhaustive for two names over one nested document; random for nine names and documents of up to 8 tables. Trusts TLC, g++, Lua and the harness."),
    "C10": ("TLA+ definition of reading a command line left to right against a registry (Args.tla), its laws checked by TLC on all short lines; the real parser on every short line over critical alphabets for three registries and on random registries and lines, every outcome (error, presence, values, defaults, what is printed) checked by TLC",
            "All lines up to three tokens (four thorough) over alphabets of 14-15 tokens; random lines up to 11 tokens, registries up to 14 options growing between parses. Trusts TLC, g++, boost only as the implementation under test."),
    "C11": ("TLA+ definition of every conversion (LuaConv.tla), its laws checked by TLC over a small universe; random values, requests, calls and lookups made through the real bridge and seen through the raw Lua API, every one checked by TLC",
            "Random values biased to type boundaries, 28 requested types, tuples, arguments, failing calls. Trusts TLC, g++, Lua and the harness."),
    "C12": ("TLA+ model of globals, heap, handles, wrappers and interpreter object (LuaHandles.tla) checked with TLC; every transition of three bounded instances replayed into the real classes, random and one very long history validated; stack, denoted values and surviving objects observed after every call",
            "Exhaustive for up to 2 globals, 2 objects, 2 handles, 1 wrapper; random for 3 globals, 6 objects, 4 handles, 2 wrappers. Trusts TLC, g++, Lua's collector and the harness."),
    "C13": ("TLA+ model of the interpreter as the host sees it: search path, modules with state, references held, numbers (Python.tla), checked with TLC; every transition of a bounded instance replayed into the real bridge, random histories of good and failing calls validated: results, pending errors, module state, reference counts, memory over repeated failures",
            "Exhaustive for two references, one or two path entries, seven functions, five scripts, every kind of failure; random for three references and argument lists of up to nine values including type boundaries, infinities and NaN. Trusts TLC, g++, CPython and the harness."),
    "C14": ("TLA+ model (FixedVector.tla) checked with TLC; every transition of the model replayed into the real class; recorded random histories checked against the model",
            "Exhaustive for capacity 3 (4 in thorough), two vectors, two values, three element types; random long histories for larger capacities, vectors of up to 70000 elements described as runs (RunSeq.tla). Trusts TLC, g++ and the harness."),
    "C15": ("TLA+ model of views as base, extents and strides, with slices and sections as transitions (ArrayView.tla), its laws checked with TLC; every transition replayed into strided, contiguous and static views; random views up to rank 4 validated: addresses, iteration, all iterator pairs, bounds checks, comparisons",
            "Exhaustive for ranks 1-3 with extents up to 3 and two derivation steps; random for rank 4 and up to five steps. Trusts TLC, g++ and the harness."),
    "C16": ("TLA+ model of a window on foreign elements (ArrayRef.tla) checked with TLC; every transition replayed into array_ref over each container kind and element type, random histories validated; refused calls observed in child processes",
            "Exhaustive for 3 elements (4 thorough), random up to 20. Trusts TLC, g++ and the harness."),
    "C17": ("TLA+ model of the zip iterators (Zip.tla) checked with TLC, every transition replayed; whole loops, length mismatches, filtered, tuple-wise and set-wise traversals on random values checked by TLC against its definitions",
            "Exhaustive for three zipped containers of two elements; random containers up to length 7, tuples up to 5 elements."),
    "C18": ("TLA+ definitions of the helpers (Strings.tla), their laws checked by TLC on all short strings; the real helpers on all short strings over critical alphabets and on random ones, each result checked by TLC",
            "All strings up to length 5 over path/pattern/delimiter alphabets, random byte strings up to 40."),
    "C19": ("TLA+ model of a register of arrays under the element-wise operators (ArrayAlg.tla) and definitions of the vector functions (VecMath.tla), their laws checked with TLC; every transition replayed into six array types, random histories and random vector calls validated",
            "Exhaustive for two arrays of two small elements; random for six types, element magnitudes up to thousands, and vector functions in dimensions 1-7."),
    "C20": ("TLA+ model ArrayAlg.tla checked with TLC; every transition replayed into multi-dimensional arrays and matrices of five kinds, random histories validated",
            "Exhaustive for two small arrays; random for five types and shapes."),
    "C21": ("TLA+ definitions of the matrix functions (Matrix.tla), the laws of linear algebra checked with TLC on all small matrices; the real functions called on random integer matrices of many shapes and types, every result checked by TLC (inverses times the determinant)",
            "Random matrices up to 5x5, four element types; laws of the definitions exhaustive for 2x2 pairs and all 3x3 with entries -1..1."),
    "C22": ("TLA+ definitions of areas, normals and centroids of figures with integer coordinates (Geometry.tla), their invariances checked with TLC on all small polygons; the real functions, every overload and container, called on random simple polygons, each result (scaled to an integer) checked by TLC",
            "Random polygons of 3-8 vertices in the plane and in planes of space, float and double; invariances of the definitions exhaustive on small grids. Trusts TLC, g++ and the harness."),
    "C23": ("TLA+ model of a polyhedron built face by face (Body.tla) checked with TLC, every transition replayed into the real class; random tetrahedra, hexahedra (warped ones included), boxes and polyhedra in all renumberings validated against the exact volume and centroid",
            "Exhaustive for the face orders and orientations of small bodies; random bodies otherwise. Trusts TLC, g++ and the harness."),
    "C24": ("TLA+ definitions of the shape functions in exact integer arithmetic (Elements.tla), the interpolation laws checked with TLC on a grid that determines polynomials of these degrees; the real elements evaluated on the whole grid and at random rational points, every value, derivative and position checked by TLC",
            "All seven fixed elements on the full 7^d grid (3^4 for the tesseract) plus random points, arbitrary-order elements on random rational nodes up to order 6 and Chebyshev nodes up to order 12. Trusts TLC, g++ and the harness."),
    "C25": ("TLA+ model of a tensor rule enumerated point by point (Quadrature.tla) checked with TLC; all rules of all orders recorded and validated: moments in two-limb exact arithmetic, every tensor point named once",
            "All orders 1-8 in 1, 2 and 3 dimensions, orders 1-5 (8 in thorough) in 4 dimensions; moments to 4e-13."),
    "C26": ("TLA+ definitions of Jacobian, determinant and inverse (Matrix.tla), laws checked with TLC on all small matrices; real Jacobians and inverses of random integer geometries and of affine images of every element checked by TLC",
            "Random vertices and partials in 2, 3 and 4 dimensions; all elements under random affine maps."),
    "C27": ("TLA+ model of a program of contract checks in one build configuration (Dbc.tla) checked with TLC; the real macros compiled in eight configurations, all small argument tuples on four types and random programs validated against the model",
            "All macros, arguments in 0..3, four value types, configurations throw/notify/nothing/replaced x on/off x exceptions on/off. Trusts TLC, g++ and the harness."),
    "C28": ("TLA+ definition of what each trait asks of a type given as a set of members, call signatures and index types (Traits.tla), its laws checked with TLC on types built member by member; the real traits asked about a type with every subset of the 11 container members, of the iterator members, of six call signatures and of the index operators, and about library types; every answer checked by TLC",
            "All 2048 + 32 + 64 x 16 generated types, 11-spelling tables over eight base types, random values for the value helpers. Trusts TLC, g++ (the traits are evaluated by it)."),
    "C29": ("TLA+ model of input objects into which files of assignments, removals and errors are loaded (InputFile.tla) checked with TLC; every transition of two bounded instances replayed into the process-wide and an own input_t, random histories validated; after every call both objects are read in every way",
            "Exhaustive for files of up to two statements over two names with three values (numbers, tables, removals), errors in the middle, unparsable and missing files; two objects with one-statement files; random for four names and files of five statements. Trusts TLC, g++, Lua and the harness."),
}
