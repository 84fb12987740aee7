NOTE = ("Seeded sampling of schedules, fault placements and histories on the real library code; a clean run is evidence, not proof. Trusts "
        "the simulator runtime, gcc's instrumentation and the reference model of the scenario.")
PROPS = [
 dict(id="C01", title="Array storage lives exactly as long as references to it, in any interleaving",
      statement="However threads interleave copying, moving, viewing, reading and releasing references to shared arrays, and whichever "
                "allocations fail meanwhile, an array's contents stay readable and unchanged as long as any reference to it exists, no "
                "storage is used after release or released twice, and everything is released once the last reference goes away. Reading "
                "an array from several threads at once needs no locking.",
      over=["schedules", "fault_sequences", "histories"],
      quant="every interleaving of up to 4 threads, every placement of allocation failures, every history of reference operations",
      why="The unit tests are single-threaded and inject no failures; a lost reference-count update, an early release or a leak on an "
          "error path needs a particular preemption or a particular failing allocation.",
      files=["include/dynd/config.hpp", "include/dynd/buffer.hpp", "include/dynd/memblock/base_memory_block.hpp",
             "include/dynd/memblock/buffer_memory_block.hpp", "src/dynd/array.cpp", "docs/ndarray.md"],
      mech=[("atomic use counts in memory blocks", "include/dynd/memblock/base_memory_block.hpp"),
            ("intrusive_ptr copy, move and assignment", "include/dynd/config.hpp"),
            ("arrmeta construction and destruction of an array's buffer", "include/dynd/memblock/buffer_memory_block.hpp")],
      observe=["contents read through every reference", "live blocks at the end of a run", "accesses to released memory"],
      note=NOTE, check=dict(plans=30000, seconds=40, probes=["external wrap failed", "sliced", "took a shared reference"])),
 dict(id="C02", title="Views alias exactly the elements they select, and owners outlive every view",
      statement="Indexing, slicing (negative bounds and steps included), permuting, transposing, rotating, adding axes, reinterpreting and "
                "reshaping an array give views of exactly the selected elements in the right order: a write through one view is visible "
                "through every overlapping one and nowhere else; copies (eval_copy, concatenate, reshape of a layout that is not C-ordered) "
                "share nothing. Bad indices and permutations are refused. External memory is released exactly once, after the last view of it. "
                "Operations that fail because an allocation fails change nothing; threads owning disjoint parts of one array do not disturb each other.",
      over=["schedules", "fault_sequences", "histories"],
      quant="histories of up to 30 view operations over arrays of 0..4 dimensions by up to 4 threads, every placement of allocation failures",
      why="Wrong strides or offsets need compositions of several view operations; premature or missing release of an owner needs a failing "
          "allocation or a particular order of release among threads.",
      files=["src/dynd/array.cpp", "src/dynd/shape_tools.cpp", "src/dynd/types/fixed_dim_type.cpp", "include/dynd/irange.hpp",
             "include/dynd/memblock/external_memory_block.hpp", "src/dynd/view.cpp"],
      mech=[("apply_linear_index builds the arrmeta of a view", "src/dynd/types/fixed_dim_type.cpp"),
            ("irange normalisation", "src/dynd/shape_tools.cpp"), ("permute, rotate, new_axis, reshape", "src/dynd/array.cpp"),
            ("external_memory_block runs the free function", "include/dynd/memblock/external_memory_block.hpp")],
      observe=["elements read through every view", "runs of the owner's free function", "thrown errors"],
      note=NOTE, check=dict(plans=60000, seconds=35, probes=["bad index", "empty slice", "external", "negative step", "permuted",
                                                             "reshape of a non-contiguous view", "threads own rows of one array", "unsuitable view",
                                                             "view assigned to view", "viewed a var dimension", "viewed as a type", "written as other elements",
                                                             "viewed as bytes and back"])),
 dict(id="C03", title="Nested and out-of-line values stay whole through copies, views and failures",
      statement="Arrays of any nesting of fixed and var dimensions, tuples, structs, options, strings, bytes and scalars (of any length, "
                "more than one chunk of elements and more than eight fields included) hold the values given to them: indexing, slicing "
                "(of dimensions and of the fields of a record), taking one position of every row, and field access give the selected part or refuse a bad index, eval_copy and assignment to a new array give an equal array that shares nothing, "
                "assignment in place changes exactly the target, parsing from JSON gives the values written in the text. Strings and "
                "bytes can be appended to, resized, reserved and cleared in place. The storage of out-of-line parts is allocated, moved and "
                "released exactly once whoever holds the last reference. If an allocation fails the operation fails cleanly: "
                "sources and other arrays are unchanged, every element of the target is old or new, nothing leaks.",
      over=["schedules", "fault_sequences", "histories"],
      quant="random types up to 3 levels deep, values up to hundreds of elements, histories of up to 30 operations by up to 4 threads, every placement of allocation failures",
      why="The tests build a handful of small nested values; growth of the memory blocks, chunk boundaries and half-built values only show with "
          "long var dimensions or with an allocation failing midway.",
      files=["include/dynd/memblock", "src/dynd/types/var_dim_type.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/types/struct_type.cpp",
             "include/dynd/types/sso_bytestring.hpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/callables/assign_callable.hpp",
             "src/dynd/json_parser.cpp"],
      mech=[("memory blocks of var dims grow and destruct their elements", "include/dynd/memblock/objectarray_memory_block.hpp"),
            ("string storage, inline and on the heap", "include/dynd/types/sso_bytestring.hpp"),
            ("assignment kernels of tuples, structs, options", "include/dynd/callables/assign_callable.hpp"),
            ("arrmeta construction of nested types", "src/dynd/types/tuple_type.cpp")],
      observe=["every element of every live array after every operation", "live blocks at the end", "thrown errors"],
      note=NOTE, check=dict(plans=24000, seconds=45, probes=["assigned in place", "copied", "parsed", "resized a string in place", "set a scalar",
                                                             "took a part", "position of every row", "rows that start later", "sliced", "refused slice", "shape", "slice outlives the whole", "pointers outlive the whole"])),

 dict(id="C04", title="Elementwise operations broadcast correctly and give C++ results",
      statement="Elementwise arithmetic, bitwise, shift, logical, comparison and unary operations on scalars and on arrays of any mix of fixed, "
                "var and size-one dimensions give, element by element, the value and type of the C++ operation (comparisons in the common type, "
                "missing if an operand is missing), broadcast by the rules: size-one and missing dimensions repeat, equal sizes pair up, everything "
                "else is refused; the result is a var dimension only where var and size-one dimensions meet. Division by an integer zero, "
                "unsupported types and unsuitable destinations are errors. A given destination (of more dimensions, var dimensions unset or set, views, "
                "or one of the operands) receives the same values. Operands never change; a failed call leaves each element of a destination "
                "old or new and releases what it took. Any number of threads may use the same functions and operands at once.",
      over=["schedules", "fault_sequences", "histories"],
      quant="operands of 0..3 dimensions over 11 numeric types and options, sizes 0..150, strided and reversed views, chained operations by up to 4 threads, every placement of allocation failures",
      why="The tests use a few shapes; stride and offset mistakes in one of the three kernels per dimension kind, in the choice between them, "
          "and leaks or torn results on failure need particular combinations of shapes and failures.",
      files=["include/dynd/callables/elwise_dispatch_callable.hpp", "include/dynd/callables/base_elwise_callable.hpp",
             "include/dynd/callables/elwise_callable.hpp", "include/dynd/kernels/elwise_kernel.hpp", "include/dynd/kernels/arithmetic.hpp",
             "include/dynd/binary_arithmetic.hpp", "include/dynd/comparison_common.hpp", "include/dynd/callables/forward_na_callable.hpp"],
      mech=[("choice of the kernel per dimension", "include/dynd/callables/elwise_dispatch_callable.hpp"),
            ("broadcast rules", "include/dynd/callables/base_elwise_callable.hpp"),
            ("loops over fixed and var dimensions", "include/dynd/kernels/elwise_kernel.hpp"),
            ("missing values", "include/dynd/kernels/forward_na_kernel.hpp")],
      observe=["every element and the type of every result", "operands after every call", "thrown errors", "live blocks at the end"],
      note=NOTE, check=dict(plans=12000, seconds=40, probes=["failed into a destination", "failed while computing", "in place", "into a destination",
                                                             "missing values", "ragged result", "unsuitable destination", "refused"])),
 dict(id="C05", title="Reductions fold exactly the chosen axes of any array, each element once",
      statement="sum, max, min, all, serialize (the bytes of the elements, one after the other) and reductions made from user functions give, for every element of the result, the identity folded "
                "with exactly the elements along the reduced axes, each once and in order: over all axes or any subset of them, with kept axes "
                "or without, of fixed dimensions of any size (0 and 1 included), of a ragged innermost var dimension, of scalars, of strided, reversed "
                "and permuted views, and over two arguments of the same shape. The result has the remaining dimensions and the function's own "
                "element type; a destination of exactly this type receives it, others are refused, as are unknown keywords, axes of "
                "another type, arguments of different shapes and var dimensions that would be kept. Operands never change. If an allocation or "
                "the user's function fails, the call fails with that error and releases what it took. Threads may share functions and operands.",
      over=["schedules", "fault_sequences", "histories"],
      quant="arrays of 0..4 dimensions over 11 element types, all subsets of axes, up to 4 threads, every placement of allocation failures and of exceptions thrown by the user's function",
      why="The tests reduce a few small arrays; first-call and follow-up loops, empty dimensions, kept axes and their strides multiply into many "
          "combinations, and a throwing user function or allocation only shows up under injection.",
      files=["include/dynd/callables/reduction_callable.hpp", "include/dynd/callables/base_reduction_callable.hpp",
             "include/dynd/kernels/reduction_kernel.hpp", "include/dynd/kernels/reduction_kernel_prefix.hpp",
             "include/dynd/callables/constant_callable.hpp", "src/dynd/functional.cpp", "src/dynd/sum.cpp", "src/dynd/statistics.cpp", "src/dynd/logic.cpp"],
      mech=[("which kernel handles each dimension", "include/dynd/callables/base_reduction_callable.hpp"),
            ("first call and follow-up loops", "include/dynd/kernels/reduction_kernel.hpp"),
            ("axes, kept dimensions and destinations", "include/dynd/callables/reduction_callable.hpp")],
      observe=["every element and the type of every result", "operands and refused destinations", "thrown errors", "live blocks at the end"],
      note=NOTE, check=dict(plans=20000, seconds=35, probes=["a user function", "into a destination", "ragged", "refused", "serialized", "some axes",
                                                             "unsuitable destination"])),
 dict(id="C06", title="Conversions between element types lose nothing the error mode forbids losing",
      statement="Assigning an array to one of another element type (bool, integers, floats, options of them, strings, fixed strings), through assign, "
                "nd::assign with an error mode or as<T>(), broadcasting and through any strided or reversed view, gives every element the value C++ conversion "
                "gives it, or is refused: in the checking modes integers outside the range, NaN, infinities and floats outside [min, max] of the integer, "
                "anything but 0 and 1 for bool, finite numbers beyond float32, with fractional (the default of assign and as) also fractions to integers, "
                "with inexact also every rounding; number, bool and missing-value text is accepted exactly when it is one of these and in range; a missing value "
                "becomes a missing value or is refused. Text longer than a fixed string is refused. After a refusal every element is either its old or its "
                "new value; unsupported pairs of types and shapes are refused before anything changes. Sources never change, failing "
                "allocations leave nothing behind, and threads may convert from one source at once.",
      over=["schedules", "fault_sequences", "histories"],
      quant="pairs of 25 element types, 5 error modes, values at and around every limit, arrays of 0..4 dimensions and views of them, up to 4 threads, every placement of allocation failures",
      why="The conversion tables have hundreds of cells and each has its own limits; tests sample a few values and never fail an assignment in the middle of "
          "an array, under a failing allocation or next to another thread.",
      files=["include/dynd/assignment.hpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/callables/assign_callable.hpp", "src/dynd/assignment.cpp",
             "include/dynd/parse_util.hpp", "src/dynd/parse_util.cpp", "src/dynd/option.cpp", "include/dynd/kernels/is_na_kernel.hpp"],
      mech=[("checked casts of each error mode", "include/dynd/assignment.hpp"),
            ("text to numbers", "include/dynd/parse_util.hpp"),
            ("which kernel converts which pair", "include/dynd/callables/assign_callable.hpp")],
      observe=["every element of the destination", "sources", "refusals", "live blocks at the end"],
      note=NOTE, check=dict(plans=9000, seconds=40, probes=["a value is refused", "as", "between numbers", "broadcast", "from text", "options", "unsupported"])),
 dict(id="C07", title="User functions keep their meaning and state however they are lifted and shared",
      statement="A function of the user (lambda, functor, function pointer, member function, function with keywords, function object constructed from "
                "keywords, function writing through a return_wrapper, function of whole arrays, rows or records) wrapped as a callable gives the value it gives in C++ when called with arguments of its types, "
                "keywords by name in any order or by position; lifted by elwise it is applied to every broadcast element, also without a result (and told its position if it asks for an nd::state), by outer to every combination "
                "of elements, by compose through the intermediate type, by forward_na with missing arguments giving missing results, as left or right compound "
                "combining the destination with the argument; constant always gives its value. Wrong counts or types of arguments, missing, unknown, repeated or "
                "mistyped keywords, destinations of another type or shape, and functions that do not fit together are refused before the function runs. An error "
                "of the function ends the call with that error and leaves each element of a destination old or new. What a function captured lives exactly as "
                "long as any callable made from it, whichever thread drops the last one and whichever allocation fails.",
      over=["schedules", "fault_sequences", "histories"],
      quant="11 functions of elements under every combinator and 6 of arrays, arguments of 0..2 dimensions, 12 keyword forms, histories of up to 20 operations by up to 4 threads, every placement of allocation failures and of exceptions thrown by the function",
      why="The tests call each combinator once with good arguments; stateful functions shared by threads, exceptions half-way through an array, refused forms of a "
          "call and the release of captured state on error paths are never exercised.",
      files=["src/dynd/callable.cpp", "include/dynd/functional.hpp", "src/dynd/functional.cpp", "include/dynd/kernels/apply.hpp",
             "include/dynd/kernels/apply_callable_kernel.hpp", "include/dynd/kernels/apply_member_function_kernel.hpp",
             "include/dynd/kernels/construct_then_apply_callable_kernel.hpp", "include/dynd/callables/outer_callable.hpp",
             "include/dynd/callables/compose_callable.hpp", "include/dynd/callables/forward_na_callable.hpp", "include/dynd/callables/compound_callable.hpp",
             "src/dynd/types/ellipsis_dim_type.cpp", "src/dynd/types/dim_fragment_type.cpp"],
      mech=[("matching of arguments, keywords and destinations", "src/dynd/callable.cpp"),
            ("kernels that call the function", "include/dynd/kernels/apply_callable_kernel.hpp"),
            ("combinators", "src/dynd/functional.cpp"), ("ownership of kernels and functions", "include/dynd/kernels/kernel_builder.hpp")],
      observe=["results and destinations", "errors that come out of calls", "releases of captured memory", "arguments after every call", "live blocks at the end"],
      note=NOTE, check=dict(plans=24000, seconds=40, probes=["a refused call", "told its place", "told its place in var dimensions", "without a result", "a function of rows, lifted", "a function of a record", "a function fills a destination", "composed", "constant", "given to another thread", "into a destination", "keywords",
                                                             "lifted", "missing values", "outer", "the function failed"])),
 dict(id="C08", title="JSON text becomes exactly the value it denotes, or is refused without harm",
      statement="Parsing JSON text against a type (numbers of any kind, booleans, strings, options, fixed and var dimensions, structs given as objects or lists, nested) "
                "gives exactly the value the text denotes: every digit, escape, surrogate pair, order of fields and missing optional field counts. Text that is truncated, "
                "damaged, not valid UTF-8, out of the range of the type, of the wrong length or that lacks a required field is refused with a parse error naming a line and column inside the "
                "text and showing that place; nothing outside the text is read, nothing is leaked, and a destination refused half-way stays a valid array that can be parsed into again. "
                "Validation alone accepts exactly well-formed JSON. Formatting gives JSON that parses back to the same value, running out of memory is reported and never "
                "shortens the text, and threads may parse the same text at the same time.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="every text generated for random nested types, each cut or with flipped bytes anywhere, every placement of allocation failures, up to 4 threads parsing shared texts",
      why="The tests parse about forty literal strings. Truncation at every byte, damage, memory failing between two elements, refused text over an existing value and "
          "several threads in the parser are never tried.",
      files=["src/dynd/json_parser.cpp", "src/dynd/json_formatter.cpp", "src/dynd/parse_util.cpp", "include/dynd/parse_util.hpp", "include/dynd/kernels/parse_kernel.hpp",
             "include/dynd/callables/parse_callable.hpp", "src/dynd/string_encodings.cpp"],
      mech=[("recursive parser over type, arrmeta and data", "src/dynd/json_parser.cpp"), ("tokens, numbers and escapes", "src/dynd/parse_util.cpp"),
            ("formatter", "src/dynd/json_formatter.cpp"), ("kernels of nd::json::parse", "include/dynd/kernels/parse_kernel.hpp")],
      observe=["parsed values", "refusals and their positions", "formatted text", "accesses outside the text", "live blocks at the end"],
      note=NOTE, check=dict(plans=30000, seconds=40, probes=["refused a text", "again after a fault", "a text shared by the threads", "a text as long as the buffer", "parsed", "parsed in place",
                                                             "in place, refused", "validated", "formatted", "round trip", "parsed by a kernel"])),
 dict(id="C09", title="Datashape text denotes one type, printed back the same, or is refused",
      statement="Parsing a datashape (scalars, strings and bytes with sizes, encodings and alignments, options, pointers, fixed, var, symbolic and typevar dimensions, powers, "
                "ellipses, tuples, structs with quoted names, variadics, function types with keywords, nested; any spelling of white space, comments, aliases and trailing commas) "
                "gives exactly the type the text denotes; damaged or truncated text is refused with an error naming a place inside the text, sizes out of range and mismatched "
                "brackets included, and nothing outside the text is read. A type prints as the one text that parses back to an equal type; types are equal exactly when their texts "
                "are, and types built by constructors equal the parsed ones. Number of dimensions, element types, fields, names, field indices, arguments, keywords, "
                "sizes and alignments are those of the text. A failing stream gets a prefix of the text and reports it; running out of memory is reported and never "
                "truncates a text, and the same call succeeds afterwards. Threads may parse, print and share types at once, the very first use included; types live "
                "until their last user is gone.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="random types up to 4 levels deep in random spellings, each cut or with flipped bytes anywhere, streams failing at every byte, every placement of allocation failures, up to 4 threads from the first use on",
      why="The tests parse about a hundred fixed strings in one thread. Damage at every byte, memory failing anywhere inside the parser or the printer, streams that fail, and threads racing "
          "to the lazily built tables are never tried.",
      files=["src/dynd/types/datashape_parser.cpp", "src/dynd/parse_util.cpp", "include/dynd/parse_util.hpp", "src/dynd/type.cpp", "include/dynd/type.hpp", "src/dynd/type_registry.cpp",
             "src/dynd/types/struct_type.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/types/callable_type.cpp", "src/dynd/types/pow_dimsym_type.cpp",
             "src/dynd/types/fixed_string_type.cpp", "src/dynd/types/fixed_bytes_type.cpp", "src/dynd/types/bytes_type.cpp", "src/dynd/types/char_type.cpp",
             "src/dynd/types/option_type.cpp", "src/dynd/types/pointer_type.cpp", "src/dynd/types/typevar_type.cpp"],
      mech=[("recursive descent over the grammar", "src/dynd/types/datashape_parser.cpp"), ("print_type of every type", "src/dynd/types/struct_type.cpp"),
            ("reference counts of types", "include/dynd/type.hpp"), ("names of type constructors", "src/dynd/type_registry.cpp")],
      observe=["the parsed type through its accessors", "printed text", "refusals and their places", "accesses outside the text", "live blocks at the end"],
      note=NOTE, check=dict(plans=60000, seconds=40, probes=["parsed", "refused a text", "an error with its place in the text", "again after a fault", "a text shared by the threads", "made",
                                                             "printed", "the stream failed", "compared", "equal", "layout", "fields", "function types", "round trip", "from another thread"])),
 dict(id="C10", title="Patterns match exactly the types they describe and substitute exactly",
      statement="A type pattern (kinds like Int, Bytes, FixedString, Scalar, Any, Fixed, Dim; type, dimension, constructor and exponent variables; ellipses with and without a name; powers; "
                "variadic tuples, structs and function types; any nesting) matches a concrete type exactly when the variables can be given one value each such that the pattern "
                "denotes that type, ellipses of one name broadcasting their dimensions; matching yields exactly these variables and values, over one pair or several matched in order, and neither changes "
                "the pattern nor the type. Substituting variables gives exactly the pattern with every bound variable replaced and everything else kept; with a concrete result demanded it gives a type "
                "without symbols or is refused. A function with a pattern as its signature accepts exactly arguments (and a destination) that match, and its result has the type the variables "
                "give to its return type. Refusals are invalid_argument or type errors, running out of memory is reported and the same call succeeds afterwards; threads may match, "
                "substitute and call with shared types and functions at once.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="random types up to 4 levels deep, patterns abstracted from them or from their neighbours, sequences of up to 3 pairs over common variables, every placement of allocation failures, up to 4 threads",
      why="The tests match about a hundred fixed pairs, mostly one variable at a time. The interplay of several variables, powers, ellipses and nested records, the values bound, substitution "
          "into incomplete patterns, memory failing in the middle of a match and threads sharing types are never tried.",
      files=["src/dynd/types/substitute_typevars.cpp", "src/dynd/types/typevar_type.cpp", "src/dynd/types/typevar_dim_type.cpp", "src/dynd/types/ellipsis_dim_type.cpp",
             "src/dynd/types/pow_dimsym_type.cpp", "src/dynd/types/dim_fragment_type.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/types/tuple_type.cpp",
             "src/dynd/types/callable_type.cpp", "src/dynd/types/typevar_constructed_type.cpp", "src/dynd/types/fixed_dim_kind_type.cpp", "src/dynd/types/dim_kind_type.cpp",
             "src/dynd/types/scalar_kind_type.cpp", "src/dynd/callable.cpp", "include/dynd/callable.hpp"],
      mech=[("match() of every type", "src/dynd/types/ellipsis_dim_type.cpp"), ("replacing variables", "src/dynd/types/substitute_typevars.cpp"),
            ("broadcasting of tagged dimensions", "src/dynd/types/dim_fragment_type.cpp"), ("checking of arguments", "src/dynd/callable.cpp")],
      observe=["whether a pair matches", "the variables and their values", "the substituted type", "accepted and refused calls and the type of their results"],
      note=NOTE, check=dict(plans=60000, seconds=40, probes=["matched", "did not match", "substituted", "substitution refused", "variable bound to something symbolic", "called", "a call was refused", "again after a fault",
                                                             "types shared by the threads"])),
 dict(id="C11", title="Overloads and registered functions are found exactly, and added all or nothing",
      statement="A call of a function of overloads (one or two arguments dispatched on, however many overloads, added at construction or later, in any order) runs an overload whose argument types "
                "match the call such that no other matching overload is more specific, and is refused with out_of_range when none matches. Two overloads that can both match a call, neither being more specific and "
                "none being more specific than both, are refused with runtime_error. The registry gives for every path exactly what was registered under it, as a function or a namespace, iterates names in order, "
                "and every entry's own path is the one it is found at; unknown, empty or overlong paths are refused with invalid_argument and a second entry of one name with runtime_error; observers are "
                "told once about every insertion; copies are independent. A refused, failed (memory, an exception of the dispatch function) or observed insertion leaves all other entries as they were, "
                "and the same call succeeds afterwards. Threads may call and look up shared functions and registries at once, the first use of the library's registry included.",
      over=["inputs", "histories", "fault_sequences", "schedules"],
      quant="random sets of up to about 10 overloads over 60 type patterns in every order, random registries and sequences of insertions, failing allocations anywhere, failing dispatch functions and observers, up to 4 threads",
      why="The tests of multidispatch are commented out and those of the registry look up a dozen names. Which of several overloads wins in which order of insertion, refused insertions, failures "
          "in the middle of one and threads are never tried.",
      files=["include/dynd/dispatcher.hpp", "include/dynd/callables/multidispatch_callable.hpp", "include/dynd/callables/base_dispatch_callable.hpp", "include/dynd/registry.hpp", "src/dynd/registry.cpp",
             "include/dynd/callable.hpp", "src/dynd/callable.cpp"],
      mech=[("overloads sorted from specific to general", "include/dynd/dispatcher.hpp"), ("dispatch on argument types", "include/dynd/callables/base_dispatch_callable.hpp"),
            ("a tree of named entries", "include/dynd/registry.hpp")],
      observe=["which overload runs", "refused sets and calls", "what is found under every path, before and after failed insertions", "what observers are told"],
      note=NOTE, check=dict(plans=60000, seconds=35, probes=["overloads accepted", "ambiguous overloads refused", "called", "looked up", "no overload for the call", "added to a function", "again after a fault",
                                                             "shared by the threads", "inserted", "a second entry of one name was refused", "an unknown name was refused", "looked up by path",
                                                             "observers told", "an observer failed", "copied", "shared registries", "the registry of the library"])),
 dict(id="C12", title="String and bytes values and functions of text behave as plain sequences of bytes",
      statement="After any sequence of constructing, assigning, moving, swapping, appending, concatenating, resizing, reserving, clearing and writing, also from (a part of) the object itself, a string or bytes "
                "value has exactly the bytes of the same sequence on a plain byte vector; strings end in a NUL behind their last byte, size, begin, end, data and capacity agree, growth within the capacity never "
                "allocates, moves the bytes or fails, and appending grows memory geometrically. Comparisons are lexicographic over unsigned bytes. string_concatenation, count, find, rfind, replace, split, "
                "startswith, endswith, contains and the comparisons give, elementwise with broadcasting, what the naive left-to-right search without overlaps gives (an empty needle is found nowhere), "
                "into a new array, a given destination or an operand itself; other operands keep their contents. When memory runs out a value is unchanged, an element of a destination is its old or its "
                "new text, nothing leaks, and the call succeeds once memory is back. Threads may read shared values and arrays at once.",
      over=["inputs", "histories", "fault_sequences", "schedules"],
      quant="sequences of up to 30 operations over texts of 0 to 400 bytes around the inline/heap boundary, patterns with overlaps and bytes past ASCII, nested fixed and var dimensions, failing allocations anywhere, up to 4 threads",
      why="The tests use a dozen literals: no text at the boundaries of the inline form, no aliasing, no repeated append, no haystack with adjacent or overlapping matches, no failing allocation.",
      files=["include/dynd/types/sso_bytestring.hpp", "include/dynd/types/string_type.hpp", "include/dynd/bytes.hpp", "include/dynd/string.hpp", "include/dynd/string_search.hpp", "src/dynd/string.cpp",
             "include/dynd/kernels/string_split_kernel.hpp", "include/dynd/kernels/string_replace_kernel.hpp", "include/dynd/kernels/string_concat_kernel.hpp", "src/dynd/types/string_type.cpp"],
      mech=[("inline and heap representation of byte strings", "include/dynd/types/sso_bytestring.hpp"), ("fast search", "include/dynd/string_search.hpp"),
            ("functions of text", "include/dynd/string.hpp"), ("lifted over arrays", "src/dynd/string.cpp")],
      observe=["size, capacity, bytes and terminator after each operation", "allocations and moves within the capacity", "results and destinations, after failures too", "operands afterwards"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["a part of itself", "added to itself", "appended within the capacity", "failed into a destination", "failed while computing", "in place", "onto a source",
                                                             "into a destination", "refused", "replaced", "split", "unsuitable destination"])),
dict(id="C13", title="Sorting, searching, taking and ranges keep and find the right elements",
      statement="nd::sort puts a one-dimensional array of numbers, bools or strings into ascending order in place, through any stride or direction, and touches nothing else; whatever fails during it, the array is "
                "left a permutation of its elements (NaN included), and sorting again succeeds. nd::binary_search in an ascending array gives a position that holds the value, or -1 exactly if no element equals it; in an array "
                "that is not ascending any position it gives still holds the value. nd::take with a mask gives exactly the elements whose mask is true, in order; with positions (negative ones count from the end) exactly "
                "the elements there, and an error for a position outside. functional::where gives exactly the ascending positions for which the predicate holds, all_equal whether all elements of two equally "
                "shaped arrays are equal, total_order whether one value comes before another; nd::range, old_range and old_linspace have exactly the elements start + i * step before stop (up to rounding that does not add up). Unsuitable arguments are refused by an exception. "
                "Sources never change, nothing leaks, a call works again after any failure, and threads may use shared sources at once.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="arrays of 0 to 80 elements of 13 types, ordered, reversed and random, with ties, NaN, 0.0 and -0.0, strided and reversed views, elements with nested dimensions, strings and records to take; failing allocations and predicates; up to 4 threads",
      why="The tests sort two small arrays, search one, take from one by mask; none has empty or strided inputs, a duplicate, a failure or threads.",
      files=["include/dynd/kernels/sort_kernel.hpp", "include/dynd/kernels/binary_search_kernel.hpp", "include/dynd/kernels/take_kernel.hpp", "include/dynd/kernels/range_kernel.hpp",
             "include/dynd/callables/take_dispatch_callable.hpp", "include/dynd/callables/range_callable.hpp", "include/dynd/kernels/where_kernel.hpp", "src/dynd/array_range.cpp", "include/dynd/kernels/all_equal_kernel.hpp"],
      mech=[("sorting by a comparison kernel", "include/dynd/kernels/sort_kernel.hpp"), ("search", "include/dynd/kernels/binary_search_kernel.hpp"), ("masked and indexed take", "include/dynd/kernels/take_kernel.hpp"),
            ("ranges", "include/dynd/callables/range_callable.hpp")],
      observe=["the array after a sort, whole and failed", "what lies between the elements of a view", "positions, elements and types of results", "sources after every call"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["a sort failed", "by a decimal step", "an index was out of bounds", "compared as a whole", "evenly spaced", "found", "not found", "positions found", "refused", "sorted",
                                                             "sorted strings", "sorted through a view", "taken by a mask", "taken by positions", "a range", "a range of C++ values"])),
dict(id="C14", title="Printing an array shows its elements exactly, and reports failing streams",
      statement="Writing an array to a stream gives array(<data>,\n      type=\"<type>\"), whatever its shape, strides and types. The data shows elements in their order, each with its exact text (True/False, shortest "
                "%g text of floats, whole integers of every size and sign, quoted and escaped strings and characters, hexadecimal bytes, NA for a missing value, [..] for records and dimensions). A dimension may leave "
                "out elements only in one gap that is marked by ..., is neither at its start nor at its end, and only if it has more than ten elements or its elements are dimensions or hold them; everything before and behind "
                "the gap is shown. A part of an array (slice, element, field) prints as exactly that part, a null array as array(). A stream that fails part way gets a prefix of the text and is bad (or throws) "
                "afterwards. Printing and debug_print change nothing and leak nothing, also when memory runs out, work again after that, and threads may print shared arrays at once.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="arrays of every kind of element (13 numbers, strings, bytes, options, tuples, structs, complex, type, char) in up to four fixed and var dimensions of up to 200 elements, slices, reversed and single elements of them; streams that fail or throw after n bytes, failing allocations, up to 4 threads",
      why="The tests print a few scalars and small arrays; none has a gap, several lines, a failing stream or threads.",
      files=["src/dynd/type.cpp", "src/dynd/array.cpp", "src/dynd/types/fixed_dim_type.cpp", "src/dynd/types/var_dim_type.cpp", "src/dynd/types/option_type.cpp", "src/dynd/types/bytes_type.cpp",
             "src/dynd/types/tuple_type.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/buffer.cpp"],
      mech=[("summarizing a dimension", "src/dynd/type.cpp"), ("operator<<", "src/dynd/array.cpp"), ("text of strings and bytes", "src/dynd/string_encodings.cpp")],
      observe=["the text, read back against a model of the array", "what reached a failing stream and the state of the stream", "the arrays after printing", "leaks, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["described", "left out the middle", "printed", "printed a part", "printed again after memory ran out", "several lines", "special types", "the stream failed"])),
dict(id="C15", title="Missing values are set, seen and passed on exactly, and never invented",
      statement="For every array of optional bool, integer (signed and unsigned, 8 to 64 bits) or float elements in fixed and var dimensions or record fields, seen through any slice, element or field: nd::is_na gives an array of the same "
                "dimensions that is true exactly where the element is missing (into a given destination too), array::is_na of an element says the same. assign_na makes every element of the part it is called on missing and changes nothing else; when it "
                "fails each element is as before or missing, and calling it again works. Assigning options to options keeps exactly the missing elements missing and the others their value; assigning them to plain values throws "
                "if and only if one is missing, and assigning plain values to options makes nothing missing. a + b and a < b are missing exactly where an operand is. Threads may read shared arrays, and set and reset disjoint rows of one array, at once.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="11 element types, up to three fixed and var dimensions of 0 to 6 elements, structs of options, slices with steps 1, 2, 3, -1, -2, permuted and strided operands, every conversion among the types; failing allocations, up to 4 threads",
      why="The tests set and see a few scalars and one or two small arrays of int and double options; no unsigned, var, strided or field case, no failure, no threads.",
      files=["src/dynd/option.cpp", "include/dynd/option.hpp", "include/dynd/kernels/is_na_kernel.hpp", "include/dynd/kernels/assign_na_kernel.hpp", "include/dynd/callables/is_na_callable.hpp", "include/dynd/callables/assign_na_callable.hpp",
             "src/dynd/types/option_type.cpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/callables/forward_na_callable.hpp"],
      mech=[("dispatch by type and dimension", "src/dynd/option.cpp"), ("is_na kernels", "include/dynd/kernels/is_na_kernel.hpp"), ("assign_na kernels", "include/dynd/kernels/assign_na_kernel.hpp")],
      observe=["the bools is_na gives", "every element of the whole array after a change of a part of it", "errors", "leaks, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["a single element", "calculated", "from values", "in var dimensions", "into a destination", "own rows", "refused to store a missing value", "seen", "set", "set after a failure",
                                                             "set in a part", "to other options", "to values"])),
dict(id="C16", title="In-place arithmetic changes exactly its target; equals_exact tells arrays apart",
      statement="a += b and a /= b, for integer and float arrays (or parts of arrays) of any fixed and var dimensions, replace each element x of a by what C++ gives for x + y or x / y, converted to its type, where y is the element of b broadcast to it "
                "(missing leading dimensions and dimensions of one element repeat); they change no other element, neither the sizes of a nor b. What does not broadcast is refused, dividing an integer by an integer zero is an error; after an error "
                "each element is as before or updated. a may be its own operand. equals_exact is true exactly if the types are the same and all elements are: numbers and bools by value (NaN differs from itself), strings and bytes by content, "
                "missing only equal to missing, dimensions of equal size, records field by field; it is so for slices, elements and fields too, in both directions, and for null arrays. == and != of tuples and structs say whether all fields "
                "are equal. Nothing leaks, and threads may compare shared arrays and update disjoint rows of one array at once.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="all pairs of 10 number types, up to three dimensions of 0 to 5 elements, arrays inside bigger ones; comparisons of arrays of every nesting of dimensions, records, options, strings and bytes with a copy that differs in one place or none; failing allocations, up to 4 threads",
      why="The tests never use += or /= on arrays, and equals_exact only as a helper on small arrays of equal shape.",
      files=["src/dynd/array.cpp", "include/dynd/compound_arithmetic.hpp", "include/dynd/kernels/compound_add_kernel.hpp", "include/dynd/kernels/compound_div_kernel.hpp", "include/dynd/array_iter.hpp",
             "include/dynd/callables/equal_callable.hpp", "include/dynd/callables/not_equal_callable.hpp", "include/dynd/kernels/equal_kernel.hpp", "include/dynd/kernels/not_equal_kernel.hpp"],
      mech=[("compound arithmetic", "include/dynd/compound_arithmetic.hpp"), ("equals_exact", "src/dynd/array.cpp"), ("equality of records", "include/dynd/kernels/equal_kernel.hpp")],
      observe=["every element of the whole array after an update of a part of it", "the operand afterwards", "results of comparisons", "errors", "leaks, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["by itself", "different", "divided by zero", "equal", "failed on the way", "own rows", "parts", "records", "refused", "spread over more dimensions", "unrelated", "updated"])),

dict(id="C17", title="Memory blocks, file mappings and small vectors keep what is put in them",
      statement="A memory block for raw, zeroed or object elements hands out pieces that do not overlap each other or earlier ones, aligned and (for zeroed blocks) all zero, and keeps every byte written to them until it is reset or its last reference is dropped; "
                "a piece may be resized while it is the last, keeping its content up to the shorter size; objects in it are made and destroyed exactly once; an external block calls its release function exactly once. A file mapped into memory shows exactly the "
                "bytes of the range asked for (negative positions count from the end, ranges reaching over the end are cut), stays mapped as long as any array refers to it and no longer, and "
                "the file is closed on every path; whichever system call fails there is an error, nothing stays open or mapped and a retry succeeds. Small vectors hold the values they were given after copying, moving, resizing and swapping, also when they outgrow their inline space. "
                "A failed allocation leaves the contents intact; nothing leaks; threads may share blocks and drop them at once.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="sequences of up to 40 operations on up to 6 blocks, mappings or vectors; files of 0 to 3 pages and all ranges; failing allocations, failing open, fstat, mmap, sysconf and close, up to 4 threads",
      why="The tests map no file, and use blocks only through strings and var dims with all memory available.",
      files=["include/dynd/memblock/pod_memory_block.hpp", "include/dynd/memblock/zeroinit_memory_block.hpp", "include/dynd/memblock/objectarray_memory_block.hpp", "include/dynd/memblock/external_memory_block.hpp",
             "include/dynd/memblock/memmap_memory_block.hpp", "include/dynd/shortvector.hpp", "include/dynd/memblock/base_memory_block.hpp"],
      mech=[("allocation from chunks", "include/dynd/memblock/pod_memory_block.hpp"), ("file mapping", "include/dynd/memblock/memmap_memory_block.hpp"), ("small vectors", "include/dynd/shortvector.hpp")],
      observe=["the bytes of every piece after every operation", "constructors and destructors run", "open descriptors and mappings", "the content of the simulated file", "errors", "leaks, bad accesses, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["alloc larger than a chunk", "block reset and reused", "empty range mapped", "mapping kept by a view", "mapping retried after a failure", "mapping that starts inside a page", "object block of plain type refused",
                                                            "resize moved the storage", "resize retried after memory ran out", "storage grown step by step", "storage kept by a view", "vector assigned by moving"])),
dict(id="C18", title="C++ values become arrays, and arrays C++ values, unchanged",
      statement="A number, string, bytes or type, a vector, initializer list, std::array, C array or pointer with a size, nested to any depth, and a tuple, becomes an array of exactly those values, which no longer depends on its source. "
                "Its type has a fixed dimension where all the sizes at a level agree and a var dimension where they differ; given an element type or a whole type, the values are converted to it. Every element read with as<T>() is bit for bit the value put in; scalars made so cannot be written through data(). "
                "nd::tuple and as_struct copy arrays into the fields of a record, combine_into_tuple makes a tuple that refers to the arrays themselves and keeps them alive. zeros, ones, empty, empty_like and asarray give the type and values they promise "
                "(asarray of an array that already matches is the same array, empty_like keeps the order of the dimensions in memory); vals() and vals_at() write exactly the elements selected; get_shape, get_strides, get_dim_size, get_dtype and typed iteration agree with the contents for every view, and nested iteration visits every element of containers of containers once. "
                "When memory runs out nothing leaks, the sources are unchanged and trying again succeeds.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="containers up to 3 levels with 0 to 5 elements at each, regular and ragged, of 12 element types; views with negative, zero and permuted strides; failing allocations at any point, up to 4 threads sharing arrays and containers",
      why="The tests use a few small regular containers with all memory available; offsets into ragged containers, tuple fields and retries after failure depend on sizes and fault points no test reaches.",
      files=["include/dynd/buffer.hpp", "include/dynd/kernels/init_kernel.hpp", "include/dynd/type.hpp", "include/dynd/array.hpp", "src/dynd/array.cpp", "src/dynd/asarray.cpp", "include/dynd/types/fixed_dim_kind_type.hpp", "include/dynd/iterator.hpp"],
      mech=[("construction from C++ values", "include/dynd/kernels/init_kernel.hpp"), ("shape of containers", "include/dynd/type.hpp"), ("records of arrays, empty_like", "src/dynd/array.cpp"), ("asarray", "src/dynd/asarray.cpp"), ("typed iteration", "include/dynd/types/fixed_dim_kind_type.hpp")],
      observe=["type and contents of every array made", "contents after the source is gone", "elements read with as<T>()", "sources after every operation", "errors", "leaks, bad accesses, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["a common vector", "again after a failure", "asarray of a pattern", "bytes", "empty_like", "initializer lists", "nested iteration", "numbers", "of a given type", "of different sizes", "of the same size",
                                                            "one element", "records", "shapes", "static arrays", "strings", "tuples", "tuples of pointers", "parts of what pointers point to", "types", "vals", "vals_at", "vectors", "zeros and ones"])),
dict(id="C19", title="Random numbers are in range and drawn once, from any number of threads",
      statement="nd::random::uniform sets every element of the result or destination, and nothing else, to a value between its bounds (by default 0 and the largest integer, or 1): for 32- and 64-bit integers both bounds occur, real and complex numbers fill the range. "
                "All threads draw from one engine seeded once from the system's entropy source; no part of its stream is given out twice and threads may draw at the same time, also the first time. "
                "If the entropy source or an allocation fails there is an error, nothing leaks, and trying again works. Element types without random numbers and bounds of another type are refused.",
      over=["inputs", "schedules", "fault_sequences"],
      quant="8 element types, default and given bounds up to the limits of the type, up to 3 fixed or var dimensions, strided and reversed destinations; every seed of the entropy source; first use by up to 4 threads at once; failing entropy source and allocations",
      why="The tests draw from one thread with a real entropy source and compare a mean; the interleavings of two draws and a failing source cannot be produced there.",
      files=["include/dynd/kernels/uniform_kernel.hpp", "include/dynd/callables/uniform_callable.hpp", "src/dynd/random.cpp"],
      mech=[("engine and kernels", "include/dynd/kernels/uniform_kernel.hpp"), ("bounds", "include/dynd/callables/uniform_callable.hpp")],
      observe=["every element drawn", "elements of the destination that are not to change", "all whole words drawn by any thread", "errors", "leaks, bad accesses, races"],
      note=NOTE, check=dict(plans=60000, seconds=25, probes=["again after a failure", "entropy source failed", "drawn", "complex", "without bounds", "into a destination", "the ends of a range", "whole words", "refused"])),
dict(id="C20", title="Complex numbers compute and convert like those of C++, real ones among them",
      statement="+, -, *, /, ==, != and signs of arrays of complex numbers, also mixed with integers and floats and broadcast against each other, give the elements C++ gives (complex[float64] if either operand has 64-bit floats, else complex[float32]); "
                "real, imag and conj give those parts of every element; sums over all or one axis and += and /= agree; linspace between two complex numbers is evenly spaced. Assignment to complex sets the imaginary part to zero; from complex to a real type it takes the real part without checking, "
                "and in every checking mode refuses a lost imaginary part and whatever that mode refuses of the real part, leaving each element as before or as wanted; as<T>() does the same for one element. Missing complex values stay missing through arithmetic and assignment. "
                "Sources are unchanged, combinations without such an operation are refused, a failed allocation leaves everything intact, nothing leaks, threads may share the operands.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="both complex types against 10 real ones, up to three fixed or var dimensions with any strides, limits of the types, nan and infinity in conversions; failing allocations at any point, up to 4 threads",
      why="The tests add, multiply and convert a few complex scalars; they never mix layouts, error modes and types, nor fail inside such an operation.",
      files=["include/dynd/complex.hpp", "include/dynd/assignment.hpp", "include/dynd/kernels/assignment_kernels.hpp", "src/dynd/math.cpp", "include/dynd/kernels/real_kernel.hpp", "include/dynd/kernels/imag_kernel.hpp", "include/dynd/kernels/conj_kernel.hpp", "src/dynd/array_range.cpp"],
      mech=[("complex arithmetic", "include/dynd/complex.hpp"), ("checked conversions", "include/dynd/assignment.hpp"), ("linspace", "src/dynd/array_range.cpp")],
      observe=["type and every element of results and destinations", "operands afterwards", "errors", "leaks, bad accesses, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["as", "assigned", "compared", "computed", "is_na", "linspace", "missing values", "mixed operands", "part", "refused", "refused as", "refused assignment", "refused value", "sum", "updated"])),
dict(id="C21", title="Text keeps its characters in every encoding, or is refused",
      statement="Assigning elements of string, fixed_string[n, encoding] (ascii, ucs2, utf8, utf16, utf32) and char (to and from string) to each other, element by element, sliced, reversed, as fields of records or one for all, and reading JSON into them, stores exactly the "
                "characters of the source up to its first zero. In every checking mode a text is refused if it is damaged (invalid or cut sequences, lone surrogates), has a character the target's encoding lacks, or does not fit; a refused assignment leaves each element that could be stored as before or "
                "stored. Without checking, characters the encoding lacks and damaged units become '?', what does not fit is cut between characters, and the result is always undamaged text. as<std::string>, printing and JSON show the same characters; damaged memory is refused or shown, never read beyond. Nothing beside the "
                "elements changes, other pairs of types are refused, a failed allocation can be repeated, nothing leaks, threads may share the sources.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="string, fixed strings of 1 to 70 units in five encodings, char; arrays of 1 to 5 texts with every first and last character of each UTF-8 and UTF-16 length, memory damaged at any unit; five checking modes; failing allocations at any point, up to 4 threads",
      why="The tests convert a handful of texts between fixed strings and strings, mostly ASCII that fits; none fails inside, is damaged, cut, strided or shared.",
      files=["src/dynd/string_encodings.cpp", "src/dynd/types/fixed_string_type.cpp", "src/dynd/types/char_type.cpp", "src/dynd/types/string_type.cpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/callables/assign_callable.hpp"],
      mech=[("decoding and encoding", "src/dynd/string_encodings.cpp"), ("assignment of texts", "include/dynd/kernels/assignment_kernels.hpp"), ("JSON into fixed strings", "src/dynd/types/fixed_string_type.cpp")],
      observe=["the bytes of every element and of what is beside it", "errors", "text read, printed and formatted", "leaks, bad accesses, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["again after memory ran out", "another encoding", "damaged text", "one text for all", "parsed", "parsed unchecked", "printed", "read", "refused", "string to string", "types refused", "unchecked",
                                                             "written as JSON and back"])),
dict(id="C22", title="Types derived from shared types, and answers about them, are exact",
      statement="Types are values. For any type of numbers, text, options, dims, tuples and structs nested in each other: its numbers of dimensions, dtypes, types at a dimension, fields and their indices, canonical type and datashape (in one line or several, with sizes from an array) are those of the type as it was made; replacing the dtype, adding axes, and indexing with "
                "numbers and ranges give exactly the type asked for, equal to one made directly, and the same as the type of an array indexed likewise; looking up a field by name views exactly that field, or copies it to a new array or, converted, to a given one. What does not exist (too many dimensions, positions out of range, unknown fields) is refused. No operation changes the types it is given, "
                "whoever shares them; a failed allocation can be repeated, nothing leaks and no use count is lost, from any number of threads.",
      over=["inputs", "fault_sequences", "schedules"],
      quant="random types up to 40 nodes, also ones that came out of earlier operations; indices in and out of range, steps of both signs; failing allocations at any point, up to 4 threads",
      why="The tests ask a few fixed types a few questions; none fails inside, chains the operations or shares the types among threads.",
      files=["src/dynd/type.cpp", "src/dynd/types/fixed_dim_type.cpp", "src/dynd/types/var_dim_type.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/types/datashape_formatter.cpp", "include/dynd/callables/field_access_callable.hpp"],
      mech=[("replacing and indexing", "src/dynd/type.cpp"), ("indexing of records", "src/dynd/types/struct_type.cpp"), ("formatting of datashapes", "src/dynd/types/datashape_formatter.cpp"), ("field lookup", "include/dynd/callables/field_access_callable.hpp")],
      observe=["the text and equality of every type given", "answers", "errors", "contents of fields", "leaks, bad accesses, races"],
      note=NOTE, check=dict(plans=60000, seconds=30, probes=["again after memory ran out", "array indexed", "array index refused", "asked", "asked for too much", "axes added", "axes refused", "field converted", "field copied", "field copied to an array", "field viewed", "fields of a struct", "formatted", "formatted in lines",
                                                             "formatted with data", "indexed", "index refused", "not replaced", "pointers", "replaced", "replaced with dimensions", "unknown field"])),
dict(id="C31", title="Conversions of float16, float128, int128 and uint128 are exact or refused",
      statement="Every conversion between the extended number types (float16, float128, int128, uint128) and the C++ numbers gives the nearest value, or is refused where the error mode forbids the loss.",
      over=["inputs"], quant="all bit patterns of float16, sampled ones of the wider types", why="Tests convert a few values.",
      files=["src/dynd/float16.cpp", "src/dynd/int128.cpp", "src/dynd/uint128.cpp", "src/dynd/float128.cpp"], mech=[("conversions", "src/dynd/float16.cpp")], observe=["the value converted"],
      na="Pure functions of one value: no allocation, callback, stream, sharing or state, so no schedule or fault can change their result; only input sampling would be left, which is another technique."),
dict(id="C32", title="Type promotion is symmetric and lossless assignment is a partial order",
      statement="promote_types_arithmetic gives the same type in both orders and one that both operands convert to; is_lossless_assignment is reflexive and transitive and implies that the assignment never throws.",
      over=["inputs"], quant="all pairs of builtin types", why="Tests check a few pairs.",
      files=["src/dynd/type_promotion.cpp", "src/dynd/type.cpp"], mech=[("promotion table", "src/dynd/type_promotion.cpp")], observe=["the type returned"],
      na="A finite table read by pure functions: nothing depends on schedules, faults or history. The result types of arithmetic that users see are part of C04."),
]
