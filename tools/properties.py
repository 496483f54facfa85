IN = ["inputs"]
IP = ["inputs", "programs"]

prop("P01", "No object is used after the garbage collector could have freed it",
     "Whatever the moment at which R's garbage collector runs, an R object that native code of the package still needs - to read, to return, to store or to hand on - is reachable from something the collector treats as alive. No call of the package can therefore crash, return corrupted data, or depend on when collections happen; the same holds for objects the package keeps for the whole session.",
     ["inputs", "schedules"], "all inputs, all execution paths through the native code (including error-message paths), all moments at which a collection may run",
     "collections happen at a handful of allocation points in a test run; a missing root shows only when one falls in the right place, usually on a rarely taken path (gctorture over the whole suite is not part of it)",
     ["src/*.c", "src/rlang/*.c"], [("protection stack (KEEP/FREE, PROTECT/UNPROTECT, KEEP_AT)", "src/rlang/rlang-types.h"), ("shelters of structs", "src/arg.c, src/dictionary.c, src/poly-op.c, src/type-info.h, src/rlang/dyn-array.c"), ("session objects", "src/globals.c, src/utils.c")],
     ["any exported function under gctorture()"],
     ("gc_rooting", "path-sensitive ownership/typestate simulation of the protection stack over whole-program LLVM IR with bottom-up summaries", "other",
      "Every path of every C function (states deduplicated) is simulated with an abstract protection stack; an object needed after a possibly allocating call must be rooted. Sound modulo the R API facts table, ALTREP accessors assumed not to allocate, and memory reached through heap structs whose protection index is stored in memory (treated as rooted after a reprotect)."))

prop("P02", "Native code leaves R's protection stack balanced on every return",
     "Every native function returns with R's protection stack exactly as deep as when it was called, on every path and for every input, never pops entries it did not push, and never pushes without bound in a loop. Calls therefore emit no 'stack imbalance' warnings, never release an object a caller protected, and never exhaust the protection stack on long inputs.",
     IN, "all inputs, all paths through each native function that end in a return",
     "R only warns about the outermost imbalance of a path that is executed; early returns for rare types, empty inputs and fallbacks are not all executed, and long loops are not run",
     ["src/*.c", "src/rlang/*.c"], [("KEEP/FREE pairs and counters", "src/*.c")], ["warnings 'stack imbalance in .Call', 'protect(): protection stack overflow'"],
     ("protect_balance", "path-sensitive protection-stack depth simulation (typestate) over whole-program LLVM IR", "other",
      "All paths of all C functions, counters evaluated as integers along paths; complete except functions listed as undecided in the evidence (none besides one loop with a documented bound)."))

prop("P05", "Every R-to-native call matches the native routine it names",
     "Every native routine that the package's R code calls is registered under that name, takes exactly the arguments it is given in that order, and, where it reads further arguments, the error call or an argument tag out of the calling frame, finds a variable or argument of that name in the frame it is handed. No call of an exported function can fail because of the binding between the two languages, on any path, including error paths.",
     IP, "all .Call/.External sites in R code, all routines, all branches",
     "a swapped or missing argument on an error or fallback branch, or a variable looked up by name only when an error is being formatted, is only visible when exactly that branch runs",
     ["R/*.R", "src/init.c", "src/*.c"], [("registration tables", "src/init.c"), ("lazy argument lookup", "src/arg.c, src/rlang/rlang-types.h")], ["errors 'object not found', 'Incorrect number of arguments'"],
     ("native_binding", "cross-language interface analysis: R parse trees against registration tables and per-routine use summaries on LLVM IR", "other",
      "Every call site and every registered routine is examined; names looked up lazily are resolved in the calling R function. Trusts that parameter names of routines agree with the R variables they receive only where both sides name the same thing."))

prop("P06", "Every R function that native code calls back exists and is called correctly",
     "Whenever native code evaluates a call to an R function of the package or of base R, that function exists in the environment it is looked up in, and the arguments it is given are ones it accepts, complete and in the right order. No operation can end in 'could not find function' or 'unused argument' because of a call constructed in native code.",
     IP, "all calls constructed in native code, including those made only to signal an error or for a fallback",
     "callbacks for rare classes, rare error conditions and fallbacks are executed by few or no tests",
     ["src/*.c", "src/rlang/*.c", "R/*.R"], [("symbols and function globals", "src/utils.c, src/globals.c"), ("vctrs_dispatch/r_call helpers", "src/utils.c, src/rlang/eval.c")], ["errors 'could not find function', 'unused argument'"],
     ("callback_binding", "constant propagation of symbols and argument tags through call-construction sites on LLVM IR, matched against R formals", "other",
      "Every construction site whose callee resolves to a constant symbol; sites with run-time callees are not decided."))

prop("P07", "Every name used in R code resolves on every path",
     "Every variable and function name evaluated by the package's R code, on any branch, refers to something defined: a local binding, an object of the package, or an imported or base object; and every call to a function of the package passes only arguments it declares. No exported function can fail with 'object not found', 'could not find function' or 'unused argument' because of the package's own code.",
     IP, "all R functions of the package, all branches",
     "R resolves names when a branch runs; error branches, deprecated paths and methods for rare classes are not all run",
     ["R/*.R", "NAMESPACE"], [("lexical scoping, imports", "NAMESPACE, R/*.R")], ["errors 'object not found', 'could not find function', 'unused argument'"],
     ("r_resolves", "scope and arity analysis over R parse trees", "other",
      "All references in all R functions; names created by non-standard evaluation are exempted by an explicit list."))

prop("P08", "Documented interfaces are callable as documented and their arguments matter",
     "Every exported function accepts exactly the usage its manual page shows, with the defaults shown, every documented argument is one of the function, and every argument an exported function declares influences what it does: it is used or passed on, on some path, rather than silently ignored.",
     IP, "all exported functions, all their arguments",
     "tests call functions with the arguments the author thought of; an argument that has no effect, or a default that differs from the documentation, is not noticed",
     ["R/*.R", "man/*.Rd", "NAMESPACE", "src/*.c"], [("usage sections", "man/*.Rd")], ["formals(), help pages"],
     ("r_interface", "cross-check of Rd usage, NAMESPACE and formals; liveness of formals across the R/C boundary", "other",
      "All manual pages and exported functions; a formal counts as effective when it is read by R code or looked up by the native routine it is forwarded to."))

prop("P09", "Stray arguments are rejected, not swallowed",
     "An exported function or method that accepts `...` without documented meaning for it either passes the dots on or fails when something is supplied there, on every path before it returns a result; a misspelt argument is never silently ignored.",
     IN, "all exported functions with dots, all calls",
     "the set of misspelt arguments is unbounded and only a few functions are tested for it",
     ["R/*.R"], [("check_dots_empty0()/check_dots_empty()", "R/*.R")], ["error class rlib_error_dots_nonempty"],
     ("r_dots", "must-use dataflow analysis of `...` over R parse trees", "other",
      "Every exported function and registered method with dots; coercion helper methods whose dots carry internal options are a named exception list."))

prop("P04", "Built-in coercion rules form a consistent, symmetric relation",
     "For the package's built-in types and classes, the common type of a and b is the common type of b and a (up to the order of levels and columns and the choice of time zone), the common type of a type with itself is that type, and combining base types gives the same type in any order. Whenever a pair has a common type, both members convert to it, and a conversion between two types is never confused with the opposite one or with that of another pair. This holds for the native tables and for the registered coercion methods, including those registered for other packages' classes at load time.",
     IN, "all pairs and triples of built-in types and classes, both argument orders",
     "there are several hundred ordered pairs; tests name a few dozen, and an asymmetric entry only shows for one order of one pair",
     ["src/typeof2.c", "src/typeof2-s3.c", "src/ptype2.c", "src/ptype2-dispatch.c", "src/cast.c", "src/cast-dispatch.c", "R/type-*.R", "R/zzz.R", "NAMESPACE"],
     [("pair classification", "src/typeof2.c, src/typeof2-s3.c"), ("native tables", "src/ptype2.c, src/cast.c"), ("registered methods", "NAMESPACE, R/zzz.R")], ["vec_ptype2(), vec_ptype_common(), vec_cast(), vec_c()"],
     ("coercion", "exhaustive conditional constant propagation through the dispatch tables on LLVM IR; closure rules over registered methods", "other",
      "All pairs of type and class enumerators are propagated through the tables; R methods are compared structurally; partial types, whose finalisation is separate, are exempt from the conversion rule."))

prop("P03", "No operation modifies the objects it is given",
     "Calling a function of the package never changes an object the caller still holds: not the arguments, not their elements, columns, names or other attributes, and not values the package shares between calls (empty prototypes, cached strings, option objects). A result is a new object or the unchanged input itself.",
     IN, "all exported functions and C callables, all inputs, shared references and nesting depths",
     "a test sees in-place modification only if it keeps a second reference to exactly the object modified and looks at it afterwards; tests usually build their inputs inline",
     ["src/*.c", "src/rlang/*.c", "R/*.R"], [("copy-on-write helpers", "src/owned.h, src/utils.c"), ("assignment engine and ownership flag", "src/slice-assign.c"), ("attribute updates", "src/names.c, src/proxy-restore.c, src/type-data-frame.c")],
     ["an input compared before and after any call"],
     ("value_semantics", "interprocedural alias and mod-set (effect) analysis over whole-program LLVM IR, conditional on ownership flags, with R-side reachability", "other",
      "Every routine reachable from R and every registered C callable; mutation through objects handed out by R-level methods is not tracked, and two functions are exempted by name with a reason that is re-checked."))

prop("P13", "No element, column or vector is left out of an operation",
     "Operations over the elements of a vector, the columns of a data frame or the vectors of a list go over all of them: none at either end, and none beyond a fixed number, is passed over. A result filled element by element is filled up to its size, and is not returned when the filling was given up half-way.",
     IN, "all inputs of all sizes, all loops counting through elements in native code",
     "off-by-one errors in branches for rare types, sizes beyond a block or table size, or early exits on unusual values show only for inputs tests do not contain",
     ["src/*.c", "src/*.h", "src/rlang/*.c"], [("loops over elements", "src/*.c")], ["results of any operation on vectors of any size"],
     ("elements", "natural-loop and induction-variable analysis on whole-program LLVM IR: first and last position, bounds against allocated sizes, early exits and what is returned after them", "other",
      "All loops counting upwards in all C functions. Loops over lists by node and loops counting downwards are checked only as far as their exits go; whether each turn does the right thing is not part of it."))

prop("P14", "Errors name the call and the argument they are about",
     "When an operation fails, the error reports the function the caller designated (by default the one they called) and labels each operand with its own argument name: wherever code is told which call or which argument names to report, it passes them on to everything that can fail on its behalf. Two operands, and the labels that belong to them, never change places between the call and the place where they are used or reported.",
     IN, "all calls that carry an error call or argument labels, through native and R code, all failing inputs",
     "tests assert the message of a few failures of each function; which call and which label appear in the rest is not looked at, and most failing paths of most functions are not run at all",
     ["src/*.c", "R/*.R"], [("error call and labels in option structs", "src/cast.h, src/ptype2.h, src/slice-assign.h"), ("lazy calls", "src/rlang/cnd.h, src/globals.h"), ("label arguments", "R/*.R")],
     ["conditionCall() of errors, x_arg/y_arg in messages, rlang error_call"],
     ("error_context", "forwarding (must-flow) analysis of error calls and provenance matching of operand/label pairs on whole-program LLVM IR and R parse trees", "other",
      "Every call site whose callee takes an error call or a labelled operand; operands are paired with labels by name, provenance is a backward slice over SSA."))

prop("P18", "A call leaves nothing behind in the session, also when it fails",
     "No call of the package leaves data in native variables for a later call to read, binds names outside its own frame, changes options or other session state without restoring them, or uses the random seed. Marks put on R's shared strings while sorting are recorded, and removed also when the operation fails or is interrupted, so a call gives the same result whatever was called, or failed, before it.",
     ["inputs", "histories"], "all sequences of calls, including calls that fail or are interrupted at any point",
     "tests start from a fresh session and look at one call at a time; state left behind by a call that failed halfway shows only in a later, unrelated call",
     ["src/*.c", "src/rlang/*.c", "R/*.R"], [("static and global variables", "src/*.c"), ("marks on strings", "src/order.c, src/order-truelength.c"), ("cached options and bindings", "R/*.R")],
     ["any call, repeated after a failed one"],
     ("session_state", "effect analysis of global state (scratch/cache classification), typestate of string marks and escape analysis of environments over whole-program LLVM IR and R parse trees", "other",
      "Every native function reachable from R after loading and every R function; state changes made by functions of other packages are not followed."))

prop("P21", "The native interface offered to other packages matches its header",
     "Every function pointer of the public C header is filled, when the interface is initialised, with the function registered under that name, of exactly the declared type, and every native function other packages look up by name stays registered with the same interface and uses all its arguments. Code compiled against the package therefore never calls a missing function or one that reads its arguments differently.",
     ["inputs", "programs"], "all functions of the native interface, all client programs",
     "no test is compiled against the interface: a wrong cast or missing registration compiles and surfaces as a crash in another package",
     ["inst/include/vctrs.h", "inst/include/vctrs.c", "src/init.c", "src/callables.c", "src/version.c", "DESCRIPTION"], [("registration", "src/init.c"), ("header", "inst/include/vctrs.h")], ["R_GetCCallable(\"vctrs\", ...)"],
     ("public_api", "interface matching of the clang AST of the shipped header against registrations and signatures in the LLVM IR", "other",
      "All registered callables and header pointers; the interfaces of callables without a header are pinned in the check."))

prop("P22", "S3 methods are registered, callable and attached to the right class",
     "Every method the package registers exists, belongs to a generic that exists, is registered for the class (or pair of classes) it is written for, and takes the generic's arguments in the generic's order; every function written as a method is registered. Methods registered on behalf of another package are registered only when that package lacks them, under that package's name.",
     IP, "all registrations, in the namespace and at load time, all generics and classes, with any set of other packages installed",
     "load-time registrations run only when the other package is installed and lacks the method; a method registered for the wrong class is masked by a default or inherited method",
     ["NAMESPACE", "R/*.R", "R/zzz.R"], [("S3method directives", "NAMESPACE"), ("s3_register()", "R/register-s3.R, R/zzz.R")], ["getS3method(), dispatch on any class the package knows"],
     ("s3_methods", "cross-check of namespace directives, load-time registrations, generics and formals over R parse trees", "other",
      "All registrations and all functions named like methods; primitive generics are checked for arity and the position of `value`."))

prop("P17", "Strings are compared by content, not by stored encoding",
     "Equality, matching, duplicate detection, grouping, runs, set operations, ordering and other comparisons of vectors give the same result whichever encoding (UTF-8, latin1 or native) their strings are stored in, also for strings inside lists, data frames and attributes. Strings marked as bytes are outside this guarantee.",
     IN, "all vectors and data frames containing strings, in any mix of encodings and at any depth of nesting",
     "tests mix encodings for a handful of functions; the same string stored twice in one encoding is one object, so code comparing addresses passes any test that does not mix encodings at exactly that depth",
     ["src/*.c", "R/*.R"], [("translation", "src/translate.c"), ("comparison, hashing and sorting of strings", "src/equal.c, src/hash.c, src/order.c, src/compare.c, src/runs.c, src/group.c, src/bind.c")], ["iconv() of any argument"],
     ("encoding", "backward must-pass dataflow from every string comparison to the operands of the routines, over whole-program LLVM IR and R parse trees", "other",
      "Every place where native code compares, hashes or marks strings by address or raw bytes, traced back through the call graph to all callers. Code of classes (proxies) is assumed to return strings in any encoding."))

prop("P20", "Vectors are brought to a common type before they are compared",
     "Whenever an operation compares or matches the values of two vectors - equality, comparison, matching, set operations, joins, interval functions - both have first been cast to one and the same type (and for elementwise comparison brought to one size). Values written into a vector or combined with others are cast to the type of the result first.",
     IN, "all pairs of vectors of compatible types, all operations on two or more vectors",
     "tests mostly hand over operands that already agree in type, for which a missing cast changes nothing; where types differ, native code would read one type's memory as another's",
     ["src/*.c", "R/*.R"], [("casting of operands", "src/dictionary.c, src/set.c, src/interval.c, src/match.c, src/match-joint.c, src/equal.c, src/compare.c"), ("combining", "src/c.c, src/bind.c, src/c-unchop.c, src/slice-assign.c")], ["vec_match(1L, 1), vec_set_*(), vec_c(), vec_assign()"],
     ("common_type", "backward operand-chain dataflow (pairing of casts on both operands) over whole-program LLVM IR and R parse trees", "other",
      "Every kernel comparing two vectors and every kernel writing values into a container, with all chains of operations leading back to routine arguments; type equality is judged by provenance of the target type."))

prop("P19", "Equality, comparison and ordering use the class's own proxy",
     "Operations that test equality, match, hash, group or detect missing values look at a vector through its equality proxy, comparisons through its comparison proxy and sorting or ranking through its order proxy - never at the raw data. A class without a method gets the documented fallback (ordering, then comparison, then equality, then the data proxy), and columns of data frames are treated the same way one by one.",
     IN, "all vectors of all classes, all operations that look at values, data frames nested to any depth",
     "for base types all proxies are the identity, so using the wrong one or none passes every test that does not use a class whose proxies differ in just that operation",
     ["src/*.c", "R/*.R"], [("proxies and fallbacks", "src/proxy.c"), ("uses", "src/dictionary.c, src/equal.c, src/order.c, src/interval.c, src/match-joint.c, src/runs.c, src/missing.c, src/set.c, src/group.c"), ("methods", "R/type-*.R, R/compare.R, R/order.R")],
     ["records, data frames and classes with vec_proxy_equal()/vec_proxy_compare()/vec_proxy_order() methods"],
     ("proxies", "backward must-pass dataflow from value-inspecting kernels to routine arguments, and context-sensitive reachability of method lookups, over whole-program LLVM IR and R parse trees", "other",
      "Every place native code dispatches on or reads the values of a vector to compare, hash or sort it, with all chains back to the entry points; every entry point is matched with the kind of proxy its purpose calls for."))

prop("P15", "Operations hand back vectors of the type they were given",
     "Whenever slicing, assigning, combining, repeating, chopping or arithmetic with classed operands works on the bare data of a vector, the data is turned back into a vector of the type it was taken from (or of the common type it was cast to) before it is handed to the caller, on every path and for every element of a list of results. Turning data back takes all attributes from the target except names, dimensions and row names, which are those of the data.",
     IN, "all classes with a data proxy, all operations assembling vectors, all fallback paths",
     "for types without attributes a missing restoration changes nothing; tests look at the class of a result for a few classes and operations",
     ["src/*.c", "R/*.R"], [("restoration", "src/proxy-restore.c"), ("assembling code", "src/slice.c, src/slice-chop.c, src/slice-assign.c, src/c.c, src/c-unchop.c, src/bind.c"), ("methods", "R/type-vctr.R, R/type-rcrd.R, R/type-date-time.R, R/slice.R, R/numeric.R")],
     ["class and attributes of the result of any operation on a classed vector"],
     ("restore", "backward must-pass dataflow from results of routines to data proxies and copying kernels over whole-program LLVM IR, and return-value analysis of R methods", "other",
      "Every routine and C callable with all chains from its result, every restoring call with the provenance of data and target, and every type-preserving method written in R; methods of other classes are trusted to be inverse to their proxies."))

prop("P10", "Conversions fail rather than silently lose values",
     "Converting a vector to another type fails, unless the caller has allowed the loss, when one of its values has no exact counterpart in the target type: nothing is silently rounded, wrapped, truncated, dropped or made missing, and numbers given as sizes or subscripts are checked in the same way. Missing values stay missing and never make a conversion fail. (Converting integer64 to logical tests for being non-zero.)",
     IN, "all values of the built-in types and of integer64, factors, dates and date-times, all pairs of types with a cast",
     "tests convert a few values per pair of types; the boundaries of the integer range, NaN, infinities, missing values next to lossy ones and dates without text form are rarely among them",
     ["src/cast*.c", "src/type-*.c", "src/subscript.c", "R/type-*.R", "R/conditions.R"], [("conversion loops", "src/cast-bare.c, src/type-factor.c, src/type-date-time.c"), ("dropped columns", "src/type-data-frame.c"), ("lossy casts", "R/conditions.R, R/type-bare.R, R/type-integer64.R")],
     ["result or error of vec_cast() and of functions casting their arguments"],
     ("lossy", "path-sensitive interval and missingness analysis of conversion loops over LLVM IR; three-valued evaluation of the loss tests in R code", "other",
      "Every float-to-integer conversion, every conversion loop and every R cast to a narrower type; correctness of base R's conversions and of matching itself is assumed."))

prop("P11", "Sizes are combined by one recycling rule",
     "Two sizes, or two dimensions of arrays beyond the first, are combined by one rule: equal ones stay, a size of one takes on the other whatever that is (also zero), missing (NULL) inputs have no say, and any other pair is an error. A vector recycled to a size is handed back as it is if it has that size, is its single element repeated that many times if it has one, and is an error otherwise. Where vectors are joined into columns of one data frame or assigned to locations, each has been recycled to the common size, or to the number of locations, before its elements are used.",
     IN, "all sizes and dimensions of all inputs, all operations that combine vectors in native code, array broadcasting in R code",
     "tests try a few pairs of sizes on a few functions; zero against one, missing inputs among others, and the less used operations that recycle are combinations they do not enumerate",
     ["src/size-common.c", "src/size.c", "src/shape.c", "src/rep.c", "src/c-unchop.c", "src/slice-assign.c", "src/bind.c", "src/type-data-frame.c", "R/shape.R"], [("common size", "src/size-common.c, src/shape.c"), ("recycling", "src/size.c"), ("users", "src/bind.c, src/c-unchop.c, src/slice-assign.c, src/type-data-frame.c")],
     ["vec_recycle_common(), vec_size_common(), data_frame(), vec_cbind(), list_unchop(), vec_assign(), vec_ptype2() of arrays"],
     ("recycling", "abstract interpretation of the deciding functions over a finite partition of size pairs, and flow of common sizes to recycling calls, on whole-program LLVM IR; evaluation of the R guard over the same partition", "other",
      "All functions that can report two sizes as incompatible, all call sites computing a common size, all sites storing values at locations. Elementwise operations in R code are the subject of the property about common types."))

prop("P12", "Equality, hashing, comparison and missingness agree with each other",
     "Equality is one relation wherever it is used: it is reflexive and symmetric, missing values equal missing values where they are to match and give a missing result otherwise, NA and NaN are kept apart while positive and negative zero are not, and elements of lists are equal exactly if their types, lengths, contents and attributes agree. Equal values have equal hashes whatever their bit patterns, and whatever can be compared for equality inside a list can also be matched. Comparison is antisymmetric, agrees with equality and places missing values first where they take part; rows are equal if all their columns are and compare by the first column that differs, and are missing if all their columns are and incomplete if any is.",
     IN, "all vectors, lists and data frames of base types, all combinations of missing, NaN, zero and ordinary elements, all types of list elements",
     "tests compare a few values per type; combinations such as NaN against NA, signed zeros, complex numbers with one missing part, calls with tags or extra attributes occur once or never",
     ["src/equal.c", "src/equal.h", "src/hash.c", "src/compare.c", "src/compare.h", "src/poly-op.c", "src/poly-op.h", "src/missing.c", "src/missing.h", "src/order-*.h"], [("element kernels", "src/equal.h, src/compare.h, src/missing.h"), ("loops over vectors and rows", "src/equal.c, src/compare.c, src/missing.c, src/poly-op.c"), ("hashing", "src/hash.c"), ("list elements", "src/equal.c")],
     ["vec_equal(), vec_compare(), vec_detect_missing(), vec_detect_complete(), vec_unique(), vec_match()"],
     ("equality", "abstract interpretation of element kernels over a finite partition of values (NA, NaN, zero, ordinary; relations <, =, >) on LLVM IR, against an oracle table; structural completeness of object equality and hashing", "other",
      "All kernels of all base types for all classes of the partition; loops are decided for a symbolic iteration. The kernels of the radix sort are not covered; attributes are compared in order."))

# ---- not claimed -----------------------------------------------------------------------------------------------------

prop("P30", "Ordering is a stable sort by the requested keys and directions",
     "The order of a vector or data frame is a permutation of its locations that sorts it by the requested direction and placement of missing values for each column, and equal rows keep their original order. Ranks, sort and ordered locations are consistent with it.",
     IN, "all vectors and data frames, all directions, all placements of missing values",
     "radix sorting switches algorithm by size, range and pre-sortedness; a test reaches a few of the combinations", ["src/order.c", "src/rank.c", "src/order-radix.c"],
     [("radix, counting and insertion sorts", "src/order.c")], ["vec_order_radix(), vec_sort(), vec_rank()"],
     na="the result of a radix sort depends on the contents of counting tables and in-place permutations; deciding it statically is a functional proof of the algorithm, out of reach of dataflow or abstract interpretation over a finite partition. The comparison kernels are decided under P12 and the proxies under P19.")

prop("P31", "Interval operations implement the algebra of intervals",
     "Merging, grouping, containment and complement of intervals give what the definitions on sets of points say: merged intervals cover the same points with no overlap, every interval belongs to one container, and a complement covers the points between.",
     IN, "all vectors of start and end points, with missing and abutting intervals",
     "few arrangements of intervals are tested", ["src/interval.c"], [("sweep over ordered starts", "src/interval.c")], ["vctrs:::exp_vec_interval_*()"],
     na="the invariant of the sweep (largest end seen so far) relates run-time values across iterations of unbounded loops; no finite abstraction used here decides it. Order and kind of the proxies compared are decided under P19.")

prop("P32", "Joins and matches report exactly the locations the condition selects",
     "Location matches between two vectors or data frames contain each pair of rows that satisfies all conditions and no other, and relationship, remaining and missing handling report exactly what the documentation says.",
     IN, "all needles and haystacks, all combinations of conditions, filters, multiple and relationship options",
     "the combinations of options and nestings are too many to be tested", ["src/match.c", "src/match-joint.c"], [("binary search over nesting containers", "src/match.c")], ["vec_locate_matches()"],
     na="it quantifies over the values reached by binary search in a sorted copy and the container nesting computed at run time; a static argument would be a functional proof. Loop ends, error labels, coercion to a common type and comparison kernels are decided under P13, P14, P20 and P12.")

prop("P33", "Splitting and reassembling are inverse to each other",
     "Chopping a vector and unchopping the pieces by the same indices gives the vector back, and so do run-length or repetition encodings and their inverses.",
     IN, "all vectors, all sets of indices covering them", "examples only", ["src/slice-chop.c", "src/c-unchop.c", "src/rep.c", "src/runs.c"],
     [("chop and unchop", "src/slice-chop.c, src/c-unchop.c")], ["vec_chop(), list_unchop(), vec_rep_each(), vec_unrep()"],
     na="an equation between two programs over run-time indices; static analysis here decides its parts (types restored P15, sizes recycled P11, loops complete P13) but not the composition.")

prop("P34", "Repaired names are unique, stable and minimal changes of the given ones",
     "Unique repair produces names that are non-missing, non-empty and pairwise distinct, repairing them again changes nothing, and names that need no repair are kept.",
     IN, "all character vectors", "examples only", ["src/names.c", "R/names.R"], [("suffix stripping and numbering", "src/names.c")], ["vec_as_names()"],
     na="distinctness and idempotence depend on the text produced by formatting and stripping suffixes, which the analyses do not model.")

prop("P35", "Vectors longer than 2^31 elements are rejected or handled, never truncated",
     "Sizes above the largest integer either work or raise an error; no computed size, offset or location wraps around.",
     IN, "all sizes that can be represented", "tests cannot allocate such vectors", ["src/*.c"], [("size types", "src/rlang/rlang-types.h")], ["all exported functions"],
     na="the package stores locations in 32-bit integers by design and the bounds that keep them in range (memory, R's own limits on data frames) lie outside its source; an interval analysis without them reports hundreds of conversions that cannot overflow. Sizes given by users as numbers are decided under P10.")

prop("P36", "Restoring a proxy gives back any foreign class unchanged",
     "For every class with proxy and restore methods, in any package, taking the proxy and restoring it to the original is the identity, and all operations preserve its invariants.",
     IP, "all classes defined in any package", "classes outside the repository are not there to be tested", ["src/proxy.c", "src/proxy-restore.c"],
     [("dispatch to proxy and restore methods", "src/proxy.c, src/proxy-restore.c")], ["vec_proxy(), vec_restore()"],
     na="it quantifies over methods written in other packages whose source is not here; what the package itself contributes is decided under P15 and P19.")

prop("P37", "Hash tables find every key and their searches end",
     "Looking up a key in a dictionary visits the slot that holds an equal key whenever there is one, and ends after finitely many steps otherwise.",
     IN, "all keys, all table sizes, all collisions", "collisions are rare in tests", ["src/dictionary.c"], [("quadratic probing over a power-of-two table", "src/dictionary.c")], ["vec_match(), vec_in(), vec_unique()"],
     na="termination and completeness of probing rest on number theory (triangular numbers modulo a power of two) and a load-factor bound on run-time counts; that equal keys hash equally is decided under P12.")
