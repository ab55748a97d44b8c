"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=hook)))
LIB = ["src/lib.rs", "src/vector.rs", "src/convert.rs", "src/misc.rs", "src/matrix.rs", "src/packed_vector.rs", "src/collision.rs", "src/globals.rs"]

p("C01", "Concurrent calls behave as if each ran alone",
  "When any number of threads call any public functions, operators and conversions of the library at the same time, every call returns and writes exactly (bit for bit) what the same call with the same arguments produces as the only call of a fresh process. This holds for every interleaving of the threads, in every backend configuration, when the threads share their read-only arguments and each has its own outputs. No interleaving makes a call panic, crash, deadlock or run forever when it would not do so alone.",
  ["schedules", "inputs", "programs", "configurations"], "every assignment of calls to threads, every interleaving of their memory accesses, every backend configuration",
  "Each test calls functions from one test thread with fixed arguments and compares a handful of values; nothing in the suite runs two library calls concurrently on purpose, and no interleaving is controlled.",
  LIB, [("free functions over by-value vectors, constants only, no shared mutable state", "src/*.rs"), ("canonical basis table is an immutable static", "src/matrix.rs XMMatrixDecompose")],
  [("statics", "the only process-wide data; must stay immutable or be invisible to callers", "src/globals.rs, src/matrix.rs")], ["return values, out parameters, panics, process liveness"])

p("C02", "A call interrupted by other calls on its thread is unaffected by them",
  "If, at any point inside a library call, the same thread runs other library calls to completion (from a signal handler, or from the caller's own iterator, formatter sink or comparison that the library calls back) and then resumes, the interrupted call and the interrupting calls all produce exactly what they produce alone. No such nesting causes a panic, crash, deadlock or endless loop.",
  ["schedules", "inputs", "programs", "configurations"], "every interruption point in every call, every interrupting sequence (nested up to depth 3), every caller callback",
  "No test re-enters the library; the callbacks used in tests (slice iterators, String sinks) never call back into it.",
  LIB, [("all scratch state is in locals", "src/*.rs"), ("streams and sinks are called with no library state held", "src/collision.rs CreateFromPoints, Debug impls in src/lib.rs src/vector.rs src/matrix.rs")],
  observe=["return values, out parameters of both calls"])

p("C03", "Results never depend on history or environment",
  "A call's results depend only on its argument values (and the floating point control mode it is called under): not on which or how many library calls ran earlier in the process or on that thread, whether an earlier call panicked or was abandoned half-way, what the output objects, stack, registers or heap happened to contain before, the addresses used, the time, or any random source. Output bytes a call does not define keep their previous value.",
  ["histories", "inputs", "programs", "configurations"], "every call history (including 10^5-call histories), every prior content of outputs, stack, registers and heap",
  "Tests make a few calls per process in an uncontrolled order with zero-initialised outputs; they cannot cover histories or leftover memory contents.",
  LIB, [("no mutable statics, no thread-locals", "src/*.rs"), ("'undefined' values are written before they are read", "src/lib.rs undefined()"), ("out parameters are write-only", "src/convert.rs, src/collision.rs")],
  observe=["return values and out parameters, compared with the same call alone in a fresh process"])

p("C04", "A call touches only the memory it was given",
  "A call whose arguments meet the documented preconditions reads only from the argument objects it was handed and writes only to its output objects, for every legal placement and alignment of those objects: at the edge of a mapped page, in read-only memory (inputs), next to bytes another thread is updating, or with several read-only arguments being the same object. Where the objects are placed never changes the results, and a neighbour's concurrent update is never lost.",
  ["inputs", "schedules", "configurations"], "every placement and alignment, every moment at which a neighbour is updated",
  "Tests keep arguments on the stack in the middle of mapped, writable memory, where over-wide loads and stores and read-modify-writes of neighbours go unnoticed.",
  ["src/convert.rs", "src/vector.rs", "src/collision.rs", "src/matrix.rs", "src/misc.rs"], [("XMLoad*/XMStore* use 4/8-byte pieces for 2- and 3-component types", "src/convert.rs"), ("partial-vector reads of bounding volumes go through XMLoadFloat3", "src/collision.rs")],
  observe=["page faults, neighbouring bytes, results"])

p("C05", "Floating-point control state is preserved",
  "When a library call returns or unwinds, and while it is inside a caller's callback (iterator, formatter sink, comparison), the thread's floating point environment is the caller's: SSE rounding mode, flush-to-zero, denormals-are-zero and exception masks, the x87 control word and the direction flag are as they were at entry. This holds for every argument, every starting mode and every exit path.",
  ["inputs", "fault_sequences", "configurations"], "every call, input class, starting mode and exit path, including a panic in a caller callback",
  "No test reads the control state, and tests run only in the default mode and never unwind through the library.",
  LIB, [("no control-register writes anywhere; rounding uses explicit-mode instructions or bit tricks", "src/vector.rs XMVectorRound/Floor/Ceiling/Truncate")],
  observe=["MXCSR, x87 control word, EFLAGS.DF after return/unwind and in callbacks"])

p("C06", "No call ever waits for another thread",
  "Every library call completes in a bounded number of its own steps, with the result it gives alone, even if every other thread that is inside the library is suspended or killed at an arbitrary point and never runs again. Calls never block in the operating system, spin on another thread's progress, or lock.",
  ["schedules", "fault_sequences", "configurations"], "every set of suspension points of the other threads, in every configuration",
  "No test suspends or kills a thread inside the library, so a lock or once-cell in a hot path would pass every test.",
  LIB, [("no locks, once-cells, atomics or system calls in the library", "src/*.rs")], observe=["completion within a step budget after peers stop"])

p("C07", "Volumes built from a point stream enclose exactly what it delivered",
  "Building a bounding sphere, box or oriented box from a caller's point stream uses exactly the points delivered before the stream first reports its end: neither the stream's size hint nor anything it would deliver after reporting its end changes the result, and a stream that stalls, runs other calls or is cloned gives the same result as a plain one. For finite points (whose squares do not overflow) the resulting volume contains every delivered point up to rounding. If the stream panics, the panic reaches the caller and the output volume keeps the value it had.",
  ["fault_sequences", "histories", "inputs", "configurations"], "every stream behaviour: length, size hints, early end, delivery after the end, stalls, panics at any item of any pass, clones",
  "Tests use two to four well-behaved slice iterators and check one or two points.",
  ["src/collision.rs"], [("min/max folds over the stream; multi-pass via Clone", "src/collision.rs BoundingSphere/BoundingBox/BoundingOrientedBox::CreateFromPoints"), ("output stored after the last pass", "same")],
  observe=["the output volume, the points delivered, panics"])

p("C08", "Formatting to a failing sink reports the failure and stops",
  "When the sink that a library value is debug-formatted into fails at any write, formatting returns an error, what the sink accepted is a prefix of the full text, nothing is written to the sink after the failure, and nothing panics. A later formatting of the same value to a working sink gives the full text; a sink that panics unwinds to the caller without spoiling later calls.",
  ["fault_sequences", "inputs", "configurations"], "every failing write position, every formatted type and format flag",
  "No test formats into anything but an infallible String.",
  ["src/lib.rs", "src/vector.rs", "src/matrix.rs", "src/collision.rs"], [("Debug implementations forward every error with the standard builders", "src/lib.rs, src/vector.rs, src/matrix.rs")],
  observe=["formatter result, bytes accepted by the sink, calls made to the sink"])

p("C09", "Calls work when no memory can be allocated",
  "Every library call that does not panic gives the same results when every heap allocation (or any chosen one) fails as when none fails; it never aborts, crashes or panics for lack of memory. This includes building volumes from streams of any length and formatting to a caller's sink.",
  ["fault_sequences", "inputs", "configurations"], "every allocation made during a call may fail, for all calls and inputs",
  "Tests run with an allocator that never fails, so an allocation in a library path would not be noticed.",
  LIB, [("no heap use anywhere in the library", "src/*.rs")], observe=["results, aborts and panics under an injected allocation failure"])

p("C10", "An interrupted store leaves each component old or new",
  "If a store to caller memory (any of the store functions for 2-, 3-, 4-component vectors and for matrices) is interrupted or its thread is killed at any point, every component of the destination holds either the value it had before the call or the value the completed store gives it, never anything else. Memory outside the destination is never affected, even momentarily.",
  ["crash_points", "inputs", "configurations"], "every interruption point inside every store, every old and new value, every alignment",
  "Tests only look at the destination after the store has completed.",
  ["src/convert.rs"], [("each component is written once, whole, with its final value", "src/convert.rs XMStore*")], observe=["destination memory seen by another thread or process at the interruption point"])

p("C11", "The NEON report tool never reports success on incomplete input",
  "The intrinsics report tool exits successfully only after it has written the complete report computed from the header files and index it obtained in this very run. If a header cannot be read completely or decoded, the download fails (including an HTTP error) or leaves no index, the index cannot be read or decoded, or the report cannot be written out, it exits with a failure status; interrupted or short reads and writes that can be retried never change the report.",
  ["fault_sequences", "inputs"], "every failing, short or interrupted read, write or subprocess step",
  "The tool has no tests at all.",
  ["tools/neon_intrinsics/src/main.rs"], [("errors from reading and from the downloader are propagated to the exit status", "tools/neon_intrinsics/src/main.rs main")],
  observe=["exit status, standard output"])

p("C12", "The docs tool always terminates and never hides a read failure",
  "For every input file, including an empty one and one cut off at any byte, the documentation tool terminates and prints every section the file contains. If the file cannot be opened or completely read or decoded, or the output cannot be written, it exits with a failure status; interrupted or short reads and writes that can be retried never change the output.",
  ["fault_sequences", "inputs", "crash_points"], "every truncation point, every failing, short or interrupted read or write",
  "The tool has no tests at all.",
  ["tools/docs/src/bin/docs.rs"], [("line-driven state machine that ends at end of input", "tools/docs/src/bin/docs.rs main")],
  observe=["exit status, standard output, termination within a step budget"])

# ---- properties of pure functions of their arguments: no schedule, fault or history in them
p("C13", "Calls leave nothing behind and drop what they were given exactly once",
  "When a call returns or unwinds, every caller object it was given by value (a point stream, the values of a minimum or maximum) and every clone it made of one has been dropped exactly once or handed back as the result, and none is used after it was dropped. Making the same calls again and again, on one thread or on ever new ones, never makes the process hold more memory. No call does input or output of its own or changes the process's open files, threads, signal handlers or mask, timers, environment variables or limits. All this holds on every exit path, including a stream, sink or comparison that fails or panics at any point.",
  ["fault_sequences", "histories", "inputs", "configurations"], "every call and history of calls, every exit path, every item, clone, comparison or write at which the caller's part panics",
  "Tests pass slice iterators and plain numbers, for which a missing or repeated drop is invisible, never unwind through the library, and never look at the process afterwards.",
  ["src/collision.rs", "src/lib.rs", "src/vector.rs", "src/matrix.rs"], [("streams are owned by the construction and consumed by for loops", "src/collision.rs CreateFromPoints"), ("min/max move one argument out and drop the other", "src/lib.rs XMMin, XMMax"), ("no heap, no system calls", "src/*.rs")],
  observe=["drops of caller objects, heap in use after each round of the same calls, process state"])

p("C14", "Calls need only a small bounded stack",
  "Every call of an optimised build completes (or unwinds) on a stack of 64 KiB, as a signal stack or a fibre has, for every argument, every earlier history and every stream length, including a stream that panics anywhere: stack use does not grow with the data.",
  ["inputs", "histories", "fault_sequences", "configurations"], "every call and argument, streams of any length, every exit path",
  "Tests run on multi-megabyte stacks with streams of a few points.",
  LIB, [("no recursion, only small local arrays", "src/*.rs; src/collision.rs")], observe=["a fault on the inaccessible page below the call's stack"])

p("C20", "All backends agree", "For every input, the SSE2, SSE3, SSE4.1, AVX, F16C, FMA, AVX2 and scalar configurations compute the same result of every function: bit-identical for loads, stores, comparisons, selects, integer and bit operations, and within the documented error for estimates and fused arithmetic.", ["inputs", "configurations"], "all inputs and configurations", "Each configuration is tested alone on the same few constants.", LIB, [("cfg-selected blocks per function", "src/*.rs")])
p("C21", "Load and store round-trip", "For every bit pattern, storing a loaded value returns the same components, components a load does not cover read as zero, and matrix loads of every shape put each element in its row and column (with identity fill for the rest).", ["inputs"], "all 2^32 patterns per component", "A few constants per function.", ["src/convert.rs"], [("XMLoad*/XMStore*", "src/convert.rs")])
p("C22", "Numeric conversions saturate and round as documented", "Vector int/uint/float conversions with any exponent, and half/float conversion, give the documented truncated, saturated or nearest value for every input including NaN, infinities, denormals and out-of-range values; half to float to half is the identity on every half value.", ["inputs"], "all inputs and exponents 0..31", "A few constants.", ["src/convert.rs", "src/packed_vector.rs"], [("saturation masks; F16C or bit tricks", "src/convert.rs, src/packed_vector.rs")])
p("C23", "Comparisons follow IEEE and masks are all ones or all zeros", "Every comparison returns a full mask per component with IEEE semantics for NaN and signed zero; the 2-, 3- and 4-component predicates ignore the unused components; comparison records have all-true and all-false bits exactly when all or none compare true; in-bounds, NaN and infinity predicates agree with their per-component forms.", ["inputs"], "all inputs", "A few constants, rarely NaN.", ["src/vector.rs", "src/lib.rs"], [("compare + movemask", "src/vector.rs")])
p("C24", "Component selection is exact", "Swizzle, permute, shift, rotate, insert, select, merge, splat, get and set by component or index return exactly the addressed components bit for bit, and the compile-time forms equal the run-time ones.", ["inputs", "programs"], "all control values and all bit patterns", "A few control values.", ["src/vector.rs", "src/lib.rs"], [("shuffle immediates, control tables", "src/vector.rs, src/lib.rs, src/globals.rs")])
p("C25", "Elementary functions meet their error bounds", "Sine, cosine, tangent, inverse and hyperbolic functions, exponentials, logarithms, powers, roots, reciprocals, rounding and angle reduction are within their documented error of the true value over their documented domains, estimates within the looser bounds, and special inputs give the documented results.", ["inputs"], "all float inputs", "A few constants with loose tolerances.", ["src/vector.rs", "src/misc.rs"], [("minimax polynomials", "src/vector.rs, src/globals.rs")])
p("C26", "Vector algebra is right", "Dot, cross, length, normalise, reflect, refract, orthogonal, angle, line distance, interpolation and barycentric functions equal their mathematical definitions up to rounding; normalising zero gives zero and normalising an infinite-length vector gives NaN.", ["inputs"], "all inputs", "A few constants.", ["src/vector.rs", "src/misc.rs"], [("per-dimension implementations", "src/vector.rs")])
p("C27", "Matrix algebra is right", "Product, transpose, determinant and inverse satisfy their algebraic laws up to rounding for every matrix, a singular matrix is reported as such, and decomposing a composed scale-rotation-translation returns parts that recompose to it.", ["inputs"], "all matrices", "A few constants.", ["src/matrix.rs"], [("XMMatrixMultiply/Inverse/Determinant/Decompose", "src/matrix.rs")])
p("C28", "Quaternions and rotation matrices agree", "Every way to build the same rotation (axis-angle, Euler, matrix, quaternion) gives rotations that act the same on every vector, conversion both ways returns the same rotation, and slerp and squad interpolate at constant speed between their end points.", ["inputs"], "all rotations", "A few constants.", ["src/misc.rs", "src/matrix.rs"], [("XMQuaternion*, XMMatrixRotation*", "src/misc.rs, src/matrix.rs")])
p("C29", "View and projection matrices map the documented volume", "Look-at/look-to and perspective/orthographic builders map eye, near, far and frustum edges to the documented clip coordinates in both handednesses, and unproject inverts project.", ["inputs"], "all legal parameters", "A few constants.", ["src/matrix.rs", "src/vector.rs"], [("XMMatrixPerspective*/LookAt*, XMVector3Project/Unproject", "src/matrix.rs, src/vector.rs")])
p("C30", "Plane operations are right", "Planes built from points or point and normal contain their points, plane-line and plane-plane intersections lie on both operands, transforms and normalisation preserve the set of points on the plane.", ["inputs"], "all inputs", "A few constants.", ["src/misc.rs"], [("XMPlane*", "src/misc.rs")])
p("C31", "Collision tests are sound and symmetric", "For every pair of bounding volumes, triangles, rays and planes: containment implies intersection, disjoint never holds when a common point exists (up to rounding), A intersects B equals B intersects A, and ray distances point at the surface.", ["inputs"], "all inputs", "Random sampling of a few pairs.", ["src/collision.rs"], [("separating axis and closest feature tests", "src/collision.rs")])
p("C32", "Transformed and merged volumes enclose what they replace", "Transforming, merging or converting bounding volumes gives a volume containing every point of the operands' images up to rounding; corners and planes agree with containment tests.", ["inputs"], "all inputs", "A few constants.", ["src/collision.rs"], [("Transform/CreateMerged/CreateFrom*", "src/collision.rs")])
p("C33", "Out-of-contract arguments cannot corrupt memory", "Safe functions given indices, counts or enumerations outside their documented range panic or return an unspecified value, but never read or write outside their own arguments.", ["inputs"], "all argument values", "Tests pass legal indices only.", ["src/vector.rs", "src/lib.rs"], [("debug assertions and index macros", "src/lib.rs idx!, src/vector.rs")])
p("C34", "Operators equal the named functions", "Every operator overload and conversion on the wrapper types returns exactly what the corresponding named function returns, compound assignment equals the plain operator, and wrapper and array views alias the same components in order.", ["inputs"], "all inputs", "A few constants.", ["src/vector.rs", "src/matrix.rs", "src/lib.rs"], [("impl std::ops::* for XMVector/XMMatrix", "src/vector.rs, src/matrix.rs")])
p("C35", "Every build configuration selects exactly one backend", "For every combination of target features and cargo features the build script selects exactly one base backend and only extensions that are both enabled and not switched off, and the crate compiles.", ["configurations"], "all feature combinations", "Nine combinations are built.", ["build.rs", "Cargo.toml"], [("cfg emission", "build.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
