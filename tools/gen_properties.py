"""Writes /verif/properties.jsonl (kept as code so that the lines stay well-formed)."""
import json, pathlib

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

OPT = "sonolus/backend/_opt/"

prop("C01", "Optimization never changes what a program does",
 "For every control flow graph, optimization level, mode and callback, executing the optimized program produces the same sequence of side effects (memory writes visible outside the callback, runtime calls with their arguments, debug output) and the same result as executing the unoptimized graph, for every initial memory contents and every runtime function result. In particular nothing is moved across, merged with, or removed in favour of an operation that could observe or change it.",
 ["programs", "inputs", "configurations"],
 "all control flow graphs (irreducible or not, nested loops, switches, temporaries of any size, dynamic addressing) x all levels x all modes/callbacks x all initial memories",
 "The stable tests sample a few hundred small generated graphs at one level with one interpreter seed; whole-pipeline tests over real programs are not runnable on this Python.",
 [OPT + "midend.pyx", OPT + "lower.pyx", OPT + "driver.pyx", OPT + "analysis.pyx", "sonolus/backend/optimize/__init__.py"],
 [("pass pipelines per level", OPT + "driver.pyx"), ("cfg cleanup, SSA, SCCP, GVN, LICM, DCE", OPT + "midend.pyx"), ("if conversion, out-of-SSA, treeify, fuse, dead store elimination", OPT + "lower.pyx")],
 observe=["run_passes", "optimize_and_finalize", "Interpreter.run"])

prop("C02", "Constant folding computes exactly what the runtime computes",
 "Whenever the optimizer evaluates an operation on known operands at build time, the value is bit-identical (including the sign of zero) to the value the reference runtime computes for those operands. Operations on which the runtime raises or has no real result, or whose selection could change under single-precision comparison, are left for the runtime.",
 ["inputs"], "all foldable operations x all double operand values (finite, denormal, infinities, NaN, signed zeros)",
 "Tests sample Hypothesis-drawn operands; a wrong guard on one operand region (a boundary, a sign of zero, an infinity) is a measure-zero event for sampling.",
 [OPT + "kernels.pyx", "sonolus/backend/interpret.py"],
 [("fold_op and its helpers", OPT + "kernels.pyx"), ("reference semantics", "sonolus/backend/interpret.py")],
 observe=["kernels.fold", "Interpreter.run"])

prop("C03", "Simplified expressions keep their value for every operand",
 "When an expression with operands that are not all known is rewritten, decided, merged with an equal expression or used to select a branch at build time, the replacement has the same value as the original for every value those operands can take (documented exceptions: the sign of a zero result, and multiplication by a known zero). A branch is dropped only if no operand values can take it.",
 ["inputs", "programs"], "all algebraic, lattice and branch-canonicalisation rules x all operand values, including NaN and infinities",
 "Each rule fires only on a particular operator/operand shape; the stable tests do not run the mid-end tests and never sample operands adversarially per rule.",
 [OPT + "midend.pyx"],
 [("sparse conditional constant propagation transfer and edge selection", OPT + "midend.pyx"), ("global value numbering identities", OPT + "midend.pyx"), ("branch canonicalisation", OPT + "midend.pyx")],
 observe=["run_passes", "midend entry points"])

prop("C04", "Emitted node trees execute the graph they were emitted from",
 "The engine node tree emitted for a control flow graph, when executed, runs each block's statements in order with the same operand values and memory addresses, then continues with exactly the successor the graph selects for the test value (first matching case, else the default, else exit), for every test value including non-integers, negatives, huge values and NaN. Every numeric constant is emitted with its exact value (infinities and NaN through the reserved read-only slots).",
 ["programs", "inputs"], "all graphs (any case sets, any number of successors, empty blocks, shared exits) x all test values x all addresses",
 "Tests pin a few dispatch shapes; the choice between the integer and general dispatch and the flattened/shifted address forms depends on the whole case set and on address structure.",
 [OPT + "emit.pyx", "sonolus/backend/node.py", "sonolus/backend/optimize/__init__.py"],
 [("_terminator_node/_switch_node dispatch", OPT + "emit.pyx"), ("_emit_numeric literal lowering", OPT + "emit.pyx"), ("_shifted_components address forms", OPT + "emit.pyx")],
 observe=["cfg_to_engine_node", "optimize_and_finalize"])

prop("C05", "The serialized node table decodes to exactly the trees put in",
 "For every sequence of node trees added to a node table, the index returned for each tree decodes, by following argument indices in the final table, to exactly that tree: same functions, same argument order and same numeric values. Indices returned earlier stay valid, every argument index refers to an earlier entry, and equal trees share one index.",
 ["inputs", "histories"], "all finite sequences of node trees with shared or equal subtrees, any arity, all numeric leaves",
 "No test exercises the table beyond what a build happens to produce; deduplication bugs need two different trees that collide.",
 ["sonolus/build/node.py", "sonolus/backend/node.py"],
 [("OutputNodeGenerator.add/get", "sonolus/build/node.py")],
 observe=["OutputNodeGenerator.add", "OutputNodeGenerator.get"])

prop("C06", "Temporaries that are live together never share memory",
 "After temporary allocation every temporary occupies its own whole range of slots inside the temporary memory block's capacity, and two temporaries whose values are needed at the same point of some execution never overlap; a program that cannot fit is rejected instead of being compiled wrongly.",
 ["programs", "configurations"], "all graphs with scalar and array temporaries of any size, at every allocation strategy/level, up to and beyond capacity",
 "Overlap only miscompiles when an allocation decision, a liveness hole and a later read coincide; tests check a handful of graphs.",
 [OPT + "lower.pyx", OPT + "analysis.pyx"],
 [("bump allocation", OPT + "lower.pyx"), ("interference packing", OPT + "lower.pyx"), ("liveness", OPT + "analysis.pyx")],
 observe=["allocate passes", "run_passes"])

prop("C07", "Merging values at joins behaves as one simultaneous assignment",
 "Replacing value merges at control-flow joins by copies has, on every incoming edge, the effect of assigning all merged values simultaneously: no copy reads a location another copy of the same edge has already overwritten, cyclic exchanges included, and nothing else is overwritten.",
 ["programs", "inputs"], "all sets of merged values per edge (chains, cycles, duplicated sources, self copies, constants), all loop structures",
 "Swap and lost-copy problems need particular cyclic patterns across loop back edges; the tests for this pass do not run here and only sample patterns.",
 [OPT + "midend.pyx", OPT + "lower.pyx"],
 [("parallel copy sequentialisation", OPT + "midend.pyx"), ("out-of-SSA and coalescing", OPT + "lower.pyx")],
 observe=["run_passes", "unssa/lower phases"])

prop("C08", "Rewriting switches keeps every value going to the same case",
 "When a multi-way branch is formed from comparisons or its cases are renumbered into a dense range, every possible test value (integer or not, inside or outside the case range, NaN or infinite) reaches the same target as before.",
 ["programs", "inputs"], "all case sets (any spacing, offset, sign, duplicates, fractions) x all test values",
 "Only case sets with particular gcd/offset structure take the rewritten path and only test values just outside or between cases expose an error.",
 [OPT + "lower.pyx", OPT + "midend.pyx", OPT + "emit.pyx"],
 [("_normalize_switch, _offset_stride, _dense_offset_stride, _gcd", OPT + "lower.pyx"), ("rewrite_switch", OPT + "midend.pyx"), ("_switch_node", OPT + "emit.pyx")],
 observe=["run_passes", "optimize_and_finalize"])

prop("C09", "Fused read-modify-write operations equal the statements they replace",
 "Whenever a store of an arithmetic expression over the stored location's own current value is replaced by a single read-modify-write runtime function, the location ends with the same value, every other location is unchanged, every operand expression is evaluated the same number of times with the same values, and the value the expression yields is the one its uses expected.",
 ["programs", "inputs"], "all store shapes (direct, indexed, pointed, shifted addresses), all operators, both operand orders, all operand values",
 "Fusion fires on structural equality of the store address and a load inside the value; near misses (different offsets, non-commutative order, intervening writes) are not enumerated by tests.",
 [OPT + "lower.pyx", OPT + "emit.pyx", OPT + "midend.pyx", "sonolus/backend/interpret.py"],
 [("fuse_rmw/_fused_set_op", OPT + "lower.pyx"), ("_emit_fused_rmw", OPT + "emit.pyx"), ("pointer fusion", OPT + "midend.pyx")],
 observe=["run_passes", "optimize_and_finalize", "Interpreter.run"])

prop("C10", "The reference interpreter implements the runtime's node semantics",
 "Executing a node tree evaluates arguments in order and exactly as often as the runtime does, short-circuits, branches, loops, blocks and breaks as specified, and reads back from memory exactly the last value written at that address (-1 if never written), rejecting invalid addresses; each read-modify-write, pointed and shifted form equals its expansion into plain reads and writes, and each arithmetic function equals its mathematical definition.",
 ["inputs", "programs", "histories"], "all node trees, all addresses, all operand values, all write/read histories",
 "It is the oracle of the other tests, so nothing tests it against an independent definition.",
 ["sonolus/backend/interpret.py"],
 [("Interpreter.run dispatch", "sonolus/backend/interpret.py"), ("memory get/set", "sonolus/backend/interpret.py")],
 state=[("blocks", "memory contents per block id", "sonolus/backend/interpret.py")],
 observe=["Interpreter.run", "Interpreter.get", "Interpreter.set"])

prop("C11", "Optimizer-facing constants and IR values never change after creation",
 "Creating IR constants, places, instructions or nodes never alters any previously created one: a constant keeps the value and numeric type it was created with for the rest of the process, equal values compare equal, and running the optimizer leaves the graph it was given unmodified.",
 ["histories", "inputs"], "all sequences of constructions and optimizer calls, all numeric values including signed zeros, booleans, integer-valued floats",
 "Sharing of cached small constants only corrupts something when two differently typed or signed equal values are created in one process in a particular order.",
 ["sonolus/backend/ir.py", "sonolus/backend/place.py", OPT + "ir.pyx", "sonolus/backend/optimize/__init__.py"],
 [("IRConst instance cache", "sonolus/backend/ir.py"), ("marshal_in reads only", OPT + "ir.pyx")],
 observe=["IRConst", "run_passes", "cfg_to_engine_node"])

prop("C12", "Control-flow analyses describe every possible execution",
 "For every control flow graph: a block dominates another exactly if every path from entry to it passes through the first; a variable is live at a point exactly if some path from there reads it before overwriting it (conservatively for arrays); and the loops reported are exactly the natural loops of back edges.",
 ["programs"], "all graphs with any number of blocks, parallel edges, unreachable parts, irreducible regions",
 "Fixed-point analyses go wrong only on graphs whose iteration order delays propagation (irreducible, deep back edges); tests sample a few small graphs.",
 [OPT + "analysis.pyx", "sonolus/backend/optimize/flow.py"],
 [("compute_dominators", OPT + "analysis.pyx"), ("liveness", OPT + "analysis.pyx"), ("find_loops", OPT + "analysis.pyx"), ("graph traversals", "sonolus/backend/optimize/flow.py")],
 observe=["analysis debug entry points", "traverse_cfg_*"])

prop("C13", "Callbacks can only touch memory their mode allows",
 "In every mode and callback, compiling a program that reads a memory block the callback may not read, or writes one it may not write, is rejected; accesses the mode allows are accepted. The optimizer treats a location as unchanging only if the callback cannot write it.",
 ["configurations", "programs"], "all modes x all callbacks x all memory blocks x read/write",
 "The table has hundreds of entries and tests look at few; an over-permissive entry compiles silently.",
 ["sonolus/backend/blocks.py", "sonolus/backend/mode.py", "sonolus/script/internal/context.py", OPT + "ir.pyx"],
 [("block permission tables", "sonolus/backend/blocks.py"), ("check_readable/check_writable", "sonolus/script/internal/context.py"), ("writability resolution at marshal-in", OPT + "ir.pyx")],
 observe=["compile_mode", "run_passes"])

prop("C14", "Collections are content-addressed and self-consistent",
 "Every asset added to a collection is stored and written under the SHA-1 of its exact bytes and referenced by that hash; every item written can be read back with the contents it was given, item files and listings never overwrite one another, listings contain every item exactly once, and nothing is read or written outside the given directory whatever names and archives are supplied.",
 ["inputs", "histories"], "all item names, categories, asset contents, archive entry names and orders of add/load/update/link operations",
 "One test covers the collection; name collisions, linking of shared items and odd archive entries are never exercised.",
 ["sonolus/build/collection.py"],
 [("add_asset/add_item/get_item", "sonolus/build/collection.py"), ("load_from_scp/load_from_source", "sonolus/build/collection.py"), ("write/link", "sonolus/build/collection.py")],
 state=[("repository", "hash to bytes or path", "sonolus/build/collection.py"), ("categories", "category to item", "sonolus/build/collection.py")],
 observe=["Collection.write", "Collection.load_from_scp"])

prop("C15", "Compiled ranges behave exactly like Python ranges",
 "For all integers start, stop and non-zero step, a range in compiled code has the same length, the same elements in the same order under iteration, the same element at each valid (possibly negative) index, and the same membership and equality answers as Python's range with those arguments.",
 ["inputs"], "all integer start/stop/step (positive and negative), all indices and membership candidates",
 "No script tests run on this Python; those that exist sample small ranges.",
 ["sonolus/script/internal/range.py", "sonolus/script/array_like.py"],
 [("Range/RangeIterator", "sonolus/script/internal/range.py"), ("get_positive_index", "sonolus/script/array_like.py")],
 observe=["range() in compiled code", "Range"])

prop("C16", "Fixed-capacity containers behave as lists, sets and maps",
 "In compiled code, after any sequence of operations a variable-size array equals the Python list, an array set the Python set and an array map the Python dict obtained by the same operations (contents, order where documented, lengths, return values, membership, iteration), elements beyond the operation's scope are untouched, and operations that exceed capacity or use invalid positions or missing keys trip the runtime check instead of corrupting the container.",
 ["histories", "inputs"], "all operation sequences, sizes up to capacity, all element values, valid, negative and invalid indices, full and empty containers",
 "No script tests run on this Python; shifting loops err at boundaries (first, last, full, empty, aliased source) that samples miss.",
 ["sonolus/script/containers.py", "sonolus/script/array.py", "sonolus/script/array_like.py"],
 [("VarArray", "sonolus/script/containers.py"), ("ArraySet/ArrayMap/FrozenNumSet", "sonolus/script/containers.py"), ("ArrayLike mixin", "sonolus/script/array_like.py")],
 observe=["compiled operations", "Interpreter memory"])

prop("C17", "Sorting and searching arrays are correct for every content",
 "In compiled code sorting an array (any length, with or without key, ascending or descending, keyed sorts stable) or a linked list of entities leaves a sorted permutation of the original with consistent links; reversing, counting, first/last index and index of minimum/maximum agree with the same operation on a Python list.",
 ["inputs"], "all array contents and lengths (both sides of the algorithm switch), all keys, duplicates",
 "Permutation and ordering must hold for every content; no script tests run on this Python.",
 ["sonolus/script/array_like.py", "sonolus/script/containers.py"],
 [("_insertion_sort/_heap_sort/_heapify", "sonolus/script/array_like.py"), ("linked list merge sort", "sonolus/script/containers.py")],
 observe=["ArrayLike.sort/reverse/index/count", "sort_linked_entities"])

prop("C18", "Interpolation and interval functions satisfy their defining equations",
 "For all real arguments: lerp and unlerp are inverse and hit both endpoints, remap is the affine map taking one interval to the other, the clamped variants equal the unclamped ones inside and saturate outside, clamp, interval containment, intersection, shrink, expand and arithmetic match their set definitions, and piecewise interpolation passes through every given point, is linear between neighbours and extrapolates or saturates as documented. The compile-time, plain-Python and runtime-function forms agree.",
 ["inputs"], "all real arguments and breakpoint sequences",
 "No script tests run on this Python; boundary segments and reversed intervals are rarely sampled.",
 ["sonolus/script/interval.py", "sonolus/backend/interpret.py"],
 [("lerp/unlerp/remap/clamp/interp families", "sonolus/script/interval.py"), ("Interval", "sonolus/script/interval.py")],
 observe=["functions of sonolus.script.interval"])

prop("C19", "Easing functions satisfy their family identities everywhere",
 "Every easing function is 0 at 0 and 1 at 1 and clamps its argument to [0, 1] as the runtime does (expo and elastic, whose curves only come close to 0 and 1, take these values exactly at the two outer ends); the out form is the point reflection of the in form, and the in-out and out-in forms are their half-scale compositions (in-out back and elastic with the customary adjusted constant), for every argument. The plain-Python form, the compile-time evaluation and the runtime function agree.",
 ["inputs"], "all 36+ easing functions x all real arguments",
 "Tests sample a few points per function; family identities over the whole interval are not checked.",
 ["sonolus/script/easing.py", "sonolus/backend/interpret.py", OPT + "kernels.pyx"],
 [("easing definitions", "sonolus/script/easing.py"), ("_EASE_FUNCS", "sonolus/backend/interpret.py"), ("_fold_ease", OPT + "kernels.pyx")],
 observe=["ease_* functions"])

prop("C20", "Vectors, quads, transforms and matrices obey their geometry",
 "For all real arguments: vector arithmetic, dot, magnitude, rotation and orthogonals satisfy their definitions; quads, rects and their translate/scale/rotate/permute operations act pointwise as the stated map; composing transforms equals applying them one after another, each elementary transform acts on points by its definition, and inverses undo.",
 ["inputs"], "all real coordinates, angles and factors",
 "No script tests run on this Python; sign and axis mix-ups in 2D/3x3 formulas survive symmetric samples.",
 ["sonolus/script/vec.py", "sonolus/script/quad.py", "sonolus/script/transform.py"],
 [("Vec2", "sonolus/script/vec.py"), ("Quad/Rect", "sonolus/script/quad.py"), ("Transform2d/InvertibleTransform2d", "sonolus/script/transform.py")],
 observe=["methods of Vec2, Quad, Rect, Transform2d"])

prop("C21", "Comparable floats order exactly like the tuples they encode",
 "For all tuples of (value, limit) pairs with 0 <= value < limit and a product of limits below 2^31, the encoded float is an exact single-precision number, and two encodings compare exactly as the value tuples compare lexicographically. Quantization returns a step index within the total and, inside the range, the step nearest to the value (at most half a step away), except that the last step also covers the values above it up to the end of the range (less than one step away).",
 ["inputs"], "all values and limits (constant or runtime), all ranges and steps",
 "2^31 codes with carries between 16-bit halves; tests sample few and do not run on this Python.",
 ["sonolus/script/numtools.py"],
 [("_UInt32 arithmetic", "sonolus/script/numtools.py"), ("_uint32_to_comparable_float", "sonolus/script/numtools.py"), ("quantize_to_step", "sonolus/script/numtools.py")],
 observe=["make_comparable_float", "quantize_to_step"])

prop("C22", "Compiled Python means what Python means",
 "A function in the supported language compiles to a program that, for every input, has the same control flow, variable values, evaluation order and results as running the same function in Python: branches, loops with else/break/continue, short-circuit and chained comparisons, conditional expressions, match statements, augmented and tuple assignment, nested calls with defaults, keywords and closures, and record/array mutation through references. Unsupported or ill-defined uses are rejected at compile time rather than miscompiled.",
 ["programs", "inputs"], "all programs in the supported subset x all inputs",
 "No script tests run on this Python; each construct interacts with each other construct, and inputs are sampled.",
 ["sonolus/script/internal/visitor.py", "sonolus/script/internal/context.py", "sonolus/script/internal/builtin_impls.py", "sonolus/build/compile.py"],
 [("AST visitor", "sonolus/script/internal/visitor.py"), ("scope merge and loop headers", "sonolus/script/internal/context.py")],
 observe=["callback compilation followed by execution"])

prop("C23", "Number operations give one answer at compile time and at run time",
 "For every numeric operator and math function and all finite operand values, evaluating it on compile-time constants, on a mixture of constants and runtime values, and entirely at run time give the same value as Python does (up to the sign of zero and documented runtime rounding), and an operation Python would reject on constants is deferred to the runtime instead of failing the build of unreachable code.",
 ["inputs", "configurations"], "all operators x all operand values x every split of operands into constant and runtime",
 "The constant shortcuts (0, 1, -1, equal operands, NaN, overflow) are special cases sampling does not hit; no script tests run on this Python.",
 ["sonolus/script/num.py", "sonolus/script/internal/native.py", "sonolus/script/internal/math_impls.py", "sonolus/script/internal/builtin_impls.py"],
 [("Num operators and const_fn shortcuts", "sonolus/script/num.py"), ("native_function const_eval", "sonolus/script/internal/native.py")],
 observe=["compiled expressions"])

prop("C24", "Declared storage never overlaps and values survive a round trip",
 "Fields of an entity, level-global and record storage occupy pairwise disjoint slots of their memory block, inside its size limit (else the build is rejected); a value of any record, array or nested type written to storage or flattened to its list form reads back as the same value; copying a value detaches it from the original while reference access does not.",
 ["configurations", "inputs"], "all field layouts of nested records/arrays/numbers in each storage class, all values",
 "Layout errors show only when two particular fields are both used; no script tests run on this Python.",
 ["sonolus/script/archetype.py", "sonolus/script/globals.py", "sonolus/script/record.py", "sonolus/script/array.py", "sonolus/script/internal/context.py"],
 [("archetype field offsets", "sonolus/script/archetype.py"), ("global base allocation", "sonolus/script/internal/context.py"), ("record/array flattening", "sonolus/script/record.py")],
 observe=["compiled reads and writes", "_to_list_/_from_list_"])

prop("C25", "Random helpers stay in range and permute",
 "For every result of the underlying random source, random integers and range picks are members of the corresponding Python range, floats lie in the documented interval, a choice is an element of the sequence, and shuffling yields a permutation in which every arrangement is reachable.",
 ["inputs", "histories"], "all bounds and steps, all sequences, all outcomes of the random source",
 "Tests sample random outcomes; the extreme outcomes of the source have negligible probability.",
 ["sonolus/script/internal/random.py", "sonolus/backend/interpret.py"],
 [("_randrange/_randint/_choice/_shuffle", "sonolus/script/internal/random.py")],
 observe=["compiled random functions"])

prop("C26", "Building is deterministic",
 "Building the same project twice, in the same or in different processes, with any hash seed, produces byte-identical engine data, and optimizing the same graph always yields the same output independent of what was compiled before.",
 ["histories", "configurations"], "all programs x all process histories x all hash seeds",
 "A test runs in one process with one hash seed.",
 ["sonolus/build/engine.py", "sonolus/build/compile.py", OPT + "driver.pyx", OPT + "ir.pyx"],
 [("ordered traversal of graphs and names", OPT + "ir.pyx"), ("sorted bindings", "sonolus/script/internal/context.py")],
 observe=["package_engine output", "optimize_and_finalize"])

prop("C27", "Streams read back what was written, in key order",
 "For every declaration of streams, stream groups and data fields, distinct fields, streams and components never share a stream id, a field added at the end moves no earlier one, and a value written in play mode is read in watch mode component by component at the same id and key. Key queries (membership, next, previous, inclusive and default forms) answer as documented for every stream content, and iteration from a key, in descending order, or since the previous frame yields exactly the keys (or items, or values) in that range, each once and in order. Reading outside watch mode and writing outside play mode is rejected.",
 ["inputs", "programs", "histories"], "all stream contents, keys, starts, frame times and group indices, all declarations, all modes",
 "No test touches streams except through recorded output of one example project; boundary keys (the last key, a key exactly at a frame's time, an empty stream) do not occur in it.",
 ["sonolus/script/stream.py", "sonolus/script/runtime.py"],
 [("streams/_StreamField/_StreamDataField", "sonolus/script/stream.py"), ("Stream/StreamGroup", "sonolus/script/stream.py"), ("stream iterators", "sonolus/script/stream.py"), ("prev_time", "sonolus/script/runtime.py")],
 observe=["Stream operations of compiled callbacks"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
