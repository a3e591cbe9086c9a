#!/usr/bin/env python3
# Source of properties.jsonl (kept readable here; run to regenerate).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s, "meaning": s, "where": files[0]} for s in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook or "none: decided through the public API"
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
W = "pwart/"
API = ["include/pwart.h"]
p("P01", "Integer operators compute exact WebAssembly results whatever their operands",
  "For every integer comparison, arithmetic, bit, shift, rotate and sign-extension operator, compiled code yields exactly the result the WebAssembly specification defines, for every operand value that does not trap. The result does not depend on where the operands come from (constant, parameter, local, memory, global, call result, pending expression) nor on how the result is consumed (returned, stored, branched on, selected on, tested again).",
  ["inputs", "programs", "configurations"], "all operand values x all operand origins x all consumers x both stack layouts",
  "Tests run each operator on a few values with parameters as operands; the code generator has a separate path for every pairing of operand places, and those pairings are not sampled.",
  [W+"opgen_num.c", W+"extfunc.c", W+"opgen_utils.c", W+"util.c"], [("operator translation", W+"opgen_num.c"), ("operand placement", W+"opgen_utils.c"), ("helper routines", W+"extfunc.c")],
  ["result of calling an exported function"])
p("P02", "Float operators follow IEEE-754 and WebAssembly rules for NaN and signed zero",
  "For every f32/f64 comparison, arithmetic, rounding, min, max, abs, neg, copysign and sqrt operator, compiled code yields the bit pattern WebAssembly defines (any NaN where the specification allows any NaN), including signed zeros, infinities, NaNs, subnormals and ties. The result does not depend on where the operands come from nor how the result is consumed.",
  ["inputs", "programs", "configurations"], "all operand values x operand origins x consumers x both stack layouts",
  "Tests use a few ordinary values (min, max and copysign only 0,0); NaN, signed zero and ties and the mix of operand places are not reached.",
  [W+"opgen_num.c", W+"extfunc.c"], [("float operator translation", W+"opgen_num.c"), ("float helper routines", W+"extfunc.c")], ["result of calling an exported function"])
p("P03", "Conversions and reinterpretations are exact for every in-range value",
  "Every wrap, extend, truncate, convert, promote, demote and reinterpret operator yields the exact WebAssembly result, correctly rounded, for every source value whose result is representable in the target type. This holds whatever the operand's origin and the result's consumer.",
  ["inputs", "programs", "configurations"], "all in-range source values x operand origins x consumers",
  "Tests convert a few small numbers; unsigned 64-bit halves, rounding ties and range edges need every boundary value in every place.",
  [W+"opgen_num.c", W+"extfunc.c"], [("conversion translation", W+"opgen_num.c"), ("conversion helpers", W+"extfunc.c")], ["result of calling an exported function"])
p("P04", "Straight-line programs keep every live value intact under any register pressure",
  "A function whose operand stack holds many live values of mixed types at once computes the same results as the WebAssembly semantics, however many values are live, in whatever order they are produced, spilled, swapped between classes and consumed. No live value is lost or replaced by another value.",
  ["programs", "configurations"], "all programs of bounded length over an instruction alphabet of mixed integer/float producers and consumers, up to many live values",
  "Tests keep a few values alive at a time; register allocation and spilling errors show only for particular shapes of the whole pending stack.",
  [W+"opgen_utils.c", W+"opgen_num.c", W+"opgen_misc.c"], [("register allocation and spilling", W+"opgen_utils.c")], ["result of calling an exported function"], ["pending operand stack"])
p("P05", "Structured control flow reaches the right place with the right values",
  "Every combination of nested block, loop, if/else, branch, conditional branch, branch table, return and select executes the same path and yields the same result values as the WebAssembly semantics, including branches that carry a value out past other pending operands, loops entered repeatedly and code that follows an unconditional branch.",
  ["programs", "inputs"], "all control skeletons up to a depth and size x all condition inputs",
  "Tests hold a handful of fixed shapes; errors appear for particular nestings, branch depths and pending operands.",
  [W+"opgen_ctl.c", W+"wagen.c"], [("block, branch and label handling", W+"opgen_ctl.c")], ["result and side effects of an exported function"], ["control stack"])
p("P06", "Locals start at zero and always read back the last value written",
  "A declared local reads as zero until written, on every call and with any number, type and grouping of locals and parameters, and afterwards reads as the last value set or teed on the executed path. A value already read from a local is unaffected by later writes to that local.",
  ["programs", "inputs", "configurations"], "all sequences of local reads, writes and tees over several locals of all types, across branches and calls",
  "Tests write then read; stale copies of a local kept on the pending stack appear only for particular interleavings of get/set/tee.",
  [W+"opgen_misc.c", W+"opgen_utils.c", W+"wagen.c"], [("local access", W+"opgen_misc.c"), ("function prologue", W+"wagen.c")], ["result of calling an exported function"], ["locals and their register caches"])
p("P07", "Calls pass arguments and results exactly, at any depth, in every kind of call",
  "Direct, recursive, host, multi-result and tail calls deliver every argument to the right parameter and every result to the right position in both documented stack layouts, for every signature mix. Values live in the caller across the call are unchanged, and the host's callee-saved registers and the bytes below its frame are untouched.",
  ["programs", "configurations", "inputs"], "all signatures up to a size over the value types x call kinds x live values around the call x both stack layouts",
  "Tests call functions with a few fixed signatures and never with many values live around a call.",
  [W+"opgen_ctl.c", W+"opgen_utils.c", W+"wagen.c", W+"pwart.c"]+API, [("call sequence", W+"opgen_ctl.c"), ("frame layout", W+"wagen.c")], ["results, host call arguments, callee-saved registers"])
p("P08", "Tables, references and indirect calls act on exactly the addressed entries",
  "Every sequence of table get, set, size, grow, fill, copy and indirect (tail) calls leaves each table with exactly the entries the WebAssembly semantics give and calls exactly the addressed function. A failed grow returns -1 and changes nothing.",
  ["histories", "programs"], "all operation sequences up to a depth over several tables",
  "Tests touch a table once or twice; overlapping copies, growth after growth, several tables and null entries need sequences.",
  [W+"opgen_mem.c", W+"extfunc.c", W+"opgen_ctl.c"], [("table instructions", W+"opgen_mem.c"), ("table helpers", W+"extfunc.c"), ("indirect call", W+"opgen_ctl.c")], ["results of exported functions, exported tables"], ["tables"])
p("P09", "Loads and stores touch exactly the addressed bytes with right width and sign",
  "Every load and store of every width, with any base, offset and alignment hint inside bounds, reads or writes exactly the addressed little-endian bytes, sign- or zero-extends correctly and changes no other byte. This holds whatever the origin of address and value operands, up to the last byte of memory.",
  ["inputs", "programs", "configurations"], "all load/store instructions x address and value origins x offsets x alignments x values",
  "Tests load and store aligned ordinary values; offset and base combinations, last-byte accesses and operand origins are not covered.",
  [W+"opgen_mem.c", W+"opgen_utils.c"], [("memory access translation", W+"opgen_mem.c")], ["results and full memory contents"])
p("P10", "Memory size, growth, fill and copy behave like the WebAssembly memory",
  "For every sequence of memory.size, memory.grow, memory.fill, memory.copy, loads and stores within bounds, returned values, page counts and the whole memory contents equal those of the WebAssembly semantics: growth returns the old size and adds zero pages, growth beyond the maximum returns -1 and changes nothing, and overlapping copies act as if through a temporary.",
  ["histories", "inputs"], "all operation sequences up to a depth with boundary arguments",
  "Tests grow once and copy once; failed growth followed by more operations and overlap in both directions need sequences.",
  [W+"extfunc.c", W+"opgen_mem.c", W+"modparser.c"], [("memory helpers", W+"extfunc.c"), ("memory instructions", W+"opgen_mem.c")], ["results, page count and memory contents"], ["memory"])
p("P11", "Several memories, 64-bit memories and host-provided memories do not mix",
  "In a module with several memories, some 64-bit-indexed, imported or host-provided, every instruction acts on exactly the memory it names with that memory's index width, and the other memories are unchanged.",
  ["programs", "configurations"], "all assignments of instructions to memories x memory kinds",
  "Tests use a single memory nearly everywhere.",
  [W+"opgen_mem.c", W+"modparser.c", W+"extfunc.c", W+"hostdef.c"], [("memory selection", W+"opgen_mem.c")], ["contents of every memory"], ["memories"])
p("P12", "Globals and constant expressions have exact initial values and updates",
  "Every global, of any type, mutable or not, own or imported, has the value of its initialiser expression (constants, other globals, references, and integer add/sub/mul) after instantiation, and each read yields the last value written by any sharer. Writing one global changes no other.",
  ["programs", "histories"], "all initialiser expressions up to a size x all global types x write/read sequences",
  "Tests read a few constants; negative 64-bit values, nested initialisers and neighbours of a written global are not covered.",
  [W+"modparser.c", W+"wagen.c", W+"opgen_misc.c"], [("constant expressions", W+"modparser.c"), ("global access", W+"opgen_misc.c")], ["exported globals, results"], ["globals"])
p("P13", "The same module in any legal binary encoding means the same",
  "A module encoded with any legal integer padding, local grouping, custom sections anywhere between sections, and any supported segment form loads and behaves exactly as in its shortest encoding. The caller may discard the bytes after loading, and nothing outside them is read.",
  ["inputs", "configurations"], "all encodings over the encoding-choice alphabet of representative modules",
  "Tests use the encoding one assembler emits.",
  [W+"modparser.c", W+"util.c", W+"wagen.c"], [("LEB128 decoding", W+"util.c"), ("section parsing", W+"modparser.c")], ["load result and behaviour"])
p("P14", "Instantiation places segments, runs nothing early, exposes exactly the exports",
  "After loading, tables and memories hold exactly the declared segments at their offsets with later segments over earlier ones, everything else is zero or null, each export name leads to exactly the declared item, absent names are reported absent, and the start function is reported but not run by the compiler.",
  ["programs", "configurations"], "all combinations of segment forms, offsets and exports up to a size",
  "Tests load a few modules with one segment each.",
  [W+"modparser.c", W+"pwart.c"]+API, [("segment initialisation", W+"modparser.c"), ("export lookup", W+"pwart.c")], ["export lookup, memory and table contents"])
p("P15", "Imports resolve by module, name and kind, and are shared by reference",
  "Each import is offered to the resolver with its exact module name, field name and kind, in order, and is bound to exactly the item the resolver answers. Imported memories, tables and globals are shared: a change made by any sharer is seen by all others.",
  ["histories", "configurations"], "all import lists up to a size over the kinds x sharing histories",
  "Tests import one or two items and do not check sharing in both directions.",
  [W+"modparser.c", W+"namespace.c", W+"pwart.c"], [("import section", W+"modparser.c")], ["resolver calls, contents seen by every sharer"])
p("P16", "A module that cannot load yields an error message and leaves the host intact",
  "A truncated, unresolvable or unsupported module, or one for whose memories, code generation or code no memory can be had, makes loading return an error text instead of a module, without terminating the process, reading outside the given bytes, or keeping memory after the compiler is freed. Loading other modules before and after is unaffected.",
  ["fault_sequences", "inputs"], "all truncation points of representative modules, all single unresolved imports, listed single defects, and every large allocation failing",
  "Tests load valid modules only.",
  [W+"modparser.c", W+"pwart.c", W+"wagen.c", W+"util.c"], [("error reporting", W+"def.h"), ("cleanup", W+"pwart.c")], ["return values, process liveness, allocation balance"])
p("P17", "Modules live and die independently and return all their memory",
  "Modules loaded from the same or different bytes share no state unless imported; freeing one, in any order, leaves the others working and returns every allocation made for it. Calling functions repeatedly allocates nothing that outlives the module.",
  ["histories"], "all sequences of load, call, free-compiler, free-module up to a depth over several modules",
  "Tests load modules and exit.",
  [W+"pwart.c", W+"modparser.c", W+"hostdef.c"], [("module lifetime", W+"pwart.c")], ["results after each step, allocation balance"])
p("P18", "A namespace is a faithful map of modules under every history",
  "After any sequence of defining host or WebAssembly modules, removing and finding them, a namespace finds exactly the modules currently defined under exactly their names, imports between modules resolve through it to the module defined at that time, and the built-in pwart_namespace_meta.this is the namespace itself. Removed or failed modules cannot be found.",
  ["histories"], "all operation histories up to a depth over a few names and module kinds",
  "Tests define two modules once.",
  [W+"namespace.c"], [("name map", W+"namespace.c")], ["find results, import binding"], ["module list"])
p("P19", "Built-in host functions do what their documentation says",
  "The built-in symbols offered to modules (memory allocation and access, native memory, host function and version queries, file and string helpers) return exactly what is documented in the calling convention of the current configuration and affect exactly the memory and files they are given.",
  ["inputs", "histories"], "all listed builtins x argument alphabets x call sequences up to a depth",
  "Tests call one or two of them.",
  [W+"extfunc.c", W+"hostdef.c", W+"namespace.c"], [("builtin symbol table", W+"extfunc.c")], ["results and memory after host calls"])
p("P20", "The stack helpers read and write the documented layout for every value sequence",
  "Putting any sequence of values with the stack helper functions and getting them back in the same order and types yields the same values at the documented offsets under each stack layout, and compiled code finds its parameters and leaves its results exactly there; a stack buffer has the size asked for, is aligned to 16, overlaps no other buffer and gives all its memory back when freed.",
  ["histories", "configurations"], "all type sequences up to a length x layouts",
  "Tests use a few fixed sequences.",
  ["include/pwart.h", W+"pwart.c", W+"hostdef.c"], [("stack helpers", W+"pwart.c")], ["stack bytes and returned values"])
p("P21", "Executable-memory allocation never overlaps, corrupts or leaks live code",
  "Under every sequence of allocations and frees of executable memory, every live block is disjoint from all others, aligned, keeps its contents and is executable, and memory released by the last frees is reusable.",
  ["histories"], "all allocate/free histories up to a depth over boundary sizes",
  "Tests allocate a few code blocks and free them in one order.",
  ["sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c"], [("free-list allocator", "sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c")], ["block addresses and contents"], ["free list"])
p("P22", "Threads may load, run and free modules at the same time",
  "When several threads concurrently create, compile, run and free independent modules, every interleaving gives each thread the results it would get alone, with no data race that changes an outcome, no deadlock and no corrupted allocation.",
  ["schedules"], "all interleavings up to a preemption bound of a few threads each performing short module lifetimes",
  "Tests are single-threaded.",
  [W+"extfunc.c", W+"pwart.c", "sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c", "sljit/sljit_src/sljitUtils.c"], [("shared builtin table", W+"extfunc.c"), ("allocator lock", "sljit/sljit_src/sljitUtils.c")], ["results per thread, allocator state"], ["global tables and allocator"])
p("P23", "Low-level JIT operations compute exact results and flags in every operand form",
  "Every low-level integer, float, conversion, shift, move and condition operation assembled through the JIT interface computes the documented result and status flags for every combination of register, immediate, memory and indexed-memory operands, whether or not registers coincide, and changes nothing else.",
  ["inputs", "programs"], "all operations x operand-form combinations x register aliasing x boundary values",
  "The JIT's own tests run fixed instruction lists.",
  ["sljit/sljit_src/sljitLir.c", "sljit/sljit_src/sljitNativeX86_common.c", "sljit/sljit_src/sljitNativeX86_64.c"], [("instruction encoding", "sljit/sljit_src/sljitNativeX86_common.c")], ["register, memory and flag effects of generated code"])
p("P24", "A serialized code generator state continues exactly like the original",
  "At any point of a low-level code sequence, saving the compiler state and restoring it into a new compiler, then finishing either one, yields code that behaves identically, with labels, jumps and constants intact.",
  ["programs", "histories"], "all cut points of all short code sequences over an alphabet with labels, jumps, constants and operations",
  "The JIT's tests serialize at three fixed points.",
  ["sljit/sljit_src/sljitSerialize.c"], [("serialization", "sljit/sljit_src/sljitSerialize.c")], ["behaviour and size of generated code"])
p("P25", "The growable native stack keeps contents and bounds under every resize history",
  "Under every sequence of resizes within limits a native stack reports the requested start, keeps the retained bytes, gives access to all of the current range, refuses resizes outside its limits without changing anything and returns its memory when freed.",
  ["histories"], "all resize histories up to a depth over boundary sizes",
  "Tests grow and shrink once.",
  ["sljit/sljit_src/sljitUtils.c"], [("stack allocation", "sljit/sljit_src/sljitUtils.c")], ["stack fields and memory"])
p("P26", "The regular-expression compiler matches exactly like its specification",
  "For every pattern in the supported syntax and every subject, the compiled matcher reports the match the documented rules define (leftmost start, longest end by default, shortest or whole-line modes under their flags), the same as a straightforward reference matcher.",
  ["programs", "inputs"], "all patterns up to a size over the syntax x all subjects up to a length over a small alphabet x flags",
  "Tests check about fifty pattern/subject pairs.",
  ["sljit/regex_src/regexJIT.c"], [("regex compiler and matcher", "sljit/regex_src/regexJIT.c")], ["match begin, end and id"])
p("P27", "Regex matching is independent of how the input is split and can be reset",
  "Feeding a subject to a matcher in any split into chunks, including empty ones, gives the same final match as in one piece, and after a reset a matcher behaves as new. Reports of being finished never precede a change of the reported match.",
  ["histories", "inputs"], "all splits of all subjects up to a length x patterns x resets",
  "Tests always feed the whole subject.",
  ["sljit/regex_src/regexJIT.c"], [("incremental matching", "sljit/regex_src/regexJIT.c")], ["match result after each chunk"])
p("P28", "Jumps, labels and rewritable constants resolve and patch correctly",
  "Generated code reaches the labelled target for every mix of forward, backward, near, far, conditional, computed and rewritable jumps, and label addresses; rewriting a rewritable jump or constant afterwards takes effect and changes nothing else.",
  ["programs", "histories"], "all jump/label graphs up to a size x distances x rewriting sequences",
  "Tests use fixed graphs.",
  ["sljit/sljit_src/sljitLir.c", "sljit/sljit_src/sljitNativeX86_common.c"], [("jump resolution", "sljit/sljit_src/sljitNativeX86_common.c")], ["path taken by generated code"])
p("P29", "The foreign-function bridge calls and is called back with exact values",
  "For every signature built from the supported types, calling a native function through the bridge passes every argument and returns the result exactly, and a callback created through the bridge delivers every argument to the module function and its result back, however many times it is invoked.",
  ["inputs", "histories"], "all signatures up to a length x boundary values x repeated invocations",
  "No test calls it.",
  ["pwart_syslib/libffi.c"], [("call bridge", "pwart_syslib/libffi.c")], ["native arguments and results"])
p("P30", "The event-loop bridge's thread primitives keep their contracts in every order",
  "Mutexes, condition variables, threads and dynamic libraries used by modules through the event-loop bridge behave like the native primitives they wrap, in every order of operations and under every schedule: each call performs exactly the wrapped operation on the object it names, results are found where the calling convention puts them, a created thread runs the given module function once with its exact 64-bit argument on a stack of its own, and everything allocated is released.",
  ["histories", "schedules"], "all programs of a few threads under all schedules with a bounded number of preemptions; all operation sequences up to a depth over a few objects",
  "No test calls it.",
  ["pwart_syslib/libuv.c"], [("wrappers", "pwart_syslib/libuv.c")], ["stack results and object state"])
p("P31", "Generated functions are entered, call and return by the calling convention",
  "For every function made with the native code generator - any argument types, saved and scratch register counts, local size and calling options - the generated code reads every argument, keeps the stack aligned at calls, keeps the caller's saved registers and stack, passes every argument and result of calls and tail calls exactly, and returns its value to the right address, by the C calling convention or the generator's own register-argument one.",
  ["programs", "inputs"], "all small signatures x register counts x local sizes x call and return forms, nested up to a depth",
  "The JIT's tests enter a fixed set of functions from C, which cannot see what the convention leaves behind.",
  ["sljit/sljit_src/sljitNativeX86_64.c", "sljit/sljit_src/sljitLir.c"], [("prologue, epilogue and calls", "sljit/sljit_src/sljitNativeX86_64.c")], ["registers, stack and arguments at each entry, call and return"])
p("P32", "Vector operations of the code generator are exact",
  "Every vector (SIMD) operation of the native code generator - moves, replication, lane access, extension, sign extraction, logic and shuffles - of every supported register and element size does exactly the documented thing to the vector, register or memory it names, for every register, lane, operand form, alignment, CPU feature set and encoding option, and changes no other vector, register, memory or flag; where it is not supported it says so, also when only asked, and generates nothing.",
  ["inputs", "configurations"], "all operations x element types x lanes x registers x operand forms x alignments x CPU feature sets",
  "The JIT's tests use a few registers, lanes and addresses per operation.",
  ["sljit/sljit_src/sljitNativeX86_common.c"], [("vector operations", "sljit/sljit_src/sljitNativeX86_common.c")], ["all vector and general registers, flags and memory after the operation"])
p("P33", "A module means the same however large it is",
  "Every count, index, length and nesting depth a module may contain - types, imported and own functions, globals, tables, memories, exports, segments and their contents, locals, parameters, branch labels, blocks, instructions, names, custom sections - keeps its value in every place the library stores or uses it, whatever its size: items at every position are found, called, read and written as themselves, nothing is refused except where a limit is reported with a message, and freeing the module returns everything.",
  ["inputs"], "every quantity a module may contain x every size up to a bound and sizes around the powers of two beyond it",
  "Test modules have a handful of entries per section; an overflowing field needs thousands.",
  [W+"modparser.c", W+"def.h", W+"wagen.c", W+"util.c"], [("counts and indices of the parser", W+"modparser.c"), ("growing arrays", W+"util.c")], ["results of calls, exports, tables and memories, allocation balance"])
p("P34", "Callbacks may load, call, free and define modules, nested to any depth",
  "Whatever a symbol resolver, a host function, or a host module's resolve, on_attached or on_detached does with the library while it runs - compiling and instantiating other modules, failing to, calling into any loaded module (the calling one included, on the same or another stack), growing memories, freeing modules not in use, defining, replacing, removing and looking up modules of the same or another namespace, nested to any depth - the outer operation ends as if the callback had done none of it except through the state they share: the outer load resolves every import with the request intact, the outer call returns what its module computes, each name of a namespace stands for the module last defined under it (found while on_attached runs, no longer found while on_detached runs), every callback runs exactly once, and nothing is leaked.",
  ["histories"], "every tree of operations, inner ones started inside the callbacks of outer ones, up to a bound",
  "Tests do nothing inside callbacks except read arguments; state kept in one place for an operation under way is overwritten only when another one starts in its middle.",
  [W+"namespace.c", W+"modparser.c", W+"pwart.c", W+"wagen.c", W+"util.c"], [("namespace changes and their callbacks", W+"namespace.c"), ("import resolution during parsing", W+"modparser.c")], ["results, arguments and frames of every call, lookups, callback counts, module state, allocation balance"])
p("P35", "WASI programs reach the system exactly as they asked",
  "Every function of the module wasi_snapshot_preview1 calls the wrapped library's function of that name exactly once with the arguments the guest passed, at full width, every address translated into the guest's present memory (wherever that has moved to) and every vector of buffers translated entry by entry, of any length; the result, the argument list and the environment arrive where the guest asked for them, nothing else is written and nothing is leaked. Initialising, failing to, loading, unloading and deleting the system modules in any order keeps exactly one live context, the names in the namespace and the user's modules right, and the command that runs a program passes its arguments, runs its start function and then _start once each, and reports what it cannot run.",
  ["inputs", "histories"], "all argument combinations from boundary values, all vectors, argument lists and environments up to a size, all life-cycle histories up to a depth, all shapes of program",
  "No test runs a WASI program or unloads the system library; each of the 46 functions has its own argument layout.",
  ["pwart_syslib/libwasi.c", "pwart_syslib/pwart_syslib.c", "pwart_syslib/wasiexec.c"], [("the wrapped functions", "pwart_syslib/libwasi.c"), ("loading and unloading", "pwart_syslib/pwart_syslib.c"), ("the command", "pwart_syslib/wasiexec.c")], ["calls and arguments received by the wrapped library, results, guest memory, namespace, allocation balance"])
p("P36", "The code generator survives running out of memory at any point",
  "Whichever allocation fails while code is generated (creating the compiler, any emission, the generation itself, the executable memory), and also when the user declares a memory error or the code is larger than the buffer the caller provides: the call that met it and every later call report that first error (null where an object is returned), no code is returned, nothing outside the given buffers is written, and freeing the compiler gives back every allocation. Code that fits into the caller's buffer is written into it and nowhere else, code that does not fit leaves it as it was. Without a failure the same calls succeed and the code works; a compiler that has generated its code emits and generates nothing more.",
  ["faults", "histories"], "all pairs of emission calls and every kind of every operand at every fill level of the generator's memory fragments, with every allocation failing in turn, every point of a declared error and every buffer size",
  "No test makes an allocation fail or fills a fragment to its last byte; each emission function has its own paths that must stop.",
  ["sljit/sljit_src/sljitLir.c", "sljit/sljit_src/sljitNativeX86_common.c"], [("error state and fragments", "sljit/sljit_src/sljitLir.c"), ("emission and generation", "sljit/sljit_src/sljitNativeX86_common.c")], ["return values and compiler error of every call, code, allocation balance, bytes around buffers"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
