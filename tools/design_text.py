NUMT = "Oracle: `num.h`, an independent statement of the operator in C integer arithmetic (floats: IEEE in the host FPU with WebAssembly's NaN, min/max, nearest and sign rules), inside the interpreter of `wasm.h`. Why tests cannot: the JIT picks a different instruction sequence for every combination of operand location, immediate size, result location and following instruction; the tests sample a handful, the check runs all combinations with every boundary value."
TEXT = {
"P01": NUMT, "P02": NUMT, "P03": NUMT + " Values whose conversion would trap are outside the statement (the library does not implement traps).",
"P04": "Oracle: the interpreter. The register allocator and spiller work on the whole operand stack, so every sequence of operations is tried above every kind of prefix of pending values, and the entire remaining operand stack is returned and compared. The library refuses functions that need more than 31 pending operands (with an error message: allowed by P16). The operators that evaluate several operands into one address or call (loads, stores, bulk memory and table operators, indirect calls) each have their own spill and recover code and are therefore crossed one by one with every number of pending values and with every way their operands can be held (space state-operators; written after a mutant in that code had survived).",
"P05": "Oracle: the interpreter; the executed path is observed through a trace global which every mark multiplies and adds to. All trees of constructs up to the size, so that each kind of construct meets each other inside, after and under pending operands and dead code. Unreachable code has two spaces of its own (written after mutants there had survived): sequences of stack-polymorphic operators behind every terminator in every context, and every operator of the instruction set with immediates whose bytes look like block, else and end; nothing there may be executed, be rejected, or disturb the code behind it.",
"P06": "Oracle: the interpreter. The stack below the call is filled with rubbish first, so that a missing zero initialisation is visible. Locals are placed by the compiler in registers or on the native stack by count and type; declaration shapes cross all those limits.",
"P07": "Oracle: the interpreter, which also defines both documented stack layouts; a hand-written assembly trampoline around the call checks callee-saved registers and a guard pattern below the host's frame.",
"P08": "Oracle: model tables in the interpreter; all entries of all tables are compared after every history.",
"P09": "Oracle: the interpreter's byte array; the whole memory is compared after every call, so that a wrong width or address cannot hide. Memories above 2 GiB are mapped lazily.",
"P10": "Oracle: the interpreter's memory with the page count; the whole content is compared. The host's allocator is wrapped to make growth fail.",
"P11": "Oracle: one interpreter memory per declared memory, all compared after each history.",
"P12": "Oracle: the interpreter (globals are shared cells; constant expressions are evaluated on a separate stack machine).",
"P13": "Oracle: the interpreter runs the abstract module and never sees an encoding. The encoded bytes lie directly before an inaccessible page and in memory that is read-only during the load and is overwritten afterwards.",
"P14": "Oracle: the abstract module laid out by the interpreter; out-of-bounds segments must be an error (with nothing written outside), which is also what the library's documentation of load errors says.",
"P15": "Oracle: a list model of what the resolver must be asked (order, names, kinds) and of sharing. Correction made during development: the import name limit counts two terminators, so the check only requires module+field names of up to 490 bytes to be accepted and never a crash beyond.",
"P16": "Oracle: `error text returned, nothing written, nothing left allocated after free`, using a wrapping allocator with block counting (`alloc.h`), inaccessible pages around the bytes, and a good module that is called before and after. Modules that are well-formed but happen to load are compared with the interpreter instead. In the space no-memory each allocation of 4096 bytes or more (the working memory of the code generator, memories) and each executable mapping fails in turn while good modules are loaded; small allocations (lists of the parser) are outside, their failure is not handled anywhere. Found and repaired: a module whose code could not be generated was loaded with null functions.",
"P17": "Oracle: model instances (interpreter states) plus block accounting of every malloc, mmap and executable allocation between load and free.",
"P18": "Oracle: a map from names to module ids, with a count of attach and detach notifications. Correction made: a removed module may be reported either as absent or as an entry of type 0, and the clause about listing names was dropped from the statement since there is no listing interface.",
"P19": "Oracle: the C library itself (memory, strings, files in a scratch directory) and the documented formulas. Correction made: `ref_from_index` whose constant operand has been spilled by control flow may be refused with an error instead of computed.",
"P20": "Oracle: an independent calculation of offsets from the documentation (`pwart.h`) for both layouts.",
"P21": "Explicit-state exploration of alloc/free histories on the real allocators (the default one, the two-mappings one and the W^X one, built from the same sources), with a block-set model; contents are checked after each step, generated code is run. The policy for keeping free chunks is not part of the property, only that released memory is reusable.",
"P22": "The library is compiled with the compiler's thread instrumentation, whose callbacks the harness defines itself; every thread is a coroutine (`conc.h`) and the pthread functions are the harness's. Before every access to static data that some thread writes, to heap blocks that threads share, to words of executable memory, at every lock operation and in host functions the explorer decides who goes on. What is shared is found by a pre-pass over all programs (also counted during the exploration). The static data of the library lies in a section of its own and is restored before every execution, so that every execution begins in a fresh process; heap and mappings are at fixed addresses. Oracle: the results of the same thread alone. Found and repaired: the table of builtin symbols was built lazily and published half-built.",
"P23": "Oracle: `lir.h`, an independent model of the low-level interface (registers, memory areas, flags) written from `sljitLir.h`. Each case is compiled with the real code generator, entered through a trampoline, and all registers, both memory arenas and the local area are compared. Results the interface leaves unspecified are not compared; MEM2 on the stack pointer is illegal and not generated.",
"P24": "Oracle: the models of P23 and P28, and equality of the label, jump and constant lists at every cut. Every emission call of the P23/P28 harnesses goes through a macro which first saves, restores and replaces the generator; objects handed out earlier are translated by position. False alarm corrected: a save that fails for lack of memory leaves the generator in its out-of-memory state, like every other call.",
"P25": "Oracle: a byte array with the current range. Both implementations (mmap growing and plain malloc) are built from the same sources.",
"P26": "Oracle: `regex.h`, an own parser of the syntax and an own matcher (set propagation over the syntax tree: position -> highest id), leftmost begin, then longest (or shortest) end, then highest id; in line mode an anchor also holds next to a CR or LF. Subjects end at an inaccessible page. Nine defects of the engine were found and repaired this way (see known_findings.tsv).",
"P27": "Oracle: as P26, applied to everything fed since the last reset, after every piece. `Finished` is judged against the reference results of all continuations inside the length bound: nothing may change any more, and it stays finished.",
"P28": "Oracle: the block graph: every block records its number, so the path through the generated code is compared, then registers and memory as in P23. False alarm corrected: a rewritable 32-bit constant stored to memory writes a whole word, as its size is documented. Flags after ADD_ABS_ADDR are not checked.",
"P29": "Oracle: the values themselves. Native targets and callbacks are assembly stubs that record every argument register and stack slot, so nothing depends on C prototypes; the callback side runs compiled modules. The bridge is also built with the feature disabled, where it must offer the same names and refuse cleanly.",
"P30": "Every thread of the module is a coroutine; the harness defines the pthread functions below the real libuv, and at every such function and every call out of the module the explorer chooses who goes on (`conc.h`): all schedules up to the preemption bound. Programs may deadlock (both orders of two locks, a wait nobody signals); that is an outcome, not a finding. Monitored: the primitive operation behind every call, mutual exclusion, lost updates, thread arguments and survival of locals over switches, blocks left.",
"P31": "Oracle: a hand-assembled caller and callee (no compiler in between) that record every register and the stack around each entry, call and return. Preserved registers hold distinct patterns; stubs record their arguments and stack alignment and then scrub all caller-saved registers; return addresses are compared with the call site. Register-argument functions are entered with the generator's own registers set directly. The C convention used is System V; the Win64 half of the same file is not compiled here.",
"P32": "Oracle: the documented effect, written byte by byte over plain arrays. Hand-assembled code called before and after the operation loads and records all sixteen 256-bit machine vectors and the flags; general registers are recorded by P31's stub. Each operation runs twice, with different data and all flags clear or set. Memory operands have exactly the alignment that is declared, or lie at the very end of a page with an inaccessible neighbour. Upper halves left by 128-bit operations are unspecified; everything else outside the destination is compared. CPU feature sets are set through the (file-static) feature list. Refusals are accepted only if consistent with SLJIT_SIMD_TEST and without any code or error left behind. Three genuine defects were found and fixed (see known_findings.tsv).",
"P33": "Oracle: arithmetic on the size. Each module is written straight into bytes by the harness (not through the other harnesses' program representation, which has limits of its own) around one quantity of size N, such as N types with the last ones used for a definition, an import and an indirect call; what every query must give follows from N and the position asked. All positions are queried for small N, otherwise the ends and the neighbours of the powers of two. The quick tier visits every size to 300 and 44 sizes to 131073. Accepted limits, each reported with a message: 4096 locals, 255 parameters, names of 256 (512) bytes, the operand stack. Found: field widths of 16 bits for the number of own tables and memories (entries of 65536 tables were never freed) and for the memory whose base is cached (compiling crashed with more than 32767 memories); fixed.",
"P34": "Oracle: a reference model of modules (word, global, pages), names and host modules updated beside every operation. A program is a tree: every operation that has a callback (load: the resolver; call: the host function, at either of its calls in an importing module; definition: on_attached or on_detached; removal: on_detached) may contain further operations, which the harness runs inside that callback. The tree is grown against an abstract state, so all and only the permitted trees are enumerated (a module that is running or being imported from is not freed). After every operation all modules and names are compared. Space host-modules uses two or three host modules and one or two namespaces, all other spaces three kinds of WebAssembly module (memory that may grow, fixed memory, all imports from another module). Found: a host module's on_detached ran before the name was cleared (documented the other way round), and the clearing went through a pointer into the array of modules, which dangles when on_detached defines a module; fixed.",
"P35": "Oracle: the published WASI preview 1 signature of each function (a table in the harness, not taken from the code) and the prototypes of libuvwasi. The library is not installed here, so `harness/uvwasi/uvwasi.h` declares the same types and prototypes and the harness defines the functions: they record what they receive and write chosen results where they are told. The bridge itself is /repo's code, called by a compiled guest module per function through a namespace filled by pwart_syslib_load. The guest's memory is a 4 GiB mapping, so every 32-bit address is used for real; what the bridge writes is compared byte for byte around all places. The command's main() runs in-process under another name, with its messages captured. What is outside: what libuvwasi does with the calls, and addresses beyond the guest's memory (nothing in pwart checks those). Found and repaired: sock_recv and sock_send handed the guest's 8-byte vector entries to the library as 16-byte native ones (any host address could be read or written); long vectors ran over the end of the wasm stack; environ_get, environ_sizes_get and initialisation leaked; unload crashed when WASI was not loaded and left the deleted modules in the namespace; the command crashed on a missing file, and refused to run anything after warning that it would go on without WASI.",
"P36": "Oracle: one flag, \"which error has happened first\", kept beside the calls as sljitLir.h documents it (sljit_get_compiler_error, sljit_set_compiler_memory_error); what each call must return follows from it. The allocator is the counting one of alloc.h: the harness chooses which allocation, or the mapping of executable memory, fails, and fills the instruction and object fragments to every distance from their end so that each emission function meets the failure in each of its own allocations. A buffer given by the caller ends at an inaccessible page. Executable mappings carry guards (execguard.h), so code that is larger than was reserved is seen. The space 'wide' walks through all operand kinds of every emission function (the library's own argument checks are on and accept every call made), so each of the several instructions a call is made of meets the failure. Found and repaired: negation and absolute value of a float register wrote through a null pointer when memory ran out in their second instruction (WebAssembly's f32.neg, f64.abs and the like reach it), and reversing a 16-bit immediate wider than 32 bits aborted.",
}
NOCHECK = {}
