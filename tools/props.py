#!/usr/bin/env python3
"""Source of /verif/properties.jsonl.  `python3 tools/props.py` rewrites the
file; output is a pure function of this script."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

# ------------------------------------------------------------ concurrency
prop("C01", "Channels deliver every message exactly once, in order",
     "Every value sent successfully on a channel is received exactly once, unmodified, and values from one channel are received in the order their sends took effect; no receive invents, repeats or drops a value. After close, already buffered values are still delivered, further receives and sends report an error instead of blocking, and try_send/try_recv report success exactly when they transferred a value.",
     ["schedules", "histories"],
     "every interleaving (up to a preemption bound) of small groups of senders, receivers and closers over unbuffered and buffered channels, on one and on several processors",
     "Feature tests run each channel program once under whatever schedule the OS picks; the races between a blocking sender, the stack switch that parks it, and a receiver on another thread need specific interleavings.",
     ["runtime/rt_chan.c", "runtime/rt_chan.h", "runtime/processor.c", "runtime/aco/aco.c", "std/builtin/chan.n"],
     [("channel lock held across park, released by the scheduler after the stack is switched", "runtime/rt_chan.c"), ("direct hand-off into the parked coroutine's (possibly saved) stack", "runtime/rt_chan.c:rt_msg_transmit")],
     [("send/recv wait queues", "coroutines parked on the channel", "runtime/rt_chan.h"), ("ring buffer front/rear", "buffered messages", "runtime/rt_chan.h")],
     ["values observed by receivers", "return/err of send/recv/try_*"])
prop("C02", "A coroutine whose wait condition is satisfied always runs again",
     "A coroutine blocked in a channel operation, a select, a mutex lock, an await or a sleep is resumed once its condition is met, and a program whose main function returns terminates; the runtime itself never deadlocks, loses a wake-up, or resumes a coroutine whose condition was not met.",
     ["schedules"],
     "every interleaving (up to a preemption bound) of scheduler threads, the timer/event loop and the collector thread for small programs that combine the blocking primitives, including a stop-the-world request arriving at any point",
     "A lost wake-up needs a preemption inside a few-instruction window between publishing a waiter and parking it; the tests never control the schedule and a missed one shows as a flaky time-out.",
     ["runtime/processor.c", "runtime/nutils/coroutine.c", "runtime/rt_chan.c", "runtime/rt_mutex.c", "runtime/linkco.h"],
     [("unlock-after-park callback", "runtime/processor.c:coroutine_resume"), ("event loop ownership hand-over and async queue", "runtime/processor.c:global_loop_run"), ("stop-the-world spin", "runtime/processor.c:processor_run")],
     [("runnable lists", "coroutines ready to run per processor", "runtime/processor.c")],
     ["program termination", "coroutine progress"])
prop("C03", "select performs exactly one ready case",
     "A select statement performs the communication of exactly one of its cases, that case was ready, and no other case has any effect on its channel; the default branch runs only when no case is ready, a select without default blocks until a case becomes ready, and a closed channel never leaves a selecting coroutine blocked.",
     ["schedules", "programs"],
     "every interleaving (up to a preemption bound) of one or two selecting coroutines with senders, receivers and closers over one to three channels, and every combination of case readiness",
     "The tests exercise a handful of readiness combinations under one schedule; double firing or a stale waiter left in another channel's queue only shows up later, under particular timing.",
     ["runtime/rt_chan.c", "src/linear.c", "src/semantic/infer.c", "src/syntax/parser.c"],
     [("all channels locked in address order while enqueueing", "runtime/rt_chan.c:rt_chan_select"), ("single winner flag per selecting coroutine", "runtime/rt_chan.c:waitq_pop")],
     [("select_done flag", "which waker won", "runtime/runtime.h")],
     ["branch taken", "channel contents afterwards"])
prop("C04", "Mutexes exclude, hand over and never strand a waiter",
     "At most one coroutine is between a successful lock or try_lock and the matching unlock of the same mutex; try_lock fails only if the mutex was held or an overlapping lock or unlock contended for it, and whenever the mutex is released some waiting coroutine eventually acquires it.",
     ["schedules"],
     "every interleaving (up to a preemption bound) of two to four coroutines that lock, try_lock, yield while holding, and unlock, on one and several processors",
     "Mutual exclusion bugs require preemption between the fast-path compare-and-swap and the wait-queue handling; a single test run almost never hits it.",
     ["runtime/rt_mutex.c", "runtime/rt_mutex.h", "runtime/linkco.h", "std/co/mutex.n"],
     [("compare-and-swap fast path plus queued slow path", "runtime/rt_mutex.c")],
     [("mutex state, semaphore and waiter list", "holder and waiters", "runtime/rt_mutex.h")],
     ["overlap of critical sections", "completion of all lockers"])
prop("C05", "await yields the coroutine's own result, error or completion, once done",
     "Awaiting the future of a spawned coroutine returns only after that coroutine has finished and delivers exactly the value it returned or the error it threw, no matter how many coroutines await it, whether it finished before or after the await began, or on which processor it ran; only an error thrown while nobody awaits ends the program with a report. A spawned coroutine runs its function exactly once with the captured values of the spawn point.",
     ["schedules", "histories"],
     "every interleaving (up to a preemption bound) of spawner, spawned coroutines and one to three awaiters, with a collection at any point",
     "Tests await each future once, usually before it finishes, in one schedule; awaiting late, twice, or across a collection is not covered.",
     ["std/builtin/coroutine.n", "runtime/nutils/coroutine.c", "runtime/processor.c", "src/linear.c", "runtime/collector.c"],
     [("await registers under the target's dead-lock or returns at once", "runtime/nutils/coroutine.c:rt_coroutine_await"), ("dead coroutines are freed by the collector", "runtime/collector.c")],
     [("future result/error slots", "outcome of the coroutine", "runtime/runtime.h")],
     ["value or error delivered by await"])
prop("C06", "Suspending a coroutine preserves its locals; sleeps respect deadlines",
     "Whatever sequence of yields, blocking operations, sleeps and nested calls the coroutines sharing a processor perform, every local variable, argument and pending call of each coroutine is unchanged when it resumes. A sleeping coroutine resumes not before its duration elapsed and sleeps begun together on one processor end in the order of their deadlines.",
     ["schedules", "histories"],
     "every order of suspension points of two to four coroutines at different stack depths and frame sizes on one and several processors",
     "Coroutines share one machine stack that is copied out and in on a switch; corruption depends on who owned the stack last, at what depth, which tests do not vary.",
     ["runtime/aco/aco.c", "runtime/aco/acosw.S", "runtime/processor.c", "runtime/nutils/coroutine.c"],
     [("stack copy-out/copy-in on owner change", "runtime/aco/aco.c"), ("timer per sleeping coroutine", "runtime/nutils/coroutine.c:rt_coroutine_sleep")],
     [("share stack owner, save stack", "whose frames are live", "runtime/aco/aco.h")],
     ["checksums of locals after resume", "virtual clock at resume"])
# ------------------------------------------------------------ memory
prop("G01", "The collector never reclaims or alters a reachable object",
     "An object that the program can still reach through locals, globals, closures, coroutine stacks, channels, containers, interfaces or fields keeps its address and contents, whenever a collection starts, however it interleaves with the program and however the program rearranges references meanwhile.",
     ["schedules", "histories"],
     "every mutation history up to a depth over a small object graph, with the collection's phases placed at every safe point and interleaved with mutation, plus every root kind",
     "A marking bug needs a reference moved from an unscanned place to a scanned one inside the short marking window; tests trigger collections only between whole phases of work.",
     ["runtime/collector.c", "runtime/memory.c", "runtime/nutils/nutils.c", "runtime/nutils/vec.c", "runtime/nutils/map.c", "src/linear.c", "runtime/processor.c"],
     [("tri-colour marking with write barrier", "runtime/collector.c"), ("stack maps and conservative scans at safepoints", "runtime/collector.c"), ("allocate-black during marking", "runtime/memory.c")],
     [("gc stage, barrier flag, per-processor mark lists", "progress of the cycle", "runtime/collector.c")],
     ["contents of reachable objects after the cycle"])
prop("G02", "Allocations are zeroed, disjoint, aligned and eventually reusable",
     "Memory obtained for a new object is zero-filled, suitably aligned and overlaps no other live object, for every size and order of allocations and collections. Memory of unreachable objects is reclaimed and reused, so a program with bounded live data runs in bounded memory.",
     ["histories", "inputs"],
     "every sequence of allocations over representative sizes (each size class boundary and large sizes), drops and collections up to a depth",
     "Tests allocate a few sizes with whatever fragmentation arises; reuse after partial sweeps, size-class boundaries and span recycling depend on histories.",
     ["runtime/memory.c", "runtime/allocator.c", "runtime/fixalloc.c", "runtime/collector.c", "utils/bitmap.h"],
     [("size classes, spans, per-processor caches", "runtime/memory.c"), ("page allocator radix summaries", "runtime/allocator.c")],
     [("span free bitmaps and mark bits", "which slots are free", "runtime/memory.h")],
     ["addresses and contents of new objects", "process memory after repeated churn"])
# ------------------------------------------------------------ containers
prop("D01", "A map behaves as a finite map under every history of operations",
     "After any sequence of inserts, overwrites, deletes, lookups and iterations, lookup of a key returns the last value stored under an equal key and reports absence otherwise, the length is the number of distinct present keys, and iteration visits each present entry exactly once; this holds for every supported key type, across growth, and regardless of how many keys were inserted and deleted before.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over a small key alphabet that includes colliding slots, plus all long insert/delete churn patterns of a given period, for integer, boolean, float, string, struct and array keys",
     "Tests insert and delete a few keys; probe chains with tombstones and growth while tombstones exist depend on long histories and on hash collisions.",
     ["runtime/nutils/map.c", "runtime/nutils/hash.h", "std/builtin/map.n", "src/linear.c"],
     [("open addressing with tombstones and entry compaction on delete", "runtime/nutils/map.c")],
     [("hash slot table, key and value arrays", "index of entries", "runtime/nutils/map.h")],
     ["lookup results, length, iteration"])
prop("D02", "A set behaves as a mathematical set under every history of operations",
     "After any sequence of adds, deletes and membership queries, starting from an empty set or a set literal, a value is reported as member exactly if it was added after its last deletion; adding a present value or deleting an absent one has no effect, for every supported element type, across growth, and regardless of how many values were added and deleted before.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over a small alphabet with colliding slots, plus all long churn patterns of a given period",
     "Tests add and remove a few values; interaction of deletion with later adds, probe chains and growth depends on the history.",
     ["runtime/nutils/set.c", "runtime/nutils/hash.h", "std/builtin/set.n"],
     [("open addressing hash table", "runtime/nutils/set.c")],
     [("hash slot table and key array", "index of members", "runtime/nutils/set.h")],
     ["contains results"])
prop("D03", "Vectors behave as sequences; slices, concat and growth never corrupt",
     "Under any sequence of push, pop-like edits, indexed reads and writes, append, concat, slice, copy, sort and search operations a vector's length and elements equal those of the abstract sequence, for every element size; an operation on one vector changes another only through documented storage sharing, sorting yields an ordered permutation, and an index or slice range outside the bounds reports an error and has no effect.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over one or two vectors for several element types, and all inputs up to a length for sort and search",
     "Tests walk single scenarios; aliasing after slicing combined with growth, and boundary indexes, are history dependent.",
     ["runtime/nutils/vec.c", "std/builtin/vec.n", "src/linear.c", "src/semantic/infer.c"],
     [("capacity growth with memmove", "runtime/nutils/vec.c"), ("bounds checks emitted by the compiler and runtime", "src/linear.c")],
     [("data, length, capacity", "vector header", "runtime/nutils/vec.h")],
     ["elements, length, errors"])
prop("D04", "Strings are immutable byte sequences with exact length and order",
     "Concatenation, comparison, indexing, slicing, iteration, conversion to and from byte vectors, and use as map or set keys agree with byte-sequence semantics for every content including empty strings and embedded zero bytes; a string's content never changes once created, even when it was built from a vector that is later modified.",
     ["inputs", "histories"],
     "all strings up to a length over a small alphabet including the zero byte, all pairs for binary operations, and all short histories of conversions and later vector edits",
     "Tests use ordinary words; zero bytes, shared prefixes and interning of equal contents are not varied.",
     ["runtime/nutils/string.c", "runtime/nutils/string.h", "runtime/nutils/hash.h", "std/builtin/string.n", "src/linear.c"],
     [("explicit length plus trailing zero byte", "runtime/nutils/string.c"), ("string pool", "runtime/nutils/string.c")],
     [("constant string pool", "interned strings", "runtime/nutils/string.c")],
     ["bytes, length, comparison results"])
# ------------------------------------------------------------ language
prop("L01", "Integer and float arithmetic follows the declared width everywhere",
     "Every arithmetic, bitwise, shift, comparison and conversion expression yields the mathematically defined result reduced to the operand type (two's-complement wrap-around for integers, IEEE for floats), and yields the same value whether its operands are literals folded at compile time, global initialisers, locals, fields, elements or parameters.",
     ["inputs", "programs"],
     "all operators x all integer and float types x boundary value pairs, in constant, variable, field, element and compound-assignment form, and all conversion pairs",
     "Tests check chosen values in one form; width truncation, sign extension and folding differ per operator, type and operand form.",
     ["src/semantic/infer.c", "src/linear.c", "src/native/amd64.c", "src/lower/amd64.c", "src/binary/encoding/amd64", "src/ssa.c"],
     [("constant folding", "src/"), ("instruction selection per width", "src/native/amd64.c")],
     (), ["printed values"])
prop("L02", "Evaluation order, branching and loops follow the source",
     "Operands, arguments and conditions are evaluated left to right exactly once, logical operators and ternaries evaluate only what they need, and if/else, match, loops with break and continue, and return execute exactly the statements the source prescribes, whatever the nesting.",
     ["programs", "inputs"],
     "all programs up to a size over a grammar of effectful expressions and nested control statements, run on all small inputs, compared with a reference interpreter",
     "Tests contain a few hand-written shapes; SSA construction, phi placement and block layout errors depend on the combination of nesting and variable liveness.",
     ["src/linear.c", "src/cfg.c", "src/ssa.c", "src/register/linearscan.c", "src/register/interval.c", "src/syntax/parser.c"],
     [("linear IR generation", "src/linear.c"), ("SSA and phi resolution", "src/ssa.c")],
     (), ["trace of effects and results"])
prop("L03", "Results do not depend on register pressure or placement of values",
     "A computation gives the same results however many other values are live across it, whichever of them live across calls, and whether they are integers, floats or references: values are never lost, duplicated or mixed up when they are spilled, reloaded, moved between blocks or passed as arguments.",
     ["programs"],
     "all programs of a family with 0..N simultaneously live values of each class across operators with fixed register needs (division, shifts, calls with 0..M arguments), loops and merges",
     "Tests rarely exceed the register file; spill slots, parallel moves and fixed-register constraints go wrong only for particular counts and orders.",
     ["src/register/interval.c", "src/register/linearscan.c", "src/register/allocate.c", "src/lower/amd64.c", "src/native/amd64.c"],
     [("linear-scan allocation with interval splitting", "src/register/"), ("parallel move resolution", "src/register/interval.c")],
     (), ["checksums of all live values"])
prop("L04", "defer, throw, try and catch run exactly the prescribed actions",
     "On every exit from a scope — falling through, return, break, continue, thrown error — each deferred action registered in it runs exactly once, in reverse order of registration, before the exit completes. A throw statement leaves its function, the error reaches the nearest enclosing catch around the call with its message intact, and nothing after the throwing expression in the skipped code is executed.",
     ["programs", "inputs"],
     "all programs up to a size over nestings of blocks, loops, defer, throw, call, try, catch and each exit kind, with every choice of the throwing point",
     "Tests cover a few nestings; cleanup edges multiply with nesting and exit kind.",
     ["src/linear.c", "src/semantic/infer.c", "src/semantic/analyzer.c", "src/syntax/parser.c", "runtime/runtime.c"],
     [("defer blocks emitted per exit", "src/linear.c"), ("error flag tested after calls", "src/linear.c")],
     (), ["trace of actions", "caught message"])
prop("L05", "Aggregates keep value semantics through copies, calls and returns",
     "Assigning, passing, returning, capturing or storing a struct, array, tuple or union copies its whole value: later changes through one name are not visible through another except through references, and every field or element arrives intact for every size, alignment, nesting and mix of integer and float members, also in calls to C functions by value.",
     ["programs", "inputs"],
     "all aggregate shapes up to a field count over the scalar kinds, nested one level, through every transfer form and argument position; all mutate-after-copy histories",
     "Tests use a few struct shapes; the register/stack splitting rules of the calling convention depend on size, field mix and how many registers earlier arguments used.",
     ["src/lower/amd64.c", "src/lower/amd64_abi.c", "src/linear.c", "src/types.h", "src/native/amd64.c", "runtime/nutils/nutils.c"],
     [("calling convention classification", "src/lower/"), ("block moves", "src/linear.c")],
     (), ["field values on both sides"])
prop("L06", "Closures share captured variables for as long as anyone can call them",
     "All closures that capture a variable, and the scope that declared it, observe each other's writes to it in program order; each execution of the declaration creates a fresh variable, and captured variables stay valid after the declaring function returned or while a spawned coroutine uses them.",
     ["programs", "histories"],
     "all programs up to a size over declaration scope (function, loop body, nested closure), captured kind, and interleavings of reads and writes by scope and closures, before and after return",
     "Tests capture in a few shapes; escape decisions and environment layout depend on nesting, loops and the kind of variable.",
     ["src/semantic/analyzer.c", "src/linear.c", "runtime/nutils/fn.c", "runtime/nutils/nutils.c"],
     [("captured variables are heap allocated and shared", "src/linear.c"), ("environment objects", "runtime/")],
     (), ["values observed by closures and scope"])
prop("L07", "Dynamic types: is, as, match and dispatch agree with the stored value",
     "A value stored in a union, any, nullable, interface, tagged union or enum is reported by type tests and matched by exactly the alternative it was created with, conversion back yields the identical value, a conversion to another alternative reports an error, and a method called through an interface or generic constraint runs the implementation of the stored type.",
     ["programs", "inputs"],
     "all pairs of stored type and tested type over the scalar, string, struct, container and function types, through every conversion chain up to a length",
     "Tests sample pairs; tag computation, layout of inline versus boxed payloads and dispatch tables vary per type.",
     ["src/semantic/infer.c", "src/linear.c", "runtime/nutils/nutils.c", "src/semantic/analyzer.c", "src/types.h"],
     [("type hashes in union and interface values", "runtime/nutils/nutils.c")],
     (), ["results of is/as/match/dispatch", "errors"])
prop("L08", "Faulty operations stop with a report instead of corrupting",
     "An out-of-range index, invalid slice range, missing map key, failed conversion, null access, assertion failure or impossible size request raises its error or panic at that operation, with the actual index, length or key in the message and the failing source line in the report. It can be caught where the language allows it, nothing after the operation runs otherwise, the process ends with a failure status, and no memory outside the addressed object is read or written.",
     ["inputs", "programs"],
     "all faulty operations x all index/operand boundary values x container kinds, uncaught, caught, and inside coroutines and deferred code",
     "Tests check a few messages; boundary values and positions (first, last, one past, negative, wrap-around) are not enumerated.",
     ["runtime/nutils/vec.c", "runtime/runtime.c", "runtime/nutils/nutils.c", "src/linear.c"],
     [("bounds checks", "src/linear.c"), ("panic and error reporting", "runtime/runtime.c")],
     (), ["exit status, message, error caught"])
prop("L09", "Generic code means the same as its hand-specialised version",
     "Every instantiation of a generic function, method or type behaves exactly as the same code with the type arguments substituted by hand, each instantiation is independent of the others, and instantiating with the same arguments from different places gives the same type.",
     ["programs"],
     "all instantiations of a family of generic functions, methods and types over all argument types up to nesting depth two, in all orders of first use",
     "Tests instantiate with two or three types; mangling, caching and width-dependent code paths vary with the argument type and order of instantiation.",
     ["src/semantic/infer.c", "src/semantic/analyzer.c", "src/types.h", "src/linear.c"],
     [("monomorphisation keyed by argument types", "src/semantic/infer.c")],
     (), ["results versus specialised code"])
prop("L10", "Names, literals, spacing and comments mean what is written",
     "Every identifier that is not a reserved word can name a variable, parameter or field; every integer, float and string literal in any notation denotes the written value and is rejected when it does not fit its type or is malformed. Blanks, line ends and comments between tokens never change the meaning of a program beyond separating statements.",
     ["inputs", "programs"],
     "all short names and all one-character edits of reserved words in every role, all boundary values in every notation, all escapes, all spacings around every operator and separator",
     "Tests use ordinary names and literals; a scanner that recognises keywords by prefix or converts a notation wrongly fails only for particular spellings.",
     ["src/syntax/scanner.c", "src/syntax/token.h", "src/syntax/parser.c", "src/semantic/infer.c", "src/linear.c"],
     [("keyword recognition", "src/syntax/scanner.c"), ("literal conversion", "src/linear.c")],
     (), ["values of variables so named", "diagnostics"])
prop("T01", "The compiler accepts exactly the well-typed uses",
     "A program that assigns, passes, returns, compares, calls or converts values of types the language does not relate is rejected with a diagnostic that names the offending line, produces no output file, and never crashes the compiler; the corresponding well-typed program is accepted and runs.",
     ["programs"],
     "all pairs of types in every use position (assignment, argument, return, operator, condition, conversion, field, method), undeclared and duplicate names, missing returns, wrong arity, misuse of control keywords and visibility across modules",
     "Tests contain a few rejected programs; acceptance of an unrelated pair in one position silently reinterprets memory.",
     ["src/semantic/infer.c", "src/semantic/analyzer.c", "src/types.h", "src/syntax/parser.c", "src/build/build.c"],
     [("type compare and checking passes", "src/semantic/infer.c")],
     (), ["exit status and diagnostics of the compiler", "absence of output"])
# ------------------------------------------------------------ linker
prop("K01", "The built-in linker resolves and relocates like the system linker",
     "For every set of input objects and archives in any order, the built-in linker binds each reference to the definition the platform rules prescribe (strong over weak and common, archive members pulled in only when needed), rejects undefined and duplicate strong symbols, and produces a program that computes the same results as the one produced by the system linker.",
     ["inputs", "configurations"],
     "all combinations of up to three objects over strong, weak, common, local and undefined definitions of one or two symbols, object versus archive placement and order, and all relocation and section kinds the compiler and C library use",
     "Tests link specific constructed objects; resolution depends on order and on combinations of symbol kinds.",
     ["src/ld/ld_elf.c", "src/ld/ld_elf_reloc.c", "src/ld/ld_elf_archive.c", "src/ld/ld_elf_symtab.c"],
     [("symbol table merge rules", "src/ld/ld_elf.c"), ("relocation application", "src/ld/ld_elf_reloc.c")],
     (), ["link status, program output"])
# ------------------------------------------------------------ std
prop("S01", "JSON serialisation round-trips and rejects malformed text",
     "Serialising any supported value produces well-formed JSON denoting that value, deserialising it into the same type restores an equal value, and deserialising arbitrary text either yields the value a standard JSON reader gives or reports an error; malformed text is never accepted or read out of bounds.",
     ["inputs"],
     "all JSON texts up to a length over a token and byte alphabet against a reference reader, and all values of a family of struct, vector, map, nullable and scalar types with boundary contents",
     "Tests use a few documents; truncations, escapes and number forms at arbitrary positions are not enumerated.",
     ["std/json/json.n", "std/reflect/reflect.n"],
     [("recursive descent decoder over reflection data", "std/json/json.n")],
     (), ["decoded values, errors, emitted text"])
prop("S02", "Text functions agree with their definitions",
     "String searching, splitting, trimming, replacing, joining, case conversion and number parsing, path joining and splitting, URL parsing and escaping, and formatted printing and scanning return for every input the result their definition prescribes, whether the text has storage of its own or is part of a longer one. Unescaping inverts escaping, and malformed numbers and URLs are reported as errors.",
     ["inputs"],
     "all inputs up to a length over small alphabets that include separators, escapes, zero and non-ASCII bytes; all integer types at their boundary values in all widths and fills",
     "Tests check a few vectors; boundary values, repeated separators, overlapping matches and texts that are part of longer ones are not enumerated.",
     ["std/strings/strings.n", "std/path/path.n", "std/net/url.n", "std/fmt/fmt.n", "std/fmt/utils.n"],
     [("library algorithms", "std/strings/strings.n"), ("number formatting", "std/fmt/utils.n")],
     (), ["returned values, errors"])
prop("S03", "Buffered and stream I/O preserves bytes for every chunking",
     "Whatever sizes the underlying source returns per read, whatever buffer sizes, read, peek, read-until and write calls are used and wherever an error or end of stream falls, the buffered reader and writer and the HTTP response reader deliver exactly the underlying bytes in order, once, and report end of stream and errors only after all earlier bytes.",
     ["inputs", "fault_sequences", "histories"],
     "all splits of short contents into chunks x all call sequences up to a depth x buffer sizes, with a fault at every position; all splits of short HTTP responses into segments",
     "Tests read files in one chunking; boundary effects appear only when a delimiter or header straddles a refill.",
     ["std/io/buf.n", "std/io/io.n", "std/http/client.n"],
     [("buffer refill and flush", "std/io/buf.n"), ("incremental response parser", "std/http/client.n")],
     (), ["bytes returned, errors"])
prop("S04", "File operations have exactly the effect of their byte-level model",
     "Every sequence of open, read, write, seek, positioned read and write, truncate, append, directory and metadata operations leaves file contents, offsets and directory entries as the POSIX model prescribes, and failures are reported as errors without changing other files.",
     ["histories", "fault_sequences"],
     "all operation sequences up to a depth on one or two small files in a scratch directory, including missing paths and wrong modes",
     "Tests run a few straight-line scripts; offset handling and asynchronous completion depend on operation order.",
     ["std/fs/fs.n", "runtime/nutils/fs.c", "std/io/io.n"],
     [("asynchronous file requests on the event loop", "runtime/nutils/fs.c")],
     (), ["bytes, offsets, errors"])
prop("N01", "TCP streams carry all bytes in order and blocked calls always complete",
     "Bytes written to a connection arrive complete and in order at the peer whatever sizes are used on either side; a blocked accept, read or write completes when data, space, a peer close, a local close or its time-out occurs, end of stream is reported only after all data, and no coroutine is left waiting.",
     ["histories", "schedules", "fault_sequences"],
     "all orders up to a depth of connect, write, read, close and time-out actions by server and client coroutines over loopback, with all small chunk sizes",
     "Tests run a request/response exchange; close and time-out racing with a pending call are sampled at most once.",
     ["std/net/tcp.n", "runtime/nutils/tcp.c"],
     [("one pending request per direction, completed from the event loop", "runtime/nutils/")],
     (), ["bytes read, errors, completion"])
prop("S05", "Byte codecs, digests and MACs agree with their published definitions",
     "Base64, fixed-width integer and float encoding, MD5, SHA-256, every HMAC variant, bcrypt and Blowfish return for every input, and for every way of feeding it in pieces, the result their published definition prescribes. Decoding inverts encoding, malformed or short input is reported as an error, and no other object is changed.",
     ["inputs", "histories"],
     "all byte strings up to a length, all lengths across block and padding boundaries, all ways to split the input in two or three pieces, all key lengths across the block size",
     "Tests check a few vectors; padding boundaries, piecewise feeding and incomplete groups are not enumerated.",
     ["std/base64/base64.n", "std/mem/mem.n", "std/crypto/md5.n", "std/crypto/sha256.n", "std/crypto/hmac.n", "std/crypto/utils.n", "std/crypto/bcrypt.n", "std/crypto/blowfish.n"],
     [("library algorithms", "std/crypto/utils.n")],
     (), ["returned values, errors"])


if __name__ == "__main__":
    for p in P:
        for f in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
