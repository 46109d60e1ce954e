#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

V12B = ["v1/buffer.go", "v2/buffer.go"]
V12M = ["v1/minibuf.go", "v2/minibuf.go"]
V3 = ["v3/buffer.generated.go", "v3/minibuf.generated.go", "v3/_buffer.go", "v3/_minibuf.go"]
ALL = V12B + V12M + V3
GEN = ["generation/main.go", "generation/complex.go", "v3/Makefile"]
SEQ = "the existing tests are single-goroutine, one call sequence each, and never share a buffer"

prop("C01", "v1/v2 Buffer: concurrent calls are linearizable",
 "When several goroutines call public methods of one v1 or v2 Buffer (byte, integer and bit reads and writes at explicit offsets or through the Next cursors, Seek/SeekBit, AlignBit/AlignByte, Grow, Reset, Refresh and the getters), every call returns, and the results together with the final contents, cursors and capacity are those of executing the same calls one at a time, in some order consistent with real time, on a plain byte array with one byte cursor and one bit cursor. A multi-byte or multi-bit call is a single step of that order, and a call whose arguments are out of range is a single step that panics and changes nothing.",
 ["schedules", "histories", "inputs"],
 "every finite set of goroutines, every sequence of public calls each of them makes, every interleaving of their memory accesses and lock operations, every initial content and size",
 SEQ + "; no finite set of schedules run by chance shows that every interleaving serialises",
 V12B + ["v1/crunch.go", "v1/utils.go", "v2/utils.go"],
 [("mutex held over each whole public call", "v1/buffer.go, v2/buffer.go: public methods"), ("bounds checks under the same critical section", "v1/buffer.go, v2/buffer.go: read*/write*/setbit/readbit/flipbit")],
 [("buf/cap/bcap", "contents and cached capacities", "Buffer struct"), ("off/boff", "byte and bit cursor", "Buffer struct")],
 ["return values and panics of public methods", "Bytes, Capacity, Offset, BitOffset after quiescence"])

prop("C02", "v1/v2 Buffer: concurrent calls never race on memory",
 "Two goroutines calling any public methods of one v1 or v2 Buffer never access the same memory location, at least one of them writing, without being ordered by the buffer's own synchronisation. This covers the contents, the cursors, the cached capacities and the slice header, for the getters as well as for the calls that modify the buffer.",
 ["schedules", "programs"],
 "every pair of public calls, every interleaving in which both occur, including around Grow and Reset replacing the storage",
 "tests use one goroutine; the race detector only judges executions that happen to be run and the suite runs no concurrent ones",
 V12B, [("sync.Mutex embedded in Buffer, taken by every public method", "v1/buffer.go, v2/buffer.go")],
 [("buf, off, boff, cap, bcap", "shared state", "Buffer struct")], ["memory accesses made by public calls"])

prop("C03", "v1/v2 Buffer: every Next call claims its own region exactly once",
 "When goroutines concurrently read or write a shared v1 or v2 Buffer through the Next methods, each successful call covers one contiguous region beginning where some other successful call ended, the regions are pairwise disjoint and leave no gap, and the final cursor is the initial one advanced by the sum of their lengths. Each region holds (for writes) or returned (for reads) one call's whole payload, and a call that panics because it would pass the end claims nothing.",
 ["schedules", "histories"],
 "every number of goroutines and calls, mixed payload widths, byte and bit cursors, every interleaving, buffers too small for all the calls",
 SEQ + "; a lost or doubled claim needs two goroutines between reading and advancing the cursor",
 V12B, [("cursor read, transfer and cursor advance in one critical section", "v1/buffer.go, v2/buffer.go: *Next methods")],
 [("off/boff", "the shared cursors", "Buffer struct")], ["payloads seen by clients", "Offset/BitOffset and Bytes at the end"])

prop("C04", "v1/v2 Buffer: a failed call is contained and leaves the buffer usable",
 "If a public call on a shared v1 or v2 Buffer panics, whether because its arguments are rejected or because a memory fault strikes while it touches wrapped memory, then its caller can recover, the buffer's lock is free again, and every other goroutine's calls still complete with correct results. A rejected call changes neither contents, cursors nor capacities; a faulted call leaves cursors and capacities as they were, and may leave changed only bits inside its own target region, each holding its old or its new value.",
 ["fault_sequences", "crash_points", "schedules"],
 "every call, every rejected argument, every single memory access inside a call as the point of the fault, every interleaving with other goroutines",
 "the panic tests stop at the panic: none uses the buffer again afterwards, none faults inside a call, none has a second goroutine",
 V12B, [("deferred unlock", "v1/buffer.go, v2/buffer.go: public methods"), ("checks before any effect; cursor advanced last", "v1/buffer.go, v2/buffer.go")],
 [("the embedded Mutex", "must be free after any panic", "Buffer struct")], ["calls issued after the panic", "contents and cursors at quiescence"])

prop("C05", "v1/v2 Buffer: every concurrent call completes within bounded steps",
 "Any finite set of calls issued by any number of goroutines on shared v1 or v2 Buffers completes once every goroutine keeps being scheduled: no call deadlocks with itself or another, none spins without bound, and a goroutine that is stalled for a long time inside a call delays the others but neither stops them once it resumes nor makes a call give up that is in range. The lock is free when no call is in progress.",
 ["schedules", "fault_sequences"],
 "every workload including rejected and panicking calls, every interleaving, stalls of any goroutine at any point for any bounded time",
 "liveness over schedules is not observable from single-goroutine tests; a lock leaked or re-taken on a rare path hangs only the next caller",
 V12B, [("one non-nested mutex acquisition per call, always released", "v1/buffer.go, v2/buffer.go")],
 [("the embedded Mutex", "held only during calls", "Buffer struct")], ["completion of all client programs within a step bound"])

prop("C06", "v1/v2 Buffer: a caller holding the exported lock excludes every call",
 "While one goroutine holds a v1 or v2 Buffer through its exported Lock method, no other goroutine's read, write, bit, cursor or resize call on that Buffer takes effect or observes intermediate state until Unlock. A read-modify-write that the holder makes on the memory it wrapped therefore appears atomic to all calls.",
 ["schedules", "histories"],
 "every sequence of raw accesses by the holder, every concurrent set of public calls, every interleaving",
 "no test takes the lock",
 V12B, [("public calls use the same embedded Mutex that is exported", "v1/buffer.go, v2/buffer.go")],
 [("the embedded Mutex", "exported lock", "Buffer struct")], ["history of holder sections and calls"])

prop("C07", "v1/v2 MiniBuffer: its own lock makes caller sections atomic",
 "When goroutines share a v1 or v2 MiniBuffer and bracket sequences of calls with its Lock and Unlock, each bracketed sequence behaves as if executed alone, the sequences forming one serial order in which every in-range call gives exactly the results of a plain byte array with a byte and a bit cursor, whatever the output variables held before. No MiniBuffer method takes or releases the lock itself, no two sections race, and a caller that panics in its section and unlocks leaves the others unharmed.",
 ["schedules", "histories", "fault_sequences"],
 "every set of bracketed call sequences with in-range arguments, every lock acquisition order, callers failing inside their section at any call",
 "tests never lock a MiniBuffer nor share it; output variables are always fresh in them",
 V12M, [("methods leave the embedded Mutex to the caller", "v1/minibuf.go, v2/minibuf.go")],
 [("buf, off, boff, cap, bcap", "state guarded by the caller", "MiniBuffer struct")], ["results per section against the serial model"])

prop("C08", "Distinct buffers are independent under every schedule",
 "Goroutines that each use only buffers of their own (any mix of Buffer and MiniBuffer from v1, v2 and v3), even when built from the same shared input slices by the multi-slice constructors, obtain exactly the results they would obtain running alone, and share no mutable memory. Constructing from two or more slices copies: the inputs are never written and later changes to them are not seen.",
 ["schedules", "programs", "histories"],
 "every assignment of call sequences to goroutines and buffer kinds, every interleaving, input slices with spare capacity",
 "tests use one buffer at a time; hidden shared scratch state only shows when another goroutine runs in the middle of a call",
 ALL, [("no package-level mutable state; constructors append into fresh storage", "NewBuffer, NewMiniBuffer in v1, v2, v3")],
 [("package-level variables", "only immutable errors and byte orders", "*/errors.go, v1/crunch.go")], ["each goroutine's results against its solo run", "memory accesses across goroutines"])

prop("C09", "Concurrent reads of an unchanging buffer are safe and correct",
 "While no goroutine modifies a buffer of any version or kind, any number of goroutines may at the same time call its explicit-offset reads, its After/AfterBit forms and its getters without further synchronisation, and each gets the result a lone caller would get. Such calls modify nothing: contents, cursors and capacities afterwards are those before, also when some of the calls are rejected.",
 ["schedules", "programs"],
 "every set of read-only calls on v1, v2 and v3 Buffer and MiniBuffer, every interleaving, rejected reads on the checked kinds",
 "no test reads from two goroutines; a read that moves the cursor and restores it, or caches, passes every single-goroutine test",
 ALL, [("explicit-offset reads touch only the contents", "Read*, ReadBit(s), After*, getters in v1, v2, v3")],
 [("off, boff, cap, bcap", "must not be written by reads", "all structs")], ["results of concurrent reads", "write accesses made by reads"])

prop("C10", "v3 buffers handed between goroutines keep sequential semantics",
 "When goroutines share v3 Buffers and MiniBuffers and pass them to one another under external synchronisation, every call gives exactly the results of a plain byte array with a byte and a bit cursor in the order of the hand-offs, including across Grow, TruncateLeft, TruncateRight and Reset; bytes added by Grow read as zero whatever the storage held before. A Buffer read or write that would leave the contents (of at least one element, its end representable in an int64) panics with the matching crunch error and changes neither contents nor cursors, even when the caller recovers and hands the buffer on.",
 ["schedules", "histories", "fault_sequences"],
 "every call sequence over up to several goroutines and buffers, every hand-off order, callers failing at any call, storage reused by Reset and truncation",
 "tests exercise each method once on a fresh buffer with fresh outputs; failures, reuse of storage and later calls after a panic are never combined",
 V3 + ["v3/errors.go"], [("bounds checks before effects", "v3 Buffer methods"), ("Grow reuses spare storage", "Grow, Reset, TruncateLeft, TruncateRight")],
 [("buf, off, boff, cap, bcap", "buffer state", "Buffer, MiniBuffer structs")], ["results per call against the serial model"])

prop("C11", "Unlocked buffers survive a fault at any point inside a call",
 "If a memory fault strikes at any single access to wrapped, caller-supplied or freshly allocated memory inside a call on a v3 Buffer or any MiniBuffer and the caller recovers, then the cursors and capacities are those from before the call, BitCapacity is eight times the byte capacity and both agree with the length of Bytes, every bit outside the call's target region is unchanged and every bit inside it holds its old or its new value. Later calls on the buffer give the results this state implies.",
 ["crash_points", "fault_sequences", "histories"],
 "every method of v3 Buffer, v3 MiniBuffer, v1 MiniBuffer and v2 MiniBuffer, every access inside it as the fault point, every history before and after",
 "no test interrupts a call; the order of effects inside a call is invisible without a fault between them",
 V3 + V12M, [("contents first, cursor last; storage and capacity replaced only after copying", "Next methods, Grow, Truncate*, Refresh")],
 [("buf versus cap/bcap", "must never disagree", "all structs")], ["state read back after recovery"])

prop("C12", "Code generator converges whatever earlier runs left behind",
 "A run of the code generator that meets no I/O failure ends successfully and leaves every output file with exactly the contents that a run over the same templates in a directory without outputs produces: whatever the output files held before (longer, shorter, stale or torn contents), in whatever order the directory lists its files, after any number of earlier runs killed at any point, and also when other runs over the same templates overlap with it, once all of them have ended.",
 ["crash_points", "histories", "schedules", "configurations"],
 "every prior output state, every kill point in any number of earlier runs, every directory order and map order, every interleaving of overlapping runs, every set of template files",
 "the generator has no tests, and a single clean run never meets leftovers or a second process",
 GEN, [("outputs opened for rewriting from the start", "generation/main.go output loop")],
 [("*.generated.go", "outputs in the working directory", "generation/main.go")], ["file contents after a successful run"])

prop("C13", "Code generator never reports success after an I/O failure",
 "If opening, entering or listing the directory, opening or reading a template, or opening, writing or closing an output fails during a run of the code generator, or the directory or generation mode is invalid, the run prints a diagnostic and exits with a non-zero status. No output is ever produced from a template that was not read completely, and templates whose reads and outputs did not fail still end up with correct or untouched outputs.",
 ["fault_sequences", "configurations"],
 "every system call of a run failing with any error, short reads and writes, a full disk at any byte, any combination of failures over several templates",
 "the generator has no tests; disk and read errors do not occur in ordinary runs",
 GEN, [("error checks around each file operation", "generation/main.go")],
 [("exit status and diagnostics", "what make relies on", "generation/main.go, v3/Makefile")], ["exit status, printed diagnostics, file contents"])

prop("C14", "Code generator touches nothing but its outputs",
 "Whatever fails during a run of the code generator and wherever it is killed, the only files created, changed or removed are the outputs named after the templates of the chosen directory; templates, other Go files, subdirectories and everything outside the directory keep their contents. A file is treated as a template only if its name begins with an underscore and ends in .go and it is not a directory.",
 ["fault_sequences", "crash_points", "configurations"],
 "every directory population (templates, ordinary sources, directories with template-like names, old outputs), every fault and kill point, relative and absolute directory arguments",
 "the generator has no tests",
 GEN, [("template filter and output naming", "generation/main.go")],
 [("the simulated file tree", "all files before and after", "generation/main.go")], ["whole file tree before and after"])

# --- properties without a schedule, clock, fault or interleaving: listed, not claimed ---
prop("C15", "Integer and float codecs are exact in both byte orders",
 "For every value of every supported width and kind, writing it at an offset in a byte order stores exactly the bytes encoding/binary would store there and reading it back in the same order returns the same value bit for bit, including NaN payloads and negative numbers.",
 ["inputs"], "every value, width, byte order, offset and slice length", "a few fixed values per method",
 ALL + ["generation/complex.go"], [("shift-and-or chains", "generated Read*/Write* methods")])
prop("C16", "Every out-of-range argument is rejected with the documented error",
 "For every combination of offset and count, including negative counts and values near the limits of int64, a checked Buffer either performs the access inside its contents or panics with the crunch error that names the violated bound; it never panics with a bare runtime error and never touches bytes outside its contents.",
 ["inputs"], "all of int64 for offsets and counts", "a handful of small offsets per method",
 V12B + V3, [("off+n > cap and off < 0 checks", "Buffer methods")])
prop("C17", "Zero-length operations are no-ops",
 "Reading or writing zero elements or zero bits at a valid position, and whole-buffer bit operations on an empty buffer, succeed, return empty results and change nothing, in every version and kind.",
 ["inputs"], "every method and valid position", "no test passes an empty slice or zero count",
 ALL, [("do-while style goto loops", "v2 and v3 loops")])
prop("C18", "The checked-in v3 sources behave like freshly generated ones",
 "Running the code generator over the checked-in v3 templates, whatever order the directory lists them in, succeeds and yields sources that compile wherever the checked-in generated sources do, define the same exported methods with the same signatures, and behave the same: any history of in-range and rejected calls on Buffers and MiniBuffers, handed between goroutines and interrupted by memory faults, gives on the regenerated package what it gives on the checked-in one. Every template line's receiver, direction, kind, width and byte order has its pair of methods (plain and Next), and they do what the line says.",
 ["programs", "histories", "inputs"],
 "every template line, every history of calls over both packages, every point of a fault, every listing and map order of the generator's run",
 "the tests compile and run the checked-in output only; nothing runs the generator over the real templates, let alone its output",
 V3 + GEN, [("template expansion", "generation/complex.go GenerateComplex"), ("hand-edited templates and their checked-in expansion", "v3/_*.go, v3/*.generated.go")],
 [("files", "template contents by name", "generation/main.go")], ["results, panics, contents and cursors of both packages", "exit status and outputs of the generator"])
prop("C19", "Buffer operations run in time linear in their length without allocating",
 "Byte, bit and integer operations take time linear in the number of elements and only the slice-returning reads and Grow allocate.",
 ["inputs"], "every size", "benchmarks only, not asserted", ALL, [("in-place loops", "all methods")])
prop("C20", "Callers keep what they pass to calls and what they get from them",
 "No call on a Buffer or MiniBuffer of any version changes the slice it was given as payload or as offsets, nor the memory behind a payload's end, nor keeps it: whatever its owner does with it once the call has returned or panicked has no effect on any buffer, and goroutines may pass one slice to calls on different buffers at the same time. The same holds for the slices given to a constructor when there are several. A slice of integers or floats that a read returned or stored in an output variable belongs to the caller alone: no later call of any goroutine on any buffer writes to it, and writing to it changes no buffer and no other result.",
 ["schedules", "histories", "programs"],
 "every call with a slice argument or result, every version and kind, every later history of calls by any goroutine, every interleaving, accepted and rejected calls",
 "tests pass literals and drop results at once; a retained payload, a swap in place or a reused result only shows in a later call or in another goroutine",
 ALL, [("element-wise copies into and out of the contents", "v1/buffer.go, v2/buffer.go, v1/minibuf.go, v2/minibuf.go, v3 generated methods"), ("results made afresh for each call", "Read* methods"), ("several slices are copied", "NewBuffer, NewMiniBuffer")],
 [("out", "result slice or output variable", "Read* methods"), ("data", "payload", "Write* methods")],
 ["payloads after each call", "results after later calls", "contents after the caller reuses its slices"])
prop("C21", "A wrapped slice holds what calls have written, at every moment",
 "A Buffer or MiniBuffer made from exactly one slice works in that slice until Grow or Reset replaces it. The moment a writing or bit call has returned, what it wrote is in the slice (after TruncateLeft by n, n bytes further in), and nothing of it waits for a later call; so if the slice lies in memory that outlives the program, such as a mapped file, a crash at any instant leaves there the effect of every call that has returned, of each call in progress at most part of the bits it writes, each old or new, and every other byte as it was, including bytes truncated away and the spare capacity. Bytes returns that same memory, both ways: what calls write afterwards shows in the slice it returned, and what the caller stores there is what every later read, bit read or bit-field read returns.",
 ["crash_points", "histories", "programs"],
 "every version and kind, every history of calls, stores by the caller through Bytes and truncations, every instant between and within calls, until Grow or Reset",
 "tests look at the contents through the buffer between calls, never at the wrapped memory itself, never in the middle of a call and never after writing through Bytes; write-behind, a private copy or a cached value looks right to all of them",
 ALL, [("one slice is kept, not copied", "NewBuffer, NewMiniBuffer"), ("stores go to the slice at once", "Write*, *Bit* methods"), ("the internal slice is returned", "Bytes")],
 [("buf", "wrapped slice", "Buffer, MiniBuffer"), ("obuf", "wrapped slice", "MiniBuffer (v2, v3)")],
 ["wrapped memory at scheduling points", "wrapped memory after each call", "reads after stores through Bytes"])
prop("C22", "Every run of the code generator ends by itself",
 "Whatever fails during a run of the code generator, once, or from some moment on for good, for every file or for one, whatever earlier runs, ended or killed anywhere, left in the directory, and whatever other runs over it do meanwhile, also ones that are killed or stopped in the middle of their work: the run exits by itself, after a number of system calls in proportion to the files and bytes there are, and never waits for a file, for space or for another run. (The directory holds ordinary files and directories; opening a named pipe may wait.)",
 ["fault_sequences", "crash_points", "schedules", "configurations"],
 "every system call failing once or persistently, a disk that stays full, every kill and stop point of any number of overlapping runs, every leftover, every set of arguments",
 "the generator has no tests; a run that retries or waits looks like an ordinary one until the failure does not go away",
 GEN, [("one pass over the listing and one over the outputs, errors are reported and left", "generation/main.go main"), ("one pass over the matches", "generation/complex.go GenerateComplex")],
 [("exit", "the end of the process", "generation/main.go")], ["exit of every process", "system calls made"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
