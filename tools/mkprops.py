#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to maintain)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

T = "The suite runs 20 fixed scripts and looks only at the exit status of the runner; "

prop("C01", "No script text can corrupt, crash, hang or leak the host",
 "For any bytes given to the compiler as script text, compiling and then running the result within the configured limits never touches memory it does not own, never executes undefined behaviour, never aborts or fails to return, and releases everything when the machine is deleted. The outcome is always either a normal end or reported errors.",
 ["inputs", "programs"], "every byte string as source text, every file name, run under any instruction, memory and stack limits",
 T + "memory errors and undefined behaviour depend on inputs nobody wrote down (unterminated tokens, giant nesting, overflowing arithmetic).",
 ["src/nktoken.c", "src/nkexpr.c", "src/nkcompil.c", "src/nkopcode.c", "src/nkopt.c", "src/nkstring.c", "src/nkdynstr.c"],
 [("bounds-checked tokenizer and preprocessor", "nkiCompilerTokenize"), ("recursion budget of the compiler", "nkiCompilerPushRecursion"), ("masked stack/static/instruction addressing", "nkiVmStackPeek")],
 ["process status under ASan+UBSan", "live bytes of the host allocator after deletion", "per-case watchdog"])

prop("C02", "Memory exhaustion at any allocation is contained",
 "Whichever allocation request the host refuses, and whenever the memory limit is hit, the interrupted call returns to the host, the failure is flagged, every later call on that machine is harmless, and deleting it gives back every block exactly once through the host's own release function with the host's own context pointer. Each subsystem's clean-up routine still runs exactly once and can still enumerate every live host-backed object to release its data.",
 ["fault_sequences"], "every allocation index of every phase (creation, setup, compile, run, collect, call-in, save, load, shrink, delete), refused once or from then on, and every memory limit, for varied programs",
 "A handful of memory-failure runs sample a few failing indices of one script and only look at the exit status; which block leaks or is freed twice depends on the exact failing allocation.",
 ["src/nkmem.c", "src/nkfail.h", "src/nkvm.c", "src/nkx.c", "src/nkerror.c", "src/nkcompil.c"],
 [("longjmp back to the API entry", "nkfail.h"), ("allocation list used by the deleter", "nkiVmDestroy")],
 ["host allocator log", "nkxVmHasAllocationFailure", "clean-up callback log"])

prop("C03", "Memory accounting is exact and the budget is never exceeded",
 "At every moment the reported current memory use equals the bytes the machine has requested from the host for script and bookkeeping data and not yet returned, the peak equals the largest such value ever reached, and no request is ever made that would take the total above the configured maximum. Zero remains when everything is deleted.",
 ["histories", "configurations"], "every history of API calls and script execution, every maximum (also one changed while running)",
 T + "no test compares the counters with what the host allocator saw.",
 ["src/nkmem.c", "src/nkx.c", "src/nkvm.c"],
 [("size header on each block", "nkiMalloc_real/nkiFree"), ("limit test before the request", "nkiMalloc_real")],
 ["host allocator calls", "nkxVmGetCurrentMemoryUsage", "nkxVmGetPeakMemoryUsage"])

prop("C04", "Expressions evaluate to the language-defined value",
 "Every expression over integers, floats, strings, nil and objects yields the value given by the language rules: operator precedence and left-to-right grouping, 32-bit wrap-around integers and single-precision floats, the left operand's type deciding conversion, numeric/string conversions, comparison, strict equality, logical and unary operators, and increment forms. An operation with no defined result (such as integer division by zero, or arithmetic on nil) raises a script error instead of yielding a value.",
 ["programs", "inputs"], "every expression tree and operand values, in globals, locals, arguments and conditions",
 T + "a wrong result or precedence does not change it.",
 ["src/nkexpr.c", "src/nkopcode.c", "src/nkvalue.c", "src/nktoken.c", "src/nkdynstr.c"],
 [("operator precedence parser", "nkiCompilerParseExpression"), ("typed opcodes", "nkiOpcode_add ... nkiOpcode_or"), ("conversions", "nkiValueToInt/Float/String, nkiValueCompare")],
 ["typed values passed to a native recorder", "globals after the run", "errors"])

prop("C05", "Statements, scopes and script calls behave as written",
 "Conditionals, all loop forms, break, nested blocks, shadowed variables, functions (recursive, nested, passed as values, early return, missing return value) execute exactly the statements the program text prescribes, in order, on the variables the scoping rules name. Arguments reach parameters in order, a call never disturbs its caller's variables, and leaving a scope by any route leaves nothing behind.",
 ["programs"], "every program built from the statement grammar, at every nesting",
 T + "most nestings of scopes with break and return never occur in it.",
 ["src/nkcompil.c", "src/nkopcode.c", "src/nkstack.c", "src/nkexpr.c"],
 [("compile-time tracking of stack frames", "nkiCompilerPushContext/PopContext"), ("jump patching", "nkiCompilerCompileIfStatement, ...Loop"), ("return frame layout", "nkiOpcode_return")],
 ["ordered log of native calls with values", "globals after the run"])

prop("C06", "Objects are exact key-value maps",
 "An object read always returns the value most recently stored under an equal key (same type, and same number, text or identity), or nil if there is none or it was removed by storing nil; the reported length is always the number of keys present. This holds identically for script access in every syntax and for host access, with any number and mix of keys, and writes to one object or key never affect another.",
 ["histories", "programs"], "every sequence of store, read, remove, length from script and host over keys of all types, including colliding ones",
 T + "collisions in the hash chains and removals from their middle do not occur there.",
 ["src/nkobjs.c", "src/nkopcode.c", "src/nkvalue.c"],
 [("hash buckets with chains", "nkiVmObjectFindOrAddEntry"), ("removal on nil", "nkiVmObjectClearEntry")],
 ["values read back by script and by host", "len()/nkxVmObjectGetSize"])

prop("C07", "Coroutines suspend and resume exactly where they were",
 "A coroutine runs only when resumed, each resume continues exactly after its last yield with its own variables and call frames intact, values given to resume and yield arrive on the other side, and finishing returns the function's value and marks it finished, after which resume yields nil. Any number of coroutines, nested and interleaved in any order, never disturb one another or their resumers, and misuse (resuming an active one or a non-coroutine, yielding outside one) is a script error.",
 ["schedules", "programs"], "every interleaving of create, resume, yield, finish, query over any number of nested coroutines",
 T + "two scripts exercise a fixed order of resumes.",
 ["src/nkopcode.c", "src/nkcorout.c", "src/nkstack.c", "src/nkcompil.c"],
 [("execution context switch", "nkiVmPushExecutionContext/PopExecutionContext"), ("opcodes", "nkiOpcode_coroutineCreate/Yield/Resume")],
 ["ordered log of values crossing resume/yield", "coroutine state queries"])

prop("C08", "Garbage collection is invisible to scripts and hosts",
 "A program produces the same observable results whenever and however often collection happens (any collection intervals, or a collection forced between any two instructions); nothing that the script, a suspended or active coroutine, a global, a host handle or host mark callback can still reach is ever lost or altered. Text literals keep their content for as long as the code using them exists.",
 ["schedules", "programs"], "every placement of collections between instructions, every interval setting, every program",
 T + "it uses one fixed interval, so few instruction boundaries ever see a collection.",
 ["src/nkgc.c", "src/nkstring.c", "src/nkobjs.c", "src/nkcorout.c", "src/nkvm.c"],
 [("mark from roots", "nkiVmGarbageCollect"), ("coroutine marking", "nkiCoroutineLibrary_...GCMark"), ("literal pinning", "dontGC")],
 ["log of native calls compared across collection schedules", "ASan"])

prop("C09", "Unreachable data is reclaimed and finalised exactly once",
 "After a full collection only data still reachable remains: memory use of a machine that repeats any allocating activity stays bounded, cycles included, and automatic collection keeps it bounded without host help. Each unreachable host-backed object has its clean-up routine called exactly once, and none that is reachable does.",
 ["programs", "histories"], "every object graph (cycles, coroutines, callable objects, keys and values), every number of repetitions",
 T + "growth and missing clean-up calls do not change it.",
 ["src/nkgc.c", "src/nkobjs.c", "src/nkstring.c", "src/nkcorout.c"],
 [("sweep of both tables", "nkiVmObjectTableCleanOldObjects, nkiVmStringTableCleanOldStrings"), ("clean-up callbacks", "nkiVmObjectTableCleanupObject")],
 ["live object enumeration", "current memory use", "clean-up log"])

prop("C10", "Host handles pin exactly the objects they were taken on",
 "While the host holds at least one handle on an object, that object and everything reachable from it stays alive and unchanged across any collections, script runs, saves, loads and shrinks; acquire and release are counted, the count query is exact, and after the last release the object is collectable again. Releasing a handle that is not held is reported and changes nothing.",
 ["histories"], "every sequence of acquire, release, collect, run, save, load over any set of objects",
 "Only one pair of acquire and release calls in one script is tested, with no collection that would notice.",
 ["src/nkobjs.c", "src/nkgc.c", "src/nksave.c"],
 [("linked list of pinned objects", "nkiVmObjectAcquireHandle/ReleaseHandle")],
 ["handle counts", "content of pinned graphs", "live object enumeration"])

prop("C11", "A saved machine resumes exactly where it was saved",
 "Saving a machine between any two instructions and loading it into a freshly prepared machine gives one that behaves identically from there on: same remaining output, results, errors, globals, objects and their identity, coroutines, handles and host data. Saving again what was loaded carries the same state, and saving does not disturb the original.",
 ["crash_points", "programs"], "every instruction boundary of every program as the save point, repeated saves, any objects, coroutines and errors present",
 "The runner's save test compares nothing after loading except that the script exits normally, at a few points of one script.",
 ["src/nksave.c", "src/nkcorout.c", "src/nkx.c"],
 [("image writer/reader", "nkiVmSerialize"), ("coroutine stacks and chain", "nkiSerializeActiveCoroutines")],
 ["log of native calls after load vs. original", "globals", "state dump"])

prop("C12", "A damaged or hostile saved image cannot harm the host",
 "Loading any byte sequence as a saved machine, and afterwards running, collecting, dumping, saving, shrinking or calling into whatever was loaded, never accesses memory it does not own, never aborts, crashes or leaks, and stays inside the host's instruction, memory and stack limits.",
 ["inputs", "fault_sequences"], "every byte string, in particular every mutation of valid images",
 "No test loads anything but its own freshly saved image.",
 ["src/nksave.c", "src/nkopcode.c", "src/nkcorout.c", "src/nkgc.c", "src/nkstack.c", "src/nkdbg.c"],
 [("validation while reading", "nkiSerialize*"), ("masked and checked execution", "nkiOpcode_*")],
 ["process status under ASan+UBSan", "watchdog and instruction budget", "live bytes after deletion"])

prop("C13", "A failed save or load is reported and harmless",
 "If the host's writer or reader fails at any call, or an image is cut short at any byte, has a foreign header, another version, or needs functions or types the target machine does not have, the operation reports failure. A failed save leaves the machine able to continue exactly as before, and a machine whose load failed can still be deleted without leaks or double clean-up.",
 ["fault_sequences", "crash_points"], "every failing write or read call, every truncation length, of images of varied programs",
 "No test makes the stream fail.",
 ["src/nksave.c", "src/nkx.c"],
 [("checked stream wrapper", "NKI_WRAPSERIALIZE")],
 ["return value", "continued log of native calls", "live bytes after deletion"])

prop("C14", "Compile-time evaluation never changes a result",
 "An expression made of literals has the same value, type and error behaviour as the same expression computed at run time from variables holding those literals, for every operator, nesting, number and precision; replacing any literal operand by a variable of equal value never changes what a program does.",
 ["programs", "inputs"], "every literal expression tree, mixed literal and variable trees",
 T + "no test compares folded with computed values.",
 ["src/nkopt.c", "src/nkexpr.c"],
 [("constant folding", "nkiCompilerOptimizeConstants")],
 ["typed values of both forms passed to a native recorder"])

prop("C15", "Slicing execution is invisible and the instruction budget binds",
 "Running a program in one call or in any sequence of bounded steps, even one instruction at a time, produces identical results. With an instruction budget set, a program that would run longer is stopped with an error after at most the budget rounded up by one collection interval, and a program that fits comfortably is never stopped.",
 ["schedules", "configurations"], "every way to slice execution, every budget and collection interval from 1 up, every program including endless ones",
 T + "one sliced run is compared with nothing.",
 ["src/nkvm.c", "src/nkx.c"],
 [("step loop", "nkxVmIterate, nkiVmExecuteProgram"), ("budget countdown", "nkiVmIterate")],
 ["log of native calls", "number of instructions executed"])

prop("C16", "Stack and field limits stop the script, not the host",
 "A script that would exceed the configured stack size, the built-in maximum, or the configured number of fields per object ends with an ordinary script error at that point; nothing beyond the limit is ever stored, everything below the limit (rounded down to a power of two for the stack) works normally, and the machine stays consistent for inspection, collection and deletion.",
 ["configurations", "programs"], "every limit value and every way to approach it (recursion, wide calls, coroutines, script and host field writes)",
 "No test sets these limits.",
 ["src/nkstack.c", "src/nkobjs.c", "src/nkx.c"],
 [("limit tests on push and field creation", "nkiVmStackPush_internal, nkiVmObjectFindOrAddEntry")],
 ["errors", "reached depth and field counts", "object length"])

prop("C17", "A run-time error stops the script at the faulting line",
 "When a statement raises a run-time error, nothing after the faulting operation executes, the error is reported to the host with the source file and line of the statement that raised it (honouring line and file directives, several files and functions), and errors accumulate in order without losing earlier ones. A program without faults reports none.",
 ["programs"], "every kind of run-time error, at every position, nesting, in any of several files",
 T + "it never reads the reported position.",
 ["src/nkerror.c", "src/nkvm.c", "src/nkcompil.c", "src/nktoken.c"],
 [("instruction-to-line markers", "nkiVmFindSourceMarker"), ("error list", "nkiAddErrorEx")],
 ["error text", "log of native calls"])

prop("C18", "Exactly the well-formed scripts are accepted",
 "Every syntactically well-formed script compiles, whatever its number of statements, provided its nesting stays within the compiler's built-in depth limit, and every script with a syntax or declaration error is rejected with an error naming the file and line where the fault was met, without executing any of it. After a rejection the machine can still be queried and deleted.",
 ["programs", "inputs"], "every program of the grammar and every single-fault corruption of one",
 "A few malformed scripts are tested; acceptance of long valid scripts is not.",
 ["src/nktoken.c", "src/nkexpr.c", "src/nkcompil.c", "src/nkerror.c"],
 [("token expectations", "nkiCompilerExpectAndSkip*"), ("error positions", "nkiCompilerAddError")],
 ["compile result", "error text"])

prop("C19", "Native functions and scripts exchange values faithfully",
 "A native function called from a script receives exactly the argument values in order (the object first when called as a method), is called only if its declared argument count and types match (otherwise a script error), and its result becomes the value of the call. A host or native call into a script function, at any nesting, delivers its arguments, returns its result and leaves the interrupted execution undisturbed.",
 ["programs", "histories"], "every argument list, declared signature, call syntax and nesting of host-script-host calls",
 T + "one native function with one callback is used.",
 ["src/nkopcode.c", "src/nkfunc.c", "src/nkx.c"],
 [("argument copy and check", "nkiOpcode_call"), ("call-in loop", "nkiVmCallFunction")],
 ["arguments seen by natives", "results seen by scripts and host"])

prop("C20", "Machines in one process are independent, across threads too",
 "Any number of machines can be created, used and deleted in one process, interleaved on one thread or concurrently on several threads (one thread per machine at a time), and each behaves exactly as if it were alone: no shared data is raced on and no value, error, limit or setting leaks from one to another.",
 ["schedules"], "every interleaving of operations on several machines, every thread schedule",
 "No test uses two machines at once or threads.",
 ["src/nkvm.c", "src/nkx.c", "src/nkopcode.c"],
 [("no mutable globals besides the opcode table", "nkiVmInitOpcodeTable")],
 ["ThreadSanitizer", "per-machine logs compared with solo runs"])

prop("C21", "Shrinking a machine changes nothing but its memory use",
 "Shrinking between any two instructions never changes what the program does afterwards: every value, key, object identity, coroutine, handle, literal and host-held object reference keeps its meaning, and memory use does not grow.",
 ["crash_points", "programs"], "every instruction boundary as the shrink point, any mixture of live objects and coroutines",
 "The runner's shrink test at a fixed step of one script compares nothing.",
 ["src/nkshrink.c", "src/nktable.c"],
 [("table compaction", "nkiVmShrink")],
 ["log of native calls compared with an unshrunk run", "memory use"])

prop("C22", "Text is preserved byte for byte",
 "A string keeps exactly its bytes from literal (with its documented escapes and adjacent-literal joining), concatenation or host call through variables, fields, keys, calls, coroutines, collections and saves to the host; equal text always compares equal and names the same key and different text never does. Numbers rendered to text and parsed back follow the documented formats.",
 ["inputs", "programs"], "every byte string without NUL, every hash collision, every integer and float",
 T + "strings with colliding hashes, high bytes and unusual escapes do not occur in it.",
 ["src/nkstring.c", "src/nkdynstr.c", "src/nktoken.c", "src/nkvalue.c"],
 [("interning table", "nkiVmStringTableFindOrAddString"), ("escape handling", "nkiCompilerTokenize")],
 ["bytes seen by natives", "key lookups", "comparisons"])

prop("C23", "Host data attached to a machine is cleaned up exactly once",
 "Each host-backed object's clean-up routine and each subsystem's clean-up routine runs exactly once, with the right data, no later than deletion of the machine, in every life: normal end, errors, failed or successful load, collection before or after. (After a catastrophic failure only the subsystem routines run, once each, and they can enumerate every live host-backed object with its data.) Type and subsystem look-ups, type tags and data pointers always return what was set, and saving and loading calls each serializer exactly once per live item with the same data stream.",
 ["histories", "fault_sequences"], "every history of registration, object creation, retagging, collection, failure, save, load and deletion",
 "One sample subsystem is exercised; the order and number of callbacks are unchecked.",
 ["src/nkvm.c", "src/nkobjs.c", "src/nksave.c", "src/nkx.c"],
 [("deletion order", "nkiVmDestroy"), ("type registry", "nkiVmRegisterExternalType"), ("subsystem table", "nkiFindExternalSubsystemData")],
 ["callback log", "look-up results"])

prop("C24", "Layout, comments and file splitting do not change meaning",
 "Changing white space, line endings, comments, redundant parentheses or braces, the names of variables and functions, or splitting a program between top-level statements into several compiled pieces, never changes what the program does. Line numbers in errors follow the layout and nothing else.",
 ["programs", "inputs"], "every program and every meaning-preserving rewriting of its text",
 T + "no test compares two spellings of one program.",
 ["src/nktoken.c", "src/nkcompil.c"],
 [("tokenizer", "nkiCompilerTokenize"), ("incremental compilation", "nkiCompilerCompileScript")],
 ["log of native calls of both spellings"])

prop("C25", "Interactive sessions survive errors and accumulate state",
 "Feeding a program piece by piece, compiling, finishing and running each piece, has the same effect as running the whole, however many pieces there are. A piece that fails to compile executes nothing, a piece that fails at run time keeps the effects before the fault, and after the session's error state is cleared all earlier variables, functions and objects work and following pieces run normally.",
 ["histories", "programs"], "every sequence of good, uncompilable and failing pieces of any length",
 "The interactive mode has no tests.",
 ["src/nkcompil.c", "src/nkx.c", "src/interp/main.c", "src/nkerror.c"],
 [("partial finish and error reset", "nkiCompilerPartiallyFinalize, nkiCompilerClearReplErrorState")],
 ["log of native calls", "errors per piece"])

prop("C26", "The host sees and sets exactly the script's values",
 "Global variables looked up by the host by name are the script's own: reads give the current value, writes are seen by the script, names that do not exist are not found, and variables or functions predefined by the host are visible to every later script. Value constructors and conversions for the host agree with the script's own conversions, and calling any script function value from the host equals calling it in the script.",
 ["histories", "programs"], "every set of globals, values of every type, reads and writes at any stop point",
 "One global is looked up and printed in the runner.",
 ["src/nkx.c", "src/nkcompil.c", "src/nkvm.c", "src/nkvalue.c", "src/nkfunc.c"],
 [("global table", "nkiVmFindGlobalVariable"), ("static space", "nkiCompilerCreateGlobalVariable")],
 ["values read by host and script"])

prop("C27", "Observing a machine does not change it",
 "Dumping state, saving, querying limits, counters, errors, sizes, types and globals, and reading missing fields, between any two instructions, never change what the program does afterwards or any later observation, and repeating an observation gives the same answer.",
 ["schedules", "programs"], "every observation at every instruction boundary",
 "Dumps are produced only in verbose runs and compared with nothing.",
 ["src/nkdbg.c", "src/nksave.c", "src/nkx.c"],
 [("read-only inspection", "nkiDbgDumpState, nkxGet*")],
 ["log of native calls with and without observations", "repeated dumps"])

prop("C28", "The command-line interpreter runs scripts faithfully",
 "The command-line program runs any script file with the printed output and exit status the language defines: status zero and exactly the script's output on success, non-zero with the located error on standard error (after the output so far) otherwise. Interactive use survives any sequence of erroneous lines, and no script, file or input line crashes it.",
 ["programs", "inputs"], "every script file and interactive input, including empty, unreadable and binary ones",
 "The interpreter program has no tests at all.",
 ["src/interp/main.c", "src/nkx.c"],
 [("script and interactive driver", "main")],
 ["stdout, stderr, exit status of the sanitized program"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
