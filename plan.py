"""What each property's check runs.

runs: (binary, engine, quick cases, quick seconds, thorough cases, thorough seconds)
"""
BIG = 10 ** 9


def model(rule):
    return rule


PLAN = {
    "C01": dict(level="exploration", runs=[("nkmon", "C01", BIG, 28, BIG, 1000), ("nkmon-msan", "C01", BIG, 8, BIG, 300)],
                rule="random bytes, token soup, extreme nesting, wildly mistyped programs, resource-abusing programs and mutations of all of them compiled and run under random instruction, memory, stack, field and collection settings with random host calls in between and afterwards, on the sanitized library; every case must end, in an end or an error, inside its limits and with every block given back; distinct by text"),
    "C04": dict(level="exploration", runs=[("nkmon", "C04", BIG, 30, BIG, 600)],
                rule="typed random programs dense in expressions, judged record by record against an independent reference interpreter; non-trivial when the program emits at least two records; distinct by emitted records"),
    "C05": dict(level="exploration", runs=[("nkmon", "C05", BIG, 30, BIG, 600)],
                rule="random programs of nested statements, loops, blocks, shadowing and functions against the reference interpreter; non-trivial when the program emits at least two records; distinct by emitted records"),
    "C07": dict(level="exploration", runs=[("nkmon", "C07", BIG, 30, BIG, 600)],
                rule="random programs with pools of nested and interleaved coroutines against the reference interpreter (real stackful fibers); non-trivial when at least two records are emitted; distinct by emitted records"),
    "C17": dict(level="exploration", runs=[("nkmon", "C17", BIG, 30, BIG, 600)],
                rule="random programs with a planted run-time fault against the reference interpreter, comparing records before the fault, file and line; non-trivial when at least two records are emitted; distinct by emitted records"),
    "C08": dict(level="exploration", runs=[("nkmon", "C08", BIG, 22, BIG, 700), ("nkmon", "C08G", BIG, 10, BIG, 300)],
                rule="random programs (coroutines, host-backed objects holding references, host handles) run with a collection after every instruction, at random instructions, at random automatic intervals and from inside native functions; each run judged against the reference interpreter; and random object graphs built by host and script (fields, keys, handles, references inside host data, coroutines) compared entry by entry with a map kept beside them around every collection; non-trivial when at least two records are emitted; distinct by emitted records or history"),
    "C11": dict(level="exploration", runs=[("nkmon", "C11", BIG, 22, BIG, 700), ("nkmon", "C11G", BIG, 9, BIG, 250)],
                rule="random programs saved at random instructions (one to twenty hops, also of a machine that was itself loaded) and loaded into a fresh machine; original and loaded machine both continue and are judged against the reference interpreter; random object graphs saved and loaded over and over and compared entry by entry; non-trivial when at least two records are emitted; distinct by emitted records or history"),
    "C15": dict(level="exploration", runs=[("nkmon", "C15", BIG, 30, BIG, 900)],
                rule="random programs run in one call, one instruction at a time, in random slices and under random instruction budgets and collection intervals; judged against the reference interpreter and the single-step record; distinct by emitted records"),
    "C21": dict(level="exploration", runs=[("nkmon", "C21", BIG, 21, BIG, 700), ("nkmon", "C21G", BIG, 10, BIG, 250)],
                rule="random programs shrunk at one, many and all-with-collection instructions; judged against the reference interpreter, memory use compared before and after each shrink; random object graphs shrunk over and over and compared entry by entry; distinct by emitted records or history"),
    "C24": dict(level="exploration", runs=[("nkmon", "C24", BIG, 30, BIG, 600)],
                rule="random programs printed in random layouts (white space, comments, line endings, redundant parentheses and blocks, renamed variables, directives, one to five compiled pieces), each judged against the reference interpreter including error file and line; distinct by printed text"),
    "C14": dict(level="exploration", runs=[("nkmon", "C14", BIG, 30, BIG, 600)],
                rule="random literal expressions (every operator, nesting, numbers and precisions) evaluated folded, half-folded and from variables on the real machine and by the reference interpreter; every variant must agree; distinct by emitted records"),
    "C27": dict(level="exploration", runs=[("nkmon", "C27", BIG, 30, BIG, 600)],
                rule="random programs with every observer of the public interface called twice between instructions; repeated answers compared, memory use compared, final results judged against the reference interpreter; distinct by emitted records"),
    "C02": dict(level="exploration", runs=[("nkmon", "C02", BIG, 25, BIG, 800), ("nkmon-msan", "C02", BIG, 9, BIG, 200)],
                rule="whole machine lives (create, register, compile, run, handles, saves, loads, queries, collections, shrinks, deletion) with every n-th allocation refused once or for good, with memory limits and with forced failures; after every call the machine either works or is flagged failed; every block and every host object must be given back exactly once; distinct by failing call and seed"),
    "C03": dict(level="exploration", runs=[("nkmon", "C03", BIG, 30, BIG, 600)],
                rule="whole machine lives with reported current and peak use compared with the host allocator after every call and inside natives, under random limits and limits exactly at and below the peak; distinct by allocation pattern"),
    "C12": dict(level="exploration", runs=[("nkmon", "C12", BIG, 25, BIG, 1000), ("nkmon-msan", "C12", BIG, 9, BIG, 300)],
                rule="images of random machines damaged by bit flips, hostile words at field boundaries, cuts, insertions, splices of two images, random bytes and endless garbage, loaded into fresh and used machines under random limits on the sanitized library; then run, called by the host, saved, reloaded, deleted: limits not raised, every block given back, every call returns; distinct by image"),
    "C13": dict(level="exploration", runs=[("nkmon", "C13", BIG, 30, BIG, 900)],
                rule="images of random machines at random instructions; every writer call failing (once, for good), every truncation, failing readers, foreign headers and incompletely prepared targets; result and subsequent behaviour judged against the reference interpreter; distinct by image"),
    "C16": dict(level="exploration", runs=[("nkmon", "C16", BIG, 30, BIG, 600)],
                rule="field limits approached from scripts and host, stack limits located by bisection for six kinds of stack growth, unbounded recursion in several shapes; distinct by program and limit"),
    "C06": dict(level="exploration", runs=[("nkmon", "C06", BIG, 30, BIG, 600)],
                rule="random object graphs driven by interleaved host calls and script operations in every access syntax, each read, length and key set compared with a map kept beside them; distinct by operation history"),
    "C09": dict(level="exploration", runs=[("nkmon", "C09", BIG, 30, BIG, 900)],
                rule="random object graphs with host-backed objects: after each full collection exactly the unreachable host data has been cleaned up, once each; repeated allocating activities (cycles, strings, coroutines, closures over objects, host data) run long enough for their memory use to level off; distinct by operation history"),
    "C10": dict(level="exploration", runs=[("nkmon", "C10", BIG, 30, BIG, 600)],
                rule="random object graphs with handles taken, counted and released many times between collections, script runs, saves, loads and shrinks, compared with handle counts and contents kept beside them; distinct by operation history"),
    "C23": dict(level="exploration", runs=[("nkmon", "C23", BIG, 30, BIG, 600)],
                rule="random machine lives with several external types and subsystems, ended normally, by errors, by failed and successful loads, by collections; every clean-up and serializer call recorded and matched with live items; distinct by life"),
    "C19": dict(level="exploration", runs=[("nkmon", "C19", BIG, 30, BIG, 600)],
                rule="random webs of script and native functions calling each other (plain, as methods, through callable objects, from coroutines, from the host between and during runs, nested), with declared argument lists of every shape and deliberate mismatches, judged against the reference interpreter; distinct by emitted records"),
    "C22": dict(level="exploration", runs=[("nkmon", "C22", BIG, 30, BIG, 600)],
                rule="random bytes and pairs of nearly equal texts sent through literals, joins, concatenations, fields, keys, calls, coroutines, host reads and writes, collections, shrinks, saves and loads, compared byte by byte with texts kept beside them; distinct by program"),
    "C18": dict(level="exploration", runs=[("nkmon", "C18", BIG, 30, BIG, 600)],
                rule="valid programs mutated token by token, token soup, lexical faults and directives at known places, constructs nested and repeated up to and far beyond the limits, judged by an independent tokenizer, parser and scope checker: same verdict, the error names the line, nothing of a rejected script runs; distinct by text"),
    "C26": dict(level="exploration", runs=[("nkmon", "C26", BIG, 30, BIG, 600)],
                rule="random sets of globals (many names, nearly equal names, host-predefined variables and functions) read and written alternately by host and script, conversions compared with the script's own; distinct by history"),
    "C25": dict(level="exploration", runs=[("nkmon", "C25", BIG, 30, BIG, 600)],
                rule="interactive sessions of random pieces, good ones mixed with pieces that cannot be compiled and pieces that fault at run time, each judged against the reference interpreter running the same session: records, printed results, errors and the state left behind; distinct by session"),
    "C28": dict(level="exploration", needs=["ninkasi", "ninkasi-msan", "ninkasi-fast"], runs=[("nkmon", "C28", BIG, 30, BIG, 600)],
                rule="the sanitized command-line program run on random valid, failing and uncompilable script files, empty, unreadable, binary and huge files, random interactive input and options, under memory and instruction limits; output, located error and exit status judged against the reference interpreter; distinct by script"),
    "C20": dict(level="exploration", technique="runtime monitoring: ThreadSanitizer and AddressSanitizer runs of many machines on several threads, each compared with its own solo run and the reference interpreter",
                runs=[("nkmon-tsan", "C20", BIG, 18, BIG, 500), ("nkmon", "C20", BIG, 10, BIG, 300)],
                rule="two to eight machine lives (random, failing, hostile and refused programs; random limits; collections, shrinks, dumps, saves, loads) on racing threads, interleaved on one thread, handed from thread to thread, and driven from inside each other's native functions; no data race, every log identical to the same life alone, results judged against the reference interpreter; distinct by set of programs"),
}

NOT_APPLICABLE = {}
