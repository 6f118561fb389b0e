"""What each check explores, for the evidence files."""
REAL = ["the unmodified tool main() functions and library sources of /repo/src and /repo/include, compiled with edge instrumentation",
        "ICU, sqlite3, libstdc++ as installed", "real files in a private scratch directory"]
STUB = ["stdin/stdout/stderr devices (scripted deliveries, buffering, faults)", "memory allocator (seeded arena with chosen garbage)",
        "time(), clock(), rand(), srand()", "process creation, pipes and signals (in-process simulated child)", "sqlite VFS (shim over the Unix VFS)"]
ASSUME = ["the simulator's seams behave like the POSIX calls they replace", "seeded search: absence of a violation is evidence over the explored seeds, not a proof"]


def P(rule, secs=None, stub=None, assume=None):
    return {"rule": rule, "real": REAL, "stub": STUB + (stub or []), "assume": ASSUME + (assume or []), "secs": secs or {}}


PROPS = {
    "P01": P("A random stream (or a corpus stream), grammar, options and format; one reference run with the whole input delivered at once, then 2-4 deliveries in other pieces. Non-trivial: the reference run wrote output."),
    "P02": P("Random documents cut by flushes into client turns, for every tool and pair of formats; at each flush the client withholds all further input and looks at what stdout's device has received. Non-trivial: at least one client wait was reached."),
    "P03": P("Random documents cut into 2-9 requests by flushes, with state (variables, dependencies, relations, text, open windows) pending at the cut; one session over all requests, then one fresh tool per request, outputs compared with handed-out numbers replaced by what they refer to. Non-trivial: at least two requests were answered."),
    "P04": P("A document in which every word form, reading, sub-reading and piece of text carries a unique marker (word and base forms partly with special characters, spaces between tags widened to runs around the line buffer's size), in every pair of input and output formats, through vislcg3, cg-conv, cg-proc or cg-mwesplit, with random window limits, look-ahead, hard, soft, text and dependency delimiters, flushes and deliveries. The markers in the output must be those of the input, once each and in order (of the readings of one cohort: as a set); with a grammar that changes nothing, or one that only counts how often it sees a window, every reading must also keep its tags, read back through the independent reader of the output format, and must have been counted once. With random rules that leave cohorts alone, cohorts and texts must be complete and in order; with rules that remove cohorts, the rest and every text must. What a format cannot hold may be refused with an error. Non-trivial: the grammar compiled and there was input."),
    "P05": P("A random or corpus document, grammar, options and format, then damage at one or more byte positions: the input ends there, the device reports a read error there, bits flip, bytes are deleted, duplicated, overwritten or inserted (format-specific fragments, malformed UTF-8, NUL). Every run must end by itself, in a status, without a signal, with diagnostics when the status is not zero, and with what was answered before the damage intact. Every allocation of the tool carries canaries and freed blocks are checked for writes. Non-trivial: damage was applied."),
    "P06": P("A random stream to stdout or to a named output file, or a random or corpus grammar written by cg-comp, cg-relabel, --grammar-bin, --grammar-out or --show-tags; one fault-free run, then 2-6 runs in which the device fails (full disk, broken pipe, I/O error, once or for good) at a chosen byte up to the very last, accepts only short or interrupted writes, cannot be opened, or the machine dies in the write. Non-trivial: the fault-free run wrote output."),
    "P07": P("A random grammar drawn from nearly the whole rule language (or a corpus grammar, or rules in an included file, or names and tags as long as the parsing buffers) and a random document. Equivalence: the document is answered from the source, from its cg-comp compilation, from its --grammar-bin compilation and from a compilation of the compilation; verdicts and outputs must be the same. Then 2-6 damaged loads: the compiled file cut at a byte, a read error at a byte, the machine dying while it is written, a read error in the source or an included file; each must be rejected with diagnostics and no output, unless nothing was missing. Short and interrupted reads must change nothing. Non-trivial: the grammar was accepted and at least one equivalence was checked."),
    "P08": P("A random document and grammar with one to three EXTERNAL rules before or after the other sections, run against a simulated external program on pipes of 1 byte to 64 KiB with partial transfers: first a program that never changes anything (the requests must be what the rules see, each window once, and the output that of the grammar without EXTERNAL), then one that edits tags, base forms, word forms and texts (every request must show the replies so far, the output or the remaining rules their result), then one to three (thorough: eight) runs in which the program or a system call fails at some window in one of 20 ways: the run must end with an error and a prefix of the right output. Non-trivial: a request was sent."),
    "P09": P("A random stream, grammar, options and format run once in a plain environment and 3-4 times more with other allocation addresses and reuse orders, other contents of fresh memory and of the stack, other clock, random seed, stdout buffering and delivery; also two compilations of one grammar compared byte for byte. Non-trivial: the reference run wrote output."),
    "P10": P("Two to four (thorough: six) scripts of C API calls as for P11, each with its own objects, run in threads of one simulated process whose baton is passed on by seed after every 3 to 20000 basic blocks (up to 20000 preemptions); function-local statics initialise under the same scheduler. Every result of every thread is compared with the same script run alone in a fresh process; deadlock, hang and crash are violations. Non-trivial: at least two switches and two results compared."),
    "P11": P("A random script of C API calls in one process: grammars from text, file or binary, applicators with flags and section options, sentences built with tags in four encodings, copied, run, read back, run on text (stream, file, buffer), converted, format-detected, freed in random order, with failing calls (missing, short, malformed, cut grammars, bad tags) between them, under varied allocation addresses, reuse order and stale memory. Every call that returns something is compared with the same call made in a fresh process after only the calls it depends on; a copied sentence also with one built directly. Non-trivial: at least two results compared."),
    "P12": P("A random document (dependencies, static tags, sub-readings, mapping tags, text, variables, 0-6 flushes; in a quarter of the runs only what Apertium, or what Niceline and FST, can say) goes through 1-5 random stages (vislcg3 with up to two random, rich or corpus grammars and random options, cg-conv, cg-mwesplit) connected in random formats (CG, JSONL, binary, Apertium, Niceline, FST), converters in between where formats differ. The stages are run one after the other on files; then coupled: each stage gets exactly the bytes its predecessor has let out when everything before it is blocked, in random pipe-sized pieces, while a client waits at every flush. Every stage's bytes must be the same, the client must see exactly its flush markers and (for grammars that change nothing) all its tokens, and what is visible at a random flush must be the answer of the pipeline to the input so far. Then the same stages run with CG on all pipes: the final analysis must be the same in a format-independent form. Non-trivial: all stages finished.", stub=["pipes between the processes (byte queues in the simulator)"]),
    "P13": P("A random document in one to four (thorough: seven) shards and a grammar of single-purpose rules in one or two files (or a rich random grammar), profiled in every format. The profiled run must give exactly the plain run's output; its counts are compared with the run's own --debug-rules reports, with conservation laws (context hits = sum over rules), with an exact model for documents of one reading per cohort, and every rule and context must be found at its place in the grammar text; shards merged in 3 random orders and groupings by cg-merge-annotations must give the whole; profiles of other grammars are refused; cg-annotate must have a page per used rule and context. Then 2-8 database faults (reads, writes, opens, torn pages, process killed before the n-th write, profiles cut at a page): each tool fails or gives the fault-free result, and what is left under the profile's name is absent, the old or the whole profile. Non-trivial: the profiled run ended normally.", stub=["sqlite's file access (fault-injecting VFS shim)"]),
    "P14": P("A random stream, grammar, options and format (or a grammar tool run), once fault-free with its allocations counted, then 4-12 (thorough: 24) runs in which the n-th C++ allocation fails, alone, or with the next few, or with all that follow. Each run must end by itself with a failure status and a prefix of the fault-free output, or succeed with exactly the fault-free result; memory errors on the way out are violations. Non-trivial: an allocation failed."),
    "P15": P("A random document with SETVAR/REMVAR (single names, values, lists), FLUSH, IGNORE/RESUME and EXIT commands between cohorts, random delimiters, soft/hard limits, look-ahead and --dep-delimit; a grammar whose first rules copy the variables a window sees (its own and the previous window's) into tags, so that each window of the output tells what was visible in it; compared with a model that replays the commands over the input. Also rules that set variables themselves, with and without OUTPUT. Non-trivial: the run finished and its output was compared."),
}
