#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here because JSON lines are hard to edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe or ["stdout, stderr and exit status of the tools"], "hook_needed": hook}})


STREAM = ["src/GrammarApplicator_runGrammar.cpp", "src/ApertiumApplicator.cpp", "src/JsonlApplicator.cpp", "src/BinaryApplicator.cpp",
          "src/NicelineApplicator.cpp", "src/FSTApplicator.cpp", "src/PlaintextApplicator.cpp", "src/MatxinApplicator.cpp",
          "src/FormatConverter.cpp", "src/MweSplitApplicator.cpp"]

p("P01", "Output does not depend on how the input bytes are delivered",
  "For a given grammar, options and input byte stream, every tool that processes a stream gives the same output, diagnostics and exit status however those bytes arrive: in one piece, byte by byte, split inside a character, line, token or command, or with pauses in between. In particular internal buffer sizes are not observable.",
  ["schedules", "inputs", "configurations"], "every partition of every input stream into deliveries, for every stream format, tool and option set",
  "The tests feed whole files through a shell redirect, which always arrives in large aligned pieces, and have no over-long lines or characters straddling a boundary.",
  STREAM + ["src/uextras.cpp", "src/uextras.hpp", "src/streambuf.hpp"],
  [("get_line_clean, u_fgetc surrogate carry-over, cstreambuf/bstreambuf", "src/uextras.cpp, src/streambuf.hpp"), ("format auto-detection look-ahead", "src/FormatConverter.cpp")],
  [("line/cleaned buffers", "partial line carried across reads", "get_line_clean in src/uextras.cpp"), ("pending surrogate", "second half of a split character", "u_fgetc in src/uextras.cpp")])

p("P02", "A flush is answered completely before any further input is needed",
  "When a client sends a flush command (or the null separator of the Apertium format) and then waits, everything it sent before is fully processed, in order, and visible on the output device followed by the flush marker before the tool asks for more input. The bytes visible at that moment are exactly those that a fresh run over the stream up to that flush would have produced.",
  ["schedules", "histories", "inputs"], "every interactive history of requests, flushes and waits, for every format with a flush command, any window look-ahead, window limit or output buffering",
  "Tests compare complete outputs after end of input; none observes what is visible while the client is still waiting, which is when a missing flush deadlocks a pipeline.",
  STREAM, [("FLUSH branch and u_fflush", "src/GrammarApplicator_runGrammar.cpp, src/JsonlApplicator.cpp, src/BinaryApplicator.cpp"), ("wblank/null flush", "src/ApertiumApplicator.cpp"), ("flush_after on windows", "src/SingleWindow.hpp")],
  [("gWindow next/previous", "windows not yet printed", "src/Window.hpp")], ["bytes visible on stdout whenever the tool blocks reading stdin"])

p("P03", "A flush separates requests: later output is as if the tool had just started",
  "After a flush, the output for later input equals the output a newly started tool would give for that input alone, apart from the numeric identifiers the tool hands out. Variables, dependencies, relations, window look-ahead, text, and learned tags from before the flush have no effect, even when the flush falls inside a window or directly after text, variables or another flush.",
  ["histories", "inputs", "configurations"], "every pair of a history before a flush and a continuation after it, for every format with a flush command, grammar and option set",
  "A few tests contain a flush, none compares the continuation with a fresh process; leaks need a specific state (pending variables, look-ahead, a text delimiter, dependencies) at the moment of the flush.",
  STREAM + ["src/Window.cpp", "src/GrammarApplicator_reflow.cpp"],
  [("FLUSH branch: drain windows, clear variables", "src/GrammarApplicator_runGrammar.cpp"), ("setNullFlush handling", "src/ApertiumApplicator.cpp")],
  [("variables, variables_set/rem/output", "stream variables", "src/GrammarApplicator.hpp"), ("cSWindow/lSWindow/lCohort", "current and last window and cohort", "runGrammarOnText"), ("dep_window, relation_map, cohort_map", "cross-window lookups", "src/Window.hpp")])

p("P04", "Every token, reading and text of the stream comes out once, in order",
  "With rules that do not remove cohorts, every cohort, reading and piece of text of the input appears in the output exactly once and in input order, whatever the window limits, look-ahead, delimiters, commands or stream length, and each window is given to the grammar exactly once. Rules that remove cohorts take nothing else with them. Converting a stream between formats keeps every word form and reading the target format can express.",
  ["inputs", "configurations", "histories"], "every stream of any length in every format, every combination of window limits, look-ahead and delimiters",
  "Losing or doubling data at a window boundary needs streams longer than the look-ahead and particular alignments of limits, text, commands and end of input, which the small fixed tests do not have.",
  STREAM + ["src/Window.cpp", "src/SingleWindow.cpp", "src/cg-conv.cpp"],
  [("shuffleWindowsDown, printSingleWindow over previous", "src/Window.cpp, src/GrammarApplicator_runGrammar.cpp"), ("soft/hard limit and look-back split", "src/GrammarApplicator_runGrammar.cpp delimitAt")],
  [("gWindow previous/current/next", "window pipeline", "src/Window.hpp")])

p("P05", "Input that ends or breaks anywhere ends the run cleanly",
  "When the input ends, fails or is damaged at an arbitrary byte, the tool still terminates by itself: it neither crashes, hangs, nor reads outside its buffers, and it either reports an error with a non-zero status and a diagnostic, or exits normally. Everything answered by a flush before that point stays as it was, and when no error is reported, everything in windows that were complete before that point is output as it would have been for the undamaged stream.",
  ["crash_points", "inputs", "fault_sequences"], "every byte offset at which a producer may die or the stream may be corrupted, for every stream format",
  "Tests only use complete, well-formed files; a producer dying half way through a line, tag, packet or escape is a different input at each of thousands of offsets.",
  STREAM + ["src/uextras.cpp"],
  [("end-of-input handling of the applicators", "src/*Applicator.cpp"), ("binary packet reader", "src/BinaryApplicator.cpp"), ("JSON line errors", "src/JsonlApplicator.cpp")])

p("P06", "Output that could not be written is never reported as success",
  "If any write of a tool's result fails - disk full, closed pipe, I/O error, at any byte, on stdout or on a file it creates - the tool ends with a non-zero status. What did reach the device is an exact prefix of the fault-free output.",
  ["fault_sequences", "crash_points", "configurations"], "every byte offset at which a write can fail, for every tool and kind of output",
  "No test makes a write fail; success is reported by the exit status at the very end, whatever happened to the data.",
  ["src/main.cpp", "src/cg-conv.cpp", "src/cg-proc.cpp", "src/cg-mwesplit.cpp", "src/cg-comp.cpp", "src/cg-relabel.cpp", "src/BinaryGrammar_write.cpp", "src/GrammarWriter.cpp", "src/uextras.cpp"],
  [("stream state checks before exit", "the main functions"), ("u_fprintf/u_fflush", "src/uextras.cpp")])

p("P07", "A compiled grammar means what its source means, and loads whole or not at all",
  "A grammar compiled to the binary form and loaded later gives, on every stream, exactly the output of the textual grammar it was made from. A binary grammar cut short or unreadable at any byte is rejected with an error; it is never silently used as a different grammar.",
  ["programs", "inputs", "crash_points", "fault_sequences"], "every grammar in the language and every stream; every crash or fault point while the file is written or read",
  "The test runner compares binary and textual runs for its own grammars only, one input each, and never interrupts or damages a file.",
  ["src/BinaryGrammar_write.cpp", "src/BinaryGrammar_read.cpp", "src/BinaryGrammar_read_10043.cpp", "src/cg-comp.cpp", "src/GrammarApplicator.cpp"],
  [("writeBinaryGrammar / readBinaryGrammar field symmetry", "src/BinaryGrammar_write.cpp, src/BinaryGrammar_read.cpp")],
  [("rule, set, tag, context tables", "numbering survives the round trip", "src/Grammar.hpp")])

p("P08", "External programs: exact exchange, clean failure, no deadlock",
  "With external-program rules each matching window is sent exactly once, complete and well-formed, after a version header, and the program's reply replaces that window and nothing else; a reply that changes nothing leaves the output unchanged. If the program dies, closes its pipes in mid-reply, or answers with a malformed reply at any point, the run ends with an error instead of hanging, crashing, or going on with wrong data. When a run ends normally the program is terminated and reaped.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of pipe reads and writes of both sides, pipe capacities, partial transfers, and every point at which the external program or a system call can fail",
  "One test uses a cooperative external program that always answers completely; no test makes it fail, nor splits its messages.",
  ["src/GrammarApplicator_runRules.cpp", "src/GrammarApplicator_runGrammar.cpp", "src/process.hpp", "include/posix/popen_plus.cpp", "src/GrammarApplicator.cpp"],
  [("pipeOutSingleWindow / pipeInSingleWindow", "src/GrammarApplicator_runGrammar.cpp"), ("Process::start/read/write", "src/process.hpp"), ("popen_plus", "include/posix/popen_plus.cpp")],
  [("externals", "running programs by rule", "src/GrammarApplicator.hpp")], ["what the simulated child receives and sends on its pipes", "stdout and exit status of the tool"])

p("P09", "The result is a function of grammar, options and input alone",
  "Running the same tool on the same grammar, options and input always gives byte-identical output, diagnostics and status. Memory addresses and reuse order, contents of fresh memory, time, random state, process environment and earlier runs have no influence.",
  ["schedules", "configurations", "inputs"], "every choice of addresses, allocation reuse order, garbage in fresh heap and stack memory, clock and random state",
  "Tests run once per build in one environment; order that depends on pointer values or uninitialised memory usually looks stable there.",
  STREAM + ["src/GrammarApplicator_runRules.cpp", "src/Grammar.cpp", "src/Cohort.cpp", "src/Reading.cpp", "src/SingleWindow.cpp"],
  [("ordered containers with explicit comparators", "src/sorted_vector.hpp, src/CohortIterator.hpp"), ("object pools that reset state", "src/Cohort.cpp, src/Reading.cpp, src/SingleWindow.cpp")])

p("P10", "Independent sessions in different threads do not affect each other",
  "Any number of threads, each using its own grammar and applicator through the library, get exactly the results each would get alone, whatever the interleaving. No session crashes, blocks or corrupts another.",
  ["schedules", "histories"], "every interleaving of the threads' steps",
  "The tests are single-threaded; shared mutable state shows only under particular interleavings.",
  ["src/libcg3.cpp", "src/cg3.h", "src/uextras.cpp", "src/Cohort.cpp", "src/Reading.cpp", "src/SingleWindow.cpp", "src/GrammarApplicator_reflow.cpp", "src/inlines.hpp"],
  [("thread_local pools and scratch buffers", "src/Cohort.cpp, src/Reading.cpp, src/SingleWindow.cpp, src/scoped_stack.hpp"), ("one-time initialisation", "src/libcg3.cpp")],
  [("thread-local scratch", "buffers and object pools", "static thread_local variables")], ["results of C API calls per thread"])

p("P11", "Library results do not depend on what was done before in the process",
  "Through the C API, the result of loading a grammar, building a sentence, running it and reading it back depends only on that grammar, its options and that sentence. Earlier sentences, other grammars and applicators, failed calls, freeing and reloading have no effect, and objects stay readable until they are freed.",
  ["histories"], "every sequence of API calls over any number of grammars, applicators and sentences, including failed loads",
  "The single API test makes one straight-line pass.",
  ["src/libcg3.cpp", "src/cg3.h", "src/GrammarApplicator.cpp"],
  [("cg3_* functions", "src/libcg3.cpp")], [("applicator tag cache, indexes, window counters", "survive between sentences", "src/GrammarApplicator.hpp")], ["results of C API calls"])

p("P12", "Pipelines of the tools give the composed result and never deadlock",
  "Tools connected by pipes of any capacity give the same final output as running them one after the other on files, and the pipeline always finishes. A flush sent in at the front travels through all stages and its complete answer comes out at the end while the client is still waiting. Which format a pipe carries (CG, JSONL, binary, Apertium, Niceline, FST), and conversion stages in between, make no difference to the final analysis as far as the formats can express the document.",
  ["schedules", "configurations", "inputs"], "every scheduling of the stages, pipe capacity and split of reads and writes",
  "Tests run single tools on files; a stage that holds back output or changes command markers shows only when stages are coupled and the client waits.",
  STREAM + ["src/cg-conv.cpp", "src/cg-mwesplit.cpp", "src/main.cpp", "src/cg-proc.cpp"],
  [("flush propagation", "printStreamCommand in each applicator"), ("stream command pass-through in conversion", "src/FormatConverter.cpp")], None, ["bytes on each pipe of the simulated pipeline"])

p("P13", "Profiling data is conserved: no hit lost, doubled or misattributed",
  "Profiling a run does not change what it outputs. Profile counts written by a run equal what the run did, and merging the profiles of any split of the work at flushes, in any order, gives the totals of the unsplit work (context counts as far as the rule keeps the order of its tests). If the profile cannot be read or written completely, the tool reports failure instead of leaving or using partial data as if it were whole.",
  ["histories", "fault_sequences", "crash_points"], "every split of a workload into shards, every merge order and grouping, every point at which database I/O can fail",
  "No test runs the profiler, the merge tool or the annotator.",
  ["src/Profiler.cpp", "src/cg-annotate.cpp", "src/Profiler.hpp", "src/cg-merge-annotations.cpp", "src/GrammarApplicator_runRules.cpp"],
  [("Profiler::write / read", "src/Profiler.cpp"), ("merge loop", "src/cg-merge-annotations.cpp")], [("entries", "match/fail counts and examples per rule and context", "src/Profiler.hpp")], ["contents of the profile database"])

p("P14", "Running out of memory never yields a wrong result reported as success",
  "If any memory allocation the tool makes fails, once or for good, the run either recovers and gives the exact fault-free result or ends with a failure status. It never hangs, and what was already output is a prefix of the fault-free output.",
  ["fault_sequences", "crash_points"], "every allocation of a run as the failing one",
  "No test makes an allocation fail; each run has tens of thousands of failure points.",
  ["src/main.cpp", "src/libcg3.cpp", "src/Grammar.cpp", "src/TextualParser.cpp", "src/GrammarApplicator_runGrammar.cpp"],
  [("exception propagation", "main functions and libcg3 entry points")])

p("P15", "Stream variables and commands act exactly where they stand in the stream",
  "A variable set or removed by a stream command is visible to rules from the first window that starts after the command, until changed, removed or flushed, and never in earlier windows; every such command is reproduced in the output before the cohorts it precedes. Input between ignore and resume passes through untouched, and nothing after an exit command is processed.",
  ["histories", "inputs", "configurations"], "every sequence of set, remove, ignore, resume, flush and exit commands between windows, for every look-ahead and window limit",
  "Two tests set a variable at the start of a stream; interactions of commands with window look-ahead, limits and flushes form a history space tests do not sample.",
  ["src/GrammarApplicator_runGrammar.cpp", "src/JsonlApplicator.cpp", "src/ApertiumApplicator.cpp", "src/BinaryApplicator.cpp", "src/SingleWindow.hpp", "src/GrammarApplicator_runRules.cpp"],
  [("variables_set/rem/output adopted per window", "adopt_variables in runGrammarOnText"), ("runGrammarOnWindow applies them in window order", "src/GrammarApplicator_runRules.cpp")],
  [("variables", "current values", "src/GrammarApplicator.hpp"), ("SingleWindow::variables_*", "changes attached to a window", "src/SingleWindow.hpp")])

p("P16", "Which readings a rule selects or removes is as the rule language defines",
  "For every grammar and sentence, the rules that apply, their order, and their effect on readings, cohorts, dependencies and relations are those the CG-3 manual defines.",
  ["programs", "inputs"], "every grammar and sentence",
  "The test suite is a large set of examples of exactly this, but the language is unbounded.",
  ["src/GrammarApplicator_runRules.cpp", "src/GrammarApplicator_runContextualTest.cpp", "src/GrammarApplicator_matchSet.cpp", "src/TextualParser.cpp"],
  [("rule engine", "src/GrammarApplicator_runRules.cpp"), ("contextual tests", "src/GrammarApplicator_runContextualTest.cpp")])

p("P17", "Relabelling and grammar printing keep the meaning of a grammar",
  "A relabelled grammar behaves as the original with tags renamed, and a grammar printed back to text by the tools is equivalent to the one that was read.",
  ["programs"], "every grammar and relabel file",
  "Two tests cover relabelling with one grammar each; the printer is exercised only through one option.",
  ["src/Relabeller.cpp", "src/GrammarWriter.cpp", "src/cg-relabel.cpp"], [("Relabeller::relabel", "src/Relabeller.cpp"), ("GrammarWriter::writeGrammar", "src/GrammarWriter.cpp")])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
