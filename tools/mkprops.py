#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the listed properties)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

VM = "amanda/vm/src/vm.rs"; GEN = "amanda/compiler/codegen.py"; CMP = "amanda/compiler/check/core.py"
PAR = "amanda/compiler/parse.py"; MAIN = "amanda/__main__.py"; ERR = "amanda/compiler/error.py"
VAL = "amanda/vm/src/ama_value.rs"; LOAD = "amanda/vm/src/binload.rs"; TRA = "amanda/compiler/transform.py"
EXH = "amanda/compiler/check/exhaustiveness.py"; BF = "amanda/vm/src/modules/builtins/embutidos.rs"

prop("P01", "A program's input/output history is the one the language defines",
 "For every valid program and every input, the sequence of prompts, input requests, printed bytes and the exit status is exactly the one given by the language's evaluation rules: statements in order, operands and arguments left to right and exactly once, loops and conditionals as written, 64-bit integers and IEEE doubles computed and printed by the language's rules. Everything printed before an input request has been delivered to the terminal before that request can block. A run that finishes normally ends with status 0 and an empty error stream.",
 ["programs", "inputs", "histories"],
 "all programs over scalars, texts, control flow, functions, vectors, records, unions and methods; all interactive input histories",
 "The 230 examples each run one program on one input and compare final text only; nothing checks the interleaving of prompts, reads and prints, and combinations of features (nested calls in operands, effects in conditions, compound assignments on indexed targets) are unbounded.",
 [GEN, CMP, PAR, VM, VAL, TRA],
 [("code generation of statements and expressions", GEN), ("dispatch loop", VM), ("operators and display", VAL), ("typing and promotion", CMP), ("AST lowering", TRA)],
 ["bytes written to fd 1/2", "reads of fd 0", "exit status"])

prop("P02", "Run-time errors stop the program at the fault and report it truthfully",
 "When a program performs an operation the language rejects at run time (zero division or remainder, integer overflow, index out of range, impossible conversion, use of a null value, bad vector size, malformed numeric input, recursion beyond the limit), everything it printed before that operation is delivered, nothing after it takes effect, and it ends with a non-zero status. The error stream carries one report naming the kind of error, the source line of the failing operation in each active call, and the active functions from the innermost outwards. It never ends by an internal panic, a signal, or silently.",
 ["programs", "inputs", "fault_sequences"],
 "all valid programs, and every point of their execution at which a run-time fault can strike, at any call depth and in any module",
 "Tests compare the text of a few error programs whose fault is at the top level; no test varies the fault's position in expression, loop, call chain or module, checks partial output, or checks the exit status.",
 [VM, VAL, GEN, MAIN],
 [("panic_and_throw and stack trace", VM), ("checked arithmetic", VAL), ("source map emission", GEN), ("exit status", MAIN)],
 ["fd 1", "fd 2", "exit status"])

prop("P03", "Input reaches the program intact however the terminal delivers it",
 "The values a program obtains from its input requests are exactly the successive lines of the input, without their line terminators, regardless of how the operating system splits, delays or interrupts the delivery, and a last line without a terminator is a complete line. Each request consumes exactly one line and the program never waits for more input than the requests it has made. End of input, an unreadable input or bytes that are not text end the program with a reported run-time error rather than a crash or an invented value.",
 ["inputs", "schedules", "fault_sequences"],
 "all input byte strings, all chunkings into reads, interrupted reads, early end of input, read errors and invalid bytes at any position, in both build profiles of the runtime",
 "The tests feed no input at all to the runtime; chunking, EINTR, EOF and read errors cannot be produced from a test that only pipes a file.",
 [BF, VM, "amanda/vm/src/lib.rs"],
 [("input builtins", BF), ("error propagation", VM)], ["fd 0", "fd 1", "fd 2"])

prop("P04", "Output is delivered in order and a failing sink never corrupts it",
 "What reaches the output at any instant, including the instant the process is killed, is a prefix of the output the program defines. Short or interrupted writes lose, repeat or reorder nothing. If the sink fails for good (closed pipe, full disk), what was delivered is still such a prefix, the program stops within a bounded number of steps and its exit status is not success.",
 ["schedules", "crash_points", "fault_sequences"],
 "all programs with output, all sequences of short, interrupted and failing writes, and a kill before any system call",
 "A test only sees the complete output of an undisturbed pipe; partial writes, EINTR, ENOSPC, EPIPE and kills need a controlled sink.",
 [VM, MAIN, ERR], [("print operators and flush", VM), ("exit handling", MAIN)], ["fd 1", "fd 2", "exit status"])

prop("P05", "A program starts only if every module was read and accepted in full",
 "If any source file of a program cannot be opened or read, is not text, or breaks a rule of the language that the compiler checks, then not one instruction of the program runs: nothing is printed on the output, no input is consumed, the problem is reported on the error stream and the exit status is not success. If all are accepted, the program runs. Running never creates, modifies or removes any source file.",
 ["programs", "fault_sequences", "crash_points"],
 "all module graphs, with a compile error, missing file, open/stat/read error, truncated or interrupted read or swapped file at any file and any point of loading",
 "Compile-error tests are single-file, ignore the exit status, and cannot make the n-th read of an imported module fail.",
 [MAIN, CMP, PAR, ERR, "amanda/compiler/tokens.py"],
 [("load and import", CMP), ("driver", MAIN), ("error reporting", ERR)], ["opens and reads of source files", "fd 0/1/2", "exit status"])

prop("P06", "Every source text, however damaged, gets a verdict in bounded time",
 "Whatever bytes the source files contain (torn, duplicated, reordered, corrupted or misplaced pieces of programs included), the compiler terminates within a bounded number of steps and either runs the program or prints a diagnosis that names the file and an existing line of it. It never ends with an internal error, a traceback, a panic or a signal, and never loops.",
 ["inputs", "fault_sequences"],
 "all byte strings as source, in particular every prefix and every single-sector corruption of valid programs, in the main file or an imported one",
 "The 123 compile-error examples are well-formed up to one mistake; truncations and corruptions at every position are an unbounded set.",
 [PAR, "amanda/compiler/tokens.py", CMP, ERR, EXH],
 [("lexer and parser recovery", PAR), ("diagnostics", ERR), ("pattern checking", EXH)], ["fd 2", "exit status", "step and CPU bounds"])

prop("P07", "Each module of a program is initialised exactly once, in dependency order",
 "For every acyclic module graph, whatever mix of import forms and however many paths lead to a module, its top-level statements run exactly once, before the first statement of any module that imports it, and the imports of one module are initialised in the order written. A cyclic graph is rejected with a diagnosis and nothing runs.",
 ["programs", "histories"],
 "all module graphs (chains, diamonds, shared standard modules, repeated imports, sub-directories, cycles) and all mixes of import forms",
 "Example tests import one or two fixed modules; the order and multiplicity of initialisation depends on the graph and on which import reached the module first.",
 [CMP, GEN, MAIN, "amanda/compiler/module.py"],
 [("import resolution and module table", CMP), ("module code emission order", GEN)], ["fd 1 order", "opens of source files"])

prop("P08", "Module state is owned by its module and seen alike by all importers",
 "A global variable of a module has one value: writes made by any function of the owning module, called from any module in any order, are seen by every later read through any import form. Names of different modules never collide: equal names of variables, functions, types and methods in different modules denote different things, and a function always uses the globals of the module that defines it. ",
 ["programs", "histories"],
 "all module graphs with stateful modules, all interleavings of calls through different importers and import forms",
 "Ownership mistakes appear only when several modules with equal names interact through call histories; tests have no such programs.",
 [GEN, CMP, VM], [("per-module globals", VM), ("symbol module ownership", CMP), ("name mangling", GEN)], ["fd 1"])

prop("P09", "Vectors and records are shared by reference and never alias by accident",
 "Assigning, passing, returning, storing or matching a vector or record shares one object: an update through any path is visible through all others, and through no others. Every constructor evaluation makes a fresh object; multi-dimensional vectors have independent rows. Appending and removing shift exactly the elements the language says and nothing else; scalar and text values are copied.",
 ["programs", "histories"],
 "all histories of aliasing, mutation, append/remove, nesting, cycles and capture over vectors, records, unions and options",
 "Aliasing bugs depend on the history of operations; tests print a few fixed objects.",
 [VM, VAL, "amanda/vm/src/alloc.rs", GEN], [("heap and object operations", "amanda/vm/src/alloc.rs"), ("index and property opcodes", VM)], ["fd 1"])

prop("P10", "Each call has its own variables, and its caller is left undisturbed",
 "Parameters and local variables of an activation, including those of nested blocks, loops and pattern arms, are independent of every other activation's, whatever the recursion or nesting of calls inside expressions. When a call returns, from any depth of loops or branches, the caller's variables, pending operands and loop state are as before, and variables of a block are freshly initialised every time the block is entered.",
 ["programs", "histories"],
 "all call histories: recursion patterns, early returns out of nested blocks, calls as operands at any position, functions with any number of parameters and locals including none, up to the recursion limit",
 "Frame corruption shows only for particular shapes of frames and pending operands; tests call a handful of functions in isolation.",
 [VM, GEN, "amanda/compiler/symbols/core.py"], [("call and return opcodes", VM), ("local slot allocation", GEN)], ["fd 1"])

prop("P11", "A run depends only on the program and its input",
 "The same program and input give byte-for-byte the same output, error stream, exit status and source-file access pattern, whatever the hash seed, address-space layout, random source, locale, time zone, environment variables or absolute location of the project. Diagnostics of rejected programs and the debug listing are equally repeatable. (Only the character encoding of compiler messages follows what the user sets for the terminal.)",
 ["schedules", "configurations", "programs"],
 "all programs, valid or rejected, over all hash seeds, memory layouts, locales, and working directories",
 "Each test runs once in one environment; set-iteration order and layout effects show up only across environments.",
 [CMP, GEN, "amanda/compiler/types/core.py", EXH, ERR, MAIN], [("ordered tables", CMP), ("serialisation", "amanda/compiler/bindump.py"), ("exhaustiveness sets", EXH)], ["fd 1/2", "exit status", "file accesses"])

prop("P12", "Compilations in one process do not influence each other",
 "Running a sequence of programs in one process, successful, rejected, failing at run time, or disturbed by unreadable or edited source files, failing or ending input and short or interrupted output, in any order, gives each program the behaviour it has when run alone in a fresh process. No compilation or execution leaves state behind that a later one can observe, its debug listing included.",
 ["histories", "fault_sequences", "programs"],
 "all sequences of runs of valid, invalid and faulting programs over different module graphs in one process",
 "The unit tests compile isolated snippets and never compare a program run after others with the same program run alone.",
 [MAIN, CMP, "amanda/compiler/types/builtins.py", "amanda/compiler/types/core.py", GEN, "amanda/compiler/builtinfn.py"], [("builtin types and modules shared by compilations", "amanda/compiler/types/builtins.py"), ("driver", MAIN)], ["fd 1/2", "exit status"])

prop("P13", "Both build profiles of the runtime behave identically",
 "For every program, input and sequence of input/output faults, the runtime built with and without optimisation (with and without internal assertions and overflow checks) produces the same output, the same error stream and the same exit status, and reads the same input.",
 ["configurations", "programs", "fault_sequences"],
 "all programs and inputs over the two build profiles setup and development use",
 "The suite runs against whichever profile is installed; work done inside assertions, wrapping arithmetic and undefined behaviour differ only between profiles.",
 [VM, VAL, LOAD, "amanda/vm/src/alloc.rs"], [("assertions, unchecked code and arithmetic", VM)], ["fd 0/1/2", "exit status"])

prop("P14", "Debug mode observes a run without changing it",
 "Asking for the debug listing changes nothing about the program's output, error stream, input consumption or exit status, in any locale and for any program text. If the listing cannot be created or written, the program is not run with wrong behaviour: either it runs exactly as without the option or the failure is reported and nothing runs. The only file a run may create is that listing.",
 ["configurations", "fault_sequences", "programs"],
 "all programs in debug mode, over locales and over open, short-write and disk-full faults at any write of the listing",
 "No test uses the debug option, and disk faults during its output cannot be produced by tests.",
 [MAIN, GEN, "amanda/compiler/__init__.py"], [("debug listing", MAIN)], ["file writes", "fd 1/2", "exit status"])

prop("P15", "Long-running programs need memory only for what they keep alive",
 "A program whose live data stays bounded runs any number of iterations and calls in bounded memory: discarded results, finished calls, re-entered blocks, dropped objects and printed output leave nothing behind. The depth limit on calls is the same whatever the calls' locals or operands, and releasing a long chain of objects does not exhaust any stack.",
 ["programs", "histories", "fault_sequences"],
 "all loop bodies and call shapes, iterated beyond any fixed buffer under a memory cap, with allocation failing beyond it",
 "Tests run for milliseconds; a leak of one slot per call is invisible in them.",
 [VM, "amanda/vm/src/alloc.rs", GEN], [("value stack discipline", VM), ("object release", "amanda/vm/src/alloc.rs")], ["exit status", "resident memory", "fd 1"])

prop("P16", "Selection runs exactly one arm: the first that matches, with its own bindings",
 "A choice over values (escolha), a pattern match over unions, integers and texts (iguala), or a conditional match (se iguala) evaluates the tested expression exactly once and runs exactly the first arm (in source order) whose pattern matches, binding the names of that pattern to the parts of the tested value; if none matches the alternative runs, if any. The value of a match used as an expression is that arm's value, and nothing else of the surrounding computation changes.",
 ["programs", "inputs", "histories"],
 "all nestings of patterns, orders of arms and tested values, in every expression position, repeated over histories of values",
 "Tests match a few fixed values; decision-tree compilation errors depend on the combination of arms, nesting and value.",
 [GEN, EXH, CMP, PAR], [("pattern compilation", EXH), ("arm code and bindings", GEN)], ["fd 1"])

prop("P17", "The compiler rejects exactly the programs the type rules reject",
 "A program is rejected if and only if it breaks a syntax, scope, import or type rule of the language (matches must be exhaustive, functions with a result must return on every path, calls must fit the declared parameters, every name must be declared and visible), wherever in the program that happens; the diagnosis names the file and the line of the broken rule and shows the text of that line. (The body of an arm that can never be selected is not checked, by design.)",
 ["programs"], "all programs, and every place of every program at which one of the rules can be broken", "Examples sample one violation each, at one place, in one file.",
 [PAR, CMP, EXH], [("semantic analysis", CMP), ("exhaustiveness", EXH)])

prop("P18", "Program transfer from compiler to runtime preserves every instruction",
 "The serialised program handed to the runtime decodes to exactly the constants, names, functions, instructions and line tables the compiler produced, for programs of any size; a program too large for the format is refused with a diagnosis and never runs as another program.",
 ["programs"], "all compiled programs, in particular those whose tables, offsets, lengths and line numbers cross the limits of one and two bytes", "Only small programs are tested; encodings change at sizes no example reaches.",
 ["amanda/compiler/bindump.py", LOAD], [("encoder", "amanda/compiler/bindump.py"), ("decoder", LOAD)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
