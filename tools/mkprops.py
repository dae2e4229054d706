#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only the
properties whose check exists under skv/checks are written)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=list(state), observe=observe, level=level))


TRUST = " Trusts the reference model in skv/lang.py (validated against thousands of programs), the host's cc and libc."

prop("C01", "No input makes the compiler crash, hang or touch memory it must not",
     "For every byte sequence given as a source file and every combination of options, the compiler ends by itself with "
     "exit status 0 or 1: it never dies from a signal or a failed assertion, never runs forever, and never reads or writes "
     "memory out of bounds, after it was freed, or in another way the C standard leaves undefined.",
     ["inputs", "configurations"], "every source file (well-formed or not, valid UTF-8 or not) and every option combination",
     "the unit tests feed hand-written token lists and 139 well-behaved files; a bad read happens on inputs nobody wrote down",
     ["skull/parse/token.c", "skull/parse/ast_node.c", "skull/parse/classify.c", "skull/common/str.c", "skull/common/vector.c",
      "skull/common/hashtable.c", "skull/semantic", "skull/codegen"],
     [("tokeniser and parser", "skull/parse"), ("semantic pass", "skull/semantic"), ("code generation", "skull/codegen")],
     "AddressSanitizer + UndefinedBehaviorSanitizer and memcheck runs of the real compiler on mutated, truncated and generated sources",
     "Exploration: tens of thousands of sources and option sets per quick run under ASan/UBSan; leaks are not reported "
     "(the compiler exits right away); nesting is kept below a few hundred levels.")

prop("C03", "Compiling the same file again gives byte-identical results",
     "The output files, the messages and the exit status depend only on the source file, its path and the options: compiling "
     "the same source again with the same command gives byte-for-byte the same result, whatever the contents of memory, the "
     "address layout, the environment (but for COLOR and the locale, and with -g the directory) or earlier runs were.",
     ["programs", "configurations"], "every program and option set, and every memory content and environment",
     "a test runs each program once; dependence on addresses or uninitialised memory shows only when two runs are compared",
     ["skull/common/hashtable.c", "skull/codegen/llvm/write.c", "skull/semantic/unused.c", "skull/common/malloc.c"],
     [("symbol table iteration", "skull/common/hashtable.c"), ("unused symbol report", "skull/semantic/unused.c")],
     "replay monitor: repeated runs under perturbed memory, address layout and environment, compared byte for byte",
     "Exploration over random valid and invalid programs, all output modes and several perturbations of each.")

prop("C04", "Every accepted program gives a complete, valid output in every mode",
     "Whenever the compiler exits with status 0 it has written the output that was asked for, and that output is valid: LLVM "
     "IR passes LLVM's verifier, assembly assembles, object files link, C code compiles and links (for programs without namespaces, nested functions and names that mean something in C), and the executable starts (for assembly and C: when the file name has only letters, digits, dots and underscores). "
     "A well-formed program is never refused with an internal error, in any mode.",
     ["programs", "configurations"], "every accepted program and every output mode and option",
     "the expected-output files cover a small fixed set of programs in one mode each",
     ["skull/codegen/llvm", "skull/codegen/c", "skull/codegen/llvm/write.c"],
     [("IR emission", "skull/codegen/llvm"), ("C emission", "skull/codegen/c"), ("output writing", "skull/codegen/llvm/write.c")],
     "monitored runs of the compiler on generated programs, each output judged by LLVM's verifier, assembler, linker and cc",
     "Exploration over random programs x all modes.")

prop("C05", "Expressions evaluate to the value the language defines",
     "In every compiled program each expression yields the value given by the documented operators, precedence, "
     "left-to-right grouping and parentheses, on the exact 64-bit integers, IEEE doubles, booleans, runes and strings that its "
     "operands have at run time, whether the operands are literals, constants, variables, references or call results.",
     ["programs", "inputs"], "every well-typed expression, nesting and operand value for which the documentation defines a result",
     "the tests compare the generated text of a few expressions and never run the programs",
     ["skull/codegen/llvm/expr.c", "skull/parse/ast_node.c", "skull/semantic/expr.c", "skull/shim.ll"],
     [("operator precedence", "skull/parse/ast_node.c"), ("expression code generation", "skull/codegen/llvm/expr.c"),
      ("built-in helpers", "skull/shim.ll")],
     "runtime monitor: compiled programs log every value through instrumented externals; log compared with a reference evaluator",
     "Exploration; overflow, out-of-range shifts, negative exponents and inexact powers are not generated." + TRUST)

prop("C06", "Control flow runs exactly the statements the source selects",
     "A compiled program executes precisely the statements that its if/elif/else conditions, while loops, break, continue and "
     "return select, in order and the right number of times, at any nesting depth: the first true arm runs and no other, "
     "break and continue act on the innermost loop, return ends the function at once, and a finished construct continues with the "
     "statement after it.",
     ["programs", "inputs"], "every nesting and combination of control statements and every run-time outcome of their conditions",
     "tests compare the emitted text of a handful of shallow shapes and execute nothing",
     ["skull/codegen/llvm/flow.c", "skull/semantic/flow.c", "skull/parse/ast_node.c"],
     [("branch and loop generation", "skull/codegen/llvm/flow.c"), ("flow checks", "skull/semantic/flow.c")],
     "runtime monitor: every block logs; online event log of the real program compared with a reference interpreter",
     "Exploration over random nestings and systematic skeletons." + TRUST)

prop("C07", "Calls pass every argument and return value exactly, once and in order",
     "Every call evaluates each of its arguments exactly once, from left to right, before the body runs, and the callee sees "
     "exactly those values in its parameters; the caller gets exactly the returned value. This holds for any number and mix of "
     "parameter types, nested and recursive calls, and functions declared in functions, blocks and namespaces.",
     ["programs", "inputs"], "every function signature, call nesting, recursion depth and argument value",
     "tests cover calls of up to a few parameters textually; order and multiplicity of effects are never observed",
     ["skull/codegen/llvm/func.c", "skull/semantic/func.c", "skull/parse/ast_node.c"],
     [("function definitions and calls", "skull/codegen/llvm/func.c"), ("call checking", "skull/semantic/func.c")],
     "runtime monitor: arguments and bodies log events; exactly-once and ordering judged against a reference interpreter",
     "Exploration; recursion up to 60 frames, up to 40 parameters. The right operand of and/or is kept free of effects." + TRUST)

prop("C08", "Variables, references, scopes and namespaces denote the right storage",
     "Reading a variable gives the value last stored in that very variable: assignments change only the variable named, "
     "a reference always designates the variable it was taken from, equal names in different scopes, functions or namespaces are "
     "independent, a definition inside a loop or function starts afresh each time it is executed, and a type alias behaves like "
     "the type it names.",
     ["programs", "histories"], "every sequence of definitions, assignments and dereferences over every scope structure",
     "tests look at single definitions and assignments; interference between variables needs sequences",
     ["skull/codegen/llvm/assign.c", "skull/codegen/llvm/expr.c", "skull/semantic/scope.c", "skull/semantic/assign.c",
      "skull/semantic/mangle.c", "skull/codegen/llvm/shared.c"],
     [("variable storage", "skull/codegen/llvm/assign.c"), ("scope lookup", "skull/semantic/scope.c"),
      ("name mangling", "skull/semantic/mangle.c")],
     "runtime monitor: values logged after every change, compared with a reference store",
     "Exploration over random programs dense in definitions, references, namespaces and reused names." + TRUST)

prop("C09", "Optimisation level, debug info and output mode never change behaviour",
     "A program behaves identically (same external calls with the same values in the same order, same result) whether it is "
     "compiled with any optimisation level, with or without debug information, and whether it is run as the linked executable "
     "or through the object file, assembly or LLVM IR output.",
     ["programs", "configurations"], "every well-defined program and every pair of build configurations",
     "the tests check each mode's text separately, at one optimisation level, and never run anything",
     ["skull/codegen/llvm/write.c", "skull/codegen/llvm/debug.c", "skull/cli.c"],
     [("pass pipeline and emission", "skull/codegen/llvm/write.c"), ("debug info", "skull/codegen/llvm/debug.c"),
      ("start-up code", "skull/codegen/llvm/write.c")],
     "runtime monitor: the event logs of the same program built in many configurations compared with each other and the model",
     "Exploration: six or more builds per program." + TRUST)

prop("C10", "The C backend produces programs that behave like the LLVM backend's",
     "For programs without namespaces or nested functions, whose names mean nothing in C, "
     "in which no operation or call has two operands with effects, the C code written by the C backend compiles with a C compiler and, when run, makes the same external calls with the same "
     "values in the same order and returns the same result as the program means.",
     ["programs", "inputs"], "every program of that subset",
     "tests compare a few lines of emitted C text; the C is never compiled or run",
     ["skull/codegen/c/core.c", "skull/codegen/c/expr.c", "skull/codegen/c"],
     [("C emission", "skull/codegen/c")],
     "runtime monitor: emitted C compiled with cc and run under the logging runtime, compared with the reference interpreter",
     "Exploration over a documented subset (see DESIGN.md for what the backend's fixtures pin)." + TRUST)

prop("C11", "Literals mean exactly what is written, and unrepresentable ones are refused",
     "Every integer literal (decimal, hexadecimal, octal, binary, with underscores), float, rune and string literal produces, at run "
     "time, exactly the value written (a string up to its first NUL), including the extreme values of the type and every escape sequence. A literal whose value "
     "does not fit its type or whose escape is not defined is reported as a compilation error instead of being changed silently.",
     ["inputs"], "every literal of every form and every value, in and out of range",
     "tests convert a few literals each; the boundaries and combinations are unbounded",
     ["skull/semantic/types.c", "skull/common/str.c", "skull/parse/classify.c", "skull/codegen/llvm/expr.c"],
     [("literal conversion", "skull/semantic/types.c"), ("escapes", "skull/common/str.c"), ("token kinds", "skull/parse/classify.c")],
     "runtime monitor: literals logged by compiled programs as raw bytes/bits, compared with an independent evaluation; rejection observed",
     "Exploration with boundary values of every radix and width." + TRUST)

prop("C12", "Ill-typed programs are rejected, well-typed ones accepted",
     "A program in which some expression, assignment, argument, condition, return or operator has operands of the wrong type, the wrong "
     "number of arguments, or a missing or unexpected value is refused with a compilation error and exit status 1, wherever in the program "
     "the fault is; there are no implicit conversions. The same program without the fault is accepted.",
     ["programs"], "every program with one type fault, at every place it can occur",
     "each test has one fault in a two-line program; rules must hold in every context",
     ["skull/semantic/expr.c", "skull/semantic/assign.c", "skull/semantic/func.c", "skull/semantic/flow.c", "skull/semantic/types.c"],
     [("expression typing", "skull/semantic/expr.c"), ("assignment typing", "skull/semantic/assign.c"),
      ("call typing", "skull/semantic/func.c"), ("return and condition typing", "skull/semantic/flow.c")],
     "outcome monitor: valid generated programs with one injected fault, paired with the fault-free twin as control",
     "Exploration over fault kinds x contexts x random surrounding programs.")

prop("C13", "Constants never change",
     "No compiled program can change a variable that was not declared mutable: every assignment to a constant, a function "
     "parameter, an exported variable, a type alias or a function name is a compilation error in every scope and form, so that a "
     "constant reads the same at every point of its life, while assignments to mutable variables are accepted.",
     ["programs"], "every program, declaration form and scope from which the assignment is attempted",
     "tests try one assignment at top level",
     ["skull/semantic/assign.c", "skull/semantic/variable.c"],
     [("assignment check", "skull/semantic/assign.c")],
     "outcome monitor on injected assignments plus a run-time monitor that constants read the same throughout",
     "Exploration over declaration kinds x scopes x forms.")

prop("C14", "Names resolve lexically; undefined, duplicate and shadowing names are refused",
     "A name can be used exactly from its declaration to the end of the enclosing block, function or namespace: "
     "use before declaration or after the scope ended, unknown names, wrong namespace members, a second declaration of a "
     "visible name (variable, function, parameter, alias or namespace) and shadowing are compilation errors, while reuse of a name whose "
     "scope has ended is accepted.",
     ["programs"], "every program and every place of declaration and use",
     "tests try single names in short programs",
     ["skull/semantic/scope.c", "skull/semantic/symbol.c", "skull/semantic/func.c", "skull/semantic/assign.c", "skull/common/hashtable.c"],
     [("scopes", "skull/semantic/scope.c"), ("symbol table", "skull/common/hashtable.c")],
     "outcome monitor: injected name faults in generated programs, each paired with a valid control",
     "Exploration over declaration kinds x use positions.")

prop("C15", "Misplaced or missing control statements are refused",
     "break and continue outside a loop, else or elif without if, statements after return/unreachable/break/continue, "
     "a value-returning function without a return of its type at the end, a value returned from a function without one, nested exported or "
     "external functions, non-statements and unbalanced or incomplete constructs are compilation errors wherever they occur.",
     ["programs"], "every program with one such fault at every place it can occur",
     "tests have each fault once, at top level",
     ["skull/semantic/flow.c", "skull/semantic/func.c", "skull/parse/ast_node.c", "skull/semantic/entry.c"],
     [("flow checks", "skull/semantic/flow.c"), ("parser", "skull/parse/ast_node.c")],
     "outcome monitor: injected faults in generated programs, each paired with a valid control",
     "Exploration over fault kinds x positions x nesting.")

prop("C16", "Errors are reported at the right place, in one format, with exit 1 and no output",
     "A rejected program gives exit status 1, at least one message of the form '<file>: Compilation error: [line L column C: ]<text>' "
     "whose line and column are those of the offending token in the source as the user sees it, and creates or changes no output file.",
     ["programs", "inputs"], "every ill-formed program, whatever precedes the error (comments, strings, multi-byte characters, tabs, long lines)",
     "tests check a position in files of a few lines",
     ["skull/common/errors.c", "skull/parse/token.c", "skull/codegen/shared.c", "skull/pipeline.c"],
     [("message formatting", "skull/common/errors.c"), ("token positions", "skull/parse/token.c")],
     "outcome monitor: messages parsed and compared with the position at which the fault was planted",
     "Exploration; columns count characters; messages documented without a position are only checked for text.")

prop("C17", "Warnings are exact, and -q and --werror act on all of them",
     "The compiler warns about precisely the unused variables and functions (outside function bodies; exported ones count as used), never-reassigned mutable variables, constant conditions, "
     "redundant explicit types, byte-order marks and empty files of a program, each once; warnings go to standard error and never change the exit status "
     "or output. With -q no warning is printed; with --werror the compilation fails if and only if there is one.",
     ["programs", "configurations"], "every program and the three warning configurations",
     "tests trigger each warning once in isolation",
     ["skull/semantic/unused.c", "skull/common/errors.c", "skull/semantic/flow.c", "skull/semantic/assign.c"],
     [("unused report", "skull/semantic/unused.c"), ("warning output", "skull/common/errors.c")],
     "outcome monitor: the set of warnings printed compared with the set the model predicts, in all three configurations",
     "Exploration over generated programs; functions' local variables are not reported by the compiler and not predicted.")

prop("C18", "Command line options mean what the manual says, and bad ones are refused",
     "Each option has its documented effect alone and combined with any others, in any order and position around the file name; conflicting, repeated, "
     "unknown or incomplete options, wrong file names and directories are refused with a message and a non-zero status, before anything is written. "
     "Arguments after -- reach the C compiler unchanged.",
     ["configurations"], "every command line",
     "tests run a dozen command lines",
     ["skull/cli.c", "skull/real_main.c", "skull/codegen/shared.c", "skull/build_data.c"],
     [("option parsing", "skull/cli.c"), ("linker invocation", "skull/codegen/llvm/write.c")],
     "outcome monitor: random command lines judged against a model of the manual page",
     "Exploration of random option sequences.")

prop("C19", "Only the documented output files are written, nothing else is touched",
     "Compiling creates or replaces exactly the file the manual names for the chosen mode (or the -o target) and, for an executable, leaves no intermediate "
     "file behind, linked or not; the source and all other files keep their contents and existence, whatever characters the names contain and however many compilations run at the same time, and a refused program "
     "changes nothing.",
     ["configurations", "inputs"], "every file name, directory, mode and option, and both outcomes",
     "tests check single fixed file names",
     ["skull/codegen/shared.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/common/io.c"],
     [("output names", "skull/codegen/shared.c"), ("linking and clean-up", "skull/codegen/llvm/write.c")],
     "file-system monitor: directory snapshots and strace-free inode/content comparison before and after each run in a scratch directory",
     "Exploration over names (spaces, quotes, dashes, dollar signs, Unicode, dots, deep paths) x modes x outcomes; the intermediate object .NAME.sk.o belongs to the compiler, and what a failing C compiler does to the executable is its own business.")

prop("C20", "Layout, comments, redundant parentheses and consistent renaming change nothing",
     "Two sources that differ only in white space between tokens, indentation, blank lines, comments at line ends or on lines of their own, a missing final newline (except after an external declaration), a byte-order mark, "
     "redundant parentheses, the spelling of equal literals, or consistently renamed identifiers are both accepted or both refused, and produce the same program.",
     ["programs"], "every program and every such rewriting",
     "tests use one layout per construct",
     ["skull/parse/token.c", "skull/parse/ast_node.c", "skull/parse/classify.c"],
     [("tokeniser", "skull/parse/token.c"), ("parser", "skull/parse/ast_node.c")],
     "metamorphic monitor: normalised object code and IR of rewritten sources compared with the original's; run-time logs compared on a sample",
     "Exploration: random layouts of random programs.")

prop("C21", "Source text is decoded as UTF-8 and nothing else",
     "Every valid UTF-8 character allowed in a string, rune or comment reaches the program unchanged (as UTF-8 bytes in strings, as its code point in runes) and counts as one column; "
     "every byte sequence that is not valid UTF-8 (stray or missing continuation bytes, overlong forms, surrogates, values above U+10FFFF), every NUL byte and every "
     "control character in a rune is refused with an error.",
     ["inputs"], "every code point and every malformed byte sequence, at every position in a file",
     "tests decode a handful of characters",
     ["skull/common/str.c", "skull/common/io.c", "skull/parse/token.c"],
     [("decoder", "skull/common/str.c"), ("file reading", "skull/common/io.c")],
     "outcome and run-time monitor: code points swept through strings, runes and comments; malformed sequences injected",
     "Exploration covering every lead byte, boundary and class of malformed sequence.")

prop("C22", "Exported and external symbols link with C under the documented names and types",
     "Exported functions, exported variables and the module's entry function are visible to other objects under their documented names and with their C types and values, "
     "(LLVM backend; module names of letters, digits, dots and underscores), external declarations bind to the C function of exactly that name, and everything else stays private, so that any "
     "set of modules with disjoint exports links together and works in one program.",
     ["programs", "configurations"], "every set of modules, names and signatures",
     "tests compare declarations in IR text and never link two modules",
     ["skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c", "skull/semantic/mangle.c", "skull/codegen/abi.c", "skull/codegen/llvm/shared.c"],
     [("linkage names", "skull/semantic/mangle.c"), ("entry function name", "skull/codegen/abi.c"), ("linkage", "skull/codegen/llvm/func.c")],
     "runtime monitor: generated C callers link against generated modules, call exports with random values and log what arrives on both sides",
     "Exploration over random modules; symbol tables read with nm.")

prop("C23", "Every environmental failure ends in a diagnosed, clean non-zero exit",
     "If reading the source, an allocation made by the compiler's own code, creating or writing an output, or running the C compiler fails at any point, the compiler exits with a non-zero status "
     "and a message, without crashing and without putting messages into output files; it never reports success unless the complete output is in place.",
     ["fault_sequences", "configurations"], "every single failing operation, at every occurrence of it during the run, in every output mode",
     "tests cannot make calls fail",
     ["skull/common/malloc.c", "skull/common/io.c", "skull/common/str.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/codegen/shared.c", "skull/real_main.c", "skull/cli.c"],
     [("allocation wrappers", "skull/common/malloc.c"), ("source reading", "skull/common/io.c"), ("output writing", "skull/codegen/llvm/write.c")],
     "runtime monitor with fault injection: the n-th allocation / open / read / write / close / rename / fork / exec made to fail in turn (interposed, under ASan as well), C compilers that fail or die, full devices, closed descriptors; exit status, message and output monitored",
     "Every occurrence index of each faulted call is tried in turn for a set of programs and modes; single faults plus short writes; allocations inside LLVM and libc are not failed (they abort by design).", level="fault_enumeration")

prop("C24", "Debug information maps the program to its source lines, names, types and values",
     "With -g (and no optimisation), each call is attributed to the line and column and each assignment, variable definition, condition and explicit return to the line it was written on, in the right file; "
     "functions, parameters and variables appear under their source names with their declaration lines and types, and a debugger stopped in the program shows the values they have; "
     "-g changes nothing else about the program, and without -g no debug information is emitted.",
     ["programs"], "every program and layout compiled with -g",
     "tests compare the metadata of a few files",
     ["skull/codegen/llvm/debug.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/flow.c", "skull/codegen/llvm/func.c"],
     [("debug metadata", "skull/codegen/llvm/debug.c")],
     "runtime monitor: every instruction the compiled program executes is logged (trap-flag single stepping), mapped through the line table and compared with the planted lines; values printed by gdb and DWARF entries compared with a reference evaluation",
     "Exploration over random programs and layouts; the size of Bool (1 bit, pinned by the tests) keeps debuggers from showing Bool values, which are therefore not judged.")

prop("C25", "Size does not matter: large programs compile and behave like small ones",
     "Programs with many variables, functions, parameters, statements, long or similar names, long lines, long literals, long elif chains and deep nesting are compiled "
     "correctly: no name is confused with another, nothing is truncated, and errors and warnings in them are still reported, at the right line and column.",
     ["programs", "inputs"], "every size of every dimension up to the stated bounds, and every set of names",
     "tests use programs of a few lines and a few names",
     ["skull/common/hashtable.c", "skull/common/vector.c", "skull/common/str.c", "skull/parse/token.c", "skull/semantic/scope.c"],
     [("hash table", "skull/common/hashtable.c"), ("growing arrays", "skull/common/vector.c"), ("string building", "skull/common/str.c")],
     "runtime monitor: size-parameterised programs whose every value is logged, compared with a reference evaluation, under ASan as well; rejected and warned variants of the same sizes",
     "Exploration up to thousands of names/statements, 64 KiB literals and lines, 100-deep nesting; time limits are inconclusive, not violations.")

prop("C26", "Compilations made in one process do not affect each other",
     "A program that embeds the compiler (libskull, real_main) can compile any sequence of files, good or bad, in any output modes, in one process: with the settings put back in between, "
     "each compilation gives exactly the status, messages and output it gives in a process of its own, whatever was compiled before, leaves no file descriptor open and the program's own standard streams usable.",
     ["histories", "programs", "configurations"], "every sequence of compilations in one process",
     "tests compile sequences of files that are all fixed, and look only at the expected output of each",
     ["skull/real_main.c", "skull/pipeline.c", "skull/build_data.c", "skull/common/errors.c", "skull/semantic/shared.c", "skull/codegen/llvm/shared.c", "skull/codegen/c/shared.c", "skull/codegen/llvm/write.c", "skull/semantic/import.c"],
     [("entry point for external programs", "skull/real_main.c"), ("error list", "skull/common/errors.c"), ("backend state", "skull/codegen/llvm/shared.c")],
     "runtime monitor: recorded histories of compilations in one process (plain and under ASan) compared step by step with each compilation in a process of its own; descriptors counted after each",
     "Exploration of histories of up to 120 compilations; the memory a compilation does not give back is not judged.")

prop("C27", "import accepts exactly the modules next to the importing file",
     "An import of m is accepted if and only if a readable file m.sk is in the directory of the file being compiled, wherever the compiler is run from and however the file is named (relative, absolute, "
     "in the root directory, through links), and is refused otherwise with a message that names the missing module; it does not change the compiled program.",
     ["inputs", "configurations"], "every directory tree, file name, working directory and place of the import",
     "tests import one module that is there and one that is not",
     ["skull/semantic/import.c", "skull/parse/ast_node.c"],
     [("module lookup", "skull/semantic/import.c")],
     "runtime monitor: compilations in random directory trees (also in a root directory of their own) with decoy modules, outcome compared with the tree and the program with the same one without imports",
     "Exploration over random trees, names and paths; under ASan as well.")

CLAIMED = [p for p in P if os.path.exists(os.path.join(HERE, "skv", "checks", p["id"].lower() + ".py"))]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in CLAIMED:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            a["observe_at"] = [p["observe"] or "the compiler's command line, its output files, and the behaviour of the programs it builds"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m skv.setup", "checks": [], "not_applicable": NA}
    for p in CLAIMED:
        c = p["id"].lower()
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 -m skv " + c, "thorough_cmd": "python3 -m skv %s --thorough" % c,
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
                            "evidence_file": "evidence/%s.json" % p["id"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    main()
    for p in CLAIMED:
        assert len(p["title"]) <= 80, p["title"]
    print(len(CLAIMED), "properties")
