#!/usr/bin/env python3
"""Writes DESIGN.md from the checks' own descriptions, properties.jsonl, MANIFEST.json, KNOWN_FINDINGS.txt, seeded/ and the notes below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

INTRO = """# Runtime verification of dosisod/skull

(written by `tools/mkdesign.py`; edit that file, not this one)

skull is a compiler: a C program that reads one `.sk` file and writes LLVM IR, assembly, an object, C or an executable.  What users rely on
is the behaviour of *two* programs, the compiler and what it compiles, for every source text, command line and environment.  Everything here
is decided by running both and watching them:

* the **compiler** runs in instrumented builds made from /repo's working tree (ASan + UBSan, memcheck on a sample, call-interposing
  fault injection, several compilations in one process, strace on a sample), and its status, streams, files and messages are observed;
* the **compiled programs** are linked with a logging runtime (`native/rt.c`) that records every value handed to it as raw bits, run under
  CPU limits (single-stepped for C24), and the event log is compared with an independent reference interpreter (`skv/lang.py`).

No check reads the text of /repo's sources; they only build and run them.  Helpers moved, loops rewritten or data structures replaced
make no difference unless an observable of a run changes.

## Machinery

| part | what it does |
|---|---|
| `skv/build.py` | builds /repo's working tree outside it into a cache keyed by the content of the tree: `plain`, `asan` (ASan+UBSan, no recovery), `fault` (ASan + interposed libc/LLVM calls), `seq`/`seqasan` (many compilations per process) |
| `native/forkserver.c` | fork server around the real `main`: ~1 ms per compilation, fresh process each time, CPU and address-space limits, argv in exact-size allocations (so that over-reads of arguments are seen), optional root directory, fault plans, sequences |
| `native/rt.c` | logging runtime linked with compiled programs: sinks (`sk_pi` ...), identities that log (`sk_gi`), sources that are opaque to the optimiser (`sk_qi`), dereferencing and writing through pointers |
| `native/trace.c` | single-steps a compiled program with the trap flag and logs the instruction addresses (C24) |
| `native/fakecc.sh` | stands in for `cc` and records its argument vector (C18, C19, C23) |
| `skv/lang.py` | abstract syntax, printer (canonical or random layout, with the position of every node), reference interpreter producing the expected event log, model of the warnings |
| `skv/gen.py` | random well-typed, terminating programs with weighted profiles; hostile names; every operator, type, statement |
| `skv/syntax.py` | recogniser of a superset of the language and token-level edits (C15) |
| `skv/checks/_faults.py` | catalogue of about 80 single faults with the message and position each must produce, and the fault-free twin |
| `skv/checks/_skel.py` | random nestings of blocks with numbered points, for placement, scoping and constness rules |
| `skv/runner.py` | work distribution over 8 processes, seeds (`VERIF_SEED`), evidence, replays, known findings, verdict |

Verdict rules: a check is bounded by a number of cases, not by time; a case that runs into the wall clock or CPU limit is repeated and, if it is
not the property that limits it, recorded as inconclusive and never as a violation.  Every violation is written with its input, command
and observed output to `replays/` before the VIOLATION line is printed.  Evidence counts what the monitors saw: events compared, states,
fault sites reached, distinct programs, kinds of construct covered.

Quick checks take 5-60 s each on 8 cores (all of them about 8 minutes); thorough ones run the same units 25-60 times as often with further seeds.

Levels: `exploration` for all but C23 (`fault_enumeration`: all failing calls of a run are enumerated in turn).  C21 is exhaustive over all
Unicode scalar values; the operator x type tables in C12 and the statement x scope tables in C13-C15 are complete within one run.

## Properties
"""

WHY = {
    "C01": ("sanitizer and memcheck reports, signals, CPU limit", "The input space is all byte strings x option sets; the tests run 500 hand-written well-behaved ones, without sanitizers."),
    "C03": ("byte comparison of runs under different address layouts, heap fillings, environments and clocks", "Dependence on addresses, uninitialised memory or time shows only across runs; tests run once and compare texts with fixtures."),
    "C04": ("LLVM's verifier, clang's assembler, the linker, gcc and the loader", "Whether output is well-formed is decided by tools the tests never run on it."),
    "C05": ("reference interpreter, bit-exact event log", "Tests compare IR text; a wrong opcode or predicate for a combination without a fixture is invisible to them."),
    "C06": ("reference interpreter: order and number of executed log statements", "A branch to the wrong block is visible only for particular nestings and values."),
    "C07": ("reference interpreter: every argument, call and return logged on both sides", "Mix-ups need particular arities, types or call orders."),
    "C08": ("reference interpreter: values of all storage after each change", "Aliasing and scope mistakes need sequences of definitions, writes and reads."),
    "C09": ("the same event log from every build of a program", "Differences between -O levels, -g and output modes need execution."),
    "C10": ("reference interpreter over C compiled with gcc at two levels", "The tests compare C text of a few programs and never run it."),
    "C11": ("independent evaluation of literals (exact rationals, code points), compared as raw bits", "Boundaries are in the values; tests use a dozen literals."),
    "C12": ("type rules of the documentation: complete operator x type tables; planted faults", "Acceptance of an ill-typed program needs the one combination not in the tests."),
    "C13": ("scoping model for assignment; logged values of constants", "Constness must hold at every nesting, through references and control flow."),
    "C14": ("scoping model on random nestings", "A name lookup bug needs particular neighbours, prefixes or sibling scopes."),
    "C15": ("placement model on random nestings; permissive recogniser on edited texts", "Tests have each mistake once, at the top level of a tiny file."),
    "C16": ("positions tracked by the printer of the program", "Positions go wrong behind comments, multi-byte text, CRLF, long lines or nesting."),
    "C17": ("model of each warning computed from the program", "False and missing warnings depend on uses elsewhere in the program."),
    "C18": ("model of the manual; a recording stand-in for cc", "Order, combination and special characters are not in the tests."),
    "C19": ("whole-tree snapshots, strace of writes", "The tests never look at other files."),
    "C20": ("metamorphic: the same program before and after rewriting", "The tests fix one layout."),
    "C21": ("independent UTF-8 coder; every scalar value", "Exhaustive over all characters; the tests use five."),
    "C22": ("generated C drivers, symbol tables, event logs of both sides", "The ABI shows only when linked with C and called."),
    "C23": ("status, message and bytes of the output under each single injected fault", "The tests never make a call fail."),
    "C24": ("executed instruction addresses mapped through the line table; gdb's view of frames and values; the DWARF tree", "Metadata fixtures do not tell whether a debugger stops at the right line."),
    "C25": ("expected values computed by size; ASan on half of the compilations", "Growth, truncation and collision bugs need sizes the tests do not have."),
    "C26": ("comparison with the same compilation in a fresh process; descriptor counts", "State left behind needs histories of compilations."),
    "C27": ("model of the directory tree", "Working directory, links, names and decoys are not varied by the tests."),
}

NOTES = """
## False alarms met while building, and what became of them

Each was a mistake in a check or in the property as first written; the check or the wording was corrected.

* C21: offsets in the illegal-UTF-8 message count from 0 (columns elsewhere from 1); the model says so now.
* C03: with `-g` the working directory is part of the output, so compared runs share it.
* C18: an empty argument vector prints the help text; `-E` prints to standard output and not to `.file.ll`.
* C20: identifiers are ASCII only; renaming no longer uses other letters. Comments are only put where the language allows them.
* C22: `_strcmp`, `_int_pow`, `_float_pow` are weak helper definitions every object may carry; they are not the module's own symbols.
* C23: with `-q` no message may be asked for.
* C24: LLVM merges tail calls and gives them line 0 when the compiler writes the object itself, so call positions are compared in a build of the
  emitted IR with `llc -O0`; implicit returns, stores that change nothing and functions without a located instruction have no line entry.
* C27: a module called `mod` cannot be named (it is an operator).
* C15: a string may span lines, so an unclosed quote is only an error if no quote follows; the catalogue entry is skipped otherwise.
  The recogniser accepts what the parser tolerates although the documentation does not ask for it: stray commas, several statements on a line,
  `namespace` followed by any token, a bare expression.
* C01: hangs are only reported after three runs over the limit.
* C05: the evaluator lost the sign of (-0.0) ^ odd. C14: a generated name could equal the frame's `q_`. C20: the `h` of `#include <stdint.h>`
  in the C output was numbered like an identifier of the program; include lines are compared as they are.

## Behaviour left unspecified (never generated, or accepted either way)

Modules called `llvm.sk` with exports; a nested function that uses its enclosing function's locals; side effects in the right operand of and/or;
integer overflow, shifts out of range, negative exponents; a NUL escape inside strings (C strings end there); subnormal floats; the size (1 bit) of Bool in debug
information, pinned by fixtures; `--llvm-no-verify` on invalid IR; several file names on a command line; the state of the destination when `cc` fails;
`import` of a directory; memory that is not freed; in the C backend: C keywords as names, namespaces, nested functions (beyond the findings listed).

## Weaknesses and what this family cannot show

Everything is a finite exploration: absence of a violation in the runs observed, not a proof.  Bugs that need a coincidence of several rare
features (probability below ~1e-4 per generated program) can pass a quick run; the thorough runs and changing `VERIF_SEED` widen the net.
Allocation failures inside LLVM are not injected (LLVM aborts by design).  No property had to be given up: `not_applicable` is empty.
"""


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
    det = json.load(open(os.path.join(V, "tools", "detected.json")))
    out = [INTRO]
    for p in props:
        i = p["id"]
        m = importlib.import_module("skv.checks." + i.lower())
        oracle, why = WHY[i]
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("*Property.* %s\n" % p["statement"])
        out.append("*Anchored in* %s.\n" % ", ".join("`%s`" % f for f in p["anchors"]["files"]))
        out.append("*Monitored.* %s\n" % m.RULE)
        out.append("*Oracle.* %s%s.\n" % (oracle[0].upper(), oracle[1:]))
        out.append("*Bounds.* %s units quick, %s thorough; builds: %s. %s\n" % (
            m.UNITS["quick"], m.UNITS["thorough"], ", ".join(m.VARIANTS), "; ".join(m.ASSUMPTIONS) + "." if m.ASSUMPTIONS else ""))
        out.append("*Beyond the tests.* %s\n" % why)
    out.append(NOTES)
    out.append("\n## Defects found in skull\n\nRepaired (one `fix:` commit each) or recorded as findings, from KNOWN_FINDINGS.txt:\n")
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        l = l.strip()
        if l and not l.startswith("#"):
            out.append("* " + l)
    out.append("\n## Planted bugs and the checks that catch them\n\nEach was written from a property's text and the code, confirmed to compile and pass the tests "
               "with its demo failing, and then run against the checks (`tools/seedtest.sh`, all checks for the column on the right unless said otherwise).\n")
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    sd = os.path.join(V, "seeded")
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        me = json.load(open(os.path.join(sd, b, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (b, me["property"], me["needs"].replace("|", "\\|"), ", ".join(det.get("seeded", {}).get(b, ["?"]))))
    out.append("\n" + det["mutants"])
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(out).rstrip() + "\n")


if __name__ == "__main__":
    main()
