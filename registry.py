"""What is decided how: used by check.py and gen_manifest.py."""
import os, re

VERIF = os.path.dirname(os.path.abspath(__file__))


def known():
    out = []
    for ln in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"(fixed|finding): property=(\S+) (.*)", ln.strip())
        if m:
            e = {"kind": m[1], "property": m[2], "text": m[3]}
            i = re.match(r"id=(\S+) (.*)", m[3])
            if i:
                e["id"], e["text"] = i[1], i[2]
            out.append(e)
    return out


GEN = "seeded random generation; an input counts if it is distinct (hash of all files) and longer than one byte; "
PROPS = {
    "C01": dict(rule=GEN + "well-typed programs of scalar expressions and control flow, the emitted script is run by /bin/bash and compared with an interpreter of the Go meaning"),
    "C02": dict(rule=GEN + "well-typed programs with functions, coinciding names and multi-value assignments, run and compared with the interpreter"),
    "C03": dict(rule=GEN + "well-typed programs with slices (aliases, growth, copy, range) and strings, run and compared with the interpreter"),
    "C04": dict(rule=GEN + "well-typed programs whose operands are traced functions, the order of the trace lines is compared with the interpreter"),
    "C06": dict(rule=GEN + "programs with one typing context filled by a well- or ill-typed operand, the expected verdict comes from the typing rules"),
    "C07": dict(rule=GEN + "scope skeletons with uses inside and outside of their scope, the expected verdict comes from a reference resolver"),
    "C08": dict(rule=GEN + "programs which pass nasty strings on every path, output compared byte for byte, canary files"),
    "C09": dict(rule=GEN + "programs split over files, behaviour compared with the single-file composition"),
    "C10": dict(rule=GEN + "programs renamed with hostile names, behaviour compared; structural consistency of both targets"),
    "C11": dict(rule=GEN + "texts made of token fragments and arbitrary bytes, the token list is compared with a reference tokenizer"),
    "C12": dict(rule=GEN + "programs (one third of them mutated) with four other layouts each, byte comparison of the results"),
    "C13": dict(rule=GEN + "bytes, token sequences, near-miss programs, import graphs and large inputs under a watchdog"),
    "C14": dict(rule=GEN + "programs transpiled repeatedly, interleaved, relocated and in fresh processes, byte comparison"),
    "C15": dict(rule=GEN + "calls of all library functions with short ASCII arguments, compared with Go's strings package"),
    "C16": dict(rule=GEN + "programs over the whole language, bash -n, call graph of the Bash script, structural parse of the Batch script"),
    "C17": dict(rule=GEN + "histories of write, read and exists, file tree and output compared with a map"),
    "C18": dict(rule=GEN + "command chains with a probe program, argv, pipes, captured output and status compared"),
    "C19": dict(rule=GEN + "runs of the built tsh binary as an unprivileged user in scratch directories, snapshots before and after"),
}
E2 = "contract-based deductive verification: contracts of the transpiler's node functions and of the Bash converter, obligations generated from the go/ssa form of /repo's sources, discharged by z3; executable contracts (bounded) for the remaining part"
BACK = "Proved per AST node kind (by induction over the tree, callees and children by contract): the text the transpiler and the Bash converter emit has the node's meaning under the semantics of Bash in tool/prove (trusted, validated by running Bash). Bounded, not proved: lists of expressions, statements and branches beyond the lengths given in the evidence; the mapping of source text to the tree (executable contracts on generated programs). "
for k, what in (("C01", "values, control flow, exit status and output of every scalar node"),
                ("C02", "calls, parameters, returned values, multi-value assignments and the frame (which registers and variables a node may change)"),
                ("C03", "slice and string operations including the helper routines _sah, _sch and _ssh (loop rule) over a heap of slices"),
                ("C04", "the order and the number of the evaluations as an event trace"),
                ("C08", "string values are symbolic and arbitrary: an expansion outside of quotes, an option or an evaluation of a value fails the obligation"),
                ("C16", "Bash: parses, no empty compound command, every helper routine which is called is defined. Batch: for each kind of node parentheses, quotes, unique labels (their numbers are reserved by counters), targets of jumps and calls, jumps inside of their construct, and helper routines exactly if they are requested; values of literals are bounded (structural parse of generated scripts)"),
                ("C17", "read, write and exists as events over a symbolic file system"),
                ("C18", "argument vectors, pipes and captured output of command calls as events")):
    PROPS[k].update(prove=True, level="proof", technique=E2, note=BACK + "Here: " + what + ".")
E3 = "contract-based deductive verification: contracts of the parser's functions (which programs they accept, the node they build, the position they leave, the frame), obligations generated from the go/ssa form of /repo's sources, discharged by z3; executable contracts (bounded) for the remaining part"
PARS = "Proved function by function for all token sequences and contexts (loops by inferred inductive relations with the specification, callees by contract): a function accepts exactly what its specification accepts, and builds exactly the specified node. Units marked bounded in the evidence have lists of at most 3 elements. Imports and additions to a context are verified for lists of bounded length, the lexer's answer is known by its contract (verified in C11). Here: "
for k, what in (("C06", "the typing rules of every expression, assignment, call, builtin, condition, case, return"),
                ("C09", "names of functions and variables of a file (prefixes, public names, lookups through an alias), each file is parsed once by a parser of its own, cycles are rejected, the prefix is new and depends on the text only, declarations of imports are composed in order, the removal of functions is closed under 'calls' and keeps everything else. Bounded: lists of imports and declarations"),
                ("C07", "which name is looked up where, what is added to which context, which scopes are open at each construct, who may be redefined"),
                ("C13", "the parser's functions never panic (index, nil, type assertion), consume at least one token per construct (so recursion ends), restore the nesting level and the frame, and report non-empty errors; the lexer never panics, every repetition of its loop consumes at least one character, and its errors are not empty; the imports and the transpiler are bounded")):
    PROPS[k].update(prove=True, level="proof", technique=E3, note=PARS + what + ".")
PROPS["C11"].update(prove=True, level="proof", technique="contract-based deductive verification: contract of the lexer, obligations generated from the go/ssa form of /repo's sources, discharged by z3; executable contracts (bounded) beside it",
    note="Proved for texts and tokens of any length: the main loop of Tokenize, at an arbitrary position behind arbitrary tokens, accepts exactly a token of the grammar, takes its longest match, adds exactly one token (none for blanks and comments) with its kind, value, row and column, and updates row and column for what it has consumed; at the end of the text it adds EOF. The loops over the characters of a token are cut by invariants. Trusted: regexp, strconv.UnquoteChar, strings.ReplaceAll (see the assumptions in the evidence).")
PROPS["C14"].update(prove=True, level="proof", technique="contract-based deductive verification: frame conditions (assigns clauses, no dependence on map order, time, environment or addresses, non-interference of the files' location) of every function of a transpilation, discharged by a modular analysis of the go/ssa form of /repo's sources, and contracts of Transpile and the converters' New, discharged by symbolic execution and z3; executable contracts (bounded) in addition",
    note="Proved: every function reachable from Transpile, the converters' New and their methods writes only objects it has been given or has made (package variables and what they refer to are constants after initialisation), calls nothing whose result depends on more than its arguments and the files, visits maps only where the order doesn't matter, and neither the script nor a branch depends on the location of the files; Transpile starts from a new parser and a state which is independent of earlier calls, New makes equal converters which share nothing. An obligation which is not discharged is undecided, the executable contracts decide then.")
PROPS["C12"].update(prove=True, level="exploration", technique="contract-based deductive verification for the tokens (contract of the lexer: blanks and comments give no token, the kind and value of a token depend on its own text only) and for their rows and columns (non-interference, function by function); executable contracts (bounded) for additional line breaks",
    note="Proved: blanks and comments between tokens add no token, the token behind them is the same, and rows and columns influence no branch and not the script (all functions of parser, transpiler and converters). Bounded only: additional newline tokens at existing line breaks (generated programs with several layouts each, byte comparison); this part decides the level.")
PROPS["C10"].update(prove=True, level="exploration", technique="contract-based deductive verification for Bash: contract of the translation of identifiers (injective), disjointness of all the names of a script, the contracts of the transpiler, the Bash converter (arbitrary names) and of the parser's lookups; words and names of Batch scripts in the same way; executable contracts (bounded) for Batch's meaning",
    note="Proved for Bash: the translation of identifiers is injective (even regardless of letter case); no translated name is one of the converter's, of the helper routines' or of the shell's, and names of locals, globals and functions differ; the units of the transpiler and of the Bash converter hold for arbitrary names; the parser's lookups depend on which names are equal only. Batch: identifiers occur as whole words only, no name, label or word of the converter is one of the program's, regardless of letter case, and the numbers of labels are fresh; names which cmd.exe composes at run time (slices) and the meaning are bounded (structural consistency of generated programs with hostile names); this part decides the level. An obligation of another property which is not discharged is undecided here.")
PROPS["C15"].update(prove=True, level="proof", technique="contract-based deductive verification: contracts (results, loop invariants, variants, ranges) of the functions of std/strings.tsh over recursive definitions of Go's functions, discharged by symbolic execution of the library's source and z3; the compilation is verified by the contracts of the parser, the transpiler and the Bash converter; executable contracts (bounded) in addition",
    note="Proved for all ASCII arguments of any length: every function of std/strings.tsh returns what the definition of Go's function of the same name says, every index is in range, every loop ends, panic occurs exactly where Go's function panics. The definitions are recursive; they are compared with package strings on all words over two letters up to length 5 (trusted beyond that). The compiled script has the meaning of the source by the contracts of C01-C04 and C06-C09 (included in this check), for Bash only. An obligation which is not discharged is undecided, the executable contracts decide then.")
PROPS["C19"].update(prove=True, level="proof", technique="contract-based deductive verification: contract of main (state after k pairs of arguments, what an arbitrary target makes of the file system, why and how it may fail), obligations generated from the go/ssa form of /repo's sources, discharged by z3; executable contracts (bounded) in addition",
    note="Proved for any number of arguments and targets: main reads all the pairs, for each target it translates the input once with a new converter of that target, writes exactly the script to a new file, renames it to D/<F without extension>.<extension> after it is complete, and never when this is the input; every error exit has a reason, leaves no result of the failing target and no temporary file. Transpile is known by its contract (verified in C14); os and path/filepath are trusted (see the assumptions). An obligation which is not discharged is undecided, the executable contracts decide then.")
for k, v in PROPS.items():
    v.setdefault("level", "exploration")
    v.setdefault("technique", "contract-based: executable contracts on the real code (bounded)")
    v.setdefault("note", "Bounded: executable contracts evaluated on generated inputs.")

NOT_APPLICABLE = {
    "C05": "no cmd.exe and no validated semantics of it is available here; the structural part of it is covered by C16",
}
