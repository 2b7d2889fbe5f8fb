#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Integer and boolean expressions evaluate as written",
 "Every well-typed integer or boolean expression in a compiled program has the value given by the operator table: 63-bit two's complement wrap-around for + - * and negation, truncating division, bitwise and arithmetic-shift operators, signed comparisons, boolean logic, lazy ternary, and the documented precedence and left associativity. This holds wherever the expression occurs (nested, as an argument, index, condition or return value) and for every operand value, including the extremes.",
 ["programs", "inputs"], "all expressions, of any nesting and position, and all operand values",
 "tests/arith, bits and bool.clara evaluate a few dozen fixed expressions with small operands; value and register-pressure combinations are not enumerated",
 ["codegen.go", "peep.go", "asm.go", "parse.go", "lex/lex.go", "semantic.go"],
 [("expression code generation, tagging and untagging", "codegen.go: genExpr, tag, untag"), ("peephole optimiser", "peep.go: ins"), ("operator precedence", "parse.go: parseExpr; lex/lex.go: Precedence"), ("constant folding", "semantic.go: foldConstants")],
 ["standard output of compiled programs"])
prop("C02", "Statements and control flow execute in order",
 "A compiled program executes its statements exactly as the source says: if/elseif/else and match run exactly the first block that applies, while and for (over ranges and arrays) run the body once per element in order, return leaves the function at once, and the effects of sub-expressions happen once each, left to right (right hand side before the target of an assignment). Nested blocks, shadowed variables and loops in any combination keep this behaviour.",
 ["programs", "inputs"], "all combinations of nested statements, and all inputs",
 "tests/flow, for and enums.clara contain a fixed handful of shapes; nesting, shadowing and side-effect order are not enumerated",
 ["codegen.go", "semantic.go", "parse.go", "typecheck.go", "symtab.go"],
 [("statement code generation", "codegen.go: genStmtList, genWhileStmt, genIfElseIfElseStmts, genAssignStmt, genReturnStmt"), ("for and match lowering", "semantic.go: lowerForStatement, lowerMatchStatement"), ("scoping", "symtab.go: Define, Resolve")],
 ["trace of events printed by compiled programs"])
prop("C03", "Calls deliver arguments, pick the right overload, return the result",
 "A call evaluates each argument once, in order, and the callee receives every one of up to six arguments unchanged whatever expressions the other arguments are; the caller gets exactly the returned value and its own variables are unaffected. x.f(y) means f(x, y); among functions with the same name the one whose parameter types match the arguments is called, and recursion works to any depth the stack allows.",
 ["programs", "inputs"], "all call shapes, argument expressions, overload sets and recursion patterns",
 "tests/fns.clara calls functions with simple literal arguments; register spilling depends on the combination of nested calls, divisions and shifts",
 ["codegen.go", "typecheck.go", "symtab.go"],
 [("argument evaluation and register spilling", "codegen.go: genFnCall, SpillRegisters, RestoreRegisters"), ("overload resolution", "typecheck.go: typeCheckFuncCall, matchFuncCallBySymbol, matchFuncCallByType"), ("symbol mangling", "symtab.go: AsmName")],
 ["trace of events printed by compiled programs"])
prop("C04", "Closures keep their own captured values",
 "A function literal can use any variable visible where it is created: it captures the values at creation, keeps them for its whole life independently of the creating scope, of the variables' later values and of other closures, and assignments to a captured variable persist between calls of that closure only. Named functions, function literals and closures can be passed, stored and called interchangeably, nested to any depth, with up to five arguments.",
 ["programs", "inputs", "histories"], "all capture sets, nestings, escape routes and call histories",
 "tests/closures.clara has a few closures with one or two captured variables; capture analysis depends on where and how a variable occurs in the body",
 ["closures.go", "codegen.go", "install/lib/runtime.clara"],
 [("free variable analysis and rewrite", "closures.go: clIdentifyFreeVars, clRewriteFreeVars, rewriteAnonFnAndClosures"), ("dynamic dispatch", "install/lib/runtime.clara: invokeDynamic, isClosure")],
 ["trace of events printed by compiled programs"])
prop("C05", "Structs, enums, arrays and generics hold what was stored",
 "Constructing, reading and updating structs, enums and arrays behaves like mutable references: a read returns the value last stored through any alias, no store affects any other field, element or object, and match binds exactly the values the enum case was built with. This is true of every field position, array length and element type, and generic types and functions behave identically to hand-specialised ones for every type argument.",
 ["programs", "inputs", "histories"], "all type declarations, field layouts, type arguments and store/load histories",
 "tests/structs, enums, arrays and generics.clara use fixed small types; layouts, instantiations and aliasing histories are not enumerated",
 ["codegen.go", "semantic.go", "typecheck.go", "symtab.go", "install/lib/arrays.clara", "install/lib/enums.clara"],
 [("constructors", "codegen.go: genConstructor"), ("field and element access", "codegen.go: genExpr (dot, array)"), ("generic instantiation", "typecheck.go: substituteType; symtab.go: MatchesImpl"), ("array literals", "semantic.go: rewriteArrayLiteralExpr")],
 ["trace of events printed by compiled programs"])
prop("C06", "Reachable objects are never freed or corrupted",
 "At every allocation and collection point of every program, an object that the program can still reach (through variables, parameters, temporaries of a partially evaluated expression, captured variables, struct fields, enum fields or array elements) is not freed, moved or overwritten by the runtime. The runtime never touches freed memory, never frees a block twice and never writes outside the objects it allocated.",
 ["programs", "histories"], "all heap shapes, object types and points at which a collection can happen",
 "tests/gc.clara holds a few objects across a few collections; a missing root only shows if the collection happens at that one expression and the freed block is then reused",
 ["codegen.go", "gc.go", "install/lib/gc.clara", "install/lib/mem.clara", "install/lib/arrays.clara", "semantic.go"],
 [("GC root maps", "codegen.go: NewGcMap, SpillRegisters, saveRoot; gc.go: GcState"), ("type descriptors", "codegen.go: genTypeInfoTable"), ("mark and sweep", "install/lib/gc.clara: gcMark, gcMarkPointer, gcSweep")],
 ["calloc/free events and page protection faults of the monitored heap", "valgrind memcheck reports", "standard output"],
 [dict(name="block list", meaning="all allocated blocks", where="install/init/runtime.c: blocks")])
prop("C07", "Unreachable objects are reclaimed",
 "An object the program can no longer reach is returned to the system after a bounded number of further allocations, whatever its type and wherever its last reference was held, including objects in cycles. A program whose reachable data stays bounded therefore runs in bounded memory for any number of iterations.",
 ["programs", "histories"], "all object types, ways of dropping the last reference, and iteration counts",
 "no test observes memory being returned: a leak leaves all outputs unchanged",
 ["install/lib/gc.clara", "install/lib/mem.clara", "gc.go", "codegen.go"],
 [("sweep", "install/lib/gc.clara: gcSweep, clearMark"), ("block list", "install/lib/mem.clara: claralloc, clarafree"), ("scoped roots", "gc.go: OpenScope, CloseScope")],
 ["calloc/free events of the monitored heap"])
prop("C08", "No access outside an array, bytes or string",
 "Reading or writing an element of an array, bytes or string outside 0 .. length-1 stops the program with exit status 1 and a panic message (naming the index and the length for arrays) before any memory is touched, for every integer index. Every access inside the bounds succeeds, and objects cannot be created with negative or overflowing lengths.",
 ["inputs", "programs"], "all indexes (negative, huge, boundary), lengths, and syntactic positions of the access",
 "tests/panic contains one out of bounds index; boundaries, negative and huge values in reads, writes, loops and arguments are not covered",
 ["codegen.go", "install/lib/bytes.clara", "install/lib/strings.clara", "install/lib/arrays.clara", "install/lib/runtime.clara"],
 [("bounds check and trampoline", "codegen.go: genExpr (array), genIoobTrampoline"), ("library checks", "install/lib/bytes.clara: get, set; install/lib/strings.clara: byte")],
 ["exit status, standard output and monitored heap of compiled programs"])
prop("C09", "Ill-typed programs are rejected",
 "A program that breaks the typing rules is never compiled: the compiler reports at least one error, exits with status 1 and writes no executable. This covers mismatched operands, arguments, returns, assignments, conditions, indexes and array elements, unknown names, types, fields and cases, wrong argument and type-argument counts, missing returns, inexhaustive or repeated cases, redeclarations and assignments to things that are not variables, at any nesting depth including inside closures, ternaries, array literals and generic code.",
 ["programs"], "all well-typed programs with one typing rule broken at any one place",
 "the test suite compiles only valid programs: nothing asserts that a type error is reported",
 ["typecheck.go", "semantic.go", "symtab.go", "ast.go"],
 [("type checker", "typecheck.go: typeCheck and helpers"), ("type matching", "symtab.go: MatchesImpl"), ("declarations", "semantic.go: processTopLevelTypes, processFnType")],
 ["exit status, error output and output directory of the compiler"])
prop("C10", "Compiler survives any input and rejects malformed source",
 "For every input file, valid or not, the compiler terminates without crashing: it either reports errors and exits with status 1, writing no executable, or produces an executable and exits with status 0. Source that does not parse (truncated, unbalanced, with missing or extra tokens, unterminated literals or stray characters) is always reported and never silently accepted or partly dropped.",
 ["inputs"], "all byte sequences",
 "all test inputs are well-formed programs",
 ["lex/lex.go", "parse.go", "main.go", "semantic.go", "typecheck.go", "codegen.go", "walk.go"],
 [("lexer errors", "lex/lex.go: errorf"), ("parser error recovery", "parse.go: need, syntaxError, onUnexpectedEof")],
 ["exit status, error output and output directory of the compiler"])
prop("C11", "Errors are reported at the place that is wrong",
 "Every error the compiler reports names the file and the 1-based line and column at which the offending token starts (columns count characters, not bytes). Adding blank lines, comments, leading spaces or valid declarations in front of an error moves the reported position by exactly that amount, and independent errors in different declarations which are found by the same stage of the compiler are all reported.",
 ["programs"], "all positions in a file, preceding content and kinds of error",
 "no test looks at error output",
 ["lex/lex.go", "semantic.go", "typecheck.go", "parse.go"],
 [("token positions", "lex/lex.go: emit, linePos, lineNumber"), ("error messages", "semantic.go: semanticError, semanticError2; parse.go: syntaxError")],
 ["error output of the compiler"])
prop("C12", "String, bytes and byte buffer library matches its model",
 "length, byte, Equals, Substring, IndexOf, append, toString, and all byte buffer and bytes operations give the same results as the same operations on a plain byte sequence, for all contents (any byte value, any length including empty) and any sequence of operations including growth. Strings are immutable: no operation changes a string or shares memory between results.",
 ["inputs", "histories"], "all byte strings, arguments and operation sequences",
 "tests/strings and bytes.clara check a few short ASCII strings",
 ["install/lib/strings.clara", "install/lib/bytes.clara", "install/lib/arrays.clara", "install/lib/core.clara"],
 [("string functions", "install/lib/strings.clara"), ("byte buffer growth", "install/lib/strings.clara: grow, append"), ("bytes access", "install/lib/bytes.clara")],
 ["trace of operations and results printed by compiled programs"])
prop("C13", "Map behaves as a dictionary",
 "Any sequence of put, get, contains, remove, orElse and foreach on a map returns what the same sequence on an ideal dictionary returns: put and remove return the previous value, foreach visits each present key once with its current value, and the size is the number of present keys. This holds across any number of resizes, for any hash function (colliding, constant or negative) and any key and value type.",
 ["histories", "inputs"], "all operation sequences, key sets and hash functions",
 "tests/maps.clara performs one short sequence with well-distributed string keys",
 ["install/lib/map.clara", "install/lib/list.clara", "install/lib/functional.clara", "install/lib/hash.clara"],
 [("buckets and resize", "install/lib/map.clara: search, put, remove, resize, indexFor"), ("bucket lists", "install/lib/list.clara: find, remove, foreach")],
 ["history of operations and results printed by compiled programs"])
prop("C14", "List, option and result library matches its model",
 "The list functions (toList, append, reverse, remove, find, foreach, map, reduce) give the results of the same operations on an immutable sequence: order is kept, append adds the element at the head, remove takes out only the first match, predicates and callbacks are called on elements in order, and the input list is unchanged. option and result functions (map, filter, orElse, isSome, isNone, peek, then) apply their callback exactly when a value is present and otherwise pass the empty or error value through unchanged.",
 ["inputs", "histories"], "all element sequences, element types, predicates and operation chains",
 "the library is exercised only indirectly by tests/maps.clara and a few cases in generics.clara",
 ["install/lib/list.clara", "install/lib/functional.clara"],
 [("list functions", "install/lib/list.clara"), ("option, result and either", "install/lib/functional.clara")],
 ["trace of callbacks and results printed by compiled programs"])
prop("C15", "Program sees its arguments and environment exactly",
 "A compiled program sees every command line argument, byte for byte and in the given order, and every environment variable with exactly its value, for any number, length and content (empty values, values containing '=', spaces, bytes above 127, leading dashes). Passing arguments does not change what an otherwise unaffected program does.",
 ["inputs", "configurations"], "all argument vectors and environments",
 "tests run programs without arguments and with whatever environment the runner has",
 ["install/lib/runtime.clara", "install/init/bootstrap.c", "codegen.go"],
 [("argument and environment parsing", "install/lib/runtime.clara: parseArgs, parseEnv, parseCString"), ("option parsing", "install/init/bootstrap.c: main")],
 ["standard output of compiled programs"])
prop("C16", "Literals keep their exact value",
 "A string literal in the source produces a string with exactly the bytes written between the quotes, after replacing the escape sequences (backslash followed by r, n, backslash or double quote), and its length is that number of bytes; integer literals, decimal and hexadecimal, positive and negative, have exactly their mathematical value. Literals that cannot be represented (integers outside 63 bits, unknown escapes, unterminated strings) are reported.",
 ["inputs"], "all byte contents of string literals and all integer literals",
 "tests contain a few printable ASCII literals and small integers",
 ["asm.go", "lex/lex.go", "semantic.go", "codegen.go"],
 [("literal emission", "asm.go: stringLit, flush"), ("literal scanning", "lex/lex.go: lexString, lexInteger"), ("overflow check", "semantic.go: foldConstants")],
 ["standard output of compiled programs", "error output of the compiler"])
prop("C17", "File reading returns the contents or the operating system error",
 "Opening and reading a file returns exactly its bytes for any contents and size, and the reported size is the file's size at any read position; every failing system call (open, seek, read) is turned into an error result carrying that call's error code, whose description names the cause and the path, and never into success or a crash.",
 ["inputs", "fault_sequences"], "all file contents and all failures of the underlying system calls",
 "no test opens a file",
 ["install/lib/fs.clara", "install/lib/io.clara", "install/lib/err.clara"],
 [("file operations", "install/lib/fs.clara: open, size, readAll; install/lib/io.clara: seek, read"), ("error descriptions", "install/lib/err.clara: describe")],
 ["standard output of compiled programs", "system call results injected by a shim"])
prop("C18", "Compilations do not interfere with each other",
 "Any number of compilations may run at the same time, in one process or several, of different programs or of programs with the same file name and a shared temporary directory: each produces the executable or the errors it would produce alone. Compiling leaves nothing behind that changes a later compilation, and modifies no file except its own output.",
 ["schedules", "histories"], "all interleavings and sequences of compilations",
 "the suite runs one compilation at a time per process, in a fresh temporary directory",
 ["main.go", "closures.go", "typecheck.go"],
 [("closure ids", "closures.go: rewriteAnonFnAndClosures"), ("temporary assembly file", "main.go: Compile")],
 ["race detector reports", "outputs of the executables produced"])
prop("C19", "Meaning is independent of layout, naming, order and repetition",
 "Compiling the same program again, reordering its top-level declarations, renaming its identifiers, changing spaces, line breaks and comments where the grammar allows them, adding parentheses or unused declarations, or compiling it from another path does not change what the executable does, nor whether it compiles.",
 ["programs", "configurations"], "all programs and all such rewrites",
 "tests compile each program once in one form",
 ["lex/lex.go", "parse.go", "semantic.go", "typecheck.go", "codegen.go", "closures.go", "symtab.go", "main.go"],
 [("two-pass declaration processing", "semantic.go: processTopLevelTypes"), ("symbol mangling", "symtab.go: AsmName"), ("tokenisation", "lex/lex.go: lexText")],
 ["outputs of executables built from rewritten sources"])
prop("C20", "Diagnostic options only add output",
 "The compiler's inspection options (tokens, syntax tree, types, assembly, input) and the executable's GC debug option only print additional information: the compiler still accepts or rejects the same programs with the same status and produces an executable with the same behaviour, and a program run with GC logging prints its own output in the same order and exits with the same status.",
 ["programs", "configurations"], "all programs and option combinations",
 "no test uses any option",
 ["main.go", "typecheck.go", "ast.go", "install/init/bootstrap.c", "install/init/runtime.c", "install/lib/gc.clara"],
 [("option handling", "main.go: main, Compile"), ("type and tree printing", "typecheck.go: printTypeInfo; ast.go: printTree"), ("gc logging", "install/init/runtime.c: debug")],
 ["exit status and output with and without options"])
prop("C21", "Tokens cover the source exactly",
 "The token stream of any accepted source reproduces it: every token carries the exact source text and the 1-based line and column where that text starts, nothing but white space and comments lies between tokens, the longest operator wins, and keywords are recognised only as whole words. The stream ends with exactly one end-of-file token, or with one error token at the first character that cannot be part of a token.",
 ["inputs"], "all source texts",
 "lex_test.go checks the kinds of about twenty short inputs and no positions or values",
 ["lex/lex.go", "main.go"],
 [("lexer states", "lex/lex.go: lexText and other state functions"), ("positions", "lex/lex.go: emit, linePos, lineNumber")],
 ["token listing printed by the compiler"])
prop("C22", "Number printing, conversion and hashing are exact",
 "Printing and converting numbers and booleans (print, println, toString, toBinary, hexadecimal printing) yields the exact representation for every 63-bit integer, mod is the remainder with the sign of the dividend, and fnv1a is the 32-bit FNV-1a hash of the string's bytes for every string.",
 ["inputs"], "all 63-bit integers and all byte strings",
 "tests/core, builtin and hash.clara check a few values",
 ["install/lib/core.clara", "install/lib/hash.clara", "codegen.go"],
 [("conversions", "install/lib/core.clara: toString, toBinary, print"), ("hash", "install/lib/hash.clara: fnv1a")],
 ["standard output of compiled programs"])
prop("C23", "Calls to C functions follow the platform ABI",
 "A call to an external C function passes up to six arguments in order, with integers, strings, bytes and arrays converted to C values exactly when raw values are requested and passed unconverted otherwise, with the stack 16-byte aligned at every call site, and converts an integer result back. Nothing the C function does within the ABI (changing caller-saved registers, variadic use of floating point state) affects the program, and library clock functions return the system's values.",
 ["programs", "inputs"], "all argument lists, argument values and stack depths at the call site",
 "tests call a few libc functions with literals at statement level",
 ["codegen.go", "install/lib/time.clara", "install/lib/runtime.clara"],
 [("raw value conversion and alignment", "codegen.go: genFnCall"), ("stack tracking", "codegen.go: incSp, decSp, isSpAligned"), ("time", "install/lib/time.clara")],
 ["events recorded by C probe functions linked into compiled programs"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
