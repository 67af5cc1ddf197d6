#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one JSON object per line)."""
import json, pathlib

P, C, G, TS, L, M = ("src/lib/parser.rs", "src/lib/check.rs", "src/lib/gen/mod.rs", "src/lib/gen/ts.rs", "src/lib/lib.rs", "src/main.rs")
props = []

def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Schema text parses exactly as the documented grammar says",
  "A schema text is accepted by the parser exactly when it follows the documented syntax: struct and enum declarations, `?` optional marks, `[]` array marks, items separated by whitespace with an optional comma, `export`, `#` comments, identifiers that start with a letter or underscore and are not a reserved word. "
  "Text outside that syntax is rejected, never reinterpreted. When accepted, the parse result lists exactly the declarations, fields, variants and exports of the text, in order, with their exact spelling and array/optional flags.",
  ["inputs"], "all byte values in symbolic windows of schema text (free text, identifiers, separators, markers, keywords)",
  "The 15 parser tests fix 15 texts; the property speaks about every text, and the mistakes that matter sit at character-class and keyword boundaries no fixed text touches.",
  [P, "src/lib/ast.rs"], [("PEG grammar rules", P)], ["result of parsing a schema text"])

p("C02", "Layout and comments never change what a schema means",
  "Spaces, tabs, line breaks (LF or CRLF), comments and optional commas placed where the syntax allows them have no influence on the parse result. "
  "Two texts that differ only in such layout give the same declarations, fields, variants and exports.",
  ["inputs"], "all combinations of separators and comment contents at every gap of a schema",
  "Tests use one or two layouts; the number of layout combinations is exponential in the number of gaps.",
  [P], [("whitespace, newline and comment rules", P)], ["result of parsing a schema text"])

p("C03", "Compilation never crashes, whatever the input text",
  "Compiling any text either returns generated code or returns an error value. It never panics, overflows, indexes out of range or reads memory out of bounds, as long as types are not nested too deeply for the stack.",
  ["inputs"], "all byte values in symbolic text windows, incl. non-ASCII characters, truncated text and every kind of semantic error",
  "Tests only compile a handful of sane texts; a panic needs one specific malformed text.",
  [L, P, C, G, TS], [("Result-returning pipeline", L), ("error rendering", L), ("type checker", C)], ["return of the compile entry point"])

p("C04", "Parse errors point at the offending place",
  "When a text is rejected by the parser, the message gives the 1-based line and column of the first position the syntax cannot continue from, the character found there, that source line, and a caret under that column. "
  "This holds for every text, including ones with non-ASCII characters.",
  ["inputs"], "all rejected texts in the symbolic windows, incl. multi-byte characters before the error and errors at end of text",
  "No test looks at the rendered message.",
  [L, P], [("error rendering", L), ("parser error location", P)], ["error value of the compile entry point"])

p("C05", "A schema is accepted exactly when it is well-formed",
  "Type checking succeeds exactly when: there is one export and it names a declared struct; declaration names are unique; field names are unique per struct; variant names are unique per enum; each enum has 1 to 32 variants; every field type is a basic type or a declared type; no field is both optional and an array; and no struct contains itself directly or through other structs, arrays or optionals. "
  "The verdict does not depend on the order of declarations or on hash-table iteration order.",
  ["inputs", "schedules"], "all schemas of bounded size (symbolic field types, names, flags, exports, variant counts) and all hash-iteration orders",
  "Tests cover one schema per error kind and one hash order per run; most rule combinations and orders are never executed.",
  [C], [("export lookup", C), ("declaration collection", C), ("two-pass resolution", C), ("enum resolution", C)], ["result of type checking"])

p("C06", "Type errors name a real culprit of the right kind",
  "When type checking fails, the message describes a rule the schema really breaks and names an item that really breaks it. "
  "An unknown type is never reported for a declared type, and a cycle is reported only for a struct that takes part in, or leads into, a cycle.",
  ["inputs", "schedules"], "all ill-formed schemas of bounded size and all hash-iteration orders",
  "Tests compare one message per error kind on schemas with a single fault; mixed faults and orders are never run.",
  [C], [("error construction", C)], ["error value of type checking"])

p("C07", "Resolved structs keep declared fields, order, types and flags",
  "In an accepted schema every struct keeps exactly its declared fields in declared order, each with its declared type and flags, however types refer to each other and whatever the hash-iteration order. "
  "The field order fixes the wire format, so two compilations of one schema must agree on it.",
  ["inputs", "schedules"], "all accepted schemas of bounded size (symbolic dependency graph between types) and all hash-iteration orders",
  "Field order in the checker depends on which types happen to be resolved first; a test sees one order per run.",
  [C], [("field resolution in the two passes", C)], ["result of type checking"],
  state=[("resolved type table", "types already resolved, consulted while resolving others", C)])

p("C08", "Only types the export needs are kept, and all of them",
  "After type checking an accepted schema, the result contains exactly the declared types reachable from the exported struct through field types, and the generated code declares exactly those. "
  "Adding unreachable declarations does not change the generated code.",
  ["inputs", "schedules"], "all accepted schemas of bounded size (symbolic reference graph) and all hash-iteration orders",
  "One test drops one unused type in a flat schema; deep, shared and diamond references are not tried.",
  [C, TS], [("used-type collection", C), ("unused removal", C), ("declaration output", TS)], ["result of type checking", "generated code"])

p("C09", "Enums get one bit per variant in the smallest integer",
  "The i-th variant of an enum is declared as the value with only bit i set, as a non-negative number, in source order. "
  "On the wire an enum takes 1 byte for up to 8 variants, 2 bytes for up to 16 and 4 bytes for up to 32.",
  ["inputs"], "all variant counts 1..32 and all variant positions",
  "Tests use enums of two variants only.",
  [C, TS], [("enum resolution", C), ("enum declaration output", TS), ("enum read/write output", TS)], ["generated code"])

p("C10", "Generated writers emit the documented byte layout",
  "For every schema and every value of its export, the generated write produces the fields in declared order: fixed-width basic types, 4-byte length then content for strings and arrays, a presence byte (0 or 1) before optional content, enum values in the enum's width, nested structs inline. Nothing else is written and nothing is skipped.",
  ["programs", "inputs"], "all schemas from bounded structural templates (types, nesting, optional/array marks) and all values in bounded domains",
  "Tests compare generated text for three schemas; the text is never executed and no other shape is covered.",
  [TS, "src/lib/gen/gen_ctx.rs"], [("write code generation", TS), ("name stack", "src/lib/gen/gen_ctx.rs")], ["bytes produced by generated code"])

p("C11", "Reading back a written value returns an equal value",
  "For every schema and every valid value of its export, the generated read applied to the bytes of the generated write succeeds and returns an equal value: every field, array element, optional presence, enum variant and string is preserved, whether or not a buffer is passed to write.",
  ["programs", "inputs"], "all schemas from bounded structural templates and all values in bounded domains (every enum variant up to 32)",
  "No test executes generated code.",
  [TS], [("write code generation", TS), ("read code generation", TS)], ["result of generated read after generated write"])

p("C12", "Generated readers return a conforming value or null for any bytes",
  "For every byte sequence the generated read returns null or a value that conforms to the schema; it returns null whenever the bytes end early or an enum field holds something that is not a declared variant, and otherwise the value the layout assigns to the bytes. It never throws and does not keep looping after the bytes have run out.",
  ["programs", "inputs"], "all byte strings up to a bounded length for all schemas from bounded structural templates",
  "No test executes generated code, and a crafted packet needs one specific value.",
  [TS], [("read code generation", TS), ("enum validation", TS)], ["result of generated read"])

p("C13", "Generated type declarations match the schema",
  "The generated module declares, inside a namespace named after the export, one interface per used struct and one enum per used enum, and one class named after the export. Each interface and the class constructor list exactly the declared fields in order, with the TypeScript type of the declared type, array and optional marks included.",
  ["programs", "inputs"], "all schemas from bounded structural templates with symbolic identifiers",
  "Tests compare text for four declarations.",
  [TS], [("declaration output", TS), ("constructor output", TS)], ["generated code"])

p("C14", "Generated code is well-scoped TypeScript for any identifiers",
  "For every accepted schema, whatever names it uses, the generated module is valid TypeScript with respect to its names: braces balance, every variable used is declared before in an enclosing scope, no scope declares one name twice, every type named is declared, and no declared name is a word TypeScript reserves or a name the module itself relies on.",
  ["programs", "inputs"], "symbolic identifiers over the whole identifier alphabet in templates with nesting, arrays, optionals, strings and enums",
  "A clash needs particular pairs of names (e.g. a field named like a generated helper); tests use names that never clash.",
  [TS], [("local name construction", TS)], ["generated code"])

p("C15", "Compiling the same schema twice gives the same module",
  "Apart from the timestamp line, the generated module is a function of the schema text only: it does not depend on hash-table seeds, on the time, or on earlier compilations.",
  ["schedules", "inputs"], "all hash-iteration orders of the declared types, for schemas of bounded size",
  "Each test run sees one hash seed and compares nothing between runs.",
  [C, G, TS], [("hash-table iteration", C), ("declaration output", TS)], ["generated code"])

p("C16", "Declaration order in the source does not affect the output",
  "Permuting the declarations and the export of a schema does not change the generated module, apart from the timestamp line.",
  ["inputs", "schedules"], "all permutations of the declarations of schemas of bounded size and all hash-iteration orders",
  "Tests list declarations in dependency order.",
  [C, TS], [("two-pass resolution", C)], ["generated code"])

p("C17", "Each input file maps to exactly one output path under the target",
  "For a directory input every `.pkt` file found below it is written to the same relative path under the output directory with the extension replaced by the language's, and no other file is created or changed. For a single file the output is the output directory plus the file's name with its extension replaced. Different input files never share an output path.",
  ["inputs", "configurations"], "all file and directory names in bounded symbolic windows, in directory and single-file mode (names that are not UTF-8 may be refused instead)",
  "The command-line program has no tests.",
  [M], [("directory walk", M), ("output path construction", M)], ["files written by the command-line program"])

p("C18", "The tool writes all outputs or none, with exact contents",
  "If every input compiles, each output file holds exactly the code generated for its input and the exit status is zero. If any input fails to compile or cannot be read, the exit status is nonzero, an error is printed, and no output file is created or changed.",
  ["inputs", "configurations"], "all combinations of good and bad schemas over bounded directory trees, in both modes",
  "The command-line program has no tests.",
  [M, L], [("compile-everything-then-save", M)], ["files written and exit status of the command-line program"])

p("C19", "Any I/O failure makes the tool exit with an error",
  "If looking up, listing, reading, creating or writing any path fails, including a missing input path, the tool exits with nonzero status and a message, and does not crash. It reports success only if every output was written in full.",
  ["fault_sequences", "inputs"], "a failure of each file-system operation at each point of a run, over bounded directory trees",
  "Faults are not injected anywhere in the tests.",
  [M], [("error propagation", M)], ["exit status of the command-line program"])

p("C20", "The language argument selects exactly the supported languages",
  "The language argument is accepted exactly when it names a supported language, in any letter case. Any other value is refused with nonzero exit status before any file is read or written.",
  ["inputs"], "all argument strings up to a bounded length",
  "The command-line program has no tests.",
  [M], [("language parsing", M)], ["exit status and effects of the command-line program"])

p("C21", "What was read can be written again, byte for byte",
  "Whenever the generated read accepts bytes that follow the layout, writing the value it returns gives exactly the bytes it consumed, and reading those gives the same value again. "
  "The value a read returned does not change when other data is read afterwards. What read returns can be asked to write itself.",
  ["programs", "inputs", "histories"], "all byte sequences up to a bounded length for all schemas from bounded structural templates; read, read of other data, write, read",
  "Tests never execute generated code, let alone a sequence of calls.",
  [TS, G], [("read output", TS), ("write output", TS)], ["generated code"])

p("C22", "Writing leaves the value unchanged and is repeatable",
  "Writing a value changes none of its fields, elements or nested values. Writing it again, with or without a buffer to write into, gives the same bytes, whatever the buffer held.",
  ["programs", "inputs", "histories"], "all values in bounded domains for all schemas from bounded structural templates; write, write",
  "Tests never execute generated code, let alone a sequence of calls.",
  [TS, G], [("write output", TS)], ["generated code"])

p("C23", "Text to result: right kind of error, right message, right declarations",
  "Compiling a text gives a syntax error exactly when it breaks the documented syntax, a type error exactly when it follows the syntax but is ill-formed, and otherwise a module. "
  "A type error describes a rule the text really breaks and each error is shown as its kind followed by its message. The module declares exactly the exported struct of the text and the types it needs, with the fields, types, marks and variants as written there.",
  ["inputs"], "all byte values in symbolic text windows and at every position of complete schemas",
  "Tests exercise each stage alone with a few fixed inputs; no test compiles a text and looks at the kind of the result.",
  [L, P, C, G, TS], [("compile pipeline", L), ("error display", L)], ["result of the compile entry point"])

p("C24", "Every module states its origin and imports its runtime once",
  "The first line of a generated module is a comment with the compiler's version and the UTC time of generation, on one line whatever the schema. "
  "The module imports the reader and writer, and nothing else, from the packet library, once, and consists of one namespace and one class, both named after the export.",
  ["programs"], "all schemas from bounded structural templates with all names of bounded length",
  "Tests look at the parts of a module separately and never at the first line or at a complete module.",
  [G, TS], [("origin line", G), ("import line", TS), ("module assembly", G)], ["generated code"])

p("C25", "The program announces what it writes and says why it refuses",
  "A successful run announces on standard output every file it writes, in a line ending with that file's path, and announces no other file as written. "
  "When an input is refused, standard error carries the compiler's message for one of the refused inputs, with its place in the text, and nothing is announced as written.",
  ["inputs"], "all names and texts of bounded length in bounded directory trees",
  "No test runs the program, so what it prints is never looked at.",
  [M, L], [("announcing the output", M), ("reporting errors", M)], ["standard output and standard error of the program"])

p("C26", "Incomplete or wrong command lines touch nothing",
  "Only a language, an input and an output, in this order and optionally with the mark that ends options, make the program work. "
  "Any other command line, including arguments that are not text, is refused with a message and a failing status, except questions for help or the version, which are answered with success. In neither case is any file created or changed.",
  ["inputs"], "all command lines of up to five arguments, one of which is any byte sequence of bounded length",
  "No test runs the program with any command line; the argument parser's crashes and leniencies only show on unusual bytes.",
  [M], [("command-line parsing", M)], ["exit status, messages and file system after a run"])

p("C27", "One compilation never influences another",
  "Within one process, compiling a text gives the same module apart from the stated time, the same syntax error or again a type error, whatever was compiled before it, successfully or not.",
  ["inputs", "histories"], "all histories of compilations of two texts in turn, one from text windows, edited schemas or structural templates and the other one of four",
  "Tests compile each text once and never compare with the result of an earlier compilation of the same text.",
  [L, P, C, G, TS], [("compile pipeline", L)], ["result of the compile entry point"])

import sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from specs import SPECS
props = [x for x in props if x["id"] in SPECS]
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in props))
print(len(props))
