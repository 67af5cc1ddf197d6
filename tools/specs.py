"""What each property runs: entry points, bounds, witnesses."""
TRUSTED = [
    "rustc/LLVM lower the crate to the IR that is executed (opt-level 1, overflow checks on)",
    "symx (IR semantics, memory model) and Z3 4.8.12; sampled paths are compared with native runs",
    "allocation never fails; the clock and random seeds are stand-ins",
]
WIN = ["struct body", "enum body", "keyword", "punctuation", "one field", "declaration name", "field name", "variant name", "between items", "export statement",
       "export keyword", "marks, truncated", "comments", "comments in a struct", "variant separators", "field separators", "non-ASCII comment and error", "CRLF", "text start", "later lines",
       "names of up to 300 bytes", "70 blanks and line ends", "70 fields", "41 declarations", "comments of 350 bytes", "120 lines before an error", "a line of 270 columns", "enum of 32 variants"]
LONG = range(20, 28)

def wins(entry, ks, extra=0, textra=1, reach=None, kw={}):
    out = []
    for k in ks:
        r = {"name": "win%02d" % k, "entry": entry, "params": [k, extra], "thorough": [k, textra],
             "bounds": "all bytes at the marked places of text window %d (%s), plus %d (thorough: %d) ASCII bytes at the end" % (k, WIN[k], extra, textra),
             "reach": (reach or {}).get(k, []), "samples": 3, "validate": 3}
        r.update(kw)
        out.append(r)
    return out

def edits(entry, n, tn, reach, ks=range(5)):
    return [{"name": "edit%d" % b, "entry": entry, "params": [b, n], "thorough": [b, tn], "reach": reach, "samples": 4, "validate": 4,
             "bounds": "base schema %d with 0..2 bytes at any position replaced by %d (thorough: %d) arbitrary bytes" % (b, n, tn)} for b in ks]

TEXT_OUT = "texts that differ from the windows or bases in more places than the symbolic bytes; longer free texts"

TC_OUT = "schemas with more declarations or fields than the stated sizes; names longer than one letter (the checker only compares names)"
TC_ASSUME = ["all hash tables of one compilation place the declared names in the same relative order; every such order is explored"]
TC = {
 "graph-flags": ([0, 3, 1, 1, 1, 2, 1], [0, 4, 1, 1, 1, 2, 1], "3 (thorough: 4) structs with one field each and an enum; every field has any type (basic, any one-letter name) and any marks; any export; all hash orders"),
 "graph-wide": ([0, 2, 2, 2, 1, 2, 1], [0, 3, 2, 1, 1, 2, 1], "2 structs with two fields each (thorough: 3 structs with 2,2,1 fields) and an enum; any field types, any marks, any export; all hash orders"),
 "graph3": ([0, 3, 2, 1, 1, 0, 0], [0, 3, 2, 2, 1, 0, 0], "3 structs with 2,2,1 (thorough: 2,2,2) fields and an enum; any declared or basic field types; any export; all hash orders"),
 "graph4": ([0, 4, 1, 1, 1, 0, 0], [0, 4, 2, 1, 1, 0, 0], "4 structs with one field (thorough: 2,2,2,1 fields) and an enum; any declared or basic field types; any export; all hash orders"),
 "graph-marks": ([0, 3, 2, 1, 1, 1, 0], [0, 3, 2, 2, 1, 1, 0], "3 structs with 2,2,1 (thorough: 2,2,2) fields and an enum, any array or optional marks; all hash orders"),
 "graph-pick": ([0, 2, 2, 1, 1, 3, 0], [0, 3, 1, 1, 1, 3, 0], "2 structs with 2,1 fields (thorough: 3 with one) and an enum, any types and marks; all hash orders"),
 "fields": ([1, 4, 0], [1, 5, 0], "a struct with 4 (thorough: 5) fields with any one-letter names and basic, struct, enum or undeclared types; all hash orders"),
 "fields-flags": ([1, 3, 2], [1, 4, 2], "a struct with 3 (thorough: 4) fields with any one-letter names, types and marks; all hash orders"),
 "fields-pick": ([1, 2, 3], [1, 3, 3], "a struct with 2 (thorough: 3) fields with any one-letter names, types and marks; all hash orders"),
 "decls": ([2, 3], [2, 4], "3 (thorough: 4) declarations of any kind with any one-letter names, 0 to 2 exports of any name; all hash orders"),
 "enum-count": ([3, 34], [3, 40], "an enum of 0..34 (thorough: 40) variants, any one of them with any two-digit name"),
 "words": ([5, 2, 2, 1, 1], [5, 3, 0, 1, 1], "2 (thorough: 3) structs and an enum with any names of 1 to 3 letters, fields of any basic or named type and (quick) any marks; any export"),
 "words8": ([5, 2, 0, 1, 1], [5, 2, 0, 2, 1], "2 structs and an enum with any names of 1 to 3 letters, fields of any basic or named type; any export"),
 "basic": ([6, 3, 0], [6, 4, 0], "a struct with 3 (thorough: 4) fields of any basic types with any names of 1 to 3 letters"),
 "basic-flags": ([6, 2, 2], [6, 3, 2], "a struct with 2 (thorough: 3) fields of any basic types and marks with any names of 1 to 3 letters"),
 "enum-words": ([7, 5], [7, 7], "an enum of 0..5 (thorough: 7) variants with any names of one or two letters"),
 "chain": ([8, 8, 0, 0], [8, 12, 0, 0], "8 (thorough: 12) structs in a chain, declared in a mixed order, one of them with one more field of any declared type and any marks at the start or end; any export; one hash order"),
 "chain-orders": ([8, 3, 0, 4], [8, 4, 0, 5], "the same with 3 (thorough: 4) structs; all hash orders"),
 "wide": ([9, 26, 9], [9, 26, 9], "a struct with 26 fields of all kinds of types, one of them with any one-letter name, type and marks, next to 2 structs and 9 enums; any of the structs exported; one hash order"),
 "enum-names": ([4, 5], [4, 7], "an enum of 0..5 (thorough: 7) variants with any one-letter names"),
}

SPECIAL = {"enum-words": {"h_c05": [0, 1], "h_c06": [4], "h_c07": [0], "h_c08": [0]}}
def tc(entry, reach, names):
    return [{"name": n, "entry": entry, "params": TC[n][0], "thorough": TC[n][1], "bounds": TC[n][2], "reach": [r for r in reach] if n not in SPECIAL else SPECIAL[n].get(entry, []), "repeat": 3000, "samples": 4, "validate": 4} for n in names]

GEN_OUT = "schemas outside the templates; longer arrays, strings or byte sequences"
GEN_ASSUME = ["the generated TypeScript means what the evaluator in harness/src/tsm.rs says; counterexamples and sampled paths are also run by the TypeScript compiler and node",
              "the runtime library of the generated code reads and writes little-endian numbers and fails at the end of data (a stand-in follows its interface)"]
TPL = {0: 'one field of any type (enum sizes 1,2,3,8,9,15,16,17,31,32)', 1: 'two fields', 2: 'a field inside a struct, then another field', 3: 'two levels of structs', 4: 'one type used twice', 5: 'no fields', 6: 'three plain fields', 7: 'three levels of structs', 8: 'an enum of any size 1..32', 9: 'ten fields of all basic types, one of them marked', 10: 'three enums and two structs shared at different depths', 11: 'five levels of structs', 12: '130 fields', 13: 'twelve levels of structs', 14: 'ten fields: arrays, optional and plain ones of enum, struct, string and number types'}
def mixed(entry, node, ks):
    return [{"name": "mixed%d" % k, "entry": entry, "params": [k, 0, 1, int(k > 0), 1], "thorough": [k, 0, 2, 1, 1], "node": node, "reach": [0], "samples": 3, "validate": 3,
             "bounds": TPL[k] + ", any marks; all names of 1 to 3 (thorough: 2 to 4) bytes, neighbouring names of different lengths"} for k in ks]
def gen(entry, node, sizes, text, reach, special={}):
    out = []
    for k, (q, t) in sizes.items():
        lst = isinstance(q, list)
        out.append({"name": "template%d" % k, "entry": entry, "params": [k] + (q if lst else [q]), "thorough": [k] + (t if lst else [t]), "node": node, "reach": special.get(k, reach), "samples": 4, "validate": 4,
                    "bounds": TPL[k] + ", any marks; " + (text % ((q[1], t[1]) if lst else (q, t)))})
    return out

def named(entry, node, sizes, text, reach):
    return [{"name": "names-t%d" % k, "entry": entry, "params": [k, q, 1, 1], "thorough": [k, t, 1, 1, 1], "node": node, "reach": reach, "samples": 3, "validate": 3,
             "bounds": TPL[k] + ", any marks; all names of 1 byte, types capital, fields not (thorough: of 1 to 3 bytes); " + text % (q, t)} for k, (q, t) in sizes.items()]
SMALL = "arrays and strings of up to %d (thorough: %d) items, all numbers, floats, characters, variants"

LONGV = {"name": "long", "entry": "h_c10_long", "params": [0], "node": "run", "reach": [0], "samples": 6, "validate": 6,
         "bounds": "a string of 255, 256, 257, 65535, 65536 or 65537 characters or an array of 127, 128, 255, 256, 257 or 300 numbers, variants or structs, first and last item free; then another field"}

def tw(name, entry, q, t, bounds, reach=[0, 1]):
    return {"name": name, "entry": entry, "params": q, "thorough": t, "bounds": bounds + ("; all hash orders" if entry != "h_c16" else ""), "reach": reach, "repeat": 3000, "samples": 4, "validate": 4}

CLI_OUT = "longer names and deeper trees; links to links, special files and permissions other than through failing calls; more than one failing call; failures of close and of the standard streams; option arguments"
CLI_ASSUME = ["the file system behaves as the model in /verif/cli/src/model.rs (checked against the real one on the sampled paths); start-up and exit code of the standard library outside main is trusted"]
def cl(name, entry, params, thorough, bounds, reach):
    return {"name": name, "crate": "cli", "entry": entry, "params": params, "thorough": thorough, "bounds": bounds, "reach": reach, "samples": 8, "validate": 8}
SPECS = {
 "C01": {"runs": [
   {"name": "raw", "entry": "h_c01_raw", "params": [7, 0], "thorough": [8, 0], "bounds": "all texts of exactly 7 (thorough: 8) bytes", "reach": [0, 1, 2]},
   {"name": "raw-ascii", "entry": "h_c01_raw", "params": [9, 1], "thorough": [10, 1], "bounds": "all ASCII texts of exactly 9 (thorough: 10) bytes", "reach": [0, 1, 2]},
   {"name": "raw-short", "entry": "h_c01_raw", "params": [3, 0], "bounds": "all texts of exactly 3 bytes", "reach": [1, 2]},
   {"name": "empty", "entry": "h_c01_raw", "params": [0, 0], "bounds": "the empty text", "reach": [1]},
   ] + wins("h_c01_win", range(20), 1, 2, {k: [0, 2] for k in range(20)}) + wins("h_c01_win", LONG, 0, 1, {k: [0, 2] for k in LONG}) + edits("h_c01_edit", 2, 3, [0, 2]),
   "outside": TEXT_OUT},
 "C02": {"runs": [
   {"name": "layout%d" % l, "entry": "h_c02", "params": [l, 3], "thorough": [l, 4], "reach": [0],
    "bounds": "schema %d, any 3 (thorough: 4) neighbouring gaps varied together: every choice of blanks, line ends, commas and comments of up to 2 bytes allowed there, or 70 blanks or a comment of 300 bytes" % l} for l in range(3)],
   "outside": "more than 4 gaps varied at once; other long comments"},
 "C03": {"runs": [
   {"name": "raw", "entry": "h_c03_raw", "params": [7], "thorough": [8], "bounds": "all texts of exactly 7 (thorough: 8) bytes", "reach": [1, 2]},
   ] + wins("h_c03_win", range(28), 0, 1, {8: [0, 1, 2], 27: [0, 1, 2]}) + edits("h_c03_edit", 2, 3, [0, 1]),
   "outside": TEXT_OUT},
 "C04": {"runs": [
   {"name": "raw", "entry": "h_c04_raw", "params": [6], "thorough": [7], "bounds": "all texts of exactly 6 (thorough: 7) bytes", "reach": [2, 3, 4]},
   {"name": "raw-short", "entry": "h_c04_raw", "params": [2], "bounds": "all texts of exactly 2 bytes", "reach": [2, 3, 4]},
   ] + wins("h_c04_win", range(28), 0, 1, {k: [3] for k in range(28)}) + edits("h_c04_edit", 2, 3, [2, 3]),
   "outside": TEXT_OUT},
 "C05": {"runs": tc("h_c05", [0, 1], ["graph-flags", "words", "graph-wide", "graph3", "graph4", "chain", "chain-orders", "wide", "fields", "fields-flags", "decls", "enum-count", "enum-names", "basic", "basic-flags", "enum-words"]), "outside": TC_OUT, "assumptions": TC_ASSUME},
 "C06": {"runs": tc("h_c06", [1], ["graph-flags", "words", "graph-wide", "graph3", "graph4", "chain", "chain-orders", "wide", "fields", "fields-flags", "decls", "enum-count", "enum-names", "basic", "basic-flags", "enum-words"]), "outside": TC_OUT, "assumptions": TC_ASSUME},
 "C07": {"runs": tc("h_c07", [0], ["words", "graph-wide", "graph3", "graph4", "graph-marks", "chain", "chain-orders", "wide", "fields", "fields-flags", "decls", "enum-count", "enum-names", "basic", "basic-flags", "enum-words"]), "outside": TC_OUT, "assumptions": TC_ASSUME},
 "C08": {"runs": tc("h_c08", [0, 1, 2], ["graph3", "graph4", "chain", "chain-orders", "wide", "graph-pick", "fields-pick", "decls", "words8"]) + tc("h_c08", [0], ["enum-names", "enum-words", "basic", "basic-flags"]), "outside": TC_OUT, "assumptions": TC_ASSUME},
 "C09": {"runs": [{"name": "sizes", "entry": "h_c09", "params": [32], "reach": [0], "node": "run", "samples": 8, "validate": 8, "bounds": "enums of 1..32 variants, any variant"},
   {"name": "names", "entry": "h_c09", "params": [12, 3, 1], "thorough": [32, 4, 2], "reach": [0], "node": "run", "samples": 4, "validate": 4, "bounds": "enums of 1..12 (thorough: 32) variants, the first 3 (thorough: 4) with any names of 1 and 2 (thorough: 2 and 3) bytes"}],
   "outside": "more variants with free names", "assumptions": GEN_ASSUME},
 "C10": {"runs": gen("h_c10", "run", {0: [2, 4], 1: [2, 2], 2: [2, 3], 3: [1, 2], 4: [1, 2], 5: [1, 1], 6: [1, 2], 7: [1, 2], 8: [1, 2], 9: [1, 2], 10: [1, 2], 11: [1, 2], 12: [1, 2], 13: [1, 2], 14: [1, 1]}, "arrays and strings of up to %d (thorough: %d) items, all numbers, floats, characters, variants; with and without a buffer, null or undefined for absent", [0])
   + named("h_c10", "run", {1: [1, 1], 2: [0, 1], 6: [1, 1], 9: [1, 2]}, SMALL, [0]) + [LONGV],
   "outside": GEN_OUT, "assumptions": GEN_ASSUME},
 "C11": {"runs": gen("h_c11", "run", {0: [2, 4], 1: [2, 2], 2: [2, 3], 3: [1, 2], 4: [1, 2], 5: [1, 1], 6: [1, 2], 7: [1, 2], 8: [1, 2], 9: [1, 2], 10: [1, 2], 11: [1, 2], 12: [1, 2], 13: [1, 2], 14: [1, 1]}, "arrays and strings of up to %d (thorough: %d) items, all numbers, floats, characters, variants; with and without a buffer", [0])
   + named("h_c11", "run", {1: [1, 1], 2: [0, 1], 9: [1, 2]}, SMALL, [0])
   + [{"name": "names%02d" % n, "entry": "h_c11_names", "params": [0, n], "reach": [0], "node": "run", "samples": 3, "validate": 3, "bounds": "a field with any name of %d bytes, in the export or a nested struct" % n} for n in (1, 2, 3, 4, 5, 6, 7, 8, 9)] + [LONGV],
   "outside": GEN_OUT, "assumptions": GEN_ASSUME},
 "C12": {"runs": gen("h_c12", "run", {0: [8, 10], 1: [8, 10], 2: [7, 9], 3: [7, 9], 4: [7, 9], 5: [2, 4], 6: [8, 10], 7: [7, 8], 8: [5, 8], 9: [26, 27], 10: [8, 12], 11: [10, 13], 13: [14, 17], 14: [24, 26]}, "all byte sequences of up to %d (thorough: %d) bytes", [0, 1], {5: [0]})
   + named("h_c12", "run", {1: [5, 6], 9: [24, 26]}, "all byte sequences of up to %d (thorough: %d) bytes", [1]),
   "outside": GEN_OUT + "; arrays of more than 6 items", "assumptions": GEN_ASSUME},
 "C13": {"runs": gen("h_c13", "text", {12: [[0, 0, 1], [0, 0, 1]], 13: [[0, 0, 1], [0, 0, 1]], 14: [[0, 0, 1], [0, 0, 1]], 0: [[0, 1, 0], [0, 2, 0]], 1: [[0, 1, 1], [0, 2, 1]], 2: [[0, 1, 1], [0, 2, 1]], 3: [[0, 0, 1], [0, 1, 1]], 4: [[0, 1, 1], [0, 2, 1]], 6: [[0, 2, 1], [0, 3, 1]], 7: [[0, 0, 1], [0, 0, 1]], 8: [[0, 2, 1], [0, 2, 1]], 9: [[0, 1, 1], [0, 2, 1]], 10: [[0, 0, 1], [0, 0, 1]], 11: [[0, 0, 1], [0, 0, 1]]}, "all names of %s (thorough: %s) bytes (0: fixed names)", [0]) + mixed("h_c13", "text", (0, 1, 2, 4, 9))
   + [{"name": "variants", "entry": "h_c13", "params": [8, 0, 0, 1, 0, 3, 1], "thorough": [8, 0, 0, 1, 0, 4, 2], "node": "text", "reach": [0, 2], "samples": 3, "validate": 3, "bounds": TPL[8] + ", any marks; the first 3 (thorough: 4) variants with any names of 1 and 2 (thorough: 2 and 3) bytes"}],
   "outside": GEN_OUT, "assumptions": GEN_ASSUME},
 "C14": {"runs": gen("h_c14", "scope", {12: [[0, 0, 1], [0, 0, 1]], 13: [[0, 0, 1], [0, 0, 1]], 14: [[0, 0, 1], [0, 0, 1]], 0: [[0, 1, 0], [0, 2, 0]], 1: [[0, 1, 1], [0, 2, 1]], 9: [[0, 1, 1], [0, 2, 1]], 10: [[0, 0, 1], [0, 0, 1]], 11: [[0, 0, 1], [0, 0, 1]]}, "all names of %s (thorough: %s) bytes (0: fixed names)", [0]) + mixed("h_c14", "scope", (0, 1, 2, 4))
   + [{"name": "pair%d%d%d" % (a, b, c), "entry": "h_c14_pair", "params": [0, a, b, c], "reach": [0], "node": "scope", "samples": 3, "validate": 3, "thorough_only": t,
       "bounds": "two fields of any kind with any names of %d and %d bytes, inner fields of %d bytes" % (a, b, c)} for a, b, c, t in [(1, 5, 1, 0), (3, 1, 1, 0), (5, 1, 3, 0), (1, 7, 1, 0), (1, 6, 1, 0), (1, 3, 1, 0), (4, 1, 1, 1), (2, 4, 1, 1), (2, 5, 2, 1), (1, 8, 1, 1)]]
   + [{"name": "names%02d" % n, "entry": "h_c14_names", "params": [0, n], "reach": [0], "node": "scope", "samples": 3, "validate": 3, "bounds": "any one name of a schema is anything of %d bytes" % n} for n in range(1, 13)],
   "outside": GEN_OUT, "assumptions": GEN_ASSUME},
 "C15": {"runs": [
   tw("graph", "h_c15", [0, 3, 2, 1, 1, 0, 0], [0, 3, 2, 2, 1, 0, 0], "3 structs with 2,2,1 (thorough: 2,2,2) fields and an enum; any declared or basic field types; any export"),
   tw("graph4", "h_c15", [0, 3, 1, 1, 1, 0, 0], [0, 4, 1, 1, 1, 0, 0], "3 (thorough: 4) structs with one field and an enum; any declared or basic field types; any export"),
   tw("chain", "h_c15", [8, 6, 0, 0], [8, 9, 0, 0], "6 (thorough: 9) structs in a chain, declared in a mixed order, one with one more field of any declared type; any export"),
   tw("marks", "h_c15", [0, 2, 2, 1, 1, 3, 0], [0, 2, 2, 2, 1, 3, 0], "2 structs with 2,1 (thorough: 2,2) fields and an enum, any types and marks; any export"),
   tw("fields", "h_c15", [1, 3, 0], [1, 4, 0], "a struct with 3 (thorough: 4) fields with any one-letter names and types"),
   tw("decls", "h_c15", [2, 3], [2, 4], "3 (thorough: 4) declarations of any kind and name, 0 to 2 exports"),
   tw("words", "h_c15", [5, 2, 0, 1, 1], [5, 2, 0, 2, 1], "2 structs and an enum with any names of 1 to 3 letters; any export"),
   tw("enum", "h_c15", [4, 4], [4, 6], "an enum of 0..4 (thorough: 6) variants with any one-letter names"),
   ] + [tw("text%d" % k, "h_c15_text", [k], [k], TPL[k] + ", any marks, as text", [0]) for k in (0, 1, 2, 3, 4)],
   "outside": TC_OUT + "; more than two compilations", "assumptions": TC_ASSUME + ["the order of hash tables keyed by anything but type names is one fixed order"]},
 "C16": {"runs": [
   tw("graph", "h_c16", [0, 3, 1, 1, 1, 0, 0], [0, 3, 2, 1, 1, 0, 0], "3 structs with one field (thorough: 2,2,1) and an enum; any declared or basic field types; any export; every order of the statements"),
   tw("graph-orders", "h_c16", [0, 2, 2, 1, 1, 0, 0, 0, 0, 1], [0, 3, 1, 1, 1, 0, 0, 0, 0, 1], "2 structs with 2,1 fields (thorough: 3 with one) and an enum; any declared or basic field types; any export; every order of the statements and of the hash tables"),
   tw("marks", "h_c16", [0, 2, 1, 1, 1, 3, 0], [0, 2, 2, 1, 1, 3, 0], "2 structs with one field (thorough: 2,1) and an enum, any types and marks; any export; every order of the statements"),
   tw("fields", "h_c16", [1, 2, 0], [1, 3, 0], "a struct with 2 (thorough: 3) fields with any one-letter names and types; every order of the statements"),
   tw("decls", "h_c16", [2, 3], [2, 3, 0, 0, 0, 0, 0, 0, 0, 1], "3 declarations of any kind and name, 0 to 2 exports; every order of the statements (thorough: and of the hash tables)"),
   tw("words", "h_c16", [5, 1, 0, 1, 1], [5, 2, 0, 1, 1], "1 (thorough: 2) structs and an enum with any names of 1 to 3 letters; any export; every order of the statements"),
   ], "outside": TC_OUT, "assumptions": TC_ASSUME},
 "C17": {"runs": [
   cl("entry", "h_c17", [0, 6, 0], [0, 7, 0], "one file with any name of 6 (thorough: 7) bytes in the input directory", [1, 2, 3]),
   cl("entry-pkt", "h_c17", [0, 3, 1], [0, 4, 1], "one file named by any 3 (thorough: 4) bytes and .pkt", [1, 5]),
   cl("single", "h_c17", [1, 4, 0], [1, 5, 0], "single file with any name of 4 (thorough: 5) bytes not starting with a dash", [1, 5]),
   cl("single-pkt", "h_c17", [1, 3, 1], [1, 4, 1], "single file named by any 3 (thorough: 4) bytes, the first not a dash, and .pkt", [1, 5]),
   cl("directory", "h_c17", [2, 4, 0], [2, 5, 0], "sub-directory with any name of 4 (thorough: 5) bytes", [1, 5]),
   cl("two", "h_c17", [3, 2, 1], [3, 3, 1], "two files with any different names of 2 (thorough: 3) bytes and .pkt", [1, 4]),
   cl("two-any", "h_c17", [3, 5, 0], [3, 6, 0], "two files with any different names of 5 (thorough: 6) bytes", [1, 3, 4]),
   cl("nested", "h_c17", [4, 2, 1], [4, 3, 1], "file below two directories, any names of 2 (thorough: 3) bytes", [1]),
   cl("single-in", "h_c17", [5, 2, 1], [5, 2, 1], "single file in a directory, any names of 2 bytes, the first not a dash", [1]),
   cl("roots", "h_c17", [6, 2, 0], [6, 2, 0], "input and output directories with any names of 2 bytes; separate, one inside the other, or the same", [1]),
   cl("spelling", "h_c17", [7, 2, 1], [7, 3, 1], "8 ways of writing the input directory, 7 of the output directory; two inputs, one in a sub-directory with any name of 2 (thorough: 3) bytes", [1, 4]),
   cl("present", "h_c17", [7, 2, 1, 1], [7, 3, 1, 1], "the same with other files already in the output directory", [1, 4]),
   cl("links", "h_c17", [8, 2, 1], [8, 3, 1], "links to a file and to a directory, with any names of 2 (thorough: 3) bytes (and .pkt)", [1, 4]),
   cl("links-any", "h_c17", [8, 4, 0], [8, 6, 0], "links to a file and to a directory, with any names of 4 (thorough: 6) bytes", [1]),
   cl("link-input", "h_c17", [9, 3, 0], [9, 5, 0], "the input is a link to a file or directory, with any name of 3 (thorough: 5) bytes", [1, 5]),
   cl("wide", "h_c17", [11, 40, 0], [11, 70, 0], "40 (thorough: 70) files in one directory, and files and directories with names of about 90 bytes, 2 of them free", [1, 4]),
   cl("deep", "h_c17", [10, 6, 0], [10, 9, 0], "two files in each of 6 (thorough: 9) nested directories, and a file with any name of 2 bytes", [1, 4]),
   ], "outside": CLI_OUT, "assumptions": CLI_ASSUME},
 "C18": {"runs": [
   cl("three", "h_c18", [0], [0], "three inputs in two directories, each of 6 texts (2 good, 4 refused for different reasons), either order, old output absent, longer, shorter, of the same length or differing in one byte, transfers of 1 byte or any size", [1, 2, 4]),
   cl("single", "h_c18", [1], [1], "single file of the same 6 texts; the same old outputs; transfers of 1, 7 or any number of bytes", [1, 2]),
   cl("long", "h_c18", [4, 9000], [4, 70000], "single file or directory with a text of about 9000 (thorough: 70000) bytes, any 2 bytes in it; transfers of 4096 bytes or any size", [1, 2]),
   cl("big", "h_c18", [5, 1500], [5, 5000], "single file or directory with a struct of 1500 (thorough: 5000) fields and any byte after it; old output absent, longer or shorter; transfers of 4096 bytes or any size", [1, 2]),
   cl("free-text", "h_c18", [2, 3], [2, 4], "a good input next to one with any text of 3 (thorough: 4) bytes, either order, old outputs present or not, transfers of 1, 7 or any number of bytes", [2, 4]),
   cl("window", "h_c18", [3, 2], [3, 3], "single file with any 2 (thorough: 3) bytes between two statements", [1, 2]),
   cl("ends", "h_c18", [6, 3], [6, 4], "single file with any 3 (thorough: 4) bytes before or after a good text", [1, 2]),
   ], "outside": CLI_OUT, "assumptions": CLI_ASSUME},
 "C19": {"runs": [
   cl("tree", "h_c19", [0, 60, 1], [0, 60, 2], "two inputs in two directories with names of 1 (thorough: 2) free bytes; any one of the first 60 file-system calls fails with any error number 1 to 133; output directory present or not; transfers of 40 bytes or any size", [1, 2, 5]),
   cl("single", "h_c19", [1, 30, 2], [1, 60, 3], "single file with any name of 2 (thorough: 3) bytes and .pkt; any one of the first 30 (thorough: 60) calls fails with any error number", [1, 2]),
   cl("missing", "h_c19", [2, 0, 3], [2, 0, 4], "input path that does not exist, with any name of 3 (thorough: 4) bytes at 4 places", [2, 4]),
   cl("obstacle", "h_c19", [3, 0, 1], [3, 60, 1], "a file where a directory is needed or the reverse, at 5 places (thorough: and any one call fails)", [2, 3]),
   ], "outside": CLI_OUT, "assumptions": CLI_ASSUME},
 "C20": {"runs": [cl("any%d" % n, "h_c20", [n, n % 2], [n, n % 2], "all language arguments of %d bytes not starting with a dash" % n, [0] + [1] * (n == 2)) for n in range(4)] +
   [cl("ascii%d" % n, "h_c20", [n, n % 2, 1], [n, n % 2, 1], "all ASCII language arguments of %d bytes not starting with a dash" % n, [0]) for n in (4, 5, 6, 8, 10)],
   "outside": CLI_OUT, "assumptions": CLI_ASSUME},
 "C21": {"runs": gen("h_c21", "run", {0: [6, 8], 1: [7, 9], 2: [7, 9], 3: [6, 8], 4: [7, 9], 5: [2, 3], 6: [6, 9], 7: [6, 8], 8: [5, 8], 9: [26, 27], 10: [8, 12], 11: [10, 13], 13: [14, 17], 14: [24, 26]}, "all byte sequences of up to %d (thorough: %d) bytes", [0, 1], {5: [0]})
   + named("h_c21", "run", {1: [5, 6], 6: [6, 6], 9: [24, 26]}, "all byte sequences of up to %d (thorough: %d) bytes", [1])
   + [{"name": "method", "entry": "h_c21_method", "params": [0], "reach": [0], "node": "run", "bounds": TPL[0] + ", any marks; one byte sequence"}],
   "outside": GEN_OUT + "; arrays of more than 6 items; presence bytes other than 0 and 1 (they are not written back)", "assumptions": GEN_ASSUME},
 "C22": {"runs": gen("h_c22", "run", {0: [2, 4], 1: [2, 2], 2: [2, 3], 3: [1, 2], 4: [1, 2], 5: [1, 1], 6: [1, 2], 7: [1, 2], 8: [1, 2], 9: [1, 2], 10: [1, 2], 11: [1, 2], 12: [1, 2], 13: [1, 2], 14: [1, 1]}, SMALL + "; with and without a buffer, the first or the second time", [0])
   + named("h_c22", "run", {1: [1, 1], 2: [0, 1], 9: [1, 2]}, SMALL, [0]),
   "outside": GEN_OUT + "; more than two writes", "assumptions": GEN_ASSUME},
 "C23": {"runs": [
   {"name": "raw", "entry": "h_c23_raw", "params": [7], "thorough": [8], "bounds": "all texts of exactly 7 (thorough: 8) bytes", "reach": [1, 2]},
   ] + wins("h_c23_win", range(28), 0, 1, {8: [0, 1, 2], 27: [0, 1, 2]}) + edits("h_c23_edit", 2, 3, [0, 1, 2]),
   "outside": TEXT_OUT},
 "C24": {"runs": gen("h_c24", "text", {12: [[0, 0, 1], [0, 0, 1]], 13: [[0, 0, 1], [0, 0, 1]], 14: [[0, 0, 1], [0, 0, 1]], 0: [[0, 1, 0], [0, 2, 0]], 1: [[0, 1, 1], [0, 2, 1]], 2: [[0, 1, 1], [0, 2, 1]], 3: [[0, 0, 1], [0, 1, 1]], 4: [[0, 1, 1], [0, 2, 1]], 5: [[0, 3, 1], [0, 6, 1]], 6: [[0, 2, 1], [0, 3, 1]], 8: [[0, 2, 1], [0, 2, 1]], 9: [[0, 1, 1], [0, 2, 1]], 10: [[0, 0, 1], [0, 0, 1]], 11: [[0, 0, 1], [0, 0, 1]]}, "all names of %s (thorough: %s) bytes (0: fixed names)", [0]),
   "outside": GEN_OUT + "; times other than the stand-in's", "assumptions": GEN_ASSUME},
 "C25": {"runs": [
   cl("two", "h_c25", [0, 2], [0, 3], "two inputs in two directories, one with any name of 2 (thorough: 3) bytes and .pkt, each of 6 texts (2 good, 4 refused for different reasons), either order", [1, 2, 3]),
   cl("single", "h_c25", [1, 2], [1, 3], "single file with a good text in which any 2 (thorough: 3) bytes are free", [1, 2, 3, 4]),
   cl("text", "h_c25", [2, 3], [2, 4], "a good input next to one with any text of 3 (thorough: 4) bytes", [2, 3, 4]),
   ],
   "outside": CLI_OUT, "assumptions": CLI_ASSUME},
 "C26": {"runs":
   [cl("none", "h_c26", [0, 0, 0], [0, 0, 0], "no arguments at all", [0])] +
   [cl("count%d" % n, "h_c26", [n, b, 0], [n, b + 1, 0], "%d arguments, any one of them any %d (thorough: %d) bytes not starting with a dash, the others as in a complete command line" % (n, b, b + 1), [0]) for n, b in ((1, 3), (2, 3), (4, 2), (5, 2))] +
   [cl("option%d" % n, "h_c26", [n, b, 1], [n, b + 1, 1], "%d arguments, any one of them a dash and any %d (thorough: %d) bytes" % (n, b - 1, b), [0]) for n, b in ((1, 4), (2, 4), (3, 4), (4, 3))] +
   [cl("short%d" % n, "h_c26", [n, 1, 1], [n, 2, 1], "%d arguments, any one of them a dash or a dash and any byte (thorough: any 2 bytes)" % n, []) for n in (3, 4)] +
   [cl("word%d" % n, "h_c26", [n, 1, 2], [n, 1, 2], "%d arguments, any one of them --help or --version with one byte replaced or inserted by any byte" % n, [0, 1]) for n in (1, 3, 4)],
   "outside": "more than one unusual argument at a time; combined short options and options followed by text (either answer is accepted, but no file may be touched); " + CLI_OUT, "assumptions": CLI_ASSUME},
 "C27": {"runs": wins("h_c27_win", [3, 8, 12] + list(LONG), 0, 1, {8: [0, 1, 2], 27: [0, 1, 2]}) +
   [{"name": "edit%d" % b, "entry": "h_c27_edit", "params": [b, 1], "thorough": [b, 2], "reach": [0, 1, 2], "samples": 4, "validate": 4,
     "bounds": "base schema %d with 0..2 bytes at any position replaced by 1 (thorough: 2) arbitrary bytes, in turn with 4 other texts" % b} for b in range(4)] +
   [{"name": "schema%d" % k, "entry": "h_c27_gen", "params": [k], "reach": [0], "samples": 4, "validate": 4, "bounds": TPL[k] + ", any marks, as text, in turn with 4 other texts"} for k in (0, 1, 2, 3, 4, 6, 12, 13, 14)],
   "outside": "more than two texts; compilations in several threads; " + TEXT_OUT, "assumptions": GEN_ASSUME},
}
