#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the notes below.
import json
N = {
 "C01": ("exhaustive enumeration of tables and command lines on the real parser against a reference parser model", "Every line up to the bound over generated table families; assumes the GNU rules as written in harness/pm.hpp; nothing is said beyond the bounds except by the long-line spaces."),
 "C02": ("exhaustive enumeration of option/operand interleavings on the real parser against a reference model", "Every pattern of options and operands up to the bound, both settings of POSIXLY_CORRECT; trusts harness/pm.hpp."),
 "C03": ("exhaustive enumeration of faulty lines on the real parser against a reference model of the error records", "Every combination of error-producing tokens up to the bound; trusts harness/pm.hpp."),
 "C04": ("exhaustive enumeration of capacities and error counts on the real parser", "Every capacity and number of errors up to the bound, with AddressSanitizer on the record storage."),
 "C05": ("exhaustive enumeration of entry types, bounds and occurrence counts on the real parser", "Every type, minimum, maximum and number of occurrences up to the bound, with AddressSanitizer on the value storage."),
 "C06": ("exhaustive enumeration of parse histories over several tables on the real parser", "Every history up to the bound; the last parse is compared with the model, which has no history."),
 "C07": ("exhaustive enumeration of lines on the real parser with a write-protected argument vector and address comparison", "Every line up to the bound; the vector lies in read-only memory during the parse."),
 "C08": ("exhaustive enumeration of short texts and of all boundary values on the real conversion against an exact reference", "Every string up to the bound over the notation's alphabet and every boundary in every base and suffix."),
 "C09": ("exhaustive enumeration of short texts on the real conversion against strtod", "Every string up to the bound over the notation's alphabet; trusts the C library's strtod."),
 "C10": ("exhaustive enumeration of paths on the real splitter against a reference", "Every path up to the bound over separators, dots and letters."),
 "C11": ("exhaustive enumeration of formats, fields and texts on the real date parser against a reference interpreter", "Every value of every conversion, every pair of conversions, every short format and white-space text up to the bound."),
 "C12": ("exhaustive enumeration of patterns and texts on the real matcher against exact language membership", "Soundness for every pattern of the grammars up to the bound, completeness for the one-unambiguous ones; trusts harness/rex.hpp."),
 "C13": ("exhaustive enumeration of pattern strings and texts on the real matcher under sanitizers, allocation accounting and a time limit", "Every pattern string up to the bound over the notation's characters."),
 "C14": ("exhaustive enumeration of operation sequences on the real dynamic string against a reference string", "Every sequence up to the bound, every length around the storage sizes."),
 "C15": ("exhaustive enumeration of operation sequences on the real hash table against a reference map", "Every sequence up to the bound under several hash functions, every size through several growths."),
 "C16": ("exhaustive enumeration of registry operation sequences on the real code against a reference map", "Every sequence of registrations, removals, look-ups and dispatches up to the bound."),
 "C17": ("exhaustive enumeration of arrays, ranges and orders on the real sort", "Every array up to the bound for several element sizes and orders, guard bytes around the range."),
 "C18": ("exhaustive enumeration of tables on the real renderer against a reference renderer", "Every table of up to the bound of entries over a grid of spellings, value names and counts; every length around the cut-off."),
 "C19": ("exhaustive enumeration of tables, margins and texts on the real renderer against a reference", "Every text up to the bound over words, spaces and newlines for a grid of margins; every table of the grid."),
 "C20": ("exhaustive enumeration of faulty lines and text lengths on the real error printer against the expected messages", "Every line up to the bound on tables of every type; every length of every text shown."),
 "C21": ("exhaustive enumeration of setting and registration histories on the real help functions against a reference", "Every history up to the bound; every combination of help, errors and table."),
 "C22": ("exhaustive enumeration of whole-life call sequences on the real library with allocation accounting and sanitizers", "Every sequence of calls up to the bound for a set of tables; every position of empty entries."),
 "C23": ("exhaustive enumeration of the failing allocation over scenarios of the whole API on the real library", "Every allocation of every scenario is made to fail, with the default handler, an installed handler and the dump setting."),
 "C24": ("exhaustive case-by-case comparison of both builds over the spaces of the other checks", "Every case of the quick spaces of seventeen checks is run in both forms and must have the same outcome."),
 "C25": ("exhaustive enumeration of user-defined entries, callback subsets and lines on the real parser against a reference protocol", "Every pair of entry shapes with every subset of callbacks; every line up to the bound on tables with recording callbacks."),
 "C26": ("exhaustive enumeration of entry types, bounds, lines and short parse histories on the real parser against a model of the value slots", "Every line and pair of lines up to the bound with every slot preset; the content of every slot is compared after each parse."),
 "C27": ("exhaustive enumeration of tables and command lines on the real parser, built with ARG_LONG_ONLY, against a reference parser model", "Every line up to the bound over generated table families whose letters and long names overlap; trusts harness/pm.hpp."),
 "C28": ("exhaustive enumeration of constructor calls, making and releasing orders and uses of entries on the real library against the expected header, slots and table", "Every combination of arguments and counts up to the bound, every order of making and releasing up to the bound, every set of missing entries, every sequence of uses up to the bound."),
}
FAULT = {"C23"}
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in N: continue
    checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + N[i][0],
                   "level": "fault_enumeration" if i in FAULT else "model_checking", "level_note": N[i][1]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every check builds the library from /repo/src with sanitizers. The commits in /repo are repairs of defects (known_findings.txt)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
