#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step with checks.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})


p("C01", "Number arithmetic is exact or an error",
  "Adding, subtracting, multiplying, dividing (flooring and truncating), taking remainders of, shifting or masking integers yields the mathematically exact integer, or an error when there is no such representable integer or the operation is undefined; it never yields a wrapped, rounded or silently approximate value. Flooring operations on floats yield the exact whole number. No operands make evaluation crash.",
  ["inputs"], "all pairs of signed 64-bit integers, mixed signed/unsigned 64-bit integers, and all finite doubles",
  "The tests evaluate a handful of small literals; overflow, i64::MIN / -1, mixed wide/negative operands and 2^63 as a float lie at isolated points of a 2^128 space.",
  ["src/eval/stg/arith.rs", "lib/prelude.eu"], [("checked i64/u64 arithmetic with range errors", "src/eval/stg/arith.rs"), ("prelude operators and functions", "lib/prelude.eu")],
  ["value or error kind of a rendered program"])
p("C02", "Comparison and equality agree and order values totally",
  "For any two numbers, exactly one of less-than, equal and greater-than holds, the derived operators (not-equal, at-most, at-least, min, max) agree with them, and integers compare by exact value. Strings, symbols and date-times compare likewise, structural equality of lists and blocks is an equivalence that agrees with equality of the parts, and values of kinds that cannot be ordered give an error, not an answer.",
  ["inputs"], "all pairs and triples of 64-bit integers, finite doubles and short strings/lists/blocks",
  "Tests compare sample values; disagreement shows only near 2^53, 2^63, for mixed signedness, or for strings sharing prefixes.",
  ["src/eval/stg/eq.rs", "src/eval/stg/arith.rs", "lib/prelude.eu"], [("numeric comparison intrinsics", "src/eval/stg/arith.rs"), ("structural equality", "src/eval/stg/eq.rs")],
  ["booleans rendered by a program"])
p("C03", "Parsing is lossless, total and well spanned",
  "Parsing any text, valid or not, terminates without crashing and yields a syntax tree whose text is exactly the input, with every node and every reported error span inside the input and on character boundaries.",
  ["inputs"], "all texts up to a length bound over the language's character classes, and edits of sample programs",
  "Tests parse well-formed files; malformed input, truncated strings and multi-byte characters form an unbounded space where one slicing slip panics.",
  ["src/syntax/rowan/lex.rs", "src/syntax/rowan/string_lex.rs", "src/syntax/rowan/parse.rs", "src/syntax/rowan/validate.rs"],
  [("lexer", "src/syntax/rowan/lex.rs"), ("event-based parser", "src/syntax/rowan/parse.rs")], ["syntax tree text, error spans"])
p("C04", "Formatting preserves the program and is idempotent",
  "Formatting any program the parser accepts, in either mode and at any line width, yields a program with the same tokens in the same order (comments included, whitespace and optional separators aside), which the parser accepts too. Formatting the result again changes nothing.",
  ["inputs", "programs", "configurations"], "all short programs over the grammar's token classes, all widths",
  "Tests format fixed samples; loss of a comment or a token depends on combinations of construct, trivia and width.",
  ["src/driver/format.rs", "src/syntax/export"], [("source formatter", "src/syntax/export")], ["formatted source text"])
p("C05", "String operations and literals do what they say for all text",
  "Escapes in string literals and interpolations denote exactly the documented characters, and interpolated values appear verbatim. Joining what splitting produced, decoding what encoding produced, and case, trimming, affixing, replacing and length operations satisfy their documented laws for all text including multi-byte characters, and never crash.",
  ["inputs"], "all short strings including multi-byte characters; all escape sequences",
  "Tests use ASCII samples; byte/character confusion and escape corner cases need particular characters at particular positions.",
  ["src/eval/stg/string.rs", "src/syntax/rowan/string_lex.rs", "src/syntax/rowan/lex.rs", "src/core/desugar"], [("string intrinsics", "src/eval/stg/string.rs"), ("string pattern lexing", "src/syntax/rowan/string_lex.rs")],
  ["rendered strings"])
p("C06", "Numbers are printed and parsed faithfully",
  "An integer rendered as text, directly, by interpolation or by an integer format, denotes exactly that integer, and parsing that text as a number gives it back. Number literals and numeric strings denote the written value (the nearest double where they have a fraction, an exponent or more digits than 64 bits hold) or are rejected, and no format specification or value crashes evaluation.",
  ["inputs"], "all 64-bit integers; all short numeric texts; all short format specifications",
  "Tests format small numbers; precision loss begins above 2^53 and crashes need unusual width or precision fields.",
  ["src/eval/stg/printf.rs", "src/eval/stg/string.rs", "src/core/desugar"], [("printf-style formatting", "src/eval/stg/printf.rs")], ["rendered strings and numbers"])
p("C07", "Rendered documents are well formed and denote the value",
  "Rendering any value as JSON, TOML (block roots), EDN, eucalypt or text gives output that a standard reader of that format accepts and that denotes the same keys (in the block's order for JSON and eucalypt output), the same nesting and the same scalars, whatever characters they contain; a value the format cannot hold is an error. Nothing in a string or key can change the structure of the document.",
  ["inputs", "configurations"], "all short strings as values and keys, all integers, small nested structures",
  "Tests render tame samples; a missing escape shows for single code points.",
  ["src/export/json.rs", "src/export/toml.rs", "src/export/edn.rs", "src/export/text.rs", "src/export/table.rs"], [("emitters", "src/export")], ["bytes written by an emitter"])
p("C08", "Rendered markup cannot be broken out of",
  "Rendering a document as HTML or markup escapes every text and attribute value so that reading the output back gives the same element tree, text and attributes, for all text (raw-text elements such as script and style, and carriage returns and NUL, which HTML cannot carry, aside). No string value introduces an element, attribute or comment of its own.",
  ["inputs"], "all short strings in text and attribute positions",
  "Tests render tame text; unescaped characters show only for particular values.",
  ["src/export/html.rs", "src/export/markup.rs"], [("HTML emitter", "src/export/html.rs")], ["bytes written by the emitter"])
p("C09", "Imports are faithful and never crash",
  "Importing any CSV, TOML, XML, EDN or text input either gives data with exactly the records, keys, order and scalars of the input, or reports an error; it never crashes, hangs or silently drops or invents data.",
  ["inputs"], "all short inputs over each format's special characters",
  "Tests import well-formed samples; the space of malformed and unusual inputs is unbounded.",
  ["src/import/csv.rs", "src/import/toml.rs", "src/import/xml.rs", "src/import/edn.rs", "src/import/text.rs"], [("importers", "src/import")], ["core expression or error"])
p("C10", "Garbage collection does not change results",
  "Whenever collection happens, and with or without evacuation, a program's rendered result or error is the one it has with no collection at all, and live data is never reclaimed, moved without update, or overlapped by new allocations.",
  ["schedules", "inputs", "histories"], "collection at any allocation point; all block/line occupancy patterns",
  "Tests collect where their heap happens to fill; a missed root shows only if a collection falls in one window.",
  ["src/eval/memory", "src/eval/machine", "src/eval/bytecode"], [("mark and evacuate", "src/eval/memory/collect.rs"), ("line-marking allocation", "src/eval/memory/heap.rs")], ["render events with collection forced"])
p("C11", "Optimisation settings do not change results",
  "Inlining, the STG optimiser, demand analysis, update suppression where semantically neutral, and instruction pre-decoding affect only speed: any program that terminates gives the same rendered result, or the same kind of error, under every combination.",
  ["configurations", "programs", "inputs"], "all settings combinations over families of programs with symbolic data",
  "Tests run the default settings; a miscompilation needs a program shape and data that meet one pass's conditions.",
  ["src/core/inline", "src/core/transform", "src/core/simplify", "src/eval/stg/optimiser.rs", "src/eval/bytecode"], [("core passes", "src/core/inline"), ("STG compiler", "src/eval/stg/compiler.rs")], ["render events under each configuration"])
p("C12", "Operators bind by declared precedence and associativity",
  "In any expression over infix, prefix and postfix operators, including user-declared ones, evaluation groups operands by the declared precedence and associativity, and catenation and calls bind as documented; equal-precedence operators of one associativity group consistently. Every soup either has that unique reading or is rejected with an error.",
  ["programs", "inputs"], "all expressions up to a length bound with all precedences and associativities",
  "Tests use fixed expressions of the prelude operators; the shunting logic depends on relative precedences of neighbours.",
  ["src/core/cook", "src/core/metadata.rs"], [("operator cooking", "src/core/cook")], ["value of an expression"])
p("C13", "Block operations keep their algebra",
  "Merging blocks takes the right-hand value for a shared key, keeps every other key, and keeps first-occurrence order; deep merge does so recursively; lookup finds exactly the keys present, and elements/keys/values/update operations agree with lookup. This holds however the block was built, as long as its keys are distinct.",
  ["inputs", "histories"], "small blocks with symbolic values and all key-overlap patterns",
  "Tests merge fixed blocks; indexing, overlap and order interact.",
  ["src/eval/stg/block.rs", "lib/prelude.eu"], [("block intrinsics", "src/eval/stg/block.rs")], ["rendered values and key order"])
p("C14", "List and sorting functions meet their contracts",
  "Sorting returns an ordered, stable permutation of its input; take, drop, split, reverse, append, zip, filter, fold and indexing functions satisfy their defining equations for all lists, numbers of elements and indices, including empty lists and out-of-range indices, which give the documented result or error.",
  ["inputs"], "lists up to a length bound with symbolic elements and indices",
  "Tests use fixed lists; ties, boundaries and negative counts form combinations.",
  ["src/eval/stg/list.rs", "lib/prelude.eu"], [("list intrinsics and prelude", "lib/prelude.eu")], ["rendered lists"])
p("C15", "Sets and arrays hold exactly what was put in",
  "A set contains exactly the distinct values it was built from, union, intersection, difference and membership agree with each other, and numbers keep their exact value through sets; array indexing, shaping, slicing and element-wise operations agree with the corresponding list operations, with errors rather than wrong cells for bad shapes and indices.",
  ["inputs", "histories"], "small sets and arrays with symbolic elements and indices",
  "Tests use a few small integers; value collapse and index arithmetic errors need extreme values.",
  ["src/eval/stg/set.rs", "src/eval/stg/array.rs", "src/eval/memory/set.rs", "src/eval/memory/ndarray.rs"], [("set representation", "src/eval/memory/set.rs"), ("array representation", "src/eval/memory/ndarray.rs")], ["rendered values"])
p("C16", "Seeded random streams are deterministic and in range",
  "The same seed always gives the same random numbers and different calls with the same stream agree; every random float lies in [0, 1), every random integer lies in the requested range, and shuffles and samples are permutations and subsets. No seed or bound crashes.",
  ["inputs"], "all 64-bit seeds and bounds",
  "Tests use a few seeds; range errors show only for bounds or draws at extremes.",
  ["src/eval/stg/prng.rs", "lib/prelude.eu"], [("SplitMix intrinsic", "src/eval/stg/prng.rs")], ["rendered numbers"])
p("C17", "Dates and times are exact and round-trip",
  "Converting a date-time to fields, epoch seconds or text and back gives the same instant and offset; ordering of date-times is ordering of instants; impossible dates, times or zones are rejected with an error, never a crash or another date.",
  ["inputs"], "all years/months/days/times/offsets in range and beyond; short zone texts",
  "Tests convert a few dates; leap years, offsets and range ends matter.",
  ["src/eval/stg/time.rs"], [("date-time intrinsics", "src/eval/stg/time.rs")], ["rendered values"])
p("C18", "Evaluation is lazy and bindings are lexical",
  "A value that is not needed for the output is never evaluated: an error or non-termination in an unused binding, block value, list element or unselected branch does not affect the result. Every name refers to its lexically nearest binding whatever passes run.",
  ["programs", "inputs"], "families of programs with symbolic conditions and error positions",
  "Tests check fixed cases; strictness introduced by an optimiser shows only for particular shapes.",
  ["src/core", "src/eval/stg/compiler.rs", "src/core/analyse_demand.rs"], [("lazy STG compilation", "src/eval/stg/compiler.rs")], ["rendered result or error"])
p("C19", "The type lattice is consistent",
  "Subtyping (consistency) is reflexive, respects the top, bottom and unknown types, and agrees with unions; unification and substitution terminate and a parsed type annotation prints back to text that parses to the same type. No type text crashes the checker.",
  ["inputs"], "all types up to a depth bound; all short type texts",
  "Tests check selected pairs; the algebra has combinatorially many.",
  ["src/core/typecheck"], [("type relations", "src/core/typecheck")], ["relation results, printed types"])
p("C20", "Editor positions map exactly to source text",
  "Every byte offset on a character boundary of a document converts to a line and UTF-16 column and back to itself, and every client position converts to an offset inside the document; no document or position crashes the server.",
  ["inputs"], "all short texts with all newline and surrogate patterns; all positions",
  "Tests use ASCII; surrogate pairs, CRLF and positions past the end are combinations.",
  ["src/driver/lsp"], [("position mapping", "src/driver/lsp")], ["offsets and positions"])
p("C21", "Serialised programs and messages decode to themselves",
  "Whatever the tool serialises of its own data and reads back - render events, compiled program forms and wire values - decodes to the same data; damaged or truncated bytes give an error and never a crash or a different valid program.",
  ["inputs", "fault_sequences"], "all short byte strings; all scalar values",
  "Tests round-trip a few values and never feed damaged bytes.",
  ["src/eval/bytecode", "src/eval/stg/wire_format.rs", "src/core/export"], [("wire format", "src/eval/bytecode")], ["decoded values"])
p("C22", "No argument makes a built-in crash the process",
  "Applying any built-in function to arguments of any type and value gives a result or a reported error with evaluation terminated cleanly; it never panics, aborts, overflows an index or loops without allocating.",
  ["inputs"], "every built-in with scalar, list, block, symbol, date, set and array arguments including extreme numbers",
  "Tests call built-ins with well-typed small arguments.",
  ["src/eval/stg"], [("argument checks in intrinsics", "src/eval/stg/support.rs")], ["process outcome"])
exec(open(os.path.join(HERE, "tools/props_extra.py")).read()) if os.path.exists(os.path.join(HERE, "tools/props_extra.py")) else None

TECH = "symbolic execution of the code's LLVM bitcode (eusym) with z3 deciding every branch and assertion over all inputs in the bounds; counterexamples replayed natively"
NA = json.load(open(os.path.join(HERE, "tools/not_applicable.json")))
have = {x["id"] for x in P}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        for a in x["anchors"]["files"]:
            if not os.path.exists(os.path.join("/repo", a)):
                print("missing anchor", x["id"], a)
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
assert set(CHECKS) <= have
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": c, "quick_cmd": f"python3 run.py {c} --tier quick", "thorough_cmd": f"python3 run.py {c} --tier thorough",
                 "technique": TECH, "level": "model_checking", "level_note": CHECKS[c].get("note", "bounded: " + CHECKS[c].get("bounds", ""))} for c in sorted(CHECKS)],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no solver-based check of this property was completed")} for i in sorted(have - set(CHECKS))]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")
