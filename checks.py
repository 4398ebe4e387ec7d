"""What each check runs: harness binary, entry points, goals that must be reached, bounds."""
CHECKS = {
    "C01": {
        "entries": ["h_int_binary", "h_int_wide", "h_int_wide_mul", "h_int_wide_div", "h_int_unary", "h_bits", "h_float_floor"],
        "bounds": "operands: every pair of i64 (add, subtract, flooring and truncating divide, remainder, modulo, shifts, masks), i64 x u64 above i64::MAX, products with a factor of few symbolic bits over full-width ranges, floors of doubles given by sign, exponent and some mantissa bits",
        "outside": "multiplication and division of two full-width symbolic operands at once (products are decided where one side is narrow or a wide constant), pow, float arithmetic other than flooring (IEEE by construction)",
    },
    "C02": {
        "entries": ["h_int", "h_uint", "h_mixed_sign", "h_float", "h_int_float", "h_string", "h_minmax", "h_structural", "h_kinds", "h_kinds_order"],
        "bounds": "pairs and triples of i64/u64, doubles, integer against double, strings of up to 2 characters of one to four bytes, lists/blocks/sets/arrays/vecs of up to 3 small symbolic elements, all pairs of value kinds",
        "outside": "longer strings and structures; NaN, which eucalypt cannot write; date-time ordering (C17)",
    },
    "C07": {
        "entries": ["h_json", "h_edn", "h_toml", "h_toml_mixed", "h_eu", "h_text", "h_words", "h_int", "h_uint"],
        "bounds": "strings and keys of up to 2 characters (every ASCII byte, and one character from every UTF-8 length), structure-like words, nested blocks and lists to depth 2, every i64/u64; read back by independent readers of JSON, EDN, TOML, eucalypt and text in the harness",
        "outside": "longer strings; floats (formatting doubles is not encoded); YAML (absent from this build); terminal table export; streaming of outputs larger than a buffer",
    },
    "C08": {
        "entries": ["h_text", "h_attr", "h_tree", "h_void", "h_special"],
        "bounds": "texts and attribute values of up to 2 characters (all ASCII, one character of each longer UTF-8 length), markup-like fragments, element trees of depth 3; read back by a small HTML reader in the harness",
        "outside": "script, style and other raw-text elements, NUL and carriage return, tag and attribute names that are not names",
    },
    "C03": {
        "entries": ["h_short", "h_context", "h_context_wide", "h_edit"],
        "bounds": "all ASCII texts of up to 3 bytes (thorough 4), all 1-2 byte (thorough 3) ASCII fragments inside 24 constructs of the language, 8 (thorough 16) multi-byte characters beside any ASCII byte in each construct, every one-byte edit of a sample program",
        "outside": "longer symbolic texts; other multi-byte characters (Unicode tables are not encoded symbolically)",
        "covers": {"h_context": list(range(24)), "h_context_wide": list(range(24)), "h_edit": [0, 1, 2]},
    },
    "C04": {
        "entries": ["h_reformat", "h_conservative"],
        "bounds": "36 constructs of the language (declarations and heads of every kind, metadata, lists, cons patterns, blocks, strings, comments in every position, CRLF) with every 1-byte (thorough 2) ASCII text in a hole of each, conservative and reformatting at widths 0, 12, 30, 80",
        "outside": "longer symbolic texts, non-ASCII characters, other widths and indents, range formatting",
        "covers": {"h_reformat": list(range(36)), "h_conservative": list(range(36))},
    },
    "C05": {
        "entries": ["h_code_point", "h_escape", "h_plain", "h_interpolate", "h_functions", "h_base64", "h_split"],
        "bounds": "every pair of ASCII characters in 9 code point escapes, after a backslash, and in plain and raw strings (thorough 3 characters) beside multi-byte text and brace escapes; 12 interpolation templates and 11 string functions over texts of up to 2 bytes of UTF-8; base64 decoding of every 3 (thorough 4) ASCII characters; split, replace, contains and shell-escape over 2 ASCII characters",
        "outside": "longer texts, other regular expressions, str.matches? (documented unanchored), Unicode case mapping",
    },
    "C06": {
        "entries": ["h_integer", "h_radix", "h_parse", "h_literal", "h_spec"],
        "bounds": "windows of 256 integers around the powers of two and ten that matter (12 for decimal, 7 for radix) in 12 renderings; one symbolic ASCII character in 16 numeric texts, 10 format specifications on four kinds of value; any digit in 10 literals",
        "outside": "formatting of doubles (width and acceptance only), integers outside the windows, texts with more than one symbolic character",
        "covers": {"h_parse": list(range(16)), "h_literal": list(range(10)), "h_spec": list(range(10))},
    },
    "C13": {
        "entries": ["h_merge", "h_lookup", "h_update", "h_deep", "h_many"],
        "bounds": "a block of three keys built in 11 ways (literal, list of pairs, merges, catenation, deep merge, dissoc, set-value, map-values, zip-kv, map-keys, with metadata) with symbolic values, against every pair of 5 keys (quick: 4 pairs for all but the literal), 39 expressions; deep merges of two blocks of two keys each absent, number, list, block, nested or empty block; blocks of 20 keys built in 3 ways",
        "outside": "blocks with duplicate keys (block() of such a list: lookup takes the first, merge the last, rendering shows both), larger blocks",
    },
    "C14": {
        "entries": ["h_index", "h_whole", "h_compare"],
        "bounds": "lists of 0 to 4 numbers in a window of 64 above 2^53, indices and counts -2..6, window sizes 1..6, 58 expressions",
        "outside": "longer lists, other element kinds than numbers (C02 decides their order), infinite lists, non-positive window sizes",
    },
    "C15": {
        "entries": ["h_number", "h_set", "h_array_index", "h_array_whole", "h_array_extreme", "h_vec"],
        "time": [300, 3000],
        "bounds": "order, equality and hash of number keys in sets for every pair of i64/u64, every pair of doubles, and integers against doubles from six windows of 256; sets of 3 picks from a universe of 7 (thorough 12) values including 2^53 and 2^53+1, 1, 1.0 and \"1\"; arrays of 6 shapes with symbolic cells 1..255, indices -1..3, 31 expressions; 9 extreme numbers as shapes and indices; vecs of 0 to 4 elements, indices -2..4",
        "outside": "fractional indices (truncated), integers an f64 array cannot hold, offsets of the wrong length, larger structures",
    },
    "C16": {
        "entries": ["h_float", "h_float_range", "h_int", "h_choose"],
        "time": [300, 3000],
        "bounds": "every 64-bit seed for 8 expressions drawing floats; random.range over all output words for its bounds; integers under 12 bounds for every seed; shuffle, sample and choice for windows of 256 seeds (thorough 3), counts -1..5",
        "outside": "random.int with n <= 0 or a fractional bound, seeds that are floats, statistical quality",
    },
    "C12": {
        "entries": ["h_soup", "h_infix", "h_mixed", "h_prelude", "h_levels"],
        "time": [300, 3000],
        "bounds": "every sequence of up to 4 (thorough 5) values and operators (infix left and right, prefix, postfix, nullary) with any precedences 0..255, gaps and catenation included; chains of 4 (thorough 5) infix operators; 2 (thorough 3) infix operators with prefix and postfix operators around each operand; every pair of 45 documented prelude operators; declarations at each of 17 named levels and none against the level below, equal and above in each associativity, outside and inside a block that shadows other precedences",
        "outside": "longer soups; which of two different associativities of equal precedence wins; calls and lookups beside operators (C03, C04 and the value checks use them); explicit anaphora",
    },
    "C11": {
        "entries": ["h_lazy", "h_scope", "h_wrong", "h_lib"],
        "time": [300, 3000],
        "bounds": "two symbolic integers 0..255 in the programs of harness/src/progs.rs (89 about laziness, 84 about scope, 18 that fail, 69 of the prelude's library), each under the reference setting (no passes, no optimiser, no inlining) and 2 others (quick) or all 13 settings (thorough): default pipeline, the command's pipeline with each optional pass off, byte-coded instead of pre-decoded instructions, update suppression where it cannot change results",
        "outside": "other programs, the precompiled prelude, parallel evaluation, update suppression for self-dependent definitions and for programs whose work it repeats exponentially",
    },
    "C18": {
        "entries": ["h_lazy", "h_scope", "h_wrong", "h_lazy_command", "h_scope_command", "h_wrong_command"],
        "time": [300, 3000],
        "bounds": "two symbolic integers 0..255 in 89 programs about what is evaluated, 84 about which binding a name denotes, and 15 (18 paths) that must fail, each with its independently computed value, in the library's default pipeline and in the command's pipeline (scope splitting, hoisting, dead code removal, inlining, fusion, demand analysis, reflattening)",
        "outside": "other programs, IO, the precompiled prelude (its hand-written demand signatures are used only there)",
    },
    "C17": {
        "entries": ["h_components", "h_epoch", "h_text", "h_zone"],
        "time": [300, 3000],
        "bounds": "dates and times from components: any day, hour, minute or second near its limits, over 14 years from the first to the last representable (leap, common, century, negative), every month number 0..13, 12 offset texts: accepted exactly when possible, fields, text, parsed text, fields put together again, order and sorting against an independent calendar; unix timestamps in 12 windows of 256 including both ends of the range; 7 ISO 8601 texts with any two adjacent ASCII characters replaced, read by cal.parse and as literals; four named zones at every hour of days of change",
        "outside": "zones whose offset is not whole minutes (an error), lenient forms chrono accepts beside ISO 8601, sub-nanosecond fractions, the time of the clock",
    },
    "C09": {
        "entries": ["h_csv", "h_csv_write", "h_text", "h_toml", "h_back", "h_edn", "h_edn_forms", "h_edn_char", "h_xml", "h_xml_malformed", "h_xml_write", "h_stream", "h_run"],
        "time": [300, 3000],
        "bounds": "any 1-2 (thorough 3) ASCII characters in 7 CSV, 14 TOML, 16 EDN and 14 XML templates, read by the importer as independent readers in the harness read them; records, texts and attributes of any character beside multi-byte ones, written as the standards say; TOML and EDN exports of 4 documents with any text or key imported back; 12 EDN forms and 12 malformed XML documents; text of up to 4 ASCII characters; text, CSV and JSON-lines streams of 3 symbolic characters against the whole import, and 4 formats with 12 unusual keys, evaluated",
        "outside": "YAML, JSON and JSON-lines whole imports (their parser is absent from this build), deep nesting, inputs that are not UTF-8, git imports, a bare CSV header repeated (known finding), TOML dates (C17), the order of EDN maps (the standard has none), XML namespaces and declared entities",
        "covers": {"h_csv": list(range(7)), "h_toml": list(range(14)), "h_edn": list(range(16)), "h_xml": list(range(14)), "h_run": [0, 1, 2, 3]},
    },
    "C20": {
        "entries": ["h_offsets", "h_client", "h_change", "h_document", "h_place"],
        "bounds": "every UTF-8 text of up to 4 bytes (thorough 5; client positions and edits 3, thorough 5) in 4 surroundings with CRLF and surrogate pairs, every offset both ways in each of the three conversions; client positions line {0,1,2,5,max} x character {0,1,2,3,7,max}; edits between any two offsets and beyond line and text ends, with any replacement of up to one byte; 20 documents with any ASCII character in a hole, every handler at every position: no panic, every range inside the document and ordered, edits apply cleanly",
        "outside": "a lone carriage return as a line ending, longer texts, answers that depend on the type environment or on the prelude's symbol table, the message loop and its threads",
        "covers": {"h_document": list(range(20)), "h_place": list(range(20))},
    },
    "C10": {
        "entries": ["h_lazy", "h_scope", "h_nested", "h_lib"],
        "time": [300, 3000],
        "bounds": "two symbolic integers 0..255 in 89 programs about laziness, 84 about scope, 29 nested ones (built-ins that evaluate, metadata, many objects) and 69 of the library, run step by step with a collection at every 41st step (library: every 307th), two of three moving everything that is not pinned and the third freeing in place, collections at every third step of evaluations started by built-ins, and one at the end; thorough: every 11 steps with each of 11 phases, moving or in place throughout",
        "outside": "other schedules and programs, objects larger than a block, IO, emergency collection when the heap limit is reached",
    },
}
