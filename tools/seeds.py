A = "src/eval/stg/arith.rs"
SEEDS = {
    "c01-mul-fast": ("C01", A, [("""            let product = l.checked_mul(r).ok_or(ExecutionError::NumericRangeError(
                machine.annotation(),
                x,
                y,
            ))?;
            machine_return_num(machine, view, Number::from(product))
        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
            let product""", """            // operands of at most 32 bits need no overflow check
            let narrow = |v: i64| v.unsigned_abs() >> 32 == 0;
            let product = if narrow(l) && narrow(r) {
                l.wrapping_mul(r)
            } else {
                l.checked_mul(r).ok_or(ExecutionError::NumericRangeError(
                    machine.annotation(),
                    x,
                    y,
                ))?
            };
            machine_return_num(machine, view, Number::from(product))
        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
            let product""")],
        "two factors that each fit 32 bits and whose product is 2^63 or more", "such products wrap to a negative number instead of giving an error",
        [("r: 4294967295 * 4294967295", "error"), ("r: 65536 * 65536", 'Num(Number(4294967296))')]),
    "c01-floormod-sign": ("C01", A, [("""    let r = a.checked_rem(b)?;
    if r != 0 && ((r ^ b) < 0) {""", """    let r = a.checked_rem(b)?;
    if r != 0 && r.wrapping_mul(b) < 0 {""")],
        "a remainder and divisor of opposite sign whose product leaves the i64 range", "the remainder keeps the dividend's sign where the product of remainder and divisor wraps to a positive number",
        [("r: -3000000001 % 4000000000", 'Num(Number(999999999))'), ("r: -7 % 3", 'Num(Number(2))')]),
    "c02-str-prefix": ("C02", A, [("""            Ok(pred(ls.as_str().cmp(rs.as_str())))""", """            // compare the common length first, then by length
            let n = ls.as_str().len().min(rs.as_str().len());
            let head = ls.as_str()[..n].cmp(&rs.as_str()[..n]);
            Ok(pred(head.then(ls.as_str().len().cmp(&rs.as_str().len()))))""")],
        "strings of different length where a multi-byte character straddles the length of the shorter", "comparing them crashes instead of answering",
        [('r: "a" < "é"', 'Bool(true)'), ('r: "ab" < "b"', 'Bool(true)')]),
    "c02-pair-eq": ("C02", "src/eval/stg/eq.rs", [("""                                            value(Eq.global(lref(0), lref(4))),
                                            value(Eq.global(lref(1), lref(5))),
                                        ],
                                        And.global(lref(2), lref(3)),""", """                                            value(Eq.global(lref(0), lref(4))),
                                            value(Eq.global(lref(0), lref(4))),
                                        ],
                                        And.global(lref(2), lref(3)),""")],
        "comparing a block built from a list of pairs (on the left) with a literal block of the same keys but other values", "they compare equal although their values differ",
        [("r: block([[:a, 1]]) = {a: 2}", 'Bool(false)'), ("r: block([[:a, 1]]) = {a: 1}", 'Bool(true)')]),
    "c07-toml-edge": ("C07", "src/export/toml.rs", [("        Some(u) if !n.is_i64() => Some(", "        Some(u) if u > 1 << 63 => Some(")],
        "the integer 2^63 rendered as TOML", "it is written as a float instead of being refused",
        [('r: {a: 9223372036854775808} render-as(:toml)', "error"), ('r: {a: 5} render-as(:toml)', 'Str("a = 5\\n\\n")')]),
    "c07-json-key": ("C07", "src/export/json.rs", [("""        self.as_str()
            .map(|s| s.to_string())
            .unwrap_or_else(|| self.to_string())""", """        let written = self.to_string();
        let n = written.len();
        if written.starts_with('"') {
            written[1..n - 1].to_string()
        } else {
            written
        }""")],
        "a block key with a quote, backslash or control character rendered as JSON", "the key is escaped twice, so a reader gets another key",
        [("r: block([[:'a\"b', 1]]) render-as(:json)", 'Str("{\\n  \\"a\\\\\\"b\\": 1\\n}\\n")')]),
    "c08-comment": ("C08", "src/export/html.rs", [("""                Item::Content(t) => serializer.write_text(t)?,""", """                Item::Content(t) => match t.strip_prefix("<!--").and_then(|r| r.strip_suffix("-->")) {
                    Some(comment) => serializer.write_comment(comment)?,
                    None => serializer.write_text(t)?,
                },""")],
        "a text that starts with <!-- and ends with -->", "it is written as a comment instead of text",
        [('r: [:p, "<!-- x -->"] render-as(:html)', 'Str("<!DOCTYPE html><p>&lt;!-- x --&gt;</p>\\n")')]),
    "c08-attr-false": ("C08", "src/export/markup.rs", [("""            Expectation::OddAttrAccumulation(attrs, k) => {
                *self = {
                    attrs.push((k.clone(), value));""", """            Expectation::OddAttrAccumulation(attrs, k) => {
                *self = {
                    // an empty attribute reads as its own name (<input disabled>)
                    let value = if value.is_empty() { k.clone() } else { value };
                    attrs.push((k.clone(), value));""")],
        "an attribute whose value is the empty string", "it is written with its name as its value",
        [('r: [:img, {alt: ""}] render-as(:html)', 'Str("<!DOCTYPE html><img alt=\\"\\">\\n")')]),
    "c03-reserved-wide": ("C03", "src/syntax/rowan/lex.rs", [("""            Some((i, c)) => Some((
                ERROR_RESERVED_CHAR,
                Span::new(i, i + ByteOffset::from_char_len(c)),
            )),""", """            Some((i, _)) => Some((ERROR_RESERVED_CHAR, Span::new(i, i + ONE_BYTE))),""")],
        "a character outside ASCII that the language reserves", "the parser crashes on it instead of reporting it",
        ("parse.rs", ["x: \u200b 1", "x: \x01 1"])),
    "c03-format-space": ("C03", "src/syntax/rowan/string_lex.rs", [("""            _ if self.in_interpolation => {
                if self.in_format_spec {
                    Some(self.format_content(start))
                } else {
                    Some(self.interpolation_content(start))
                }
            }
            _ => {
                // Regular literal content
""", """            _ if self.in_interpolation => {
                if self.in_format_spec {
                    let spec = self.format_content(start);
                    // whitespace between the format and the closing brace is insignificant
                    let text = spec.2.trim_end();
                    Some((spec.0, self.make_span(start, start + ByteOffset(text.len() as i64)), text))
                } else {
                    Some(self.interpolation_content(start))
                }
            }
            _ => {
                // Regular literal content
""")],
        "whitespace after the format of an interpolation", "the whitespace vanishes from the syntax tree",
        ("parse.rs", ["x: \"{y:%d}\"", "x: \"{y:%d }\""])),
    "c04-trim-token": ("C04", "src/syntax/export/format.rs", [("""                // Update line_col tracking
                for c in text.chars() {""", """                // no token leaves trailing whitespace on its line
                let text = text.trim_end_matches(' ');
                for c in text.chars() {""")],
        "a string with an interpolation preceded by a space, formatted without reflowing", "the space inside the string is dropped",
        ("fmt.rs", ["keep", 'x: "a {b} c"\n', 'x: "a {b} c"\n', "keep", "x:\ta\n", "x:      a\n"])),
    "c05-long-escape": ("C05", "src/core/desugar/escape.rs", [("""                    let hex = read_hex_digits(&mut chars, 8)?;
                    let code_point = u32::from_str_radix(&hex, 16)
                        .map_err(|_| EscapeError::TruncatedEscape(format!("\\\\U{}", hex)))?;
                    let c = char_from_code_point(code_point)?;""", """                    let hex = read_hex_digits(&mut chars, 8)?;
                    let code_point = u32::from_str_radix(&hex, 16)
                        .map_err(|_| EscapeError::TruncatedEscape(format!("\\\\U{}", hex)))?;
                    let c = char_from_code_point(code_point & 0x1f_ffff)?;""")],
        "a long code point escape beyond U+1FFFFF", "it denotes some character of Unicode instead of being refused",
        [('r: c"\\U00200041"', "error"), ('r: c"\\U0001F600" str.len', 'Num(Number(1))')]),
    "c06-hex-float": ("C06", "src/eval/stg/printf.rs", [("""                Specifier::Hex => {
                    if let Some(i) = num.as_i64() {""", """                Specifier::Hex => {
                    // whole floats are fine too
                    if let Some(i) = num.as_f64().filter(|f| f.fract() == 0.0).map(|f| f as i64) {""")],
        "an integer beyond 2^53 formatted as lower-case hexadecimal", "its last bits are lost",
        [('r: str.fmt(9007199254740993, "%x")', 'Str("20000000000001")'), ('r: str.fmt(255, "%x")', 'Str("ff")')]),
    "c13-deep-order": ("C13", "src/eval/stg/block.rs", [("""            if let Some(ov) = merge.get_mut(&key) {
                let combined = machine.apply2_thunk(view, f.clone(), ov.clone(), nv)?;
                *ov = combined;
            } else {""", """            if let Some(ov) = merge.shift_remove(&key) {
                let combined = machine.apply2_thunk(view, f.clone(), ov, nv)?;
                merge.insert(key, combined);
            } else {""")],
        "a deep merge that overrides a key which is not the left block's last", "the key moves to the end instead of keeping its place",
        [('r: ({a: 1 b: 2} << {a: 3}) keys', '[ Sym("a") Sym("b") ]')]),
    "c14-short-chunk": ("C14", "lib/prelude.eu", [("""(if(count(l) <= step, [], l drop(step))) window-all(n, step)""", """(if((count(chunk) < n) ∨ (count(l) <= step), [], l drop(step))) window-all(n, step)""")],
        "window-all with a step smaller than the window by two or more", "the chunks after the first short one are missing",
        [('r: [1, 2, 3] window-all(3, 1)', '[ [ Num(Number(1)) Num(Number(2)) Num(Number(3)) ] [ Num(Number(2)) Num(Number(3)) ] [ Num(Number(3)) ] ]'), ('r: [1, 2, 3] window-all(2, 1) count', 'Num(Number(3))')]),
    "c15-reshape-order": ("C15", "src/eval/memory/ndarray.rs", [("""        let flat: Vec<f64> = self.data.iter().copied().collect();
        Self::from_flat(new_shape, flat)""", """        // one copy of the storage where it is contiguous
        let flat: Vec<f64> = match self.data.as_slice_memory_order() {
            Some(cells) => cells.to_vec(),
            None => self.data.iter().copied().collect(),
        };
        Self::from_flat(new_shape, flat)""")],
        "reshaping an array that has been transposed", "the elements come in the order of the untransposed array",
        [('r: [1, 4, 2, 5, 3, 6] = ((arr.transpose(arr.from-flat([2, 3], [1, 2, 3, 4, 5, 6])) arr.reshape([6])) arr.to-list)', 'Bool(true)'), ('r: [1, 2, 3, 4, 5, 6] = ((arr.from-flat([2, 3], [1, 2, 3, 4, 5, 6]) arr.reshape([6])) arr.to-list)', 'Bool(true)')]),
    "c16-float-one": ("C16", "src/eval/stg/stream_prng.rs", [("""        let float_val = (z >> 11) as f64 / ((1u64 << 53) as f64);
        machine_return_float_stream(""", """        let float_val = (z >> 10) as f64 / ((1u64 << 54) as f64);
        machine_return_float_stream(""")],
        "a draw whose output word has 54 leading ones", "the float is 1.0, outside [0, 1)",
        [('r: (random.stream(3558559446808474027) random.float).value < 1', 'Bool(true)'), ('r: (random.stream(42) random.float).value < 1', 'Bool(true)')]),
    "c12-prefix-reseat": ("C12", "src/core/cook/shunt.rs", [("""                        } else if this_prec < top_prec {
                            self.drop_op();
                            self.apply_op(top.clone());
                            self.seat_op(op);
                        } else {
                            self.push_op(op);
                        }
                    }
                    _ =>""", """                        } else {
                            if this_prec < top_prec {
                                // complete the prefix operator's operand first
                                self.drop_op();
                                self.apply_op(top.clone());
                            }
                            self.push_op(op);
                        }
                    }
                    _ =>""")],
        "a prefix operator inside a chain of left associative infix operators", "what follows the prefix operator's operand groups to the right",
        [('` { precedence: 90 }\n(-| x): 0 - x\nr: 10 - -| 3 - 2', 'Num(Number(11))'), ('r: 10 - 3 - 2', 'Num(Number(5))')]),
    "c12-map-level": ("C12", "src/core/metadata.rs", [('        "map" => Some(42),', '        "map" => Some(40),')],
        "an operator at the map level to the right of one at the eq level", "the equality is taken first",
        [('` { precedence: :map }\n(x <&> y): x + y\nr: 5 = 2 <&> 3', 'Bool(true)'), ('` { precedence: :map }\n(x <&> y): x + y\nr: 2 <&> 3 = 5', 'Bool(true)')]),
    "c17-offset-sign": ("C17", "src/eval/stg/time.rs", [("""        let tz = dt.offset().to_string().replace(':', "");""", """        let minutes = dt.offset().local_minus_utc() / 60;
        let tz = format!("{:+03}{:02}", minutes / 60, (minutes % 60).abs());""")],
        "the fields of a time west of UTC by less than an hour", "its offset field is east of UTC",
        [('r: (cal.fields(t"2023-01-01T00:00:00-00:30")).Z', 'Str("-0030")'), ('r: (cal.fields(t"2023-01-01T00:00:00-03:30")).Z', 'Str("-0330")')]),
    "c09-xml-gap": ("C09", "src/import/xml.rs", [("""                    let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
                    text_buf.push_str(&decoded);
                }
                Ok(Event::CData""", """                    let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
                    // layout between elements is not content
                    if !decoded.trim().is_empty() {
                        text_buf.push_str(&decoded);
                    }
                }
                Ok(Event::CData""")],
        "XML text with nothing but space between two references", "the space is lost",
        [('r: "<a>&lt; &gt;</a>" parse-as(:xml) nth(2)', 'Str("< >")'), ('r: "<a>b &gt;</a>" parse-as(:xml) nth(2)', 'Str("b >")')]),
    "c09-csv-ragged": ("C09", "src/import/csv.rs", [("""        .has_headers(true)
""", """        .has_headers(true)
        .flexible(true)
""")],
        "a CSV row with more or fewer fields than the header", "it is accepted and cut instead of refused",
        [('r: c"a,b\\n1,2,3\\n" parse-as(:csv)', 'error'), ('r: (c"a,b\\n1,2\\n" parse-as(:csv) head).b', 'Str("2")')]),
    "c11-extra-args": ("C11", "src/core/inline/reduce.rs", [("""                    if binders.len() != xs.len() {
                        // cannot inline partial application or extra
                        // args for now""", """                    if binders.len() > xs.len() {
                        // cannot inline partial application for now""")],
        "an inlined function applied to more arguments than it has parameters", "the further arguments are dropped",
        [("r: { k(f, z): f r: k(inc, 0, 4) }.r", "Num(Number(5))"), ("r: const(- 3, 1, 9)", "Num(Number(6))")], "DEMO_COMMAND=1"),
    "c18-scale-strict": ("C18", "src/core/demand.rs", [("""            (crate::core::demand::Strictness::Strict, crate::core::demand::Strictness::Strict) => {
                crate::core::demand::Strictness::Strict
            }
            (crate::core::demand::Strictness::Lazy, _)
            | (_, crate::core::demand::Strictness::Lazy) => crate::core::demand::Strictness::Lazy,""", """            (crate::core::demand::Strictness::Strict, _) => crate::core::demand::Strictness::Strict,
            (crate::core::demand::Strictness::Lazy, _)
            | (_, crate::core::demand::Strictness::Lazy) => crate::core::demand::Strictness::Lazy,""")],
        "a value needed by an expression which is itself only needed sometimes, in the command's pipeline", "it is evaluated when it is not needed",
        [("r: { o: panic(\"no\") r: { i: o + 1 j: if(5 > 300, i, 5) }.j }.r", "Num(Number(5))"), ("r: { f(o): { i: o + 1 j: if(5 > 300, i, 5) }.j r: f(panic(\"no\")) }.r", "Num(Number(5))")], "DEMO_COMMAND=1"),
}
