//! Numbers as text
use euh::docs::decimal;
use euh::pipe::*;
use euh::*;
use eucalypt::eval::primitive::Primitive;
use serde_json::Number;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
fn text(o: &Out) -> Result<String, String> {
    match o {
        Out::CompileError(e) => Err(e.clone()),
        o => match scalar(o)? { Primitive::Str(s) => Ok(s), p => Err(format!("{p:?}")) },
    }
}
const DECLS: &str = "` :suppress\nx: \"@0\"";
/// an integer as text, and that text as a number
#[no_mangle]
pub extern "C" fn h_integer() {
    const E: [&str; 12] = [
        r#""@0" str.of"#, r#""{x}""#, r#"str.fmt("@0", "%d")"#, r#""{x:%i}""#, r#"str.fmt("@0", "%u")"#, r#"str.fmt("@0", "%s")"#, r#"str.fmt("@0", "%24d") str.trim"#, r#""{x:%024d}""#,
        r#"str.fmt("@0", "%-24d") str.trim"#, r#"str.fmt("@0", "%+d")"#, r#""@0" str.of num"#, r#""{x:%d}" num"#,
    ];
    // around the powers of two and ten
    let base: [i128; 12] = [-128, i64::MIN as i128, -(1 << 53) - 100, -10_000_100, 900, 99_900, 9_999_999_900, (1 << 53) - 100, 999_999_999_999_999_900, i64::MAX as i128 - 100, 9_999_999_999_999_999_900, u64::MAX as i128 - 255];
    let k = pick("base", 12);
    let v = base[k] + u8v("offset") as i128;
    let lit = match i64::try_from(v) { Ok(i) => nint(i), Err(_) => nuint(v as u64) };
    let (e, out) = select_with(DECLS, &E, &[lit], &prel());
    cover(k as u64); cover(100 + e as u64);
    if e >= 10 {
        check(matches!(scalar(&out), Ok(Primitive::Num(n)) if n.as_i64().map(|i| i as i128).or(n.as_u64().map(|u| u as i128)) == Some(v)), "integer-reads-back");
    } else {
        match text(&out) {
            Ok(t) => { let t = if e == 9 && v >= 0 { t.strip_prefix('+').unwrap_or("?") } else { &t }; 
                if e == 7 { check(t.len() == 24 && zero_decimal(t.as_bytes()) == Some(v), "integer-zero-padded") } else { check(decimal(t.as_bytes()) == Some(v), "integer-as-text") } }
            Err(_) => check(false, "integer-has-text"),
        }
    }
}
fn zero_decimal(b: &[u8]) -> Option<i128> {
    let (neg, b) = if b[0] == b'-' { (true, &b[1..]) } else { (false, b) };
    let mut v = 0i128;
    for &c in b { if !c.is_ascii_digit() { return None; } v = v * 10 + (c - b'0') as i128; }
    Some(if neg { -v } else { v })
}
fn radix(b: &[u8], r: u32) -> Option<u64> {
    let mut v = 0u64;
    for &c in b { v = v.checked_mul(r as u64)?.checked_add((c as char).to_digit(r)? as u64)?; }
    if b.is_empty() { None } else { Some(v) }
}
/// hexadecimal and octal, for every signed integer
#[no_mangle]
pub extern "C" fn h_radix() {
    const E: [&str; 4] = [r#"str.fmt("@0", "%x")"#, r#"str.fmt("@0", "%X")"#, r#"str.fmt("@0", "%o")"#, r#"str.fmt("@0", "%040x")"#];
    let base: [i64; 7] = [0, 200, 65400, -256, i64::MIN, i64::MAX - 255, 1 << 53];
    let v = base[pick("base", 7)] + u8v("offset") as i64;
    let (e, out) = select(&E, &[nint(v)], &prel());
    cover(e as u64);
    match text(&out) {
        Ok(t) => {
            let b = t.as_bytes();
            check(radix(b, if e == 2 { 8 } else { 16 }) == Some(v as u64), "radix-denotes-value");
            match e { 0 => check(t.chars().all(|c| !c.is_ascii_uppercase()), "hex-case"), 1 => check(t.chars().all(|c| !c.is_ascii_lowercase()), "hex-case"), 3 => check(t.len() == 40, "radix-width"), _ => {} }
        }
        Err(_) => check(false, "integer-has-text"),
    }
}
/// JSON's number grammar
fn json_number(b: &[u8]) -> Option<bool> {
    let mut i = 0;
    let d = |i: usize| b.get(i).is_some_and(|c| c.is_ascii_digit());
    if b.first() == Some(&b'-') { i += 1; }
    if !d(i) { return None; }
    if b[i] == b'0' { i += 1 } else { while d(i) { i += 1 } }
    let mut int = true;
    if b.get(i) == Some(&b'.') { int = false; i += 1; if !d(i) { return None; } while d(i) { i += 1 } }
    if matches!(b.get(i), Some(b'e' | b'E')) { int = false; i += 1; if matches!(b.get(i), Some(b'+' | b'-')) { i += 1 } if !d(i) { return None; } while d(i) { i += 1 } }
    if i == b.len() { Some(int) } else { None }
}
fn same(n: &Number, t: &str, int: bool) -> bool {
    match decimal(t.as_bytes()).filter(|_| int && t != "-0") {
        Some(v) if v >= i64::MIN as i128 && v <= u64::MAX as i128 => n.as_i64().map(|i| i as i128).or(n.as_u64().map(|u| u as i128)) == Some(v),
        _ => match t.parse::<f64>() { Ok(f) => n.as_f64().is_some_and(|g| g.to_bits() == f.to_bits()), Err(_) => false },
    }
}
const NUMS: [(&str, &str); 16] = [
    ("", ""), ("", "0"), ("1", ""), ("-", "7"), ("0", "5"), ("1.", "5"), ("1", "5"), ("12.3", ""), ("1e", "2"), ("922337203685477580", ""), ("1844674407370955161", ""), ("-922337203685477580", ""),
    ("1.797693134862315", ""), ("0.00000000000000000000", "1"), ("99999999999999999999", ""), ("1e30", ""),
];
/// text read as a number: the grammar and the value
#[no_mangle]
pub extern "C" fn h_parse() {
    let k = pick("context", 16);
    let d = ascii("text", 1);
    let t = format!("{}{d}{}", NUMS[k].0, NUMS[k].1);
    let out = run("r: __NUMPARSE(\"@0\")", &[Lit::Str(t.clone())], &Opts::default());
    cover(k as u64);
    let huge = |t: &str| t.parse::<f64>().map_or(true, |f| f.is_infinite());
    match (scalar(&out), json_number(t.as_bytes())) {
        (Ok(Primitive::Num(n)), Some(int)) => check(same(&n, &t, int), "numeric-string-value"),
        (Ok(_), _) => check(false, "numeric-string-grammar"),
        (Err(e), Some(_)) => check(e == "numfmt" && huge(&t), "numeric-string-accepted"),
        (Err(e), None) => check(e == "numfmt", "bad-numeric-string-refused"),
    }
}
/// literals in source
#[no_mangle]
pub extern "C" fn h_literal() {
    const L: [(&str, &str); 10] = [("", ""), ("1", ""), ("-1", "3"), ("1.", ""), ("12.0", "5"), ("922337203685477580", ""), ("1844674407370955161", ""), ("-922337203685477580", ""), ("0.1797693134862315", ""), ("1234567890.12345678", "")];
    let k = pick("context", 10);
    let v = u8v("digit");
    assume(v < 10);
    let d = (b'0' + v) as char;
    let t = format!("{}{d}{}", L[k].0, L[k].1);
    let out = run(&format!("r: {t}"), &[], &Opts::default());
    cover(k as u64);
    match scalar(&out) {
        Ok(Primitive::Num(n)) => check(same(&n, &t, !t.contains('.')), "literal-value"),
        _ => check(false, "literal-is-a-number"),
    }
}
/// format specifications: any characters in any part, on any kind of value
#[no_mangle]
pub extern "C" fn h_spec() {
    const S: [(&str, &str); 10] = [("%", ""), ("%", "d"), ("%5", "s"), ("%.", "d"), ("%.2", ""), ("%0", "x"), ("", "%d"), ("%6553", "s"), ("%-", "5d"), ("%.999999999999999999999", "s")];
    let k = pick("context", 10);
    let t = format!("{}{}{}", S[k].0, ascii("text", 1), S[k].1);
    let vals = [nint(-42), Lit::Str("né中e".into()), Lit::Sym("sy".into()), nflt(-1.5)];
    let v = pick("value", 4);
    let out = text(&run("r: __FMT(\"@0\", \"@1\")", &[vals[v].clone(), Lit::Str(t.clone())], &Opts::default()));
    cover(k as u64);
    let b = t.as_bytes();
    let ok = spec(b);
    match (out, ok) {
        (Ok(_), None) => check(false, "bad-specification-refused"),
        (Err(e), None) => check(e == "format", "bad-specification-refused"),
        (Err(e), Some(_)) => check(v == 3 && e == "format" && b.iter().any(|c| b"oxX".contains(c)), "specification-accepted"),
        (Ok(s), Some((left, width, prec))) => {
            let n = s.chars().count();
            check(n >= width, "at-least-the-width");
            if v == 1 || v == 2 {
                let full = ["", "né中e", "sy"][v];
                let cut: String = full.chars().take(prec.unwrap_or(99)).collect();
                check(s.trim_matches(' ') == cut, "string-appears");
                check(n == width.max(cut.chars().count()) && (cut.is_empty() || n == cut.chars().count() || s.ends_with(' ') == left), "string-padded");
            }
        }
    }
}
fn spec(b: &[u8]) -> Option<(bool, usize, Option<usize>)> {
    let mut i = 1;
    if b.first() != Some(&b'%') { return None; }
    let mut left = false;
    while let Some(c) = b.get(i) { if !b"-+ 0'#".contains(c) { break } left |= *c == b'-'; i += 1; }
    let mut num = |i: &mut usize| { let mut w = 0usize; while let Some(c) = b.get(*i) { if !c.is_ascii_digit() { break } w = w.saturating_mul(10).saturating_add((*c - b'0') as usize); *i += 1; } w };
    let w = num(&mut i);
    let mut p = None;
    if b.get(i) == Some(&b'.') { i += 1; p = Some(num(&mut i)); }
    match b.get(i) { Some(b'h') => i += if b.get(i + 1) == Some(&b'h') { 2 } else { 1 }, Some(b'l') => i += if b.get(i + 1) == Some(&b'l') { 2 } else { 1 }, Some(b'z' | b't') => i += 1, _ => {} }
    if !b.get(i).is_some_and(|c| b"dixXuofFeEgGaAsc".contains(c)) || w > 65535 || p.unwrap_or(0) > 65535 { return None; }
    Some((left, w, p))
}
entries!(h_integer, h_radix, h_parse, h_literal, h_spec);
