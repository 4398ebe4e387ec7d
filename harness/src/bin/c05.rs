//! Strings: literals, escapes, interpolation, string functions
use euh::pipe::*;
use euh::*;
use eucalypt::eval::primitive::Primitive;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
fn text(o: &Out) -> Result<String, String> {
    match o {
        Out::CompileError(e) => Err(e.clone()),
        o => match scalar(o)? { Primitive::Str(s) => Ok(s), p => Err(format!("{p:?}")) },
    }
}
fn hex(b: &[u8]) -> Option<u32> {
    let mut v = 0u32;
    for &c in b {
        let d = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => return None };
        v = v * 16 + d as u32;
    }
    Some(v)
}
// code point escapes: (before the two symbolic digits, after them)
const ESC: [(&str, &str); 9] = [("\\x", ""), ("\\u00", ""), ("\\ud8", ""), ("\\uf", "f"), ("\\U0010ff", ""), ("\\U00", "0000"), ("\\U0001f6", ""), ("\\u", "e9"), ("\\u0", "")];
#[no_mangle]
pub extern "C" fn h_code_point() {
    let k = pick("escape", 9);
    let d = ascii("digits", 2);
    let b = d.as_bytes();
    assume(b[0] != b'"' && b[1] != b'"' && b[0] != b'{' && b[1] != b'{' && b[0] != b'}' && b[1] != b'}' && b[1] != b'\\');
    let (pre, post) = ESC[k];
    let out = text(&run(&format!("r: c\"a{pre}{d}{post}z\""), &[], &Opts::default()));
    cover(k as u64);
    let digits = format!("{}{d}{post}", &pre[2..]);
    let n = match k { 0 => 2, 4 | 5 | 6 => 8, _ => 4 };
    let want = if digits.len() < n { None } else { hex(&digits.as_bytes()[..n]).and_then(char::from_u32) };
    match want {
        Some(c) => check(out.as_deref() == Ok(&format!("a{c}{}z", &digits[n..])), "code-point-escape"),
        None => check(out.is_err(), "bad-escape-is-refused"),
    }
}
#[no_mangle]
pub extern "C" fn h_escape() {
    // what follows a backslash, and the character after it; at the start or end of the string or beside another brace escape
    let b = ascii("text", 2);
    let ctx = pick("context", 4);
    let (pre, post, wpre, wpost) = [("", "", "", ""), ("a", "b", "a", "b"), ("\\{", "\\}", "{", "}"), ("é", "中", "é", "中")][ctx];
    let c = b.as_bytes();
    assume(c[1] != b'"' && c[1] != b'\\' && c[1] != b'{' && c[1] != b'}' && !matches!(c[0], b'x' | b'u' | b'U'));
    let out = text(&run(&format!("r: c\"{pre}\\{b}{post}\""), &[], &Opts::default()));
    let e = match c[0] { b'n' => '\n', b'r' => '\r', b't' => '\t', b'0' => '\0', b'\\' => '\\', b'"' => '"', b'{' => '{', b'}' => '}', _ => { check(out.is_err(), "unknown-escape-is-refused"); return } };
    cover(ctx as u64);
    check(out.as_deref() == Ok(&format!("{wpre}{e}{}{wpost}", c[1] as char)), "escape");
}
#[no_mangle]
pub extern "C" fn h_plain() {
    // everything but quotes and single braces stands for itself; doubled braces for one
    let n = if thorough() { 3 } else { 2 };
    let b = ascii("text", n);
    let raw = flag("raw");
    let ctx = pick("context", 3);
    let (pre, post, wpre, wpost) = [("", "", "", ""), ("{{é", "}}", "{é", "}"), ("中", "{{", "中", "{")][ctx];
    for c in b.bytes() { assume(c != b'"' && c != b'{' && c != b'}'); }
    let out = text(&run(&format!("r: {}\"{pre}{b}{post}\"", if raw { "r" } else { "" }), &[], &Opts::default()));
    cover(ctx as u64);
    check(out.as_deref() == Ok(&format!("{wpre}{b}{wpost}")), "plain-text");
}
const TEMPLATES: [(&str, &str); 12] = [
    (r#""{x}""#, "x"), (r#""a{x}b""#, "axb"), (r#""{x}{y}""#, "xy"), (r#""{{{x}}}""#, "{x}"), (r#""{x}}}""#, "x}"), (r#"r"\{x}{{""#, "\\x{"),
    (r#"c"\{{x}\}\n""#, "{x}\n"), (r#"c"é\"{y}\\{x}""#, "é\"y\\x"), (r#""{ x }, {y.z}""#, "x, y"), (r#""{x:%s}|{y:%s}""#, "x|y"), (r#"t({x: y}, :x)"#, "y"), (r#""}}{b.x}{{""#, "}x{"),
];
/// interpolated strings appear verbatim
#[no_mangle]
pub extern "C" fn h_interpolate() {
    let x = utf8("x", 2);
    let y = ascii("y", 1);
    let mut e: Vec<&str> = TEMPLATES.iter().map(|t| t.0).collect();
    e[8] = r#""{ x }, {y2.z}""#;
    e[10] = r#"t("x")"#;
    let (k, out) = select_with("` :suppress\nx: \"@0\"\n` :suppress\ny: \"@1\"\n` :suppress\ny2: {z: y}\n` :suppress\nt(n): \"{y}\"\n` :suppress\nb: {x: \"@0\"}", &e, &[Lit::Str(x.clone()), Lit::Str(y.clone())], &prel());
    let mut want = String::new();
    for c in TEMPLATES[k].1.chars() { match c { 'x' => want.push_str(&x), 'y' => want.push_str(&y), c => want.push(c) } }
    cover(k as u64);
    check(text(&out) == Ok(want), "interpolation");
}
fn ws(c: char) -> bool { c.is_whitespace() }
/// letters, length, joining, fixing, casing and trimming
#[no_mangle]
pub extern "C" fn h_functions() {
    let (a, b) = (utf8("a", 2), ascii("b", 1));
    const E: [&str; 11] = [r#""@0" str.letters str.join-on("")"#, r#""@0" str.len"#, r#""@0" str.prefix("@1")"#, r#""@0" str.suffix("@1")"#, r#"["@0", "@1", "@0"] str.join-on("@1")"#,
        r#""@1" str.to-upper"#, r#""@1" str.to-lower"#, r#"["@1", "@0", "@1"] str.join-on("") str.trim"#, r#"[] str.join-on("@0")"#, r#""@0" str.base64-encode str.base64-decode"#, r#""@0" str.letters (str.len ∘ head)"#];
    let (k, out) = select(&E, &[Lit::Str(a.clone()), Lit::Str(b.clone())], &prel());
    cover(k as u64);
    match k {
        0 | 9 => check(text(&out) == Ok(a), "letters-and-base64-round-trip"),
        1 => check(matches!(scalar(&out), Ok(Primitive::Num(n)) if n.as_u64() == Some(a.chars().count() as u64)), "length-counts-characters"),
        2 => check(text(&out) == Ok(format!("{b}{a}")), "prefix"),
        3 => check(text(&out) == Ok(format!("{a}{b}")), "suffix"),
        4 => check(text(&out) == Ok(format!("{a}{b}{b}{b}{a}")), "join"),
        5 => check(text(&out) == Ok(b.to_ascii_uppercase()), "upper"),
        6 => check(text(&out) == Ok(b.to_ascii_lowercase()), "lower"),
        7 => {
            let t = format!("{b}{a}{b}");
            let want: String = { let v: Vec<char> = t.chars().collect(); let i = v.iter().position(|c| !ws(*c)); let j = v.iter().rposition(|c| !ws(*c)); match (i, j) { (Some(i), Some(j)) => v[i..=j].iter().collect(), _ => String::new() } };
            check(text(&out) == Ok(want), "trim")
        }
        8 => check(text(&out) == Ok(String::new()), "join-nothing"),
        _ => if a.is_empty() { check(scalar(&out).is_err(), "no-first-letter") } else { check(matches!(scalar(&out), Ok(Primitive::Num(n)) if n.as_u64() == Some(1)), "letters-are-single") },
    }
}
/// decoding any four characters of base64: exactly the canonical encodings decode
#[no_mangle]
pub extern "C" fn h_base64() {
    let t = ascii("text", if thorough() { 4 } else { 3 });
    let t = if thorough() { t } else { format!("{t}=") };
    let out = text(&run(r#"r: "@0" str.base64-decode"#, &[Lit::Str(t.clone())], &prel()));
    let b = t.as_bytes();
    let v = |c: u8| match c { b'A'..=b'Z' => Some(c - b'A'), b'a'..=b'z' => Some(c - b'a' + 26), b'0'..=b'9' => Some(c - b'0' + 52), b'+' => Some(62), b'/' => Some(63), _ => None };
    let n = if b[3] != b'=' { 3 } else if b[2] != b'=' { 2 } else { 1 };
    let mut acc = 0u32;
    let mut ok = true;
    for &c in &b[..n + 1] { match v(c) { Some(d) => acc = acc << 6 | d as u32, None => ok = false } }
    let bytes: Vec<u8> = match n { 3 => vec![(acc >> 16) as u8, (acc >> 8) as u8, acc as u8], 2 => { ok &= acc & 3 == 0; vec![(acc >> 10) as u8, (acc >> 2) as u8] } _ => { ok &= acc & 15 == 0; vec![(acc >> 4) as u8] } };
    cover(n as u64);
    if ok && valid_utf8(&bytes) { check(matches!(&out, Ok(s) if s.as_bytes() == &bytes[..]), "base64-decodes"); } else { check(out.is_err(), "base64-refuses"); }
}
/// splitting on a separator and joining with it
#[no_mangle]
pub extern "C" fn h_split() {
    let a = ascii("text", 2);
    const E: [&str; 4] = [r#""@0" str.split-on(",") str.join-on(",")"#, r#""@0" str.replace("a", "bc")"#, r#""@0" str.contains?("^a")"#, r#""@0" str.shell-escape"#];
    let (k, out) = select(&E, &[Lit::Str(a.clone())], &prel());
    cover(k as u64);
    match k {
        0 => check(text(&out) == Ok(a), "split-join"),
        1 => check(text(&out) == Ok(a.replace('a', "bc")), "replace"),
        2 => check(matches!(scalar(&out), Ok(Primitive::Bool(v)) if v == a.starts_with('a')), "contains"),
        _ => check(text(&out) == Ok(format!("'{}'", a.replace('\'', "'\\''"))), "shell-escape"),
    }
}
entries!(h_code_point, h_escape, h_plain, h_interpolate, h_functions, h_base64, h_split);
