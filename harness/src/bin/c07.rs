use euh::docs::*;
use euh::pipe;
use euh::*;
use eucalypt::common::sourcemap::SourceMap;
use eucalypt::core::binding::Var;
use eucalypt::core::expr::{Expr, Primitive as CP, RcExpr};

fn num(n: impl Into<serde_json::Number>) -> V { V::Num(n.into()) }
fn blk(kv: Vec<(&str, V)>) -> V { V::Block(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
/// documents around two texts
fn shape(k: usize, a: String, b: String) -> V {
    let (sa, sb) = (V::Str(a.clone()), V::Str(b.clone()));
    match k {
        0 => blk(vec![("k", sa), ("l", num(1)), ("m", V::Bool(true)), ("n", sb)]),
        1 => blk(vec![("k", V::List(vec![sa, num(-7), sb, V::List(vec![V::Bool(false)]), V::List(vec![])]))]),
        2 => V::Block(vec![("x".into(), blk(vec![])), (a.clone(), V::Block(vec![("y".into(), sb), (a, num(2))])), ("z".into(), num(3))]),
        3 => blk(vec![("k", V::List(vec![blk(vec![("l", sa)]), blk(vec![("l", sb), ("n", V::List(vec![blk(vec![("o", num(5))])]))])])), ("m", num(4)), ("p", blk(vec![("q", V::Sym("sym".into()))]))]),
        4 => V::List(vec![sa, blk(vec![("k", sb)]), V::List(vec![]), V::Null, V::Sym("s".into())]),
        5 => V::List(vec![V::Sym(a), V::Sym(b)]),
        6 => sa,
        _ => blk(vec![("j", V::List(vec![sa, blk(vec![("k", sb)])]))]),
    }
}
fn texts(shape: usize) -> (String, String) {
    // the longer text in one shape with it as a value and one with it as a key
    let long = shape == 0 || shape == 2;
    let b = if long && !thorough() { "b".to_string() } else { ascii("b", 1) };
    (utf8("a", if thorough() { if long { 3 } else { 2 } } else if long { 2 } else { 1 }), b)
}
/// ... where keys are hashed, so that every ASCII key is a case of its own
fn hashed_texts(k: usize) -> (String, String) {
    if k == 2 {
        let c = u8v("key");
        assume(c < 128 && c != b'x' && c != b'y' && c != b'z');
        ((conc(c as u64) as u8 as char).to_string(), "v".to_string())
    } else {
        let b = if k == 0 && !thorough() { "b".to_string() } else { ascii("b", 1) };
        (if k == 0 { utf8("a", if thorough() { 3 } else { 2 }) } else { utf8("a", 1) }, b)
    }
}
#[no_mangle]
pub extern "C" fn h_json() {
    let k = pick("shape", 8);
    let (a, b) = texts(k);
    if k == 2 { assume(a != "x" && a != "z" && a != "y"); }
    let v = shape(k, a, b);
    let out = render("json", v.events());
    cover(k as u64);
    check(out.is_some(), "json-accepts");
    let Some(out) = out else { return };
    let r = read_json(&out);
    check(r.is_some(), "json-well-formed");
    let Some(r) = r else { return };
    check(denotes(&r, &v), "json-denotes-the-value");
}
#[no_mangle]
pub extern "C" fn h_edn() {
    let k = pick("shape", 8);
    let (a, b) = texts(k);
    if k == 2 { assume(a != "x" && a != "z" && a != "y"); }
    let v = shape(k, a, b);
    let out = render("edn", v.events());
    cover(k as u64);
    check(out.is_some(), "edn-accepts");
    let Some(out) = out else { return };
    let r = read_edn(&out);
    check(r.is_some(), "edn-well-formed");
    let Some(r) = r else { return };
    check(denotes(&r, &v), "edn-denotes-the-value");
}
#[no_mangle]
pub extern "C" fn h_toml() {
    let k = pick("shape", 4);
    let (a, b) = hashed_texts(k);
    let v = shape(k, a, b);
    let out = render("toml", v.events());
    cover(k as u64);
    check(out.is_some(), "toml-accepts");
    let Some(out) = out else { return };
    let r = read_toml(&out);
    check(r.is_some(), "toml-well-formed");
    let Some(r) = r else { return };
    check(denotes(&r, &v), "toml-denotes-the-value");
}
/// arrays that mix tables with other values
#[no_mangle]
pub extern "C" fn h_toml_mixed() {
    let b = ascii("b", 1);
    let v = shape(7, "a".into(), b);
    let out = render("toml", v.events());
    cover(0);
    if let Some(out) = out {
        let r = read_toml(&out);
        check(r.is_some() && denotes(&r.unwrap(), &v), "known:toml-mixed-array");
    }
}
/// the literal data an expression is made of
fn literal(e: &RcExpr) -> Option<V> {
    Some(match &*e.inner {
        Expr::Literal(_, CP::Str(s)) => V::Str(s.clone()),
        Expr::Literal(_, CP::Sym(s)) => V::Sym(s.clone()),
        Expr::Literal(_, CP::Num(n)) => V::Num(n.clone()),
        Expr::Literal(_, CP::Bool(n)) => V::Bool(*n),
        Expr::Literal(_, CP::Null) => V::Null,
        Expr::List(_, xs) => V::List(xs.iter().map(literal).collect::<Option<Vec<_>>>()?),
        Expr::Meta(_, x, _) => literal(x)?,
        Expr::Var(_, x) => match x {
            Var::Free(n) if n == "true" => V::Bool(true),
            Var::Free(n) if n == "false" => V::Bool(false),
            Var::Free(n) if n == "null" => V::Null,
            _ => return None,
        },
        Expr::Block(_, m) => V::Block(m.iter().map(|(k, v)| Some((k.clone(), literal(v)?))).collect::<Option<Vec<_>>>()?),
        Expr::Let(_, scope, _) => {
            let names: Vec<(String, RcExpr)> = scope.pattern.iter().map(|b| (b.name.clone(), b.expr.clone())).collect();
            match &*scope.body.inner {
                Expr::Block(_, m) => V::Block(m.iter().map(|(k, _)| Some((k.clone(), literal(&names.iter().find(|(n, _)| n == k)?.1)?))).collect::<Option<Vec<_>>>()?),
                _ => return None,
            }
        }
        _ => return None,
    })
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Num(x), V::Num(y)) => x == y,
        (V::Str(x), V::Str(y)) | (V::Sym(x), V::Sym(y)) => x == y,
        (V::List(x), V::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (V::Block(x), V::Block(y)) => x.len() == y.len() && x.iter().zip(y).all(|((j, p), (k, q))| j == k && same(p, q)),
        _ => false,
    }
}
#[no_mangle]
pub extern "C" fn h_eu() {
    let k = pick("shape", 8);
    let (a, b) = hashed_texts(k);
    let quote = (k == 2 || k == 5) && a.contains('\'') || k == 5 && b.contains('\'');
    let v = shape(k, a, b);
    let out = render("eu", v.events());
    cover(k as u64);
    // a name with a single quote cannot be written
    check(out.is_some() == !quote, "eu-accepts");
    let Some(out) = out else { return };
    let text = unsafe { String::from_utf8_unchecked(out) };
    let mut sm = SourceMap::new();
    let src = format!("doc: {text}");
    let e = pipe::front(&src, &[], &Default::default(), &mut sm);
    check(e.is_ok(), "eu-parses");
    let Ok(e) = e else { return };
    let got = literal(&e);
    check(got.is_some(), "eu-is-literal-data");
    let Some(got) = got else { return };
    check(same(&got, &V::Block(vec![("doc".into(), v)])), "eu-denotes-the-value");
}
/// texts that mean something to a format when they are not quoted
#[no_mangle]
pub extern "C" fn h_words() {
    const WORDS: [&str; 24] = ["true", "null", "nil", "12", "1e5", "-3.5", "2020-01-02", "2020-01-02T03:04:05Z", "{}", "[]", "#inst", ":k", "//", "#", "\\n", "\\u0041", "\"", "''", "\"\"\"", "{x}", "NaN", "0x10", "a.b", "="];
    let f = pick("format", 4);
    let w = WORDS[pick("word", 24)];
    let at = pick("at", 4);
    let c = if at < 2 { ascii("x", 1) } else { String::new() };
    let t = if at == 1 { format!("{c}{w}") } else { format!("{w}{c}") };
    // as a value, in a list, and (kept concrete) as a key
    let key = format!("k{w}");
    let eu = f == 3;
    let v = if at == 3 && !(eu && w.contains('\'')) { V::Block(vec![(key, V::s(&t)), ("l".into(), num(1))]) } else { blk(vec![("k", V::Str(t.clone())), ("l", V::List(vec![V::Str(t), num(2)]))]) };
    cover(f as u64);
    let out = render(FORMATS3[f], v.events());
    check(out.is_some(), "word-accepted");
    let Some(out) = out else { return };
    if eu {
        let text = unsafe { String::from_utf8_unchecked(out) };
        let mut sm = SourceMap::new();
        let e = pipe::front(&format!("doc: {text}"), &[], &Default::default(), &mut sm);
        let got = e.ok().as_ref().and_then(literal);
        check(got.is_some() && same(&got.unwrap(), &V::Block(vec![("doc".into(), v)])), "eu-word-is-text");
    } else {
        let r = match f { 0 => read_json(&out), 1 => read_edn(&out), _ => read_toml(&out) };
        check(r.is_some() && denotes(&r.unwrap(), &v), "word-is-text");
    }
}
const FORMATS3: [&str; 4] = ["json", "edn", "toml", "eu"];
/// text output writes scalars verbatim, one a line
#[no_mangle]
pub extern "C" fn h_text() {
    let (a, b) = texts(0);
    let want = format!("{a}\n{b}\n");
    let out = render("text", V::List(vec![V::Str(a), V::Sym(b)]).events());
    cover(0);
    check(out.as_deref() == Some(want.as_bytes()), "text-is-verbatim");
}
const FORMATS: [&str; 5] = ["json", "edn", "toml", "eu", "text"];
// how { k: v } is written in each
const PRE: [&str; 5] = ["{\n  \"k\": ", "{:k ", "k = ", "{ k: ", "k\n"];
const POST: [&str; 5] = ["\n}\n", "}\n", "\n", " }\n", "\n"];
fn int_ok(f: usize, out: Option<Vec<u8>>, neg: bool, mag: u64, refusable: bool) {
    let Some(out) = out else { check(f == 2 && refusable, "integer-accepted"); return };
    let (pre, post) = (PRE[f].as_bytes(), POST[f].as_bytes());
    let ok = out.starts_with(pre) && out.ends_with(post) && out.len() > pre.len() + post.len();
    check(ok, "integer-document");
    if !ok { return; }
    let mut d = &out[pre.len()..out.len() - post.len()];
    while f == 2 && d.last() == Some(&b'\n') { d = &d[..d.len() - 1]; }
    if f == 1 && d.last() == Some(&b'N') { d = &d[..d.len() - 1]; }
    if d.first() == Some(&b'-') {
        check(neg, "integer-sign");
        d = &d[1..];
    } else {
        check(!neg, "integer-sign");
    }
    check(!d.is_empty() && d.len() <= 20 && (d.len() == 1 || d[0] != b'0'), "integer-length");
    // wrapping agrees with the value: 20 digits that overflow would need a leading digit above 1
    let (mut w, mut ok) = (0u64, d.len() < 20 || d[0] == b'1');
    for &c in d {
        let k = c.wrapping_sub(b'0');
        ok &= k < 10;
        w = w.wrapping_mul(10).wrapping_add(k as u64);
    }
    check(ok & (w == mag), "integer-digits");
}
/// from a number of bases: small ones, the ends of the integer range, where digits are gained, where other formats stop
#[no_mangle]
pub extern "C" fn h_int() {
    let f = pick("format", 5);
    let n = if thorough() { 256 } else { 128 };
    let at = [i64::MIN, -n, 0, 900, 65_500, 99_900, (1 << 32) - 20, (1 << 53) - 10, -(1 << 53) - 20, i64::MAX - n + 1];
    let k = pick("range", 10);
    let d = u8v("offset");
    assume((d as i64) < n);
    let v = at[k].wrapping_add(d as i64);
    cover(f as u64);
    int_ok(f, render(FORMATS[f], blk(vec![("k", num(v))]).events()), v < 0, v.unsigned_abs(), false);
}
#[no_mangle]
pub extern "C" fn h_uint() {
    let f = pick("format", 5);
    let n = if thorough() { 256 } else { 64 };
    let base: u64 = [1 << 63, u64::MAX - n + 1][pick("range", 2)];
    let d = u8v("offset");
    assume((d as u64) < if f == 2 { 8 } else { n });
    // (one by one for TOML, which has to refuse them: anything else would print a float)
    let v = base + if f == 2 { conc(d as u64) } else { d as u64 };
    cover(f as u64);
    int_ok(f, render(FORMATS[f], blk(vec![("k", num(v))]).events()), false, v, v > i64::MAX as u64);
}
entries!(h_json, h_edn, h_toml, h_toml_mixed, h_eu, h_text, h_words, h_int, h_uint);
