use codespan_reporting::files::SimpleFiles;
use euh::docs::*;
use euh::pipe;
use euh::*;
use eucalypt::common::sourcemap::SourceMap;
use eucalypt::core::expr::{Expr, Primitive as CP, RcExpr};
use eucalypt::import;

fn num(n: i64) -> V { V::Num(n.into()) }
fn blk(kv: Vec<(&str, V)>) -> V { V::Block(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
fn import(format: &str, text: &str) -> Option<RcExpr> {
    let (mut files, mut sm) = (SimpleFiles::new(), SourceMap::new());
    let id = files.add("in".to_string(), text.to_string());
    import::read_to_core(format, &mut files, &mut sm, id).ok()
}
/// The data an imported expression is (a date-time and metadata as tagged lists)
fn data(e: &RcExpr) -> V {
    match &*e.inner {
        Expr::Literal(_, CP::Str(s)) => V::Str(s.clone()),
        Expr::Literal(_, CP::Sym(s)) => V::Sym(s.clone()),
        Expr::Literal(_, CP::Num(n)) => V::Num(n.clone()),
        Expr::Literal(_, CP::Bool(b)) => V::Bool(*b),
        Expr::Literal(_, CP::Null) => V::Null,
        Expr::List(_, l) => V::List(l.iter().map(data).collect()),
        Expr::Block(_, b) => V::Block(b.iter().map(|(k, v)| (k.to_string(), data(v))).collect()),
        Expr::App(_, _, a) => V::List(vec![V::s("call"), V::List(a.iter().map(data).collect())]),
        Expr::Meta(_, e, m) => V::List(vec![V::s("meta"), data(e), data(m)]),
        _ => V::s("other"),
    }
}
/// what a reader of the harness found, as data
fn of(r: &R) -> V {
    let s = |b: &[u8]| unsafe { String::from_utf8_unchecked(b.to_vec()) };
    match r {
        R::Null => V::Null,
        R::Bool(b) => V::Bool(*b),
        R::Str(b) => V::Str(s(b)),
        R::Key(b) => V::Sym(s(b)),
        R::Num(b) => if b.contains(&b'.') { V::Num(serde_json::Number::from_f64(s(b).parse().unwrap()).unwrap()) } else { decimal(b).and_then(|n| i64::try_from(n).ok()).map_or(V::s("big"), num) },
        R::List(l) => V::List(l.iter().map(of).collect()),
        R::Map(m) => V::Block(m.iter().map(|(k, v)| (match k { R::Str(k) | R::Key(k) => s(k), _ => "?".into() }, of(v))).collect()),
    }
}
/// equality with maps as unordered
fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y)),
        (V::Block(a), V::Block(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && eq(v, w))),
        _ => a == b,
    }
}
fn debug(a: &V, b: &V) { if std::env::var("EV_DEBUG").is_ok() { println!("got {a:?}\nwant {b:?}"); } }

// ---- CSV

/// The records of a CSV text (RFC 4180, with any of the line ends, and quotes
/// that start a field only); None where records have not all one length
fn csv_records(t: &[u8]) -> Option<Vec<Vec<Vec<u8>>>> {
    let mut out: Vec<Vec<Vec<u8>>> = vec![];
    let mut i = 0;
    loop {
        while i < t.len() && (t[i] == b'\n' || t[i] == b'\r') { i += 1; }
        if i >= t.len() { break; }
        let mut rec = vec![];
        loop {
            let mut f = vec![];
            if i < t.len() && t[i] == b'"' {
                i += 1;
                loop {
                    if i >= t.len() { break; }
                    if t[i] == b'"' {
                        i += 1;
                        if i < t.len() && t[i] == b'"' { f.push(b'"'); i += 1; continue; }
                        break;
                    }
                    f.push(t[i]);
                    i += 1;
                }
            }
            while i < t.len() && t[i] != b',' && t[i] != b'\n' && t[i] != b'\r' { f.push(t[i]); i += 1; }
            rec.push(f);
            if i < t.len() && t[i] == b',' { i += 1; continue; }
            break;
        }
        if out.first().is_some_and(|r| r.len() != rec.len()) { return None; }
        out.push(rec);
    }
    Some(out)
}
fn csv_value(recs: &[Vec<Vec<u8>>]) -> Option<V> {
    let s = |b: &[u8]| unsafe { String::from_utf8_unchecked(b.to_vec()) };
    let Some((h, rows)) = recs.split_first() else { return Some(V::List(vec![])) };
    for (i, a) in h.iter().enumerate() { for b in &h[..i] { if a == b { return None; } } }
    Some(V::List(rows.iter().map(|r| V::Block(h.iter().zip(r).map(|(k, v)| (s(k), V::Str(s(v)))).collect())).collect()))
}
/// `~` stands for the symbolic text
const CSV: [&str; 7] = ["~", "a,b\n1,~\n", "a,b\n~1,2\r\n3,4", "a,~\n1,2\n", "a\n\"~\"\n", "a,b\n\"x\"~,\"y\"\n", "\"a\",\"b~\"\n1,2"];
#[no_mangle]
pub extern "C" fn h_csv() {
    let k = pick("template", CSV.len() as u8);
    cover(k as u64);
    // (names are hashed, so in a header a character is one of a few)
    let c = || [b'a', b'"', b',', b'\n', b'\r', b' ', b'b', 0x7f][pick("character", 8)];
    let hole = if matches!(k, 0 | 3 | 6) { text((0..if thorough() { 3 } else { 2 }).map(|_| c()).collect()) } else { ascii("text", if thorough() { 3 } else { 2 }) };
    let t = CSV[k].replace('~', &hole);
    let got = import("csv", &t).map(|e| data(&e));
    let Some(recs) = csv_records(t.as_bytes()) else { check(got.is_none(), "csv-ragged-records"); return };
    let want = csv_value(&recs);
    if let (Some(g), Some(w)) = (&got, &want) { debug(g, w); }
    match want {
        Some(w) => check(got == Some(w), "csv-records"),
        None => check(got.is_none(), "known:csv-repeated-header"),
    }
}
/// records written down as RFC 4180 says
#[no_mangle]
pub extern "C" fn h_csv_write() {
    let n = if thorough() { 2 } else { 1 };
    let a = ["", "x", "\u{e9}\"", "\u{1f600},", "\n"][pick("beside", 5)].to_string() + &ascii("field", 1);
    let b = ascii("next", n);
    let q = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    let bare = |s: &str| { let mut r = false; for c in s.bytes() { r |= (c == b'"') | (c == b',') | (c == 10) | (c == 13); } !r };
    let end = if flag("crlf") { "\r\n" } else { "\n" };
    let (qa, qb) = (q(&a), if bare(&b) { b.clone() } else { q(&b) });
    let t = format!("h,i j{end}{qa},{qb}{end}{qb},{qa}");
    let row = |x: &str, y: &str| blk(vec![("h", V::s(x)), ("i j", V::s(y))]);
    let got = import("csv", &t).map(|e| data(&e));
    check(got == Some(V::List(vec![row(&a, &b), row(&b, &a)])), "csv-written-records");
}
#[no_mangle]
pub extern "C" fn h_text() {
    let n = pick("length", if thorough() { 6 } else { 5 });
    let t = ascii("text", n);
    let got = import("text", &t).map(|e| data(&e));
    // lines end at a newline, with a carriage return before it
    let (mut lines, mut cur) = (vec![], String::new());
    for c in t.bytes() {
        if c == b'\n' {
            if cur.ends_with('\r') { cur.pop(); }
            lines.push(V::Str(std::mem::take(&mut cur)));
        } else { cur.push(c as char); }
    }
    if !cur.is_empty() { lines.push(V::Str(cur)); }
    cover(lines.len() as u64);
    check(got == Some(V::List(lines)), "text-lines");
}

// ---- TOML and EDN

const TOML: [&str; 14] = [
    "a = ~\nb = 2\n", "a = \"~\"\nb = 1", "a = '~'\n", "a = \"\\~\"\n", "a = [1,~2]\n", "a = {b = 1~}\n", "a~ = 1\nab = 2\n", "[a]\nb = 1\n[~]\nc = 2\n", "[[a]]\nb = 1\n[[a~]]\nb = 2\n", "a = 1~\n",
    "a = -~7\n", "a = 92233720368547758~\n", "[a.b]\nc=1\n[a~.d]\ne=2\n", "\"k~\" = {x = \"y\", z = [\"w~\"]}\n",
];
/// What is accepted is read as an independent reader reads it
#[no_mangle]
pub extern "C" fn h_toml() {
    let k = pick("template", TOML.len() as u8);
    cover(k as u64);
    let t = TOML[k].replace('~', &ascii("text", if thorough() || k == 3 || k == 11 { 2 } else { 1 }));
    let (Some(got), Some(want)) = (import("toml", &t).map(|e| data(&e)), read_toml(t.as_bytes()).map(|r| of(&r))) else { return };
    debug(&got, &want);
    check(eq(&got, &want), "toml-data");
}
/// documents around two texts
fn shape(k: usize, a: String, b: String) -> V {
    let (sa, sb) = (V::Str(a.clone()), V::Str(b.clone()));
    match k {
        0 => blk(vec![("k", sa), ("l", num(i64::MIN)), ("m", V::Bool(true)), ("n", sb)]),
        1 => blk(vec![("k", V::List(vec![V::List(vec![num(i64::MAX), num(-7)]), V::List(vec![V::Bool(false)]), V::List(vec![])])), ("l", V::List(vec![sa, sb]))]),
        2 => V::Block(vec![("x".into(), blk(vec![])), (a.clone(), V::Block(vec![("y".into(), sb), (a, num(2))])), ("z".into(), num(3))]),
        _ => blk(vec![("k", V::List(vec![blk(vec![("l", sa)]), blk(vec![("l", sb), ("n", V::List(vec![blk(vec![("o", num(5))])]))])])), ("m", num(4)), ("p", blk(vec![("q", V::s("w"))]))]),
    }
}
/// what is exported is imported as it was
#[no_mangle]
pub extern "C" fn h_back() {
    let f = if flag("edn") { "edn" } else { "toml" };
    let k = pick("shape", 4);
    let (a, b) = if k == 2 {
        let c = u8v("key");
        assume(c < 128 && c != b'x' && c != b'y' && c != b'z');
        ((conc(c as u64) as u8 as char).to_string(), "v".to_string())
    } else {
        (utf8("a", if thorough() { 2 } else { 1 }), if k == 0 { ascii("b", 1) } else { "b".into() })
    };
    let v = shape(k, a, b);
    let Some(t) = render(f, v.events()) else { check(false, "export"); return };
    let got = import(f, unsafe { std::str::from_utf8_unchecked(&t) }).map(|e| data(&e));
    if let Some(g) = &got { debug(g, &v); }
    check(got.is_some(), "export-imports");
    if let Some(g) = got { check(eq(&g, &keys(&v)), "export-imports-the-same"); }
}
fn keys(v: &V) -> V { v.clone() }

const EDN: [&str; 16] = [
    "~", "~ 1", "[1 ~ 2]", "[1~2]", "{:a ~}", "{:a 1 :~ 2}", "\"~\"", "[\"\\~\"]", ":a~b", "-~7", "[true~ nil]", "(1 ~(2))", "[1;~\n2]", "{\"a\" ~1, :b 2}", "92233720368547758~", "[\\~]",
];
fn edn_forms(b: &[u8]) -> Option<V> {
    let mut r = Reader::new(b);
    let mut l = vec![];
    loop {
        r.edn_space();
        if r.i >= b.len() { break; }
        l.push(of(&r.edn_form()?));
    }
    match l.len() { 0 => None, 1 => l.pop(), _ => Some(V::List(l)) }
}
#[no_mangle]
pub extern "C" fn h_edn() {
    let k = pick("template", EDN.len() as u8);
    cover(k as u64);
    let t = EDN[k].replace('~', &ascii("text", if thorough() || k == 0 || k == 14 { 2 } else { 1 }));
    let (Some(got), Some(want)) = (import("edn", &t).map(|e| data(&e)), edn_forms(t.as_bytes())) else { return };
    debug(&got, &want);
    check(eq(&got, &want), "edn-data");
}
const FORMS: [(&str, fn() -> V); 12] = [
    ("[1 2] ; more\n{:a 3}", || V::List(vec![V::List(vec![num(1), num(2)]), blk(vec![("a", num(3))])])),
    ("[1;one\n2]", || V::List(vec![num(1), num(2)])),
    ("[\\; 1]", || V::List(vec![V::s(";"), num(1)])),
    ("[\\newline \\a \\u0041]", || V::List(vec![V::s("\n"), V::s("a"), V::s("A")])),
    ("{:a/x 1 :b/x 2}", || blk(vec![("a/x", num(1)), ("b/x", num(2))])),
    ("[:n/k n/s]", || V::List(vec![V::Sym("n/k".into()), V::Sym("n/s".into())])),
    ("#{1 2}", || V::List(vec![num(1), num(2)])),
    ("#my/tag 1", || V::List(vec![V::s("meta"), num(1), blk(vec![("tag", V::s("my/tag"))])])),
    ("#uuid \"f81d4fae-7dec-11d0-a765-00a0c91e6bf6\"", || V::List(vec![V::s("meta"), V::s("f81d4fae-7dec-11d0-a765-00a0c91e6bf6"), blk(vec![("tag", V::s("uuid"))])])),
    ("#inst \"2020-02-29T10:11:12.5Z\"", || V::List(vec![V::s("call"), V::List(vec![V::s("2020-02-29 10:11:12.500 +00:00")])])),
    ("#_ 1 [#_ 2 3 4]", || V::List(vec![num(3), num(4)])),
    ("\"a;b\" \"c\\\"d;\"", || V::List(vec![V::s("a;b"), V::s("c\"d;")])),
];
/// forms of every kind; keys that would be the same key are refused
#[no_mangle]
pub extern "C" fn h_edn_forms() {
    let k = pick("form", 15);
    cover(k as u64);
    if k < 12 {
        let got = import("edn", FORMS[k].0).map(|e| data(&e));
        if let Some(g) = &got { debug(g, &FORMS[k].1()); }
        check(got.is_some_and(|g| eq(&g, &FORMS[k].1())), "edn-form");
    } else {
        check(import("edn", ["{:a 1 \"a\" 2}", "{\\a 1 a 2}", "{:a 1} ]"][k - 12]).is_none(), "edn-colliding-keys");
    }
}
/// character literals beside any character
#[no_mangle]
pub extern "C" fn h_edn_char() {
    let s = ["", "\u{e9}", "\u{20ac}", "\u{1f600}", "1"][pick("beside", 5)];
    let c = ascii("char", 1);
    let t = format!("[\\{}{c}{s}]", ["", "u", "uabc", "uab\u{e9}", "u\u{1f600}a"][pick("prefix", 5)]);
    let _ = import("edn", &t);
}

// ---- XML

/// A small XML reader: elements as lists [name, attributes, content...], text
/// trimmed, comments and instructions dropped
struct Xml<'a> { b: &'a [u8], i: usize }
impl<'a> Xml<'a> {
    fn at(&self, s: &[u8]) -> bool { self.b[self.i..].starts_with(s) }
    fn until(&mut self, s: &[u8]) -> Option<&'a [u8]> {
        let from = self.i;
        loop {
            if self.i >= self.b.len() { return None; }
            if self.at(s) { break; }
            self.i += 1;
        }
        self.i += s.len();
        Some(&self.b[from..self.i - s.len()])
    }
    fn ws(&mut self) -> bool { let i = self.i; while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\r' | b'\n') { self.i += 1; } i != self.i }
    fn name(&mut self) -> Option<Vec<u8>> {
        let i = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b'a'..=b'z' | b'A'..=b'Z' | b'_') | (self.i > i && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'.')) { self.i += 1; }
        if i == self.i { None } else { Some(self.b[i..self.i].to_vec()) }
    }
    fn reference(&mut self, out: &mut Vec<u8>) -> Option<()> {
        self.i += 1;
        let r = self.until(b";")?;
        let cp = match r {
            b"amp" => b'&' as u32, b"lt" => b'<' as u32, b"gt" => b'>' as u32, b"quot" => b'"' as u32, b"apos" => b'\'' as u32,
            _ => {
                let (d, base) = if let Some(h) = r.strip_prefix(b"#x") { (h, 16) } else if let Some(d) = r.strip_prefix(b"#") { (d, 10) } else { return None };
                if d.is_empty() { return None; }
                let mut n = 0u32;
                for c in d {
                    let v = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => return None } as u32;
                    if v >= base || n > 0xffffff { return None; }
                    n = n * base + v;
                }
                n
            }
        };
        if !matches!(cp, 9 | 10 | 13 | 32..=0xd7ff | 0xe000..=0xfffd | 0x10000..) { return None; }
        let mut buf = [0; 4];
        out.extend(char::from_u32(cp)?.encode_utf8(&mut buf).as_bytes());
        Some(())
    }
    fn element(&mut self) -> Option<V> {
        self.i += 1;
        let name = self.name()?;
        let mut attrs: Vec<(String, V)> = vec![];
        loop {
            let gap = self.ws();
            if self.at(b"/>") || self.at(b">") { break; }
            if !gap { return None; }
            let k = text(self.name()?);
            self.ws();
            if !self.at(b"=") { return None; }
            self.i += 1;
            self.ws();
            let q = *self.b.get(self.i)?;
            if q != b'"' && q != b'\'' { return None; }
            self.i += 1;
            let mut v = vec![];
            loop {
                let c = *self.b.get(self.i)?;
                if c == q { self.i += 1; break; }
                if c == b'<' { return None; }
                if c == b'&' { self.reference(&mut v)?; continue; }
                self.i += 1;
                if c == b'\r' && self.at(b"\n") { continue; }
                v.push(if matches!(c, b'\t' | b'\n' | b'\r') { b' ' } else { c });
            }
            if attrs.iter().any(|(x, _)| *x == k) { return None; }
            attrs.push((k, V::Str(text(v))));
        }
        let mut out = vec![V::Sym(text(name.clone())), V::Block(attrs)];
        if self.at(b"/>") { self.i += 2; return Some(V::List(out)); }
        self.i += 1;
        let mut run = vec![];
        loop {
            if self.i >= self.b.len() { return None; }
            if self.at(b"<!--") || self.at(b"<?") { self.skip()?; continue; }
            if self.at(b"<![CDATA[") { self.i += 9; run.extend(self.until(b"]]>")?); continue; }
            if self.at(b"<") {
                let t = trim(&run);
                if !t.is_empty() { out.push(V::Str(text(t.to_vec()))); }
                run.clear();
                if self.at(b"</") {
                    self.i += 2;
                    if self.name()? != name { return None; }
                    self.ws();
                    if !self.at(b">") { return None; }
                    self.i += 1;
                    return Some(V::List(out));
                }
                out.push(self.element()?);
            } else if self.at(b"&") { self.reference(&mut run)?; } else {
                if self.at(b"]]>") { return None; }
                run.push(self.b[self.i]);
                self.i += 1;
            }
        }
    }
    fn skip(&mut self) -> Option<()> {
        if self.at(b"<!--") { self.i += 4; if self.until(b"--")?.is_empty() & false { return None; } if !self.at(b">") { return None; } self.i += 1; return Some(()); }
        self.i += 2;
        let n = self.name()?;
        if n.eq_ignore_ascii_case(b"xml") { return None; }
        if !(self.ws() || self.at(b"?>")) { return None; }
        self.until(b"?>").map(|_| ())
    }
    fn misc(&mut self) -> Option<()> { loop { self.ws(); if self.at(b"<!--") || self.at(b"<?") { self.skip()?; } else { return Some(()); } } }
    fn document(&mut self) -> Option<V> {
        if self.at(b"<?xml ") { self.until(b"?>")?; }
        self.misc()?;
        if !self.at(b"<") { return None; }
        let e = self.element()?;
        self.misc()?;
        if self.i == self.b.len() { Some(e) } else { None }
    }
}
fn text(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }
/// surrounding whitespace (the characters Unicode calls so, of one byte)
fn trim(mut b: &[u8]) -> &[u8] {
    let sp = |c: u8| (c == 32) | ((c >= 9) & (c <= 13));
    while let [c, r @ ..] = b { if sp(*c) { b = r } else { break } }
    while let [r @ .., c] = b { if sp(*c) { b = r } else { break } }
    b
}
const XML: [&str; 14] = [
    "~", "<a>~</a>", "<a ~></a>", "<a b=\"~\"/>", "<a>x~<b/>y</a>", "<a><!--~--></a>", "<a><![CDATA[~]]></a>", "<a>&~;</a>", "<a>&#~;z</a>", "<a/>~", "<a>x &lt;~ y</a>", "<a><b>t</b~</a>", "<?xml version=\"1.0\"?>~<a b='1'>2</a>", "<a>~",
];
/// A well-formed text is imported as an independent reader reads it, and any other refused or read somehow, but never for ever
#[no_mangle]
pub extern "C" fn h_xml() {
    let k = pick("template", XML.len() as u8);
    cover(k as u64);
    let two = thorough() || matches!(k, 0 | 2 | 8);
    let t = XML[k].replace('~', &ascii("text", if two { 2 } else { 1 }));
    let got = import("xml", &t).map(|e| data(&e));
    let want = Xml { b: t.as_bytes(), i: 0 }.document();
    let Some(want) = want else { return };
    check(got.is_some(), "xml-accepts");
    let Some(got) = got else { return };
    debug(&got, &want);
    check(got == want, "xml-data");
}
const BAD: [&str; 12] = ["", "  ", "<a>", "<a><b></a>", "</a>", "<a", "<a></b>", "<a/><b/>", "<a/>x", "<!-- x -->", "<a b='1' b='2'/>", "<a>&x;</a>"];
#[no_mangle]
pub extern "C" fn h_xml_malformed() {
    let k = pick("text", BAD.len() as u8);
    check(import("xml", BAD[k]).is_none(), "xml-malformed");
    let got = import("xml", "<a href='1' xlink:href='2'/>").map(|e| data(&e));
    check(match got { Some(V::List(l)) => matches!(&l[1], V::Block(b) if b.len() == 2), _ => true }, "known:xml-attribute-prefix");
}
/// text and attribute values in every spelling
#[no_mangle]
pub extern "C" fn h_xml_write() {
    let m = pick("spelling", 3);
    let s = ["", "\u{e9}", "a "][pick("before", 3)].to_string() + &ascii("text", if m == 2 { 1 } else { 2 }) + ["", "\u{1f600}"][pick("after", 2)];
    let mut bad = false;
    for c in s.bytes() { bad |= ((c < 32) & (c != 9) & (c != 10)) | (c == 13); }
    assume(!bad);
    let esc: String = match m {
        0 => s.chars().map(|c| match c { '<' => "&lt;".into(), '&' => "&amp;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), '\t' => "&#9;".into(), '\n' => "&#xA;".into(), c => c.to_string() }).collect(),
        1 => format!("<![CDATA[{s}]]>"),
        _ => s.chars().map(|c| format!("&#{};", conc(c as u64))).collect(),
    };
    if m == 1 { assume(!s.contains("]]>")); }
    let want_text = |t: &str| { let w = trim(t.as_bytes()); if w.is_empty() { vec![] } else { vec![V::Str(text(w.to_vec()))] } };
    let attr = if m == 1 { "k".to_string() } else { esc.clone() };
    let t = format!("<e at=\"{attr}\"><f>{esc}</f>x{esc}<!-- c -->y</e>");
    let mut f = vec![V::Sym("f".into()), blk(vec![])];
    f.extend(want_text(&s));
    let mut e = vec![V::Sym("e".into()), V::Block(vec![("at".into(), if m == 1 { V::s("k") } else { V::Str(s.clone()) })]), V::List(f)];
    e.extend(want_text(&format!("x{s}y")));
    let got = import("xml", &t).map(|e| data(&e));
    if let Some(g) = &got { debug(g, &V::List(e.clone())); }
    check(got == Some(V::List(e)), "xml-written");
}

// ---- streams

/// A stream has the records of the import of the whole
#[no_mangle]
pub extern "C" fn h_stream() {
    let k = pick("format", 3);
    let f = ["text", "csv", "jsonl"][k];
    let t = match k {
        0 => ascii("text", 3),
        1 => format!("a,b\n{}", "1,~\n3,4\n".replace('~', &ascii("text", 2))),
        _ => format!("{{\"a\": {}}}\n\n[true,\"{}\"]\n", -5, { let c = u8v("char"); assume((c >= 32) & (c < 127) & (c != b'"') & (c != b'\\')); text(vec![c]) }),
    };
    let path = std::env::temp_dir().join(format!("euh-c09-{}", std::process::id()));
    let path = path.to_str().unwrap();
    std::fs::write(path, &t).unwrap();
    let e = import::create_stream_import(&format!("{f}-stream"), path);
    let want = if k == 2 {
        Some(V::List(vec![blk(vec![("a", num(-5))]), V::List(vec![V::Bool(true), V::Str(t[t.len() - 4..t.len() - 3].to_string())])]))
    } else { import(f, &t).map(|e| data(&e)) };
    cover(k as u64);
    match e {
        Ok(e) => {
            let mut sm = SourceMap::new();
            let o = pipe::Opts::default();
            let e = eucalypt::core::expr::acore::block([("r".to_string(), e)]);
            let out = match pipe::middle(e, &o, &mut sm) { Ok(e) => pipe::back(e, &o, &mut sm), Err(_) => { check(false, "stream-compiles"); return } };
            let got = pipe::value(&out);
            if let (Some(g), Some(w)) = (&got, &want) { debug(g, w); }
            check(got == want, "stream-records");
        }
        Err(_) => check(want.is_none(), "stream-opens"),
    }
    let _ = std::fs::remove_file(path);
}
/// Imported data evaluates to itself
#[no_mangle]
pub extern "C" fn h_run() {
    let k = pick("format", 4);
    let f = ["toml", "edn", "csv", "xml"][k];
    cover(k as u64);
    let c = ascii("char", 1);
    let key = ["a b", "", "\u{e9}", "r", "{", "a.b", "__APP", "true", "`", "nil", "if", "+"][pick("key", 12)];
    let (t, want) = match k {
        0 | 1 => {
            let v = V::Block(vec![(key.to_string(), V::Str(c)), ("l".into(), V::List(vec![V::Block(vec![("r".into(), num(1)), (format!("x{key}"), V::Bool(false))])])), ("e".into(), blk(vec![]))]);
            (render(f, v.events()).map(text), v)
        }
        2 => (Some(format!("\"{key}\",l\n\"{}\",2\n", c.replace('"', "\"\""))), V::List(vec![V::Block(vec![(key.to_string(), V::Str(c)), ("l".into(), V::s("2"))])])),
        _ => {
            assume(c != "\r" && c.as_bytes()[0] >= 32);
            let esc = match c.as_str() { "<" => "&lt;", "&" => "&amp;", "\"" => "&quot;", c => c };
            (Some(format!("<e k=\"{esc}\"><if>{key}x</if></e>")), V::List(vec![V::Sym("e".into()), V::Block(vec![("k".into(), V::Str(c.clone()))]), V::List(vec![V::Sym("if".into()), blk(vec![]), V::Str(format!("{key}x"))])]))
        }
    };
    let Some(t) = t else { check(false, "export"); return };
    let e = import(f, &t);
    check(e.is_some(), "run-imports");
    let Some(e) = e else { return };
    let (mut sm, o) = (SourceMap::new(), pipe::Opts::default());
    let e = eucalypt::core::expr::acore::block([("r".to_string(), e)]);
    let out = match pipe::middle(e, &o, &mut sm) { Ok(e) => pipe::back(e, &o, &mut sm), Err(_) => { check(false, "run-compiles"); return } };
    let got = pipe::value(&out);
    if let Some(g) = &got { debug(g, &want); }
    check(got.is_some_and(|g| eq(&g, &want)), "run-data");
}
entries!(h_run, h_csv, h_csv_write, h_text, h_toml, h_back, h_edn, h_edn_forms, h_edn_char, h_xml, h_xml_malformed, h_xml_write, h_stream);
