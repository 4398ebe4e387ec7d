//! HTML: text and attribute values, read back by a small HTML reader
use euh::docs::*;
use euh::*;

#[derive(Clone, Debug, Default)]
struct El { tag: Vec<u8>, attrs: Vec<(Vec<u8>, Vec<u8>)>, items: Vec<It> }
#[derive(Clone, Debug)]
enum It { El(El), Text(Vec<u8>) }

const VOID: [&str; 13] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];

struct P<'a> { b: &'a [u8], i: usize }
impl P<'_> {
    fn at(&self, s: &[u8]) -> bool { self.b.len() >= self.i + s.len() && &self.b[self.i..self.i + s.len()] == s }
    /// one character, or the character a reference stands for
    fn ch(&mut self, out: &mut Vec<u8>) -> Option<()> {
        if self.b[self.i] != b'&' {
            out.push(self.b[self.i]);
            self.i += 1;
            return Some(());
        }
        for (r, t) in [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#39;", "'"), ("&apos;", "'"), ("&nbsp;", "\u{a0}")] {
            if self.at(r.as_bytes()) {
                self.i += r.len();
                out.extend(t.as_bytes());
                return Some(());
            }
        }
        if self.at(b"&#x") {
            let s = self.i + 3;
            let mut e = s;
            while *self.b.get(e)? != b';' { e += 1; }
            let c = u32::from_str_radix(std::str::from_utf8(&self.b[s..e]).ok()?, 16).ok()?;
            self.i = e + 1;
            out.extend(char::from_u32(c)?.to_string().as_bytes());
            return Some(());
        }
        if self.at(b"&#") {
            let s = self.i + 2;
            let mut e = s;
            while *self.b.get(e)? != b';' { e += 1; }
            let c: u32 = std::str::from_utf8(&self.b[s..e]).ok()?.parse().ok()?;
            self.i = e + 1;
            out.extend(char::from_u32(c)?.to_string().as_bytes());
            return Some(());
        }
        // an ampersand that starts no reference stands for itself
        let n = self.b.get(self.i + 1).copied().unwrap_or(b' ');
        if n.is_ascii_alphanumeric() || n == b'#' { return None; }
        out.push(b'&');
        self.i += 1;
        Some(())
    }
    fn name(&mut self) -> Option<Vec<u8>> {
        let s = self.i;
        while matches!(*self.b.get(self.i)?, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-') { self.i += 1; }
        if s == self.i { None } else { Some(self.b[s..self.i].to_vec()) }
    }
    fn element(&mut self) -> Option<El> {
        if !self.at(b"<") { return None; }
        self.i += 1;
        let mut e = El { tag: self.name()?, ..Default::default() };
        loop {
            let spaced = self.at(b" ");
            while self.at(b" ") { self.i += 1; }
            if self.at(b">") { self.i += 1; break; }
            if !spaced { return None; }
            let k = self.name()?;
            if !self.at(b"=\"") { return None; }
            self.i += 2;
            let mut v = vec![];
            while *self.b.get(self.i)? != b'"' { self.ch(&mut v)?; }
            self.i += 1;
            e.attrs.push((k, v));
        }
        if VOID.iter().any(|v| v.as_bytes() == &e.tag[..]) { return Some(e); }
        let mut text = vec![];
        loop {
            self.b.get(self.i)?;
            if self.at(b"<") {
                if !text.is_empty() { e.items.push(It::Text(std::mem::take(&mut text))); }
                if self.at(b"</") {
                    self.i += 2;
                    if self.name()? != e.tag || !self.at(b">") { return None; }
                    self.i += 1;
                    return Some(e);
                }
                e.items.push(It::El(self.element()?));
            } else {
                self.ch(&mut text)?;
            }
        }
    }
}
fn read(b: &[u8]) -> Option<El> {
    let mut p = P { b, i: 0 };
    if !p.at(b"<!DOCTYPE html>") { return None; }
    p.i = 15;
    while p.at(b"\n") { p.i += 1; }
    let e = p.element()?;
    while p.at(b"\n") { p.i += 1; }
    if p.i == b.len() { Some(e) } else { None }
}
fn sym(s: &str) -> V { V::Sym(s.into()) }
fn txt(v: &V) -> Vec<u8> {
    match v {
        V::Str(s) | V::Sym(s) => s.clone().into_bytes(),
        V::Num(n) => n.to_string().into_bytes(),
        V::Bool(b) => b.to_string().into_bytes(),
        _ => vec![],
    }
}
/// the element hiccup markup stands for
fn element(v: &V) -> El {
    let V::List(l) = v else { panic!() };
    let mut e = El { tag: txt(&l[0]), ..Default::default() };
    let mut text = vec![];
    for (i, x) in l.iter().enumerate().skip(1) {
        match x {
            V::Block(b) if i == 1 => e.attrs = b.iter().map(|(k, v)| (k.clone().into_bytes(), txt(v))).collect(),
            V::List(_) => {
                if !text.is_empty() { e.items.push(It::Text(std::mem::take(&mut text))); }
                e.items.push(It::El(element(x)));
            }
            _ => text.extend(txt(x)),
        }
    }
    if !text.is_empty() { e.items.push(It::Text(text)); }
    e
}
fn same(a: &El, b: &El) -> bool {
    a.tag == b.tag && a.attrs.len() == b.attrs.len() && a.attrs.iter().zip(&b.attrs).all(|(p, q)| p.0 == q.0 && p.1 == q.1)
        && a.items.len() == b.items.len()
        && a.items.iter().zip(&b.items).all(|(p, q)| match (p, q) { (It::El(p), It::El(q)) => same(p, q), (It::Text(p), It::Text(q)) => p == q, _ => false })
}
fn ok(k: u64, v: V) {
    let out = render("html", v.events());
    cover(k);
    check(out.is_some(), "html-accepts");
    let Some(out) = out else { return };
    let r = read(&out);
    check(r.is_some(), "html-well-formed");
    let Some(r) = r else { return };
    check(same(&r, &element(&v)), "html-same-tree");
}
// readers of HTML turn carriage returns into newlines and drop NULs
fn clean(s: &str) { let mut c = true; for b in s.as_bytes() { c &= (*b != 13) & (*b != 0); } assume(c); }

/// one longer text, as content and as an attribute value
#[no_mangle]
pub extern "C" fn h_text() {
    let s = utf8("text", if thorough() { 5 } else { 3 });
    clean(&s);
    ok(0, V::List(vec![sym("p"), V::Str(s)]));
}
#[no_mangle]
pub extern "C" fn h_attr() {
    let s = utf8("text", if thorough() { 5 } else { 3 });
    clean(&s);
    ok(0, V::List(vec![sym("a"), V::Block(vec![("href".into(), V::Str(s)), ("id".into(), sym("i"))])]));
}
/// two texts around the shapes markup takes
#[no_mangle]
pub extern "C" fn h_tree() {
    let k = pick("shape", 8);
    let (sa, sb) = (ascii("a", if thorough() { 2 } else { 1 }), ascii("b", 1));
    clean(&sa);
    clean(&sb);
    let (a, b) = (V::Str(sa), V::Sym(sb));
    let blk = |kv: Vec<(&str, V)>| V::Block(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let v = match k {
        0 => vec![sym("p"), a, b],
        1 => vec![sym("div"), blk(vec![("class", a.clone()), ("title", b.clone())]), a, V::List(vec![sym("em"), b])],
        2 => vec![sym("div"), blk(vec![]), V::List(vec![sym("br")]), a.clone(), V::List(vec![sym("img"), blk(vec![("src", a), ("alt", b.clone())])]), b],
        3 => vec![V::s("ul"), V::List(vec![sym("li"), a]), V::List(vec![sym("li"), blk(vec![("x", V::Num(7.into()))]), b]), V::List(vec![sym("li")])],
        4 => vec![sym("html"), V::List(vec![sym("head"), V::List(vec![sym("title"), a]), V::List(vec![sym("meta"), blk(vec![("charset", b)])])]), V::List(vec![sym("body"), V::List(vec![sym("hr")])])],
        5 => vec![sym("table"), V::List(vec![sym("tr"), V::List(vec![sym("td"), a, V::Num((-12).into()), V::Bool(true)]), V::List(vec![sym("td"), blk(vec![("colspan", V::Num(2.into())), ("hidden", V::Bool(false))]), b])])],
        6 => vec![sym("p"), V::List(vec![sym("b"), V::List(vec![sym("i"), V::List(vec![sym("u"), a])]), b])],
        _ => vec![sym("p"), V::List(vec![sym("input"), blk(vec![("value", a)])]), V::List(vec![sym("textarea"), V::s("x"), b]), V::List(vec![sym("wbr")])],
    };
    ok(k as u64, V::List(v));
}
/// tags of every length up to the bound, over letters: which are void decides the end tag
#[no_mangle]
pub extern "C" fn h_void() {
    let k = pick("tag", 20);
    let tags = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr", "b", "br2", "h1", "td", "custom-tag", "B", "time"];
    let s = ascii("b", 1);
    clean(&s);
    ok(k as u64, V::List(vec![sym("div"), V::List(vec![sym(tags[k]), V::Block(vec![("id".into(), V::s(&s))])]), V::Str(s)]));
}
/// texts that mean something to HTML when they are not escaped
#[no_mangle]
pub extern "C" fn h_special() {
    let k = pick("template", 16);
    let s = ascii("x", if thorough() { 2 } else { 1 });
    clean(&s);
    let (pre, post) = [
        ("<!--", "-->"), ("<b>", "</b>"), ("&", "amp;"), ("&#", ";"), ("&am", ";"), ("<![CDATA[", "]]>"), ("</p>", "<p>"), ("\" onclick=\"", "\""),
        ("<script>", "</script>"), ("<!DOCTYPE html>", ""), ("<?xml ", "?>"), ("  ", "  "), ("\n", "\n"), ("\u{a0}", "\u{a0}"), ("&nbsp;", "&nbsp"), ("<br/>", "/>"),
    ][k];
    let t = format!("{pre}{s}{post}");
    let attrs = V::Block(vec![("title".into(), V::s(&t))]);
    ok(k as u64, V::List(vec![sym("p"), attrs, V::s(&t), V::List(vec![sym("b"), V::Sym(t.clone())]), V::s("x")]));
}
entries!(h_text, h_attr, h_tree, h_void, h_special);
