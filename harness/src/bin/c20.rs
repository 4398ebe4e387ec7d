//! C20: editor positions map exactly to source text
use euh::*;
use eucalypt::driver::lsp::{self, alias_index, diagnostics, formatting, symbol_table};
use eucalypt::syntax::rowan::parse_unit;
use lsp_types::{Position, Range, TextDocumentContentChangeEvent, TextEdit, Url};
use rowan::TextSize;

/// decided as a branch
fn chk(c: bool, id: &str) { if !c { check(false, id) } }
fn at(line: u32, character: u32) -> Position { Position { line, character } }
/// each character boundary of the text with its line and UTF-16 column, counted one character at a time
fn map(s: &str) -> Vec<(usize, Position)> {
    let (mut v, mut o, mut p) = (vec![], 0, at(0, 0));
    for c in s.chars() {
        v.push((o, p));
        o += c.len_utf8();
        p = if c == '\n' { at(p.line + 1, 0) } else { at(p.line, p.character + if c as u32 >= 0x10000 { 2 } else { 1 }) };
    }
    v.push((o, p));
    v
}
/// the offsets a client position may denote: the one it names, else the end of its line or of the text; either side of a surrogate pair
fn denotes(m: &[(usize, Position)], p: Position) -> (usize, usize) {
    let before = m.iter().rev().find(|(_, q)| q.line == p.line && q.character <= p.character);
    let after = m.iter().find(|(_, q)| q.line == p.line && q.character >= p.character);
    match (before, after) {
        (Some(a), Some(b)) => (a.0, b.0),
        (Some(a), None) => (a.0, a.0),
        _ => { let e = m[m.len() - 1].0; (e, e) }
    }
}
fn all(s: &str, p: &Position) -> [usize; 3] {
    [lsp::lsp_position_to_byte_offset(s, *p), formatting::lsp_position_to_offset(s, p), usize::from(diagnostics::LineIndex::new(s).utf16_position_to_byte_offset(p))]
}
fn text() -> String { text_of(4, 5) }
fn text_of(quick: u8, deep: u8) -> String {
    let k = pick("suffix", 4);
    let s = utf8("text", if thorough() { deep } else { quick });
    cover(k as u64);
    format!("{}{s}{}", ["", "a\r\n", "", "\u{1f600}\n"][k], ["", "", "\n\u{1f600}b", "\u{e9}\n"][k])
}
#[no_mangle]
pub extern "C" fn h_offsets() {
    let s = text();
    let m = map(&s);
    let ix = diagnostics::LineIndex::new(&s);
    for (o, p) in &m {
        let t = TextSize::from(*o as u32);
        chk(ix.position(t) == *p, "position-of-offset");
        chk(ix.offset_to_line_col(*o as u32) == (p.line, p.character), "line-and-column");
        chk(formatting::offset_to_lsp_position(&s, *o) == *p, "formatting-position");
        chk(all(&s, p).iter().all(|x| x == o), "back-to-the-offset");
        chk(alias_index::byte_range_to_lsp_range(&s, *o, s.len()) == Range { start: *p, end: m[m.len() - 1].1 }, "alias-range");
        let whole = ix.range(rowan::TextRange::new(t, TextSize::from(s.len() as u32)));
        chk(whole.start == *p && whole.end == m[m.len() - 1].1, "range");
        chk(ix.utf16_text_len(*o as u32, s.len() as u32) as usize == s[*o..].encode_utf16().count(), "utf16-length");
    }
    chk(formatting::end_of_document(&s) == m[m.len() - 1].1, "end-of-document");
    check(!s.is_empty() || m.len() == 1, "every-position-was-compared");
}
#[no_mangle]
pub extern "C" fn h_client() {
    let s = text_of(3, 5);
    let m = map(&s);
    let p = at([0, 1, 2, 5, u32::MAX][pick("line", 5)], [0, 1, 2, 3, 7, u32::MAX][pick("character", 6)]);
    let (a, b) = denotes(&m, p);
    let got = all(&s, &p);
    chk(got.iter().all(|x| *x == a || *x == b), "client-position");
    chk(got[0] == got[1] && got[1] == got[2], "one-reading-of-a-position");
    check(!s.is_empty() || m.len() == 1, "every-position-was-compared");
}
/// edits sent by the client
#[no_mangle]
pub extern "C" fn h_change() {
    let s = text_of(3, 5);
    let m = map(&s);
    let new = utf8("new", 1);
    let n = m.len() - 1;
    for i in 0..=n {
        for j in i..=n {
            let change = |a, b| TextDocumentContentChangeEvent { range: Some(Range { start: a, end: b }), range_length: None, text: new.clone() };
            let want = format!("{}{new}{}", &s[..m[i].0], &s[m[j].0..]);
            chk(lsp::apply_content_change(&s, &change(m[i].1, m[j].1)) == want, "change");
            // beyond the end of the line is its end, beyond the last line the end of the text
            if j == n || s.as_bytes()[m[j].0] == b'\n' {
                chk(lsp::apply_content_change(&s, &change(m[i].1, at(m[j].1.line, 1000))) == want, "change-to-the-end-of-a-line");
            }
            if j == n { chk(lsp::apply_content_change(&s, &change(m[i].1, at(1000, 0))) == want, "change-to-the-end"); }
        }
    }
    chk(lsp::apply_content_change(&s, &TextDocumentContentChangeEvent { range: None, range_length: None, text: new.clone() }) == new, "whole-change");
    check(!s.is_empty() || m.len() == 1, "every-position-was-compared");
}

const DOC: [(&str, &str); 20] = [
    ("", "x: 1\ny: x\n"), ("x: 1\n", "\ny: x + x\n"), ("f(x, ", "): x\ny: f(1, 2)\n"), ("x: { a: 1 ", " b: a }\ny: x.a\n"), ("x: \"\u{e9}{y", "}\u{1f600}\"\ny: 1\n"), ("\u{e9}\u{1f600}: ", "1\nb: \u{e9}\u{1f600}\n"),
    ("` { type: \"number", "\" }\nx: 1\n"), ("{ doc: \"d\" ", "}\nx: 1\n"), ("(a +", " b): a\ny: 1 + 2\n"), ("x: [1, ", "2]\n# c\u{1f600}\ny: x head"), ("x: { ", "\n a: { b: 1 }\n}\nz: x.a.b\n"), ("# \u{1f600}", "\n# d\nx: 1"),
    ("\u{27e6} x \u{27e7}: ", "x\ny: \u{27e6} 1 \u{27e7}\n"), ("{ :random a: 1 ", "}.a"), ("x: 'a ", "'\n'a b': 1\n"), ("` { type-def: \"P\" type: \"{a: number}\" }\np: {a: 1}\n` { type: \"P", "\" }\nq: p\n"), ("y.x", ""), ("x: y ", "z(1)(2)\r\nz: 1\r\n"), ("x: c\"\\n", "\"\n\u{3b1}: x"), ("` :suppress\nx", ": 1\n\n\n"),
];
fn ordered(r: &Range) -> bool { (r.start.line, r.start.character) <= (r.end.line, r.end.character) }
fn inside(m: &[(usize, Position)], r: &Range) -> bool { ordered(r) && [r.start, r.end].iter().all(|p| m.iter().any(|(_, q)| q == p)) }
fn contains(a: &Range, b: &Range) -> bool { (a.start.line, a.start.character) <= (b.start.line, b.start.character) && (b.end.line, b.end.character) <= (a.end.line, a.end.character) }
/// the text after edits given in document order
fn apply(s: &str, edits: &[TextEdit]) -> String {
    let m = map(s);
    let off = |p: Position| denotes(&m, p).0;
    let mut e: Vec<_> = edits.iter().map(|e| (off(e.range.start), off(e.range.end), &e.new_text)).collect();
    e.sort();
    let (mut r, mut o) = (String::new(), 0);
    for (a, b, t) in e { chk(a >= o, "edits-do-not-overlap"); r.push_str(&s[o..a]); r.push_str(t); o = b }
    r.push_str(&s[o..]);
    r
}
fn doc() -> (String, usize) {
    let k = pick("document", DOC.len() as u8);
    let n = if thorough() { pick("length", 2) + 1 } else { 1 };
    let t = ascii("text", n);
    cover(k as u64);
    (format!("{}{t}{}", DOC[k].0, DOC[k].1), k)
}
fn symbols(m: &[(usize, Position)], v: &[lsp_types::DocumentSymbol]) {
    for d in v {
        chk(inside(m, &d.range) && inside(m, &d.selection_range) && contains(&d.range, &d.selection_range), "symbol-ranges");
        if let Some(c) = &d.children { for c in c { chk(contains(&d.range, &c.range), "symbol-nesting") } symbols(m, c) }
    }
}
/// what the server answers about a whole document
#[no_mangle]
pub extern "C" fn h_document() {
    let (s, _) = doc();
    let m = map(&s);
    let p = parse_unit(&s);
    let (root, unit) = (p.syntax_node(), p.tree());
    let uri = Url::parse("file:///a.eu").unwrap();
    let mut table = symbol_table::SymbolTable::new();
    table.add_from_unit(&unit, &s, &uri, symbol_table::SymbolSource::Local);
    for d in diagnostics::diagnostics_from_parse_errors(&s, p.errors()) { chk(inside(&m, &d.range), "diagnostic-range") }
    symbols(&m, &lsp::symbols::document_symbols(&s, &unit));
    let lines = m[m.len() - 1].1.line;
    for f in lsp::folding::folding_ranges(&s, &unit) { chk(f.start_line <= f.end_line && f.end_line <= lines, "folding-range") }
    let (mut l, mut c, mut end) = (0, 0, 0usize);
    for t in lsp::semantic::semantic_tokens_full(&s, &root, &table).data {
        if t.delta_line > 0 { c = 0 }
        l += t.delta_line;
        c += t.delta_start;
        let o = m.iter().find(|(_, q)| *q == at(l, c));
        chk(o.is_some(), "token-start");
        let Some(o) = o else { return };
        chk(o.0 >= end, "tokens-do-not-overlap");
        let mut k = 0;
        for x in s[o.0..].chars() { if k >= t.length { break } k += x.len_utf16() as u32; end = o.0 + 1 }
        chk(k == t.length, "token-length");
    }
    for h in lsp::inlay_hints::inlay_hints(&s, &root, &Range { start: at(0, 0), end: m[m.len() - 1].1 }, &table, None, None) { chk(m.iter().any(|(_, q)| *q == h.position), "hint-position") }
    alias_index::build_alias_index(&s, &root, &uri);
    check(!s.is_empty() || m.len() == 1, "every-position-was-compared");
}
/// what the server answers about a place in a document
#[no_mangle]
pub extern "C" fn h_place() {
    let (s, _) = doc();
    let m = map(&s);
    let p = parse_unit(&s);
    let (root, unit) = (p.syntax_node(), p.tree());
    let uri = Url::parse("file:///a.eu").unwrap();
    let mut table = symbol_table::SymbolTable::new();
    table.add_from_unit(&unit, &s, &uri, symbol_table::SymbolSource::Local);
    let aliases = alias_index::build_alias_index(&s, &root, &uri);
    for i in 0..=m.len() {
        let q = if i < m.len() { m[i].1 } else { at(0, 999) };
        for mut r in lsp::selection::selection_ranges(&s, &root, &[q]) {
            loop {
                chk(inside(&m, &r.range), "selection-range");
                match r.parent.take() { Some(b) => { chk(contains(&b.range, &r.range), "selection-nesting"); r = *b } None => break }
            }
        }
        for h in lsp::highlight::document_highlights(&s, &root, &q) { chk(inside(&m, &h.range), "highlight-range") }
        if let Some(h) = lsp::hover::hover(&s, &root, &q, &table, None) { if let Some(r) = h.range { chk(inside(&m, &r), "hover-range") } }
        match lsp::navigation::goto_definition(&s, &root, &q, &table) {
            Some(lsp_types::GotoDefinitionResponse::Scalar(l)) => chk(inside(&m, &l.range), "definition-range"),
            Some(lsp_types::GotoDefinitionResponse::Array(v)) => for l in v { chk(inside(&m, &l.range), "definition-range") },
            _ => {}
        }
        lsp::completion::completions(&s, &root, &q, &table, None);
        for l in lsp::references::find_references(&s, &root, &q, &uri, true).into_iter().flatten() { chk(inside(&m, &l.range), "reference-range") }
        lsp::rename::prepare_rename(&s, &root, &q);
        if let Some(e) = lsp::rename::rename(&s, &root, &q, "zz", &uri) {
            for e in e.changes.iter().flatten() { for t in e.1 { chk(inside(&m, &t.range), "rename-range") } apply(&s, e.1); }
        }
        if let Some(a) = alias_index::alias_at_position(&s, &root, &q) { chk(inside(&m, &a.reference_range), "alias-reference-range") }
        if let Some(e) = alias_index::rename_alias(&s, &root, &q, "ZZ", &aliases, &uri) {
            for e in e.changes.iter().flatten() { for t in e.1 { chk(inside(&m, &t.range), "alias-rename-range") } apply(&s, e.1); }
        }
    }
    check(!s.is_empty() || m.len() == 1, "every-position-was-compared");
}
entries!(h_offsets, h_client, h_change, h_document, h_place);
