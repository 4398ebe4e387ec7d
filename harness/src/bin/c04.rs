//! The formatter: keeps the program, is idempotent
use eucalypt::syntax::export::format::{format_source, needs_formatting, FormatterConfig};
use eucalypt::syntax::rowan::{kind::{SyntaxKind, SyntaxNode}, parse_unit};
use euh::*;

/// structure and tokens without whitespace and commas
fn outline(s: &str) -> (Vec<(SyntaxKind, String)>, bool) {
    fn walk(n: &SyntaxNode, out: &mut Vec<(SyntaxKind, String)>) {
        out.push((n.kind(), "<".into()));
        for c in n.children_with_tokens() {
            match c {
                rowan::NodeOrToken::Node(n) => walk(&n, out),
                rowan::NodeOrToken::Token(t) => if !matches!(t.kind(), SyntaxKind::WHITESPACE | SyntaxKind::COMMA) { out.push((t.kind(), if t.kind() == SyntaxKind::COMMENT { t.text().trim_end().to_string() } else { t.text().to_string() })) },
            }
        }
        out.push((n.kind(), ">".into()));
    }
    let p = parse_unit(s);
    let mut v = vec![];
    walk(&p.syntax_node(), &mut v);
    (v, p.errors().is_empty())
}
fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn run(s: &str, conservative: bool) {
    let (want, valid) = outline(s);
    if !valid { check(format_source(s, &FormatterConfig::new(80, 2, false)).is_err(), "invalid-is-refused"); return; }
    let width = if conservative { 80 } else { [80, 12, 0, 30][pick("width", 4)] };
    let cfg = FormatterConfig::new(width, 2, !conservative);
    match format_source(s, &cfg) {
        Err(_) => check(false, "formats"),
        Ok(once) => {
            let (got, valid) = outline(&once);
            check(valid, "formatted-parses");
            check(got == want, "same-program");
            if conservative { check(squeeze(&once) == squeeze(s), "conservative-keeps-text"); }
            match format_source(&once, &cfg) {
                Ok(twice) => check(twice == once, "idempotent"),
                Err(_) => check(false, "formats-again"),
            }
            check(needs_formatting(s, &cfg) == Ok(once != s), "needs-formatting-agrees");
        }
    }
}
const CTX: [(&str, &str); 36] = [
    ("", ""), ("x: 1", " y: 2\n"), ("", "x: 1\n"), ("x:", "1\n"), ("x: a", "b\n"), ("x: a ", " b"), ("x: [1", "2]\n"), ("x: [1,", "2, [3, 4]]\n"),
    ("x: { a: 1", "b: 2 }\n"), ("x: {", "a: 1 }"), ("x: { a: 1 ", "}"), ("x: f(a", "b)\n"), ("x: f", "(a, b)"), ("(l ", " r): l\n"), ("(", " l): l\n"), ("f(x", "): x\n"),
    ("` :m", " a: 1\n"), ("x: { ` :m ", " a: 1 }\n"), ("{ :m ", "}\na: 1\n"), ("x: \"a{b", "}c\"\n"), ("x: c\"a", "{b}\"\n"), ("x: 'a", "b'\n"), ("# c", "\nx: 1\n"), ("x: 1 # c\n", "# d\ny: 2\n# e"),
    ("x: {a: 1 # c\n", "# d\n b: 2}"), ("x: a + ", "b"), ("x: (a ", " 1)\n"), ("⟦ x ⟧: ", "x\ny: ⟦ 1 ⟧"),
    ("x: a + -", " b\n"), ("x: [a, # c\n", "b : c]\n"), ("x: a\r", "b # c\r\n\ty: 1"), ("x: { ` { t: 1 } a: 1", ", b: 2 } # c\n"),
    ("x: [a, b", " : c]\n"), ("f([a, b", " : c]): c\n"), ("f({a: x", " b: y}): x\n"), ("x: f{a: 1", "}\ny: f[2]\n"),
];
fn hole(conservative: bool) {
    let k = pick("context", 36);
    let n = if thorough() { pick("length", 2) + 1 } else { 1 };
    let mid = ascii("text", n);
    cover(k as u64);
    run(&format!("{}{mid}{}", CTX[k].0, CTX[k].1), conservative);
}
#[no_mangle]
pub extern "C" fn h_reformat() { hole(false); }
#[no_mangle]
pub extern "C" fn h_conservative() { hole(true); }
entries!(h_reformat, h_conservative);
