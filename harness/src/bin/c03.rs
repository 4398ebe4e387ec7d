//! The parser: lossless on every text, errors inside the text
use eucalypt::syntax::rowan::{error::ParseError, kind::SyntaxNode, parse_expr, parse_unit, Parse};
use euh::*;

fn ranges(e: &ParseError) -> Vec<rowan::TextRange> {
    use ParseError::*;
    match e {
        UnexpectedToken { range, .. } | UnclosedSingleQuote { range } | UnclosedDoubleQuote { range } | EmptyDeclarationBody { range } | MalformedDeclarationHead { range }
        | SurplusContent { range } | ReservedCharacter { range } | EmptyExpression { range } | UnclosedStringInterpolation { range } | InvalidZdtLiteral { range, .. }
        | InvalidDoubleColon { range } | UnclosedBracketExpr { range } => vec![*range],
        InvalidParenExpr { open_paren_range: o, range } | UnterminatedBlock { open_brace_range: o, range } => o.iter().copied().chain([*range]).collect(),
        MissingDeclarationColon { head_range } => vec![*head_range],
        InvalidFormalParameter { head_range, range } | InvalidOperatorName { head_range, range } | InvalidPropertyName { head_range, range } => vec![*head_range, *range],
        MismatchedBrackets { open_range, close_range, .. } => vec![*open_range, *close_range],
        #[allow(unreachable_patterns)]
        _ => vec![],
    }
}
/// text of the tree, and that children tile their parents
fn collect(n: &SyntaxNode, out: &mut String) -> bool {
    let mut at = n.text_range().start();
    let mut ok = true;
    for c in n.children_with_tokens() {
        ok &= c.text_range().start() == at;
        at = c.text_range().end();
        match c {
            rowan::NodeOrToken::Node(n) => ok &= collect(&n, out),
            rowan::NodeOrToken::Token(t) => {
                ok &= usize::from(t.text_range().start()) == out.len();
                out.push_str(t.text());
            }
        }
    }
    ok && at == n.text_range().end()
}
fn ok<T: rowan::ast::AstNode<Language = eucalypt::syntax::rowan::kind::EucalyptLanguage>>(s: &str, p: &Parse<T>, wide: bool) {
    let mut t = String::new();
    let tiled = collect(&p.syntax_node(), &mut t);
    check(tiled, "nodes-tile-the-text");
    check(t == s, "tree-text-is-the-input");
    for e in p.errors() {
        for r in ranges(e) {
            let (a, b) = (usize::from(r.start()), usize::from(r.end()));
            check(b <= s.len(), "error-inside-the-input");
            if wide { check(b > s.len() || s.is_char_boundary(a) && s.is_char_boundary(b), "error-on-character-boundaries"); }
        }
    }
}
fn unit(s: &str, wide: bool) { let p = parse_unit(s); ok(s, &p, wide); }
fn expr(s: &str) { let p = parse_expr(s); ok(s, &p, false); }
#[no_mangle]
pub extern "C" fn h_short() {
    let n = pick("length", if thorough() { 5 } else { 4 });
    let s = ascii("text", n);
    cover(0);
    unit(&s, false);
    expr(&s);
}
const CTX: [(&str, &str); 24] = [
    ("x: \"", "\""), ("x: c\"\\", "\""), ("x: t\"", "\""), ("x: r\"", ""), ("x: \"a{", "}b\""), ("x: \"{y:", "}\""), ("x: '", "'"), ("'", "': 1"),
    ("x: ", ""), ("x: 1", " 2"), ("{", "}"), ("x: {a: 1 ", "}"), ("[1", "2]"), ("(a ", "): b"), ("f(x", "): x"), ("`", " a: 1"),
    ("# ", "\nx: 1"), ("a.", "b: 1"), ("x: a.", "b"), ("x: -", "1."), ("x: :", "y"), ("⟦", "⟧: x"), ("x: \"\\{", "é"), ("}", "x:"),
];
/// symbolic bytes inside every construct of the language
#[no_mangle]
pub extern "C" fn h_context() {
    let k = pick("context", 24);
    let n = pick("length", if thorough() { 3 } else { 2 }) + 1;
    let mid = ascii("text", n);
    cover(k as u64);
    unit(&format!("{}{mid}{}", CTX[k].0, CTX[k].1), false);
}
/// multi-byte characters inside every construct
#[no_mangle]
pub extern "C" fn h_context_wide() {
    let k = pick("context", 24);
    // letters, symbols, punctuation, quotes, brackets, separators and marks of two to four bytes
    const WIDE: [&str; 16] = ["é", "«", "😀", "\u{301}", "\u{a0}", "⟦", "⟧", "•", "×", "中", "\u{200b}", "\u{feff}", "\u{2028}", "“", "\u{10ffff}", "\u{80}"];
    let w = WIDE[pick("char", if thorough() { 16 } else { 8 })];
    let at = pick("at", 2);
    let c = ascii("text", 1);
    let mid = if at == 0 { format!("{w}{c}") } else { format!("{c}{w}") };
    cover(k as u64);
    unit(&format!("{}{mid}{}", CTX[k].0, CTX[k].1), true);
}
const SAMPLE: &str = "` { type: \"x\" }\na: { b: [1, -2.5] } # c\n(l + r): l f(r, :s)\nd: c\"\\n{a.b:%d}\" t\"2020-01-02\"\n";
/// one byte of a program replaced, removed, or added
#[no_mangle]
pub extern "C" fn h_edit() {
    let at = pick("at", SAMPLE.len() as u8);
    let what = pick("edit", 3);
    let c = if what == 2 { String::new() } else { ascii("byte", 1) };
    let rest = &SAMPLE[if what == 1 { at } else { at + 1 }..];
    cover(what as u64);
    unit(&format!("{}{c}{rest}", &SAMPLE[..at]), false);
}
entries!(h_short, h_context, h_context_wide, h_edit);
