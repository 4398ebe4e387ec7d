// Parses each argument and checks that the tree's text is the argument.
fn main() {
    let mut bad = 0;
    for t in std::env::args().skip(1) {
        let got = std::panic::catch_unwind(|| eucalypt::syntax::rowan::parse_unit(&t).syntax_node().to_string()).unwrap_or("a panic".into());
        let ok = got == t;
        println!("{} {t:?} -> {got:?}", if ok { "ok" } else { "WRONG" });
        bad += !ok as i32;
    }
    std::process::exit((bad > 0) as i32);
}
