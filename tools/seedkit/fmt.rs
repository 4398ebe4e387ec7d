// formats programs and compares with the expected text: args are width or "keep" (conservative), source, expected
use eucalypt::syntax::export::format::{format_source, FormatterConfig};
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut bad = false;
    for t in a.chunks(3) {
        let cfg = if t[0] == "keep" { FormatterConfig::new(80, 2, false) } else { FormatterConfig::new(t[0].parse().unwrap(), 2, true) };
        let got = format_source(&t[1], &cfg);
        if got.as_deref() != Ok(&t[2]) {
            println!("{:?} -> {:?}, expected {:?}", t[1], got, t[2]);
            bad = true;
        }
    }
    std::process::exit(bad as i32);
}
