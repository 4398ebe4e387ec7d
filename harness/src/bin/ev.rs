//! ev EXPR...: evaluate expressions with the prelude natively, print what they render (a development aid)
use euh::pipe::*;
use eucalypt::eval::emit::Event;
fn main() {
    let (mut raw, mut o) = (false, Opts { prelude: true, max_steps: 2_000_000, driver: if std::env::var("EV_FULL").is_ok() { Some(FULL) } else { None }, ..Default::default() });
    for e in std::env::args().skip(1) {
        if e == "-r" { raw = true; continue; }
        if e == "-Q" { o.prelude = false; continue; }
        let src = if raw { e.clone() } else { format!("r: {e}\n") };
        let r = std::panic::catch_unwind(|| match run(&src, &[], &o) {
            Out::Events(ev) => ev.iter().filter_map(|x| match x { Event::OutputScalar(_, p) => Some(format!("{p:?}")), Event::OutputSequenceStart(_) => Some("[".into()), Event::OutputSequenceEnd => Some("]".into()), Event::OutputBlockStart(_) => Some("{".into()), Event::OutputBlockEnd => Some("}".into()), _ => None }).collect::<Vec<_>>().join(" "),
            Out::CompileError(m) => format!("COMPILE {m}"),
            Out::RunError(m) => format!("ERROR {m}"),
        });
        println!("{e}  ==>  {}", r.unwrap_or("PANIC".into()));
    }
}
