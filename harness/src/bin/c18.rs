//! Laziness and lexical scope: what programs mean
use euh::pipe::*;
use euh::progs::*;
use euh::*;

const D: &str = "x: \"@0\"\ny: \"@1\"\n";
fn table(t: &[Prog], driver: Option<Driver>, id: &str) {
    let (x, y) = (u8v("x"), u8v("y"));
    let lits = [nint(x as i64), nint(y as i64)];
    let o = Opts { prelude: true, driver, max_steps: 20_000, ..Default::default() };
    let src: Vec<&str> = t.iter().map(|p| p.0).collect();
    let (k, out) = select_in(D, &src, &lits, &o);
    cover(k as u64);
    match (t[k].1)(x as i64, y as i64) {
        W::V(v) => check(is(&out, v), id),
        W::E => { if let Out::CompileError(e) = &out { note(e) } check(err(&out).is_some(), id) }
    }
}
#[no_mangle]
pub extern "C" fn h_lazy() { table(LAZY, None, "evaluation-is-lazy") }
#[no_mangle]
pub extern "C" fn h_scope() { table(SCOPE, None, "names-are-lexical") }
#[no_mangle]
pub extern "C" fn h_wrong() { table(WRONG, None, "wrong-programs-fail") }
#[no_mangle]
pub extern "C" fn h_lazy_command() { table(LAZY, Some(FULL), "evaluation-is-lazy") }
#[no_mangle]
pub extern "C" fn h_scope_command() { table(SCOPE, Some(FULL), "names-are-lexical") }
#[no_mangle]
pub extern "C" fn h_wrong_command() { table(WRONG, Some(FULL), "wrong-programs-fail") }
entries!(h_lazy, h_scope, h_wrong, h_lazy_command, h_scope_command, h_wrong_command);
