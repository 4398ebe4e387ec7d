use euh::*;
#[no_mangle] pub extern "C" fn h_add() {
    let a = i64v("a"); let b = i64v("b");
    let s = a.wrapping_add(b);
    if let Some(x) = a.checked_add(b) { cover(1); check(x == s, "same"); } else { cover(2); check((a<0)==(b<0), "signs"); }
}
#[no_mangle] pub extern "C" fn h_bad() {
    let a = i64v("a");
    check(a.wrapping_mul(3) != 99, "bad");
}
#[no_mangle] pub extern "C" fn h_lex() {
    let b = bytes("t", 3);
    for x in &b { assume(*x < 128); }
    let s = String::from_utf8(b).unwrap();
    let p = eucalypt::syntax::rowan::parse_unit(&s);
    cover(1);
    check(p.syntax_node().to_string() == s, "lossless");
}
#[no_mangle] pub extern "C" fn h_lex1() {
    let b = bytes("t", 1);
    for x in &b { assume(*x < 128); }
    let s = String::from_utf8(b).unwrap();
    let p = eucalypt::syntax::rowan::parse_unit(&s);
    cover(1);
    check(p.syntax_node().to_string() == s, "lossless");
}

use euh::pipe::*;
fn go(src:&str, l:&[Lit], prelude: bool) {
    let o=Opts{prelude, ..Default::default()};
    match run(src,l,&o) { Out::Events(e)=>{ cover(1); if l.is_empty() {note(&format!("{:?}",e));} else { let s=scalars(&e); note(&format!("{}", s.len())); } }, Out::CompileError(m)=>{cover(2);note(&m)}, Out::RunError(m)=>{cover(3);note(&m)} }
}
#[no_mangle] pub extern "C" fn h_pipe0() { go("a: __ADD(1,2)", &[], false) }
#[no_mangle] pub extern "C" fn h_pipe1() { go("a: 1 + 2\nb: [1,2,3] map(+ 1)", &[], true) }
#[no_mangle] pub extern "C" fn h_pipe2() { go("a: __ADD(\"@0\",\"@1\")", &[nint(i64v("a")),nint(i64v("b"))], false) }
#[no_mangle] pub extern "C" fn h_pipe3() { go("a: \"@0\" + \"@1\"", &[nint(i64v("a")),nint(i64v("b"))], true) }
entries!(h_add, h_bad, h_lex, h_lex1, h_pipe0,h_pipe1,h_pipe2,h_pipe3);
