//! C10: garbage collection does not change results
use euh::pipe::*;
use euh::progs::*;
use euh::*;

use eucalypt::common::sourcemap::SourceMap;
use eucalypt::eval::{bytecode::BytecodeMachine, error::ExecutionError, memory::collect};

/// `BytecodeMachine::run` with collections at the given steps
fn collecting(m: &mut BytecodeMachine<'static>, first: u64, every: u64, moving: bool, limit: usize) -> Result<(), ExecutionError> {
    m.heap.gc_stress = moving;
    m.heap.limit = Some(0);
    // nested evaluations, which built-ins start, collect at every third step
    std::env::set_var("EUH_GC_POLL", "3");
    let mut n = 0u64;
    let mut next = first;
    while !m.state.terminated {
        if n as usize >= limit { return Err(ExecutionError::DidntTerminate(limit)) }
        if n == next {
            // every third collection frees in place whatever the schedule
            m.heap.gc_stress = moving && (next - first) / every % 3 != 2;
            collect::collect(&mut m.state, &mut m.heap, &mut m.clock, false);
            next += every;
        }
        n += 1;
        m.dispatch()?;
    }
    collect::collect(&mut m.state, &mut m.heap, &mut m.clock, false);
    Ok(())
}
const D: &str = "x: \"@0\"\ny: \"@1\"\n";
fn schedule() -> (u64, u64, bool) {
    if !thorough() { return (0, 41, true) }
    (pick("first", 11) as u64, 11, [true, false][pick("in-place", 2)])
}
fn table(t: &[Prog], id: &str) {
    let (x, y) = (u8v("x"), u8v("y"));
    let lits = [nint(x as i64), nint(y as i64)];
    let o = Opts { prelude: true, ..Default::default() };
    let k = u8v("expression");
    assume((k as usize) < t.len());
    let mut all = lits.to_vec();
    all.push(nint(k as i64));
    let items: Vec<String> = t.iter().map(|e| format!("({})", e.0)).collect();
    let src = format!("r: {{ {D} }}.([{}] nth(\"@2\"))\n", items.join(",\n "));
    let mut sm = SourceMap::new();
    let m = front(&src, &all, &o, &mut sm).and_then(|e| middle(e, &o, &mut sm)).map_err(Out::CompileError).and_then(|e| load(e, &o, &mut sm));
    // before which steps, and whether everything that can move is moved
    let (first, every, moving) = schedule();
    let out = match m {
        Ok(mut m) => match collecting(&mut m, first, every, moving, 20_000) {
            Ok(()) => Out::Events(m.take_emitter().captures().to_vec()),
            Err(e) => Out::RunError(errkind(&e)),
        },
        Err(o) => o,
    };
    let k = conc(k as u64) as usize;
    cover(k as u64);
    match (t[k].1)(x as i64, y as i64) {
        W::V(v) => check(is(&out, v), id),
        W::E => { if let Out::CompileError(e) = &out { note(e) } check(err(&out).is_some(), id) }
    }
}
#[no_mangle]
pub extern "C" fn h_lazy() { table(LAZY, "same-result") }
#[no_mangle]
pub extern "C" fn h_scope() { table(SCOPE, "same-result") }
/// programs whose built-ins evaluate, which hold on to metadata, or which make much of one thing
const NESTED: &[&str] = &[
    "iterate(+ x, y) nth(6)",
    "range(0, 20) map(+ x) nth(5)",
    "range(0, 9) filter(> 3) map(* x) nth(2)",
    "{ go(n): if(n = 0, x, go(n - 1) + y) r: [go(3), go(9)] map(+ 1) nth(1) }.r",
    "[[x, y], [y, x]] map(reverse) nth(1) nth(0)",
    "(iterate(tail, range(0, 9)) nth(4) head) + x",
    "{ f(n): iterate(+ n, x) nth(3) r: range(1, 5) map(f) nth(2) }.r",
    "cons(3, cons(4, [])) map(str.of) nth(1)",
    "{ d: { a: x b: y } e: d { c: x + y } r: [e.c, e.a, (e << { b: 1 }).b] }.r",
    "{ d: range(0, 5) map({ n: • }.([str.of(n) sym, n + x])) block r: d lookup(:'3') }.r",
    "{ d: range(0, 20) map({ n: • }.([n, n + x])) r: d map(second) nth(7) }.r",
    "{ a: x // { m: y } r: [a + 1, meta(a).m] }.r",
    "{ f(a): a // { m: a } r: [f(x), meta(f(y)).m] }.r",
    "(x + y) //= (y + x)",
    "[x, y] //=> [x, y]",
    "{ a: 3 b: [5, \"t\"] } render-as(:json) str.letters count + x",
    "[{ a: 3 }, { a: 4 }] map(render-as(:edn)) str.join-on(\",\")",
    "\"{3}-{4}\" str.letters count + x",
    "range(0, 9) map(+ 7) map(str.of) str.join-on(\"-\")",
    "range(0, 12) map(* 3) foldl(+, y)",
    "range(0, 12) zip-with(pair, range(3, 15)) map(second) foldr(-, x)",
    "{ s: range(0, 9) set.from-list r: [s set.size, s set.contains?(4), x] }.r",
    "{ v: range(0, 9) vec.of r: [vec.nth(3, v), v vec.to-list sum, x] }.r",
    "arr.from-flat([2, 3], range(0, 6)) arr.to-list nth(4)",
    "{ e: [x, y, 3, 9] qsort(<) r: e map(+ 1) nth(2) }.r",
    "{ t: cal.zdt(2024, 1, 2, 3, 4, 5, \"Z\") r: [cal.format(t), x] }.r",
    "\"a,b,c\" str.split-on(\",\") map(str.to-upper) nth(2)",
    "{ a: { b: { c: x } } r: a update-value(:b, { n: •0 }.(n << { d: y })) }.r",
    "{ loop(n, acc): if(n = 0, acc, loop(n - 1, cons(n + x, acc))) r: loop(12, []) nth(11) }.r",
];
#[no_mangle]
pub extern "C" fn h_nested() { against(NESTED) }
/// the library, against the same run without collection
#[no_mangle]
pub extern "C" fn h_lib() { against(LIB) }
fn against(t: &[&str]) {
    let (x, y) = (u8v("x"), u8v("y"));
    let k = u8v("expression");
    assume((k as usize) < t.len());
    let all = [nint(x as i64), nint(y as i64), nint(k as i64)];
    let o = Opts { prelude: true, ..Default::default() };
    let items: Vec<String> = t.iter().map(|e| format!("({e})")).collect();
    let src = format!("r: {{ {D} }}.([{}] nth(\"@2\"))\n", items.join(",\n "));
    let compile = || { let mut sm = SourceMap::new(); front(&src, &all, &o, &mut sm).and_then(|e| middle(e, &o, &mut sm)).map_err(Out::CompileError).and_then(|e| load(e, &o, &mut sm)) };
    let (a, b) = (compile(), compile());
    let (first, every, moving) = if thorough() { (pick("first", 3) as u64 * 13, 41, [true, false][pick("in-place", 2)]) } else if t.len() == LIB.len() { (20, 307, true) } else { schedule() };
    let a = match a { Ok(m) => go(m, &o), Err(e) => e };
    let b = match b {
        Ok(mut m) => match collecting(&mut m, first, every, moving, 200_000) {
            Ok(()) => Out::Events(m.take_emitter().captures().to_vec()),
            Err(e) => Out::RunError(errkind(&e)),
        },
        Err(o) => o,
    };
    let k = conc(k as u64);
    cover(k);
    match (&a, &b) {
        (Out::Events(p), Out::Events(q)) => check(p == q, "same-result"),
        (Out::RunError(p), Out::RunError(q)) => check(p == q, "same-error"),
        _ => { for o in [&a, &b] { if let Out::CompileError(m) | Out::RunError(m) = o { note(m) } } check(false, "same-outcome") }
    }
}
entries!(h_lazy, h_scope, h_lib, h_nested);
