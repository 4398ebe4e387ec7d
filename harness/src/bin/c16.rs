//! Random streams
use euh::docs::V;
use euh::pipe::*;
use euh::*;
use serde_json::Number;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
fn n(i: i64) -> V { V::Num(i.into()) }
fn un(i: u64) -> V { V::Num(i.into()) }
fn f(x: f64) -> V { V::Num(Number::from_f64(x).expect("finite")) }
fn l(v: Vec<V>) -> V { V::List(v) }
fn nums(v: &[i64]) -> V { l(v.iter().map(|x| n(*x)).collect()) }
/// SplitMix64: the state after a step and its output
fn step(s: u64) -> (u64, u64) {
    let s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    (s, z ^ (z >> 31))
}
fn float(z: u64) -> f64 { (z >> 11) as f64 / (1u64 << 53) as f64 }
fn seed(kind: &str) -> (u64, Lit) {
    let s = u64v(kind);
    (s, if flag("unsigned") { assume(s >> 63 == 1); nuint(s) } else { nint(s as i64) })
}
/// floats of every seed
#[no_mangle]
pub extern "C" fn h_float() {
    let (s, lit) = seed("seed");
    const E: [&str; 8] = ["random.float(st).value", "random.float(random.float(st).rest).value", "st random.as-list take(3)", "random.float(random.split(st).value).value", "random.float(random.split(st).rest).value",
        "[random.float(st).value, random.float(st).value, random.float(random.stream(\"@0\")).value]", "random.bind(random.float, {x: •}.(random.return([x])), st).value", "random.eval(random.float, st)"];
    let (e, out) = select_in("st: random.stream(\"@0\")\n", &E, &[lit], &prel());
    cover(e as u64);
    let (s1, z1) = step(s);
    let (s2, z2) = step(s1);
    let (_, z3) = step(s2);
    match e {
        0 | 7 => check(is(&out, f(float(z1))), "float"),
        1 => check(is(&out, f(float(z2))), "second-float"),
        2 => check(is(&out, l(vec![f(float(z1)), f(float(z2)), f(float(z3))])), "stream-list"),
        3 => check(is(&out, f(float(step(s1).1))), "split-first"),
        4 => check(is(&out, f(float(step(z1).1))), "split-second"),
        5 => check(is(&out, l(vec![f(float(z1)), f(float(z1)), f(float(z1))])), "float-again"),
        _ => check(is(&out, l(vec![f(float(z1))])), "float-bound"),
    }
}
/// every output word gives a float in [0, 1): h_float ties the floats of the code to this function
#[no_mangle]
pub extern "C" fn h_float_range() {
    let x = float(u64v("word"));
    cover(0);
    check(x >= 0.0 && x < 1.0, "float-range");
}
/// integers: every seed against bounds of every size
#[no_mangle]
pub extern "C" fn h_int() {
    let (s, lit) = seed("seed");
    let q = u8v("bound");
    assume(q < 12);
    const B: [u64; 12] = [1, 2, 3, 10, 256, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX, 4];
    let decls = format!("b: [{}, 4.0] nth(\"@1\")\nst: random.stream(\"@0\")\n", B[..11].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", "));
    const E: [&str; 4] = ["random.int(b, st).value", "random.int(b, random.int(b, st).rest).value", "random.int(b, st).value < b", "[random.int(b, st).value >= 0, random.int(b, st).value = random.int(b, random.stream(\"@0\")).value]"];
    let (e, out) = select_in(&decls, &E, &[lit, nint(q as i64)], &prel());
    let b = B[conc(q as u64) as usize];
    cover(e as u64); cover(100 + b % 100);
    let (s1, z1) = step(s);
    match e {
        0 => check(is(&out, un(z1 % b)), "int"),
        1 => check(is(&out, un(step(s1).1 % b)), "second-int"),
        2 => check(is(&out, V::Bool(true)), "int-below-bound"),
        _ => check(is(&out, l(vec![V::Bool(true), V::Bool(true)])), "int-not-negative"),
    }
}
/// shuffles, samples and choices for windows of 256 seeds
#[no_mangle]
pub extern "C" fn h_choose() {
    let w = u8v("seed");
    let at = if thorough() { pick("window", 3) } else { 2 };
    let s = [0u64, 1 << 62, u64::MAX - 1000][at].wrapping_add(w as u64);
    let k = u8v("count");
    assume(k < 7);
    let lits = [if s >> 63 == 1 { nuint(s) } else { nint(s as i64) }, nint(k as i64)];
    const E: [&str; 14] = ["random.shuffle(xs, st).value", "random.sample(k, xs, st).value", "random.choice(xs, st).value", "vec.shuffle(v, st).value vec.to-list", "vec.sample(k, v, st).value vec.to-list", "set.sample(k, t, st).value set.to-list",
        "random.choice([], st).value", "[random.shuffle([], st).value, vec.shuffle(vec.of([]), st).value vec.to-list, set.sample(k, set.from-list([]), st).value set.to-list]", "random.shuffle(xs, st).rest random.as-list head", "vec.shuffle(v, st).rest random.as-list head",
        "vec.sample(k, v, st).rest random.as-list head", "set.sample(k, t, st).rest random.as-list head", "vec.shuffle(vec.of([]), st).rest random.as-list head", "[random.shuffle(xs, st).value, vec.shuffle(v, st).value vec.to-list, vec.sample(k, v, st).value vec.to-list] = [random.shuffle(xs, st).value, vec.shuffle(v, st).value vec.to-list, vec.sample(k, v, st).value vec.to-list]"];
    let (e, out) = select_in("xs: [5, 6, 7, 8]\nv: vec.of(xs)\nt: set.from-list(xs)\nk: [-1, 0, 1, 2, 3, 4, 5] nth(\"@1\")\nst: random.stream(\"@0\")\n", &E, &lits, &prel());
    let k = conc(k as u64) as i64 - 1;
    cover(e as u64); cover(100 + at as u64);
    let got: Vec<i64> = match &out { Out::Events(ev) => scalars(ev).into_iter().skip(1).map(|p| match p { eucalypt::eval::primitive::Primitive::Num(m) => m.as_i64().unwrap_or(-1), _ => -1 }).collect(), _ => vec![] };
    let some = |want: usize| {
        let mut g: Vec<i64> = got.clone();
        g.sort_unstable();
        let m = g.len();
        g.dedup();
        m == want && g.len() == m && g.iter().all(|x| (5..9).contains(x))
    };
    let count = k.clamp(0, 4) as usize;
    // the stream left over is the one after so many draws
    let after = |draws: i64| { let mut t = s; for _ in 0..draws { t = step(t).0; } f(float(step(t).1)) };
    match e {
        0 => check(some(4) && is(&out, nums(&got)), "shuffle-is-permutation"),
        1 => check(some(count) && is(&out, nums(&got)), "sample-is-subset"),
        2 => check(some(1) && is(&out, n(got[0])), "choice-is-element"),
        3 => check(some(4) && is(&out, nums(&got)), "vec-shuffle-is-permutation"),
        4 => check(some(count) && is(&out, nums(&got)), "vec-sample-is-subset"),
        5 => check(some(count) && is(&out, nums(&got)), "set-sample-is-subset"),
        6 => check(err(&out).is_some(), "choice-of-nothing"),
        7 => check(is(&out, l(vec![l(vec![]), l(vec![]), l(vec![])])), "shuffle-of-nothing"),
        8 => check(is(&out, after(4)), "shuffle-rest"),
        9 => check(is(&out, after(3)), "vec-shuffle-rest"),
        10 | 11 => check(is(&out, after(k)), "sample-rest"),
        12 => check(is(&out, after(0)), "vec-shuffle-rest"),
        _ => check(is(&out, V::Bool(true)), "same-stream-same-values"),
    }
}
entries!(h_float, h_float_range, h_int, h_choose);
