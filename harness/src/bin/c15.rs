//! Sets, arrays and vecs
use eucalypt::eval::memory::set::Primitive as P;
use euh::docs::V;
use euh::pipe::*;
use euh::*;
use serde_json::Number;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
fn n(i: i64) -> V { V::Num(i.into()) }
fn f(x: f64) -> V { V::Num(Number::from_f64(x).expect("finite")) }
fn fl(v: &[f64]) -> V { V::List(v.iter().map(|x| f(*x)).collect()) }
fn l(v: Vec<V>) -> V { V::List(v) }
fn sy(s: &str) -> V { V::Sym(s.into()) }
fn opt(out: &Out, v: Option<V>, id: &str) { match v { Some(v) => check(is(out, v), id), None => check(err(out).is_some(), id) } }

/// exact order of an integer and a finite double, without rounding
fn order(i: i128, x: f64) -> std::cmp::Ordering {
    if x >= 2e19 { return std::cmp::Ordering::Less }
    if x <= -2e19 { return std::cmp::Ordering::Greater }
    let t = x as i128; // truncated: exact, since |x| < 2^65
    let frac = x - t as f64;
    i.cmp(&t).then(0.0f64.partial_cmp(&frac).expect("finite"))
}
/// the representation of numbers in sets: exact, ordered by value, and the same element only if equal
#[no_mangle]
pub extern "C" fn h_number() {
    let kinds = pick("kinds", 6);
    // integers met with floats come from windows of 256 about where doubles lose exactness
    let (mut a, b) = (u64v("a"), u64v("b"));
    if kinds == 3 || kinds == 4 {
        const AT: [u64; 6] = [0, 1 << 53, 1 << 62, 1 << 63, 0u64.wrapping_sub(1 << 53), (1 << 63) + (1 << 10)];
        let w = pick("window", 6);
        assume(a < 256);
        a = AT[w].wrapping_add(a).wrapping_sub(128);
    }
    let num = |k: u8, w: u64| match k { 0 => Number::from(w as i64), 1 => Number::from(w), _ => { let x = f64::from_bits(w); assume(x.is_finite()); Number::from_f64(x).expect("finite") } };
    let val = |k: u8, w: u64| if k == 0 { w as i64 as i128 } else { w as i128 };
    let (ka, kb) = [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)][kinds];
    let (na, nb) = (num(ka, a), num(kb, b));
    let (pa, pb) = (P::from_number(&na), P::from_number(&nb));
    let want = match (ka, kb) {
        (2, 2) => f64::from_bits(a).partial_cmp(&f64::from_bits(b)).expect("finite"),
        (_, 2) => order(val(ka, a), f64::from_bits(b)),
        _ => val(ka, a).cmp(&val(kb, b)),
    };
    cover(kinds as u64);
    check(pa.cmp(&pb) == want, "set-number-order");
    check(pb.cmp(&pa) == want.reverse(), "set-number-order");
    check((pa == pb) == want.is_eq(), "set-number-equality");
    // equal elements must hash alike: their hash is that of this double
    let h = |p: &P| match p { P::Num(x) => x.into_inner(), P::Int(i) => *i as f64, _ => 0.5 };
    if want.is_eq() { check(h(&pa) == h(&pb), "set-number-hash"); }
    match (pa.to_number(), ka) {
        (Some(m), 0) => check(m.as_i64() == Some(a as i64), "set-number-exact"),
        (Some(m), 1) => check(m.as_u64() == Some(a), "set-number-exact"),
        (Some(m), _) => check(m.is_f64() && m.as_f64().map(f64::to_bits) == Some(a), "set-number-exact"),
        (None, _) => check(false, "set-number-exact"),
    }
}

/// sets of values that are alike: every choice of three from a universe (equal ones included)
#[no_mangle]
pub extern "C" fn h_set() {
    const U: &str = "[9007199254740992, 9007199254740993, \"1\", 1, 1.0, :a, \"a\", -1, 0, -9223372036854775808, 18446744073709551615, 0.5]";
    // the class and the order of each
    const CLASS: [usize; 12] = [0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10];
    const RANK: [usize; 12] = [5, 6, 20, 3, 3, 30, 21, 0, 1, 0, 7, 2];
    let size = if thorough() { 12 } else { 7 };
    let lits: Vec<Lit> = ["x", "y", "z"].iter().map(|v| { let q = u8v(v); assume(q < size); nint(q as i64) }).collect();
    let decls = format!("u: {U}\nx: u nth(\"@0\")\ny: u nth(\"@1\")\nz: u nth(\"@2\")\na: set.from-list([x, y])\nb: set.from-list([z, y])\ndiffers(p, q): not([p] = [q])\nidx(e): u split-after(differs(e)) first count\ni(s): [s set.size, (s set.to-list) map(idx)]\n");
    let all = "[i(a), i(b), i(a set.union(b)), i(set.intersect(a, b)), i(a set.diff(b)), i(b set.diff(a)), i(a set.add(z)), i(a set.remove(z)), i(a set.remove(y)), set.contains?(z, a), z ∈ b, x ∉ b, set.empty?(a), set.empty?(set.diff(a, a)), a = set.from-list([y, x, y]), set.intersect(a, b) = set.intersect(b, a), set.union(a, b) = set.union(b, a), set.diff(b, a) = (a set.diff(b))]";
    let (_, out) = select_in(&decls, &[all], &lits, &prel());
    let q: Vec<usize> = lits.iter().map(|m| match m { Lit::Num(m) => conc(m.as_u64().unwrap_or(0)) as usize, _ => 0 }).collect();
    let (x, y, z) = (q[0], q[1], q[2]);
    cover((x == y) as u64 + 2 * (y == z) as u64);
    let _ = RANK;
    let set = |v: &[usize]| { let mut w: Vec<usize> = vec![]; for e in v { if !w.iter().any(|o| CLASS[*o] == CLASS[*e]) { w.push(*e) } } w };
    let has = |s: &[usize], e: usize| s.iter().any(|o| CLASS[*o] == CLASS[e]);
    let (a, b) = (set(&[x, y]), set(&[z, y]));
    let minus = |s: &[usize], t: &[usize]| -> Vec<usize> { s.iter().cloned().filter(|e| !has(t, *e)).collect() };
    let both: Vec<usize> = a.iter().cloned().filter(|e| has(&b, *e)).collect();
    let sets = [a.clone(), b.clone(), set(&[&a[..], &b[..]].concat()), both, minus(&a, &b), minus(&b, &a), set(&[x, y, z]), minus(&a, &[z]), minus(&a, &[y])];
    let bools = [has(&a, z), true, !has(&b, x), false, true, true, true, true, true];
    // elements are reported by the position of the first universe value equal to them, in the order of to-list
    let first = |e: usize| (0..12).find(|o| CLASS[*o] == CLASS[e]).unwrap_or(0);
    let Out::Events(_) = &out else { check(false, "set-result"); return };
    let got = scalars_of(&out);
    if std::env::var("EV_DEBUG").is_ok() { println!("{got:?}"); }
    let mut i = 0;
    for s in &sets {
        let mut want: Vec<i64> = s.iter().map(|e| first(*e) as i64).collect();
        want.sort_unstable();
        let k = want.len();
        check(got.get(i) == Some(&n(k as i64)), "set-size");
        let mut have: Vec<i64> = got.iter().skip(i + 1).take(k).map(|v| match v { V::Num(m) => m.as_i64().unwrap_or(-1), _ => -1 }).collect();
        have.sort_unstable();
        check(have == want, "set-elements");
        i += k + 1;
    }
    for b in bools { check(got.get(i) == Some(&V::Bool(b)), "set-relations"); i += 1; }
    check(got.len() == i, "set-elements");
}
/// the scalars of a rendered result in order
fn scalars_of(out: &Out) -> Vec<V> {
    use eucalypt::eval::primitive::Primitive as E;
    let Out::Events(ev) = out else { return vec![] };
    // the first scalar is the key
    scalars(ev).into_iter().skip(1).filter_map(|p| match p { E::Num(m) => Some(V::Num(m)), E::Bool(b) => Some(V::Bool(b)), _ => None }).collect()
}

struct A { v: Vec<f64>, shape: Vec<usize>, c: Vec<i64>, k: i64, j: i64, sij: [u8; 3], lits: Vec<Lit> }
const SHAPES: [&[usize]; 6] = [&[2, 3], &[3, 2], &[6], &[1, 6], &[2, 3, 1], &[0, 3]];
const ARRAY: &str = "sh: [[2, 3], [3, 2], [6], [1, 6], [2, 3, 1], [0, 3]] nth(\"@6\")
vs: [\"@0\", \"@1\", \"@2\", \"@3\", \"@4\", \"@5\"] take(sh foldl(*, 1))
a: arr.from-flat(sh, vs)
i: [-1, 0, 1, 2, 3] nth(\"@7\")
j: [-1, 0, 1, 2, 3] nth(\"@8\")
co: [i, j, 0] take(sh count)
";
fn array() -> A {
    let mut v = vec![];
    for i in 0..6 { let x = u8v(["a", "b", "c", "d", "e", "f"][i]); assume(x > 0); v.push(x as f64); }
    let mut lits: Vec<Lit> = v.iter().map(|x| nint(*x as i64)).collect();
    let (s, i, j) = (u8v("shape"), u8v("i"), u8v("j"));
    assume(s < 6); assume(i < 5); assume(j < 5);
    lits.push(nint(s as i64)); lits.push(nint(i as i64)); lits.push(nint(j as i64));
    A { v, shape: vec![], c: vec![], k: 0, j: 0, sij: [s, i, j], lits }
}
fn go(e: &[&str], a: &mut A) -> (usize, Out) {
    let (x, out) = select_in(ARRAY, e, &a.lits, &prel());
    let s = conc(a.sij[0] as u64) as usize;
    let (i, j) = (conc(a.sij[1] as u64) as i64 - 1, conc(a.sij[2] as u64) as i64 - 1);
    a.j = j;
    a.shape = SHAPES[s].to_vec();
    a.k = i;
    a.c = [i, j, 0][..a.shape.len()].to_vec();
    a.v.truncate(a.shape.iter().product());
    cover(x as u64); cover(100 + s as u64);
    (x, out)
}
/// row-major position of a coordinate
fn pos(shape: &[usize], c: &[i64]) -> Option<usize> {
    if shape.len() != c.len() { return None }
    let mut p = 0;
    for (d, x) in shape.iter().zip(c) { if *x < 0 || *x as usize >= *d { return None } p = p * d + *x as usize; }
    Some(p)
}
fn coords(shape: &[usize]) -> Vec<Vec<i64>> {
    let mut r = vec![vec![]];
    for d in shape { r = r.iter().flat_map(|c: &Vec<i64>| (0..*d as i64).map(move |x| { let mut c = c.clone(); c.push(x); c })).collect(); }
    r
}
#[no_mangle]
pub extern "C" fn h_array_index() {
    let mut a = array();
    const E: [&str; 12] = ["a arr.get(co)", "(a arr.set(co, 7)) arr.to-list", "[(a arr.set(co, 7)) arr.get(co), a arr.to-list]", "(arr.slice(0, i, a)) arr.to-list", "(arr.slice(1, j, a)) arr.to-list", "(arr.slice(i, 0, a)) arr.shape",
        "(arr.transpose(a)) arr.get(co)", "a arr.reshape([3, 2]) arr.get([i, j])", "a arr.get([i])", "arr.neighbours(co, [[0, 1], [1, 0], [-1, 0], [1, -9223372036854775808]] map(take(sh count)), a)", "arr.neighbours(co, [[0, 0, 0]] map(take(sh count)), a)", "arr.from-flat([i, j], vs) arr.to-list"];
    let (e, out) = go(&E, &mut a);
    let (v, sh, c) = (&a.v, &a.shape, &a.c);
    let p = pos(sh, c);
    let slice = |axis: usize, k: i64| if axis >= sh.len() || k < 0 || k as usize >= sh[axis] { None } else { Some(fl(&coords(sh).iter().filter(|c| c[axis] == k).map(|c| v[pos(sh, c).unwrap_or(0)]).collect::<Vec<_>>())) };
    match e {
        0 => opt(&out, p.map(|p| f(v[p])), "array-get"),
        1 => opt(&out, p.map(|p| { let mut w = v.clone(); w[p] = 7.0; fl(&w) }), "array-set"),
        2 => opt(&out, p.map(|_| l(vec![f(7.0), fl(v)])), "array-set"),
        3 => opt(&out, slice(0, a.k), "array-slice"),
        4 => opt(&out, slice(1, c.get(1).copied().unwrap_or(0)), "array-slice"),
        5 => opt(&out, if a.k >= 0 && (a.k as usize) < sh.len() && sh[a.k as usize] > 0 { let mut s = sh.clone(); s.remove(a.k as usize); Some(fl(&s.iter().map(|x| *x as f64).collect::<Vec<_>>())) } else { None }, "array-slice-shape"),
        6 => { let r: Vec<i64> = c.iter().rev().cloned().collect(); opt(&out, pos(sh, &r).map(|p| f(v[p])), "array-transpose") }
        7 => opt(&out, if v.len() == 6 { pos(&[3, 2], &[a.k, a.j]).map(|p| f(v[p])) } else { None }, "array-reshape"),
        8 => opt(&out, if sh.len() == 1 { pos(sh, &[a.k]).map(|p| f(v[p])) } else { None }, "array-get-rank"),
        9 => {
            let offs: [[i64; 2]; 4] = [[0, 1], [1, 0], [-1, 0], [1, i64::MIN]];
            if c.iter().any(|x| *x < 0) { check(err(&out).is_some(), "array-neighbours") }
            // an offset must have one number per axis
            else if sh.len() < 3 {
                let w: Vec<f64> = offs.iter().filter_map(|o| { let m: Vec<i64> = c.iter().zip(o).map(|(x, y)| x.saturating_add(*y)).collect(); pos(sh, &m).map(|p| v[p]) }).collect();
                check(is(&out, fl(&w)), "array-neighbours");
            }
        }
        10 => if c.iter().any(|x| *x < 0) { check(err(&out).is_some(), "array-neighbours") } else { check(is(&out, fl(&p.iter().map(|p| v[*p]).collect::<Vec<_>>())), "array-neighbours") },
        _ => {
            opt(&out, if a.k >= 0 && a.j >= 0 && (a.k * a.j) as usize == v.len() { Some(fl(v)) } else { None }, "array-from-flat")
        }
    }
}
#[no_mangle]
pub extern "C" fn h_array_whole() {
    let mut a = array();
    const E: [&str; 21] = ["a arr.to-list", "a arr.shape", "[a arr.rank, a arr.length, a arr.array?]", "a arr.indices", "arr.map(+ 1, a) arr.to-list", "arr.fold(flip(cons), [], a)", "(a + a) arr.to-list", "(a - 1) arr.to-list", "(1 - a) arr.to-list", "(a * 2) arr.to-list",
        "arr.div(a, 2) arr.to-list", "arr.div(1, a) arr.to-list", "arr.div(a, i) arr.to-list", "a = arr.transpose(arr.transpose(a))", "(arr.transpose(a)) arr.shape", "(arr.transpose(a)) arr.to-list", "arr.add(a, arr.from-flat([6], [1, 2, 3, 4, 5, 6])) arr.to-list",
        "[(arr.zeros(sh)) arr.to-list, (arr.fill(sh, 3)) arr.to-list, (arr.map-indexed({c: • x: •}.(x - (c head)), a)) arr.to-list]",
        "(arr.transpose(a) arr.reshape([vs count])) arr.to-list", "arr.add(arr.transpose(a), arr.from-flat(arr.transpose(a) arr.shape, [1, 2, 3, 4, 5, 6] take(vs count))) arr.to-list", "(arr.transpose(a) arr.set([0, 0, 0] take(sh count), 9)) arr.to-list"];
    let (e, out) = go(&E, &mut a);
    let (v, sh) = (&a.v, &a.shape);
    let us = |s: &[usize]| fl(&s.iter().map(|x| *x as f64).collect::<Vec<_>>());
    let map = |g: &dyn Fn(f64) -> f64| fl(&v.iter().map(|x| g(*x)).collect::<Vec<_>>());
    let rsh: Vec<usize> = sh.iter().rev().cloned().collect();
    match e {
        0 => check(is(&out, fl(v)), "array-to-list"),
        1 => check(is(&out, us(sh)), "array-shape"),
        2 => check(is(&out, l(vec![n(sh.len() as i64), n(v.len() as i64), V::Bool(true)])), "array-size"),
        3 => check(is(&out, l(coords(sh).iter().map(|c| fl(&c.iter().map(|x| *x as f64).collect::<Vec<_>>())).collect())), "array-indices"),
        4 => check(is(&out, map(&|x| x + 1.0)), "array-map"),
        5 => check(is(&out, fl(&v.iter().rev().cloned().collect::<Vec<_>>())), "array-fold"),
        6 => check(is(&out, map(&|x| x + x)), "array-arithmetic"),
        7 => check(is(&out, map(&|x| x - 1.0)), "array-arithmetic"),
        8 => check(is(&out, map(&|x| 1.0 - x)), "array-arithmetic"),
        9 => check(is(&out, map(&|x| x * 2.0)), "array-arithmetic"),
        10 => check(is(&out, map(&|x| x / 2.0)), "array-arithmetic"),
        11 => check(is(&out, map(&|x| 1.0 / x)), "array-arithmetic"),
        12 => { let d = a.k as f64; opt(&out, if a.k == 0 && !v.is_empty() { None } else { Some(map(&|x| x / d)) }, "array-division") }
        13 => check(is(&out, V::Bool(true)), "array-transpose-twice"),
        14 => check(is(&out, us(&rsh)), "array-transpose-shape"),
        15 => check(is(&out, fl(&coords(&rsh).iter().map(|c| { let r: Vec<i64> = c.iter().rev().cloned().collect(); v[pos(sh, &r).unwrap_or(0)] }).collect::<Vec<_>>())), "array-transpose"),
        16 => opt(&out, if sh.len() == 1 { Some(fl(&v.iter().enumerate().map(|(i, x)| x + 1.0 + i as f64).collect::<Vec<_>>())) } else { None }, "array-shapes-agree"),
        18..=20 => {
            let t: Vec<f64> = coords(&rsh).iter().map(|c| { let r: Vec<i64> = c.iter().rev().cloned().collect(); v[pos(sh, &r).unwrap_or(0)] }).collect();
            let w = match e { 18 => Some(t), 19 => Some(t.iter().enumerate().map(|(i, x)| x + 1.0 + i as f64).collect()), _ => if v.is_empty() { None } else { let mut t = t; t[0] = 9.0; Some(t) } };
            opt(&out, w.map(|w| fl(&w)), "array-after-transpose")
        }
        _ => check(is(&out, l(vec![fl(&vec![0.0; v.len()]), fl(&vec![3.0; v.len()]), fl(&coords(sh).iter().zip(v).map(|(c, x)| x - c[0] as f64).collect::<Vec<_>>())])), "array-fill"),
    }
}
/// shapes and indices no array can have
#[no_mangle]
pub extern "C" fn h_array_extreme() {
    let q = u8v("q");
    assume(q < 9);
    const E: [&str; 9] = ["arr.zeros([big, 2]) arr.length", "arr.fill([2, big], 1) arr.length", "arr.from-flat([big, big], [1]) arr.length", "arr.from-flat([1], [1]) arr.reshape([big, big]) arr.length", "arr.from-flat([1], [1]) arr.get([big])",
        "arr.from-flat([1], [1]) arr.set([big], 1) arr.length", "arr.slice(0, big, arr.from-flat([1], [1])) arr.rank", "arr.slice(big, 0, arr.from-flat([1], [1])) arr.rank", "arr.neighbours([big], [[big]], arr.from-flat([1], [1]))"];
    let (e, out) = select_in("big: [4611686018427387904, 9223372036854775807, -9223372036854775808, -1, 18446744073709551615, 9007199254740992, 1000000000000000000000.0, -1000000000000000000000.0, -0.5] nth(\"@0\")\n", &E, &[nint(q as i64)], &prel());
    cover(e as u64);
    let q = conc(q as u64);
    if e == 8 && !matches!(q, 2 | 3 | 7 | 8) { check(is(&out, l(vec![])), "array-far-neighbour") } else { check(err(&out).is_some(), "array-extreme") }
}
#[no_mangle]
pub extern "C" fn h_vec() {
    let mut v = vec![];
    for i in 0..4 { v.push((1i64 << 53) + u8v(["a", "b", "c", "d"][i]) as i64); }
    let (len, i, j) = (u8v("length"), u8v("i"), u8v("j"));
    assume(len < 5); assume(i < 7); assume(j < 7);
    let mut lits: Vec<Lit> = v.iter().map(|x| nint(*x)).collect();
    for x in [len as i64, i as i64 - 2, j as i64 - 2] { lits.push(nint(x)); }
    const E: [&str; 7] = ["v vec.to-list", "v vec.len", "v vec.nth(i)", "(v vec.slice(i, j)) vec.to-list", "(v vec.slice(i, j)) vec.len", "vec.of([:x, \"y\", i]) vec.to-list", "[vec.of(xs) = v, vec.of(v vec.to-list) = v]"];
    let (e, out) = select_in("xs: [\"@0\", \"@1\", \"@2\", \"@3\"] take(\"@4\")\nv: vec.of(xs)\ni: \"@5\"\nj: \"@6\"\n", &E, &lits, &prel());
    let (len, i, j) = (conc(len as u64) as usize, conc(i as u64) as i64 - 2, conc(j as u64) as i64 - 2);
    v.truncate(len);
    cover(e as u64); cover(100 + len as u64);
    let nums = |v: &[i64]| l(v.iter().map(|x| n(*x)).collect());
    let (from, to) = (i.clamp(0, len as i64) as usize, j.clamp(0, len as i64) as usize);
    let part = if from <= to { &v[from..to] } else { &[][..] };
    match e {
        0 => check(is(&out, nums(&v)), "vec-to-list"),
        1 => check(is(&out, n(len as i64)), "vec-len"),
        2 => opt(&out, if i >= 0 { v.get(i as usize).map(|x| n(*x)) } else { None }, "vec-nth"),
        3 => check(is(&out, nums(part)), "vec-slice"),
        4 => check(is(&out, n(part.len() as i64)), "vec-slice"),
        5 => check(is(&out, l(vec![sy("x"), V::Str("y".into()), n(i)])), "vec-kinds"),
        _ => check(is(&out, l(vec![V::Bool(true), V::Bool(true)])), "vec-equality"),
    }
}
entries!(h_number, h_set, h_array_index, h_array_whole, h_array_extreme, h_vec);
