//! Lists and sorting
use euh::docs::V;
use euh::pipe::*;
use euh::*;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
fn n(i: i64) -> V { V::Num(i.into()) }
fn l(v: &[i64]) -> V { V::List(v.iter().map(|i| n(*i)).collect()) }
fn ll(v: &[Vec<i64>]) -> V { V::List(v.iter().map(|i| l(i)).collect()) }
const DECLS: &str = "a: \"@0\"\nb: \"@1\"\nc: \"@2\"\nd: \"@3\"\nxs: [[], [a], [a, b], [a, b, c], [a, b, c, d]] nth(\"@4\")\nk: \"@5\"\nw: max(k, 1)\n";
struct In { v: Vec<i64>, k: i64, lits: Vec<Lit> }
/// up to four numbers, each below 64 or 64 more than the largest exact double, and an index or size
fn input(kmin: i64, kmax: u8) -> In {
    let big = 1i64 << 53;
    let mut v = vec![];
    for i in 0..4 { let x = u8v(["a", "b", "c", "d"][i]); assume(x < 64); v.push(big + x as i64); }
    let len = u8v("length");
    assume(len < 5);
    let k = u8v("k");
    assume(k < kmax);
    let k = kmin + k as i64;
    let mut lits: Vec<Lit> = v.iter().map(|x| nint(*x)).collect();
    lits.push(nint(len as i64));
    lits.push(nint(k));
    In { v, k, lits }
}
fn run_on(exprs: &[&str], i: &mut In) -> (usize, Out) {
    let (e, out) = select_in(DECLS, exprs, &i.lits, &prel());
    let len = match &i.lits[4] { Lit::Num(m) => conc(m.as_u64().unwrap_or(0)), _ => 0 } as usize;
    i.v.truncate(len);
    cover(len as u64); cover(100 + e as u64);
    (e, out)
}
/// functions of a list and an index
#[no_mangle]
pub extern "C" fn h_index() {
    let mut i = input(-2, 9);
    const E: [&str; 14] = ["xs take(k)", "xs drop(k)", "xs split-at(k)", "xs nth(k)", "xs !! k", "(xs take(k)) ++ (xs drop(k))", "range(3, k)", "xs update-nth(k, + 1)", "xs rotate(k)", "xs window(w, 1)", "xs window(2, w)", "xs partition(w)", "xs window-all(w, 2)", "xs partition-all(w)"];
    let (e, out) = run_on(&E, &mut i);
    let (v, k) = (&i.v, conc(i.k as u64) as i64);
    let u = k.max(0) as usize;
    let some = |x: Option<V>, out: &Out, id: &str| match x { Some(v) => check(is(out, v), id), None => check(err(out).is_some(), id) };
    let w = k.max(1) as usize;
    let inside = k >= 0 && u <= v.len();
    match e {
        0 => check(is(&out, l(&v[..u.min(v.len())])), "take"),
        1 => some(if u <= v.len() { Some(l(&v[u..])) } else { None }, &out, "drop"),
        2 => if k >= 0 { let m = u.min(v.len()); check(is(&out, ll(&[v[..m].to_vec(), v[m..].to_vec()])), "split-at") },
        3 | 4 => some(if k >= 0 { v.get(u).map(|x| n(*x)) } else { None }, &out, "nth"),
        5 => some(if u <= v.len() { Some(l(v)) } else { None }, &out, "take-drop"),
        6 => check(is(&out, l(&(3..k).collect::<Vec<_>>())), "range"),
        7 => some(if k >= 0 && u < v.len() { let mut w = v.clone(); w[u] += 1; Some(l(&w)) } else { None }, &out, "update-nth"),
        8 => if inside { let mut w = v.clone(); w.rotate_left(u); check(is(&out, l(&w)), "rotate") },
        9 => { check(is(&out, ll(&v.windows(w).map(|w| w.to_vec()).collect::<Vec<_>>())), "window") },
        10 => { check(is(&out, ll(&v.windows(2).step_by(w).map(|w| w.to_vec()).collect::<Vec<_>>())), "window-step") },
        11 => { check(is(&out, ll(&v.chunks_exact(w).map(|w| w.to_vec()).collect::<Vec<_>>())), "partition") },
        12 => { let m = w; let mut w = vec![]; let mut j = 0; while j < v.len() { w.push(v[j..(j + m).min(v.len())].to_vec()); j += 2; } check(is(&out, ll(&w)), "window-all") },
        _ => { check(is(&out, ll(&v.chunks(w).map(|w| w.to_vec()).collect::<Vec<_>>())), "partition-all") },
    }
}
/// functions of a list alone
#[no_mangle]
pub extern "C" fn h_whole() {
    let mut i = input(0, 1);
    const E: [&str; 24] = ["xs reverse", "xs reverse reverse", "xs ++ xs", "xs append([a])", "xs prepend([a])", "[xs, [], xs] concat", "xs mapcat({x: •}.[x, a])", "xs count", "xs map(+ 1)", "xs zip(xs tail-or([]))",
        "xs zip-with(-, [a, a])", "xs foldl(_1 - _0, 0)", "xs foldr(-, 0)", "xs scanl(_1 - _0, 0)", "xs scanr(-, 0)", "xs tails", "xs head-or(:none)", "xs last", "xs butlast", "xs interleave([1, 2])",
        "xs zip(xs reverse) unzip", "xs cross(-, [1, 2])", "xs snoc(7)", "xs reduce(-)"];
    let (e, out) = run_on(&E, &mut i);
    let v = &i.v;
    let a = match &i.lits[0] { Lit::Num(m) => m.as_i64().unwrap_or(0), _ => 0 };
    let rev: Vec<i64> = v.iter().rev().cloned().collect();
    match e {
        0 => check(is(&out, l(&rev)), "reverse"),
        1 => check(is(&out, l(v)), "reverse-twice"),
        2 => check(is(&out, l(&[&v[..], &v[..]].concat())), "append"),
        3 => check(is(&out, l(&[&[a], &v[..]].concat())), "append"),
        4 => check(is(&out, l(&[&v[..], &[a]].concat())), "prepend"),
        5 => check(is(&out, l(&[&v[..], &v[..]].concat())), "concat"),
        6 => check(is(&out, l(&v.iter().flat_map(|x| [*x, a]).collect::<Vec<_>>())), "mapcat"),
        7 => check(is(&out, n(v.len() as i64)), "count"),
        8 => check(is(&out, l(&v.iter().map(|x| x + 1).collect::<Vec<_>>())), "map"),
        9 => check(is(&out, ll(&v.windows(2).map(|w| vec![w[1], w[0]]).collect::<Vec<_>>())), "zip"),
        10 => check(is(&out, l(&v.iter().take(2).map(|x| a - x).collect::<Vec<_>>())), "zip-with"),
        11 => check(is(&out, n(v.iter().fold(0, |s, x| x - s))), "foldl"),
        12 => check(is(&out, n(v.iter().rev().fold(0, |s, x| x - s))), "foldr"),
        13 => { let mut w = vec![0]; for x in v { w.push(x - w[w.len() - 1]); } check(is(&out, l(&w)), "scanl") }
        14 => { let mut w = vec![0]; for x in rev.iter() { w.push(x - w[w.len() - 1]); } w.reverse(); check(is(&out, l(&w)), "scanr") }
        15 => check(is(&out, ll(&(0..v.len()).map(|j| v[j..].to_vec()).collect::<Vec<_>>())), "tails"),
        16 => check(is(&out, v.first().map_or(V::Sym("none".into()), |x| n(*x))), "head-or"),
        17 => match v.last() { Some(x) => check(is(&out, n(*x)), "last"), None => check(err(&out) == Some("head"), "last") },
        18 => if v.is_empty() { check(err(&out) == Some("tail"), "butlast") } else { check(is(&out, l(&v[..v.len() - 1])), "butlast") },
        19 => { let mut w = vec![]; for j in 0..4 { if let Some(x) = [1, 2].get(j) { w.push(*x) } if let Some(x) = v.get(j) { w.push(*x) } } check(is(&out, l(&w)), "interleave") }
        20 => check(is(&out, ll(&[rev.clone(), v.clone()])), "unzip"),
        21 => check(is(&out, l(&[1, 2].iter().flat_map(|y| v.iter().map(move |x| y - x)).collect::<Vec<_>>())) || is(&out, l(&v.iter().flat_map(|x| [x - 1, x - 2]).collect::<Vec<_>>())), "cross"),
        22 => check(is(&out, l(&[&v[..], &[7]].concat())), "snoc"),
        _ => if v.is_empty() { check(err(&out).is_some(), "reduce") } else { check(is(&out, n(v[1..].iter().fold(v[0], |s, x| s - x))), "reduce") },
    }
}
/// functions that compare the elements
#[no_mangle]
pub extern "C" fn h_compare() {
    let mut i = input(0, 64);
    const E: [&str; 20] = ["xs sort-nums", "xs qsort(<)", "xs qsort(>)", "[[a, 1], [b, 2], [c, 3]] sort-by-num(head)", "xs filter(< (k + 9007199254740992))", "xs remove(< (k + 9007199254740992))", "xs take-while(< (k + 9007199254740992))", "xs drop-while(< (k + 9007199254740992))",
        "xs split-after(< (k + 9007199254740992))", "xs discriminate(< (k + 9007199254740992))", "[xs any(= (k + 9007199254740992)), xs all(= (k + 9007199254740992))]", "xs running-max", "xs running-min", "[xs max-of-or(0), xs min-of-or(0)]",
        "xs group-consecutive", "xs uniq", "xs nub-by(identity)", "xs split-on(= (k + 9007199254740992))", "xs split-when(= (k + 9007199254740992))", "xs take-until(= (k + 9007199254740992))"];
    let (e, out) = run_on(&E, &mut i);
    let v = i.v.clone();
    let k = i.k + (1 << 53);
    match e {
        0 | 1 => check(is(&out, l(&sorted(&v, |x, y| x < y))), "sorted"),
        2 => check(is(&out, l(&sorted(&v, |x, y| x > y))), "sorted"),
        3 => { let all: Vec<(i64, i64)> = (0..3).map(|j| (match &i.lits[j] { Lit::Num(m) => m.as_i64().unwrap_or(0), _ => 0 }, j as i64 + 1)).collect(); check(is(&out, ll(&sorted(&all, |x, y| x.0 < y.0).iter().map(|p| vec![p.0, p.1]).collect::<Vec<_>>())), "sort-is-stable") }
        4 => check(is(&out, l(&v.iter().cloned().filter(|x| *x < k).collect::<Vec<_>>())), "filter"),
        5 => check(is(&out, l(&v.iter().cloned().filter(|x| *x >= k).collect::<Vec<_>>())), "remove"),
        6 => check(is(&out, l(&v.iter().cloned().take_while(|x| *x < k).collect::<Vec<_>>())), "take-while"),
        7 => check(is(&out, l(&v.iter().cloned().skip_while(|x| *x < k).collect::<Vec<_>>())), "drop-while"),
        8 => { let m = v.iter().position(|x| *x >= k).unwrap_or(v.len()); check(is(&out, ll(&[v[..m].to_vec(), v[m..].to_vec()])), "split-after") }
        9 => { let (p, q): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x < k); check(is(&out, ll(&[p, q])), "discriminate") }
        10 => check(is(&out, V::List(vec![V::Bool(v.iter().any(|x| *x == k)), V::Bool(v.iter().all(|x| *x == k))])), "any-all"),
        11 => { let mut m = i64::MIN; check(is(&out, l(&v.iter().map(|x| { m = m.max(*x); m }).collect::<Vec<_>>())), "running-max") }
        12 => { let mut m = i64::MAX; check(is(&out, l(&v.iter().map(|x| { m = m.min(*x); m }).collect::<Vec<_>>())), "running-min") }
        13 => check(is(&out, l(&[v.iter().cloned().fold(i64::MIN, i64::max).max(if v.is_empty() { 0 } else { i64::MIN }), v.iter().cloned().reduce(i64::min).unwrap_or(0)])), "max-min"),
        14 | 15 => {
            let mut g: Vec<Vec<i64>> = vec![];
            for x in &v { match g.last_mut() { Some(w) if w[0] == *x => w.push(*x), _ => g.push(vec![*x]) } }
            if e == 14 { check(is(&out, ll(&g)), "group-consecutive") } else { check(is(&out, l(&g.iter().map(|w| w[0]).collect::<Vec<_>>())), "uniq") }
        }
        16 => { let mut w: Vec<i64> = vec![]; for x in &v { if !w.iter().any(|y| y == x) { w.push(*x) } } check(is(&out, l(&w)), "nub") }
        17 => { let mut g: Vec<Vec<i64>> = vec![vec![]]; for x in &v { if *x == k { g.push(vec![]) } else { let m = g.len() - 1; g[m].push(*x) } } check(is(&out, ll(&g)), "split-on") }
        18 => { let m = v.iter().position(|x| *x == k).unwrap_or(v.len()); check(is(&out, ll(&[v[..m].to_vec(), v[m..].to_vec()])), "split-when") }
        _ => check(is(&out, l(&v.iter().cloned().take_while(|x| *x != k).collect::<Vec<_>>())), "take-until"),
    }
}
/// a stable insertion sort
fn sorted<T: Clone>(v: &[T], lt: impl Fn(&T, &T) -> bool) -> Vec<T> {
    let mut w: Vec<T> = vec![];
    for x in v { let mut j = w.len(); while j > 0 && lt(x, &w[j - 1]) { j -= 1; } w.insert(j, x.clone()); }
    w
}
entries!(h_index, h_whole, h_compare);
