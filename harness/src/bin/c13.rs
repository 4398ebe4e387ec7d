//! Blocks
use euh::docs::V;
use euh::pipe::*;
use euh::*;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
fn n(i: i64) -> V { V::Num(i.into()) }
fn sy(s: &str) -> V { V::Sym(s.into()) }
type B = Vec<(&'static str, i64)>;
fn blk(b: &B) -> V { V::Block(b.iter().map(|(k, v)| (k.to_string(), n(*v))).collect()) }
fn get(b: &B, k: &str) -> Option<i64> { b.iter().find(|e| e.0 == k).map(|e| e.1) }
fn set(b: &B, k: &'static str, v: i64) -> B { let mut w = b.clone(); match w.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = v, None => w.push((k, v)) } w }
fn merged(l: &B, r: &B) -> B { r.iter().fold(l.clone(), |b, (k, v)| set(&b, k, *v)) }
const KEYS: [&str; 5] = ["a", "b", "c", "d", "e e"];
/// blocks a, b, c (built in several ways) and one with two other keys
const DECLS: &str = "ks: [:a, :b, :c, :d, sym(\"e e\")]
l0: {a: \"@0\" b: \"@1\" c: \"@2\"}
ls: [l0, block([[:a, \"@0\"], [:b, \"@1\"], [:c, \"@2\"]]), merge({a: \"@0\" b: 7}, {b: \"@1\" c: \"@2\"}), {a: 7, b: \"@1\"} << {c: \"@2\", a: \"@0\"}, ({b: \"@1\", d: 7, a: 7} dissoc([:d, :b, :a])) {a: \"@0\"} {b: \"@1\"} {c: \"@2\"},
 {a: \"@0\" b: 7 c: \"@2\"} set-value(:b, \"@1\"), {a: \"@0\" - 1 b: \"@1\" - 1 c: \"@2\" - 1} map-values(inc), zip-kv([:a, :b, :c], [\"@0\", \"@1\", \"@2\"]), {x: \"@0\" b: \"@1\" c: \"@2\"} map-keys({k: •}.(if(k = :x, :a, k))), l0 // {note: 1}, merge({a: \"@0\" b: 7}, {b: \"@1\" c: \"@2\"} // {note: 2})]
q: \"@5\"
l: ls nth(BUILD)
jn: q % 5
j: ks nth(jn)
k: ks nth((jn + 1 + ((q / 5) % 4)) % 5)
r: block([[j, \"@3\"], [k, \"@4\"]])
";
struct In { v: [i64; 5], build: usize, j: &'static str, k: &'static str, lits: Vec<Lit> }
fn input() -> In {
    let mut v = [0; 5];
    for i in 0..5 { v[i] = (1 << 53) + u8v(["a", "b", "c", "j", "k"][i]) as i64; }
    // which construction of l, and which two keys r has: every pair of keys; in the quick tier the
    // constructions other than the plain block meet four pairs each
    let q = u8v("case");
    assume(q < if thorough() { 220 } else { 60 });
    let mut lits: Vec<Lit> = v.iter().map(|x| nint(*x)).collect();
    lits.push(nint(q as i64));
    In { v, build: 0, j: KEYS[0], k: KEYS[0], lits }
}
fn decls() -> String { DECLS.replace("BUILD", if thorough() { "q / 20" } else { "if(q < 20, 0, 1 + ((q - 20) % 10))" }) }
fn go(e: &[&str], i: &mut In) -> (usize, Out, B, B) {
    let (x, out) = select_in(&decls(), e, &i.lits, &prel());
    let q = match &i.lits[5] { Lit::Num(m) => conc(m.as_u64().unwrap_or(0)) as usize, _ => 0 };
    i.build = if thorough() { q / 20 } else if q < 20 { 0 } else { 1 + (q - 20) % 10 };
    i.j = KEYS[q % 5];
    i.k = KEYS[(q % 5 + 1 + q / 5 % 4) % 5];
    cover(x as u64); cover(100 + i.build as u64);
    // a dissoc leaves a block without a, so the keys come in merge order
    let l = vec![("a", i.v[0]), ("b", i.v[1]), ("c", i.v[2])];
    (x, out, l, vec![(i.j, i.v[3]), (i.k, i.v[4])])
}
fn pairs(b: &B) -> V { V::List(b.iter().map(|(k, v)| V::List(vec![sy(k), n(*v)])).collect()) }
fn opt(out: &Out, v: Option<V>, id: &str) { match v { Some(v) => check(is(out, v), id), None => check(err(out).is_some(), id) } }
#[no_mangle]
pub extern "C" fn h_merge() {
    let mut i = input();
    const E: [&str; 10] = ["merge(l, r)", "l r", "l << r", "merge(r, l)", "merge-all([l, {}, r, l])", "merge(l, r) elements", "(l << r) keys", "merge(l, r) lookup-or(k, :none)", "merge({}, merge(l, {}))", "merge(merge(l, r), {d: 5}) = merge(l, merge(r, {d: 5}))"];
    let (e, out, l, r) = go(&E, &mut i);
    let m = merged(&l, &r);
    match e {
        0..=2 => check(is(&out, blk(&m)), "merge"),
        3 => check(is(&out, blk(&merged(&r, &l))), "merge"),
        4 => check(is(&out, blk(&merged(&m, &l))), "merge-all"),
        5 => check(is(&out, pairs(&m)), "elements-of-merge"),
        6 => check(is(&out, V::List(m.iter().map(|e| sy(e.0)).collect())), "keys-of-merge"),
        7 => check(is(&out, get(&m, i.k).map_or(sy("none"), n)), "lookup-in-merge"),
        8 => check(is(&out, blk(&l)), "merge-with-empty"),
        _ => check(is(&out, V::Bool(true)), "merge-associates"),
    }
}
#[no_mangle]
pub extern "C" fn h_lookup() {
    let mut i = input();
    const E: [&str; 13] = ["l lookup(k)", "l lookup-or(k, :none)", "l ~ k", "has(k, l)", "l elements", "l keys", "l values", "lookup-in(l, k)", "lookup-alts([k, j], :none, l)", "lookup-across(k, :none, [{d: 1}, l])", "{x: l} lookup-path([:x, k])", "[l.a, l.b, l.c]", "(l elements block) = l"];
    let (e, out, l, _) = go(&E, &mut i);
    let g = get(&l, i.k).map(n);
    match e {
        0 | 7 | 10 => opt(&out, g, "lookup"),
        1 => check(is(&out, g.unwrap_or(sy("none"))), "lookup-or"),
        2 => check(is(&out, g.unwrap_or(V::Null)), "safe-lookup"),
        3 => check(is(&out, V::Bool(g.is_some())), "has"),
        4 => check(is(&out, pairs(&l)), "elements"),
        5 => check(is(&out, V::List(l.iter().map(|e| sy(e.0)).collect())), "keys"),
        6 => check(is(&out, V::List(l.iter().map(|e| n(e.1)).collect())), "values"),
        8 => check(is(&out, g.or(get(&l, i.j).map(n)).unwrap_or(sy("none"))), "lookup-alts"),
        9 => check(is(&out, if i.k == "d" { n(1) } else { g.unwrap_or(sy("none")) }), "lookup-across"),
        11 => check(is(&out, V::List(vec![n(i.v[0]), n(i.v[1]), n(i.v[2])])), "lookup-static"),
        _ => check(is(&out, V::Bool(true)), "block-of-elements"),
    }
}
#[no_mangle]
pub extern "C" fn h_update() {
    let mut i = input();
    const E: [&str; 16] = ["l set-value(k, \"@3\")", "l alter-value(k, \"@3\")", "l update-value(k, inc)", "l update-value-or(k, inc, \"@3\")", "l select([k, j])", "l dissoc([k, j])", "l map-values(inc)", "l map-kv({a: • b: •}.[b, a])", "l filter-items(by-key(= k))", "l filter-items(by-key(!= k)) block", "{x: l y: 1} alter([:x, k], \"@3\")",
        "{x: l y: 1} merge-at([:x], r)", "{x: l y: 1} deep-merge-at([:z], r)", "{y: 1 x: l} update([:x, k], inc)", "merge(r, l) sort-keys", "map-as-block(const(\"@3\"), [k, j])"];
    let (e, out, l, r) = go(&E, &mut i);
    let (k, w) = (i.k, i.v[3]);
    let has = get(&l, k);
    let only = |f: &dyn Fn(&str) -> bool| blk(&l.iter().cloned().filter(|e| f(e.0)).collect());
    let outer = |x: V| V::Block(vec![("x".into(), x), ("y".into(), n(1))]);
    match e {
        0 => check(is(&out, blk(&set(&l, k, w))), "set-value"),
        1 => check(is(&out, blk(&if has.is_some() { set(&l, k, w) } else { l.clone() })), "alter-value"),
        2 => check(is(&out, blk(&has.map_or(l.clone(), |v| set(&l, k, v + 1)))), "update-value"),
        3 => check(is(&out, blk(&set(&l, k, has.map_or(w, |v| v + 1)))), "update-value-or"),
        4 => check(is(&out, only(&|x| x == k || x == i.j)), "select"),
        5 => check(is(&out, only(&|x| x != k && x != i.j)), "dissoc"),
        6 => check(is(&out, blk(&l.iter().map(|e| (e.0, e.1 + 1)).collect())), "map-values"),
        7 => check(is(&out, V::List(l.iter().map(|e| V::List(vec![n(e.1), sy(e.0)])).collect())), "map-kv"),
        8 => check(is(&out, pairs(&l.iter().cloned().filter(|e| e.0 == k).collect())), "filter-items"),
        9 => check(is(&out, only(&|x| x != k)), "filter-items"),
        10 => check(is(&out, outer(blk(&if has.is_some() { set(&l, k, w) } else { l.clone() }))), "alter-path"),
        11 => check(is(&out, outer(blk(&merged(&l, &r)))), "merge-at"),
        12 => check(is(&out, V::Block(vec![("x".into(), blk(&l)), ("y".into(), n(1)), ("z".into(), blk(&r))])), "deep-merge-at"),
        13 => check(is(&out, V::Block(vec![("y".into(), n(1)), ("x".into(), blk(&has.map_or(l.clone(), |v| set(&l, k, v + 1))))])), "update-path"),
        14 => { let mut m = merged(&r, &l); m.sort_by(|a, b| a.0.cmp(b.0)); check(is(&out, blk(&m)), "sort-keys") }
        _ => check(is(&out, blk(&vec![(k, w), (i.j, w)])), "map-as-block"),
    }
}
/// a block of many keys
#[no_mangle]
pub extern "C" fn h_many() {
    const N: u8 = 20;
    let (i, build) = (u8v("key"), u8v("build"));
    let v = i64v("value");
    assume(i < N + 1 && build < 3);
    let keys: Vec<String> = (0..N).map(|i| format!("k{i}")).collect();
    let lit: String = keys.iter().enumerate().map(|(i, k)| format!("{k}: {i}\n")).collect();
    let d = format!("ks: [{}, :zz]\nl: [{{ {lit} }}, zip-kv(ks take(20), range(0, 20)), merge-all((ks take(20) map({{k: •}}.(block([[k, 5]])))) ++ [{{ {lit} }}])] nth(\"@1\")\nk: ks nth(\"@0\")\n", keys.iter().map(|k| format!(":{k}")).collect::<Vec<_>>().join(", "));
    let (x, out) = select_in(&d, &["l lookup(k)", "l lookup-or(k, \"@2\")", "l ~ k", "has(k, l)", "merge(l, block([[k, \"@2\"]])) elements", "merge(block([[k, \"@2\"]]), l) keys", "l set-value(k, \"@2\") values", "l dissoc([k]) keys"], &[nint(i as i64), nint(build as i64), nint(v)], &prel());
    cover(x as u64);
    let i = conc(i as u64) as usize;
    let key = if i < N as usize { keys[i].clone() } else { "zz".into() };
    let found = i < N as usize;
    let all: Vec<(String, i64)> = keys.iter().cloned().zip(0..).collect();
    let syms = |k: &[String]| V::List(k.iter().map(|k| sy(k)).collect());
    let mut set = all.clone();
    if found { set[i].1 = v } else { set.push((key.clone(), v)) }
    match x {
        0 => if found { check(is(&out, n(i as i64)), "lookup") } else { check(err(&out) == Some("lookup"), "lookup") },
        1 => check(is(&out, n(if found { i as i64 } else { v })), "lookup-or"),
        2 => check(is(&out, if found { n(i as i64) } else { V::Null }), "safe-lookup"),
        3 => check(is(&out, V::Bool(found)), "has"),
        4 => check(is(&out, V::List(set.iter().map(|e| V::List(vec![sy(&e.0), n(e.1)])).collect())), "elements-of-merge"),
        5 => { let mut ks = vec![key.clone()]; ks.extend(keys.iter().filter(|k| **k != key).cloned()); check(is(&out, syms(&ks)), "keys-of-merge") }
        6 => check(is(&out, V::List(set.iter().map(|e| n(e.1)).collect())), "values"),
        _ => check(is(&out, syms(&keys.iter().filter(|k| **k != key).cloned().collect::<Vec<_>>())), "dissoc"),
    }
}
// a small random document: what each key holds
fn doc(s: usize, v: i64, w: i64) -> Option<V> {
    Some(match s { 0 => return None, 1 => n(v), 2 => V::List(vec![n(v), n(w)]), 3 => V::Block(vec![("p".into(), n(v)), ("q".into(), n(w))]), 4 => V::Block(vec![("q".into(), n(v)), ("s".into(), V::Block(vec![("t".into(), n(w))]))]), _ => V::Block(vec![]) })
}
fn deep(l: &V, r: &V) -> V {
    match (l, r) {
        (V::Block(a), V::Block(b)) => {
            let mut m = a.clone();
            for (k, v) in b { match m.iter_mut().find(|e| e.0 == *k) { Some(e) => e.1 = deep(&e.1, v), None => m.push((k.clone(), v.clone())) } }
            V::Block(m)
        }
        _ => r.clone(),
    }
}
/// deep merge of nested blocks, lists and scalars
#[no_mangle]
pub extern "C" fn h_deep() {
    let v: Vec<i64> = ["v0", "v1", "v2", "v3"].iter().map(|x| (1 << 53) + u8v(x) as i64).collect();
    let s: Vec<u8> = ["left-a", "left-b", "right-a", "right-b"].iter().map(|x| { let b = u8v(x); assume(b < if !thorough() && x.ends_with("b") { 3 } else { 6 }); b }).collect();
    let mut lits: Vec<Lit> = v.iter().map(|x| nint(*x)).collect();
    lits.extend(s.iter().map(|x| nint(*x as i64)));
    let d = "d(s, v, w): [[], [v], [[v, w]], [{p: v q: w}], [{q: v s: {t: w}}], [{}]] nth(s)
e(k, s, v, w): d(s, v, w) map({x: •}.[k, x])
l: (e(:a, \"@4\", \"@0\", \"@1\") ++ e(:b, \"@5\", \"@1\", \"@0\")) block
r: (e(:b, \"@7\", \"@3\", \"@2\") ++ e(:a, \"@6\", \"@2\", \"@3\")) block
";
    let (x, out) = select_in(d, &["l << r", "deep-merge(l, r)", "(l << r) << r", "merge(l, r)", "(l << r) = deep-merge(l, r)"], &lits, &prel());
    cover(x as u64);
    let c: Vec<usize> = s.iter().map(|b| conc(*b as u64) as usize).collect();
    let mk = |es: [(&str, Option<V>); 2]| V::Block(es.into_iter().filter_map(|(k, v)| v.map(|v| (k.to_string(), v))).collect());
    let l = mk([("a", doc(c[0], v[0], v[1])), ("b", doc(c[1], v[1], v[0]))]);
    let r = mk([("b", doc(c[3], v[3], v[2])), ("a", doc(c[2], v[2], v[3]))]);
    match x {
        0 | 1 => check(is(&out, deep(&l, &r)), "deep-merge"),
        2 => check(is(&out, deep(&l, &r)), "deep-merge-is-idempotent"),
        3 => { let (V::Block(a), V::Block(b)) = (&l, &r) else { return }; let mut m = a.clone(); for (k, v) in b { match m.iter_mut().find(|e| e.0 == *k) { Some(e) => e.1 = v.clone(), None => m.push((k.clone(), v.clone())) } } check(is(&out, V::Block(m)), "shallow-merge") }
        _ => check(is(&out, V::Bool(true)), "deep-merge-operator"),
    }
}
entries!(h_merge, h_lookup, h_update, h_deep, h_many);
