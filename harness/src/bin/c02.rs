use euh::pipe::*;
use euh::*;
use eucalypt::eval::primitive::Primitive;
use std::cmp::Ordering;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
const REL: &str = r#"r: ["@0" < "@1", "@0" = "@1", "@0" > "@1", "@0" <= "@1", "@0" >= "@1", "@0" != "@1", "@1" < "@0", "@1" = "@0", "@0" ≤ "@1", "@0" ≥ "@1", "@0" ≠ "@1"]"#;
fn bools(o: &Out) -> Option<Vec<bool>> {
    let v = outcome(o);
    if let Err(e) = &v { note(e); }
    v.ok().map(|v| v.iter().filter_map(|p| if let Primitive::Bool(b) = p { Some(*b) } else { None }).collect())
}
fn relations(out: &Out, want: Option<Ordering>) {
    let Some(v) = bools(out) else { check(false, "comparison-gives-an-answer"); return };
    check(v.len() == 11, "all-answers-boolean");
    let (lt, eq, gt) = (v[0], v[1], v[2]);
    check((lt as u8) + (eq as u8) + (gt as u8) == 1, "trichotomy");
    cover(if lt { 1 } else if eq { 2 } else { 3 });
    check(v[3] == !gt && v[4] == !lt && v[5] == !eq && v[6] == gt && v[7] == eq && v[8] == v[3] && v[9] == v[4] && v[10] == v[5], "derived-operators-agree");
    if let Some(o) = want {
        check(lt == (o == Ordering::Less) && eq == (o == Ordering::Equal) && gt == (o == Ordering::Greater), "compares-by-value");
    }
}
#[no_mangle]
pub extern "C" fn h_int() {
    let (a, b) = (i64v("a"), i64v("b"));
    relations(&run(REL, &[nint(a), nint(b)], &prel()), Some(a.cmp(&b)));
}
#[no_mangle]
pub extern "C" fn h_uint() {
    let (a, b) = (u64v("a"), u64v("b"));
    assume(a > i64::MAX as u64);
    relations(&run(REL, &[nuint(a), nuint(b)], &prel()), Some(a.cmp(&b)));
}
#[no_mangle]
pub extern "C" fn h_mixed_sign() {
    let (a, b) = (u64v("a"), i64v("b"));
    assume(a > i64::MAX as u64);
    relations(&run(REL, &[nint(b), nuint(a)], &prel()), Some(Ordering::Less));
}
#[no_mangle]
pub extern "C" fn h_float() {
    let (a, b) = (f64v("a"), f64v("b"));
    assume(a.is_finite() & b.is_finite());
    relations(&run(REL, &[nflt(a), nflt(b)], &prel()), a.partial_cmp(&b));
}
#[no_mangle]
pub extern "C" fn h_int_float() {
    let (a, b) = (i64v("a"), f64v("b"));
    assume(b.is_finite());
    // exact comparison: doubles from 2^63 up exceed every i64; below that they compare as floor and fraction
    let want = if b >= 9223372036854775808.0 { Ordering::Less } else if b < -9223372036854775808.0 { Ordering::Greater } else {
        let f = b.floor();
        a.cmp(&(f as i64)).then(if b > f { Ordering::Less } else { Ordering::Equal })
    };
    relations(&run(REL, &[nint(a), nflt(b)], &prel()), Some(want));
}
#[no_mangle]
pub extern "C" fn h_string() {
    let (a, b) = (utf8("a", 2), utf8("b", 2));
    let want = a.as_bytes().cmp(b.as_bytes());
    relations(&run(REL, &[Lit::Str(a), Lit::Str(b)], &prel()), Some(want));
}

const MINMAX: [&str; 10] = [r#"max("@0", "@1")"#, r#"min("@0", "@1")"#, r#"["@0", "@1", "@2"] max-of"#, r#"["@0", "@1", "@2"] min-of"#, r#""@0" zero?"#, r#""@0" pos?"#, r#""@0" neg?"#,
    r#"["@0", "@1", "@2"] max-of-by(negate)"#, r#"["@0", "@1", "@2"] sort-nums last"#, r#"[["@0", 1], ["@1", 2], ["@2", 3]] min-of-by(first) first"#];
#[no_mangle]
pub extern "C" fn h_minmax() {
    let (a, b, c) = (i64v("a"), i64v("b"), i64v("c"));
    assume(a != i64::MIN && b != i64::MIN && c != i64::MIN);
    let (k, out) = select(&MINMAX, &[nint(a), nint(b), nint(c)], &prel());
    let (hi, lo) = (a.max(b).max(c), a.min(b).min(c));
    match (k, scalar(&out)) {
        (4..=6, Ok(Primitive::Bool(v))) => { cover(k as u64); check(v == match k { 4 => a == 0, 5 => a > 0, _ => a < 0 }, "sign-predicate"); }
        (4..=6, _) => check(false, "sign-predicate-gives-boolean"),
        (_, Ok(Primitive::Num(n))) => {
            cover(k as u64);
            check(n.as_i64() == Some(match k { 0 => a.max(b), 1 => a.min(b), 2 | 8 => hi, 3 | 7 | 9 => lo, _ => 0 }), "extremum");
        }
        _ => check(false, "extremum-is-a-number"),
    }
}

/// structural equality: pairs of equal shape with symbolic leaves
const SHAPES: [(&str, &str); 9] = [
    (r#"["@0", "@1"]"#, r#"["@2", "@3"]"#),
    (r#"{a: "@0" b: "@1"}"#, r#"{a: "@2" b: "@3"}"#),
    (r#"{a: ["@0"] b: {c: "@1"}}"#, r#"{a: ["@2"] b: {c: "@3"}}"#),
    (r#"{a: "@0"} {b: "@1"}"#, r#"{a: "@2" b: "@3"}"#),
    (r#"block([[:a, "@0"], [:b, "@1"]])"#, r#"{a: "@2" b: "@3"}"#),
    (r#"{a: "@0" b: "@1"} elements"#, r#"[[:a, "@2"], [:b, "@3"]]"#),
    (r#"arr.from-flat([2], ["@0", "@1"])"#, r#"arr.from-flat([2], ["@2", "@3"])"#),
    (r#"vec.of(["@0", "@1"])"#, r#"vec.of(["@2", "@3"])"#),
    (r#"[["@0", "@1"] // {m: 1}, "x", :s, null, true]"#, r#"[["@2" // {m: 2}, "@3"], "x", :s, null, true]"#),
];
#[no_mangle]
pub extern "C" fn h_structural() {
    let v: Vec<i64> = ["a", "b", "c", "d"].iter().map(|n| i64v(n)).collect();
    let mut small = true;
    for x in &v { small &= *x >= -(1 << 53) && *x <= 1 << 53; }
    assume(small);
    let mut es = vec![];
    for (x, y) in SHAPES { es.push(format!("({x}) = ({y})")); es.push(format!("({y}) = ({x})")); }
    for (x, y) in SHAPES { es.push(format!("({x}) != ({y})")); }
    let (k, out) = select(&es.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &v.iter().map(|x| nint(*x)).collect::<Vec<_>>(), &prel());
    let want = v[0] == v[2] && v[1] == v[3];
    match scalar(&out) {
        Ok(Primitive::Bool(b)) => { cover(k as u64); check(b == (want ^ (k >= 2 * SHAPES.len())), "structural-equality"); }
        _ => check(false, "equality-gives-boolean"),
    }
}

/// values of different kinds or shapes: equality answers (false, both ways round), ordering is an error
const KINDS: [&str; 16] = [r#""@0""#, r#""s""#, ":s", "[]", r#"["@0"]"#, "{}", r#"{a: "@0"}"#, "null", "true", "false", "t\"2020-01-01T00:00:00Z\"", r#"["@0", 1]"#, r#"[["@0"]]"#, r#"{b: "@0"}"#, "set.from-list([1])", "arr.from-flat([1], [1])"];
#[no_mangle]
pub extern "C" fn h_kinds() {
    let a = i64v("a");
    let ks: Vec<String> = KINDS.iter().map(|s| format!("({s})")).collect();
    let src = format!("xs: [{}]\nx: xs nth(\"@1\")\ny: xs nth(\"@2\")\nr: [x = y, y = x, x = x, x != y] nth(\"@3\")\n", ks.join(", "));
    let (p, k) = (u8v("kinds"), u8v("k"));
    let (i, j) = (p / 16, p % 16);
    assume(i != j);
    assume(k < 4);
    let src = src.replace("r: [", "r: {v: [").replace("nth(\"@3\")\n", "nth(\"@3\")}.v\n").replace("xs:", "` :suppress\nxs:").replace("\nx:", "\n` :suppress\nx:").replace("\ny:", "\n` :suppress\ny:");
    let out = run(&src, &[nint(a), nint(i as i64), nint(j as i64), nint(k as i64)], &prel());
    match scalar(&out) {
        Ok(Primitive::Bool(b)) => { cover(k as u64); check(b == (k >= 2), "values-of-different-kinds-differ"); }
        _ => check(false, "equality-gives-boolean"),
    }
}
#[no_mangle]
pub extern "C" fn h_kinds_order() {
    let a = i64v("a");
    let ks: Vec<String> = KINDS[..14].iter().map(|s| format!("({s})")).collect();
    let cmp: Vec<String> = ["<", ">", "<=", ">="].iter().map(|o| format!("(xs nth(\"@1\")) {o} (xs nth(\"@2\"))")).collect();
    let src = format!("` :suppress\nxs: [{}]\nr: [{}] nth(\"@3\")\n", ks.join(", "), cmp.join(", "));
    let (p, k) = (u8v("kinds"), u8v("k"));
    let (i, j) = (p / 16, p % 16);
    assume(i < 14 && j < 14 && i != j);
    assume(k < 4);
    let out = run(&src, &[nint(a), nint(i as i64), nint(j as i64), nint(k as i64)], &prel());
    if let Out::RunError(e) = &out { note(e); } 
    cover(k as u64);
    check(matches!(out, Out::RunError(_)), "values-of-different-kinds-are-not-ordered");
}
entries!(h_int, h_uint, h_mixed_sign, h_float, h_int_float, h_string, h_minmax, h_structural, h_kinds, h_kinds_order);
