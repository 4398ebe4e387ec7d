use euh::pipe::*;
use euh::*;
use eucalypt::eval::primitive::Primitive;
use serde_json::Number;

const BIN: [&str; 8] = [r#""@0" + "@1""#, r#""@0" - "@1""#, r#""@0" * "@1""#, r#""@0" / "@1""#, r#""@0" % "@1""#, r#"quot("@0", "@1")"#, r#"rem("@0", "@1")"#, r#""@0" - (∸ "@1")"#];

fn floor_div(a: i64, b: i64) -> Option<i64> {
    let d = a.checked_div(b)?;
    let r = a.wrapping_rem(b);
    Some(if r != 0 && (r < 0) != (b < 0) { d - 1 } else { d })
}
fn floor_mod(a: i64, b: i64) -> i64 {
    if b == -1 { return 0; }
    let r = a.wrapping_rem(b);
    if r != 0 && (r < 0) != (b < 0) { r + b } else { r }
}

/// all pairs of signed 64-bit integers
#[no_mangle]
pub extern "C" fn h_int_binary() {
    let (a, b) = (i64v("a"), i64v("b"));
    let (k, out) = select(&BIN, &[nint(a), nint(b)], &Opts { prelude: true, ..Default::default() });
    let want: Option<i64> = match k {
        0 => a.checked_add(b),
        1 => a.checked_sub(b),
        2 => a.checked_mul(b),
        3 => if b == 0 { None } else { floor_div(a, b) },
        4 => if b == 0 { None } else { Some(floor_mod(a, b)) },
        5 => if b == 0 { None } else { a.checked_div(b) },
        6 => if b == 0 { None } else if b == -1 { Some(0) } else { Some(a.wrapping_rem(b)) },
        _ => 0i64.checked_sub(b).and_then(|c| a.checked_sub(c)),
    };
    let min_mod = (k == 4 || k == 6) && a == i64::MIN && b == -1; // an error is acceptable, a wrong answer is not
    match scalar(&out) {
        Ok(Primitive::Num(n)) => {
            cover(10 + k as u64);
            let v = n.as_i64();
            check(v.is_some() && v == want, "integer-result-exact");
        }
        Ok(_) => check(false, "result-is-a-number"),
        Err(e) => {
            cover(30 + k as u64);
            check(want.is_none() || min_mod, "no-error-when-representable");
            if b == 0 && (3..7).contains(&k) { check(e == "zero", "division-by-zero-error"); } else { check(e == "range", "range-error"); }
        }
    }
}

/// integers between i64::MAX and u64::MAX plus or minus any signed integer
#[no_mangle]
pub extern "C" fn h_int_wide() {
    let (a, b) = (u64v("a"), i64v("b"));
    assume(a > i64::MAX as u64);
    let (k, out) = select(&[r#"__ADD("@0", "@1")"#, r#"__SUB("@0", "@1")"#, r#"__ADD("@1", "@0")"#, r#"__SUB("@1", "@0")"#], &[nuint(a), nint(b)], &Opts { prelude: true, ..Default::default() });
    let (l, r) = (a as i128, b as i128);
    let want = match k { 0 | 2 => l + r, 1 => l - r, _ => r - l };
    wide_result(&out, want);
}
/// ... times a small integer (only factors within -1..=1 can give a representable product)
#[no_mangle]
pub extern "C" fn h_int_wide_mul() {
    let (a, b) = (u64v("a"), u8v("b") as i8 as i64);
    assume(a > i64::MAX as u64 && b >= -3 && b <= 3);
    let (_, out) = select(&[r#"__MUL("@0", "@1")"#, r#"__MUL("@1", "@0")"#], &[nuint(a), nint(b)], &Opts { prelude: true, ..Default::default() });
    let l = a as i128;
    wide_result(&out, match b { 0 => 0, 1 => l, -1 => -l, 2 => l + l, -2 => -l - l, 3 => l + l + l, _ => -l - l - l });
}
fn wide_result(out: &Out, want: i128) {
    match scalar(out) {
        Ok(Primitive::Num(n)) => {
            cover(10);
            check(!n.is_f64(), "wide-integer-result-is-an-integer");
            let got: i128 = if let Some(u) = n.as_u64() { u as i128 } else { n.as_i64().unwrap_or(0) as i128 };
            check(got == want, "wide-result-exact");
        }
        Ok(_) => check(false, "result-is-a-number"),
        Err(e) => {
            cover(30);
            check(e == "range", "range-error");
            check(want < i64::MIN as i128 || want > u64::MAX as i128, "wide-error-only-when-unrepresentable");
        }
    }
}

/// ... divided by, or dividing, an integer of either sign
#[no_mangle]
pub extern "C" fn h_int_wide_div() {
    let a = u64v("a");
    assume([1u64 << 63, 10_000_000_000_000_000_000, u64::MAX - 65535].iter().fold(false, |t, b| t | (a.wrapping_sub(*b) < 65536)));
    let bs: &[i64] = if thorough() { &[-1, -2, -3, -7, -10, i64::MIN, i64::MIN + 1, 3, 10, i64::MAX, 0] } else { &[-3, i64::MIN, 3, 0] };
    let mut es = vec![];
    for b in bs {
        for op in ["DIV", "MOD", "QUOT", "REM"] {
            es.push(format!("__{op}(\"@0\", {b})"));
            es.push(format!("__{op}({b}, \"@0\")"));
        }
    }
    let (n, out) = select(&es.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &[nuint(a)], &Opts { prelude: true, ..Default::default() });
    let (b, k, swap) = (bs[n / 8], n / 2 % 4, n % 2 == 1);
    let (l, r) = if swap { (b as i128, a as i128) } else { (a as i128, b as i128) };
    match scalar(&out) {
        Ok(Primitive::Num(n)) => {
            cover(10 + k as u64);
            check(!n.is_f64(), "wide-division-result-is-an-integer");
            let got: i128 = if let Some(u) = n.as_u64() { u as i128 } else { n.as_i64().unwrap_or(0) as i128 };
            // characterise quotient and remainder without dividing
            let m = r.abs();
            match k {
                0 => { let e = l - got * r; check(if r > 0 { e >= 0 && e < m } else { e <= 0 && -e < m }, "wide-floor-division"); }
                2 => { let e = l - got * r; check(e.abs() < m && (e == 0 || (e < 0) == (l < 0)), "wide-truncating-division"); }
                1 => { check(got.abs() < m && (got == 0 || (got < 0) == (r < 0)), "wide-modulus-range");
                       if swap { check(got == l || got == l + r, "wide-modulus"); } else { check(((l - got) as u64).wrapping_sub((b as i128 * ((l - got) / b as i128)) as u64) == 0, "wide-modulus"); } }
                _ => { check(got.abs() < m && (got == 0 || (got < 0) == (l < 0)), "wide-remainder-range");
                       if swap { check(got == if b as i128 == -r { 0 } else { l }, "wide-remainder"); } else { check(got == (a % b.unsigned_abs()) as i128, "wide-remainder"); } }
            }
        }
        Ok(_) => check(false, "result-is-a-number"),
        Err(e) => {
            cover(30 + k as u64);
            if b == 0 && !swap { check(e == "zero", "division-by-zero-error"); } else {
                // only a quotient below i64::MIN is not representable
                check(e == "range" && !swap && b < 0 && (k == 0 || k == 2), "wide-division-range-error");
                check((a / b.unsigned_abs()) as i128 + (k == 0 && a % b.unsigned_abs() != 0) as i128 > 1 << 63, "wide-division-error-only-when-unrepresentable");
            }
        }
    }
}

const UN: [&str; 9] = [r#""@0" inc"#, r#""@0" dec"#, r#"negate("@0")"#, r#"∸ "@0""#, r#"abs("@0")"#, r#"floor("@0")"#, r#"ceiling("@0")"#, r#"["@0", 5, "@0"] sum"#, r#"["@0", 1, 3] product"#];
#[no_mangle]
pub extern "C" fn h_int_unary() {
    let a = i64v("a");
    let (k, out) = select(&UN, &[nint(a)], &Opts { prelude: true, ..Default::default() });
    let want = match k {
        0 => a.checked_add(1),
        1 => a.checked_sub(1),
        2 | 3 => 0i64.checked_sub(a),
        4 => a.checked_abs(),
        5 | 6 => Some(a),
        7 => a.checked_add(5).and_then(|x| x.checked_add(a)),
        _ => a.checked_mul(3),
    };
    match scalar(&out) {
        Ok(Primitive::Num(n)) => { cover(10 + k as u64); check(n.as_i64().is_some() && n.as_i64() == want, "unary-result-exact"); }
        Ok(_) => check(false, "result-is-a-number"),
        Err(e) => { cover(30 + k as u64); check(want.is_none() && e == "range", "unary-error-only-when-unrepresentable"); }
    }
}

/// powers with exact integer results
#[no_mangle]
pub extern "C" fn h_pow() {
    let a = i64v("a");
    let e = u8v("e");
    assume(a >= -12 && a <= 12 && e <= 40);
    let (a, e) = (conc(a as u64) as i64, conc(e as u64));
    let (k, out) = select(&[r#""@0" ^ "@1""#, r#"pow("@0", "@1")"#], &[nint(a), nint(e as i64)], &Opts { prelude: false, ..Default::default() });
    let _ = (k, out);
}

const BITS: [&str; 12] = [r#""@0" & "@1""#, r#""@0" | "@1""#, r#""@0" ⊕ "@1""#, r#"⊝ "@0""#, r#""@0" ≪ "@1""#, r#""@0" ≫ "@1""#, r#"bit.popcount("@0")"#, r#"bit.ctz("@0")"#, r#"bit.clz("@0")"#, r#"bit.and("@0", "@1")"#, r#"bit.shl("@0", "@1")"#, r#"bit.shr("@0", "@1")"#];
#[no_mangle]
pub extern "C" fn h_bits() {
    let (a, b) = (i64v("a"), i64v("b"));
    let (k, out) = select(&BITS, &[nint(a), nint(b)], &Opts { prelude: true, ..Default::default() });
    let shift_ok = b >= 0 && b < 64;
    let want = match k {
        0 | 9 => Some(a & b),
        1 => Some(a | b),
        2 => Some(a ^ b),
        3 => Some(!a),
        4 | 10 => if shift_ok { Some(((a as u64) << (b as u32 & 63)) as i64) } else { None },
        5 | 11 => if shift_ok { Some(a >> (b as u32 & 63)) } else { None },
        6 => { let mut n = 0; for i in 0..64 { n += (a >> i) & 1; } Some(n) }
        7 => { let mut n = 64; for i in (0..64).rev() { if (a >> i) & 1 == 1 { n = i; } } Some(n) }
        _ => { let mut n = 64; for i in 0..64 { if (a >> i) & 1 == 1 { n = 63 - i; } } Some(n) }
    };
    match scalar(&out) {
        Ok(Primitive::Num(n)) => { cover(10 + k as u64); check(n.as_i64().is_some() && n.as_i64() == want, "bit-result"); }
        Ok(_) => check(false, "result-is-a-number"),
        Err(e) => { cover(30 + k as u64); check(want.is_none() && e == "shift", "bit-error-only-for-shift-range"); }
    }
}

/// floor-style operations on any finite double: whole-number results are exact
const FLT: [&str; 4] = [r#""@0" / 1"#, r#"quot("@0", 1)"#, r#"floor("@0")"#, r#"ceiling("@0")"#];
#[no_mangle]
pub extern "C" fn h_float_floor() {
    let f = f64v("f");
    assume(f.is_finite());
    let (k, out) = select(&FLT, &[nflt(f)], &Opts { prelude: true, ..Default::default() });
    let want = match k { 0 | 2 => f.floor(), 1 => f.trunc(), _ => f.ceil() };
    match scalar(&out) {
        Ok(Primitive::Num(n)) => {
            cover(10 + k as u64);
            if let Some(i) = n.as_i64() { check(want >= -9223372036854775808.0 && want < 9223372036854775808.0 && i == want as i64, "whole-number-exact"); }
            else if n.is_u64() { check(false, "whole-number-signed"); }
            else { check(n.as_f64().map(|x| x == want) == Some(true), "float-result-exact"); }
        }
        Ok(_) => check(false, "result-is-a-number"),
        Err(e) => { cover(30 + k as u64); note(&e); check(false, "no-error-for-finite-doubles"); }
    }
}
entries!(h_int_binary, h_int_wide, h_int_wide_mul, h_int_wide_div, h_int_unary, h_pow, h_bits, h_float_floor);
