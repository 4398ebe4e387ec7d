//! C17: dates and times are exact and round-trip
use euh::docs::V;
use euh::pipe::{Lit, Opts, *};
use euh::*;

fn prel() -> Opts { Opts { prelude: true, ..Default::default() } }
fn n(k: i64) -> V { V::Num(k.into()) }
fn f(x: f64) -> V { V::Num(serde_json::Number::from_f64(x).expect("finite")) }
fn l(v: Vec<V>) -> V { V::List(v) }
/// days since 1970-01-01 of a date in the proleptic Gregorian calendar
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
fn month_days(y: i64, m: i64) -> i64 { match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 2 => 28 + leap(y) as i64, _ => 30 } }
fn year(y: i64) -> String { if y < 0 { format!("-{:04}", -y) } else if y > 9999 { format!("+{y}") } else { format!("{y:04}") } }
fn zone(o: i64, colon: &str) -> String { format!("{}{:02}{colon}{:02}", if o < 0 { '-' } else { '+' }, o.abs() / 60, o.abs() % 60) }
/// offsets by name and minutes
const ZONES: [(&str, Option<i64>); 13] = [("Z", Some(0)), ("-00:30", Some(-30)), ("+05:30", Some(330)), ("-0930", Some(-570)), ("+14:00", Some(840)), ("-23:59", Some(-1439)), ("UTC", Some(0)), ("+24:00", None), ("", None), ("Nowhere/Land", None), ("05:30", None), ("+5", None), ("+01:60", None)];
const YEARS: [i64; 14] = [2024, 2023, 1900, 2000, 0, -1, 99, 9999, 10000, -9999, 262142, 262143, -262143, -262144];
const MIN: i64 = -262143;
const MAX: i64 = 262142;

/// dates and times from components
#[no_mangle]
pub extern "C" fn h_components() {
    // one component takes every value near its limits, in some months, offsets and times
    let (g, y, m, z, w) = (pick("component", 4), u8v("y"), u8v("m"), u8v("zone"), u8v("when"));
    let x = u8v("x");
    assume(x < 64); assume(y < YEARS.len() as u8); assume(m < 14); assume(z < ZONES.len() as u8); assume(w < 4);
    // either every year and month, or every offset and time of day
    let wide = flag("wide");
    if wide { assume(y == 0); assume(m == 2) } else { assume(z == 2); assume(w == if g == 0 { 0 } else { 1 }) }
    if g == 0 { assume(x < 34); if wide { assume((w == 0) | (w == 3)) } } else { assume((y < 2) | (y == 10) | (y == 12)); assume((m == 2) | (m == 12)) }
    if !thorough() { if g == 0 { assume((x < 3) | (x > 26)) } else { assume((x < 3) | ((x > 8) & (x < 11)) | ((x > 21) & (x < 25)) | (x > 57)) } }
    let at = |i: usize| if i == g { "\"@3\"".to_string() } else { format!("[{}] nth(\"@4\")", match i { 0 => "29, 28, 31, 1", 1 => "0, 23, 12, 23", 2 => "0, 59, 34, 0", _ => "0, 59, 56, 1" }) };
    let lits: Vec<Lit> = [y, m, z, x, w].iter().map(|x| nint(*x as i64)).collect();
    let decls = format!("y: {YEARS:?} nth(\"@0\")\nm: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13] nth(\"@1\")\nd: {}\nhh: {}\nmm: {}\nss: {}\nzone: [{}] nth(\"@2\")\nz: cal.zdt(y, m, d, hh, mm, ss, zone)\nof(o): cal.zdt(y, m, d, hh, mm, ss, o)\n", at(0), at(1), at(2), at(3), ZONES.iter().map(|z| format!("\"{}\"", z.0)).collect::<Vec<_>>().join(", "));
    const E: [&str; 2] = ["[cal.fields(z) values, cal.format(z), cal.fields(cal.parse(cal.format(z))) values, cal.fields(cal.datetime(cal.fields(z))) values, z datetime?, cal.parse(cal.format(z)) = z, cal.datetime(cal.fields(z)) = z, z = z, z <= z, z < z]",
        "[z < of(\"+01:00\"), z = of(\"+01:00\"), z > of(\"+01:00\"), z >= of(\"+01:00\"), ([z, of(\"+01:00\")] sort-zdts head) = z, cal.parse(\"2024-02-29T12:00:00Z\") < z]"];
    let (e, out) = select_in(&decls, &E, &lits, &prel());
    let (y, m, z, x, w) = (conc(y as u64), conc(m as u64), conc(z as u64), x as i64, conc(w as u64) as usize);
    let mut c = [[29, 28, 31, 1][w], [0, 23, 12, 23][w], [0, 59, 34, 0][w], [0, 59, 56, 1][w]];
    c[g] = x;
    cover(e as u64); cover(10 + z); cover(30 + y);
    let (y, m, off) = (YEARS[y as usize], m as i64, ZONES[z as usize].1);
    let (d, hh, mm, ss) = (c[0], c[1], c[2], c[3]);
    let possible = (MIN..=MAX).contains(&y) && (1..=12).contains(&m) && d >= 1 && d <= month_days(y, m) && hh < 24 && mm < 60 && ss < 60;
    let Some(o) = off.filter(|_| possible) else { check(err(&out) == Some("datetime"), "impossible"); return };
    let instant = days(y, m, d) * 86400 + hh * 3600 + mm * 60 + ss - o * 60;
    // the first and last days may not have an instant for every offset
    if (y <= MIN && m == 1 && d == 1 || y >= MAX && m == 12 && d == 31) && err(&out).is_some() { cover(50); return }
    let fields = || l(vec![n(y), n(m), n(d), n(hh), n(mm), f(ss as f64), V::Str(zone(o, ""))]);
    let mut v = vec![fields(), V::Str(format!("{}-{m:02}-{d:02}T{hh:02}:{mm:02}:{ss:02}{}", year(y), zone(o, ":"))), fields(), fields()];
    if e == 0 {
        v.extend([true, true, true, true, true, false].iter().map(|b| V::Bool(*b)));
        check(is(&out, l(v)), "round-trips");
    } else {
        let w = instant + o * 60 - 3600;
        check(is(&out, l([instant < w, instant == w, instant > w, instant >= w, instant <= w, days(2024, 2, 29) * 86400 + 43200 < instant].iter().map(|b| V::Bool(*b)).collect())), "order-of-instants")
    }
}
/// unix timestamps
#[no_mangle]
pub extern "C" fn h_epoch() {
    let k = u8v("k");
    let w = u8v("where");
    const AT: [i64; 12] = [-128, 951782400 - 128, 4107542400 - 128, -2203891200 - 128, 2147483648 - 128, -62167219200 - 128, -8334601228800 - 128, 8210266876799 - 128, i64::MAX - 255, i64::MIN, 253402300800 - 128, 1000000000000000000];
    assume((w as usize) < AT.len());
    if !thorough() { assume((k & 7) == 0 || (k & 127) == 127) }
    let out = run(&format!("r: {{ t: ({AT:?} nth(\"@0\")) + \"@1\"\nz: t '__ZDT.FROM_EPOCH'\n}}.[cal.ifields(t) values, cal.fields(z) values, cal.format(z), cal.parse(cal.format(z)) = z, cal.datetime(cal.fields(z)) = z, z < (t - 1 '__ZDT.FROM_EPOCH')]\n"), &[nint(w as i64), nint(k as i64)], &prel());
    let t = AT[conc(w as u64) as usize] as i128 + conc(k as u64) as i128;
    cover(conc(w as u64));
    let (lo, hi) = (days(MIN, 1, 1) * 86400, days(MAX, 12, 31) * 86400 + 86399);
    if t < lo as i128 || t > hi as i128 { check(err(&out).is_some(), "timestamp-out-of-range"); return }
    let t = t as i64;
    let (y, m, d) = civil(t.div_euclid(86400));
    let s = t.rem_euclid(86400);
    let (hh, mm, ss) = (s / 3600, s / 60 % 60, s % 60);
    if t == lo { return }
    let fields = l(vec![n(y), n(m), n(d), n(hh), n(mm), f(ss as f64), V::s("+0000")]);
    check(is(&out, l(vec![fields.clone(), fields, V::Str(format!("{}-{m:02}-{d:02}T{hh:02}:{mm:02}:{ss:02}+00:00", year(y))), V::Bool(true), V::Bool(true), V::Bool(false)])), "timestamp");
}
/// strict reading of ISO 8601 dates and times: None if it is not of that form, else its seconds, nanoseconds and offset if it is possible
fn iso(t: &[u8]) -> Option<Option<(i64, i64, i64)>> {
    let num = |a: usize, k: usize| -> Option<i64> { let mut r = 0; for x in t.get(a..a + k)? { if !x.is_ascii_digit() { return None } r = r * 10 + (*x - b'0') as i64 } Some(r) };
    let is = |a: usize, c: u8| t.get(a).map_or(false, |x| *x == c);
    let basic = t.len() == 8 || is(8, b'T');
    let (y, m, d, mut at) = if basic { (num(0, 4)?, num(4, 2)?, num(6, 2)?, 8) } else { if !is(4, b'-') || !is(7, b'-') { return None } (num(0, 4)?, num(5, 2)?, num(8, 2)?, 10) };
    let (mut hh, mut mm, mut ss, mut ns, mut off, mut zok) = (0, 0, 0, 0, 0, true);
    if at < t.len() {
        if !is(at, b'T') && !(is(at, b' ') && !basic) { return None }
        if basic { hh = num(at + 1, 2)?; mm = num(at + 3, 2)?; ss = num(at + 5, 2)?; at += 7 } else {
            if !is(at + 3, b':') || !is(at + 6, b':') { return None }
            hh = num(at + 1, 2)?; mm = num(at + 4, 2)?; ss = num(at + 7, 2)?; at += 9;
            if is(at, b'.') {
                let mut k = 0;
                while num(at + 1 + k, 1).is_some() { k += 1 }
                if k == 0 || k > 9 { return None }
                ns = num(at + 1, k)?;
                for _ in k..9 { ns *= 10 }
                at += 1 + k;
            }
            if is(at, b'Z') { at += 1 } else if is(at, b'+') || is(at, b'-') {
                if !is(at + 3, b':') { return None }
                let (h, m) = (num(at + 1, 2)?, num(at + 4, 2)?);
                zok = h < 24 && m < 60;
                off = (h * 60 + m) * if is(at, b'-') { -1 } else { 1 };
                at += 6;
            }
        }
        if at != t.len() { return None }
    }
    let ok = (1..=12).contains(&m) && d >= 1 && d <= month_days(y, m) && hh < 24 && mm < 60 && ss <= 60 && zok;
    if ss == 60 { ss = 59; ns += 1_000_000_000 }
    Some(if ok { Some((days(y, m, d) * 86400 + hh * 3600 + mm * 60 + ss - off * 60, ns, off * 60)) } else { None })
}
fn denotes(got: Option<chrono::DateTime<chrono::FixedOffset>>, t: &[u8], basic: bool) {
    let want = iso(t);
    if std::env::var("EV_DEBUG").is_ok() { println!("got {got:?} want {want:?}"); }
    match (want, got) {
        (None, _) => {}
        (Some(None), g) => check(g.is_none(), "impossible-text"),
        (Some(Some(w)), Some(g)) => check((g.timestamp(), g.timestamp_subsec_nanos() as i64, g.offset().local_minus_utc() as i64) == w, "text-instant"),
        (Some(Some(_)), None) => check(!basic && t.iter().filter(|c| **c == b'-').count() < 2, "text-accepted"),
    }
}
/// texts with two adjacent bytes replaced, as read by cal.parse and in literals
#[no_mangle]
pub extern "C" fn h_text() {
    const T: [&str; 7] = ["2024-02-29T23:59:58+05:30", "2023-02-28", "20240229T235958", "2024-12-29T10:20:30.125Z", "2016-12-31T23:59:60Z", "1999-11-30 01:02:03", "20231130"];
    let t = pick("template", T.len() as u8);
    let at = pick("at", T[t].len() as u8 - 1);
    let c = ascii("c", 2);
    let mut b = T[t].as_bytes().to_vec();
    b[at] = c.as_bytes()[0];
    b[at + 1] = c.as_bytes()[1];
    let text = unsafe { String::from_utf8_unchecked(b.clone()) };
    let literal = flag("literal");
    cover(t as u64); cover(10 + literal as u64);
    if !literal { if !b.contains(&b' ') { denotes(eucalypt::eval::stg::time::zdt_from_str(&text), &b, true) } } else {
        // what the parser accepts means the same when evaluated
        use eucalypt::syntax::rowan::lex::*;
        let got = parse_zdt_literal(&text);
        denotes(got, &b, false);
        if iso(&b).is_some() { if let Some(g) = got { check(eucalypt::eval::stg::time::zdt_from_str(&normalize_zdt_for_parse(&text)) == Some(g), "literal-means-what-was-checked") } }
    }
}
/// named zones on days when their offset changes, and others
#[no_mangle]
pub extern "C" fn h_zone() {
    // zone, date, local time of change, offsets before and after (minutes)
    const D: [(&str, i64, i64, i64, i64, i64, i64); 9] = [("Europe/London", 2024, 3, 31, 60, 0, 60), ("Europe/London", 2024, 10, 27, 120, 60, 0), ("America/New_York", 2024, 3, 10, 120, -300, -240), ("America/New_York", 2023, 11, 5, 120, -240, -300),
        ("Australia/Lord_Howe", 2021, 10, 3, 120, 630, 660), ("Asia/Kolkata", 2024, 7, 1, 0, 330, 330), ("Europe/London", 1970, 1, 1, 0, 60, 60), ("Europe/London", 2024, 7, 1, 0, 60, 60), ("UTC", 1900, 1, 1, 0, 0, 0)];
    let (k, h, q) = (pick("day", 9), u8v("h"), u8v("q"));
    assume(h < 24); assume(q < 4);
    let (z, y, m, d, at, before, after) = D[k];
    let (e, out) = select_in(&format!("z: cal.zdt({y}, {m}, {d}, \"@0\", [0, 29, 30, 59] nth(\"@1\"), 0, \"{z}\")"), &["cal.format(z)"], &[nint(h as i64), nint(q as i64)], &prel());
    let _ = e;
    let (h, q) = (h as i64, [0, 29, 30, 59][conc(q as u64) as usize]);
    cover(k as u64);
    let t = h * 60 + q;
    let text = |o: i64| V::Str(format!("{y:04}-{m:02}-{d:02}T{h:02}:{q:02}:00{}", zone(o, ":")));
    // forward changes skip local times, backward ones repeat them
    if t < at.min(at + after - before) { check(is(&out, text(before)), "zone-offset") }
    else if t >= at.max(at + after - before) { check(is(&out, text(after)), "zone-offset") }
    else if after > before { check(err(&out) == Some("datetime"), "skipped-time") }
    else { check(is(&out, text(before)) || is(&out, text(after)), "repeated-time") }
}
entries!(h_components, h_epoch, h_text, h_zone);
