//! The symbolic API the harnesses are written against.
pub mod docs;
pub mod pipe;
pub mod progs;
extern "C" {
    fn __sym_make(p: *mut u8, es: u64, n: u64, name: *const u8, nl: u64);
    fn __sym_assume(c: u32);
    fn __sym_assert(c: u32, id: *const u8, n: u64);
    fn __sym_cover(id: u64);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_panic_mode(allow: u32);
    fn __sym_is_engine() -> u32;
    fn __sym_tier() -> u32;
    fn __sym_note(p: *const u8, n: u64);
}
macro_rules! mk {
    ($f:ident, $t:ty) => {
        pub fn $f(name: &str) -> $t {
            let mut v: $t = 0;
            unsafe { __sym_make(&mut v as *mut $t as *mut u8, std::mem::size_of::<$t>() as u64, 1, name.as_ptr(), name.len() as u64) };
            v
        }
    };
}
mk!(u8v, u8);
mk!(u16v, u16);
mk!(u32v, u32);
mk!(u64v, u64);
mk!(i64v, i64);
pub fn f64v(name: &str) -> f64 { f64::from_bits(u64v(name)) }
/// n symbolic bytes
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { __sym_make(v.as_mut_ptr(), 1, n as u64, name.as_ptr(), name.len() as u64) };
    }
    v
}
/// a symbolic value below n (n small), made concrete by forking
pub fn pick(name: &str, n: u8) -> usize {
    let v = u8v(name);
    assume(v < n);
    conc(v as u64) as usize
}
pub fn flag(name: &str) -> bool { let v = u8v(name); assume(v < 2); v == 1 }
pub fn assume(c: bool) { unsafe { __sym_assume(c as u32) } }
pub fn check(c: bool, id: &str) { unsafe { __sym_assert(c as u32, id.as_ptr(), id.len() as u64) } }
pub fn cover(id: u64) { unsafe { __sym_cover(id) } }
pub fn conc(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
pub fn allow_panic(a: bool) { unsafe { __sym_panic_mode(a as u32) } }
/// whether the thorough tier is running
pub fn thorough() -> bool { unsafe { __sym_tier() != 0 } }
pub fn is_engine() -> bool { unsafe { __sym_is_engine() != 0 } }
pub fn note(s: &str) { unsafe { __sym_note(s.as_ptr(), s.len() as u64) } }

/// n symbolic bytes that are valid UTF-8 (n <= 4), as text
pub fn utf8n(name: &str, n: usize) -> String {
    let b = bytes(name, n);
    assume(valid_utf8(&b));
    unsafe { String::from_utf8_unchecked(b) }
}
/// symbolic text of 0 to max bytes
pub fn utf8(name: &str, max: u8) -> String {
    let n = pick(&format!("{name}-length"), max + 1);
    utf8n(name, n)
}
/// symbolic ASCII text of n bytes
pub fn ascii(name: &str, n: usize) -> String {
    let b = bytes(name, n);
    let mut ok = true;
    for x in &b { ok &= *x < 128; }
    assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}
/// validity as one condition, without branching on the bytes
pub fn valid_utf8(b: &[u8]) -> bool {
    let cont = |x: u8| x & 0xc0 == 0x80;
    // ok[i]: b[i..] is valid
    let n = b.len();
    let mut ok = vec![false; n + 1];
    ok[n] = true;
    for i in (0..n).rev() {
        let x = b[i];
        let mut r = (x < 0x80) & ok[i + 1];
        if i + 1 < n {
            r |= (x >= 0xc2) & (x <= 0xdf) & cont(b[i + 1]) & ok[i + 2];
        }
        if i + 2 < n {
            let y = b[i + 1];
            let lo = ((x != 0xe0) | (y >= 0xa0)) & ((x != 0xed) | (y < 0xa0));
            r |= (x & 0xf0 == 0xe0) & lo & cont(y) & cont(b[i + 2]) & ok[i + 3];
        }
        if i + 3 < n {
            let y = b[i + 1];
            let lo = ((x != 0xf0) | (y >= 0x90)) & ((x != 0xf4) | (y < 0x90));
            r |= (x >= 0xf0) & (x <= 0xf4) & lo & cont(y) & cont(b[i + 2]) & cont(b[i + 3]) & ok[i + 4];
        }
        ok[i] = r;
    }
    ok[0]
}

/// Entry points: keeps every harness alive and dispatches natively on argv[1].
#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() {
                $(stringify!($n) => $n(),)*
                _ => { $(println!("{}", stringify!($n));)* }
            }
        }
    };
}
