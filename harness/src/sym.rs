//! Inputs and checks. Under the symbolic executor the functions below are the interface to the solver; natively they
//! replay a recorded input list.
mod ffi {
    extern "C" {
        pub fn sym_byte_range(lo: u8, hi: u8) -> u8;
        pub fn sym_byte_set(a: u64, b: u64, c: u64, d: u64) -> u8;
        pub fn sym_u64(lo: u64, hi: u64) -> u64;
        pub fn sym_f64(lo: u64, hi: u64, neg: u64) -> f64;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_eq(a: *const u8, al: usize, b: *const u8, bl: usize, p: *const u8, n: usize);
        pub fn sym_feq(a: f64, b: f64, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_merge(m: u64);
        pub fn sym_expect_panic(on: u64);
        pub fn sym_random(m: u64);
        pub fn sym_drawn(k: u64) -> u8;
        pub fn sym_hash(s: u64);
        pub fn sym_note(p: *const u8, n: usize);
    }
}
use ffi::*;
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { sym_byte_range(lo, hi) }
}
pub fn of(set: &[u8]) -> u8 {
    let mut s = [0u64; 4];
    for b in set {
        s[(*b >> 6) as usize] |= 1 << (b & 63);
    }
    unsafe { sym_byte_set(s[0], s[1], s[2], s[3]) }
}
pub fn u64_in(lo: u64, hi: u64) -> u64 {
    unsafe { sym_u64(lo, hi) }
}
/// any finite double of magnitude 2^-30 .. 2^40 (optionally negative)
pub fn real(neg: bool) -> f64 {
    unsafe { sym_f64(1023 - 30, 1023 + 40, neg as u64) }
}
/// any normal finite double
pub fn any_real(neg: bool) -> f64 {
    unsafe { sym_f64(1, 2046, neg as u64) }
}
pub fn choice(n: u64) -> u64 {
    unsafe { sym_choice(n) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, id: &str) {
    unsafe { sym_assert(c, id.as_ptr(), id.len()) }
}
pub fn eq(a: &str, b: &str, id: &str) {
    unsafe { sym_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), id.as_ptr(), id.len()) }
}
pub fn feq(a: f64, b: f64, id: &str) {
    unsafe { sym_feq(a, b, id.as_ptr(), id.len()) }
}
pub fn cover(id: &str) {
    unsafe { sym_cover(id.as_ptr(), id.len()) }
}
pub fn merge(m: u64) {
    unsafe { sym_merge(m) }
}
pub fn expect_panic(on: bool) {
    unsafe { sym_expect_panic(on as u64) }
}
pub fn random(symbolic: bool) {
    unsafe { sym_random(symbolic as u64) }
}
/// the random byte drawn k draws ago (0: the last one)
pub fn drawn(k: u64) -> u8 {
    unsafe { sym_drawn(k) }
}
pub fn hash_seed(s: u64) {
    unsafe { sym_hash(s) }
}
pub fn note(s: &str) {
    unsafe { sym_note(s.as_ptr(), s.len()) }
}
/// n bytes of the given class
pub fn text(n: usize, set: &[u8]) -> String {
    let v: Vec<u8> = (0..n).map(|_| of(set)).collect();
    // the classes used are ASCII
    unsafe { String::from_utf8_unchecked(v) }
}
