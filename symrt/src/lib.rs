//! Harness side of the symbolic executor: the `sym_*` symbols are provided by symex (symbolic run)
//! or by the native replay driver (concrete run on the same compiled library).
use std::ffi::{CStr, c_char};

unsafe extern "C" {
    fn sym_u8(n: *const c_char) -> u8;
    fn sym_u16(n: *const c_char) -> u16;
    fn sym_u32(n: *const c_char) -> u32;
    fn sym_u64(n: *const c_char) -> u64;
    fn sym_bool(n: *const c_char) -> bool;
    fn sym_choice(n: *const c_char, k: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: *const c_char);
    fn sym_assert_kf(c: bool, id: *const c_char, kf: *const c_char, cond: bool);
    fn sym_observe(v: u64);
    fn sym_cover(id: *const c_char);
    fn sym_may_panic(b: bool);
    fn sym_no_fmt(b: bool);
    fn sym_prune() -> !;
    fn sym_end() -> !;
    fn sym_concrete(v: u64) -> u64;
}

/// symbolic inputs
pub fn u8(n: &CStr) -> u8 {
    unsafe { sym_u8(n.as_ptr()) }
}
pub fn u16(n: &CStr) -> u16 {
    unsafe { sym_u16(n.as_ptr()) }
}
pub fn u32(n: &CStr) -> u32 {
    unsafe { sym_u32(n.as_ptr()) }
}
pub fn u64(n: &CStr) -> u64 {
    unsafe { sym_u64(n.as_ptr()) }
}
pub fn bool(n: &CStr) -> bool {
    unsafe { sym_bool(n.as_ptr()) }
}
/// symbolic value in 0..k
pub fn choice(n: &CStr, k: u32) -> u32 {
    unsafe { sym_choice(n.as_ptr(), k) }
}
/// like `choice`, the path forks so that the value is concrete afterwards
pub fn pick(n: &CStr, k: u32) -> usize {
    unsafe { sym_concrete(sym_choice(n.as_ptr(), k) as u64) as usize }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: &CStr) {
    unsafe { sym_assert(c, id.as_ptr()) }
}
/// a failure of `c` while `cond` holds is the finding `kf` (when listed)
#[inline(never)]
pub fn check_kf(c: bool, id: &CStr, kf: &CStr, cond: bool) {
    unsafe { sym_assert_kf(c, id.as_ptr(), kf.as_ptr(), cond) }
}
/// value compared between the symbolic and the native run of one model
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn cover(id: &CStr) {
    unsafe { sym_cover(id.as_ptr()) }
}
pub fn may_panic(b: bool) {
    unsafe { sym_may_panic(b) }
}
/// text formatting (error messages) has no effect from here on; only for code whose text is not inspected
pub fn no_fmt(b: bool) {
    unsafe { sym_no_fmt(b) }
}
pub fn prune() -> ! {
    unsafe { sym_prune() }
}
pub fn end() -> ! {
    unsafe { sym_end() }
}
/// `n` symbolic bytes, each constrained by `f`
pub fn bytes(n: &CStr, len: usize, f: impl Fn(u8) -> bool) -> Vec<u8> {
    (0..len)
        .map(|_| {
            let b = u8(n);
            assume(f(b));
            b
        })
        .collect()
}
/// symbolic ASCII string of exactly `len` bytes
pub fn ascii(n: &CStr, len: usize) -> String {
    let b = bytes(n, len, |b| b < 0x80);
    unsafe { String::from_utf8_unchecked(b) }
}
/// symbolic string over the given ASCII alphabet
pub fn over(n: &CStr, len: usize, alphabet: &[u8]) -> String {
    let b = bytes(n, len, |b| {
        let mut ok = false;
        for a in alphabet {
            ok |= b == *a;
        }
        ok
    });
    unsafe { String::from_utf8_unchecked(b) }
}
