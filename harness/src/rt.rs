//! The interface to the solver-based executor.  `sym_*` are intercepted by
//! baasym; natively (replay) they are implemented in `replay/src/main.rs` and
//! read the recorded inputs of a counterexample.
extern "C" {
    fn sym_var(bits: u32, tag: u32) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_concretize(x: u64) -> u64;
    fn sym_cover(id: u32);
    fn sym_cover_if(c: bool, id: u32);
    fn sym_trace(x: u64);
    fn sym_expect_panic(on: bool);
    fn sym_param(i: u32) -> u64;
    fn sym_ite(c: bool, a: u64, b: u64) -> u64;
    fn sym_hash_mode(m: u64);
    fn sym_dump(x: u64);
}
/// A fresh value of `bits` bits: every value at once.
#[inline(always)]
pub fn any(bits: u32) -> u64 {
    unsafe { sym_var(bits, 0) }
}
#[inline(always)]
pub fn any_bool() -> bool {
    any(1) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The property: must hold for every value of every input.
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
/// Split the exploration over the possible values of `x` (no value is dropped).
#[inline(always)]
pub fn split(x: u64) -> u64 {
    unsafe { sym_concretize(x) }
}
#[inline(always)]
pub fn split_bool(x: bool) -> bool {
    split(x as u64) != 0
}
/// Reachability witness (guards against vacuous harnesses).
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
#[inline(always)]
pub fn cover_if(c: bool, id: u32) {
    unsafe { sym_cover_if(c, id) }
}
/// Observed value, compared between the symbolic and the native execution.
#[inline(always)]
pub fn trace(x: u64) {
    unsafe { sym_trace(x) }
}
#[inline(always)]
pub fn expect_panic(on: bool) {
    unsafe { sym_expect_panic(on) }
}
#[inline(always)]
pub fn param(i: u32) -> u64 {
    unsafe { sym_param(i) }
}
#[inline(always)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sym_ite(c, a, b) }
}
#[inline(always)]
pub fn hash_mode(m: u64) {
    unsafe { sym_hash_mode(m) }
}
#[allow(dead_code)]
pub fn dump(x: u64) {
    unsafe { sym_dump(x) }
}
