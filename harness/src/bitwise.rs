//! and, or, xor, not
use crate::gen::*;
use crate::rt::*;
use crate::with_repr;

#[no_mangle]
pub extern "C" fn h_bitwise() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let i = any(32) as u32;
    assume(i < width);
    let (ai, bi) = (bit(&a, i), bit(&b, i));
    with_repr!(a, b, width, |x, y| {
        let r = x.and(y);
        canonical(&r, width, k, 1);
        check(bit(r.words(), i) == (ai && bi), 2);
        trace_words(r.words());
        let r = x.or(y);
        canonical(&r, width, k, 3);
        check(bit(r.words(), i) == (ai || bi), 4);
        trace_words(r.words());
        let r = x.xor(y);
        canonical(&r, width, k, 5);
        check(bit(r.words(), i) == (ai != bi), 6);
        trace_words(r.words());
        let r = x.not();
        canonical(&r, width, k, 7);
        check(bit(r.words(), i) != ai, 8);
        trace_words(r.words());
    });
    cover(1);
}
