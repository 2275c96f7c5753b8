//! comparisons as integers
use crate::gen::*;
use crate::rt::*;
use crate::with_repr;

/// least significant word first: a later (more significant) word overrides
#[inline(always)]
fn ref_cmp(a: &Buf, b: &Buf, k: usize) -> (bool, bool) {
    let (mut gt, mut eq) = (false, true);
    let mut i = 0;
    while i < k {
        let (g, e) = (a[i] > b[i], a[i] == b[i]);
        gt = g | (e & gt);
        eq &= e;
        i += 1;
    }
    (gt, eq)
}

#[no_mangle]
pub extern "C" fn h_cmp_unsigned() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let (gt, eq) = ref_cmp(&a, &b, k);
    with_repr!(a, b, width, |x, y| {
        check(x.is_greater(y) == gt, 1);
        check(x.is_greater_or_equal(y) == (gt | eq), 2);
        check(x.is_less(y) == !(gt | eq), 3);
        check(x.is_less_or_equal(y) == !gt, 4);
        check(x.is_equal(y) == eq, 5);
        check(x.is_not_equal(y) == !eq, 6);
        check(x.is_zero() == (ref_cmp(&a, &[0; MAXW], k).1), 7);
    });
    cover_if(gt, 1);
    cover_if(eq, 2);
    cover_if(!gt & !eq, 3);
    trace(gt as u64);
}

#[no_mangle]
pub extern "C" fn h_cmp_signed() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    // flipping the sign bit maps two's complement order to unsigned order
    let flip = 1u64 << ((width - 1) % 64);
    let (mut fa, mut fb) = (a, b);
    fa[k - 1] ^= flip;
    fb[k - 1] ^= flip;
    let (gt, eq) = ref_cmp(&fa, &fb, k);
    with_repr!(a, b, width, |x, y| {
        check(x.is_greater_signed(y) == gt, 1);
        check(x.is_greater_or_equal_signed(y) == (gt | eq), 2);
        check(x.is_less_signed(y) == !(gt | eq), 3);
        check(x.is_less_or_equal_signed(y) == !gt, 4);
        check(x.is_negative() == (a[k - 1] & flip != 0), 5);
    });
    cover_if(gt, 1);
    cover_if(eq, 2);
    cover_if(!gt & !eq, 3);
    trace(gt as u64);
}
