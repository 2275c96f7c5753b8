//! add, sub, negate, mul: arithmetic modulo 2^width
use crate::gen::*;
use crate::rt::*;
use crate::with_repr;

/// schoolbook addition, carry computed by majority
fn ref_add(a: &Buf, b: &Buf, k: usize, width: u32) -> Buf {
    let mut out = [0u64; MAXW];
    let mut c = 0u64;
    let mut i = 0;
    while i < k {
        let s = a[i].wrapping_add(b[i]).wrapping_add(c);
        c = ((a[i] & b[i]) | ((a[i] | b[i]) & !s)) >> 63;
        out[i] = s;
        i += 1;
    }
    out[k - 1] &= top_mask(width);
    out
}

/// schoolbook subtraction with borrow
fn ref_sub(a: &Buf, b: &Buf, k: usize, width: u32) -> Buf {
    let mut out = [0u64; MAXW];
    let mut c = 0u64;
    let mut i = 0;
    while i < k {
        let d = a[i].wrapping_sub(b[i]).wrapping_sub(c);
        c = ((!a[i] & b[i]) | ((!a[i] | b[i]) & d)) >> 63;
        out[i] = d;
        i += 1;
    }
    out[k - 1] &= top_mask(width);
    out
}

#[no_mangle]
pub extern "C" fn h_add() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let want = ref_add(&a, &b, k, width);
    with_repr!(a, b, width, |x, y| expect(&BitVecOps::add(x, y), &want, width, k, 1));
    if param(1) == 1 {
        expect(&(&owned(&a, width) + &owned(&b, width)), &want, width, k, 3);
        expect(&(&owned(&a, width) + &view(&b, width)), &want, width, k, 5);
    }
    cover(1);
    cover_if(a[k - 1] > want[k - 1], 2);
}

#[no_mangle]
pub extern "C" fn h_sub() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let want = ref_sub(&a, &b, k, width);
    with_repr!(a, b, width, |x, y| expect(&BitVecOps::sub(x, y), &want, width, k, 1));
    if param(1) == 1 {
        expect(&(&owned(&a, width) - &owned(&b, width)), &want, width, k, 3);
        expect(&(&owned(&a, width) - &view(&b, width)), &want, width, k, 5);
    }
    cover(1);
    cover_if(a[k - 1] < want[k - 1], 2);
}

#[no_mangle]
pub extern "C" fn h_negate() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let zero = [0u64; MAXW];
    let want = ref_sub(&zero, &a, k, width);
    with_repr!(a, zero, width, |x, _y| expect(&x.negate(), &want, width, k, 1));
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_mul() {
    let width = any_width(1);
    let a = any_words(width, 1);
    let b = any_words(width, 1);
    let mut want = [0u64; MAXW];
    want[0] = a[0].wrapping_mul(b[0]) & top_mask(width);
    with_repr!(a, b, width, |x, y| expect(&x.mul(y), &want, width, 1, 1));
    cover(1);
    cover_if(a[0] > want[0], 2);
}
