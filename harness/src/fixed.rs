//! fixed point numbers against the exact quotient
use crate::gen::*;
use crate::rt::*;

/// param: words, signed, first number of fractional bits, how many
#[no_mangle]
pub extern "C" fn h_fixed() {
    let (k, signed) = (param(0) as usize, param(1) == 1);
    let (f0, step) = (param(2) as u32, param(3) as u32);
    let width = any_width(k);
    let a = any_words(width, k);
    let f = any(32) as u32;
    assume(f >= f0 && f < f0 + step && f <= width);
    let f = split(f as u64) as u32;
    let neg = signed && split_bool(sign(&a, width, k));
    let v = view(&a, width);
    let r = if signed { v.to_signed_fixed_point(f) } else { v.to_unsigned_fixed_point(f) };
    let mut high = 0;
    let mut i = 1;
    while i < k {
        high |= a[i];
        i += 1;
    }
    let Some(x) = r else {
        // only what does not fit 64 bits is refused
        check(k > 1 || f >= 64, 1);
        trace(0);
        cover(1);
        return;
    };
    trace(1);
    // the magnitude fits 64 bits
    check(high == 0 && !(neg && k > 1), 2);
    let m = if neg { 0u64.wrapping_sub(a[0]) & top_mask(width) } else { a[0] };
    let (n, d) = (*x.numer().unwrap(), *x.denom().unwrap());
    check(d != 0, 3);
    // n / d == m / 2^f
    check(if f < 128 { n as u128 <= u128::MAX >> f } else { n == 0 }, 4);
    check((n as u128).checked_shl(f).unwrap_or(0) == m as u128 * d as u128, 5);
    check((x.sign() == Some(fraction::Sign::Minus)) == neg, 6);
    trace(n);
    trace(d);
    cover(2);
}
