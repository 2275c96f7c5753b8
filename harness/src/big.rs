//! conversion to and from num-bigint integers
use crate::gen::*;
use crate::rt::*;
use num_bigint::{BigInt, BigUint, Sign};

/// 32-bit digits of the magnitude without leading zeros equal the words `m`
fn mag_is(digits: &[u32], m: &Buf, k: usize) -> bool {
    let n = digits.len();
    if n > 2 * k {
        return false;
    }
    let mut ok = true;
    let mut j = 0;
    while j < 2 * k {
        let d = (m[j / 2] >> (32 * (j % 2))) as u32;
        let got = if j < n { digits[j] } else { 0 };
        ok &= d == got;
        j += 1;
    }
    ok
}

/// two's complement magnitude of a canonical value
fn magnitude(a: &Buf, width: u32, k: usize) -> (bool, Buf) {
    let neg = sign(a, width, k);
    let mut out = *a;
    if neg {
        let mut bw = 0u64;
        let mut i = 0;
        while i < k {
            let d = 0u64.wrapping_sub(a[i]).wrapping_sub(bw);
            bw = ((a[i] != 0) | (bw != 0)) as u64;
            out[i] = d;
            i += 1;
        }
        out[k - 1] &= top_mask(width);
    }
    (neg, out)
}

#[inline(always)]
fn wide_leading_zero_split(m: &Buf, k: usize) {
    // one case per number of significant 32-bit digits
    let mut n = 0u64;
    let mut j = 0;
    while j < 2 * k {
        let d = (m[j / 2] >> (32 * (j % 2))) as u32;
        n = ite(d != 0, j as u64 + 1, n);
        j += 1;
    }
    split(n);
}

#[no_mangle]
pub extern "C" fn h_big_uint() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    wide_leading_zero_split(&a, k);
    let v = if param(1) == 0 { view(&a, width).to_big_uint() } else { owned(&a, width).to_big_uint() };
    check(mag_is(&v.to_u32_digits(), &a, k), 1);
    let back = BitVecValue::from_big_uint(&v, width);
    expect(&back, &a, width, k, 2);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_big_int() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let (neg, m) = magnitude(&a, width, k);
    split_bool(neg);
    wide_leading_zero_split(&m, k);
    let v = if param(1) == 0 { view(&a, width).to_big_int() } else { owned(&a, width).to_big_int() };
    let (s, digits) = v.to_u32_digits();
    check((s == Sign::Minus) == neg, 1);
    check(mag_is(&digits, &m, k), 2);
    let back = BitVecValue::from_big_int(&v, width);
    expect(&back, &a, width, k, 3);
    cover_if(neg, 1);
    cover_if(!neg, 2);
}

/// any n-digit big integer that fits the width converts to its two's complement value
#[no_mangle]
pub extern "C" fn h_from_big() {
    let (k, n) = (param(0) as usize, param(1) as usize);
    let width = any_width(k);
    let neg = split_bool(any_bool());
    let mut m = [0u64; MAXW];
    let mut digits = [0u32; 2 * MAXW];
    let mut j = 0;
    while j < n {
        digits[j] = any(32) as u32;
        m[j / 2] |= (digits[j] as u64) << (32 * (j % 2));
        j += 1;
    }
    wide_leading_zero_split(&m, MAXW / 2);
    if neg {
        let v = BigInt::from_slice(Sign::Minus, &digits[..n]);
        // magnitude at most 2^(width-1)
        let mut fits = true;
        let mut i = k;
        while i < MAXW {
            fits &= m[i] == 0;
            i += 1;
        }
        let half = 1u64 << ((width - 1) % 64);
        let mut low = 0u64;
        i = 0;
        while i + 1 < k {
            low |= m[i];
            i += 1;
        }
        fits &= m[k - 1] < half || (m[k - 1] == half && low == 0);
        assume(fits);
        let mut want = [0u64; MAXW];
        let mut bw = false;
        i = 0;
        while i < k {
            want[i] = 0u64.wrapping_sub(m[i]).wrapping_sub(bw as u64);
            bw = m[i] != 0 || bw;
            i += 1;
        }
        want[k - 1] &= top_mask(width);
        expect(&BitVecValue::from_big_int(&v, width), &want, width, k, 1);
        cover(1);
    } else {
        let mut fits = true;
        let mut i = k;
        while i < MAXW {
            fits &= m[i] == 0;
            i += 1;
        }
        fits &= m[k - 1] & !top_mask(width) == 0;
        assume(fits);
        let v = BigUint::from_slice(&digits[..n]);
        expect(&BitVecValue::from_big_uint(&v, width), &m, width, k, 3);
        let v = BigInt::from_slice(Sign::Plus, &digits[..n]);
        expect(&BitVecValue::from_big_int(&v, width), &m, width, k, 5);
        cover(2);
    }
}

/// From<&BigInt>/From<&BigUint> choose a width that loses nothing
#[no_mangle]
pub extern "C" fn h_big_auto() {
    let n = param(0) as usize;
    let mut digits = [0u32; 2 * MAXW];
    let mut m = [0u64; MAXW];
    let mut j = 0;
    while j < n {
        digits[j] = any(32) as u32;
        m[j / 2] |= (digits[j] as u64) << (32 * (j % 2));
        j += 1;
    }
    if n == 0 {
        let v = BigInt::from_slice(Sign::Plus, &[]);
        let b = BitVecValue::from(&v);
        check(b.width() == 1 && b.is_fals() && b.to_big_int() == v, 8);
        let v = BigUint::from_slice(&[]);
        let b = BitVecValue::from(&v);
        check(b.width() == 0 && b.to_big_uint() == v, 9);
        cover(1);
        return;
    }
    assume(digits[n - 1] != 0);
    let lz = split(digits[n - 1].leading_zeros() as u64);
    let bits = 32 * n as u64 - lz;
    if split_bool(any_bool()) {
        let neg = split_bool(any_bool());
        let v = BigInt::from_slice(if neg { Sign::Minus } else { Sign::Plus }, &digits[..n]);
        let b = BitVecValue::from(&v);
        check(b.width() as u64 == bits + 1, 1);
        canonical(&b, bits as u32 + 1, nwords(bits as u32 + 1), 2);
        check(b.is_negative() == neg, 3);
        check(b.to_big_int() == v, 4);
        trace_words(b.words());
        cover(1);
    } else {
        let v = BigUint::from_slice(&digits[..n]);
        let b = BitVecValue::from(&v);
        check(b.width() as u64 == bits, 5);
        canonical(&b, bits as u32, nwords(bits as u32), 6);
        check(b.to_big_uint() == v, 7);
        trace_words(b.words());
        cover(2);
    }
}
