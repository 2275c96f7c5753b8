//! conversion from and to u64, i64 and bool
use crate::gen::*;
use crate::rt::*;
use crate::with_repr;

/// the words of `v` sign extended (`neg`: fill) to width
#[inline(always)]
fn extend(v: u64, fill: bool, k: usize, width: u32) -> Buf {
    let mut out = [0u64; MAXW];
    let f = if fill { u64::MAX } else { 0 };
    let mut i = 0;
    while i < k {
        out[i] = f;
        i += 1;
    }
    out[0] = v;
    out[k - 1] &= top_mask(width);
    out
}

/// from_u64/from_i64: exact when the number fits; otherwise rejected by a
/// debug assertion, truncated in a build without them
#[no_mangle]
pub extern "C" fn h_from_int() {
    let k = param(0) as usize;
    let width = any_width(k);
    let v = any(64);
    let signed = param(1) == 1;
    let fits = if k > 1 {
        true
    } else if signed {
        // all bits from width-1 upwards are equal
        let s = (v as i64) >> (width - 1).min(63);
        s == 0 || s == -1
    } else {
        v & !top_mask(width) == 0
    };
    let want = extend(v, signed && (v >> 63) == 1, k, width);
    // pre-existing contents must not matter
    let mut dirty = any_words(width, k);
    if cfg!(debug_assertions) && !split_bool(fits) {
        cover(1);
        expect_panic(true);
        if signed {
            if split_bool(any_bool()) {
                BitVecValue::from_i64(v as i64, width);
            } else {
                mview(&mut dirty, width).assign_from_i64(v as i64);
            }
        } else {
            if split_bool(any_bool()) {
                BitVecValue::from_u64(v, width);
            } else {
                mview(&mut dirty, width).assign_from_u64(v);
            }
        }
        expect_panic(false);
        check(false, 9);
        return;
    }
    cover(2);
    if signed {
        expect(&BitVecValue::from_i64(v as i64, width), &want, width, k, 1);
        let mut m = mview(&mut dirty, width);
        m.assign_from_i64(v as i64);
        expect(&m, &want, width, k, 3);
        check(!fits || m.to_i64() == Some(v as i64), 5);
    } else {
        expect(&BitVecValue::from_u64(v, width), &want, width, k, 1);
        let mut m = mview(&mut dirty, width);
        m.assign_from_u64(v);
        expect(&m, &want, width, k, 3);
        check(!fits || m.to_u64() == Some(v), 6);
    }
}

/// to_u64, to_i64: Some exactly when the number is representable
#[no_mangle]
pub extern "C" fn h_to_int() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = a;
    // sign extended to 64*k bits
    let neg = sign(&a, width, k);
    let mut ext = a;
    if neg {
        ext[k - 1] |= !top_mask(width);
    }
    let fill = if (ext[0] >> 63) == 1 { u64::MAX } else { 0 };
    let (mut fits_u, mut fits_i) = (true, true);
    let mut i = 1;
    while i < k {
        fits_u &= a[i] == 0;
        fits_i &= ext[i] == fill;
        i += 1;
    }
    with_repr!(a, b, width, |x, _y| {
        check(x.to_u64().is_some() == fits_u, 1);
        if let Some(v) = x.to_u64() {
            check(v == a[0], 2);
            trace(v);
        }
        check(x.to_i64().is_some() == fits_i, 3);
        if let Some(v) = x.to_i64() {
            check(v as u64 == ext[0], 4);
            trace(v as u64);
        }
    });
    cover_if(fits_u, 1);
    cover_if(fits_i && neg, 2);
    cover_if(k > 1 && !fits_i, 3);
}

/// booleans are the 1-bit values
#[no_mangle]
pub extern "C" fn h_bool() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = a;
    let one = width == 1;
    with_repr!(a, b, width, |x, _y| {
        match x.to_bool() {
            Some(v) => check(one && v == (a[0] == 1), 1),
            None => check(!one, 2),
        }
        check(x.is_tru() == (one && a[0] == 1), 3);
        check(x.is_fals() == (one && a[0] == 0), 4);
    });
    let v = any_bool();
    expect(&BitVecValue::from_bool(v), &[v as u64], 1, 1, 5);
    expect(&BitVecValue::from(v), &[v as u64], 1, 1, 7);
    expect(&BitVecValue::tru(), &[1], 1, 1, 9);
    expect(&BitVecValue::fals(), &[0], 1, 1, 11);
    check(BitVecValue::from_bool(v).to_bool() == Some(v), 13);
    cover(1);
}
