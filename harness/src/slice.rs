//! slice, concat, zero_extend, sign_extend
use crate::gen::*;
use crate::rt::*;

/// bit i of slice(hi, lo) is bit lo+i
#[no_mangle]
pub extern "C" fn h_slice() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let hi = any(32) as u32;
    let lo = any(32) as u32;
    assume(hi < width && lo <= hi);
    let out_width = hi - lo + 1;
    let ko = split(nwords(out_width) as u64) as usize;
    split((lo / 64) as u64);
    let r = if param(1) == 0 { view(&a, width).slice(hi, lo) } else { owned(&a, width).slice(hi, lo) };
    canonical(&r, out_width, ko, 1);
    let i = any(32) as u32;
    assume(i < out_width);
    check(bit(r.words(), i) == bit(&a, lo + i), 2);
    cover(1);
    cover_if(lo % 64 != 0 && hi % 64 != 63, 2);
    trace_words(r.words());
}

/// the left operand supplies the high bits
#[no_mangle]
pub extern "C" fn h_concat() {
    let (ka, kb) = (param(0) as usize, param(1) as usize);
    let (wa, wb) = (any_width(ka), any_width(kb));
    let a = any_words(wa, ka);
    let b = any_words(wb, kb);
    let w = wa + wb;
    let ko = split(nwords(w) as u64) as usize;
    let r = match param(2) {
        0 => view(&a, wa).concat(&view(&b, wb)),
        1 => owned(&a, wa).concat(&owned(&b, wb)),
        _ => owned(&a, wa).concat(&view(&b, wb)),
    };
    canonical(&r, w, ko, 1);
    let i = any(32) as u32;
    assume(i < w);
    let got = bit(r.words(), i);
    check(i >= wb || got == bit(&b, i), 2);
    cover(1);
    trace_words(r.words());
    assume(i >= wb);
    check(got == bit(&a, i - wb), 3);
}

#[inline(always)]
fn extend(signed: bool) {
    // from k words to ko words
    let (k, ko) = (param(0) as usize, param(1) as usize);
    let width = any_width(k);
    let w = any_width(ko);
    assume(w >= width);
    let a = any_words(width, k);
    let by = w - width;
    let r = match (param(2), signed) {
        (0, false) => view(&a, width).zero_extend(by),
        (0, true) => view(&a, width).sign_extend(by),
        (_, false) => owned(&a, width).zero_extend(by),
        (_, true) => owned(&a, width).sign_extend(by),
    };
    canonical(&r, w, ko, 1);
    let i = any(32) as u32;
    assume(i < w);
    let got = bit(r.words(), i);
    let fill = signed && sign(&a, width, k);
    check(i < width || got == fill, 2);
    cover(1);
    cover_if(fill && by > 0, 2);
    trace_words(r.words());
    assume(i < width);
    check(got == bit(&a, i), 3);
}

#[no_mangle]
pub extern "C" fn h_zext() {
    extend(false)
}
#[no_mangle]
pub extern "C" fn h_sext() {
    extend(true)
}
