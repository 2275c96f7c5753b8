//! bit access, in-place mutation, constants
use crate::gen::*;
use crate::rt::*;

fn target<'a>(a: &'a mut Buf, o: &'a mut BitVecValue, width: u32) -> BitVecValueMutRef<'a> {
    if param(1) == 0 {
        mview(a, width)
    } else {
        BitVecValueMutRef::from(o)
    }
}

/// set_bit/clear_bit change exactly one bit; is_bit_set reads it
#[no_mangle]
pub extern "C" fn h_bits() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let (p, i) = (any(32) as u32, any(32) as u32);
    assume(p < width && i < width);
    check(view(&a, width).is_bit_set(i) == bit(&a, i), 1);
    check(owned(&a, width).is_bit_set(i) == bit(&a, i), 2);
    let val = split_bool(any_bool());
    let mut buf = a;
    let mut o = owned(&a, width);
    if param(1) == 2 {
        if val { o.set_bit(p) } else { o.clear_bit(p) }
        canonical(&o, width, k, 3);
        check(bit(o.words(), i) == (if i == p { val } else { bit(&a, i) }), 4);
        check(o.is_bit_set(p) == val, 5);
        trace_words(o.words());
    } else {
        let mut m = target(&mut buf, &mut o, width);
        if val { m.set_bit(p) } else { m.clear_bit(p) }
        canonical(&m, width, k, 6);
        check(bit(m.words(), i) == (if i == p { val } else { bit(&a, i) }), 7);
        check(m.is_bit_set(p) == val, 8);
        trace_words(m.words());
    }
    cover(1);
}

/// assign, clear, assign_ones, mask_msb, zero, ones
#[no_mangle]
pub extern "C" fn h_assign() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let mut ones = [u64::MAX; MAXW];
    ones[k - 1] = top_mask(width);
    let zeros = [0u64; MAXW];
    expect(&BitVecValue::zero(width), &zeros, width, k, 1);
    expect(&BitVecValue::ones(width), &ones, width, k, 3);
    let mut buf = a;
    let mut o = owned(&a, width);
    let ob = owned(&b, width);
    {
        let mut m = target(&mut buf, &mut o, width);
        m.assign(view(&b, width));
        expect(&m, &b, width, k, 5);
        m.assign_ones();
        expect(&m, &ones, width, k, 7);
        m.clear();
        expect(&m, &zeros, width, k, 9);
        m.assign(&ob);
        expect(&m, &b, width, k, 11);
    }
    o.assign(&ob);
    expect(&o, &b, width, k, 13);
    o.assign_ones();
    expect(&o, &ones, width, k, 15);
    BitVecMutOps::clear(&mut o);
    expect(&o, &zeros, width, k, 17);
    // mask_msb keeps the used bits and clears the rest
    let mut raw = [0u64; MAXW];
    let mut i = 0;
    while i < k {
        raw[i] = any(64);
        i += 1;
    }
    let mut want = raw;
    want[k - 1] &= top_mask(width);
    let mut m = mview(&mut raw, width);
    m.mask_msb();
    expect(&m, &want, width, k, 19);
    cover(1);
}
