//! laws between operations, results of one feeding the next, judged by the
//! library's own equality
use crate::gen::*;
use crate::rt::*;

/// equal by every means the library offers
#[inline(always)]
fn agree(a: &BitVecValue, b: &BitVecValue, id: u32) {
    check(a.width() == b.width(), id);
    check(a == b, id);
    check(a.is_equal(b), id);
    check(BitVecValueRef::from(a) == *b, id);
}

#[no_mangle]
pub extern "C" fn h_laws_arith() {
    let k = param(0) as usize;
    let width = any_width(k);
    let (wa, wb) = (any_words(width, k), any_words(width, k));
    let (a, b) = (owned(&wa, width), owned(&wb, width));
    let (one, zero, ones) = (BitVecValue::from_u64(1, width), BitVecValue::zero(width), BitVecValue::ones(width));
    let sum = BitVecOps::add(&a, &b);
    let diff = BitVecOps::sub(&a, &b);
    agree(&BitVecOps::sub(&sum, &b), &a, 1);
    agree(&BitVecOps::add(&diff, &b), &a, 2);
    agree(&BitVecOps::add(&b, &a), &sum, 3);
    agree(&(&a + &b), &sum, 4);
    agree(&(&a - &b), &diff, 5);
    agree(&a.negate().negate(), &a, 6);
    agree(&BitVecOps::add(&a, &b.negate()), &diff, 7);
    agree(&BitVecOps::sub(&zero, &a), &a.negate(), 8);
    agree(&BitVecOps::add(&a.not(), &one), &a.negate(), 9);
    agree(&BitVecOps::sub(&ones, &a), &a.not(), 10);
    check(BitVecOps::sub(&a, &a).is_zero(), 11);
    check(BitVecOps::add(&ones, &one).is_zero(), 12);
    // numbers, not bits, decide the order
    check(a.is_less(&b) == BitVecOps::sub(&a.zero_extend(1), &b.zero_extend(1)).is_negative(), 13);
    check(a.is_less_signed(&b) == BitVecOps::sub(&a.sign_extend(1), &b.sign_extend(1)).is_negative(), 14);
    check(a.is_less_or_equal(&b) == !b.is_less(&a), 15);
    check(a.is_less_or_equal_signed(&b) == !b.is_less_signed(&a), 16);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_laws_bits() {
    let k = param(0) as usize;
    let width = any_width(k);
    let (wa, wb) = (any_words(width, k), any_words(width, k));
    let (a, b) = (owned(&wa, width), owned(&wb, width));
    agree(&a.not().not(), &a, 1);
    agree(&a.and(&b).not(), &a.not().or(&b.not()), 2);
    agree(&a.or(&b).not(), &a.not().and(&b.not()), 3);
    agree(&a.xor(&b), &a.or(&b).and(&a.and(&b).not()), 4);
    agree(&a.xor(&b).xor(&b), &a, 5);
    check(a.xor(&a).is_zero(), 6);
    check(a.is_negative() == a.is_bit_set(width - 1) && a.is_negative() != a.not().is_negative(), 7);
    // both order relations differ in the meaning of the top bit only
    let mut top = BitVecValue::zero(width);
    top.set_bit(width - 1);
    check(a.is_greater_signed(&b) == a.xor(&top).is_greater(&b.xor(&top)), 8);
    check(a.is_greater_or_equal_signed(&b) == a.xor(&top).is_greater_or_equal(&b.xor(&top)), 9);
    let p = any(32) as u32;
    assume(p < width);
    let mut c = a.clone();
    c.set_bit(p);
    c.clear_bit(p);
    let mut d = a.clone();
    d.clear_bit(p);
    agree(&c, &d, 10);
    d.set_bit(p);
    check(a.is_bit_set(p) == (a == d), 11);
    cover(1);
}

/// param: words, words added by extension
#[no_mangle]
pub extern "C" fn h_laws_cut() {
    let k = param(0) as usize;
    let width = any_width(k);
    let wa = any_words(width, k);
    let a = owned(&wa, width);
    let p = any(32) as u32;
    assume(p >= 1 && p < width);
    let (hi, lo) = (a.slice(width - 1, p), a.slice(p - 1, 0));
    agree(&hi.concat(&lo), &a, 1);
    agree(&a.slice(width - 1, 0), &a, 2);
    check(a.is_bit_set(p) == hi.is_bit_set(0) && a.is_negative() == hi.is_negative(), 3);
    let bit = a.slice(p, p);
    check(bit.is_tru() == a.is_bit_set(p) && bit.is_fals() != bit.is_tru() && bit.to_bool() == Some(a.is_bit_set(p)), 4);
    cover(1);
}

/// param: words, largest extension
#[no_mangle]
pub extern "C" fn h_laws_ext() {
    let k = param(0) as usize;
    let width = any_width(k);
    let wa = any_words(width, k);
    let a = owned(&wa, width);
    let n = any(32) as u32;
    assume(n >= 1 && n <= param(1) as u32);
    let n = split(n as u64) as u32;
    let (z, s) = (a.zero_extend(n), a.sign_extend(n));
    agree(&z.slice(width - 1, 0), &a, 1);
    agree(&s.slice(width - 1, 0), &a, 2);
    agree(&z, &BitVecValue::zero(n).concat(&a), 3);
    let fill = if a.is_negative() { BitVecValue::ones(n) } else { BitVecValue::zero(n) };
    agree(&s, &fill.concat(&a), 4);
    check(s.is_negative() == a.is_negative() && !z.is_negative(), 5);
    agree(&s.negate().slice(width - 1, 0), &a.negate(), 6);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_laws_shift() {
    let k = param(0) as usize;
    let width = any_width(k);
    let width = split(width as u64) as u32;
    let wa = any_words(width, k);
    let a = owned(&wa, width);
    let s = any(32) as u32;
    assume(s >= 1 && s < width && s % param(1) as u32 == param(2) as u32);
    let s = split(s as u64) as u32;
    let by = BitVecValue::from_u64(s as u64, width);
    let (l, r, ar) = (a.shift_left(&by), a.shift_right(&by), a.arithmetic_shift_right(&by));
    agree(&l, &a.slice(width - 1 - s, 0).concat(&BitVecValue::zero(s)), 1);
    agree(&r, &a.slice(width - 1, s).zero_extend(s), 2);
    agree(&ar, &a.slice(width - 1, s).sign_extend(s), 3);
    // what is shifted out and back in
    agree(&l.shift_right(&by), &a.slice(width - 1 - s, 0).zero_extend(s), 4);
    agree(&r.shift_left(&by), &a.slice(width - 1, s).concat(&BitVecValue::zero(s)), 5);
    cover(1);
}

/// multiplication by a power of two is a shift
#[no_mangle]
pub extern "C" fn h_laws_mul() {
    let width = any_width(1);
    let wa = any_words(width, 1);
    let a = owned(&wa, width);
    let s = any(32) as u32;
    assume(s < width);
    let s = split(s as u64) as u32;
    let mut p = BitVecValue::zero(width);
    p.set_bit(s);
    let by = BitVecValue::from_u64(s as u64, width);
    agree(&a.mul(&p), &a.shift_left(&by), 1);
    agree(&p.mul(&a), &a.shift_left(&by), 2);
    cover(1);
}

/// conversions invert each other
#[no_mangle]
pub extern "C" fn h_laws_conv() {
    let k = param(0) as usize;
    let width = any_width(k);
    let wa = any_words(width, k);
    let a = owned(&wa, width);
    agree(&BitVecValue::from_bytes_le(&a.to_bytes_le(), width), &a, 1);
    if let Some(x) = a.to_u64() {
        agree(&BitVecValue::from_u64(x, width), &a, 2);
        cover(2);
    }
    if let Some(x) = a.to_i64() {
        agree(&BitVecValue::from_i64(x, width), &a, 3);
        cover(3);
    }
    agree(&BitVecValue::from_big_uint(&a.to_big_uint(), width), &a, 4);
    // (C13 decides both directions one by one for larger values, the round trip is hard for the solver there)
    if k <= 2 {
        agree(&BitVecValue::from_big_int(&a.to_big_int(), width), &a, 5);
    }
    cover(1);
}
