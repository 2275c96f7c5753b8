//! values of many words: the width is given, the content is a fixed pattern with symbolic words at
//! the lower end, in the middle and at the upper end
use crate::gen::*;
use crate::rt::*;
use num_bigint::{BigInt, BigUint, Sign};

/// content of the words that are not symbolic
#[inline(always)]
pub fn pattern(fill: u64, i: usize) -> u64 {
    match fill {
        0 => 0,
        1 => u64::MAX,
        _ => (i as u64 + fill).wrapping_mul(0x9e3779b97f4a7c15),
    }
}

/// a canonical value; `mask` tells which of the words (lowest, middle, last but one, last) are symbolic
pub fn wide(width: u32, fill: u64, mask: u64) -> Vec<u64> {
    let k = nwords(width);
    let mut v = Vec::with_capacity(k);
    let mut i = 0;
    while i < k {
        v.push(pattern(fill, i));
        i += 1;
    }
    let at = [0, k / 2, k.saturating_sub(2), k - 1];
    i = 0;
    while i < 4 {
        if mask >> i & 1 == 1 {
            v[at[i]] = any(64);
        }
        i += 1;
    }
    v[k - 1] &= top_mask(width);
    v
}

pub fn eq_words(v: &impl BitVecOps, want: &[u64], width: u32, id: u32) {
    check(v.width() == width && v.words().len() == want.len(), id);
    let mut i = 0;
    while i < want.len() {
        check(v.words()[i] == want[i], id);
        i += 1;
    }
}

pub fn add_words(a: &[u64], b: &[u64], width: u32, inv: bool, c0: u64) -> Vec<u64> {
    let mut out = Vec::with_capacity(a.len());
    let mut c = c0 as u128;
    let mut i = 0;
    while i < a.len() {
        let y = if inv { !b[i] } else { b[i] };
        let s = a[i] as u128 + y as u128 + c;
        out.push(s as u64);
        c = s >> 64;
        i += 1;
    }
    out[a.len() - 1] &= top_mask(width);
    out
}

/// params: width, fills of both operands
#[no_mangle]
pub extern "C" fn h_wide_add() {
    let (w, fa, fb) = (param(0) as u32, param(1), param(2));
    // symbolic low words would make the carry symbolic all the way up
    let (a, b) = (wide(w, fa, 12), wide(w, fb, 12));
    let zero = vec![0u64; a.len()];
    let (va, vb) = (view(&a, w), view(&b, w));
    eq_words(&va.add(&vb), &add_words(&a, &b, w, false, 0), w, 1);
    eq_words(&va.sub(&vb), &add_words(&a, &b, w, true, 1), w, 2);
    eq_words(&vb.sub(&va), &add_words(&b, &a, w, true, 1), w, 3);
    eq_words(&va.negate(), &add_words(&zero, &a, w, true, 1), w, 4);
    eq_words(&(&owned(&a, w) + &vb), &add_words(&a, &b, w, false, 0), w, 5);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_wide_bits() {
    let (w, fa, fb) = (param(0) as u32, param(1), param(2));
    let (a, b) = (wide(w, fa, 15), wide(w, fb, 15));
    let (va, vb) = (view(&a, w), owned(&b, w));
    let zip = |f: fn(u64, u64) -> u64| {
        let mut out: Vec<u64> = Vec::with_capacity(a.len());
        let mut i = 0;
        while i < a.len() {
            out.push(f(a[i], b[i]));
            i += 1;
        }
        let k = a.len() - 1;
        out[k] &= top_mask(w);
        out
    };
    eq_words(&va.and(&vb), &zip(|a, b| a & b), w, 1);
    eq_words(&va.or(&vb), &zip(|a, b| a | b), w, 2);
    eq_words(&va.xor(&vb), &zip(|a, b| a ^ b), w, 3);
    eq_words(&va.not(), &zip(|a, _| !a), w, 4);
    cover(1);
}

/// 64 bits from position `at` on, ones or zeros beyond the end
pub fn word_from(a: &[u64], width: u32, at: u64, fill: u64) -> u64 {
    let k = a.len();
    let get = |j: usize| {
        if j + 1 < k {
            a[j]
        } else if j + 1 == k {
            a[j] | (fill & !top_mask(width))
        } else {
            fill
        }
    };
    let (j, s) = ((at / 64) as usize, at % 64);
    if s == 0 {
        get(j)
    } else {
        get(j) >> s | get(j + 1) << (64 - s)
    }
}

/// params: width, fill, amount
#[no_mangle]
pub extern "C" fn h_wide_shift() {
    let (w, fa, s) = (param(0) as u32, param(1), param(2));
    let mut a = wide(w, fa, 15);
    let k = a.len();
    let neg = split_bool(sign(&a, w, k));
    let top = 1u64 << ((w - 1) % 64);
    a[k - 1] = if neg { a[k - 1] | top } else { a[k - 1] & !top };
    let mut b = vec![0u64; k];
    b[0] = s;
    let (va, vb) = (view(&a, w), view(&b, w));
    let over = s >= w as u64;
    let (mut l, mut r, mut ar) = (vec![0u64; k], vec![0u64; k], vec![0u64; k]);
    let ones = if neg { u64::MAX } else { 0 };
    let (q, m) = ((s / 64) as usize, s % 64);
    let mut i = 0;
    while i < k {
        if over {
            ar[i] = ones;
        } else {
            r[i] = word_from(&a, w, s + 64 * i as u64, 0);
            ar[i] = word_from(&a, w, s + 64 * i as u64, ones);
            if i >= q {
                l[i] = a[i - q] << m;
                if m > 0 && i > q {
                    l[i] |= a[i - q - 1] >> (64 - m);
                }
            }
        }
        i += 1;
    }
    l[k - 1] &= top_mask(w);
    ar[k - 1] &= top_mask(w);
    eq_words(&va.shift_left(&vb), &l, w, 1);
    eq_words(&va.shift_right(&vb), &r, w, 2);
    eq_words(&va.arithmetic_shift_right(&vb), &ar, w, 3);
    // a bit beyond the first word of the amount shifts everything out
    let h = any(16) as usize;
    assume(h > 0 && h < k);
    let h = if k > 20 { k - 1 - (h & 1) } else { split(h as u64) as usize };
    b[h] = any(64) & if h == k - 1 { top_mask(w) } else { u64::MAX };
    assume(b[h] != 0);
    let vb = view(&b, w);
    let zero = vec![0u64; k];
    let mut sg = vec![ones; k];
    sg[k - 1] &= top_mask(w);
    eq_words(&va.shift_left(&vb), &zero, w, 4);
    eq_words(&va.shift_right(&vb), &zero, w, 5);
    eq_words(&va.arithmetic_shift_right(&vb), &sg, w, 6);
    cover(1);
}

/// params: width, fill, msb, lsb
#[no_mangle]
pub extern "C" fn h_wide_slice() {
    let (w, fa, hi, lo) = (param(0) as u32, param(1), param(2) as u32, param(3) as u32);
    let a = wide(w, fa, 15);
    let sw = hi - lo + 1;
    let k = nwords(sw);
    let mut want = vec![0u64; k];
    let mut i = 0;
    while i < k {
        want[i] = word_from(&a, w, lo as u64 + 64 * i as u64, 0);
        i += 1;
    }
    want[k - 1] &= top_mask(sw);
    eq_words(&view(&a, w).slice(hi, lo), &want, sw, 1);
    eq_words(&owned(&a, w).slice(hi, lo), &want, sw, 2);
    cover(1);
}

/// params: widths, fills
#[no_mangle]
pub extern "C" fn h_wide_concat() {
    let (wa, wb, fa, fb) = (param(0) as u32, param(1) as u32, param(2), param(3));
    let (a, b) = (wide(wa, fa, 15), wide(wb, fb, 15));
    let w = wa + wb;
    let k = nwords(w);
    let join = |hi: &dyn Fn(u64) -> u64| {
        // words of b, followed by those of the upper part at bit wb
        let mut out = vec![0u64; k];
        let (q, m) = ((wb / 64) as usize, wb % 64);
        let mut i = 0;
        while i < k {
            if i < b.len() {
                out[i] = b[i];
            }
            if i >= q {
                let j = (i - q) as u64;
                out[i] |= hi(j) << m;
                if m > 0 && j > 0 {
                    out[i] |= hi(j - 1) >> (64 - m);
                }
            }
            i += 1;
        }
        out[k - 1] &= top_mask(w);
        out
    };
    let (va, vb) = (view(&a, wa), view(&b, wb));
    eq_words(&va.concat(&vb), &join(&|j| word_at(&a, j as usize, a.len())), w, 1);
    eq_words(&vb.zero_extend(wa), &join(&|_| 0), w, 2);
    let neg = split_bool(sign(&b, wb, b.len()));
    eq_words(&vb.sign_extend(wa), &join(&|_| if neg { u64::MAX } else { 0 }), w, 3);
    cover(1);
}

/// two values that agree but for one word; params: width, fill, word
#[no_mangle]
pub extern "C" fn h_wide_cmp() {
    let (w, fa, at) = (param(0) as u32, param(1), param(2) as usize);
    let a = wide(w, fa, 8);
    let k = a.len();
    let mut b = a.clone();
    b[at] = any(64);
    b[k - 1] &= top_mask(w);
    let (x, y) = (a[at], b[at]);
    let (na, nb) = (sign(&a, w, k), sign(&b, w, k));
    let (va, vb) = (view(&a, w), owned(&b, w));
    if param(3) == 0 {
        check(va.is_equal(&vb) == (x == y) && va.is_not_equal(&vb) == (x != y), 1);
        check(va.is_less(&vb) == (x < y) && va.is_less_or_equal(&vb) == (x <= y), 2);
        check(va.is_greater(&vb) == (x > y) && va.is_greater_or_equal(&vb) == (x >= y), 3);
    } else if param(3) == 1 {
        let lt = if na != nb { na } else { x < y };
        let gt = if na != nb { nb } else { x > y };
        check(va.is_less_signed(&vb) == lt && va.is_greater_or_equal_signed(&vb) == !lt, 4);
        check(va.is_greater_signed(&vb) == gt && va.is_less_or_equal_signed(&vb) == !gt, 5);
    } else {
        let oa = owned(&a, w);
        check((oa == vb) == (x == y) && (va == vb) == (x == y) && (vb == va) == (x == y), 6);
        check((oa.cmp(&vb) == std::cmp::Ordering::Equal) == (x == y) && oa.cmp(&vb) == vb.cmp(&oa).reverse(), 7);
        // the shorter one is never equal
        check(oa != oa.slice(w - 2, 0) && oa.slice(w - 2, 0) != va, 8);
    }
    cover(1);
}

/// params: width, fill, bit
#[no_mangle]
pub extern "C" fn h_wide_assign() {
    let (w, fa, p) = (param(0) as u32, param(1), param(2) as u32);
    let a = wide(w, fa, 15);
    let k = a.len();
    let q = (p / 64) as usize;
    let mut want = a.clone();
    let mut v = owned(&a, w);
    check(v.is_bit_set(p) == (a[q] >> (p % 64) & 1 == 1), 1);
    v.set_bit(p);
    want[q] |= 1 << (p % 64);
    eq_words(&v, &want, w, 2);
    v.clear_bit(p);
    want[q] &= !(1 << (p % 64));
    eq_words(&v, &want, w, 3);
    check(v.is_negative() == sign(&want, w, k), 4);
    let b = wide(w, 5, 15);
    v.assign(view(&b, w));
    eq_words(&v, &b, w, 5);
    v.assign_ones();
    let mut ones = vec![u64::MAX; k];
    ones[k - 1] = top_mask(w);
    eq_words(&v, &ones, w, 6);
    eq_words(&BitVecValue::ones(w), &ones, w, 7);
    v.clear_bit(p);
    check(!v.is_zero(), 8);
    v.clear();
    let mut zero = vec![0u64; k];
    eq_words(&v, &zero, w, 9);
    eq_words(&BitVecValue::zero(w), &zero, w, 10);
    check(v.is_zero(), 11);
    v.set_bit(p);
    zero[q] |= 1 << (p % 64);
    eq_words(&v, &zero, w, 12);
    check(!v.is_zero() && v.is_negative() == (p == w - 1), 13);
    cover(1);
}

/// params: width, word with a symbolic content
#[no_mangle]
pub extern "C" fn h_wide_int() {
    let (w, at) = (param(0) as u32, param(1) as usize);
    let k = nwords(w);
    let x = any(64);
    let mut a = vec![0u64; k];
    a[0] = x;
    eq_words(&BitVecValue::from_u64(x, w), &a, w, 1);
    let mut v = owned(&wide(w, 7, 15), w);
    v.assign_from_u64(x);
    eq_words(&v, &a, w, 2);
    check(v.to_u64() == Some(x) && v.to_i64() == if x >> 63 == 0 { Some(x as i64) } else { None }, 3);
    // sign extended
    let neg = split_bool(x >> 63 == 1);
    let mut i = 1;
    while i < k {
        a[i] = if neg { u64::MAX } else { 0 };
        i += 1;
    }
    a[k - 1] &= top_mask(w);
    eq_words(&BitVecValue::from_i64(x as i64, w), &a, w, 4);
    check(owned(&a, w).to_i64() == Some(x as i64), 5);
    check(owned(&a, w).to_u64() == if neg { None } else { Some(x) }, 6);
    // any other content of any one word
    let y = any(64) & if at == k - 1 { top_mask(w) } else { u64::MAX };
    assume(y != a[at]);
    a[at] = y;
    let v = view(&a, w);
    check(v.to_i64().is_none(), 7);
    check(v.to_u64().is_none(), 8);
    check(v.to_bool().is_none() && !v.is_tru() && !v.is_fals(), 9);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_wide_bytes() {
    let (w, fa) = (param(0) as u32, param(1));
    let a = wide(w, fa, 15);
    let v = view(&a, w).to_bytes_le();
    check(v.len() == (w as usize + 7) / 8, 1);
    let mut j = 0;
    while j < v.len() {
        check(v[j] as u64 == (a[j / 8] >> (8 * (j % 8))) & 0xff, 2);
        j += 1;
    }
    eq_words(&BitVecValue::from_bytes_le(&v, w), &a, w, 3);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_wide_big() {
    let (w, fa) = (param(0) as u32, param(1));
    let mut a = wide(w, fa, if fa == 0 { 8 } else { 10 });
    let k = a.len();
    let top = 1u64 << ((w - 1) % 64);
    let neg = split_bool(sign(&a, w, k));
    if neg {
        a[k - 1] |= top;
    } else {
        // as many words as the magnitude suggests
        a[k - 1] &= !top;
        a[(w as usize - 2) / 64] |= 1 << ((w - 2) % 64);
    }
    let v = view(&a, w);
    let digits = |m: &[u64]| {
        let mut d = Vec::with_capacity(2 * k);
        let mut i = 0;
        while i < k {
            d.push(m[i] as u32);
            d.push((m[i] >> 32) as u32);
            i += 1;
        }
        d
    };
    let u = BigUint::from_slice(&digits(&a));
    check(v.to_big_uint() == u, 1);
    eq_words(&BitVecValue::from_big_uint(&u, w), &a, w, 2);
    let zero = vec![0u64; k];
    let m = if neg { add_words(&zero, &a, w, true, 1) } else { a.clone() };
    let s = BigInt::from_slice(if neg { Sign::Minus } else { Sign::Plus }, &digits(&m));
    check(v.to_big_int() == s, 3);
    eq_words(&BitVecValue::from_big_int(&s, w), &a, w, 4);
    let b = BitVecValue::from(&s);
    if neg {
        check(b.width() <= w + 1, 5);
    } else {
        eq_words(&b, &a, w, 5);
        eq_words(&BitVecValue::from(&u), &a[..nwords(w - 1)], w - 1, 6);
    }
    cover(1);
}

#[inline(always)]
pub fn digit(x: u64) -> u8 {
    ite(x < 10, x + b'0' as u64, x + b'a' as u64 - 10) as u8
}

/// params: width, fill, style (0: binary, 1: hexadecimal, 2: signed binary, 3: signed hexadecimal)
#[no_mangle]
pub extern "C" fn h_wide_str() {
    let (w, fa, style) = (param(0) as u32, param(1), param(2));
    let mut a = wide(w, fa, if style < 2 { 15 } else { 8 });
    let k = a.len();
    let signed = style > 1;
    let neg = signed && split_bool(sign(&a, w, k));
    let top = 1u64 << ((w - 1) % 64);
    a[k - 1] = if neg { a[k - 1] | top } else if signed { a[k - 1] & !top } else { a[k - 1] };
    let v = view(&a, w);
    let step = if style & 1 == 0 { 1 } else { 4 };
    let text = match style {
        0 => v.to_bit_str(),
        1 => v.to_hex_str(),
        2 => v.to_bit_str_signed(),
        _ => v.to_hex_str_signed(),
    };
    let zero = vec![0u64; k];
    let m = if neg { add_words(&zero, &a, w, true, 1) } else { a.clone() };
    let bits = if signed && !(neg && split_bool(sign(&m, w, k))) { w - 1 } else { w };
    let t = text.as_bytes();
    let n = ((bits + step - 1) / step) as usize;
    check(t.len() == n + neg as usize, 1);
    check(!neg || t[0] == b'-', 2);
    let mut i = 0;
    while i < n {
        let p = i as u32 * step;
        let d = (m[(p / 64) as usize] >> (p % 64)) & ((1 << step) - 1);
        check(t[t.len() - 1 - i] == digit(d), 3);
        i += 1;
    }
    cover(1);
}

/// digits of a fixed pattern with symbolic ones at a few places, read at a given width
/// params: digits, radix (2, 16), sign (0: none, 1: plus, 2: minus), bits more than the digits have
#[no_mangle]
pub extern "C" fn h_wide_parse() {
    let (n, radix, sg, extra) = (param(0) as usize, param(1), param(2), param(3) as u32);
    let step = if radix == 2 { 1 } else { 4 };
    let bits = n as u32 * step;
    let w = bits + extra;
    let k = nwords(w);
    let mut s: Vec<u8> = Vec::with_capacity(n + 1);
    if sg > 0 {
        s.push(if sg == 1 { b'+' } else { b'-' });
    }
    let mut m = vec![0u64; k];
    let mut i = 0;
    while i < n {
        let mut d = (i as u64).wrapping_mul(0x9e3779b97f4a7c15) >> (64 - step);
        if i == 0 {
            d = 1;
        }
        if i == 1 || i == n / 2 || (i + 1 == n && sg < 2) {
            d = any(step);
        }
        s.push(digit(d));
        let p = (n - 1 - i) as u32 * step;
        m[(p / 64) as usize] |= d << (p % 64);
        i += 1;
    }
    if sg == 2 {
        let zero = vec![0u64; k];
        m = add_words(&zero, &m, w, true, 1);
    }
    let text = unsafe { std::str::from_utf8_unchecked(&s) };
    let r = BitVecValue::from_str_radix(text, radix as u32, w);
    check(r.is_ok(), 1);
    eq_words(&r.unwrap(), &m, w, 2);
    let short = bits - step;
    if n > 1 {
        // the first digit is a one
        let fits = BitVecValue::from_str_radix(text, radix as u32, short + 1);
        check(fits.is_ok() && fits.unwrap().width() == short + 1, 3);
        check(BitVecValue::from_str_radix(text, radix as u32, short).is_err(), 4);
    }
    if extra == 0 && sg < 2 {
        let b = if radix == 2 { BitVecValue::from_bit_str(text) } else { BitVecValue::from_hex_str(text) };
        check(b.is_ok(), 5);
        eq_words(&b.unwrap(), &m, w, 6);
    }
    // one wrong character
    let at = any(32) as usize;
    assume(at < 4);
    let at = [sg.min(1) as usize, sg.min(1) as usize + n / 3, s.len() / 2, s.len() - 1][split(at as u64) as usize];
    let c = any(7) as u8;
    assume(!(c.wrapping_sub(b'0') < 10 || c.wrapping_sub(b'a') < 6 || c.wrapping_sub(b'A') < 6) && c != b'+' && c != b'-');
    s[at] = c;
    let text = unsafe { std::str::from_utf8_unchecked(&s) };
    check(BitVecValue::from_str_radix(text, radix as u32, w).is_err(), 7);
    cover(1);
}

/// printing and parsing; params: width, fill, style (as h_wide_str)
#[no_mangle]
pub extern "C" fn h_wide_round() {
    let (w, fa, style) = (param(0) as u32, param(1), param(2));
    let mut a = wide(w, fa, if style < 2 { 7 } else { 0 });
    let k = a.len();
    let top = 1u64 << ((w - 1) % 64);
    a[k - 1] = if any_bool() { a[k - 1] | top } else { a[k - 1] & !top };
    a[k - 1] = split(a[k - 1]);
    let v = view(&a, w);
    let text = match style {
        0 => v.to_bit_str(),
        1 => v.to_hex_str(),
        2 => v.to_bit_str_signed(),
        _ => v.to_hex_str_signed(),
    };
    let r = BitVecValue::from_str_radix(&text, if style & 1 == 0 { 2 } else { 16 }, w);
    check(r.is_ok(), 1);
    eq_words(&r.unwrap(), &a, w, 2);
    if style == 0 {
        eq_words(&BitVecValue::from_bit_str(&text).unwrap(), &a, w, 3);
    }
    if style == 1 {
        let hw = (w + 3) / 4 * 4;
        let mut b = a.clone();
        if nwords(hw) > k {
            b.push(0);
        }
        eq_words(&BitVecValue::from_hex_str(&text).unwrap(), &b, hw, 4);
    }
    cover(1);
}

/// copies, views and wrapped values; params: width, fill
#[no_mangle]
pub extern "C" fn h_wide_views() {
    let (w, fa) = (param(0) as u32, param(1));
    let mut a = wide(w, fa, 15);
    let b = wide(w, 5, 15);
    let k = a.len();
    let v = owned(&a, w);
    eq_words(&v, &a, w, 1);
    let c = v.clone();
    eq_words(&BitVecValueRef::from(&v), &a, w, 2);
    eq_words(&BitVecValue::from(BitVecValueRef::from(&c)), &a, w, 3);
    let was = a.clone();
    {
        let mut m = mview(&mut a, w);
        eq_words(&m, &was, w, 4);
        m.assign(view(&b, w));
        eq_words(&m, &b, w, 5);
    }
    let mut i = 0;
    while i < k {
        check(a[i] == b[i], 6);
        i += 1;
    }
    eq_words(&c, &was, w, 7);
    let mut o = c;
    BitVecValueMutRef::from(&mut o).assign(view(&b, w));
    eq_words(&o, &b, w, 8);
    eq_words(&v, &was, w, 9);
    cover(1);
}

/// values at high places of a large store; params: words of the store, start and width of three values
#[no_mangle]
pub extern "C" fn h_wide_store() {
    let n = param(0) as usize;
    let at = [param(1), param(3), param(5)];
    let ws = [param(2) as u32, param(4) as u32, param(6) as u32];
    let mut d: Vec<u64> = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        d.push(pattern(9, i));
        i += 1;
    }
    // symbolic at both ends of each value and around it
    let mut j = 0;
    while j < 3 {
        let (s, k) = (at[j] as usize, nwords(ws[j]));
        d[s] = any(64);
        d[s + k - 1] = any(64);
        if s > 0 {
            d[s - 1] = any(64);
        }
        if s + k < n {
            d[s + k] = any(64);
        }
        j += 1;
    }
    let ix = |j: usize| BitVecValueIndex::new(at[j] as u32, ws[j]);
    let part = |d: &[u64], j: usize| d[at[j] as usize..at[j] as usize + nwords(ws[j])].to_vec();
    let mut j = 0;
    while j < 3 {
        let i = ix(j);
        check(i.to_range() == (at[j] as usize..at[j] as usize + nwords(ws[j])) && i.words() == nwords(ws[j]) && i.width() == ws[j], 1);
        let r: BitVecValueRef = d.as_slice().get_ref(i);
        eq_words(&r, &part(&d, j), ws[j], 2);
        j += 1;
    }
    {
        let (x, y) = d.as_slice().get_ref((ix(0), ix(2)));
        eq_words(&x, &part(&d, 0), ws[0], 3);
        eq_words(&y, &part(&d, 2), ws[2], 3);
    }
    let new = wide(ws[0], 11, 15);
    let mut e = d.clone();
    let mut round = 0;
    while round < 3 {
        if round == 0 {
            let mut x: BitVecValueMutRef = e.as_mut_slice().get_mut_ref(ix(0));
            x.assign(view(&new, ws[0]));
        } else if round == 1 {
            let (mut x, y) = e.as_mut_slice().get_mut_ref((ix(0), ix(1)));
            eq_words(&y, &part(&d, 1), ws[1], 4);
            x.clear();
        } else {
            let (mut x, y, z) = e.as_mut_slice().get_mut_ref((ix(0), ix(1), ix(2)));
            eq_words(&y, &part(&d, 1), ws[1], 5);
            eq_words(&z, &part(&d, 2), ws[2], 6);
            x.assign(view(&new, ws[0]));
        }
        let (s, k) = (at[0] as usize, nwords(ws[0]));
        let mut i = 0;
        while i < n {
            let want = if i >= s && i < s + k { if round == 1 { 0 } else { new[i - s] } } else { d[i] };
            check(e[i] == want, 7);
            i += 1;
        }
        round += 1;
    }
    cover(1);
}

/// interning after many other values; params: number of values before, their width, width of the two last
#[no_mangle]
pub extern "C" fn h_wide_intern() {
    let (n, w0, w) = (param(0), param(1) as u32, param(2) as u32);
    let mut int = ValueInterner::new();
    let mut first = Vec::with_capacity(n as usize);
    let mut i = 0;
    while i < n {
        let x = wide_plain(w0, i);
        first.push(int.get_index(view(&x, w0)));
        i += 1;
    }
    let k = nwords(w);
    let (mut a, mut b) = (vec![pattern(3, 1); k], vec![pattern(3, 1); k]);
    a[0] = any(64);
    b[0] = any(64);
    a[k - 1] &= top_mask(w);
    b[k - 1] &= top_mask(w);
    let (ia, ib) = (int.get_index(view(&a, w)), int.get_index(view(&b, w)));
    let r: BitVecValueRef = int.words().get_ref(ia);
    eq_words(&r, &a, w, 1);
    let r: BitVecValueRef = int.words().get_ref(ib);
    eq_words(&r, &b, w, 2);
    check((ia == ib) == same(&a, &b, k), 3);
    let mut i = 0;
    while i < n {
        let x = wide_plain(w0, i);
        if i < 4 || i + 4 > n || i % 61 == 0 {
            let r: BitVecValueRef = int.words().get_ref(first[i as usize]);
            eq_words(&r, &x, w0, 4);
            check((first[i as usize] == ia) == (w == w0 && same(&x, &a, k)), 5);
        }
        i += 1;
    }
    cover(1);
}

/// the i-th of a list of different values
fn wide_plain(w: u32, i: u64) -> Vec<u64> {
    let k = nwords(w);
    let mut v = vec![0u64; k];
    v[0] = i * 3 + 5;
    v[k - 1] |= (i & 1) << ((w - 1) % 64);
    v
}
