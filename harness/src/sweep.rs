//! ranges of widths, one after the other, with arbitrary contents: amounts and positions are taken
//! around the word borders and the ends
use crate::gen::*;
use crate::rt::*;
use crate::wide::{add_words, digit, eq_words, pattern, word_from};
use num_bigint::{BigInt, BigUint, Sign};

/// as many arbitrary words as the largest width needs
fn stock(width: u32) -> Vec<u64> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < nwords(width) {
        v.push(any(64));
        i += 1;
    }
    v
}

/// a value of the given width
fn cut(s: &[u64], width: u32) -> Vec<u64> {
    let mut a = s[..nwords(width)].to_vec();
    a[nwords(width) - 1] &= top_mask(width);
    a
}

/// positions below `end` (and `end` itself) around word borders and both ends
fn places(end: u32, salt: u32, every: bool) -> Vec<u32> {
    if every {
        return (0..=end).collect();
    }
    let mut p: Vec<u32> = vec![0, 1, end / 2, end / 3 + salt % 7, (salt * 37) % (end + 1)];
    let mut b = 64 * (1 + salt % 3);
    while b <= end + 64 {
        p.push(b - 1);
        p.push(b);
        p.push(b + 1);
        b += 64 * 3;
    }
    let mut i = 0;
    while i < 3 {
        p.push(end - i.min(end));
        p.push((end - i.min(end)) / 64 * 64);
        i += 1;
    }
    p.retain(|x| *x <= end);
    p.sort_unstable();
    p.dedup();
    p
}

/// params: first and last width, whether every place is taken
#[no_mangle]
pub extern "C" fn h_sweep_shift() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let s = stock(hi);
    let mut w = lo;
    while w <= hi {
        let mut a = cut(&s, w);
        let k = a.len();
        for neg in [true, false] {
            let top = 1u64 << ((w - 1) % 64);
            a[k - 1] = if neg { a[k - 1] | top } else { a[k - 1] & !top };
            let ones = if neg { u64::MAX } else { 0 };
            let va = view(&a, w);
            for n in places(w + 1, w, param(2) == 1) {
                if w < 8 && n >> w != 0 {
                    continue;
                }
                let vb = BitVecValue::from_u64(n as u64, w);
                let (q, m) = ((n / 64) as usize, n % 64);
                let mut want = vec![0u64; k];
                let mut i = 0;
                if neg {
                    while i < k {
                        if n < w && i >= q {
                            want[i] = a[i - q] << m;
                            if m > 0 && i > q {
                                want[i] |= a[i - q - 1] >> (64 - m);
                            }
                        }
                        i += 1;
                    }
                    want[k - 1] &= top_mask(w);
                    eq_words(&va.shift_left(&vb), &want, w, 1);
                    i = 0;
                    while i < k {
                        want[i] = if n < w { word_from(&a, w, n as u64 + 64 * i as u64, 0) } else { 0 };
                        i += 1;
                    }
                    eq_words(&va.shift_right(&vb), &want, w, 2);
                    i = 0;
                }
                while i < k {
                    want[i] = if n < w { word_from(&a, w, n as u64 + 64 * i as u64, ones) } else { ones };
                    i += 1;
                }
                want[k - 1] &= top_mask(w);
                eq_words(&va.arithmetic_shift_right(&vb), &want, w, 3);
            }
        }
        w += 1;
    }
    cover(1);
}

/// params: first and last width, whether every place is taken
#[no_mangle]
pub extern "C" fn h_sweep_slice() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let s = stock(hi);
    let mut w = lo;
    while w <= hi {
        let a = cut(&s, w);
        let va = view(&a, w);
        let ps = places(w - 1, w, param(2) == 1);
        for &f in &ps {
            for &t in &ps {
                // every third pair, a different one for each width
                if f > t || (param(2) == 0 && (f + t + w) % 3 == 0) {
                    continue;
                }
                let sw = t - f + 1;
                let k = nwords(sw);
                let mut want = vec![0u64; k];
                let mut i = 0;
                while i < k {
                    want[i] = word_from(&a, w, f as u64 + 64 * i as u64, 0);
                    i += 1;
                }
                want[k - 1] &= top_mask(sw);
                eq_words(&va.slice(t, f), &want, sw, 1);
            }
        }
        w += 1;
    }
    cover(1);
}

/// concatenation with and extension by several widths; params: first and last width
#[no_mangle]
pub extern "C" fn h_sweep_concat() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let (s, r) = (stock(hi), stock(700));
    let mut wb = lo;
    while wb <= hi {
        let mut b = cut(&s, wb);
        let kb = b.len();
        let top = 1u64 << ((wb - 1) % 64);
        let neg = wb % 2 == 0;
        b[kb - 1] = if neg { b[kb - 1] | top } else { b[kb - 1] & !top };
        let vb = view(&b, wb);
        for wa in [1, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 64 - wb % 64, 65 - wb % 64, 128 - wb % 64, 320 - wb % 64, wb % 700, 300 + wb % 97, (wb * 13) % 640] {
            if wa == 0 {
                continue;
            }
            let a = cut(&r, wa);
            let w = wa + wb;
            let k = nwords(w);
            let (q, m) = ((wb / 64) as usize, wb % 64);
            for what in 0..3 {
                let hi = |j: usize| {
                    if what == 0 {
                        if j < a.len() { a[j] } else { 0 }
                    } else if what == 2 && neg {
                        u64::MAX
                    } else {
                        0
                    }
                };
                let mut want = vec![0u64; k];
                let mut i = 0;
                while i < k {
                    if i < kb {
                        want[i] = b[i];
                    }
                    if i >= q {
                        want[i] |= hi(i - q) << m;
                        if m > 0 && i > q {
                            want[i] |= hi(i - q - 1) >> (64 - m);
                        }
                    }
                    i += 1;
                }
                want[k - 1] &= top_mask(w);
                if what == 0 {
                    eq_words(&view(&a, wa).concat(&vb), &want, w, 1);
                } else if what == 1 {
                    eq_words(&vb.zero_extend(wa), &want, w, 2);
                } else {
                    eq_words(&vb.sign_extend(wa), &want, w, 3);
                }
            }
        }
        wb += 1;
    }
    cover(1);
}

/// bitwise operations, single bits, bytes; params: first and last width
#[no_mangle]
pub extern "C" fn h_sweep_bits() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let (s, r) = (stock(hi), stock(hi));
    let mut w = lo;
    while w <= hi {
        let (a, b) = (cut(&s, w), cut(&r, w));
        let k = a.len();
        let (va, vb) = (owned(&a, w), view(&b, w));
        let zip = |f: fn(u64, u64) -> u64| {
            let mut out: Vec<u64> = Vec::with_capacity(k);
            let mut i = 0;
            while i < k {
                out.push(f(a[i], b[i]));
                i += 1;
            }
            out[k - 1] &= top_mask(w);
            out
        };
        eq_words(&va.and(&vb), &zip(|a, b| a & b), w, 1);
        eq_words(&va.or(&vb), &zip(|a, b| a | b), w, 2);
        eq_words(&va.xor(&vb), &zip(|a, b| a ^ b), w, 3);
        eq_words(&vb.not(), &zip(|_, b| !b), w, 4);
        w += 1;
    }
    cover(1);
}

/// params: first and last width
#[no_mangle]
pub extern "C" fn h_sweep_mutate() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let s = stock(hi);
    let mut w = lo;
    while w <= hi {
        let a = cut(&s, w);
        let k = a.len();
        for p in places(w - 1, w, param(2) == 1) {
            let (q, m) = ((p / 64) as usize, p % 64);
            let mut v = owned(&a, w);
            let mut want = a.clone();
            check(v.is_bit_set(p) == (a[q] >> m & 1 == 1), 1);
            v.clear_bit(p);
            want[q] &= !(1 << m);
            eq_words(&v, &want, w, 2);
            v.set_bit(p);
            want[q] |= 1 << m;
            eq_words(&v, &want, w, 3);
            check(!v.is_zero(), 4);
            let mut one = vec![0u64; k];
            eq_words(&BitVecValue::zero(w), &one, w, 5);
            one[q] |= 1 << m;
            v.clear();
            v.set_bit(p);
            eq_words(&v, &one, w, 6);
            check(!v.is_zero() && v.is_negative() == (p == w - 1), 7);
        }
        let mut ones = vec![u64::MAX; k];
        ones[k - 1] = top_mask(w);
        eq_words(&BitVecValue::ones(w), &ones, w, 8);
        let mut v = owned(&a, w);
        v.assign_ones();
        eq_words(&v, &ones, w, 9);
        v.assign(view(&a, w));
        eq_words(&v, &a, w, 10);
        v.clear();
        check(v.is_zero(), 11);
        w += 1;
    }
    cover(1);
}

/// params: first and last width
#[no_mangle]
pub extern "C" fn h_sweep_bytes() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let s = stock(hi);
    let mut w = lo;
    while w <= hi {
        let a = cut(&s, w);
        let v = view(&a, w).to_bytes_le();
        check(v.len() == (w as usize + 7) / 8, 1);
        let mut j = 0;
        while j < v.len() {
            check(v[j] as u64 == (a[j / 8] >> (8 * (j % 8))) & 0xff, 2);
            j += 1;
        }
        eq_words(&BitVecValue::from_bytes_le(&v, w), &a, w, 3);
        w += 1;
    }
    cover(1);
}

/// integers; params: first and last width (more than 64 bits)
#[no_mangle]
pub extern "C" fn h_sweep_int() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let (x, y) = (any(63), any(63));
    let neg = split_bool(any_bool());
    let x = if neg { x | 1 << 63 } else { x };
    let mut w = lo;
    while w <= hi {
        let k = nwords(w);
        let mut a = vec![0u64; k];
        a[0] = x;
        eq_words(&BitVecValue::from_u64(x, w), &a, w, 1);
        check(view(&a, w).to_u64() == Some(x), 2);
        check(view(&a, w).to_i64() == if neg { None } else { Some(x as i64) }, 3);
        let mut i = 1;
        while i < k {
            a[i] = if neg { u64::MAX } else { 0 };
            i += 1;
        }
        a[k - 1] &= top_mask(w);
        eq_words(&BitVecValue::from_i64(x as i64, w), &a, w, 4);
        check(view(&a, w).to_i64() == Some(x as i64), 5);
        check(view(&a, w).to_u64() == if neg { None } else { Some(x) }, 6);
        // one other bit
        let p = 64 + y_place(w);
        a[(p / 64) as usize] ^= 1 << (p % 64);
        a[0] = y;
        check(view(&a, w).to_u64().is_none() && view(&a, w).to_i64().is_none(), 7);
        let mut v = owned(&a, w);
        v.assign_from_u64(x);
        a = vec![0u64; k];
        a[0] = x;
        eq_words(&v, &a, w, 8);
        w += 1;
    }
    cover(1);
}

fn y_place(w: u32) -> u32 {
    // not the only bit above the 64th of a negative number, where flipping it gives zeros
    if w == 65 {
        0
    } else {
        (w * 29) % (w - 64)
    }
}

/// params: first and last width, style (0: binary, 1: hexadecimal)
#[no_mangle]
pub extern "C" fn h_sweep_str() {
    let (lo, hi, style) = (param(0) as u32, param(1) as u32, param(2));
    let s = stock(hi);
    let step = if style == 0 { 1 } else { 4 };
    let mut w = lo;
    while w <= hi {
        let a = cut(&s, w);
        let v = view(&a, w);
        let text = if style == 0 { v.to_bit_str() } else { v.to_hex_str() };
        let t = text.as_bytes();
        let n = ((w + step - 1) / step) as usize;
        check(t.len() == n, 1);
        let mut i = 0;
        while i < n {
            let p = i as u32 * step;
            let d = (a[(p / 64) as usize] >> (p % 64)) & ((1 << step) - 1);
            check(t[n - 1 - i] == digit(d), 2);
            i += 1;
        }
        w += 1;
    }
    cover(1);
}

/// two's complement strings of numbers with a known sign; params: first and last width, style
/// (2: signed binary, 3: signed hexadecimal)
#[no_mangle]
pub extern "C" fn h_sweep_sstr() {
    let (lo, hi, style) = (param(0) as u32, param(1) as u32, param(2));
    let s = stock(hi);
    let step = if style == 2 { 1 } else { 4 };
    let mut w = lo;
    while w <= hi {
        for shape in 0..5 {
            let neg = shape != 1;
            let mut a = cut(&s, w);
            let k = a.len();
            if shape < 2 {
                // an odd number: nothing is carried over when it is negated
                a[0] |= 1;
            } else {
                // the smallest, minus one, zeros in the lower half
                let mut i = 0;
                while i < k {
                    a[i] = if shape == 3 {
                        u64::MAX
                    } else if shape == 2 || i < (k + 1) / 2 {
                        0
                    } else {
                        pattern(w as u64, i)
                    };
                    i += 1;
                }
                a[k - 1] &= top_mask(w);
            }
            let top = 1u64 << ((w - 1) % 64);
            a[k - 1] = if neg { a[k - 1] | top } else { a[k - 1] & !top };
            let v = view(&a, w);
            let text = if style == 2 { v.to_bit_str_signed() } else { v.to_hex_str_signed() };
            let mut m = a.clone();
            if neg {
                let mut i = 0;
                while i < k {
                    m[i] = !a[i];
                    i += 1;
                }
                if shape < 2 {
                    m[0] |= 1;
                } else {
                    i = 0;
                    while i < k {
                        m[i] = m[i].wrapping_add(1);
                        if m[i] != 0 {
                            break;
                        }
                        i += 1;
                    }
                }
                m[k - 1] &= top_mask(w);
            }
            let t = text.as_bytes();
            // only the smallest number needs all of the bits
            let bits = if shape > 1 && m[k - 1] & top != 0 { w } else { w - 1 };
            let n = ((bits + step - 1) / step) as usize;
            check(t.len() == n + neg as usize && (!neg || t[0] == b'-'), 1);
            let mut i = 0;
            while i < n {
                let p = i as u32 * step;
                check(t[t.len() - 1 - i] == digit((m[(p / 64) as usize] >> (p % 64)) & ((1 << step) - 1)), 2);
                i += 1;
            }
        }
        w += 1;
    }
    cover(1);
}

/// values that agree but for one word; params: first and last width, kind (as h_wide_cmp)
#[no_mangle]
pub extern "C" fn h_sweep_cmp() {
    let (lo, hi, kind) = (param(0) as u32, param(1) as u32, param(2));
    let s = stock(hi);
    let (x0, y0) = (any(64), any(64));
    let mut w = lo;
    while w <= hi {
        let k = nwords(w);
        for at in [0, 1 % k, w as usize % k, k / 2, k - 1] {
            let mut a = cut(&s, w);
            let mut b = a.clone();
            let m = if at == k - 1 { top_mask(w) } else { u64::MAX };
            a[at] = x0 & m;
            b[at] = y0 & m;
            let (x, y) = (a[at], b[at]);
            let neg = |v: &[u64]| v[k - 1] >> ((w - 1) % 64) & 1 == 1;
            let (na, nb) = (neg(&a), neg(&b));
            let (va, vb) = (view(&a, w), owned(&b, w));
            if kind == 0 {
                check(va.is_equal(&vb) == (x == y) && va.is_not_equal(&vb) == (x != y), 1);
                check(va.is_less(&vb) == (x < y) && va.is_less_or_equal(&vb) == (x <= y), 2);
                check(va.is_greater(&vb) == (x > y) && va.is_greater_or_equal(&vb) == (x >= y), 3);
            } else if kind == 1 {
                let lt = if na != nb { na } else { x < y };
                let gt = if na != nb { nb } else { x > y };
                check(va.is_less_signed(&vb) == lt && va.is_greater_or_equal_signed(&vb) == !lt, 4);
                check(va.is_greater_signed(&vb) == gt && va.is_less_or_equal_signed(&vb) == !gt, 5);
            } else {
                let oa = owned(&a, w);
                check((oa == vb) == (x == y) && (va == vb) == (x == y) && (vb == va) == (x == y), 6);
                check((oa.cmp(&vb) == std::cmp::Ordering::Equal) == (x == y), 7);
                check(w < 2 || (oa != oa.slice(w - 2, 0) && oa.slice(w - 2, 0) != va), 8);
            }
        }
        w += 1;
    }
    cover(1);
}

/// digit strings with one arbitrary digit; params: first and last number of digits, radix
#[no_mangle]
pub extern "C" fn h_sweep_parse() {
    let (lo, hi, radix) = (param(0) as usize, param(1) as usize, param(2));
    let step = if radix == 2 { 1 } else { 4 };
    let x = any(step);
    let mut n = lo;
    while n <= hi {
        let bits = n as u32 * step;
        let sg = n % 3;
        let w = bits + if sg == 2 { 1 } else { 0 } + if n % 5 == 0 { (n % 131) as u32 } else { 0 };
        let k = nwords(w);
        let at = [0, n - 1, n / 2, (n * 7) % n.max(1), (n * 11 + 5) % n][n % 5];
        let mut m = vec![0u64; k];
        let mut s: Vec<u8> = Vec::with_capacity(n + 1);
        if sg > 0 {
            s.push(if sg == 1 { b'+' } else { b'-' });
        }
        let mut i = 0;
        while i < n {
            let d = if i == at && (sg != 2 || i + 1 < n) { x } else if i + 1 == n { 1 } else { pattern(3, i + n) >> (64 - step) };
            s.push(if i % 3 == 0 && i != at { upper(d) } else { digit(d) });
            let p = (n - 1 - i) as u32 * step;
            m[(p / 64) as usize] |= d << (p % 64);
            i += 1;
        }
        if sg == 2 {
            // an odd number
            i = 0;
            while i < k {
                m[i] = if i == 0 { !m[i] | 1 } else { !m[i] };
                i += 1;
            }
            m[k - 1] &= top_mask(w);
        }
        let r = BitVecValue::from_str_radix(unsafe { std::str::from_utf8_unchecked(&s) }, radix as u32, w);
        check(r.is_ok(), 1);
        eq_words(&r.unwrap(), &m, w, 2);
        if n > 1 && sg == 0 {
            s[n - 1 - (n / 3)] = b'g';
            check(BitVecValue::from_str_radix(unsafe { std::str::from_utf8_unchecked(&s) }, radix as u32, w).is_err(), 3);
        }
        n += 1;
    }
    cover(1);
}

fn upper(d: u64) -> u8 {
    if d < 10 {
        d as u8 + b'0'
    } else {
        d as u8 - 10 + b'A'
    }
}

/// printed and read again; params: first and last width, style
#[no_mangle]
pub extern "C" fn h_sweep_round() {
    let (lo, hi, style) = (param(0) as u32, param(1) as u32, param(2));
    let x = any(64);
    let mut w = lo;
    while w <= hi {
        // the last four: the smallest, all ones, zero, zeros in the lower half
        for shape in 0..6 {
            let top = shape == 1 || shape == 2 || shape == 3 || shape == 5;
            let k = nwords(w);
            let mut a = vec![0u64; k];
            let mut i = 0;
            while i < k {
                a[i] = match shape {
                    2 | 4 => 0,
                    3 => u64::MAX,
                    5 if i < (k + 1) / 2 => 0,
                    _ => pattern(w as u64, i),
                };
                i += 1;
            }
            // a few arbitrary bits that do not change the length of the text
            let p = (w * 19 + style as u32) % w;
            if p + 9 < w && p > 0 && shape < 2 {
                let m = 3u64 << (p % 64);
                let q = (p / 64) as usize;
                a[q] = if style < 2 { a[q] & !m | x & m } else { a[q] };
            }
            a[k - 1] &= top_mask(w);
            let t = 1u64 << ((w - 1) % 64);
            a[k - 1] = if top { a[k - 1] | t } else { a[k - 1] & !t };
            let v = view(&a, w);
            let text = match style {
                0 => v.to_bit_str(),
                1 => v.to_hex_str(),
                2 => v.to_bit_str_signed(),
                _ => v.to_hex_str_signed(),
            };
            let r = BitVecValue::from_str_radix(&text, if style & 1 == 0 { 2 } else { 16 }, w);
            check(r.is_ok(), 1);
            eq_words(&r.unwrap(), &a, w, 2);
            if style == 0 {
                eq_words(&BitVecValue::from_bit_str(&text).unwrap(), &a, w, 3);
            }
            if style == 1 {
                let r = BitVecValue::from_hex_str(&text).unwrap();
                check(r.width() == (w + 3) / 4 * 4, 4);
                eq_words(&r.slice(w - 1, 0), &a, w, 5);
            }
        }
        w += 1;
    }
    cover(1);
}

/// big integers with a known sign and length; params: first and last width (at least 3)
#[no_mangle]
pub extern "C" fn h_sweep_big() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let s = stock(hi);
    let mut w = lo;
    while w <= hi {
        for neg in [true, false] {
            let mut a = cut(&s, w);
            let k = a.len();
            a[0] |= 1;
            let (t, u) = (((w - 1) / 64) as usize, ((w - 2) / 64) as usize);
            let (tb, ub) = (1u64 << ((w - 1) % 64), 1u64 << ((w - 2) % 64));
            if neg {
                // the magnitude has one bit less than the width
                a[t] |= tb;
                a[u] &= !ub;
            } else {
                a[t] &= !tb;
                a[u] |= ub;
            }
            let mut m = a.clone();
            if neg {
                let mut i = 0;
                while i < k {
                    m[i] = if i == 0 { !a[i] | 1 } else { !a[i] };
                    i += 1;
                }
                m[k - 1] &= top_mask(w);
            }
            let digits = |m: &[u64]| {
                let mut d = Vec::with_capacity(2 * k);
                let mut i = 0;
                while i < k {
                    d.push(m[i] as u32);
                    d.push((m[i] >> 32) as u32);
                    i += 1;
                }
                d
            };
            let v = view(&a, w);
            let b = BigInt::from_slice(if neg { Sign::Minus } else { Sign::Plus }, &digits(&m));
            check(v.to_big_int() == b, 1);
            eq_words(&BitVecValue::from_big_int(&b, w), &a, w, 2);
            let u = BigUint::from_slice(&digits(&a));
            check(v.to_big_uint() == u, 3);
            eq_words(&BitVecValue::from_big_uint(&u, w), &a, w, 4);
            if !neg {
                let auto = BitVecValue::from(&u);
                eq_words(&auto, &a[..nwords(w - 1)], w - 1, 5);
            }
        }
        w += 1;
    }
    cover(1);
}

/// copies and views; params: first and last width
#[no_mangle]
pub extern "C" fn h_sweep_views() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let (s, r) = (stock(hi), stock(hi));
    let mut w = lo;
    while w <= hi {
        let (mut a, b) = (cut(&s, w), cut(&r, w));
        let was = a.clone();
        let v = owned(&a, w);
        let mut c = v.clone();
        eq_words(&v, &a, w, 1);
        eq_words(&BitVecValueRef::from(&c), &a, w, 2);
        {
            let mut m = mview(&mut a, w);
            m.assign(view(&b, w));
            eq_words(&m, &b, w, 3);
        }
        let mut i = 0;
        while i < a.len() {
            check(a[i] == b[i], 4);
            i += 1;
        }
        BitVecValueMutRef::from(&mut c).assign(view(&b, w));
        eq_words(&c, &b, w, 5);
        eq_words(&v, &was, w, 6);
        w += 1;
    }
    cover(1);
}

/// sums and differences: nothing is carried beyond the first words but what they decide
/// params: first and last width
#[no_mangle]
pub extern "C" fn h_sweep_add() {
    let (lo, hi) = (param(0) as u32, param(1) as u32);
    let s = stock(hi);
    let x = any(64);
    let mut w = lo;
    while w <= hi {
        let k = nwords(w);
        // every other word of each operand is known, and one more is arbitrary
        let (mut a, mut b) = (vec![0u64; k], vec![0u64; k]);
        let mut i = 0;
        while i < k {
            let p = pattern(w as u64, i);
            if i + 1 == k {
                a[i] = s[i];
                b[i] = x;
            } else if (i + w as usize) % 3 == 0 {
                a[i] = if p & 1 == 0 { u64::MAX } else { 0 };
                b[i] = if p & 2 == 0 { 0 } else { u64::MAX };
            } else {
                a[i] = p;
                b[i] = pattern(w as u64 + 7, i);
            }
            i += 1;
        }
        a[k - 1] &= top_mask(w);
        b[k - 1] &= top_mask(w);
        let zero = vec![0u64; k];
        let (va, vb) = (view(&a, w), owned(&b, w));
        eq_words(&va.add(&vb), &add_words(&a, &b, w, false, 0), w, 1);
        eq_words(&va.sub(&vb), &add_words(&a, &b, w, true, 1), w, 2);
        eq_words(&vb.sub(&va), &add_words(&b, &a, w, true, 1), w, 3);
        eq_words(&va.negate(), &add_words(&zero, &a, w, true, 1), w, 4);
        w += 1;
    }
    cover(1);
}
