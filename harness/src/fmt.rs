//! strings: binary, hexadecimal, decimal
use crate::gen::*;
use crate::rt::*;

fn digit(d: u64) -> u8 {
    if d < 10 {
        b'0' + d as u8
    } else {
        b'a' + (d - 10) as u8
    }
}

/// `s` is an optional minus and `n` digits of `1 << shift` base, most significant first
#[inline(always)]
fn expect_digits(s: &str, minus: bool, m: &Buf, k: usize, n: usize, shift: u32, id: u32) {
    let b = s.as_bytes();
    let off = minus as usize;
    check(b.len() == n + off, id);
    if minus {
        check(b[0] == b'-', id + 1);
    }
    let mask = (1u64 << shift) - 1;
    let per = (64 / shift) as usize;
    let mut j = 0;
    while j < n {
        let d = (word_at(m, j / per, k) >> (shift as usize * (j % per))) & mask;
        check(b[off + n - 1 - j] == digit(d), id + 2);
        j += 1;
    }
    trace(b.len() as u64);
}

/// widths `64(k-1)+1 + step*param(1) ..` in chunks of `step`; exactly one chunk per job
#[inline(always)]
fn chunk_width(k: usize) -> u32 {
    let step = param(2) as u32;
    let lo = (k as u32 - 1) * 64 + 1 + step * param(1) as u32;
    let w = any(32) as u32;
    assume(w >= lo && w < lo + step && w <= 64 * k as u32);
    split(w as u64) as u32
}

#[no_mangle]
pub extern "C" fn h_bit_str() {
    let k = param(0) as usize;
    let width = chunk_width(k);
    let a = any_words(width, k);
    let s = if param(3) == 0 { view(&a, width).to_bit_str() } else { owned(&a, width).to_bit_str() };
    expect_digits(&s, false, &a, k, width as usize, 1, 1);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_hex_str() {
    let k = param(0) as usize;
    let width = chunk_width(k);
    let a = any_words(width, k);
    let s = if param(3) == 0 { view(&a, width).to_hex_str() } else { owned(&a, width).to_hex_str() };
    expect_digits(&s, false, &a, k, ((width + 3) / 4) as usize, 4, 1);
    cover(1);
}

/// minus and magnitude of a canonical value read as two's complement
#[inline(always)]
fn magnitude(a: &Buf, width: u32, k: usize) -> Buf {
    let mut out = *a;
    let mut bw = false;
    let mut i = 0;
    while i < k {
        out[i] = 0u64.wrapping_sub(a[i]).wrapping_sub(bw as u64);
        bw = a[i] != 0 || bw;
        i += 1;
    }
    out[k - 1] &= top_mask(width);
    out
}

#[inline(always)]
fn signed(shift: u32) {
    let k = param(0) as usize;
    let width = chunk_width(k);
    let a = any_words(width, k);
    let neg = split_bool(sign(&a, width, k));
    let m = if neg { magnitude(&a, width, k) } else { a };
    // the smallest number has a magnitude of `width` bits
    let min = neg && split_bool(sign(&m, width, k));
    let bits = if min { width } else { width - 1 };
    let v = view(&a, width);
    let o = owned(&a, width);
    let s = match (shift, param(3)) {
        (1, 0) => v.to_bit_str_signed(),
        (1, _) => o.to_bit_str_signed(),
        (_, 0) => v.to_hex_str_signed(),
        _ => o.to_hex_str_signed(),
    };
    expect_digits(&s, neg, &m, k, ((bits + shift - 1) / shift) as usize, shift, 1);
    cover_if(neg && !min, 1);
    cover_if(!neg, 2);
    cover_if(min, 3);
}

#[no_mangle]
pub extern "C" fn h_bit_str_signed() {
    signed(1)
}
#[no_mangle]
pub extern "C" fn h_hex_str_signed() {
    signed(4)
}

/// up to 64 bits: the decimal digits without leading zeros
#[no_mangle]
pub extern "C" fn h_dec_str() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    // exactly n digits
    let n = param(2) as u32;
    let mut i = 1;
    while i < k {
        assume(a[i] == 0);
        i += 1;
    }
    assume(a[0] >= if n == 1 { 0 } else { 10u64.pow(n - 1) });
    assume(n == 20 || a[0] < 10u64.pow(n));
    let s = if param(1) == 0 { view(&a, width).to_dec_str() } else { owned(&a, width).to_dec_str() };
    let b = s.as_bytes();
    check(b.len() == n as usize, 1);
    let mut v = 0u64;
    let want = format!("{}", a[0]);
    let mut i = 0;
    while i < n as usize {
        check(b[i] == want.as_bytes()[i], 2);
        v = v.wrapping_mul(10).wrapping_add(b[i].wrapping_sub(b'0') as u64);
        trace(b[i] as u64);
        i += 1;
    }
    // reading the digits back gives the value
    check(n > 5 || v == a[0], 3);
    cover(1);
}

/// up to 128 significant bits: what the standard library prints for the number
#[no_mangle]
pub extern "C" fn h_dec_wide() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let mut i = 2;
    while i < k {
        assume(a[i] == 0);
        i += 1;
    }
    assume(a[1] != 0);
    let v = ((a[1] as u128) << 64) | a[0] as u128;
    let s = if param(1) == 0 { view(&a, width).to_dec_str() } else { owned(&a, width).to_dec_str() };
    let w = format!("{}", v);
    check(s == w, 1);
    cover(1);
}

/// Numbers of 20 to 39 known digits but for an arbitrary one; params: words, which digits, numbers of
/// digits from..=to, 1: also read the digits back
/// (here the digits are not abstracted)
#[no_mangle]
pub extern "C" fn h_dec_near() {
    let k = param(0) as usize;
    hash_mode(100);
    let (n, at, way) = choice(param(2), param(3));
    let (digits, lo, hi, _) = near(param(1), n, at);
    let mut a = vec![0u64; k];
    a[0] = lo;
    a[1] = hi;
    let width = k as u32 * 64;
    let s = if way == 0 { view(&a, width).to_dec_str() } else { owned(&a, width).to_dec_str() };
    let b = s.as_bytes();
    check(b.len() == n, 1);
    let mut i = 0;
    while i < n {
        check(b[n - 1 - i] == b'0' + digits[i], 2);
        i += 1;
    }
    if param(4) == 1 {
        let r = BitVecValue::from_str_radix(&s, 10, width);
        check(r.is_ok(), 3);
        crate::wide::eq_words(&r.unwrap(), &a, width, 4);
    }
    cover(1);
}

/// Reading such numbers; params: which digits, numbers of digits from..=to, sign (0: none, 1: +, 2: -),
/// width (0: the largest of the numbers just fits, 1: one bit less, 2: 128 bits)
#[no_mangle]
pub extern "C" fn h_dec_read() {
    let (n, at, _) = choice(param(1), param(2));
    let (digits, lo, hi, most) = near(param(0), n, at);
    let sign = param(3);
    let bits = 128 - most.leading_zeros() + (sign == 2) as u32;
    let w = match param(4) {
        0 => bits,
        1 => bits - 1,
        _ => 128,
    };
    if w == 0 || bits > 128 {
        return;
    }
    let k = nwords(w);
    let mut s: Vec<u8> = Vec::with_capacity(n + 1);
    if sign > 0 {
        s.push(if sign == 1 { b'+' } else { b'-' });
    }
    let mut i = 0;
    while i < n {
        s.push(b'0' + digits[n - 1 - i]);
        i += 1;
    }
    let r = BitVecValue::from_str_radix(unsafe { std::str::from_utf8_unchecked(&s) }, 10, w);
    let mut m = vec![0u64; k];
    m[0] = lo;
    let mut fits = true;
    if k > 1 {
        m[1] = hi;
    } else {
        fits = hi == 0;
    }
    fits &= m[k - 1] & !top_mask(w) == 0;
    let ok = split_bool(r.is_ok());
    check(ok == fits, 1);
    if ok {
        if sign == 2 {
            let v = (((if k > 1 { m[1] } else { 0 }) as u128) << 64 | m[0] as u128).wrapping_neg();
            m[0] = v as u64;
            if k > 1 {
                m[1] = (v >> 64) as u64;
            }
            m[k - 1] &= top_mask(w);
        }
        crate::wide::eq_words(&r.unwrap(), &m, w, 2);
        cover(1);
    }
    cover(2);
}

/// number of digits, the arbitrary one of them, and a way
fn choice(from: u64, to: u64) -> (usize, usize, u64) {
    let n = any(6);
    assume(n >= from && n <= to);
    let n = split(n) as usize;
    let at = [0, 1, 8, 15, 16, 17, 18, 19, 20, n / 2, n.max(2) - 2, n - 1];
    let i = any(4);
    assume(i < 12);
    let i = split(i) as usize;
    assume(at[i] < n && (i < 9 || at[i] > 20));
    (n, at[i], (i & 1) as u64)
}

/// the digits (lowest first), both words of the number, and the largest of the possible numbers
fn near(what: u64, n: usize, at: usize) -> ([u8; 40], u64, u64, u128) {
    let mut digits = [0u8; 40];
    let mut i = 0;
    while i < n {
        digits[i] = match what {
            0 => (i + 1 == n) as u8,
            1 => 9,
            2 => (i == 0 || i + 1 == n) as u8,
            3 => ((i * 7 + 3) % 10) as u8,
            // a group of zeros
            _ => if i / 4 == (n / 8) { 0 } else { 2 },
        };
        i += 1;
    }
    if digits[n - 1] == 0 || n == 39 {
        digits[n - 1] = 1;
    }
    let d = any(4);
    let top = if n == 39 && at == 38 { 3 } else { 10 };
    assume(d < top);
    assume(at + 1 < n || d > 0);
    digits[at] = 0;
    let mut v = 0u128;
    let mut p = 1u128;
    let mut here = 1u128;
    let mut i = 0;
    while i < n {
        if i == at {
            here = p;
        }
        v += p * digits[i] as u128;
        i += 1;
        p = p.wrapping_mul(10);
    }
    digits[at] = d as u8;
    // one of ten numbers
    let (mut lo, mut hi) = (v as u64, (v >> 64) as u64);
    let mut t = 1;
    while t < top {
        v += here;
        lo = ite(d == t, v as u64, lo);
        hi = ite(d == t, (v >> 64) as u64, hi);
        t += 1;
    }
    (digits, lo, hi, v)
}
