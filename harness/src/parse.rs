//! parsing of binary, decimal and hexadecimal strings
use crate::gen::*;
use crate::rt::*;

/// any digit of the radix, in any spelling
#[inline(always)]
fn any_digit(radix: u64) -> u8 {
    match radix {
        2 => b'0' + any(1) as u8,
        // 0..=7 plus 0 or 2
        10 => b'0' + any(3) as u8 + 2 * any(1) as u8,
        _ => {
            let d = any(4);
            let letter = ite(any_bool(), b'a' as u64, b'A' as u64) - 10;
            (d + ite(d < 10, b'0' as u64, letter)) as u8
        }
    }
}

struct Ref {
    /// optional sign and at least one digit, all digits valid
    valid: bool,
    neg: bool,
    /// magnitude modulo 2^(64k)
    m: Buf,
    /// the magnitude needs more than `width` bits
    big: bool,
}

fn value_of(c: u8) -> u64 {
    let c = c as u64;
    let dec = c.wrapping_sub(b'0' as u64);
    let low = c.wrapping_sub(b'a' as u64);
    let up = c.wrapping_sub(b'A' as u64);
    ite(dec < 10, dec, ite(low < 6, low.wrapping_add(10), ite(up < 6, up.wrapping_add(10), 99)))
}

/// reads the string the way one does on paper: m = m * radix + digit
#[inline(always)]
fn reference(s: &[u8], n: usize, radix: u64, width: u32, k: usize) -> Ref {
    let neg = n > 0 && split_bool(s[0] == b'-');
    let sign = neg || (n > 0 && split_bool(s[0] == b'+'));
    let start = sign as usize;
    let mut valid = n > start;
    let mut m = [0u64; MAXW];
    let mut lost = 0u64;
    let mut i = start;
    let mut wide = 0u128;
    while i < n {
        let d = value_of(s[i]);
        valid &= d < radix;
        let d = d & 15;
        if radix == 10 {
            // k <= 2; 38 digits always fit u128
            let p = wide.wrapping_mul(10);
            let q = p.wrapping_add(d as u128);
            if i - start >= 38 {
                lost |= (wide > u128::MAX / 10 || q < p) as u64;
            }
            wide = q;
        } else {
            let sh = if radix == 2 { 1 } else { 4 };
            let mut carry = d;
            let mut j = 0;
            while j < k {
                let out = m[j] >> (64 - sh);
                m[j] = (m[j] << sh) | carry;
                carry = out;
                j += 1;
            }
            lost |= carry;
        }
        i += 1;
    }
    if radix == 10 {
        m[0] = wide as u64;
        m[1] = (wide >> 64) as u64;
        if k == 1 {
            lost |= m[1];
        }
    }
    let big = lost != 0 || m[k - 1] & !top_mask(width) != 0;
    Ref { valid, neg, m, big }
}

/// The error type is not exported; its two kinds are identified by comparing
/// with errors whose kind is beyond doubt.
macro_rules! kind_ok {
    ($r:expr, $valid:expr, $big:expr) => {{
        let invalid = BitVecValue::from_str_radix("?", 2, 8).unwrap_err();
        let exceeds = BitVecValue::from_str_radix("1", 2, 0).unwrap_err();
        check(invalid != exceeds, 7);
        match $r {
            Ok(_) => $valid && !$big,
            // if the string is both malformed and too long, either report is fine
            Err(e) => (!$valid && *e == invalid) || (($big || !$valid) && *e == exceeds),
        }
    }};
}

/// param: k words, n characters, radix, class of characters
/// (0: any ASCII, 1: an optional sign and valid digits, 2: as 1 with any ASCII
/// character at one place, 3: as 1 with any two-byte character at one place)
#[no_mangle]
pub extern "C" fn h_parse() {
    let (k, n, radix) = (param(0) as usize, param(1) as usize, param(2));
    let width = any_width(k);
    let mut s = [0u8; 320];
    let mut i = 0;
    while i < n {
        s[i] = if param(3) == 0 { any(7) as u8 } else { any_digit(radix) };
        if i == 0 && param(3) != 0 && split_bool(any_bool()) {
            s[0] = ite(any_bool(), b'-' as u64, b'+' as u64) as u8;
        }
        i += 1;
    }
    if param(3) > 1 {
        let at = any(16) as usize;
        let size = param(3) as usize - 1;
        assume(at + size <= n);
        let at = split(at as u64) as usize;
        if size == 1 {
            s[at] = any(7) as u8;
        } else {
            s[at] = 0xc2 + any(4) as u8;
            s[at + 1] = 0x80 + any(6) as u8;
        }
    }
    if k > 2 {
        // decide the number of leading zeros first
        let mut i = (n > 0 && split_bool(s[0] == b'-' || s[0] == b'+')) as usize;
        while i < n && split_bool(s[i] == b'0') {
            i += 1;
        }
    }
    if radix == 10 && param(3) == 1 && n >= if k == 1 { 20 } else { 39 } {
        // one case per length of the common prefix with the largest number
        let max: &[u8] = if k == 1 { b"18446744073709551615" } else { b"340282366920938463463374607431768211455" };
        let start = split_bool(s[0] == b'-' || s[0] == b'+') as usize;
        let mut i = start;
        while i < n {
            s[i] = split(s[i] as u64) as u8;
            let (have, want) = (n - i, max.len());
            if s[i] != if have > want { b'0' } else { max[want - have] } {
                break;
            }
            i += 1;
        }
    }
    let r = reference(&s, n, radix, width, k);
    let text = unsafe { std::str::from_utf8_unchecked(&s[..n]) };
    let got = BitVecValue::from_str_radix(text, radix as u32, width);
    if n == 0 {
        // documented: the empty string is zero
        check(got.is_ok() && got.unwrap().is_zero(), 9);
        return;
    }
    check(kind_ok!(&got, r.valid, r.big), 1);
    trace(got.is_ok() as u64);
    let mut want = r.m;
    if r.neg {
        let mut bw = false;
        let mut i = 0;
        while i < k {
            want[i] = 0u64.wrapping_sub(r.m[i]).wrapping_sub(bw as u64);
            bw = r.m[i] != 0 || bw;
            i += 1;
        }
        want[k - 1] &= top_mask(width);
    }
    if let Ok(v) = got {
        expect(&v, &want, width, k, 2);
        cover_if(r.neg, 1);
        cover_if(!r.neg, 2);
    } else {
        cover(3);
    }
    // assignment overwrites whatever was there
    let mut dirty = any_words(width, k);
    let mut m = mview(&mut dirty, width);
    let ok = m.assign_from_str_radix(text, radix as u32).is_ok();
    check(ok == (r.valid && !r.big), 4);
    canonical(&m, width, k, 5);
    if ok {
        let mut i = 0;
        while i < k {
            check(m.words()[i] == want[i], 6);
            i += 1;
        }
    }
}

/// from_bit_str/from_hex_str invert to_*_str and to_*_str_signed
#[no_mangle]
pub extern "C" fn h_round_trip() {
    let k = param(0) as usize;
    let step = param(2) as u32;
    let lo = (k as u32 - 1) * 64 + 1 + step * param(1) as u32;
    let w = any(32) as u32;
    assume(w >= lo && w < lo + step && w <= 64 * k as u32);
    let width = split(w as u64) as u32;
    let a = any_words(width, k);
    let v = view(&a, width);
    let (text, radix, hexw) = match param(3) {
        0 => (v.to_bit_str(), 2, width),
        1 => (v.to_hex_str(), 16, (width + 3) / 4 * 4),
        2 => (v.to_bit_str_signed(), 2, 0),
        _ => (v.to_hex_str_signed(), 16, 0),
    };
    if k > 2 {
        // decide the number of leading zeros first
        let t = text.as_bytes();
        let n = t.len();
        let mut i = (n > 0 && split_bool(t[0] == b'-')) as usize;
        while i < n && split_bool(t[i] == b'0') {
            i += 1;
        }
    }
    let back = BitVecValue::from_str_radix(&text, radix, width);
    check(back.is_ok(), 1);
    expect(&back.unwrap(), &a, width, k, 2);
    if hexw > 0 {
        // the width is derived from the number of digits
        let b = if radix == 2 { BitVecValue::from_bit_str(&text) } else { BitVecValue::from_hex_str(&text) };
        check(b.is_ok(), 4);
        expect(&b.unwrap(), &a, hexw, nwords(hexw), 5);
    }
    cover(1);
}

/// the width is that of the digits, plus one for a minus
/// param: characters, radix (2, 16), class of characters (as h_parse)
#[no_mangle]
pub extern "C" fn h_auto_width() {
    let (n, radix) = (param(0) as usize, param(1));
    let mut s = [0u8; 320];
    let mut i = 0;
    while i < n {
        s[i] = if param(2) == 0 { any(7) as u8 } else { any_digit(radix) };
        if i == 0 && param(2) == 1 && split_bool(any_bool()) {
            s[0] = ite(any_bool(), b'-' as u64, b'+' as u64) as u8;
        }
        i += 1;
    }
    let neg = n > 0 && split_bool(s[0] == b'-');
    let sign = neg || (n > 0 && split_bool(s[0] == b'+'));
    let width = (n - sign as usize) as u32 * if radix == 2 { 1 } else { 4 } + neg as u32;
    let k = nwords(width);
    if k > 2 {
        let mut i = sign as usize;
        while i < n && split_bool(s[i] == b'0') {
            i += 1;
        }
    }
    let text = unsafe { std::str::from_utf8_unchecked(&s[..n]) };
    let got = if radix == 2 { BitVecValue::from_bit_str(text) } else { BitVecValue::from_hex_str(text) };
    if k == 0 {
        // no digits
        check(got.is_ok() == (n == 0), 1);
        check(n > 0 || got.unwrap().width() == 0, 2);
        cover(1);
        return;
    }
    let r = reference(&s, n, radix, width, k);
    check(got.is_ok() == r.valid, 3);
    trace(got.is_ok() as u64);
    let mut want = r.m;
    if neg {
        let mut bw = false;
        let mut i = 0;
        while i < k {
            want[i] = 0u64.wrapping_sub(r.m[i]).wrapping_sub(bw as u64);
            bw = r.m[i] != 0 || bw;
            i += 1;
        }
        want[k - 1] &= top_mask(width);
    }
    if let Ok(v) = got {
        expect(&v, &want, width, k, 4);
        cover(2);
    } else {
        cover(3);
    }
}
