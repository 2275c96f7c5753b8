//! little-endian bytes
use crate::gen::*;
use crate::rt::*;

/// to_bytes_le: ceil(width/8) bytes, byte j is bits 8j..8j+8; from_bytes_le inverts it
#[no_mangle]
pub extern "C" fn h_to_bytes() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let n = split(((width + 7) / 8) as u64) as usize;
    let v = if param(1) == 0 { view(&a, width).to_bytes_le() } else { owned(&a, width).to_bytes_le() };
    check(v.len() == n, 1);
    let mut j = 0;
    while j < n {
        check(v[j] as u64 == (a[j / 8] >> (8 * (j % 8))) & 0xff, 2);
        j += 1;
    }
    let back = BitVecValue::from_bytes_le(&v, width);
    expect(&back, &a, width, k, 3);
    cover(1);
}

/// from_bytes_le with any n <= ceil(width/8) bytes: missing bytes are zero, excess bits are dropped
#[no_mangle]
pub extern "C" fn h_from_bytes() {
    let k = param(0) as usize;
    let width = any_width(k);
    let n = any(32) as usize;
    assume(n <= ((width + 7) / 8) as usize);
    let n = split(n as u64) as usize;
    let mut bytes = [0u8; MAXW * 8];
    let mut want = [0u64; MAXW];
    let mut j = 0;
    while j < n {
        bytes[j] = any(8) as u8;
        want[j / 8] |= (bytes[j] as u64) << (8 * (j % 8));
        j += 1;
    }
    want[k - 1] &= top_mask(width);
    let v = BitVecValue::from_bytes_le(&bytes[..n], width);
    expect(&v, &want, width, k, 1);
    cover(1);
}
