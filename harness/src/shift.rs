//! logical and arithmetic shifts by an amount given as a bit vector
use crate::gen::*;
use crate::rt::*;
use crate::with_repr;

struct In {
    k: usize,
    width: u32,
    a: Buf,
    b: Buf,
    /// the amount is at least the width
    over: bool,
    /// the amount (when not `over`)
    s: u32,
    i: u32,
}

#[inline(always)]
fn input() -> In {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let mut hi = 0u64;
    let mut j = 1;
    while j < k {
        hi |= b[j];
        j += 1;
    }
    let over = split_bool(hi != 0 || b[0] >= width as u64);
    if !over {
        // one case per number of whole words shifted
        split(b[0] / 64);
    }
    let s = if over { 0 } else { b[0] as u32 };
    let i = any(32) as u32;
    assume(i < width);
    In { k, width, a, b, over, s, i }
}

#[no_mangle]
pub extern "C" fn h_shl() {
    let In { k, width, a, b, over, s, i } = input();
    with_repr!(a, b, width, |x, y| {
        let r = x.shift_left(y);
        canonical(&r, width, k, 1);
        let got = bit(r.words(), i);
        if over {
            check(!got, 2);
        } else {
            check(!(i < s) || !got, 3);
            assume(i >= s);
            check(got == bit(&a, i - s), 4);
        }
        trace_words(r.words());
    });
    cover_if(over, 1);
    cover_if(!over && s > 0, 2);
    cover_if(!over && s >= 64 && s % 64 == 0, 3);
}

#[inline(always)]
fn right(x: &impl BitVecOps, y: &impl BitVecOps, arith: bool, a: &Buf, n: &In) {
    let r = if arith { x.arithmetic_shift_right(y) } else { x.shift_right(y) };
    canonical(&r, n.width, n.k, 1);
    let got = bit(r.words(), n.i);
    let fill = arith && sign(a, n.width, n.k);
    if n.over {
        check(got == fill, 2);
    } else {
        let j = n.i + n.s;
        check(j < n.width || got == fill, 3);
        assume(j < n.width);
        check(got == bit(a, j), 4);
    }
    trace_words(r.words());
}

#[no_mangle]
pub extern "C" fn h_shr() {
    let n = input();
    let (a, b, w) = (n.a, n.b, n.width);
    with_repr!(a, b, w, |x, y| right(x, y, false, &a, &n));
    cover_if(n.over, 1);
    cover_if(!n.over && n.s > 0, 2);
}

#[no_mangle]
pub extern "C" fn h_ashr() {
    let n = input();
    let (a, b, w) = (n.a, n.b, n.width);
    with_repr!(a, b, w, |x, y| right(x, y, true, &a, &n));
    cover_if(n.over && sign(&a, w, n.k), 1);
    cover_if(!n.over && n.s > 0 && sign(&a, w, n.k), 2);
}
