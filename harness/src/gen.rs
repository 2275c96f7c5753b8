//! Symbolic widths and values, and the reference (specification) helpers.
use crate::rt::*;
pub use baa::*;

/// Upper bound on words of any value built by a harness.
pub const MAXW: usize = 20;
pub type Buf = [u64; MAXW];

/// Every width that needs exactly `k` words: 64(k-1)+1 ..= 64k.
#[inline(always)]
pub fn any_width(k: usize) -> u32 {
    let r = any(6) as u32;
    if split_bool(r == 0) {
        k as u32 * 64
    } else {
        (k as u32 - 1) * 64 + r
    }
}

#[inline(always)]
pub fn nwords(width: u32) -> usize {
    (width as usize + 63) / 64
}

/// mask of the used bits of the most significant word
#[inline(always)]
pub fn top_mask(width: u32) -> u64 {
    let r = width % 64;
    if r == 0 {
        u64::MAX
    } else {
        (1u64 << r) - 1
    }
}

/// Any canonical value of the given width, `k` words (unused bits zero).
#[inline(always)]
pub fn any_words(width: u32, k: usize) -> Buf {
    let mut a = [0u64; MAXW];
    let mut i = 0;
    while i < k {
        a[i] = any(64);
        i += 1;
    }
    a[k - 1] &= top_mask(width);
    a
}

#[inline(always)]
pub fn view(a: &[u64], width: u32) -> BitVecValueRef<'_> {
    a.get_ref(BitVecValueIndex::new(0, width))
}

#[inline(always)]
pub fn owned(a: &[u64], width: u32) -> BitVecValue {
    view(a, width).into()
}

/// bit `i` of a little-endian word array
#[inline(always)]
pub fn bit(a: &[u64], i: u32) -> bool {
    (a[(i / 64) as usize] >> (i % 64)) & 1 == 1
}

/// width, word count and unused bits are as documented
#[inline(always)]
pub fn canonical(v: &impl BitVecOps, width: u32, k: usize, id: u32) {
    check(v.width() == width, id);
    let n = v.words().len();
    check(n == k, id);
    check(v.words()[k - 1] & !top_mask(width) == 0, id);
}

pub fn trace_words(w: &[u64]) {
    for x in w {
        trace(*x);
    }
}

/// all words equal
#[inline(always)]
pub fn same(a: &[u64], b: &[u64], k: usize) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < k {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}

/// value of word i of a little-endian array, 0 beyond the end
#[inline(always)]
pub fn word_at(a: &[u64], i: usize, k: usize) -> u64 {
    if i < k {
        a[i]
    } else {
        0
    }
}

#[inline(always)]
pub fn mview(a: &mut [u64], width: u32) -> BitVecValueMutRef<'_> {
    a.get_mut_ref(BitVecValueIndex::new(0, width))
}

/// sign bit of a canonical value
#[inline(always)]
pub fn sign(a: &[u64], width: u32, k: usize) -> bool {
    (a[k - 1] >> ((width - 1) % 64)) & 1 == 1
}

/// the result has the right shape and exactly the words `want`
#[inline(always)]
pub fn expect(v: &impl BitVecOps, want: &[u64], width: u32, k: usize, id: u32) {
    canonical(v, width, k, id);
    let mut i = 0;
    while i < k {
        check(v.words()[i] == want[i], id + 1);
        i += 1;
    }
    trace_words(v.words());
}

/// Runs `$body` with `$x`, `$y` bound to the operands in the representation
/// chosen by parameter 1: 0 borrowed, 1 owned, 2 mutable view and owned.
#[macro_export]
macro_rules! with_repr {
    ($a:ident, $b:ident, $w:expr, |$x:ident, $y:ident| $body:expr) => {
        match $crate::rt::param(1) {
            0 => {
                let $x = &view(&$a, $w);
                let $y = &view(&$b, $w);
                $body
            }
            1 => {
                let $x = &owned(&$a, $w);
                let $y = &owned(&$b, $w);
                $body
            }
            _ => {
                let mut t = $a;
                let $x = &mview(&mut t, $w);
                let $y = &owned(&$b, $w);
                $body
            }
        }
    };
}
