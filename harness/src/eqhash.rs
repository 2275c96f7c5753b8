//! equality, hashing and ordering of owned and borrowed values
use crate::gen::*;
use crate::rt::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// records exactly what is fed to the hasher
struct Rec {
    buf: [u8; 256],
    n: usize,
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.buf[self.n] = b[i];
            self.n += 1;
            i += 1;
        }
    }
}
fn rec<T: Hash>(x: &T) -> Rec {
    let mut r = Rec { buf: [0; 256], n: 0 };
    x.hash(&mut r);
    r
}
fn same_rec(a: &Rec, b: &Rec) -> bool {
    if a.n != b.n {
        return false;
    }
    let mut r = true;
    let mut i = 0;
    while i < a.n {
        r &= a.buf[i] == b.buf[i];
        i += 1;
    }
    r
}

/// == holds exactly for equal widths and equal bits, in every mix of representations
#[no_mangle]
pub extern "C" fn h_eq() {
    let (ka, kb) = (param(0) as usize, param(1) as usize);
    let (wa, wb) = (any_width(ka), any_width(kb));
    let mut a = any_words(wa, ka);
    let mut b = any_words(wb, kb);
    let mut eq = wa == wb;
    let mut i = 0;
    while i < ka.max(kb) {
        eq &= a[i] == b[i];
        i += 1;
    }
    {
        let (oa, ob) = (owned(&a, wa), owned(&b, wb));
        let (ra, rb) = (view(&a, wa), view(&b, wb));
        check((oa == ob) == eq, 1);
        check((oa == rb) == eq, 2);
        check((ra == ob) == eq, 3);
        check((ra == rb) == eq, 4);
        check((oa != ob) == !eq, 5);
        check((BitVecValueRef::from(&oa) == ra) && (BitVecValue::from(ra) == oa), 6);
        check(oa.clone() == oa, 7);
    }
    let mb = mview(&mut b, wb);
    let ma = mview(&mut a, wa);
    check((BitVecValueRef::from(&BitVecValue::ones(1)) == ma) == (ma.is_tru()), 8);
    check((owned(ma.words(), wa) == mb) == eq, 9);
    cover_if(eq || ka != kb, 1);
    cover_if(!eq, 2);
    trace(eq as u64);
}

/// a value hashes the same whether owned or borrowed, and equal values hash equally
#[no_mangle]
pub extern "C" fn h_hash() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let ho = rec(&owned(&a, width));
    let hr = rec(&view(&a, width));
    check(same_rec(&ho, &hr), 1);
    let hb = rec(&owned(&b, width));
    let mut eq = true;
    let mut i = 0;
    while i < k {
        eq &= a[i] == b[i];
        i += 1;
    }
    check(!eq || same_rec(&ho, &hb), 3);
    cover_if(eq, 1);
    cover_if(!eq, 2);
    trace(ho.n as u64);
}

/// Ord is a total order consistent with Eq
#[no_mangle]
pub extern "C" fn h_ord() {
    let (ka, kb) = (param(0) as usize, param(1) as usize);
    let (wa, wb, wc) = (any_width(ka), any_width(kb), any_width(ka));
    let (a, b, c) = (any_words(wa, ka), any_words(wb, kb), any_words(wc, ka));
    let (a, b, c) = (owned(&a, wa), owned(&b, wb), owned(&c, wc));
    let ab = a.cmp(&b);
    check((ab == Ordering::Equal) == (a == b), 1);
    check(b.cmp(&a) == ab.reverse(), 2);
    check(a.partial_cmp(&b) == Some(ab), 3);
    let bc = b.cmp(&c);
    let ac = a.cmp(&c);
    check(!(ab == Ordering::Less && bc == Ordering::Less) || ac == Ordering::Less, 4);
    check(!(ab == Ordering::Equal) || bc == ac, 5);
    cover_if(ab == Ordering::Less, 1);
    cover_if(ab == Ordering::Greater, 2);
    trace(ab as i8 as u64);
}

/// every view and every copy of a value shows that value; param: words
#[no_mangle]
pub extern "C" fn h_views() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let o = BitVecValue::from(view(&a, width));
    expect(&o, &a, width, k, 1);
    let r = BitVecValueRef::from(&o);
    expect(&r, &a, width, k, 3);
    let copy = r;
    expect(&BitVecValue::from(copy), &a, width, k, 5);
    check(r == o && o == r && copy == r, 7);
    check((r == view(&b, width)) == same(&a, &b, k), 24);
    // a copy is independent of its original
    let mut c = o.clone();
    expect(&c, &a, width, k, 8);
    {
        let mut m = BitVecValueMutRef::from(&mut c);
        expect(&m, &a, width, k, 10);
        check(m.width() == width, 12);
        m.assign(view(&b, width));
        expect(&m, &b, width, k, 13);
    }
    // and what is written through a view is in the value
    expect(&c, &b, width, k, 15);
    expect(&o, &a, width, k, 17);
    check((c == o) == same(&a, &b, k), 19);
    // cloning into an existing value
    c.clone_from(&o);
    expect(&c, &a, width, k, 20);
    // and into one of another size
    let mut d = BitVecValue::ones(if any_bool() { 1 } else { 200 });
    d.clone_from(&o);
    expect(&d, &a, width, k, 22);
    cover(1);
}

/// the view an ordered or hashed container uses to compare its keys
#[no_mangle]
pub extern "C" fn h_borrow() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let o = owned(&a, width);
    {
        let own: &BitVecValue = std::borrow::Borrow::borrow(&o);
        expect(own, &a, width, k, 1);
    }
    cover(1);
    let r: &BitVecValueRef = std::borrow::Borrow::borrow(&o);
    expect(r, &a, width, k, 3);
    cover(2);
}
