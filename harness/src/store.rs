//! references into a shared store of words
use crate::gen::*;
use crate::rt::*;

const N: usize = 8;

/// any index of a value of at most `kmax` words, wherever it points
#[inline(always)]
fn any_index(kmax: u64) -> (usize, usize, u32, BitVecValueIndex) {
    let k = any(2);
    assume(k < kmax);
    let k = split(k) as usize + 1;
    let start = any(4);
    assume(start <= N as u64);
    let start = split(start) as usize;
    let width = any_width(k);
    (start, k, width, BitVecValueIndex::new(start as u32, width))
}

#[inline(always)]
fn any_store() -> [u64; N] {
    let mut d = [0u64; N];
    let mut i = 0;
    while i < N {
        d[i] = any(64);
        i += 1;
    }
    d
}

#[inline(always)]
fn shows(v: &impl BitVecOps, d: &[u64; N], start: usize, k: usize, width: u32, id: u32) {
    check(v.width() == width, id);
    check(v.words().len() == k, id);
    let mut i = 0;
    while i < k {
        check(v.words()[i] == d[start + i], id);
        i += 1;
    }
}

/// param: maximal words per value, number of indices (1, 2, 3), mutable (0, 1)
#[no_mangle]
pub extern "C" fn h_store() {
    let kmax = param(0);
    let n = param(1) as usize;
    let mutable = param(2) == 1;
    let d = any_store();
    let mut e = d;
    let (sa, ka, wa, ia) = any_index(kmax);
    check(ia.to_range() == (sa..sa + ka) && ia.words() == ka && ia.width() == wa, 1);
    let (sb, kb, wb, ib) = if n > 1 { any_index(kmax) } else { (sa, ka, wa, ia) };
    let (sc, kc, wc, ic) = if n > 2 { any_index(kmax) } else { (sb, kb, wb, ib) };
    let in_range = sa + ka <= N && sb + kb <= N && sc + kc <= N;
    let clash = |s: usize, k: usize| s < sa + ka && sa < s + k;
    let overlap = mutable && ((n > 1 && clash(sb, kb)) || (n > 2 && clash(sc, kc)));
    // references never alias and never leave the store
    let refused = !in_range || overlap;
    expect_panic(refused);
    if !mutable {
        if n == 1 {
            let a: BitVecValueRef = d.as_slice().get_ref(ia);
            check(!refused, 2);
            shows(&a, &d, sa, ka, wa, 3);
        } else {
            let (a, b) = d.as_slice().get_ref((ia, ib));
            check(!refused, 2);
            shows(&a, &d, sa, ka, wa, 3);
            shows(&b, &d, sb, kb, wb, 4);
        }
        cover(1);
        return;
    }
    let mut new = [0u64; 4];
    let mut i = 0;
    while i < 4 {
        new[i] = any(64);
        i += 1;
    }
    let mut write = |a: &mut BitVecValueMutRef| {
        shows(a, &d, sa, ka, wa, 3);
        let mut i = 0;
        while i < ka {
            a.words_mut()[i] = new[i];
            i += 1;
        }
    };
    if n == 1 {
        let mut a: BitVecValueMutRef = e.as_mut_slice().get_mut_ref(ia);
        check(!refused, 2);
        write(&mut a);
    } else if n == 2 {
        let (mut a, b) = e.as_mut_slice().get_mut_ref((ia, ib));
        check(!refused, 2);
        write(&mut a);
        // the other value is unaffected by the write
        shows(&b, &d, sb, kb, wb, 4);
    } else {
        let (mut a, b, c) = e.as_mut_slice().get_mut_ref((ia, ib, ic));
        check(!refused, 2);
        write(&mut a);
        shows(&b, &d, sb, kb, wb, 4);
        shows(&c, &d, sc, kc, wc, 5);
    }
    let mut i = 0;
    while i < N {
        let want = if i >= sa && i < sa + ka { new[i - sa] } else { d[i] };
        check(e[i] == want, 6);
        i += 1;
    }
    cover(1);
}

/// interning: param: words of the three values
#[no_mangle]
pub extern "C" fn h_intern() {
    let mut int = ValueInterner::new();
    let (k0, k1, k2) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let ks = [k0, k1, k2];
    let ws = [any_width(k0), any_width(k1), any_width(k2)];
    let vs = [any_words(ws[0], k0), any_words(ws[1], k1), any_words(ws[2], k2)];
    let i0 = int.get_index(view(&vs[0], ws[0]));
    let i1 = int.get_index(view(&vs[1], ws[1]));
    let i2 = int.get_index(view(&vs[2], ws[2]));
    let ii = [i0, i1, i2];
    let mut p = 0;
    while p < 3 {
        let k = ks[p];
        check(ii[p].width() == ws[p], 1);
        // the index leads back to the value, also after further insertions
        let r: BitVecValueRef = int.words().get_ref(ii[p]);
        check(r.words().len() == k, 2);
        let mut i = 0;
        while i < k {
            check(r.words()[i] == vs[p][i], 3);
            i += 1;
        }
        if k == 1 {
            check(ValueInterner::is_zero(ii[p]) == (vs[p][0] == 0), 4);
            check(ValueInterner::is_one(ii[p]) == (vs[p][0] == 1), 5);
        }
        // asking again changes nothing
        let n = int.words().len();
        let again = int.get_index(view(&vs[p], ws[p]));
        check(again == ii[p], 6);
        check(int.words().len() == n, 7);
        p += 1;
    }
    // one index per combination of value and width
    let mut p = 0;
    while p < 3 {
        let mut q = p + 1;
        while q < 3 {
            let eq = ws[p] == ws[q] && ks[p] == ks[q] && same(&vs[p], &vs[q], ks[p]);
            check((ii[p] == ii[q]) == eq, 8);
            q += 1;
        }
        p += 1;
    }
    cover(1);
}

/// two values of independent sizes; params: words of each
#[no_mangle]
pub extern "C" fn h_intern_pair() {
    let mut int = ValueInterner::new();
    let (k0, k1) = (param(0) as usize, param(1) as usize);
    let (w0, w1) = (any_width(k0), any_width(k1));
    let (v0, v1) = (any_words(w0, k0), any_words(w1, k1));
    let i0 = int.get_index(view(&v0, w0));
    let i1 = int.get_index(view(&v1, w1));
    check(i0.width() == w0 && i1.width() == w1, 1);
    let r: BitVecValueRef = int.words().get_ref(i0);
    check(r.words().len() == k0 && same(r.words(), &v0, k0), 2);
    let r: BitVecValueRef = int.words().get_ref(i1);
    check(r.words().len() == k1 && same(r.words(), &v1, k1), 3);
    let eq = w0 == w1 && k0 == k1 && same(&v0, &v1, k0);
    check((i0 == i1) == eq, 4);
    let n = int.words().len();
    check(int.get_index(view(&v0, w0)) == i0, 5);
    check(int.words().len() == n, 6);
    cover(1);
}

/// the index of a zero or a one is recognised; param: words
#[no_mangle]
pub extern "C" fn h_intern_const() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let mut int = ValueInterner::new();
    let i = int.get_index(view(&a, width));
    let mut rest = 0u64;
    let mut j = 1;
    while j < k {
        rest |= a[j];
        j += 1;
    }
    // never a wrong yes
    check(!ValueInterner::is_zero(i) || (a[0] == 0 && rest == 0), 1);
    check(!ValueInterner::is_one(i) || (a[0] == 1 && rest == 0), 2);
    check(ValueInterner::is_zero(i) || !(a[0] == 0 && rest == 0), if k == 1 { 5 } else { 3 });
    check(ValueInterner::is_one(i) || !(a[0] == 1 && rest == 0), if k == 1 { 6 } else { 4 });
    cover(1);
}
