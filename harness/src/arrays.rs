//! dense and sparse arrays against the array laws: select after store
use crate::gen::*;
use crate::rt::*;

const MAXE: usize = 4;
pub type Elem = [u64; MAXE];

/// data width and words per element of a class:
/// 0: one bit, 1: 2..=8 bits, 2: 9..=64 bits, 3 and more: class - 1 words
#[inline(always)]
fn data_type(class: u64) -> (u32, usize) {
    match class {
        0 => (1, 1),
        1 => {
            let w = any(4) as u32;
            assume(w >= 2 && w <= 8);
            (split(w as u64) as u32, 1)
        }
        2 => {
            let w = any(7) as u32;
            assume(w >= 9 && w <= 64);
            if split_bool(w == 64) {
                (64, 1)
            } else {
                (w, 1)
            }
        }
        k => (any_width(k as usize - 1), k as usize - 1),
    }
}

#[inline(always)]
fn any_elem(width: u32, k: usize) -> Elem {
    let mut a = [0u64; MAXE];
    let mut i = 0;
    while i < k {
        a[i] = any(64);
        i += 1;
    }
    a[k - 1] &= top_mask(width);
    a
}

#[inline(always)]
fn same_elem(a: &Elem, b: &Elem, k: usize) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < k {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}

/// decides whether two elements are equal (a case split; no value is dropped)
#[inline(always)]
fn decide(a: &Elem, b: &Elem, k: usize) {
    let mut i = 0;
    while i < k {
        if !split_bool(a[i] == b[i]) {
            return;
        }
        i += 1;
    }
}

#[inline(always)]
fn pick(c: bool, a: &Elem, b: &Elem, k: usize) -> Elem {
    let mut r = *b;
    let mut i = 0;
    while i < k {
        r[i] = ite(c, a[i], b[i]);
        i += 1;
    }
    r
}

/// The history of an array: what it held everywhere, then stores.
#[derive(Clone, Copy)]
struct Hist {
    ki: usize,
    kd: usize,
    default: Elem,
    n: usize,
    at: [Elem; 8],
    val: [Elem; 8],
}
impl Hist {
    fn new(ki: usize, kd: usize, default: Elem) -> Self {
        Hist { ki, kd, default, n: 0, at: [[0; MAXE]; 8], val: [[0; MAXE]; 8] }
    }
    /// decides which of the indices and which of the values are the same
    #[inline(always)]
    fn decide(&self, at: &Elem, val: &Elem) {
        decide(val, &self.default, self.kd);
        let mut i = 0;
        while i < self.n {
            decide(&self.at[i], at, self.ki);
            decide(&self.val[i], val, self.kd);
            i += 1;
        }
    }
    fn store(&mut self, at: Elem, val: Elem) {
        self.at[self.n] = at;
        self.val[self.n] = val;
        self.n += 1;
    }
    /// the value at index j
    #[inline(always)]
    fn get(&self, j: &Elem) -> Elem {
        let mut r = self.default;
        let mut i = 0;
        while i < self.n {
            r = pick(same_elem(&self.at[i], j, self.ki), &self.val[i], &r, self.kd);
            i += 1;
        }
        r
    }
}

#[inline(always)]
fn check_elem(v: &BitVecValue, want: &Elem, width: u32, k: usize, id: u32) {
    canonical(v, width, k, id);
    let mut i = 0;
    while i < k {
        check(v.words()[i] == want[i], id + 1);
        i += 1;
    }
    trace(v.words()[0]);
}

/// as check_elem, for values whose order of appearance is not defined
#[inline(always)]
fn check_elem_quiet(v: &BitVecValue, want: &Elem, width: u32, k: usize, id: u32) {
    canonical(v, width, k, id);
    let mut i = 0;
    while i < k {
        check(v.words()[i] == want[i], id + 1);
        i += 1;
    }
}

/// an index of `iw` bits
#[inline(always)]
fn any_at(iw: u32, ki: usize) -> Elem {
    if iw == 0 {
        [0; MAXE]
    } else {
        any_elem(iw, ki)
    }
}

/// a zero-bit index is not representable as a borrowed value with words
macro_rules! ix {
    ($a:expr, $iw:expr) => {
        view(&$a, $iw)
    };
}

macro_rules! run_ops {
    ($arr:ident, $h:ident, $iw:expr, $ki:expr, $dw:expr, $kd:expr, $nops:expr, $mode:expr, $split:expr) => {{
        let mut n = 0;
        while n < $nops {
            let mut at = any_at($iw, $ki);
            let val = any_elem($dw, $kd);
            if $split > 0 {
                $h.decide(&at, &val);
            }
            if $split > 1 {
                at[0] = split(at[0]);
            }
            if (n + $mode) % 2 == 0 {
                $arr.store(ix!(at, $iw), view(&val, $dw));
            } else {
                let (ai, v) = (BitVecValue::from(ix!(at, $iw)), owned(&val, $dw));
                $arr.store(&ai, &v);
            }
            $h.store(at, val);
            n += 1;
        }
    }};
}

/// select of a store: param: index width, class of data, stores, mode
#[no_mangle]
pub extern "C" fn h_dense() {
    let (iw, class, nops, mode) = (param(0) as u32, param(1), param(2) as usize, param(3) as usize);
    let (dw, kd) = data_type(class);
    let default = any_elem(dw, kd);
    let mut arr = ArrayValue::new_dense(iw, view(&default, dw));
    let mut h = Hist::new(1, kd, default);
    run_ops!(arr, h, iw, 1, dw, kd, nops, mode, 0);
    check(arr.is_dense() && !arr.is_sparse(), 1);
    check(arr.index_width() == iw && arr.data_width() == dw, 2);
    check(arr.num_elements() == 1 << iw && arr.words_per_element() == kd, 3);
    let j = any_at(iw, 1);
    check_elem(&arr.select(ix!(j, iw)), &h.get(&j), dw, kd, 4);
    // a copy is independent of the original
    let mut copy = arr.clone();
    copy.store(ix!(j, iw), view(&default, dw));
    check_elem(&arr.select(ix!(j, iw)), &h.get(&j), dw, kd, 6);
    check_elem(&copy.select(ix!(j, iw)), &default, dw, kd, 8);
    let i = any_at(iw, 1);
    arr.clear();
    check_elem(&arr.select(ix!(i, iw)), &[0; MAXE], dw, kd, 10);
    check(arr.index_width() == iw && arr.data_width() == dw, 12);
    // and stores after clearing
    let val = any_elem(dw, kd);
    arr.store(ix!(j, iw), view(&val, dw));
    check_elem(&arr.select(ix!(i, iw)), &pick(i[0] == j[0], &val, &[0; MAXE], kd), dw, kd, 13);
    cover(1);
}

/// arrays from slices: element i is value i, padding is zero
/// param: element type (0 bool, 1 u8, 2 u64), length
#[no_mangle]
pub extern "C" fn h_from_slice() {
    let (ty, n) = (param(0), param(1) as usize);
    let mut v = [0u64; 64];
    let mut i = 0;
    let (dw, bits) = match ty {
        0 => (1, 1),
        1 => (8, 8),
        _ => (64, 64),
    };
    let (mut b, mut y) = ([false; 64], [0u8; 64]);
    while i < n {
        v[i] = any(bits);
        b[i] = v[i] == 1;
        y[i] = v[i] as u8;
        i += 1;
    }
    let mut iw = 0;
    while (1usize << iw) < n {
        iw += 1;
    }
    let mut arr = match ty {
        0 => ArrayValue::from(&b[..n]),
        1 => ArrayValue::from(&y[..n]),
        _ => ArrayValue::from(&v[..n]),
    };
    check(arr.index_width() == iw && arr.data_width() == dw && arr.is_dense(), 1);
    let mut i = 0;
    while i < 1 << iw {
        check_elem(&arr.select(ix!([i as u64], iw)), &[v[i], 0, 0, 0], dw, 1, 2);
        i += 1;
    }
    // stays writable
    let (at, j, val) = (any_at(iw, 1), any_at(iw, 1), any_elem(dw, 1));
    let before = arr.select(ix!(j, iw));
    arr.store(ix!(at, iw), view(&val, dw));
    let after = arr.select(ix!(j, iw));
    check(after.words()[0] == ite(at[0] == j[0], val[0], before.words()[0]), 4);
    cover(1);
}

/// index width of a class: below 100 the width itself; 100 + k: any width of k words
#[inline(always)]
fn index_type(class: u64) -> (u32, usize) {
    if class >= 100 {
        let k = class as usize - 100;
        (any_width(k), k)
    } else {
        (class as u32, ((class + 63) / 64).max(1) as usize)
    }
}

/// param: index width or class, class of data, stores, mode (2 and 3: through the general array type)
#[no_mangle]
pub extern "C" fn h_sparse() {
    let (class, nops, mode) = (param(1), param(2) as usize, param(3) as usize);
    let (iw, ki) = index_type(param(0));
    let (dw, kd) = data_type(class);
    let default = any_elem(dw, kd);
    let mut h = Hist::new(ki, kd, default);
    let mut arr = if mode < 2 {
        let mut arr = SparseArrayValue::new(iw, view(&default, dw));
        run_ops!(arr, h, iw, ki, dw, kd, nops, mode, 1);
        arr
    } else {
        let mut arr = ArrayValue::new_sparse(iw, view(&default, dw));
        run_ops!(arr, h, iw, ki, dw, kd, nops, mode, 1);
        check(arr.is_sparse() && !arr.is_dense(), 20);
        check(arr.index_width() == iw && arr.data_width() == dw, 21);
        let j = any_at(iw, ki);
        check_elem(&arr.select(ix!(j, iw)), &h.get(&j), dw, kd, 22);
        let mut other = arr.clone();
        other.clear();
        check_elem(&other.select(ix!(j, iw)), &[0; MAXE], dw, kd, 24);
        SparseArrayValue::from(arr)
    };
    check(arr.index_width() == iw && arr.data_width() == dw, 1);
    check_elem(&arr.default(), &default, dw, kd, 2);
    let j = any_at(iw, ki);
    check_elem(&arr.select(ix!(j, iw)), &h.get(&j), dw, kd, 4);
    arr.clear();
    check_elem(&arr.select(ix!(j, iw)), &[0; MAXE], dw, kd, 6);
    check_elem(&arr.default(), &[0; MAXE], dw, kd, 8);
    check(arr.non_default_entries().next().is_none(), 10);
    let (i, val) = (any_at(iw, ki), any_elem(dw, kd));
    arr.store(ix!(i, iw), view(&val, dw));
    check_elem(&arr.select(ix!(j, iw)), &pick(same_elem(&i, &j, ki), &val, &[0; MAXE], kd), dw, kd, 11);
    cover(1);
}

/// the entries that differ from the default, each once; params as h_sparse
#[no_mangle]
pub extern "C" fn h_entries() {
    let (class, nops, mode) = (param(1), param(2) as usize, param(3) as usize);
    let (iw, ki) = index_type(param(0));
    let (dw, kd) = data_type(class);
    let default = any_elem(dw, kd);
    let mut h = Hist::new(ki, kd, default);
    let mut arr = SparseArrayValue::new(iw, view(&default, dw));
    run_ops!(arr, h, iw, ki, dw, kd, nops, mode, 1);
    // number of distinct indices whose value is not the default
    let mut want = 0u64;
    let mut a = 0;
    while a < nops {
        let mut fresh = true;
        let mut b = 0;
        while b < a {
            fresh &= !same_elem(&h.at[a], &h.at[b], ki);
            b += 1;
        }
        want += (fresh & !same_elem(&h.get(&h.at[a]), &default, kd)) as u64;
        a += 1;
    }
    let want = split(want) as usize;
    let mut seen: [Elem; 8] = [[0; MAXE]; 8];
    let mut n = 0;
    for (i, v) in arr.non_default_entries() {
        check(n < want, 1);
        check(i.width() == iw && i.words().len() == ki, 2);
        let mut e = [0; MAXE];
        let mut q = 0;
        while q < ki {
            e[q] = i.words()[q];
            q += 1;
        }
        let mut p = 0;
        while p < n {
            check(!same_elem(&seen[p], &e, ki), 3);
            p += 1;
        }
        let val = h.get(&e);
        check_elem_quiet(&v, &val, dw, kd, 4);
        check(!same_elem(&val, &default, kd), 6);
        seen[n] = e;
        n += 1;
    }
    check(n == want, 7);
    cover(1);
}

/// conversions keep every element and the type
/// param: index width, class of data, stores, direction
/// (0: sparse to dense, 1: dense to sparse, 2: dense to sparse to dense)
#[no_mangle]
pub extern "C" fn h_convert() {
    let (iw, class, nops, dir) = (param(0) as u32, param(1), param(2) as usize, param(3));
    let (dw, kd) = data_type(class);
    let default = any_elem(dw, kd);
    let mut h = Hist::new(1, kd, default);
    let n = 1u64 << iw;
    if dir == 0 {
        let mut arr = ArrayValue::new_sparse(iw, view(&default, dw));
        run_ops!(arr, h, iw, 1, dw, kd, nops, 0, 1);
        arr.make_dense();
        check(arr.is_dense(), 1);
        check(arr.index_width() == iw && arr.data_width() == dw, 1);
        let mut i = 0;
        while i < n {
            check_elem(&arr.select(ix!([i], iw)), &h.get(&[i, 0, 0, 0]), dw, kd, 3);
            i += 1;
        }
        // nothing changes the second time
        arr.make_dense();
        let j = any_at(iw, 1);
        check_elem(&arr.select(ix!(j, iw)), &h.get(&j), dw, kd, 5);
    } else {
        let mut arr = ArrayValue::new_dense(iw, view(&default, dw));
        run_ops!(arr, h, iw, 1, dw, kd, nops, 0, 2);
        let sp = SparseArrayValue::from(arr);
        check(sp.index_width() == iw && sp.data_width() == dw, 11);
        let mut i = 0;
        while i < n {
            check_elem(&sp.select(ix!([i], iw)), &h.get(&[i, 0, 0, 0]), dw, kd, 12);
            i += 1;
        }
    }
    cover(1);
}

/// is_equal and == against the mathematical arrays
/// param: index width or class, class of data, stores on the left, stores on the right,
/// kinds (bit 0: left dense, bit 1: right dense, bit 2: same default)
#[no_mangle]
pub extern "C" fn h_array_eq() {
    let (class, na, nb, kinds) = (param(1), param(2) as usize, param(3) as usize, param(4));
    let (iw, ki) = index_type(param(0));
    let (dw, kd) = data_type(class);
    let da = any_elem(dw, kd);
    let db = if kinds & 4 != 0 { da } else { any_elem(dw, kd) };
    let make = |dense: bool, d: &Elem| if dense { ArrayValue::new_dense(iw, view(d, dw)) } else { ArrayValue::new_sparse(iw, view(d, dw)) };
    let mut a = make(kinds & 1 != 0, &da);
    let mut b = make(kinds & 2 != 0, &db);
    let (mut ha, mut hb) = (Hist::new(ki, kd, da), Hist::new(ki, kd, db));
    run_ops!(a, ha, iw, ki, dw, kd, na, 0, 1);
    run_ops!(b, hb, iw, ki, dw, kd, nb, 1, 1);
    let mut eq = true;
    if param(0) < 6 {
        let mut i = 0;
        while i < 1u64 << iw {
            let j = [i, 0, 0, 0];
            eq &= same_elem(&ha.get(&j), &hb.get(&j), kd);
            i += 1;
        }
    } else {
        // more indices than stores
        assume(iw > 2);
        eq = same_elem(&da, &db, kd);
        let mut i = 0;
        while i < na {
            eq &= same_elem(&ha.get(&ha.at[i]), &hb.get(&ha.at[i]), kd);
            i += 1;
        }
        i = 0;
        while i < nb {
            eq &= same_elem(&ha.get(&hb.at[i]), &hb.get(&hb.at[i]), kd);
            i += 1;
        }
    }
    let r = a.is_equal(&b);
    check(r.is_some(), 1);
    check(r == Some(eq), 2);
    check(b.is_equal(&a) == Some(eq), 3);
    check((a == b) == eq && (a != b) == !eq, 4);
    cover_if(eq, 1);
    cover_if(!eq, 2);
    trace(eq as u64);
}

/// arrays of different types are not comparable; param: kinds, class, class
#[no_mangle]
pub extern "C" fn h_array_type() {
    let kinds = param(0);
    let (da, ka) = data_type(param(1));
    let (db, kb) = data_type(param(2));
    let (ia, ib) = (split(any(2)) as u32, split(any(2)) as u32);
    let (a, b) = (any_elem(da, ka), any_elem(db, kb));
    let make = |dense: bool, i: u32, e: &Elem, w: u32| if dense { ArrayValue::new_dense(i, view(e, w)) } else { ArrayValue::new_sparse(i, view(e, w)) };
    let x = make(kinds & 1 != 0, ia, &a, da);
    let y = make(kinds & 2 != 0, ib, &b, db);
    let comparable = split_bool(da == db) && ia == ib;
    check(x.is_equal(&y).is_some() == comparable, 1);
    check(y.is_equal(&x).is_some() == comparable, 2);
    check(comparable || x != y, 3);
    cover_if(comparable, 1);
    cover_if(!comparable, 2);
}

/// the value wrapper returns what was put in
#[no_mangle]
pub extern "C" fn h_value() {
    let k = param(0) as usize;
    let width = any_width(k);
    let a = any_words(width, k);
    let b = any_words(width, k);
    let v = Value::BitVec(owned(&a, width));
    let w = Value::BitVec(owned(&b, width));
    check((v == w) == same(&a, &b, k), 1);
    check(ArrayValue::try_from(v.clone()).is_err(), 2);
    match BitVecValue::try_from(v.clone()) {
        Ok(r) => expect(&r, &a, width, k, 3),
        Err(_) => check(false, 5),
    }
    if k < MAXE {
        let d = any_elem(width, k);
        let arr = Value::Array(ArrayValue::new_dense(1, view(&d, width)));
        check(arr != v, 6);
        check(BitVecValue::try_from(arr.clone()).is_err(), 7);
        match ArrayValue::try_from(arr) {
            Ok(r) => check_elem(&r.select(view(&[any(1)], 1)), &d, width, k, 8),
            Err(_) => check(false, 10),
        }
    }
    cover(1);
}

/// wrapped bit vectors of independent widths; param: words of each
#[no_mangle]
pub extern "C" fn h_value_eq() {
    let (ka, kb) = (param(0) as usize, param(1) as usize);
    let (wa, wb) = (any_width(ka), any_width(kb));
    let (a, b) = (any_words(wa, ka), any_words(wb, kb));
    let v = Value::BitVec(owned(&a, wa));
    let w = Value::BitVec(owned(&b, wb));
    check((v == w) == (wa == wb && ka == kb && same(&a, &b, ka)), 1);
    check((w == v) == (v == w), 2);
    check((v != w) == !(v == w), 3);
    let c = v.clone();
    check(c == v, 4);
    cover(1);
}

/// wrapped arrays compare as the arrays do
/// param: index width, class of data, kinds (bit 0: left dense, bit 1: right dense)
#[no_mangle]
pub extern "C" fn h_value_array() {
    let (iw, class, kinds) = (param(0) as u32, param(1), param(2));
    let (dw, kd) = data_type(class);
    let (da, db) = (any_elem(dw, kd), any_elem(dw, kd));
    let make = |dense: bool, d: &Elem| if dense { ArrayValue::new_dense(iw, view(d, dw)) } else { ArrayValue::new_sparse(iw, view(d, dw)) };
    let mut a = make(kinds & 1 != 0, &da);
    let b = make(kinds & 2 != 0, &db);
    let j = any_at(iw, 1);
    let val = any_elem(dw, kd);
    a.store(ix!(j, iw), view(&val, dw));
    let eq = same_elem(&val, &db, kd) && (iw == 0 || same_elem(&da, &db, kd));
    let (v, w) = (Value::Array(a), Value::Array(b));
    check((v == w) == eq, 1);
    check((w == v) == eq, 2);
    match (ArrayValue::try_from(v.clone()), BitVecValue::try_from(v)) {
        (Ok(r), Err(())) => {
            check(r.index_width() == iw && r.data_width() == dw && r.is_dense() == (kinds & 1 != 0), 3);
            check_elem(&r.select(ix!(j, iw)), &val, dw, kd, 4);
        }
        _ => check(false, 6),
    }
    cover(1);
}

/// large arrays: any two stores at given places
/// param: index width, class of data, kind (0: dense, 1: sparse to dense, 2: dense to sparse,
/// 3: dense against sparse), two indices
#[no_mangle]
pub extern "C" fn h_large() {
    let (iw, class, kind) = (param(0) as u32, param(1), param(2));
    let (dw, kd) = data_type(class);
    let default = if kind == 2 { [0; MAXE] } else { any_elem(dw, kd) };
    let at = [[param(3), 0, 0, 0], [param(4), 0, 0, 0]];
    let vals = [any_elem(dw, kd), any_elem(dw, kd)];
    let mut arr = if kind & 1 == 0 { ArrayValue::new_dense(iw, view(&default, dw)) } else { ArrayValue::new_sparse(iw, view(&default, dw)) };
    let mut h = Hist::new(1, kd, default);
    let mut i = 0;
    while i < 2 {
        arr.store(ix!(at[i], iw), view(&vals[i], dw));
        h.store(at[i], vals[i]);
        i += 1;
    }
    let n = 1u64 << iw;
    check(arr.num_elements() as u64 == n, 1);
    if kind == 1 {
        arr.make_dense();
    }
    if kind == 2 {
        let sp = SparseArrayValue::from(arr);
        each_edge(&at, n, |j| check_elem(&sp.select(ix!(j, iw)), &h.get(&j), dw, kd, 2));
    } else if kind == 3 {
        let mut other = ArrayValue::new_dense(iw, view(&default, dw));
        check((other == arr) == (same_elem(&vals[0], &default, kd) && same_elem(&vals[1], &default, kd)), 4);
        other.store(ix!(at[1], iw), view(&vals[1], dw));
        other.store(ix!(at[0], iw), view(&vals[0], dw));
        check(other == arr && arr == other, 5);
    } else {
        each_edge(&at, n, |j| check_elem(&arr.select(ix!(j, iw)), &h.get(&j), dw, kd, 7));
    }
    cover(1);
}

/// the places around the stores and around powers of two
#[inline(always)]
fn each_edge(at: &[[u64; 4]; 2], n: u64, f: impl Fn([u64; 4])) {
    let mut i = 0;
    while i < 2 {
        let x = at[i][0];
        for j in [x, x ^ 1, x ^ 256, x ^ 65536, n - 1 - x, x & 255] {
            if j < n {
                f([j, 0, 0, 0]);
            }
        }
        i += 1;
    }
}
