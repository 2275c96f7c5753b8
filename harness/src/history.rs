//! long histories of arrays: the places and the order of the operations follow a fixed sequence, the
//! stored values are arbitrary
use crate::gen::*;
use crate::rt::*;
use crate::wide::{eq_words, pattern};

struct Seq(u64);
impl Seq {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}

/// the j-th of the indices in use
pub fn place(iw: u32, j: u64) -> Vec<u64> {
    let k = nwords(iw);
    let mut v = vec![0u64; k];
    if iw <= 8 {
        v[0] = j.wrapping_mul(37);
    } else if k == 1 {
        v[0] = match j {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => 1 << (iw - 1),
            4 => 8,
            _ => j.wrapping_mul(0x9e3779b97f4a7c15) >> 7,
        };
    } else if iw % 64 != 0 && iw % 64 < 40 {
        v[0] = j >> 1;
        v[k - 1] = j & 1;
    } else {
        // indices that agree in all but one word
        match j % 4 {
            0 => v[0] = j,
            1 => v[k - 1] = j,
            2 => v[k / 2] = j << 30 | 1,
            _ => {
                v[0] = j;
                v[k - 1] = 1;
            }
        }
    }
    v[k - 1] &= top_mask(iw);
    v
}

/// an arbitrary value that is not the default (and, above 8 bits, not the value of another number)
pub fn value(dw: u32, nr: u64, same: bool) -> Vec<u64> {
    let k = nwords(dw);
    let mut v = Vec::with_capacity(k);
    let mut i = 0;
    while i < k {
        v.push(if i == 0 && !same {
            any(64)
        } else if i == k / 2 && k > 3 {
            any(64)
        } else if same {
            pattern(3, i)
        } else {
            pattern(nr + 3, i)
        });
        i += 1;
    }
    // the lowest bits keep them apart
    if dw > 8 {
        v[0] = v[0] << 8 | (nr & 0xff);
    } else if dw > 1 {
        v[0] = v[0] << 1 | (nr > 0) as u64;
    } else {
        v[0] = (nr > 0) as u64;
    }
    v[k - 1] &= top_mask(dw);
    v
}

fn find(map: &[(u64, u64)], j: u64) -> Option<u64> {
    let mut i = 0;
    while i < map.len() {
        if map[i].0 == j {
            return Some(map[i].1);
        }
        i += 1;
    }
    None
}

fn forget(map: &mut Vec<(u64, u64)>, j: u64) {
    let mut i = 0;
    while i < map.len() {
        if map[i].0 == j {
            map.remove(i);
            return;
        }
        i += 1;
    }
}

/// params: index width, data width, sparse, number of operations, start of the sequence,
/// number of sequences, what follows (0: nothing, 1: entries, 2: conversion, 3: equality)
#[no_mangle]
pub extern "C" fn h_history() {
    let mut seq = Seq(param(4));
    let mut i = 0;
    while i < param(5) {
        history(&mut seq, param(0) as u32, param(1) as u32, param(2) == 1, param(3), param(6));
        i += 1;
    }
    cover(1);
}

fn history(seq: &mut Seq, iw: u32, dw: u32, sparse: bool, ops: u64, then: u64) {
    let n = if iw < 4 { 1u64 << iw } else { 14 };
    let default = value(dw, 0, true);
    let mut vals: Vec<Vec<u64>> = vec![default.clone()];
    // index number, value number
    let mut map: Vec<(u64, u64)> = Vec::new();
    let def = view(&default, dw);
    let make = |sparse: bool| if sparse { ArrayValue::new_sparse(iw, def) } else { ArrayValue::new_dense(iw, def) };
    let mut a = make(sparse);
    let mut cur = 0; // value number of all others
    let zero = vec![0u64; nwords(dw)];
    let mut o = 0;
    while o < ops {
        let j = seq.next(n);
        let at = place(iw, j);
        let what = seq.next(24);
        if what == 0 && cur == 0 && o > ops / 3 {
            a.clear();
            map.clear();
            vals.push(zero.clone());
            cur = vals.len() as u64 - 1;
        } else {
            let nr = if what < 6 {
                cur
            } else if what < 10 && map.len() > 0 {
                map[seq.next(map.len() as u64) as usize].1
            } else {
                vals.push(value(dw, vals.len() as u64, false));
                vals.len() as u64 - 1
            };
            a.store(view(&at, iw), view(&vals[nr as usize], dw));
            forget(&mut map, j);
            if nr != cur {
                map.push((j, nr));
            }
            eq_words(&a.select(view(&at, iw)), &vals[nr as usize], dw, 1);
        }
        o += 1;
    }
    let all = |a: &ArrayValue, id: u32| {
        let mut j = 0;
        while j < n {
            let at = place(iw, j);
            let nr = find(&map, j).unwrap_or(cur);
            eq_words(&a.select(view(&at, iw)), &vals[nr as usize], dw, id);
            j += 1;
        }
    };
    all(&a, 2);
    if then == 1 {
        let s = SparseArrayValue::from(a);
        let mut left = map.clone();
        for (at, v) in s.non_default_entries() {
            let mut j = 0;
            while j < n {
                let p = place(iw, j);
                let mut same = p.len() == at.words().len();
                let mut i = 0;
                while same && i < p.len() {
                    same = p[i] == at.words()[i];
                    i += 1;
                }
                if same {
                    break;
                }
                j += 1;
            }
            check(j < n, 3);
            let nr = find(&left, j);
            check(nr.is_some(), 4);
            eq_words(&v, &vals[nr.unwrap() as usize], dw, 5);
            forget(&mut left, j);
        }
        check(left.is_empty(), 6);
    } else if then == 2 {
        if sparse {
            let mut b = a.clone();
            b.make_dense();
            check(b.is_dense(), 7);
            all(&b, 8);
        } else {
            let s = SparseArrayValue::from(a.clone());
            let mut j = 0;
            while j < n {
                let at = place(iw, j);
                let nr = find(&map, j).unwrap_or(cur);
                eq_words(&s.select(view(&at, iw)), &vals[nr as usize], dw, 9);
                j += 1;
            }
        }
        all(&a, 10);
    } else if then == 3 {
        let mut other = 0;
        while other < 2 {
            // the same content, stored in the reverse order
            // large arrays are only compared in the same representation
            let mut b = make(if iw > 12 || other == 0 { sparse } else { !sparse });
            if cur != 0 {
                b.clear();
            }
            let mut i = map.len();
            while i > 0 {
                i -= 1;
                let at = place(iw, map[i].0);
                b.store(view(&at, iw), view(&vals[map[i].1 as usize], dw));
            }
            check(a == b && b == a && a.is_equal(&b) != Some(false), 11);
            // one different element
            if dw > 8 {
                let j = seq.next(n);
                let at = place(iw, j);
                let x = value(dw, vals.len() as u64, false);
                b.store(view(&at, iw), view(&x, dw));
                check(a != b && b != a && a.is_equal(&b) != Some(true), 12);
                let nr = find(&map, j).unwrap_or(cur);
                b.store(view(&at, iw), view(&vals[nr as usize], dw));
                check(a == b && b == a, 13);
            }
            other += 1;
        }
    }
}

/// params: index width, data width, sparse, number of runs, length of each run, distance between the
/// runs, what follows (0: nothing, 1: entries, 2: conversion, 3: equality), bits of the default
/// Runs of neighbouring elements are stored, a part of them is overwritten with the default; each run
/// contains one arbitrary value.
#[no_mangle]
pub extern "C" fn h_burst() {
    let (iw, dw, sparse) = (param(0) as u32, param(1) as u32, param(2) == 1);
    let (runs, len, dist, then) = (param(3), param(4), param(5), param(6));
    let k = nwords(dw);
    let val = |nr: u64| -> Vec<u64> {
        // number 0 is the default
        let mut v: Vec<u64> = Vec::with_capacity(k);
        let mut i = 0;
        while i < k {
            v.push(if param(7) == 1 { u64::MAX } else { 0 });
            i += 1;
        }
        if nr > 0 {
            v[0] ^= if dw == 1 { 1 } else { nr };
            if dw > 64 {
                v[k - 1] ^= nr << 1;
            }
        }
        v[k - 1] &= top_mask(dw);
        v
    };
    let ki = nwords(iw);
    let at = |p: u64| -> Vec<u64> {
        let mut v = vec![0u64; ki];
        v[0] = p;
        if ki > 1 {
            v[ki - 1] = p & 1;
        }
        v[ki - 1] &= top_mask(iw);
        v
    };
    let top = if iw >= 64 { u64::MAX } else { (1u64 << iw) - 1 };
    let base = |r: u64| -> u64 {
        // from both ends
        let o = (r / 2) * dist;
        if r % 2 == 0 {
            o
        } else {
            top - o - (len - 1)
        }
    };
    let make = |sparse: bool| {
        if sparse {
            ArrayValue::new_sparse(iw, view(&val(0), dw))
        } else {
            ArrayValue::new_dense(iw, view(&val(0), dw))
        }
    };
    // what is stored in element i of run r in the end
    let nr = |r: u64, i: u64| -> u64 {
        // one of the runs stays as it is
        if r % 4 == 1 {
            1 + if dw < 8 { 0 } else { (r * 7 + i * 3) % 120 }
        } else if (r + i) % 5 == 3 || (r % 3 == 2 && i % 4 != 1) {
            0
        } else if dw < 8 {
            1
        } else {
            1 + (r * 7 + i * 3) % 120
        }
    };
    let mut syms: Vec<Vec<u64>> = Vec::new();
    let mut r = 0;
    while r < runs {
        let mut v = val(1);
        // never the default
        // (known values where a conversion counts how often each of them occurs)
        if sparse || then != 2 || dw <= 8 {
            v[0] = any(64) << 1 | (1 - param(7));
            v[k - 1] &= top_mask(dw);
        }
        syms.push(v);
        r += 1;
    }
    let want = |r: u64, i: u64| -> Vec<u64> {
        if i == (r * 3 + 2) % len {
            syms[r as usize].clone()
        } else {
            val(nr(r, i))
        }
    };
    let fill = |a: &mut ArrayValue, back: bool| {
        let mut q = 0;
        while q < runs {
            let r = if back { runs - 1 - q } else { q };
            let mut i = 0;
            while i < len {
                let p = at(base(r) + if back { len - 1 - i } else { i });
                a.store(view(&p, iw), view(&val(1 + (r & 1)), dw));
                i += 1;
            }
            q += 1;
        }
        let mut r = 0;
        while r < runs {
            let mut i = 0;
            while i < len {
                let p = at(base(r) + i);
                a.store(view(&p, iw), view(&want(r, i), dw));
                i += 1;
            }
            r += 1;
        }
    };
    let mut a = make(sparse);
    fill(&mut a, false);
    let all = |a: &ArrayValue, id: u32| {
        let mut r = 0;
        while r < runs {
            let mut i = 0;
            while i < len {
                eq_words(&a.select(view(&at(base(r) + i), iw)), &want(r, i), dw, id);
                i += 1;
            }
            // next to the run
            let next = base(r).wrapping_add(len) & top;
            let mut q = 0;
            let mut free = true;
            while q < runs {
                free &= next.wrapping_sub(base(q)) >= len;
                q += 1;
            }
            if free {
                eq_words(&a.select(view(&at(next), iw)), &val(0), dw, id);
            }
            r += 1;
        }
    };
    all(&a, 1);
    if then == 1 {
        let s = SparseArrayValue::from(a);
        let mut count = 0u64;
        for (p, v) in s.non_default_entries() {
            let mut found = false;
            let mut r = 0;
            while r < runs && !found {
                let i = p.words()[0].wrapping_sub(base(r));
                if i < len {
                    found = true;
                    eq_words(&p, &at(base(r) + i), iw, 2);
                    eq_words(&v, &want(r, i), dw, 3);
                }
                r += 1;
            }
            check(found, 4);
            count += 1;
        }
        let mut expected = 0u64;
        let mut r = 0;
        while r < runs {
            let mut i = 0;
            while i < len {
                let w = want(r, i);
                let d = val(0);
                let mut diff = 0u64;
                let mut j = 0;
                while j < k {
                    diff |= w[j] ^ d[j];
                    j += 1;
                }
                expected += (diff != 0) as u64;
                i += 1;
            }
            r += 1;
        }
        check(count == expected, 5);
    } else if then == 2 {
        if sparse {
            a.make_dense();
            check(a.is_dense(), 6);
            all(&a, 7);
        } else {
            let s = SparseArrayValue::from(a);
            let mut r = 0;
            while r < runs {
                let mut i = 0;
                while i < len {
                    eq_words(&s.select(view(&at(base(r) + i), iw)), &want(r, i), dw, 8);
                    i += 1;
                }
                r += 1;
            }
        }
    } else if then == 3 {
        let mut b = make(sparse);
        fill(&mut b, true);
        check(a == b && b == a && a.is_equal(&b) != Some(false), 9);
        let p = at(base(runs - 1) + len / 2);
        let mut x = want(runs - 1, len / 2);
        x[0] ^= 1;
        b.store(view(&p, iw), view(&x, dw));
        check(a != b && b != a && a.is_equal(&b) != Some(true), 10);
    }
    cover(1);
}
