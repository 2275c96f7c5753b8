//! Hash-consed bit-vector terms (width 1..=128) with local simplification.
//!
//! Every constructor is semantics preserving with SMT-LIB bit-vector semantics
//! (division by zero and over-shifts included); `selftest` in main.rs checks the
//! constructors against a direct evaluator on random terms.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub val: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub kz: u128,
    pub ko: u128,
    pub lo: u128,
    pub hi: u128,
    /// number of constant leaves if this is an ite-tree over constants, else 0
    pub leaves: u16,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext_val(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E, FastHash>,
    pub var_names: Vec<String>,
    pub var_es: Vec<(E, u16)>,
    varsets: Vec<u32>,
    sets: Vec<Rc<Vec<u32>>>,
    set_map: HashMap<Rc<Vec<u32>>, u32>,
    set_union: HashMap<(u32, u32), u32, FastHash>,
    pub tru: E,
    pub fals: E,
    /// disable rewriting (used by the self test to build reference terms)
    pub raw: bool,
    memo_extract: HashMap<(E, u16, u16), E, FastHash>,
}

#[derive(Clone, Default)]
pub struct FastHash;
pub struct FH(u64);
impl std::hash::BuildHasher for FastHash {
    type Hasher = FH;
    fn build_hasher(&self) -> FH {
        FH(0)
    }
}
impl std::hash::Hasher for FH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 32;
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}

impl Default for Ctx {
    fn default() -> Self {
        Self::new()
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            info: vec![],
            map: HashMap::default(),
            var_names: vec![],
            var_es: vec![],
            varsets: vec![],
            sets: vec![Rc::new(vec![])],
            set_map: HashMap::new(),
            set_union: HashMap::default(),
            tru: 0,
            fals: 0,
            raw: false,
            memo_extract: HashMap::default(),
        };
        c.set_map.insert(c.sets[0].clone(), 0);
        c.fals = c.cst(0, 1);
        c.tru = c.cst(1, 1);
        c
    }

    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn inf(&self, e: E) -> &Info {
        &self.info[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.val)
        } else {
            None
        }
    }
    #[inline]
    pub fn is_const(&self, e: E) -> bool {
        self.nodes[e as usize].op == Op::Const
    }
    pub fn vars(&self, e: E) -> Rc<Vec<u32>> {
        self.sets[self.varsets[e as usize] as usize].clone()
    }

    pub fn cst(&mut self, v: u128, w: u16) -> E {
        assert!((1..=128).contains(&w), "unsupported width {w}");
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, val: v & mask(w) })
    }
    pub fn var(&mut self, name: &str, w: u16) -> E {
        let id = self.var_names.len() as u128;
        self.var_names.push(name.to_string());
        let e = self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, val: id });
        self.var_es.push((e, w));
        e
    }
    pub fn var_expr(&self, v: u32) -> (E, u16) {
        self.var_es[v as usize]
    }
    pub fn bool(&self, b: bool) -> E {
        if b {
            self.tru
        } else {
            self.fals
        }
    }

    fn union_sets(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.set_union.get(&key) {
            return *r;
        }
        let (x, y) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let mut v: Vec<u32> = x.iter().chain(y.iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        let v = Rc::new(v);
        let id = if let Some(i) = self.set_map.get(&v) {
            *i
        } else {
            let i = self.sets.len() as u32;
            self.sets.push(v.clone());
            self.set_map.insert(v, i);
            i
        };
        self.set_union.insert(key, id);
        id
    }

    fn nargs(op: Op) -> usize {
        match op {
            Op::Const | Op::Var => 0,
            Op::Extract | Op::ZExt | Op::SExt => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }

    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let inf = self.compute_info(&n);
        // a node whose value is fully known becomes a constant
        if n.op != Op::Const && n.op != Op::Var && !self.raw {
            let m = mask(n.w);
            if (inf.kz | inf.ko) == m {
                let k = self.cst(inf.ko, n.w);
                self.map.insert(n, k);
                return k;
            }
            if inf.lo == inf.hi {
                let k = self.cst(inf.lo, n.w);
                self.map.insert(n, k);
                return k;
            }
        }
        let id = self.nodes.len() as E;
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => {
                let v = Rc::new(vec![n.val as u32]);
                let i = self.sets.len() as u32;
                self.sets.push(v.clone());
                self.set_map.insert(v, i);
                i
            }
            _ => {
                let mut s = self.varsets[n.a as usize];
                let k = Self::nargs(n.op);
                if k >= 2 {
                    s = self.union_sets(s, self.varsets[n.b as usize]);
                }
                if k >= 3 {
                    s = self.union_sets(s, self.varsets[n.c as usize]);
                }
                s
            }
        };
        self.nodes.push(n);
        self.info.push(inf);
        self.varsets.push(vs);
        self.map.insert(n, id);
        id
    }

    fn compute_info(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let w = n.w;
        let mut leaves = 0u16;
        let (mut kz, mut ko, mut lo, mut hi) = (0u128, 0u128, 0u128, m);
        match n.op {
            Op::Const => {
                kz = !n.val & m;
                ko = n.val;
                lo = n.val;
                hi = n.val;
                leaves = 1;
            }
            Op::Var => {}
            Op::And => {
                let (a, b) = (self.inf(n.a), self.inf(n.b));
                kz = a.kz | b.kz;
                ko = a.ko & b.ko;
                hi = a.hi.min(b.hi);
            }
            Op::Or => {
                let (a, b) = (self.inf(n.a), self.inf(n.b));
                kz = a.kz & b.kz;
                ko = a.ko | b.ko;
                lo = a.lo.max(b.lo);
                hi = a.hi.saturating_add(b.hi).min(m);
                if a.kz | b.kz | !m == u128::MAX {
                    lo = a.lo + b.lo;
                }
            }
            Op::Xor => {
                let (a, b) = (self.inf(n.a), self.inf(n.b));
                kz = (a.kz & b.kz) | (a.ko & b.ko);
                ko = (a.kz & b.ko) | (a.ko & b.kz);
            }
            Op::Add => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                let (l, o1) = a.lo.overflowing_add(b.lo);
                let (h, o2) = a.hi.overflowing_add(b.hi);
                let ov_l = o1 || l > m;
                let ov_h = o2 || h > m;
                if !ov_l && !ov_h {
                    lo = l;
                    hi = h;
                } else if ov_l && ov_h {
                    lo = l & m;
                    hi = h & m;
                    if lo > hi {
                        lo = 0;
                        hi = m;
                    }
                }
                // known low bits
                let known = (a.kz | a.ko) & (b.kz | b.ko);
                let t = (!known).trailing_zeros().min(w as u32);
                let tm = if t >= 128 { u128::MAX } else { (1u128 << t) - 1 };
                let s = a.ko.wrapping_add(b.ko);
                ko = s & tm & m;
                kz = !s & tm & m;
            }
            Op::Sub => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                if a.lo >= b.hi {
                    lo = a.lo - b.hi;
                    hi = a.hi - b.lo;
                }
                let known = (a.kz | a.ko) & (b.kz | b.ko);
                let t = (!known).trailing_zeros().min(w as u32);
                let tm = if t >= 128 { u128::MAX } else { (1u128 << t) - 1 };
                let s = a.ko.wrapping_sub(b.ko);
                ko = s & tm & m;
                kz = !s & tm & m;
            }
            Op::Mul => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                if let Some(h) = a.hi.checked_mul(b.hi) {
                    if h <= m {
                        hi = h;
                        lo = a.lo.wrapping_mul(b.lo);
                    }
                }
                let tz = |i: &Info| (!i.kz).trailing_zeros();
                let t = (tz(&a) + tz(&b)).min(w as u32);
                kz |= if t >= 128 { u128::MAX } else { (1u128 << t) - 1 };
                kz &= m;
            }
            Op::UDiv => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                if b.lo > 0 {
                    lo = a.lo / b.hi;
                    hi = a.hi / b.lo;
                }
            }
            Op::URem => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                hi = a.hi;
                if b.lo > 0 {
                    hi = hi.min(b.hi - 1);
                }
            }
            Op::SDiv | Op::SRem => {}
            Op::Shl => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                let tz = (!a.kz).trailing_zeros() as u128;
                let t = tz.saturating_add(b.lo).min(w as u128) as u32;
                kz = if t >= 128 { u128::MAX } else { (1u128 << t) - 1 };
                kz &= m;
                if b.hi < w as u128 {
                    let lz = (a.hi << (128 - w as u32)).leading_zeros().min(w as u32) as u128;
                    if a.hi == 0 {
                        hi = 0;
                    } else if b.hi <= lz {
                        hi = a.hi << b.hi;
                        lo = a.lo << b.lo;
                    }
                }
            }
            Op::LShr => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                hi = if b.lo >= w as u128 { 0 } else { a.hi >> b.lo };
                lo = if b.hi >= w as u128 { 0 } else { a.lo >> b.hi };
            }
            Op::AShr => {
                let a = *self.inf(n.a);
                let sb = 1u128 << (w - 1);
                if a.kz & sb != 0 {
                    hi = a.hi;
                }
            }
            Op::Eq | Op::Ult | Op::Slt => {}
            Op::Ite => {
                let (a, b) = (*self.inf(n.b), *self.inf(n.c));
                kz = a.kz & b.kz;
                ko = a.ko & b.ko;
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
                if a.leaves > 0 && b.leaves > 0 {
                    leaves = a.leaves.saturating_add(b.leaves);
                }
            }
            Op::Concat => {
                let (a, b) = (*self.inf(n.a), *self.inf(n.b));
                let wb = self.w(n.b) as u32;
                kz = (a.kz << wb) | b.kz;
                ko = (a.ko << wb) | b.ko;
                lo = (a.lo << wb) | b.lo;
                hi = (a.hi << wb) | b.hi;
            }
            Op::Extract => {
                let a = *self.inf(n.a);
                kz = (a.kz >> n.b) & m;
                ko = (a.ko >> n.b) & m;
                if (a.hi >> n.b) <= m {
                    lo = a.lo >> n.b;
                    hi = a.hi >> n.b;
                }
            }
            Op::ZExt => {
                let a = *self.inf(n.a);
                let wa = self.w(n.a);
                kz = a.kz | (m & !mask(wa));
                ko = a.ko;
                lo = a.lo;
                hi = a.hi;
            }
            Op::SExt => {
                let a = *self.inf(n.a);
                let wa = self.w(n.a);
                let sb = 1u128 << (wa - 1);
                let ext = m & !mask(wa);
                kz = a.kz;
                ko = a.ko;
                if a.kz & sb != 0 {
                    kz |= ext;
                    lo = a.lo;
                    hi = a.hi;
                } else if a.ko & sb != 0 {
                    ko |= ext;
                    lo = a.lo | ext;
                    hi = a.hi | ext;
                }
            }
        }
        // cross-refine
        lo = lo.max(ko);
        hi = hi.min(m & !kz);
        if n.op != Op::Const {
            if lo > hi {
                // contradictory can only happen for unreachable values; fall back
                lo = ko;
                hi = m & !kz;
            }
            // common leading bits of lo and hi are known
            let diff = lo ^ hi;
            let k = 128 - diff.leading_zeros();
            let top = if k >= 128 { 0 } else { !((1u128 << k) - 1) } & m;
            ko |= lo & top;
            kz |= !lo & top;
        }
        Info { kz: kz & m, ko: ko & m, lo, hi, leaves }
    }

    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E) -> E {
        self.intern(Node { op, w, a, b, c, val: 0 })
    }

    // ---------------------------------------------------------------- constructors

    fn push_leaves(&mut self, t: E, f: &mut dyn FnMut(&mut Ctx, E) -> E) -> E {
        let n = self.n(t);
        match n.op {
            Op::Const => f(self, t),
            Op::Ite => {
                let x = self.push_leaves(n.b, f);
                let y = self.push_leaves(n.c, f);
                self.ite(n.a, x, y)
            }
            _ => unreachable!(),
        }
    }

    /// If one side is an ite tree over constants and the other a constant, distribute.
    fn try_leaves(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (la, lb) = (self.inf(a).leaves, self.inf(b).leaves);
        if la == 0 || lb == 0 || self.raw {
            return None;
        }
        if lb == 1 && la > 1 && la <= 64 {
            return Some(self.push_leaves(a, &mut |c, x| c.bin(op, x, b)));
        }
        if la == 1 && lb > 1 && lb <= 64 {
            return Some(self.push_leaves(b, &mut |c, x| c.bin(op, a, x)));
        }
        None
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::SDiv => self.sdiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SRem => self.srem(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Concat => self.concat(a, b),
            _ => panic!("bin {op:?}"),
        }
    }

    fn fold(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (x, y) = (self.as_const(a)?, self.as_const(b)?);
        let w = self.w(a);
        let r = eval_bin(op, x, y, w);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => w,
        };
        Some(self.cst(r, rw))
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if self.raw {
            return self.mk(Op::Add, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::Add, a, b) {
            return r;
        }
        // constant to the right, otherwise order by id
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if self.as_const(b) == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let na = self.n(a);
        if let Some(kb) = self.as_const(b) {
            if na.op == Op::Add {
                if let Some(k1) = self.as_const(na.b) {
                    let k = self.cst(k1.wrapping_add(kb), w);
                    return self.add(na.a, k);
                }
            }
            if na.op == Op::Sub {
                if let Some(k1) = self.as_const(na.a) {
                    let k = self.cst(k1.wrapping_add(kb), w);
                    return self.sub(k, na.b);
                }
            }
        } else {
            // float constants outwards: (x + k) + y = (x + y) + k
            if na.op == Op::Add && self.is_const(na.b) {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
            let nb = self.n(b);
            if nb.op == Op::Add && self.is_const(nb.b) {
                let s = self.add(a, nb.a);
                return self.add(s, nb.b);
            }
            // x + (y - x) = y
            if nb.op == Op::Sub && nb.b == a {
                return nb.a;
            }
            if na.op == Op::Sub && na.b == b {
                return na.a;
            }
        }
        if let Some(r) = self.try_leaves(Op::Add, a, b) {
            return r;
        }
        // disjoint bits: an or
        let (ia, ib) = (*self.inf(a), *self.inf(b));
        if (ia.kz | ib.kz) == mask(w) {
            return self.or(a, b);
        }
        if let Some(r) = self.narrow(Op::Add, a, b) {
            return r;
        }
        self.mk(Op::Add, w, a, b, 0)
    }

    /// low bits suffice: arithmetic on zero-extended operands whose result is
    /// known to be small is done at the small width
    fn narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w < 16 {
            return None;
        }
        let small = |c: &Ctx, e: E| -> Option<u16> {
            let n = c.n(e);
            match n.op {
                Op::Const => Some(1),
                Op::ZExt => Some(c.w(n.a)),
                Op::Concat if c.as_const(n.a) == Some(0) => Some(c.w(n.b)),
                _ => None,
            }
        };
        let need = small(self, a)?.max(small(self, b)?);
        let r = self.mk(op, w, a, b, 0);
        let hi = self.inf(r).hi;
        for m in [8u16, 16, 32, 64] {
            if m < w && m >= need && hi <= mask(m) {
                let (x, y) = (self.trunc(a, m), self.trunc(b, m));
                let r = self.bin(op, x, y);
                return Some(self.zext(r, w));
            }
        }
        None
    }

    pub fn neg(&mut self, a: E) -> E {
        let z = self.cst(0, self.w(a));
        self.sub(z, a)
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if self.raw {
            return self.mk(Op::Sub, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::Sub, a, b) {
            return r;
        }
        if a == b {
            return self.cst(0, w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(k) = self.as_const(b) {
            let k = self.cst(k.wrapping_neg(), w);
            return self.add(a, k);
        }
        if let Some(r) = self.try_leaves(Op::Sub, a, b) {
            return r;
        }
        let (na, nb) = (self.n(a), self.n(b));
        // (x + k) - y = (x - y) + k
        if na.op == Op::Add && self.is_const(na.b) {
            if nb.op == Op::Add && self.is_const(nb.b) {
                let s = self.sub(na.a, nb.a);
                let k = self.sub(na.b, nb.b);
                return self.add(s, k);
            }
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add {
            if self.is_const(nb.b) {
                let s = self.sub(a, nb.a);
                let k = self.neg(nb.b);
                return self.add(s, k);
            }
            if nb.a == a {
                return self.neg(nb.b);
            }
            if nb.b == a {
                return self.neg(nb.a);
            }
        }
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        // k - (k2 - x) = x + (k - k2)
        if nb.op == Op::Sub && self.is_const(nb.a) && self.is_const(a) {
            let k = self.sub(a, nb.a);
            return self.add(nb.b, k);
        }
        // x - (x - y) = y
        if nb.op == Op::Sub && nb.a == a {
            return nb.b;
        }
        self.mk(Op::Sub, w, a, b, 0)
    }

    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::Mul, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::Mul, a, b) {
            return r;
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.cst(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            if k == mask(w) {
                return self.neg(a);
            }
        }
        if let Some(r) = self.try_leaves(Op::Mul, a, b) {
            return r;
        }
        if let Some(r) = self.narrow(Op::Mul, a, b) {
            return r;
        }
        self.mk(Op::Mul, w, a, b, 0)
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::UDiv, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::UDiv, a, b) {
            return r;
        }
        if let Some(k) = self.as_const(b) {
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.cst(k.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            if k != 0 {
                // narrow when the dividend has known leading zeros
                let hi = self.inf(a).hi;
                let need = (128 - hi.leading_zeros()).max(128 - k.leading_zeros()).max(1) as u16;
                if hi < k {
                    return self.cst(0, w);
                }
                if need < w {
                    let x = self.extract(a, need - 1, 0);
                    let y = self.cst(k, need);
                    let d = self.udiv(x, y);
                    return self.zext(d, w);
                }
            }
        }
        if let Some(r) = self.try_leaves(Op::UDiv, a, b) {
            return r;
        }
        self.mk(Op::UDiv, w, a, b, 0)
    }

    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::URem, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::URem, a, b) {
            return r;
        }
        if let Some(k) = self.as_const(b) {
            if k.is_power_of_two() {
                let m = self.cst(k - 1, w);
                return self.and(a, m);
            }
            if k != 0 {
                let hi = self.inf(a).hi;
                if hi < k {
                    return a;
                }
                let need = (128 - hi.leading_zeros()).max(128 - k.leading_zeros()).max(1) as u16;
                if need < w {
                    let x = self.extract(a, need - 1, 0);
                    let y = self.cst(k, need);
                    let d = self.urem(x, y);
                    return self.zext(d, w);
                }
            }
        }
        if let Some(r) = self.try_leaves(Op::URem, a, b) {
            return r;
        }
        self.mk(Op::URem, w, a, b, 0)
    }

    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::SDiv, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::SDiv, a, b) {
            return r;
        }
        let sb = 1u128 << (w - 1);
        if self.inf(a).kz & sb != 0 && self.inf(b).kz & sb != 0 {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::SRem, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::SRem, a, b) {
            return r;
        }
        let sb = 1u128 << (w - 1);
        if self.inf(a).kz & sb != 0 && self.inf(b).kz & sb != 0 {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a, b, 0)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(u128::MAX, w);
        self.xor(a, m)
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if self.raw {
            return self.mk(Op::And, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::And, a, b) {
            return r;
        }
        if a == b {
            return a;
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        let m = mask(w);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return b;
            }
            if k == m {
                return a;
            }
            // bits cleared by the mask that are already zero do not matter
            let ia = *self.inf(a);
            if (ia.kz | k) == m {
                return a;
            }
            let na = self.n(a);
            if na.op == Op::And {
                if let Some(k2) = self.as_const(na.b) {
                    let kk = self.cst(k & k2, w);
                    return self.and(na.a, kk);
                }
            }
            if let Some(r) = self.try_leaves(Op::And, a, b) {
                return r;
            }
            // contiguous run of ones: a field extraction
            let tz = k.trailing_zeros();
            let run = (!(k >> tz)).trailing_zeros();
            if (k >> tz) == mask(run as u16) {
                let lo = tz as u16;
                let hi = lo + run as u16 - 1;
                let mid = self.extract(a, hi, lo);
                return self.place(mid, lo, w);
            }
            return self.split_const(Op::And, a, b);
        }
        if w == 1 {
            if self.is_compl(a, b) {
                return self.fals;
            }
            // absorption: a & (a & x)
            let nb = self.n(b);
            let na = self.n(a);
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return a;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return b;
            }
            // a & (!a | x) = a & x
            if nb.op == Op::Or {
                if self.is_compl(nb.a, a) {
                    return self.and(a, nb.b);
                }
                if self.is_compl(nb.b, a) {
                    return self.and(a, nb.a);
                }
            }
            if na.op == Op::Or {
                if self.is_compl(na.a, b) {
                    return self.and(b, na.b);
                }
                if self.is_compl(na.b, b) {
                    return self.and(b, na.a);
                }
            }
            return self.mk(Op::And, 1, a, b, 0);
        }
        let (ia, ib) = (*self.inf(a), *self.inf(b));
        if (ia.kz | ib.kz) == m {
            return self.cst(0, w);
        }
        // x & mask where x's possible bits are covered by ones known in mask
        if (ia.kz | ib.ko) == m {
            return a;
        }
        if (ib.kz | ia.ko) == m {
            return b;
        }
        if let Some(r) = self.split_bitwise(Op::And, a, b) {
            return r;
        }
        self.mk(Op::And, w, a, b, 0)
    }

    /// zero-extend `x` to `w` bits after shifting it left by `lo`
    fn place(&mut self, x: E, lo: u16, w: u16) -> E {
        let r = if lo > 0 {
            let z = self.cst(0, lo);
            self.concat(x, z)
        } else {
            x
        };
        self.zext(r, w)
    }

    /// bitwise op with a constant: split a concat/zext operand so that parts fold
    fn split_const(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let na = self.n(a);
        match na.op {
            Op::Concat => {
                let wl = self.w(na.b);
                let kh = self.extract(b, w - 1, wl);
                let kl = self.extract(b, wl - 1, 0);
                let h = self.bin(op, na.a, kh);
                let l = self.bin(op, na.b, kl);
                self.concat(h, l)
            }
            Op::ZExt => {
                let wl = self.w(na.a);
                let kh = self.extract(b, w - 1, wl);
                let kl = self.extract(b, wl - 1, 0);
                let z = self.cst(0, w - wl);
                let h = self.bin(op, z, kh);
                let l = self.bin(op, na.a, kl);
                self.concat(h, l)
            }
            _ => self.mk(op, w, a, b, 0),
        }
    }

    fn cut_point(&self, a: E) -> Option<u16> {
        let n = self.n(a);
        match n.op {
            Op::Concat => Some(self.w(n.b)),
            Op::ZExt => Some(self.w(n.a)),
            _ => None,
        }
    }

    /// or/and/xor of terms whose parts are constant zero on one side of a cut
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        for cut in [self.cut_point(a), self.cut_point(b)].into_iter().flatten() {
            let lm = mask(cut);
            let hm = mask(w) & !lm;
            let (ia, ib) = (self.inf(a), self.inf(b));
            let known = |i: &Info, m: u128| (i.kz | i.ko) & m == m;
            if known(ia, lm) || known(ib, lm) || known(ia, hm) || known(ib, hm) {
                let ah = self.extract(a, w - 1, cut);
                let al = self.extract(a, cut - 1, 0);
                let bh = self.extract(b, w - 1, cut);
                let bl = self.extract(b, cut - 1, 0);
                let h = self.bin(op, ah, bh);
                let l = self.bin(op, al, bl);
                return Some(self.concat(h, l));
            }
        }
        None
    }

    pub fn is_compl(&self, a: E, b: E) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        let m = mask(na.w);
        (na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(m))
            || (nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(m))
    }

    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if self.raw {
            return self.mk(Op::Or, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::Or, a, b) {
            return r;
        }
        if a == b {
            return a;
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        let m = mask(w);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            if k == m {
                return b;
            }
            if let Some(r) = self.try_leaves(Op::Or, a, b) {
                return r;
            }
            return self.split_const(Op::Or, a, b);
        }
        if w == 1 {
            if self.is_compl(a, b) {
                return self.tru;
            }
            let na = self.n(a);
            let nb = self.n(b);
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return a;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return b;
            }
            // a | (!a & x) = a | x
            if nb.op == Op::And {
                if self.is_compl(nb.a, a) {
                    return self.or(a, nb.b);
                }
                if self.is_compl(nb.b, a) {
                    return self.or(a, nb.a);
                }
            }
            if na.op == Op::And {
                if self.is_compl(na.a, b) {
                    return self.or(b, na.b);
                }
                if self.is_compl(na.b, b) {
                    return self.or(b, na.a);
                }
            }
            // (c & x) | (!c & x) = x
            if na.op == Op::And && nb.op == Op::And {
                for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                    for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if q == s && self.is_compl(p, r) {
                            return q;
                        }
                    }
                }
            }
            return self.mk(Op::Or, 1, a, b, 0);
        }
        if let Some(r) = self.split_bitwise(Op::Or, a, b) {
            return r;
        }
        self.mk(Op::Or, w, a, b, 0)
    }

    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if self.raw {
            return self.mk(Op::Xor, w, a, b, 0);
        }
        if let Some(r) = self.fold(Op::Xor, a, b) {
            return r;
        }
        if a == b {
            return self.cst(0, w);
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            let na = self.n(a);
            if na.op == Op::Xor {
                if let Some(k2) = self.as_const(na.b) {
                    let kk = self.cst(k ^ k2, w);
                    return self.xor(na.a, kk);
                }
            }
            if let Some(r) = self.try_leaves(Op::Xor, a, b) {
                return r;
            }
            if w > 1 {
                return self.split_const(Op::Xor, a, b);
            }
            return self.mk(Op::Xor, w, a, b, 0);
        }
        let na = self.n(a);
        let nb = self.n(b);
        // pull complements out
        if na.op == Op::Xor && self.is_const(na.b) {
            let x = self.xor(na.a, b);
            return self.xor(x, na.b);
        }
        if nb.op == Op::Xor && self.is_const(nb.b) {
            let x = self.xor(a, nb.a);
            return self.xor(x, nb.b);
        }
        if na.op == Op::Xor && (na.a == b || na.b == b) {
            return if na.a == b { na.b } else { na.a };
        }
        if nb.op == Op::Xor && (nb.a == a || nb.b == a) {
            return if nb.a == a { nb.b } else { nb.a };
        }
        if w > 1 {
            if let Some(r) = self.split_bitwise(Op::Xor, a, b) {
                return r;
            }
        }
        self.mk(Op::Xor, w, a, b, 0)
    }

    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::Shl, w, a, b, 0);
        }
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let k = k as u16;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, w - 1 - k, 0);
            let z = self.cst(0, k);
            return self.concat(x, z);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        if self.inf(b).lo >= w as u128 {
            return self.cst(0, w);
        }
        if let Some(r) = self.try_leaves(Op::Shl, a, b) {
            return r;
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::LShr, w, a, b, 0);
        }
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let k = k as u16;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, w - 1, k);
            return self.zext(x, w);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        if self.inf(b).lo >= w as u128 {
            return self.cst(0, w);
        }
        if let Some(r) = self.try_leaves(Op::LShr, a, b) {
            return r;
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::AShr, w, a, b, 0);
        }
        if self.inf(a).kz & (1u128 << (w - 1)) != 0 {
            return self.lshr(a, b);
        }
        if let Some(k) = self.as_const(b) {
            let k = k.min(w as u128 - 1) as u16;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, w - 1, k);
            return self.sext(x, w);
        }
        if let Some(r) = self.fold(Op::AShr, a, b) {
            return r;
        }
        if let Some(r) = self.try_leaves(Op::AShr, a, b) {
            return r;
        }
        self.mk(Op::AShr, w, a, b, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "eq width");
        if self.raw {
            return self.mk(Op::Eq, 1, a, b, 0);
        }
        if a == b {
            return self.tru;
        }
        if let Some(r) = self.fold(Op::Eq, a, b) {
            return r;
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        let (ia, ib) = (*self.inf(a), *self.inf(b));
        if ia.hi < ib.lo || ib.hi < ia.lo || (ia.kz & ib.ko) != 0 || (ia.ko & ib.kz) != 0 {
            return self.fals;
        }
        if w == 1 {
            if let Some(k) = self.as_const(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if self.is_compl(a, b) {
            return self.fals;
        }
        let na = self.n(a);
        let nb = self.n(b);
        if let Some(k) = self.as_const(b) {
            match na.op {
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.cst(k >> wl, w - wl);
                    let kl = self.cst(k, wl);
                    let h = self.eq(na.a, kh);
                    let l = self.eq(na.b, kl);
                    return self.and(h, l);
                }
                Op::ZExt => {
                    let wl = self.w(na.a);
                    let kl = self.cst(k, wl);
                    return self.eq(na.a, kl);
                }
                Op::SExt => {
                    let wl = self.w(na.a);
                    let kl = self.cst(k, wl);
                    if sext_val(k & mask(wl), wl) as u128 & mask(w) != k {
                        return self.fals;
                    }
                    return self.eq(na.a, kl);
                }
                Op::Add => {
                    if self.is_const(na.b) {
                        let kk = self.sub(b, na.b);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Sub => {
                    if self.is_const(na.a) {
                        let kk = self.sub(na.a, b);
                        return self.eq(na.b, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Xor => {
                    if self.is_const(na.b) {
                        let kk = self.xor(b, na.b);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or => {
                    if k == 0 {
                        let x = self.eq(na.a, b);
                        let y = self.eq(na.b, b);
                        return self.and(x, y);
                    }
                }
                Op::Ite => {
                    // push when at least one arm decides
                    let x = self.eq(na.b, b);
                    let y = self.eq(na.c, b);
                    if self.is_const(x) || self.is_const(y) {
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            if let (Some(ca), Some(cb)) = (self.cut_point(a), self.cut_point(b)) {
                if ca == cb {
                    let ah = self.extract(a, w - 1, ca);
                    let al = self.extract(a, ca - 1, 0);
                    let bh = self.extract(b, w - 1, ca);
                    let bl = self.extract(b, ca - 1, 0);
                    let h = self.eq(ah, bh);
                    if h == self.fals {
                        return h;
                    }
                    let l = self.eq(al, bl);
                    return self.and(h, l);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let c = ca.max(cb);
                    let al = self.extract(a, c - 1, 0);
                    let bl = self.extract(b, c - 1, 0);
                    return self.eq(al, bl);
                }
            }
            // x + y == x + z
            if na.op == Op::Add && nb.op == Op::Add {
                for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                    for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if p == r {
                            return self.eq(q, s);
                        }
                    }
                }
            }
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                let x = self.eq(na.b, nb.b);
                let y = self.eq(na.c, nb.c);
                return self.ite(na.a, x, y);
            }
            if na.op == Op::Ite && (na.b == b || na.c == b) {
                let x = self.eq(na.b, b);
                let y = self.eq(na.c, b);
                return self.ite(na.a, x, y);
            }
            if nb.op == Op::Ite && (nb.b == a || nb.c == a) {
                let x = self.eq(a, nb.b);
                let y = self.eq(a, nb.c);
                return self.ite(nb.a, x, y);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "ult width");
        if self.raw {
            return self.mk(Op::Ult, 1, a, b, 0);
        }
        if a == b {
            return self.fals;
        }
        if let Some(r) = self.fold(Op::Ult, a, b) {
            return r;
        }
        let (ia, ib) = (*self.inf(a), *self.inf(b));
        if ia.hi < ib.lo {
            return self.tru;
        }
        if ia.lo >= ib.hi {
            return self.fals;
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(r) = self.try_leaves(Op::Ult, a, b) {
            return r;
        }
        // strip common leading zeros
        let m = mask(w);
        let lead = |i: &Info| (((!i.kz) & m) << (128 - w as u32)).leading_zeros().min(w as u32) as u16;
        let z = lead(&ia).min(lead(&ib));
        if z > 0 && z < w {
            let x = self.extract(a, w - 1 - z, 0);
            let y = self.extract(b, w - 1 - z, 0);
            if self.w(x) < w {
                return self.ult(x, y);
            }
        }
        if let Some(k) = self.as_const(b) {
            if k.is_power_of_two() {
                let t = k.trailing_zeros() as u16;
                let h = self.extract(a, w - 1, t);
                let zz = self.cst(0, w - t);
                return self.eq(h, zz);
            }
        }
        if let Some(k) = self.as_const(a) {
            if (k + 1).is_power_of_two() && k < m {
                let t = (k + 1).trailing_zeros() as u16;
                let h = self.extract(b, w - 1, t);
                let zz = self.cst(0, w - t);
                let e = self.eq(h, zz);
                return self.not(e);
            }
        }
        // same low or high part
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            if na.b == nb.b {
                return self.ult(na.a, nb.a);
            }
            if na.a == nb.a {
                return self.ult(na.b, nb.b);
            }
        }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::Slt, 1, a, b, 0);
        }
        if a == b {
            return self.fals;
        }
        if let Some(r) = self.fold(Op::Slt, a, b) {
            return r;
        }
        let sb = 1u128 << (w - 1);
        let (ia, ib) = (*self.inf(a), *self.inf(b));
        let sa = (ia.kz & sb != 0, ia.ko & sb != 0);
        let sbb = (ib.kz & sb != 0, ib.ko & sb != 0);
        if (sa.0 && sbb.0) || (sa.1 && sbb.1) {
            return self.ult(a, b);
        }
        if sa.0 && sbb.1 {
            return self.fals;
        }
        if sa.1 && sbb.0 {
            return self.tru;
        }
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.as_const(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, w - 1);
            return self.not(s);
        }
        if let Some(r) = self.try_leaves(Op::Slt, a, b) {
            return r;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "ite width");
        if self.raw {
            return self.mk(Op::Ite, w, c, a, b);
        }
        if a == b || c == self.tru {
            return a;
        }
        if c == self.fals {
            return b;
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            if a == self.tru || a == c {
                return self.or(c, b);
            }
            if b == self.fals || b == c {
                return self.and(c, a);
            }
            if a == self.fals {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == self.tru {
                let n = self.not(c);
                return self.or(n, a);
            }
            if self.is_compl(a, b) {
                // ite(c, a, !a) = (c == a)
                let x = self.xor(c, a);
                return self.not(x);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite {
            if na.a == c {
                return self.ite(c, na.b, b);
            }
            if na.c == b {
                let cc = self.and(c, na.a);
                return self.ite(cc, na.b, b);
            }
            if na.b == b {
                // ite(c, ite(d, b, y), b) = ite(c & !d, y, b)
                let nd = self.not(na.a);
                let cc = self.and(c, nd);
                return self.ite(cc, na.c, b);
            }
        }
        if nb.op == Op::Ite {
            if nb.a == c {
                return self.ite(c, a, nb.c);
            }
            if nb.b == a {
                let cc = self.or(c, nb.a);
                return self.ite(cc, a, nb.c);
            }
            if nb.c == a {
                // ite(c, a, ite(d, x, a)) = ite(!c & d, x, a)
                let nn = self.not(c);
                let cc = self.and(nn, nb.a);
                return self.ite(cc, nb.b, a);
            }
        }
        // shared zero extension (keeps bytes/bools narrow)
        if na.op == Op::ZExt || nb.op == Op::ZExt {
            let cut = match (na.op == Op::ZExt, nb.op == Op::ZExt) {
                (true, true) => self.w(na.a).max(self.w(nb.a)),
                (true, false) => self.w(na.a),
                _ => self.w(nb.a),
            };
            let hm = mask(w) & !mask(cut);
            if self.inf(a).kz & hm == hm && self.inf(b).kz & hm == hm {
                let x = self.extract(a, cut - 1, 0);
                let y = self.extract(b, cut - 1, 0);
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        // shared concat halves
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            if na.b == nb.b || na.a == nb.a {
                let h = self.ite(c, na.a, nb.a);
                let l = self.ite(c, na.b, nb.b);
                return self.concat(h, l);
            }
        }
        self.mk(Op::Ite, w, c, a, b)
    }

    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        if self.raw {
            return self.mk(Op::Concat, w, a, b, 0);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst((x << wb) | y, w);
        }
        if self.as_const(a) == Some(0) {
            return self.zext(b, w);
        }
        let na = self.n(a);
        match na.op {
            Op::ZExt => {
                let x = self.concat(na.a, b);
                return self.zext(x, w);
            }
            Op::Concat => {
                let x = self.concat(na.b, b);
                return self.concat(na.a, x);
            }
            _ => {}
        }
        let nb = self.n(b);
        // adjacent extracts of the same term
        let part = |c: &Ctx, e: E| -> (E, u16, u16) {
            let n = c.n(e);
            if n.op == Op::Extract {
                (n.a, n.b as u16, n.b as u16 + n.w - 1)
            } else {
                (e, 0, n.w - 1)
            }
        };
        let (sa, la, ha) = part(self, a);
        let (head, rest) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        let (sh, lh, hh) = part(self, head);
        if sa == sh && la == hh + 1 {
            let x = self.extract(sa, ha, lh);
            return match rest {
                Some(r) => self.concat(x, r),
                None => x,
            };
        }
        // constant next to constant
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(head)) {
            if let Some(r) = rest {
                let k = self.cst((x << self.w(head)) | y, wa + self.w(head));
                return self.concat(k, r);
            }
        }
        self.mk(Op::Concat, w, a, b, 0)
    }

    pub fn extract(&mut self, a: E, hi: u16, lo: u16) -> E {
        let wa = self.w(a);
        assert!(hi >= lo && hi < wa, "extract [{hi}:{lo}] of {wa}");
        let w = hi - lo + 1;
        if w == wa {
            return a;
        }
        if self.raw {
            return self.mk(Op::Extract, w, a, lo as u32, 0);
        }
        if matches!(self.n(a).op, Op::Ite | Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul) {
            // a DAG: without a memo the recursion visits every path through it
            if let Some(r) = self.memo_extract.get(&(a, hi, lo)) {
                return *r;
            }
            let r = self.extract1(a, hi, lo);
            self.memo_extract.insert((a, hi, lo), r);
            return r;
        }
        self.extract1(a, hi, lo)
    }

    fn extract1(&mut self, a: E, hi: u16, lo: u16) -> E {
        let w = hi - lo + 1;
        let n = self.n(a);
        let i = *self.inf(a);
        // known bits decide
        let m = mask(w);
        if ((i.kz | i.ko) >> lo) & m == m {
            return self.cst(i.ko >> lo, w);
        }
        match n.op {
            Op::Const => return self.cst(n.val >> lo, w),
            Op::Extract => return self.extract(n.a, hi + n.b as u16, lo + n.b as u16),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, hi - wl, lo - wl);
                }
                if hi < wl {
                    return self.extract(n.b, hi, lo);
                }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wl = self.w(n.a);
                if lo >= wl {
                    return self.cst(0, w);
                }
                if hi < wl {
                    return self.extract(n.a, hi, lo);
                }
                let l = self.extract(n.a, wl - 1, lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wl = self.w(n.a);
                if hi < wl {
                    return self.extract(n.a, hi, lo);
                }
                if lo < wl {
                    let l = self.extract(n.a, wl - 1, lo);
                    return self.sext(l, w);
                }
                let s = self.extract(n.a, wl - 1, wl - 1);
                return self.sext(s, w);
            }
            Op::Ite => {
                if n.w as u32 <= 128 && (self.is_const(n.b) || self.is_const(n.c) || i.leaves > 0) {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
                let (bo, co) = (self.n(n.b).op, self.n(n.c).op);
                let easy = |o: Op| matches!(o, Op::Concat | Op::ZExt | Op::Const | Op::Extract | Op::Ite);
                if easy(bo) && easy(co) {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul => {
                if lo == 0 {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo as u32, 0)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        assert!(w >= wa);
        if w == wa {
            return a;
        }
        if self.raw {
            return self.mk(Op::ZExt, w, a, 0, 0);
        }
        if let Some(k) = self.as_const(a) {
            return self.cst(k, w);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        assert!(w >= wa);
        if w == wa {
            return a;
        }
        if self.raw {
            return self.mk(Op::SExt, w, a, 0, 0);
        }
        if let Some(k) = self.as_const(a) {
            return self.cst(sext_val(k, wa) as u128, w);
        }
        if self.inf(a).kz & (1u128 << (wa - 1)) != 0 {
            return self.zext(a, w);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E {
        self.extract(a, w - 1, 0)
    }
    pub fn resize(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            a
        } else if wa < w {
            self.zext(a, w)
        } else {
            self.trunc(a, w)
        }
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        if n.op == Op::Const {
            return format!("{:#x}:{}", n.val, n.w);
        }
        if n.op == Op::Var {
            return format!("{}:{}", self.var_names[n.val as usize], n.w);
        }
        if depth == 0 {
            return format!("#{e}");
        }
        let mut s = format!("({:?}:{}", n.op, n.w);
        if n.op == Op::Extract {
            s += &format!("[{}..{}]", n.b as u16 + n.w - 1, n.b);
        }
        for i in 0..Self::nargs(n.op) {
            let x = [n.a, n.b, n.c][i];
            s += " ";
            s += &self.show(x, depth - 1);
        }
        s + ")"
    }
}

pub fn eval_bin(op: Op, x: u128, y: u128, w: u16) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext_val(x, w), sext_val(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext_val(x, w), sext_val(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext_val(x, w);
            let k = y.min(w as u128 - 1) as u32;
            (s >> k) as u128
        }
        Op::Eq => return (x == y) as u128,
        Op::Ult => return (x < y) as u128,
        Op::Slt => return (sext_val(x, w) < sext_val(y, w)) as u128,
        _ => unreachable!(),
    };
    r & m
}

/// An assignment of the variables, with memoised evaluation.
pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: RefCell<HashMap<E, u128, FastHash>>,
}

impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Self {
        Model { vals, memo: RefCell::new(HashMap::default()) }
    }
    pub fn eval(&self, c: &Ctx, e: E) -> u128 {
        let mut memo = self.memo.borrow_mut();
        eval_memo(c, e, &self.vals, &mut memo)
    }
}

pub fn eval_memo(c: &Ctx, e: E, vals: &HashMap<u32, u128>, memo: &mut HashMap<E, u128, FastHash>) -> u128 {
    let n = c.n(e);
    match n.op {
        Op::Const => return n.val,
        Op::Var => return vals.get(&(n.val as u32)).cloned().unwrap_or(0) & mask(n.w),
        _ => {}
    }
    if let Some(v) = memo.get(&e) {
        return *v;
    }
    let m = mask(n.w);
    let r = match n.op {
        Op::Ite => {
            if eval_memo(c, n.a, vals, memo) == 1 {
                eval_memo(c, n.b, vals, memo)
            } else {
                eval_memo(c, n.c, vals, memo)
            }
        }
        Op::Concat => {
            let x = eval_memo(c, n.a, vals, memo);
            let y = eval_memo(c, n.b, vals, memo);
            (x << c.w(n.b)) | y
        }
        Op::Extract => (eval_memo(c, n.a, vals, memo) >> n.b) & m,
        Op::ZExt => eval_memo(c, n.a, vals, memo),
        Op::SExt => sext_val(eval_memo(c, n.a, vals, memo), c.w(n.a)) as u128 & m,
        op => {
            let x = eval_memo(c, n.a, vals, memo);
            let y = eval_memo(c, n.b, vals, memo);
            eval_bin(op, x, y, c.w(n.a))
        }
    };
    memo.insert(e, r);
    r
}
