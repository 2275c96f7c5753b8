//! Z3 back end: terms are translated to Z3 ASTs once and cached.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type Ast = *mut c_void;
type Ctxt = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

macro_rules! api {
    ($($name:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Option<Api> {
                Some(Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { return None; }
                    std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($a),*) $(-> $r)?>(p)
                },)* })
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> *mut c_void;
    Z3_set_param_value: fn(*mut c_void, *const c_char, *const c_char);
    Z3_mk_context_rc: fn(*mut c_void) -> Ctxt;
    Z3_set_error_handler: fn(Ctxt, *mut c_void);
    Z3_get_error_code: fn(Ctxt) -> c_int;
    Z3_inc_ref: fn(Ctxt, Ast);
    Z3_mk_solver_for_logic: fn(Ctxt, *mut c_void) -> *mut c_void;
    Z3_solver_inc_ref: fn(Ctxt, *mut c_void);
    Z3_solver_reset: fn(Ctxt, *mut c_void);
    Z3_solver_assert: fn(Ctxt, *mut c_void, Ast);
    Z3_solver_check: fn(Ctxt, *mut c_void) -> c_int;
    Z3_solver_get_model: fn(Ctxt, *mut c_void) -> *mut c_void;
    Z3_model_inc_ref: fn(Ctxt, *mut c_void);
    Z3_model_dec_ref: fn(Ctxt, *mut c_void);
    Z3_model_eval: fn(Ctxt, *mut c_void, Ast, bool, *mut Ast) -> bool;
    Z3_get_numeral_string: fn(Ctxt, Ast) -> *const c_char;
    Z3_get_bool_value: fn(Ctxt, Ast) -> c_int;
    Z3_mk_string_symbol: fn(Ctxt, *const c_char) -> *mut c_void;
    Z3_mk_bv_sort: fn(Ctxt, c_uint) -> *mut c_void;
    Z3_mk_bool_sort: fn(Ctxt) -> *mut c_void;
    Z3_mk_const: fn(Ctxt, *mut c_void, *mut c_void) -> Ast;
    Z3_mk_numeral: fn(Ctxt, *const c_char, *mut c_void) -> Ast;
    Z3_mk_unsigned_int64: fn(Ctxt, u64, *mut c_void) -> Ast;
    Z3_mk_true: fn(Ctxt) -> Ast;
    Z3_mk_false: fn(Ctxt) -> Ast;
    Z3_mk_eq: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_not: fn(Ctxt, Ast) -> Ast;
    Z3_mk_ite: fn(Ctxt, Ast, Ast, Ast) -> Ast;
    Z3_mk_xor: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_and: fn(Ctxt, c_uint, *const Ast) -> Ast;
    Z3_mk_or: fn(Ctxt, c_uint, *const Ast) -> Ast;
    Z3_mk_bvadd: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvsub: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvmul: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvudiv: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvsdiv: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvurem: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvsrem: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvand: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvor: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvxor: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvshl: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvlshr: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvashr: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvult: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_bvslt: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_concat: fn(Ctxt, Ast, Ast) -> Ast;
    Z3_mk_extract: fn(Ctxt, c_uint, c_uint, Ast) -> Ast;
    Z3_mk_zero_ext: fn(Ctxt, c_uint, Ast) -> Ast;
    Z3_mk_sign_ext: fn(Ctxt, c_uint, Ast) -> Ast;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_global_param_set: fn(*const c_char, *const c_char);
    Z3_solver_to_string: fn(Ctxt, *mut c_void) -> *const c_char;
}

fn is_heavy(op: Op) -> bool {
    matches!(op, Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem)
}

fn kids(n: &Node) -> [Option<E>; 3] {
    match n.op {
        Op::Const | Op::Var => [None; 3],
        Op::Extract | Op::ZExt | Op::SExt => [Some(n.a), None, None],
        Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
        _ => [Some(n.a), Some(n.b), None],
    }
}

pub enum Res {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    api: Api,
    cx: Ctxt,
    solver: *mut c_void,
    /// translations: exact, and with products and quotients cut out
    cache: [HashMap<E, Ast, FastHash>; 2],
    cut: usize,
    heavy: HashMap<E, bool, FastHash>,
    pub cut_unsat: u64,
    pub cut_tried: u64,
    qcache: HashMap<Vec<E>, Option<HashMap<u32, u128>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub slowest: f64,
    pub version: String,
    pub slow_log: Option<f64>,
    pub dump_dir: Option<String>,
}

const CANDIDATES: &[&str] = &[
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so.4",
    "libz3.so",
];

impl Z3 {
    pub fn new(timeout_ms: u64, seed: u64) -> Z3 {
        unsafe {
            let mut cands: Vec<String> = vec![];
            if let Ok(p) = std::env::var("BAASYM_Z3") {
                cands.push(p);
            }
            cands.extend(CANDIDATES.iter().map(|s| s.to_string()));
            let api = cands
                .iter()
                .find_map(|p| {
                    let n = CString::new(p.as_str()).unwrap();
                    let h = dlopen(n.as_ptr(), 2);
                    if h.is_null() {
                        None
                    } else {
                        Api::load(h)
                    }
                })
                .expect("libz3 not found");
            for k in ["sat.random_seed", "smt.random_seed"] {
                let (k, v) = (CString::new(k).unwrap(), CString::new((seed % 1_000_000).to_string()).unwrap());
                (api.Z3_global_param_set)(k.as_ptr(), v.as_ptr());
            }
            let cfg = (api.Z3_mk_config)();
            let set = |k: &str, v: &str| {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                (api.Z3_set_param_value)(cfg, k.as_ptr(), v.as_ptr());
            };
            set("timeout", &timeout_ms.to_string());
            set("model", "true");
            let cx = (api.Z3_mk_context_rc)(cfg);
            (api.Z3_set_error_handler)(cx, std::ptr::null_mut());
            let l = CString::new("QF_BV").unwrap();
            let sym = (api.Z3_mk_string_symbol)(cx, l.as_ptr());
            let solver = (api.Z3_mk_solver_for_logic)(cx, sym);
            (api.Z3_solver_inc_ref)(cx, solver);
            let version = CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().into_owned();
            Z3 {
                api,
                cx,
                solver,
                cache: Default::default(),
                cut: 0,
                heavy: Default::default(),
                cut_unsat: 0,
                cut_tried: 0,
                qcache: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                time: 0.0,
                slowest: 0.0,
                version,
                slow_log: std::env::var("BAASYM_SLOW").ok().and_then(|x| x.parse().ok()),
                dump_dir: std::env::var("BAASYM_DUMP").ok(),
            }
        }
    }

    unsafe fn keep(&mut self, a: Ast) -> Ast {
        assert!(!a.is_null(), "z3 error {}", (self.api.Z3_get_error_code)(self.cx));
        (self.api.Z3_inc_ref)(self.cx, a);
        a
    }

    unsafe fn bvnum(&mut self, v: u128, w: u16) -> Ast {
        let s = (self.api.Z3_mk_bv_sort)(self.cx, w as c_uint);
        let a = if w <= 64 {
            (self.api.Z3_mk_unsigned_int64)(self.cx, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            (self.api.Z3_mk_numeral)(self.cx, t.as_ptr(), s)
        };
        self.keep(a)
    }

    /// the term as a bit-vector AST (width-1 terms are Bools internally)
    unsafe fn bv(&mut self, c: &Ctx, e: E) -> Ast {
        let a = self.tr(c, e);
        if c.w(e) != 1 {
            return a;
        }
        let one = self.bvnum(1, 1);
        let zero = self.bvnum(0, 1);
        let r = (self.api.Z3_mk_ite)(self.cx, a, one, zero);
        self.keep(r)
    }

    unsafe fn tr(&mut self, c: &Ctx, root: E) -> Ast {
        if let Some(a) = self.cache[self.cut].get(&root) {
            return *a;
        }
        // iterative post-order so that deep terms do not overflow the stack
        let mut stack = vec![(root, false)];
        while let Some((e, done)) = stack.pop() {
            if self.cache[self.cut].contains_key(&e) {
                continue;
            }
            let n = c.n(e);
            if self.cut == 1 && is_heavy(n.op) && n.w > 1 {
                let nm = CString::new(format!("cut{e}")).unwrap();
                let sym = (self.api.Z3_mk_string_symbol)(self.cx, nm.as_ptr());
                let a = (self.api.Z3_mk_const)(self.cx, sym, (self.api.Z3_mk_bv_sort)(self.cx, n.w as c_uint));
                let a = self.keep(a);
                self.cache[1].insert(e, a);
                continue;
            }
            if !done {
                stack.push((e, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Extract | Op::ZExt | Op::SExt => stack.push((n.a, false)),
                    Op::Ite => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                        stack.push((n.c, false));
                    }
                    _ => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                    }
                }
                continue;
            }
            let a = self.node(c, e, n);
            let a = self.keep(a);
            self.cache[self.cut].insert(e, a);
        }
        self.cache[self.cut][&root]
    }

    unsafe fn node(&mut self, c: &Ctx, _e: E, n: Node) -> Ast {
        let cx = self.cx;
        match n.op {
            Op::Const => {
                if n.w == 1 {
                    if n.val == 1 {
                        (self.api.Z3_mk_true)(cx)
                    } else {
                        (self.api.Z3_mk_false)(cx)
                    }
                } else {
                    self.bvnum(n.val, n.w)
                }
            }
            Op::Var => {
                let nm = CString::new(format!("v{}", n.val)).unwrap();
                let sym = (self.api.Z3_mk_string_symbol)(cx, nm.as_ptr());
                let sort = if n.w == 1 { (self.api.Z3_mk_bool_sort)(cx) } else { (self.api.Z3_mk_bv_sort)(cx, n.w as c_uint) };
                (self.api.Z3_mk_const)(cx, sym, sort)
            }
            Op::Eq => {
                let (a, b) = (self.tr(c, n.a), self.tr(c, n.b));
                (self.api.Z3_mk_eq)(cx, a, b)
            }
            Op::Ult => {
                let (a, b) = (self.bv(c, n.a), self.bv(c, n.b));
                (self.api.Z3_mk_bvult)(cx, a, b)
            }
            Op::Slt => {
                let (a, b) = (self.bv(c, n.a), self.bv(c, n.b));
                (self.api.Z3_mk_bvslt)(cx, a, b)
            }
            Op::Ite => {
                let (x, a, b) = (self.tr(c, n.a), self.tr(c, n.b), self.tr(c, n.c));
                (self.api.Z3_mk_ite)(cx, x, a, b)
            }
            Op::And | Op::Or | Op::Xor if n.w == 1 => {
                if n.op == Op::Xor && c.as_const(n.b) == Some(1) {
                    let a = self.tr(c, n.a);
                    return (self.api.Z3_mk_not)(cx, a);
                }
                let v = [self.tr(c, n.a), self.tr(c, n.b)];
                match n.op {
                    Op::And => (self.api.Z3_mk_and)(cx, 2, v.as_ptr()),
                    Op::Or => (self.api.Z3_mk_or)(cx, 2, v.as_ptr()),
                    _ => (self.api.Z3_mk_xor)(cx, v[0], v[1]),
                }
            }
            _ => {
                let a = self.bv(c, n.a);
                let r = match n.op {
                    Op::Extract => (self.api.Z3_mk_extract)(cx, n.b + n.w as u32 - 1, n.b, a),
                    Op::ZExt => (self.api.Z3_mk_zero_ext)(cx, (n.w - c.w(n.a)) as c_uint, a),
                    Op::SExt => (self.api.Z3_mk_sign_ext)(cx, (n.w - c.w(n.a)) as c_uint, a),
                    _ => {
                        let b = self.bv(c, n.b);
                        let f = match n.op {
                            Op::Add => self.api.Z3_mk_bvadd,
                            Op::Sub => self.api.Z3_mk_bvsub,
                            Op::Mul => self.api.Z3_mk_bvmul,
                            Op::UDiv => self.api.Z3_mk_bvudiv,
                            Op::SDiv => self.api.Z3_mk_bvsdiv,
                            Op::URem => self.api.Z3_mk_bvurem,
                            Op::SRem => self.api.Z3_mk_bvsrem,
                            Op::And => self.api.Z3_mk_bvand,
                            Op::Or => self.api.Z3_mk_bvor,
                            Op::Xor => self.api.Z3_mk_bvxor,
                            Op::Shl => self.api.Z3_mk_bvshl,
                            Op::LShr => self.api.Z3_mk_bvlshr,
                            Op::AShr => self.api.Z3_mk_bvashr,
                            Op::Concat => self.api.Z3_mk_concat,
                            _ => unreachable!(),
                        };
                        f(cx, a, b)
                    }
                };
                let r = self.keep(r);
                if n.w == 1 {
                    let one = self.bvnum(1, 1);
                    (self.api.Z3_mk_eq)(cx, r, one)
                } else {
                    r
                }
            }
        }
    }

    /// does the term contain a product or quotient
    fn is_heavy(&mut self, c: &Ctx, root: E) -> bool {
        let mut stack = vec![(root, false)];
        while let Some((e, done)) = stack.pop() {
            if self.heavy.contains_key(&e) {
                continue;
            }
            let n = c.n(e);
            if is_heavy(n.op) && n.w > 1 {
                self.heavy.insert(e, true);
                continue;
            }
            let k = kids(&n);
            if !done {
                stack.push((e, true));
                stack.extend(k.into_iter().flatten().map(|x| (x, false)));
                continue;
            }
            let h = k.into_iter().flatten().any(|x| self.heavy[&x]);
            self.heavy.insert(e, h);
        }
        self.heavy[&root]
    }

    /// Is the conjunction unsatisfiable whatever its products and quotients are?
    unsafe fn check_cut(&mut self, c: &Ctx, key: &[E]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut cuts = vec![];
        let mut stack: Vec<E> = key.to_vec();
        while let Some(e) = stack.pop() {
            if !self.heavy[&e] || !seen.insert(e) {
                continue;
            }
            let n = c.n(e);
            if is_heavy(n.op) && n.w > 1 {
                cuts.push(e);
                continue;
            }
            stack.extend(kids(&n).into_iter().flatten());
        }
        self.cut = 1;
        (self.api.Z3_solver_reset)(self.cx, self.solver);
        for &e in key {
            let a = self.tr(c, e);
            (self.api.Z3_solver_assert)(self.cx, self.solver, a);
        }
        for e in cuts {
            let i = *c.inf(e);
            let a = self.tr(c, e);
            let (lo, hi) = (self.bvnum(i.lo, c.w(e)), self.bvnum(i.hi, c.w(e)));
            for (x, y) in [(a, lo), (hi, a)] {
                let l = (self.api.Z3_mk_bvult)(self.cx, x, y);
                let l = self.keep(l);
                let l = (self.api.Z3_mk_not)(self.cx, l);
                (self.api.Z3_solver_assert)(self.cx, self.solver, l);
            }
        }
        self.cut = 0;
        self.cut_tried += 1;
        let r = (self.api.Z3_solver_check)(self.cx, self.solver) == -1;
        self.cut_unsat += r as u64;
        r
    }

    /// Decide the conjunction of `conj` (all width 1).
    pub fn check(&mut self, c: &Ctx, conj: &[E]) -> Res {
        let mut key: Vec<E> = conj.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            self.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        unsafe {
            let t0 = Instant::now();
            let mut heavy = false;
            for &e in &key {
                heavy |= self.is_heavy(c, e);
            }
            let r = if heavy && self.check_cut(c, &key) {
                -1
            } else {
                (self.api.Z3_solver_reset)(self.cx, self.solver);
                for &e in &key {
                    let a = self.tr(c, e);
                    (self.api.Z3_solver_assert)(self.cx, self.solver, a);
                }
                (self.api.Z3_solver_check)(self.cx, self.solver)
            };
            self.queries += 1;
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = (self.api.Z3_solver_get_model)(self.cx, self.solver);
                    assert!(!m.is_null(), "model");
                    (self.api.Z3_model_inc_ref)(self.cx, m);
                    let mut vals = HashMap::new();
                    let mut vs: Vec<u32> = vec![];
                    for &e in &key {
                        vs.extend(c.vars(e).iter());
                    }
                    vs.sort_unstable();
                    vs.dedup();
                    for v in vs {
                        let (e, w) = c.var_expr(v);
                        let a = self.tr(c, e);
                        let mut out: Ast = std::ptr::null_mut();
                        let ok = (self.api.Z3_model_eval)(self.cx, m, a, true, &mut out);
                        assert!(ok, "model_eval");
                        (self.api.Z3_inc_ref)(self.cx, out);
                        let val = if w == 1 {
                            ((self.api.Z3_get_bool_value)(self.cx, out) == 1) as u128
                        } else {
                            let s = CStr::from_ptr((self.api.Z3_get_numeral_string)(self.cx, out)).to_string_lossy();
                            s.parse::<u128>().expect("numeral")
                        };
                        vals.insert(v, val);
                    }
                    (self.api.Z3_model_dec_ref)(self.cx, m);
                    Res::Sat(vals)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.slowest {
                self.slowest = dt;
            }
            if let Some(lim) = self.slow_log {
                if dt > lim {
                    eprintln!("slow query {dt:.2}s result {r} conj {}", key.len());
                }
            }
            if let Some(d) = &self.dump_dir {
                let s = CStr::from_ptr((self.api.Z3_solver_to_string)(self.cx, self.solver)).to_string_lossy();
                let verdict = match r {
                    1 => "sat",
                    -1 => "unsat",
                    _ => "unknown",
                };
                let _ = std::fs::write(format!("{d}/q{:05}.{verdict}.smt2", self.queries), format!("(set-logic QF_BV)\n{s}\n(check-sat)\n"));
            }
            match &res {
                Res::Sat(m) => {
                    self.qcache.insert(key, Some(m.clone()));
                }
                Res::Unsat => {
                    self.qcache.insert(key, None);
                }
                Res::Unknown => {}
            }
            res
        }
    }
}
