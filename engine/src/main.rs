//! baasym: symbolic execution of LLVM IR (emitted by rustc from the real code)
//! with Z3 deciding the properties.  See /verif/DESIGN.md.
mod exec;
mod expr;
mod ir;
mod z3;

use std::collections::{BTreeMap, BTreeSet};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2..]),
        Some("selftest") => selftest(args.get(2).and_then(|x| x.parse().ok()).unwrap_or(200_000)),
        _ => {
            eprintln!("usage: baasym run FILE.ll ENTRY [--timeout S] [--query-ms MS] [--param A,B,..] | baasym selftest [N]");
            2
        }
    }
}

fn run(a: &[String]) -> i32 {
    let (file, entry) = (&a[0], &a[1]);
    let mut timeout = 300;
    let mut query_ms = 60_000;
    let mut params = vec![];
    let mut seed = 0;
    let (mut pin, mut concrete) = (vec![], false);
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--timeout" => timeout = a[i + 1].parse().unwrap(),
            "--query-ms" => query_ms = a[i + 1].parse().unwrap(),
            "--seed" => seed = a[i + 1].parse().unwrap(),
            "--param" => params = a[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--pin" | "--concrete" => {
                pin = a[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                concrete = a[i] == "--concrete";
            }
            x => panic!("argument {x}"),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(file);
    let load = t0.elapsed().as_secs_f64();
    let t1 = std::time::Instant::now();
    let mut ex = exec::Exec::new(&m, timeout, query_ms, seed, params.clone());
    ex.pin = pin;
    ex.concrete = concrete;
    ex.run(entry);
    let secs = t1.elapsed().as_secs_f64();
    // source functions and lines of the repository that were encoded
    let mut fns: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut other: BTreeSet<String> = BTreeSet::new();
    for d in ex.dbg_seen.iter() {
        for (line, f, file) in m.locations(*d) {
            if file.starts_with("/repo/") {
                let short = file.trim_start_matches("/repo/").to_string();
                fns.entry(format!("{} [{}]", exec::demangle(&f), short)).or_default().insert(line);
                lines.entry(short).or_default().insert(line);
            } else if !f.is_empty() && (f.contains("smallvec") || f.contains("num_bigint") || f.contains("hashbrown") || f.contains("fraction")) {
                other.insert(exec::demangle(&f));
            }
        }
    }
    let st = &ex.stats;
    let mut o = String::new();
    o.push_str(&format!("{{\"entry\":{},\"params\":{:?},", js(entry), params));
    o.push_str(&format!(
        "\"violations\":{},",
        jl(ex.violations.iter(), |v| format!(
            "{{\"kind\":{},\"id\":{},\"msg\":{},\"loc\":{},\"inputs\":{}}}",
            js(&v.kind),
            v.id,
            js(&v.msg),
            jl(v.loc.iter(), |s| js(s)),
            jl(v.inputs.iter(), |x| format!("\"{x}\""))
        ))
    ));
    o.push_str(&format!("\"incomplete\":{},", jl(ex.incomplete.iter(), |s| js(s))));
    o.push_str(&format!("\"covers\":{:?},", ex.covers.iter().collect::<Vec<_>>()));
    o.push_str(&format!(
        "\"stats\":{{\"steps\":{},\"forks\":{},\"merges\":{},\"merge_failed\":{},\"paths\":{},\"expected_panics\":{},\"asserts\":{},\"asserts_trivial\":{},\"asserts_solver\":{},\"branch_points\":{},\"terms\":{},\"max_states\":{}}},",
        st.steps, st.forks, st.merges, st.merge_failed, st.paths, st.expected_panics, st.asserts, st.asserts_trivial, st.asserts_solver, st.branch_queries, ex.c.nodes.len(), st.max_states
    ));
    o.push_str(&format!(
        "\"solver\":{{\"version\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"time\":{:.3},\"slowest\":{:.3},\"validation_queries\":{}}},",
        js(&ex.z.version), ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.z.cached, ex.z.time, ex.z.slowest, ex.validation_queries
    ));
    o.push_str(&format!("\"load_seconds\":{load:.2},\"seconds\":{secs:.2},"));
    o.push_str(&format!(
        "\"ends\":{},",
        jl(ex.ends.iter(), |e| format!(
            "{{\"inputs\":{},\"traces\":{},\"panicked\":{}}}",
            jl(e.inputs.iter(), |x| format!("\"{x}\"")),
            jl(e.traces.iter(), |x| format!("\"{x}\"")),
            e.panicked
        ))
    ));
    o.push_str(&format!("\"functions\":{},", jl(fns.iter(), |(k, v)| format!("[{},{}]", js(k), v.len()))));
    o.push_str(&format!("\"abstractions\":{},", jl(ex.abstractions.iter(), |k| js(k))));
    o.push_str(&format!("\"dep_functions\":{},", other.len()));
    o.push_str(&format!("\"lines\":{{{}}}}}", lines.iter().map(|(k, v)| format!("{}:{:?}", js(k), v.iter().collect::<Vec<_>>())).collect::<Vec<_>>().join(",")));
    println!("{o}");
    if !ex.violations.is_empty() {
        1
    } else if !ex.incomplete.is_empty() {
        2
    } else {
        0
    }
}

/// Compare every term constructor with direct evaluation on random terms.
fn selftest(n: u64) -> i32 {
    use expr::*;
    let mut rng = 0x1234_5678_9abc_def1u64;
    let mut next = move || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng
    };
    let widths = [1u16, 8, 16, 32, 64, 128, 5, 3];
    let mut bad = 0;
    let mut total = 0u64;
    let mut round = 0;
    while total < n {
        round += 1;
        let mut c = Ctx::new();
        // pool of (simplified, value) per width; values under a fixed assignment
        let mut vals = std::collections::HashMap::new();
        let mut pool: Vec<E> = vec![];
        for (i, w) in widths.iter().enumerate() {
            for k in 0..2 {
                let v = c.var(&format!("v{i}_{k}"), *w);
                let id = c.n(v).val as u32;
                let mut x = ((next() as u128) << 64 | next() as u128) & mask(*w);
                match next() % 4 {
                    0 => x &= 3,
                    1 => x |= mask(*w) & !7,
                    _ => {}
                }
                vals.insert(id, x);
                pool.push(v);
            }
            for _ in 0..3 {
                let mut x = ((next() as u128) << 64 | next() as u128) & mask(*w);
                match next() % 5 {
                    0 => x = 0,
                    1 => x = 1 & mask(*w),
                    2 => x = mask(*w),
                    3 => x = (1u128 << (next() % *w as u64)) & mask(*w),
                    _ => {}
                }
                pool.push(c.cst(x, *w));
            }
        }
        let mut memo = std::collections::HashMap::default();
        for _ in 0..600 {
            let a = pool[(next() % pool.len() as u64) as usize];
            let w = c.w(a);
            let same: Vec<E> = pool.iter().cloned().filter(|e| c.w(*e) == w).collect();
            let b = same[(next() % same.len() as u64) as usize];
            let va = eval_memo(&c, a, &vals, &mut memo);
            let vb = eval_memo(&c, b, &vals, &mut memo);
            let bools: Vec<E> = pool.iter().cloned().filter(|e| c.w(*e) == 1).collect();
            let q = bools[(next() % bools.len() as u64) as usize];
            let vq = eval_memo(&c, q, &vals, &mut memo);
            let ops = [
                Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq,
                Op::Ult, Op::Slt, Op::Ite, Op::Concat, Op::Extract, Op::ZExt, Op::SExt, Op::Ite, Op::Extract, Op::And, Op::Shl, Op::LShr,
            ];
            let op = ops[(next() % ops.len() as u64) as usize];
            let (r, want) = match op {
                Op::Ite => (c.ite(q, a, b), if vq == 1 { va } else { vb }),
                Op::Concat => {
                    let d = pool[(next() % pool.len() as u64) as usize];
                    if w + c.w(d) > 128 {
                        continue;
                    }
                    let vd = eval_memo(&c, d, &vals, &mut memo);
                    (c.concat(a, d), (va << c.w(d)) | vd)
                }
                Op::Extract => {
                    let lo = (next() % w as u64) as u16;
                    let hi = lo + (next() % (w - lo) as u64) as u16;
                    (c.extract(a, hi, lo), (va >> lo) & mask(hi - lo + 1))
                }
                Op::ZExt | Op::SExt => {
                    let t = [8, 16, 32, 64, 128][(next() % 5) as usize];
                    if t < w {
                        continue;
                    }
                    if op == Op::ZExt {
                        (c.zext(a, t), va)
                    } else {
                        (c.sext(a, t), sext_val(va, w) as u128 & mask(t))
                    }
                }
                _ => (c.bin(op, a, b), eval_bin(op, va, vb, w)),
            };
            total += 1;
            let got = eval_memo(&c, r, &vals, &mut memo);
            let i = *c.inf(r);
            let m = mask(c.w(r));
            let info_ok = (want & i.kz) == 0 && (want & i.ko) == i.ko && want >= i.lo && want <= i.hi && (i.kz & !m) == 0;
            if got != want || !info_ok {
                bad += 1;
                if bad < 10 {
                    eprintln!("round {round}: {op:?} got {got:#x} want {want:#x} info {i:x?}\n a={} ({va:#x})\n b={} ({vb:#x})\n r={}", c.show(a, 4), c.show(b, 4), c.show(r, 5));
                }
            }
            if ![1, 8, 16, 32, 64, 128, 5, 3].contains(&c.w(r)) {
                continue;
            }
            pool.push(r);
        }
    }
    println!("selftest: {total} constructor applications, {bad} mismatches");
    (bad > 0) as i32
}
