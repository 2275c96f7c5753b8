//! Native execution of a harness on recorded inputs.
//! usage: baareplay HARNESS params(csv) inputs(csv)
//! exit: 0 held, 1 assertion failed / panic, 3 inputs do not satisfy the assumptions
use std::cell::RefCell;
use std::collections::VecDeque;

thread_local! {
    static IN: RefCell<VecDeque<u64>> = const { RefCell::new(VecDeque::new()) };
    static PARAMS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static TRACE: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static EXPECT: RefCell<bool> = const { RefCell::new(false) };
}

fn finish(code: i32, what: &str) -> ! {
    let t: Vec<String> = TRACE.with(|t| t.borrow().iter().map(|x| x.to_string()).collect());
    println!("TRACE {}", t.join(","));
    println!("RESULT {what}");
    std::process::exit(code)
}

#[no_mangle]
pub extern "C" fn sym_var(bits: u32, _tag: u32) -> u64 {
    let v = IN.with(|i| i.borrow_mut().pop_front()).unwrap_or(0);
    if bits < 64 {
        v & ((1u64 << bits) - 1)
    } else {
        v
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        finish(3, "assumption violated")
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, id: u32) {
    if !c {
        finish(1, &format!("assertion {id} fails"))
    }
}
#[no_mangle]
pub extern "C" fn sym_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
pub extern "C" fn sym_cover_if(_c: bool, _id: u32) {}
#[no_mangle]
pub extern "C" fn sym_trace(x: u64) {
    TRACE.with(|t| t.borrow_mut().push(x))
}
#[no_mangle]
pub extern "C" fn sym_expect_panic(on: bool) {
    EXPECT.with(|e| *e.borrow_mut() = on)
}
#[no_mangle]
pub extern "C" fn sym_param(i: u32) -> u64 {
    PARAMS.with(|p| p.borrow().get(i as usize).cloned().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn sym_hash_mode(_m: u64) {}
#[no_mangle]
pub extern "C" fn sym_dump(_m: u64) {}

fn csv(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn run(name: &str, params: &str, inputs: &str) {
    PARAMS.with(|p| *p.borrow_mut() = csv(params));
    IN.with(|i| *i.borrow_mut() = csv(inputs).into());
    std::panic::set_hook(Box::new(|info| {
        let exp = EXPECT.with(|e| *e.borrow());
        println!("PANIC {}", info.to_string().replace('\n', " "));
        if exp {
            finish(0, "panicked as required")
        }
        finish(1, "panic")
    }));
    let f = baah::REGISTRY.iter().find(|x| x.0 == name).unwrap_or_else(|| panic!("no harness {name}")).1;
    f();
    finish(0, "held")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    run(&a[1], &a[2], a.get(3).map(|s| s.as_str()).unwrap_or(""));
}
