// Native replay of recorded inputs against the real code.
// usage: native ENTRY PARAMS INPUTS REPEAT
// INPUTS: one line per input "kind hex"; prints one JSON line.
use std::cell::RefCell;
use std::panic;
use std::sync::Mutex;

#[derive(Default)]
struct Ctx { params: Vec<u64>, inputs: Vec<Vec<u8>>, at: usize, outs: Vec<String>, reach: u64, panic_at: String }
thread_local!(static C: RefCell<Ctx> = RefCell::new(Ctx::default()));
static LOC: Mutex<String> = Mutex::new(String::new());

enum Ev { Fail(String), Assume, Exhausted(String) }

fn txt(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string() }
fn next(l: &str) -> Vec<u8> {
    let r = C.with(|c| {
        let mut c = c.borrow_mut();
        c.at += 1;
        c.inputs.get(c.at - 1).cloned()
    });
    match r { Some(v) => v, None => panic::panic_any(Ev::Exhausted(l.to_string())) }
}
#[no_mangle] pub extern "C-unwind" fn sx_bytes(p: *mut u8, n: usize, l: *const u8, ln: usize) {
    let v = next(&txt(l, ln));
    if v.len() != n { panic::panic_any(Ev::Exhausted(format!("length of {}", txt(l, ln)))); }
    for i in 0..n { unsafe { *p.add(i) = v[i] } }
}
#[no_mangle] pub extern "C-unwind" fn sx_choice(n: u32, l: *const u8, ln: usize) -> u32 {
    let v = next(&txt(l, ln));
    if v.len() != 1 || v[0] as u32 >= n { panic::panic_any(Ev::Exhausted(format!("value of {}", txt(l, ln)))); }
    v[0] as u32
}
#[no_mangle] pub extern "C-unwind" fn sx_conc(x: u32) -> u32 { x }
#[no_mangle] pub extern "C-unwind" fn sx_assume(c: bool) { if !c { panic::panic_any(Ev::Assume) } }
#[no_mangle] pub extern "C-unwind" fn sx_check(c: bool, s: *const u8, n: usize) { if !c { panic::panic_any(Ev::Fail(txt(s, n))) } }
#[no_mangle] pub extern "C-unwind" fn sx_fail(s: *const u8, n: usize) { panic::panic_any(Ev::Fail(txt(s, n))) }
#[no_mangle] pub extern "C-unwind" fn sx_reach(k: u32) { C.with(|c| c.borrow_mut().reach |= 1 << (k & 63)) }
#[no_mangle] pub extern "C-unwind" fn sx_param(k: u32) -> u64 { C.with(|c| *c.borrow().params.get(k as usize).unwrap_or(&0)) }
#[no_mangle] pub extern "C-unwind" fn sx_order(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn sx_epoch(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn sx_select(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[no_mangle] pub extern "C-unwind" fn sx_native() -> bool { std::env::var_os("SX_LOG").is_some() }
#[no_mangle] pub extern "C-unwind" fn sx_log(p: *const u8, n: usize) { eprintln!("LOG {}", txt(p, n)) }
#[no_mangle] pub extern "C-unwind" fn sx_out(p: *const u8, n: usize) {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in unsafe { std::slice::from_raw_parts(p, n) } { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    C.with(|c| c.borrow_mut().outs.push(format!("{:016x}:{}", h, n)));
}
fn js(s: &str) -> String { format!("{:?}", s).replace("\\'", "'").replace("\\u{", "u{").replace("\\0", "0") }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let params: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let mut inputs = Vec::new();
    for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
        let (k, h) = (&l[..1], l[1..].trim());
        if k == "2" { continue; }
        inputs.push((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>());
    }
    let repeat: u32 = a[4].parse().unwrap();
    let want = a.get(5).cloned();
    let f = match entries().into_iter().find(|e| e.0 == a[1]) { Some(e) => e.1, None => { println!("{{\"status\":\"no-entry\"}}"); return; } };
    panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LOC.lock().unwrap() = s;
    }));
    let mut last = String::new();
    for it in 0..repeat {
        let (p, i) = (params.clone(), inputs.clone());
        let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            C.with(|c| *c.borrow_mut() = Ctx { params: p, inputs: i, ..Default::default() });
            let r = panic::catch_unwind(|| f());
            let (outs, reach, used) = C.with(|c| { let c = c.borrow(); (c.outs.clone(), c.reach, c.at) });
            let (st, sig) = match r {
                Ok(()) => ("done", String::new()),
                Err(e) => match e.downcast_ref::<Ev>() {
                    Some(Ev::Fail(s)) => ("violation", s.clone()),
                    Some(Ev::Assume) => ("assume", String::new()),
                    Some(Ev::Exhausted(l)) => ("exhausted", l.clone()),
                    None => ("violation", "panic".to_string()),
                },
            };
            (st, sig, outs, reach, used)
        }).unwrap().join().unwrap();
        let (st, sig, outs, reach, used) = r;
        last = format!("{{\"status\":{},\"sig\":{},\"panic_at\":{},\"outs\":[{}],\"reach\":{},\"used\":{},\"iteration\":{}}}", js(st), js(&sig), js(&LOC.lock().unwrap()),
            outs.iter().map(|o| js(o)).collect::<Vec<_>>().join(","), reach, used, it);
        if st == "exhausted" { break; }
        match &want { None => break, Some(w) => if st == "violation" && sig == *w { break; } }
    }
    println!("{}", last);
}
