//! symx: symbolic execution of Rust programs compiled to LLVM IR, Z3 as decision procedure.
mod exec;
mod expr;
mod ll;
mod mem;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn inputs_json(i: &[(String, u8, Vec<u8>)]) -> String {
    format!("[{}]", i.iter().map(|(l, k, b)| format!("[{},{},\"{}\"]", js(l), k, hex(b))).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let file = &a[1];
    let entry = &a[2];
    let t0 = Instant::now();
    let src = std::fs::read(file).expect("ir file");
    let m = ll::parse(&src);
    drop(src);
    let parse_s = t0.elapsed().as_secs_f64();
    let prog: &'static Program = Box::leak(Box::new(Program::new(m)));
    let ei = match prog.m.fn_by_name.get(entry) {
        Some(i) => *i as u32,
        None => { eprintln!("no entry {}", entry); std::process::exit(3); }
    };
    let opts: &'static Opts = Box::leak(Box::new(Opts {
        params: get("--params").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default(),
        threads: get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8),
        max_time: get("--time").map(|s| s.parse().unwrap()).unwrap_or(600.0),
        max_steps: get("--steps").map(|s| s.parse().unwrap()).unwrap_or(2_000_000_000),
        samples: get("--samples").map(|s| s.parse().unwrap()).unwrap_or(8),
        prof: a.iter().any(|x| x == "--prof"),
        maxviol: get("--maxviol").map(|s| s.parse().unwrap()).unwrap_or(100_000),
        script: get("--script").map(|s| s.split(',').map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()),
        trace: a.iter().any(|x| x == "--trace"),
    }));
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        q: Mutex::new((vec![], 0)), cv: Condvar::new(), stop: AtomicBool::new(false), hungry: AtomicU64::new(0), paths: AtomicU64::new(0), viol: AtomicU64::new(0), start: Instant::now(),
    }));
    {
        let w = W::new(prog, opts, sh);
        let s = w.initial(ei);
        sh.q.lock().unwrap().0.push(s);
    }
    let timed_out: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let finished: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let mut hs = Vec::new();
    for _ in 0..opts.threads {
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut w = W::new(prog, opts, sh);
            loop {
                let st = match w.local.pop() {
                    Some(s) => {
                        // feed hungry workers with the oldest local state
                        if sh.hungry.load(Ordering::Relaxed) > 0 && !w.local.is_empty() {
                            let old = w.local.remove(0);
                            sh.q.lock().unwrap().0.push(old);
                            sh.cv.notify_one();
                        }
                        s
                    }
                    None => {
                        let mut q = sh.q.lock().unwrap();
                        loop {
                            if sh.stop.load(Ordering::Relaxed) { break; }
                            if let Some(s) = q.0.pop() { q.1 += 0; sh.hungry.store(q.1 as u64, Ordering::Relaxed); drop(q); break_some(&mut w, s); q = sh.q.lock().unwrap(); break; }
                            q.1 += 1;
                            sh.hungry.store(q.1 as u64, Ordering::Relaxed);
                            if q.1 == opts.threads { sh.cv.notify_all(); break; }
                            let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
                            q = g;
                            if q.1 == opts.threads && q.0.is_empty() { break; }
                            q.1 -= 1;
                            sh.hungry.store(q.1 as u64, Ordering::Relaxed);
                        }
                        if sh.stop.load(Ordering::Relaxed) || (q.1 == opts.threads && q.0.is_empty()) { sh.cv.notify_all(); break; }
                        drop(q);
                        match w.local.pop() { Some(s) => s, None => continue }
                    }
                };
                w.run(st);
                if sh.stop.load(Ordering::Relaxed) { break; }
            }
            w.t.smt = w.s.stats.clone();
            w.t
        }).unwrap());
    }
    let outp = get("--out");
    let mon = std::thread::spawn(move || {
        while !finished.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(100));
            if sh.start.elapsed().as_secs_f64() > opts.max_time {
                timed_out.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
            }
            if sh.start.elapsed().as_secs_f64() > opts.max_time + 20.0 {
                // a worker is stuck inside the solver
                let e = "{\"errors\":[\"time limit reached inside the solver\"],\"violations\":[],\"samples\":[],\"functions\":[],\"reach\":{},\"paths\":0,\"infeasible\":0,\"forks\":0,\"steps\":0,\"wall_s\":0,\"parse_s\":0,\"checks\":0,\"checks_constant\":0,\"checks_smt\":0,\"max_depth\":0,\"symbolic_bytes_max\":0,\"smt\":{\"queries\":0,\"sat\":0,\"unsat\":0,\"cache_hits\":0,\"domain_decided\":0,\"range_decided\":0,\"solver_s\":0,\"max_query_ms\":0}}";
                if let Some(p) = &outp { let _ = std::fs::write(p, e); } else { println!("{}", e); }
                std::process::exit(2);
            }
        }
    });
    let mut t = Totals { funcs: vec![0; prog.m.funcs.len()], reach: vec![0; 64], ..Default::default() };
    for h in hs {
        let x = h.join().expect("worker");
        t.paths += x.paths; t.dead += x.dead; t.steps += x.steps; t.forks += x.forks; t.dom_decided += x.dom_decided; t.range_decided += x.range_decided;
        t.checks += x.checks; t.checks_const += x.checks_const; t.checks_smt += x.checks_smt;
        t.smt.queries += x.smt.queries; t.smt.sat += x.smt.sat; t.smt.unsat += x.smt.unsat; t.smt.cache_hits += x.smt.cache_hits; t.smt.secs += x.smt.secs;
        t.smt.max_ms = t.smt.max_ms.max(x.smt.max_ms);
        t.maxdepth = t.maxdepth.max(x.maxdepth);
        t.sym_inputs_max = t.sym_inputs_max.max(x.sym_inputs_max);
        for (i, n) in x.funcs.iter().enumerate() { t.funcs[i] += n; }
        for (k, v) in x.violations { t.violations.entry(k).or_default().extend(v); }
        for (k, v) in x.vcount { *t.vcount.entry(k).or_insert(0) += v; }
        t.samples.extend(x.samples);
        for i in 0..64 { t.reach[i] += x.reach[i]; }
        t.errors.extend(x.errors);
        for (k, v) in x.forkat { *t.forkat.entry(k).or_insert(0) += v; }
    }
    finished.store(true, Ordering::Relaxed);
    let _ = mon.join();
    if timed_out.load(Ordering::Relaxed) { t.errors.push("time limit reached before all paths were explored".into()); }
    if opts.prof {
        let mut v: Vec<_> = t.forkat.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.into_iter().take(25) { eprintln!("{:>8} forks {} block {}", n, prog.m.funcs[*f as usize].name, b); }
    }
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"params\":{:?},", js(entry), opts.params);
    o += &format!("\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"wall_s\":{:.2},\"parse_s\":{:.2},", t.paths, t.dead, t.forks, t.steps, t0.elapsed().as_secs_f64(), parse_s);
    o += &format!("\"checks\":{},\"checks_constant\":{},\"checks_smt\":{},", t.checks, t.checks_const, t.checks_smt);
    o += &format!("\"smt\":{{\"solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"domain_decided\":{},\"range_decided\":{},\"solver_s\":{:.3},\"max_query_ms\":{:.1}}},", js(&solver::version()), t.smt.queries, t.smt.sat, t.smt.unsat, t.smt.cache_hits, t.dom_decided, t.range_decided, t.smt.secs, t.smt.max_ms);
    o += &format!("\"max_depth\":{},\"symbolic_bytes_max\":{},", t.maxdepth, t.sym_inputs_max);
    let reach: BTreeMap<usize, u64> = (0..64).filter(|i| t.reach[*i] > 0).map(|i| (i, t.reach[i])).collect();
    o += &format!("\"reach\":{{{}}},", reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let fns: Vec<String> = t.funcs.iter().enumerate().filter(|(_, n)| **n > 0).map(|(i, n)| format!("[{},{}]", js(&prog.m.funcs[i].name), n)).collect();
    o += &format!("\"functions\":[{}],", fns.join(","));
    let mut vs = Vec::new();
    for (k, v) in &t.violations {
        for x in v.iter().take(6) {
            vs.push(format!("{{\"sig\":{},\"count\":{},\"detail\":{},\"inputs\":{}}}", js(k), t.vcount[k], js(&x.detail), inputs_json(&x.inputs)));
        }
    }
    o += &format!("\"violations\":[{}],", vs.join(","));
    o += &format!("\"samples\":[{}],", t.samples.iter().map(|s| format!("{{\"inputs\":{},\"reach\":{},\"outs\":[{}]}}", inputs_json(&s.inputs), s.reach, s.outs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o += &format!("\"errors\":[{}]}}", t.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    match get("--out") {
        Some(p) => std::fs::write(p, &o).unwrap(),
        None => println!("{}", o),
    }
    std::process::exit(if !t.errors.is_empty() { 2 } else if !t.violations.is_empty() { 1 } else { 0 });
}

fn break_some(w: &mut W, s: State) { w.local.push(s); }
