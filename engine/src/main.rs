mod big;
mod exec;
mod ir;
mod mem;
mod solver;
mod term;

use exec::*;
use std::collections::BTreeMap;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn pairs(v: &[(String, String)]) -> String {
    let x: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
    format!("[{}]", x.join(","))
}

fn report(e: &Engine, wall: f64) -> String {
    let r = &e.rep;
    let s = &e.sv.stats;
    let checks: Vec<String> = r.checks.iter().map(|(k, (n, f))| format!("{}:[{},{}]", js(k), n, f)).collect();
    let cm = |m: &BTreeMap<String, u64>| m.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",");
    let viol: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"label\":{},\"inputs\":{},\"notes\":{},\"trace\":[{}]}}",
                js(&v.label),
                pairs(&v.inputs),
                pairs(&v.notes),
                v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let fns: Vec<String> = r.funcs.iter().map(|&f| js(&short(&e.m.fn_names[f as usize]))).collect();
    let samples: Vec<String> = r
        .samples
        .iter()
        .map(|(k, i, c)| format!("[{},{},[{}]]", js(k), pairs(i), c.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")))
        .collect();
    format!(
        "{{\"paths\":{},\"panics\":{},\"infeasible\":{},\"instrs\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"fallback\":{},\"nonlinear\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"wall\":{:.3},\"checks\":{{{}}},\"covers\":{{{}}},\"inconclusive\":{{{}}},\"panic_sites\":{{{}}},\"violations\":[{}],\"functions\":[{}],\"samples\":[{}]}}",
        r.paths, r.panics, r.infeasible, r.instrs, r.forks, s.queries, s.sat, s.unsat, s.unknown, s.cached, s.fallback, s.nonlinear,
        s.time, s.max_time, wall, checks.join(","), cm(&r.covers), cm(&r.inconclusive), cm(&r.panic_sites), viol.join(","), fns.join(","), samples.join(",")
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: symex MODULE.ll ENTRY OUTDIR [--jobs N] [--timeout S] [--query-ms MS] [--hard-ms MS]");
        std::process::exit(2);
    }
    let mut jobs = 8usize;
    let mut budget = 600u64;
    let mut qms = 4000u64;
    let mut hms = 60000u64;
    let mut split = 48usize;
    let mut params = vec![];
    let mut i = 4;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--jobs" => jobs = a[i + 1].parse().unwrap(),
            "--timeout" => budget = a[i + 1].parse().unwrap(),
            "--query-ms" => qms = a[i + 1].parse().unwrap(),
            "--hard-ms" => hms = a[i + 1].parse().unwrap(),
            "--param" => {
                let (k, v) = a[i + 1].split_once('=').unwrap();
                params.push((k.to_string(), v.parse::<u64>().unwrap()));
            }
            "--split" => split = a[i + 1].parse().unwrap(),
            _ => {}
        }
        i += 2;
    }
    let t0 = Instant::now();
    let out = a[3].clone();
    std::fs::create_dir_all(&out).unwrap();
    let text = std::fs::read_to_string(&a[1]).expect("module");
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("module: {}", e);
            std::process::exit(2);
        }
    };
    let mut e = Engine::new(m, "z3-new");
    e.params = params;
    e.sv.timeout_ms = qms;
    e.sv.hard_timeout_ms = hms;
    let st = match e.initial(&a[2]) {
        Ok(s) => s,
        Err(x) => {
            eprintln!("entry: {}", x);
            std::process::exit(2);
        }
    };
    // breadth-first until there is enough to share out
    let mut frontier: std::collections::VecDeque<State> = std::collections::VecDeque::new();
    frontier.push_back(st);
    while !frontier.is_empty() && (jobs <= 1 || frontier.len() < split) {
        let s = if jobs <= 1 { frontier.pop_back().unwrap() } else { frontier.pop_front().unwrap() };
        e.run_path(s);
        let w: Vec<State> = e.work.drain(..).collect();
        frontier.extend(w);
        if t0.elapsed().as_secs() > budget {
            *e.rep.inconclusive.entry("time budget".into()).or_insert(0) += frontier.len() as u64;
            frontier.clear();
        }
    }
    std::fs::write(format!("{}/part0.json", out), report(&e, t0.elapsed().as_secs_f64())).unwrap();
    let mut parts = 1;
    if !frontier.is_empty() {
        let states: Vec<State> = frontier.into_iter().collect();
        unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize;
            let ctr = &*p;
            let mut pids = vec![];
            for j in 0..jobs {
                let pid = fork();
                if pid == 0 {
                    e.sv.forget();
                    e.rep = Report::default();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        loop {
                            let k = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if k >= states.len() {
                                break;
                            }
                            e.work.push(states[k].clone());
                            while let Some(s) = e.work.pop() {
                                if t0.elapsed().as_secs() > budget {
                                    *e.rep.inconclusive.entry("time budget".into()).or_insert(0) += 1 + e.work.len() as u64;
                                    e.work.clear();
                                    break;
                                }
                                e.run_path(s);
                            }
                        }
                    }));
                    if r.is_err() {
                        *e.rep.inconclusive.entry("engine panic".into()).or_insert(0) += 1;
                    }
                    let ok = std::fs::write(format!("{}/part{}.json", out, j + 1), report(&e, t0.elapsed().as_secs_f64())).is_ok();
                    e.sv.kill();
                    _exit(if ok { 0 } else { 3 });
                }
                pids.push(pid);
            }
            let mut bad = false;
            for p in pids {
                let mut s = 0;
                waitpid(p, &mut s, 0);
                if s != 0 {
                    bad = true;
                }
            }
            parts += jobs;
            if bad {
                eprintln!("a worker failed");
                std::process::exit(3);
            }
        }
    }
    println!("{}", parts);
}
