//! Native side of the harness API: replays recorded inputs against the real build.
use crate::big::Big;
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Default)]
pub struct Run {
    pub inputs: VecDeque<(String, String)>,
    pub params: Vec<(String, u64)>,
    pub failed: Vec<String>,
    pub covers: Vec<String>,
    pub notes: Vec<(String, String)>,
    pub no_panic: bool,
    pub zs: Vec<Big>,
}

thread_local! {
    pub static RUN: RefCell<Run> = RefCell::new(Run::default());
}

/// Payload used to end a run early.
pub struct Ended(pub &'static str);

fn s(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string() }
}
fn stop(w: &'static str) -> ! {
    std::panic::panic_any(Ended(w))
}
fn next(name: &str) -> String {
    let x = RUN.with(|r| r.borrow_mut().inputs.pop_front());
    match x {
        Some((n, v)) if n == name => v,
        Some(_) => stop("input-mismatch"),
        None => stop("inputs-exhausted"),
    }
}

pub unsafe fn __sym_int(name: *const u8, len: usize, _bits: u32, lo: u128, hi: u128) -> u128 {
    let v: u128 = next(&s(name, len)).parse().unwrap();
    if v < lo || v > hi {
        stop("infeasible");
    }
    v
}
pub unsafe fn __sym_choice(name: *const u8, len: usize, n: u64) -> u64 {
    let v: u64 = next(&s(name, len)).parse().unwrap();
    if v >= n {
        stop("infeasible");
    }
    v
}
pub unsafe fn __sym_assume(c: bool) {
    if !c {
        stop("infeasible")
    }
}
pub unsafe fn __sym_check(c: bool, label: *const u8, len: usize) {
    if !c {
        RUN.with(|r| r.borrow_mut().failed.push(s(label, len)));
        stop("violation")
    }
}
pub unsafe fn __sym_cover(label: *const u8, len: usize) {
    RUN.with(|r| r.borrow_mut().covers.push(s(label, len)))
}
pub unsafe fn __sym_no_panic(on: bool) {
    RUN.with(|r| r.borrow_mut().no_panic = on)
}
fn zput(b: Big) -> u64 {
    RUN.with(|r| {
        let z = &mut r.borrow_mut().zs;
        z.push(b);
        (z.len() - 1) as u64
    })
}
fn zget(i: u64) -> Big {
    RUN.with(|r| r.borrow().zs[i as usize].clone())
}
pub unsafe fn __sym_z_from(v: u128) -> u64 {
    zput(Big::from_u128(v))
}
pub unsafe fn __sym_z_op(op: u32, a: u64, b: u64) -> u64 {
    let (a, b) = (zget(a), zget(b));
    zput(match op {
        0 => a.add(&b),
        1 => a.sub(&b),
        _ => a.mul(&b),
    })
}
pub unsafe fn __sym_z_cmp(op: u32, a: u64, b: u64) -> bool {
    let (a, b) = (zget(a), zget(b));
    match op {
        0 => a == b,
        1 => a <= b,
        _ => a < b,
    }
}
pub unsafe fn __sym_param(name: *const u8, len: usize, default: u64) -> u64 {
    let n = s(name, len);
    RUN.with(|r| r.borrow().params.iter().find(|p| p.0 == n).map(|p| p.1).unwrap_or(default))
}
pub unsafe fn __sym_note(name: *const u8, len: usize, v: u128) {
    RUN.with(|r| r.borrow_mut().notes.push((s(name, len), v.to_string())))
}
pub unsafe fn __sym_split(a: bool) -> bool {
    a
}
pub unsafe fn __sym_not(a: bool) -> bool {
    !a
}
pub unsafe fn __sym_and(a: bool, b: bool) -> bool {
    a && b
}
pub unsafe fn __sym_or(a: bool, b: bool) -> bool {
    a || b
}
pub unsafe fn __sym_ite(c: bool, a: u128, b: u128) -> u128 {
    if c {
        a
    } else {
        b
    }
}

/// Reads cases from a file and runs `f` on each. Case format: lines
/// `case`, `param NAME V`, `in NAME V`, `end`. Prints one result line per case.
pub fn main_with(find: impl Fn(&str) -> Option<fn()>) {
    let a: Vec<String> = std::env::args().collect();
    let f = find(&a[1]).expect("unknown entry");
    let txt = std::fs::read_to_string(&a[2]).expect("case file");
    std::panic::set_hook(Box::new(|_| {}));
    let verbose = a.len() > 3;
    let mut cur = Run::default();
    for l in txt.lines() {
        let w: Vec<&str> = l.splitn(3, '\t').collect();
        match w[0] {
            "case" => cur = Run::default(),
            "param" => cur.params.push((w[1].to_string(), w[2].parse().unwrap())),
            "in" => cur.inputs.push_back((w[1].to_string(), w[2].to_string())),
            "end" => {
                RUN.with(|r| *r.borrow_mut() = std::mem::take(&mut cur));
                let res = std::panic::catch_unwind(f);
                let run = RUN.with(|r| std::mem::take(&mut *r.borrow_mut()));
                let (kind, detail) = match res {
                    Ok(()) => ("done".to_string(), String::new()),
                    Err(e) => match e.downcast_ref::<Ended>() {
                        Some(Ended(w)) => (w.to_string(), String::new()),
                        None => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            ((if run.no_panic { "violation" } else { "panic" }).to_string(), m)
                        }
                    },
                };
                let labels = if kind == "violation" && run.failed.is_empty() {
                    format!("panic: {}", detail.replace(['\n', '\t'], " "))
                } else {
                    run.failed.join("|")
                };
                println!("{}\t{}\t{}", kind, labels, run.covers.join("|"));
                if verbose {
                    for (n, v) in &run.notes {
                        println!("  note {} = {}", n, v);
                    }
                }
            }
            _ => {}
        }
    }
}
