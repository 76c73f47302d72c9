//! SMT back end: incremental z3 process, with one-shot fallbacks for hard queries.
use crate::big::Big;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Sat {
    Unsat,
    Sat(Model),
    Unknown,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    declared: HashSet<T>,
    vars: HashSet<u32>,
    n: u32,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub fallback: u64,
    pub nonlinear: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    p: Option<Proc>,
    pub stats: Stats,
    cache: HashMap<Vec<T>, Sat>,
    pub timeout_ms: u64,
    pub hard_timeout_ms: u64,
    pub z3: String,
    pub dump: Option<String>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Solver {
    pub fn new(z3: &str) -> Solver {
        Solver {
            p: None,
            stats: Stats::default(),
            cache: HashMap::new(),
            timeout_ms: 3000,
            hard_timeout_ms: 60000,
            z3: z3.to_string(),
            dump: std::env::var("SYMEX_DUMP").ok(),
        }
    }
    /// After fork(): forget the parent's solver process without touching it.
    pub fn forget(&mut self) {
        if let Some(p) = self.p.take() {
            std::mem::forget(p);
        }
        self.stats = Stats::default();
    }
    pub fn kill(&mut self) {
        self.p = None;
    }
    fn start(&mut self) -> Result<(), String> {
        let mut c = Command::new(&self.z3)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{}: {}", self.z3, e))?;
        let mut inp = c.stdin.take().unwrap();
        let out = BufReader::new(c.stdout.take().unwrap());
        write!(
            inp,
            "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout {})\n",
            self.timeout_ms
        )
        .map_err(|e| e.to_string())?;
        self.p = Some(Proc { child: c, inp, out, declared: HashSet::new(), vars: HashSet::new(), n: 0 });
        Ok(())
    }

    /// Satisfiability of a conjunction. The returned model covers the variables of the query.
    pub fn check(&mut self, tm: &Terms, cs: &[T]) -> Sat {
        let mut cs: Vec<T> = cs.iter().cloned().filter(|&c| c != TRUE).collect();
        cs.sort();
        cs.dedup();
        if cs.contains(&FALSE) {
            return Sat::Unsat;
        }
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cached += 1;
            return r.clone();
        }
        let st = Instant::now();
        let r = self.run(tm, &cs);
        let dt = st.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        self.stats.queries += 1;
        match &r {
            Sat::Sat(_) => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        if dt > 1.0 {
            if let Some(d) = &self.dump {
                let (s, _) = script(tm, &cs);
                let _ = std::fs::write(
                    format!("{}/q{}_{}_{:.0}s_{}.smt2", d, std::process::id(), self.stats.queries, dt, match &r {
                        Sat::Sat(_) => "sat",
                        Sat::Unsat => "unsat",
                        _ => "unknown",
                    }),
                    s,
                );
            }
        }
        self.cache.insert(cs, r.clone());
        r
    }

    fn run(&mut self, tm: &Terms, cs: &[T]) -> Sat {
        let nonlin = cs.iter().any(|&c| tm.nonlinear(c));
        if nonlin {
            self.stats.nonlinear += 1;
        }
        let r = self.inc(tm, cs);
        match r {
            Ok(Sat::Unknown) | Err(_) => {
                if r.is_err() {
                    self.p = None;
                }
                self.stats.fallback += 1;
                self.portfolio(tm, cs)
            }
            Ok(r) => r,
        }
    }

    fn inc(&mut self, tm: &Terms, cs: &[T]) -> Result<Sat, String> {
        if self.p.as_ref().map_or(true, |p| p.n > 4000) {
            self.p = None;
            self.start()?;
        }
        let p = self.p.as_mut().unwrap();
        p.n += 1;
        let mut s = String::new();
        let mut mds = HashSet::new();
        let mut vs = HashSet::new();
        for &c in cs {
            collect(tm, c, &mut mds, &mut vs);
            decl(tm, c, &mut p.declared, &mut p.vars, &mut s);
        }
        for &m in &mds {
            for k in tm.children(m) {
                decl(tm, k, &mut p.declared, &mut p.vars, &mut s);
            }
        }
        s += "(push)\n";
        for &v in &vs {
            range(tm, v, &mut s);
        }
        for &m in &mds {
            md(tm, m, &mut s);
        }
        for &c in cs {
            s += &format!("(assert {})\n", tm.smt_ref(c));
        }
        s += "(check-sat)\n";
        p.inp.write_all(s.as_bytes()).map_err(|e| e.to_string())?;
        p.inp.flush().map_err(|e| e.to_string())?;
        let mut l = String::new();
        p.out.read_line(&mut l).map_err(|e| e.to_string())?;
        let r = match l.trim() {
            "unsat" => Sat::Unsat,
            "sat" => {
                let mut vl: Vec<u32> = vs.iter().cloned().collect();
                vl.sort();
                let mut m = Model::new();
                if !vl.is_empty() {
                    let q: Vec<String> = vl.iter().map(|v| format!("v{}", v)).collect();
                    write!(p.inp, "(get-value ({}))\n(echo \"done\")\n", q.join(" ")).map_err(|e| e.to_string())?;
                    p.inp.flush().map_err(|e| e.to_string())?;
                    let mut txt = String::new();
                    loop {
                        let mut l = String::new();
                        if p.out.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                            return Err("eof".into());
                        }
                        if l.trim() == "done" {
                            break;
                        }
                        txt += &l;
                    }
                    m = parse_model(&txt);
                }
                Sat::Sat(m)
            }
            "unknown" => Sat::Unknown,
            x => return Err(format!("solver said {:?}", x)),
        };
        let p = self.p.as_mut().unwrap();
        writeln!(p.inp, "(pop)").map_err(|e| e.to_string())?;
        // a model must satisfy the query under the engine's own semantics
        if let Sat::Sat(m) = &r {
            let mut memo = HashMap::new();
            if !cs.iter().all(|&c| tm.eval_bool(c, m, &mut memo)) {
                return Ok(Sat::Unknown);
            }
        }
        Ok(r)
    }

    fn portfolio(&mut self, tm: &Terms, cs: &[T]) -> Sat {
        let (s, vl) = script(tm, cs);
        let path = std::env::temp_dir().join(format!("symex_{}_{}.smt2", std::process::id(), self.stats.queries));
        if std::fs::write(&path, &s).is_err() {
            return Sat::Unknown;
        }
        let t = self.hard_timeout_ms;
        let pf = path.to_string_lossy().to_string();
        let cmds: Vec<(&str, Vec<String>)> = vec![
            ("z3", vec![format!("-T:{}", t / 1000 + 1), "smt.arith.solver=2".into(), pf.clone()]),
            ("cvc5", vec![format!("--tlimit={}", t), "--produce-models".into(), "--nl-ext-tplanes".into(), pf.clone()]),
            ("z3-new", vec![format!("-T:{}", t / 1000 + 1), "smt.random_seed=7".into(), pf.clone()]),
        ];
        let mut ch: Vec<Child> = vec![];
        for (c, a) in cmds {
            if let Ok(x) = Command::new(c).args(a).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn() {
                ch.push(x);
            }
        }
        let st = Instant::now();
        let mut res = Sat::Unknown;
        let mut live = ch.len();
        let mut done = vec![false; ch.len()];
        'o: while live > 0 && st.elapsed().as_millis() < (t + 5000) as u128 {
            for i in 0..ch.len() {
                if done[i] {
                    continue;
                }
                if let Ok(Some(_)) = ch[i].try_wait() {
                    done[i] = true;
                    live -= 1;
                    let mut txt = String::new();
                    if let Some(mut o) = ch[i].stdout.take() {
                        use std::io::Read;
                        let _ = o.read_to_string(&mut txt);
                    }
                    let first = txt.lines().next().unwrap_or("").trim().to_string();
                    if first == "unsat" {
                        res = Sat::Unsat;
                        break 'o;
                    }
                    if first == "sat" {
                        let m = if vl.is_empty() { Model::new() } else { parse_model(&txt) };
                        let mut memo = HashMap::new();
                        if cs.iter().all(|&c| tm.eval_bool(c, &m, &mut memo)) {
                            res = Sat::Sat(m);
                            break 'o;
                        }
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        for mut c in ch {
            let _ = c.kill();
            let _ = c.wait();
        }
        let _ = std::fs::remove_file(&path);
        res
    }
}

fn script(tm: &Terms, cs: &[T]) -> (String, Vec<u32>) {
    let mut s = String::from("(set-option :produce-models true)\n(set-logic ALL)\n");
    let mut declared = HashSet::new();
    let mut vars = HashSet::new();
    let mut mds = HashSet::new();
    let mut vs = HashSet::new();
    for &c in cs {
        collect(tm, c, &mut mds, &mut vs);
        decl(tm, c, &mut declared, &mut vars, &mut s);
    }
    for &m in &mds {
        for k in tm.children(m) {
            decl(tm, k, &mut declared, &mut vars, &mut s);
        }
    }
    for &v in &vs {
        range(tm, v, &mut s);
    }
    for &m in &mds {
        md(tm, m, &mut s);
    }
    for &c in cs {
        s += &format!("(assert {})\n", tm.smt_ref(c));
    }
    s += "(check-sat)\n";
    let mut vl: Vec<u32> = vs.into_iter().collect();
    vl.sort();
    if !vl.is_empty() {
        s += &format!("(get-value ({}))\n", vl.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(" "));
    }
    (s, vl)
}

fn collect(tm: &Terms, t: T, mds: &mut HashSet<T>, vs: &mut HashSet<u32>) {
    for &m in tm.mds_of[t as usize].iter() {
        mds.insert(m);
    }
    for &v in tm.vars_of[t as usize].iter() {
        vs.insert(v);
    }
}
fn decl(tm: &Terms, t: T, declared: &mut HashSet<T>, vars: &mut HashSet<u32>, s: &mut String) {
    if let Node::Var(v) = &tm.nodes[t as usize] {
        if vars.insert(*v) {
            *s += &format!("(declare-const v{} Int)\n", v);
        }
        return;
    }
    if !declared.insert(t) {
        return;
    }
    for k in tm.children(t) {
        decl(tm, k, declared, vars, s);
    }
    if let Node::MulDiv(..) = &tm.nodes[t as usize] {
        *s += &format!("(declare-const q{} Int)\n", t);
        return;
    }
    if let Some(b) = tm.smt_body(t) {
        *s += &format!("(define-fun t{} () {} {})\n", t, if tm.is_bool(t) { "Bool" } else { "Int" }, b);
    }
}
fn range(tm: &Terms, v: u32, s: &mut String) {
    let i = &tm.vars[v as usize];
    *s += &format!("(assert (<= {} v{} {}))\n", i.lo, v, i.hi);
}
fn md(tm: &Terms, t: T, s: &mut String) {
    if let Node::MulDiv(a, b, c) = tm.nodes[t as usize] {
        let (a, b, c) = (tm.smt_ref(a), tm.smt_ref(b), tm.smt_ref(c));
        *s += &format!(
            "(assert (>= q{t} 0))\n(assert (=> (> {c} 0) (and (<= (* {c} q{t}) (* {a} {b})) (< (* {a} {b}) (+ (* {c} q{t}) {c})))))\n(assert (=> (<= {c} 0) (= q{t} 0)))\n"
        );
    }
}

fn parse_model(txt: &str) -> Model {
    // ((v1 5) (v2 (- 3)))
    let mut m = Model::new();
    let toks: Vec<String> = txt
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|s| s.to_string())
        .collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(v) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
            if i + 1 < toks.len() {
                if toks[i + 1] == "(" && i + 3 < toks.len() && toks[i + 2] == "-" {
                    if let Some(b) = Big::parse(&toks[i + 3]) {
                        m.insert(v, b.neg());
                    }
                } else if let Some(b) = Big::parse(&toks[i + 1]) {
                    m.insert(v, b);
                }
            }
        }
        i += 1;
    }
    m
}
