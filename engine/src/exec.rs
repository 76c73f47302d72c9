//! Symbolic interpreter.
use crate::big::Big;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    /// integer term, or boolean term when the LLVM type is i1
    S(T),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub pc: usize,
    ret: Option<u32>,
    next_blk: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub enum Input {
    Int(String, T),
    Choice(String, u64),
}

type Memo = Rc<RefCell<HashMap<T, Value>>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    facts: HashMap<T, bool>,
    pub model: Rc<Model>,
    memo: Memo,
    pub inputs: Vec<Input>,
    pub notes: Vec<(String, V)>,
    counts: HashMap<String, u32>,
    pub no_panic: bool,
    pub instrs: u64,
    pub covers: Vec<String>,
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub inputs: Vec<(String, String)>,
    pub notes: Vec<(String, String)>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub panics: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: BTreeMap<String, (u64, u64)>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub inconclusive: BTreeMap<String, u64>,
    pub panic_sites: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    /// sampled path witnesses: outcome, inputs, covers
    pub samples: Vec<(String, Vec<(String, String)>, Vec<String>)>,
    pub ended: u64,
}

pub enum Stop {
    Done,
    Infeasible,
    Failed,
    Panic(String),
    Err(String),
}
impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Err(s)
    }
}
type R<X> = Result<X, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None,
    Unknown,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Panic,
    RandKeys,
    Nop,
    DispInt(u32),
    ParseU128,
    Umax,
    Umin,
    Smax,
    Smin,
    AddO,
    SubO,
    MulO,
    SAddO,
    SSubO,
    AddSat,
    SubSat,
    Bswap,
    Ctpop,
    Ctlz,
    Cttz,
    Abs,
    RedAdd,
    RedOr,
    Expect,
    LoadRel,
    Fshl,
    Ucmp,
    Scmp,
    SymInt,
    SymChoice,
    SymAssume,
    SymCheck,
    SymCover,
    SymNoPanic,
    SymZFrom,
    SymZOp,
    SymZCmp,
    SymNote,
    SymNot,
    SymAnd,
    SymOr,
    SymIte,
    SymMulDiv,
    SymParam,
    SymSplit,
}

pub struct Engine {
    pub m: Module,
    pub tm: Terms,
    pub sv: Solver,
    pub work: Vec<State>,
    pub rep: Report,
    hooks: Vec<Hook>,
    varkeys: HashMap<(String, u32, Big, Big), T>,
    pub max_instrs: u64,
    pub max_viol: usize,
    pub params: Vec<(String, u64)>,
    lcg: u64,
    pub trace: bool,
}

fn hook_of(n: &str) -> Hook {
    if let Some(r) = n.strip_prefix("llvm.") {
        let t = |p: &str| r.starts_with(p);
        return if t("memcpy") || t("memmove") {
            Hook::Memcpy
        } else if t("memset") {
            Hook::Memset
        } else if t("umax") {
            Hook::Umax
        } else if t("umin") {
            Hook::Umin
        } else if t("smax") {
            Hook::Smax
        } else if t("smin") {
            Hook::Smin
        } else if t("uadd.with.overflow") {
            Hook::AddO
        } else if t("usub.with.overflow") {
            Hook::SubO
        } else if t("umul.with.overflow") {
            Hook::MulO
        } else if t("sadd.with.overflow") {
            Hook::SAddO
        } else if t("ssub.with.overflow") {
            Hook::SSubO
        } else if t("uadd.sat") {
            Hook::AddSat
        } else if t("usub.sat") {
            Hook::SubSat
        } else if t("bswap") {
            Hook::Bswap
        } else if t("ctpop") {
            Hook::Ctpop
        } else if t("ctlz") {
            Hook::Ctlz
        } else if t("cttz") {
            Hook::Cttz
        } else if t("abs") {
            Hook::Abs
        } else if t("vector.reduce.add") {
            Hook::RedAdd
        } else if t("vector.reduce.or") {
            Hook::RedOr
        } else if t("expect") {
            Hook::Expect
        } else if t("load.relative") {
            Hook::LoadRel
        } else if t("fshl") {
            Hook::Fshl
        } else if t("ucmp") {
            Hook::Ucmp
        } else if t("scmp") {
            Hook::Scmp
        } else if t("trap") {
            Hook::Panic
        } else {
            Hook::Unknown
        };
    }
    match n {
        "memcpy" | "memmove" => return Hook::Memcpy,
        "memset" => return Hook::Memset,
        "memcmp" => return Hook::Memcmp,
        "bcmp" => return Hook::Bcmp,
        "strlen" => return Hook::Strlen,
        "__rust_alloc" => return Hook::Alloc,
        "__rust_alloc_zeroed" => return Hook::AllocZ,
        "__rust_dealloc" => return Hook::Dealloc,
        "__rust_realloc" => return Hook::Realloc,
        "rust_begin_unwind" | "abort" | "__rust_alloc_error_handler" => return Hook::Panic,
        "__sym_int" => return Hook::SymInt,
        "__sym_choice" => return Hook::SymChoice,
        "__sym_assume" => return Hook::SymAssume,
        "__sym_check" => return Hook::SymCheck,
        "__sym_cover" => return Hook::SymCover,
        "__sym_no_panic" => return Hook::SymNoPanic,
        "__sym_z_from" => return Hook::SymZFrom,
        "__sym_z_op" => return Hook::SymZOp,
        "__sym_z_cmp" => return Hook::SymZCmp,
        "__sym_note" => return Hook::SymNote,
        "__sym_not" => return Hook::SymNot,
        "__sym_and" => return Hook::SymAnd,
        "__sym_or" => return Hook::SymOr,
        "__sym_ite" => return Hook::SymIte,
        "__sym_split" => return Hook::SymSplit,
        "__sym_param" => return Hook::SymParam,
        "__sym_mul_div" => return Hook::SymMulDiv,
        _ => {}
    }
    if n.contains("core9panicking") || n.contains("std9panicking11begin_panic") || n.contains("3std7process5abort") {
        return Hook::Panic;
    }
    if n.contains("hashmap_random_keys") {
        return Hook::RandKeys;
    }
    if n.contains("3std2io5stdio6_print") || n.contains("3std2io5stdio7_eprint") {
        return Hook::Nop;
    }
    if n.contains("core..fmt..Display$u20$for$u20$u") && n.contains("3fmt") {
        for w in [8u32, 16, 32, 64, 128] {
            if n.contains(&format!("for$u20$u{}$GT$", w)) {
                return Hook::DispInt(w);
            }
        }
        if n.contains("for$u20$usize$GT$") {
            return Hook::DispInt(64);
        }
    }
    if n.contains("FromStr$u20$for$u20$u128$GT$8from_str") {
        return Hook::ParseU128;
    }
    Hook::None
}

/// Decimal texts from here on stand for symbolic values (the rest is the term's number).
const PLACEHOLDER: u128 = 300_000_000_000_000_000_000_000_000_000_000_000_000;

impl Engine {
    pub fn new(m: Module, z3: &str) -> Engine {
        let hooks = m.fn_names.iter().map(|n| hook_of(n)).collect();
        Engine {
            m,
            tm: Terms::new(),
            sv: Solver::new(z3),
            work: vec![],
            rep: Report::default(),
            hooks,
            varkeys: HashMap::new(),
            max_instrs: 400_000_000,
            max_viol: 4,
            params: vec![],
            lcg: 1,
            trace: std::env::var("SYMEX_TRACE").is_ok(),
        }
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let mut mem = Mem::new();
        for g in &self.m.globals {
            let mut d = vec![];
            match &g.init {
                Some(k) => init_bytes(k, &g.ty, &mut d, 0),
                None => d = vec![0; (g.ty.size() as usize).max(8)],
            }
            mem.alloc_obj(Obj { data: d, sym: BTreeMap::new(), ro: g.constant });
        }
        let f = *self.m.fn_ids.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let f = self.m.func(f)?;
        self.rep.funcs.insert(f.id);
        let fr = Frame {
            regs: vec![V::C(0); f.nregs as usize],
            f,
            blk: 0,
            pc: 0,
            ret: None,
            next_blk: None,
            allocas: vec![],
        };
        Ok(State {
            frames: vec![fr],
            mem,
            pc: vec![],
            facts: HashMap::new(),
            model: Rc::new(Model::new()),
            memo: Rc::new(RefCell::new(HashMap::new())),
            inputs: vec![],
            notes: vec![],
            counts: HashMap::new(),
            no_panic: false,
            instrs: 0,
            covers: vec![],
        })
    }

    /// Runs one state until its path ends.
    pub fn run_path(&mut self, mut st: State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
        };
        if matches!(r, Stop::Done) || (matches!(r, Stop::Panic(_)) && !st.no_panic) {
            self.sample(&st, if matches!(r, Stop::Done) { "done" } else { "panic" });
        }
        match r {
            Stop::Done | Stop::Failed => self.rep.paths += 1,
            Stop::Infeasible => self.rep.infeasible += 1,
            Stop::Panic(w) => {
                self.rep.panics += 1;
                let site = self.site(&st);
                *self.rep.panic_sites.entry(site.clone()).or_insert(0) += 1;
                if st.no_panic {
                    let m = st.model.clone();
                    self.violation(&st, &m, format!("panic: {} in {}", w, site));
                }
            }
            Stop::Err(e) => {
                let site = self.site(&st);
                *self.rep.inconclusive.entry(format!("{} @ {}", e, site)).or_insert(0) += 1;
            }
        }
        self.rep.instrs += st.instrs;
    }

    fn input_values(&self, st: &State, m: &Model) -> Vec<(String, String)> {
        let mut memo = HashMap::new();
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Int(n, t) => (n.clone(), self.tm.eval_big(*t, m, &mut memo).to_string()),
                Input::Choice(n, k) => (n.clone(), k.to_string()),
            })
            .collect()
    }

    /// Keeps a spread of path witnesses for validation against the native build.
    fn sample(&mut self, st: &State, kind: &str) {
        const N: usize = 12;
        self.rep.ended += 1;
        self.lcg = self.lcg.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let slot = if self.rep.samples.len() < N {
            None
        } else {
            let j = ((self.lcg >> 33) % self.rep.ended) as usize;
            if j >= N {
                return;
            }
            Some(j)
        };
        let s = (kind.to_string(), self.input_values(st, &st.model), st.covers.clone());
        match slot {
            None => self.rep.samples.push(s),
            Some(j) => self.rep.samples[j] = s,
        }
    }

    fn site(&self, st: &State) -> String {
        let v: Vec<String> = st.frames.iter().rev().take(5).map(|f| short(&self.m.fn_names[f.f.id as usize])).collect();
        v.join(" < ")
    }

    fn violation(&mut self, st: &State, m: &Model, label: String) {
        let n = self.rep.violations.iter().filter(|v| v.label == label).count();
        let e = self.rep.checks.entry(label.clone()).or_insert((0, 0));
        e.1 += 1;
        if n >= self.max_viol {
            return;
        }
        let inputs = self.input_values(st, m);
        let mut memo = HashMap::new();
        let notes = st
            .notes
            .iter()
            .map(|(n, v)| {
                (
                    n.clone(),
                    match v {
                        V::C(c) => c.to_string(),
                        V::S(t) => self.tm.eval_big(*t, m, &mut memo).to_string(),
                        _ => "?".into(),
                    },
                )
            })
            .collect();
        let trace = st.frames.iter().rev().take(12).map(|f| short(&self.m.fn_names[f.f.id as usize])).collect();
        self.rep.violations.push(Violation { label, inputs, notes, trace });
    }

    // ---- path condition ----
    fn slice(&self, st: &State, c: T) -> Vec<T> {
        let mut vs: BTreeSet<u32> = self.tm.vars_of[c as usize].iter().cloned().collect();
        let mut left: Vec<T> = st.pc.clone();
        let mut out = vec![];
        loop {
            let mut ch = false;
            left.retain(|&p| {
                let pv = &self.tm.vars_of[p as usize];
                if pv.iter().any(|v| vs.contains(v)) {
                    out.push(p);
                    for v in pv.iter() {
                        vs.insert(*v);
                    }
                    ch = true;
                    false
                } else {
                    true
                }
            });
            if !ch {
                return out;
            }
        }
    }
    fn query(&mut self, st: &State, c: T) -> Sat {
        let mut q = self.slice(st, c);
        q.push(c);
        self.sv.check(&self.tm, &q)
    }
    fn merged(st: &State, m: Model) -> Rc<Model> {
        let mut x = (*st.model).clone();
        for (k, v) in m {
            x.insert(k, v);
        }
        Rc::new(x)
    }
    fn learn(&mut self, st: &mut State, c: T, v: bool) {
        let n = self.tm.not(c);
        st.facts.insert(c, v);
        st.facts.insert(n, !v);
    }
    fn add_pc(&mut self, st: &mut State, c: T) {
        // flatten conjunctions for better slicing
        if let Node::And(ts) = self.tm.nodes[c as usize].clone() {
            for t in ts.iter() {
                self.add_pc(st, *t);
            }
        } else if c != TRUE {
            st.pc.push(c);
        }
        self.learn(st, c, true);
    }
    fn eval_b(&self, st: &State, c: T) -> bool {
        self.tm.eval_bool(c, &st.model, &mut st.memo.borrow_mut())
    }

    /// A nonlinear condition in its simplest form on this path: conditions inside it are decided
    /// first (forking where both outcomes are possible).
    fn refined(&mut self, st: &mut State, c: T) -> R<T> {
        let mut c = c;
        for _ in 0..64 {
            if !self.tm.is_nl(c) {
                return Ok(c);
            }
            let mut memo = HashMap::new();
            c = self.tm.refine(c, &st.facts, &mut memo);
            let mut seen = HashSet::new();
            match self.tm.inner_cond(c, &mut seen) {
                Some(i) => {
                    self.decide(st, i)?;
                }
                None => return Ok(c),
            }
        }
        Ok(c)
    }
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if c == TRUE {
            return Ok(true);
        }
        if c == FALSE {
            return Ok(false);
        }
        if let Some(&b) = st.facts.get(&c) {
            return Ok(b);
        }
        let c0 = c;
        let c = self.refined(st, c)?;
        if c != c0 {
            let b = self.decide(st, c)?;
            self.learn(st, c0, b);
            return Ok(b);
        }
        let mv = self.eval_b(st, c);
        let nc = self.tm.not(c);
        let (here, other) = if mv { (c, nc) } else { (nc, c) };
        match self.query(st, other) {
            Sat::Unsat => {
                self.learn(st, c, mv);
            }
            Sat::Sat(m) => {
                self.rep.forks += 1;
                let mut o = st.clone();
                o.model = Engine::merged(st, m);
                o.memo = Rc::new(RefCell::new(HashMap::new()));
                o.instrs = 0;
                self.add_pc(&mut o, other);
                self.work.push(o);
                self.add_pc(st, here);
            }
            Sat::Unknown => {
                let site = self.site(st);
                *self.rep.inconclusive.entry(format!("solver unknown on a branch @ {}", site)).or_insert(0) += 1;
                self.add_pc(st, here);
            }
        }
        Ok(mv)
    }
    fn concretize(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(c) = self.tm.as_const(t) {
            return Ok(c.to_u128().unwrap());
        }
        loop {
            let v = self.tm.eval_big(t, &st.model, &mut st.memo.borrow_mut());
            let u = v.to_u128().ok_or_else(|| "concretize".to_string())?;
            let k = self.tm.cst(v);
            let e = self.tm.eq(t, k);
            if self.decide(st, e)? {
                return Ok(u);
            }
        }
    }

    // ---- values ----
    fn kv(&self, k: &K) -> V {
        match k {
            K::I(v) => V::C(*v),
            K::Agg(v) => V::A(Rc::new(v.iter().map(|k| self.kv(k)).collect())),
            K::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::C(x as u128)).collect())),
            K::Zero(t) => zero(t),
        }
    }
    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(k) => self.kv(k),
        }
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(t) => {
                if self.tm.is_bool(*t) {
                    Ok(self.decide(st, *t)? as u128)
                } else {
                    self.concretize(st, *t)
                }
            }
            V::A(_) => Err(Stop::Err("aggregate as scalar".into())),
        }
    }
    /// Integer term of a scalar of a non-i1 type.
    fn it(&mut self, v: &V) -> R<T> {
        match v {
            V::C(c) => Ok(self.tm.cu(*c)),
            V::S(t) => {
                if self.tm.is_bool(*t) {
                    Ok(self.tm.b2i(*t))
                } else {
                    Ok(*t)
                }
            }
            _ => Err(Stop::Err("aggregate as integer".into())),
        }
    }
    fn bt(&mut self, v: &V) -> R<T> {
        match v {
            V::C(c) => Ok(if *c & 1 == 1 { TRUE } else { FALSE }),
            V::S(t) => {
                if self.tm.is_bool(*t) {
                    Ok(*t)
                } else {
                    Ok(self.tm.i2b(*t))
                }
            }
            _ => Err(Stop::Err("aggregate as boolean".into())),
        }
    }
    fn mkv(&self, t: T) -> V {
        if t == TRUE {
            return V::C(1);
        }
        if t == FALSE {
            return V::C(0);
        }
        match self.tm.as_const(t) {
            Some(b) => match b.to_u128() {
                Some(u) => V::C(u),
                None => V::S(t),
            },
            None => V::S(t),
        }
    }

    fn load_ty(&mut self, st: &mut State, addr: u64, t: &Ty) -> R<V> {
        if t.is_agg() {
            let mut v = vec![];
            for i in 0..t.elems() {
                let (o, ft) = t.field(i);
                v.push(self.load_ty(st, addr + o, &ft)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let r = st.mem.load(&mut self.tm, addr, t.size())?;
        Ok(match r {
            Val::C(c) => match t {
                Ty::Int(n) => V::C(c & mask(*n)),
                _ => V::C(c),
            },
            Val::S(x) => match t {
                Ty::Int(1) => {
                    let b = self.tm.i2b(x);
                    self.mkv(b)
                }
                Ty::Int(n) if *n as u64 != t.size() * 8 => {
                    let e = self.tm.ext(x, 0, *n);
                    self.mkv(e)
                }
                _ => V::S(x),
            },
        })
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, t: &Ty, v: &V) -> R<()> {
        if t.is_agg() {
            match v {
                V::A(vs) => {
                    for i in 0..t.elems() {
                        let (o, ft) = t.field(i);
                        self.store_ty(st, addr + o, &ft, &vs[i as usize])?;
                    }
                    return Ok(());
                }
                _ => return Err(Stop::Err("store aggregate".into())),
            }
        }
        let val = match v {
            V::C(c) => Val::C(*c),
            V::S(_) => Val::S(self.it(v)?),
            _ => return Err(Stop::Err("store".into())),
        };
        st.mem.store(&mut self.tm, addr, t.size(), &val)?;
        Ok(())
    }

    /// Reduce an integer term into [0, 2^n), forking on wrap-around by at most one modulus.
    fn wrap(&mut self, st: &mut State, s: T, n: u32) -> R<T> {
        let md = Big::pow2(n);
        let top = md.sub(&Big::one());
        if self.tm.in_range(s, &Big::zero(), &top) {
            return Ok(s);
        }
        let z = self.tm.cu(0);
        let ge0 = self.tm.le(z, s);
        let tc = self.tm.cst(top);
        let le = self.tm.le(s, tc);
        if !self.decide(st, ge0)? {
            let m = self.tm.cst(md);
            let r = self.tm.add(s, m);
            return Ok(r);
        }
        if self.decide(st, le)? {
            return Ok(s);
        }
        let m = self.tm.cst(md);
        Ok(self.tm.sub(s, m))
    }
    fn signed(&mut self, t: T, n: u32) -> T {
        let half = Big::pow2(n - 1);
        if self.tm.in_range(t, &Big::zero(), &half.sub(&Big::one())) {
            return t;
        }
        let h = self.tm.cst(half);
        let ge = self.tm.le(h, t);
        let m = self.tm.cst(Big::pow2(n));
        let lo = self.tm.sub(t, m);
        self.tm.ite(ge, lo, t)
    }
    /// t & const
    fn and_const(&mut self, t: T, c: u128, n: u32) -> T {
        let mut r = self.tm.cu(0);
        let mut i = 0;
        while i < n {
            if c >> i & 1 == 0 {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < n && c >> j & 1 == 1 {
                j += 1;
            }
            let e = self.tm.ext(t, i, j - i);
            let e = self.tm.scale(e, &Big::pow2(i));
            r = self.tm.add(r, e);
            i = j;
        }
        r
    }
    fn multiple_of(&self, t: T, k: u32) -> bool {
        let p = Big::pow2(k);
        match &self.tm.nodes[t as usize] {
            Node::Const(c) => c.div_mod_floor(&p).1.is_zero(),
            Node::Poly(ts, c) => c.div_mod_floor(&p).1.is_zero() && ts.iter().all(|x| x.1.div_mod_floor(&p).1.is_zero()),
            _ => false,
        }
    }
    /// Bits that can be set in `t`, when it is visibly a concatenation of fields.
    fn field_mask(&self, t: T) -> Option<u128> {
        let whole = |s: &Self| s.bits(t).and_then(|k| if k <= 128 { Some(mask(k)) } else { None });
        match &self.tm.nodes[t as usize] {
            Node::Const(c) => c.to_u128(),
            Node::Poly(ts, c) => {
                let mut m = match c.to_u128() {
                    Some(c) => c,
                    None => return whole(self),
                };
                for (x, co) in ts.iter() {
                    let co = match co.to_u128() {
                        Some(c) if c.is_power_of_two() => c.trailing_zeros(),
                        _ => return whole(self),
                    };
                    let f = match self.field_mask(*x) {
                        Some(f) if co < 128 && f.leading_zeros() >= co => f << co,
                        _ => return whole(self),
                    };
                    if m & f != 0 {
                        return whole(self);
                    }
                    m |= f;
                }
                Some(m)
            }
            Node::Ite(_, a, b) => Some(self.field_mask(*a)? | self.field_mask(*b)?),
            _ => whole(self),
        }
    }
    fn bits(&self, t: T) -> Option<u32> {
        match &self.tm.iv[t as usize] {
            (Some(l), Some(h)) if !l.neg => {
                let mut k = 0;
                while Big::pow2(k) <= *h {
                    k += 1;
                }
                Some(k)
            }
            _ => None,
        }
    }

    fn bin(&mut self, st: &mut State, b: Bin, n: u32, x: &V, y: &V, disjoint: bool) -> R<V> {
        if let (V::C(x), V::C(y)) = (x, y) {
            let (x, y) = (*x, *y);
            let m = mask(n);
            let r = match b {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => {
                    if y == 0 {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                    x / y
                }
                Bin::URem => {
                    if y == 0 {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                    x % y
                }
                Bin::SDiv => {
                    if y == 0 {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                    sx(x, n).wrapping_div(sx(y, n)) as u128
                }
                Bin::SRem => {
                    if y == 0 {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                    sx(x, n).wrapping_rem(sx(y, n)) as u128
                }
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= n as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= n as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sx(x, n) >> y.min(127)) as u128,
            };
            return Ok(V::C(r & m));
        }
        if n == 1 {
            let p = self.bt(x)?;
            let q = self.bt(y)?;
            let r = match b {
                Bin::And | Bin::Mul => self.tm.and(p, q),
                Bin::Or => self.tm.or(p, q),
                Bin::Xor | Bin::Add | Bin::Sub => self.tm.xor(p, q),
                _ => return Err(Stop::Err(format!("i1 op {:?}", b))),
            };
            return Ok(self.mkv(r));
        }
        let p = self.it(x)?;
        let q = self.it(y)?;
        let cy = if let V::C(c) = y { Some(*c) } else { None };
        let cx = if let V::C(c) = x { Some(*c) } else { None };
        let r = match b {
            Bin::Add => {
                let half = 1u128 << (n - 1);
                let s = match (cx, cy) {
                    (_, Some(c)) if c >= half => {
                        let k = self.tm.cst(Big::pow2(n).sub(&Big::from_u128(c)));
                        self.tm.sub(p, k)
                    }
                    (Some(c), _) if c >= half => {
                        let k = self.tm.cst(Big::pow2(n).sub(&Big::from_u128(c)));
                        self.tm.sub(q, k)
                    }
                    _ => self.tm.add(p, q),
                };
                self.wrap(st, s, n)?
            }
            Bin::Sub => {
                let s = self.tm.sub(p, q);
                self.wrap(st, s, n)?
            }
            Bin::Mul => {
                if cx == Some(mask(n)) || cy == Some(mask(n)) {
                    // negation
                    let o = if cx.is_some() { q } else { p };
                    let z = self.tm.cu(0);
                    let s = self.tm.sub(z, o);
                    self.wrap(st, s, n)?
                } else {
                    let s = self.tm.mul(p, q);
                    let top = Big::pow2(n).sub(&Big::one());
                    if self.tm.in_range(s, &Big::zero(), &top) {
                        s
                    } else {
                        let tc = self.tm.cst(top);
                        let c = self.tm.le(s, tc);
                        if self.decide(st, c)? {
                            s
                        } else {
                            self.tm.ext(s, 0, n)
                        }
                    }
                }
            }
            Bin::UDiv | Bin::URem => {
                let qt = match cy {
                    Some(0) => return Err(Stop::Panic("division by zero".into())),
                    Some(c) => self.tm.div_c(p, &Big::from_u128(c)),
                    None => {
                        let z = self.tm.cu(0);
                        let e = self.tm.eq(q, z);
                        if self.decide(st, e)? {
                            return Err(Stop::Panic("division by zero".into()));
                        }
                        let o = self.tm.cu(1);
                        self.tm.mul_div(p, o, q)
                    }
                };
                if b == Bin::UDiv {
                    qt
                } else {
                    let pr = self.tm.mul(qt, q);
                    self.tm.sub(p, pr)
                }
            }
            Bin::And => match (cx, cy) {
                (Some(c), _) => self.and_const(q, c, n),
                (_, Some(c)) => self.and_const(p, c, n),
                _ => {
                    if p == q {
                        p
                    } else if self.bits(p).map_or(false, |k| k <= 1) || self.bits(q).map_or(false, |k| k <= 1) {
                        let a = self.tm.i2b(p);
                        let c = self.tm.i2b(q);
                        let r = self.tm.and(a, c);
                        self.tm.b2i(r)
                    } else {
                        return Err(Stop::Err("symbolic and".into()));
                    }
                }
            },
            Bin::Or | Bin::Xor => {
                let (kp, kq) = (self.bits(p), self.bits(q));
                let dis = (disjoint && b == Bin::Or)
                    || kp.map_or(false, |k| self.multiple_of(q, k))
                    || kq.map_or(false, |k| self.multiple_of(p, k))
                    || matches!((self.field_mask(p), self.field_mask(q)), (Some(a), Some(b)) if a & b == 0);
                if dis {
                    self.tm.add(p, q)
                } else if let Some(c) = cx.or(cy) {
                    let o = if cx.is_some() { q } else { p };
                    let a = self.and_const(o, c, n);
                    let ct = self.tm.cu(c);
                    let s = self.tm.add(o, ct);
                    let a = if b == Bin::Xor { self.tm.scale(a, &Big::from_u128(2)) } else { a };
                    self.tm.sub(s, a)
                } else if p == q {
                    if b == Bin::Or {
                        p
                    } else {
                        self.tm.cu(0)
                    }
                } else if kp.map_or(false, |k| k <= 1) && kq.map_or(false, |k| k <= 1) {
                    let a = self.tm.i2b(p);
                    let c = self.tm.i2b(q);
                    let r = if b == Bin::Or { self.tm.or(a, c) } else { self.tm.xor(a, c) };
                    self.tm.b2i(r)
                } else if b == Bin::Or {
                    // only ever compared against zero in practice: split on the operands being zero
                    let z = self.tm.cu(0);
                    let e = self.tm.eq(p, z);
                    if self.decide(st, e)? {
                        q
                    } else {
                        let e = self.tm.eq(q, z);
                        if self.decide(st, e)? {
                            p
                        } else {
                            return Err(Stop::Err("symbolic or".into()));
                        }
                    }
                } else {
                    // xor compared against zero means equality
                    let e = self.tm.eq(p, q);
                    if self.decide(st, e)? {
                        self.tm.cu(0)
                    } else {
                        return Err(Stop::Err("symbolic xor".into()));
                    }
                }
            }
            Bin::Shl | Bin::LShr | Bin::AShr => {
                let k = self.conc(st, y)? as u32;
                if k >= n {
                    self.tm.cu(0)
                } else {
                    match b {
                        Bin::Shl => {
                            let e = self.tm.ext(p, 0, n - k);
                            self.tm.scale(e, &Big::pow2(k))
                        }
                        Bin::LShr => self.tm.ext(p, k, n - k),
                        _ => {
                            let s = self.signed(p, n);
                            if s == p {
                                self.tm.ext(p, k, n - k)
                            } else {
                                let d = self.tm.div_c(s, &Big::pow2(k));
                                self.wrap(st, d, n)?
                            }
                        }
                    }
                }
            }
            Bin::SDiv | Bin::SRem => {
                let (sp, sq) = (self.signed(p, n), self.signed(q, n));
                if sp == p && sq == q {
                    return self.bin(st, if b == Bin::SDiv { Bin::UDiv } else { Bin::URem }, n, x, y, false);
                }
                return Err(Stop::Err("symbolic signed division".into()));
            }
        };
        Ok(self.mkv(r))
    }

    fn icmp(&mut self, p: Pred, n: u32, x: &V, y: &V) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, n), sx(b, n));
            return Ok(V::C(match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
            } as u128));
        }
        if n == 1 {
            let a = self.bt(x)?;
            let b = self.bt(y)?;
            let na = self.tm.not(a);
            let nb = self.tm.not(b);
            let r = match p {
                Pred::Ne => self.tm.xor(a, b),
                Pred::Eq => {
                    let r = self.tm.xor(a, b);
                    self.tm.not(r)
                }
                Pred::Ugt | Pred::Slt => self.tm.and(a, nb),
                Pred::Ult | Pred::Sgt => self.tm.and(na, b),
                Pred::Uge | Pred::Sle => self.tm.or(a, nb),
                Pred::Ule | Pred::Sge => self.tm.or(na, b),
            };
            return Ok(self.mkv(r));
        }
        let mut a = self.it(x)?;
        let mut b = self.it(y)?;
        if matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle) {
            a = self.signed(a, n);
            b = self.signed(b, n);
        }
        let r = match p {
            Pred::Eq => self.tm.eq(a, b),
            Pred::Ne => {
                let r = self.tm.eq(a, b);
                self.tm.not(r)
            }
            Pred::Ugt | Pred::Sgt => self.tm.lt(b, a),
            Pred::Uge | Pred::Sge => self.tm.le(b, a),
            Pred::Ult | Pred::Slt => self.tm.lt(a, b),
            Pred::Ule | Pred::Sle => self.tm.le(a, b),
        };
        Ok(self.mkv(r))
    }

    fn cast(&mut self, st: &mut State, c: Cast, from: &Ty, v: &V, to: &Ty) -> R<V> {
        if let (Ty::Vect(n, ft), Ty::Vect(m, tt)) = (from, to) {
            if n == m {
                if let V::A(vs) = v {
                    let mut o = vec![];
                    for x in vs.iter() {
                        o.push(self.cast(st, c, ft, x, tt)?);
                    }
                    return Ok(V::A(Rc::new(o)));
                }
            }
        }
        match c {
            Cast::Freeze => return Ok(v.clone()),
            Cast::Bit => {
                let fv = matches!(from, Ty::Vect(..));
                let tv = matches!(to, Ty::Vect(..));
                if !fv && !tv {
                    return Ok(v.clone());
                }
                // through bits
                let mut acc: u128 = 0;
                match (from, v) {
                    (Ty::Vect(_, et), V::A(vs)) => {
                        let w = match &**et {
                            Ty::Int(w) => *w,
                            t => (t.size() * 8) as u32,
                        };
                        for (i, x) in vs.iter().enumerate() {
                            let c = self.conc(st, x)?;
                            acc |= c << (w * i as u32);
                        }
                    }
                    (_, x) => acc = self.conc(st, x)?,
                }
                if let Ty::Vect(n, et) = to {
                    let w = match &**et {
                        Ty::Int(w) => *w,
                        t => (t.size() * 8) as u32,
                    };
                    let mut o = vec![];
                    for i in 0..*n {
                        o.push(V::C(acc >> (w * i) & mask(w)));
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                return Ok(V::C(acc));
            }
            _ => {}
        }
        let w = |t: &Ty| match t {
            Ty::Int(n) => *n,
            _ => 64,
        };
        let (n, m) = (w(from), w(to));
        match v {
            V::C(x) => Ok(V::C(
                match c {
                    Cast::Sext => sx(*x, n) as u128,
                    _ => *x,
                } & mask(m),
            )),
            V::S(t) => {
                if n == m {
                    return Ok(v.clone());
                }
                let r = match c {
                    Cast::Zext => self.it(v)?,
                    Cast::Trunc | Cast::PtrInt => {
                        if m < n {
                            if m == 1 {
                                let i = self.it(v)?;
                                self.tm.i2b(i)
                            } else {
                                let i = self.it(v)?;
                                self.tm.ext(i, 0, m)
                            }
                        } else {
                            self.it(v)?
                        }
                    }
                    Cast::Sext => {
                        if n == 1 {
                            let o = self.tm.cu(mask(m));
                            let z = self.tm.cu(0);
                            self.tm.ite(*t, o, z)
                        } else {
                            let s = self.signed(*t, n);
                            if s == *t {
                                s
                            } else {
                                let h = self.tm.cst(Big::pow2(n - 1));
                                let ge = self.tm.le(h, *t);
                                let k = self.tm.cst(Big::pow2(m).sub(&Big::pow2(n)));
                                let hi = self.tm.add(*t, k);
                                self.tm.ite(ge, hi, *t)
                            }
                        }
                    }
                    _ => return Err(Stop::Err("cast".into())),
                };
                Ok(self.mkv(r))
            }
            _ => Err(Stop::Err("cast of aggregate".into())),
        }
    }

    fn select(&mut self, st: &mut State, t: &Ty, c: &V, a: &V, b: &V) -> R<V> {
        if let V::A(cs) = c {
            if let (V::A(x), V::A(y), Ty::Vect(_, et)) = (a, b, t) {
                let mut o = vec![];
                for i in 0..cs.len() {
                    o.push(self.select(st, et, &cs[i], &x[i], &y[i])?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(_) => {
                let ct = self.bt(c)?;
                if let Some(&x) = st.facts.get(&ct) {
                    return Ok(if x { a.clone() } else { b.clone() });
                }
                match t {
                    Ty::Int(1) => {
                        let p = self.bt(a)?;
                        let q = self.bt(b)?;
                        let r = self.tm.bite(ct, p, q);
                        Ok(self.mkv(r))
                    }
                    Ty::Int(_) => {
                        let p = self.it(a)?;
                        let q = self.it(b)?;
                        let r = self.tm.ite(ct, p, q);
                        Ok(self.mkv(r))
                    }
                    _ => Ok(if self.decide(st, ct)? { a.clone() } else { b.clone() }),
                }
            }
            _ => Err(Stop::Err("select".into())),
        }
    }

    fn lanes<F: FnMut(&mut Engine, &mut State, &V, &V) -> R<V>>(&mut self, st: &mut State, x: &V, y: &V, mut f: F) -> R<V> {
        match (x, y) {
            (V::A(a), V::A(b)) => {
                let mut o = vec![];
                for i in 0..a.len() {
                    o.push(f(self, st, &a[i], &b[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => f(self, st, x, y),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let f = st.frames.last().unwrap().f.clone();
        let from = st.frames.last().unwrap().blk;
        let phis = &f.blocks[to as usize].phis;
        if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (r, _, v) in phis {
                let o = v.iter().find(|x| x.0 == from).ok_or_else(|| Stop::Err("phi".into()))?;
                vals.push((*r, self.op(st, &o.1)));
            }
            let fr = st.frames.last_mut().unwrap();
            for (r, v) in vals {
                fr.regs[r as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.pc = 0;
        Ok(())
    }

    fn set(&self, st: &mut State, d: u32, v: V) {
        let fr = st.frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.pc += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.instrs += 1;
        if st.instrs > self.max_instrs {
            return Err(Stop::Err("instruction limit".into()));
        }
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].insts[fr.pc];
        let width = |t: &Ty| match t {
            Ty::Int(n) => *n,
            Ty::Vect(_, e) => match &**e {
                Ty::Int(n) => *n,
                _ => 64,
            },
            _ => 64,
        };
        match inst {
            Inst::Alloca(d, sz, n) => {
                let nv = self.op(st, n);
                let n = self.conc(st, &nv)? as u64;
                let a = st.mem.alloc(sz * n);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *d, V::C(a as u128));
            }
            Inst::Load(d, t, p) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv)? as u64;
                let v = self.load_ty(st, a, t)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv)? as u64;
                let v = self.op(st, v);
                self.store_ty(st, a, t, &v)?;
                st.frames.last_mut().unwrap().pc += 1;
            }
            Inst::Gep(d, b, off, dynv) => {
                let bv = self.op(st, b);
                let mut a = self.conc(st, &bv)? as u64;
                a = a.wrapping_add(*off as u64);
                for (w, o, sc) in dynv.iter() {
                    let v = self.op(st, o);
                    let i = sx(self.conc(st, &v)?, *w) as i64;
                    a = a.wrapping_add(i.wrapping_mul(*sc) as u64);
                }
                self.set(st, *d, V::C(a as u128));
            }
            Inst::Icmp(d, p, t, x, y) => {
                let x = self.op(st, x);
                let y = self.op(st, y);
                let n = width(t);
                let v = self.lanes(st, &x, &y, |e, _, a, b| e.icmp(*p, n, a, b))?;
                self.set(st, *d, v);
            }
            Inst::Bin(d, b, t, x, y, dj) => {
                let x = self.op(st, x);
                let y = self.op(st, y);
                let n = width(t);
                let v = self.lanes(st, &x, &y, |e, st, p, q| e.bin(st, *b, n, p, q, *dj))?;
                self.set(st, *d, v);
            }
            Inst::Cast(d, c, ft, x, tt) => {
                let x = self.op(st, x);
                let v = self.cast(st, *c, ft, &x, tt)?;
                self.set(st, *d, v);
            }
            Inst::Select(d, t, c, a, b, _) => {
                let c = self.op(st, c);
                let a = self.op(st, a);
                let b = self.op(st, b);
                let v = self.select(st, t, &c, &a, &b)?;
                self.set(st, *d, v);
            }
            Inst::ExtractV(d, a, ix) => {
                let mut v = self.op(st, a);
                for i in ix.iter() {
                    v = match &v {
                        V::A(vs) => vs[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertV(d, t, a, v, ix) => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let r = insert(&a, t, &v, ix);
                self.set(st, *d, r);
            }
            Inst::ExtractE(d, a, i) => {
                let a = self.op(st, a);
                let iv = self.op(st, i);
                let i = self.conc(st, &iv)? as usize;
                let v = match &a {
                    V::A(vs) => vs[i].clone(),
                    _ => return Err(Stop::Err("extractelement".into())),
                };
                self.set(st, *d, v);
            }
            Inst::InsertE(d, t, a, v, i) => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let iv = self.op(st, i);
                let i = self.conc(st, &iv)? as u32;
                let r = insert(&a, t, &v, &[i]);
                self.set(st, *d, r);
            }
            Inst::Shuffle(d, _t, a, b, k) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let (x, y) = match (&a, &b) {
                    (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                    _ => return Err(Stop::Err("shuffle".into())),
                };
                let ks = match k {
                    K::Agg(v) => v.clone(),
                    _ => return Err(Stop::Err("shuffle mask".into())),
                };
                let mut o = vec![];
                for k in ks.iter() {
                    let i = match k {
                        K::I(i) => *i as usize,
                        _ => 0,
                    };
                    o.push(if i < x.len() { x[i].clone() } else { y[(i - x.len()).min(y.len() - 1)].clone() });
                }
                self.set(st, *d, V::A(Rc::new(o)));
            }
            Inst::Rmw(d, o, t, p, v) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv)? as u64;
                let v = self.op(st, v);
                let old = self.load_ty(st, a, t)?;
                let n = width(t);
                let nv = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, Bin::Add, n, &old, &v, false)?,
                    "sub" => self.bin(st, Bin::Sub, n, &old, &v, false)?,
                    "and" => self.bin(st, Bin::And, n, &old, &v, false)?,
                    "or" => self.bin(st, Bin::Or, n, &old, &v, false)?,
                    "xor" => self.bin(st, Bin::Xor, n, &old, &v, false)?,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store_ty(st, a, t, &nv)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, t, p, c, nw) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv)? as u64;
                let c = self.op(st, c);
                let nw = self.op(st, nw);
                let old = self.load_ty(st, a, t)?;
                let e = self.icmp(Pred::Eq, width(t), &old, &c)?;
                let e = self.conc(st, &e)?;
                if e == 1 {
                    self.store_ty(st, a, t, &nw)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(e)])));
            }
            Inst::Nop => st.frames.last_mut().unwrap().pc += 1,
            Inst::Br(b) => self.jump(st, *b)?,
            Inst::CondBr(c, a, b) => {
                let v = self.op(st, c);
                let t = match &v {
                    V::C(x) => x & 1 == 1,
                    v => {
                        let t = self.bt(v)?;
                        self.decide(st, t)?
                    }
                };
                self.jump(st, if t { *a } else { *b })?;
            }
            Inst::Switch(t, c, df, cases) => {
                let v = self.op(st, c);
                let mut to = *df;
                match &v {
                    V::C(x) => {
                        for (k, b) in cases.iter() {
                            if k == x {
                                to = *b;
                                break;
                            }
                        }
                    }
                    v => {
                        for (k, b) in cases.iter() {
                            let e = self.icmp(Pred::Eq, width(t), v, &V::C(*k))?;
                            if self.conc(st, &e)? == 1 {
                                to = *b;
                                break;
                            }
                        }
                    }
                }
                self.jump(st, to)?;
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.free(a)?;
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, v) {
                    st.frames.last_mut().unwrap().regs[d as usize] = v;
                }
                match fr.next_blk {
                    Some(b) => self.jump(st, b)?,
                    None => st.frames.last_mut().unwrap().pc += 1,
                }
            }
            Inst::Unreachable => return Err(Stop::Err("unreachable executed".into())),
            Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported: {}", s))),
            Inst::Call(d, rt, callee, args, nb) => {
                let fid = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = self.op(st, o);
                        let a = self.conc(st, &v)? as u64;
                        if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fn_names.len() as u64 {
                            return Err(Stop::Err(format!("indirect call to {:#x}", a)));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let mut av: Vec<V> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                let h = self.hooks[fid as usize];
                if h != Hook::None {
                    if let Hook::DispInt(w) = h {
                        let a = self.conc(st, &av[0])? as u64;
                        if let Val::S(t) = st.mem.load(&mut self.tm, a, (w / 8) as u64)? {
                            // a placeholder that identifies the value; only a 128-bit one is parsed back
                            let ph = match w {
                                128 => PLACEHOLDER + t as u128,
                                64 => 7_000_000_000u128 + t as u128,
                                _ => 77,
                            };
                            let o = st.mem.alloc((w / 8) as u64);
                            st.mem.store(&mut self.tm, o, (w / 8) as u64, &Val::C(ph))?;
                            av[0] = V::C(o as u128);
                        }
                    } else if let Hook::ParseU128 = h {
                        let (o, p, n) = (self.conc(st, &av[0])? as u64, self.conc(st, &av[1])? as u64, self.conc(st, &av[2])? as u64);
                        let v = st.mem.bytes(p, n).ok().and_then(|b| String::from_utf8(b).ok()).and_then(|b| b.parse::<u128>().ok());
                        if let Some(v) = v.filter(|v| *v >= PLACEHOLDER && *v - PLACEHOLDER < self.tm.nodes.len() as u128) {
                            // the decimal text of a symbolic value: Ok(that value)
                            st.mem.store(&mut self.tm, o, 1, &Val::C(0))?;
                            st.mem.store(&mut self.tm, o + 16, 16, &Val::S((v - PLACEHOLDER) as T))?;
                            match nb {
                                Some(b) => self.jump(st, *b)?,
                                None => st.frames.last_mut().unwrap().pc += 1,
                            }
                            return Ok(());
                        }
                    } else {
                        let r = self.hook(st, h, fid, rt, args, &av)?;
                        if let (Some(d), Some(v)) = (d, r) {
                            st.frames.last_mut().unwrap().regs[*d as usize] = v;
                        }
                        match nb {
                            Some(b) => self.jump(st, *b)?,
                            None => st.frames.last_mut().unwrap().pc += 1,
                        }
                        return Ok(());
                    }
                }
                if !self.m.has_body(fid) {
                    return Err(Stop::Err(format!("external function {}", self.m.fn_names[fid as usize])));
                }
                let f = self.m.func(fid)?;
                self.rep.funcs.insert(fid);
                if self.trace {
                    eprintln!("{}> {}", " ".repeat(st.frames.len()), short(&self.m.fn_names[fid as usize]));
                }
                if st.frames.len() > 2000 {
                    return Err(Stop::Err("call depth".into()));
                }
                let mut regs = vec![V::C(0); f.nregs as usize];
                for (i, (r, _)) in f.params.iter().enumerate() {
                    regs[*r as usize] = av[i].clone();
                }
                st.frames.push(Frame { f, regs, blk: 0, pc: 0, ret: *d, next_blk: *nb, allocas: vec![] });
            }
        }
        Ok(())
    }

    fn sstr(&mut self, st: &mut State, p: &V, l: &V) -> R<String> {
        let a = self.conc(st, p)? as u64;
        let n = self.conc(st, l)? as u64;
        let b = st.mem.bytes(a, n)?;
        Ok(String::from_utf8_lossy(&b).to_string())
    }

    fn fresh(&mut self, st: &mut State, name: &str, lo: Big, hi: Big) -> T {
        let c = st.counts.entry(name.to_string()).or_insert(0);
        let k = *c;
        *c += 1;
        let key = (name.to_string(), k, lo.clone(), hi.clone());
        if let Some(&t) = self.varkeys.get(&key) {
            return t;
        }
        let t = self.tm.new_var(format!("{}#{}", name, k), lo, hi);
        self.varkeys.insert(key, t);
        t
    }

    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        if c == TRUE {
            return Ok(());
        }
        if c == FALSE {
            return Err(Stop::Infeasible);
        }
        if let Some(&b) = st.facts.get(&c) {
            return if b { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if !self.eval_b(st, c) {
            match self.query(st, c) {
                Sat::Unsat => return Err(Stop::Infeasible),
                Sat::Sat(m) => {
                    st.model = Engine::merged(st, m);
                    st.memo = Rc::new(RefCell::new(HashMap::new()));
                }
                Sat::Unknown => return Err(Stop::Err("solver unknown on an assumption".into())),
            }
        }
        self.add_pc(st, c);
        Ok(())
    }

    fn zt(&mut self, v: &V) -> R<T> {
        match v {
            V::C(c) => Ok(*c as T),
            _ => Err(Stop::Err("symbolic Z handle".into())),
        }
    }

    fn hook(&mut self, st: &mut State, h: Hook, fid: u32, rt: &Ty, args: &[(Ty, Op)], av: &[V]) -> R<Option<V>> {
        let w = |t: &Ty| match t {
            Ty::Int(n) => *n,
            Ty::Vect(_, e) => match &**e {
                Ty::Int(n) => *n,
                _ => 64,
            },
            _ => 64,
        };
        let c64 = |e: &mut Engine, st: &mut State, i: usize| -> R<u64> { Ok(e.conc(st, &av[i])? as u64) };
        Ok(match h {
            Hook::Nop => None,
            Hook::None | Hook::DispInt(_) | Hook::ParseU128 => unreachable!(),
            Hook::Unknown => return Err(Stop::Err(format!("intrinsic {}", self.m.fn_names[fid as usize]))),
            Hook::Panic => return Err(Stop::Panic(short(&self.m.fn_names[fid as usize]))),
            Hook::Memcpy => {
                let (d, s, n) = (c64(self, st, 0)?, c64(self, st, 1)?, c64(self, st, 2)?);
                st.mem.copy(&mut self.tm, d, s, n)?;
                Some(V::C(d as u128))
            }
            Hook::Memset => {
                let (d, b, n) = (c64(self, st, 0)?, c64(self, st, 1)?, c64(self, st, 2)?);
                st.mem.set(&mut self.tm, d, b as u8, n)?;
                Some(V::C(d as u128))
            }
            Hook::Bcmp => {
                let (a, b, n) = (c64(self, st, 0)?, c64(self, st, 1)?, c64(self, st, 2)?);
                let d = st.mem.diff(&mut self.tm, a, b, n)?;
                let mut v = vec![];
                for (x, y, _) in d {
                    v.push(self.tm.eq(x, y));
                }
                let eq = self.tm.and_n(v);
                Some(V::C(if self.decide(st, eq)? { 0 } else { 1 }))
            }
            Hook::Memcmp => {
                let (a, b, n) = (c64(self, st, 0)?, c64(self, st, 1)?, c64(self, st, 2)?);
                let d = st.mem.diff(&mut self.tm, a, b, n)?;
                let mut r = 0u128;
                let mut i = 0;
                while i < d.len() {
                    // runs of single bytes (symbolic text) are compared as one number
                    let mut j = i + 1;
                    while d[i].2 == 1 && j < d.len() && d[j].2 == 1 && j - i < 15 {
                        j += 1;
                    }
                    let mut v = vec![];
                    for (x, y, _) in &d[i..j] {
                        v.push(self.tm.eq(*x, *y));
                    }
                    let e = self.tm.and_n(v);
                    if self.decide(st, e)? {
                        i = j;
                        continue;
                    }
                    let (p, q) = if j - i == 1 {
                        (self.tm.bswap(d[i].0, d[i].2), self.tm.bswap(d[i].1, d[i].2))
                    } else {
                        let (mut p, mut q) = (self.tm.cu(0), self.tm.cu(0));
                        for (x, y, _) in &d[i..j] {
                            p = self.tm.scale(p, &crate::big::Big::pow2(8));
                            p = self.tm.add(p, *x);
                            q = self.tm.scale(q, &crate::big::Big::pow2(8));
                            q = self.tm.add(q, *y);
                        }
                        (p, q)
                    };
                    let lt = self.tm.lt(p, q);
                    r = if self.decide(st, lt)? { mask(32) } else { 1 };
                    break;
                }
                Some(V::C(r))
            }
            Hook::Strlen => {
                let a = c64(self, st, 0)?;
                let mut n = 0;
                loop {
                    match st.mem.load(&mut self.tm, a + n, 1)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return Err(Stop::Err("strlen".into())),
                    }
                }
                Some(V::C(n as u128))
            }
            Hook::Alloc | Hook::AllocZ => {
                let n = c64(self, st, 0)?;
                if n > 1 << 28 {
                    return Err(Stop::Err(format!("allocation of {}", n)));
                }
                Some(V::C(st.mem.alloc(n) as u128))
            }
            Hook::Dealloc => {
                let a = c64(self, st, 0)?;
                st.mem.free(a)?;
                None
            }
            Hook::Realloc => {
                let (p, old, n) = (c64(self, st, 0)?, c64(self, st, 1)?, c64(self, st, 3)?);
                if n > 1 << 28 {
                    return Err(Stop::Err(format!("allocation of {}", n)));
                }
                let a = st.mem.alloc(n);
                st.mem.copy(&mut self.tm, a, p, old.min(n))?;
                st.mem.free(p)?;
                Some(V::C(a as u128))
            }
            Hook::RandKeys => {
                if *rt == Ty::Void {
                    return Err(Stop::Err("hashmap_random_keys abi".into()));
                }
                Some(V::A(Rc::new(vec![V::C(0x1234_5678), V::C(0x9abc_def0)])))
            }
            Hook::Umax | Hook::Umin | Hook::Smax | Hook::Smin => {
                let n = w(&args[0].0);
                let p = match h {
                    Hook::Umax => Pred::Ugt,
                    Hook::Umin => Pred::Ult,
                    Hook::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(self.lanes(st, &av[0], &av[1], |e, st, a, b| {
                    let c = e.icmp(p, n, a, b)?;
                    e.select(st, &Ty::Int(n), &c, a, b)
                })?)
            }
            Hook::AddO | Hook::SubO | Hook::MulO => {
                let n = w(&args[0].0);
                if let (V::C(a), V::C(b)) = (&av[0], &av[1]) {
                    let (a, b) = (Big::from_u128(*a), Big::from_u128(*b));
                    let r = match h {
                        Hook::AddO => a.add(&b),
                        Hook::SubO => a.sub(&b),
                        _ => a.mul(&b),
                    };
                    let md = Big::pow2(n);
                    let ov = r.neg || r >= md;
                    let lo = r.div_mod_floor(&md).1.to_u128().unwrap();
                    Some(V::A(Rc::new(vec![V::C(lo), V::C(ov as u128)])))
                } else {
                    let a = self.it(&av[0])?;
                    let b = self.it(&av[1])?;
                    let s = match h {
                        Hook::AddO => self.tm.add(a, b),
                        Hook::SubO => self.tm.sub(a, b),
                        _ => self.tm.mul(a, b),
                    };
                    let z = self.tm.cu(0);
                    let tc = self.tm.cst(Big::pow2(n).sub(&Big::one()));
                    let c1 = self.tm.le(z, s);
                    let c2 = self.tm.le(s, tc);
                    let ok = self.tm.and(c1, c2);
                    if self.decide(st, ok)? {
                        let v = self.mkv(s);
                        Some(V::A(Rc::new(vec![v, V::C(0)])))
                    } else {
                        let m = self.tm.cst(Big::pow2(n));
                        let r = match h {
                            Hook::AddO => self.tm.sub(s, m),
                            Hook::SubO => self.tm.add(s, m),
                            _ => self.tm.ext(s, 0, n),
                        };
                        let v = self.mkv(r);
                        Some(V::A(Rc::new(vec![v, V::C(1)])))
                    }
                }
            }
            Hook::SAddO | Hook::SSubO => {
                let n = w(&args[0].0);
                if let (V::C(a), V::C(b)) = (&av[0], &av[1]) {
                    let r = if h == Hook::SAddO { sx(*a, n).wrapping_add(sx(*b, n)) } else { sx(*a, n).wrapping_sub(sx(*b, n)) };
                    let ov = n < 128 && sx(r as u128 & mask(n), n) != r;
                    Some(V::A(Rc::new(vec![V::C(r as u128 & mask(n)), V::C(ov as u128)])))
                } else {
                    return Err(Stop::Err("signed overflow intrinsic".into()));
                }
            }
            Hook::AddSat => {
                let n = w(&args[0].0);
                Some(self.lanes(st, &av[0], &av[1], |e, _st, x, y| {
                    let a = e.it(x)?;
                    let b = e.it(y)?;
                    let s = e.tm.add(a, b);
                    let tc = e.tm.cst(Big::pow2(n).sub(&Big::one()));
                    let ok = e.tm.le(s, tc);
                    let r = e.tm.ite(ok, s, tc);
                    Ok(e.mkv(r))
                })?)
            }
            Hook::SubSat => Some(self.lanes(st, &av[0], &av[1], |e, _st, x, y| {
                let a = e.it(x)?;
                let b = e.it(y)?;
                let z = e.tm.cu(0);
                let s = e.tm.sub(a, b);
                let ok = e.tm.le(z, s);
                let r = e.tm.ite(ok, s, z);
                Ok(e.mkv(r))
            })?),
            Hook::Bswap => {
                let n = w(&args[0].0);
                match &av[0] {
                    V::C(c) => Some(V::C(c.swap_bytes() >> (128 - n))),
                    v => {
                        let t = self.it(v)?;
                        let r = self.tm.bswap(t, n / 8);
                        Some(self.mkv(r))
                    }
                }
            }
            Hook::Ctpop | Hook::Ctlz | Hook::Cttz => {
                let n = w(&args[0].0);
                let f = |c: u128| -> u128 {
                    (match h {
                        Hook::Ctpop => c.count_ones(),
                        Hook::Ctlz => c.leading_zeros() - (128 - n),
                        _ => c.trailing_zeros().min(n),
                    }) as u128
                };
                match &av[0] {
                    V::A(vs) => {
                        let mut o = vec![];
                        for x in vs.iter() {
                            o.push(V::C(f(self.conc(st, x)?)));
                        }
                        Some(V::A(Rc::new(o)))
                    }
                    // split by the position of the highest bit rather than by value
                    V::S(t) if matches!(h, Hook::Ctlz) && !self.tm.is_bool(*t) => {
                        let t = *t;
                        let (mut lo, mut hi) = (0u32, n);
                        while lo < hi {
                            let mid = (lo + hi) / 2;
                            let k = self.tm.cu(1u128 << mid);
                            let c = self.tm.lt(t, k);
                            if self.decide(st, c)? {
                                hi = mid;
                            } else {
                                lo = mid + 1;
                            }
                        }
                        Some(V::C((n - lo) as u128))
                    }
                    v => Some(V::C(f(self.conc(st, v)?))),
                }
            }
            Hook::Abs => {
                let n = w(&args[0].0);
                match &av[0] {
                    V::C(c) => Some(V::C(sx(*c, n).unsigned_abs() & mask(n))),
                    v => {
                        let t = self.it(v)?;
                        let s = self.signed(t, n);
                        if s == t {
                            Some(v.clone())
                        } else {
                            return Err(Stop::Err("abs".into()));
                        }
                    }
                }
            }
            Hook::RedAdd | Hook::RedOr => {
                let n = w(&args[0].0);
                match &av[0] {
                    V::A(vs) => {
                        let mut acc = V::C(0);
                        for x in vs.iter() {
                            acc = self.bin(st, if h == Hook::RedAdd { Bin::Add } else { Bin::Or }, n, &acc, x, false)?;
                        }
                        Some(acc)
                    }
                    _ => return Err(Stop::Err("reduce".into())),
                }
            }
            Hook::Expect => Some(av[0].clone()),
            Hook::LoadRel => {
                let (p, o) = (c64(self, st, 0)?, c64(self, st, 1)?);
                let v = st.mem.load(&mut self.tm, p.wrapping_add(o), 4)?;
                match v {
                    Val::C(c) => Some(V::C(p.wrapping_add(sx(c, 32) as u64) as u128)),
                    _ => return Err(Stop::Err("load.relative".into())),
                }
            }
            Hook::Fshl => {
                let n = w(&args[0].0);
                let k = self.conc(st, &av[2])? as u32 % n;
                if k == 0 {
                    Some(av[0].clone())
                } else {
                    let hi = self.bin(st, Bin::Shl, n, &av[0], &V::C(k as u128), false)?;
                    let lo = self.bin(st, Bin::LShr, n, &av[1], &V::C((n - k) as u128), false)?;
                    Some(self.bin(st, Bin::Or, n, &hi, &lo, true)?)
                }
            }
            Hook::Ucmp | Hook::Scmp => {
                let n = w(&args[0].0);
                let m = w(rt);
                let (lp, gp) = if h == Hook::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lp, n, &av[0], &av[1])?;
                let g = self.icmp(gp, n, &av[0], &av[1])?;
                let r = self.select(st, &Ty::Int(m), &g, &V::C(1), &V::C(0))?;
                Some(self.select(st, &Ty::Int(m), &l, &V::C(mask(m)), &r)?)
            }
            Hook::SymInt => {
                let name = self.sstr(st, &av[0], &av[1])?;
                let bits = c64(self, st, 2)? as u32;
                let lo = self.it(&av[3])?;
                let hi = self.it(&av[4])?;
                let l = self.tm.iv[lo as usize].0.clone().unwrap_or(Big::zero());
                let u = self.tm.iv[hi as usize].1.clone().unwrap_or(Big::pow2(bits).sub(&Big::one()));
                if u < l {
                    return Err(Stop::Infeasible);
                }
                let t = self.fresh(st, &name, l, u);
                st.inputs.push(Input::Int(name, t));
                let a = self.tm.le(lo, t);
                let b = self.tm.le(t, hi);
                let c = self.tm.and(a, b);
                self.assume(st, c)?;
                Some(self.mkv(t))
            }
            Hook::SymChoice => {
                let name = self.sstr(st, &av[0], &av[1])?;
                let n = c64(self, st, 2)?;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                // the call is re-executed in each sibling with its value preset
                let key = format!("?{}", name);
                if let Some(k) = st.counts.remove(&key) {
                    st.inputs.push(Input::Choice(name, k as u64));
                    return Ok(Some(V::C(k as u128)));
                }
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.instrs = 0;
                    o.counts.insert(key.clone(), k as u32);
                    self.rep.forks += 1;
                    self.work.push(o);
                }
                st.inputs.push(Input::Choice(name, 0));
                Some(V::C(0))
            }
            Hook::SymAssume => {
                let c = self.bt(&av[0])?;
                self.assume(st, c)?;
                None
            }
            Hook::SymCheck => {
                let label = self.sstr(st, &av[1], &av[2])?;
                let c = self.bt(&av[0])?;
                let c = self.refined(st, c)?;
                self.rep.checks.entry(label.clone()).or_insert((0, 0)).0 += 1;
                if c == FALSE {
                    let m = st.model.clone();
                    self.violation(st, &m, label);
                    return Err(Stop::Failed);
                } else if c != TRUE && st.facts.get(&c) != Some(&true) {
                    let nc = self.tm.not(c);
                    match self.query(st, nc) {
                        Sat::Unsat => self.learn(st, c, true),
                        Sat::Sat(m) => {
                            let m = Engine::merged(st, m);
                            self.violation(st, &m, label);
                            self.assume(st, c)?;
                        }
                        Sat::Unknown => {
                            if std::env::var("SHOW").is_ok() { { use std::io::Write; let mut f = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/unk.txt").unwrap(); let _ = writeln!(f, "UNKNOWN {}\n  pc {:?}", self.tm.show(c), st.pc.iter().map(|x| self.tm.show(*x)).collect::<Vec<_>>()); } }
                            *self.rep.inconclusive.entry(format!("solver unknown on check {}", label)).or_insert(0) += 1;
                        }
                    }
                }
                None
            }
            Hook::SymCover => {
                let label = self.sstr(st, &av[0], &av[1])?;
                st.covers.push(label.clone());
                *self.rep.covers.entry(label).or_insert(0) += 1;
                None
            }
            Hook::SymParam => {
                let name = self.sstr(st, &av[0], &av[1])?;
                let d = self.conc(st, &av[2])?;
                Some(V::C(self.params.iter().find(|p| p.0 == name).map(|p| p.1 as u128).unwrap_or(d)))
            }
            Hook::SymNoPanic => {
                st.no_panic = self.conc(st, &av[0])? & 1 == 1;
                None
            }
            Hook::SymZFrom => Some(V::C(self.it(&av[0])? as u128)),
            Hook::SymZOp => {
                let o = c64(self, st, 0)?;
                let a = self.zt(&av[1])?;
                let b = self.zt(&av[2])?;
                Some(V::C(match o {
                    0 => self.tm.add(a, b),
                    1 => self.tm.sub(a, b),
                    _ => self.tm.mul(a, b),
                } as u128))
            }
            Hook::SymZCmp => {
                let o = c64(self, st, 0)?;
                let a = self.zt(&av[1])?;
                let b = self.zt(&av[2])?;
                let r = match o {
                    0 => self.tm.eq(a, b),
                    1 => self.tm.le(a, b),
                    _ => self.tm.lt(a, b),
                };
                Some(self.mkv(r))
            }
            Hook::SymNote => {
                let name = self.sstr(st, &av[0], &av[1])?;
                st.notes.push((name, av[2].clone()));
                None
            }
            Hook::SymSplit => {
                let a = self.bt(&av[0])?;
                Some(V::C(self.decide(st, a)? as u128))
            }
            Hook::SymNot => {
                let a = self.bt(&av[0])?;
                let r = self.tm.not(a);
                Some(self.mkv(r))
            }
            Hook::SymAnd | Hook::SymOr => {
                let a = self.bt(&av[0])?;
                let b = self.bt(&av[1])?;
                let r = if h == Hook::SymAnd { self.tm.and(a, b) } else { self.tm.or(a, b) };
                Some(self.mkv(r))
            }
            Hook::SymIte => {
                let c = self.bt(&av[0])?;
                let a = self.it(&av[1])?;
                let b = self.it(&av[2])?;
                let r = self.tm.ite(c, a, b);
                Some(self.mkv(r))
            }
            Hook::SymMulDiv => {
                // (a, b, c, round_up, out) -> 0 ok, 1 overflow, 2 division by zero
                let a = self.it(&av[0])?;
                let b = self.it(&av[1])?;
                let c = self.it(&av[2])?;
                let up = self.conc(st, &av[3])? != 0;
                let out = c64(self, st, 4)?;
                let z = self.tm.cu(0);
                let e = self.tm.eq(c, z);
                if self.decide(st, e)? {
                    Some(V::C(2))
                } else {
                    let mut q = self.tm.mul_div(a, b, c);
                    if up {
                        let ab = self.tm.mul(a, b);
                        let qc = self.tm.mul(q, c);
                        let ex = self.tm.eq(ab, qc);
                        let nx = self.tm.not(ex);
                        let one = self.tm.b2i(nx);
                        q = self.tm.add(q, one);
                    }
                    let tc = self.tm.cu(u128::MAX);
                    let ok = self.tm.le(q, tc);
                    if self.decide(st, ok)? {
                        let v = match self.mkv(q) {
                            V::C(c) => Val::C(c),
                            V::S(t) => Val::S(t),
                            _ => unreachable!(),
                        };
                        st.mem.store(&mut self.tm, out, 16, &v)?;
                        Some(V::C(0))
                    } else {
                        Some(V::C(1))
                    }
                }
            }
        })
    }
}

fn zero(t: &Ty) -> V {
    if t.is_agg() {
        V::A(Rc::new((0..t.elems()).map(|i| zero(&t.field(i).1)).collect()))
    } else {
        V::C(0)
    }
}

fn insert(a: &V, t: &Ty, v: &V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return v.clone();
    }
    let mut vs = match a {
        V::A(vs) => (**vs).clone(),
        _ => match zero(t) {
            V::A(vs) => (*vs).clone(),
            _ => vec![],
        },
    };
    let i = ix[0] as usize;
    vs[i] = insert(&vs[i], &t.field(i as u64).1, v, &ix[1..]);
    V::A(Rc::new(vs))
}

/// Readable form of a legacy-mangled Rust symbol.
pub fn short(n: &str) -> String {
    let s = match n.strip_prefix("_ZN") {
        Some(s) => s,
        None => return n.to_string(),
    };
    let b = s.as_bytes();
    let mut i = 0;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > b.len() {
            break;
        }
        parts.push(s[i..i + k].to_string());
        i += k;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let r = parts.join("::");
    r.replace("$LT$", "<")
        .replace("$GT$", ">")
        .replace("$u20$", " ")
        .replace("$RF$", "&")
        .replace("$u7b$", "{")
        .replace("$u7d$", "}")
        .replace("$C$", ",")
        .replace("$LP$", "(")
        .replace("$RP$", ")")
        .replace("$u5b$", "[")
        .replace("$u5d$", "]")
        .replace("..", "::")
}
