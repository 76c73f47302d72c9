//! LLVM textual IR: module index, lazily parsed functions, types and constants.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vect(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(n) => (*n / 8) as u64,
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vect(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(n) => (*n / 8) as u64,
            Ty::Struct(ts, _) => {
                let (off, _) = self.struct_layout(ts.len());
                let a = self.align();
                (off + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vect(n, t) => match &**t {
                Ty::Int(b) => ((*n as u64) * (*b as u64) + 7) / 8,
                t => *n as u64 * t.size(),
            },
            _ => 0,
        }
    }
    /// End offset of the first `upto` fields, and the offset of field `upto`.
    fn struct_layout(&self, upto: usize) -> (u64, u64) {
        if let Ty::Struct(ts, packed) = self {
            let mut off = 0u64;
            for t in ts.iter().take(upto) {
                if !packed {
                    let a = t.align();
                    off = (off + a - 1) / a * a;
                }
                off += t.size();
            }
            let mut st = off;
            if upto < ts.len() && !packed {
                let a = ts[upto].align();
                st = (off + a - 1) / a * a;
            }
            (off, st)
        } else {
            (0, 0)
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(ts, _) => (self.struct_layout(i as usize).1, ts[i as usize].clone()),
            Ty::Array(_, t) | Ty::Vect(_, t) => (i.wrapping_mul(t.size()), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn elems(&self) -> u64 {
        match self {
            Ty::Struct(ts, _) => ts.len() as u64,
            Ty::Array(n, _) => *n,
            Ty::Vect(n, _) => *n as u64,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vect(..))
    }
}

/// Constant value.
#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    Agg(Rc<Vec<K>>),
    Bytes(Rc<Vec<u8>>),
    Zero(Ty),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
    PtrInt,
    Freeze,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca(u32, u64, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    /// base, constant offset, scaled indices (index width, op, scale)
    Gep(u32, Op, i64, Box<[(u32, Op, i64)]>),
    Icmp(u32, Pred, Ty, Op, Op),
    Bin(u32, Bin, Ty, Op, Op, bool),
    Cast(u32, Cast, Ty, Op, Ty),
    Select(u32, Ty, Op, Op, Op, Ty),
    ExtractV(u32, Op, Box<[u32]>),
    InsertV(u32, Ty, Op, Op, Box<[u32]>),
    ExtractE(u32, Op, Op),
    InsertE(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, K),
    Call(Option<u32>, Ty, Callee, Box<[(Ty, Op)]>, Option<u32>),
    Rmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Box<[(u128, u32)]>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub id: u32,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
}

pub const FN_BASE: u64 = 0x7F00_0000_0000_0000;

pub struct Module {
    src: Rc<String>,
    pub fn_names: Vec<String>,
    pub fn_ids: HashMap<String, u32>,
    fn_body: Vec<Option<(usize, usize)>>,
    pub parsed: Vec<Option<Rc<Func>>>,
    pub globals: Vec<Global>,
    pub global_ids: HashMap<String, u32>,
    aliases: HashMap<String, String>,
    types: HashMap<String, Ty>,
}

/// Global i lives at object id i; the address space maps object id o to ((o+1)<<32).
pub fn obj_addr(o: u32) -> u64 {
    ((o as u64) + 1) << 32
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glob(&'a str),
    Num(&'a str),
    Str(&'a str),
    P(char),
    Meta,
    Attr,
    End,
}

pub struct Lx<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    pub cur: Tok<'a>,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Lx<'a> {
        let mut l = Lx { s, b: s.as_bytes(), i: 0, cur: Tok::End };
        l.adv();
        l
    }
    fn quoted(&mut self) -> &'a str {
        let st = self.i + 1;
        let mut j = st;
        while self.b[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        &self.s[st..j]
    }
    pub fn adv(&mut self) -> Tok<'a> {
        let old = std::mem::replace(&mut self.cur, Tok::End);
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
        if self.i >= self.b.len() {
            return old;
        }
        let c = self.b[self.i];
        self.cur = match c {
            b';' => {
                self.i = self.b.len();
                Tok::End
            }
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.b[self.i] == b'"' {
                    self.quoted()
                } else {
                    let st = self.i;
                    while self.i < self.b.len() && idc(self.b[self.i]) {
                        self.i += 1;
                    }
                    &self.s[st..self.i]
                };
                if c == b'%' {
                    Tok::Loc(n)
                } else {
                    Tok::Glob(n)
                }
            }
            b'!' => {
                self.i += 1;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Attr
            }
            b'"' => {
                let q = self.quoted();
                Tok::Str(q)
            }
            b'c' if self.i + 1 < self.b.len() && self.b[self.i + 1] == b'"' => {
                self.i += 1;
                let q = self.quoted();
                Tok::Str(q)
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && (idc(self.b[self.i]) || self.b[self.i] == b'+') {
                    self.i += 1;
                }
                Tok::Num(&self.s[st..self.i])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = self.i;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Id(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        };
        old
    }
    pub fn is(&self, c: char) -> bool {
        self.cur == Tok::P(c)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.cur == Tok::Id(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn ex(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?} in: {}", c, self.cur, self.s))
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => return,
                _ => {}
            }
        }
    }
    fn is_type(&self) -> bool {
        match &self.cur {
            Tok::Id(s) => {
                matches!(*s, "ptr" | "void" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "metadata" | "label" | "token" | "bfloat" | "opaque")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            _ => false,
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
            continue;
        }
        if b[i] == b'\\' && i + 2 < b.len() {
            let h = |c: u8| (c as char).to_digit(16);
            if let (Some(x), Some(y)) = (h(b[i + 1]), h(b[i + 2])) {
                o.push((x * 16 + y) as u8);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

pub fn mask(n: u32) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1u128 << n) - 1
    }
}

impl Module {
    pub fn load(text: String) -> Result<Module, String> {
        let src = Rc::new(text);
        let mut m = Module {
            src: src.clone(),
            fn_names: vec![],
            fn_ids: HashMap::new(),
            fn_body: vec![],
            parsed: vec![],
            globals: vec![],
            global_ids: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        let mut gl: Vec<(u32, usize, usize)> = vec![];
        let mut pos = 0;
        let mut infn: Option<(u32, usize)> = None;
        let bytes = src.as_bytes();
        while pos < bytes.len() {
            let end = memchr_nl(bytes, pos);
            let line = &src[pos..end];
            if let Some((id, st)) = infn {
                if line == "}" {
                    m.fn_body[id as usize] = Some((st, end));
                    infn = None;
                }
            } else if line.starts_with("define ") {
                let n = fn_name_of(line)?;
                let id = m.fn_id(n);
                infn = Some((id, pos));
            } else if line.starts_with("declare ") {
                let n = fn_name_of(line)?;
                m.fn_id(n);
            } else if line.starts_with('@') {
                let mut lx = Lx::new(line);
                if let Tok::Glob(n) = lx.adv() {
                    let head: String = line.chars().take(400).collect();
                    if head.contains(" alias ") {
                        if let Some(p) = line.rfind('@') {
                            let mut l2 = Lx::new(&line[p..]);
                            if let Tok::Glob(t) = l2.adv() {
                                m.aliases.insert(n.to_string(), t.to_string());
                            }
                        }
                    } else {
                        let id = m.globals.len() as u32;
                        m.globals.push(Global { name: n.to_string(), ty: Ty::Other, init: None, constant: false });
                        m.global_ids.insert(n.to_string(), id);
                        gl.push((id, pos, end));
                    }
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let mut lx = Lx::new(line);
                if let Tok::Loc(n) = lx.adv() {
                    lx.eat('=');
                    lx.eat_id("type");
                    let t = m.ty(&mut lx)?;
                    m.types.insert(n.to_string(), t);
                }
            }
            pos = end + 1;
        }
        for (id, s, e) in gl {
            let line = &src[s..e];
            let mut lx = Lx::new(line);
            lx.adv();
            lx.eat('=');
            let mut ext = false;
            loop {
                match lx.adv() {
                    Tok::Id("external") | Tok::Id("extern_weak") => ext = true,
                    Tok::Id("constant") => {
                        m.globals[id as usize].constant = true;
                        break;
                    }
                    Tok::Id("global") => break,
                    Tok::P('(') => {
                        while lx.adv() != Tok::P(')') {}
                    }
                    Tok::End => return Err(format!("global: {}", line)),
                    _ => {}
                }
            }
            let t = m.ty(&mut lx)?;
            if !ext {
                let k = m.konst(&mut lx, &t)?;
                m.globals[id as usize].init = Some(k);
            }
            m.globals[id as usize].ty = t;
        }
        Ok(m)
    }

    fn fn_id(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.fn_ids.get(n) {
            return i;
        }
        let i = self.fn_names.len() as u32;
        self.fn_names.push(n.to_string());
        self.fn_ids.insert(n.to_string(), i);
        self.fn_body.push(None);
        self.parsed.push(None);
        i
    }
    pub fn has_body(&self, f: u32) -> bool {
        self.fn_body[f as usize].is_some()
    }
    pub fn fn_addr(f: u32) -> u64 {
        FN_BASE + (f as u64) * 16
    }

    fn ty<'a>(&self, lx: &mut Lx<'a>) -> Result<Ty, String> {
        let t = match lx.adv() {
            Tok::Id("ptr") => {
                if lx.cur == Tok::Id("addrspace") {
                    lx.adv();
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Id("void") => Ty::Void,
            Tok::Id("float") => Ty::Float(32),
            Tok::Id("double") => Ty::Float(64),
            Tok::Id(s) if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
            Tok::Id(_) => Ty::Other,
            Tok::Loc(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            Tok::P('{') => {
                let v = self.ty_list(lx, '}')?;
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P('[') => {
                let n = match lx.adv() {
                    Tok::Num(n) => n.parse().map_err(|_| "array len")?,
                    t => return Err(format!("array type {:?}", t)),
                };
                lx.adv();
                let t = self.ty(lx)?;
                lx.ex(']')?;
                Ty::Array(n, Rc::new(t))
            }
            Tok::P('<') => {
                if lx.eat('{') {
                    let v = self.ty_list(lx, '}')?;
                    lx.ex('>')?;
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = match lx.adv() {
                        Tok::Num(n) => n.parse().map_err(|_| "vec len")?,
                        t => return Err(format!("vector type {:?}", t)),
                    };
                    lx.adv();
                    let t = self.ty(lx)?;
                    lx.ex('>')?;
                    Ty::Vect(n, Rc::new(t))
                }
            }
            t => return Err(format!("type {:?} in {}", t, lx.s)),
        };
        Ok(t)
    }
    fn ty_list<'a>(&self, lx: &mut Lx<'a>, close: char) -> Result<Vec<Ty>, String> {
        let mut v = vec![];
        if lx.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(lx)?);
            if lx.eat(close) {
                return Ok(v);
            }
            lx.ex(',')?;
        }
    }
    fn sym_addr(&self, n: &str) -> Result<u64, String> {
        if let Some(&g) = self.global_ids.get(n) {
            return Ok(obj_addr(g));
        }
        if let Some(&f) = self.fn_ids.get(n) {
            return Ok(Module::fn_addr(f));
        }
        if let Some(a) = self.aliases.get(n) {
            return self.sym_addr(a);
        }
        Err(format!("unknown symbol {}", n))
    }
    fn konst<'a>(&self, lx: &mut Lx<'a>, t: &Ty) -> Result<K, String> {
        Ok(match lx.adv() {
            Tok::Num(s) => match t {
                Ty::Int(n) => {
                    let v = if let Some(r) = s.strip_prefix('-') {
                        (r.parse::<u128>().map_err(|_| format!("num {}", s))?).wrapping_neg()
                    } else {
                        s.parse::<u128>().map_err(|_| format!("num {}", s))?
                    };
                    K::I(v & mask(*n))
                }
                _ => K::I(0),
            },
            Tok::Id("true") => K::I(1),
            Tok::Id("false") => K::I(0),
            Tok::Id("null") => K::I(0),
            Tok::Id("none") => K::I(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") => {
                if t.is_agg() {
                    K::Zero(t.clone())
                } else {
                    K::I(0)
                }
            }
            Tok::Glob(n) => K::I(self.sym_addr(n)? as u128),
            Tok::Str(s) => K::Bytes(Rc::new(unescape(s))),
            Tok::Id("splat") => {
                lx.ex('(')?;
                let et = self.ty(lx)?;
                let k = self.konst(lx, &et)?;
                lx.ex(')')?;
                K::Agg(Rc::new(vec![k; t.elems() as usize]))
            }
            Tok::P('{') => self.klist(lx, '}')?,
            Tok::P('[') => self.klist(lx, ']')?,
            Tok::P('<') => {
                if lx.eat('{') {
                    let k = self.klist(lx, '}')?;
                    lx.ex('>')?;
                    k
                } else {
                    self.klist(lx, '>')?
                }
            }
            Tok::Id("getelementptr") => {
                while !lx.is('(') {
                    match lx.adv() {
                        Tok::Id("inrange") => lx.skip_parens(),
                        Tok::End => return Err("gep".into()),
                        _ => {}
                    }
                }
                lx.ex('(')?;
                let mut bt = self.ty(lx)?;
                lx.ex(',')?;
                let pt = self.ty(lx)?;
                let base = match self.konst(lx, &pt)? {
                    K::I(b) => b as u64,
                    _ => return Err("gep base".into()),
                };
                let mut off = 0i64;
                let mut first = true;
                while lx.eat(',') {
                    let it = self.ty(lx)?;
                    let w = if let Ty::Int(n) = it { n } else { 64 };
                    let i = match self.konst(lx, &it)? {
                        K::I(i) => sx(i, w) as i64,
                        _ => return Err("gep idx".into()),
                    };
                    if first {
                        off += i * bt.size() as i64;
                        first = false;
                    } else {
                        let (o, nt) = bt.field(i as u64);
                        off += o as i64;
                        bt = nt;
                    }
                }
                lx.ex(')')?;
                K::I(base.wrapping_add(off as u64) as u128)
            }
            Tok::Id(c @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast")) => {
                let _ = c;
                lx.ex('(')?;
                let it = self.ty(lx)?;
                let k = self.konst(lx, &it)?;
                lx.eat_id("to");
                let ot = self.ty(lx)?;
                lx.ex(')')?;
                match (k, &ot) {
                    (K::I(v), Ty::Int(n)) => K::I(v & mask(*n)),
                    (k, _) => k,
                }
            }
            Tok::Id(c @ ("add" | "sub" | "xor" | "and" | "or")) => {
                while !lx.is('(') {
                    lx.adv();
                }
                lx.ex('(')?;
                let it = self.ty(lx)?;
                let a = self.konst(lx, &it)?;
                lx.ex(',')?;
                let it2 = self.ty(lx)?;
                let b = self.konst(lx, &it2)?;
                lx.ex(')')?;
                let w = if let Ty::Int(n) = it { n } else { 64 };
                match (a, b) {
                    (K::I(a), K::I(b)) => K::I(
                        mask(w)
                            & match c {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "xor" => a ^ b,
                                "and" => a & b,
                                _ => a | b,
                            },
                    ),
                    _ => return Err("constexpr".into()),
                }
            }
            tk => return Err(format!("constant {:?} in {}", tk, &lx.s[..lx.s.len().min(300)])),
        })
    }
    fn klist<'a>(&self, lx: &mut Lx<'a>, close: char) -> Result<K, String> {
        let mut v = vec![];
        if lx.eat(close) {
            return Ok(K::Agg(Rc::new(v)));
        }
        loop {
            let t = self.ty(lx)?;
            v.push(self.konst(lx, &t)?);
            if lx.eat(close) {
                return Ok(K::Agg(Rc::new(v)));
            }
            lx.ex(',')?;
        }
    }

    pub fn func(&mut self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.parsed[id as usize] {
            return Ok(f.clone());
        }
        let (s, e) = self.fn_body[id as usize].ok_or_else(|| format!("no body: {}", self.fn_names[id as usize]))?;
        let src = self.src.clone();
        let f = Rc::new(self.parse_fn(id, &src[s..e])?);
        self.parsed[id as usize] = Some(f.clone());
        Ok(f)
    }

    fn parse_fn(&self, id: u32, text: &str) -> Result<Func, String> {
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let mut p = FnP { m: self, regs: HashMap::new(), blocks: HashMap::new() };
        // header
        let mut lx = Lx::new(head);
        lx.adv();
        while !lx.is_type() || lx.cur == Tok::Id("label") {
            let t = lx.adv();
            if t == Tok::End {
                return Err("fn header".into());
            }
            if lx.is('(') {
                lx.skip_parens();
            }
        }
        let ret = self.ty(&mut lx)?;
        lx.adv();
        lx.ex('(')?;
        let mut params = vec![];
        if !lx.eat(')') {
            loop {
                if lx.is('.') || lx.cur == Tok::Id("...") {
                    lx.adv();
                    break;
                }
                let t = self.ty(&mut lx)?;
                skip_attrs(&mut lx);
                let r = match lx.cur.clone() {
                    Tok::Loc(n) => {
                        lx.adv();
                        p.reg(n)
                    }
                    _ => return Err(format!("param {:?}", lx.cur)),
                };
                params.push((r, t));
                if lx.eat(')') {
                    break;
                }
                lx.ex(',')?;
            }
        }
        // logical lines
        let mut logical: Vec<String> = vec![];
        let mut acc = String::new();
        for l in lines {
            let tl = l.trim();
            if tl.is_empty() || tl == "}" {
                continue;
            }
            if !acc.is_empty() {
                acc.push(' ');
                // strip trailing comments in switch cases
                acc.push_str(tl);
                if acc.starts_with("switch") || acc.contains("= switch") {
                    if tl.starts_with(']') {
                        logical.push(std::mem::take(&mut acc));
                    }
                } else if tl.starts_with("to label") {
                    logical.push(std::mem::take(&mut acc));
                }
                continue;
            }
            if tl.starts_with("switch ") && !tl.contains(']') {
                acc = tl.to_string();
                continue;
            }
            if (tl.starts_with("invoke ") || tl.contains("= invoke ")) && !tl.contains(" to label ") {
                acc = tl.to_string();
                continue;
            }
            if tl.starts_with("catch ") || tl == "cleanup" || tl.starts_with("filter ") {
                continue;
            }
            logical.push(if l.starts_with(' ') { tl.to_string() } else { format!("\u{1}{}", tl) });
        }
        let mut blocks: Vec<Block> = vec![Block { phis: vec![], insts: vec![] }];
        // entry block's label: explicit or the next number
        let mut first = true;
        for l in &logical {
            if let Some(lab) = l.strip_prefix('\u{1}') {
                let name = if lab.starts_with('"') {
                    let e = lab[1..].find('"').unwrap() + 1;
                    &lab[1..e]
                } else {
                    &lab[..lab.find(':').ok_or("label")?]
                };
                if first {
                    p.blocks.insert(name.to_string(), 0);
                    first = false;
                    continue;
                }
                let b = p.blk(name);
                while blocks.len() <= b as usize {
                    blocks.push(Block { phis: vec![], insts: vec![] });
                }
                continue;
            }
            if first {
                // implicit entry label number = number of unnamed params
                p.blocks.insert(format!("{}", params.len()), 0);
                first = false;
            }
        }
        let mut cur = 0usize;
        for l in &logical {
            if let Some(lab) = l.strip_prefix('\u{1}') {
                let name = if lab.starts_with('"') {
                    let e = lab[1..].find('"').unwrap() + 1;
                    &lab[1..e]
                } else {
                    &lab[..lab.find(':').unwrap()]
                };
                cur = p.blk(name) as usize;
                continue;
            }
            match p.inst(l) {
                Ok(PI::I(Inst::Nop)) => {}
                Ok(PI::I(i)) => blocks[cur].insts.push(i),
                Ok(PI::Phi(r, t, v)) => blocks[cur].phis.push((r, t, v)),
                Err(e) => {
                    let _ = p.result_reg(l);
                    blocks[cur].insts.push(Inst::Unsupported(format!("{}: {}", e, l)))
                }
            }
        }
        Ok(Func { id, params, ret, blocks, nregs: p.regs.len() as u32 })
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

fn memchr_nl(b: &[u8], from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != b'\n' {
        i += 1;
    }
    i
}

fn fn_name_of(line: &str) -> Result<&str, String> {
    let p = line.find('@').ok_or("fn name")?;
    let r = &line[p + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"').unwrap();
        Ok(&q[..e])
    } else {
        Ok(&r[..r.find('(').ok_or("fn paren")?])
    }
}

fn skip_attrs(lx: &mut Lx) {
    loop {
        match &lx.cur {
            Tok::Id("align") => {
                lx.adv();
                if lx.is('(') {
                    lx.skip_parens();
                } else {
                    lx.adv();
                }
            }
            Tok::Id(s)
                if !matches!(
                    *s,
                    "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint"
                        | "splat" | "none" | "bitcast" | "add" | "sub" | "xor" | "and" | "or" | "trunc" | "zext"
                ) =>
            {
                lx.adv();
                if lx.is('(') {
                    lx.skip_parens();
                }
            }
            Tok::Str(_) => {
                lx.adv();
                if lx.eat('=') {
                    lx.adv();
                }
            }
            _ => return,
        }
    }
}

enum PI {
    I(Inst),
    Phi(u32, Ty, Vec<(u32, Op)>),
}

struct FnP<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FnP<'_> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let b = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), b);
        b
    }
    fn result_reg(&mut self, l: &str) -> Option<u32> {
        let mut lx = Lx::new(l);
        if let Tok::Loc(n) = lx.adv() {
            if lx.is('=') {
                return Some(self.reg(n));
            }
        }
        None
    }
    fn op(&mut self, lx: &mut Lx, t: &Ty) -> Result<Op, String> {
        if let Tok::Loc(n) = lx.cur {
            lx.adv();
            return Ok(Op::Reg(self.reg(n)));
        }
        Ok(Op::K(self.m.konst(lx, t)?))
    }
    fn top(&mut self, lx: &mut Lx) -> Result<(Ty, Op), String> {
        let t = self.m.ty(lx)?;
        skip_attrs(lx);
        let o = self.op(lx, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, lx: &mut Lx) -> Result<u32, String> {
        if !lx.eat_id("label") {
            return Err("label".into());
        }
        match lx.adv() {
            Tok::Loc(n) => Ok(self.blk(n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn inst(&mut self, l: &str) -> Result<PI, String> {
        let mut lx = Lx::new(l);
        let mut dst: Option<u32> = None;
        if let Tok::Loc(n) = lx.cur {
            lx.adv();
            if !lx.eat('=') {
                return Err("inst".into());
            }
            dst = Some(self.reg(n));
        }
        let opc = match lx.adv() {
            Tok::Id(s) => s,
            t => return Err(format!("opcode {:?}", t)),
        };
        let d = dst.unwrap_or(0);
        let bin = match opc {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            _ => None,
        };
        if let Some(b) = bin {
            let mut disjoint = false;
            while matches!(lx.cur, Tok::Id("nuw" | "nsw" | "exact" | "disjoint")) {
                if lx.cur == Tok::Id("disjoint") {
                    disjoint = true;
                }
                lx.adv();
            }
            let (t, a) = self.top(&mut lx)?;
            lx.ex(',')?;
            let c = self.op(&mut lx, &t)?;
            return Ok(PI::I(Inst::Bin(d, b, t, a, c, disjoint)));
        }
        let i = match opc {
            "alloca" => {
                lx.eat_id("inalloca");
                let t = self.m.ty(&mut lx)?;
                let mut n = Op::K(K::I(1));
                if lx.eat(',') && lx.is_type() {
                    let (_, o) = self.top(&mut lx)?;
                    n = o;
                }
                Inst::Alloca(d, t.size(), n)
            }
            "load" => {
                lx.eat_id("atomic");
                lx.eat_id("volatile");
                let t = self.m.ty(&mut lx)?;
                lx.ex(',')?;
                let (_, p) = self.top(&mut lx)?;
                Inst::Load(d, t, p)
            }
            "store" => {
                lx.eat_id("atomic");
                lx.eat_id("volatile");
                let (t, v) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, p) = self.top(&mut lx)?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while matches!(lx.cur, Tok::Id("inbounds" | "nuw" | "nusw")) {
                    lx.adv();
                }
                let mut bt = self.m.ty(&mut lx)?;
                lx.ex(',')?;
                let (pt, base) = self.top(&mut lx)?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                while lx.eat(',') {
                    if lx.cur == Tok::Meta {
                        break;
                    }
                    let (it, o) = self.top(&mut lx)?;
                    let w = if let Ty::Int(n) = it { n } else { return Err("vector gep".into()) };
                    if first {
                        first = false;
                        match o {
                            Op::K(K::I(i)) => off = off.wrapping_add((sx(i, w) as i64).wrapping_mul(bt.size() as i64)),
                            o => dynv.push((w, o, bt.size() as i64)),
                        }
                    } else {
                        match o {
                            Op::K(K::I(i)) => {
                                let (fo, nt) = match &bt {
                                    Ty::Struct(..) => bt.field(i as u64),
                                    Ty::Array(_, t) | Ty::Vect(_, t) => {
                                        ((sx(i, w) as i64).wrapping_mul(t.size() as i64) as u64, (**t).clone())
                                    }
                                    _ => return Err("gep type".into()),
                                };
                                off = off.wrapping_add(fo as i64);
                                bt = nt;
                            }
                            o => {
                                let nt = match &bt {
                                    Ty::Array(_, t) | Ty::Vect(_, t) => (**t).clone(),
                                    _ => return Err("gep type".into()),
                                };
                                dynv.push((w, o, nt.size() as i64));
                                bt = nt;
                            }
                        }
                    }
                }
                Inst::Gep(d, base, off, dynv.into())
            }
            "icmp" => {
                lx.eat_id("samesign");
                let p = match lx.adv() {
                    Tok::Id("eq") => Pred::Eq,
                    Tok::Id("ne") => Pred::Ne,
                    Tok::Id("ugt") => Pred::Ugt,
                    Tok::Id("uge") => Pred::Uge,
                    Tok::Id("ult") => Pred::Ult,
                    Tok::Id("ule") => Pred::Ule,
                    Tok::Id("sgt") => Pred::Sgt,
                    Tok::Id("sge") => Pred::Sge,
                    Tok::Id("slt") => Pred::Slt,
                    Tok::Id("sle") => Pred::Sle,
                    t => return Err(format!("pred {:?}", t)),
                };
                let (t, a) = self.top(&mut lx)?;
                lx.ex(',')?;
                let b = self.op(&mut lx, &t)?;
                Inst::Icmp(d, p, t, a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(lx.cur, Tok::Id("nuw" | "nsw" | "nneg")) {
                    lx.adv();
                }
                let (t, a) = self.top(&mut lx)?;
                if !lx.eat_id("to") {
                    return Err("cast".into());
                }
                let o = self.m.ty(&mut lx)?;
                let c = match opc {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bit,
                    _ => Cast::PtrInt,
                };
                Inst::Cast(d, c, t, a, o)
            }
            "freeze" => {
                let (t, a) = self.top(&mut lx)?;
                Inst::Cast(d, Cast::Freeze, t.clone(), a, t)
            }
            "select" => {
                let (ct, c) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (t, a) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, b) = self.top(&mut lx)?;
                Inst::Select(d, t, c, a, b, ct)
            }
            "extractvalue" => {
                let (_, a) = self.top(&mut lx)?;
                let mut ix = vec![];
                while lx.eat(',') {
                    match lx.adv() {
                        Tok::Num(n) => ix.push(n.parse().map_err(|_| "idx")?),
                        _ => break,
                    }
                }
                Inst::ExtractV(d, a, ix.into())
            }
            "insertvalue" => {
                let (t, a) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, v) = self.top(&mut lx)?;
                let mut ix = vec![];
                while lx.eat(',') {
                    match lx.adv() {
                        Tok::Num(n) => ix.push(n.parse().map_err(|_| "idx")?),
                        _ => break,
                    }
                }
                Inst::InsertV(d, t, a, v, ix.into())
            }
            "extractelement" => {
                let (_, a) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, i) = self.top(&mut lx)?;
                Inst::ExtractE(d, a, i)
            }
            "insertelement" => {
                let (t, a) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, v) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, i) = self.top(&mut lx)?;
                Inst::InsertE(d, t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, b) = self.top(&mut lx)?;
                lx.ex(',')?;
                let mt = self.m.ty(&mut lx)?;
                let k = self.m.konst(&mut lx, &mt)?;
                let k = match k {
                    K::Zero(Ty::Vect(n, _)) => K::Agg(Rc::new(vec![K::I(0); n as usize])),
                    k => k,
                };
                Inst::Shuffle(d, t, a, b, k)
            }
            "phi" => {
                let t = self.m.ty(&mut lx)?;
                let mut v = vec![];
                loop {
                    lx.ex('[')?;
                    let o = self.op(&mut lx, &t)?;
                    lx.ex(',')?;
                    let b = match lx.adv() {
                        Tok::Loc(n) => self.blk(n),
                        t => return Err(format!("phi {:?}", t)),
                    };
                    lx.ex(']')?;
                    v.push((b, o));
                    if !lx.eat(',') || lx.cur == Tok::Meta {
                        break;
                    }
                }
                return Ok(PI::Phi(d, t, v));
            }
            "br" => {
                if lx.cur == Tok::Id("label") {
                    Inst::Br(self.label(&mut lx)?)
                } else {
                    let (_, c) = self.top(&mut lx)?;
                    lx.ex(',')?;
                    let a = self.label(&mut lx)?;
                    lx.ex(',')?;
                    let b = self.label(&mut lx)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.top(&mut lx)?;
                lx.ex(',')?;
                let df = self.label(&mut lx)?;
                lx.ex('[')?;
                let mut v = vec![];
                while !lx.eat(']') {
                    let (_, k) = self.top(&mut lx)?;
                    lx.ex(',')?;
                    let b = self.label(&mut lx)?;
                    match k {
                        Op::K(K::I(x)) => v.push((x, b)),
                        _ => return Err("switch case".into()),
                    }
                }
                Inst::Switch(t, c, df, v.into())
            }
            "ret" => {
                if lx.cur == Tok::Id("void") {
                    Inst::Ret(None)
                } else {
                    let (t, v) = self.top(&mut lx)?;
                    Inst::Ret(Some((t, v)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "landingpad" | "resume" => Inst::Unsupported("unwinding".into()),
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if opc != "call" && opc != "invoke" {
                    lx.eat_id("call");
                }
                // calling convention, attributes, return type
                while !lx.is_type() {
                    if lx.adv() == Tok::End {
                        return Err("call".into());
                    }
                    if lx.is('(') {
                        lx.skip_parens();
                    }
                    if lx.cur == Tok::Id("align") {
                        lx.adv();
                    }
                }
                let rt = self.m.ty(&mut lx)?;
                if lx.is('(') {
                    lx.skip_parens();
                }
                let callee = match lx.adv() {
                    Tok::Glob(n) => {
                        let n = self.m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                        Callee::Direct(*self.m.fn_ids.get(n).ok_or_else(|| format!("unknown fn {}", n))?)
                    }
                    Tok::Loc(n) => Callee::Indirect(Op::Reg(self.reg(n))),
                    t => return Err(format!("callee {:?}", t)),
                };
                let name = match &callee {
                    Callee::Direct(f) => self.m.fn_names[*f as usize].as_str(),
                    _ => "",
                };
                if name.starts_with("llvm.lifetime")
                    || name.starts_with("llvm.experimental.noalias")
                    || name.starts_with("llvm.dbg")
                    || name == "llvm.assume"
                    || name.starts_with("llvm.prefetch")
                    || name.starts_with("llvm.donothing")
                    || name.starts_with("llvm.x86.sse2.pause")
                {
                    return Ok(PI::I(Inst::Nop));
                }
                lx.ex('(')?;
                let mut args = vec![];
                if !lx.eat(')') {
                    loop {
                        if lx.cur == Tok::Id("metadata") {
                            return Ok(PI::I(Inst::Nop));
                        }
                        args.push(self.top(&mut lx)?);
                        if lx.eat(')') {
                            break;
                        }
                        lx.ex(',')?;
                    }
                }
                let mut nb = None;
                if opc == "invoke" {
                    loop {
                        if lx.cur == Tok::Id("to") {
                            lx.adv();
                            nb = Some(self.label(&mut lx)?);
                            break;
                        }
                        if lx.adv() == Tok::End {
                            return Err("invoke".into());
                        }
                    }
                }
                let dd = if rt == Ty::Void { None } else { dst };
                Inst::Call(dd, rt, callee, args.into(), nb)
            }
            "atomicrmw" => {
                lx.eat_id("volatile");
                let o = match lx.adv() {
                    Tok::Id(s) => s.to_string(),
                    t => return Err(format!("rmw {:?}", t)),
                };
                let (_, p) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (t, v) = self.top(&mut lx)?;
                Inst::Rmw(d, o, t, p, v)
            }
            "cmpxchg" => {
                lx.eat_id("weak");
                lx.eat_id("volatile");
                let (_, p) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (t, c) = self.top(&mut lx)?;
                lx.ex(',')?;
                let (_, n) = self.top(&mut lx)?;
                Inst::CmpXchg(d, t, p, c, n)
            }
            _ => return Err("unsupported opcode".into()),
        };
        Ok(PI::I(i))
    }
}
