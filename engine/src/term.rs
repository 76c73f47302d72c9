//! Hash-consed terms over mathematical integers and booleans.
//!
//! Integer terms are kept in polynomial normal form; machine words are integers in `[0, 2^n)`.
use crate::big::Big;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Big),
    Var(u32),
    Poly(Box<[(T, Big)]>, Big),
    Mono(Box<[T]>),
    Ite(T, T, T),
    Div(T, Big),
    Ext(T, u32, u32),
    Bs(T, u32),
    /// floor(a*b/c)
    MulDiv(T, T, T),
    True,
    False,
    Le0(T),
    Eq0(T),
    Not(T),
    And(Box<[T]>),
    Or(Box<[T]>),
}

pub struct VarInfo {
    pub name: String,
    pub lo: Big,
    pub hi: Big,
}

pub type Iv = (Option<Big>, Option<Big>);

pub struct Terms {
    pub nodes: Vec<Node>,
    pub iv: Vec<Iv>,
    pub vars_of: Vec<Rc<[u32]>>,
    pub mds_of: Vec<Rc<[T]>>,
    nl: Vec<bool>,
    map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    empty_v: Rc<[u32]>,
}

pub const TRUE: T = 0;
pub const FALSE: T = 1;

pub type Model = HashMap<u32, Big>;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    I(Big),
    B(bool),
}

fn union(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            r.push(b[j]);
            j += 1;
        } else {
            r.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    r.into()
}

fn imul(a: &Iv, b: &Iv) -> Iv {
    // only precise for bounded or non-negative operands
    match (a, b) {
        ((Some(al), Some(ah)), (Some(bl), Some(bh))) => {
            let ps = [al.mul(bl), al.mul(bh), ah.mul(bl), ah.mul(bh)];
            (ps.iter().min().cloned(), ps.iter().max().cloned())
        }
        ((Some(al), _), (Some(bl), _)) if !al.neg && !bl.neg => (Some(al.mul(bl)), None),
        _ => (None, None),
    }
}

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms {
            nodes: vec![],
            iv: vec![],
            vars_of: vec![],
            mds_of: vec![],
            nl: vec![],
            map: HashMap::new(),
            vars: vec![],
            empty_v: Vec::new().into(),
        };
        assert_eq!(t.mk(Node::True), TRUE);
        assert_eq!(t.mk(Node::False), FALSE);
        t
    }

    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let id = self.nodes.len() as T;
        let iv = self.interval(&n);
        let (vs, ms) = self.deps(&n, id);
        let nl = matches!(n, Node::Mono(_) | Node::MulDiv(..)) || Self::kids(&n).iter().any(|&k| self.nl[k as usize]);
        self.nl.push(nl);
        self.map.insert(n.clone(), id);
        self.nodes.push(n);
        self.iv.push(iv);
        self.vars_of.push(vs);
        self.mds_of.push(ms);
        id
    }

    fn kids(n: &Node) -> Vec<T> {
        match n {
            Node::Poly(ts, _) => ts.iter().map(|x| x.0).collect(),
            Node::Mono(ts) | Node::And(ts) | Node::Or(ts) => ts.to_vec(),
            Node::Ite(a, b, c) | Node::MulDiv(a, b, c) => vec![*a, *b, *c],
            Node::Div(a, _) | Node::Ext(a, _, _) | Node::Bs(a, _) | Node::Le0(a) | Node::Eq0(a) | Node::Not(a) => vec![*a],
            _ => vec![],
        }
    }

    fn deps(&self, n: &Node, id: T) -> (Rc<[u32]>, Rc<[T]>) {
        if let Node::Var(v) = n {
            return (vec![*v].into(), self.empty_v.clone());
        }
        let mut vs = self.empty_v.clone();
        let mut ms = self.empty_v.clone();
        for k in Self::kids(n) {
            vs = union(&vs, &self.vars_of[k as usize]);
            ms = union(&ms, &self.mds_of[k as usize]);
        }
        if let Node::MulDiv(..) = n {
            ms = union(&ms, &vec![id].into());
        }
        (vs, ms)
    }

    fn interval(&self, n: &Node) -> Iv {
        let z = || Some(Big::zero());
        match n {
            Node::Const(c) => (Some(c.clone()), Some(c.clone())),
            Node::Var(v) => {
                let i = &self.vars[*v as usize];
                (Some(i.lo.clone()), Some(i.hi.clone()))
            }
            Node::Poly(ts, k) => {
                let (mut lo, mut hi) = (Some(k.clone()), Some(k.clone()));
                for (t, c) in ts.iter() {
                    let (tl, th) = &self.iv[*t as usize];
                    let (al, ah) = if c.neg { (th, tl) } else { (tl, th) };
                    lo = match (lo, al) {
                        (Some(x), Some(y)) => Some(x.add(&c.mul(y))),
                        _ => None,
                    };
                    hi = match (hi, ah) {
                        (Some(x), Some(y)) => Some(x.add(&c.mul(y))),
                        _ => None,
                    };
                }
                (lo, hi)
            }
            Node::Mono(ts) => {
                let mut r = (Some(Big::one()), Some(Big::one()));
                for t in ts.iter() {
                    r = imul(&r, &self.iv[*t as usize]);
                }
                r
            }
            Node::Ite(_, a, b) => {
                let (al, ah) = &self.iv[*a as usize];
                let (bl, bh) = &self.iv[*b as usize];
                let lo = match (al, bl) {
                    (Some(x), Some(y)) => Some(x.min(y).clone()),
                    _ => None,
                };
                let hi = match (ah, bh) {
                    (Some(x), Some(y)) => Some(x.max(y).clone()),
                    _ => None,
                };
                (lo, hi)
            }
            Node::Div(a, c) => {
                let (l, h) = &self.iv[*a as usize];
                (l.as_ref().map(|x| x.div_mod_floor(c).0), h.as_ref().map(|x| x.div_mod_floor(c).0))
            }
            Node::Ext(a, lo, n) => {
                let full = Big::pow2(*n).sub(&Big::one());
                match &self.iv[*a as usize] {
                    (Some(l), Some(h)) if !l.neg => {
                        let d = h.div_mod_floor(&Big::pow2(*lo)).0;
                        (z(), Some(if d < full { d } else { full }))
                    }
                    _ => (z(), Some(full)),
                }
            }
            Node::Bs(_, n) => (z(), Some(Big::pow2(8 * n).sub(&Big::one()))),
            Node::MulDiv(a, b, c) => {
                let (_, ah) = &self.iv[*a as usize];
                let (_, bh) = &self.iv[*b as usize];
                let (cl, _) = &self.iv[*c as usize];
                let hi = match (ah, bh) {
                    (Some(x), Some(y)) => {
                        let p = x.mul(y);
                        match cl {
                            Some(c) if !c.neg && !c.is_zero() => Some(p.div_mod_floor(c).0),
                            _ => Some(p),
                        }
                    }
                    _ => None,
                };
                (z(), hi)
            }
            _ => (None, None),
        }
    }

    // ---- construction ----
    pub fn cst(&mut self, b: Big) -> T {
        self.mk(Node::Const(b))
    }
    pub fn cu(&mut self, v: u128) -> T {
        self.mk(Node::Const(Big::from_u128(v)))
    }
    pub fn as_const(&self, t: T) -> Option<&Big> {
        match &self.nodes[t as usize] {
            Node::Const(b) => Some(b),
            _ => None,
        }
    }
    pub fn new_var(&mut self, name: String, lo: Big, hi: Big) -> T {
        if lo == hi {
            return self.cst(lo);
        }
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name, lo, hi });
        self.mk(Node::Var(v))
    }
    fn parts(&self, t: T) -> (Vec<(T, Big)>, Big) {
        match &self.nodes[t as usize] {
            Node::Const(c) => (vec![], c.clone()),
            Node::Poly(ts, k) => (ts.to_vec(), k.clone()),
            _ => (vec![(t, Big::one())], Big::zero()),
        }
    }
    fn from_parts(&mut self, mut ts: Vec<(T, Big)>, k: Big) -> T {
        ts.sort_by_key(|x| x.0);
        let mut out: Vec<(T, Big)> = Vec::with_capacity(ts.len());
        for (t, c) in ts {
            if let Some(l) = out.last_mut() {
                if l.0 == t {
                    l.1 = l.1.add(&c);
                    continue;
                }
            }
            out.push((t, c));
        }
        out.retain(|x| !x.1.is_zero());
        // merge adjacent extracts of one term: c*Ext(x,l,n) + c*2^n*Ext(x,l+n,m) = c*Ext(x,l,n+m)
        if out.len() >= 2 {
            let exts: Vec<(usize, T, u32, u32)> = out
                .iter()
                .enumerate()
                .filter_map(|(i, (t, _))| match &self.nodes[*t as usize] {
                    Node::Ext(x, l, n) => Some((i, *x, *l, *n)),
                    _ => None,
                })
                .collect();
            for a in &exts {
                for b in &exts {
                    if a.0 != b.0 && a.1 == b.1 && a.2 + a.3 == b.2 && out[b.0].1 == out[a.0].1.mul(&Big::pow2(a.3)) {
                        let c = out[a.0].1.clone();
                        let (x, l, n) = (a.1, a.2, a.3 + b.3);
                        let (i, j) = (a.0.max(b.0), a.0.min(b.0));
                        out.remove(i);
                        out.remove(j);
                        let e = self.ext(x, l, n);
                        let (mut es, ek) = self.parts(e);
                        for p in es.iter_mut() {
                            p.1 = p.1.mul(&c);
                        }
                        out.extend(es);
                        let k2 = k.add(&ek.mul(&c));
                        return self.from_parts(out, k2);
                    }
                }
            }
        }
        if out.is_empty() {
            return self.cst(k);
        }
        if out.len() == 1 && k.is_zero() && out[0].1.is_one() {
            return out[0].0;
        }
        self.mk(Node::Poly(out.into(), k))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let (mut x, k) = self.parts(a);
        let (y, l) = self.parts(b);
        x.extend(y);
        self.from_parts(x, k.add(&l))
    }
    pub fn scale(&mut self, a: T, c: &Big) -> T {
        let (mut x, k) = self.parts(a);
        for p in x.iter_mut() {
            p.1 = p.1.mul(c);
        }
        self.from_parts(x, k.mul(c))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let nb = self.scale(b, &Big::from_i128(-1));
        self.add(a, nb)
    }
    fn mono(&mut self, a: T, b: T) -> T {
        let mut v = vec![];
        for t in [a, b] {
            match &self.nodes[t as usize] {
                Node::Mono(ts) => v.extend(ts.iter().cloned()),
                _ => v.push(t),
            }
        }
        v.sort();
        self.mk(Node::Mono(v.into()))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let (x, k) = self.parts(a);
        let (y, l) = self.parts(b);
        let mut out = vec![];
        for (t, c) in &x {
            for (u, d) in &y {
                out.push((self.mono(*t, *u), c.mul(d)));
            }
            out.push((*t, c.mul(&l)));
        }
        for (u, d) in &y {
            out.push((*u, d.mul(&k)));
        }
        self.from_parts(out, k.mul(&l))
    }
    pub fn in_range(&self, t: T, lo: &Big, hi: &Big) -> bool {
        match &self.iv[t as usize] {
            (Some(l), Some(h)) => l >= lo && h <= hi,
            _ => false,
        }
    }
    /// Floor division by a positive constant.
    pub fn div_c(&mut self, a: T, c: &Big) -> T {
        if c.is_one() {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            let q = k.div_mod_floor(c).0;
            return self.cst(q);
        }
        if let (Some(l), Some(h)) = &self.iv[a as usize] {
            let (ql, qh) = (l.div_mod_floor(c).0, h.div_mod_floor(c).0);
            if ql == qh {
                return self.cst(ql);
            }
        }
        // split off terms divisible by c
        let (ts, k) = self.parts(a);
        let (mut dv, mut rest) = (vec![], vec![]);
        for (t, co) in ts {
            let (q, r) = co.div_mod_floor(c);
            if r.is_zero() {
                dv.push((t, q));
            } else {
                rest.push((t, co));
            }
        }
        let (kq, kr) = k.div_mod_floor(c);
        if !dv.is_empty() || !kq.is_zero() {
            let d = self.from_parts(dv, kq);
            let r = self.from_parts(rest, kr);
            let rq = self.div_c(r, c);
            return self.add(d, rq);
        }
        if let Node::Div(x, d) = self.nodes[a as usize].clone() {
            return self.div_c(x, &d.mul(c));
        }
        if let Node::Ite(cnd, x, y) = self.nodes[a as usize].clone() {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let p = self.div_c(x, c);
                let q = self.div_c(y, c);
                return self.ite(cnd, p, q);
            }
        }
        self.mk(Node::Div(a, c.clone()))
    }
    /// Bits [lo, lo+n) of a non-negative integer.
    pub fn ext(&mut self, a: T, lo: u32, n: u32) -> T {
        if n == 0 {
            return self.cu(0);
        }
        let p_lo = Big::pow2(lo);
        let p_n = Big::pow2(n);
        if let Some(k) = self.as_const(a) {
            let q = k.div_mod_floor(&p_lo).0.div_mod_floor(&p_n).1;
            return self.cst(q);
        }
        if let (Some(l), Some(h)) = &self.iv[a as usize] {
            if !l.neg && *h < p_lo {
                return self.cu(0);
            }
            if lo == 0 && !l.neg && *h < p_n {
                return a;
            }
        }
        if let Node::Ext(x, l2, n2) = self.nodes[a as usize] {
            if lo >= n2 {
                return self.cu(0);
            }
            return self.ext(x, l2 + lo, n.min(n2 - lo));
        }
        if let Node::Ite(c, x, y) = self.nodes[a as usize].clone() {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let p = self.ext(x, lo, n);
                let q = self.ext(y, lo, n);
                return self.ite(c, p, q);
            }
        }
        if let Node::Poly(ts, k) = self.nodes[a as usize].clone() {
            // drop everything at or above bit lo+n
            let top = Big::pow2(lo + n);
            let mut keep = vec![];
            let mut dropped = false;
            for (t, c) in ts.iter() {
                if c.div_mod_floor(&top).1.is_zero() {
                    dropped = true;
                } else {
                    keep.push((*t, c.clone()));
                }
            }
            let km = k.div_mod_floor(&top).1;
            if dropped || km != k {
                let b = self.from_parts(keep, km);
                return self.ext(b, lo, n);
            }
            if lo > 0 {
                // split at bit lo: high part divisible by 2^lo, low part within [0, 2^lo)
                let (mut hi, mut low) = (vec![], vec![]);
                for (t, c) in ts.iter() {
                    let (q, r) = c.div_mod_floor(&p_lo);
                    if r.is_zero() {
                        hi.push((*t, q));
                    } else {
                        low.push((*t, c.clone()));
                    }
                }
                if !hi.is_empty() {
                    let (kq, kr) = k.div_mod_floor(&p_lo);
                    let lowp = self.from_parts(low, kr);
                    let m1 = p_lo.sub(&Big::one());
                    if self.in_range(lowp, &Big::zero(), &m1) {
                        let h = self.from_parts(hi, kq);
                        return self.ext(h, 0, n);
                    }
                }
            }
        }
        self.mk(Node::Ext(a, lo, n))
    }
    pub fn bswap(&mut self, a: T, nb: u32) -> T {
        if let Some(k) = self.as_const(a) {
            let v = k.to_u128().unwrap();
            let r = v.swap_bytes() >> (128 - 8 * nb);
            return self.cu(r);
        }
        if let Node::Bs(x, n) = self.nodes[a as usize] {
            if n == nb {
                return x;
            }
        }
        self.mk(Node::Bs(a, nb))
    }
    pub fn mul_div(&mut self, a: T, b: T, c: T) -> T {
        let p = self.mul(a, b);
        if let Some(k) = self.as_const(c).cloned() {
            if k.is_zero() {
                return self.cu(0);
            }
            if p == 0 {
                return self.cu(0);
            }
            return self.div_c(p, &k);
        }
        if let Some(k) = self.as_const(p) {
            if k.is_zero() {
                return self.cu(0);
            }
        }
        // a*c/c
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == c {
            return b;
        }
        if b == c {
            return a;
        }
        self.mk(Node::MulDiv(a, b, c))
    }

    // ---- booleans ----
    pub fn not(&mut self, a: T) -> T {
        match self.nodes[a as usize].clone() {
            Node::True => FALSE,
            Node::False => TRUE,
            Node::Not(x) => x,
            Node::Le0(p) => {
                // p >= 1
                let one = self.cu(1);
                let q = self.sub(one, p);
                self.le0(q)
            }
            Node::And(ts) => {
                let v: Vec<T> = ts.iter().map(|t| self.not(*t)).collect();
                self.or_n(v)
            }
            Node::Or(ts) => {
                let v: Vec<T> = ts.iter().map(|t| self.not(*t)).collect();
                self.and_n(v)
            }
            _ => self.mk(Node::Not(a)),
        }
    }
    pub fn and_n(&mut self, v: Vec<T>) -> T {
        let mut out: Vec<T> = vec![];
        for t in v {
            match &self.nodes[t as usize] {
                Node::True => {}
                Node::False => return FALSE,
                Node::And(ts) => out.extend(ts.iter()),
                _ => out.push(t),
            }
        }
        out.sort();
        out.dedup();
        for i in 0..out.len() {
            let n = self.not(out[i]);
            if out.binary_search(&n).is_ok() {
                return FALSE;
            }
        }
        match out.len() {
            0 => TRUE,
            1 => out[0],
            _ => self.mk(Node::And(out.into())),
        }
    }
    pub fn or_n(&mut self, v: Vec<T>) -> T {
        let mut out: Vec<T> = vec![];
        for t in v {
            match &self.nodes[t as usize] {
                Node::False => {}
                Node::True => return TRUE,
                Node::Or(ts) => out.extend(ts.iter()),
                _ => out.push(t),
            }
        }
        out.sort();
        out.dedup();
        for i in 0..out.len() {
            let n = self.not(out[i]);
            if out.binary_search(&n).is_ok() {
                return TRUE;
            }
        }
        match out.len() {
            0 => FALSE,
            1 => out[0],
            _ => self.mk(Node::Or(out.into())),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.and_n(vec![a, b])
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.or_n(vec![a, b])
    }
    pub fn bite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let nc = self.not(c);
        let x = self.or(nc, a);
        let y = self.or(c, b);
        self.and(x, y)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let nb = self.not(b);
        self.bite(a, nb, b)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        // canonical polarity
        let nc = self.not(c);
        if nc < c {
            return self.mk(Node::Ite(nc, b, a));
        }
        self.mk(Node::Ite(c, a, b))
    }
    pub fn b2i(&mut self, b: T) -> T {
        let o = self.cu(1);
        let z = self.cu(0);
        self.ite(b, o, z)
    }
    /// p <= 0
    pub fn le0(&mut self, p: T) -> T {
        match &self.iv[p as usize] {
            (_, Some(h)) if h.neg || h.is_zero() => return TRUE,
            (Some(l), _) if !l.neg && !l.is_zero() => return FALSE,
            _ => {}
        }
        let (mut ts, k) = self.parts(p);
        if let Some(r) = self.lift_ite(&ts, &k, true) {
            return r;
        }
        let mut g = Big::zero();
        for (_, c) in &ts {
            g = Big::gcd(&g, c);
        }
        let mut kk = k;
        if !g.is_one() {
            for p in ts.iter_mut() {
                let neg = p.1.neg;
                let q = Big { neg: false, mag: p.1.mag.clone() }.div_mod_floor(&g).0;
                p.1 = if neg { q.neg() } else { q };
            }
            kk = kk.neg().div_mod_floor(&g).0.neg();
        }
        if let Some(r) = self.le_floor(&ts, &kk) {
            return r;
        }
        if let Some(r) = self.le_div(&ts, &kk) {
            return r;
        }
        let p = self.from_parts(ts, kk);
        self.mk(Node::Le0(p))
    }
    /// Bounds on quotients by a constant: `P-(k-1) <= k*floor(P/k) <= P`. Decides `sum <= 0` when
    /// replacing every such quotient by its upper (lower) bound already does.
    fn le_div(&mut self, ts: &[(T, Big)], k: &Big) -> Option<T> {
        let mut hits = Vec::new();
        for (i, (t, c)) in ts.iter().enumerate() {
            if let Node::Div(p, d) = self.nodes[*t as usize].clone() {
                let (m, r) = c.div_mod_floor(&d);
                if r.is_zero() {
                    hits.push((i, p, m, d));
                }
            }
        }
        if hits.is_empty() {
            return None;
        }
        let rest: Vec<(T, Big)> = ts.iter().enumerate().filter(|(i, _)| hits.iter().all(|h| h.0 != *i)).map(|(_, x)| x.clone()).collect();
        let mut sum = self.from_parts(rest, k.clone());
        let (mut up, mut down) = (Big::zero(), Big::zero());
        for (_, p, m, d) in hits {
            let mt = self.cst(m.clone());
            let mp = self.mul(mt, p);
            sum = self.add(sum, mp);
            let e = m.mul(&d.sub(&Big::one()));
            if m.neg {
                up = up.sub(&e);
            } else {
                down = down.sub(&e);
            }
        }
        let (u, d) = (self.cst(up), self.cst(down));
        let hi = self.add(sum, u);
        if let (_, Some(h)) = &self.iv[hi as usize] {
            if h.neg || h.is_zero() {
                return Some(TRUE);
            }
        }
        let lo = self.add(sum, d);
        if let (Some(l), _) = &self.iv[lo as usize] {
            if !l.neg && !l.is_zero() {
                return Some(FALSE);
            }
        }
        None
    }
    /// Exact rewriting of a bound on a quotient: with d > 0 (the divisor of every quotient built is
    /// non-zero on its path), `r <= floor(ab/d)` iff `r*d <= ab`, `floor(ab/d) <= r` iff `ab < (r+1)*d`.
    fn le_floor(&mut self, ts: &[(T, Big)], k: &Big) -> Option<T> {
        let mut at = None;
        for (i, (t, c)) in ts.iter().enumerate() {
            if let Node::MulDiv(a, b, d) = self.nodes[*t as usize] {
                if at.is_some() || !(c.is_one() || c.neg().is_one()) {
                    return None;
                }
                at = Some((i, a, b, d, c.is_one()));
            } else if !self.mds_of[*t as usize].is_empty() {
                return None;
            }
        }
        let (i, a, b, d, pos) = at?;
        for x in [a, b, d] {
            if !self.mds_of[x as usize].is_empty() {
                return None;
            }
        }
        let mut rest = ts.to_vec();
        rest.remove(i);
        let rest = self.from_parts(rest, k.clone());
        let ab = self.mul(a, b);
        if pos {
            // q + rest <= 0  <=>  q <= -rest  <=>  ab < (1-rest)*d
            let one = self.cu(1);
            let r1 = self.sub(one, rest);
            let rd = self.mul(r1, d);
            Some(self.lt(ab, rd))
        } else {
            // rest <= q  <=>  rest*d <= ab
            let rd = self.mul(rest, d);
            Some(self.le(rd, ab))
        }
    }
    fn lift_ite(&mut self, ts: &[(T, Big)], k: &Big, le: bool) -> Option<T> {
        if ts.len() != 1 {
            return None;
        }
        let (t, c) = &ts[0];
        if let Node::Ite(cond, x, y) = self.nodes[*t as usize].clone() {
            let kt = self.cst(k.clone());
            let a = self.scale(x, c);
            let a = self.add(a, kt);
            let b = self.scale(y, c);
            let b = self.add(b, kt);
            let (a, b) = if le { (self.le0(a), self.le0(b)) } else { (self.eq0(a), self.eq0(b)) };
            return Some(self.bite(cond, a, b));
        }
        None
    }
    pub fn eq0(&mut self, p: T) -> T {
        match &self.iv[p as usize] {
            (Some(l), Some(h)) if l.is_zero() && h.is_zero() => return TRUE,
            (_, Some(h)) if h.neg => return FALSE,
            (Some(l), _) if !l.neg && !l.is_zero() => return FALSE,
            _ => {}
        }
        let (mut ts, k) = self.parts(p);
        if let Some(r) = self.lift_ite(&ts, &k, false) {
            return r;
        }
        if ts.len() == 1 {
            if let Node::Bs(x, n) = self.nodes[ts[0].0 as usize] {
                if ts[0].1.is_one() {
                    if let Some(v) = k.neg().to_u128() {
                        let kt = self.cu(v);
                        let r = self.bswap(kt, n);
                        return self.eq(x, r);
                    }
                }
            }
        }
        if ts.len() == 2 && k.is_zero() && ts[0].1 == ts[1].1.neg() {
            if let (Node::Bs(x, n), Node::Bs(y, m)) = (&self.nodes[ts[0].0 as usize], &self.nodes[ts[1].0 as usize]) {
                if n == m {
                    let (x, y) = (*x, *y);
                    return self.eq(x, y);
                }
            }
        }
        let mut g = Big::zero();
        for (_, c) in &ts {
            g = Big::gcd(&g, c);
        }
        if ts[0].1.neg {
            g = g.neg();
        }
        let ga = Big { neg: false, mag: g.mag.clone() };
        let (kq, kr) = k.div_mod_floor(&ga);
        if !kr.is_zero() {
            return FALSE;
        }
        let mut kk = kq;
        if g.neg {
            kk = kk.neg();
        }
        for p in ts.iter_mut() {
            let neg = p.1.neg != g.neg;
            let q = Big { neg: false, mag: p.1.mag.clone() }.div_mod_floor(&ga).0;
            p.1 = if neg { q.neg() } else { q };
        }
        let p = self.from_parts(ts, kk);
        self.mk(Node::Eq0(p))
    }
    pub fn le(&mut self, a: T, b: T) -> T {
        if a == b {
            return TRUE;
        }
        let d = self.sub(a, b);
        self.le0(d)
    }
    pub fn lt(&mut self, a: T, b: T) -> T {
        let d = self.sub(a, b);
        let o = self.cu(1);
        let d = self.add(d, o);
        self.le0(d)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return TRUE;
        }
        let d = self.sub(a, b);
        self.eq0(d)
    }
    /// Boolean of an integer term known to be 0/1 (or its low bit).
    pub fn i2b(&mut self, a: T) -> T {
        let e = self.ext(a, 0, 1);
        let o = self.cu(1);
        self.eq(e, o)
    }

    // ---- simplification under a path's facts ----
    pub fn is_nl(&self, t: T) -> bool {
        self.nl[t as usize]
    }
    /// Rebuilds `t` using facts known on the path: decided conditions pick their branch, and a
    /// truncation of a value known to fit is dropped.
    pub fn refine(&mut self, t: T, facts: &HashMap<T, bool>, memo: &mut HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        if self.is_bool(t) {
            if let Some(&b) = facts.get(&t) {
                return if b { TRUE } else { FALSE };
            }
        }
        let r = match self.nodes[t as usize].clone() {
            Node::Const(_) | Node::Var(_) | Node::True | Node::False => t,
            Node::Poly(ts, k) => {
                let mut s = self.cst(k);
                for (x, c) in ts.iter() {
                    let x = self.refine(*x, facts, memo);
                    let c = self.cst(c.clone());
                    let m = self.mul(c, x);
                    s = self.add(s, m);
                }
                s
            }
            Node::Mono(ts) => {
                let mut s = self.cu(1);
                for x in ts.iter() {
                    let x = self.refine(*x, facts, memo);
                    s = self.mul(s, x);
                }
                s
            }
            Node::Ite(c, a, b) => {
                let c = self.refine(c, facts, memo);
                if c == TRUE {
                    self.refine(a, facts, memo)
                } else if c == FALSE {
                    self.refine(b, facts, memo)
                } else {
                    let a = self.refine(a, facts, memo);
                    let b = self.refine(b, facts, memo);
                    self.ite(c, a, b)
                }
            }
            Node::Div(a, c) => {
                let a = self.refine(a, facts, memo);
                self.div_c(a, &c)
            }
            Node::Ext(a, lo, n) => {
                let fits = lo == 0 && {
                    let neg = matches!(&self.iv[a as usize].0, Some(l) if !l.neg) == false;
                    let m = self.cst(Big::pow2(n).sub(&Big::one()));
                    let c = self.le(a, m);
                    !neg && (c == TRUE || facts.get(&c) == Some(&true))
                };
                let a = self.refine(a, facts, memo);
                if fits {
                    a
                } else {
                    self.ext(a, lo, n)
                }
            }
            Node::Bs(a, n) => {
                let a = self.refine(a, facts, memo);
                self.bswap(a, n)
            }
            Node::MulDiv(a, b, c) => {
                let (a, b, c) = (self.refine(a, facts, memo), self.refine(b, facts, memo), self.refine(c, facts, memo));
                self.mul_div(a, b, c)
            }
            Node::Le0(a) => {
                let a = self.refine(a, facts, memo);
                self.le0(a)
            }
            Node::Eq0(a) => {
                let a = self.refine(a, facts, memo);
                self.eq0(a)
            }
            Node::Not(a) => {
                let a = self.refine(a, facts, memo);
                self.not(a)
            }
            Node::And(ts) => {
                let v = ts.iter().map(|x| self.refine(*x, facts, memo)).collect();
                self.and_n(v)
            }
            Node::Or(ts) => {
                let v = ts.iter().map(|x| self.refine(*x, facts, memo)).collect();
                self.or_n(v)
            }
        };
        memo.insert(t, r);
        r
    }

    /// The condition of some if-then-else inside `t`, innermost first.
    pub fn inner_cond(&self, t: T, seen: &mut std::collections::HashSet<T>) -> Option<T> {
        if !seen.insert(t) {
            return None;
        }
        for k in self.children(t) {
            if let Some(c) = self.inner_cond(k, seen) {
                return Some(c);
            }
        }
        match self.nodes[t as usize] {
            Node::Ite(c, _, _) if !self.nl[c as usize] => Some(c),
            _ => None,
        }
    }

    // ---- evaluation ----
    pub fn eval_big(&self, t: T, m: &Model, memo: &mut HashMap<T, Value>) -> Big {
        match self.eval(t, m, memo) {
            Value::I(b) => b,
            Value::B(b) => Big::from_u128(b as u128),
        }
    }
    pub fn eval_bool(&self, t: T, m: &Model, memo: &mut HashMap<T, Value>) -> bool {
        match self.eval(t, m, memo) {
            Value::B(b) => b,
            Value::I(_) => panic!("bool expected"),
        }
    }
    pub fn eval(&self, t: T, m: &Model, memo: &mut HashMap<T, Value>) -> Value {
        if let Some(v) = memo.get(&t) {
            return v.clone();
        }
        let r = match &self.nodes[t as usize] {
            Node::Const(c) => return Value::I(c.clone()),
            Node::Var(v) => {
                return Value::I(match m.get(v) {
                    Some(b) => b.clone(),
                    None => self.vars[*v as usize].lo.clone(),
                })
            }
            Node::True => return Value::B(true),
            Node::False => return Value::B(false),
            Node::Poly(ts, k) => {
                let mut s = k.clone();
                for (t, c) in ts.iter() {
                    s = s.add(&c.mul(&self.eval_big(*t, m, memo)));
                }
                Value::I(s)
            }
            Node::Mono(ts) => {
                let mut s = Big::one();
                for t in ts.iter() {
                    s = s.mul(&self.eval_big(*t, m, memo));
                }
                Value::I(s)
            }
            Node::Ite(c, a, b) => {
                if self.eval_bool(*c, m, memo) {
                    self.eval(*a, m, memo)
                } else {
                    self.eval(*b, m, memo)
                }
            }
            Node::Div(a, c) => Value::I(self.eval_big(*a, m, memo).div_mod_floor(c).0),
            Node::Ext(a, lo, n) => Value::I(
                self.eval_big(*a, m, memo)
                    .div_mod_floor(&Big::pow2(*lo))
                    .0
                    .div_mod_floor(&Big::pow2(*n))
                    .1,
            ),
            Node::Bs(a, n) => {
                let v = self.eval_big(*a, m, memo).to_u128().unwrap_or(0);
                Value::I(Big::from_u128(v.swap_bytes() >> (128 - 8 * n)))
            }
            Node::MulDiv(a, b, c) => {
                let p = self.eval_big(*a, m, memo).mul(&self.eval_big(*b, m, memo));
                let d = self.eval_big(*c, m, memo);
                Value::I(if d.is_zero() || d.neg { Big::zero() } else { p.div_mod_floor(&d).0 })
            }
            Node::Le0(p) => {
                let v = self.eval_big(*p, m, memo);
                Value::B(v.neg || v.is_zero())
            }
            Node::Eq0(p) => Value::B(self.eval_big(*p, m, memo).is_zero()),
            Node::Not(a) => Value::B(!self.eval_bool(*a, m, memo)),
            Node::And(ts) => Value::B(ts.iter().all(|t| self.eval_bool(*t, m, memo))),
            Node::Or(ts) => Value::B(ts.iter().any(|t| self.eval_bool(*t, m, memo))),
        };
        memo.insert(t, r.clone());
        r
    }

    // ---- printing ----
    fn sc(b: &Big) -> String {
        if b.neg {
            format!("(- {})", b.neg())
        } else {
            b.to_string()
        }
    }
    /// SMT-LIB expression of a node in terms of `t<k>` names of its children.
    pub fn smt_body(&self, t: T) -> Option<String> {
        let r = |x: T| self.smt_ref(x);
        Some(match &self.nodes[t as usize] {
            Node::Const(_) | Node::Var(_) | Node::True | Node::False | Node::MulDiv(..) => return None,
            Node::Poly(ts, k) => {
                let mut s = String::from("(+");
                if !k.is_zero() || ts.len() == 1 {
                    s += " ";
                    s += &Self::sc(k);
                }
                for (t, c) in ts.iter() {
                    if c.is_one() {
                        s += " ";
                        s += &r(*t);
                    } else {
                        s += &format!(" (* {} {})", Self::sc(c), r(*t));
                    }
                }
                s + ")"
            }
            Node::Mono(ts) => {
                let mut s = String::from("(*");
                for t in ts.iter() {
                    s += " ";
                    s += &r(*t);
                }
                s + ")"
            }
            Node::Ite(c, a, b) => format!("(ite {} {} {})", r(*c), r(*a), r(*b)),
            Node::Div(a, c) => format!("(div {} {})", r(*a), Self::sc(c)),
            Node::Ext(a, lo, n) => {
                let d = if *lo == 0 { r(*a) } else { format!("(div {} {})", r(*a), Big::pow2(*lo)) };
                format!("(mod {} {})", d, Big::pow2(*n))
            }
            Node::Bs(a, n) => {
                let mut s = String::from("(+");
                for i in 0..*n {
                    s += &format!(
                        " (* {} (mod (div {} {}) 256))",
                        Big::pow2(8 * (n - 1 - i)),
                        r(*a),
                        Big::pow2(8 * i)
                    );
                }
                s + ")"
            }
            Node::Le0(p) => format!("(<= {} 0)", r(*p)),
            Node::Eq0(p) => format!("(= {} 0)", r(*p)),
            Node::Not(a) => format!("(not {})", r(*a)),
            Node::And(ts) | Node::Or(ts) => {
                let mut s = String::from(if matches!(self.nodes[t as usize], Node::And(_)) { "(and" } else { "(or" });
                for t in ts.iter() {
                    s += " ";
                    s += &r(*t);
                }
                s + ")"
            }
        })
    }
    pub fn smt_ref(&self, t: T) -> String {
        match &self.nodes[t as usize] {
            Node::Const(c) => Self::sc(c),
            Node::Var(v) => format!("v{}", v),
            Node::True => "true".into(),
            Node::False => "false".into(),
            Node::MulDiv(..) => format!("q{}", t),
            _ => format!("t{}", t),
        }
    }
    pub fn children(&self, t: T) -> Vec<T> {
        Self::kids(&self.nodes[t as usize])
    }
    pub fn nonlinear(&self, t: T) -> bool {
        self.nl[t as usize]
    }
    pub fn is_bool(&self, t: T) -> bool {
        matches!(
            self.nodes[t as usize],
            Node::True | Node::False | Node::Le0(_) | Node::Eq0(_) | Node::Not(_) | Node::And(_) | Node::Or(_)
        )
    }
    pub fn show(&self, t: T) -> String {
        match &self.nodes[t as usize] {
            Node::Const(c) => c.to_string(),
            Node::Var(v) => self.vars[*v as usize].name.clone(),
            Node::Poly(ts, k) => {
                let mut s: Vec<String> = ts
                    .iter()
                    .map(|(t, c)| if c.is_one() { self.show(*t) } else { format!("{}*{}", c, self.show(*t)) })
                    .collect();
                if !k.is_zero() {
                    s.push(k.to_string());
                }
                format!("({})", s.join(" + "))
            }
            Node::Mono(ts) => ts.iter().map(|t| self.show(*t)).collect::<Vec<_>>().join("*"),
            Node::Ite(c, a, b) => format!("ite({}, {}, {})", self.show(*c), self.show(*a), self.show(*b)),
            Node::Div(a, c) => format!("div({}, {})", self.show(*a), c),
            Node::Ext(a, lo, n) => format!("ext({},{},{})", self.show(*a), lo, n),
            Node::Bs(a, n) => format!("bswap{}({})", n, self.show(*a)),
            Node::MulDiv(a, b, c) => format!("muldiv({}, {}, {})", self.show(*a), self.show(*b), self.show(*c)),
            Node::True => "true".into(),
            Node::False => "false".into(),
            Node::Le0(p) => format!("{} <= 0", self.show(*p)),
            Node::Eq0(p) => format!("{} == 0", self.show(*p)),
            Node::Not(a) => format!("!({})", self.show(*a)),
            Node::And(ts) => format!("({})", ts.iter().map(|t| self.show(*t)).collect::<Vec<_>>().join(" && ")),
            Node::Or(ts) => format!("({})", ts.iter().map(|t| self.show(*t)).collect::<Vec<_>>().join(" || ")),
        }
    }
}
