//! Object memory with copy-on-write sharing and a sparse overlay of symbolic cells.
use crate::ir::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    /// offset -> (integer term, size in bytes); cells never overlap
    pub sym: BTreeMap<u32, (T, u32)>,
    pub ro: bool,
}

const CH: usize = 64;
#[derive(Clone)]
struct Chunk([Option<Rc<Obj>>; CH]);

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u32,
}

pub enum Piece {
    C(Vec<u8>),
    S(T, u32),
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(T),
}

type R<X> = Result<X, String>;

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], next: 0 }
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        self.alloc_obj(Obj { data: vec![0; size as usize], sym: BTreeMap::new(), ro: false })
    }
    pub fn alloc_obj(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        if id as usize / CH >= self.chunks.len() {
            const N: Option<Rc<Obj>> = None;
            self.chunks.push(Rc::new(Chunk([N; CH])));
        }
        Rc::make_mut(&mut self.chunks[id as usize / CH]).0[id as usize % CH] = Some(Rc::new(o));
        obj_addr(id)
    }
    fn split(addr: u64) -> R<(u32, u64)> {
        let id = addr >> 32;
        if id == 0 || id > 0x7000_0000 {
            return Err(format!("bad address {:#x}", addr));
        }
        Ok((id as u32 - 1, addr & 0xffff_ffff))
    }
    pub fn free(&mut self, addr: u64) -> R<()> {
        let (id, off) = Mem::split(addr)?;
        if off != 0 || self.chunks.get(id as usize / CH).map_or(true, |c| c.0[id as usize % CH].is_none()) {
            return Err(format!("bad free {:#x}", addr));
        }
        Rc::make_mut(&mut self.chunks[id as usize / CH]).0[id as usize % CH] = None;
        Ok(())
    }
    pub fn obj(&self, addr: u64, len: u64) -> R<(&Obj, u64)> {
        let (id, off) = Mem::split(addr)?;
        match self.chunks.get(id as usize / CH).and_then(|c| c.0[id as usize % CH].as_ref()) {
            Some(o) => {
                if off + len > o.data.len() as u64 {
                    return Err(format!("out of bounds: obj {} size {} off {} len {}", id, o.data.len(), off, len));
                }
                Ok((o, off))
            }
            None => Err(format!("dangling object {} off {}", id, off)),
        }
    }
    fn obj_mut(&mut self, addr: u64, len: u64) -> R<(&mut Obj, u64)> {
        let (id, off) = Mem::split(addr)?;
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => match Rc::make_mut(c).0[id as usize % CH].as_mut() {
                Some(o) => {
                    if off + len > o.data.len() as u64 {
                        return Err(format!("out of bounds write: obj {} size {} off {} len {}", id, o.data.len(), off, len));
                    }
                    if o.ro {
                        return Err(format!("write to constant object {}", id));
                    }
                    Ok((Rc::make_mut(o), off))
                }
                None => Err(format!("dangling write object {}", id)),
            },
            None => Err(format!("dangling write object {}", id)),
        }
    }
    fn has_sym(o: &Obj, off: u64, len: u64) -> bool {
        if o.sym.is_empty() {
            return false;
        }
        if let Some((&c, &(_, n))) = o.sym.range(..(off + len) as u32).next_back() {
            return (c + n) as u64 > off;
        }
        false
    }
    fn assemble(o: &Obj, tm: &mut Terms, off: u64, len: u64) -> T {
        let mut acc = tm.cu(0);
        let mut i = off;
        let end = off + len;
        while i < end {
            let (v, n) = match o.sym.range(..=(i as u32)).next_back() {
                Some((&c, &(t, n))) if (c + n) as u64 > i => {
                    let skip = i - c as u64;
                    let take = (n as u64 - skip).min(end - i);
                    (tm.ext(t, (skip * 8) as u32, (take * 8) as u32), take)
                }
                _ => {
                    let nx = o.sym.range((i as u32)..).next().map_or(end, |(&c, _)| (c as u64).min(end));
                    let n = (nx - i).min(16);
                    let mut v = 0u128;
                    for k in (0..n).rev() {
                        v = v << 8 | o.data[(i + k) as usize] as u128;
                    }
                    (tm.cu(v), n)
                }
            };
            let sc = tm.scale(v, &crate::big::Big::pow2(((i - off) * 8) as u32));
            acc = tm.add(acc, sc);
            i += n;
        }
        acc
    }
    pub fn load(&self, tm: &mut Terms, addr: u64, len: u64) -> R<Val> {
        if len == 0 {
            return Ok(Val::C(0));
        }
        let (o, off) = self.obj(addr, len)?;
        if Mem::has_sym(o, off, len) {
            let t = Mem::assemble(o, tm, off, len);
            if let Some(c) = tm.as_const(t) {
                return Ok(Val::C(c.to_u128().unwrap()));
            }
            return Ok(Val::S(t));
        }
        let mut v = 0u128;
        for k in (0..len).rev() {
            v = v << 8 | o.data[(off + k) as usize] as u128;
        }
        Ok(Val::C(v))
    }
    fn clear(o: &mut Obj, tm: &mut Terms, off: u64, len: u64) {
        if o.sym.is_empty() {
            return;
        }
        let end = off + len;
        let mut hit = vec![];
        for (&c, &(t, n)) in o.sym.range(..end as u32).rev() {
            if (c + n) as u64 <= off {
                break;
            }
            hit.push((c, t, n));
        }
        for (c, t, n) in hit {
            o.sym.remove(&c);
            if (c as u64) < off {
                let k = off as u32 - c;
                let e = tm.ext(t, 0, k * 8);
                Mem::put(o, tm, c, e, k);
            }
            let ce = c + n;
            if ce as u64 > end {
                let sk = end as u32 - c;
                let e = tm.ext(t, sk * 8, (n - sk) * 8);
                Mem::put(o, tm, end as u32, e, n - sk);
            }
        }
    }
    fn put(o: &mut Obj, tm: &Terms, off: u32, t: T, n: u32) {
        if let Some(c) = tm.as_const(t) {
            let v = c.to_u128().unwrap();
            for k in 0..n {
                o.data[(off + k) as usize] = (v >> (8 * k)) as u8;
            }
        } else {
            o.sym.insert(off, (t, n));
        }
    }
    pub fn store(&mut self, tm: &mut Terms, addr: u64, len: u64, v: &Val) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let (o, off) = self.obj_mut(addr, len)?;
        Mem::clear(o, tm, off, len);
        match v {
            Val::C(c) => {
                for k in 0..len.min(16) {
                    o.data[(off + k) as usize] = (c >> (8 * k)) as u8;
                }
                for k in 16..len {
                    o.data[(off + k) as usize] = 0;
                }
            }
            Val::S(t) => Mem::put(o, tm, off as u32, *t, len as u32),
        }
        Ok(())
    }
    pub fn copy(&mut self, tm: &mut Terms, dst: u64, src: u64, len: u64) -> R<()> {
        if len == 0 || dst == src {
            return Ok(());
        }
        let (so, soff) = self.obj(src, len)?;
        let data = so.data[soff as usize..(soff + len) as usize].to_vec();
        let mut cells = vec![];
        if !so.sym.is_empty() {
            let end = soff + len;
            for (&c, &(t, n)) in so.sym.range(..end as u32).rev() {
                if (c + n) as u64 <= soff {
                    break;
                }
                let s = (c as u64).max(soff);
                let e = ((c + n) as u64).min(end);
                cells.push(((s - soff) as u32, t, (s - c as u64) as u32, (e - s) as u32));
            }
        }
        let (d, doff) = self.obj_mut(dst, len)?;
        Mem::clear(d, tm, doff, len);
        d.data[doff as usize..(doff + len) as usize].copy_from_slice(&data);
        for (o, t, skip, n) in cells {
            let e = tm.ext(t, skip * 8, n * 8);
            Mem::put(d, tm, doff as u32 + o, e, n);
        }
        Ok(())
    }
    pub fn set(&mut self, tm: &mut Terms, dst: u64, byte: u8, len: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let (d, doff) = self.obj_mut(dst, len)?;
        Mem::clear(d, tm, doff, len);
        for b in &mut d.data[doff as usize..(doff + len) as usize] {
            *b = byte;
        }
        Ok(())
    }
    pub fn bytes(&self, addr: u64, len: u64) -> R<Vec<u8>> {
        if len == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(addr, len)?;
        if Mem::has_sym(o, off, len) {
            return Err("symbolic bytes where concrete ones are needed".into());
        }
        Ok(o.data[off as usize..(off + len) as usize].to_vec())
    }
    /// Compares two ranges piecewise: the list of segments that differ or may differ, in order.
    /// Each segment is (left value, right value, size); concrete differing segments end the list.
    pub fn diff(&self, tm: &mut Terms, a: u64, b: u64, len: u64) -> R<Vec<(T, T, u32)>> {
        let mut out = vec![];
        if len == 0 {
            return Ok(out);
        }
        let (x, xo) = self.obj(a, len)?;
        let (y, yo) = self.obj(b, len)?;
        let cell = |o: &Obj, p: u64| -> Option<u64> {
            match o.sym.range(..=(p as u32)).next_back() {
                Some((&c, &(_, n))) if (c + n) as u64 > p => Some((c + n) as u64),
                _ => None,
            }
        };
        let mut i = 0u64;
        while i < len {
            let (cx, cy) = (cell(x, xo + i), cell(y, yo + i));
            if cx.is_none() && cy.is_none() {
                let (p, q) = (x.data[(xo + i) as usize], y.data[(yo + i) as usize]);
                if p != q {
                    let (p, q) = (tm.cu(p as u128), tm.cu(q as u128));
                    out.push((p, q, 1));
                    return Ok(out);
                }
                i += 1;
                continue;
            }
            let mut end = i;
            if let Some(e) = cx {
                end = end.max(e - xo);
            }
            if let Some(e) = cy {
                end = end.max(e - yo);
            }
            let end = end.min(len).min(i + 16);
            let n = end - i;
            let l = Mem::assemble(x, tm, xo + i, n);
            let r = Mem::assemble(y, tm, yo + i, n);
            if l != r {
                out.push((l, r, n as u32));
            }
            i = end;
        }
        Ok(out)
    }
}

pub fn init_bytes(k: &K, t: &Ty, out: &mut Vec<u8>, base: usize) {
    let sz = t.size() as usize;
    if out.len() < base + sz {
        out.resize(base + sz, 0);
    }
    match k {
        K::I(v) => {
            for i in 0..sz.min(16) {
                out[base + i] = (v >> (8 * i)) as u8;
            }
        }
        K::Bytes(b) => out[base..base + b.len()].copy_from_slice(b),
        K::Zero(_) => {}
        K::Agg(v) => {
            for (i, e) in v.iter().enumerate() {
                let (o, ft) = t.field(i as u64);
                init_bytes(e, &ft, out, base + o as usize);
            }
        }
    }
}
