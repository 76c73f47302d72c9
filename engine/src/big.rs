//! Minimal arbitrary precision signed integers.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big {
    pub neg: bool,
    pub mag: Vec<u64>,
}

fn trim(v: &mut Vec<u64>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c > 0 {
        r.push(c as u64);
    }
    r
}
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i128;
    for i in 0..a.len() {
        let mut d = a[i] as i128 - *b.get(i).unwrap_or(&0) as i128 - br;
        if d < 0 {
            d += 1i128 << 64;
            br = 1;
        } else {
            br = 0;
        }
        r.push(d as u64);
    }
    trim(&mut r);
    r
}

impl Big {
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }
    pub fn one() -> Big {
        Big::from_u128(1)
    }
    pub fn from_u128(v: u128) -> Big {
        let mut mag = vec![v as u64, (v >> 64) as u64];
        trim(&mut mag);
        Big { neg: false, mag }
    }
    pub fn from_i128(v: i128) -> Big {
        let mut b = Big::from_u128(v.unsigned_abs());
        b.neg = v < 0;
        b
    }
    pub fn pow2(n: u32) -> Big {
        let mut mag = vec![0u64; (n / 64) as usize + 1];
        mag[(n / 64) as usize] = 1u64 << (n % 64);
        Big { neg: false, mag }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_one(&self) -> bool {
        !self.neg && self.mag.len() == 1 && self.mag[0] == 1
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 2 {
            return None;
        }
        let lo = *self.mag.first().unwrap_or(&0) as u128;
        let hi = *self.mag.get(1).unwrap_or(&0) as u128;
        Some(lo | hi << 64)
    }
    pub fn neg(&self) -> Big {
        Big { neg: !self.neg && !self.mag.is_empty(), mag: self.mag.clone() }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big { neg: self.neg, mag: add_mag(&self.mag, &o.mag) };
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big { neg: self.neg, mag: sub_mag(&self.mag, &o.mag) },
            Ordering::Less => Big { neg: o.neg, mag: sub_mag(&o.mag, &self.mag) },
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut r = vec![0u64; self.mag.len() + o.mag.len()];
        for i in 0..self.mag.len() {
            let mut c = 0u128;
            for j in 0..o.mag.len() {
                let t = self.mag[i] as u128 * o.mag[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.mag.len()] = c as u64;
        }
        trim(&mut r);
        Big { neg: self.neg != o.neg, mag: r }
    }
    fn bits(&self) -> u32 {
        match self.mag.last() {
            None => 0,
            Some(l) => self.mag.len() as u32 * 64 - l.leading_zeros(),
        }
    }
    fn bit(&self, i: u32) -> bool {
        let w = (i / 64) as usize;
        w < self.mag.len() && self.mag[w] >> (i % 64) & 1 == 1
    }
    fn divrem_mag(&self, o: &Big) -> (Big, Big) {
        // shift-subtract on magnitudes
        if let (Some(a), Some(b)) = (
            Big { neg: false, mag: self.mag.clone() }.to_u128(),
            Big { neg: false, mag: o.mag.clone() }.to_u128(),
        ) {
            return (Big::from_u128(a / b), Big::from_u128(a % b));
        }
        let d = Big { neg: false, mag: o.mag.clone() };
        let n = self.bits();
        let mut q = vec![0u64; self.mag.len()];
        let mut r = Big::zero();
        for i in (0..n).rev() {
            // r = r*2 + bit
            let mut c = self.bit(i) as u64;
            for w in r.mag.iter_mut() {
                let nc = *w >> 63;
                *w = *w << 1 | c;
                c = nc;
            }
            if c > 0 {
                r.mag.push(c);
            }
            if cmp_mag(&r.mag, &d.mag) != Ordering::Less {
                r.mag = sub_mag(&r.mag, &d.mag);
                q[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        trim(&mut q);
        (Big { neg: false, mag: q }, r)
    }
    /// Floor division and modulus for a positive divisor.
    pub fn div_mod_floor(&self, o: &Big) -> (Big, Big) {
        assert!(!o.neg && !o.is_zero());
        let (q, r) = self.divrem_mag(o);
        if !self.neg {
            (q, r)
        } else if r.is_zero() {
            (q.neg(), r)
        } else {
            (q.add(&Big::one()).neg(), o.sub(&r))
        }
    }
    pub fn gcd(a: &Big, b: &Big) -> Big {
        let mut x = Big { neg: false, mag: a.mag.clone() };
        let mut y = Big { neg: false, mag: b.mag.clone() };
        while !y.is_zero() {
            let (_, r) = x.divrem_mag(&y);
            x = y;
            y = r;
        }
        x
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() {
            return None;
        }
        let mut r = Big::zero();
        let ten = Big::from_u128(10);
        for c in d.chars() {
            let v = c.to_digit(10)?;
            r = r.mul(&ten).add(&Big::from_u128(v as u128));
        }
        r.neg = neg && !r.is_zero();
        Some(r)
    }
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut digs: Vec<u64> = vec![];
        let mut x = Big { neg: false, mag: self.mag.clone() };
        while !x.is_zero() {
            // divide by 10^19
            let mut rem = 0u128;
            for w in x.mag.iter_mut().rev() {
                let cur = rem << 64 | *w as u128;
                *w = (cur / 10_000_000_000_000_000_000) as u64;
                rem = cur % 10_000_000_000_000_000_000;
            }
            trim(&mut x.mag);
            digs.push(rem as u64);
        }
        if digs.is_empty() {
            return f.write_str("0");
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s += &format!("{}", digs.last().unwrap());
        for d in digs.iter().rev().skip(1) {
            s += &format!("{:019}", d);
        }
        f.write_str(&s)
    }
}
