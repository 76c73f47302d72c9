//! Harness runtime: symbolic inputs, assertions, mathematical integers and a mini chain.
//!
//! In the symbolic build the `__sym_*` functions are intrinsics of the engine; with feature
//! `native` they are implemented by `native.rs`, which replays a recorded model against the
//! real, unpatched dependencies.
#[cfg(feature = "native")]
pub mod big;
#[cfg(feature = "native")]
pub mod native;
pub mod chain;
pub mod world;

#[cfg(not(feature = "native"))]
mod ext {
    #![allow(improper_ctypes)]
    extern "C" {
        pub fn __sym_int(name: *const u8, len: usize, bits: u32, lo: u128, hi: u128) -> u128;
        pub fn __sym_choice(name: *const u8, len: usize, n: u64) -> u64;
        pub fn __sym_assume(c: bool);
        pub fn __sym_check(c: bool, label: *const u8, len: usize);
        pub fn __sym_cover(label: *const u8, len: usize);
        pub fn __sym_no_panic(on: bool);
        pub fn __sym_z_from(v: u128) -> u64;
        pub fn __sym_z_op(op: u32, a: u64, b: u64) -> u64;
        pub fn __sym_z_cmp(op: u32, a: u64, b: u64) -> bool;
        pub fn __sym_note(name: *const u8, len: usize, v: u128);
        pub fn __sym_not(a: bool) -> bool;
        pub fn __sym_split(a: bool) -> bool;
        pub fn __sym_and(a: bool, b: bool) -> bool;
        pub fn __sym_or(a: bool, b: bool) -> bool;
        pub fn __sym_param(name: *const u8, len: usize, default: u64) -> u64;
        pub fn __sym_ite(c: bool, a: u128, b: u128) -> u128;
    }
}
#[cfg(feature = "native")]
use native as ext;

/// A fresh 128-bit input in `lo..=hi`.
pub fn u128_in(name: &str, lo: u128, hi: u128) -> u128 {
    unsafe { ext::__sym_int(name.as_ptr(), name.len(), 128, lo, hi) }
}
/// A fresh 64-bit input in `lo..=hi`.
pub fn u64_in(name: &str, lo: u64, hi: u64) -> u64 {
    unsafe { ext::__sym_int(name.as_ptr(), name.len(), 64, lo as u128, hi as u128) as u64 }
}
pub fn bool_in(name: &str) -> bool {
    choice(name, 2) == 1
}
/// Explore every value of `0..n`, one path each.
pub fn choice(name: &str, n: u64) -> u64 {
    unsafe { ext::__sym_choice(name.as_ptr(), name.len(), n) }
}
/// Any name of up to `max` characters, letters and digits.
pub fn addr_in(name: &str, max: u64) -> String {
    name_in(1 + choice(name, max))
}
/// Any name of `n` characters, letters and digits.
pub fn name_in(n: u64) -> String {
    let mut b = Vec::with_capacity(n as usize);
    let mut i = 0;
    while i < n {
        let c = u64_in("char", 48, 122);
        assume(or(c <= 57, c >= 97));
        b.push(c as u8);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn assume(c: bool) {
    unsafe { ext::__sym_assume(c) }
}
pub fn check(c: bool, label: &str) {
    unsafe { ext::__sym_check(c, label.as_ptr(), label.len()) }
}
/// Marks the point as reached with a satisfiable path condition (vacuity guard).
pub fn cover(label: &str) {
    unsafe { ext::__sym_cover(label.as_ptr(), label.len()) }
}
/// While on, a panic on this path counts as a violation rather than an aborted transaction.
pub fn no_panic(on: bool) {
    unsafe { ext::__sym_no_panic(on) }
}
/// A bound of this run (set per tier), concrete.
pub fn param(name: &str, default: u64) -> u64 {
    unsafe { ext::__sym_param(name.as_ptr(), name.len(), default) }
}
/// Record a value in the counterexample.
pub fn note(name: &str, v: u128) {
    unsafe { ext::__sym_note(name.as_ptr(), name.len(), v) }
}
/// Explores both outcomes of a condition separately.
pub fn split(a: bool) -> bool {
    unsafe { ext::__sym_split(a) }
}
// Boolean connectives that do not branch.
pub fn not(a: bool) -> bool {
    unsafe { ext::__sym_not(a) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { ext::__sym_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { ext::__sym_or(a, b) }
}
pub fn implies(a: bool, b: bool) -> bool {
    or(not(a), b)
}
pub fn iff(a: bool, b: bool) -> bool {
    and(implies(a, b), implies(b, a))
}
pub fn ite(c: bool, a: u128, b: u128) -> u128 {
    unsafe { ext::__sym_ite(c, a, b) }
}

/// Mathematical (unbounded) integer.
#[derive(Clone, Copy)]
pub struct Z(u64);
pub fn z(v: impl Into<u128>) -> Z {
    Z(unsafe { ext::__sym_z_from(v.into()) })
}
impl std::ops::Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        Z(unsafe { ext::__sym_z_op(0, self.0, o.0) })
    }
}
impl std::ops::Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        Z(unsafe { ext::__sym_z_op(1, self.0, o.0) })
    }
}
impl std::ops::Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        Z(unsafe { ext::__sym_z_op(2, self.0, o.0) })
    }
}
impl Z {
    pub fn eq(self, o: Z) -> bool {
        unsafe { ext::__sym_z_cmp(0, self.0, o.0) }
    }
    pub fn le(self, o: Z) -> bool {
        unsafe { ext::__sym_z_cmp(1, self.0, o.0) }
    }
    pub fn lt(self, o: Z) -> bool {
        unsafe { ext::__sym_z_cmp(2, self.0, o.0) }
    }
    pub fn ge(self, o: Z) -> bool {
        o.le(self)
    }
    pub fn gt(self, o: Z) -> bool {
        o.lt(self)
    }
}

/// Defines a harness entry point.
#[cfg(not(feature = "native"))]
#[macro_export]
macro_rules! entry {
    ($n:ident, $b:block) => {
        #[no_mangle]
        pub extern "C" fn $n() $b
    };
}
#[cfg(feature = "native")]
#[macro_export]
macro_rules! entry {
    ($n:ident, $b:block) => {
        pub fn $n() $b
    };
}
