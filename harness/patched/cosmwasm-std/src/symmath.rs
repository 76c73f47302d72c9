//! Verification-only: 128x128/128 multiply-divide as an engine intrinsic.
#![allow(improper_ctypes)]
extern "C" {
    /// *out = floor(a*b/c) (ceil when up != 0) for c != 0; returns 1 when it does not fit 128 bits.
    fn __sym_mul_div(a: u128, b: u128, c: u128, up: u8, out: *mut u128) -> u8;
}

#[inline(never)]
pub fn mul_div_dir(a: u128, b: u128, c: u128, up: u8) -> Option<u128> {
    let mut out: u128 = 0;
    if unsafe { __sym_mul_div(a, b, c, up, &mut out) } != 0 {
        None
    } else {
        Some(out)
    }
}

pub fn mul_div(a: u128, b: u128, c: u128) -> Option<u128> {
    mul_div_dir(a, b, c, 0)
}
