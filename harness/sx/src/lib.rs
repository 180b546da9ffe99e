//! Harness-side interface of the symbolic executor (`/verif/symex`).
//!
//! Under the executor these externs are intercepted; in a native replay they are supplied by
//! `/verif/harness/replay.c`, which feeds the recorded concrete inputs.
#![allow(clippy::missing_safety_doc)]
pub mod raw {
    extern "C" {
        pub fn sx_u64() -> u64;
        pub fn sx_u32() -> u32;
        pub fn sx_u16() -> u16;
        pub fn sx_u8() -> u8;
        pub fn sx_bool() -> bool;
        pub fn sx_bytes(p: *mut u8, n: usize);
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, id: u32);
        pub fn sx_cover(id: u32);
        pub fn sx_obs(v: u64);
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_alloc_limit(v: u64);
        pub fn sx_select(c: bool, a: u64, b: u64) -> u64;
        pub fn sx_tier() -> u32;
    }
}
use raw::*;
/// An arbitrary value.
#[inline(always)]
pub fn u64() -> u64 {
    unsafe { sx_u64() }
}
#[inline(always)]
pub fn u32() -> u32 {
    unsafe { sx_u32() }
}
#[inline(always)]
pub fn u16() -> u16 {
    unsafe { sx_u16() }
}
#[inline(always)]
pub fn u8() -> u8 {
    unsafe { sx_u8() }
}
#[inline(always)]
pub fn usize() -> usize {
    unsafe { sx_u64() as usize }
}
#[inline(always)]
pub fn bool() -> bool {
    unsafe { sx_bool() }
}
/// N arbitrary bytes.
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sx_bytes(b.as_mut_ptr(), N) };
    b
}
/// A vector of n arbitrary bytes (n concrete).
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    if n > 0 {
        unsafe { sx_bytes(b.as_mut_ptr(), n) };
    }
    b
}
/// A value in lo..=hi, enumerated path by path (concrete on each path).
pub fn pick(lo: u64, hi: u64) -> u64 {
    let v = u64();
    assume(v >= lo);
    assume(v <= hi);
    conc(v)
}
pub fn pick_usize(lo: usize, hi: usize) -> usize {
    pick(lo as u64, hi as u64) as usize
}
/// A value in lo..=hi, left symbolic.
pub fn range(lo: u64, hi: u64) -> u64 {
    let v = u64();
    assume(v >= lo);
    assume(v <= hi);
    v
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { sx_concretize(v) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { sx_cover(id) }
}
#[inline(always)]
pub fn obs(v: u64) {
    unsafe { sx_obs(v) }
}
#[inline(always)]
pub fn check_at(c: bool, line: u32) {
    unsafe { sx_check(c, line) }
}
#[inline(always)]
pub fn alloc_limit(v: u64) {
    unsafe { sx_alloc_limit(v) }
}
/// Branch-free choice.
#[inline(always)]
pub fn sel(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sx_select(c, a, b) }
}
pub fn thorough() -> bool {
    unsafe { sx_tier() != 0 }
}
/// tier-dependent bound
pub fn bound(quick: usize, thorough: usize) -> usize {
    if unsafe { sx_tier() != 0 } {
        thorough
    } else {
        quick
    }
}
/// Byte equality without early exit (one term instead of a fork per byte).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::check_at($c, line!())
    };
}

static mut NOW: u64 = 1_800_000_000;
/// The wall clock of the environment model, in Unix seconds.
pub fn set_clock(secs: u64) {
    unsafe { NOW = secs }
}
#[no_mangle]
pub extern "C" fn clock_gettime(_clk: i32, ts: *mut [u64; 2]) -> i32 {
    unsafe { *ts = [NOW, 0] };
    0
}
