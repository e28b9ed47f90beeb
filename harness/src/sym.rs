//! The symbolic-execution interface.  Under the engine these calls are
//! intercepted; in the native replayer they pop recorded values.
#![allow(dead_code)]

mod raw {
    extern "C" {
        pub fn sym_param(i: u64) -> i64;
        pub fn sym_int(lo: i64, hi: i64) -> i64;
        pub fn sym_bool() -> bool;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, p: *const u8, n: usize);
        pub fn sym_cover(id: u64);
        pub fn sym_concretize(x: i64) -> i64;
        pub fn sym_live() -> u64;
        pub fn sym_note(x: i64);
        pub fn sym_ite(c: bool, a: i64, b: i64) -> i64;
    }
    extern "C-unwind" {
        pub fn sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
        pub fn sym_panic();
    }
}

/// A concrete shape parameter of the job.
#[inline(always)]
pub fn param(i: u64) -> i64 {
    unsafe { raw::sym_param(i) }
}
/// A fresh symbolic integer in `lo..=hi`.
#[inline(always)]
pub fn int(lo: i64, hi: i64) -> i64 {
    unsafe { raw::sym_int(lo, hi) }
}
#[inline(always)]
pub fn boolean() -> bool {
    unsafe { raw::sym_bool() }
}
/// A nondeterministic concrete choice in `0..n` (one path each).
#[inline(always)]
pub fn choice(n: usize) -> usize {
    unsafe { raw::sym_choice(n as u64) as usize }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { raw::sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, msg: &str) {
    unsafe { raw::sym_assert(b, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn cover(id: u64) {
    unsafe { raw::sym_cover(id) }
}
#[inline(always)]
pub fn concretize(x: i64) -> i64 {
    unsafe { raw::sym_concretize(x) }
}
#[inline(always)]
pub fn live() -> u64 {
    unsafe { raw::sym_live() }
}
#[inline(always)]
pub fn note(x: i64) {
    unsafe { raw::sym_note(x) }
}
/// `if c { a } else { b }` without a branch.
#[inline(always)]
pub fn ite(c: bool, a: i64, b: i64) -> i64 {
    unsafe { raw::sym_ite(c, a, b) }
}
#[inline(always)]
pub fn user_panic() {
    unsafe { raw::sym_panic() }
}

/// Runs `f`, catching a user panic; true if it panicked.
pub fn catch<F: FnMut()>(mut f: F) -> bool {
    extern "C-unwind" fn tramp<F: FnMut()>(p: *mut u8) {
        unsafe { (*(p as *mut F))() }
    }
    unsafe { raw::sym_try(tramp::<F>, &mut f as *mut F as *mut u8) }
}
