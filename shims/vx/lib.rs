//! Primitives shared by the symbolic engine and the native replayer.
//!
//! Under the engine every `vx_*` symbol below is an intrinsic (fresh symbolic value, assumption,
//! assertion, scheduling point, ...).  In a native build the same symbols come from
//! `native/vxnative.c`, which reads the values and the schedule of a counterexample from a tape.
#![no_std]

extern "C" {
    fn vx_sym(name: *const u8, len: usize, bits: u32) -> u64;
    fn vx_assume(c: u32);
    fn vx_assert(c: u32, msg: *const u8, len: usize);
    fn vx_cover(msg: *const u8, len: usize);
    fn vx_observe(v: u64);
    fn vx_yield(kind: u32);
    fn vx_block(timed: u32) -> u32;
    fn vx_wake();
    fn vx_spawn(f: extern "C" fn(usize), arg: usize) -> u32;
    fn vx_join(t: u32);
    fn vx_tid() -> u32;
    fn vx_stop() -> !;
}

/// Fresh symbolic values.
pub fn u64(name: &str) -> u64 {
    unsafe { vx_sym(name.as_ptr(), name.len(), 64) }
}
pub fn u32(name: &str) -> u32 {
    unsafe { vx_sym(name.as_ptr(), name.len(), 32) as u32 }
}
pub fn u16(name: &str) -> u16 {
    unsafe { vx_sym(name.as_ptr(), name.len(), 16) as u16 }
}
pub fn u8(name: &str) -> u8 {
    unsafe { vx_sym(name.as_ptr(), name.len(), 8) as u8 }
}
pub fn bool(name: &str) -> bool {
    unsafe { vx_sym(name.as_ptr(), name.len(), 1) & 1 != 0 }
}
pub fn usize(name: &str) -> usize {
    u64(name) as usize
}
/// A symbolic value below `n`.
pub fn below(name: &str, n: u32) -> u32 {
    let v = u8(name) as u32;
    assume(v < n);
    v
}
pub fn assume(c: bool) {
    unsafe { vx_assume(c as u32) }
}
/// The property: violated if the solver finds values that make `c` false.
#[inline(always)]
pub fn check(c: bool, msg: &str) {
    unsafe { vx_assert(c as u32, msg.as_ptr(), msg.len()) }
}
/// Reachability witness.
pub fn cover(msg: &str) {
    unsafe { vx_cover(msg.as_ptr(), msg.len()) }
}
/// Observable result, compared between the engine and the native build.
pub fn observe(v: u64) {
    unsafe { vx_observe(v) }
}
/// Scheduling point.
pub fn sched(kind: u32) {
    unsafe { vx_yield(kind) }
}
/// Block the current thread until some other thread calls `wake`.
pub fn block() {
    unsafe {
        vx_block(0);
    }
}
/// Same with a timeout that may fire at any time; true if it fired.
pub fn block_timed() -> bool {
    unsafe { vx_block(1) != 0 }
}
pub fn wake() {
    unsafe { vx_wake() }
}
pub fn spawn(f: extern "C" fn(usize), arg: usize) -> u32 {
    unsafe { vx_spawn(f, arg) }
}
pub fn join(t: u32) {
    unsafe { vx_join(t) }
}
pub fn tid() -> u32 {
    unsafe { vx_tid() }
}
/// Ends the path (not a violation).
pub fn stop() -> ! {
    unsafe { vx_stop() }
}
