//! What a call costs: basic blocks of the library run, heap operations, bytes copied, and heap memory held.
//!
//! All counters belong to the calling thread. Blocks and copies are counted in the build with scheduling points only
//! (there the compiler calls `__sanitizer_cov_trace_pc` in every block of the library, and `memcpy` and `memmove` are
//! the ones below); in the other builds only heap operations are counted.
use std::cell::Cell;

thread_local! {
    static WORK: Cell<u64> = const { Cell::new(0) };
}
#[inline]
pub fn work(n: u64) {
    let _ = WORK.try_with(|w| w.set(w.get().wrapping_add(n)));
}
#[derive(Clone, Copy, Debug)]
pub struct Cost {
    /// blocks + heap operations + copied bytes / 16
    pub work: u64,
    /// most heap memory held at once beyond what was held before
    pub peak: u64,
    /// heap memory still held afterwards beyond what was held before
    pub kept: i64,
}
pub fn of(f: impl FnOnce()) -> Cost {
    let live = crate::engine::live();
    crate::engine::reset_peak();
    let w = WORK.with(|w| w.get());
    f();
    Cost {
        work: WORK.with(|w| w.get()).wrapping_sub(w),
        peak: crate::engine::peak().saturating_sub(live) as u64,
        kept: crate::engine::live() as i64 - live as i64,
    }
}

#[cfg(vh_count)]
mod copies {
    use std::arch::asm;
    #[no_mangle]
    unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        super::work(n as u64 / 16);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        super::work(n as u64 / 16);
        if (d as usize).wrapping_sub(s as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
}
