#![allow(static_mut_refs, clippy::missing_safety_doc)]
//! Deterministic simulation runtime: choice stream, scheduler, allocator and
//! kernel seams, run driver, minimiser, replay.  Never instrumented.
pub mod alloc;
pub mod choice;
pub mod driver;
pub mod kern;
pub mod out;
pub mod sched;
pub mod sys;
pub use choice::{mix, Choices, Rng};
pub use out::{fault, nontrivial, op, probe, sig};

/// Outcome of a piece of a run executed in its own process.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}
/// Run `f` in a forked copy of this (single-threaded) process.  Only memory
/// in `Shared` areas survives it.  Exit code 0 if `f` returned, 101 if it
/// unwound.
pub fn isolate(f: impl FnOnce()) -> Exit {
    let pid = sys::do_fork();
    if pid == 0 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        sys::exit_group(if r.is_ok() { 0 } else { 101 });
    }
    let (_, st) = sys::wait4(pid);
    if out::out().status != 0 {
        sys::exit_group(0); // the grandchild reported
    }
    if st & 0x7f == 0 {
        Exit::Code(st >> 8 & 0xff)
    } else {
        Exit::Signal(st & 0x7f)
    }
}
/// Shared memory that survives the death of an isolated piece ("durable").
pub struct Shared {
    p: *mut u8,
    pub len: usize,
}
impl Shared {
    pub fn new(len: usize) -> Shared {
        Shared { p: sys::mmap_shared(len), len }
    }
    pub fn bytes(&self) -> &'static mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(self.p, self.len) }
    }
    pub fn words(&self) -> &'static mut [u64] {
        unsafe { core::slice::from_raw_parts_mut(self.p as *mut u64, self.len / 8) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { sys::sc(sys::SYS_MUNMAP, self.p as i64, self.len as i64, 0, 0, 0, 0) };
    }
}
