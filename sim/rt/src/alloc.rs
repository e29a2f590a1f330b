//! The allocator seam.  One deterministic region allocator for the whole
//! process (fixed addresses, LIFO size classes), with accounting and fault
//! modes.
use crate::sys;
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub struct SimAlloc;

const BASE: usize = 0x6100_0000_0000;
const SIZE: usize = 1 << 36; // 64 GiB of address space, committed on touch
const FBASE: usize = 0x6300_0000_0000;
const FSIZE: usize = 1 << 36;
/// Requests above this fail, like on a machine with little memory.
pub static REFUSE_ABOVE: AtomicUsize = AtomicUsize::new(1 << 30);

static LOCK: AtomicBool = AtomicBool::new(false);
static READY: AtomicBool = AtomicBool::new(false);
static mut BUMP: usize = BASE;
static mut FREE: [usize; 64] = [0; 64];
static mut FBUMP: usize = FBASE;

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static MAXREQ: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicUsize = AtomicUsize::new(0);

/// mode 0 normal; 1 deny (any heap call is a violation); 2 fail the nth
/// request from now; 3 fail every request from the nth on.
static MODE: AtomicU32 = AtomicU32::new(0);
static NTH: AtomicU64 = AtomicU64::new(0);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
/// fence: 0 off, 1 right-aligned, 2 left-aligned
static FENCE: AtomicU32 = AtomicU32::new(0);
static POISON: AtomicU32 = AtomicU32::new(0x100);
pub static FENCED: AtomicU64 = AtomicU64::new(0);
/// only requests made on the thread/period under test count for modes 1-3
static DENY_HIT: AtomicU64 = AtomicU64::new(0);

pub fn deny() {
    MODE.store(1, SeqCst)
}
pub fn fail_nth(n: u64) {
    NTH.store(n, SeqCst);
    MODE.store(2, SeqCst)
}
pub fn fail_from(n: u64) {
    NTH.store(n, SeqCst);
    MODE.store(3, SeqCst)
}
/// Back to normal; returns the mode that was set.
pub fn calm() -> u32 {
    MODE.swap(0, SeqCst)
}
pub fn set_mode(m: u32) {
    MODE.store(m, SeqCst)
}
pub fn mode() -> u32 {
    MODE.load(Relaxed)
}
pub fn fence(kind: u32, poison: Option<u8>) {
    FENCE.store(kind, SeqCst);
    POISON.store(poison.map(|p| p as u32).unwrap_or(0x100), SeqCst);
}
pub fn peak_reset() {
    PEAK.store(LIVE.load(SeqCst), SeqCst);
    MAXREQ.store(0, SeqCst);
}
/// Start of a run: the same empty heap, at the same addresses, every time.
pub fn fresh() {
    unsafe {
        FREE = [0; 64];
        BUMP = BASE + SIZE / 2;
        FBUMP = FBASE;
    }
    for a in [&CALLS, &FAILED, &FENCED] {
        a.store(0, SeqCst);
    }
    LIVE.store(1 << 20, SeqCst);
    BLOCKS.store(1 << 10, SeqCst);
    calm();
    fence(0, None);
    peak_reset();
}
fn lock() {
    while LOCK.swap(true, Acquire) {
        core::hint::spin_loop();
    }
    if !READY.load(Relaxed) {
        if !sys::mmap_fixed(BASE, SIZE, 3) || !sys::mmap_fixed(FBASE, FSIZE, 0) {
            sys::write_all(2, b"simrt: cannot reserve heap region\n");
            sys::exit_group(2);
        }
        READY.store(true, Relaxed);
    }
}
fn unlock() {
    LOCK.store(false, Release);
}
fn class(size: usize) -> u32 {
    let s = size.max(16);
    usize::BITS - (s - 1).leading_zeros()
}
unsafe fn fenced(l: &Layout) -> *mut u8 {
    let size = l.size();
    if l.align() > 4096 || FENCED.load(Relaxed) > 14_000 {
        return core::ptr::null_mut();
    }
    let pages = (size + 4095) / 4096;
    let span = (pages + 2) * 4096;
    if FBUMP + span > FBASE + FSIZE {
        return core::ptr::null_mut();
    }
    let start = FBUMP + 4096;
    FBUMP += span - 4096; // share one guard page
    if sys::sc(sys::SYS_MPROTECT, start as i64, (pages * 4096) as i64, 3, 0, 0, 0) != 0 {
        return core::ptr::null_mut();
    }
    FENCED.fetch_add(1, Relaxed);
    if FENCE.load(Relaxed) == 2 {
        start as *mut u8
    } else {
        ((start + pages * 4096 - size) & !(l.align() - 1)) as *mut u8
    }
}
fn is_fenced(p: usize) -> bool {
    p >= FBASE && p < FBASE + FSIZE
}
unsafe fn raw_alloc(l: &Layout, zero: bool) -> *mut u8 {
    let size = l.size();
    if size > REFUSE_ABOVE.load(Relaxed) || size + LIVE.load(Relaxed) > (3 << 29) {
        MAXREQ.fetch_max(size, Relaxed);
        return core::ptr::null_mut();
    }
    lock();
    let mut p: *mut u8 = core::ptr::null_mut();
    let mut fresh = false;
    if FENCE.load(Relaxed) != 0 {
        p = fenced(l);
        fresh = !p.is_null();
    }
    if p.is_null() {
        let c = class(size.max(l.align()));
        let head = FREE[c as usize];
        if head != 0 {
            FREE[c as usize] = *(head as *const usize);
            p = head as *mut u8;
        } else {
            let sz = 1usize << c;
            let a = sz.min(4096).max(l.align());
            let at = (BUMP + a - 1) & !(a - 1);
            if at + sz <= BASE + SIZE {
                BUMP = at + sz;
                p = at as *mut u8;
                fresh = true;
            }
        }
    }
    unlock();
    if p.is_null() {
        return p;
    }
    let po = POISON.load(Relaxed);
    if zero {
        if !fresh {
            core::ptr::write_bytes(p, 0, size);
        }
    } else if po < 0x100 {
        core::ptr::write_bytes(p, po as u8, size);
    }
    let live = LIVE.fetch_add(size, Relaxed) + size;
    PEAK.fetch_max(live, Relaxed);
    MAXREQ.fetch_max(size, Relaxed);
    BLOCKS.fetch_add(1, Relaxed);
    p
}
unsafe fn raw_free(p: *mut u8, l: &Layout) {
    LIVE.fetch_sub(l.size(), Relaxed);
    BLOCKS.fetch_sub(1, Relaxed);
    let a = p as usize;
    if is_fenced(a) {
        let s = a & !4095;
        let e = (a + l.size().max(1) + 4095) & !4095;
        sys::sc(sys::SYS_MPROTECT, s as i64, (e - s) as i64, 0, 0, 0, 0);
        return;
    }
    let po = POISON.load(Relaxed);
    if po < 0x100 {
        core::ptr::write_bytes(p, !(po as u8), l.size());
    }
    lock();
    let c = class(l.size().max(l.align())) as usize;
    *(p as *mut usize) = FREE[c];
    FREE[c] = a;
    unlock();
}
/// false: the request must fail
fn admit(what: &str, size: usize) -> bool {
    CALLS.fetch_add(1, Relaxed);
    match MODE.load(Relaxed) {
        0 => true,
        1 => {
            MODE.store(0, SeqCst);
            DENY_HIT.fetch_add(1, Relaxed);
            crate::out::violation("heap-touched", format_args!("heap {what} of {size} bytes inside a routine that must not touch the heap"))
        }
        m => {
            let n = NTH.load(Relaxed);
            if n == 0 {
                if m == 2 {
                    MODE.store(0, SeqCst);
                }
                FAILED.fetch_add(1, Relaxed);
                false
            } else {
                NTH.store(n - 1, Relaxed);
                true
            }
        }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !admit("request", l.size()) {
            return core::ptr::null_mut();
        }
        raw_alloc(&l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !admit("request", l.size()) {
            return core::ptr::null_mut();
        }
        raw_alloc(&l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if MODE.load(Relaxed) == 1 {
            admit("release", l.size());
        }
        raw_free(p, &l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !admit("resize", new) {
            return core::ptr::null_mut();
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = raw_alloc(&nl, false);
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            raw_free(p, &l);
        }
        q
    }
}
