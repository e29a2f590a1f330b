//! Per-run output area in shared memory: survives any death of the run.
use crate::choice::{mix, Rec};
use core::fmt::{self, Write};
use core::sync::atomic::{AtomicBool, AtomicPtr, Ordering::*};

pub const NNAME: usize = 96;
pub const TRACE: usize = 1 << 16;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Named {
    pub name: [u8; 48],
    pub n: u64,
    pub kind: u32, // 0 unused, 1 fault, 2 probe
    pub _p: u32,
}
#[repr(C)]
pub struct RunOut {
    pub status: u32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub nontrivial: u32,
    pub class: [u8; 64],
    pub msg: [u8; 2048],
    pub sig: u64,
    pub evhash: u64,
    pub simtime_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub ops: u64,
    pub trace_len: u32,
    pub trace_lost: u32,
    pub names: [Named; NNAME],
    pub trace: [u8; TRACE],
    pub rec: Rec,
}
static OUT: AtomicPtr<RunOut> = AtomicPtr::new(core::ptr::null_mut());
static QUIET: AtomicBool = AtomicBool::new(false);
pub fn set(p: *mut RunOut) {
    OUT.store(p, SeqCst);
}
pub fn out() -> &'static mut RunOut {
    unsafe { &mut *OUT.load(Relaxed) }
}
pub fn is_set() -> bool {
    !OUT.load(Relaxed).is_null()
}
/// Suppress events (and hashing) of code whose event count is not part of the
/// observable run.
pub fn quiet(q: bool) {
    QUIET.store(q, Relaxed)
}
impl RunOut {
    pub fn reset(&mut self) {
        unsafe { core::ptr::write_bytes(self as *mut RunOut as *mut u8, 0, core::mem::offset_of!(RunOut, trace)) };
        self.sig = 0x1234;
        self.evhash = 0x77;
    }
    pub fn class_str(&self) -> &str {
        cstr(&self.class)
    }
    pub fn msg_str(&self) -> &str {
        cstr(&self.msg)
    }
    pub fn trace_str(&self) -> String {
        String::from_utf8_lossy(&self.trace[..self.trace_len as usize]).into_owned()
    }
}
pub fn cstr(b: &[u8]) -> &str {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    match core::str::from_utf8(&b[..n]) {
        Ok(s) => s,
        Err(e) => core::str::from_utf8(&b[..e.valid_up_to()]).unwrap(),
    }
}
pub struct Buf<'a> {
    pub b: &'a mut [u8],
    pub n: usize,
}
impl fmt::Write for Buf<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = s.len().min(self.b.len() - self.n);
        self.b[self.n..self.n + k].copy_from_slice(&s.as_bytes()[..k]);
        self.n += k;
        Ok(())
    }
}
fn bump(kind: u32, name: &str, by: u64) {
    if !is_set() {
        return;
    }
    let nb = name.as_bytes();
    let k = nb.len().min(47);
    for e in out().names.iter_mut() {
        if e.kind == 0 {
            e.kind = kind;
            e.name[..k].copy_from_slice(&nb[..k]);
            e.name[k] = 0;
            e.n = by;
            return;
        }
        if e.kind == kind && e.name[..k] == nb[..k] && e.name[k] == 0 {
            e.n += by;
            return;
        }
    }
}
/// A fault actually fired.
pub fn fault(name: &str) {
    bump(1, name, 1)
}
/// A rare condition was reached.
pub fn probe(name: &str) {
    bump(2, name, 1)
}
pub fn op() {
    out().ops += 1;
}
pub fn simtime(ns: u64) {
    out().simtime_ns += ns;
}
pub fn sig(v: u64) {
    let o = out();
    o.sig = mix(o.sig, v);
}
pub fn nontrivial() {
    out().nontrivial = 1;
}
pub fn ev_args(a: fmt::Arguments) {
    if !is_set() || QUIET.load(Relaxed) {
        return;
    }
    let mut tmp = [0u8; 400];
    let mut b = Buf { b: &mut tmp, n: 0 };
    let _ = b.write_fmt(a);
    let n = b.n;
    let o = out();
    let mut h = o.evhash;
    for ch in tmp[..n].chunks(8) {
        let mut w = [0u8; 8];
        w[..ch.len()].copy_from_slice(ch);
        h = mix(h, u64::from_le_bytes(w));
    }
    o.evhash = mix(h, n as u64);
    let l = o.trace_len as usize;
    if l + n + 1 <= TRACE {
        o.trace[l..l + n].copy_from_slice(&tmp[..n]);
        o.trace[l + n] = b'\n';
        o.trace_len += n as u32 + 1;
    } else {
        o.trace_lost += 1;
    }
}
#[macro_export]
macro_rules! ev { ($($a:tt)*) => { $crate::out::ev_args(format_args!($($a)*)) } }

fn put(dst: &mut [u8], a: fmt::Arguments) {
    let cap = dst.len() - 1;
    let mut b = Buf { b: &mut dst[..cap], n: 0 };
    let _ = b.write_fmt(a);
    let n = b.n;
    dst[n] = 0;
}
/// Record a violation and end the run at once (from any thread or grandchild).
pub fn violation(class: &str, a: fmt::Arguments) -> ! {
    let o = out();
    if o.status == 0 {
        put(&mut o.class, format_args!("{class}"));
        put(&mut o.msg, a);
        crate::sched::stamp();
        o.status = 2;
    }
    crate::sys::exit_group(0)
}
pub fn harness_error(a: fmt::Arguments) -> ! {
    let o = out();
    put(&mut o.class, format_args!("harness-error"));
    put(&mut o.msg, a);
    o.status = 3;
    crate::sys::exit_group(0)
}
#[macro_export]
macro_rules! violate { ($c:expr, $($a:tt)*) => { $crate::out::violation($c, format_args!($($a)*)) } }
#[macro_export]
macro_rules! harness { ($($a:tt)*) => { $crate::out::harness_error(format_args!($($a)*)) } }

/// The last panic, as text (no heap).
pub struct LastPanic {
    pub b: [u8; 512],
}
pub static mut LAST_PANIC: LastPanic = LastPanic { b: [0; 512] };
pub static mut LAST_PANIC_HARNESS: bool = false;
pub fn last_panic() -> &'static str {
    #[allow(static_mut_refs)]
    unsafe {
        cstr(&LAST_PANIC.b)
    }
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::calm();
        let (file, line) = info.location().map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
        let m = info.payload();
        let m: &str = if let Some(s) = m.downcast_ref::<&str>() {
            s
        } else if let Some(s) = m.downcast_ref::<String>() {
            s
        } else {
            "?"
        };
        #[allow(static_mut_refs)]
        unsafe {
            LAST_PANIC_HARNESS = file.starts_with("src/") || file.contains("verif/sim") || file.starts_with("rt/");
            put(&mut LAST_PANIC.b, format_args!("{m} at {file}:{line}"));
        }
    }));
}
