//! Raw Linux x86-64 system calls.  The runtime never goes through libc for
//! anything it interposes, so simulated and real calls cannot mix.
use core::arch::asm;
pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_OPEN: i64 = 2;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_POLL: i64 = 7;
pub const SYS_MMAP: i64 = 9;
pub const SYS_MPROTECT: i64 = 10;
pub const SYS_MUNMAP: i64 = 11;
pub const SYS_RT_SIGACTION: i64 = 13;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_PAUSE: i64 = 34;
pub const SYS_ALARM: i64 = 37;
pub const SYS_GETPID: i64 = 39;
pub const SYS_WAIT4: i64 = 61;
pub const SYS_KILL: i64 = 62;
pub const SYS_DUP2: i64 = 33;
pub const SYS_PRLIMIT: i64 = 302;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_WAITID: i64 = 247;
pub const SYS_PIPE2: i64 = 293;
pub const SYS_PERSONALITY: i64 = 135;
pub const SYS_GETRANDOM: i64 = 318;

#[inline(always)]
pub unsafe fn sc(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub fn mmap_shared(len: usize) -> *mut u8 {
    let r = unsafe { sc(SYS_MMAP, 0, len as i64, 3, 0x01 | 0x20, -1, 0) };
    assert!(r > 0, "mmap shared {len} -> {r}");
    r as *mut u8
}
pub fn mmap_fixed(addr: usize, len: usize, prot: i64) -> bool {
    // MAP_PRIVATE|MAP_ANON|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let r = unsafe { sc(SYS_MMAP, addr as i64, len as i64, prot, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    r == addr as i64
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        sc(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sc(SYS_WRITE, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn wait4(pid: i32) -> (i32, i32) {
    let mut st = 0i32;
    loop {
        let r = unsafe { sc(SYS_WAIT4, pid as i64, &mut st as *mut i32 as i64, 0, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        return (r as i32, st);
    }
}
extern "C" {
    fn fork() -> i32;
}
/// Only ever called from single-threaded processes.
pub fn do_fork() -> i32 {
    let r = unsafe { fork() };
    assert!(r >= 0, "fork failed");
    r
}
pub fn now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { sc(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
pub fn alarm(s: u32) {
    unsafe { sc(SYS_ALARM, s as i64, 0, 0, 0, 0, 0) };
}
/// Send this process's stderr to /dev/null.
pub fn mute_stderr() {
    unsafe {
        let fd = sc(SYS_OPEN, b"/dev/null\0".as_ptr() as i64, 1, 0, 0, 0, 0);
        if fd >= 0 {
            sc(SYS_DUP2, fd, 2, 0, 0, 0, 0);
            sc(SYS_CLOSE, fd, 0, 0, 0, 0, 0);
        }
    }
}
pub fn futex_wait(w: *const u32, val: u32) {
    unsafe { sc(SYS_FUTEX, w as i64, 128, val as i64, 0, 0, 0) };
}
pub fn futex_wake(w: *const u32) {
    unsafe { sc(SYS_FUTEX, w as i64, 129, 1, 0, 0, 0) };
}
extern "C" {
    pub fn __errno_location() -> *mut i32;
}
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
/// Convert a raw return value to the libc convention.
pub fn libc_ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
