//! Real threads, released one at a time.  The code under test and the
//! workloads are compiled with a callback on every basic block; the callback
//! counts steps and, at step numbers drawn from the choice stream, hands the
//! single run token to another thread, or ends the process (crash).
use crate::choice::Choices;
use crate::{ev, out, sys};
use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXT: usize = 32;
const NONE: usize = usize::MAX;

static mut STEPS: u64 = 0;
static mut TRIGGER: u64 = u64::MAX;
static mut CRASH_AT: u64 = u64::MAX;
static mut LIMIT: u64 = u64::MAX;
static mut PREEMPT_AT: u64 = u64::MAX;
static mut ACTIVE: bool = false;
static mut GAP: u64 = 1000;
static mut BUDGET: u64 = 0;
static mut CUR: usize = NONE;
static mut NT: usize = 0;
static mut CH: *mut Choices = core::ptr::null_mut();
static mut SWITCHES: u64 = 0;
static mut CLOCK: u64 = 0;
/// wall clock minus monotonic clock
static mut WALL: i64 = WALL0;
const WALL0: i64 = 1_700_000_000_000_000_000;
static mut COV: *mut u8 = core::ptr::null_mut();
static mut NGUARD: u32 = 0;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Free,
    Run,
    Blocked(usize, u64),
    /// inside a simulated system call that cannot complete yet
    Kern,
    Done,
    /// left behind when the run ended
    Lost,
}
static mut ST: [St; MAXT] = [St::Free; MAXT];
static mut WOKEN: [bool; MAXT] = [false; MAXT];
static mut HANDLE: [usize; MAXT] = [0; MAXT];
/// the run ends when thread 0 does
static mut MAIN_ENDS: bool = false;
static WORD: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

thread_local! { static ME: Cell<usize> = const { Cell::new(NONE) }; }
thread_local! { static ATOMIC: Cell<u32> = const { Cell::new(0) }; }
/// No preemption of this thread until the guard goes: a simulated system call
/// is one step (unless it blocks).
pub struct Atomic(());
pub fn atomic() -> Atomic {
    ATOMIC.with(|a| a.set(a.get() + 1));
    Atomic(())
}
impl Drop for Atomic {
    fn drop(&mut self) {
        ATOMIC.with(|a| a.set(a.get() - 1));
    }
}

pub const MAXGUARD: usize = 1 << 20;
pub fn set_cov(p: *mut u8) {
    unsafe { COV = p }
}
pub fn guards() -> u32 {
    unsafe { NGUARD }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            NGUARD += 1;
            *p = NGUARD.min(MAXGUARD as u32 - 1);
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    if !COV.is_null() {
        *COV.add(id as usize) = 1;
    }
    STEPS += 1;
    if STEPS >= TRIGGER {
        slow(id);
    }
}
#[cold]
#[inline(never)]
unsafe fn slow(id: u32) {
    if STEPS >= CRASH_AT {
        sys::exit_group(77);
    }
    if STEPS >= LIMIT {
        out::violation("no-progress", format_args!("step budget exhausted after {} basic blocks: the call spins", STEPS));
    }
    if ACTIVE && STEPS >= PREEMPT_AT {
        let me = ME.with(|m| m.get());
        if me == CUR && ATOMIC.with(|a| a.get()) == 0 {
            preempt(me, id);
        }
    }
    retrigger();
}
unsafe fn retrigger() {
    let mut t = CRASH_AT.min(LIMIT);
    if ACTIVE {
        t = t.min(PREEMPT_AT);
    }
    TRIGGER = t;
}
/// die (exit code 77) after n more basic blocks
pub fn crash_after(n: u64) {
    unsafe {
        CRASH_AT = STEPS + n.max(1);
        retrigger();
    }
}
pub fn no_crash() {
    unsafe {
        CRASH_AT = u64::MAX;
        retrigger();
    }
}
pub fn step_limit(n: u64) {
    unsafe {
        LIMIT = STEPS.saturating_add(n);
        retrigger();
    }
}
/// Start of a run: nothing of the parent's history may show.
pub fn reset() {
    unsafe {
        STEPS = 0;
        SWITCHES = 0;
        CLOCK = 0;
        WALL = WALL0;
        RNDCTR = 0;
        CRASH_AT = u64::MAX;
    }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn stamp() {
    unsafe {
        let o = out::out();
        o.steps = STEPS;
        o.switches = SWITCHES;
    }
}
/// simulated clock, ns
pub fn clock() -> u64 {
    unsafe { CLOCK }
}
/// The wall clock is set forward or back.
pub fn set_wall(by: i64) {
    unsafe { WALL += by };
}
pub fn advance(ns: u64) {
    unsafe { CLOCK += ns };
    out::simtime(ns);
}
unsafe fn set_gap() {
    PREEMPT_AT = STEPS
        + if BUDGET > 0 {
            BUDGET -= 1;
            1 + (*CH).draw(2 * GAP)
        } else {
            50_000
        };
}
unsafe fn runnable(buf: &mut [usize; MAXT]) -> usize {
    let mut n = 0;
    for t in 0..NT {
        if ST[t] == St::Run {
            buf[n] = t;
            n += 1;
        }
    }
    n
}
unsafe fn preempt(me: usize, id: u32) {
    let _a = atomic();
    let mut b = [0; MAXT];
    let n = runnable(&mut b);
    if n <= 1 && MAIN_ENDS {
        PREEMPT_AT = STEPS + 2 * GAP;
        return;
    }
    let had = BUDGET > 0;
    set_gap();
    if n <= 1 {
        return;
    }
    let mut k = 0;
    while b[k] != me {
        k += 1;
    }
    let d = if had { (*CH).draw(n as u64) as usize } else { 1 };
    if d == 0 {
        return;
    }
    let t = b[(k + d) % n];
    SWITCHES += 1;
    out::sig(((me as u64) << 48) ^ ((t as u64) << 40) ^ id as u64);
    ev!("  sched: t{me} preempted at block {id} (step {}), t{t} runs", STEPS);
    hand(me, t);
}
unsafe fn hand(me: usize, t: usize) {
    let done = ST[me] == St::Done; // read before anyone else runs
    CUR = t;
    retrigger();
    WORD[t].store(1, SeqCst);
    sys::futex_wake(WORD[t].as_ptr());
    if done {
        park();
    }
    wait_token(me);
}
/// A finished thread stays here: its exit path would run unscheduled.
fn park() -> ! {
    loop {
        unsafe { sys::sc(sys::SYS_PAUSE, 0, 0, 0, 0, 0, 0) };
    }
}
unsafe fn wait_token(me: usize) {
    while WORD[me].swap(0, SeqCst) == 0 {
        sys::futex_wait(WORD[me].as_ptr(), 0);
    }
}
/// Current thread cannot go on (blocked or done): pick another.
unsafe fn leave(me: usize, done: bool) {
    let _a = atomic();
    if done && me == 0 && MAIN_ENDS {
        ACTIVE = false;
        retrigger();
        WORD[MAXT].store(1, SeqCst);
        sys::futex_wake(WORD[MAXT].as_ptr());
        park();
    }
    let mut b = [0; MAXT];
    let mut n = runnable(&mut b);
    while n == 0 {
        // timed waiters: jump the clock
        let mut best = NONE;
        let mut at = u64::MAX;
        for t in 0..NT {
            if let St::Blocked(_, dl) = ST[t] {
                if dl < at {
                    at = dl;
                    best = t;
                }
            }
        }
        // the simulated processes go first
        if crate::kern::on() && (NT > 1 || MAIN_ENDS) && crate::kern::before(at) {
            n = runnable(&mut b);
            continue;
        }
        if best != NONE {
            if at > CLOCK {
                advance(at - CLOCK);
            }
            ST[best] = St::Run;
            WOKEN[best] = false;
            if best == me {
                return;
            }
            switch_from(me, best, done);
            return;
        }
        if (0..NT).any(|t| ST[t] == St::Kern) {
            crate::kern::stuck("a system call");
        }
        if (0..NT).any(|t| matches!(ST[t], St::Blocked(..))) {
            out::violation("deadlock", format_args!("deadlock: every unfinished thread waits on a lock"));
        }
        // all done
        ACTIVE = false;
        retrigger();
        WORD[MAXT].store(1, SeqCst);
        sys::futex_wake(WORD[MAXT].as_ptr());
        park();
    }
    let k = if n > 1 && BUDGET > 0 { (*CH).draw(n as u64) as usize } else { 0 };
    if MAIN_ENDS {
        PREEMPT_AT = STEPS + 2 * GAP;
    } else {
        set_gap();
    }
    if b[k] == me {
        return;
    }
    switch_from(me, b[k], done);
}
/// More than one thread is alive: a blocked call lets the others run first.
pub fn many() -> bool {
    unsafe { ACTIVE && ME.with(|m| m.get()) != NONE && (0..NT).filter(|t| !matches!(ST[*t], St::Free | St::Done | St::Lost)).count() > 1 }
}
/// The calling thread's system call cannot complete; returns when something
/// has changed.
pub fn kblock() {
    unsafe {
        let me = ME.with(|m| m.get());
        let _a = atomic();
        ST[me] = St::Kern;
        leave(me, false);
        ST[me] = St::Run;
    }
}
/// The simulated world changed: blocked calls look again.
pub fn kwake() {
    unsafe {
        for t in 0..NT {
            if ST[t] == St::Kern {
                ST[t] = St::Run;
            }
        }
    }
}
/// Let another thread run, if any can.
pub fn kyield() {
    unsafe {
        let me = ME.with(|m| m.get());
        let mut b = [0; MAXT];
        if runnable(&mut b) > 1 {
            leave_yield(me);
        }
    }
}
unsafe fn switch_from(me: usize, t: usize, done: bool) {
    SWITCHES += 1;
    out::sig(((me as u64) << 48) ^ ((t as u64) << 40) ^ 0xffff_0000 ^ done as u64);
    ev!("  sched: t{me} {}, t{t} runs", if done { "done" } else { "waits" });
    hand(me, t);
}

type Start = (usize, Box<dyn FnOnce() + Send>);
type Pc = unsafe extern "C" fn(*mut usize, *const u8, extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32;
type Pj = unsafe extern "C" fn(usize, *mut usize) -> i32;
type Pd = unsafe extern "C" fn(usize) -> i32;
extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
static mut REAL: [usize; 3] = [0; 3];
/// Look the real thread functions up, before any simulation.
pub fn init() {
    unsafe {
        for (i, n) in [b"pthread_create\0" as &[u8], b"pthread_join\0", b"pthread_detach\0"].iter().enumerate() {
            REAL[i] = dlsym(usize::MAX as *mut u8, n.as_ptr()) as usize;
            if REAL[i] == 0 {
                out::harness_error(format_args!("no real thread functions"));
            }
        }
    }
}
unsafe fn real(i: usize) -> usize {
    if REAL[i] == 0 {
        init();
    }
    REAL[i]
}
struct Sut {
    slot: usize,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: usize,
}
extern "C" fn sut_main(p: *mut u8) -> *mut u8 {
    unsafe {
        let b = p as *mut Sut;
        let i = (*b).slot;
        ME.with(|m| m.set(i));
        wait_token(i);
        let b = Box::from_raw(b);
        (b.f)(b.arg as *mut u8);
        drop(b);
        ST[i] = St::Done;
        for t in 0..NT {
            if matches!(ST[t], St::Blocked(a, _) if a == JOIN + i) {
                ST[t] = St::Run;
                WOKEN[t] = true;
            }
        }
        leave(i, true);
    }
    park()
}
/// pseudo-address of "thread i ends"
const JOIN: usize = 0x100;
unsafe fn mine() -> usize {
    if ACTIVE {
        ME.with(|m| m.get())
    } else {
        NONE
    }
}
/// Threads the code under test starts join the schedule.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    let _a = atomic();
    let rc: Pc = core::mem::transmute(real(0));
    if mine() == NONE {
        return rc(t, attr, f, arg);
    }
    let mut slot = 0;
    while slot < MAXT && (slot < NT && ST[slot] != St::Done || ST[slot] == St::Lost || slot == 0) {
        slot += 1;
    }
    if slot == MAXT {
        return 11;
    }
    ST[slot] = St::Run;
    NT = NT.max(slot + 1);
    WORD[slot].store(0, SeqCst);
    let b = Box::into_raw(Box::new(Sut { slot, f, arg: arg as usize }));
    let r = rc(t, attr, sut_main, b as *mut u8);
    if r != 0 {
        out::harness_error(format_args!("cannot create a thread"));
    }
    HANDLE[slot] = *t;
    out::probe("thread-started-by-the-library");
    ev!("  sched: t{} starts t{slot}", mine());
    0
}
unsafe fn slot_of(h: usize) -> usize {
    let mut r = NONE;
    for i in 1..NT {
        if HANDLE[i] == h {
            r = i;
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: usize, r: *mut usize) -> i32 {
    let _a = atomic();
    let me = mine();
    let i = slot_of(h);
    if me == NONE || i == NONE {
        let rj: Pj = core::mem::transmute(real(1));
        return rj(h, r);
    }
    while ST[i] != St::Done {
        ST[me] = St::Blocked(JOIN + i, u64::MAX);
        leave(me, false);
    }
    HANDLE[i] = 0;
    if !r.is_null() {
        *r = 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(h: usize) -> i32 {
    let _a = atomic();
    let me = mine();
    let i = slot_of(h);
    if me == NONE || i == NONE {
        let rd: Pd = core::mem::transmute(real(2));
        return rd(h);
    }
    HANDLE[i] = 0;
    0
}
extern "C" fn thread_main(p: *mut u8) -> *mut u8 {
    unsafe {
        let b = p as *mut Start;
        let i = (*b).0;
        ME.with(|m| m.set(i));
        WORD[MAXT].store(1, SeqCst);
        sys::futex_wake(WORD[MAXT].as_ptr());
        wait_token(i);
        let b = Box::from_raw(b);
        (b.1)();
        ST[i] = St::Done;
        leave(i, true);
    }
    park() // the run process exits
}
/// Not std::thread: its start-up runs library code before the token arrives.
unsafe fn spawn(b: Box<Start>) {
    let mut t = 0usize;
    let rc: Pc = core::mem::transmute(real(0));
    if rc(&mut t, core::ptr::null(), thread_main, Box::into_raw(b) as *mut u8) != 0 {
        out::harness_error(format_args!("cannot create a thread"));
    }
}
/// Run the tasks on one thread each, interleaved by the choice stream.
pub fn run(ch: &mut Choices, gap: u64, budget: u64, tasks: Vec<Box<dyn FnOnce() + Send>>) {
    unsafe {
        NT = tasks.len();
        assert!(NT <= 8);
        MAIN_ENDS = false;
        CH = ch;
        GAP = gap;
        BUDGET = budget;
        for (i, f) in tasks.into_iter().enumerate() {
            ST[i] = St::Run;
            WORD[i].store(0, SeqCst);
            spawn(Box::new((i, f)));
            wait_token(MAXT);
        }
        let first = (*CH).draw(NT as u64) as usize;
        CUR = first;
        ACTIVE = true;
        set_gap();
        retrigger();
        WORD[first].store(1, SeqCst);
        sys::futex_wake(WORD[first].as_ptr());
        wait_token(MAXT);
        ACTIVE = false;
        retrigger();
        CH = core::ptr::null_mut();
    }
}
/// Run `f` on a scheduled thread of its own; threads it starts are scheduled
/// too.  Over when `f` returns; threads still alive then never run again.
pub fn run_main<R: Send>(ch: &mut Choices, gap: u64, budget: u64, f: impl FnOnce() -> R + Send) -> R {
    let mut r: Option<std::thread::Result<R>> = None;
    let rp = &mut r as *mut _ as usize;
    let task: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        unsafe { *(rp as *mut Option<std::thread::Result<R>>) = Some(v) };
    });
    run_task(ch, gap, budget, unsafe { core::mem::transmute(task) });
    match r.unwrap() {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}
// not generic: must not be compiled into an instrumented crate, its blocks
// would be counted while another thread runs
#[inline(never)]
fn run_task(ch: &mut Choices, gap: u64, budget: u64, task: Box<dyn FnOnce() + Send>) {
    unsafe {
        NT = 1;
        CH = ch;
        GAP = gap;
        BUDGET = budget;
        MAIN_ENDS = true;
        ST[0] = St::Run;
        WORD[0].store(0, SeqCst);
        spawn(Box::new((0, task)));
        wait_token(MAXT);
        CUR = 0;
        ACTIVE = true;
        PREEMPT_AT = STEPS + 2 * GAP;
        retrigger();
        WORD[0].store(1, SeqCst);
        sys::futex_wake(WORD[0].as_ptr());
        wait_token(MAXT);
        ACTIVE = false;
        MAIN_ENDS = false;
        for t in 1..NT {
            if ST[t] != St::Done {
                ST[t] = St::Lost;
            }
            HANDLE[t] = 0;
        }
        retrigger();
        CH = core::ptr::null_mut();
    }
}
pub fn scheduled() -> bool {
    unsafe { ACTIVE && ME.with(|m| m.get()) != NONE }
}

/// futex(2) of scheduled threads; None: not ours.
unsafe fn futex(addr: usize, opn: i64, val: u32, timeout: *const [i64; 2]) -> Option<i64> {
    if !ACTIVE {
        return None;
    }
    let me = ME.with(|m| m.get());
    if me == NONE {
        return None;
    }
    match opn & 0x7f {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                return Some(-11);
            }
            let dl = if timeout.is_null() {
                u64::MAX
            } else {
                let t = (*timeout)[0] as u64 * 1_000_000_000 + (*timeout)[1] as u64;
                if opn & 0x7f == 9 {
                    t
                } else {
                    CLOCK + t
                }
            };
            out::probe("thread-blocked-on-lock");
            ST[me] = St::Blocked(addr, dl);
            WOKEN[me] = true;
            leave(me, false);
            Some(if WOKEN[me] { 0 } else { -110 })
        }
        1 | 10 => {
            let mut n = 0;
            for t in 0..NT {
                if n >= val as i64 {
                    break;
                }
                if matches!(ST[t], St::Blocked(a, _) if a == addr) {
                    ST[t] = St::Run;
                    WOKEN[t] = true;
                    n += 1;
                }
            }
            Some(n)
        }
        _ => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == sys::SYS_FUTEX {
        if let Some(r) = futex(a as usize, b, c as u32, d as *const [i64; 2]) {
            return sys::libc_ret(r);
        }
    }
    if n == sys::SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32);
    }
    sys::libc_ret(sys::sc(n, a, b, c, d, e, f))
}
static mut RNDCTR: u64 = 0;
/// Randomness seam: deterministic, per process.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> i64 {
    for i in 0..len {
        RNDCTR += 1;
        *buf.add(i) = crate::choice::mix(0x5eed, RNDCTR) as u8;
    }
    len as i64
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if out::is_set() {
        // simulated clock inside a run
        let t = if id == 0 || id == 5 { (CLOCK as i64 + WALL).max(0) as u64 } else { CLOCK };
        (*ts) = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    sys::libc_ret(sys::sc(sys::SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
unsafe fn sleep_for(ns: u64) {
    out::probe("slept");
    // a sleeping thread is a timed waiter on nothing
    let me = ME.with(|m| m.get());
    if ACTIVE && me != NONE && (many() || !crate::kern::on()) {
        if crate::kern::on() {
            crate::kern::slept();
        }
        ST[me] = St::Blocked(1, CLOCK + ns);
        WOKEN[me] = false;
        leave(me, false);
        ST[me] = St::Run;
    } else {
        crate::kern::sleep(ns);
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], _rem: *mut [i64; 2]) -> i32 {
    if out::is_set() {
        sleep_for((*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64);
        return 0;
    }
    sys::libc_ret(sys::sc(sys::SYS_NANOSLEEP, req as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if out::is_set() {
        let t = (*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64;
        sleep_for(if fl & 1 != 0 { t.saturating_sub(CLOCK) } else { t });
        return 0;
    }
    (-sys::sc(sys::SYS_CLOCK_NANOSLEEP, id as i64, fl as i64, req as i64, rem as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ACTIVE {
        let me = ME.with(|m| m.get());
        if me != NONE && me == CUR && (many() || !crate::kern::on()) {
            if crate::kern::on() {
                crate::kern::slept();
            }
            leave_yield(me);
            return 0;
        }
    }
    if out::is_set() {
        crate::kern::sleep(1000);
    }
    0
}
unsafe fn leave_yield(me: usize) {
    let _a = atomic();
    let mut b = [0; MAXT];
    let n = runnable(&mut b);
    if n <= 1 {
        advance(1000);
        return;
    }
    let mut k = 0;
    while b[k] != me {
        k += 1;
    }
    switch_from(me, b[(k + 1) % n], false);
}
