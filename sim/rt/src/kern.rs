//! Simulated kernel for code that starts a child process and talks to it over
//! pipes: descriptor table, pipes, process table, clock.  libc entry points
//! are interposed (defined here, so std binds to them); with the kernel off,
//! or for descriptors it does not own, they go to the real system.
use crate::choice::Choices;
use crate::{ev, fault, out, probe, sched, sys, violate};
use std::collections::VecDeque;

pub const FD0: i32 = 1 << 20;
const PID0: i32 = 1 << 22;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const E2BIG: i32 = 7;
pub const EBADF: i32 = 9;
pub const ECHILD: i32 = 10;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const EPIPE: i32 = 32;
pub const ENOENT: i32 = 2;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Obj {
    R(usize),
    W(usize),
    Null,
}
struct Fd {
    obj: Obj,
    cloexec: bool,
    nonblock: bool,
}
struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    readers: usize,
    writers: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Model {
    /// reads to the end of its input, then works and exits (what Python does)
    Reader,
    /// reads `quota` bytes, then exits
    Dies,
    /// reads `quota` bytes, closes its input, keeps running, then exits
    Closes,
    /// does not read at all for a while, then exits
    Stalls,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PState {
    Running,
    Zombie(i32),
    Reaped,
}
pub struct Proc {
    pub pid: i32,
    pub model: Model,
    pub state: PState,
    pub received: Vec<u8>,
    pub arg: Vec<Vec<u8>>,
    pub saw_eof: bool,
    quota: usize,
    chunk: usize,
    delay: u64,
    work: u64,
    status: i32,
    fds: Vec<(i32, Obj)>,
    next: u64,
    done_reading: bool,
    /// bytes it still wants to print on descriptors 1 and 2, and whether
    /// before reading (0) or before exiting (1)
    noise: [usize; 2],
    noise_late: bool,
    pub foreign: bool,
    pub returned_at: u64,
    pub exit_at: u64,
}
#[derive(Clone)]
pub struct Cfg {
    pub p_pipe: u64,
    pub p_open: u64,
    pub p_spawn: u64,
    pub p_short: u64,
    pub p_eintr: u64,
    pub p_wio: u64,
    pub p_wait_eintr: u64,
    pub sigchld_ignored: bool,
    pub cap: usize,
    /// weights of Reader, Dies, Closes, Stalls
    pub models: [u64; 4],
    pub foreign: bool,
}
impl Cfg {
    pub fn clean() -> Cfg {
        Cfg { p_pipe: 0, p_open: 0, p_spawn: 0, p_short: 0, p_eintr: 0, p_wio: 0, p_wait_eintr: 0, sigchld_ignored: false, cap: 65536, models: [1, 0, 0, 0], foreign: false }
    }
}
pub struct Kern {
    ch: *mut Choices,
    cfg: Cfg,
    fds: Vec<Option<Fd>>,
    pipes: Vec<Pipe>,
    pub procs: Vec<Proc>,
    acts: Vec<(usize, i32, i32)>,
    idle: u64,
    /// waits in a row for a child that is not there
    childless: u64,
    /// decisions left; afterwards no more faults in this kernel's life
    draws: u64,
}
static mut K: Option<Kern> = None;
#[allow(static_mut_refs)]
fn k() -> Option<&'static mut Kern> {
    unsafe { K.as_mut() }
}
pub fn start(ch: &mut Choices, cfg: Cfg) {
    let foreign = cfg.foreign;
    let mut kn = Kern { ch, cfg, fds: vec![], pipes: vec![], procs: vec![], acts: vec![], idle: 0, childless: 0, draws: 12_000 };
    if foreign {
        kn.procs.push(Proc {
            pid: PID0,
            model: Model::Stalls,
            state: PState::Running,
            received: vec![],
            arg: vec![],
            saw_eof: false,
            quota: 0,
            chunk: 1,
            delay: 0,
            work: 1_000_000,
            status: 0,
            fds: vec![],
            next: 0,
            done_reading: true,
            noise: [0, 0],
            noise_late: false,
            foreign: true,
            returned_at: 0,
            exit_at: 0,
        });
    }
    unsafe { K = Some(kn) }
}
pub fn on() -> bool {
    k().is_some()
}
pub struct Report {
    pub procs: Vec<Proc>,
    pub open_fds: usize,
}
pub fn stop() -> Report {
    #[allow(static_mut_refs)]
    let kn = unsafe { K.take().unwrap() };
    Report { open_fds: kn.fds.iter().filter(|f| f.is_some()).count(), procs: kn.procs }
}
impl Kern {
    fn ch(&mut self) -> &'static mut Choices {
        unsafe { &mut *self.ch }
    }
    fn hit(&mut self, p: u64, name: &str) -> bool {
        if p == 0 || self.draws == 0 {
            return false;
        }
        self.draws -= 1;
        if !self.ch().chance(p) {
            return false;
        }
        fault(name);
        ev!("  kernel: inject {name}");
        out::sig(name.len() as u64 ^ (name.as_bytes()[0] as u64) << 8 ^ self.fds.len() as u64);
        true
    }
    fn newfd(&mut self, obj: Obj, cloexec: bool) -> i32 {
        for (i, f) in self.fds.iter_mut().enumerate() {
            if f.is_none() {
                *f = Some(Fd { obj, cloexec, nonblock: false });
                return FD0 + i as i32;
            }
        }
        self.fds.push(Some(Fd { obj, cloexec, nonblock: false }));
        FD0 + self.fds.len() as i32 - 1
    }
    fn obj(&self, fd: i32) -> Option<Obj> {
        self.fds.get((fd - FD0) as usize).and_then(|f| f.as_ref()).map(|f| f.obj)
    }
    fn hold(&mut self, o: Obj) {
        match o {
            Obj::R(p) => self.pipes[p].readers += 1,
            Obj::W(p) => self.pipes[p].writers += 1,
            Obj::Null => {}
        }
    }
    fn drop_obj(&mut self, o: Obj) {
        match o {
            Obj::R(p) => self.pipes[p].readers -= 1,
            Obj::W(p) => self.pipes[p].writers -= 1,
            Obj::Null => {}
        }
    }
    fn exit_proc(&mut self, i: usize) {
        let fds = core::mem::take(&mut self.procs[i].fds);
        for (_, o) in fds {
            self.drop_obj(o);
        }
        let p = &mut self.procs[i];
        p.state = if self.cfg.sigchld_ignored { PState::Reaped } else { PState::Zombie(p.status) };
        p.exit_at = sched::clock();
        ev!("  child {}: exits (status {:#x})", p.pid, p.status);
    }
    fn close_child(&mut self, i: usize, fd: i32) {
        if let Some(x) = self.procs[i].fds.iter().position(|(n, _)| *n == fd) {
            let (_, o) = self.procs[i].fds.remove(x);
            self.drop_obj(o);
        }
    }
    fn stdin_of(&self, i: usize) -> Option<Obj> {
        self.procs[i].fds.iter().find(|(n, _)| *n == 0).map(|(_, o)| *o)
    }
    /// One action of child i.  false: it cannot do anything until someone
    /// else acts.
    fn child_act(&mut self, i: usize) -> bool {
        let p = &self.procs[i];
        if p.state != PState::Running {
            return false;
        }
        let now = sched::clock();
        if p.next > now {
            return false; // sleeping; the event loop will jump the clock
        }
        if p.noise != [0, 0] && p.noise_late == p.done_reading {
            if let Some(r) = self.child_prints(i) {
                return r;
            }
        }
        let p = &self.procs[i];
        if p.done_reading {
            self.exit_proc(i);
            return true;
        }
        let lim = match p.model {
            Model::Reader => usize::MAX,
            _ => p.quota,
        };
        if p.received.len() >= lim {
            return self.finish_reading(i);
        }
        match self.stdin_of(i) {
            Some(Obj::R(pi)) => {
                let want = p.chunk.min(lim - p.received.len());
                let delay = p.delay;
                let pipe = &mut self.pipes[pi];
                if pipe.buf.is_empty() {
                    if pipe.writers == 0 {
                        self.procs[i].saw_eof = true;
                        ev!("  child {}: end of input after {} bytes", self.procs[i].pid, self.procs[i].received.len());
                        return self.finish_reading(i);
                    }
                    return false;
                }
                let n = want.min(pipe.buf.len());
                let got: Vec<u8> = pipe.buf.drain(..n).collect();
                let p = &mut self.procs[i];
                p.received.extend_from_slice(&got);
                p.next = now + delay;
                true
            }
            _ => {
                self.procs[i].saw_eof = true;
                self.finish_reading(i)
            }
        }
    }
    /// Some(progress): it is busy printing; None: nothing left to print
    fn child_prints(&mut self, i: usize) -> Option<bool> {
        for d in 0..2 {
            let want = self.procs[i].noise[d];
            if want == 0 {
                continue;
            }
            let to = self.procs[i].fds.iter().find(|(n, _)| *n == d as i32 + 1).map(|(_, o)| *o);
            let Some(Obj::W(q)) = to else {
                self.procs[i].noise[d] = 0; // the null device or the terminal takes everything
                continue;
            };
            let pipe = &mut self.pipes[q];
            if pipe.readers == 0 {
                fault("child-killed-by-SIGPIPE");
                self.procs[i].status = 13;
                self.exit_proc(i);
                return Some(true);
            }
            let n = want.min(pipe.cap - pipe.buf.len());
            if n == 0 {
                probe("child-blocked-printing");
                return Some(false);
            }
            pipe.buf.extend(std::iter::repeat(b'.').take(n));
            self.procs[i].noise[d] -= n;
            return Some(true);
        }
        None
    }
    fn finish_reading(&mut self, i: usize) -> bool {
        let m = self.procs[i].model;
        self.procs[i].done_reading = true;
        match m {
            Model::Dies => {
                fault("child-died-while-reading");
                self.exit_proc(i)
            }
            Model::Closes => {
                fault("child-closed-stdin");
                ev!("  child {}: closes its input after {} bytes", self.procs[i].pid, self.procs[i].received.len());
                self.close_child(i, 0);
                self.procs[i].next = sched::clock() + self.procs[i].work;
            }
            Model::Stalls => {
                fault("child-stalled");
                self.procs[i].next = sched::clock() + self.procs[i].work;
            }
            Model::Reader => {
                self.procs[i].next = sched::clock() + self.procs[i].work;
            }
        }
        true
    }
    /// The parent is blocked: let the world move by one event.
    fn world(&mut self) -> bool {
        let n = self.procs.len();
        for i in 0..n {
            if self.child_act(i) {
                self.idle = 0;
                sched::kwake();
                return true;
            }
        }
        let now = sched::clock();
        let t = self.procs.iter().filter(|p| p.state == PState::Running && p.next > now).map(|p| p.next).min();
        if let Some(t) = t {
            sched::advance(t - now);
            return true;
        }
        false
    }
    /// Let children run a little next to the parent.
    fn nudge(&mut self) {
        if self.procs.is_empty() || self.draws == 0 {
            return;
        }
        self.draws -= 1;
        let n = match self.ch().weighted(&[5, 3, 1]) {
            0 => 0,
            1 => 1,
            _ => 8,
        };
        for _ in 0..n {
            if !self.world() {
                break;
            }
        }
    }
    fn block(&mut self, what: &str) {
        if sched::many() {
            sched::kblock();
            return;
        }
        if !self.world() {
            let open = self.fds.iter().flatten().any(|f| matches!(f.obj, Obj::W(_)));
            violate!("parent-stuck", "the caller blocks forever in {what}: no process can make progress (a pipe write end is {} in the caller)", if open { "still open" } else { "closed" });
        }
    }
    fn write(&mut self, pi: usize, b: &[u8], nb: bool) -> i64 {
        self.nudge();
        let (pe, pw, ps) = (self.cfg.p_eintr, self.cfg.p_wio, self.cfg.p_short);
        if b.is_empty() {
            return 0;
        }
        if self.hit(pe, "write-EINTR") {
            return -EINTR as i64;
        }
        if self.hit(pw, "write-EIO") {
            return -EIO as i64;
        }
        loop {
            let p = &mut self.pipes[pi];
            if p.readers == 0 {
                fault("write-EPIPE");
                ev!("  kernel: write -> EPIPE");
                return -EPIPE as i64;
            }
            let room = p.cap - p.buf.len();
            if room > 0 {
                let mut n = room.min(b.len());
                if n > 1 && self.hit(ps, "short-write") {
                    n = self.ch().us(1, n - 1);
                }
                let p = &mut self.pipes[pi];
                p.buf.extend(&b[..n]);
                if n < b.len() {
                    probe("partial-write");
                }
                ev!("  kernel: write of {} accepted {n}", b.len());
                sched::kwake();
                return n as i64;
            }
            if nb {
                self.spin();
                return -EAGAIN as i64;
            }
            probe("write-blocked-on-full-pipe");
            self.block("write");
        }
    }
    fn spin(&mut self) {
        self.poll("spins on a descriptor that never becomes ready");
    }
    /// The parent polls without blocking: time passes.  Stuck only if the
    /// rest of the world has come to rest for good.
    fn poll(&mut self, what: &str) {
        self.idle += 1;
        sched::advance(1000);
        if sched::many() {
            sched::kyield();
        }
        if self.idle % 500 == 0 && !self.world() && self.idle >= 20_000 {
            violate!("parent-stuck", "the caller {what}: no process can make progress");
        }
    }
    fn nb(&self, fd: i32) -> bool {
        self.fds.get((fd - FD0) as usize).and_then(|f| f.as_ref()).is_some_and(|f| f.nonblock)
    }
    fn read(&mut self, pi: usize, b: &mut [u8], nb: bool) -> i64 {
        self.nudge();
        loop {
            let p = &mut self.pipes[pi];
            if !p.buf.is_empty() {
                let n = b.len().min(p.buf.len());
                for x in b[..n].iter_mut() {
                    *x = p.buf.pop_front().unwrap();
                }
                sched::kwake();
                return n as i64;
            }
            if p.writers == 0 {
                return 0;
            }
            if nb {
                self.spin();
                return -EAGAIN as i64;
            }
            self.block("read");
        }
    }
    /// pid > 0, -1 or 0; returns pid, 0 (nohang) or -errno
    fn wait(&mut self, pid: i32, nohang: bool, reap: bool, status: &mut i32) -> i64 {
        self.nudge();
        let pe = self.cfg.p_wait_eintr;
        loop {
            if !nohang && self.hit(pe, "wait-EINTR") {
                return -EINTR as i64;
            }
            let mut any = false;
            for p in self.procs.iter_mut() {
                if pid > 0 && p.pid != pid {
                    continue;
                }
                match p.state {
                    PState::Zombie(st) => {
                        if reap {
                            p.state = PState::Reaped;
                            sched::kwake();
                        }
                        *status = st;
                        ev!("  kernel: wait -> child {} status {st:#x}", p.pid);
                        return p.pid as i64;
                    }
                    PState::Running => any = true,
                    PState::Reaped => {}
                }
            }
            if !any {
                if self.cfg.sigchld_ignored {
                    fault("wait-ECHILD-sigchld-ignored");
                }
                ev!("  kernel: wait -> ECHILD");
                self.childless += 1;
                if self.childless > 5_000 {
                    violate!("parent-stuck", "the caller keeps waiting for a child it does not have (ECHILD {} times)", self.childless);
                }
                return -ECHILD as i64;
            }
            if nohang {
                self.poll("polls for its child forever");
                return 0;
            }
            self.block("wait");
        }
    }
    fn spawn(&mut self, file: &[u8], fa: usize, argv: Vec<Vec<u8>>) -> Result<i32, i32> {
        let ps = self.cfg.p_spawn;
        if argv.iter().any(|a| a.len() >= 131072) {
            fault("spawn-E2BIG");
            return Err(E2BIG);
        }
        if ps > 0 && self.ch().chance(ps) {
            let e = self.ch().pick(&[ENOENT, EACCES, EAGAIN, ENOMEM]);
            fault(match e {
                ENOENT => "spawn-ENOENT",
                EACCES => "spawn-EACCES",
                EAGAIN => "spawn-EAGAIN",
                _ => "spawn-ENOMEM",
            });
            ev!("  kernel: spawn fails with errno {e}");
            return Err(e);
        }
        let mut fds: Vec<(i32, Obj)> = vec![];
        // descriptors not marked close-on-exec are inherited
        for i in 0..self.fds.len() {
            if let Some(f) = &self.fds[i] {
                if !f.cloexec {
                    let o = f.obj;
                    fds.push((FD0 + i as i32, o));
                }
            }
        }
        for (a, src, dst) in self.acts.clone() {
            if a == fa {
                if src < FD0 {
                    continue;
                }
                let Some(o) = self.obj(src) else { return Err(EBADF) };
                fds.retain(|(n, _)| *n != dst);
                fds.push((dst, o));
            }
        }
        for (_, o) in fds.clone() {
            self.hold(o);
        }
        let w = self.cfg.models;
        let ch = self.ch();
        let model = [Model::Reader, Model::Dies, Model::Closes, Model::Stalls][ch.weighted(&w)];
        let quota = match model {
            Model::Reader => 0,
            Model::Stalls => 0,
            _ => match ch.draw(3) {
                0 => 0,
                1 => ch.us(1, 600),
                _ => ch.us(1, 200_000),
            },
        };
        let chunk = ch.pick(&[65536, 8192, 4096, 512, 1, 7]);
        let chunk = if chunk < 512 && self.cfg.cap > 1024 { 97 } else { chunk };
        let delay = ch.pick(&[0, 1_000, 1_000_000, 200_000_000]);
        let work = ch.pick(&[0, 1_000_000, 5_000_000_000, 3_600_000_000_000]);
        let status = match model {
            Model::Reader => ch.pick(&[0, 0, 0, 1 << 8, 9]),
            _ => ch.pick(&[0, 1 << 8, 9, 11, 15]),
        };
        if status != 0 {
            fault(if status > 255 { "child-exit-nonzero" } else { "child-killed-by-signal" });
        }
        if delay > 100_000_000 {
            fault("child-slow-reader");
        }
        let noise = match ch.weighted(&[5, 2, 2]) {
            0 => [0, 0],
            1 => [ch.pick(&[10, 3_000, 200_000]), 0],
            _ => [ch.pick(&[0, 40, 200_000]), ch.pick(&[60, 200_000, 3 << 20])],
        };
        let noise_late = ch.chance(700);
        if noise != [0, 0] {
            fault("child-prints");
        }
        let pid = PID0 + 1 + self.procs.len() as i32;
        ev!("  kernel: spawn {} -> pid {pid}, {model:?} quota {quota} chunk {chunk} delay {delay}ns work {work}ns exit {status:#x}", String::from_utf8_lossy(file));
        out::sig(model as u64 ^ (quota.min(3) as u64) << 4 ^ (chunk as u64) << 8 ^ delay << 20 ^ work ^ status as u64);
        self.procs.push(Proc { pid, model, state: PState::Running, received: vec![], arg: argv, saw_eof: false, quota, chunk, delay, work, status, fds, next: sched::clock(), done_reading: false, noise, noise_late, foreign: false, returned_at: 0, exit_at: 0 });
        if !matches!(model, Model::Reader) {
            // may act before the parent's first write
            let n = self.ch().draw(3);
            for _ in 0..n {
                self.world();
            }
        }
        Ok(pid)
    }
}
/// All threads of the caller wait: let the processes move, up to time `at`.
pub fn before(at: u64) -> bool {
    let Some(kn) = k() else { return false };
    for i in 0..kn.procs.len() {
        if kn.child_act(i) {
            kn.idle = 0;
            sched::kwake();
            return true;
        }
    }
    let now = sched::clock();
    match kn.procs.iter().filter(|p| p.state == PState::Running && p.next > now).map(|p| p.next).min() {
        Some(t) if t < at => {
            sched::advance(t - now);
            true
        }
        _ => false,
    }
}
pub fn stuck(what: &str) -> ! {
    let open = k().is_some_and(|kn| kn.fds.iter().flatten().any(|f| matches!(f.obj, Obj::W(_))));
    violate!("parent-stuck", "the caller blocks forever in {what}: no process can make progress (a pipe write end is {} in the caller)", if open { "still open" } else { "closed" });
}
/// One of several threads polls with sleeps or yields.
pub fn slept() {
    if let Some(kn) = k() {
        kn.idle += 1;
        if kn.idle >= 20_000 {
            if !kn.procs.iter().any(|p| p.state == PState::Running && p.next > sched::clock()) {
                violate!("parent-stuck", "the caller sleeps and polls forever: no process can make progress");
            }
            kn.idle = 0;
        }
    }
}
pub fn sleep(ns: u64) {
    sched::advance(ns);
    if let Some(kn) = k() {
        let end = sched::clock();
        for _ in 0..100_000 {
            let n = kn.procs.len();
            let mut any = false;
            for i in 0..n {
                any |= kn.child_act(i);
            }
            if !any {
                break;
            }
        }
        let _ = end;
        kn.poll("sleeps and polls forever");
    }
}
fn mine(fd: i32) -> Option<&'static mut Kern> {
    if fd >= FD0 {
        k()
    } else {
        None
    }
}
unsafe fn cs(p: *const u8) -> &'static [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    core::slice::from_raw_parts(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(out: *mut i32, flags: i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = k() {
        let p = kn.cfg.p_pipe;
        if p > 0 && kn.ch().chance(p) {
            let e = kn.ch().pick(&[EMFILE, ENFILE]);
            fault("pipe-EMFILE");
            ev!("  kernel: pipe fails with errno {e}");
            sys::set_errno(e);
            return -1;
        }
        let cap = kn.cfg.cap;
        kn.pipes.push(Pipe { buf: VecDeque::new(), cap, readers: 1, writers: 1 });
        let i = kn.pipes.len() - 1;
        let ce = flags & 0o2000000 != 0;
        let r = kn.newfd(Obj::R(i), ce);
        let w = kn.newfd(Obj::W(i), ce);
        *out = r;
        *out.add(1) = w;
        return 0;
    }
    sys::libc_ret(sys::sc(sys::SYS_PIPE2, out as i64, flags as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = k() {
        if cs(path) == b"/dev/null" {
            let p = kn.cfg.p_open;
            if p > 0 && kn.ch().chance(p) {
                let e = kn.ch().pick(&[EMFILE, ENOENT, EACCES]);
                fault("open-devnull-fails");
                ev!("  kernel: open /dev/null fails with errno {e}");
                sys::set_errno(e);
                return -1;
            }
            return kn.newfd(Obj::Null, flags & 0o2000000 != 0);
        }
    }
    sys::libc_ret(sys::sc(sys::SYS_OPEN, path as i64, flags as i64, mode as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = mine(fd) {
        let i = (fd - FD0) as usize;
        match kn.fds.get_mut(i).and_then(|f| f.take()) {
            Some(f) => {
                kn.drop_obj(f.obj);
                sched::kwake();
                kn.nudge();
                return 0;
            }
            None => violate!("bad-descriptor", "close of descriptor {fd} that is not open"),
        }
    }
    sys::libc_ret(sys::sc(sys::SYS_CLOSE, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const core::ffi::c_void, n: usize) -> isize {
    let _a = sched::atomic();
    if let Some(kn) = mine(fd) {
        let r = match kn.obj(fd) {
            Some(Obj::W(p)) => {
                let nb = kn.nb(fd);
                kn.write(p, core::slice::from_raw_parts(b as *const u8, n), nb)
            },
            Some(Obj::Null) => n as i64,
            _ => -EBADF as i64,
        };
        return sys::libc_ret(r) as isize;
    }
    sys::libc_ret(sys::sc(sys::SYS_WRITE, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    let _a = sched::atomic();
    if mine(fd).is_some() {
        for i in 0..n as usize {
            let [p, l] = *v.add(i);
            if l > 0 {
                return write(fd, p as *const core::ffi::c_void, l);
            }
        }
        return 0;
    }
    sys::libc_ret(sys::sc(sys::SYS_WRITEV, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut core::ffi::c_void, n: usize) -> isize {
    let _a = sched::atomic();
    if let Some(kn) = mine(fd) {
        let r = match kn.obj(fd) {
            Some(Obj::R(p)) => {
                let nb = kn.nb(fd);
                kn.read(p, core::slice::from_raw_parts_mut(b as *mut u8, n), nb)
            },
            Some(Obj::Null) => 0,
            _ => -EBADF as i64,
        };
        return sys::libc_ret(r) as isize;
    }
    sys::libc_ret(sys::sc(sys::SYS_READ, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut [i32; 2], n: u64, to: i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = k() {
        if (0..n as usize).any(|i| (*p.add(i))[0] >= FD0) {
            loop {
                let mut c = 0;
                for i in 0..n as usize {
                    let e = &mut *p.add(i);
                    let want = e[1] as u32 & 0xffff;
                    let mut r = 0u32;
                    match kn.obj(e[0]) {
                        Some(Obj::R(q)) => {
                            if !kn.pipes[q].buf.is_empty() {
                                r |= 1;
                            }
                            if kn.pipes[q].writers == 0 {
                                r |= 0x10;
                            }
                        }
                        Some(Obj::W(q)) => {
                            if kn.pipes[q].readers == 0 {
                                r |= 8;
                            }
                            if kn.pipes[q].buf.len() < kn.pipes[q].cap {
                                r |= 4;
                            }
                        }
                        Some(Obj::Null) => r |= 5,
                        None => r |= 0x20,
                    }
                    r &= want | 0x38;
                    e[1] = (want | r << 16) as i32;
                    if r != 0 {
                        c += 1;
                    }
                }
                if c > 0 || to == 0 {
                    return c;
                }
                kn.block("poll");
            }
        }
    }
    sys::libc_ret(sys::sc(sys::SYS_POLL, p as i64, n as i64, to as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: u64, arg: *mut i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = mine(fd) {
        if req == 0x5421 {
            if let Some(Some(f)) = kn.fds.get_mut((fd - FD0) as usize) {
                f.nonblock = *arg != 0;
                return 0;
            }
        }
        sys::set_errno(25);
        return -1;
    }
    sys::libc_ret(sys::sc(16, fd as i64, req as i64, arg as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = mine(fd) {
        let i = (fd - FD0) as usize;
        let Some(o) = kn.obj(fd) else {
            sys::set_errno(EBADF);
            return -1;
        };
        return match cmd {
            1 => kn.fds[i].as_ref().unwrap().cloexec as i32,
            2 => {
                kn.fds[i].as_mut().unwrap().cloexec = arg & 1 != 0;
                0
            }
            3 => kn.nb(fd) as i32 * 0o4000,
            4 => {
                kn.fds[i].as_mut().unwrap().nonblock = arg & 0o4000 != 0;
                0
            }
            0 | 1030 => {
                kn.hold(o);
                kn.newfd(o, cmd == 1030)
            }
            _ => 0,
        };
    }
    sys::libc_ret(sys::sc(72, fd as i64, cmd as i64, arg, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut core::ffi::c_void, src: i32, dst: i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = k() {
        kn.acts.push((fa as usize, src, dst));
        return 0;
    }
    crate::out::harness_error(format_args!("posix_spawn outside the simulated kernel"))
}
unsafe fn do_spawn(pid: *mut i32, file: *const u8, fa: usize, argv: *const *const u8) -> i32 {
    if let Some(kn) = k() {
        let mut a = vec![];
        let mut i = 0;
        while !(*argv.add(i)).is_null() {
            a.push(cs(*argv.add(i)).to_vec());
            i += 1;
        }
        let r = kn.spawn(cs(file), fa, a);
        kn.acts.clear();
        return match r {
            Ok(p) => {
                *pid = p;
                0
            }
            Err(e) => e,
        };
    }
    crate::out::harness_error(format_args!("posix_spawn outside the simulated kernel"))
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut i32, file: *const u8, fa: *const core::ffi::c_void, _at: *const core::ffi::c_void, argv: *const *const u8, _env: *const *const u8) -> i32 {
    let _a = sched::atomic();
    do_spawn(pid, file, fa as usize, argv)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut i32, file: *const u8, fa: *const core::ffi::c_void, _at: *const core::ffi::c_void, argv: *const *const u8, _env: *const *const u8) -> i32 {
    let _a = sched::atomic();
    do_spawn(pid, file, fa as usize, argv)
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = k() {
        let mut s = 0;
        let r = kn.wait(pid, opt & 1 != 0, true, &mut s);
        if r > 0 && !st.is_null() {
            *st = s;
        }
        return sys::libc_ret(r) as i32;
    }
    sys::libc_ret(sys::sc(sys::SYS_WAIT4, pid as i64, st as i64, opt as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn waitid(ty: i32, pid: u32, si: *mut [i32; 32], opt: i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = k() {
        let mut s = 0;
        let r = kn.wait(if ty == 1 { pid as i32 } else { -1 }, opt & 1 != 0, opt & 0x1000000 == 0, &mut s);
        if r >= 0 && !si.is_null() {
            (&mut (*si))[..8].fill(0);
            (*si)[0] = if r > 0 { 17 } else { 0 };
            (*si)[2] = if s & 0x7f == 0 { 1 } else { 2 };
            (*si)[3] = r as i32;
            (*si)[5] = if s & 0x7f == 0 { s >> 8 } else { s & 0x7f };
        }
        return if r < 0 { sys::libc_ret(r) as i32 } else { 0 };
    }
    sys::libc_ret(sys::sc(sys::SYS_WAITID, ty as i64, pid as i64, si as i64, opt as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: i32, sg: i32) -> i32 {
    let _a = sched::atomic();
    if let Some(kn) = k() {
        for i in 0..kn.procs.len() {
            if kn.procs[i].pid == pid {
                if sg != 0 && kn.procs[i].state == PState::Running {
                    kn.procs[i].status = sg;
                    kn.exit_proc(i);
                    sched::kwake();
                }
                return 0;
            }
        }
        sys::set_errno(3);
        return -1;
    }
    sys::libc_ret(sys::sc(sys::SYS_KILL, pid as i64, sg as i64, 0, 0, 0, 0)) as i32
}
