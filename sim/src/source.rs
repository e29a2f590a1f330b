//! The simulated sample source: a scripted producer behind the library's only
//! input seam, `Iterator`.  Everything a real producer can do to a consumer is
//! a knob of `Ctl`; every pull is logged.
use core::borrow::Borrow;
use core::cell::Cell;
use simrt::{ev, fault, probe, sched};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hint {
    Exact,
    Unknown,    // (0, None)
    LooseUp,    // (0, Some(usize::MAX))
    LooseUpBig, // (0, Some(2^40))
    LooseMid,   // (0, Some(n + 6 million))
    LooseBy(usize), // (0, Some(n + k))
    Slack(usize, usize), // (n - k, Some(n + m))
    LooseBoth,  // (n/2, Some(2n+3))
    LowerOnly,  // (n, None)
    LieLong,    // (n+7, Some(n+7))        illegal
    LieShort,   // (0, Some(n/2))          illegal
    LieBig,     // (n+3000, None)          illegal
}
pub const LEGAL: [Hint; 14] = [
    Hint::Exact,
    Hint::Unknown,
    Hint::LooseUp,
    Hint::LooseUpBig,
    Hint::LooseMid,
    Hint::LooseBoth,
    Hint::LowerOnly,
    Hint::Slack(0, 1),
    Hint::Slack(1, 0),
    Hint::Slack(0, 3),
    Hint::Slack(2, 5),
    Hint::LooseBy(4_000),
    Hint::LooseBy(60_000),
    Hint::Slack(0, 500_000),
];
pub const ANY: [Hint; 13] = [
    Hint::Exact,
    Hint::Unknown,
    Hint::LooseUp,
    Hint::LooseUpBig,
    Hint::LooseMid,
    Hint::LooseBoth,
    Hint::LowerOnly,
    Hint::Slack(0, 1),
    Hint::Slack(1, 4),
    Hint::LooseBy(60_000),
    Hint::LieLong,
    Hint::LieShort,
    Hint::LieBig,
];
impl Hint {
    pub fn code(self) -> u64 {
        match self {
            Hint::LooseBy(k) => 100 + k as u64,
            Hint::Slack(a, b) => 1 << 40 | (a as u64) << 20 | b as u64,
            h => h.small(),
        }
    }
    fn small(self) -> u64 {
        ANY.iter().position(|h| *h == self).unwrap_or(50) as u64
    }
    /// An upper bound that exceeds the truth by some power of two.
    pub fn loose(c: &mut simrt::Choices) -> Hint {
        let k = 1usize << c.us(10, 24);
        if c.chance(500) {
            Hint::LooseBy(k)
        } else {
            Hint::Slack(c.us(0, 3), k)
        }
    }
}

/// Payload of an injected unwind.
pub struct Injected;
pub fn inject_unwind() -> ! {
    let m = simrt::alloc::calm(); // the unwinder itself may use the heap
    let _ = m;
    std::panic::resume_unwind(Box::new(Injected))
}

pub struct Ctl<'h> {
    pub hint: Hint,
    /// total pulls that delivered a sample, over all passes
    pub pulls: Cell<u64>,
    /// pulls made after a pass had reported its end
    pub after_end: Cell<u64>,
    pub samples_after_end: Cell<u64>,
    pub clones: Cell<u64>,
    /// highest index delivered so far, +1
    pub high: Cell<usize>,
    /// unwind instead of delivering the nth pull (counted over all passes)
    pub panic_at: Cell<u64>,
    /// unwind when the nth sample is looked at (Borrow)
    pub borrow_panic_at: Cell<u64>,
    pub borrows: Cell<u64>,
    /// an injected unwind was raised
    pub fired: Cell<bool>,
    /// keeps handing out samples after its end
    pub resumes: bool,
    /// call out (re-entrancy) before delivering the nth pull
    pub reenter_at: Cell<u64>,
    pub reenter: Option<&'h dyn Fn()>,
    /// the same before the nth look at a sample
    pub reenter_borrow_at: Cell<u64>,
    /// simulated inter-arrival time
    pub tick: u64,
    pub log: Cell<bool>,
}
impl<'h> Ctl<'h> {
    pub fn new(hint: Hint) -> Ctl<'h> {
        Ctl {
            hint,
            pulls: Cell::new(0),
            after_end: Cell::new(0),
            samples_after_end: Cell::new(0),
            clones: Cell::new(0),
            high: Cell::new(0),
            panic_at: Cell::new(u64::MAX),
            borrow_panic_at: Cell::new(u64::MAX),
            borrows: Cell::new(0),
            fired: Cell::new(false),
            resumes: false,
            reenter_at: Cell::new(u64::MAX),
            reenter: None,
            reenter_borrow_at: Cell::new(u64::MAX),
            tick: 0,
            log: Cell::new(false),
        }
    }
    pub fn on_borrow(&self) {
        let b = self.borrows.get();
        self.borrows.set(b + 1);
        if b == self.reenter_borrow_at.get() {
            self.reenter_borrow_at.set(u64::MAX);
            if let Some(f) = self.reenter {
                probe("re-entrant-call-from-conversion");
                f();
            }
        }
        if b == self.borrow_panic_at.get() {
            self.borrow_panic_at.set(u64::MAX);
            self.fired.set(true);
            fault("sample-conversion-unwinds");
            inject_unwind();
        }
    }
}
/// A sample handed over as an opaque handle; looking at it may fail.
#[derive(Clone, Copy)]
pub struct Wrap<'a, T> {
    v: &'a T,
    ctl: *const (),
    f: fn(*const ()),
}
impl<T> Borrow<T> for Wrap<'_, T> {
    fn borrow(&self) -> &T {
        (self.f)(self.ctl);
        self.v
    }
}
fn hook(p: *const ()) {
    unsafe { (*(p as *const Ctl)).on_borrow() }
}

/// An integer sample whose conversion may fail or call out.
#[derive(Clone, Copy)]
pub struct Conv<'a> {
    pub v: isize,
    pub ctl: &'a Ctl<'a>,
}
impl From<Conv<'_>> for isize {
    fn from(c: Conv) -> isize {
        c.ctl.on_borrow();
        c.v
    }
}

pub struct Core<'a, T> {
    d: &'a [T],
    pos: usize,
    end: usize,
    ended: bool,
    ctl: &'a Ctl<'a>,
}
impl<T> Clone for Core<'_, T> {
    fn clone(&self) -> Self {
        self.ctl.clones.set(self.ctl.clones.get() + 1);
        Core { d: self.d, pos: self.pos, end: self.end, ended: self.ended, ctl: self.ctl }
    }
}
impl<'a, T> Core<'a, T> {
    /// Delivers d[..end]; if `ctl.resumes`, d[end..] after the first None.
    pub fn new(d: &'a [T], end: usize, ctl: &'a Ctl<'a>) -> Self {
        Core { d, pos: 0, end, ended: false, ctl }
    }
    fn step(&mut self) -> Option<&'a T> {
        let c = self.ctl;
        if c.tick != 0 {
            sched::advance(c.tick);
        }
        if self.ended {
            c.after_end.set(c.after_end.get() + 1);
            if c.resumes && self.pos < self.d.len() {
                fault("source-resumes-after-end");
                c.samples_after_end.set(c.samples_after_end.get() + 1);
                let i = self.pos;
                self.pos += 1;
                return Some(&self.d[i]);
            }
            return None;
        }
        if self.pos >= self.end {
            self.ended = true;
            if c.log.get() {
                ev!("    source: end of stream");
            }
            return None;
        }
        let p = c.pulls.get();
        if p == c.panic_at.get() {
            c.panic_at.set(u64::MAX);
            c.fired.set(true);
            fault("source-unwinds");
            if c.log.get() {
                ev!("    source: unwinds instead of delivering pull {p}");
            }
            inject_unwind();
        }
        if p == c.reenter_at.get() {
            c.reenter_at.set(u64::MAX);
            if let Some(f) = c.reenter {
                probe("re-entrant-call-from-source");
                f();
            }
        }
        c.pulls.set(p + 1);
        let i = self.pos;
        self.pos += 1;
        if self.pos > c.high.get() {
            c.high.set(self.pos);
        }
        if c.log.get() {
            ev!("    source: delivers sample {i}");
        }
        Some(&self.d[i])
    }
    fn hint(&self) -> (usize, Option<usize>) {
        let n = match self.ended {
            false => self.end - self.pos,
            // a queue that filled up again
            true if self.ctl.resumes => self.d.len() - self.pos,
            true => 0,
        };
        match self.ctl.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::LooseUp => (0, Some(usize::MAX)),
            Hint::LooseUpBig => (0, Some(1 << 40)),
            Hint::LooseMid => (0, Some(n + 6_000_000)),
            Hint::LooseBy(k) => (0, Some(n + k)),
            Hint::Slack(a, b) => (n.saturating_sub(a), Some(n + b)),
            Hint::LooseBoth => (n / 2, Some(2 * n + 3)),
            Hint::LowerOnly => (n, None),
            Hint::LieLong => (n + 7, Some(n + 7)),
            Hint::LieShort => (0, Some(n / 2)),
            Hint::LieBig => (n + 3000, None),
        }
    }
}
macro_rules! src {
    ($name:ident, $item:ty, $v:ident, $s:ident, $e:expr) => {
        pub struct $name<'a, T>(pub Core<'a, T>);
        impl<T> Clone for $name<'_, T> {
            fn clone(&self) -> Self {
                $name(self.0.clone())
            }
        }
        impl<'a, T: Copy> Iterator for $name<'a, T> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> {
                let $s = self.0.ctl;
                let _ = $s;
                self.0.step().map(|$v| $e)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.hint()
            }
        }
    };
}
src!(ByVal, T, v, c, *v);
src!(ByRef, &'a T, v, c, v);
src!(ByWrap, Wrap<'a, T>, v, c, Wrap { v, ctl: c as *const Ctl as *const (), f: hook });

/// Run `$body` with `$it` bound to a source of the given item style.
#[macro_export]
macro_rules! with_src {
    ($style:expr, $core:expr, $it:ident => $body:expr) => {
        match $style {
            0 => {
                let $it = $crate::source::ByVal($core);
                $body
            }
            1 => {
                let $it = $crate::source::ByRef($core);
                $body
            }
            _ => {
                let $it = $crate::source::ByWrap($core);
                $body
            }
        }
    };
}
