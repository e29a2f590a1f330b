//! C08: running out of memory never yields a wrong answer.
use crate::calls::*;
use crate::source::*;
use core::cell::Cell;
use core::sync::atomic::Ordering::SeqCst;
use simrt::{alloc, ev, fault, isolate, nontrivial, probe, violate, Choices, Exit, Shared};

/// Everything that allocates.
const KINDS: [K; 21] = [
    K::Dyn, K::FiltFilt, K::Zi, K::LZi, K::Savgol, K::SavgolC, K::Pad, K::OddExt, K::Companion, K::Median, K::Mad, K::ModZscore, K::Butter, K::Cheby1, K::Iir, K::Proto, K::Poly, K::Convolve, K::Resample, K::BesselV, K::Scipy,
];
pub fn body(c: &mut Choices) {
    let n = c.us(1, 4);
    for _ in 0..n {
        c.open();
        one(c);
        c.close();
    }
}
fn one(c: &mut Choices) {
    let p = if c.chance(40) { P::gen(c, &NOHEAP, 400) } else { P::gen(c, &KINDS, 700) };
    let hint = c.pick(&LEGAL);
    let calls = Cell::new(0u64);
    let start = Cell::new(0u64);
    let count = |on: bool| {
        if on {
            start.set(alloc::CALLS.load(SeqCst));
        } else {
            calls.set(calls.get() + alloc::CALLS.load(SeqCst) - start.get());
        }
    };
    let want = outcome(&p, &Ctl::new(hint), &count);
    let total = calls.get();
    let from = c.chance(500);
    let at = if c.chance(150) { 0 } else { c.draw(total.max(1)) };
    let sh = Shared::new(4096 + (want.as_ref().map_or(0, |v| v.len()) + 64) * 8);
    ev!("{:?} n={} f32={} makes {total} heap requests; {} number {at}", p.kind, p.n, p.f32, if from { "every request fails from" } else { "failing request" });
    let ex = isolate(|| {
        simrt::out::quiet(true);
        let w = sh.words();
        let first = Cell::new(true);
        let arm = |on: bool| {
            if !on {
                alloc::calm();
            } else if first.get() {
                first.set(false);
                if from {
                    alloc::fail_from(at)
                } else {
                    alloc::fail_nth(at)
                }
            } else if from || alloc::FAILED.load(SeqCst) == 0 {
                alloc::set_mode(if from { 3 } else { 2 });
            }
        };
        let r = outcome(&p, &Ctl::new(hint), &arm);
        w[1] = alloc::FAILED.load(SeqCst);
        match r {
            None => w[0] = 1,
            Some(v) => {
                w[2] = v.len() as u64;
                let k = v.len().min(w.len() - 8);
                w[8..8 + k].copy_from_slice(&v[..k]);
                w[0] = 2;
            }
        }
    });
    simrt::op();
    simrt::sig(simrt::mix(p.kind as u64, at << 1 | from as u64));
    let w = sh.words();
    match ex {
        Exit::Signal(6) => {
            fault(if from { "all-requests-fail-from-nth" } else { "nth-request-fails" });
            nontrivial();
            ev!("  process stopped with an allocation error");
        }
        Exit::Signal(s) => violate!("crash-on-oom", "{:?} (n={}): killed by signal {s} after heap request {at} failed", p.kind, p.n),
        Exit::Code(0) if w[0] == 1 => {
            if w[1] > 0 {
                fault("request-failed-call-unwound");
                nontrivial();
            } else if want.is_some() {
                violate!("unstable-outcome", "{:?}: unwound although no request failed ({})", p.kind, simrt::out::last_panic());
            }
            ev!("  unwound");
        }
        Exit::Code(0) => {
            let n = w[2] as usize;
            let same = match &want {
                None => false,
                Some(v) => v.len() == n && w[8..8 + n] == v[..],
            };
            if !same {
                violate!("wrong-answer-on-oom", "{:?} (n={}): heap request {at} failed ({} failures) and the call returned a different result ({n} words instead of {:?})", p.kind, p.n, w[1], want.as_ref().map(|v| v.len()));
            }
            probe(if w[1] > 0 { "survived-a-failed-request" } else { "no-request-reached-the-fault" });
            ev!("  returned the same result");
        }
        Exit::Code(n) => violate!("unexpected-exit", "{:?}: exited with code {n}", p.kind),
    }
}
