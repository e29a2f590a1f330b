//! C05: non-allocating routines never touch the heap.
use crate::calls::*;
use crate::source::*;
use simrt::{alloc, ev, fault, nontrivial, probe, Choices};

pub fn body(c: &mut Choices) {
    let n = c.us(1, 6);
    for _ in 0..n {
        c.open();
        let mut p = P::gen(c, &NOHEAP, 6000);
        if c.chance(100) {
            p.nsec = c.us(8, 80);
        }
        if c.chance(1) {
            p.n = c.us(20_000, 300_000);
            probe("long-stream");
        }
        let hint = c.pick(&ANY);
        let mut ctl = Ctl::new(hint);
        ctl.resumes = c.chance(100);
        ev!("{:?} n={} sections={} item={} {hint:?} with no heap", p.kind, p.n, p.nsec, p.item);
        let mode = c.draw(2);
        let arm = |on: bool| {
            if on {
                alloc::deny()
            } else {
                alloc::calm();
            }
        };
        let _ = mode;
        let r = outcome(&p, &ctl, &arm);
        if r.is_some() {
            fault("heap-unavailable-during-call");
            nontrivial();
        }
        simrt::op();
        simrt::sig(simrt::mix(p.kind as u64, (p.n as u64) << 8 | p.nsec as u64));
        c.close();
    }
}
