//! C06: no retained heap, no allocation sized by an advertised length.
use crate::calls::*;
use crate::source::*;
use core::sync::atomic::Ordering::SeqCst;
use simrt::{alloc, ev, fault, nontrivial, violate, Choices};

pub fn body(c: &mut Choices) {
    let rounds = c.us(1, 3);
    for _ in 0..rounds {
        c.open();
        if c.chance(550) {
            retained(c)
        } else {
            advertised(c)
        }
        c.close();
    }
}
const MAXR: usize = 10;
/// Repeat a workload (same calls, other arguments); the live heap must not grow.
fn retained(c: &mut Choices) {
    let k = c.us(1, 3);
    let calls: Vec<P> = (0..k).map(|_| P::gen(c, &ALL, 700)).collect();
    let reps = c.us(3, MAXR);
    let cut = c.chance(400);
    let same = c.chance(300);
    let cs = c.seed();
    let mut lc = simrt::Rng::new(cs);
    let mut live = [0usize; MAXR];
    let mut blocks = [0usize; MAXR];
    for r in 0..reps {
        for p in &calls {
            let mut q = *p;
            if !same {
                // another size, window and data each time
                q.n += (r * 7) % 23;
                q.w += r % 5;
                q.k += r % 3;
                q.dseed ^= r as u64;
                q.nsec += r % 4;
                q.fa += 0.003 * r as f64;
                q.m = ((q.m as usize + r) % 24) as u8;
            }
            let ctl = Ctl::new(LEGAL[lc.below(LEGAL.len() as u64) as usize]);
            if cut && lc.below(2) == 0 {
                ctl.panic_at.set(lc.below(2 * q.n as u64 + 1));
            }
            drop(outcome(&q, &ctl, &no_arm));
            simrt::op();
        }
        live[r] = alloc::LIVE.load(SeqCst);
        blocks[r] = alloc::BLOCKS.load(SeqCst);
    }
    ev!("workload {:?} x{reps} (cut short: {cut}, same arguments: {same}): live heap settles at {}", calls.iter().map(|p| p.kind).collect::<Vec<_>>(), live[reps - 1] as i64 - live[0] as i64);
    nontrivial();
    for r in 2..reps {
        if live[r] > live[1] || blocks[r] > blocks[1] {
            violate!(
                "heap-growth",
                "repeating {:?} keeps heap memory: {} bytes in {} blocks more after repetition {} than after repetition 2",
                calls.iter().map(|p| p.kind).collect::<Vec<_>>(),
                live[r] as i64 - live[1] as i64,
                blocks[r] as i64 - blocks[1] as i64,
                r + 1
            );
        }
    }
}
/// A short stream from a source that advertises much more (legally).
fn advertised(c: &mut Choices) {
    let mut p = P::gen(c, &STREAMS, 3000);
    // (quickselect may take quadratic time)
    if !matches!(p.kind, K::Companion | K::Median | K::Mad | K::ModZscore) && c.chance(60) {
        // memory that grows with the product of two sizes shows here
        p.n = c.us(6_000, 16_000);
        p.w = c.us(20, 50);
        p.k = c.us(0, 400);
        p.nsec = c.us(0, 40);
    }
    let want = outcome(&p, &Ctl::new(Hint::Exact), &no_arm);
    let hint = if c.chance(400) { Hint::loose(c) } else { c.pick(&LEGAL) };
    let mut ctl = Ctl::new(hint);
    ctl.tick = 1000;
    if c.chance(200) {
        ctl.panic_at.set(c.draw(2 * p.n as u64 + 1));
    }
    let live = alloc::LIVE.load(SeqCst);
    alloc::peak_reset();
    let got = outcome(&p, &ctl, &no_arm);
    let peak = alloc::PEAK.load(SeqCst) - live;
    if !matches!(hint, Hint::Exact) {
        fault("source-advertises-loosely");
    }
    // companion matrices are quadratic by definition
    let quad = if p.kind == K::Companion { 64 * p.n * p.n } else { 0 };
    let bound = 40_000 + 240 * p.n + 4000 * (p.window() + p.nsec) + quad;
    ev!("{:?} n={} {hint:?}: peak {peak} bytes, largest request {}", p.kind, p.n, alloc::MAXREQ.load(SeqCst));
    simrt::op();
    nontrivial();
    simrt::sig(simrt::mix(p.kind as u64, hint.code()));
    if peak > bound {
        violate!("peak-heap", "{:?} over {} samples from a source advertising {hint:?} used {peak} bytes of heap at once (bound {bound})", p.kind, p.n);
    }
    if want.is_some() && got.is_none() && !ctl.fired.get() {
        violate!("advertised-length-matters", "{:?} over {} samples panics ({}) when the source advertises {hint:?}, not when it advertises the exact length", p.kind, p.n, simrt::out::last_panic());
    }
}
