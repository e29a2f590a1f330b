//! C02: interrupted, abandoned, rolled back and crashed streams resume
//! exactly.
use crate::c01::chunk_len;
use crate::chan::*;
use crate::num::*;
use crate::source::*;
use crate::with_src;
use core::cell::Cell;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use simrt::{ev, fault, isolate, nontrivial, probe, sched, violate, Choices, Exit, Shared};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
struct Bomb<'a> {
    v: isize,
    idx: usize,
    at: usize,
    hit: &'a Cell<usize>,
}
impl From<Bomb<'_>> for isize {
    fn from(b: Bomb) -> isize {
        if b.idx == b.at {
            fault("sample-conversion-unwinds");
            b.hit.set(b.idx);
            inject_unwind();
        }
        b.v
    }
}
trait IBomb: FastPaths {
    /// Some(true): unwound
    fn ibomb(y: &[Self], sos: &mut [Sos<Self>], z: &mut [Self], at: usize) -> Option<bool>;
}
impl IBomb for f64 {
    fn ibomb(_: &[f64], _: &mut [Sos<f64>], _: &mut [f64], _: usize) -> Option<bool> {
        None
    }
}
impl IBomb for f32 {
    fn ibomb(y: &[f32], sos: &mut [Sos<f32>], z: &mut [f32], at: usize) -> Option<bool> {
        let hit = Cell::new(usize::MAX);
        let v: Vec<Bomb> = y.iter().enumerate().map(|(idx, v)| Bomb { v: *v as isize, idx, at, hit: &hit }).collect();
        Some(catch_unwind(AssertUnwindSafe(|| sosfilt_ifast32_st(&v, sos, z))).is_err())
    }
}

fn interrupt<F: IBomb>(c: &mut Choices, x: &mut Chan<F>) {
    let len = chunk_len(c, x.left()).max(1).min(x.left());
    if len == 0 {
        return;
    }
    // bias towards the middle and the edges of the piece
    let at = match c.draw(4) {
        0 => 0,
        1 => len - 1,
        _ => c.us(0, len - 1),
    };
    let d: Vec<F> = x.data[x.pos..x.pos + len].to_vec();
    let style = c.draw(3);
    let ctl = Ctl::new(c.pick(&LEGAL));
    let kind = c.draw(11);
    let pos = x.pos;
    let sos = &mut x.sos;
    let mut got: Vec<(usize, F)> = vec![];
    let what;
    let mut used = at;
    match kind {
        0 | 1 => {
            what = "source unwinds during sosfilt_dyn";
            ctl.panic_at.set(at as u64);
            let r = catch_unwind(AssertUnwindSafe(|| with_src!(style, Core::new(&d, len, &ctl), it => sosfilt_dyn(it, sos))));
            if r.is_ok() {
                violate!("unwind-swallowed", "{what}: the call returned normally although its source unwound");
            }
        }
        2 => {
            what = "sample access unwinds during sosfilt_dyn";
            ctl.borrow_panic_at.set(at as u64);
            let r = catch_unwind(AssertUnwindSafe(|| sosfilt_dyn(ByWrap(Core::new(&d, len, &ctl)), sos)));
            if r.is_ok() {
                violate!("unwind-swallowed", "{what}: the call returned normally");
            }
            used = ctl.pulls.get().saturating_sub(1) as usize;
        }
        3 => {
            what = "source unwinds during lazy sosfilt_st";
            ctl.panic_at.set(at as u64);
            let g = &mut got;
            let r = catch_unwind(AssertUnwindSafe(|| {
                with_src!(style, Core::new(&d, len, &ctl), it => {
                    for y in sosfilt_st(it, sos) {
                        g.push((g.len(), y));
                    }
                })
            }));
            if r.is_ok() {
                violate!("unwind-swallowed", "{what}: the call returned normally");
            }
        }
        4 => {
            what = "lazy output leaked (mem::forget)";
            with_src!(style, Core::new(&d, len, &ctl), it => {
                let mut l = sosfilt_st(it, sos);
                for _ in 0..at {
                    match l.next() {
                        Some(y) => got.push((got.len(), y)),
                        None => violate!("output-count", "lazy output ended after {} of {at} samples", got.len()),
                    }
                }
                fault("lazy-output-leaked");
                core::mem::forget(l);
            });
        }
        7 => {
            // internal iteration
            what = "source unwinds while the lazy output is folded";
            ctl.panic_at.set(at as u64);
            let g = &mut got;
            let r = catch_unwind(AssertUnwindSafe(|| {
                with_src!(style, Core::new(&d, len, &ctl), it => match at % 3 {
                    0 => sosfilt_st(it, sos).for_each(|y| g.push((g.len(), y))),
                    1 => drop(sosfilt_st(it, sos).map(|y| g.push((g.len(), y))).collect::<Vec<_>>()),
                    _ => drop(sosfilt_st(it, sos).last()),
                })
            }));
            if r.is_ok() {
                violate!("unwind-swallowed", "{what}: the call returned normally");
            }
        }
        8 => {
            what = "consumer of the lazy output unwinds";
            used = at + 1;
            let g = &mut got;
            let r = catch_unwind(AssertUnwindSafe(|| {
                with_src!(style, Core::new(&d, len, &ctl), it => sosfilt_st(it, sos).for_each(|y| {
                    g.push((g.len(), y));
                    if g.len() > at {
                        fault("consumer-unwinds");
                        inject_unwind();
                    }
                }))
            }));
            if r.is_ok() {
                violate!("output-count", "{what}: only {} outputs for {len} samples", got.len());
            }
        }
        9 => {
            what = "consumer of the lazy output stops early";
            used = at + 1;
            let g = &mut got;
            fault("lazy-output-abandoned");
            let stopped = with_src!(style, Core::new(&d, len, &ctl), it => sosfilt_st(it, sos).try_for_each(|y| {
                g.push((g.len(), y));
                if g.len() > at { Err(()) } else { Ok(()) }
            }));
            if stopped.is_ok() {
                violate!("output-count", "{what}: only {} outputs for {len} samples", got.len());
            }
        }
        10 => {
            what = "sample access unwinds during lazy sosfilt_st";
            ctl.borrow_panic_at.set(at as u64);
            let g = &mut got;
            let r = catch_unwind(AssertUnwindSafe(|| sosfilt_st(ByWrap(Core::new(&d, len, &ctl)), sos).for_each(|y| g.push((g.len(), y)))));
            if r.is_ok() {
                violate!("unwind-swallowed", "{what}: the call returned normally");
            }
            used = ctl.pulls.get().saturating_sub(1) as usize;
        }
        5 => {
            what = "sample access unwinds during sosfilt_item";
            let mut it = ByWrap(Core::new(&d, len, &ctl));
            ctl.borrow_panic_at.set(at as u64);
            let g = &mut got;
            let r = catch_unwind(AssertUnwindSafe(|| {
                while let Some(w) = it.next() {
                    let y = sosfilt_item(w, sos);
                    g.push((g.len(), y));
                }
            }));
            if r.is_ok() {
                violate!("unwind-swallowed", "{what}: the call returned normally");
            }
            used = ctl.pulls.get().saturating_sub(1) as usize;
        }
        _ => {
            what = "sample conversion unwinds during sosfilt_ifast32_st";
            if !x.integer {
                return;
            }
            let mut z = vec![F::of(0.0); len];
            match F::ibomb(&d, sos, &mut z, at) {
                None => return,
                Some(false) => violate!("unwind-swallowed", "{what}: the call returned normally"),
                Some(true) => {}
            }
            got = z[..at].iter().copied().enumerate().collect();
        }
    }
    nontrivial();
    simrt::op();
    simrt::sig(simrt::mix(kind, (at as u64) << 8 | x.sos.len() as u64));
    ev!("channel {}: {what} after {used} of {len} samples at {pos}", x.id);
    x.verify(what, used, &got);
}

/// Keep a copy, go on, come back to the copy, replay.
fn rollback<F: FastPaths>(c: &mut Choices, x: &mut Chan<F>) {
    let keep = (x.sos.clone(), x.pos, x.rf.clone());
    let n = c.us(1, 3);
    for _ in 0..n {
        let len = chunk_len(c, x.left());
        let e = c.draw(ENTRIES);
        x.feed(c, len, e);
    }
    fault("rolled-back-to-copy");
    ev!("channel {}: restored the copy taken at {}", x.id, keep.1);
    if c.chance(500) {
        x.sos = keep.0; // other addresses
    } else {
        x.sos.copy_from_slice(&keep.0); // same addresses
    }
    x.pos = keep.1;
    x.rf = keep.2;
    nontrivial();
}

const SLOTS: usize = 4;
/// Process the stream in a child process that dies at a drawn basic block;
/// restart here from one of its durable checkpoints.
fn crash<F: FastPaths>(c: &mut Choices, x: &mut Chan<F>) {
    let nsec = x.sos.len();
    let slot = 2 + nsec * 8;
    let sh = Shared::new((8 + SLOTS * slot) * 8);
    let lseed = c.seed();
    let pieces = c.us(1, 5);
    let blocks = match c.draw(3) {
        0 => c.range(1, 3000),
        1 => c.range(1, 60_000),
        _ => c.range(1, 600_000),
    };
    let every = c.us(1, 2);
    let age = c.us(0, SLOTS - 2);
    let start = x.pos;
    ev!("channel {}: child process filters from {start}, dies after {blocks} basic blocks", x.id);
    let ex = isolate(|| {
        let mut lc = simrt::choice::local(lseed);
        simrt::out::quiet(true);
        let w = sh.words();
        let commit = |x: &Chan<F>| {
            let k = w_count(sh.words());
            let at = 8 + (k as usize % SLOTS) * slot;
            let w = sh.words();
            w[at] = x.pos as u64;
            let mut v = vec![];
            sos_bits(&x.sos, &mut v);
            w[at + 1..at + 1 + v.len()].copy_from_slice(&v);
            w[0] = k + 1; // publish last
        };
        let _ = w;
        commit(x);
        sched::crash_after(blocks);
        for i in 0..pieces {
            let len = chunk_len(&mut lc, x.left());
            let e = lc.draw(ENTRIES);
            x.feed(&mut lc, len, e);
            if i % every == 0 {
                commit(x);
            }
        }
        sched::no_crash();
    });
    match ex {
        Exit::Code(77) => fault("process-crash-at-basic-block"),
        Exit::Code(0) => probe("child-finished-before-crash"),
        Exit::Code(n) => violate!("unexpected-exit", "streaming child exited with code {n} ({})", simrt::out::last_panic()),
        Exit::Signal(s) => violate!("unexpected-exit", "streaming child killed by signal {s}"),
    }
    let w = sh.words();
    let k = w_count(w);
    let back = (age as u64).min(k - 1);
    let at = 8 + ((k - 1 - back) as usize % SLOTS) * slot;
    let pos = w[at] as usize;
    // restore from the public values only
    let mut i = at + 1;
    let mut fresh: Vec<Sos<F>> = vec![];
    for _ in 0..nsec {
        let mut f = [F::of(0.0); 8];
        for v in f.iter_mut() {
            *v = F::of(if F::F32 { f32::from_bits(w[i] as u32) as f64 } else { f64::from_bits(w[i]) });
            i += 1;
        }
        let mut s = Sos::new([f[0], f[1], f[2]], [f[3], f[4], f[5]]);
        s.zi0 = f[6];
        s.zi1 = f[7];
        fresh.push(s);
    }
    ev!("channel {}: restarted from checkpoint {} of {k} at sample {pos} ({ex:?})", x.id, k - back);
    while x.pos < pos {
        let v = x.data[x.pos];
        x.rf.step(v);
        x.pos += 1;
    }
    x.sos = fresh;
    x.verify_state("after restart from a checkpoint");
    nontrivial();
    simrt::sig(simrt::mix(pos as u64, blocks));
}
fn w_count(w: &[u64]) -> u64 {
    unsafe { core::ptr::read_volatile(&w[0]) }
}

fn go<F: IBomb>(c: &mut Choices) {
    let nch = c.us(1, 2);
    let total = if c.chance(60) { c.us(1000, 6000) } else { c.us(4, 500) };
    let mut ch: Vec<Chan<F>> = (0..nch).map(|i| Chan::gen(c, i, total)).collect();
    for x in &mut ch {
        if c.chance(150) {
            x.concentrate(c);
        }
    }
    let ops = c.us(1, 9);
    for _ in 0..ops {
        c.open();
        let k = c.us(0, nch - 1);
        match c.weighted(&[4, 7, 2, 2]) {
            0 => {
                let len = chunk_len(c, ch[k].left());
                let e = c.draw(ENTRIES);
                ch[k].feed(c, len, e);
            }
            1 => interrupt(c, &mut ch[k]),
            2 => rollback(c, &mut ch[k]),
            _ => crash(c, &mut ch[k]),
        }
        c.close();
    }
    for x in &mut ch {
        let len = x.left().min(300);
        let e = c.draw(ENTRIES);
        x.feed(c, len, e);
    }
}
pub fn body(c: &mut Choices) {
    if c.chance(650) {
        go::<f32>(c)
    } else {
        go::<f64>(c)
    }
}
