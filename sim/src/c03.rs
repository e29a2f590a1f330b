//! C03: lazy outputs are on demand, and the first end of stream is final.
use crate::calls::*;
use crate::chan::*;
use crate::source::*;
use crate::with_src;
use core::cell::{Cell, RefCell};
use sci_rs::signal::filter::*;
use sci_rs::stats::lag_diff;
use simrt::{ev, fault, nontrivial, probe, violate, Choices};

fn honest(what: &str, h: (usize, Option<usize>), left: usize, at: usize) {
    if h.0 > left || h.1.map_or(false, |u| u < left) {
        violate!("length-misreported", "{what}: after {at} outputs it advertises {h:?} but {left} outputs remain");
    }
}
/// Pull outputs one by one from a live source; check reads after every step.
fn lazy<F: FastPaths>(c: &mut Choices) {
    let n = c.len(12, 60, 600);
    let mut ch: Chan<F> = Chan::gen(c, 0, n);
    let filt = c.chance(650);
    let mut ctl = Ctl::new(c.pick(&LEGAL));
    ctl.tick = c.pick(&[1_000_000, 4_000, 20_000_000]);
    let style = c.draw(3);
    let d = ch.data.clone();
    let outs = if filt { n } else { n.saturating_sub(1) };
    let what = if filt { "sosfilt_st" } else { "lag_diff" };
    ev!("{what} over a live source of {n} samples, one every {} ns", ctl.tick);
    let mut got: Vec<(usize, F)> = vec![];
    let mut used = 0;
    let mut drive = |it: &mut dyn Iterator<Item = F>, c: &mut Choices| {
        if ctl.pulls.get() != 0 {
            violate!("eager-read", "{what}: creating the lazy stream read {} samples", ctl.pulls.get());
        }
        let mut at = 0; // outputs consumed
        loop {
            let ask = c.weighted(&[60, 15, 10, 10, 4]);
            if ask == 1 {
                let before = ctl.pulls.get();
                honest(what, it.size_hint(), outs - at, at);
                if ctl.pulls.get() != before {
                    violate!("eager-read", "{what}: asking for the advertised length read from the source");
                }
                continue;
            }
            let j = match ask {
                2 => c.us(1, 4),
                4 => c.us(5, 40),
                _ => 0,
            };
            if ask == 3 && c.chance(200) {
                fault("lazy-output-abandoned");
                break;
            }
            let r = it.nth(j);
            simrt::op();
            let due = at + j < outs;
            if r.is_some() != due {
                violate!("output-count", "{what}: output {} {} although the source delivers {n} samples", at + j, if due { "is missing" } else { "was produced" });
            }
            let Some(y) = r else {
                used = n;
                break;
            };
            got.push((at + j, y));
            at += j + 1;
            used = at;
            let high = ctl.high.get();
            let allow = if filt { at } else { at + 1 };
            if high > allow {
                violate!("reads-ahead", "{what}: {at} outputs produced, but the source was read up to sample {} (only {allow} were needed)", high);
            }
            if filt && ctl.pulls.get() as usize != at {
                violate!("reads-ahead", "{what}: {at} outputs produced with {} reads of the source", ctl.pulls.get());
            }
            nontrivial();
        }
        simrt::sig(at as u64);
    };
    let sos = &mut ch.sos;
    if filt {
        with_src!(style, Core::new(&d, n, &ctl), it => drive(&mut sosfilt_st(it, sos), c));
        ch.verify(what, used, &got);
    } else {
        with_src!(style, Core::new(&d, n, &ctl), it => drive(&mut lag_diff::<_, F>(it), c));
        for (i, y) in got {
            let want = d[i + 1] - d[i];
            let s = d[i].up().abs() + d[i + 1].up().abs();
            if !same(y, want, F::TOL * s) {
                violate!("output-mismatch", "lag_diff: output {i} is {:e}, expected {:e}", y.up(), want.up());
            }
        }
    }
}
/// The reads made when each output arrives, with the iteration inside.
fn inner<F: FastPaths>(c: &mut Choices) {
    let n = c.len(12, 60, 300);
    let mut ch: Chan<F> = Chan::gen(c, 0, n);
    let filt = c.chance(400);
    let mut ctl = Ctl::new(c.pick(&LEGAL));
    ctl.tick = 4_000;
    let (style, mode) = (c.draw(3), c.draw(4));
    let what = if filt { "sosfilt_st" } else { "lag_diff" };
    let outs = if filt { n } else { n.saturating_sub(1) };
    let d = ch.data.clone();
    let mut got: Vec<F> = vec![];
    let hear = |y: F| {
        got.push(y);
        let allow = got.len() + !filt as usize;
        if ctl.high.get() > allow {
            violate!("reads-ahead", "{what}: output {} arrives after the source was read up to sample {} (only {allow} were needed)", got.len(), ctl.high.get());
        }
    };
    fn go<F>(mode: u64, mut it: impl Iterator<Item = F>, mut hear: impl FnMut(F)) {
        match mode {
            0 => it.for_each(hear),
            1 => it.fold((), |_, y| hear(y)),
            2 => {
                let _ = it.try_for_each(|y| {
                    hear(y);
                    Some(())
                });
            }
            _ => {
                let _ = it.map(|y| hear(y)).count();
            }
        }
    }
    let sos = &mut ch.sos;
    if filt {
        with_src!(style, Core::new(&d, n, &ctl), it => go(mode, sosfilt_st(it, sos), hear));
    } else {
        with_src!(style, Core::new(&d, n, &ctl), it => go(mode, lag_diff::<_, F>(it), hear));
    }
    ev!("{what} over {n} samples, internal iteration {mode}: {} outputs", got.len());
    simrt::op();
    nontrivial();
    simrt::sig(simrt::mix(mode, n as u64));
    if got.len() != outs {
        violate!("output-count", "{what}: {} outputs for {n} samples", got.len());
    }
    if filt {
        let got: Vec<(usize, F)> = got.into_iter().enumerate().collect();
        ch.verify(what, n, &got);
    } else {
        for (i, y) in got.iter().enumerate() {
            let s = d[i].up().abs() + d[i + 1].up().abs();
            if !same(*y, d[i + 1] - d[i], F::TOL * s) {
                violate!("output-mismatch", "lag_diff: output {i} is {:e}, expected {:e}", y.up(), (d[i + 1] - d[i]).up());
            }
        }
    }
}
/// A control loop: the plant's next sample depends on the last output.
fn closed<F: FastPaths>(c: &mut Choices) {
    let n = c.us(1, 120);
    let mut ch: Chan<F> = Chan::gen(c, 0, n);
    let gain = F::of(c.pick(&[0.4, -0.7, 0.1]));
    let last = Cell::new(F::of(0.0));
    let told = Cell::new(0usize);
    let fed = RefCell::new(Vec::<F>::new());
    let base = ch.data.clone();
    if base.iter().any(|v| !v.up().is_finite()) {
        return;
    }
    let src = core::iter::from_fn(|| {
        let k = fed.borrow().len();
        if k >= n {
            return None;
        }
        if told.get() < k {
            violate!("reads-ahead", "sosfilt_st asked its source for sample {k} while only {} outputs had been produced: a source in a feedback loop cannot answer", told.get());
        }
        let x = base[k] + gain * last.get();
        fed.borrow_mut().push(x);
        Some(x)
    });
    let mut got = vec![];
    let mut hear = |y: F| {
        got.push((got.len(), y));
        last.set(y);
        told.set(got.len());
    };
    {
        let mut it = sosfilt_st(src, &mut ch.sos);
        // every way to go through an iterator
        let (mode, part) = (c.draw(9), c.us(0, n));
        match mode {
            0 => {
                for y in it {
                    hear(y)
                }
            }
            1 => it.for_each(hear),
            2 => it.fold((), |_, y| hear(y)),
            3 => {
                for y in it.by_ref().take(part) {
                    hear(y)
                }
                it.for_each(hear)
            }
            4 => {
                let _ = it.try_for_each(|y| {
                    hear(y);
                    Some(())
                });
            }
            5 => {
                let _ = it.inspect(|y| hear(*y)).count();
            }
            6 => {
                let _ = it.map(|y| hear(y)).collect::<Vec<()>>();
            }
            7 => {
                let _ = it.inspect(|y| hear(*y)).last();
            }
            _ => {
                let mut p = it.peekable();
                while let Some(y) = p.next() {
                    hear(y)
                }
            }
        }
    }
    probe("closed-loop-source");
    nontrivial();
    simrt::op();
    if got.len() != n {
        violate!("output-count", "sosfilt_st in a feedback loop: {} outputs for {n} samples", got.len());
    }
    ev!("feedback loop of {n} samples");
    ch.data = fed.into_inner();
    ch.verify("sosfilt_st in a feedback loop", n, &got);
}
/// Anything a source hands out after its first end must not matter.
fn finality(c: &mut Choices) {
    let mut p = P::gen(c, &STREAMS, 1500);
    if p.n < 6 {
        p.n += 6;
    }
    if p.kind == K::FiltFilt && c.chance(700) {
        p.n += 9 * p.nsec + 12;
    }
    let hint = c.pick(&LEGAL);
    let mut ctl = Ctl::new(hint);
    ctl.resumes = true;
    ctl.tick = 1000;
    fault("source-offers-samples-after-end");
    let got = outcome(&p, &ctl, &no_arm);
    let mut q = p;
    q.n = p.n - p.n / 3;
    let ctl2 = Ctl::new(hint);
    let want = outcome(&q, &ctl2, &no_arm);
    simrt::op();
    nontrivial();
    if ctl.samples_after_end.get() > 0 {
        probe("read-past-first-end");
    }
    ev!("{:?}: source ends after {} samples, then offers {} more ({hint:?}): {} samples taken after the end, result {}", p.kind, q.n, p.n - q.n, ctl.samples_after_end.get(), if got == want { "same" } else { "DIFFERENT" });
    simrt::sig(simrt::mix(p.kind as u64, q.n as u64));
    if got != want {
        violate!("end-of-stream-not-final", "{:?} over {} samples: the result changes when the source would hand out {} further samples after its first end of stream", p.kind, q.n, p.n - q.n);
    }
}
pub fn body(c: &mut Choices) {
    let rounds = c.us(1, 4);
    for _ in 0..rounds {
        c.open();
        match (c.weighted(&[5, 2, 4, 1]), c.chance(500)) {
            (0, true) => lazy::<f32>(c),
            (0, false) => lazy::<f64>(c),
            (1, true) => closed::<f32>(c),
            (1, false) => closed::<f64>(c),
            (3, true) => inner::<f32>(c),
            (3, false) => inner::<f64>(c),
            _ => finality(c),
        }
        c.close();
    }
}
