//! C10: zero-phase and Savitzky-Golay smoothing of a delivered stream.
use crate::chan::*;
use crate::num::*;
use crate::source::*;
use crate::with_src;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use simrt::{ev, fault, nontrivial, probe, violate, Choices};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Steady-state delays of a biquad cascade (closed form, unit input).
pub fn steady(s: &[([f64; 3], [f64; 3])]) -> Vec<(f64, f64)> {
    let mut scale = 1.0;
    s.iter()
        .map(|(b, a)| {
            let g = (b[0] + b[1] + b[2]) / (a[0] + a[1] + a[2]);
            let z1 = b[2] - a[2] * g;
            let z0 = b[1] - a[1] * g + z1;
            let r = (scale * z0, scale * z1);
            scale *= g;
            r
        })
        .collect()
}
fn pass(s: &[([f64; 3], [f64; 3])], zi: &[(f64, f64)], x: &[f64], peak: &mut f64, front: f64) -> Vec<f64> {
    let x0 = x.first().copied().unwrap_or(0.0);
    let mut z: Vec<(f64, f64)> = zi.iter().map(|(a, b)| (a * x0, b * x0)).collect();
    // (section by section: the largest value in sections working in other units)
    let (mut inner, last) = (0.0f64, s.len().saturating_sub(1));
    let out = x
        .iter()
        .map(|x| {
            let mut v = *x;
            for (i, (b, a)) in s.iter().enumerate() {
                inner = inner.max(v.abs() * (i > 0) as u32 as f64);
                let y = b[0] * v + z[i].0;
                z[i] = (b[1] * v - a[1] * y + z[i].1, b[2] * v - a[2] * y);
                let m = z[i].0.abs().max(z[i].1.abs());
                if i < last {
                    inner = inner.max(m);
                } else {
                    *peak = peak.max(m);
                }
                v = y;
            }
            *peak = peak.max(v.abs());
            v
        })
        .collect();
    *peak = peak.max(inner / front);
    out
}
pub fn edge_of(s: &[([f64; 3], [f64; 3])]) -> usize {
    let bz = s.iter().filter(|(b, _)| b[2] == 0.0).count();
    let az = s.iter().filter(|(_, a)| a[2] == 0.0).count();
    3 * (2 * s.len() + 1 - bz.min(az))
}
fn filtfilt_ref(s: &[([f64; 3], [f64; 3])], x: &[f64], edge: usize, front: f64) -> (Vec<f64>, f64) {
    let n = x.len();
    let mut e: Vec<f64> = (0..edge).map(|i| 2.0 * x[0] - x[edge - i]).collect();
    e.extend_from_slice(x);
    e.extend((0..edge).map(|i| 2.0 * x[n - 1] - x[n - 2 - i]));
    let mut peak = e.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    let zi = steady(s);
    let mut y = pass(s, &zi, &e, &mut peak, front);
    y.reverse();
    let mut z = pass(s, &zi, &y, &mut peak, front);
    z.reverse();
    (z[edge..edge + n].to_vec(), peak)
}
fn up_sections<F: Fl>(s: &[Sos<F>]) -> Vec<([f64; 3], [f64; 3])> {
    s.iter().map(|s| (s.b.map(|v| v.up()), s.a.map(|v| v.up()))).collect()
}
/// One zero-phase call on sections in whatever state they are.
fn filtfilt<F: Fl>(c: &mut Choices, sos: &[Sos<F>], front: f64, style: u8, what: &str) {
    let s = up_sections(sos);
    let edge = edge_of(&s);
    let n = edge + 1 + if c.chance(8) { c.us(4_000, 20_000) } else { c.len(3, 80, 1500) };
    let ds = c.seed();
    let scale = c.pick(&[1.0, 1.0, 1e-4, 1e3]);
    let d: Vec<F> = vecf(&signal(style, ds, n, scale));
    let hint = c.pick(&LEGAL);
    let mut ctl = Ctl::new(hint);
    ctl.tick = 500_000;
    let item = c.draw(3) as u8;
    let mut before = vec![];
    sos_bits(sos, &mut before);
    let cut = c.chance(120);
    if cut {
        ctl.panic_at.set(c.draw(n as u64));
    }
    if hint != Hint::Exact {
        fault("inexact-size-hint");
    }
    let r = catch_unwind(AssertUnwindSafe(|| with_src!(item, Core::new(&d, n, &ctl), it => sosfiltfilt_dyn(it, sos))));
    simrt::op();
    nontrivial();
    simrt::sig(simrt::mix(n as u64, sos.len() as u64));
    ev!("sosfiltfilt_dyn {what}: {n} {} samples ({} sections, padding {edge}), hint {hint:?}{}", if F::F32 { "f32" } else { "f64" }, sos.len(), if r.is_err() { ", cut short" } else { "" });
    let mut after = vec![];
    sos_bits(sos, &mut after);
    if before != after {
        violate!("sections-modified", "sosfiltfilt_dyn {what} changed the sections it was given");
    }
    let got = match r {
        Ok(v) => v,
        Err(e) => {
            if !ctl.fired.get() {
                std::panic::resume_unwind(e);
            }
            return;
        }
    };
    if got.len() != n {
        violate!("output-count", "sosfiltfilt_dyn {what}: {} outputs for {n} samples", got.len());
    }
    let x: Vec<f64> = d.iter().map(|v| v.up()).collect();
    let (want, peak) = filtfilt_ref(&s, &x, edge, front);
    let tol = if F::F32 { 4e-3 } else { 1e-9 } * peak;
    for i in 0..n {
        if !((got[i].up() - want[i]).abs() <= tol) {
            violate!("output-mismatch", "sosfiltfilt_dyn {what} ({} sections, {n} samples): output {i} is {:e}, forward-backward filtering of the odd extension gives {:e} (tolerance {tol:e})", sos.len(), got[i].up(), want[i]);
        }
    }
}
/// Zero-phase calls on sections that are in use by a live stream.
fn midstream<F: FastPaths>(c: &mut Choices) {
    let total = c.len(20, 200, 900) + 1;
    let mut ch: Chan<F> = Chan::gen(c, 0, total);
    if c.chance(250) {
        ch.narrow(c);
    }
    if c.chance(150) {
        ch.concentrate(c);
    }
    let bad = ch.data.iter().any(|v| !v.up().is_finite());
    let style = c.draw(8) as u8;
    let calls = c.us(1, 3);
    for _ in 0..calls {
        c.open();
        if ch.left() > 0 {
            let k = c.us(0, ch.left());
            let e = c.draw(ENTRIES);
            ch.feed(c, k, e);
        }
        if ch.pos > 0 {
            probe("zero-phase-call-mid-stream");
        }
        let s = up_sections(&ch.sos);
        if !bad && s.len() <= 24 {
            filtfilt(c, &ch.sos, ch.rf.front, style, "mid-stream");
        }
        c.close();
    }
    let k = ch.left();
    if k > 0 {
        ch.feed(c, k, 0);
    }
}
/// Weights of the least-squares polynomial's `der`-th derivative at the centre.
pub fn savgol_weights(w: usize, poly: usize, der: usize, delta: f64) -> Vec<f64> {
    if der > poly {
        return vec![0.0; w];
    }
    let h = (w / 2).max(1) as f64;
    let t: Vec<f64> = (0..w).map(|i| (i as f64 - (w / 2) as f64) / h).collect();
    let m = poly + 1;
    // modified Gram-Schmidt: V = Q R
    let mut q: Vec<Vec<f64>> = vec![];
    let mut r = vec![vec![0.0; m]; m];
    for k in 0..m {
        let mut v: Vec<f64> = t.iter().map(|t| t.powi(k as i32)).collect();
        for _ in 0..2 {
            for (i, qi) in q.iter().enumerate() {
                let d: f64 = qi.iter().zip(&v).map(|(a, b)| a * b).sum();
                r[i][k] += d;
                for (x, y) in v.iter_mut().zip(qi) {
                    *x -= d * y;
                }
            }
        }
        let nn = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        r[k][k] = nn;
        q.push(v.iter().map(|x| x / nn).collect());
    }
    // c_der = e_der^T R^-1 Q^T y: solve R^T u = e_der
    let mut u = vec![0.0; m];
    for i in 0..m {
        let mut s = if i == der { 1.0 } else { 0.0 };
        for j in 0..i {
            s -= r[j][i] * u[j];
        }
        u[i] = s / r[i][i];
    }
    let f = (1..=der).product::<usize>() as f64 / (h * delta).powi(der as i32);
    (0..w).map(|i| f * (0..m).map(|k| u[k] * q[k][i]).sum::<f64>()).collect()
}
fn savgol<F: Fl>(c: &mut Choices) {
    // windows as wide as the order leaves the fit well conditioned
    let wide = c.chance(120);
    let poly = if F::F32 { c.us(0, 3) } else if wide { c.us(0, 7) } else { c.us(0, 5) };
    let hi = match (F::F32, wide) {
        (true, false) => 7,
        (false, false) => 15,
        (true, true) => [600, 300, 18, 7][poly],
        (false, true) => [600, 600, 600, 100, 31, 16, 10, 8][poly],
    };
    let w = (2 * c.us(1, hi) + 1).max((poly + 2) | 1);
    let der = if c.chance(450) { Some(c.us(0, poly + 1)) } else { None };
    let delta = if c.chance(400) { Some(c.pick(&[0.5, 1.0, 2.0, 0.1, 3.0, -0.25])) } else { None };
    let n = c.len(2 * w, 90, 1500);
    let ds = c.seed();
    let style = c.draw(9) as u8;
    let d: Vec<F> = vecf(&signal(style, ds, n, c.pick(&[1.0, 1e-4, 1e4])));
    let hint = c.pick(&LEGAL);
    if hint != Hint::Exact {
        fault("inexact-size-hint");
    }
    let mut ctl = Ctl::new(hint);
    ctl.tick = 500_000;
    let item = c.draw(3) as u8;
    ev!("savgol_filter_dyn: {n} {} samples, window {w}, order {poly}, derivative {der:?}, spacing {delta:?}, hint {hint:?}", if F::F32 { "f32" } else { "f64" });
    simrt::sig(simrt::mix((w * 8 + poly) as u64, n as u64));
    let got = with_src!(item, Core::new(&d, n, &ctl), it => savgol_filter_dyn(it, w, poly, der, delta.map(F::of)));
    simrt::op();
    nontrivial();
    if got.len() != n {
        violate!("output-count", "savgol_filter_dyn (window {w}): {} outputs for {n} samples delivered ({hint:?})", got.len());
    }
    let wt = savgol_weights(w, poly, der.unwrap_or(0), delta.map(|v| F::of(v).up()).unwrap_or(1.0));
    let wn = wt.iter().map(|v| v.abs()).sum::<f64>();
    let x: Vec<f64> = d.iter().map(|v| v.up()).collect();
    let max = x.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    let tol = if F::F32 { 1e-3 } else { 1e-8 } * wn * max;
    for i in 0..n {
        let want: f64 = (0..w).map(|j| wt[j] * x[(i + j).saturating_sub(w / 2).min(n - 1)]).sum();
        if !((got[i].up() - want).abs() <= tol) {
            violate!("output-mismatch", "savgol_filter_dyn (window {w}, order {poly}, derivative {der:?}, spacing {delta:?}): output {i} of {n} is {:e}, the least-squares polynomial gives {want:e} (tolerance {tol:e})", got[i].up());
        }
    }
}
pub fn body(c: &mut Choices) {
    let rounds = c.us(1, 3);
    for _ in 0..rounds {
        c.open();
        match (c.weighted(&[5, 5]), c.chance(400)) {
            (0, true) => midstream::<f32>(c),
            (0, false) => midstream::<f64>(c),
            (_, true) => savgol::<f32>(c),
            (_, false) => savgol::<f64>(c),
        }
        c.close();
    }
}
