//! C13: a primed cascade starts, and restarts, without a transient.
use crate::c10::steady;
use crate::chan::*;
use crate::num::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use simrt::{ev, fault, nontrivial, probe, violate, Choices, Rng};

fn prime<F: Fl>(s: &mut [Sos<F>]) {
    sosfilt_zi_dyn::<F, _, Sos<F>>(s.iter_mut());
}
/// Prime the channel's sections and judge the delay values; returns the DC
/// gain and the largest internal steady-state magnitude for a unit input.
fn reprime<F: Fl>(c: &mut Choices, ch: &mut Chan<F>, front: f64, when: &str) -> (f64, f64) {
    let coefs: Vec<([f64; 3], [f64; 3])> = ch.sos.iter().map(|s| (s.b.map(|v| v.up()), s.a.map(|v| v.up()))).collect();
    // the same coefficients with another history
    let mut twin = ch.sos.clone();
    let mut r = Rng::new(c.seed());
    let junk = c.draw(4);
    for s in &mut twin {
        (s.zi0, s.zi1) = match junk {
            0 => (F::of(0.0), F::of(0.0)),
            1 => (F::of(r.unit() * 100.0), F::of(r.unit() * 100.0)),
            2 => (F::of(f64::NAN), F::of(f64::INFINITY)),
            _ => (F::of(-0.0), F::of(1e30)),
        };
    }
    prime(&mut ch.sos);
    prime(&mut twin);
    simrt::op();
    let (mut a, mut b) = (vec![], vec![]);
    sos_bits(&ch.sos, &mut a);
    sos_bits(&twin, &mut b);
    if a != b {
        violate!("depends-on-prior-state", "priming {} sections {when} gives delay values that depend on what the sections held before", ch.sos.len());
    }
    if coef_bits(&ch.sos) != ch.coef {
        violate!("coefficients-modified", "priming {when} changed the coefficients");
    }
    let want = steady(&coefs);
    let mut g = 1.0;
    let mut peak = 1.0f64;
    for (i, s) in ch.sos.iter().enumerate() {
        let (b, a) = coefs[i];
        // a power of two taken out of the first section and put back in the last
        let f = if i + 1 < coefs.len() { front } else { 1.0 };
        peak = peak.max(want[i].0.abs() / f).max(want[i].1.abs() / f);
        g *= b.iter().sum::<f64>() / a.iter().sum::<f64>();
        peak = peak.max(f64::abs(g) / f);
        let tol = F::TOL * peak * f;
        if !((s.zi0.up() - want[i].0).abs() <= tol && (s.zi1.up() - want[i].1).abs() <= tol) {
            violate!("wrong-steady-state", "priming {when}: section {i} of {} gets delays ({:e}, {:e}), steady state is ({:e}, {:e})", ch.sos.len(), s.zi0.up(), s.zi1.up(), want[i].0, want[i].1);
        }
    }
    (g, peak)
}
fn run<F: FastPaths>(c: &mut Choices) {
    let mut ch: Chan<F> = Chan::gen(c, 0, 0);
    if c.chance(350) {
        ch.narrow(c);
    }
    if c.chance(300) {
        ch.concentrate(c);
    }
    let front = ch.rf.front;
    let integer = c.chance(400);
    ch.integer = integer;
    let phases = c.us(1, 4);
    for ph in 0..phases {
        c.open();
        // whatever streamed before the drop-out
        if ph > 0 || c.chance(400) {
            let n = c.us(0, 60);
            let ds = c.seed();
            let style = if integer { 3 } else { c.draw(7) as u8 };
            ch.data = vecf(&signal(style, ds, n, 1.0));
            ch.pos = 0;
            ch.rf = Ref::new(&ch.sos, front);
            while ch.left() > 0 {
                let k = c.us(1, ch.left());
                let e = c.draw(ENTRIES);
                ch.feed(c, k, e);
            }
            fault("drop-out-then-re-prime");
            probe("re-primed-mid-stream");
        }
        let when = if ph == 0 { "at stream start" } else { "after a drop-out" };
        let (g, peak) = reprime(c, &mut ch, front, when);
        let level = if integer { c.us(0, 200) as f64 - 100.0 } else { c.pick(&[1.0, -2.5, 1e-5, 3e4, 0.0, 77.7]) };
        let lv = F::of(level);
        for s in &mut ch.sos {
            s.zi0 = s.zi0 * lv;
            s.zi1 = s.zi1 * lv;
        }
        let n = c.len(6, 40, 300);
        ev!("primed {when}: {} sections, level {level}, {n} samples, DC gain {g:e}", ch.sos.len());
        let want = g * lv.up();
        let tol = if F::F32 { 3e-3 } else { 1e-9 } * peak * lv.up().abs();
        let mut at = 0;
        while at < n {
            let k = c.us(1, n - at);
            let e = c.draw(ENTRIES);
            for y in constant(c, &mut ch, lv, k, e) {
                if !((y.up() - want).abs() <= tol) {
                    violate!("start-up-transient", "{} sections primed {when} for level {level}: output {at} is {:e}, the DC gain times the level is {want:e} (tolerance {tol:e})", ch.sos.len(), y.up());
                }
                at += 1;
            }
            nontrivial();
        }
        simrt::sig(simrt::mix(ch.sos.len() as u64, n as u64));
        c.close();
    }
}
fn constant<F: FastPaths>(c: &mut Choices, ch: &mut Chan<F>, lv: F, k: usize, e: u64) -> Vec<F> {
    let d = vec![lv; k];
    simrt::op();
    let s = &mut ch.sos;
    let v: Vec<F> = match e {
        0 | 1 => sosfilt_dyn(&d, s),
        2 | 3 => sosfilt_st(d.iter(), s).collect(),
        4 | 5 => d.iter().map(|x| sosfilt_item(*x, s)).collect(),
        6..=8 => {
            let mut z = vec![F::of(f64::NAN); k];
            if F::fast(&d, s, &mut z) {
                z
            } else {
                sosfilt_dyn(d, s)
            }
        }
        _ => {
            let mut z = vec![F::of(f64::NAN); k];
            let kind = c.draw(4);
            if ch.integer && F::ifast(kind, 0, &d, s, &mut z) {
                z
            } else {
                sosfilt_dyn(d, s)
            }
        }
    };
    ev!("  {k} samples at the level through entry {e}");
    if v.len() != k {
        violate!("output-count", "{} outputs for {k} samples", v.len());
    }
    v
}
/// The direct-form initial state of a filter of any order.
fn direct<F: Fl>(c: &mut Choices) {
    let m = if c.chance(150) { c.us(2, 48) } else { c.us(2, if F::F32 { 7 } else { 12 }) };
    let mut r = Rng::new(c.seed());
    let a0 = c.pick(&[1.0, 2.0, -0.5, 10.0]);
    // denominators with all roots inside: sum |a_k| < 1
    let b: Vec<F> = (0..m).map(|i| F::of(if r.below(5) == 0 && i > 0 { 0.0 } else { a0 * r.unit() })).collect();
    let mut a: Vec<F> = (0..m).map(|_| F::of(a0 * 0.9 * r.unit() / m as f64)).collect();
    a[0] = F::of(a0);
    let mut b = b;
    if m >= 3 && c.chance(300) {
        // a narrow section in front of a short tail of zeros
        let (nb, na) = narrow(&mut r, F::F32);
        for i in 0..m {
            b[i] = F::of(a0 * nb.get(i).copied().unwrap_or(0.0));
            a[i] = F::of(a0 * na.get(i).copied().unwrap_or(0.0));
        }
    }
    let zi = lfilter_zi_dyn(&b, &a);
    simrt::op();
    nontrivial();
    ev!("lfilter_zi_dyn of order {} ({}), a0 {a0}", m - 1, if F::F32 { "f32" } else { "f64" });
    simrt::sig(simrt::mix(m as u64, 3));
    if zi.len() != m - 1 {
        violate!("wrong-steady-state", "lfilter_zi_dyn of order {}: {} delay values", m - 1, zi.len());
    }
    let level = c.pick(&[1.0, -3.0, 250.0]);
    let (b, a): (Vec<f64>, Vec<f64>) = (b.iter().map(|v| v.up() / a[0].up()).collect(), a.iter().map(|v| v.up() / a[0].up()).collect());
    let g = b.iter().sum::<f64>() / a.iter().sum::<f64>();
    let mut z: Vec<f64> = zi.iter().map(|v| v.up() * level).collect();
    let scale = level.abs() * (1.0 + g.abs() + b.iter().map(|v| v.abs()).sum::<f64>());
    for i in 0..64 {
        let y = b[0] * level + z[0];
        for k in 0..m - 1 {
            let nx = if k + 1 < m - 1 { z[k + 1] } else { 0.0 };
            z[k] = b[k + 1] * level - a[k + 1] * y + nx;
        }
        if !((y - g * level).abs() <= F::TOL * scale) {
            violate!("start-up-transient", "direct-form state from lfilter_zi_dyn, order {}: output {i} is {y:e}, the DC gain times the level is {:e}", m - 1, g * level);
        }
    }
}
pub fn body(c: &mut Choices) {
    match (c.chance(850), c.chance(450)) {
        (true, true) => run::<f32>(c),
        (true, false) => run::<f64>(c),
        (false, true) => direct::<f32>(c),
        (false, false) => direct::<f64>(c),
    }
}
