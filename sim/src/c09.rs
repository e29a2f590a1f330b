//! C09: stream statistics equal their definitions over what was delivered.
use crate::num::*;
use crate::source::*;
use crate::with_src;
use sci_rs::stats::*;
use simrt::{ev, fault, nontrivial, probe, violate, Choices, Rng};

/// Definitions in f64 over the samples as the library sees them.
struct Def {
    x: Vec<f64>,
    mean: f64,
    mabs: f64,
    max: f64,
    var: f64,
}
fn ksum(it: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for v in it {
        let t = s + v;
        c += if s.abs() >= v.abs() { (s - t) + v } else { (v - t) + s };
        s = t;
    }
    s + c
}
fn med(v: &[f64]) -> f64 {
    let mut s = v.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n == 0 {
        0.0
    } else if n % 2 == 1 {
        s[n / 2]
    } else {
        0.5 * s[n / 2 - 1] + 0.5 * s[n / 2]
    }
}
impl Def {
    fn new(x: Vec<f64>) -> Def {
        let n = x.len().max(1) as f64;
        let mean = ksum(x.iter().copied()) / n;
        let mabs = ksum(x.iter().map(|v| v.abs())) / n;
        let max = x.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
        let var = ksum(x.iter().map(|v| (v - mean) * (v - mean))) / n;
        Def { x, mean, mabs, max, var }
    }
    fn n(&self) -> f64 {
        self.x.len() as f64
    }
    /// worst-case error of a mean computed by any order of plain summation
    fn mean_err(&self, eps: f64) -> f64 {
        (self.n() + 4.0) * eps * self.mabs
    }
    /// of any backward-stable variance: two passes, or one updating pass
    /// (relative error n eps sqrt(1 + mean^2 / var)); not of sum of squares
    /// minus squared mean (that one has 1 + mean^2 / var)
    fn var_err(&self, eps: f64) -> f64 {
        let m = self.mean_err(eps) + 2.0 * eps * self.max;
        let two = 2.0 * (self.n() + 8.0) * eps * self.var + 2.0 * m * m + 4.0 * m * eps.sqrt() * self.var.sqrt();
        two + 2.0 * (self.n() + 8.0) * eps * self.var.sqrt() * (self.var + self.mean * self.mean).sqrt()
    }
    fn autocov(&self, k: usize) -> f64 {
        let x = &self.x;
        if k >= x.len() {
            return 0.0;
        }
        ksum((0..x.len() - k).map(|i| (x[i] - self.mean) * (x[i + k] - self.mean))) / self.n()
    }
}
fn eps<F: Fl>() -> f64 {
    if F::F32 {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}
fn cmp(what: &str, at: &str, got: f64, want: f64, tol: f64, n: usize) {
    if !((got - want).abs() <= tol) {
        violate!("value-mismatch", "{what} of {n} samples{at}: got {got:e}, the definition gives {want:e} (allowed rounding {tol:e})");
    }
}
fn count(what: &str, got: usize, n: usize) {
    if got != n {
        violate!("count-mismatch", "{what}: reports {got} samples, the source delivered {n}");
    }
}
/// Contents that stress order, ties, offsets and cancellation.
fn contents(c: &mut Choices, n: usize) -> Vec<f64> {
    let s = c.seed();
    let mut r = Rng::new(s);
    match c.draw(8) {
        0 => signal((s % 7) as u8, s, n, 1.0),
        1 => {
            // few distinct values: ties
            let m = 1 + r.below(4);
            (0..n).map(|_| r.below(m + 1) as f64 - 1.0).collect()
        }
        2 => {
            // sorted either way, with plateaus
            let up = r.below(2) == 0;
            let p = 1 + r.below(3) as i64 + n as i64 / 300; // selection from a ramp is quadratic
            (0..n as i64).map(|i| (if up { i } else { n as i64 - i } / p) as f64 * 0.25 - 3.0).collect()
        }
        3 => {
            // offset far larger than the spread
            let off = [1e3, -3e4, 1e5][r.below(3) as usize];
            (0..n).map(|_| off + 3.0 * r.unit()).collect()
        }
        4 => (0..n).map(|_| r.unit() * [1e-12, 1.0, 1e12][r.below(3) as usize]).collect(),
        5 => (0..n).map(|_| (r.below(2001) as f64) - 1000.0).collect(),
        6 => {
            // heavy tails, one huge outlier
            let at = r.below(n.max(1) as u64) as usize;
            (0..n).map(|i| if i == at { 1e6 } else { r.unit() }).collect()
        }
        _ => signal(1, s, n, [1e-9, 1.0, 1e7][r.below(3) as usize]),
    }
}
fn length(c: &mut Choices) -> usize {
    match c.weighted(&[50, 30, 15, 5]) {
        0 => c.us(0, 9),
        1 => c.us(0, 70),
        2 => c.us(0, 700),
        _ => {
            let d = c.draw(1000);
            if d >= 990 {
                c.us(129_000, 140_000)
            } else if d >= 880 {
                c.us(60_000, 70_000)
            } else {
                c.us(700, 6_000)
            }
        }
    }
}
fn floats<F: Fl>(c: &mut Choices) {
    let n = length(c);
    let raw = contents(c, n);
    let d: Vec<F> = vecf(&raw);
    let df = Def::new(d.iter().map(|v| v.up()).collect());
    let e = eps::<F>();
    let calls = if n > 10_000 { 2 } else { c.us(1, 4) };
    for _ in 0..calls {
        let hint = c.pick(&LEGAL);
        if hint != Hint::Exact {
            fault("inexact-size-hint");
        }
        let mut ctl = Ctl::new(hint);
        ctl.tick = 2_000;
        let item = c.draw(3) as u8;
        let core = Core::new(&d, n, &ctl);
        let which = c.draw(11);
        simrt::op();
        simrt::sig(simrt::mix(which, n as u64));
        let nm = ["mean", "variance", "stdev", "median", "median_abs_deviation", "autocorr", "lag_diff", "rmssd", "zscore", "mod_zscore", "autocorr"][which as usize];
        ev!("{nm} over {n} {} samples, items {item}, hint {hint:?}", if F::F32 { "f32" } else { "f64" });
        nontrivial();
        macro_rules! cnt {
            ($f:ident) => {{
                let (v, k): (F, usize) = with_src!(item, core, it => $f(it));
                count(nm, k, n);
                if n == 0 && v.up() != 0.0 {
                    violate!("value-mismatch", "{nm} of an empty stream is {:e}, expected zero", v.up());
                }
                v.up()
            }};
        }
        match which {
            0 => cmp(nm, "", cnt!(mean), df.mean, df.mean_err(e), n),
            1 => cmp(nm, "", cnt!(variance), df.var, df.var_err(e), n),
            2 => {
                let v = cnt!(stdev);
                let t = df.var_err(e);
                let lo = (df.var - t).max(0.0).sqrt() * (1.0 - 4.0 * e);
                let hi = (df.var + t).sqrt() * (1.0 + 4.0 * e);
                if !(v >= lo && v <= hi) {
                    violate!("value-mismatch", "stdev of {n} samples: got {v:e}, the definition gives {:e}", df.var.sqrt());
                }
            }
            3 => {
                let v = cnt!(median);
                let m = med(&df.x);
                cmp(nm, "", v, m, if n % 2 == 1 { 0.0 } else { 2.0 * e * df.max }, n);
            }
            4 => {
                let v = cnt!(median_abs_deviation);
                let m = med(&df.x);
                let dev: Vec<f64> = df.x.iter().map(|x| (x - m).abs()).collect();
                cmp(nm, "", v, med(&dev), 8.0 * e * df.max, n);
            }
            5 | 10 => {
                let k = if c.chance(150) { c.us(0, n + 3) } else { c.us(0, 12.min(n + 1)) };
                let v: F = with_src!(item, core, it => autocorr(it, k));
                let ve = df.var_err(e);
                if n > 0 && df.var > 1e-30 && ve < 0.05 * df.var {
                    let cov = df.autocov(k);
                    let me = df.mean_err(e) + 2.0 * e * df.max;
                    // |delta| averages at most sqrt(var)
                    let ce = 2.0 * (df.n() + 8.0) * e * df.var + 2.0 * me * df.var.sqrt() + me * me;
                    cmp(nm, &format!(", lag {k}"), v.up(), cov / df.var, 2.0 * (ce + ve) / df.var + 1e-30, n);
                    if k >= n {
                        probe("lag-beyond-stream");
                    }
                }
            }
            6 => {
                let v: Vec<F> = with_src!(item, core, it => lag_diff::<_, F>(it).collect());
                count(nm, v.len(), n.saturating_sub(1));
                for (i, y) in v.iter().enumerate() {
                    cmp(nm, &format!(", output {i}"), y.up(), df.x[i + 1] - df.x[i], 2.0 * e * (df.x[i].abs() + df.x[i + 1].abs()), n);
                }
            }
            7 => {
                let v: F = with_src!(item, core, it => rmssd(it));
                if n >= 2 {
                    let sq: Vec<f64> = df.x.windows(2).map(|w| (w[1] - w[0]) * (w[1] - w[0])).collect();
                    let w = (ksum(sq.iter().copied()) / sq.len() as f64).sqrt();
                    cmp(nm, "", v.up(), w, (df.n() + 8.0) * e * w + 4.0 * e * df.max, n);
                }
            }
            8 => {
                let v: Vec<F> = with_src!(item, core, it => zscore::<_, F>(it).collect());
                count(nm, v.len(), n);
                let ve = df.var_err(e);
                if n > 0 && df.var > 1e-30 && ve < 0.05 * df.var {
                    let sd = df.var.sqrt();
                    let me = df.mean_err(e) + 2.0 * e * df.max;
                    for (i, y) in v.iter().enumerate() {
                        let w = (df.x[i] - df.mean) / sd;
                        cmp(nm, &format!(", output {i}"), y.up(), w, 2.0 * (me / sd + w.abs() * (ve / df.var + 8.0 * e)) + 4.0 * e, n);
                    }
                }
            }
            _ => {
                let v: Vec<F> = with_src!(item, core, it => mod_zscore::<_, F>(it).collect());
                count(nm, v.len(), n);
                let m = med(&df.x);
                let dev: Vec<f64> = df.x.iter().map(|x| (x - m).abs()).collect();
                let mad = med(&dev);
                let de = 8.0 * e * df.max;
                if n > 0 && mad > 1e-30 && de < 0.05 * mad {
                    for (i, y) in v.iter().enumerate() {
                        let w = 0.6745 * (df.x[i] - m) / mad;
                        cmp(nm, &format!(", output {i}"), y.up(), w, 2.0 * (de / mad + w.abs() * (de / mad + 8.0 * e)), n);
                    }
                }
            }
        }
    }
}
/// Integer streams: exact up to the rounding of the final division.
fn ints(c: &mut Choices) {
    let n = length(c);
    let s = c.seed();
    let mut r = Rng::new(s);
    let m = c.pick(&[3u64, 200, 10_001]);
    let d: Vec<i64> = (0..n).map(|_| r.below(m) as i64 - (m / 2) as i64).collect();
    let ctl = Ctl::new(c.pick(&LEGAL));
    let item = c.draw(3) as u8;
    let as32 = c.chance(500);
    let d32: Vec<i32> = d.iter().map(|v| *v as i32).collect();
    let f: Vec<f64> = d.iter().map(|v| *v as f64).collect();
    let df = Def::new(f);
    nontrivial();
    simrt::op();
    let mid = c.chance(500);
    let nm = if mid { "integer median" } else { "integer mean" };
    ev!("{nm} over {n} samples, items {item}, {:?}", ctl.hint);
    simrt::sig(simrt::mix(77 + mid as u64, n as u64));
    let (v, k): (i64, usize) = if as32 {
        let core = Core::new(&d32, n, &ctl);
        let (v, k): (i32, usize) = if mid { with_src!(item, core, it => median(it)) } else { with_src!(item, core, it => mean(it)) };
        (v as i64, k)
    } else {
        let core = Core::new(&d, n, &ctl);
        if mid {
            with_src!(item, core, it => median(it))
        } else {
            with_src!(item, core, it => mean(it))
        }
    };
    count(nm, k, n);
    let w = if mid { med(&df.x) } else { df.mean };
    let exact = mid && n % 2 == 1 || n == 0;
    // integer division: within one of the exact value, exact if it is an integer
    cmp(nm, "", v as f64, w, if exact || (w - w.round()).abs() < 1e-12 { 1e-9 } else { 1.0 - 1e-12 }, n);
}
fn fill<const N: usize>(c: &mut Choices) -> Box<[f32; N]> {
    let raw = contents(c, N);
    let mut y = Box::new([0f32; N]);
    for i in 0..N {
        y[i] = raw[i] as f32;
    }
    y
}
fn auto<const N: usize, const M: usize, const S: usize>(c: &mut Choices) {
    let mut y: Box<[f32; N]> = fill(c);
    let df = Def::new(y.iter().map(|v| *v as f64).collect());
    let mut x = Box::new([f32::NAN; M]);
    ev!("autocorr_fast32 of a window of {N}, {M} lags from {S}");
    simrt::sig(simrt::mix(N as u64, (M * 1000 + S) as u64));
    simrt::op();
    nontrivial();
    let v = autocorr_fast32::<N, M, S>(&mut y, &mut x);
    let e = f32::EPSILON as f64;
    cmp("autocorr_fast32 (returned variance)", "", v as f64, df.var, df.var_err(e), N);
    let me = df.mean_err(e) + 2.0 * e * df.max;
    for i in 0..N {
        cmp("autocorr_fast32 (mean removal)", &format!(", sample {i}"), y[i] as f64, df.x[i] - df.mean, me, N);
    }
    let sd = (df.var * N as f64).sqrt();
    for (i, xi) in x.iter().enumerate() {
        let k = S + i;
        let want = df.autocov(k) * N as f64;
        let tol = (N as f64 + 8.0) * e * sd * sd + 2.0 * me * (N as f64).sqrt() * sd + N as f64 * me * me;
        cmp("autocorr_fast32", &format!(", lag {k}"), *xi as f64, want, 2.0 * tol + 1e-30, N);
    }
}
fn rms<const N: usize>(c: &mut Choices) {
    let y: Box<[f32; N]> = fill(c);
    ev!("rms_fast32 of a window of {N}");
    simrt::sig(simrt::mix(N as u64, 5));
    simrt::op();
    nontrivial();
    let v = rms_fast32(&y);
    let want = (ksum(y.iter().map(|v| *v as f64 * *v as f64)) / N as f64).sqrt();
    cmp("rms_fast32", "", v as f64, want, (N as f64 + 8.0) * f32::EPSILON as f64 * want, N);
}
fn windows(c: &mut Choices) {
    match c.draw(34) {
        0 => auto::<1, 1, 0>(c),
        1 => auto::<2, 1, 1>(c),
        2 => auto::<3, 2, 1>(c),
        3 => auto::<4, 4, 0>(c),
        4 => auto::<5, 3, 2>(c),
        5 => auto::<6, 6, 0>(c),
        6 => auto::<7, 4, 1>(c),
        7 => auto::<8, 5, 3>(c),
        8 => auto::<9, 4, 0>(c),
        9 => auto::<11, 8, 3>(c),
        10 => auto::<13, 13, 0>(c),
        11 => auto::<16, 9, 4>(c),
        12 => auto::<17, 10, 7>(c),
        13 => auto::<31, 20, 7>(c),
        14 => auto::<50, 40, 10>(c),
        15 => auto::<64, 20, 2>(c),
        16 => auto::<99, 33, 30>(c),
        17 => auto::<150, 60, 89>(c),
        18 => auto::<256, 17, 100>(c),
        19 => auto::<257, 30, 5>(c),
        20 => auto::<12, 0, 4>(c),
        21 => auto::<10, 3, 7>(c),
        22 => rms::<1>(c),
        23 => rms::<2>(c),
        24 => rms::<3>(c),
        25 => rms::<4>(c),
        26 => rms::<5>(c),
        27 => rms::<8>(c),
        28 => rms::<11>(c),
        29 => rms::<31>(c),
        30 => rms::<32>(c),
        31 => rms::<130>(c),
        32 => rms::<1000>(c),
        _ => rms::<1001>(c),
    }
}
pub fn body(c: &mut Choices) {
    let rounds = c.us(1, 4);
    for _ in 0..rounds {
        c.open();
        match c.weighted(&[4, 4, 2, 3]) {
            0 => floats::<f32>(c),
            1 => floats::<f64>(c),
            2 => ints(c),
            _ => windows(c),
        }
        c.close();
    }
}
