//! Float abstraction and signal/filter generators (pure functions of a seed).
use nalgebra::RealField;
use simrt::Rng;
use sci_rs::signal::filter::design::Sos;
use std::iter::Sum;

pub trait Fl: RealField + num_traits::Float + rustfft::FftNum + Copy + Sum + Default + core::fmt::Debug + 'static {
    const F32: bool;
    /// relative rounding allowance of a well-conditioned routine
    const TOL: f64;
    fn of(x: f64) -> Self;
    fn up(self) -> f64;
    fn bits(self) -> u64;
}
impl Fl for f64 {
    const F32: bool = false;
    const TOL: f64 = 1e-9;
    fn of(x: f64) -> f64 {
        x
    }
    fn up(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        if self.is_nan() {
            0x7ff8_0000_0000_0000
        } else {
            self.to_bits()
        }
    }
}
impl Fl for f32 {
    const F32: bool = true;
    const TOL: f64 = 2e-3;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn up(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        if self.is_nan() {
            0x7fc0_0000
        } else {
            self.to_bits() as u64
        }
    }
}

/// Sample styles: 0 noise, 1 sine+noise, 2 steps, 3 integers (-100..=100),
/// 4 offset noise, 5 impulses, 6 mixed magnitudes, 7 constant, 8 ramp
pub fn signal(style: u8, seed: u64, n: usize, scale: f64) -> Vec<f64> {
    let mut r = Rng::new(seed ^ 0xabc);
    let f = 0.01 + 0.4 * (r.unit() + 1.0) / 2.0;
    let off = r.unit() * 100.0;
    let mut lvl = r.unit();
    (0..n)
        .map(|i| {
            scale
                * match style {
                    0 => r.unit(),
                    1 => (f * i as f64 * 6.28).sin() + 0.3 * r.unit(),
                    2 => {
                        if r.below(9) == 0 {
                            lvl = 2.0 * r.unit()
                        }
                        lvl
                    }
                    3 => (r.below(201) as f64) - 100.0,
                    4 => off + r.unit(),
                    5 => {
                        if r.below(12) == 0 {
                            4.0 * r.unit()
                        } else {
                            0.0
                        }
                    }
                    6 => r.unit() * [1.0, 1e-3, 30.0][r.below(3) as usize],
                    8 => i as f64 * 0.25 - 7.0,
                    _ => off,
                }
        })
        .collect()
}

/// A stable biquad with peak gain about 1.  kind: 0 general, 1 first order
/// (b2 = a2 = 0), 2 real poles, 3 FIR section, 4 b2 = 0 only, 5 pure gain,
/// 6 pure delay; now and then a numerator as filter design gives it
/// (1 2 1, 1 -2 1, 1 0 -1, 1 -1 0, 1 1 0)
pub fn biquad(r: &mut Rng, rmax: f64) -> ([f64; 3], [f64; 3]) {
    let kind = [0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 6][r.below(18) as usize];
    let (a1, a2);
    match kind {
        1 => {
            a1 = r.unit() * rmax * 0.9;
            a2 = 0.0;
        }
        2 => {
            let (p, q) = (r.unit() * 0.9 * rmax, r.unit() * 0.9 * rmax);
            a1 = -(p + q);
            a2 = p * q;
        }
        3 | 5 | 6 => {
            a1 = 0.0;
            a2 = 0.0;
        }
        _ => {
            let rad = rmax * (r.unit() + 1.0) / 2.0;
            let th = 3.1 * (r.unit() + 1.0) / 2.0;
            a1 = -2.0 * rad * th.cos();
            a2 = rad * rad;
        }
    }
    let mut b = [0.3 + r.unit().abs(), r.unit(), r.unit()];
    if r.below(4) == 0 {
        b = match kind {
            1 | 4 => [[1.0, 1.0, 0.0], [1.0, -1.0, 0.0]][r.below(2) as usize],
            _ => [[1.0, 2.0, 1.0], [1.0, -2.0, 1.0], [1.0, 0.0, -1.0], [1.0, 1.0, 0.0]][r.below(4) as usize],
        };
    }
    match kind {
        1 | 4 => b[2] = 0.0,
        5 => b = [if r.below(3) == 0 { 1.0 } else { b[0] }, 0.0, 0.0],
        6 => b = [0.0, 1.0, 0.0],
        _ => {}
    }
    let s = b.iter().map(|x| x.abs()).sum::<f64>();
    // peak gain of 1/A is at most 1/min|A(e^jw)|; sample it
    let mut amin = f64::MAX;
    for i in 0..33 {
        let w = i as f64 * std::f64::consts::PI / 32.0;
        let re = 1.0 + a1 * w.cos() + a2 * (2.0 * w).cos();
        let im = -a1 * w.sin() - a2 * (2.0 * w).sin();
        amin = amin.min((re * re + im * im).sqrt());
    }
    let g = 1.1 * amin.max(0.02) / s;
    ([b[0] * g, b[1] * g, b[2] * g], [1.0, a1, a2])
}
/// A section with poles close to z = 1 (a narrow low-pass or DC blocker), as
/// close as the precision leaves its steady state well defined.
pub fn narrow(r: &mut Rng, single: bool) -> ([f64; 3], [f64; 3]) {
    let lim = if single { 2e-3 } else { 1e-5 };
    let u = |r: &mut Rng| 10f64.powf(-(0.3 + (if single { 0.9 } else { 2.2 }) * (r.unit() + 1.0) / 2.0));
    let (a1, a2) = match r.below(3) {
        0 => (-(1.0 - u(r)), 0.0),
        1 => {
            let (p, q) = (1.0 - u(r), 1.0 - u(r));
            (-(p + q), p * q)
        }
        _ => {
            let (d, th) = (u(r), u(r));
            let rad = 1.0 - d;
            (-2.0 * rad * th.cos(), rad * rad)
        }
    };
    let dc = 1.0 + a1 + a2;
    if dc < lim {
        return narrow(r, single);
    }
    let b = match (a2 == 0.0, r.below(4)) {
        (true, 0) => [0.5, -0.5, 0.0],
        (true, _) => [dc / 2.0, dc / 2.0, 0.0],
        (false, 0) => [0.25, -0.5, 0.25],
        (false, 1) => [dc, 0.0, 0.0],
        _ => [dc / 4.0, dc / 2.0, dc / 4.0],
    };
    (b, [1.0, a1, a2])
}
pub fn sections(seed: u64, n: usize, rmax: f64) -> Vec<([f64; 3], [f64; 3])> {
    let mut r = Rng::new(seed ^ 0x505);
    (0..n).map(|_| biquad(&mut r, rmax)).collect()
}
pub fn to_sos<F: Fl>(s: &[([f64; 3], [f64; 3])]) -> Vec<Sos<F>> {
    s.iter().map(|(b, a)| Sos::new(b.map(F::of), a.map(F::of))).collect()
}
pub fn vecf<F: Fl>(x: &[f64]) -> Vec<F> {
    x.iter().map(|v| F::of(*v)).collect()
}
pub fn sos_bits<F: Fl>(s: &[Sos<F>], out: &mut Vec<u64>) {
    for x in s {
        for v in x.b.iter().chain(&x.a).chain([&x.zi0, &x.zi1]) {
            out.push(v.bits());
        }
    }
}
