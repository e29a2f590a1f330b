//! C07: no hostile source or length makes the library touch memory it does
//! not own.  Every heap block of a run ends (or starts) at an unmapped page,
//! freed blocks become unmapped, and each call is executed twice over
//! differently poisoned memory.
use crate::calls::*;
use crate::num::*;
use crate::source::*;
use crate::with_src;
use nalgebra::{Complex, DMatrix};
use sci_rs::linalg::companion_dyn;
use sci_rs::signal::convolve::*;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::signal::resample::resample;
use sci_rs::signal::wave::square;
use sci_rs::stats::*;
use simrt::{alloc, ev, fault, nontrivial, probe, violate, Choices, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug)]
struct H {
    kind: u8,
    f32: bool,
    n: usize,
    n2: usize,
    nsec: usize,
    a: usize,
    b: usize,
    o: Option<usize>,
    item: u8,
    m: u8,
    seed: u64,
    weird: bool,
    /// unwind at this pull
    cut: Option<u64>,
    hint: Hint,
    resumes: bool,
}
const HK: u8 = 22;
#[inline(never)]
fn paint(b: u8) {
    let mut a = [0u8; 48 << 10];
    for x in a.iter_mut() {
        unsafe { core::ptr::write_volatile(x, b) };
    }
    core::hint::black_box(&a);
}
fn vals<F: Fl>(h: &H, n: usize, salt: u64) -> Vec<F> {
    let mut v = signal((h.seed % 8) as u8, h.seed ^ salt, n, 1.0);
    if h.weird && n > 0 {
        let mut r = Rng::new(h.seed ^ 0x3e);
        for _ in 0..3 {
            let i = r.below(n as u64) as usize;
            v[i] = [f64::NAN, f64::INFINITY, -0.0, 0.0, 1e300, -1e-320][r.below(6) as usize];
        }
    }
    vecf(&v)
}
fn fin<F: Fl>(o: &mut Vec<u64>, v: &[F]) {
    o.push(v.len() as u64);
    o.extend(v.iter().map(|x| x.bits()));
}
fn call<F: Fl>(h: &H) -> Vec<u64> {
    let mut o = vec![];
    let d: Vec<F> = vals(h, h.n, 1);
    let mut ctl = Ctl::new(h.hint);
    ctl.resumes = h.resumes;
    if let Some(k) = h.cut {
        ctl.panic_at.set(k);
    }
    let end = if h.resumes { h.n / 2 } else { h.n };
    let core = Core::new(&d, end, &ctl);
    let sos = || -> Vec<Sos<F>> { to_sos(&sections(h.seed, h.nsec, 0.9)) };
    let band = |m: u8| [FilterBandType::Lowpass, FilterBandType::Highpass, FilterBandType::Bandpass, FilterBandType::Bandstop][m as usize % 4];
    match h.kind {
        0 => {
            let mut s = sos();
            let v = with_src!(h.item, core, it => sosfilt_dyn(it, &mut s));
            fin(&mut o, &v);
            sos_bits(&s, &mut o);
        }
        1 => {
            let s = sos();
            let v = with_src!(h.item, core, it => sosfiltfilt_dyn(it, &s));
            fin(&mut o, &v);
        }
        2 => {
            let v = with_src!(h.item, core, it => savgol_filter_dyn(it, h.a, h.b, h.o, if h.weird { Some(F::of(0.0)) } else { None }));
            fin(&mut o, &v);
        }
        3 => {
            let v = savgol_coeffs_dyn::<F>(h.a, h.b, h.o, None);
            fin(&mut o, &v);
        }
        4 => {
            let m = with_src!(h.item, core, it => companion_dyn::<F, _, _>(it, h.a));
            fin(&mut o, m.as_slice());
        }
        5 => {
            let b: Vec<F> = vals(h, h.n, 2);
            let mut a: Vec<F> = vals(h, h.n2, 3);
            for x in a.iter_mut().take(h.a % 4) {
                *x = F::of(0.0);
            }
            fin(&mut o, &lfilter_zi_dyn(&b, &a));
        }
        6 => {
            let (r, k) = (h.n % 40, h.n2 % 5);
            let x = DMatrix::<F>::from_fn(r, k, |i, j| d.get(i * 3 + j).copied().unwrap_or(F::of(1.0)));
            let m = odd_ext_dyn(x, h.a, h.b);
            fin(&mut o, m.as_slice());
        }
        7 => {
            let (r, k) = (h.n % 40, h.n2 % 5);
            let x = DMatrix::<F>::from_fn(r, k, |i, j| d.get(i * 3 + j).copied().unwrap_or(F::of(1.0)));
            let t = match h.m % 4 {
                0 => Pad::None,
                1 => Pad::Even,
                2 => Pad::Constant,
                _ => Pad::Odd,
            };
            let (e, m) = pad(t, h.o, x, h.b, h.a);
            o.push(e as u64);
            fin(&mut o, m.as_slice());
        }
        8 => {
            // statistics
            macro_rules! cnt {
                ($f:ident) => {{
                    let (v, k): (F, usize) = with_src!(h.item, core, it => $f(it));
                    fin(&mut o, &[v]);
                    o.push(k as u64);
                }};
            }
            match h.m % 10 {
                0 => cnt!(mean),
                1 => cnt!(variance),
                2 => cnt!(stdev),
                3 => cnt!(median),
                4 => cnt!(median_abs_deviation),
                5 => {
                    let k = if h.weird { usize::MAX - h.a } else { h.a };
                    let v: F = with_src!(h.item, core, it => autocorr(it, k));
                    fin(&mut o, &[v]);
                }
                6 => {
                    let v: Vec<F> = with_src!(h.item, core, it => lag_diff::<_, F>(it).collect());
                    fin(&mut o, &v);
                }
                7 => {
                    let v: F = with_src!(h.item, core, it => rmssd(it));
                    fin(&mut o, &[v]);
                }
                8 => {
                    let v: Vec<F> = with_src!(h.item, core, it => zscore::<_, F>(it).collect());
                    fin(&mut o, &v);
                }
                _ => {
                    let v: Vec<F> = with_src!(h.item, core, it => mod_zscore::<_, F>(it).collect());
                    fin(&mut o, &v);
                }
            }
        }
        9 => {
            let e: Vec<F> = vals(h, h.n2, 5);
            let md = match h.m % 3 {
                0 => ConvolveMode::Full,
                1 => ConvolveMode::Valid,
                _ => ConvolveMode::Same,
            };
            let v = if h.m < 8 { convolve(&d, &e, md) } else { correlate(&d, &e, md) };
            fin(&mut o, &v);
        }
        10 => fin(&mut o, &resample(&d, h.n2)),
        11 => {
            let s: Vec<Sos<F>> = Sos::from_scipy_dyn(h.a, vals(h, h.n2, 6));
            sos_bits(&s, &mut o);
        }
        12 => {
            let t = ndarray::Array2::from_shape_fn((h.n % 9, h.n2 % 9), |(i, j)| d.get(i + j).copied().unwrap_or(F::of(0.1)));
            let v = square(&t, F::of(if h.weird { f64::NAN } else { (h.a % 11) as f64 / 10.0 }));
            fin(&mut o, v.as_slice().unwrap());
        }
        13 | 14 => {
            let mut r = Rng::new(h.seed);
            let k = h.n % 4;
            let mut wn: Vec<F> = (0..k).map(|_| F::of((r.unit() + 1.0) / if h.weird { 1.5 } else { 2.1 })).collect();
            if h.m < 18 {
                wn.sort_by(|a, b| a.up().partial_cmp(&b.up()).unwrap());
            }
            let out = [FilterOutputType::Sos, FilterOutputType::Ba, FilterOutputType::Zpk][h.n2 % 3];
            let f = if h.kind == 13 {
                butter_dyn(h.a % 13, wn, Some(band(h.m)), Some(h.m > 20), Some(out), None)
            } else {
                cheby1_dyn(h.a % 13, F::of(r.unit() * 10.0), wn, Some(band(h.m)), Some(h.m > 20), Some(out), h.o.map(|x| F::of(x as f64)))
            };
            match f {
                DigitalFilter::Ba(x) => {
                    fin(&mut o, &x.b);
                    fin(&mut o, &x.a);
                }
                DigitalFilter::Zpk(x) => o.push(x.k.bits()),
                DigitalFilter::Sos(x) => sos_bits(&x.sos, &mut o),
            }
        }
        15 => {
            // root sets of any shape, paired or not
            let mut r = Rng::new(h.seed);
            let mut roots = |n: usize, paired: bool| -> Vec<Complex<F>> {
                let mut v = vec![];
                while v.len() < n {
                    let z = Complex::new(F::of(r.unit()), F::of(if r.below(3) == 0 { 0.0 } else { r.unit() }));
                    v.push(z);
                    if paired && z.im != F::of(0.0) && v.len() < n {
                        v.push(Complex::new(z.re, -z.im));
                    }
                }
                v
            };
            let (z, p) = (roots(h.a % 9, h.m % 3 != 0), roots(h.b % 9, h.m % 5 != 0));
            match h.m % 6 {
                0 => {
                    let t = zpk2tf_dyn(h.n % 10, &z, &p, F::of(1.5));
                    fin(&mut o, &t.b);
                    fin(&mut o, &t.a);
                }
                1 => {
                    let t = zpk2sos_dyn(h.n % 10, ZpkFormatFilter::new(z, p, F::of(1.5)), None, None);
                    sos_bits(&t.sos, &mut o);
                }
                2 => o.push(lp2bp_zpk_dyn(ZpkFormatFilter::new(z, p, F::of(1.5)), Some(F::of(0.7)), None).k.bits()),
                3 => o.push(lp2bs_zpk_dyn(ZpkFormatFilter::new(z, p, F::of(1.5)), Some(F::of(0.7)), None).k.bits()),
                4 => o.push(lp2hp_zpk_dyn(ZpkFormatFilter::new(z, p, F::of(1.5)), None).k.bits()),
                _ => o.push(bilinear_zpk_dyn(ZpkFormatFilter::new(z, p, F::of(1.5)), F::of(2.0)).k.bits()),
            }
        }
        16 | 17 => {
            // slices of different lengths
            let y: Vec<f32> = vals(h, h.n, 8);
            let mut z: Vec<f32> = vec![0.25; if h.weird { h.n2 } else { h.n }];
            let mut s: Vec<Sos<f32>> = to_sos(&sections(h.seed, h.nsec, 0.9));
            if h.kind == 16 {
                sosfilt_fast32_st(&y, &mut s, &mut z);
            } else {
                let y: Vec<Conv> = y.iter().map(|v| Conv { v: *v as isize, ctl: &ctl }).collect();
                ctl.borrow_panic_at.set(h.cut.unwrap_or(u64::MAX));
                sosfilt_ifast32_st(&y, &mut s, &mut z);
            }
            fin(&mut o, &z);
            sos_bits(&s, &mut o);
        }
        18 => {
            // lazy streams dropped half-way
            let mut s = sos();
            with_src!(h.item, core, it => {
                let mut l = sosfilt_st(it, &mut s);
                for _ in 0..h.a {
                    o.push(l.next().map_or(1, |v| v.bits()));
                }
                o.push(l.nth(h.b).map_or(1, |v| v.bits()));
            });
            sos_bits(&s, &mut o);
        }
        20 => special(h, &mut o),
        21 => {
            // windows shorter than the lags asked for
            let p = P { odd: 0, kind: K::Auto32, f32: true, n: 8, item: 0, style: 0, dseed: h.seed, nsec: 0, cseed: 0, zi: false, k: 0, w: 1, poly: 0, der: None, delta: None, fa: 0.1, fb: 0.5, m: 0 };
            o = match h.a % 12 {
                0 => auto::<8, 8, 4>(&p, &no_arm),
                1 => auto::<4, 2, 3>(&p, &no_arm),
                2 => auto::<5, 5, 1>(&p, &no_arm),
                3 => auto::<1, 1, 1>(&p, &no_arm),
                4 => auto::<3, 0, 9>(&p, &no_arm),
                5 => auto::<7, 16, 0>(&p, &no_arm),
                6 => auto::<16, 17, 0>(&p, &no_arm),
                7 => auto::<6, 1, 6>(&p, &no_arm),
                8 => auto::<0, 0, 0>(&p, &no_arm),
                9 => auto::<0, 1, 0>(&p, &no_arm),
                10 => auto::<9, 3, 7>(&p, &no_arm),
                _ => auto::<2, 1, 1>(&p, &no_arm),
            };
        }
        _ => {
            let p = P { odd: 0, kind: [K::Auto32, K::Rms32][h.m as usize % 2], f32: true, n: 8, item: 0, style: 0, dseed: h.seed, nsec: 0, cseed: 0, zi: false, k: 0, w: 1, poly: 0, der: None, delta: None, fa: 0.1, fb: 0.5, m: (h.a % 24) as u8 };
            o = exec(&p, &ctl, &no_arm);
        }
    }
    o
}
/// Table-driven scalar functions: a look-up outside the tables shows as a
/// value that is not the function's.
fn special(h: &H, o: &mut Vec<u64>) {
    use sci_rs::special::{Bessel, Combinatoric, Factorial};
    let x = h.n as u128 % 40;
    let k = 1 + h.a as u128 % 7;
    let fk = |x: u128, k: u128| -> Option<u128> {
        let (mut x, mut r) = (x, 1u128);
        while x > 0 {
            r = r.checked_mul(x)?;
            x = x.saturating_sub(k);
        }
        Some(r)
    };
    let mut put = |what: &str, got: u128, want: Option<u128>| {
        if let Some(w) = want {
            if got != w {
                violate!("reads-outside-its-tables", "{what} gives {got}, the function is {w}");
            }
        }
        o.extend([got as u64, (got >> 64) as u64]);
    };
    macro_rules! ty {
        ($t:ty) => {{
            let max = <$t>::MAX as u128;
            for (kk, name) in [(1, "factorial"), (2, "factorial2"), (k, "factorialk")] {
                let want = fk(x, kk).filter(|w| *w <= max);
                if x <= max && want.is_some() {
                    let v = x as $t;
                    let got = match name {
                        "factorial" => v.factorial(),
                        "factorial2" => v.factorial2(),
                        // a larger step must not overflow the type on its way
                        _ if x + kk <= max => v.factorialk(kk as $t),
                        _ => continue,
                    };
                    put(&format!("{name} of {x} (step {kk}) in {}", stringify!($t)), got as u128, want);
                }
            }
        }};
    }
    match h.m % 8 {
        0 => ty!(u128),
        1 => ty!(i64),
        2 => ty!(u32),
        3 => ty!(i8),
        4 => ty!(u8),
        5 => ty!(usize),
        6 => ty!(i16),
        _ => ty!(i128),
    }
    // combinations that fit comfortably
    let (n, k) = (h.n as u128 % 40, h.b as u128);
    let comb = |n: u128, k: u128| if k > n { 0 } else { (0..k).fold(1u128, |r, i| r * (n - i) / (i + 1)) };
    put("comb", n.comb(k), Some(comb(n, k)));
    put("perm", n.perm(k), Some(if k > n { 0 } else { (0..k).fold(1u128, |r, i| r * (n - i)) }));
    let mut row = vec![1u128];
    for i in 1..=(n as usize % 13) {
        let mut nx = vec![0u128; i + 1];
        for j in 1..=i {
            nx[j] = row.get(j).copied().unwrap_or(0) * j as u128 + row[j - 1];
        }
        row = nx;
    }
    put("stirling2", (n % 13).stirling2(k), Some(row.get(k as usize).copied().unwrap_or(0)));
    // Bessel: power series, scaled
    let x = [0.0, 8.0, 7.9999, 8.0001, 30.0, 0.5, 1e-9, -3.0, 16.0][h.b % 9] + if h.weird { 0.0 } else { h.a as f64 * 0.37 };
    let (mut t, mut s) = ((-x.abs()).exp(), 0.0f64);
    for i in 1..200 {
        s += t;
        t *= (x / 2.0) * (x / 2.0) / (i * i) as f64;
    }
    for (what, got, want, tol) in [("i0e", x.i0e(), s, 1e-11), ("i0", x.i0(), s * x.abs().exp(), 1e-11), ("i0e in f32", (x as f32).i0e() as f64, s, 1e-4), ("i0 in f32", (x as f32).i0() as f64, s * x.abs().exp(), 1e-4)] {
        if !((got - want).abs() <= tol * want) {
            violate!("reads-outside-its-tables", "{what} of {x} gives {got:e}, the function is {want:e}");
        }
        o.push(got.to_bits());
    }
    let d: Vec<f64> = vals(h, h.n, 31);
    let r = d.i0();
    fin(o, &r);
    fin(o, &d.i0e());
}
fn len(c: &mut Choices) -> usize {
    match c.weighted(&[50, 35, 15]) {
        0 => c.us(0, 9),
        1 => c.us(0, 60),
        _ => c.us(0, 700),
    }
}
pub fn body(c: &mut Choices) {
    let rounds = c.us(1, 5);
    for _ in 0..rounds {
        c.open();
        let h = H {
            kind: c.draw(HK as u64) as u8,
            f32: c.chance(500),
            n: len(c),
            n2: len(c),
            nsec: if c.chance(500) { c.us(0, 22) } else { c.us(0, 8) },
            a: c.us(0, 26),
            b: c.us(0, 8),
            o: if c.chance(400) { Some(c.us(0, 12)) } else { None },
            item: c.draw(3) as u8,
            m: c.draw(24) as u8,
            seed: c.seed(),
            weird: c.chance(350),
            cut: if c.chance(150) { Some(if c.chance(700) { c.draw(60) } else { c.draw(1500) }) } else { None },
            hint: c.pick(&ANY),
            resumes: c.chance(120),
        };
        let side = c.range(1, 2) as u32;
        let mut h = h;
        if c.chance(80) {
            h.a = c.us(20, 121);
            h.b = c.us(0, 12);
            h.nsec = c.us(8, 70);
        }
        // most shape-checked routines want related lengths most of the time
        if !h.weird && c.chance(600) {
            match h.kind {
                4 => h.a = h.n.min(60),
                5 => h.n2 = h.n,
                6 | 7 => h.b %= 2,
                11 => h.n2 = 6 * h.a,
                2 | 3 => h.a |= 1,
                _ => {}
            }
        }
        if h.kind == 4 {
            h.n %= 80;
        }
        if h.kind == 5 {
            h.n %= 64;
            h.n2 %= 64;
        }
        ev!("{h:?} fence {side}");
        if !matches!(h.hint, Hint::Exact) && h.kind <= 8 {
            fault(if LEGAL.contains(&h.hint) { "source-advertises-loosely" } else { "source-misreports-length" });
        }
        let mut res: [Option<Vec<u64>>; 2] = [None, None];
        for (i, poison) in [0x5au8, 0xc3].into_iter().enumerate() {
            alloc::fence(side, Some(poison));
            paint(poison);
            res[i] = catch_unwind(AssertUnwindSafe(|| if h.f32 { call::<f32>(&h) } else { call::<f64>(&h) })).ok();
            alloc::calm();
            alloc::fence(0, None);
        }
        simrt::op();
        nontrivial();
        simrt::sig(simrt::mix(h.kind as u64, (h.n as u64) << 20 | (h.a as u64) << 4 | side as u64));
        match (&res[0], &res[1]) {
            (None, None) => probe("call-unwound"),
            (Some(a), Some(b)) if a == b => probe("call-returned"),
            _ => violate!("depends-on-uninitialised-memory", "{h:?}: the outcome differs when memory the call does not initialise holds other bytes"),
        }
        c.close();
    }
}
