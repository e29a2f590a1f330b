//! A catalogue of calls over the library's whole numerical API.  A call is a
//! plain value (`P`); executing it yields the bits of everything observable:
//! the result and the mutable arguments.
use crate::num::*;
use crate::source::*;
use crate::with_src;
use nalgebra::{Complex, DMatrix};
use sci_rs::linalg::companion_dyn;
use sci_rs::signal::convolve::*;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::signal::resample::resample;
use sci_rs::signal::wave::square;
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats::*;
use simrt::{Choices, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Dyn,
    St,
    Item,
    Fast,
    IFast,
    FiltFilt,
    Zi,
    LZi,
    Savgol,
    SavgolC,
    Pad,
    OddExt,
    Companion,
    Mean,
    Variance,
    Stdev,
    Median,
    Mad,
    Autocorr,
    LagDiff,
    Rmssd,
    Zscore,
    ModZscore,
    Auto32,
    Rms32,
    Butter,
    Cheby1,
    Iir,
    Proto,
    Poly,
    Convolve,
    Resample,
    Square,
    Fact,
    Comb,
    BesselS,
    BesselV,
    Scipy,
}
use K::*;
pub const ALL: [K; 38] = [
    Dyn, St, Item, Fast, IFast, FiltFilt, Zi, LZi, Savgol, SavgolC, Pad, OddExt, Companion, Mean, Variance, Stdev, Median, Mad, Autocorr, LagDiff, Rmssd, Zscore, ModZscore, Auto32, Rms32, Butter, Cheby1, Iir, Proto, Poly, Convolve,
    Resample, Square, Fact, Comb, BesselS, BesselV, Scipy,
];
/// Orders of the designs.
const ORDERS: usize = 13;
/// Routines that read an iterator.
pub const STREAMS: [K; 15] = [Dyn, St, FiltFilt, Savgol, Companion, Mean, Variance, Stdev, Median, Mad, Autocorr, LagDiff, Rmssd, Zscore, ModZscore];
/// Routines documented or built to work without a heap.
pub const NOHEAP: [K; 16] = [St, Item, Fast, IFast, Mean, Variance, Stdev, Autocorr, Auto32, Rms32, LagDiff, Rmssd, Zscore, Fact, Comb, BesselS];

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct P {
    pub kind: K,
    pub f32: bool,
    pub n: usize,
    pub item: u8,
    pub style: u8,
    pub dseed: u64,
    pub nsec: usize,
    pub cseed: u64,
    pub zi: bool,
    pub k: usize,
    pub w: usize,
    pub poly: usize,
    pub der: Option<usize>,
    pub delta: Option<f64>,
    pub fa: f64,
    pub fb: f64,
    pub m: u8,
    /// one unusual sample: 0 none, 7 all samples at the bottom of the range
    pub odd: u8,
}
fn len_of(c: &mut Choices, big: usize) -> usize {
    match c.weighted(&[30, 30, 16, 4, 10, 10]) {
        4 => 4 * c.us(0, 4),
        5 => 4 * c.us(0, 16),
        0 => c.us(0, 16),
        1 => c.us(0, 64),
        2 => c.us(0, 300),
        _ => c.us(0, big),
    }
}
impl P {
    pub fn gen(c: &mut Choices, kinds: &[K], big: usize) -> P {
        let kind = c.pick(kinds);
        P::of(c, kind, big)
    }
    pub fn of(c: &mut Choices, kind: K, big: usize) -> P {
        c.open();
        let w = c.us(1, 12);
        let p = P {
            kind,
            f32: c.chance(500),
            n: len_of(c, big),
            item: c.draw(3) as u8,
            style: c.draw(9) as u8,
            dseed: c.seed(),
            nsec: if c.chance(300) { c.us(0, 24) } else { c.us(0, 8) },
            cseed: c.seed(),
            zi: c.chance(400),
            k: c.us(0, 12),
            w,
            poly: c.us(0, 5),
            der: if c.chance(300) { Some(c.us(0, 3)) } else { None },
            delta: if c.chance(300) { Some(c.pick(&[0.5, 1.0, 2.0, 0.1])) } else { None },
            fa: c.range(1, 44) as f64 / 100.0,
            fb: c.range(50, 95) as f64 / 100.0,
            m: c.draw(24) as u8,
            odd: if c.chance(80) {
                c.us(1, 6) as u8
            } else if c.chance(60) {
                7
            } else {
                0
            },
        };
        c.close();
        let mut p = p;
        if c.chance(70) {
            // well beyond the usual sizes
            c.open();
            p.w = c.us(10, 60);
            p.k = c.us(10, 200);
            p.nsec = c.us(8, 70);
            p.poly = c.us(0, 7);
            p.der = if c.chance(400) { Some(c.us(0, 6)) } else { p.der };
            c.close();
        }
        if kind == Autocorr && c.chance(300) {
            p.k = c.us(0, p.n + 5);
        }
        if kind == Companion {
            p.n = p.n % 48 + 2;
        }
        if kind == FiltFilt && p.zi {
            p.n += 6 * p.nsec + 4; // long enough for the padding
        }
        p
    }
    /// The same call with one argument changed.
    pub fn near(&self, c: &mut Choices) -> P {
        let mut p = *self;
        match c.draw(12) {
            0 => p.dseed ^= 1 + c.draw(7),
            1 => p.cseed ^= 1 + c.draw(7),
            2 => p.n = if c.chance(500) { p.n + 1 } else { p.n.saturating_sub(1) },
            3 => p.der = p.der.map(|d| d + 1).or(Some(1)),
            4 => p.delta = p.delta.map(|d| d * 2.0).or(Some(0.5)),
            5 => p.w += 1,
            6 => p.poly = (p.poly + 1) % 6,
            7 => p.k += 1,
            8 => p.fa += 0.004,
            9 => p.m = (p.m + 1) % 24,
            10 => p.zi = !p.zi,
            _ => p.f32 = !p.f32,
        }
        p
    }
    pub fn data<F: Fl>(&self) -> Vec<F> {
        let mut v = signal(self.style, self.dseed, self.n, 1.0);
        // (where does not depend on the length: a shorter stream is a prefix)
        let at = (self.dseed % 3 * self.dseed % 50) as usize;
        if self.odd == 7 {
            let tiny = if F::F32 { 1e-41 } else { 1e-310 };
            v.iter_mut().for_each(|x| *x *= tiny);
        } else if self.odd > 0 && at < self.n {
            v[at] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e-40, 1e30][self.odd as usize - 1];
        }
        vecf(&v)
    }
    pub fn sos<F: Fl>(&self) -> Vec<Sos<F>> {
        let mut s: Vec<Sos<F>> = to_sos(&sections(self.cseed, self.nsec, 0.9));
        if self.zi {
            let mut r = Rng::new(self.cseed ^ 99);
            for x in &mut s {
                x.zi0 = F::of(r.unit());
                x.zi1 = F::of(r.unit());
            }
        }
        s
    }
    pub fn window(&self) -> usize {
        let w = 2 * self.w + 1;
        w.max((self.poly + 2) | 1)
    }
    pub fn coefs<F: Fl>(&self) -> (Vec<F>, Vec<F>) {
        let mut r = Rng::new(self.cseed ^ 5);
        let n = self.w + 1;
        let b: Vec<F> = (0..n).map(|_| F::of(r.unit())).collect();
        let mut a: Vec<F> = (0..n).map(|_| F::of(0.4 * r.unit() / n as f64)).collect();
        a[0] = F::of(if self.zi { 1.0 } else { 2.0 });
        (b, a)
    }
}
#[macro_export]
macro_rules! sut {
    ($arm:expr, $e:expr) => {{
        $arm(true);
        let r = $e;
        $arm(false);
        r
    }};
}
fn put<F: Fl>(o: &mut Vec<u64>, v: &[F]) {
    o.push(v.len() as u64);
    o.extend(v.iter().map(|x| x.bits()));
}
fn putc<F: Fl>(o: &mut Vec<u64>, v: &[Complex<F>]) {
    o.push(v.len() as u64);
    for x in v {
        o.push(x.re.bits());
        o.push(x.im.bits());
    }
}
fn putm<F: Fl>(o: &mut Vec<u64>, v: &DMatrix<F>) {
    o.push(v.nrows() as u64);
    o.push(v.ncols() as u64);
    o.extend(v.iter().map(|x| x.bits()));
}
fn putf<F: Fl>(o: &mut Vec<u64>, f: &DigitalFilter<F>) {
    match f {
        DigitalFilter::Ba(x) => {
            put(o, &x.b);
            put(o, &x.a)
        }
        DigitalFilter::Zpk(x) => putz(o, x),
        DigitalFilter::Sos(x) => sos_bits(&x.sos, o),
    }
}
fn putz<F: Fl>(o: &mut Vec<u64>, x: &ZpkFormatFilter<F>) {
    putc(o, &x.z);
    putc(o, &x.p);
    o.push(x.k.bits());
}

pub type Arm<'a> = &'a dyn Fn(bool);
pub fn no_arm(_: bool) {}

/// Execute the call; `arm` brackets the library code.
pub fn exec(p: &P, ctl: &Ctl, arm: Arm) -> Vec<u64> {
    if p.f32 || matches!(p.kind, Fast | IFast | Auto32 | Rms32) {
        exec32(p, ctl, arm).unwrap_or_else(|| exec_t::<f32>(p, ctl, arm))
    } else {
        exec_t::<f64>(p, ctl, arm)
    }
}
/// A buffer whose last N elements are the window: it starts at any alignment.
fn arr<const N: usize>(off: usize, v: &[f32]) -> Vec<f32> {
    let mut a = vec![0.75; off];
    a.extend((0..N).map(|i| v[i % v.len().max(1)] + i as f32 * 0.01));
    a
}
fn tail<const N: usize>(v: &mut [f32]) -> &mut [f32; N] {
    let k = v.len() - N;
    (&mut v[k..]).try_into().unwrap()
}
pub fn auto<const N: usize, const M: usize, const S: usize>(p: &P, arm: Arm) -> Vec<u64> {
    let mut pp = *p;
    pp.n = N.max(1);
    let (oy, ox) = ((p.dseed % 4) as usize, (p.dseed / 4 % 4) as usize);
    let mut y = arr::<N>(oy, &pp.data::<f32>());
    let mut x = vec![f32::NAN; ox + M];
    let v = sut!(arm, autocorr_fast32::<N, M, S>(tail(&mut y), tail(&mut x)));
    let mut o = vec![];
    put(&mut o, &[v]);
    put(&mut o, &y[oy..]);
    put(&mut o, &x[ox..]);
    o
}
fn rms<const N: usize>(p: &P, arm: Arm) -> Vec<u64> {
    let mut pp = *p;
    pp.n = N.max(1);
    let mut y = arr::<N>((p.dseed % 4) as usize, &pp.data::<f32>());
    let v = sut!(arm, rms_fast32::<N>(tail(&mut y)));
    let mut o = vec![];
    put(&mut o, &[v]);
    o
}
fn exec32(p: &P, ctl: &Ctl, arm: Arm) -> Option<Vec<u64>> {
    let mut o: Vec<u64> = Vec::new();
    match p.kind {
        Fast => {
            // blocks of a longer buffer start anywhere
            let (oy, oz) = ((p.dseed % 4) as usize, (p.dseed / 4 % 4) as usize);
            let mut d = vec![0.5; oy];
            d.extend(p.data::<f32>());
            let mut s = p.sos::<f32>();
            let mut z = vec![f32::NAN; oz + p.n];
            sut!(arm, sosfilt_fast32_st(&d[oy..], &mut s, &mut z[oz..]));
            put(&mut o, &z[oz..]);
            sos_bits(&s, &mut o);
        }
        IFast => {
            let g = [1.0, 300.0, 2e7, 3e10][p.odd as usize % 4];
            let d: Vec<isize> = signal(3, p.dseed, p.n, g).iter().map(|v| *v as isize).collect();
            let mut s = p.sos::<f32>();
            let mut z = vec![f32::NAN; d.len()];
            match p.item {
                0 if p.odd % 4 < 2 => {
                    let d: Vec<i16> = d.iter().map(|v| *v as i16).collect();
                    sut!(arm, sosfilt_ifast32_st(&d, &mut s, &mut z));
                }
                0 | 1 => sut!(arm, sosfilt_ifast32_st(&d, &mut s, &mut z)),
                _ => {
                    let d: Vec<Conv> = d.iter().map(|v| Conv { v: *v, ctl }).collect();
                    sut!(arm, sosfilt_ifast32_st(&d, &mut s, &mut z));
                }
            }
            put(&mut o, &z);
            sos_bits(&s, &mut o);
        }
        Auto32 => {
            return Some(match p.m % 10 {
                0 => auto::<8, 4, 0>(p, arm),
                1 => auto::<8, 4, 3>(p, arm),
                2 => auto::<13, 5, 2>(p, arm),
                3 => auto::<16, 16, 0>(p, arm),
                4 => auto::<31, 20, 7>(p, arm),
                5 => auto::<64, 32, 1>(p, arm),
                6 => auto::<3, 1, 1>(p, arm),
                7 => auto::<1, 1, 0>(p, arm),
                8 => auto::<150, 50, 90>(p, arm),
                _ => auto::<32, 0, 4>(p, arm),
            })
        }
        Rms32 => {
            return Some(match p.m % 7 {
                0 => rms::<1>(p, arm),
                1 => rms::<4>(p, arm),
                2 => rms::<7>(p, arm),
                3 => rms::<16>(p, arm),
                4 => rms::<33>(p, arm),
                5 => rms::<128>(p, arm),
                _ => rms::<3>(p, arm),
            })
        }
        _ => return None,
    }
    Some(o)
}
fn band(m: u8) -> FilterBandType {
    match m % 4 {
        0 => FilterBandType::Lowpass,
        1 => FilterBandType::Highpass,
        2 => FilterBandType::Bandpass,
        _ => FilterBandType::Bandstop,
    }
}
fn outp(m: u8) -> FilterOutputType {
    match m / 4 % 3 {
        0 => FilterOutputType::Sos,
        1 => FilterOutputType::Ba,
        _ => FilterOutputType::Zpk,
    }
}
fn mode(m: u8) -> ConvolveMode {
    match m % 3 {
        0 => ConvolveMode::Full,
        1 => ConvolveMode::Valid,
        _ => ConvolveMode::Same,
    }
}
/// Sampling frequencies at which every critical frequency stays valid.
fn rate<F: Fl>(p: &P) -> Option<F> {
    p.zi.then(|| F::of([2.0, 2.2, 3.0, 8.0][p.k % 4]))
}
fn exec_t<F: Fl>(p: &P, ctl: &Ctl, arm: Arm) -> Vec<u64> {
    let mut o: Vec<u64> = Vec::new();
    let d: Vec<F> = p.data();
    let n = d.len();
    // a source that resumes hands out a tail after its end
    let end = if ctl.resumes { n - n / 3 } else { n };
    let core = Core::new(&d, end, ctl);
    let wn = |p: &P| -> Vec<F> {
        if p.m % 4 < 2 {
            vec![F::of(p.fa)]
        } else {
            vec![F::of(p.fa), F::of(p.fb)]
        }
    };
    macro_rules! cnt {
        ($f:ident) => {{
            let (v, k): (F, usize) = with_src!(p.item, core, it => sut!(arm, $f(it)));
            put(&mut o, &[v]);
            o.push(k as u64);
        }};
    }
    macro_rules! lazy {
        ($mk:expr) => {{
            let mut v: Vec<F> = Vec::with_capacity(n + 64);
            let room = n + 64;
            arm(true);
            // in every way a consumer may read it
            match p.m % 6 {
                0 => $mk.for_each(|y| {
                    if v.len() < room {
                        v.push(y);
                    }
                }),
                1 => {
                    let mut it = $mk;
                    while let Some(y) = it.nth(p.k % 3) {
                        if v.len() < room {
                            v.push(y);
                        }
                    }
                }
                2 => v.extend($mk.step_by(1 + p.k % 3).take(room)),
                3 => {
                    let mut it = $mk;
                    let stopped = it.try_for_each(|y| {
                        if v.len() < room {
                            v.push(y);
                        }
                        if v.len() % 5 == 4 { None } else { Some(()) }
                    });
                    // (nobody reads on after the end)
                    if stopped.is_none() {
                        if let Some(y) = it.next() {
                            v.push(y);
                            v.extend(it.last());
                        }
                    }
                }
                _ => {
                    for y in $mk {
                        if v.len() < room {
                            v.push(y);
                        }
                    }
                }
            }
            arm(false);
            put(&mut o, &v);
        }};
    }
    match p.kind {
        Fast | IFast | Auto32 | Rms32 => {}
        Dyn => {
            let mut s = p.sos::<F>();
            let v = with_src!(p.item, core, it => sut!(arm, sosfilt_dyn(it, &mut s)));
            put(&mut o, &v);
            sos_bits(&s, &mut o);
        }
        St => {
            let mut s = p.sos::<F>();
            let sr = &mut s;
            with_src!(p.item, core, it => lazy!(sosfilt_st(it, sr)));
            sos_bits(&s, &mut o);
        }
        Item => {
            let mut s = p.sos::<F>();
            let mut v = Vec::with_capacity(n);
            arm(true);
            for x in &d {
                v.push(sosfilt_item(x, &mut s));
            }
            arm(false);
            put(&mut o, &v);
            sos_bits(&s, &mut o);
        }
        FiltFilt => {
            let s = p.sos::<F>();
            let v = with_src!(p.item, core, it => sut!(arm, sosfiltfilt_dyn(it, &s)));
            put(&mut o, &v);
            sos_bits(&s, &mut o);
        }
        Zi => {
            let mut s = p.sos::<F>();
            sut!(arm, sosfilt_zi_dyn::<F, _, Sos<F>>(s.iter_mut()));
            sos_bits(&s, &mut o);
        }
        LZi => {
            let (b, a) = p.coefs::<F>();
            let v = sut!(arm, lfilter_zi_dyn(&b, &a));
            put(&mut o, &v);
        }
        Savgol => {
            let v = with_src!(p.item, core, it => sut!(arm, savgol_filter_dyn(it, p.window(), p.poly, p.der, p.delta.map(F::of))));
            put(&mut o, &v);
        }
        SavgolC => {
            let v = sut!(arm, savgol_coeffs_dyn::<F>(p.window() + p.zi as usize, p.poly, p.der, p.delta.map(F::of)));
            put(&mut o, &v);
        }
        Pad => {
            let rows = n / 2 + 1;
            let x = DMatrix::<F>::from_fn(rows, 2, |i, j| d.get(2 * i + j).copied().unwrap_or(F::of(0.5)));
            let pt = if p.m % 3 == 0 { sci_rs::signal::filter::Pad::None } else { sci_rs::signal::filter::Pad::Odd };
            let len = if p.zi { Some(p.k.min(rows - 1)) } else { None };
            let (e, v) = sut!(arm, pad(pt, len, x, 0, p.k / 3));
            o.push(e as u64);
            putm(&mut o, &v);
        }
        OddExt => {
            let rows = n / 2 + 1;
            let x = DMatrix::<F>::from_fn(rows, 3, |i, j| d.get(2 * i + j).copied().unwrap_or(F::of(0.5)));
            let v = sut!(arm, if p.zi { odd_ext_dyn(x, p.k.min(rows - 1), 0) } else { odd_ext_dyn(x, p.k % 3, 1) });
            putm(&mut o, &v);
        }
        Companion => {
            let v = with_src!(p.item, core, it => sut!(arm, companion_dyn::<F, _, _>(it, end)));
            putm(&mut o, &v);
        }
        Mean => cnt!(mean),
        Variance => cnt!(variance),
        Stdev => cnt!(stdev),
        Median => cnt!(median),
        Mad => cnt!(median_abs_deviation),
        Autocorr => {
            let v: F = with_src!(p.item, core, it => sut!(arm, autocorr(it, p.k)));
            put(&mut o, &[v]);
        }
        LagDiff => with_src!(p.item, core, it => lazy!(lag_diff::<_, F>(it))),
        Rmssd => {
            let v: F = with_src!(p.item, core, it => sut!(arm, rmssd(it)));
            put(&mut o, &[v]);
        }
        Zscore => with_src!(p.item, core, it => lazy!(zscore::<_, F>(it))),
        ModZscore => with_src!(p.item, core, it => lazy!(mod_zscore::<_, F>(it))),
        Butter => {
            let f = sut!(arm, butter_dyn(1 + p.w % ORDERS, wn(p), Some(band(p.m)), Some(false), Some(outp(p.m)), rate(p)));
            putf(&mut o, &f);
        }
        Cheby1 => {
            let (w, r, fs) = (1 + p.w % ORDERS, F::of(0.5 + p.k as f64), rate(p));
            let f = if p.poly % 3 == 2 {
                sut!(arm, cheby2_dyn(w, r + F::of(20.0), wn(p), Some(band(p.m)), Some(false), Some(outp(p.m)), fs))
            } else {
                sut!(arm, cheby1_dyn(w, r, wn(p), Some(band(p.m)), Some(false), Some(outp(p.m)), fs))
            };
            putf(&mut o, &f);
        }
        Iir => {
            let ft = match p.m / 12 {
                0 => FilterType::ChebyshevII,
                _ => FilterType::Butterworth,
            };
            let f = sut!(
                arm,
                iirfilter_dyn(1 + p.w % ORDERS, wn(p), Some(F::of(1.0 + p.k as f64)), Some(F::of(20.0 + p.k as f64)), Some(band(p.m)), Some(ft), Some(p.zi), Some(outp(p.m)), None)
            );
            putf(&mut o, &f);
        }
        Proto => {
            let w = 1 + p.w % ORDERS;
            let z = sut!(arm, if p.zi { cheb1ap_dyn::<F>(w, F::of(0.5 + p.k as f64)) } else { cheb2ap_dyn::<F>(w, F::of(20.0 + p.k as f64)) });
            putz(&mut o, &z);
            let (wo, bw) = (Some(F::of(p.fa * 4.0)), Some(F::of(p.fb)));
            let z = sut!(
                arm,
                match p.m % 4 {
                    0 => lp2lp_zpk_dyn(z, wo),
                    1 => lp2hp_zpk_dyn(z, wo),
                    2 => lp2bp_zpk_dyn(z, wo, bw),
                    _ => lp2bs_zpk_dyn(z, wo, bw),
                }
            );
            putz(&mut o, &z);
            let z = sut!(arm, bilinear_zpk_dyn(z, F::of(2.0)));
            putz(&mut o, &z);
            let order = z.p.len();
            if p.m < 12 {
                let t = sut!(arm, zpk2tf_dyn(order, &z.z, &z.p, z.k));
                put(&mut o, &t.b);
                put(&mut o, &t.a);
            } else {
                let t = sut!(arm, zpk2sos_dyn(order, z, None, None));
                sos_bits(&t.sos, &mut o);
            }
        }
        Poly => {
            let v: Vec<F> = d.iter().take(10).copied().collect();
            let v = sut!(arm, poly_dyn(&v));
            put(&mut o, &v);
        }
        Convolve => {
            let mut q = *p;
            q.dseed ^= 0x77;
            q.n = 1 + p.k;
            let h: Vec<F> = q.data();
            let d = if d.is_empty() { vec![F::of(1.0)] } else { d };
            let v = sut!(
                arm,
                match p.m / 3 % 3 {
                    0 => convolve(&d, &h, mode(p.m)),
                    1 => fftconvolve(&d, &h, mode(p.m)),
                    _ => correlate(&d, &h, mode(p.m)),
                }
            );
            put(&mut o, &v);
        }
        Resample => {
            let d = if d.is_empty() { vec![F::of(1.0)] } else { d };
            let v = sut!(arm, resample(&d, 1 + p.k + p.w * 3 + if p.zi { p.poly * 40 } else { 0 }));
            put(&mut o, &v);
        }
        Square => {
            let t = ndarray::Array1::from_vec(d);
            let v = sut!(arm, square(&t, F::of(p.fb)));
            put(&mut o, v.as_slice().unwrap());
        }
        Fact => {
            let x = (p.dseed % 30) as u64;
            let k = 1 + p.k as u64;
            let (a, b, e, f, g) = sut!(arm, ((x % 21).factorial(), x.factorial2(), x.factorialk(k), ((x % 13) as i32).factorial(), (x as u128).factorial()));
            o.extend([a, b, e, f as u64, g as u64, (g >> 64) as u64]);
            // the other integer types, large arguments
            let w = p.dseed >> 8;
            let (u, i, s8) = ((w % 35) as u128, (w % 34) as i128, (w % 6) as i8);
            let (a, b, e, f, g, h) = sut!(arm, (u.factorial(), (u + 20).factorial2(), i.factorialk(1 + k as i128), s8.factorial(), (s8 as u8).factorial2(), ((w % 56) as u128).factorialk(2)));
            let (q, r) = sut!(arm, (((w % 13) as u32).factorial(), ((w % 21) as isize).factorial2()));
            let z = sut!(arm, ((-1 - (w % 9) as i64).factorial(), (w as i16 % 8).factorialk(3)));
            o.extend([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64, e as u64, (e >> 64) as u64, f as u64, g as u64, h as u64, (h >> 64) as u64, q as u64, r as u64, z.0 as u64, z.1 as u64]);
        }
        Comb => {
            let x = (p.dseed % 26) as u64;
            let k = (p.k as u64).min(x);
            let (a, b, e, f, g) = sut!(arm, (x.comb(k), (x % 15).comb_rep(k), x.perm(k % 12), (x % 16).stirling2(k % 12), (x as i128).comb(k as i128)));
            o.extend([a, b, e, f, g as u64]);
            let w = p.dseed >> 8;
            let (n, m) = ((w % 125) as u128, ((w >> 8) % 125) as u128);
            let (a, b, e, f) = sut!(arm, (n.comb(m), (n as i128 / 2).comb_rep(m as i128 / 2), (n % 34).perm(m % 34), ((n % 18) as i128).stirling2((m % 18) as i128)));
            o.extend([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64, e as u64, (e >> 64) as u64, f as u64, (f >> 64) as u64]);
            let (a, b, e, f) = sut!(arm, (((n % 30) as i32).comb((m % 30) as i32), ((n % 9) as u8).comb((m % 9) as u8), ((n % 62) as u64).comb((m % 62) as u64), (-(n as i64)).comb(3)));
            o.extend([a as u64, b as u64, e, f as u64]);
            let (a, b) = sut!(arm, (((n % 13) as u32).perm((m % 13) as u32), ((n % 9) as i16).stirling2((m % 9) as i16)));
            o.extend([a as u64, b as u64]);
        }
        BesselS => {
            let mut v: Vec<f64> = Vec::with_capacity(2 * n + 8);
            arm(true);
            for x in &d {
                v.push((x.up() * 3.0).i0());
                v.push(((x.up() * 9.0) as f32).i0e() as f64);
            }
            // the whole range of the argument, odd values too
            let big = [0.0, -0.0, 8.0, 7.999999, 700.0, 714.0, -60.0, 1e6, 1e300, 1e-300, f64::INFINITY, f64::NAN][(p.dseed % 12) as usize];
            v.push(big.i0());
            v.push(big.i0e());
            v.push((big as f32).i0() as f64);
            v.push((big as f32).i0e() as f64);
            arm(false);
            put(&mut o, &v);
        }
        BesselV => {
            let v: Vec<f64> = d.iter().map(|x| x.up() * 4.0).collect();
            let (a, b) = sut!(arm, (v.i0(), v.i0e()));
            put(&mut o, &a);
            put(&mut o, &b);
            let t = ndarray::ArrayD::from_shape_vec(vec![v.len()], v).unwrap();
            let r = sut!(arm, t.i0e());
            put(&mut o, r.as_slice().unwrap());
        }
        Scipy => {
            let ord = p.nsec;
            let v: Vec<F> = (0..6 * ord).map(|i| F::of(i as f64 + p.fa)).collect();
            let s = sut!(arm, Sos::from_scipy_dyn(ord, v));
            sos_bits(&s, &mut o);
        }
    }
    o
}
/// Execute, turning an unwind into an outcome.
pub fn outcome(p: &P, ctl: &Ctl, arm: Arm) -> Option<Vec<u64>> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(p, ctl, arm))).ok();
    simrt::alloc::calm();
    r
}
