//! One filter channel: the sections under test next to the executable
//! reference (sample-at-a-time direct form II transposed), and every way of
//! feeding a piece of the stream.
use crate::num::*;
use crate::source::*;
use crate::with_src;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use simrt::{ev, violate, Choices, Rng};

#[derive(Clone)]
pub struct Ref<F> {
    pub s: Vec<([F; 3], [F; 3], F, F)>,
    pub scale: f64,
    /// power of two taken out of the first section and put back in the last
    pub front: f64,
}
impl<F: Fl> Ref<F> {
    pub fn new(sos: &[Sos<F>], front: f64) -> Self {
        let mut r = Ref { s: sos.iter().map(|s| (s.b, s.a, s.zi0, s.zi1)).collect(), scale: 0.0, front };
        r.note_state();
        r
    }
    fn note(&mut self, v: F, i: usize) {
        let v = v.up().abs() / self.unit(i);
        if v.is_finite() && v > self.scale {
            self.scale = v;
        }
    }
    /// Section i works in units of this.
    pub fn unit(&self, i: usize) -> f64 {
        if i + 1 < self.s.len() {
            self.front
        } else {
            1.0
        }
    }
    fn note_state(&mut self) {
        for i in 0..self.s.len() {
            let (_, _, z0, z1) = self.s[i];
            self.note(z0, i);
            self.note(z1, i);
        }
    }
    pub fn step(&mut self, x: F) -> F {
        self.scale *= 0.996;
        self.note(x, usize::MAX - 1);
        let mut x = x;
        for i in 0..self.s.len() {
            let (b, a, z0, z1) = self.s[i];
            let y = b[0] * x + z0;
            let n0 = b[1] * x - a[1] * y + z1;
            let n1 = b[2] * x - a[2] * y;
            self.s[i].2 = n0;
            self.s[i].3 = n1;
            self.note(y, i);
            self.note(n0, i);
            self.note(n1, i);
            x = y;
        }
        x
    }
    pub fn tol(&self) -> f64 {
        let t = if F::F32 { 5e-3 } else { 1e-9 };
        t * self.scale + 1e-30
    }
}
pub fn same<F: Fl>(got: F, want: F, tol: f64) -> bool {
    let (g, w) = (got.up(), want.up());
    if !g.is_finite() || !w.is_finite() {
        return !g.is_finite() && !w.is_finite();
    }
    (g - w).abs() <= tol
}

#[derive(Clone, Copy)]
pub struct Custom(pub i64);
impl From<Custom> for isize {
    fn from(c: Custom) -> isize {
        c.0 as isize
    }
}

pub struct Chan<F: Fl> {
    pub id: usize,
    pub sos: Vec<Sos<F>>,
    pub coef: Vec<u64>,
    pub rf: Ref<F>,
    pub data: Vec<F>,
    pub pos: usize,
    pub integer: bool,
}
pub fn coef_bits<F: Fl>(s: &[Sos<F>]) -> Vec<u64> {
    s.iter().flat_map(|x| x.b.iter().chain(&x.a).map(|v| v.bits()).collect::<Vec<_>>()).collect()
}
pub fn pick_nsec(c: &mut Choices) -> usize {
    match c.weighted(&[80, 10, 4]) {
        0 => c.us(0, 21),
        1 => c.pick(&[2, 4, 6, 8, 10, 12]),
        _ => c.us(22, 40),
    }
}
impl<F: Fl> Chan<F> {
    pub fn gen(c: &mut Choices, id: usize, total: usize) -> Self {
        c.open();
        let n = pick_nsec(c);
        let rmax = c.pick(&[0.9, 0.5, 0.95, 0.8]);
        let cs = c.seed();
        let integer = c.chance(300);
        let style = if integer { 3 } else { c.draw(7) as u8 };
        // integers of 8, 16, 32 and 64 bits
        let scale = if integer { c.pick(&[1.0, 1.0, 300.0, 2e7, 3e10]) } else { c.pick(&[1.0, 1.0, 1e-6, 1e5]) };
        let ds = c.seed();
        let mut sos: Vec<Sos<F>> = to_sos(&sections(cs, n, rmax));
        if c.chance(500) {
            let mut r = Rng::new(cs ^ 77);
            let lv = scale * if integer { 50.0 } else { 1.0 };
            for s in &mut sos {
                s.zi0 = F::of(r.unit() * lv);
                s.zi1 = F::of(r.unit() * lv);
            }
        }
        let mut d = signal(style, ds, total, scale);
        if !integer && c.chance(60) && total > 0 {
            let at = c.us(0, total - 1);
            d[at] = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e-310]);
            simrt::probe("non-finite-or-odd-sample");
        }
        let data = vecf::<F>(&d);
        c.close();
        ev!("channel {id}: {n} sections seed {cs} rmax {rmax}, {} signal style {style} seed {ds}, {total} samples", if F::F32 { "f32" } else { "f64" });
        Chan { id, coef: coef_bits(&sos), rf: Ref::new(&sos, 1.0), sos, data, pos: 0, integer }
    }
    /// Put a few narrow sections in.
    pub fn narrow(&mut self, c: &mut Choices) {
        let mut r = Rng::new(c.seed());
        for s in &mut self.sos {
            if r.below(3) == 0 {
                let (b, a) = narrow(&mut r, F::F32);
                s.b = b.map(F::of);
                s.a = a.map(F::of);
            }
        }
        self.coef = coef_bits(&self.sos);
        self.rf = Ref::new(&self.sos, self.rf.front);
        simrt::probe("narrow-sections");
    }
    /// Designed cascades carry their (often tiny) gain in one section.  A
    /// power of two moves between the first and the last section, so every
    /// rounding stays what it was.
    pub fn concentrate(&mut self, c: &mut Choices) {
        let n = self.sos.len();
        if n < 2 {
            return;
        }
        let k = c.us(1, if F::F32 { 28 } else { 90 }) as i32;
        let f = 2f64.powi(if c.chance(850) { -k } else { k / 2 });
        for j in 0..3 {
            self.sos[0].b[j] = self.sos[0].b[j] * F::of(f);
            self.sos[n - 1].b[j] = self.sos[n - 1].b[j] * F::of(1.0 / f);
        }
        for s in &mut self.sos[..n - 1] {
            s.zi0 = s.zi0 * F::of(f);
            s.zi1 = s.zi1 * F::of(f);
        }
        self.coef = coef_bits(&self.sos);
        self.rf = Ref::new(&self.sos, f);
        ev!("channel {}: gain 2^{} in the first section", self.id, f.log2());
        simrt::probe("gain-in-one-section");
    }
    pub fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    /// Compare yielded outputs (index within the piece) with the reference
    /// over `used` consumed samples, then the state.
    pub fn verify(&mut self, what: &str, used: usize, got: &[(usize, F)]) {
        let mut g = 0;
        for i in 0..used {
            let x = self.data[self.pos + i];
            let want = self.rf.step(x);
            if g < got.len() && got[g].0 == i {
                let v = got[g].1;
                if !same(v, want, self.rf.tol()) {
                    violate!("output-mismatch", "{what}: channel {} ({} sections): output for stream sample {} is {:e}, the recurrence gives {:e}", self.id, self.sos.len(), self.pos + i, v.up(), want.up());
                }
                g += 1;
            }
        }
        if g != got.len() {
            violate!("output-count", "{what}: {} outputs for {used} samples consumed", got.len());
        }
        self.pos += used;
        self.verify_state(what);
    }
    pub fn verify_state(&mut self, what: &str) {
        if coef_bits(&self.sos) != self.coef {
            violate!("coefficients-modified", "{what}: channel {}: coefficients changed", self.id);
        }
        let tol = self.rf.tol();
        for (i, s) in self.sos.iter().enumerate() {
            let (_, _, z0, z1) = self.rf.s[i];
            let tol = tol * self.rf.unit(i);
            if !same(s.zi0, z0, tol) || !same(s.zi1, z1, tol) {
                violate!("state-mismatch", "{what}: channel {} section {i} of {}: delays ({:e}, {:e}) after {} samples, the recurrence gives ({:e}, {:e})", self.id, self.sos.len(), s.zi0.up(), s.zi1.up(), self.pos, z0.up(), z1.up());
            }
        }
    }
}

pub const ENTRIES: u64 = 10;
/// Access to the f32-only entry points from generic code.
fn fits(y: &[f32], m: f32) -> bool {
    y.iter().all(|v| v.abs() <= m)
}
/// The samples behind `off` others, so that they start at another alignment.
fn shifted<F: Fl>(off: usize, d: &[F]) -> Vec<F> {
    let mut v = vec![F::of(0.5); off];
    v.extend_from_slice(d);
    v
}
pub trait FastPaths: Fl {
    fn fast(y: &[Self], sos: &mut [Sos<Self>], z: &mut [Self]) -> bool;
    fn ifast(kind: u64, off: usize, y: &[Self], sos: &mut [Sos<Self>], z: &mut [Self]) -> bool;
}
impl FastPaths for f64 {
    fn fast(_: &[f64], _: &mut [Sos<f64>], _: &mut [f64]) -> bool {
        false
    }
    fn ifast(_: u64, _: usize, _: &[f64], _: &mut [Sos<f64>], _: &mut [f64]) -> bool {
        false
    }
}
impl FastPaths for f32 {
    fn fast(y: &[f32], sos: &mut [Sos<f32>], z: &mut [f32]) -> bool {
        sosfilt_fast32_st(y, sos, z);
        true
    }
    fn ifast(kind: u64, off: usize, y: &[f32], sos: &mut [Sos<f32>], z: &mut [f32]) -> bool {
        match kind {
            0 if fits(y, 127.0) => sosfilt_ifast32_st(&y.iter().map(|v| *v as i8).collect::<Vec<_>>()[off..], sos, z),
            1 if fits(y, 32767.0) => sosfilt_ifast32_st(&y.iter().map(|v| *v as i16).collect::<Vec<_>>()[off..], sos, z),
            2 => sosfilt_ifast32_st(&y.iter().map(|v| *v as isize).collect::<Vec<_>>()[off..], sos, z),
            _ => sosfilt_ifast32_st(&y.iter().map(|v| Custom(*v as i64)).collect::<Vec<_>>()[off..], sos, z),
        }
        true
    }
}

/// Drain a lazy output in one of many ways; returns (consumed, yielded).
pub fn drain<F: Fl>(c: &mut Choices, len: usize, it: impl Iterator<Item = F>) -> (usize, Vec<(usize, F)>) {
    let mut it = it;
    let mode = c.draw(9);
    match mode {
        0 => {
            let v: Vec<F> = it.collect();
            (len, v.into_iter().enumerate().collect())
        }
        1 => {
            let mut v = vec![];
            while let Some(x) = it.next() {
                v.push((v.len(), x));
            }
            (len, v)
        }
        2 => {
            // nth with random skips
            let mut v = vec![];
            let mut at = 0;
            loop {
                let j = c.draw(5) as usize;
                match it.nth(j) {
                    Some(x) => {
                        v.push((at + j, x));
                        at += j + 1;
                    }
                    None => return (len, v),
                }
                if v.len() > 200 {
                    for x in it {
                        v.push((at, x));
                        at += 1;
                    }
                    return (len, v);
                }
            }
        }
        3 => {
            let v = it.fold(vec![], |mut v, x| {
                v.push((v.len(), x));
                v
            });
            (len, v)
        }
        4 => {
            // take part of it, abandon the rest
            let k = c.us(0, len);
            let v: Vec<(usize, F)> = it.by_ref().take(k).enumerate().collect();
            drop(it);
            simrt::fault("lazy-output-abandoned");
            (k, v)
        }
        5 => {
            let st = c.us(1, 5);
            let v: Vec<(usize, F)> = it.step_by(st).enumerate().map(|(i, x)| (i * st, x)).collect();
            (len, v)
        }
        6 => {
            let k = it.last();
            (len, k.into_iter().map(|x| (len - 1, x)).collect())
        }
        7 => {
            let n = it.count();
            if n != len {
                violate!("output-count", "lazy output counts {n} outputs for {len} samples");
            }
            (len, vec![])
        }
        _ => {
            let mut v = vec![];
            it.for_each(|x| v.push((v.len(), x)));
            (len, v)
        }
    }
}

impl<F: FastPaths> Chan<F> {
    /// Feed the next `len` samples through entry point `e`.
    pub fn feed(&mut self, c: &mut Choices, len: usize, e: u64) {
        let (a, b) = (self.pos, self.pos + len);
        let d: Vec<F> = self.data[a..b].to_vec();
        let name;
        let (used, got): (usize, Vec<(usize, F)>) = match e {
            0 => {
                name = "sosfilt_dyn(values)";
                (len, sosfilt_dyn(d, &mut self.sos).into_iter().enumerate().collect())
            }
            1 => {
                name = "sosfilt_dyn(references)";
                (len, sosfilt_dyn(&d, &mut self.sos).into_iter().enumerate().collect())
            }
            2 | 3 => {
                name = "sosfilt_dyn(source)";
                let ctl = Ctl::new(c.pick(&LEGAL));
                let style = c.draw(3);
                (len, with_src!(style, Core::new(&d, len, &ctl), it => sosfilt_dyn(it, &mut self.sos)).into_iter().enumerate().collect())
            }
            4 | 5 => {
                name = "sosfilt_st";
                let ctl = Ctl::new(c.pick(&LEGAL));
                let style = c.draw(3);
                let sos = &mut self.sos;
                with_src!(style, Core::new(&d, len, &ctl), it => drain(c, len, sosfilt_st(it, sos)))
            }
            6 => {
                name = "sosfilt_item(value)";
                (len, d.iter().enumerate().map(|(i, x)| (i, sosfilt_item(*x, &mut self.sos))).collect())
            }
            7 => {
                name = "sosfilt_item(reference)";
                (len, d.iter().enumerate().map(|(i, x)| (i, sosfilt_item(x, &mut self.sos))).collect())
            }
            8 => {
                name = "sosfilt_fast32_st";
                // blocks of a longer buffer start anywhere
                let (oy, oz) = (c.us(0, 7), c.us(0, 7));
                let mut z = vec![F::of(f64::NAN); oz + len];
                let y = shifted(oy, &d);
                if !F::fast(&y[oy..], &mut self.sos, &mut z[oz..]) {
                    return self.feed(c, len, 0);
                }
                (len, z.into_iter().skip(oz).enumerate().collect())
            }
            _ => {
                name = "sosfilt_ifast32_st";
                if !self.integer {
                    return self.feed(c, len, 8);
                }
                let kind = c.draw(4);
                let (oy, oz) = (c.us(0, 7), c.us(0, 7));
                let mut z = vec![F::of(f64::NAN); oz + len];
                if !F::ifast(kind, oy, &shifted(oy, &d), &mut self.sos, &mut z[oz..]) {
                    return self.feed(c, len, 0);
                }
                (len, z.into_iter().skip(oz).enumerate().collect())
            }
        };
        simrt::op();
        ev!("channel {}: {len} samples at {a} through {name}: {used} consumed, {} yielded", self.id, got.len());
        simrt::sig(simrt::mix(e, (len as u64) << 8 | self.sos.len() as u64));
        if used == len && got.len() != len && e < 4 {
            violate!("output-count", "{name}: {} outputs for {len} samples", got.len());
        }
        self.verify(name, used, &got);
    }
}
