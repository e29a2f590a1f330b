//! Every nondeterministic decision of a run is one `draw` from this stream.
//! In generation mode the values come from a PRNG seeded by (VERIF_SEED,
//! property, run index); in replay mode from a recorded list.  Value 0 is the
//! simplest alternative, so minimisation deletes spans and lowers values.

#[derive(Clone)]
pub struct Rng(pub [u64; 4]);
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in [-1,1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut s = h ^ v.wrapping_mul(0xff51afd7ed558ccd);
    splitmix(&mut s)
}

pub const MAXC: usize = 1 << 17;
pub const MAXSPAN: usize = 1 << 13;

/// Recording area (shared memory), so that a crashed run still leaves its
/// choices behind.
#[repr(C)]
pub struct Rec {
    pub n: u32,
    pub nspan: u32,
    pub overflow: u32,
    pub _p: u32,
    pub v: [u64; MAXC],
    pub span: [[u32; 2]; MAXSPAN],
}

pub struct Choices {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    rec: *mut Rec,
    stack: [u32; 64],
    depth: usize,
    pub hash: u64,
}
unsafe impl Send for Choices {}

impl Choices {
    pub fn gen(seed: u64, rec: *mut Rec) -> Self {
        unsafe { ((*rec).n, (*rec).nspan, (*rec).overflow) = (0, 0, 0) };
        Choices { rng: Rng::new(seed), replay: None, pos: 0, rec, stack: [0; 64], depth: 0, hash: 1 }
    }
    pub fn replay(v: Vec<u64>, rec: *mut Rec) -> Self {
        let mut c = Self::gen(0, rec);
        c.replay = Some(v);
        c
    }
    /// uniform in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            None => self.rng.below(n),
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
        };
        self.pos += 1;
        self.hash = mix(self.hash, v);
        let rec = unsafe { &mut *self.rec };
        if (rec.n as usize) < MAXC {
            rec.v[rec.n as usize] = v;
            rec.n += 1;
        } else {
            rec.overflow = 1;
        }
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability p/1000
    pub fn chance(&mut self, p: u64) -> bool {
        self.draw(1000) >= 1000 - p
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut d = self.draw(t);
        for (i, wi) in w.iter().enumerate() {
            if d < *wi {
                return i;
            }
            d -= wi;
        }
        0
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u64) as usize]
    }
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 40)
    }
    /// Small lengths mostly, large ones sometimes.
    pub fn len(&mut self, small: usize, mid: usize, big: usize) -> usize {
        match self.weighted(&[60, 30, 10]) {
            0 => self.us(0, small),
            1 => self.us(0, mid),
            _ => self.us(0, big),
        }
    }
    pub fn open(&mut self) {
        if self.depth < 64 {
            self.stack[self.depth] = unsafe { (*self.rec).n };
        }
        self.depth += 1;
    }
    pub fn close(&mut self) {
        self.depth -= 1;
        if self.depth < 64 {
            let rec = unsafe { &mut *self.rec };
            let s = self.stack[self.depth];
            if (rec.nspan as usize) < MAXSPAN && rec.n > s {
                rec.span[rec.nspan as usize] = [s, rec.n];
                rec.nspan += 1;
            }
        }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
}
/// A private stream (for pieces of a run that execute in another process or
/// thread): a pure function of `seed`, itself drawn from the run's stream.
pub fn local(seed: u64) -> Choices {
    let rec = crate::sys::mmap_shared(core::mem::size_of::<Rec>()) as *mut Rec;
    Choices::gen(seed, rec)
}
