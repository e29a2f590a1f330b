//! C04: a call's result depends on its arguments alone.
use crate::calls::*;
use crate::source::*;
use simrt::{ev, fault, isolate, nontrivial, probe, sched, violate, Choices, Exit, Shared};
use std::sync::{Arc, Mutex};

const CAP: usize = 1 << 16;
fn hash(o: &Option<Vec<u64>>) -> (u64, u64) {
    match o {
        None => (0, 1),
        Some(v) => (v.iter().fold(0x11, |h, x| simrt::mix(h, *x)), 2 + v.len() as u64),
    }
}
/// Time passes, and the wall clock may be set.
fn later(c: &mut Choices) {
    sched::advance(c.pick(&[0, 1_000_000, 40_000_000_000, 86_400_000_000_000]));
    if c.chance(250) {
        fault("wall-clock-set");
        sched::set_wall(c.pick(&[-3_600_000_000_000, 1, 7_200_000_000_000, -400 * 86_400_000_000_000, 500_000_000]));
    }
}
/// A source that pauses before each sample.
fn paused(c: &mut Choices, hint: Hint) -> Ctl<'static> {
    let mut ctl = Ctl::new(hint);
    ctl.tick = c.pick(&[0, 0, 900, 3_000_000, 700_000_000]);
    if ctl.tick > 1_000_000 {
        fault("source-stalls");
    }
    ctl
}
/// The call alone, in a process that has never called the library before.
fn baseline(p: &P, hint: Hint) -> Option<Vec<u64>> {
    let sh = Shared::new(CAP * 8);
    let ex = isolate(|| {
        simrt::out::quiet(true);
        let ctl = Ctl::new(hint);
        let o = outcome(p, &ctl, &no_arm);
        let w = sh.words();
        match o {
            None => w[0] = 1,
            Some(v) => {
                if v.len() + 2 > CAP {
                    simrt::harness!("result too large: {}", v.len());
                }
                w[1..1 + v.len()].copy_from_slice(&v);
                w[0] = 2 + v.len() as u64;
            }
        }
    });
    if ex != Exit::Code(0) {
        violate!("baseline-died", "{p:?} alone in a fresh process: {ex:?}");
    }
    let w = sh.words();
    match w[0] {
        1 => None,
        n => Some(w[1..(n - 1) as usize].to_vec()),
    }
}
fn compare(p: &P, want: &Option<Vec<u64>>, got: &Option<Vec<u64>>, how: &str) {
    if want == got {
        return;
    }
    match (want, got) {
        (Some(_), None) => violate!("panics-in-company", "{:?} panics {how} ({}), but returns normally when called alone", p, simrt::out::last_panic()),
        (None, Some(_)) => violate!("result-depends-on-history", "{:?} returns {how}, but panics when called alone", p),
        (Some(w), Some(g)) => {
            let i = w.iter().zip(g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            violate!("result-depends-on-history", "{:?}: result {how} differs from the same call alone in a fresh process (word {i} of {}: {:x?} instead of {:x?})", p, w.len(), g.get(i), w.get(i))
        }
        _ => {}
    }
}
fn gen_pool(c: &mut Choices) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    let k = c.us(1, 4);
    for _ in 0..k {
        let p = P::gen(c, &ALL, 900);
        v.push(p);
        let m = c.us(0, 3);
        for _ in 0..m {
            let b = v[v.len() - 1];
            v.push(b.near(c));
        }
    }
    v.truncate(7);
    v
}
pub fn body(c: &mut Choices) {
    let pool = gen_pool(c);
    let hint = c.pick(&[Hint::Exact, Hint::Unknown, Hint::LooseBoth]);
    let base: Vec<Option<Vec<u64>>> = pool.iter().map(|p| baseline(p, hint)).collect();
    for (p, b) in pool.iter().zip(&base) {
        ev!("alone: {:?} n={} f32={} -> {:x?}", p.kind, p.n, p.f32, hash(b));
    }
    let phases = c.us(1, 3);
    for _ in 0..phases {
        c.open();
        match c.weighted(&[4, 3, 2, 2]) {
            0 => history(c, &pool, &base, hint),
            1 => threads(c, &pool, &base, hint),
            2 => aborted(c, &pool, &base, hint),
            _ => reentrant(c, &pool, &base, hint),
        }
        c.close();
    }
}
fn history(c: &mut Choices, pool: &[P], base: &[Option<Vec<u64>>], hint: Hint) {
    let n = c.us(1, 8);
    for _ in 0..n {
        let i = c.us(0, pool.len() - 1);
        later(c);
        let ctl = paused(c, hint);
        let got = outcome(&pool[i], &ctl, &no_arm);
        ev!("call {i} (a sample every {} ns) -> {:x?}", ctl.tick, hash(&got));
        compare(&pool[i], &base[i], &got, "after other calls in the same process");
        simrt::op();
        simrt::sig(i as u64);
    }
    probe("phase-call-history");
    nontrivial();
}
fn threads(c: &mut Choices, pool: &[P], base: &[Option<Vec<u64>>], hint: Hint) {
    let nt = c.us(2, 4);
    let gap = c.pick(&[400, 40, 3000, 8]);
    let budget = c.range(1, 60);
    let res: Arc<Mutex<Vec<(usize, usize, Option<Vec<u64>>)>>> = Arc::new(Mutex::new(Vec::with_capacity(64)));
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..nt {
        let k = c.us(1, 3);
        let list: Vec<usize> = (0..k).map(|_| c.us(0, pool.len() - 1)).collect();
        let pool = pool.to_vec();
        let res = res.clone();
        let tick = paused(c, hint).tick;
        ev!("thread {t} will call {list:?}");
        tasks.push(Box::new(move || {
            for i in list {
                let mut ctl = Ctl::new(hint);
                ctl.tick = tick;
                let o = outcome(&pool[i], &ctl, &no_arm);
                res.lock().unwrap().push((t, i, o));
            }
        }));
    }
    sched::run(c, gap, budget, tasks);
    fault("threads-preempted-mid-call");
    nontrivial();
    for (t, i, o) in res.lock().unwrap().iter() {
        ev!("thread {t} call {i} -> {:x?}", hash(o));
        compare(&pool[*i], &base[*i], o, "while other threads' calls are in progress");
        simrt::op();
    }
}
fn aborted(c: &mut Choices, pool: &[P], base: &[Option<Vec<u64>>], hint: Hint) {
    let n = c.us(1, 4);
    for _ in 0..n {
        let i = c.us(0, pool.len() - 1);
        let ctl = Ctl::new(hint);
        let at = c.draw(2 * pool[i].n as u64 + 2);
        if c.chance(700) {
            ctl.panic_at.set(at);
        } else {
            ctl.borrow_panic_at.set(at);
        }
        let mut p = pool[i];
        p.item = if ctl.borrow_panic_at.get() != u64::MAX { 2 } else { p.item };
        let r = outcome(&p, &ctl, &no_arm);
        ev!("call {i} with an unwind at read {at}: {}", if r.is_none() { "aborted" } else { "finished first" });
        let j = c.us(0, pool.len() - 1);
        let got = outcome(&pool[j], &Ctl::new(hint), &no_arm);
        ev!("then call {j} -> {:x?}", hash(&got));
        compare(&pool[j], &base[j], &got, "after an earlier call was aborted by an unwinding source");
        simrt::op();
    }
    nontrivial();
}
fn reentrant(c: &mut Choices, pool: &[P], base: &[Option<Vec<u64>>], hint: Hint) {
    let i = c.us(0, pool.len() - 1);
    let j = c.us(0, pool.len() - 1);
    let inner = core::cell::RefCell::new(None);
    let f = || {
        *inner.borrow_mut() = Some(outcome(&pool[j], &Ctl::new(hint), &no_arm));
    };
    later(c);
    let mut ctl = Ctl::new(hint);
    ctl.tick = paused(c, hint).tick;
    ctl.reenter = Some(&f);
    let at = c.draw(3 * pool[i].n as u64 + 1);
    let mut p = pool[i];
    if c.chance(600) {
        ctl.reenter_at.set(at);
    } else {
        p.item = 2;
        ctl.reenter_borrow_at.set(at);
    }
    let got = outcome(&p, &ctl, &no_arm);
    ev!("call {i} whose source makes call {j}: {:x?}", hash(&got));
    compare(&pool[i], &base[i], &got, "when its own source calls the library while being read");
    if let Some(x) = inner.into_inner() {
        fault("re-entrant-call");
        compare(&pool[j], &base[j], &x, "made from inside another call's source");
    }
    simrt::op();
    nontrivial();
}
