//! Runs, aggregation, minimisation, replay files, evidence.
use crate::choice::{mix, Choices};
use crate::out::{self, cstr, Named, RunOut, NNAME};
use crate::{alloc, sched, sys};
use core::sync::atomic::{AtomicU64, Ordering::*};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

pub type Body = fn(&mut Choices);
pub struct Prop {
    pub id: &'static str,
    pub body: Body,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// basic-block budget per run
    pub step_limit: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct RunRec {
    sig: u64,
    ev: u64,
    ch: u64,
    steps: u64,
    switches: u64,
    simtime: u64,
    ops: u64,
    flags: u64, // 1 executed, 2 nontrivial, 4 failed, 8 harness error, 16 choice overflow
}
#[repr(C)]
struct Hdr {
    next: AtomicU64,
    min_fail: AtomicU64,
    harness: AtomicU64,
    names: [[Named; NNAME * 2]; 64],
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = mix(0xD57, seed);
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, run)
}

fn child_main(body: Body, limit: u64, o: *mut RunOut, mut ch: Choices) -> ! {
    out::set(o);
    sys::alarm(100);
    if std::env::var_os("SIM_STDERR").is_none() {
        sys::mute_stderr();
    }
    alloc::fresh();
    sched::reset();
    sched::step_limit(limit);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&mut ch)));
    alloc::calm();
    let ro = out::out();
    if r.is_err() {
        if unsafe { out::LAST_PANIC_HARNESS } {
            out::harness_error(format_args!("panic in harness: {}", out::last_panic()));
        }
        out::violation("unexpected-panic", format_args!("panic: {}", out::last_panic()));
    }
    sched::stamp();
    ro.evhash = mix(ro.evhash, ch.hash);
    if ro.status == 0 {
        ro.status = 1;
    }
    sys::exit_group(0)
}
/// Execute one run in a fresh process forked from this pristine one.
/// A run ended by the real machine (kill by the out-of-memory handler, real
/// time exhausted) says nothing about the code; it is executed again.
fn exec(p: &Prop, o: *mut RunOut, mk: impl Fn(*mut crate::choice::Rec) -> Choices) {
    for _ in 0..3 {
        exec1(p, o, &mk);
        let r = unsafe { &*o };
        if r.status != 2 || !matches!(r.class_str(), "hang" | "killed-by-signal-9") {
            return;
        }
    }
}
fn exec1(p: &Prop, o: *mut RunOut, mk: impl Fn(*mut crate::choice::Rec) -> Choices) {
    unsafe { (*o).reset() };
    let ch = mk(unsafe { &mut (*o).rec });
    let pid = sys::do_fork();
    if pid == 0 {
        child_main(p.body, p.step_limit, o, ch);
    }
    let (_, st) = sys::wait4(pid);
    let ro = unsafe { &mut *o };
    if ro.status == 0 {
        let sg = st & 0x7f;
        let (c, m) = if sg == 14 {
            ("hang", "no progress for 100 s of real time".to_string())
        } else if sg != 0 {
            ("killed", format!("process killed by signal {sg}{}", match sg { 11 => " (SIGSEGV: memory outside any live allocation was touched)", 7 => " (SIGBUS)", 6 => " (abort)", 4 => " (SIGILL)", _ => "" }))
        } else {
            ("exited", format!("process exited early with code {}", st >> 8))
        };
        let class = if sg != 0 && sg != 14 { format!("killed-by-signal-{sg}") } else { c.to_string() };
        ro.class[..class.len()].copy_from_slice(class.as_bytes());
        ro.class[class.len()] = 0;
        ro.msg[..m.len()].copy_from_slice(m.as_bytes());
        ro.msg[m.len()] = 0;
        ro.status = 2;
    }
}

fn add_names(dst: &mut [Named], src: &[Named]) {
    for s in src.iter().filter(|s| s.kind != 0) {
        for d in dst.iter_mut() {
            if d.kind == 0 {
                *d = *s;
                break;
            }
            if d.kind == s.kind && d.name == s.name {
                d.n += s.n;
                break;
            }
        }
    }
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub runs: Option<u64>,
    pub jobs: usize,
    pub cap_s: f64,
    pub out_dir: String,
    pub quiet: bool,
    pub dump: Option<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<'a>(xs: impl Iterator<Item = &'a str>) -> String {
    format!("[{}]", xs.map(jstr).collect::<Vec<_>>().join(", "))
}

/// Returns the process exit code.
pub fn check(p: &Prop, o: &Opts) -> i32 {
    let t0 = sys::now_ns();
    let runs = o.runs.unwrap_or(if o.tier == "thorough" { p.thorough_runs } else { p.quick_runs });
    let hdr_p = sys::mmap_shared(core::mem::size_of::<Hdr>()) as *mut Hdr;
    let hdr = unsafe { &mut *hdr_p };
    hdr.min_fail.store(u64::MAX, SeqCst);
    let recs_len = runs as usize * core::mem::size_of::<RunRec>();
    let recs: &mut [RunRec] = unsafe { core::slice::from_raw_parts_mut(sys::mmap_shared(recs_len.max(4096)) as *mut RunRec, runs as usize) };
    let outs: Vec<*mut RunOut> = (0..o.jobs + 1).map(|_| sys::mmap_shared(core::mem::size_of::<RunOut>()) as *mut RunOut).collect();
    let cov = sys::mmap_shared(sched::MAXGUARD);
    sched::set_cov(cov);
    out::install_hook();
    let cap_ns = (o.cap_s * 1e9) as u64;
    let mut pids = vec![];
    for w in 0..o.jobs {
        let pid = sys::do_fork();
        if pid == 0 {
            let ro = outs[w];
            loop {
                let i = hdr.next.fetch_add(1, SeqCst);
                if i >= runs || i > hdr.min_fail.load(SeqCst) || sys::now_ns() - t0 > cap_ns {
                    break;
                }
                let s = run_seed(o.seed, p.id, i);
                exec(p, ro, |rec| Choices::gen(s, rec));
                let r = unsafe { &mut *ro };
                let mut flags = 1;
                if r.nontrivial != 0 {
                    flags |= 2;
                }
                if r.rec.overflow != 0 {
                    flags |= 16;
                }
                if r.status == 2 {
                    flags |= 4;
                    hdr.min_fail.fetch_min(i, SeqCst);
                }
                if r.status == 3 {
                    flags |= 8;
                    hdr.harness.store(i + 1, SeqCst);
                    hdr.min_fail.fetch_min(i, SeqCst);
                }
                let mut chh = 0;
                for v in &r.rec.v[..r.rec.n as usize] {
                    chh = mix(chh, *v);
                }
                recs[i as usize] = RunRec { sig: r.sig, ev: r.evhash, ch: chh, steps: r.steps, switches: r.switches, simtime: r.simtime_ns, ops: r.ops, flags };
                add_names(&mut hdr.names[w], &r.names);
            }
            sys::exit_group(0);
        }
        pids.push(pid);
    }
    for pid in pids {
        sys::wait4(pid);
    }
    let search_s = (sys::now_ns() - t0) as f64 / 1e9;
    let main = outs[o.jobs];
    let fail = hdr.min_fail.load(SeqCst);
    let mut code = 0;
    let mut replay_path = String::new();
    let mut violations = 0;
    if fail != u64::MAX {
        let s = run_seed(o.seed, p.id, fail);
        for _ in 0..3 {
            exec(p, main, |rec| Choices::gen(s, rec));
            if unsafe { (*main).status } != 1 {
                break;
            }
        }
        let m = unsafe { &mut *main };
        if m.status == 3 {
            println!("HARNESS-ERROR property={} run={fail} {}", p.id, m.msg_str());
            return 2;
        }
        violations = 1;
        code = 1;
        let reproduced = m.status == 2;
        let (class, msg, choices, trace);
        if reproduced {
            let mut best: Vec<u64> = m.rec.v[..m.rec.n as usize].to_vec();
            let cls = m.class_str().to_string();
            if m.rec.overflow == 0 {
                best = shrink(p, main, best, &cls);
            }
            exec(p, main, |rec| Choices::replay(best.clone(), rec));
            let mut again = unsafe { &mut *main };
            if again.status != 2 || m.rec.overflow != 0 {
                exec(p, main, |rec| Choices::gen(s, rec));
                again = unsafe { &mut *main };
                best = again.rec.v[..again.rec.n as usize].to_vec();
            }
            class = again.class_str().to_string();
            msg = again.msg_str().to_string();
            trace = again.trace_str();
            choices = best;
        } else {
            class = "not-reproduced".to_string();
            msg = format!("run {fail} failed in the search but not when re-executed: behaviour depends on something outside the simulator's control");
            trace = String::new();
            choices = vec![];
        }
        let dir = &o.out_dir;
        let _ = std::fs::create_dir_all(dir);
        replay_path = format!("{dir}/{}-s{}-r{fail}.json", p.id, o.seed);
        let tr: Vec<&str> = trace.lines().collect();
        let body = format!(
            "{{\n \"property\": {},\n \"verif_seed\": {},\n \"run\": {fail},\n \"run_seed\": {s},\n \"class\": {},\n \"message\": {},\n \"reproduced\": {reproduced},\n \"choices\": [{}],\n \"trace\": [\n  {}\n ]\n}}\n",
            jstr(p.id), o.seed, jstr(&class), jstr(&msg),
            choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            tr.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(",\n  ")
        );
        let _ = std::fs::write(&replay_path, body);
        println!("violation class: {class}");
        println!("violation: {msg}");
        println!("minimised to {} choices (seed {} run {fail}); trace in the replay file; replay with: bash check.sh --replay {replay_path}", choices.len(), o.seed);
        println!("VIOLATION property={} replay={replay_path}", p.id);
    }
    // evidence
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    for w in 0..o.jobs {
        for n in hdr.names[w].iter().filter(|n| n.kind != 0) {
            *if n.kind == 1 { &mut faults } else { &mut probes }.entry(cstr(&n.name).to_string()).or_insert(0) += n.n;
        }
    }
    let done: Vec<&RunRec> = recs.iter().filter(|r| r.flags & 1 != 0).collect();
    let n = done.len() as u64;
    let mut dn = HashSet::new();
    let mut di = HashSet::new();
    for r in &done {
        if r.flags & 2 != 0 {
            dn.insert((r.sig, r.ev));
        }
        di.insert(r.sig);
    }
    let steps: u64 = done.iter().map(|r| r.steps).sum();
    let switches: u64 = done.iter().map(|r| r.switches).sum();
    let simtime: u64 = done.iter().map(|r| r.simtime).sum();
    let ops: u64 = done.iter().map(|r| r.ops).sum();
    let overflow = done.iter().filter(|r| r.flags & 16 != 0).count();
    let covered = unsafe { core::slice::from_raw_parts(cov, sched::MAXGUARD) }.iter().filter(|b| **b != 0).count();
    // determinism self-test: re-execute a sample and compare event hashes
    let mut redone = 0;
    let mut differ = 0;
    let mut samples = vec![];
    if code == 0 {
        let stride = (n / if o.tier == "thorough" { 200 } else { 24 }).max(1);
        let mut i = 0;
        while i < runs && redone < 200 {
            if recs[i as usize].flags & 1 != 0 {
                let s = run_seed(o.seed, p.id, i);
                exec(p, main, |rec| Choices::gen(s, rec));
                let m = unsafe { &*main };
                redone += 1;
                if m.evhash != recs[i as usize].ev {
                    differ += 1;
                }
                if samples.len() < 3 && m.nontrivial != 0 {
                    let tr: Vec<String> = m.trace_str().lines().take(14).map(|l| jstr(&l.chars().take(220).collect::<String>())).collect();
                    samples.push(format!("{{\"run\": {i}, \"run_seed\": {s}, \"choices\": {}, \"basic_blocks\": {}, \"trace_head\": [{}]}}", m.rec.n, m.steps, tr.join(", ")));
                }
            }
            i += stride;
        }
        if differ > 0 {
            println!("HARNESS-ERROR property={}: {differ} of {redone} re-executed runs differed: simulation is not deterministic", p.id);
            code = 2;
        }
    } else {
        samples.push(format!("{{\"replay\": {}}}", jstr(&replay_path)));
    }
    let wall = (sys::now_ns() - t0) as f64 / 1e9;
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {n},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [\n   {samples}\n  ],\n  \"runs_per_hour\": {rph},\n  \"seeds_per_hour\": {rph},\n  \"simulated_time_s\": {st:.3},\n  \"simulated_operations\": {ops},\n  \"basic_blocks_executed\": {steps},\n  \"thread_switches\": {switches},\n  \"faults_injected\": {{{faults}}},\n  \"rare_conditions_reached\": {{{probes}}},\n  \"distinct_interleavings\": {di},\n  \"interleaving_measure\": \"distinct hashes of the sequence of scheduling, delivery and fault decisions with the basic block or operation at which each took effect\",\n  \"basic_block_edges_covered\": {covered},\n  \"basic_block_edges_instrumented\": {guards},\n  \"runs_with_truncated_choice_log\": {overflow},\n  \"determinism_reruns\": {redone},\n  \"determinism_reruns_differing\": {differ},\n  \"real_components\": {real},\n  \"stubbed_components\": {stub},\n  \"exhaustive\": false\n }},\n \"assumptions\": {asm},\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        id = jstr(p.id), tier = jstr(&o.tier), seed = o.seed, dn = dn.len(), rule = jstr(p.rule),
        samples = samples.join(",\n   "), rph = (n as f64 / search_s * 3600.0) as u64,
        st = simtime as f64 / 1e9, faults = map(&faults), probes = map(&probes), di = di.len(),
        guards = sched::guards(), real = jlist(p.real.iter().copied()), stub = jlist(p.stub.iter().copied()), asm = jlist(p.assumptions.iter().copied()),
    );
    if let Some(d) = &o.dump {
        let mut s = String::new();
        for (i, r) in recs.iter().enumerate() {
            let _ = writeln!(s, "{i} {:x} {:x} {:x} {} {}", r.sig, r.ev, r.ch, r.steps, r.flags);
        }
        let _ = std::fs::write(d, s);
    } else {
        let edir = format!("{}/../evidence", o.out_dir);
        let _ = std::fs::create_dir_all(&edir);
        if std::fs::write(format!("{edir}/{}.json", p.id), ev).is_err() {
            println!("HARNESS-ERROR cannot write evidence");
            return 2;
        }
    }
    if !o.quiet {
        println!(
            "{}: {n} runs ({} distinct non-trivial) in {search_s:.1}s, {} faults, {switches} switches, {steps} blocks, edges {covered}/{}; determinism {}/{redone}",
            p.id, dn.len(), faults.values().sum::<u64>(), sched::guards(), redone - differ
        );
        println!("  faults {{{}}}", map(&faults));
        println!("  probes {{{}}}", map(&probes));
    }
    code
}

fn shrink(p: &Prop, ro: *mut RunOut, start: Vec<u64>, class: &str) -> Vec<u64> {
    let t0 = sys::now_ns();
    let mut best = start;
    let mut spans: Vec<[u32; 2]> = vec![];
    let mut execs = 0;
    let budget_ns = 40_000_000_000u64;
    let max = 2500;
    let test = |cand: &[u64], execs: &mut u64| -> Option<(Vec<u64>, Vec<[u32; 2]>)> {
        if *execs >= max || sys::now_ns() - t0 > budget_ns {
            return None;
        }
        *execs += 1;
        let c = cand.to_vec();
        exec(p, ro, |rec| Choices::replay(c.clone(), rec));
        let r = unsafe { &*ro };
        if r.status == 2 && r.class_str() == class && r.rec.overflow == 0 {
            Some((r.rec.v[..r.rec.n as usize].to_vec(), r.rec.span[..r.rec.nspan as usize].to_vec()))
        } else {
            None
        }
    };
    fn less(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a.iter().fold(0u128, |s, x| s + *x as u128)) < (b.len(), b.iter().fold(0u128, |s, x| s + *x as u128))
    }
    if let Some((v, s)) = test(&best.clone(), &mut execs) {
        best = v;
        spans = s;
    } else {
        return best;
    }
    loop {
        let before = (best.len(), best.iter().fold(0u128, |s, x| s + *x as u128));
        // 1. delete spans, largest first
        let mut k = 0;
        loop {
            let mut order: Vec<[u32; 2]> = spans.clone();
            order.sort_by_key(|s| core::cmp::Reverse(s[1] - s[0]));
            let Some(sp) = order.get(k) else { break };
            let (a, b) = (sp[0] as usize, sp[1] as usize);
            if b <= best.len() && b > a {
                let mut c = best[..a].to_vec();
                c.extend_from_slice(&best[b..]);
                if let Some((v, s)) = test(&c, &mut execs) {
                    if less(&v, &best) {
                        best = v;
                        spans = s;
                        continue;
                    }
                }
                // zero the span
                if best[a..b].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[a..b].fill(0);
                    if let Some((v, s)) = test(&c, &mut execs) {
                        if less(&v, &best) {
                            best = v;
                            spans = s;
                            continue;
                        }
                    }
                }
            }
            k += 1;
            if k > 400 {
                break;
            }
        }
        // 2. delete aligned chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let a = i.saturating_sub(size);
                let mut c = best[..a].to_vec();
                c.extend_from_slice(&best[i.min(best.len())..]);
                if let Some((v, s)) = test(&c, &mut execs) {
                    if less(&v, &best) {
                        best = v;
                        spans = s;
                    }
                }
                i = a.min(best.len());
            }
            size /= 2;
        }
        // 3. lower values
        let mut i = 0;
        while i < best.len() {
            let orig = best[i];
            if orig > 0 {
                let mut lo = 0u64;
                for cand in [0, 1, orig / 2, orig - 1] {
                    if cand >= best[i] || cand < lo {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = cand;
                    if let Some((v, s)) = test(&c, &mut execs) {
                        if less(&v, &best) {
                            best = v;
                            spans = s;
                            break;
                        }
                    } else {
                        lo = cand + 1;
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
        let after = (best.len(), best.iter().fold(0u128, |s, x| s + *x as u128));
        if after >= before || execs >= max || sys::now_ns() - t0 > budget_ns {
            break;
        }
    }
    best
}

/// Minimal field extraction from our own replay files.
fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let i = s.find(&format!("\"{k}\": "))? + k.len() + 4;
    Some(&s[i..])
}
pub fn replay_property(text: &str) -> Option<String> {
    Some(field(text, "property")?.trim_start_matches('"').split('"').next()?.to_string())
}
pub fn replay(p: &Prop, text: &str, path: &str) -> i32 {
    out::install_hook();
    let class = field(text, "class").unwrap_or("\"\"").trim_start_matches('"').split('"').next().unwrap_or("").to_string();
    let list = field(text, "choices").and_then(|s| s.strip_prefix('[')).and_then(|s| s.split(']').next()).unwrap_or("");
    let v: Vec<u64> = list.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let ro = sys::mmap_shared(core::mem::size_of::<RunOut>()) as *mut RunOut;
    exec(p, ro, |rec| Choices::replay(v.clone(), rec));
    let r = unsafe { &*ro };
    print!("{}", r.trace_str());
    match r.status {
        2 => {
            println!("violation class: {} (recorded: {class})", r.class_str());
            println!("violation: {}", r.msg_str());
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
        3 => {
            println!("HARNESS-ERROR {}", r.msg_str());
            2
        }
        _ => {
            println!("no violation: the recorded run passes on this tree");
            0
        }
    }
}

/// Print the event log of one generated run.
pub fn show(p: &Prop, seed: u64, run: u64) {
    out::install_hook();
    let ro = sys::mmap_shared(core::mem::size_of::<RunOut>()) as *mut RunOut;
    exec(p, ro, |rec| Choices::gen(run_seed(seed, p.id, run), rec));
    let r = unsafe { &*ro };
    print!("{}", r.trace_str());
    println!("status {} {} {} steps {} events lost {}", r.status, r.class_str(), r.msg_str(), r.steps, r.trace_lost);
}
