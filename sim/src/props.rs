use simrt::driver::Prop;
const LIB: &[&str] = &["sci-rs (all of it: release build of /repo's working tree, basic-block instrumented)", "nalgebra, ndarray, rustfft, itertools, num-traits, core, alloc, std"];
const SEAMS: &[&str] = &["sample sources (scripted producers behind Iterator)", "global allocator (deterministic region allocator)", "clock and randomness (simulated)"];
const ASM: &[&str] = &["seeded sampling: absence of a violation is evidence, not proof", "x86-64 Linux, release semantics (overflow checks off), default target features"];
pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        body: crate::c01::body,
        quick_runs: 200000,
        thorough_runs: 5000000,
        rule: "a run draws 1-3 channels (0-40 sections, f32/f64/integer streams, random delay values) and up to 14 pieces fed through drawn entry points and consumption patterns; non-trivial: at least one non-empty piece was fed; distinct: by hash of the full event log and decision sequence",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C02",
        body: crate::c02::body,
        quick_runs: 150000,
        thorough_runs: 5000000,
        rule: "a run draws 1-2 channels and up to 9 steps: pieces, pieces cut short by an unwinding source, consumer, sample access or sample conversion, lazy outputs read by internal iteration, abandoned or leaked, rollback to a copy, and child processes that die at a drawn basic block and are restarted from a durable checkpoint; non-trivial: at least one interruption, rollback or crash; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C03",
        body: crate::c03::body,
        quick_runs: 300000,
        thorough_runs: 6000000,
        rule: "a run draws 1-4 rounds: a lazy stream over a live source pulled by next/nth/size_hint with reads checked after every output, a feedback loop whose source needs the previous output, or a stream routine over a source that resumes after its end compared bit by bit with the truncated stream; non-trivial: at least one output or compared result; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C04",
        body: crate::c04::body,
        quick_runs: 50000,
        thorough_runs: 2500000,
        rule: "a run draws 1-7 calls (each from the whole API, most of them near-duplicates of one another), computes each alone in a pristine process, then 1-3 phases of call histories, 2-4 threads preempted at drawn basic blocks, calls aborted by an unwinding source, and re-entrant calls; non-trivial: at least one comparison; distinct: by hash of event log and decisions (the preemption points included)",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 200_000_000,
    },
    Prop {
        id: "C05",
        body: crate::c05::body,
        quick_runs: 300000,
        thorough_runs: 6000000,
        rule: "a run draws 1-6 calls of routines that need no heap and executes the library code with every heap entry point armed; non-trivial: at least one armed call returned normally; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C06",
        body: crate::c06::body,
        quick_runs: 110000,
        thorough_runs: 4000000,
        rule: "a run draws 1-3 rounds: a workload of 1-3 calls over the whole API repeated 3-10 times with other arguments and sources that unwind, live heap compared after every repetition; or one stream routine over a source that legally advertises far more than it delivers, peak heap compared with a bound in the samples delivered; non-trivial: at least one measured workload; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C07",
        body: crate::c07::body,
        quick_runs: 20000,
        thorough_runs: 1200000,
        rule: "a run draws 1-5 calls with hostile lengths, shapes, orders, length reports, resuming and unwinding sources, each executed twice with every heap block against an unmapped page (either side), freed blocks unmapped and heap and stack poisoned differently; non-trivial: at least one call executed; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 60_000_000,
    },
    Prop {
        id: "C08",
        body: crate::c08::body,
        quick_runs: 100000,
        thorough_runs: 4000000,
        rule: "a run draws 1-4 calls; each is executed once with memory and once in a process where one drawn heap request, or every request from a drawn one on, fails; non-trivial: at least one request was refused; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 200_000_000,
    },
    Prop {
        id: "C09",
        body: crate::c09::body,
        quick_runs: 30000,
        thorough_runs: 1500000,
        rule: "a run draws 1-4 rounds: a float or integer stream (0 to 70000 samples, ties, offsets, mixed magnitudes, sorted runs) delivered by value, reference or handle with a drawn length report, 1-4 statistics of it compared with compensated f64 definitions; or one windowed f32 routine at one of 34 window/lag shapes; non-trivial: at least one comparison; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C10",
        body: crate::c10::body,
        quick_runs: 200000,
        thorough_runs: 6000000,
        rule: "a run draws 1-3 rounds: a cascade (0-24 sections, first-order sections included) streaming through drawn entry points with zero-phase calls in between, some cut short by an unwinding source, compared with an independent f64 forward-backward reference, sections compared bit by bit; or a Savitzky-Golay call with drawn window, order, derivative, spacing, end point and length report compared with orthogonal-polynomial weights; non-trivial: at least one call; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C13",
        body: crate::c13::body,
        quick_runs: 200000,
        thorough_runs: 6000000,
        rule: "a run draws a cascade and 1-4 phases: an arbitrary streaming history and a drop-out, priming (twinned with the same coefficients holding other delay values, non-finite ones included), scaling by a level and a constant stream cut into pieces through drawn entry points; or the direct-form state of a filter of order 1-11; non-trivial: at least one output compared with the DC gain; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C11",
        body: crate::c11::body,
        quick_runs: 35000,
        thorough_runs: 2000000,
        rule: "a run draws 1-3 calls of the plot helper under the simulated kernel: each fault kind on or off per call (swarm), interpreter model (reads all, dies, closes input, stalls), pipe capacity, reader speed, exit status, SIGCHLD disposition, an unrelated child; the process table and descriptor table are judged at return; non-trivial: the helper ran; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
    Prop {
        id: "C12",
        body: crate::c12::body,
        quick_runs: 8000,
        thorough_runs: 500000,
        rule: "a run draws 1-5, now and then up to 700, non-empty f32 series (raw bit patterns, special values, usually up to 9000 samples, rarely up to 600 000), takes the script from a fault-free kernel, compares 1-3 deliveries under short writes, interruptions, small pipes and slow readers byte by byte, and executes the script in a real Python with recording stand-ins for matplotlib, scipy and numpy; non-trivial: at least one faulty delivery compared; distinct: by hash of event log and decisions",
        real: LIB,
        stub: SEAMS,
        assumptions: ASM,
        step_limit: 600_000_000,
    },
];
