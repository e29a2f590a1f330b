#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T="deterministic simulation with fault injection: seeded search over "
C={
"C01":("chunkings, entry points, channel interleavings and consumption patterns, against a sample-at-a-time reference model",
 "Every output and delay value of every simulated stream is compared with the executable recurrence; f32 and f64, 0-40 sections."),
"C02":("interruption points: unwinding sources and conversions, abandoned and leaked lazy outputs, process death at any basic block with restart from a durable checkpoint",
 "After every interruption the sections and all later outputs must equal those of the uninterrupted reference."),
"C03":("live sources: arrival patterns, consumption patterns, feedback loops and sources that resume after their end, with invariants on the pull log after every output",
 "Reads are counted at the source; resumed sources are compared bit by bit with truncated ones."),
"C04":("thread schedules (preemption at basic blocks), call histories, aborted calls and re-entrant calls, bit-compared with each call alone in a pristine process",
 "Cooperative scheduler decides every switch; memory-model reorderings are not simulated (sequential consistency assumed)."),
"C05":("calls executed while every heap entry point is armed to refuse and report",
 "The global allocator is the seam; code paths of third-party crates are included."),
"C06":("repeated workloads with unwinding sources and loosely advertised lengths, live and peak heap measured at the allocator seam",
 "Leaks are judged over 3-10 repetitions, peaks against a bound linear in the delivered samples."),
"C07":("hostile sources, lengths, shapes and parameters with guard pages on either side of every heap block, unmapped freed blocks and differential poison of heap and stack",
 "Out-of-bounds access beyond the 16-byte alignment slack of a block, use after free and dependence on uninitialised memory are detected; stack overruns only through their effects. Values whose use cannot be observed are not tracked."),
"C08":("positions of a failing heap request (one, or all from a point on) in every allocating routine",
 "The process may stop or unwind; a returned result must be bit-identical to the fault-free one."),
"C09":("streams that end anywhere, item styles and length reports, against compensated f64 definitions with rigorous rounding bounds",
 "Tolerance is the worst-case rounding error of plain summation in the element type."),
"C10":("streaming histories around zero-phase calls, end points, length reports and unwinding sources, against independent f64 references",
 "f64 tolerance 1e-9 (1e-8 for Savitzky-Golay) of the largest internal magnitude, f32 4e-3 (1e-3)."),
"C11":("interpreter behaviours and failing or interrupted system calls in a simulated kernel (process table, descriptor table, pipes, clock)",
 "std::process::Command, the real library code and its system-call sequence run unmodified above the simulated kernel; the interpreter is a model."),
"C12":("fragmentations, interruptions and delays of the pipe in a simulated kernel, and execution of the delivered script by a real Python with recording plotting modules",
 "matplotlib, scipy and numpy are recording stand-ins; script text is judged only by what it does."),
"C13":("streaming histories, drop-outs, re-priming points, chunkings and entry points, against closed-form steady state and DC gain",
 "Delay values must be bit-identical for any prior state; outputs equal DC gain times level within rounding."),
}
N={
"N01":"A filter design is a pure function of its arguments: no concurrency, time, I/O, partial delivery or fault for its accuracy to depend on (its independence from histories and schedules, its memory safety and its behaviour on failing allocations are decided by C04, C07 and C08).",
"N02":"Convolution and correlation are pure functions of two arrays: nothing for a simulator to schedule or break (history, memory and allocation faults: C04, C06, C07, C08).",
"N03":"Resampling is a pure function of one array and a length: nothing for a simulator to schedule or break (history, memory and allocation faults: C04, C06, C07, C08).",
"N04":"Scalar pure functions: value accuracy depends on no schedule, fault, time or I/O (their heap freedom and independence of history are decided by C05 and C04).",
"N05":"A pure element-wise function: its values depend on no schedule, fault, time or I/O (history and allocation faults: C04, C08).",
"N06":"Compares two builds of the same pure functions; there is no execution nondeterminism to control, and one simulator binary links one build.",
"N07":"The re-exported filters are third-party crates (kalmanfilt, gaussfilt); the code that would have to change is not in this repository.",
}
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in N.items()],
 "notes":"No hooks in /repo: the seams are the sample iterators (the library's own input interface), the global allocator, basic-block callbacks inserted by the compiler (sancov), and interposed libc process and pipe calls. check.sh --replay FILE re-executes a recorded failure. Defects found and fixed: KNOWN_FINDINGS."}
for k,(t,n) in C.items():
    m["checks"].append({"property":k,"quick_cmd":f"VERIF_TIER=quick bash check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {k}","evidence_file":f"evidence/{k}.json","technique":T+t,"level":"exploration",
      "level_note":"Seeded sampling, not exhaustive: a pass means no violation in the runs counted in the evidence. "+n+" Trusted: the simulator runtime in sim/rt, the reference models in sim/src, rustc and std."})
json.dump(m,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"MANIFEST.json"),"w"),indent=1)
