#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the long texts stay reviewable)."""
import json, os
F="sci-rs/src/signal/filter/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ZI=[("Sos::zi0, Sos::zi1","the two delay values of a section; together with b and a the entire filter state","sci-rs/src/signal/filter/design/sos.rs")]

p("C01","Streaming IIR output does not depend on how the stream is cut or fed",
 "For any cascade of second-order sections (any number of sections, any starting delay values, a0 = 1) and any stream of samples, cutting the stream into pieces of any sizes and feeding each piece through any forward filtering entry point (batch, lazy iterator, single sample, f32 slice, integer slice) yields, piece after piece, the outputs and the delay values of the sample-at-a-time direct-form-II-transposed recurrence run over the whole stream, up to floating-point rounding. Every input sample yields exactly one output and coefficients are never modified. Several channels fed in any interleaving do not disturb each other.",
 ["inputs","histories","schedules","configurations"],
 "every section count, f32 and f64, every chunking of every stream, every choice of entry point per chunk, every interleaving of channels",
 "The two sosfilt tests use one 4-section filter, one sine wave, one split in the middle; the specialised arms for 2,3,5,6,8..20 sections and both f32/integer fast paths have no test at all.",
 [F+"sosfilt.rs",F+"design/sos.rs"],
 [("in-place update of zi0/zi1 in each fold; per-section-count arms and TILE=4 arms must all implement the same recurrence",F+"sosfilt.rs")],ZI,["returned samples","sections passed by &mut"])

p("C02","An interrupted or crashed filter stream resumes exactly where it stopped",
 "If forward filtering is cut short at any point - the sample source or a sample conversion unwinds, or the caller abandons, skips through or leaks a lazy output - the sections hold exactly the state after the samples consumed before that point, so feeding the remaining samples gives the same outputs as an uninterrupted run. The public values of the sections are the filter's entire state: a process that dies at any instant and restarts from any earlier copy of the sections, replaying the samples since that copy, also produces the uninterrupted outputs.",
 ["fault_sequences","crash_points","histories","inputs"],
 "every fault position inside every batch, every crash instant (basic block) and checkpoint age, every entry point and section count",
 "can_resume_sosfilt resumes once, between two complete batches; no test interrupts a batch, drops a lazy output, or restarts from a copy.",
 [F+"sosfilt.rs",F+"design/sos.rs"],
 [("each sample is folded through the caller's sections before the next one is pulled; no scratch copy of the state",F+"sosfilt.rs")],ZI,["sections after catch_unwind / drop / restart","subsequent outputs"])

p("C03","Lazy outputs are on demand; reads are in order and end of stream is final",
 "Creating a lazy filtered stream or a lazy lag-difference stream reads nothing from its source, and producing each output reads only the samples that output depends on (exactly one new sample per filtered output), so an output is available as soon as its sample has arrived; the lazy stream's advertised length never contradicts what it then yields. Every stream-consuming routine (filters, zero-phase filter, Savitzky-Golay, statistics, companion matrix) reads each pass over its source in order, each sample once, and treats the first end-of-stream as final: samples a source would hand out afterwards never influence a result.",
 ["schedules","histories","inputs"],
 "every arrival pattern and end-of-stream position, every consumption pattern of the lazy outputs, every size-hint style, sources that resume after their end",
 "Tests only collect eagerly from in-memory arrays with exact sizes; a read-ahead, an eager rewrite or a read past the end gives the same collected values.",
 [F+"sosfilt.rs","sci-rs/src/stats.rs",F+"savgol_filter.rs",F+"sosfiltfilt.rs"],
 [("plain Iterator::map / zip / fold over the source",F+"sosfilt.rs"),("lag_diff zip of clone and skip(1)","sci-rs/src/stats.rs")],None,["pull log kept by the simulated source"])

p("C04","A call's result depends on its arguments alone, whatever else runs",
 "Every numerical routine of the library returns bit-identical results (and leaves its mutable arguments bit-identical) for identical arguments, regardless of which calls ran earlier in the process, which calls on other threads are preempted in the middle or run between its own steps, which earlier calls were aborted by a panic, and which calls its own sample source makes while being read. No such combination makes a call deadlock, spin, or panic where it would not do so alone.",
 ["schedules","histories","inputs","fault_sequences"],
 "every interleaving at basic-block granularity of every multiset of API calls, every prior history including aborted calls, every re-entrant call from a source",
 "Each test makes one call (or a few, in a fixed order) and never overlaps calls in a controlled way; a wrong memo key, shared scratch buffer or lost initialisation needs a particular history or interleaving.",
 ["sci-rs/src/signal","sci-rs/src/stats.rs","sci-rs/src/special","sci-rs/src/linalg"],
 [("no global, static or thread-local mutable state anywhere in the crate; FFT planners are created per call","whole crate")],None,["result bits","mutable arguments","panic outcome"])

p("C05","Non-allocating routines never touch the heap",
 "The slice, lazy and single-sample forward filters, the buffer-free statistics (mean, variance, standard deviation, autocorrelation, tiled f32 autocorrelation, f32 RMS, lag difference, RMSSD, z-score) and the scalar special functions (factorials, combinatorics, Bessel i0/i0e) complete without requesting, resizing or releasing heap memory, so they keep working when no heap memory is left. This holds for every input, section count, stream length and consumption pattern for which they return normally.",
 ["inputs","fault_sequences","histories"],
 "every section count, stream length, hint style and consumption pattern, with the allocator refusing from any point on",
 "No test observes the allocator; collecting into a Vec inside a *_st routine passes every test.",
 [F+"sosfilt.rs","sci-rs/src/stats.rs","sci-rs/src/special"],
 [("iterator adaptors and in-place loops only; *_st naming convention (README)","sci-rs/src/stats.rs")],None,["global allocator calls during the routine"])

p("C06","No heap growth, and no allocation sized by what a source merely advertises",
 "Once a call has returned, unwound or been abandoned and its result is dropped, the library retains no heap memory on its behalf: repeating any workload, including calls cut short by an unwinding source, leaves the live heap constant. While a stream-consuming routine (batch and zero-phase filter, Savitzky-Golay, statistics) runs, its peak heap use is bounded by a fixed multiple of the samples actually delivered plus its window or filter size, never by a length the source merely advertises (truthfully but loosely).",
 ["histories","fault_sequences","inputs"],
 "every workload of API calls with unwinds and early drops, repeated; every legal size hint of every stream",
 "No test observes the allocator or uses a source whose size hint is not exact.",
 [F+"sosfilt.rs",F+"savgol_filter.rs",F+"sosfiltfilt.rs","sci-rs/src/stats.rs"],
 [("owned Vecs / matrices dropped on return and unwind","whole crate"),("buffers grown by what was read",F+"savgol_filter.rs")],None,["live and peak bytes at the global allocator"])

p("C07","No hostile source or length makes the library touch memory it does not own",
 "Whatever an iterator argument does (yields more or fewer items than announced, misreports its length, unwinds part-way, resumes after its end) and whatever lengths, shapes, orders and parameters are passed, a safe call either returns or unwinds. It never reads or writes outside its own and its arguments' storage, never uses freed storage, and never returns values that depend on uninitialised memory.",
 ["inputs","fault_sequences","histories"],
 "every safe public routine, every source behaviour and every length/shape/parameter combination (release semantics: overflow checks off)",
 "Tests pass consistent lengths and well-behaved slices; the unchecked indexing in the companion matrix, the initial-condition solver and the odd extension is only exercised in bounds.",
 ["sci-rs/src/linalg/companion.rs",F+"lfilter_zi.rs",F+"ext.rs",F+"sosfilt.rs",F+"savgol_filter.rs","sci-rs/src/special/xsf/chbevl.rs"],
 [("asserts guarding get_unchecked / get_unchecked_mut / unwrap_unchecked",F+"ext.rs"),("length equality check before the slice filters",F+"sosfilt.rs")],None,["guard pages around every allocation","differential poison of fresh memory"])

p("C08","Running out of memory never yields a wrong answer",
 "If any one heap request, or every request from some point on, fails during a call, then the process stops with an allocation error, or the call unwinds, or the call returns exactly the result it returns when memory is available. It never returns a truncated or altered result, corrupts memory or hangs.",
 ["fault_sequences","inputs"],
 "every allocating routine, every position of the failing request",
 "Tests never see an allocation fail.",
 ["sci-rs/src/signal","sci-rs/src/stats.rs","sci-rs/src/linalg"],
 [("infallible alloc APIs (Vec, nalgebra, ndarray) whose failure path is the allocation error handler","whole crate")],None,["exit status and result bits per injected failure"])

p("C09","Stream statistics equal their definitions over exactly the delivered samples",
 "For a stream of finite numbers that ends at an arbitrary point, mean, variance, standard deviation, median, median absolute deviation, lag-k autocorrelation, lag differences, RMSSD, z-scores and modified z-scores equal their textbook population definitions over exactly the delivered samples, up to rounding, and reported counts equal the number delivered (zero value and zero count for an empty stream where a count is reported). The windowed f32 autocorrelation (for every lag requested, with its mean removal and returned variance) and f32 RMS equal their definitions over the window. None of this depends on whether samples are handed over by value or by reference, or on how loosely the source (truthfully) advertises its length.",
 ["inputs","histories","fault_sequences"],
 "every stream content, length and end point, element type, window length modulo the tile size, lag and size-hint style",
 "Doctests check each statistic on one or two short arrays of 4-16 values; autocorr_fast32, rms_fast32 and autocorr are not compared with expected values at all.",
 ["sci-rs/src/stats.rs"],
 [("quickselect for the median; two-pass variance; tiled loops with a remainder for the f32 routines","sci-rs/src/stats.rs")],None,["returned values and counts"])

p("C10","Zero-phase and Savitzky-Golay smoothing of a delivered stream match definition",
 "Zero-phase filtering of a delivered stream longer than its padding returns, sample for sample, the forward-backward result with odd extension and steady-state initial conditions (SciPy's default), whatever delay values the given sections hold mid-stream, and leaves those sections untouched. Savitzky-Golay filtering returns one output per delivered sample, equal to the least-squares polynomial (or its requested derivative at the given spacing) evaluated at the window centre with the edge samples repeated, for every end point of the stream and however loosely the source (truthfully) advertises its length.",
 ["inputs","histories","fault_sequences"],
 "every cascade (including first-order sections), every delay state left by earlier streaming, every stream length above the padding, window, order and derivative",
 "can_sosfiltfilt compares only output length; savgol tests cover three inputs with exact-size sources; no test runs zero-phase filtering on sections that are in use by a stream.",
 [F+"sosfiltfilt.rs",F+"sosfilt_zi.rs",F+"lfilter_zi.rs",F+"ext.rs",F+"savgol_filter.rs","sci-rs/src/linalg/companion.rs"],
 [("private copy of the sections, re-primed before each direction; padding computed from section order",F+"sosfiltfilt.rs"),("nearest-edge padding around the collected stream",F+"savgol_filter.rs")],ZI,["returned samples","sections before and after"])

p("C11","The plot helper always returns, reaps its interpreter and closes its pipes",
 "Whatever the Python interpreter does - is missing, cannot be started, dies before or while reading, closes its input, reads slowly, exits with an error or is killed - and whichever pipe, spawn, write or wait call fails or is interrupted, the plot helper returns without panicking. When it returns, the interpreter it started has exited and has been waited for, and every pipe end and file handle it opened is closed; it returns only after the interpreter exited, never waits on an interpreter that is itself still waiting for input, and never consumes the exit status of a process it did not start.",
 ["fault_sequences","schedules","inputs"],
 "every interpreter behaviour, pipe capacity, data size, and failing or interrupted system call",
 "The helper has no test; its failures need a child process that misbehaves at a particular instant.",
 ["sci-rs/src/plot.rs"],
 [("early returns on spawn and write errors; stdin dropped before wait","sci-rs/src/plot.rs")],None,["simulated kernel's process table and descriptor table"])

p("C12","The plot script reaches the interpreter whole and plots exactly the given data",
 "An interpreter that reads its input to the end receives exactly one complete script, byte-identical however the pipe fragments, delays or interrupts the writes. Executing that script, for one or more non-empty series, plots every given series once, in order, with exactly the given f32 values (including NaN, infinities, negative zero and subnormals), next to a plot of its autocorrelation.",
 ["inputs","fault_sequences","schedules"],
 "every set of f32 series, every fragmentation of the pipe writes by short writes, interruptions and a slow reader",
 "The helper has no test.",
 ["sci-rs/src/plot.rs"],
 [("write_all of the formatted script, then closing the pipe","sci-rs/src/plot.rs")],None,["bytes read by the simulated interpreter","plot calls recorded when the script is executed by a real Python with stub plotting modules"])

p("C13","A primed filter starts, and restarts after a gap, without a transient",
 "Priming a cascade for steady state sets delay values that depend only on the coefficients, overwriting whatever the sections held; scaling them by a level makes the cascade answer a constant stream at that level with exactly its DC gain times the level from the first output on, up to rounding. This holds for any number of sections, through any entry point and chunking, at stream start and when re-priming after a drop-out in mid-stream, and likewise for the direct-form initial state of a filter of any order.",
 ["histories","inputs","fault_sequences"],
 "every cascade with DC gain defined, every prior streaming history and drop-out position, every entry point and chunking",
 "One 9th-order example compares the primed values with SciPy from zero state; nothing runs a primed cascade or re-primes one in use.",
 [F+"sosfilt_zi.rs",F+"lfilter_zi.rs","sci-rs/src/linalg/companion.rs"],
 [("section-by-section solve of zi = A zi + B with the running DC gain as scale",F+"sosfilt_zi.rs")],ZI,["outputs of the primed cascade","delay values"])

PURE=["inputs"]
p("N01","IIR designs meet their specification and agree across output formats",
 "For every order, band type and valid critical frequencies, the designed Butterworth or Chebyshev digital filter is stable, meets its corner and ripple specification, and its b/a, zero-pole-gain and second-order-section forms describe the same transfer function.",
 PURE,"every order, band type, frequency pair, sampling rate and precision","A handful of SciPy examples at orders 2-8.",
 [F+"design"],[("analog prototype, band transform, bilinear transform, pairing into sections",F+"design/iirfilter.rs")])
p("N02","FFT convolution and correlation equal the direct sums in every mode",
 "Full, valid and same modes of convolution and correlation equal the corresponding slice of the direct sum for all input lengths, up to rounding.",
 PURE,"every pair of lengths and contents, every mode","Five fixed examples with lengths up to ~1000, one relation of lengths each.",
 ["sci-rs/src/signal/convolve.rs"],[("zero-padded FFT product and mode slicing","sci-rs/src/signal/convolve.rs")])
p("N03","Fourier resampling returns n samples of the band-limited interpolant",
 "Resampling returns exactly the requested number of samples and reproduces any signal whose spectrum survives the truncation.",
 PURE,"every input length, target length and content","Only output lengths are tested, on random lengths.",
 ["sci-rs/src/signal/resample.rs"],[("spectrum truncation or zero padding","sci-rs/src/signal/resample.rs")])
p("N04","Factorials, combinatorics and Bessel functions are exact within their type",
 "Factorial, k-factorial, combination, permutation and Stirling numbers are exact whenever the result fits the integer type, and i0/i0e agree with the mathematical function to working precision.",
 PURE,"every integer type and argument in range; every real argument","Table look-ups for small arguments.",
 ["sci-rs/src/special"],[("cached tables and products; Chebyshev series","sci-rs/src/special")])
p("N05","The square wave has the documented period, levels and duty cycle",
 "The square wave is +1 on the first duty fraction of each 2*pi period and -1 on the rest for every time and duty in [0,1].",
 PURE,"every time value, array shape and duty","20 time points, five duties.",
 ["sci-rs/src/signal/wave/mod.rs"],[("remainder by two pi and threshold","sci-rs/src/signal/wave/mod.rs")])
p("N06","Every build configuration gives the same results",
 "Any routine available in the no_std + alloc and the std builds returns the same results up to rounding in both, and every advertised feature set compiles.",
 ["configurations","inputs"],"all feature sets","The test suite runs in two feature sets but never compares them.",
 ["sci-rs/Cargo.toml","sci-rs/src/lib.rs"],[("cfg(feature) gates; libm versus std float functions","sci-rs/src/lib.rs")])
p("N07","Re-exported GH, Kalman and Gaussian filters behave as documented",
 "The alpha-beta(-gamma), Kalman and Gaussian filters exposed by the crate follow their published update equations.",
 ["inputs","histories"],"every measurement history","No test in this repository.",
 [F+"mod.rs"],[("pub use of third-party crates kalmanfilt and gaussfilt",F+"mod.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
