//! C11: the plot helper always returns, reaps its interpreter, closes its pipes.
use crate::num::signal;
use simrt::kern::{self, Cfg, PState};
use simrt::{ev, nontrivial, sched, violate, Choices};

fn real_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
fn series(c: &mut Choices) -> Vec<Vec<f32>> {
    let k = c.us(0, 4);
    (0..k)
        .map(|_| {
            let n = match c.weighted(&[6, 3, 1]) {
                0 => c.us(0, 20),
                1 => c.us(0, 1000),
                _ => c.us(5_000, 40_000),
            };
            signal(c.draw(9) as u8, c.seed(), n, 1.0).iter().map(|v| *v as f32).collect()
        })
        .collect()
}
/// One call of the plot helper on the simulated kernel; the kernel's state
/// is taken at the instant of its return.
pub fn plot_once(c: &mut Choices, data: &[&[f32]], cfg: Cfg) -> kern::Report {
    let (gap, budget) = c.pick(&[(40, 0), (6, 60)]);
    let cp = c as *mut Choices as usize;
    sched::run_main(c, gap, budget, move || {
        kern::start(unsafe { &mut *(cp as *mut Choices) }, cfg);
        sci_rs::plot::python_plot(data.to_vec());
        core::mem::forget(sched::atomic()); // the rest is one step
        kern::stop()
    })
}
pub fn body(c: &mut Choices) {
    let calls = c.us(1, 3);
    for _ in 0..calls {
        c.open();
        let data = series(c);
        // swarm: each fault kind is on or off per call
        let mut on = |p: u64, v: u64| if c.chance(p) { v } else { 0 };
        let cfg = Cfg {
            p_pipe: on(120, 300),
            p_open: on(120, 300),
            p_spawn: on(150, 400),
            p_short: on(300, 400),
            p_eintr: on(300, 250),
            p_wio: on(150, 200),
            p_wait_eintr: on(300, 400),
            sigchld_ignored: on(100, 1) == 1,
            cap: 0,
            models: [3, 0, 0, 0],
            foreign: on(200, 1) == 1,
        };
        let mut cfg = cfg;
        cfg.cap = c.pick(&[65536, 4096, 512, 1 << 20]);
        cfg.models = if c.chance(700) { [3, 3, 2, 2] } else { [1, 0, 0, 0] };
        let bytes: usize = data.iter().map(|d| d.len()).sum();
        if bytes > 20_000 {
            cfg.cap = cfg.cap.max(4096);
        }
        let bytes: usize = data.iter().map(|d| d.len()).sum();
        ev!("python_plot of {} series, {bytes} samples; pipe capacity {}", data.len(), cfg.cap);
        if cfg.sigchld_ignored {
            simrt::fault("sigchld-ignored");
        }
        let foreign = cfg.foreign;
        let auto_reap = cfg.sigchld_ignored;
        let fds = real_fds();
        let r = plot_once(c, &data.iter().map(|d| &d[..]).collect::<Vec<_>>(), cfg);
        let fds2 = real_fds();
        simrt::op();
        nontrivial();
        if fds != fds2 {
            violate!("descriptor-leak", "python_plot returned with {} more open files than before", fds2 as i64 - fds as i64);
        }
        let mut started = 0;
        for p in &r.procs {
            if p.foreign {
                if p.state == PState::Reaped && !auto_reap {
                    violate!("reaps-foreign-child", "python_plot consumed the exit status of a process it did not start");
                }
                continue;
            }
            started += 1;
            match p.state {
                PState::Running => violate!("interpreter-running", "python_plot returned while the interpreter it started (pid {}, {:?}) is still running", p.pid, p.model),
                PState::Zombie(_) => violate!("interpreter-not-reaped", "python_plot returned without waiting for its interpreter (pid {}, {:?}): it stays a zombie", p.pid, p.model),
                PState::Reaped => {}
            }
        }
        if r.open_fds != 0 {
            violate!("descriptor-leak", "python_plot returned with {} pipe ends or files still open", r.open_fds);
        }
        ev!("returned; {started} interpreters started and reaped, no descriptor left (foreign child: {foreign})");
        simrt::sig(started);
        c.close();
    }
}
