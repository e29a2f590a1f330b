//! C12: the plot script arrives whole and plots exactly the given data.
use simrt::kern::Cfg;
use simrt::{ev, nontrivial, probe, sys, violate, Choices, Rng};

fn series(c: &mut Choices) -> Vec<Vec<f32>> {
    let k = if c.chance(80) { c.us(6, 24) } else { c.us(1, 5) };
    let k = if c.chance(12) { c.us(25, 700) } else { k };
    (0..k)
        .map(|_| {
            let w = if k > 24 { [1, 0, 0, 0, 0] } else { [900, 450, 100, 10, 1] };
            let n = match c.weighted(&w) {
                0 => c.us(1, 12),
                1 => c.us(1, 120),
                2 => c.us(1_000, 9_000),
                3 => c.us(16_000, 70_000),
                _ => c.us(70_000, 600_000),
            };
            let style = c.draw(6);
            let mut r = Rng::new(c.seed());
            (0..n)
                .map(|i| match style {
                    0 => r.unit() as f32,
                    1 => f32::from_bits(r.next() as u32),
                    2 => [0.0, -0.0, 1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, 1e16, 1e-7, 16777216.0][r.below(14) as usize],
                    3 => i as f32,
                    4 => (r.unit() * 1e20) as f32,
                    _ => 2.5,
                })
                .collect()
        })
        .collect()
}
/// What is handed over: slices of the series, now and then the same one
/// again, an equal copy of it, or a part of it.
fn arrange<'a>(c: &mut Choices, own: &'a [Vec<f32>], copies: &'a [Vec<f32>]) -> Vec<&'a [f32]> {
    let mut v: Vec<&[f32]> = vec![];
    for i in 0..own.len() {
        v.push(&own[i]);
        if c.chance(100) {
            let j = c.us(0, i);
            match c.draw(4) {
                0 => v.push(&own[j]),
                1 => v.push(&copies[j]),
                2 => v.push(&own[j][..c.us(1, own[j].len())]),
                _ => v.push(&own[j][c.us(0, own[j].len() - 1)..]),
            }
            probe("aliased-or-repeated-series");
        }
    }
    v
}
fn call(c: &mut Choices, data: &[&[f32]], cfg: Cfg) -> Vec<Vec<u8>> {
    let r = crate::c11::plot_once(c, data, cfg);
    simrt::op();
    r.procs
        .iter()
        .filter(|p| !p.foreign)
        .filter_map(|p| {
            let i = p.arg.iter().position(|a| a == b"-c");
            match i {
                Some(i) => p.arg.get(i + 1).cloned(),
                None => {
                    if !p.saw_eof {
                        violate!("input-never-ends", "the interpreter's input was not closed");
                    }
                    Some(p.received.clone())
                }
            }
        })
        .collect()
}
fn python(script: &[u8]) -> String {
    use std::os::fd::{FromRawFd, OwnedFd};
    use std::os::unix::process::CommandExt;
    let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
    unsafe {
        sys::sc(sys::SYS_PIPE2, a.as_mut_ptr() as i64, 0o2000000, 0, 0, 0, 0);
        sys::sc(sys::SYS_PIPE2, b.as_mut_ptr() as i64, 0o2000000, 0, 0, 0, 0);
    }
    let pid = sys::do_fork();
    if pid == 0 {
        let (i, o) = unsafe { (OwnedFd::from_raw_fd(a[0]), OwnedFd::from_raw_fd(b[1])) };
        for f in ["/usr/bin/python3", "/usr/local/bin/python3", "python3"] {
            let _ = std::process::Command::new(f).args(["-I", "-S", "-B", "-c", include_str!("../py/plotstub.py")]).stdin(i.try_clone().unwrap()).stdout(o.try_clone().unwrap()).exec();
        }
        sys::exit_group(127);
    }
    let close = |fd: i32| unsafe { sys::sc(sys::SYS_CLOSE, fd as i64, 0, 0, 0, 0, 0) };
    close(a[0]);
    close(b[1]);
    sys::write_all(a[1], script);
    close(a[1]);
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { sys::sc(sys::SYS_READ, b[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0) };
        if n == -4 {
            continue;
        }
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    close(b[0]);
    let (_, st) = sys::wait4(pid);
    if st != 0 || out.is_empty() {
        simrt::harness!("the real python3 could not be run (status {st:#x})");
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn same_bits(a: u32, b: u32) -> bool {
    let (x, y) = (f32::from_bits(a), f32::from_bits(b));
    a == b || x.is_nan() && y.is_nan()
}
struct Plot {
    auto: bool,
    row: Option<(i64, i64)>,
    bits: Vec<u32>,
    x: Option<Vec<f64>>,
    z: Option<Vec<f64>>,
}
fn nums(s: &str) -> Vec<f64> {
    s.split(',').filter(|s| !s.is_empty()).map(|v| v.parse().unwrap_or(f64::NAN)).collect()
}
fn judge(data: &[&[f32]], report: &str) {
    let mut plots: Vec<Plot> = vec![];
    for (i, l) in report.lines().enumerate() {
        if i == 0 {
            if let Some(e) = l.strip_prefix("RAISED ") {
                violate!("script-fails", "the script raises {e} for {} series", data.len());
            }
            if l == "OK 0" {
                violate!("nothing-shown", "the script ends without showing the plot");
            }
            continue;
        }
        let mut w = l.splitn(5, ' ');
        let k = w.next().unwrap_or("");
        if k == "X" || k == "Z" {
            let v = nums(l[2..].trim());
            if let Some(p) = plots.last_mut() {
                if k == "X" {
                    p.x = Some(v)
                } else {
                    p.z = Some(v)
                }
            }
            continue;
        }
        let row = w.next().and_then(|v| v.parse().ok());
        let col = w.next().and_then(|v| v.parse().ok());
        let _ = w.next();
        let bits = w.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|h| u32::from_str_radix(h, 16).unwrap_or(0)).collect();
        plots.push(Plot { auto: k == "A", row: row.zip(col), bits, x: None, z: None });
    }
    let raw: Vec<&Plot> = plots.iter().filter(|p| !p.auto).collect();
    let auto: Vec<&Plot> = plots.iter().filter(|p| p.auto).collect();
    if raw.len() != data.len() {
        violate!("series-count", "{} series given, the script plots {} (and {} autocorrelations)", data.len(), raw.len(), auto.len());
    }
    if auto.len() != data.len() {
        violate!("autocorrelation-missing", "{} series given, the script plots {} autocorrelations of a given series", data.len(), auto.len());
    }
    for (i, d) in data.iter().enumerate() {
        let eq = |p: &Plot| p.bits.len() == d.len() && p.bits.iter().zip(d.iter()).all(|(a, b)| same_bits(*a, b.to_bits()));
        if !eq(raw[i]) {
            let at = raw[i].bits.iter().zip(d.iter()).position(|(a, b)| !same_bits(*a, b.to_bits())).unwrap_or(d.len().min(raw[i].bits.len()));
            violate!(
                "data-altered",
                "series {i} of {}: {} samples given, {} plotted; sample {at} is {:?}, plotted as {:?}",
                data.len(),
                d.len(),
                raw[i].bits.len(),
                d.get(at),
                raw[i].bits.get(at).map(|b| f32::from_bits(*b))
            );
        }
        if !eq(auto[i]) {
            violate!("autocorrelation-wrong", "the autocorrelation plotted next to series {i} is not that of series {i}");
        }
        if let (Some((r, c)), Some((r2, c2))) = (raw[i].row, auto[i].row) {
            if r != r2 || (c - c2).abs() != 1 {
                violate!("autocorrelation-misplaced", "series {i} is plotted at row {r} column {c}, its autocorrelation at row {r2} column {c2}");
            }
            probe("plot-positions-compared");
        }
        if let (Some(z), Some(x)) = (&auto[i].z, &auto[i].x) {
            // values over the lags: proportional to the sums of products
            let n = d.len();
            let d: Vec<f64> = d.iter().map(|v| *v as f64).collect();
            let r = |k: usize| (0..n - k).map(|i| d[i] * d[i + k]).sum::<f64>();
            let r0 = r(0);
            if z.len() != x.len() {
                violate!("script-fails", "autocorrelation of series {i}: {} values against {} lags", z.len(), x.len());
            }
            let Some(z0) = x.iter().position(|v| *v == 0.0).map(|p| z[p]) else { continue };
            if r0.is_finite() && r0 > 1e-30 && z0.is_finite() && z0 > 0.0 {
                for (lag, v) in x.iter().zip(z) {
                    let k = lag.abs() as usize;
                    if k < n && (v / z0 - r(k) / r0).abs() > 1e-5 {
                        violate!("autocorrelation-wrong", "series {i} of length {n}: autocorrelation at lag {lag} is plotted as {:e} of the value at lag 0, expected {:e}", v / z0, r(k) / r0);
                    }
                }
                probe("autocorrelation-values-compared");
            }
        }
    }
}
pub fn body(c: &mut Choices) {
    let own = series(c);
    let copies = own.clone();
    let data = arrange(c, &own, &copies);
    let bytes: usize = data.iter().map(|d| d.len()).sum();
    let clean = call(c, &data, Cfg::clean());
    if clean.len() != 1 {
        violate!("script-count", "{} interpreters were started for one plot", clean.len());
    }
    let tries = if bytes > 200_000 { 1 } else { c.us(1, 3) };
    for _ in 0..tries {
        c.open();
        let mut cfg = Cfg::clean();
        cfg.p_short = c.pick(&[400, 0, 900]);
        cfg.p_eintr = c.pick(&[250, 0, 600]);
        cfg.p_wait_eintr = c.pick(&[0, 300]);
        cfg.cap = c.pick(&[4096, 65536, 512, 97, 1 << 20]);
        if bytes > 4_000 {
            cfg.cap = cfg.cap.max(if bytes > 100_000 { 65536 } else { 4096 });
        }
        ev!("python_plot of {} series, {bytes} samples; pipe capacity {}, short writes {}/1000, interrupted writes {}/1000", data.len(), cfg.cap, cfg.p_short, cfg.p_eintr);
        let got = call(c, &data, cfg);
        nontrivial();
        if got.len() != 1 {
            violate!("script-count", "{} interpreters were started for one plot", got.len());
        }
        if got[0] != clean[0] {
            let at = got[0].iter().zip(&clean[0]).position(|(a, b)| a != b).unwrap_or(got[0].len().min(clean[0].len()));
            violate!("script-corrupted", "the interpreter received {} bytes instead of {} and they differ from byte {at} on", got[0].len(), clean[0].len());
        }
        simrt::sig(simrt::mix(got[0].len() as u64, bytes as u64));
        c.close();
    }
    judge(&data, &python(&clean[0]));
    ev!("script executed by python: every series and its autocorrelation plotted");
}
