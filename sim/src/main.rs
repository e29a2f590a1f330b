use simrt::driver::{check, replay, replay_property, Opts};
#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod calls;
mod chan;
mod num;
mod props;
mod source;

/// Fixed address-space layout, so that not even addresses vary between runs.
fn fix_layout() {
    use simrt::sys;
    unsafe {
        let p = sys::sc(sys::SYS_PERSONALITY, 0xffffffff, 0, 0, 0, 0, 0);
        if p >= 0 && p & 0x0040000 == 0 && std::env::var_os("SIM_LAYOUT").is_none() {
            if sys::sc(sys::SYS_PERSONALITY, p | 0x0040000, 0, 0, 0, 0, 0) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_LAYOUT", "1").env("RUST_BACKTRACE", "0").exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
}
fn main() {
    fix_layout();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let usage = || -> ! {
        eprintln!("usage: sim check ID [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] [--cap S] [--dump FILE] | sim replay FILE | sim show ID --seed N --run K | sim list");
        std::process::exit(2)
    };
    let out_dir = get("--replays").unwrap_or("/verif/replays".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let Some(p) = props::PROPS.iter().find(|p| p.id == id) else { usage() };
            let tier = get("--tier").unwrap_or("quick".into());
            let cap = if tier == "thorough" { 3600.0 } else { 240.0 };
            let o = Opts {
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                runs: get("--runs").and_then(|s| s.parse().ok()),
                jobs: get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
                cap_s: get("--cap").and_then(|s| s.parse().ok()).unwrap_or(cap),
                out_dir,
                quiet: false,
                dump: get("--dump"),
                tier,
            };
            std::process::exit(check(p, &o))
        }
        Some("replay") => {
            let path = a.get(2).cloned().unwrap_or_default();
            let Ok(t) = std::fs::read_to_string(&path) else { usage() };
            let Some(p) = replay_property(&t).and_then(|id| props::PROPS.iter().find(|p| p.id == id)) else { usage() };
            std::process::exit(replay(p, &t, &path))
        }
        Some("show") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let Some(p) = props::PROPS.iter().find(|p| p.id == id) else { usage() };
            simrt::driver::show(p, get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), get("--run").and_then(|s| s.parse().ok()).unwrap_or(0));
        }
        Some("list") => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
        }
        _ => usage(),
    }
}
