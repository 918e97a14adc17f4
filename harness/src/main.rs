mod gen;
mod props;
mod val;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

/// search PROP --seed N --secs S [--cases N] [--progress FILE] [--from K] : exit 1 and a report on the first violation
/// replay PROP CASE : run one case again
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let show = std::env::var("HARNESS_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let own = i.location().is_some_and(|l| l.file().starts_with("src/"));
        if show {
            println!("PANIC {i}");
        }
        *LAST.lock().unwrap() = if own { String::new() } else { m };
    }));
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(a)).unwrap();
    let rc = t.join().unwrap_or(3);
    std::process::exit(rc);
}

static LAST: Mutex<String> = Mutex::new(String::new());

/// a panic that says the library lost its way; numbers too large, functions not written yet and the like are no answer but no violation
fn lost(m: &str) -> bool {
    ["Illegal reduction", "unreachable code", "index out of bounds", "out of range for slice"].iter().any(|x| m.contains(x))
}

fn one(prop: &str, case: u64) -> (bool, Option<String>) {
    match std::panic::catch_unwind(|| props::case(prop, case)) {
        Ok(r) => (false, r),
        Err(_) => {
            let m = LAST.lock().unwrap().clone();
            (true, lost(&m).then(|| format!("panic in a case of {prop}: {m}\n  input    {}", props::noted())))
        }
    }
}

fn run(a: Vec<String>) -> i32 {
    let prop = a[1].clone();
    if a[0] == "replay" {
        let case: u64 = a[2].parse().unwrap();
        let (p, r) = one(&prop, case);
        return match r {
            Some(t) => {
                println!("{t}");
                1
            }
            None => {
                println!("no violation in case {case}{}", if p { " (panicked)" } else { "" });
                0
            }
        };
    }
    let seed: u64 = arg(&a, "--seed").map_or(1, |s| s.parse().unwrap());
    let secs: f64 = arg(&a, "--secs").map_or(10.0, |s| s.parse().unwrap());
    let cases: u64 = arg(&a, "--cases").map_or(u64::MAX, |s| s.parse().unwrap());
    let from: u64 = arg(&a, "--from").map_or(0, |s| s.parse().unwrap());
    let all = a.iter().any(|x| x == "--all");
    let prog = arg(&a, "--progress").map(|f| std::fs::File::create(f).unwrap());
    let t0 = Instant::now();
    let (mut n, mut panics) = (from, 0);
    let limit: f64 = arg(&a, "--case-secs").map_or(4.0, |s| s.parse().unwrap());
    static AT: AtomicU64 = AtomicU64::new(0);
    // a case that does not come back ends the process: the driver goes on behind it
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let k = AT.load(Ordering::Relaxed);
            if k != last {
                (last, since) = (k, Instant::now());
            } else if since.elapsed() > Duration::from_secs_f64(limit) {
                std::process::exit(4);
            }
        }
    });
    let mut bad = 0;
    while n < cases && t0.elapsed() < Duration::from_secs_f64(secs) {
        let case = seed.wrapping_mul(1_000_003).wrapping_add(n.wrapping_mul(0x9E3779B97F4A7C15)) >> 1;
        if let Some(f) = &prog {
            let _ = f.write_at(format!("{n:20}").as_bytes(), 0);
        }
        AT.store(n, Ordering::Relaxed);
        let (p, r) = one(&prop, case);
        panics += p as u64;
        n += 1;
        if let Some(t) = r {
            println!("CASE {case}\n{t}");
            let _ = std::io::stdout().flush();
            bad += 1;
            if !all {
                println!("STATS cases={} panics={panics}", n - from);
                return 1;
            }
        }
    }
    println!("STATS cases={} panics={panics} checked={}", n - from, props::checked());
    (bad > 0) as i32
}
