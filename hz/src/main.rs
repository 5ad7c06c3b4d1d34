//! Concrete-input search and replay against the real crate (built from /repo's working tree).
//! usage: hz PROP seed seconds scratch_dir out.json | hz PROP replay CASE_SEED SIZE scratch_dir
mod model;
mod props;
mod stubs;
use model::*;
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(prop: &str, seed: u64, size: usize, dir: &std::path::Path, logslot: &Arc<Mutex<Vec<String>>>) -> (R, Vec<String>, u64) {
    let mut c = Ctx { r: Rng::new(seed), size, log: vec![], steps: 0, dir: dir.to_path_buf() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::case(prop, &mut c)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    };
    *logslot.lock().unwrap() = c.log.clone();
    (r, c.log, c.steps)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let prop = a[1].clone();
    if prop == "finding" {
        // exit 1: the finding still reproduces
        let r = std::panic::catch_unwind(|| props::finding(&a[2]));
        match r {
            Ok(false) => std::process::exit(0),
            _ => std::process::exit(1),
        }
    }
    if prop == "stubs" {
        // the contracts assumed of the libraries, run against the libraries
        let s = stubs::run(a[2].parse().unwrap(), a[3].parse().unwrap(), std::path::Path::new(&a[4]));
        let n: Vec<String> = s.n.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let b: Vec<String> = s.bad.iter().map(|x| esc(x)).collect();
        std::fs::write(&a[5], format!("{{\"contracts\":{{{}}},\"failed\":[{}]}}", n.join(","), b.join(","))).unwrap();
        std::process::exit(if s.bad.is_empty() { 0 } else { 1 });
    }
    let logslot = Arc::new(Mutex::new(vec![]));
    if a[2] == "replay" {
        let (seed, size): (u64, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_secs(60));
            println!("FAIL: no answer within 60 s (endless loop)");
            std::process::exit(1);
        });
        let (r, log, _) = run_case(&prop, seed, size, std::path::Path::new(&a[5]), &logslot);
        for l in log {
            println!("  {}", l);
        }
        match r {
            Ok(()) => println!("OK"),
            Err(e) => {
                println!("FAIL: {}", e);
                std::process::exit(1)
            }
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let dir = std::path::PathBuf::from(&a[4]);
    let out = a[5].clone();
    // watchdog: a case that does not end is a failure
    let cur = Arc::new(Mutex::new((0u64, 0usize)));
    {
        let cur = cur.clone();
        let out = out.clone();
        let prop = prop.clone();
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(300));
                let p = PROGRESS.load(Ordering::SeqCst);
                if p != last {
                    last = p;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(45) {
                    let (s, z) = *cur.lock().unwrap();
                    let mut f = std::fs::File::create(&out).unwrap();
                    let _ = writeln!(f, "{{\"fail\":{},\"case_seed\":{},\"size\":{},\"log\":[],\"prop\":{}}}",
                        esc("no answer within 45 s (endless loop)"), s, z, esc(&prop));
                    std::process::exit(1);
                }
            }
        });
    }
    let t0 = Instant::now();
    let mut n = 0u64;
    let mut steps = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut fail: Option<(String, u64, usize, Vec<String>)> = None;
    let mut sr = Rng::new(seed);
    while t0.elapsed().as_secs_f64() < secs || n < 60 {
        // mostly small cases, now and then a larger one
        let size = if n % 480 == 439 { if prop == "C10" { 400 } else { 500 + 500 * ((n / 480) as usize % 3) } } else if n >= 160 && n % 120 == 79 { 40 + 50 * ((n / 120) as usize % 4) } else if n >= 160 && n % 40 == 39 { 22 } else { 1 + ((n / 40) as usize).min(9) };
        let cs = sr.next() >> 1;
        *cur.lock().unwrap() = (cs, size);
        let (r, log, st) = run_case(&prop, cs, size, &dir, &logslot);
        n += 1;
        steps += st;
        PROGRESS.store(n, Ordering::SeqCst);
        if log.len() > 1 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            log.hash(&mut h);
            distinct.insert(h.finish());
            if samples.len() < 3 && n % 97 == 41 {
                samples.push(log.join("; ").chars().take(600).collect());
            }
        }
        if let Err(e) = r {
            fail = Some((e, cs, size, log));
            break;
        }
    }
    let mut f = std::fs::File::create(&out).unwrap();
    if samples.is_empty() {
        samples.push("(none kept)".into());
    }
    let s: Vec<String> = samples.iter().map(|x| esc(x)).collect();
    let mut o = format!("{{\"evaluations\":{},\"steps\":{},\"distinct\":{},\"samples\":[{}],\"prop\":{}", n, steps, distinct.len(), s.join(","), esc(&prop));
    let code = if let Some((e, cs, size, log)) = fail {
        let l: Vec<String> = log.iter().map(|x| esc(x)).collect();
        o.push_str(&format!(",\"fail\":{},\"case_seed\":{},\"size\":{},\"log\":[{}]", esc(&e), cs, size, l.join(",")));
        1
    } else {
        0
    };
    let _ = writeln!(f, "{}}}", o);
    let _ = f.flush();
    std::process::exit(code);
}
