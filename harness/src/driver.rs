//! Runs one property: random cases on several threads, shrinking, a watchdog.
use crate::common::*;
use crate::prop;
use std::collections::HashSet;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn checked(p: &dyn Prop, case: &str) -> Result<bool, String> {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| p.check(case)));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_owned()
            };
            Err(format!("panic: {}", m))
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main() {
    panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match &*args[1] {
        "one" => {
            let case = std::fs::read_to_string(&args[3]).unwrap();
            // layout recurses with the depth of the document
            let name = args[2].clone();
            let t = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || checked(&*prop(&name), &case))
                .unwrap();
            match t.join().unwrap() {
                Ok(n) => println!("OK nontrivial={}", n),
                Err(e) => {
                    println!("FAIL {}", e);
                    std::process::exit(1)
                }
            }
        }
        "run" => run(&args[2], &args[3], args[4].parse().unwrap(), &args[5], &args[6]),
        _ => panic!("usage"),
    }
}

struct Shared {
    evaluations: AtomicU64,
    stop: AtomicBool,
    next: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn run(name: &str, tier: &str, seed: u64, out: &str, curdir: &str) {
    let start = Instant::now();
    let p = prop(name);
    let (mut limit, mut secs) = p.budget(tier == "thorough");
    if let Ok(s) = std::env::var("HARNESS_SECS") {
        secs = s.parse().unwrap()
    }
    if let Ok(s) = std::env::var("HARNESS_CASES") {
        limit = s.parse().unwrap()
    }
    drop(p);
    let shared = Arc::new(Shared {
        evaluations: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        next: AtomicU64::new(0),
        distinct: Mutex::new(HashSet::new()),
        samples: Mutex::new(Vec::new()),
        violations: Mutex::new(Vec::new()),
    });
    let n_threads = 7;
    let since: Vec<Arc<Mutex<Option<(Instant, String)>>>> =
        (0..n_threads).map(|_| Arc::new(Mutex::new(None))).collect();
    let mut threads = Vec::new();
    for t in 0..n_threads {
        let shared = shared.clone();
        let name = name.to_owned();
        let cur = format!("{}/cur{}", curdir, t);
        let since = since[t].clone();
        threads.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let p = prop(&name);
                    let fixed = p.fixed();
                    loop {
                        if shared.stop.load(Ordering::Relaxed) || start.elapsed().as_secs() > secs {
                            break;
                        }
                        let i = shared.next.fetch_add(1, Ordering::Relaxed);
                        if i >= limit + fixed.len() as u64 {
                            break;
                        }
                        let case = if (i as usize) < fixed.len() {
                            fixed[i as usize].clone()
                        } else {
                            let mut rng = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03));
                            p.generate(&mut rng, i - fixed.len() as u64)
                        };
                        std::fs::write(&cur, &case).unwrap();
                        *since.lock().unwrap() = Some((Instant::now(), case.clone()));
                        let r = checked(&*p, &case);
                        *since.lock().unwrap() = None;
                        shared.evaluations.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(nontrivial) => {
                                if nontrivial && shared.distinct.lock().unwrap().insert(hash(&case)) {
                                    let mut s = shared.samples.lock().unwrap();
                                    if s.len() < 5 {
                                        s.push(case.chars().take(600).collect())
                                    }
                                }
                            }
                            Err(m) => {
                                let k = p.key(&case, &m);
                                if p.known(&k)
                                    && shared.violations.lock().unwrap().iter().any(|(c, m)| p.key(c, m) == k)
                                {
                                    continue;
                                }
                                let (case, m) = shrink(&*p, case, m);
                                let mut v = shared.violations.lock().unwrap();
                                let key = p.key(&case, &m);
                                if p.known(&key) {
                                    if !v.iter().any(|(c, m)| p.key(c, m) == key) {
                                        v.push((case, m));
                                    }
                                } else {
                                    v.push((case, m));
                                    shared.stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    let _ = std::fs::remove_file(&cur);
                })
                .unwrap(),
        );
    }
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if Arc::strong_count(&shared) == 1 {
            break;
        }
        let mut hung = None;
        for s in &since {
            if let Some((t, c)) = &*s.lock().unwrap() {
                if t.elapsed().as_secs() > 30 {
                    hung = Some(c.clone())
                }
            }
        }
        if let Some(c) = hung {
            shared
                .violations
                .lock()
                .unwrap()
                .push((c, "does not finish (30 s)".to_owned()));
            break;
        }
    }
    let p = prop(name);
    let v = shared.violations.lock().unwrap();
    let mut o = String::from("{");
    o += &format!(
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"wall_s\": {:.2}, \"samples\": [",
        shared.evaluations.load(Ordering::Relaxed),
        shared.distinct.lock().unwrap().len(),
        json_str(p.rule()),
        start.elapsed().as_secs_f64()
    );
    o += &shared
        .samples
        .lock()
        .unwrap()
        .iter()
        .map(|s| json_str(s))
        .collect::<Vec<_>>()
        .join(", ");
    o += "], \"violations\": [";
    o += &v
        .iter()
        .map(|(c, m)| {
            format!(
                "{{\"case\": {}, \"message\": {}, \"key\": {}}}",
                json_str(c),
                json_str(m),
                json_str(&p.key(c, m))
            )
        })
        .collect::<Vec<_>>()
        .join(", ");
    o += "]}\n";
    std::fs::write(out, o).unwrap();
    std::process::exit(0)
}

/// Greedy: take the first smaller case that still fails, for at most 20 seconds.
fn shrink(p: &dyn Prop, mut case: String, mut msg: String) -> (String, String) {
    let start = Instant::now();
    'outer: loop {
        for c in p.shrink(&case) {
            if start.elapsed().as_secs() > 20 {
                break 'outer;
            }
            if let Err(m) = checked(p, &c) {
                if p.key(&c, &m) == p.key(&case, &msg) {
                    case = c;
                    msg = m;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (case, msg)
}
