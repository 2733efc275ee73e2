#![allow(unused_braces, unused_mut, unused_doc_comments)]
//! Bounded companion of the deductive checks: compares the real crate with an independent
//! reference on generated inputs. `driver run PROP SEED BUDGET_MS`, `driver replay PROP CASE`,
//! `driver known PROP`.
mod comps;
mod model;
mod oracles;
mod rng;

use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);

fn one(f: oracles::Oracle, case: u64) -> Result<(), String> {
    let r = std::panic::catch_unwind(|| f(&mut rng::Rng::new(case)));
    match r {
        Ok(x) => x,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}\nlast input: {}", oracles::last()))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("TZ").is_err() {
        std::env::set_var("TZ", "CET");
    }
    std::panic::set_hook(Box::new(|i| oracles::note_panic(i.to_string())));
    let f = oracles::find(&a[2]).unwrap_or_else(|| {
        eprintln!("no oracle for {}", a[2]);
        std::process::exit(3)
    });
    match a[1].as_str() {
        "run" => {
            let seed: u64 = a[3].parse().unwrap();
            let budget = Duration::from_millis(a[4].parse().unwrap());
            std::thread::spawn(|| {
                let (mut last, mut since) = (u64::MAX, Instant::now());
                loop {
                    std::thread::sleep(Duration::from_millis(200));
                    let t = TICK.load(SeqCst);
                    if t != last {
                        last = t;
                        since = Instant::now();
                    } else if since.elapsed() > Duration::from_secs(20) {
                        println!("FAIL case={}\nno answer within 20 s\nlast input: {}", CASE.load(SeqCst), oracles::last());
                        std::process::exit(1);
                    }
                }
            });
            let start = Instant::now();
            let mut n = 0u64;
            let mut seen = std::collections::HashSet::new();
            let mut samples: Vec<String> = vec![];
            oracles::clear();
            while start.elapsed() < budget {
                let case = seed.wrapping_mul(1_000_000_007).wrapping_add(n);
                CASE.store(case, SeqCst);
                TICK.fetch_add(1, SeqCst);
                if let Err(e) = one(f, case) {
                    println!("FAIL case={case}\n{e}");
                    std::process::exit(1);
                }
                n += 1;
                let l = oracles::input();
                if l.len() > 2 && seen.len() < 2_000_000 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    l.hash(&mut h);
                    if seen.insert(h.finish()) && samples.len() < 5 && n % 7 == 1 {
                        samples.push(l.chars().take(400).collect());
                    }
                }
            }
            for s in &samples {
                println!("SAMPLE {}", s.escape_debug());
            }
            println!("OK cases={n} distinct={}", seen.len());
            std::process::exit(0);
        }
        "replay" => match one(f, a[3].parse().unwrap()) {
            Ok(()) => println!("OK"),
            Err(e) => {
                println!("FAIL case={}\n{e}", a[3]);
                std::process::exit(1)
            }
        },
        "known" => {
            for (p, what, fails) in oracles::KNOWN {
                if *p == a[2] && std::panic::catch_unwind(|| fails()).unwrap_or(true) {
                    println!("KNOWN-FINDING: property={p} {what}");
                }
            }
        }
        _ => std::process::exit(3),
    }
}
