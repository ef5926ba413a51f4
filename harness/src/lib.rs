//! gsmon: runtime monitors for the groth-sahai crate, one binary per property.
//! `c01 --tier quick --seed 1 --profile release --scale 1 --out part.json`
#![allow(unused_imports, dead_code, deprecated)]
pub mod dist;
pub mod engine;
pub mod gen;
pub mod mon;
pub mod objs;
pub mod prelude;
pub mod rng;
pub mod spec;
pub mod work;

use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn run(id: &str, rule: &str, check: fn(&mon::Mon)) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|p| args.get(p + 1)).cloned();
    let num = |k: &str, d: f64| opt(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    mon::install_panic_hook();
    let m: &'static mon::Mon = Box::leak(Box::new(mon::Mon {
        id: id.to_string(),
        tier: opt("--tier").unwrap_or("quick".into()),
        seed: opt("--seed").and_then(|v| v.parse().ok()).unwrap_or(1),
        profile: opt("--profile").unwrap_or("release".into()),
        scale: num("--scale", 1.0),
        only: opt("--stage").map(|s| (s, num("--case", 0.0) as u64)),
        threads: num("--threads", 8.0) as usize,
        start: Instant::now(),
        limit: Duration::from_secs_f64(num("--limit", 120.0)),
        evals: Default::default(),
        distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        counts: Mutex::new(BTreeMap::new()),
        samples: Default::default(),
        violations: Default::default(),
        known: Default::default(),
        harness_error: Default::default(),
        exhaustive: Default::default(),
        watch: (0..64).map(|_| Mutex::new(None)).collect(),
    }));
    let out = opt("--out");
    let (out2, rule2) = (out.clone(), rule.to_string());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        if let Some((stage, idx)) = m.hanging() {
            m.violations.lock().unwrap().push(mon::Violation { stage, idx, msg: format!("a call of the library has not returned for {} seconds", mon::HANG.as_secs()) });
            finish(m, &rule2, &out2);
        }
    });
    check(m);
    finish(m, rule, &out);
}
fn finish(m: &mon::Mon, rule: &str, out: &Option<String>) -> ! {
    let j = m.json(rule, &[]);
    match out {
        Some(f) => std::fs::write(f, j + "\n").unwrap(),
        None => println!("{j}"),
    }
    let v = m.violations.lock().unwrap();
    for x in v.iter().take(5) {
        let t: String = x.msg.chars().take(1500).collect();
        eprintln!("violation [{} #{}]: {}", x.stage, x.idx, t);
    }
    std::process::exit(if m.harness_error.lock().unwrap().is_some() {
        2
    } else if v.is_empty() {
        0
    } else {
        1
    });
}
