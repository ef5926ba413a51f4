//! C19 workloads for sanitizers (driven by san.py): `c19 work|leak --seed N --cases N --max N --engines a,b`.
use gsmon::prelude::*;
use gsmon::work::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::time::{Duration, Instant};

static LIVE: AtomicI64 = AtomicI64::new(0);
struct Counting;
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[cfg(not(miri))]
#[global_allocator]
static A: Counting = Counting;

fn once(engine: &str, r: &mut StdRng, what: usize, max: usize, t: &mut Tally) {
    match engine {
        "59" => exercise::<E59>(r, what, max, t),
        "w" => exercise::<EW>(r, what, max, t),
        "7" => exercise::<E7>(r, what, max, t),
        "3" => exercise::<E3>(r, what, max, t),
        "t" => exercise::<ET>(r, what, max, t),
        _ => exercise::<Bls>(r, what, max, t),
    }
}
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|p| args.get(p + 1)).cloned().unwrap_or(d.into());
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let cases: u64 = opt("--cases", "10").parse().unwrap();
    let max: usize = opt("--max", "4").parse().unwrap();
    let threads: usize = opt("--threads", "2").parse().unwrap();
    let only: Vec<usize> = opt("--only", "").split(',').filter_map(|x| x.parse().ok()).collect();
    let secs: f64 = opt("--seconds", "1e9").parse().unwrap();
    let first: usize = opt("--first", "0").parse().unwrap();
    let engines: Vec<String> = opt("--engines", "59").split(',').map(String::from).collect();
    gsmon::mon::install_panic_hook();
    // Outside of any pool, the library's tasks go to this one.
    rayon::ThreadPoolBuilder::new().num_threads(threads).build_global().unwrap();
    let mut t = Tally::default();
    let mut by_use = [0u64; USES.len()];
    let mut grown: Vec<String> = vec![];
    let start = Instant::now();
    if args.first().map(|s| s == "leak").unwrap_or(false) {
        let uses: Vec<usize> = if only.is_empty() { (0..USES.len()).collect() } else { only };
        for e in &engines {
            for what in &uses {
                if *what == 12 {
                    // Threads and pools of their own: their bookkeeping is not the library's.
                    continue;
                }
                let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
                let live = pool.install(|| {
                    let mut s = vec![];
                    let mut seen = Tally::default();
                    for i in 0..16 * cases {
                        let mut r = seeded(mix(seed, i + 1000 * *what as u64));
                        let mut one = Tally::default();
                        once(e, &mut r, *what, max, &mut one);
                        by_use[*what] += 1;
                        seen.calls += one.calls;
                        seen.returned += one.returned;
                        seen.refused += one.refused;
                        if seen.wrong.is_empty() && !one.wrong.is_empty() {
                            seen.wrong = one.wrong.clone();
                        }
                        drop(one);
                        if i + 1 == cases || i + 1 == 4 * cases || i + 1 == 16 * cases {
                            s.push(LIVE.load(Relaxed));
                        }
                    }
                    t.calls += seen.calls;
                    t.returned += seen.returned;
                    t.refused += seen.refused;
                    if t.wrong.len() < 5 {
                        t.wrong.extend(seen.wrong);
                    }
                    s
                });
                let (a, b) = (live[1] - live[0], live[2] - live[1]);
                if std::env::var_os("GSMON_VERBOSE").is_some() {
                    eprintln!("{e} {}: {live:?}", USES[*what]);
                }
                // Growth from the first to the fourth multiple and on to the sixteenth.
                if a > 256 && b > 1024 {
                    grown.push(format!("{} ({e}): live memory grew by {a} bytes in {} uses, then by {b} bytes in {} more", USES[*what], 3 * cases, 12 * cases));
                }
            }
        }
    } else {
        for i in 0..cases {
            if start.elapsed() > Duration::from_secs_f64(secs) {
                break;
            }
            let mut r = seeded(mix(seed, i));
            let e = &engines[(i as usize / USES.len()) % engines.len()];
            let what = if only.is_empty() { (first + i as usize) % USES.len() } else { only[i as usize % only.len()] };
            by_use[what] += 1;
            // Now and then one side is long.
            let large: usize = opt("--large", "0").parse().unwrap();
            let m = if e == "b" {
                max.min(3)
            } else if large >= 64 && i % 45 == 4 {
                4 * large
            } else if large > 0 && i % 9 == 4 {
                large
            } else {
                max
            };
            if args.iter().any(|a| a == "--trace") {
                eprintln!("use {i}: {} on {e}", USES[what]);
            }
            // In a pool, or outside of any.
            if i % 3 == 0 && e != "b" {
                let n = 1 + pick(&mut r, 4);
                rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(|| once(e, &mut r, what, m, &mut t));
            } else {
                once(e, &mut r, what, m, &mut t);
            }
        }
    }
    let uses: Vec<String> = USES.iter().zip(by_use).map(|(u, n)| format!("{}:{n}", gsmon::mon::esc(u))).collect();
    let list = |v: &[String]| v.iter().map(|s| gsmon::mon::esc(s)).collect::<Vec<_>>().join(",");
    println!(
        "GSMON {{\"calls\":{},\"returned\":{},\"refused\":{},\"shapes\":{},\"uses\":{{{}}},\"wrong\":[{}],\"grown\":[{}]}}",
        t.calls,
        t.returned,
        t.refused,
        t.shapes.len(),
        uses.join(","),
        list(&t.wrong),
        list(&grown)
    );
}
