//! The monitor: runs workloads case by case, collects verdicts and evidence.
use crate::engine;
use crate::rng::{mix, seeded};
use ark_std::rand::rngs::StdRng;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Violation {
    pub stage: String,
    pub idx: u64,
    pub msg: String,
}
pub struct Mon {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub profile: String,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub start: Instant,
    pub limit: Duration,
    pub evals: AtomicU64,
    pub distinct: Vec<Mutex<HashSet<u64>>>,
    pub counts: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<Violation>>,
    pub known: Mutex<BTreeMap<String, u64>>,
    pub harness_error: Mutex<Option<String>>,
    pub exhaustive: Mutex<Vec<String>>,
    /// What every worker is doing, since when.
    pub watch: Vec<Mutex<Option<(Instant, String, u64)>>>,
}
/// A case that takes longer than this does not terminate: the longest ones take seconds.
pub const HANG: Duration = Duration::from_secs(100);
struct CaseAbort;

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub static QUIET: AtomicBool = AtomicBool::new(true);
static GLOBAL_LAST: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        if std::env::var_os("GSMON_PANICS").is_some() {
            eprintln!("[panic] {s}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = s.clone());
        if let Ok(mut g) = GLOBAL_LAST.lock() {
            *g = s;
        }
    }));
}
fn panic_text(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-string payload".into()
    }
}
/// Runs library code; a panic is caught and returned as its message.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<CaseAbort>() {
                resume_unwind(p);
            }
            let t = panic_text(&p);
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(if loc.contains(&t) { loc } else { t })
        }
    }
}

pub struct Case<'a> {
    pub mon: &'a Mon,
    pub stage: &'a str,
    pub idx: u64,
    pub rng: StdRng,
    pub seed: u64,
    pub thorough: bool,
}
impl<'a> Case<'a> {
    pub fn fail(&self, msg: impl Into<String>) {
        let mut v = self.mon.violations.lock().unwrap();
        if v.len() < 50 {
            v.push(Violation { stage: self.stage.into(), idx: self.idx, msg: msg.into() });
        }
    }
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.mon.evals.fetch_add(1, Relaxed);
        if !ok {
            self.fail(msg());
        }
        ok
    }
    /// A library call that must succeed on this input.
    pub fn must<T>(&self, what: &str, f: impl FnOnce() -> T) -> T {
        match lib(f) {
            Ok(v) => v,
            Err(p) => {
                self.fail(format!("{what}: the call panicked on a valid input: {p}"));
                resume_unwind(Box::new(CaseAbort));
            }
        }
    }
    pub fn abort(&self) -> ! {
        resume_unwind(Box::new(CaseAbort))
    }
    pub fn count(&self, what: &str) {
        self.mon.count(what, 1);
    }
    pub fn seen<H: Hash>(&self, h: &H) {
        self.mon.seen(h);
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        if self.idx < 2 {
            let mut s = self.mon.samples.lock().unwrap();
            let head = format!("[{} #", self.stage);
            if s.len() < 24 && s.iter().filter(|x| x.starts_with(&head)).count() < 2 {
                s.push(format!("{head}{}] {}", self.idx, f()));
            }
        }
    }
    pub fn sub(&self, k: u64) -> u64 {
        mix(self.seed, k ^ 0x5151)
    }
}

impl Mon {
    pub fn count(&self, what: &str, n: u64) {
        let mut c = self.counts.lock().unwrap();
        if let Some(x) = c.get_mut(what) {
            *x += n;
        } else {
            c.insert(what.into(), n);
        }
    }
    pub fn seen<H: Hash>(&self, h: &H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        let v = s.finish();
        let mut d = self.distinct[(v % self.distinct.len() as u64) as usize].lock().unwrap();
        if d.len() < 400_000 {
            d.insert(v);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn expired(&self) -> bool {
        self.start.elapsed() > self.limit
    }
    pub fn known_finding(&self, what: &str) {
        *self.known.lock().unwrap().entry(what.into()).or_insert(0) += 1;
    }
    /// Runs `quick` (or `thorough`) cases of a workload on worker threads, each inside a rayon pool of its own.
    pub fn stage(&self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) + Sync) {
        self.stage_in(name, quick, thorough, false, f)
    }
    /// A complete enumeration: never scaled down, never cut short.
    pub fn stage_all(&self, name: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        self.stage_in(name, n, n, true, f);
    }
    fn stage_in(&self, name: &str, quick: u64, thorough: u64, all: bool, f: impl Fn(&mut Case) + Sync) {
        let n = if self.thorough() { thorough } else { quick };
        let n = if all { n } else { ((n as f64 * self.scale).ceil() as u64).max(1) };
        let (lo, hi) = match &self.only {
            Some((s, i)) if s == name => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        let t0 = Instant::now();
        let next = AtomicU64::new(lo);
        let done = AtomicU64::new(0);
        let before = self.violations.lock().unwrap().len();
        let worker = |w: usize| {
            let size = [1, 1, 2, 1, 3, 1, 1, 8][w % 8];
            let pool = rayon::ThreadPoolBuilder::new().num_threads(size).build().unwrap();
            pool.install(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= hi || (!all && self.expired()) || self.harness_error.lock().unwrap().is_some() {
                    break;
                }
                if self.violations.lock().unwrap().len() >= before + 5 {
                    break;
                }
                let mut hsh = std::collections::hash_map::DefaultHasher::new();
                (self.id.as_str(), name, i).hash(&mut hsh);
                let seed = mix(self.seed, hsh.finish());
                let mut c = Case { mon: self, stage: name, idx: i, rng: seeded(seed), seed, thorough: self.thorough() };
                IN_LIB.with(|x| x.set(0));
                *self.watch[w].lock().unwrap() = Some((Instant::now(), name.to_string(), i));
                if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
                    if !p.is::<CaseAbort>() {
                        let loc = LAST_PANIC.with(|l| l.borrow().clone());
                        // The monitors handle every output the property allows: this one was something else.
                        c.fail(format!("the library's output could not be processed: {} {loc}", panic_text(&p)));
                    }
                }
                *self.watch[w].lock().unwrap() = None;
                done.fetch_add(1, Relaxed);
            });
        };
        std::thread::scope(|s| {
            for w in 0..self.threads.min((hi - lo) as usize).max(1) {
                let worker = &worker;
                s.spawn(move || worker(w));
            }
        });
        let d = done.load(Relaxed);
        self.count(&format!("cases/{name}"), d);
        if all && d == hi - lo {
            self.exhaustive.lock().unwrap().push(format!("{name} ({d} cases)"));
        }
        if std::env::var_os("GSMON_VERBOSE").is_some() {
            eprintln!("  {name}: {d}/{} cases in {:.2}s", hi - lo, t0.elapsed().as_secs_f64());
        }
    }
    /// The case that hangs, if any.
    pub fn hanging(&self) -> Option<(String, u64)> {
        self.watch.iter().find_map(|w| w.lock().unwrap().as_ref().filter(|x| x.0.elapsed() > HANG).map(|x| (x.1.clone(), x.2)))
    }
    pub fn distinct_total(&self) -> u64 {
        self.distinct.iter().map(|d| d.lock().unwrap().len() as u64).sum()
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Mon {
    /// The partial evidence of this run, as JSON.
    pub fn json(&self, rule: &str, assumptions: &[&str]) -> String {
        let mut o = String::from("{");
        o += &format!("\"property\":{},\"tier\":{},\"seed\":{},\"profile\":{},", esc(&self.id), esc(&self.tier), self.seed, esc(&self.profile));
        o += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},", self.evals.load(SeqCst), self.distinct_total(), esc(rule));
        let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        o += &format!("\"samples\":[{}],", list(&self.samples.lock().unwrap()));
        o += &format!("\"exhaustive_stages\":[{}],", list(&self.exhaustive.lock().unwrap()));
        o += &format!("\"assumptions\":[{}],", list(&assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
        let c: Vec<String> = self.counts.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o += &format!("\"counts\":{{{}}},", c.join(","));
        let t = engine::event_totals();
        let e: Vec<String> = (0..engine::EVN).map(|i| format!("{}:{}", esc(engine::EV_NAMES[i]), t[i])).collect();
        o += &format!("\"engine_events\":{{{}}},", e.join(","));
        let v: Vec<String> = self
            .violations
            .lock()
            .unwrap()
            .iter()
            .map(|v| format!("{{\"stage\":{},\"case\":{},\"what\":{}}}", esc(&v.stage), v.idx, esc(&v.msg)))
            .collect();
        o += &format!("\"violations\":[{}],", v.join(","));
        let k: Vec<String> = self.known.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o += &format!("\"known\":{{{}}},", k.join(","));
        let h = self.harness_error.lock().unwrap().clone();
        o += &format!("\"harness_error\":{},", h.map(|s| esc(&s)).unwrap_or("null".into()));
        o += &format!("\"wall_s\":{:.3}}}", self.start.elapsed().as_secs_f64());
        o
    }
}
