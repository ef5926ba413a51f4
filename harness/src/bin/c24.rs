//! C24 operations touch nothing outside of the process: a log of all system calls made inside of library calls.
use gsmon::prelude::*;
use gsmon::work::*;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

// ------------------------------------------------------------------------------------------------------------------
// Questions to the process environment and to the clock that need no system call are made visible as one.
extern "C" {
    static environ: *const *const c_char;
    fn syscall(n: c_long, ...) -> c_long;
}
static INSIDE: AtomicBool = AtomicBool::new(false);
fn mark(what: &str) {
    let s = std::ffi::CString::new(format!("/gsmon/{what}")).unwrap();
    // access(2)
    unsafe { syscall(21, s.as_ptr(), 0 as c_long) };
}
/// # Safety
/// As for the C function.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let n = CStr::from_ptr(name);
    if INSIDE.load(SeqCst) {
        mark(&format!("getenv/{}", n.to_string_lossy()));
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        let n = n.to_bytes();
        if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
            return (*p).add(n.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
/// # Safety
/// As for the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut c_void) -> c_int {
    // Number 228 on x86-64; without the shortcut that avoids the system call.
    syscall(228, clock as c_long, t) as c_int
}

// ------------------------------------------------------------------------------------------------------------------
// Below the tracer: `c24 --inside SEED COUNT MODE FILE`.
fn one(r: &mut StdRng, i: u64, what: usize, t: &mut Tally) {
    match i % 8 {
        7 => exercise::<Bls>(r, what, 2, t),
        5 | 6 => exercise::<EW>(r, what, 4, t),
        4 => exercise::<EChaos>(r, what, 4, t),
        3 if what != 7 => exercise::<E59>(r, what, 70, t),
        _ => exercise::<E59>(r, what, 6, t),
    }
}
fn inside(seed: u64, count: u64, mode: &str, file: &str) {
    gsmon::mon::install_panic_hook();
    let mut t = Tally::default();
    let mut wrong: Vec<String> = vec![];
    let env = |l: &mut Vec<String>| {
        *l = std::env::vars().map(|(k, v)| format!("{k}={v}")).collect();
        l.sort();
    };
    let (mut before, mut after) = (vec![], vec![]);
    env(&mut before);
    let dir = std::env::current_dir().unwrap();
    let own = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    if mode == "global" {
        // Its threads start before anything is watched.
        rayon::join(|| (), || ());
        assert_eq!(rayon::current_num_threads(), 3, "the harness sets RAYON_NUM_THREADS");
    }
    std::thread::sleep(std::time::Duration::from_millis(30));
    let tasks = || std::fs::read_dir("/proc/self/task").unwrap().count();
    let running = tasks();
    for i in 0..count {
        let mut r = seeded(mix(seed, i));
        let what = (i / 8) as usize % USES.len();
        if mode == "pool" && what == 12 {
            continue;
        }
        mark(&format!("begin/{i}/{what}"));
        INSIDE.store(true, SeqCst);
        if mode == "pool" {
            own.install(|| one(&mut r, i, what, &mut t));
        } else {
            one(&mut r, i, what, &mut t);
        }
        INSIDE.store(false, SeqCst);
        mark("end");
    }
    // No thread stays but those of rayon's global pool, which a first use may have started. Pools that were dropped take a moment.
    let most = running + if mode == "pool" || mode == "global" { 0 } else { 3 };
    let mut left = tasks();
    for _ in 0..200 {
        if left <= most {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
        left = tasks();
    }
    if left > most {
        wrong.push(format!("{left} threads run after all calls have returned, {running} did before"));
    }
    // The settings of the process are those from before.
    env(&mut after);
    if before != after {
        wrong.push(format!("the environment of the process changed: {before:?} became {after:?}"));
    }
    if std::env::current_dir().unwrap() != dir {
        wrong.push("the working directory changed".into());
    }
    if mode == "pool" {
        // Nothing ran outside of a pool, so the process may still choose its global one.
        if let Err(e) = rayon::ThreadPoolBuilder::new().num_threads(5).build_global() {
            wrong.push(format!("calls inside of a thread pool set up the global one: {e}"));
        }
    } else if rayon::current_num_threads() != 3 {
        wrong.push("the global thread pool changed".into());
    }
    if !matches!(lib(|| -> () { panic!("is the hook {} there", "still") }), Err(e) if e.contains("is the hook still there")) {
        wrong.push("the panic hook of the process was replaced".into());
    }
    let mut o = format!("calls {}\nreturned {}\nrefused {}\n", t.calls, t.returned, t.refused);
    for w in wrong {
        o += &format!("wrong {}\n", w.replace('\n', " "));
    }
    for s in t.said {
        o += &format!("said {}\n", s.replace('\n', " "));
    }
    std::fs::write(file, o).unwrap();
}

// ------------------------------------------------------------------------------------------------------------------
/// Memory and threads; random numbers are C17's subject.
const FREE: [&str; 30] = [
    "mmap", "munmap", "mremap", "mprotect", "madvise", "brk", "futex", "sched_yield", "clone", "clone3", "set_robust_list", "rseq", "rt_sigprocmask", "sigaltstack",
    "gettid", "getpid", "prctl", "sched_getaffinity", "exit", "restart_syscall", "membarrier", "getrandom", "set_tid_address", "prlimit64", "mincore", "set_mempolicy",
    "get_mempolicy", "futex_waitv", "getcpu", "rt_sigreturn",
];
struct Event {
    pid: String,
    name: String,
    args: String,
}
fn parse(line: &str) -> Option<Event> {
    let (pid, rest) = line.split_once(' ')?;
    let rest = rest.trim_start();
    if rest.starts_with("<...") || rest.starts_with("+++") {
        return None;
    }
    if let Some(s) = rest.strip_prefix("---") {
        return Some(Event { pid: pid.into(), name: "signal".into(), args: s.into() });
    }
    let (name, args) = rest.split_once('(')?;
    Some(Event { pid: pid.into(), name: name.into(), args: args.into() })
}
/// Reads the log; returns the events inside of library calls by name, and the forbidden ones.
fn judge(log: &str) -> (BTreeMap<String, u64>, Vec<String>, u64) {
    let mut seen = BTreeMap::new();
    let mut bad = vec![];
    let mut now: Option<(u64, usize)> = None;
    let mut calls = 0;
    for line in log.lines() {
        let Some(e) = parse(line) else { continue };
        if let Some(m) = e.args.split("\"/gsmon/").nth(1) {
            let m = m.split('"').next().unwrap_or("");
            let f: Vec<&str> = m.split('/').collect();
            match f[0] {
                "begin" => {
                    now = Some((f[1].parse().unwrap(), f[2].parse().unwrap()));
                    calls += 1;
                }
                "end" => now = None,
                _ => {
                    // What rayon and the standard library themselves look up when they start a thread.
                    let ok = f[1].starts_with("RAYON_") || f[1].starts_with("RUST_") || f[1].starts_with("GSMON_");
                    if let (false, Some((i, w))) = (ok, now) {
                        bad.push(format!("use {i} ({}) asks for the environment variable {}", USES[w], f[1]));
                    }
                    *seen.entry(format!("getenv {}", f[1])).or_insert(0) += 1;
                }
            }
            continue;
        }
        let Some((i, w)) = now else { continue };
        *seen.entry(e.name.clone()).or_insert(0) += 1;
        if FREE.contains(&&e.name[..]) {
            continue;
        }
        // How many processors there are. The tracer shows the file behind a descriptor.
        let system = e.args.contains("\"/proc/") || e.args.contains("\"/sys/") || e.args.contains("</proc/") || e.args.contains("</sys/");
        let ok = match &e.name[..] {
            "openat" | "open" => system && e.args.contains("O_RDONLY"),
            "statx" | "newfstatat" | "fstat" | "readlink" | "access" | "read" | "pread64" | "lseek" | "close" => system,
            _ => false,
        };
        if !ok {
            let a: String = e.args.chars().take(200).collect();
            bad.push(format!("use {i} ({}) makes the system call {}({a} [thread {}]", USES[w], e.name, e.pid));
        }
    }
    (seen, bad, calls)
}
fn digits(s: &str) -> usize {
    s.split(|c: char| !c.is_ascii_digit()).map(|r| r.len()).max().unwrap_or(0)
}
fn traced(c: &mut Case, per: u64) {
    let dir = std::env::temp_dir().join(format!("gsmon-c24-{}-{}", std::process::id(), c.idx));
    std::fs::create_dir_all(&dir).unwrap();
    let (log, res) = (dir.join("log"), dir.join("res"));
    let mode = ["global", "pool"][(c.idx % 3 / 2) as usize];
    let mut cmd = Command::new("strace");
    cmd.args(["-f", "-y", "-qq", "-s", "120", "-o"]).arg(&log).arg(std::env::current_exe().unwrap());
    cmd.args(["--inside", &c.sub(0).to_string(), &per.to_string(), mode]).arg(&res);
    cmd.env("RAYON_NUM_THREADS", "3").env("RUST_BACKTRACE", "0").current_dir(&dir);
    let out = cmd.stdin(Stdio::null()).output();
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            *c.mon.harness_error.lock().unwrap() = Some(format!("strace does not start: {e}"));
            c.abort();
        }
    };
    let text = std::fs::read(&log).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let result = std::fs::read_to_string(&res);
    let left: Vec<String> = std::fs::read_dir(&dir).unwrap().map(|f| f.unwrap().file_name().to_string_lossy().into_owned()).filter(|n| n != "log" && n != "res").collect();
    let _ = std::fs::remove_dir_all(&dir);
    let (seen, bad, calls) = judge(&text);
    let ctx = || format!("process {} in mode {mode}", c.idx);
    let Ok(result) = result else {
        let e = String::from_utf8_lossy(&out.stderr);
        if calls == 0 {
            *c.mon.harness_error.lock().unwrap() = Some(format!("the traced process did not get to its first call: {e}"));
            c.abort();
        }
        c.fail(format!("the process ended within a library call ({}, {}): {}", ctx(), out.status, e.chars().take(400).collect::<String>()));
        return;
    };
    for (k, n) in &seen {
        c.mon.count(&format!("inside calls: {k}"), *n);
    }
    c.mon.count("uses of the library traced", calls);
    c.seen(&(c.idx, seen.keys().collect::<Vec<_>>(), calls));
    c.sample(|| format!("{}: {calls} uses, system calls inside of them {seen:?}", ctx()));
    c.check(calls > 0, || "nothing was traced".into());
    for b in bad.iter().take(3) {
        c.fail(format!("{b}; {}", ctx()));
    }
    let heard = !out.stdout.is_empty() || !out.stderr.is_empty();
    c.check(!heard, || format!("something is written to the standard streams: {}; {}", String::from_utf8_lossy(&[out.stdout, out.stderr].concat()).chars().take(400).collect::<String>(), ctx()));
    c.check(left.is_empty(), || format!("files {left:?} appeared; {}", ctx()));
    for l in result.lines() {
        let (k, v) = l.split_once(' ').unwrap();
        match k {
            "wrong" => c.fail(format!("{v}; {}", ctx())),
            "said" => {
                c.check(digits(v) < 12, || format!("the message of a refused call contains values: {v}; {}", ctx()));
            }
            _ => c.mon.count(&format!("library calls {k}"), v.parse().unwrap()),
        }
    }
    c.mon.evals.fetch_add(calls, SeqCst);
}
/// The message of a refused call is the same whatever the secret values are.
fn messages<E: Eng>(mon: &Mon, q: u64, t: u64) {
    mon.stage(&format!("messages of refused calls/{}", E::name()), q, t, |c| {
        let r = &mut c.rng.clone();
        let ty = TYPES[pick(r, 4)];
        let rc = gen::crs::<Fr<E>>(r, Kind::Hiding);
        let (m, n) = gen::dims(r, 5);
        let (q, _, _) = gen::equation(r, ty, m, n, &[]);
        let (key, eq) = (lift_crs::<E>(&rc), LEq::<E>::lift(&q));
        let choice = pick(r, 7);
        let again = r.clone();
        let run = |k: u64| -> Result<bool, String> {
            let s = &mut seeded(c.sub(k));
            let mut p = Pool::<Fr<E>>::random();
            let (x, y) = (p.vec(s, m), p.vec(s, n));
            let (mut x, mut y) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
            let g = &mut LogRng::new(c.sub(k + 100));
            let (mut xc, mut yc) = (batch_x(ty, &x, &key, g), batch_y(ty, &y, &key, g));
            let mut eq = eq.clone();
            // The same fault every time.
            let r = &mut again.clone();
            match choice {
                0 => spoil_eq(r, &mut eq),
                1 => {
                    let mut m = rand_of1(&xc);
                    spoil(r, &mut m);
                    xc = com1_with(xc.coms.clone(), &m);
                }
                2 => {
                    let mut m = rand_of2(&yc);
                    spoil(r, &mut m);
                    yc = com2_with(yc.coms.clone(), &m);
                }
                3 => {
                    let (mut a, mut b, mut d) = (r.clone(), r.clone(), r.clone());
                    spoil1(&mut a, &mut x.s);
                    spoil1(&mut b, &mut x.g1);
                    spoil1(&mut d, &mut x.g2);
                }
                4 => {
                    let (mut a, mut b, mut d) = (r.clone(), r.clone(), r.clone());
                    spoil1(&mut a, &mut y.s);
                    spoil1(&mut b, &mut y.g1);
                    spoil1(&mut d, &mut y.g2);
                }
                5 => {
                    let mut m = rand_of1(&xc);
                    spoil1(r, &mut m);
                    let mut other = com1_with(xc.coms.clone(), &m);
                    return lib(|| other.append(&mut xc)).map(|_| true);
                }
                _ => {
                    let mut m = rand_of2(&yc);
                    spoil1(r, &mut m);
                    let mut other = com2_with(yc.coms.clone(), &m);
                    return lib(|| yc.append(&mut other)).map(|_| true);
                }
            }
            if coin(r, 1, 2) {
                lib(|| eq.commit_and_prove(&x, &y, &key, g)).map(|_| true)
            } else {
                lib(|| eq.prove(&x, &y, &xc, &yc, &key, g)).map(|_| true)
            }
        };
        let all: Vec<_> = (0..3).map(run).collect();
        if all[0].is_err() {
            c.count("refused calls compared");
        }
        c.seen(&(ty, m, n, choice, &all[0]));
        c.check(all.iter().all(|o| *o == all[0]), || format!("a refused call says different things for different secret values: {all:?}; {q:?} on {}", E::name()));
    });
}

const RULE: &str = "Processes under strace perform random valid and invalid uses of the library (14 kinds, several engines, inside and outside of thread pools). Every system call any thread makes between the marks that enclose a use is an event; so is every look at an environment variable or the clock. Allowed are memory and thread management and reading the number of processors. Afterwards environment, working directory, panic hook and thread pool settings are compared with those before, and messages of refused calls are compared between different secret values. Distinct = distinct sets of events and distinct refusals.";
fn check(mon: &Mon) {
    let per = 8 * USES.len() as u64;
    mon.stage("traced processes", 40, 900, |c| traced(c, per));
    messages::<E59>(mon, 40_000, 600_000);
    messages::<EW>(mon, 10_000, 150_000);
    messages::<Bls>(mon, 60, 2_000);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "--inside") {
        inside(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], &a[5]);
        return;
    }
    gsmon::run("C24", RULE, check)
}
