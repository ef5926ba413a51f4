//! C15 results do not depend on threads or schedules.
use gsmon::prelude::*;
use rayon::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier};

/// Everything a run needs, shared by reference between threads.
struct Work<E: Eng> {
    ty: Ty,
    key: CRS<E>,
    eq: LEq<E>,
    other: LEq<E>,
    x: Vars<E>,
    y: Vars<E>,
    proof: CProof<E>,
    bad: CProof<E>,
    sa: Matrix<Fr<E>>,
    sb: Matrix<Fr<E>>,
    sc: Matrix<Fr<E>>,
    c1: Matrix<Com1<E>>,
    c2: Matrix<Com2<E>>,
    seed: u64,
}
type Out = Vec<(&'static str, Result<Vec<u8>, String>)>;
/// One after another, everything that may run in parallel inside the library.
fn run<E: Eng>(w: &Work<E>, which: u64) -> Out {
    let mut o: Out = vec![];
    let s = w.seed;
    if which & 1 != 0 {
        o.push(("generate_crs", lib(|| ser(&CRS::<E>::generate_crs(&mut LogRng::new(s))))));
        o.push(("batch commitment, side 1", lib(|| ser(&batch_x(w.ty, &w.x, &w.key, &mut LogRng::new(s))))));
        o.push(("batch commitment, side 2", lib(|| ser(&batch_y(w.ty, &w.y, &w.key, &mut LogRng::new(s))))));
    }
    if which & 2 != 0 {
        o.push(("commit_and_prove", lib(|| cproof_bytes(&w.eq.commit_and_prove(&w.x, &w.y, &w.key, &mut LogRng::new(s))))));
        o.push(("prove", lib(|| ser(&w.eq.prove(&w.x, &w.y, &w.proof.xcoms, &w.proof.ycoms, &w.key, &mut LogRng::new(s ^ 1))))));
    }
    if which & 4 != 0 {
        o.push(("verify an honest proof", lib(|| vec![w.eq.verify_raw(&w.proof, &w.key) as u8])));
        o.push(("verify a damaged proof", lib(|| vec![w.eq.verify_raw(&w.bad, &w.key) as u8])));
        o.push(("verify against another equation", lib(|| vec![w.other.verify_raw(&w.proof, &w.key) as u8])));
    }
    if which & 8 != 0 {
        for par in [true, false] {
            o.push((if par { "parallel scalar right_mul" } else { "sequential scalar right_mul" }, lib(|| ser(&w.sa.right_mul(&w.sb, par)))));
            o.push((if par { "parallel scalar left_mul" } else { "sequential scalar left_mul" }, lib(|| ser(&w.sb.left_mul(&w.sa, par)))));
            o.push((if par { "parallel Com1 right_mul" } else { "sequential Com1 right_mul" }, lib(|| ser(&w.c1.right_mul(&w.sb, par)))));
            o.push((if par { "parallel Com1 left_mul" } else { "sequential Com1 left_mul" }, lib(|| ser(&w.c1.left_mul(&w.sc, par)))));
            o.push((if par { "parallel Com2 right_mul" } else { "sequential Com2 right_mul" }, lib(|| ser(&w.c2.right_mul(&w.sb, par)))));
            o.push((if par { "parallel Com2 left_mul" } else { "sequential Com2 left_mul" }, lib(|| ser(&w.c2.left_mul(&w.sc, par)))));
        }
        let a: Vec<Com1<E>> = w.c1.iter().flatten().copied().collect();
        let b: Vec<Com2<E>> = w.c2.iter().flatten().copied().collect();
        o.push(("pairing_sum", lib(|| ser(&ComT::<E>::pairing_sum(&a, &b).as_matrix()))));
    }
    o
}
fn prepare<E: Eng>(c: &mut Case, ty: Ty, m: usize, n: usize, dims: (usize, usize, usize)) -> Work<E> {
    let kind = [Kind::Binding, Kind::Hiding][pick(&mut c.rng, 2)];
    let rc = gen::crs::<Fr<E>>(&mut c.rng, kind);
    let (re, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
    let mut ro = re.clone();
    ro.t += gen::nz::<Fr<E>>(&mut c.rng);
    let (key, eq, other) = (lift_crs::<E>(&rc), LEq::<E>::lift(&re), LEq::<E>::lift(&ro));
    let (vx, vy) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
    let seed = c.sub(1);
    let proof = c.must("commit_and_prove", || eq.commit_and_prove(&vx, &vy, &key, &mut LogRng::new(seed)));
    let mut bad = proof.clone();
    let d = gen::nz::<Fr<E>>(&mut c.rng);
    let k = pick(&mut c.rng, 4);
    match k {
        0 => bad.equ_proofs[0].pi[0].1 = (bad.equ_proofs[0].pi[0].1 + E::g2(&d)).into_affine(),
        1 => bad.equ_proofs[0].theta[0].0 = (bad.equ_proofs[0].theta[0].0 + E::g1(&d)).into_affine(),
        2 => bad.xcoms.coms[m - 1].1 = (bad.xcoms.coms[m - 1].1 + E::g1(&d)).into_affine(),
        _ => bad.ycoms.coms[n - 1].0 = (bad.ycoms.coms[n - 1].0 + E::g2(&d)).into_affine(),
    }
    let r = &mut c.rng;
    let (i, k, j) = dims;
    let mut p = Pool::<Fr<E>>::random();
    let mat = |r: &mut StdRng, p: &mut Pool<Fr<E>>, a: usize, b: usize| -> Matrix<Fr<E>> { (0..a).map(|_| p.vec(r, b)).collect() };
    let sa = mat(r, &mut p, i, k);
    let sb = mat(r, &mut p, k, j);
    let sc = mat(r, &mut p, j, i);
    let c1 = (0..i).map(|_| (0..k).map(|_| l1::<E>(&(p.next(r), p.next(r)))).collect()).collect();
    let c2 = (0..i).map(|_| (0..k).map(|_| l2::<E>(&(p.next(r), p.next(r)))).collect()).collect();
    Work { ty, key, eq, other, x: vx, y: vy, proof, bad, sa, sb, sc, c1, c2, seed }
}
/// The numbers that identify a schedule, gathered over the whole run.
static SCHEDULES: AtomicU64 = AtomicU64::new(0);

fn pool(n: usize, t: &Arc<Trace>) -> rayon::ThreadPool {
    let t = t.clone();
    rayon::ThreadPoolBuilder::new().num_threads(n).start_handler(move |k| join_trace(Some((t.clone(), k as u64 + 1)))).build().unwrap()
}
const SIZES: [usize; 9] = [1, 2, 3, 4, 5, 7, 8, 13, 16];
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum How {
    Inside,
    Outside,
    Nested,
    Concurrent,
    ConcurrentOutside,
    Spawned,
    Joined,
    TwoPools,
}
const HOWS: [How; 8] = [How::Inside, How::Outside, How::Nested, How::Concurrent, How::ConcurrentOutside, How::Spawned, How::Joined, How::TwoPools];

fn execute<E: Eng>(w: &Work<E>, how: How, size: usize, calls: usize, which: u64, t: &Arc<Trace>) -> Vec<Out> {
    match how {
        How::Inside => vec![pool(size, t).install(|| run(w, which))],
        // A plain thread: the library's tasks go to rayon's global pool.
        How::Outside => std::thread::scope(|s| vec![s.spawn(|| run(w, which)).join().unwrap()]),
        How::Nested => pool(size, t).install(|| (0..calls).into_par_iter().map(|_| run(w, which)).collect()),
        How::Concurrent => {
            let p = pool(size, t);
            let b = Barrier::new(calls);
            std::thread::scope(|s| {
                let h: Vec<_> = (0..calls)
                    .map(|_| {
                        s.spawn(|| {
                            b.wait();
                            p.install(|| run(w, which))
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        How::ConcurrentOutside => {
            let b = Barrier::new(calls);
            std::thread::scope(|s| {
                let h: Vec<_> = (0..calls)
                    .map(|k| {
                        let b = &b;
                        s.spawn(move || {
                            join_trace(Some((t.clone(), 100 + k as u64)));
                            b.wait();
                            run(w, which)
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        How::Spawned => {
            let out = std::sync::Mutex::new(vec![]);
            pool(size, t).scope(|s| {
                for _ in 0..calls {
                    s.spawn(|_| {
                        let r = run(w, which);
                        out.lock().unwrap().push(r);
                    });
                }
            });
            out.into_inner().unwrap()
        }
        How::Joined => {
            let (a, (b, c)) = pool(size, t).install(|| rayon::join(|| run(w, which), || rayon::join(|| run(w, which), || run(w, which))));
            vec![a, b, c]
        }
        // A pool's thread that waits for another pool, as in servers with a pool of their own.
        How::TwoPools => {
            let (p, q) = (pool(size, t), pool(1 + size / 2, t));
            p.install(|| (0..calls).into_par_iter().map(|_| q.install(|| run(w, which))).collect())
        }
    }
}
fn one<E: Eng>(c: &mut Case, w: &Work<E>, runs: usize, which: u64, m: usize, n: usize) {
    let base = {
        let t = Arc::new(Trace::default());
        pool(1, &t).install(|| run(w, which))
    };
    for (k, r) in &base {
        if let Err(e) = r {
            c.fail(format!("{k} panics on a valid input ({}, {m}x{n}, {}): {e}", w.ty.name(), E::name()));
            return;
        }
        let want = match *k {
            "verify an honest proof" => Some(1u8),
            "verify a damaged proof" | "verify against another equation" => Some(0),
            _ => None,
        };
        if let Some(v) = want {
            // Under degenerate keys a changed element may happen to keep the equation: the verdict is judged by C03.
            c.count(&format!("{k}: {}", if r == &Ok(vec![v]) { "as usual" } else { "unusual" }));
        }
    }
    for _ in 0..runs {
        let how = HOWS[pick(&mut c.rng, HOWS.len())];
        let size = SIZES[pick(&mut c.rng, SIZES.len())];
        let calls = 2 + pick(&mut c.rng, 4);
        let t = Arc::new(Trace::default());
        let outs = execute(w, how, size, calls, which, &t);
        c.count(&format!("{how:?}"));
        c.mon.count("thread switches observed", t.switches());
        if t.switches() > 1 {
            SCHEDULES.fetch_add(1, Relaxed);
            c.seen(&(how, size, t.signature()));
        }
        for o in outs {
            for (a, b) in base.iter().zip(&o) {
                c.check(a == b, || {
                    format!(
                        "{} gives another result: {how:?} with {calls} calls, pool of {size} threads, {} {m}x{n} on {}; {}",
                        a.0,
                        w.ty.name(),
                        E::name(),
                        match (&a.1, &b.1) {
                            (Ok(x), Ok(y)) if x.len() == 1 => format!("verdict {x:?} becomes {y:?}"),
                            (Ok(x), Ok(y)) => format!("{} bytes, {} bytes, first difference at {:?}", x.len(), y.len(), x.iter().zip(y).position(|(a, b)| a != b)),
                            (_, Err(e)) => format!("panic: {e}"),
                            _ => String::new(),
                        }
                    )
                });
            }
        }
    }
}
fn stage<E: Eng>(mon: &Mon, name: &str, q: u64, t: u64, runs: usize, max: usize) {
    mon.stage(&format!("{name}/{}", E::name()), q, t, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims(&mut c.rng, max);
        let (i, k) = gen::dims(&mut c.rng, max);
        let (j, _) = gen::dims(&mut c.rng, max);
        let w = prepare::<E>(c, ty, m, n, (i, k, j));
        let which = [15, 1, 2, 2, 4, 4, 8, 6][pick(&mut c.rng, 8)];
        c.count(&format!("{} {}", E::name(), ty.name()));
        c.sample(|| format!("{} {m}x{n}, matrices {i}x{k}x{j}, {runs} executions on pools of {SIZES:?} threads", ty.name()));
        one(c, &w, runs, which, m, n);
    });
}
/// Long rows and columns: splits into many tasks, remainders of every size.
fn long<E: Eng>(mon: &Mon, q: u64, t: u64) {
    let ds = [15usize, 16, 17, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 500, 512, 513];
    mon.stage(&format!("long dimensions/{}", E::name()), q, t, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let d = ds[pick(&mut c.rng, ds.len())];
        let s = 1 + pick(&mut c.rng, 3);
        let (m, n) = if coin(&mut c.rng, 1, 2) { (d, s) } else { (s, d) };
        let (i, k, j) = [(d, s, s), (s, d, s), (s, s, d)][pick(&mut c.rng, 3)];
        let w = prepare::<E>(c, ty, m, n, (i, k, j));
        c.count(&format!("{} {}", E::name(), ty.name()));
        let which = [1, 2, 4, 8][pick(&mut c.rng, 4)];
        one(c, &w, 3, which, m, n);
    });
}
/// Every pool size with every way of calling, for every type.
fn grid<E: Eng>(mon: &Mon, reps: u64) {
    let n = (SIZES.len() * HOWS.len() * 4) as u64;
    mon.stage(&format!("all pool sizes and ways of calling/{}", E::name()), n * reps, n * reps * 20, |c| {
        let mut k = (c.idx % n) as usize;
        let ty = TYPES[k % 4];
        k /= 4;
        let how = HOWS[k % HOWS.len()];
        let size = SIZES[k / HOWS.len()];
        let w = prepare::<E>(c, ty, 3, 4, (5, 3, 4));
        let t = Arc::new(Trace::default());
        let base = pool(1, &t).install(|| run(&w, 15));
        let t = Arc::new(Trace::default());
        for o in execute(&w, how, size, 4, 15, &t) {
            for (a, b) in base.iter().zip(&o) {
                c.check(a == b && a.1.is_ok(), || format!("{} gives another result or panics: {how:?}, pool of {size} threads, {}: {:?}", a.0, ty.name(), b.1));
            }
        }
        c.seen(&(how, size, ty, t.signature()));
    });
}

const RULE: &str = "Each case computes commitments, proofs, verdicts and matrix products once in a pool of one thread, then again on pools of 1 to 16 threads, inside and outside of them, nested, spawned, joined, and from several threads at a time on shared inputs, with delays injected into the engine's operations; every byte and verdict must agree, and a watchdog ends calls that do not return. Distinct = distinct (way of calling, pool size, observed order of thread switches) with at least two switches.";
fn check(mon: &Mon) {
    // The pool that calls from plain threads use: several threads in one run, a single one in the other.
    rayon::ThreadPoolBuilder::new().num_threads(if mon.profile == "release" { 4 } else { 1 }).build_global().unwrap();
    grid::<E59>(mon, 1);
    for (name, level, q, t) in [("rare delays", 8u32, 500, 12_000), ("frequent delays", 120, 300, 8_000), ("many delays", 500, 100, 3_000)] {
        chaos(level, mon.seed);
        stage::<EChaos>(mon, name, q, t, 6, 12);
    }
    chaos(20, mon.seed ^ 1);
    long::<EChaos>(mon, 200, 6_000);
    grid::<EChaos>(mon, 1);
    mon.count("delays injected", chaos_delays());
    chaos(0, 0);
    mon.count("executions with at least two thread switches", SCHEDULES.load(Relaxed));
    stage::<E59>(mon, "no delays", 2_500, 80_000, 6, 20);
    long::<E59>(mon, 500, 12_000);
    stage::<Bls>(mon, "no delays", 24, 800, 3, 4);
}
fn main() {
    gsmon::run("C15", RULE, check)
}
