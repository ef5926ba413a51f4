//! C17 all randomness comes from the caller's generator, fresh for every call.
use ark_std::rand::Error;
use gsmon::prelude::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

/// Hands out recorded words and nothing else.
struct Replay<'a> {
    words: &'a [u64],
    pos: usize,
}
impl RngCore for Replay<'_> {
    fn next_u64(&mut self) -> u64 {
        self.pos += 1;
        *self.words.get(self.pos - 1).expect("more values drawn than in the recorded run")
    }
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Crs,
    X(Ty),
    Y(Ty),
    CommitAndProve(usize),
    Prove(usize),
    Verify(usize),
}
/// The inputs of a session of operations that share one generator.
struct Session<E: Eng> {
    key: CRS<E>,
    eqs: Vec<(REq<Fr<E>>, LEq<E>, Vars<E>, Vars<E>)>,
    x: Vars<E>,
    y: Vars<E>,
    /// Commitments that later proofs are about, made beforehand.
    base: Vec<(Commit1<E>, Commit2<E>)>,
    ops: Vec<Op>,
}
fn session<E: Eng>(r: &mut StdRng, key: Option<CRS<E>>, len: usize, max: usize, seed: u64) -> Session<E> {
    let kind = [Kind::Binding, Kind::Hiding][pick(r, 2)];
    let rc = gen::crs::<Fr<E>>(r, kind);
    let key = key.unwrap_or_else(|| lift_crs::<E>(&rc));
    let sp = crs_special(&rc);
    let mut eqs = vec![];
    let mut base = vec![];
    let mut rng = LogRng::new(seed ^ 0xbace);
    for k in 0..1 + pick(r, 3) {
        let ty = TYPES[pick(r, 4)];
        let (m, n) = gen::dims_wide(r, max);
        let (q, x, y) = gen::equation::<Fr<E>>(r, ty, m, n, &sp);
        let (x, y) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        base.push((batch_x(ty, &x, &key, &mut rng), batch_y(ty, &y, &key, &mut rng)));
        eqs.push((q.clone(), LEq::lift(&q), x, y));
        let _ = k;
    }
    let mut p = Pool::new(r, &sp);
    let (m, n) = gen::dims_wide(r, max);
    let (x, y) = (p.vec(r, m), p.vec(r, n));
    let x = Vars { g1: g1s::<E>(&x), g2: vec![], s: x };
    let y = Vars { g2: g2s::<E>(&y), g1: vec![], s: y };
    let mut ops: Vec<Op> = vec![];
    for _ in 0..len {
        // The same operation again is what freshness is about.
        let o = if !ops.is_empty() && coin(r, 1, 4) {
            ops[pick(r, ops.len())]
        } else {
            match pick(r, 12) {
                0 => Op::Crs,
                1..=3 => Op::X(TYPES[pick(r, 4)]),
                4..=6 => Op::Y(TYPES[pick(r, 4)]),
                7..=9 => Op::CommitAndProve(pick(r, eqs.len())),
                10 => Op::Prove(pick(r, eqs.len())),
                _ => Op::Verify(pick(r, eqs.len())),
            }
        };
        ops.push(o);
    }
    Session { key, eqs, x, y, base, ops }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form {
    /// Batches; committing and proving in one step.
    Whole,
    /// Batches; committing and proving step by step.
    Steps,
    /// One by one, step by step.
    Singles,
    /// Batches of parts that are appended, step by step.
    Parts,
}
const FORMS: [Form; 4] = [Form::Whole, Form::Steps, Form::Singles, Form::Parts];

fn part<E: Eng>(v: &Vars<E>, a: usize, b: usize) -> Vars<E> {
    let cut = |n: usize| (a.min(n), b.min(n));
    let (g, h) = (cut(v.g1.len()), cut(v.g2.len()));
    Vars { s: v.s[a..b].to_vec(), g1: v.g1[g.0..g.1].to_vec(), g2: v.g2[h.0..h.1].to_vec() }
}
fn com_x<E: Eng, R: Rng>(f: Form, ty: Ty, x: &Vars<E>, k: &CRS<E>, rng: &mut R) -> Commit1<E> {
    match f {
        Form::Whole | Form::Steps => batch_x(ty, x, k, rng),
        Form::Singles => singles_x(ty, x, k, rng),
        Form::Parts => {
            let n = x.s.len();
            let at = n.div_ceil(3);
            let mut a = batch_x(ty, &part(x, 0, at), k, rng);
            if at < n {
                a.append(&mut batch_x(ty, &part(x, at, n), k, rng));
            }
            a
        }
    }
}
fn com_y<E: Eng, R: Rng>(f: Form, ty: Ty, y: &Vars<E>, k: &CRS<E>, rng: &mut R) -> Commit2<E> {
    match f {
        Form::Whole | Form::Steps => batch_y(ty, y, k, rng),
        Form::Singles => singles_y(ty, y, k, rng),
        Form::Parts => {
            let n = y.s.len();
            let at = n.div_ceil(2);
            let mut a = batch_y(ty, &part(y, 0, at), k, rng);
            if at < n {
                a.append(&mut batch_y(ty, &part(y, at, n), k, rng));
            }
            a
        }
    }
}
struct Step<F> {
    bytes: Vec<u8>,
    /// Values that the call drew, as recorded in its result.
    drawn: Vec<F>,
    /// Whether the operation takes randomness, and whether its result shows it.
    random: bool,
}
fn perform<E: Eng, R: Rng>(s: &Session<E>, op: Op, f: Form, rng: &mut R) -> Step<Fr<E>> {
    let flat = |m: Matrix<Fr<E>>| m.into_iter().flatten();
    match op {
        Op::Crs => Step { bytes: ser(&CRS::<E>::generate_crs(rng)), drawn: vec![], random: true },
        Op::X(ty) => {
            let c = com_x(f, ty, &s.x, &s.key, rng);
            Step { bytes: ser(&c), drawn: flat(rand_of1(&c)).collect(), random: true }
        }
        Op::Y(ty) => {
            let c = com_y(f, ty, &s.y, &s.key, rng);
            Step { bytes: ser(&c), drawn: flat(rand_of2(&c)).collect(), random: true }
        }
        Op::CommitAndProve(k) => {
            let (q, eq, x, y) = &s.eqs[k];
            let p = if f == Form::Whole {
                eq.commit_and_prove(x, y, &s.key, rng)
            } else {
                let xc = com_x(f, q.ty, x, &s.key, rng);
                let yc = com_y(f, q.ty, y, &s.key, rng);
                let pf = eq.prove(x, y, &xc, &yc, &s.key, rng);
                CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] }
            };
            let drawn = flat(rand_of1(&p.xcoms)).chain(flat(rand_of2(&p.ycoms))).chain(p.equ_proofs.iter().flat_map(|e| flat(rand_of_proof(e)))).collect();
            Step { bytes: cproof_bytes(&p), drawn, random: true }
        }
        Op::Prove(k) => {
            let (_, eq, x, y) = &s.eqs[k];
            let p = eq.prove(x, y, &s.base[k].0, &s.base[k].1, &s.key, rng);
            Step { bytes: ser(&p), drawn: flat(rand_of_proof(&p)).collect(), random: true }
        }
        Op::Verify(k) => {
            let (_, eq, x, y) = &s.eqs[k];
            let p = eq.prove(x, y, &s.base[k].0, &s.base[k].1, &s.key, &mut LogRng::new(1));
            let p = CProof { xcoms: s.base[k].0.clone(), ycoms: s.base[k].1.clone(), equ_proofs: vec![p] };
            Step { bytes: vec![eq.verify_raw(&p, &s.key) as u8], drawn: vec![], random: false }
        }
    }
}
/// The results of a session and the number of draws after every operation.
fn play<E: Eng>(s: &Session<E>, f: Form, rng: &mut LogRng) -> Vec<(Step<Fr<E>>, usize)> {
    s.ops
        .iter()
        .map(|op| {
            let st = perform(s, *op, f, rng);
            (st, rng.draws)
        })
        .collect()
}
fn one<E: Eng>(c: &mut Case, len: usize, max: usize) {
    let large = <Fr<E> as PrimeField>::MODULUS_BIT_SIZE > 50;
    let seed = c.sub(1);
    let own = if coin(&mut c.rng, 1, 4) { Some(c.must("generate_crs", || CRS::<E>::generate_crs(&mut LogRng::new(seed ^ 9)))) } else { None };
    let s = session::<E>(&mut c.rng, own, len, max, seed);
    c.seen(&(format!("{:?}", s.ops), ser(&s.key), s.eqs.len(), s.x.s.len(), s.y.s.len()));
    let mut rng = LogRng::new(seed);
    rng.log = Some(vec![]);
    let first = c.must("a session of operations", || play(&s, Form::Whole, &mut rng));
    let words = rng.log.take().unwrap();
    c.sample(|| format!("{:?} with {} words drawn, {} X and {} Y variables", s.ops, words.len(), s.x.s.len(), s.y.s.len()));
    c.mon.count("words drawn and recorded", words.len() as u64);
    c.mon.count("operations", s.ops.len() as u64);
    let compare = |c: &Case, what: &str, got: &[(Step<Fr<E>>, usize)]| {
        for (k, (a, b)) in first.iter().zip(got).enumerate() {
            c.check(a.0.bytes == b.0.bytes, || format!("{what}: the result of {:?} (operation {k} of {:?}) differs, {}", s.ops[k], s.ops, E::name()));
            c.check(a.1 == b.1, || format!("{what}: {} instead of {} words drawn after {:?} (operation {k})", b.1, a.1, s.ops[k]));
        }
    };
    // The same again, and in the equivalent ways.
    let g = c.must("the same session", || play(&s, Form::Whole, &mut LogRng::new(seed)));
    compare(c, "the same calls again with the same generator", &g);
    for f in &FORMS[1..] {
        let g = c.must("the same session in steps", || play(&s, *f, &mut LogRng::new(seed)));
        compare(c, &format!("{f:?} instead of whole batches and commit_and_prove"), &g);
        c.count(&format!("form {f:?}"));
    }
    // On another thread.
    if c.idx % 8 == 0 {
        let g = std::thread::scope(|t| t.spawn(|| lib(|| play(&s, Form::Whole, &mut LogRng::new(seed)))).join().unwrap());
        match g {
            Ok(g) => compare(c, "on another thread", &g),
            Err(p) => c.fail(format!("on another thread: panic: {p}")),
        }
    }
    // The recorded words are all that decides: call by call, from a generator that knows only the words of that call.
    let mut from = 0;
    for (k, (st, to)) in first.iter().enumerate() {
        let mut r = Replay { words: &words[from..*to], pos: 0 };
        match lib(|| perform(&s, s.ops[k], Form::Whole, &mut r)) {
            Ok(g) => {
                c.check(g.bytes == st.bytes, || format!("{:?} gives another result when it is given the same words again", s.ops[k]));
                c.check(r.pos == to - from, || format!("{:?} drew {} words, then {} words for the same call", s.ops[k], to - from, r.pos));
            }
            Err(p) => c.fail(format!("{:?} with the words of its first run: {p}", s.ops[k])),
        }
        c.check(st.random == (*to > from), || format!("{:?} drew {} words", s.ops[k], to - from));
        from = *to;
    }
    if !large {
        return;
    }
    // Fresh: no value is drawn twice, no result occurs twice.
    let mut values: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut results: HashMap<&[u8], usize> = HashMap::new();
    for (k, (st, _)) in first.iter().enumerate() {
        for v in &st.drawn {
            if let Some(o) = values.insert(big(v), k) {
                c.check(false, || format!("the random value {v} is used twice: by {:?} (operation {o}) and {:?} (operation {k})", s.ops[o], s.ops[k]));
            }
        }
        c.mon.evals.fetch_add(st.drawn.len() as u64, std::sync::atomic::Ordering::Relaxed);
        if st.random {
            if let Some(o) = results.insert(&st.bytes, k) {
                c.fail(format!("{:?} (operation {k}) repeats the result of operation {o}", s.ops[k]));
            }
        }
    }
    // Another generator: nothing of the old values comes back.
    let other = c.must("a session with another generator", || play(&s, Form::Whole, &mut LogRng::new(seed ^ 0x77)));
    for (k, (st, _)) in other.iter().enumerate() {
        for v in &st.drawn {
            c.check(!values.contains_key(&big(v)), || format!("the random value {v} of {:?} does not depend on the generator", s.ops[k]));
        }
        c.check(!st.random || !results.contains_key(&st.bytes[..]), || format!("{:?} gives the same result with another generator", s.ops[k]));
    }
}
/// Every component of a commitment, proof or CRS depends on the generator, under keys that do not degenerate.
fn effect<E: Eng>(c: &mut Case, max: usize) {
    let seed = c.sub(2);
    let kind = [Kind::Binding, Kind::Hiding][pick(&mut c.rng, 2)];
    let rc = loop {
        let rc = gen::crs::<Fr<E>>(&mut c.rng, kind);
        let z = |p: &P2<Fr<E>>| p.0.is_zero() || p.1.is_zero();
        if !rc.u.iter().chain(&rc.v).any(z) {
            break rc;
        }
    };
    let key = lift_crs::<E>(&rc);
    let ty = TYPES[(c.idx % 4) as usize];
    let (m, n) = gen::dims_wide(&mut c.rng, max);
    let (q, x, y) = gen::equation::<Fr<E>>(&mut c.rng, ty, m, n, &crs_special(&rc));
    let eq = LEq::<E>::lift(&q);
    let (x, y) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
    let mut rng = LogRng::new(seed);
    let mut last: Option<(CProof<E>, EquProof<E>, CRS<E>)> = None;
    c.seen(&(&q, &rc));
    for _ in 0..3 {
        let p = c.must("commit_and_prove", || eq.commit_and_prove(&x, &y, &key, &mut rng));
        let again = c.must("prove", || eq.prove(&x, &y, &p.xcoms, &p.ycoms, &key, &mut rng));
        let k = c.must("generate_crs", || CRS::<E>::generate_crs(&mut rng));
        // A second proof for the same commitments.
        let a = &p.equ_proofs[0];
        for i in 0..ty.kx() {
            c.check(a.pi[i].0 != again.pi[i].0 && a.pi[i].1 != again.pi[i].1, || format!("two proofs of the same {} share a component of pi[{i}]: {q:?}, CRS {rc:?}", ty.name()));
        }
        for i in 0..ty.ky() {
            c.check(a.theta[i].0 != again.theta[i].0 && a.theta[i].1 != again.theta[i].1, || format!("two proofs of the same {} share a component of theta[{i}]: {q:?}, CRS {rc:?}", ty.name()));
        }
        if let Some((lp, la, lk)) = &last {
            for i in 0..m {
                let (a, b) = (p.xcoms.coms[i], lp.xcoms.coms[i]);
                c.check(a.0 != b.0 && a.1 != b.1, || format!("successive {} commitments share a component of X {i}", ty.name()));
            }
            for j in 0..n {
                let (a, b) = (p.ycoms.coms[j], lp.ycoms.coms[j]);
                c.check(a.0 != b.0 && a.1 != b.1, || format!("successive {} commitments share a component of Y {j}", ty.name()));
            }
            c.check(*la != again, || "successive proofs are equal".into());
            let parts = |k: &CRS<E>| [ser(&k.u[0].0), ser(&k.u[0].1), ser(&k.u[1].0), ser(&k.u[1].1), ser(&k.v[0].0), ser(&k.v[0].1), ser(&k.v[1].0), ser(&k.v[1].1), ser(&k.g1_gen), ser(&k.g2_gen), ser(&k.gt_gen)];
            for (i, (a, b)) in parts(lk).iter().zip(&parts(&k)).enumerate() {
                c.check(a != b, || format!("successive CRSs share component {i}"));
            }
        }
        last = Some((p, again, k));
    }
}
/// Batches of any length against single commitments.
fn lengths<E: Eng>(mon: &Mon, n: u64, reps: u64) {
    mon.stage(&format!("batch lengths/{}", E::name()), n * reps, n * reps * 8, |c| {
        let len = if n > 100 && c.idx % 37 == 5 { [511, 512, 513, 1000, 1025, 2049, 4097][pick(&mut c.rng, 7)] } else { (c.idx % n) as usize + 1 };
        let ty = TYPES[pick(&mut c.rng, 4)];
        let rc = gen::crs::<Fr<E>>(&mut c.rng, Kind::Binding);
        let key = lift_crs::<E>(&rc);
        let mut p = Pool::new(&mut c.rng, &crs_special(&rc));
        let v = p.vec(&mut c.rng, len);
        let s = c.sub(3);
        let (x, y) = (vars_x::<E>(ty, &v), vars_y::<E>(ty, &v));
        for f in [Form::Singles, Form::Parts] {
            let (mut a, mut b) = (LogRng::new(s), LogRng::new(s));
            let (k1, k2) = c.must("commit", || (com_x(Form::Whole, ty, &x, &key, &mut a), com_x(f, ty, &x, &key, &mut b)));
            c.check(k1 == k2 && ser(&k1) == ser(&k2) && a.draws == b.draws, || format!("a batch of {len} X variables ({}) differs from {f:?} with the same generator", ty.name()));
            let (k1, k2) = c.must("commit", || (com_y(Form::Whole, ty, &y, &key, &mut a), com_y(f, ty, &y, &key, &mut b)));
            c.check(k1 == k2 && ser(&k1) == ser(&k2) && a.draws == b.draws, || format!("a batch of {len} Y variables ({}) differs from {f:?} with the same generator", ty.name()));
            c.check(a.next_u64() == b.next_u64(), || "the generators are left in different states".into());
        }
        c.seen(&(len, ty, &v));
    });
}
/// Generators that are degenerate or of another make.
fn generators<E: Eng>(mon: &Mon, q: u64, t: u64) {
    mon.stage(&format!("other generators/{}", E::name()), q, t, |c| {
        let rc = gen::crs::<Fr<E>>(&mut c.rng, Kind::Binding);
        let key = lift_crs::<E>(&rc);
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims(&mut c.rng, 5);
        let (q, x, y) = gen::equation::<Fr<E>>(&mut c.rng, ty, m, n, &crs_special(&rc));
        let eq = LEq::<E>::lift(&q);
        let (x, y) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let s = c.sub(4);
        fn both<E: Eng, R: Rng>(ty: Ty, eq: &LEq<E>, x: &Vars<E>, y: &Vars<E>, key: &CRS<E>, a: &mut R, b: &mut R) -> (Vec<u8>, Vec<u8>) {
            let p = eq.commit_and_prove(x, y, key, a);
            let xc = singles_x(ty, x, key, b);
            let yc = singles_y(ty, y, key, b);
            let pf = eq.prove(x, y, &xc, &yc, key, b);
            (cproof_bytes(&p), cproof_bytes(&CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] }))
        }
        let words: Vec<u64> = (0..1 + pick(&mut c.rng, 5)).map(|_| if coin(&mut c.rng, 1, 2) { pick(&mut c.rng, 5) as u64 } else { c.rng.gen() }).collect();
        let (a, b) = c.must("a pattern generator", || {
            let (mut a, mut b) = (PatternRng { words: words.clone(), pos: 0 }, PatternRng { words: words.clone(), pos: 0 });
            both(ty, &eq, &x, &y, &key, &mut a, &mut b)
        });
        c.check(a == b, || format!("commit_and_prove differs from single commitments and prove under a generator that repeats {words:?} ({})", ty.name()));
        let (a, b) = c.must("StdRng", || both(ty, &eq, &x, &y, &key, &mut seeded(s), &mut seeded(s)));
        c.check(a == b, || format!("commit_and_prove differs from single commitments and prove under StdRng ({})", ty.name()));
        let (a, b) = c.must("a borrowed generator", || {
            let (mut g, mut h) = (LogRng::new(s), LogRng::new(s));
            both(ty, &eq, &x, &y, &key, &mut &mut g, &mut &mut h)
        });
        let (a2, _) = c.must("LogRng", || both(ty, &eq, &x, &y, &key, &mut LogRng::new(s), &mut LogRng::new(s)));
        c.check(a == b && a == a2, || "a borrowed generator gives another result".into());
        c.seen(&(&q, &words));
    });
}
/// A digest of everything that a fixed list of sessions computes: equal in every process.
fn digest(seed: u64) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    fn go<E: Eng>(h: &mut impl Hasher, seed: u64, n: u64, len: usize) {
        for k in 0..n {
            let s = mix(seed, k);
            let key = CRS::<E>::generate_crs(&mut LogRng::new(s));
            let t = session::<E>(&mut seeded(s), Some(key), len, 5, s);
            for (st, d) in play(&t, FORMS[k as usize % 4], &mut LogRng::new(s)) {
                st.bytes.hash(h);
                d.hash(h);
            }
        }
    }
    go::<E59>(&mut h, seed, 60, 8);
    go::<EW>(&mut h, seed, 20, 8);
    go::<E7>(&mut h, seed, 40, 8);
    go::<Bls>(&mut h, seed, 3, 4);
    format!("{:016x}", h.finish())
}
fn processes(mon: &Mon, q: u64, t: u64) {
    mon.stage("other processes", q, t, |c| {
        let seed = c.sub(5) >> 1;
        let here = c.must("sessions", || digest(seed));
        let exe = std::env::current_exe().unwrap();
        for (k, threads) in [(0, "1"), (1, "4")] {
            let mut cmd = std::process::Command::new(&exe);
            cmd.env_clear().env("GSMON_CHILD", seed.to_string()).env("RAYON_NUM_THREADS", threads).env("TZ", ["UTC", "Asia/Tokyo"][k]).env("PAD", "x".repeat(1 + (seed % 4000) as usize));
            cmd.current_dir(["/", "/tmp"][k]);
            let o = cmd.output().expect("child process");
            let got = String::from_utf8_lossy(&o.stdout).trim().to_string();
            // A child that cannot be run says nothing about the library.
            if got.len() != 16 {
                c.count("children without an answer");
                continue;
            }
            c.count("child processes");
            c.check(got == here, || format!("the same sessions with the same generators give other results in another process (seed {seed}, {threads} threads)"));
        }
        c.seen(&here);
    });
}
fn stage<E: Eng>(mon: &Mon, q: u64, t: u64, len: usize, max: usize) {
    mon.stage(&format!("sessions/{}", E::name()), q, t, |c| {
        let l = 1 + pick(&mut c.rng, len);
        one::<E>(c, l, max)
    });
}
const RULE: &str = "Each case is a session of CRS generations, commitments, proofs and verifications that share one recorded generator; it is performed in whole batches, step by step, one by one, in parts, on other threads and in other processes, and every call once more from exactly the words it drew: all bytes and draw counts must agree; no recorded random value and no result may occur twice or survive a change of the generator. Distinct = distinct sessions.";
fn check(mon: &Mon) {
    processes(mon, 8, 200);
    stage::<E59>(mon, 60_000, 1_500_000, 16, 12);
    stage::<EW>(mon, 6_000, 150_000, 10, 6);
    stage::<E7>(mon, 20_000, 500_000, 16, 6);
    stage::<E3>(mon, 2_000, 60_000, 16, 3);
    stage::<Bls>(mon, 90, 2_500, 4, 3);
    mon.stage("every component changes/shadow59", 60_000, 2_000_000, |c| effect::<E59>(c, 9));
    mon.stage("every component changes/bls12-381", 48, 1_500, |c| effect::<Bls>(c, 2));
    lengths::<E59>(mon, 300, 8);
    lengths::<Bls>(mon, 20, 1);
    generators::<E59>(mon, 40_000, 1_000_000);
    generators::<Bls>(mon, 12, 400);
}
fn main() {
    if let Some(s) = std::env::var("GSMON_CHILD").ok().and_then(|s| s.parse().ok()) {
        println!("{}", digest(s));
        return;
    }
    gsmon::run("C17", RULE, check)
}
