//! C26 work and memory are bounded by the size of what is processed.
use gsmon::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn took(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n as i64);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
struct Counting;
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        took(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

const KINDS: [&str; 7] = ["scalar multiplications", "group additions", "pairing terms", "final exponentiations", "field multiplications", "bytes allocated", "bytes in use at once"];
/// What may be used whatever the size.
const FREE: [f64; 7] = [32.0, 512.0, 32.0, 16.0, 2048.0, 16384.0, 16384.0];
type Cost = [f64; 7];
/// Runs `f` alone on the calling thread.
fn measure<T>(f: impl FnOnce() -> T) -> (Cost, T) {
    let (e, b, l) = (events_here(), BYTES.get(), LIVE.get());
    PEAK.set(l);
    let r = f();
    let (f, b2, p) = (events_here(), BYTES.get(), PEAK.get());
    let d = |k: Ev| (f[k as usize] - e[k as usize]) as f64;
    ([d(Ev::Mul1) + d(Ev::Mul2), d(Ev::Add1) + d(Ev::Add2), d(Ev::Pair), d(Ev::Final), d(Ev::FieldMul), (b2 - b) as f64, (p - l) as f64], r)
}
type E = EChaos;
type F = Fr<E>;

const OPS: [&str; 22] = [
    "batch commitments to X",
    "batch commitments to Y",
    "single commitments, appended",
    "prove",
    "commit_and_prove",
    "verify",
    "verify a wrong proof",
    "sum of matrices",
    "sum of commitment matrices",
    "transposition",
    "negation",
    "product with a scalar",
    "field product",
    "parallel field product",
    "commitment matrix product",
    "parallel commitment matrix product",
    "pairing_sum",
    "linear maps",
    "serialization",
    "deserialization",
    "equality and copies",
    "prove with misfit arguments",
];
struct Inputs {
    ty: Ty,
    k: CRS<E>,
    eq: LEq<E>,
    x: Vars<E>,
    y: Vars<E>,
    proof: CProof<E>,
    wrong: CProof<E>,
    a: Matrix<F>,
    b: Matrix<F>,
    c1: Matrix<Com1<E>>,
    c2: Matrix<Com2<E>>,
    bytes: Vec<u8>,
    rng: LogRng,
}
fn inputs(c: &Case, ty: Ty, m: usize, n: usize, seed: u64) -> Inputs {
    let mut r = seeded(seed);
    let rc = gen::crs::<F>(&mut r, Kind::Binding);
    let k = lift_crs::<E>(&rc);
    let v = |r: &mut StdRng, n: usize| (0..n).map(|_| F::rand(r)).collect::<Vec<F>>();
    let (x, y) = (v(&mut r, m), v(&mut r, n));
    let mut q = REq { ty, a: v(&mut r, n), b: v(&mut r, m), gamma: (0..m).map(|_| v(&mut r, n)).collect(), t: F::ZERO };
    q.t = q.eval(&x, &y);
    let eq = LEq::<E>::lift(&q);
    let (x, y) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
    let mut rng = LogRng::new(seed ^ 1);
    let proof = c.must("commit and prove", || eq.commit_and_prove(&x, &y, &k, &mut rng));
    let mut wrong = proof.clone();
    let at = pick(&mut r, m);
    wrong.xcoms.coms[at] = l1::<E>(&(F::rand(&mut r), F::rand(&mut r)));
    let a: Matrix<F> = (0..m).map(|_| v(&mut r, n)).collect();
    let b: Matrix<F> = (0..n).map(|_| v(&mut r, m)).collect();
    let c1 = (0..m).map(|_| (0..n).map(|_| l1::<E>(&(F::rand(&mut r), F::rand(&mut r)))).collect()).collect();
    let c2 = (0..n).map(|_| (0..m).map(|_| l2::<E>(&(F::rand(&mut r), F::rand(&mut r)))).collect()).collect();
    let mut bytes = ser(&proof.xcoms);
    bytes.extend(ser(&proof.ycoms));
    bytes.extend(ser(&proof.equ_proofs));
    bytes.extend(match &eq {
        LEq::P(e) => ser(e),
        LEq::M1(e) => ser(e),
        LEq::M2(e) => ser(e),
        LEq::Q(e) => ser(e),
    });
    Inputs { ty, k, eq, x, y, proof, wrong, a, b, c1, c2, bytes, rng }
}
fn perform(i: &mut Inputs, op: usize) -> Box<dyn std::any::Any> {
    let s = F::from(7u64);
    let (m, n) = (i.x.s.len(), i.y.s.len());
    match op {
        0 => Box::new(batch_x(i.ty, &i.x, &i.k, &mut i.rng)),
        1 => Box::new(batch_y(i.ty, &i.y, &i.k, &mut i.rng)),
        2 => Box::new((singles_x(i.ty, &i.x, &i.k, &mut i.rng), singles_y(i.ty, &i.y, &i.k, &mut i.rng))),
        3 => Box::new(i.eq.prove(&i.x, &i.y, &i.proof.xcoms, &i.proof.ycoms, &i.k, &mut i.rng)),
        4 => Box::new(i.eq.commit_and_prove(&i.x, &i.y, &i.k, &mut i.rng)),
        5 => Box::new(assert!(i.eq.verify_raw(&i.proof, &i.k))),
        6 => Box::new(assert!(!i.eq.verify_raw(&i.wrong, &i.k))),
        7 => Box::new(Mat::add(&i.a, &i.a)),
        8 => Box::new((Mat::add(&i.c1, &i.c1), Mat::add(&i.c2, &i.c2))),
        9 => Box::new((Mat::transpose(&i.a), Mat::transpose(&i.c1), Mat::transpose(&i.c2))),
        10 => Box::new((Mat::neg(&i.a), Mat::neg(&i.c1), Mat::neg(&i.c2))),
        11 => Box::new((Mat::scalar_mul(&i.a, &s), Mat::scalar_mul(&i.c1, &s), Mat::scalar_mul(&i.c2, &s))),
        // The other factor is narrow: as many products as there are entries.
        12 | 13 => {
            let two = vec![i.b[0].clone(), i.b[n - 1].clone()];
            let col: Matrix<F> = (0..n).map(|k| vec![i.a[0][k], i.b[k][0]]).collect();
            Box::new((Mat::left_mul(&i.a, &two, op == 13), Mat::right_mul(&i.a, &col, op == 13)))
        }
        14 | 15 => {
            let two = vec![i.b[0].clone(), i.b[n - 1].clone()];
            let col: Matrix<F> = (0..n).map(|k| vec![i.a[0][k], i.b[k][0]]).collect();
            Box::new((Mat::left_mul(&i.c1, &two, op == 15), Mat::right_mul(&i.c1, &col, op == 15)))
        }
        16 => {
            let k = m.min(n);
            Box::new(ComT::<E>::pairing_sum(&i.c1[0][..k], &i.c2[0][..k]))
        }
        17 => Box::new((Com1::<E>::batch_scalar_linear_map(&i.x.s, &i.k), Com2::<E>::batch_scalar_linear_map(&i.y.s, &i.k), Com1::<E>::batch_linear_map(&i.x.g1), Com2::<E>::batch_linear_map(&i.y.g2))),
        18 => Box::new((
            ser(&i.proof.xcoms),
            ser(&i.proof.ycoms),
            ser(&i.proof.equ_proofs),
            match &i.eq {
                LEq::P(e) => ser(e),
                LEq::M1(e) => ser(e),
                LEq::M2(e) => ser(e),
                LEq::Q(e) => ser(e),
            },
        )),
        19 => {
            let mut b = &i.bytes[..];
            let x = Commit1::<E>::deserialize_uncompressed(&mut b).unwrap();
            let y = Commit2::<E>::deserialize_uncompressed(&mut b).unwrap();
            let p = Vec::<EquProof<E>>::deserialize_uncompressed(&mut b).unwrap();
            let e: Box<dyn std::any::Any> = match i.ty {
                Ty::P => Box::new(PPE::<E>::deserialize_uncompressed(&mut b).unwrap()),
                Ty::M1 => Box::new(MSMEG1::<E>::deserialize_uncompressed(&mut b).unwrap()),
                Ty::M2 => Box::new(MSMEG2::<E>::deserialize_uncompressed(&mut b).unwrap()),
                Ty::Q => Box::new(QuadEqu::<E>::deserialize_uncompressed(&mut b).unwrap()),
            };
            Box::new((x, y, p, e))
        }
        20 => {
            let (p, e) = (i.proof.clone(), i.eq.clone());
            assert!(p == i.proof && e == i.eq && i.wrong != p);
            Box::new((p, e))
        }
        _ => {
            i.x.s.pop();
            i.x.g1.pop();
            let r = lib(|| i.eq.prove(&i.x, &i.y, &i.proof.xcoms, &i.proof.ycoms, &i.k, &mut i.rng)).is_err();
            assert!(r);
            let (l, g) = (i.x.s[0], i.x.g1.first().cloned());
            i.x.s.push(l);
            i.x.g1.extend(g);
            Box::new(r)
        }
    }
}
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(f)
}
/// The cost of every call, and the memory kept between the sixth and the last.
fn cost(c: &Case, op: usize, ty: Ty, m: usize, n: usize, calls: usize) -> (Vec<Cost>, i64) {
    let seed = c.sub((m * 1000 + n) as u64);
    alone(|| {
        let mut i = inputs(c, ty, m, n, seed);
        let mut costs = Vec::with_capacity(calls);
        let mut live = 0;
        for call in 0..calls {
                let (k, r) = measure(|| c.must(OPS[op], || perform(&mut i, op)));
                drop(r);
                costs.push(k);
                if call < 6 {
                    live = LIVE.get();
                }
        }
        (costs, LIVE.get() - live)
    })
}
fn growth(mon: &Mon) {
    mon.stage("growth", 5280, 160_000, |c| {
        let op = c.idx as usize % OPS.len();
        let ty = TYPES[(c.idx as usize / OPS.len()) % 4];
        let (m, n) = (12 + pick(&mut c.rng, 12), 12 + pick(&mut c.rng, 12));
        let f = [4, 4, 4, 4, 4, 6][pick(&mut c.rng, 6)];
        let (a, b) = [(f, 1), (1, f), (f, f)][pick(&mut c.rng, 3)];
        let small = cost(c, op, ty, m, n, 1).0[0];
        let large = cost(c, op, ty, a * m, b * n, 1).0[0];
        c.seen(&(op, ty, m, n, a, b));
        for k in 0..7 {
            // In proportion to the entries; a constant that does not matter, and some room.
            let most = 1.5 * (a * b) as f64 * small[k] + FREE[k];
            c.check(large[k] <= most, || format!("{} ({}) with {} x {} variables takes {} {}, with {m} x {n} it takes {}", OPS[op], ty.name(), a * m, b * n, large[k], KINDS[k], small[k]));
            // A dimension that has not grown does not multiply.
            c.check(small[k] <= 4000.0 * KIND_UNIT[k] * ((m + 1) * (n + 1)) as f64, || format!("{} ({}) with {m} x {n} variables takes {} {}", OPS[op], ty.name(), small[k], KINDS[k]));
        }
        c.count(&format!("{}, {}", OPS[op], ty.name()));
        c.sample(|| format!("{} ({}): {m} x {n}: {small:?}, {} x {}: {large:?} {KINDS:?}", OPS[op], ty.name(), a * m, b * n));
    });
}
/// Upper ends of what one entry may take, in thousandths of 4000.
const KIND_UNIT: [f64; 7] = [0.02, 2.0, 0.02, 0.02, 20.0, 8.0, 4.0];
fn repetition(mon: &Mon, name: &str, calls: usize, max: usize, q: u64, t: u64) {
    mon.stage(name, q, t, |c| {
        let op = c.idx as usize % OPS.len();
        let ty = TYPES[(c.idx as usize / OPS.len()) % 4];
        let (m, n) = gen::dims(&mut c.rng, max);
        let (costs, kept) = cost(c, op, ty, m.max(2), n.max(2), calls);
        c.check(kept <= 65536, || format!("{calls} calls of {} ({}) keep {kept} bytes", OPS[op], ty.name()));
        c.seen(&(op, ty, m, n, 0, 0));
        // The first calls may set up what the later ones use.
        let (first, last) = (&costs[5], &costs[calls - 1]);
        for k in 0..7 {
            let most = 1.5 * first[k] + FREE[k] / 4.0;
            c.check(last[k] <= most, || format!("{} ({}) takes {} {} in call 6 and {} in call {calls}", OPS[op], ty.name(), first[k], KINDS[k], last[k]));
        }
        c.mon.count("repeated calls", calls as u64);
        c.sample(|| format!("{} ({}): call 6: {first:?}, call {calls}: {last:?}", OPS[op], ty.name()));
    });
}
fn generator(mon: &Mon) {
    mon.stage("CRS generation", 500, 10_000, |c| {
        let seed = c.seed;
        let (k, _) = alone(|| {
            let mut rng = LogRng::new(seed);
            measure(|| CRS::<E>::generate_crs(&mut rng))
        });
        c.seen(&seed);
        for (j, most) in [100.0, 10_000.0, 100.0, 100.0, 200_000.0, 200_000.0, 200_000.0].iter().enumerate() {
            c.check(k[j] <= *most, || format!("generating a CRS takes {} {}", k[j], KINDS[j]));
        }
        c.sample(|| format!("{k:?} {KINDS:?}"));
    });
}

const RULE: &str = "Counters in the instrumented engine (scalar multiplications, additions, pairings, field multiplications) and in the allocator, for 22 operations on all types of equations, on a thread pool of one: from m x n to 4m x n, m x 4n, 4m x 4n variables (m, n from 12 to 23) costs may grow in proportion to the entries; the 300th and the 70000th call of a kind cost what the sixth did. Distinct = distinct operation, type and sizes.";
fn check(mon: &Mon) {
    growth(mon);
    repetition(mon, "repetition", 300, 6, 1760, 17_600);
    repetition(mon, "long repetition", 70_000, 2, 88, 880);
    generator(mon);
}

fn main() {
    gsmon::run("C26", RULE, check)
}
