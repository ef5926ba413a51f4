//! C07 proofs are perfectly witness-indistinguishable under a hiding CRS.
use gsmon::prelude::*;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

/// Degrees of freedom of an accepted proof for given commitments, under a hiding key.
fn freedom(ty: Ty) -> u32 {
    [4, 2, 2, 1][TYPES.iter().position(|t| *t == ty).unwrap()]
}
fn draws_of(ty: Ty, m: usize, n: usize) -> usize {
    ty.kx() * m + ty.ky() * n + ty.kx() * ty.ky()
}
fn run<E: Eng, R: Rng>(eq: &LEq<E>, ty: Ty, x: &Vars<E>, y: &Vars<E>, k: &CRS<E>, mode: usize, rng: &mut R) -> CProof<E> {
    let (xc, yc) = match mode {
        0 => return eq.commit_and_prove(x, y, k, rng),
        1 => (batch_x(ty, x, k, rng), batch_y(ty, y, k, rng)),
        _ => (singles_x(ty, x, k, rng), singles_y(ty, y, k, rng)),
    };
    let p = eq.prove(x, y, &xc, &yc, k, rng);
    CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] }
}
const MODES: [&str; 3] = ["commit_and_prove", "batch commitments and prove", "single commitments and prove"];

/// Every witness of the equations over a tiny field.
fn witnesses<F: PrimeField>(qs: &[REq<F>], r: u64) -> Vec<(Vec<F>, Vec<F>)> {
    let (m, n) = (qs[0].m(), qs[0].n());
    let mut o = vec![];
    for w in 0..r.pow((m + n) as u32) {
        let mut k = w;
        let mut d = |_| {
            let v = F::from(k % r);
            k /= r;
            v
        };
        let x: Vec<F> = (0..m).map(&mut d).collect();
        let y: Vec<F> = (0..n).map(&mut d).collect();
        if qs.iter().all(|q| q.holds(&x, &y)) {
            o.push((x, y));
        }
    }
    o
}
fn random_eq<F: PrimeField>(r: &mut StdRng, ty: Ty, m: usize, n: usize) -> REq<F> {
    let (q, _, _) = gen::equation(r, ty, m, n, &[]);
    q
}
type Dist = HashMap<(u128, u128), u128>;

fn judge(c: &Case, d: &[Dist], r: u64, free: u32, span: u64, ctx: &dyn Fn() -> String) {
    let tot: Vec<u128> = d.iter().map(|d| d.values().sum()).collect();
    // Same distribution for both witnesses.
    if d.len() == 2 {
        let diff = d[0].iter().find(|(k, w)| d[1].get(*k).copied().unwrap_or(0) * tot[0] != **w * tot[1]);
        c.check(diff.is_none() && d[0].len() == d[1].len(), || {
            let k = diff.map(|(k, _)| *k);
            format!("the distributions of commitments and proofs differ between two witnesses ({} and {} distinct outcomes, first difference {k:?}); {}", d[0].len(), d[1].len(), ctx())
        });
    }
    for d in d {
        let mut by: HashMap<u128, (u64, u128, u128)> = HashMap::new();
        for ((com, _), w) in d {
            let e = by.entry(*com).or_insert((0, *w, *w));
            *e = (e.0 + 1, e.1.min(*w), e.2.max(*w));
        }
        let want = r.pow(free);
        let bad = by.iter().find(|(_, e)| e.0 != want || e.1 != e.2);
        c.check(bad.is_none(), || format!("for some commitments the proofs are not uniform over the {want} accepted ones: {:?} (number, smallest and largest weight); {}", bad.unwrap().1, ctx()));
        c.check(by.len() as u64 == span, || format!("{} of {span} lists of commitments occur; {}", by.len(), ctx()));
    }
}
fn tiny<E: Eng>(mon: &Mon, r: u64, limit: usize, q: u64, t: u64, equations: usize, types: &[Ty]) {
    mon.stage(&format!("exact distributions, {equations} equation(s)/{}", E::name()), q, t, |c| {
        let ty = types[c.idx as usize % types.len()];
        let cost = |m: usize, n: usize| draws_of(ty, m, n) + (equations - 1) * ty.kx() * ty.ky();
        let (m, n) = loop {
            let (m, n) = (1 + pick(&mut c.rng, 3), 1 + pick(&mut c.rng, 3));
            if cost(m, n) <= limit || (m, n) == (1, 1) {
                break (m, n);
            }
        };
        let rc = loop {
            let rc = gen::crs::<Fr<E>>(&mut c.rng, Kind::Hiding);
            if !rc.u[0].0.is_zero() && !rc.v[0].0.is_zero() {
                break rc;
            }
        };
        let k = lift_crs::<E>(&rc);
        let mut tries = 0;
        let (qs, ws) = loop {
            let qs: Vec<REq<Fr<E>>> = (0..equations).map(|_| random_eq(&mut c.rng, ty, m, n)).collect();
            let ws = witnesses(&qs, r);
            tries += 1;
            if ws.len() >= 2 || tries > 200 {
                break (qs, ws);
            }
        };
        if ws.len() < 2 {
            return;
        }
        let i = pick(&mut c.rng, ws.len());
        let j = (i + 1 + pick(&mut c.rng, ws.len() - 1)) % ws.len();
        let mode = if equations == 1 { pick(&mut c.rng, 3) } else { 1 + pick(&mut c.rng, 2) };
        let eqs: Vec<LEq<E>> = qs.iter().map(LEq::lift).collect();
        let ctx = || format!("{} {m}x{n}, {}, order {r}, {qs:?}, witnesses {:?} and {:?}, CRS {rc:?}", ty.name(), MODES[mode], ws[i], ws[j]);
        let mut ds = vec![];
        for (x, y) in [&ws[i], &ws[j]] {
            let (xv, yv) = (vars_x::<E>(ty, x), vars_y::<E>(ty, y));
            let mut rejected = None;
            let (d, total) = enumerate(r, |g| {
                let p = c.must("commit and prove", || {
                    let mut p = run(&eqs[0], ty, &xv, &yv, &k, mode, g);
                    for e in &eqs[1..] {
                        let pf = e.prove(&xv, &yv, &p.xcoms, &p.ycoms, &k, g);
                        p.equ_proofs.push(pf);
                    }
                    p
                });
                let (mut a, mut b) = (Digits::new(r), Digits::new(r));
                let mut rp = read_proof(&p);
                rp.c.iter().chain(&rp.d).for_each(|e| a.put2(e));
                for (k, pf) in p.equ_proofs.iter().enumerate() {
                    rp.pi = pf.pi.iter().map(d2::<E>).collect();
                    rp.theta = pf.theta.iter().map(d1::<E>).collect();
                    rp.pi.iter().chain(&rp.theta).for_each(|e| b.put2(e));
                    let shape = (rp.pi.len(), rp.theta.len()) == (ty.kx(), ty.ky());
                    if !shape || !qs[k].accepts(&rc, &rp) {
                        rejected = Some(rp.clone());
                    }
                }
                (a.v, b.v)
            });
            c.mon.count("outcomes enumerated", total);
            c.check(rejected.is_none(), || format!("an honest proof does not satisfy the verification equation: {rejected:?}; {}", ctx()));
            ds.push(d);
        }
        c.seen(&(&qs, &ws[i], &ws[j], &rc));
        c.count(&format!("{} pairs of witnesses, {equations} equation(s), order {r}", ty.name()));
        c.sample(|| format!("{}: {} and {} distinct outcomes", ctx(), ds[0].len(), ds[1].len()));
        let span = r.pow((ty.kx() * m + ty.ky() * n) as u32);
        judge(c, &ds, r, freedom(ty) * equations as u32, span, &ctx);
    });
}
fn elements<E: Eng>(p: &EquProof<E>) -> Vec<Fr<E>> {
    let (a, b): (Vec<_>, Vec<_>) = (p.pi.iter().map(d2::<E>).collect(), p.theta.iter().map(d1::<E>).collect());
    a.iter().chain(&b).flat_map(|p| [p.0, p.1]).collect()
}
/// Large fields: given the commitments, the proof depends on the draws with the rank of the space of accepted proofs.
fn draws<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("dependence on draws/{}", E::name()), q, t, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let rc = gen::crs::<Fr<E>>(&mut c.rng, Kind::Hiding);
        let k = lift_crs::<E>(&rc);
        let (q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let eq = LEq::<E>::lift(&q);
        let (xv, yv) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let ctx = || format!("{} {m}x{n} {q:?} x={x:?} y={y:?} CRS {rc:?}", ty.name());
        c.seen(&(&q, &x, &y));
        let free = freedom(ty) as usize;
        let mut rng = LogRng::new(c.sub(1));
        let (xc, yc) = c.must("commit", || (batch_x(ty, &xv, &k, &mut rng), batch_y(ty, &yv, &k, &mut rng)));
        let (_, rows) = jacobian(c.sub(2), |g| elements(&c.must("prove", || eq.prove(&xv, &yv, &xc, &yc, &k, g))));
        let nd = rows.len();
        let rk = rank(rows);
        c.count(&format!("{} prove", ty.name()));
        c.sample(|| format!("prove {} {m}x{n}: {nd} draws, rank {rk}", ty.name()));
        c.check(rk == free, || format!("given the commitments, the proof elements depend on the {nd} draws with rank {rk} and not {free}; {}", ctx()));
        // The whole: which draws enter the commitments, and what is left for the proof.
        if m * n <= 30 {
            let nc = 2 * (m + n);
            let mode = pick(&mut c.rng, 3);
            let (_, rows) = jacobian(c.sub(3), |g| {
                let p = c.must("commit and prove", || run(&eq, ty, &xv, &yv, &k, mode, g));
                let mut v: Vec<_> = p.xcoms.coms.iter().map(d1::<E>).chain(p.ycoms.coms.iter().map(d2::<E>)).flat_map(|p| [p.0, p.1]).collect();
                v.extend(elements(&p.equ_proofs[0]));
                v
            });
            let coms: Vec<Vec<_>> = rows.iter().map(|r| r[..nc].to_vec()).collect();
            let rest: Vec<Vec<_>> = rows.iter().filter(|r| r[..nc].iter().all(|e| e.is_zero())).map(|r| r[nc..].to_vec()).collect();
            let (a, b) = (rank(coms), rank(rest));
            let want = ty.kx() * m + ty.ky() * n;
            c.count(&format!("{} {}", ty.name(), MODES[mode]));
            c.check(a == want && b == free, || format!("{}: commitments depend on the {} draws with rank {a} (expected {want}), the proof on the remaining draws with rank {b} (expected {free}); {}", MODES[mode], rows.len(), ctx()));
        }
    });
}
/// The production scalar field: the proof's own mask is uniform and never reused.
fn masks<E: Eng>(mon: &Mon, q: u64, t: u64) {
    let seen: Mutex<HashSet<Vec<u8>>> = Mutex::default();
    let stats: Mutex<Vec<Buckets>> = Mutex::new((0..16).map(|_| Buckets::new()).collect());
    mon.stage(&format!("proof masks/{}", E::name()), q, t, |c| {
        let ti = (c.idx % 4) as usize;
        let ty = TYPES[ti];
        let (m, n) = gen::dims(&mut c.rng, 5);
        let rc = gen::crs::<Fr<E>>(&mut c.rng, Kind::Hiding);
        if rc.u[0].0.is_zero() {
            return;
        }
        let k = lift_crs::<E>(&rc);
        let (q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let eq = LEq::<E>::lift(&q);
        let (xv, yv) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let mut rng = LogRng::new(c.seed);
        let (xc, yc) = c.must("commit", || (batch_x(ty, &xv, &k, &mut rng), batch_y(ty, &yv, &k, &mut rng)));
        let zero = vec![vec![Fr::<E>::ZERO; 2]; 2];
        let base = q.prove(&rc, &x, &y, &rand_of1(&xc), &rand_of2(&yc), &zero);
        c.seen(&(&q, &x));
        for _ in 0..1 + pick(&mut c.rng, 3) {
            let p = c.must("prove", || eq.prove(&xv, &yv, &xc, &yc, &k, &mut rng));
            if p.theta.len() != ty.ky() {
                return;
            }
            for l in 0..ty.ky() {
                // theta minus its value without masks is in the span of the key.
                let d = add2(d1(&p.theta[l]), sc2(-Fr::<E>::ONE, base.theta[l]));
                let u = &rc.u;
                let mk = if ty.kx() == 2 {
                    let inv = (u[0].0 * u[1].1 - u[0].1 * u[1].0).inverse().unwrap();
                    vec![(d.0 * u[1].1 - d.1 * u[1].0) * inv, (u[0].0 * d.1 - u[0].1 * d.0) * inv]
                } else {
                    vec![d.0 * u[0].0.inverse().unwrap()]
                };
                let mut s = seen.lock().unwrap();
                for e in &mk {
                    c.check(s.insert(big(e)), || format!("a proof mask occurs a second time: {e} ({})", ty.name()));
                }
                drop(s);
                let mut st = stats.lock().unwrap();
                for (j, e) in mk.iter().enumerate() {
                    st[ti * 4 + l * 2 + j].add(e);
                }
            }
        }
    });
    mon.stage(&format!("uniformity of proof masks/{}", E::name()), 1, 1, |c| {
        let st = stats.lock().unwrap();
        let mut worst = f64::MIN;
        for (k, b) in st.iter().enumerate() {
            if b.n < 2000 {
                continue;
            }
            worst = worst.max(b.excess());
            c.check(b.excess() < 12.0, || format!("{} proof masks (coordinate {}) over {} samples are not uniform: chi-square {:.1} standard deviations above its mean", TYPES[k / 4].name(), k % 4, b.n, b.excess()));
        }
        c.sample(|| format!("{} proof masks of the first coordinate, worst chi-square {worst:.2} standard deviations above its mean", st[0].n));
    });
}
/// On the curve: successive proofs about the same commitments share no element.
fn curve(mon: &Mon, q: u64, t: u64) {
    mon.stage("curve/bls12-381", q, t, |c| {
        type E = Bls;
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims(&mut c.rng, 3);
        let rc = gen::crs::<Fr<E>>(&mut c.rng, Kind::Hiding);
        let k = lift_crs::<E>(&rc);
        let (q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let eq = LEq::<E>::lift(&q);
        let (xv, yv) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let mut rng = LogRng::new(c.seed);
        let (xc, yc) = c.must("commit", || (batch_x(ty, &xv, &k, &mut rng), batch_y(ty, &yv, &k, &mut rng)));
        let mut set = HashSet::new();
        for _ in 0..3 {
            let p = c.must("prove", || eq.prove(&xv, &yv, &xc, &yc, &k, &mut rng));
            let els: Vec<Vec<u8>> = p.pi.iter().map(ser).chain(p.theta.iter().map(ser)).collect();
            c.seen(&els);
            c.check(els.len() == ty.kx() + ty.ky(), || format!("{} elements", els.len()));
            for e in els {
                c.check(set.insert(e), || format!("{}: successive proofs share an element ({q:?} x={x:?} y={y:?})", ty.name()));
            }
        }
    });
}

const RULE: &str = "Tiny groups: for two random witnesses of an equation (or two equations over shared commitments), the exact joint distributions of commitments and proof elements over all outcomes of the random generator must be equal, cover all commitments, and be uniform over the accepted proofs for each list of commitments. Large groups: rank of the proof's dependence on single draws given the commitments; uniformity and distinctness of proof masks. Distinct = distinct (equation, witnesses).";
fn check(mon: &Mon) {
    tiny::<E3>(mon, 3, 10, 40, 600, 1, &TYPES);
    tiny::<E5>(mon, 5, 6, 90, 3000, 1, &[Ty::M1, Ty::M2, Ty::Q]);
    tiny::<E7>(mon, 7, 5, 90, 3000, 1, &[Ty::M1, Ty::M2, Ty::Q]);
    tiny::<E3>(mon, 3, 8, 60, 1000, 2, &[Ty::M1, Ty::M2, Ty::Q]);
    tiny::<E5>(mon, 5, 5, 40, 1000, 2, &[Ty::Q]);
    if mon.thorough() {
        tiny::<E5>(mon, 5, 8, 20, 20, 1, &[Ty::P]);
        tiny::<E3>(mon, 3, 12, 8, 8, 2, &[Ty::P]);
    }
    draws::<E59>(mon, 12_000, 400_000, 60);
    draws::<EW>(mon, 1200, 40_000, 12);
    masks::<EW>(mon, 16_000, 400_000);
    curve(mon, 80, 3000);
}

fn main() {
    gsmon::run("C07", RULE, check)
}
