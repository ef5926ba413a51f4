//! C03 the verdict equals the reference verification equation, for honest, tampered, solved and random inputs.
use gsmon::prelude::*;

fn compare<E: Eng>(c: &Case, q: &REq<Fr<E>>, rc: &RCrs<Fr<E>>, p: &RProof<Fr<E>>, eq: &LEq<E>, lp: &CProof<E>, k: &CRS<E>, how: &str) {
    let want = q.accepts(rc, p);
    let v = eq.verify(lp, k);
    c.count(&format!("{how}: {}", if want { "equation holds" } else { "equation violated" }));
    c.check(v == if want { Verdict::Accept } else { Verdict::Reject }, || {
        format!("{how} on {}: verdict {v:?}, but the {} verification equation {} (residual {:?}); {q:?}, {rc:?}, {p:?}", E::name(), q.ty.name(), if want { "holds" } else { "does not hold" }, q.residual(rc, p))
    });
}
fn any_crs<F: PrimeField>(r: &mut StdRng) -> RCrs<F> {
    let kind = [Kind::Binding, Kind::Hiding, Kind::Hiding, Kind::Arbitrary][pick(r, 4)];
    gen::crs(r, kind)
}

/// An accepting proof, then single and paired changes to everything the verifier sees.
fn tampered<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize, per: usize) {
    mon.stage(&format!("tampered/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let rc = any_crs::<Fr<E>>(&mut c.rng);
        let (q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let (rr, ss, tt) = (gen::rows(&mut c.rng, m, 2), gen::rows(&mut c.rng, n, 2), gen::rows(&mut c.rng, ty.ky(), ty.kx()));
        let p = q.prove(&rc, &x, &y, &rr, &ss, &tt);
        let (eq, lp, k) = (LEq::<E>::lift(&q), lift_proof::<E>(ty, &p), lift_crs::<E>(&rc));
        c.seen(&(&q, &p));
        c.sample(|| format!("{} {m}x{n} {q:?} {rc:?} {p:?}", E::name()));
        compare(c, &q, &rc, &p, &eq, &lp, &k, "honest proof");
        for _ in 0..per {
            let r = &mut c.rng;
            let (mut q2, mut rc2, mut p2) = (q.clone(), rc.clone(), p.clone());
            let mut what = vec![];
            let mut gt = None;
            for _ in 0..1 + pick(r, 10) / 8 {
                let d: Fr<E> = gen::delta(r);
                let (jm, jn) = (pick(r, m), pick(r, n));
                let both = pick(r, 3);
                let bump = |e: &mut P2<Fr<E>>| {
                    if both != 0 {
                        e.0 += d
                    }
                    if both != 1 {
                        e.1 += d
                    }
                };
                let w = pick(r, 19);
                what.push(w);
                match w {
                    0 => q2.t += d,
                    1 => q2.a[jn] += d,
                    2 => q2.b[jm] += d,
                    3 => q2.gamma[jm][jn] += d,
                    4 => bump(&mut p2.c[jm]),
                    5 => bump(&mut p2.d[jn]),
                    6 => bump(&mut p2.pi[pick(r, ty.kx())]),
                    7 => bump(&mut p2.theta[pick(r, ty.ky())]),
                    8 => bump(&mut rc2.u[pick(r, 2)]),
                    9 => bump(&mut rc2.v[pick(r, 2)]),
                    10 => rc2.g1 += d,
                    11 => rc2.g2 += d,
                    12 => p2.c.swap(jm, 0),
                    13 => p2.d.swap(jn, 0),
                    14 => {
                        p2.pi.reverse();
                        p2.theta.reverse()
                    }
                    15 => {
                        let e = [(Fr::<E>::ZERO, Fr::<E>::ZERO), rc.u[0], rc.u[1], rc.us()][pick(r, 4)];
                        p2.c[jm] = e
                    }
                    16 => {
                        let k = pick(r, ty.ky());
                        p2.theta[k] = sc2(-Fr::<E>::ONE, p2.theta[k])
                    }
                    // the target generator of the CRS is in no term of the equation
                    17 => gt = gt.or(Some(d)),
                    _ => {
                        let k = pick(r, ty.kx());
                        p2.pi[k] = (p2.pi[k].1, p2.pi[k].0)
                    }
                }
            }
            let (eq, lp, mut k) = (LEq::<E>::lift(&q2), lift_proof::<E>(ty, &p2), lift_crs::<E>(&rc2));
            if let Some(d) = gt {
                k.gt_gen = E::gt(&(rc2.g1 * rc2.g2 + d));
            }
            c.seen(&(&q2, &p2));
            compare(c, &q2, &rc2, &p2, &eq, &lp, &k, if gt.is_some() { "tampered, the target generator too" } else { "tampered" });
        }
    });
}
/// Residuals of every pattern, and accepting proofs, for commitments of any kind under keys of any kind.
fn solved<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize) {
    mon.stage(&format!("solved residuals/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let rc = any_crs::<Fr<E>>(&mut c.rng);
        let (mut q, _, _) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let r = &mut c.rng;
        if coin(r, 1, 2) {
            q.t = gen::elem::<Fr<E>>(r);
        }
        let (cx, dy) = (any_coms(r, &[rc.u[0], rc.u[1], rc.us()], m), any_coms(r, &[rc.v[0], rc.v[1], rc.vs()], n));
        let (eq, k) = (LEq::<E>::lift(&q), lift_crs::<E>(&rc));
        for j in 0..4 {
            let rho = if j == 0 { [Fr::<E>::ZERO; 4] } else { gen::pattern(&mut c.rng) };
            let Some(p) = gen::solve(&mut c.rng, &q, &rc, &cx, &dy, rho) else {
                c.count("pattern not reachable under this key");
                continue;
            };
            c.seen(&(&q, &p));
            c.sample(|| format!("{} {m}x{n} residual {rho:?}: {q:?} {rc:?} {p:?}", E::name()));
            let lp = lift_proof::<E>(ty, &p);
            compare(c, &q, &rc, &p, &eq, &lp, &k, if j == 0 { "solved, accepting" } else { "solved, one pattern violated" });
        }
    });
}
/// Parts of the equation and of the proof that are zero, alike, or key elements, in every combination.
fn degenerate<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize) {
    mon.stage(&format!("degenerate parts/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let rc = any_crs::<Fr<E>>(&mut c.rng);
        let (mut q, mut x, mut y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let r = &mut c.rng;
        gen::blanks(r, &mut q, &mut x, &mut y);
        let z2 = (Fr::<E>::ZERO, Fr::<E>::ZERO);
        let (rr, ss, tt) = (gen::rows(r, m, 2), gen::rows(r, n, 2), gen::rows(r, ty.ky(), ty.kx()));
        q.t = q.eval(&x, &y);
        let mut p = q.prove(&rc, &x, &y, &rr, &ss, &tt);
        let (kx, ky) = ([rc.u[0], rc.u[1], rc.us()], [rc.v[0], rc.v[1], rc.vs()]);
        {
            let o = kx[pick(r, 3)];
            gen::blank(r, &mut p.c, &z2, &o);
        }
        {
            let o = ky[pick(r, 3)];
            gen::blank(r, &mut p.d, &z2, &o);
        }
        let both = coin(r, 1, 2);
        if both || coin(r, 1, 2) {
            {
            let o = ky[pick(r, 3)];
            gen::blank(r, &mut p.pi, &z2, &o);
        }
        }
        if both || coin(r, 1, 2) {
            {
            let o = kx[pick(r, 3)];
            gen::blank(r, &mut p.theta, &z2, &o);
        }
        }
        q.t = match pick(r, 4) {
            0 => Fr::<E>::ZERO,
            1 => q.t,
            2 => Fr::<E>::ONE,
            _ => gen::elem(r),
        };
        if coin(r, 1, 3) {
            // Accepted, or with one pattern violated, given these commitments.
            let rho = if coin(r, 1, 2) { [Fr::<E>::ZERO; 4] } else { gen::pattern(r) };
            if let Some(s) = gen::solve(r, &q, &rc, &p.c, &p.d, rho) {
                p = s;
            }
        }
        c.seen(&(&q, &p));
        c.sample(|| format!("{} {m}x{n} {q:?} {rc:?} {p:?}", E::name()));
        compare(c, &q, &rc, &p, &LEq::<E>::lift(&q), &lift_proof::<E>(ty, &p), &lift_crs::<E>(&rc), "degenerate parts");
    });
}
/// The library's own proofs; the randomness carried along must not matter.
fn library<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize) {
    mon.stage(&format!("library proofs, altered randomness/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let rc = any_crs::<Fr<E>>(&mut c.rng);
        let (mut q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        if coin(&mut c.rng, 1, 3) {
            q.t += gen::delta::<Fr<E>>(&mut c.rng);
        }
        let (eq, k) = (LEq::<E>::lift(&q), lift_crs::<E>(&rc));
        let s = c.sub(9);
        let (xv, yv) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let lp = c.must("commit_and_prove", || eq.commit_and_prove(&xv, &yv, &k, &mut LogRng::new(s)));
        let v0 = eq.verify(&lp, &k);
        c.seen(&(&q, &x, &y));
        if E::SHADOW && lp.xcoms.coms.len() == m && lp.ycoms.coms.len() == n && lp.equ_proofs.len() == 1 {
            let p = read_proof(&lp);
            if p.pi.len() == ty.kx() && p.theta.len() == ty.ky() {
                compare(c, &q, &rc, &p, &eq, &lp, &k, "library proof");
            }
        }
        let r = &mut c.rng;
        let junk = |r: &mut StdRng| match pick(r, 4) {
            0 => vec![],
            1 => vec![vec![]; pick(r, 4)],
            2 => {
                let (a, b) = (1 + pick(r, 5), 1 + pick(r, 3));
                gen::rows(r, a, b)
            }
            _ => gen::rows(r, m, 2),
        };
        let (j1, j2, j3) = (junk(r), junk(r), junk(r));
        let g = CProof {
            xcoms: com1_with(lp.xcoms.coms.clone(), &j1),
            ycoms: com2_with(lp.ycoms.coms.clone(), &j2),
            equ_proofs: lp.equ_proofs.iter().map(|e| equ_with(e.pi.clone(), e.theta.clone(), e.equ_type.clone(), &j3)).collect(),
        };
        let v1 = eq.verify(&g, &k);
        c.check(v0 == v1, || format!("verdict {v0:?} becomes {v1:?} when only the secret randomness carried along changes ({j1:?}, {j2:?}, {j3:?}); {q:?}, {rc:?}, engine {}", E::name()));
    });
}
/// Complete enumerations over the field of three elements.
fn exhaustive<E: Eng>(mon: &Mon, r: u64, n: u64) {
    mon.stage_all(&format!("all 1x1 quadratic proofs/{}", E::name()), n, |c| {
        let f = |v: u64| Fr::<E>::from(v);
        let rc = any_crs::<Fr<E>>(&mut c.rng);
        let k = lift_crs::<E>(&rc);
        let e: Vec<_> = (0..4).map(|_| gen::elem::<Fr<E>>(&mut c.rng)).collect();
        let q = REq { ty: Ty::Q, a: vec![e[0]], b: vec![e[1]], gamma: vec![vec![e[2]]], t: e[3] };
        let eq = LEq::<E>::lift(&q);
        let z = (f(0), f(0));
        let mut p = RProof { c: vec![z], d: vec![z], pi: vec![z], theta: vec![z] };
        let mut lp = lift_proof::<E>(Ty::Q, &p);
        for w in 0..r.pow(8) {
            let d = |k: u32| f(w / r.pow(k) % r);
            (p.c[0], p.d[0], p.pi[0], p.theta[0]) = ((d(0), d(1)), (d(2), d(3)), (d(4), d(5)), (d(6), d(7)));
            lp.xcoms.coms[0] = l1::<E>(&p.c[0]);
            lp.ycoms.coms[0] = l2::<E>(&p.d[0]);
            lp.equ_proofs[0].pi[0] = l2::<E>(&p.pi[0]);
            lp.equ_proofs[0].theta[0] = l1::<E>(&p.theta[0]);
            let want = q.accepts(&rc, &p);
            let v = eq.verify(&lp, &k);
            if !c.check(v == if want { Verdict::Accept } else { Verdict::Reject }, || format!("verdict {v:?}, reference {want}; {q:?} {rc:?} {p:?}")) {
                return;
            }
        }
        c.seen(&(&q, &rc));
    });
    mon.stage_all(&format!("random proofs, all types/{}", E::name()), n * 100, |c| {
        for ty in TYPES {
            let rc = any_crs::<Fr<E>>(&mut c.rng);
            let (m, nn) = (1 + pick(&mut c.rng, 2), 1 + pick(&mut c.rng, 2));
            let (q, _, _) = gen::equation(&mut c.rng, ty, m, nn, &[]);
            let (eq, k) = (LEq::<E>::lift(&q), lift_crs::<E>(&rc));
            let r = &mut c.rng;
            let (a, b, g, h) = (gen::rows(r, m, 2), gen::rows(r, nn, 2), gen::rows(r, ty.kx(), 2), gen::rows(r, ty.ky(), 2));
            let pr = |v: Vec<Vec<Fr<E>>>| v.iter().map(|x| (x[0], x[1])).collect::<Vec<_>>();
            let p = RProof { c: pr(a), d: pr(b), pi: pr(g), theta: pr(h) };
            let lp = lift_proof::<E>(ty, &p);
            compare(c, &q, &rc, &p, &eq, &lp, &k, "random proof, tiny field");
        }
    });
}

const RULE: &str = "Each verdict of the real verifier is compared with an independent evaluation of the Groth-Sahai verification equation on discrete logarithms: honest proofs, one or two changes to any constant, exponent, target, commitment, proof or key element, proofs solved so that an exact pattern of the four components is violated, proofs with altered carried randomness, complete enumerations over a tiny field; binding, hiding, arbitrary and degenerate keys. Distinct = distinct (equation, proof).";
fn check(mon: &Mon) {
    tampered::<E59>(mon, 60_000, 2_000_000, 10, 12);
    tampered::<EW>(mon, 10_000, 300_000, 6, 8);
    tampered::<E5>(mon, 30_000, 1_000_000, 4, 12);
    tampered::<Bls>(mon, 200, 7500, 2, 4);
    solved::<E59>(mon, 100_000, 3_000_000, 10);
    solved::<EW>(mon, 15_000, 500_000, 6);
    solved::<E5>(mon, 40_000, 1_000_000, 4);
    solved::<Bls>(mon, 200, 7500, 3);
    degenerate::<E59>(mon, 150_000, 4_000_000, 6);
    degenerate::<EW>(mon, 20_000, 500_000, 4);
    degenerate::<E5>(mon, 40_000, 1_000_000, 3);
    degenerate::<Bls>(mon, 100, 3000, 2);
    library::<E59>(mon, 60_000, 2_000_000, 12);
    library::<EW>(mon, 10_000, 300_000, 6);
    library::<Bls>(mon, 60, 2500, 3);
    exhaustive::<E3>(mon, 3, if mon.thorough() { 2000 } else { 150 });
    // Wide statements.
    let wide = [(1, 40), (40, 1), (17, 19), (33, 32), (65, 2), (2, 65), (130, 3), (3, 130), (1, 257), (257, 1)];
    mon.stage("wide", wide.len() as u64 * 40, wide.len() as u64 * 800, |c| {
        let (m, n) = wide[(c.idx / 4) as usize % wide.len()];
        let ty = TYPES[(c.idx % 4) as usize];
        let rc = any_crs::<Fr<E59>>(&mut c.rng);
        let (q, x, y) = gen::equation(&mut c.rng, ty, m, n, &[]);
        let (rr, ss, tt) = (gen::rows(&mut c.rng, m, 2), gen::rows(&mut c.rng, n, 2), gen::rows(&mut c.rng, ty.ky(), ty.kx()));
        let p = q.prove(&rc, &x, &y, &rr, &ss, &tt);
        let k = lift_crs::<E59>(&rc);
        compare(c, &q, &rc, &p, &LEq::lift(&q), &lift_proof(ty, &p), &k, "wide honest proof");
        for side in 0..5 {
            // A change at each position's end or at a random place must be noticed.
            let (mut q2, mut p2) = (q.clone(), p.clone());
            let r = &mut c.rng;
            let (jm, jn) = (if coin(r, 1, 3) { m - 1 } else { pick(r, m) }, if coin(r, 1, 3) { n - 1 } else { pick(r, n) });
            let d: Fr<E59> = gen::delta(r);
            match side {
                0 => p2.c[jm].1 += d,
                1 => p2.d[jn].0 += d,
                2 => q2.a[jn] += d,
                3 => q2.b[jm] += d,
                _ => q2.gamma[jm][jn] += d,
            }
            compare(c, &q2, &rc, &p2, &LEq::lift(&q2), &lift_proof(ty, &p2), &k, "wide tampered proof");
        }
    });
}

fn main() {
    gsmon::run("C03", RULE, check)
}
