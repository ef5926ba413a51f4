//! C02 soundness under a binding CRS: what is accepted is true of the values that the commitments determine.
use gsmon::prelude::*;

/// A binding CRS: made by the generator on a shadow engine, built from known exponents otherwise.
fn binding<E: Eng>(c: &mut Case) -> (RCrs<Fr<E>>, CRS<E>) {
    loop {
        if E::SHADOW && coin(&mut c.rng, 2, 3) {
            let s = c.rng.next_u64();
            let k = c.must("generate_crs", || CRS::<E>::generate_crs(&mut LogRng::new(s)));
            let r = read_crs(&k);
            if r.u[0].0.is_zero() || r.v[0].0.is_zero() || r.g1.is_zero() || r.g2.is_zero() {
                // A degenerate draw that only tiny groups have.
                continue;
            }
            if r.det_u().is_zero() && r.det_v().is_zero() {
                return (r, k);
            }
            // C08 judges the generator; here its keys define what "the values" are only if they bind.
            c.check(false, || format!("the generated CRS is not binding: {r:?}"));
            c.abort();
        }
        let r = gen::crs::<Fr<E>>(&mut c.rng, Kind::Binding);
        if r.binding() {
            let k = lift_crs::<E>(&r);
            return (r, k);
        }
    }
}
fn judge<E: Eng>(c: &Case, q: &REq<Fr<E>>, rc: &RCrs<Fr<E>>, cx: &[P2<Fr<E>>], dy: &[P2<Fr<E>>], v: &Verdict, how: &str, more: &dyn Fn() -> String) {
    let x: Vec<_> = cx.iter().map(|p| rc.open_x(q.ty, *p)).collect();
    let y: Vec<_> = dy.iter().map(|p| rc.open_y(q.ty, *p)).collect();
    let truth = q.holds(&x, &y);
    c.count(&format!("{how}: {}, verdict {}", if truth { "true statement" } else { "false statement" }, match v { Verdict::Accept => "accept", Verdict::Reject => "reject", _ => "panic" }));
    c.check(!(*v == Verdict::Accept && !truth), || {
        format!("{how}: {} proof accepted although the committed values x={x:?} y={y:?} give {} and not {}; equation {q:?}, CRS {rc:?}, engine {}, {}", q.ty.name(), q.eval(&x, &y), q.t, E::name(), more())
    });
}

/// The library's own prover, run on an equation that its witness does not satisfy.
fn unsatisfied<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize) {
    mon.stage(&format!("honest prover, false equation/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let (rc, k) = binding::<E>(c);
        let (mut q, mut x, mut y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let r = &mut c.rng;
        let d: Fr<E> = gen::delta(r);
        let (jm, jn) = (pick(r, m), pick(r, n));
        match pick(r, 8) {
            0 | 1 => q.t += d,
            2 => q.a[jn] += d,
            3 => q.b[jm] += d,
            4 => q.gamma[jm][jn] += d,
            5 => x[jm] += d,
            6 => y[jn] += d,
            _ => {
                // Two changes that cancel only for some values.
                q.t += d;
                q.b[jm] += d;
            }
        }
        let eq = LEq::<E>::lift(&q);
        let (xv, yv) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let s = c.sub(3);
        let Ok(p) = lib(|| eq.commit_and_prove(&xv, &yv, &k, &mut LogRng::new(s))) else {
            c.count("prover refused a false statement");
            return;
        };
        c.seen(&(&q, &x, &y));
        c.sample(|| format!("{} {m}x{n} {q:?} with x={x:?} y={y:?}", E::name()));
        let v = eq.verify(&p, &k);
        let (cx, dy): (Vec<_>, Vec<_>) = if E::SHADOW {
            (p.xcoms.coms.iter().map(d1::<E>).collect(), p.ycoms.coms.iter().map(d2::<E>).collect())
        } else {
            // Openings on the curve: the values we asked to commit to (C05 judges the commitments themselves).
            (x.iter().map(|v| rc.ix(ty, *v)).collect(), y.iter().map(|v| rc.iy(ty, *v)).collect())
        };
        if cx.len() == m && dy.len() == n {
            judge::<E>(c, &q, &rc, &cx, &dy, &v, "honest prover", &|| format!("x={x:?} y={y:?}"));
        }
    });
}
/// Positions: one, a tail, a head, all, some.
fn places(r: &mut StdRng, n: usize) -> Vec<bool> {
    let k = pick(r, n);
    match pick(r, 6) {
        0 => (0..n).map(|j| j == k).collect(),
        1 | 2 => (0..n).map(|j| j >= k).collect(),
        3 => (0..n).map(|j| j <= k).collect(),
        4 => vec![true; n],
        _ => (0..n).map(|_| coin(r, 1, 2)).collect(),
    }
}
/// A prover who leaves terms of the equation out, or puts others there: a verifier who overlooks them would accept.
fn neglected<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize) {
    mon.stage(&format!("proof without some of the terms/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let (rc, k) = binding::<E>(c);
        let (mut q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let r = &mut c.rng;
        let mut part = q.clone();
        let (rows, cols) = (places(r, m), places(r, n));
        let other: Fr<E> = if coin(r, 3, 4) { Fr::<E>::ZERO } else { gen::delta(r) };
        let how = pick(r, 7);
        for i in 0..m {
            for j in 0..n {
                let hit = match how {
                    0 => rows[i],
                    1 => cols[j],
                    2 => rows[i] && cols[j],
                    3 => rows[i] || cols[j],
                    _ => false,
                };
                if hit {
                    part.gamma[i][j] = other;
                }
            }
            if rows[i] && matches!(how, 0 | 3 | 4 | 6) {
                part.b[i] = other;
            }
        }
        for j in 0..n {
            if cols[j] && matches!(how, 1 | 3 | 5 | 6) {
                part.a[j] = other;
            }
        }
        part.t = part.eval(&x, &y);
        q.t = match pick(r, 8) {
            0 => q.t,
            1 => Fr::<E>::ZERO,
            _ => part.t,
        };
        let (xv, yv) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
        let s = c.sub(3);
        let Ok(p) = lib(|| LEq::<E>::lift(&part).commit_and_prove(&xv, &yv, &k, &mut LogRng::new(s))) else {
            c.count("prover refused the partial statement");
            return;
        };
        c.seen(&(&q, &part, &x, &y));
        c.sample(|| format!("{} {m}x{n} {q:?} with a proof of {part:?} for x={x:?} y={y:?}", E::name()));
        let v = LEq::<E>::lift(&q).verify(&p, &k);
        let (cx, dy): (Vec<_>, Vec<_>) = (x.iter().map(|v| rc.ix(ty, *v)).collect(), y.iter().map(|v| rc.iy(ty, *v)).collect());
        judge::<E>(c, &q, &rc, &cx, &dy, &v, "proof without some of the terms", &|| format!("proof of {part:?} for x={x:?} y={y:?}"));
    });
}
/// Proofs computed from discrete logarithms: everything but a chosen pattern of components is made to fit.
fn forged<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize) {
    mon.stage(&format!("forged proofs/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let (rc, k) = binding::<E>(c);
        let (mut q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let r = &mut c.rng;
        let (cx, dy): (Vec<_>, Vec<_>) = if coin(r, 1, 2) {
            let (rr, ss) = (gen::rows(r, m, 2), gen::rows(r, n, 2));
            let mut x = x.clone();
            if coin(r, 1, 2) {
                x[pick(r, m)] += gen::delta::<Fr<E>>(r);
            } else {
                q.t += gen::delta::<Fr<E>>(r);
            }
            ((0..m).map(|j| rc.com_x(ty, x[j], &rr[j])).collect(), (0..n).map(|j| rc.com_y(ty, y[j], &ss[j])).collect())
        } else {
            (any_coms(r, &[rc.u[0], rc.u[1], rc.us()], m), any_coms(r, &[rc.v[0], rc.v[1], rc.vs()], n))
        };
        let (mut cx, mut dy) = (cx, dy);
        if coin(r, 1, 4) {
            let z2 = (Fr::<E>::ZERO, Fr::<E>::ZERO);
            gen::blank(r, &mut cx, &z2, &rc.us());
            gen::blank(r, &mut dy, &z2, &rc.vs());
        }
        // Under a binding key the residual's value under this functional cannot be changed by any proof.
        let a = rc.u[0].1 * rc.u[0].0.inverse().unwrap();
        let b = rc.v[0].1 * rc.v[0].0.inverse().unwrap();
        let f = |e: [Fr<E>; 4]| a * b * e[0] - a * e[1] - b * e[2] + e[3];
        let val = f(q.residual_lhs(&rc, &cx, &dy));
        for _ in 0..3 {
            let mut rho = gen::pattern::<Fr<E>>(&mut c.rng);
            let fv = f(rho);
            if val.is_zero() {
                rho = [Fr::<E>::ZERO; 4];
            } else if let Some(inv) = fv.inverse() {
                rho = rho.map(|e| e * inv * val);
            } else {
                continue;
            }
            let Some(mut p) = gen::solve(&mut c.rng, &q, &rc, &cx, &dy, rho) else { continue };
            if coin(&mut c.rng, 1, 6) {
                let z2 = (Fr::<E>::ZERO, Fr::<E>::ZERO);
                gen::blank(&mut c.rng, &mut p.pi, &z2, &rc.vs());
                gen::blank(&mut c.rng, &mut p.theta, &z2, &rc.us());
            }
            c.seen(&(&q, &p));
            c.sample(|| format!("{} {m}x{n} {q:?} forged so that only {rho:?} remains: {p:?}", E::name()));
            let eq = LEq::<E>::lift(&q);
            let v = eq.verify(&lift_proof::<E>(ty, &p), &k);
            judge::<E>(c, &q, &rc, &cx, &dy, &v, "forged proof", &|| format!("proof {p:?} residual {rho:?}"));
        }
    });
}
/// All commitments and all proofs for 1x1 equations over a tiny field.
fn exhaustive<E: Eng>(mon: &Mon, r: u64, stmts: u64) {
    mon.stage_all(&format!("all commitments and proofs, 1x1/{}", E::name()), stmts * 4, |c| {
        let f = |v: u64| Fr::<E>::from(v);
        let ty = TYPES[(c.idx % 4) as usize];
        let (rc, k) = binding::<E>(c);
        let e: Vec<_> = (0..4).map(|_| Fr::<E>::rand(&mut c.rng)).collect();
        let q = REq { ty, a: vec![e[0]], b: vec![e[1]], gamma: vec![vec![e[2]]], t: e[3] };
        let eq = LEq::<E>::lift(&q);
        let pair = |k: u64| (f(k % r), f(k / r % r));
        let ne = ty.kx() + ty.ky();
        let total = r.pow(2 * ne as u32);
        // The proof space of the larger types is sampled, that of quadratic equations complete.
        let limit = if ty == Ty::Q { total } else { total.min(243) };
        let mut p = lift_proof::<E>(ty, &RProof { c: vec![(f(0), f(0))], d: vec![(f(0), f(0))], pi: vec![(f(0), f(0)); ty.kx()], theta: vec![(f(0), f(0)); ty.ky()] });
        let mut accepted = 0;
        for cd in 0..r.pow(4) {
            let (cx, dy) = (pair(cd), pair(cd / (r * r)));
            let (x, y) = (rc.open_x(ty, cx), rc.open_y(ty, dy));
            let truth = q.holds(&[x], &[y]);
            p.xcoms.coms[0] = l1::<E>(&cx);
            p.ycoms.coms[0] = l2::<E>(&dy);
            for t in 0..limit {
                let mut w = if limit == total { t } else { c.rng.gen_range(0..total) };
                let mut el = || {
                    let v = pair(w);
                    w /= r * r;
                    v
                };
                for k in 0..ty.kx() {
                    p.equ_proofs[0].pi[k] = l2::<E>(&el());
                }
                for k in 0..ty.ky() {
                    p.equ_proofs[0].theta[k] = l1::<E>(&el());
                }
                let v = eq.verify(&p, &k);
                accepted += (v == Verdict::Accept) as u64;
                if !c.check(!(v == Verdict::Accept && !truth), || format!("{} accepted for x={x} y={y}, {q:?}, {rc:?}, {:?}", ty.name(), read_proof(&p))) {
                    return;
                }
            }
        }
        mon.count("accepted (true statements) in tiny enumerations", accepted);
        c.seen(&(&q, &rc));
    });
}

const RULE: &str = "Each case judges one verdict against the values that the commitments determine under a binding CRS (extracted with the trapdoor): proofs by the library's prover for unsatisfied equations, its proofs of equations in which some terms are left out, proofs solved from discrete logarithms for arbitrary commitments such that only a chosen pattern of the four components is violated, and all commitments and proofs over tiny fields. Distinct = distinct (equation, witness or proof).";
fn check(mon: &Mon) {
    unsatisfied::<E59>(mon, 200_000, 6_000_000, 12);
    unsatisfied::<EW>(mon, 30_000, 1_000_000, 8);
    unsatisfied::<E7>(mon, 60_000, 3_000_000, 5);
    unsatisfied::<Bls>(mon, 250, 10_000, 3);
    neglected::<E59>(mon, 120_000, 4_000_000, 12);
    neglected::<EW>(mon, 15_000, 500_000, 8);
    neglected::<Bls>(mon, 150, 6_000, 3);
    forged::<E59>(mon, 200_000, 6_000_000, 10);
    forged::<EW>(mon, 30_000, 1_000_000, 6);
    forged::<E13>(mon, 60_000, 3_000_000, 4);
    forged::<E3>(mon, 60_000, 3_000_000, 4);
    forged::<Bls>(mon, 200, 8_000, 3);
    exhaustive::<E3>(mon, 3, if mon.thorough() { 200 } else { 20 });
}

fn main() {
    gsmon::run("C02", RULE, check)
}
