//! C04 malformed or mismatched proofs are never accepted.
use gsmon::prelude::*;

/// What the verifier is shown, before lifting: every list may have the wrong length.
#[derive(Clone, Debug)]
struct Shown<F> {
    q: REq<F>,
    p: RProof<F>,
    tag: Ty,
    /// Number of equation proofs; `garbage` of them are not the valid one.
    proofs: usize,
    garbage: Option<usize>,
}
fn well_shaped<F>(s: &Shown<F>) -> bool {
    let (m, n) = (s.p.c.len(), s.p.d.len());
    s.tag == s.q.ty
        && s.proofs == 1
        && s.q.a.len() == n
        && s.q.b.len() == m
        && s.q.gamma.len() == m
        && s.q.gamma.iter().all(|r| r.len() == n)
        && s.p.pi.len() == s.q.ty.kx()
        && s.p.theta.len() == s.q.ty.ky()
}
fn resize<T: Clone>(r: &mut StdRng, v: &mut Vec<T>, zero: T, other: T) -> &'static str {
    let grow = v.is_empty() || coin(r, 1, 2);
    if grow {
        let e = match pick(r, 4) {
            0 | 1 => zero,
            2 if !v.is_empty() => v[v.len() - 1].clone(),
            _ => other,
        };
        let k = 1 + pick(r, 8) / 7;
        for _ in 0..k {
            match pick(r, 4) {
                0 => v.insert(0, e.clone()),
                _ => v.push(e.clone()),
            }
        }
        "longer"
    } else {
        match pick(r, 6) {
            0 => v.clear(),
            1 => {
                v.remove(0);
            }
            _ => {
                v.pop();
            }
        }
        "shorter"
    }
}
fn mutate<F: PrimeField>(r: &mut StdRng, s: &mut Shown<F>) -> String {
    let z = F::ZERO;
    let z2 = (z, z);
    let e = gen::elem::<F>(r);
    let e2 = (gen::elem::<F>(r), gen::elem::<F>(r));
    let k = pick(r, 16);
    match k {
        0 => format!("a_consts {}", resize(r, &mut s.q.a, z, e)),
        1 => format!("b_consts {}", resize(r, &mut s.q.b, z, e)),
        2 => format!("X commitments {}", resize(r, &mut s.p.c, z2, e2)),
        3 => format!("Y commitments {}", resize(r, &mut s.p.d, z2, e2)),
        4 => format!("pi {}", resize(r, &mut s.p.pi, z2, e2)),
        5 => format!("theta {}", resize(r, &mut s.p.theta, z2, e2)),
        6 | 7 => {
            let n = s.q.a.len();
            let zr = vec![z; n];
            let er = (0..n).map(|_| gen::elem::<F>(r)).collect();
            format!("gamma rows {}", resize(r, &mut s.q.gamma, zr, er))
        }
        8 => {
            // Every row by the same amount.
            let grow = coin(r, 1, 2);
            for row in s.q.gamma.iter_mut() {
                if grow {
                    row.push(if coin(r, 1, 2) { z } else { e })
                } else {
                    row.pop();
                }
            }
            format!("gamma columns {}", if grow { "longer" } else { "shorter" })
        }
        9..=11 => {
            if s.q.gamma.is_empty() {
                return "nothing".into();
            }
            let j = pick(r, s.q.gamma.len());
            format!("gamma row {j} of {} {}", s.q.gamma.len(), resize(r, &mut s.q.gamma[j], z, e))
        }
        12 => {
            let (m, n) = (s.q.gamma.len(), s.q.gamma.first().map(|r| r.len()).unwrap_or(0));
            if s.q.gamma.iter().all(|x| x.len() == n) && m > 0 && n > 0 {
                s.q.gamma = (0..n).map(|j| (0..m).map(|k| s.q.gamma[k][j]).collect()).collect();
            }
            "gamma transposed".into()
        }
        13 => {
            s.tag = TYPES[pick(r, 4)];
            format!("type tag {}", s.tag.name())
        }
        14 => {
            s.q.ty = TYPES[pick(r, 4)];
            format!("equation type {}", s.q.ty.name())
        }
        _ => {
            s.proofs = [0, 2, 2, 3][pick(r, 4)];
            s.garbage = if coin(r, 1, 2) { None } else { Some(pick(r, 3)) };
            format!("{} equation proofs, garbage at {:?}", s.proofs, s.garbage)
        }
    }
}
fn show<E: Eng>(s: &Shown<Fr<E>>) -> (LEq<E>, CProof<E>) {
    let mut p = lift_proof::<E>(s.tag, &s.p);
    let one = p.equ_proofs[0].clone();
    p.equ_proofs = (0..s.proofs)
        .map(|k| {
            let mut e = one.clone();
            if s.garbage == Some(k) {
                e.pi.iter_mut().for_each(|x| x.0 = E::g2(&Fr::<E>::from(2u64)));
            }
            e
        })
        .collect();
    (LEq::lift(&s.q), p)
}

fn malformed<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize, per: usize) {
    mon.stage(&format!("malformed/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let kind = [Kind::Binding, Kind::Hiding][pick(&mut c.rng, 2)];
        let rc = gen::crs::<Fr<E>>(&mut c.rng, kind);
        let (mut q, mut x, mut y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let r = &mut c.rng;
        let z = Fr::<E>::ZERO;
        match pick(r, 8) {
            // Nothing that a truncation could lose would change the sum.
            0 => q.gamma.iter_mut().flatten().for_each(|e| *e = z),
            1 => {
                q.a.iter_mut().for_each(|e| *e = z);
                q.b.iter_mut().for_each(|e| *e = z);
                q.gamma.iter_mut().flatten().for_each(|e| *e = z);
            }
            2 => {
                q.a[n - 1] = z;
                q.b[m - 1] = z;
                q.gamma[m - 1].iter_mut().for_each(|e| *e = z);
                q.gamma.iter_mut().for_each(|e| e[n - 1] = z);
            }
            3 => {
                x.iter_mut().for_each(|e| *e = z);
                y.iter_mut().for_each(|e| *e = z);
            }
            _ => {}
        }
        q.t = q.eval(&x, &y);
        let r = &mut c.rng;
        let (mut rr, mut ss, mut tt) = (gen::rows(r, m, 2), gen::rows(r, n, 2), gen::rows(r, ty.ky(), ty.kx()));
        if coin(r, 1, 6) {
            for row in rr.iter_mut().chain(ss.iter_mut()).chain(tt.iter_mut()) {
                row.iter_mut().for_each(|e| *e = z);
            }
        }
        let p = q.prove(&rc, &x, &y, &rr, &ss, &tt);
        let base = Shown { q, p, tag: ty, proofs: 1, garbage: None };
        let k = lift_crs::<E>(&rc);
        let (eq0, p0) = show::<E>(&base);
        let v = eq0.verify(&p0, &k);
        c.check(v == Verdict::Accept, || format!("the well-formed proof the malformed ones are made from gives {v:?}: {base:?} {rc:?}"));
        for _ in 0..per {
            let mut s = base.clone();
            let mut what = vec![];
            for _ in 0..[1, 1, 1, 1, 2, 2, 3][pick(&mut c.rng, 7)] {
                what.push(mutate(&mut c.rng, &mut s));
            }
            // A side without variables is outside the property; an exponent matrix without entries has no definite
            // dimensions then.
            let void = (s.p.c.is_empty() || s.p.d.is_empty()) && s.q.gamma.iter().all(|r| r.is_empty());
            if void || well_shaped(&s) {
                c.count("still well-formed (skipped)");
                continue;
            }
            let (eq, lp) = show::<E>(&s);
            let v = eq.verify(&lp, &k);
            c.seen(&(&s.q, &s.p, s.tag, s.proofs));
            for w in &what {
                // Counted by kind, without positions.
                let key: String = w.split(", garbage").next().unwrap().chars().filter(|c| !c.is_ascii_digit()).collect();
                c.count(&format!("{key}: {}", match v { Verdict::Accept => "accept", Verdict::Reject => "returned false", _ => "panicked" }));
            }
            c.sample(|| format!("{} {m}x{n}, {what:?}: {v:?}", E::name()));
            c.check(v != Verdict::Accept, || format!("accepted although malformed ({what:?}) on {}: {s:?} {rc:?}", E::name()));
            if matches!(v, Verdict::Panic(_)) && (E::COST == 1 || coin(&mut c.rng, 1, 4)) {
                let v = eq0.verify(&p0, &k);
                c.check(v == Verdict::Accept, || format!("after an aborted call ({what:?}) a well-formed honest proof gives {v:?}: {base:?} {rc:?}"));
                if coin(&mut c.rng, 1, 8) {
                    let sd = c.sub(1);
                    let (xv, yv) = (vars_x::<E>(ty, &x), vars_y::<E>(ty, &y));
                    let p1 = c.must("commit_and_prove after an aborted call", || eq0.commit_and_prove(&xv, &yv, &k, &mut LogRng::new(sd)));
                    let v = eq0.verify(&p1, &k);
                    c.check(v == Verdict::Accept, || format!("after an aborted call ({what:?}) a new honest proof gives {v:?}"));
                }
            }
        }
    });
}
/// Every pair of declared and actual type, with elements shaped for either, and every small number of equation proofs.
fn types<E: Eng>(mon: &Mon, reps: u64) {
    mon.stage(&format!("types and counts/{}", E::name()), 4 * 4 * 2 * reps, 4 * 4 * 2 * reps * 20, |c| {
        let (ta, tb) = (TYPES[(c.idx % 4) as usize], TYPES[(c.idx / 4 % 4) as usize]);
        let (m, n) = gen::dims(&mut c.rng, 4);
        let rc = gen::crs::<Fr<E>>(&mut c.rng, Kind::Hiding);
        let (q, x, y) = gen::equation(&mut c.rng, ta, m, n, &[]);
        let r = &mut c.rng;
        let (rr, ss, tt) = (gen::rows(r, m, 2), gen::rows(r, n, 2), gen::rows(r, ta.ky(), ta.kx()));
        let mut p = q.prove(&rc, &x, &y, &rr, &ss, &tt);
        if c.idx / 16 % 2 == 1 {
            // Shape the elements for the declared type instead.
            let z = (Fr::<E>::ZERO, Fr::<E>::ZERO);
            p.pi.resize(tb.kx(), z);
            p.theta.resize(tb.ky(), z);
        }
        let k = lift_crs::<E>(&rc);
        for proofs in 0..4 {
            for garbage in [None, Some(0), Some(1)] {
                let s = Shown { q: q.clone(), p: p.clone(), tag: tb, proofs, garbage };
                if well_shaped(&s) {
                    continue;
                }
                let (eq, lp) = show::<E>(&s);
                let v = eq.verify(&lp, &k);
                c.seen(&(&s.q, &s.p, tb, proofs, garbage));
                c.check(v != Verdict::Accept, || format!("accepted: equation {} with {proofs} proofs declared {} (garbage at {garbage:?}); {s:?} {rc:?}", ta.name(), tb.name()));
            }
        }
    });
}

const RULE: &str = "Each case starts from an accepted proof and makes one to three shape changes (length of any list, rows and columns of the exponent matrix, ragged rows, type tag, number of equation proofs), biased to changes whose truncation would leave the equation satisfied; acceptance is a violation, as is a library that does not accept an honest proof after an aborted call. Distinct = distinct malformed inputs.";
fn check(mon: &Mon) {
    malformed::<E59>(mon, 40_000, 1_500_000, 6, 10);
    malformed::<EW>(mon, 5_000, 200_000, 4, 10);
    malformed::<E5>(mon, 30_000, 1_000_000, 4, 10);
    malformed::<Bls>(mon, 60, 2500, 3, 6);
    types::<E59>(mon, 200);
    types::<E5>(mon, 100);
    types::<Bls>(mon, 1);
}

fn main() {
    gsmon::run("C04", RULE, check)
}
