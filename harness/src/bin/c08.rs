//! C08 generated CRSs are well-formed, binding and independent.
use gsmon::prelude::*;
use std::collections::HashMap;
use std::sync::Mutex;

/// Generators g1, g2 and exponents a1, a2 (second entry of the first key element), t1, t2 (second key element).
fn exponents<F: PrimeField>(rc: &RCrs<F>) -> Option<[F; 6]> {
    let (i1, i2) = (rc.g1.inverse()?, rc.g2.inverse()?);
    Some([rc.g1, rc.g2, rc.u[0].1 * i1, rc.v[0].1 * i2, rc.u[1].0 * i1, rc.v[1].0 * i2])
}
const NAMES: [&str; 6] = ["g1", "g2", "a1", "a2", "t1", "t2"];

fn structure<E: Eng>(c: &Case, k: &CRS<E>) -> Option<RCrs<Fr<E>>> {
    if !c.check(k.u.len() == 2 && k.v.len() == 2, || format!("the keys have {} and {} elements", k.u.len(), k.v.len())) {
        return None;
    }
    let gt = E::pairing(k.g1_gen, k.g2_gen);
    c.check(k.gt_gen == gt, || format!("the target generator is not the pairing of the generators: {k:?}"));
    c.check(k.u[0].0 == k.g1_gen && k.v[0].0 == k.g2_gen, || format!("a key does not start with the generator of its side: {k:?}"));
    if !E::SHADOW {
        c.check(!k.g1_gen.is_zero() && !k.g2_gen.is_zero() && !k.gt_gen.is_zero(), || format!("a generator is trivial: {k:?}"));
        return None;
    }
    let rc = read_crs(k);
    if rc.g1.is_zero() || rc.g2.is_zero() {
        return Some(rc);
    }
    c.check(!k.gt_gen.is_zero(), || format!("the target generator is trivial: {k:?}"));
    c.check(rc.det_u().is_zero() && rc.det_v().is_zero(), || format!("a key's second element is not a multiple of its first: {rc:?}"));
    Some(rc)
}
/// All outcomes of the generator over tiny groups.
fn tiny<E: Eng>(mon: &Mon, r: u64) {
    mon.stage_all(&format!("all outcomes of the generator/{}", E::name()), 1, |c| {
        let (dist, n) = enumerate(r, |g| {
            let k = c.must("generate_crs", || CRS::<E>::generate_crs(g));
            let rc = structure(c, &k)?;
            let e = exponents(&rc)?;
            c.mon.seen(&(r, &e));
            if e.iter().any(|v| v.is_zero()) {
                return None;
            }
            let mut d = Digits::new(r);
            e.iter().for_each(|v| d.put(v));
            Some(d.v)
        });
        c.mon.count(&format!("outcomes enumerated, order {r}"), n);
        let mut good: Vec<u128> = dist.iter().filter(|(k, _)| k.is_some()).map(|(_, w)| *w).collect();
        let bad = dist.get(&None).copied().unwrap_or(0);
        let total: u128 = good.iter().sum::<u128>() + bad;
        good.sort();
        c.sample(|| format!("order {r}: {n} outcomes, {} distinct (g1,g2,a1,a2,t1,t2) without zeros, weights {:?}..{:?}", good.len(), good.first(), good.last()));
        c.check(good.len() as u64 == (r - 1).pow(6), || format!("order {r}: only {} of the {} combinations of non-zero generators and exponents are ever generated: they are not independent", good.len(), (r - 1).pow(6)));
        c.check(good.first() == good.last(), || format!("order {r}: the combinations of non-zero generators and exponents are not equally likely (weights {:?} to {:?}): not uniform and independent", good.first(), good.last()));
        // Zero draws at most (each of the six is zero with probability 1/r).
        let frac = bad as f64 / total as f64;
        let max = 1.0 - (1.0 - 1.0 / r as f64).powi(6);
        c.check(frac <= max + 1e-9, || format!("order {r}: a generator or exponent is zero in {frac} of the outcomes, more than {max}"));
    });
}
/// Dependence on single draws over large fields.
fn draws<E: Eng>(mon: &Mon, q: u64, t: u64) {
    mon.stage(&format!("dependence on draws/{}", E::name()), q, t, |c| {
        let (base, rows) = jacobian(c.seed, |g| {
            let k = c.must("generate_crs", || CRS::<E>::generate_crs(g));
            structure(c, &k).and_then(|rc| exponents(&rc)).map(|e| e.to_vec()).unwrap_or_default()
        });
        if base.len() != 6 || rows.iter().any(|r| r.len() != 6) {
            return;
        }
        let rk = rank(rows.clone());
        c.seen(&base);
        c.sample(|| format!("{}: {} draws, rank {rk}", E::name(), rows.len()));
        c.check(rk == 6, || format!("the six generators and exponents depend on the {} draws with rank {rk} only: {:?}", rows.len(), base));
        // Each exponent varies with what no other one varies with.
        for k in 0..6 {
            let others: Vec<Vec<_>> = rows.iter().map(|r| (0..6).filter(|j| *j != k).map(|j| r[j]).collect()).collect();
            c.check(rank(others) == 5, || format!("{} is not drawn independently of the others", NAMES[k]));
        }
    });
}
/// Many CRSs over the production scalar field: uniform exponents, no shared trapdoors.
fn many<E: Eng>(mon: &Mon, q: u64, t: u64) {
    let seen: Mutex<HashMap<Vec<u8>, (u64, usize)>> = Mutex::default();
    let stats: Mutex<Vec<Buckets>> = Mutex::new((0..6 + 15 * 2).map(|_| Buckets::new()).collect());
    mon.stage(&format!("many CRSs/{}", E::name()), q, t, |c| {
        // Seeds of a stream, or consecutive calls on one stream.
        let mut rng = LogRng::new(c.seed);
        let calls = 1 + pick(&mut c.rng, 4);
        for _ in 0..calls {
            let k = c.must("generate_crs", || CRS::<E>::generate_crs(&mut rng));
            let Some(rc) = structure(c, &k) else { return };
            let Some(e) = exponents(&rc) else {
                c.check(false, || format!("a generator is trivial: {rc:?}"));
                return;
            };
            c.seen(&e);
            let mut s = seen.lock().unwrap();
            for (j, v) in e.iter().enumerate() {
                for (w, how) in [(*v, "equals"), (-*v, "is the negative of"), (v.inverse().unwrap_or(*v), "is the inverse of")] {
                    if let Some((i, j0)) = s.get(&big(&w)) {
                        let (i, j0) = (*i, *j0);
                        c.check(false, || format!("{} of a CRS {how} {} of CRS number {i} (this is {})", NAMES[j], NAMES[j0], c.idx));
                    }
                }
            }
            for (j, v) in e.iter().enumerate() {
                s.insert(big(v), (c.idx, j));
                c.check(!v.is_zero(), || format!("{} is zero", NAMES[j]));
            }
            drop(s);
            let mut st = stats.lock().unwrap();
            let mut at = 6;
            for j in 0..6 {
                st[j].add(&e[j]);
                for l in j + 1..6 {
                    st[at].add(&(e[j] - e[l]));
                    st[at + 1].add(&(e[j] * e[l]));
                    at += 2;
                }
            }
        }
    });
    // The statistics need the whole history: judged by one extra case.
    mon.stage(&format!("uniformity of many CRSs/{}", E::name()), 1, 1, |c| {
        let st = stats.lock().unwrap();
        let mut worst = f64::MIN;
        for (k, b) in st.iter().enumerate() {
            if b.n < 2000 {
                continue;
            }
            worst = worst.max(b.excess());
            c.check(b.excess() < 12.0, || {
                format!("{} over {} CRSs is not uniform (chi-square {} standard deviations above its mean; high buckets {:?})", if k < 6 { NAMES[k] } else { "a difference or product of two of the generators and exponents" }, b.n, b.excess(), b.high)
            });
        }
        c.sample(|| format!("{} statistics over {} CRSs, worst chi-square {worst:.2} standard deviations above its mean", st.len(), st[0].n));
    });
}
/// On the curve, exponents are found among the recorded draws.
fn curve(mon: &Mon, q: u64, t: u64) {
    type E = Bls;
    mon.stage("curve/bls12-381", q, t, |c| {
        let mut rng = LogRng::new(c.seed);
        rng.log = Some(vec![]);
        let k = c.must("generate_crs", || CRS::<E>::generate_crs(&mut rng));
        structure(c, &k);
        if k.u.len() != 2 || k.v.len() != 2 {
            return;
        }
        for (bytes, what) in [(ser(&k.u), "u"), (ser(&k.g1_gen), "g1")] {
            c.check(if what == "u" { Vec::<Com1<E>>::deserialize_uncompressed(&bytes[..]).is_ok() } else { ark_bls12_381::G1Affine::deserialize_uncompressed(&bytes[..]).is_ok() }, || format!("{what} of a CRS is not in the group"));
        }
        c.check(Vec::<Com2<E>>::deserialize_uncompressed(&ser(&k.v)[..]).is_ok(), || "v of a CRS is not in the group".into());
        c.seen(&ser(&k));
        let words = rng.log.take().unwrap();
        // Every run of four words, as a scalar in the sampler's representation.
        let cand: Vec<Fr<E>> = words.windows(4).map(|w| {
            let mut g = PatternRng { words: w.to_vec(), pos: 0 };
            Fr::<E>::rand(&mut g)
        }).collect();
        let find1 = |p: &ark_bls12_381::G1Affine, q: &ark_bls12_381::G1Affine| cand.iter().find(|s| (*p * **s).into_affine() == *q).copied();
        let find2 = |p: &ark_bls12_381::G2Affine, q: &ark_bls12_381::G2Affine| cand.iter().find(|s| (*p * **s).into_affine() == *q).copied();
        if let (Some(a), Some(t)) = (find1(&k.g1_gen, &k.u[0].1), find1(&k.g1_gen, &k.u[1].0)) {
            c.count("trapdoor of side 1 found among the draws");
            c.check((k.u[0].1 * t).into_affine() == k.u[1].1, || format!("u[1] is not t times u[0] (a={a}, t={t})"));
            if let (Some(a2), Some(t2)) = (find2(&k.g2_gen, &k.v[0].1), find2(&k.g2_gen, &k.v[1].0)) {
                c.count("trapdoor of side 2 found among the draws");
                c.check((k.v[0].1 * t2).into_affine() == k.v[1].1, || format!("v[1] is not t times v[0] (a={a2}, t={t2})"));
                let e = [a, t, a2, t2];
                c.check((0..4).all(|i| (0..i).all(|j| e[i] != e[j])), || format!("trapdoor values are shared: {e:?}"));
            }
        }
    });
}

const RULE: &str = "Generators and exponents of generated CRSs are read off their shadow discrete logarithms. Tiny groups: the exact joint distribution of (g1, g2, a1, a2, t1, t2) over all outcomes of the random generator, given that none is zero, must be uniform. Large groups: rank of the dependence on single draws, distinctness across all CRSs, chi-square statistics. Distinct = distinct exponent tuples.";
fn check(mon: &Mon) {
    tiny::<E3>(mon, 3);
    tiny::<E5>(mon, 5);
    tiny::<E7>(mon, 7);
    if mon.thorough() {
        tiny::<E13>(mon, 13);
    }
    draws::<E59>(mon, 2000, 100_000);
    draws::<EW>(mon, 400, 20_000);
    many::<EW>(mon, 30_000, 1_000_000);
    many::<E59>(mon, 20_000, 100_000);
    curve(mon, 60, 2500);
}

fn main() {
    gsmon::run("C08", RULE, check)
}
