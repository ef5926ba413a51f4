//! C06 commitments are perfectly hiding under a hiding CRS.
use gsmon::prelude::*;
use std::collections::HashSet;
use std::sync::Mutex;

/// The commitments' discrete logarithms, whatever function made them.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
struct How {
    first: bool,
    group: bool,
    single: bool,
}
impl How {
    fn of(k: u64) -> Self {
        How { first: k & 1 == 0, group: k & 2 == 0, single: k & 4 != 0 }
    }
    fn ty(self) -> Ty {
        if self.group {
            Ty::P
        } else {
            Ty::Q
        }
    }
    fn k(self) -> usize {
        1 + self.group as usize
    }
    fn name(self) -> String {
        format!("{} {} on side {}", if self.single { "single" } else { "batch of" }, if self.group { "group elements" } else { "scalars" }, if self.first { 1 } else { 2 })
    }
    fn commit<E: Eng, R: Rng>(self, x: &[Fr<E>], k: &CRS<E>, rng: &mut R) -> Vec<P2<Fr<E>>> {
        let ty = self.ty();
        if self.first {
            let v = vars_x::<E>(ty, x);
            let c = if self.single { singles_x(ty, &v, k, rng) } else { batch_x(ty, &v, k, rng) };
            c.coms.iter().map(d1::<E>).collect()
        } else {
            let v = vars_y::<E>(ty, x);
            let c = if self.single { singles_y(ty, &v, k, rng) } else { batch_y(ty, &v, k, rng) };
            c.coms.iter().map(d2::<E>).collect()
        }
    }
    /// The mask of a commitment, by the trapdoor of a hiding key: one or two field elements. None: outside of the span.
    fn mask<F: PrimeField>(self, rc: &RCrs<F>, x: F, c: P2<F>) -> Option<Vec<F>> {
        let (k, i) = if self.first { (&rc.u, rc.ix(self.ty(), x)) } else { (&rc.v, rc.iy(self.ty(), x)) };
        let d = add2(c, sc2(-F::ONE, i));
        if self.group {
            let inv = (k[0].0 * k[1].1 - k[0].1 * k[1].0).inverse()?;
            Some(vec![(d.0 * k[1].1 - d.1 * k[1].0) * inv, (k[0].0 * d.1 - k[0].1 * d.0) * inv])
        } else {
            let r = d.0 * k[0].0.inverse()?;
            (r * k[0].1 == d.1).then(|| vec![r])
        }
    }
}
fn hiding<F: PrimeField>(r: &mut StdRng) -> RCrs<F> {
    gen::crs(r, Kind::Hiding)
}

fn tiny<E: Eng>(mon: &Mon, r: u64, max_draws: usize, keys: u64) {
    mon.stage(&format!("exact distributions/{}", E::name()), 8 * keys, 8 * keys * 20, |c| {
        let h = How::of(c.idx % 8);
        let rc = hiding::<Fr<E>>(&mut c.rng);
        let k = lift_crs::<E>(&rc);
        let max = max_draws / h.k();
        let n = 1 + pick(&mut c.rng, max);
        let span = if h.group { r.pow(2) } else { r };
        let mut first: Option<Vec<Fr<E>>> = None;
        for _ in 0..if n <= 2 { 6 } else { 2 } {
            let mut p = Pool::new(&mut c.rng, &[]);
            let x = p.vec(&mut c.rng, n);
            let (dist, total) = enumerate(r, |g| {
                let v = c.must("commit", || h.commit::<E, _>(&x, &k, g));
                if v.len() != n {
                    return 0;
                }
                let key = if h.first { &rc.u } else { &rc.v };
                if !h.group && v.iter().any(|p| p.0 * key[0].1 != p.1 * key[0].0) {
                    return 1;
                }
                let mut d = Digits::new(r);
                v.iter().for_each(|p| d.put2(p));
                d.v
            });
            c.seen(&(h, &x, &rc));
            c.mon.count("outcomes enumerated", total);
            c.count(&format!("{} with {n} values, order {r}", h.name()));
            let ctx = || format!("{} values {x:?}, CRS {rc:?}, order {r}, {} outcomes", h.name(), total);
            c.sample(|| format!("{}: {} commitment lists, each of weight {:?}", ctx(), dist.len(), dist.values().next()));
            if !c.check(!dist.contains_key(&0), || format!("wrong number of commitments; {}", ctx())) {
                return;
            }
            c.check(!dist.contains_key(&1), || format!("a commitment to a scalar is outside the span of the key; {}", ctx()));
            // Uniform over span^n: the same for all values.
            let (lo, hi) = (dist.values().min().unwrap(), dist.values().max().unwrap());
            c.check(dist.len() as u64 == span.pow(n as u32) && lo == hi, || {
                format!("the commitments are not uniform over the span of the key: {} of {} lists occur, with weights from {lo} to {hi}; {}", dist.len(), span.pow(n as u32), ctx())
            });
            first.get_or_insert(x);
        }
    });
}
/// Large fields: masks depend on the draws with full rank, so that they are independent and uniform.
fn draws<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("dependence on draws/{}", E::name()), q, t, |c| {
        let h = How::of(c.idx % 8);
        let n = match pick(&mut c.rng, 12) {
            0 if max > 20 => [33, 64, 65, 127, 128, 129, 255, 256, 257][pick(&mut c.rng, 9)].min(max),
            1 => 1 + pick(&mut c.rng, max.min(40)),
            _ => 1 + pick(&mut c.rng, 9),
        };
        let rc = hiding::<Fr<E>>(&mut c.rng);
        if rc.u[0].0.is_zero() || rc.v[0].0.is_zero() {
            return;
        }
        let k = lift_crs::<E>(&rc);
        let mut p = Pool::new(&mut c.rng, &crs_special(&rc));
        let x = p.vec(&mut c.rng, n);
        let mut bad = false;
        let (base, rows) = jacobian(c.seed, |g| {
            let v = c.must("commit", || h.commit::<E, _>(&x, &k, g));
            let m: Option<Vec<_>> = v.iter().zip(&x).map(|(p, x)| h.mask(&rc, *x, *p)).collect();
            if v.len() != n || m.is_none() {
                bad = true;
                return vec![];
            }
            m.unwrap().concat()
        });
        if !c.check(!bad, || format!("{}: a commitment is outside the span of the key; values {x:?}, CRS {rc:?}", h.name())) {
            return;
        }
        let rk = rank(rows.clone());
        c.seen(&(h, &x, &base));
        c.count(&format!("{} {} values", h.name(), if n > 20 { "more than 20" } else { "up to 20" }));
        c.sample(|| format!("{} {n} values: {} draws, {} mask coordinates, rank {rk}", h.name(), rows.len(), base.len()));
        c.check(rk == n * h.k(), || format!("{}: the {} mask coordinates of {n} commitments depend on the {} draws with rank {rk} only; values {x:?}, CRS {rc:?}", h.name(), base.len(), rows.len()));
        let mut set = HashSet::new();
        if E::name() != E7::name() {
            c.check(base.iter().all(|b| set.insert(*b)), || format!("{}: a mask is used twice: {base:?}", h.name()));
            c.check(base.iter().all(|b| !b.is_zero()), || format!("{}: a mask is zero: {base:?}", h.name()));
        }
    });
}
/// The production scalar field: masks are uniform and never reused.
fn masks<E: Eng>(mon: &Mon, q: u64, t: u64) {
    let seen: Mutex<HashSet<Vec<u8>>> = Mutex::default();
    let stats: Mutex<Vec<Buckets>> = Mutex::new((0..8 * 6).map(|_| Buckets::new()).collect());
    mon.stage(&format!("masks/{}", E::name()), q, t, |c| {
        let which = c.idx % 8;
        let h = How::of(which);
        let rc = hiding::<Fr<E>>(&mut c.rng);
        if rc.u[0].0.is_zero() || rc.v[0].0.is_zero() {
            return;
        }
        let k = lift_crs::<E>(&rc);
        let mut rng = LogRng::new(c.seed);
        let mut all = vec![];
        for _ in 0..1 + pick(&mut c.rng, 3) {
            let n = if E::name() == EW::name() && coin(&mut c.rng, 1, 150) { [130, 260, 520, 1030, 2050][pick(&mut c.rng, 5)] } else { 1 + pick(&mut c.rng, 12) };
            let mut p = Pool::new(&mut c.rng, &crs_special(&rc));
            let x = p.vec(&mut c.rng, n);
            let v = c.must("commit", || h.commit::<E, _>(&x, &k, &mut rng));
            c.seen(&(h, &x, &v));
            for (p, x) in v.iter().zip(&x) {
                match h.mask(&rc, *x, *p) {
                    Some(m) => all.extend(m),
                    None => {
                        c.check(false, || format!("{}: a commitment is outside the span of the key", h.name()));
                        return;
                    }
                }
            }
        }
        let mut s = seen.lock().unwrap();
        for m in &all {
            c.check(s.insert(big(m)) || E::name() == E7::name(), || format!("{}: a mask occurs a second time: {m}", h.name()));
        }
        drop(s);
        let mut st = stats.lock().unwrap();
        let b = which as usize * 6;
        for (j, m) in all.iter().enumerate() {
            st[b + (j % 2)].add(m);
            for (d, at) in [(1, 2), (2, 4)] {
                if j >= d {
                    st[b + at].add(&(*m - all[j - d]));
                    st[b + at + 1].add(&(*m + all[j - d]));
                }
            }
        }
    });
    mon.stage(&format!("uniformity of masks/{}", E::name()), 1, 1, |c| {
        let st = stats.lock().unwrap();
        let mut worst = f64::MIN;
        for (k, b) in st.iter().enumerate() {
            if b.n < 2000 {
                continue;
            }
            worst = worst.max(b.excess());
            c.check(b.excess() < 12.0, || format!("{}: masks (statistic {}) over {} samples are not uniform: chi-square {:.1} standard deviations above its mean", How::of(k as u64 / 6).name(), k % 6, b.n, b.excess()));
        }
        c.sample(|| format!("{} statistics, {} masks in the first, worst chi-square {worst:.2} standard deviations above its mean", st.len(), st[0].n));
    });
}
/// On the curve: the recorded masks, which C05 ties to the commitments, are never reused and depend on every value drawn.
fn curve(mon: &Mon, q: u64, t: u64) {
    let seen: Mutex<HashSet<Vec<u8>>> = Mutex::default();
    mon.stage("curve/bls12-381", q, t, |c| {
        type E = Bls;
        let rc = hiding::<Fr<E>>(&mut c.rng);
        let k = lift_crs::<E>(&rc);
        let n = 1 + pick(&mut c.rng, 6);
        let same = coin(&mut c.rng, 1, 2);
        let mut p = if same { Pool { style: 5, past: vec![Fr::<E>::ONE], special: vec![] } } else { Pool::new(&mut c.rng, &[]) };
        let x = p.vec(&mut c.rng, n);
        let mut rng = LogRng::new(c.seed);
        for w in 0..4 {
            let h = How::of(w | (c.idx & 1) << 2);
            let ty = h.ty();
            let (rand, coms, bytes): (Matrix<Fr<E>>, usize, Vec<Vec<u8>>) = c.must("commit", || {
                if h.first {
                    let v = vars_x::<E>(ty, &x);
                    let q = if h.single { singles_x(ty, &v, &k, &mut rng) } else { batch_x(ty, &v, &k, &mut rng) };
                    (rand_of1(&q), q.coms.len(), q.coms.iter().map(ser).collect())
                } else {
                    let v = vars_y::<E>(ty, &x);
                    let q = if h.single { singles_y(ty, &v, &k, &mut rng) } else { batch_y(ty, &v, &k, &mut rng) };
                    (rand_of2(&q), q.coms.len(), q.coms.iter().map(ser).collect())
                }
            });
            c.seen(&bytes);
            c.check(coms == n && rand.len() == n && rand.iter().all(|r| r.len() == h.k()), || format!("{}: {coms} commitments and masks {rand:?} for {n} values", h.name()));
            let mut s = seen.lock().unwrap();
            for m in rand.iter().flatten() {
                c.check(s.insert(big(m)), || format!("{}: a mask occurs a second time: {m}", h.name()));
                c.check(m.into_bigint().num_bits() > 150, || format!("{}: a mask is short: {m}", h.name()));
            }
            for b in bytes {
                c.check(s.insert(b), || format!("{}: the same commitment occurs a second time", h.name()));
            }
        }
    });
}

const RULE: &str = "Tiny groups: the exact joint distribution of a list of commitments over all outcomes of the random generator must be uniform over the span of the hiding key, whatever the values. Large groups: masks are computed from the commitments with the trapdoor of the hiding key; their dependence on single draws must have full rank, no mask may repeat, and chi-square statistics (single masks, sums and differences of neighbours) must fit. Distinct = distinct (function, values, key or commitments).";
fn check(mon: &Mon) {
    tiny::<E3>(mon, 3, 6, 40);
    tiny::<E5>(mon, 5, 4, 40);
    tiny::<E7>(mon, 7, 4, 10);
    if mon.thorough() {
        tiny::<E3>(mon, 3, 10, 2);
    }
    draws::<E59>(mon, 6000, 200_000, 257);
    draws::<EW>(mon, 400, 20_000, 12);
    masks::<EW>(mon, 12_000, 400_000);
    masks::<E59>(mon, 12_000, 100_000);
    curve(mon, 60, 2500);
}

fn main() {
    gsmon::run("C06", RULE, check)
}
