//! C05 commitments bind: what the trapdoor extracts is what was committed, in order, at every position.
use gsmon::prelude::*;

/// What is committed with: one function of the library.
#[derive(Clone, Copy, Debug, PartialEq)]
struct How {
    first: bool,
    group: bool,
}
const HOWS: [How; 4] = [How { first: true, group: true }, How { first: true, group: false }, How { first: false, group: true }, How { first: false, group: false }];
impl How {
    /// An equation type that has such variables.
    fn ty(self) -> Ty {
        match (self.first, self.group) {
            (true, true) | (false, true) => Ty::P,
            _ => Ty::Q,
        }
    }
    fn k(self) -> usize {
        1 + self.group as usize
    }
    fn name(self) -> String {
        format!("{} on side {}", if self.group { "group elements" } else { "scalars" }, if self.first { 1 } else { 2 })
    }
}
fn vars<E: Eng>(h: How, x: &[Fr<E>]) -> Vars<E> {
    if h.first {
        vars_x::<E>(h.ty(), x)
    } else {
        vars_y::<E>(h.ty(), x)
    }
}
/// Both sides' commitments under one roof.
#[derive(Clone, Debug, PartialEq)]
enum Com<E: Pairing> {
    A(Commit1<E>),
    B(Commit2<E>),
}
impl<E: Eng> Com<E> {
    fn len(&self) -> usize {
        match self {
            Com::A(c) => c.coms.len(),
            Com::B(c) => c.coms.len(),
        }
    }
    fn rand(&self) -> Matrix<Fr<E>> {
        match self {
            Com::A(c) => rand_of1(c),
            Com::B(c) => rand_of2(c),
        }
    }
    /// Shadow engines only.
    fn logs(&self) -> Vec<P2<Fr<E>>> {
        match self {
            Com::A(c) => c.coms.iter().map(d1::<E>).collect(),
            Com::B(c) => c.coms.iter().map(d2::<E>).collect(),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Com::A(c) => ser(&c.coms),
            Com::B(c) => ser(&c.coms),
        }
    }
    fn append(&mut self, o: &mut Com<E>) {
        match (self, o) {
            (Com::A(a), Com::A(b)) => a.append(b),
            (Com::B(a), Com::B(b)) => a.append(b),
            _ => unreachable!(),
        }
    }
}
fn batch<E: Eng, R: Rng>(h: How, v: &Vars<E>, k: &CRS<E>, rng: &mut R) -> Com<E> {
    if h.first {
        Com::A(batch_x(h.ty(), v, k, rng))
    } else {
        Com::B(batch_y(h.ty(), v, k, rng))
    }
}
fn single<E: Eng, R: Rng>(h: How, v: &Vars<E>, j: usize, k: &CRS<E>, rng: &mut R) -> Com<E> {
    if h.first {
        Com::A(single_x(h.ty(), v, j, k, rng))
    } else {
        Com::B(single_y(h.ty(), v, j, k, rng))
    }
}
fn expected<F: PrimeField>(h: How, rc: &RCrs<F>, x: F, row: &[F]) -> P2<F> {
    if h.first {
        rc.com_x(h.ty(), x, row)
    } else {
        rc.com_y(h.ty(), x, row)
    }
}
fn judge<E: Eng>(c: &Case, h: How, rc: &RCrs<Fr<E>>, x: &[Fr<E>], com: &Com<E>, how: &str) -> bool {
    let rand = com.rand();
    let ctx = || format!("{how} {} on {}, {} values {x:?}, recorded randomness {rand:?}, CRS {rc:?}", h.name(), E::name(), x.len());
    if !c.check(com.len() == x.len(), || format!("{} commitments; {}", com.len(), ctx())) {
        return false;
    }
    if !c.check(rand.len() == x.len() && rand.iter().all(|r| r.len() == h.k()), || format!("the recorded randomness does not have {} elements per value; {}", h.k(), ctx())) {
        return false;
    }
    let want: Vec<_> = x.iter().zip(&rand).map(|(x, r)| expected(h, rc, *x, r)).collect();
    let same = if E::SHADOW {
        com.logs() == want
    } else if h.first {
        com.bytes() == ser(&l1s::<E>(&want))
    } else {
        com.bytes() == ser(&l2s::<E>(&want))
    };
    let mut ok = c.check(same, || format!("a commitment is not the linear map of the value plus randomness times key (expected {want:?}); {}", ctx()));
    if E::SHADOW && rc.binding() {
        let got: Vec<_> = com.logs().iter().map(|p| if h.first { rc.open_x(h.ty(), *p) } else { rc.open_y(h.ty(), *p) }).collect();
        ok &= c.check(got == x, || format!("extraction gives {got:?}; {}", ctx()));
    }
    ok
}
fn key<E: Eng>(c: &mut Case) -> (RCrs<Fr<E>>, CRS<E>) {
    loop {
        if E::SHADOW && coin(&mut c.rng, 1, 2) {
            let s = c.rng.next_u64();
            let k = c.must("generate_crs", || CRS::<E>::generate_crs(&mut LogRng::new(s)));
            let r = read_crs(&k);
            if [r.u[0].0, r.v[0].0, r.g1, r.g2].iter().any(|e| e.is_zero()) {
                // Only tiny groups make this likely.
                continue;
            }
            if !c.check(r.binding(), || format!("a generated CRS is not binding: {r:?}")) {
                c.abort();
            }
            return (r, k);
        }
        let kind = [Kind::Binding, Kind::Binding, Kind::Hiding, Kind::Arbitrary][pick(&mut c.rng, 4)];
        let r = gen::crs::<Fr<E>>(&mut c.rng, kind);
        let k = lift_crs::<E>(&r);
        return (r, k);
    }
}
fn one<E: Eng>(c: &mut Case, h: How, n: usize) {
    let (rc, k) = key::<E>(c);
    let mut p = Pool::new(&mut c.rng, &crs_special(&rc));
    let x = p.vec(&mut c.rng, n);
    let v = vars::<E>(h, &x);
    c.seen(&(h.first, h.group, &x, &rc));
    c.count(&format!("{} {}", E::name(), h.name()));
    let s = c.sub(1);
    let com = match pick(&mut c.rng, 6) {
        0 => {
            let words = [0, 1, 2, s, 0][..1 + pick(&mut c.rng, 5)].to_vec();
            c.must("batch commit", || batch(h, &v, &k, &mut PatternRng { words: words.clone(), pos: 0 }))
        }
        _ => c.must("batch commit", || batch(h, &v, &k, &mut LogRng::new(s))),
    };
    c.sample(|| format!("batch of {n} {}: {x:?}", h.name()));
    if !judge(c, h, &rc, &x, &com, "batch of") {
        return;
    }
    let j = pick(&mut c.rng, n);
    let s = c.sub(2);
    let com1 = if coin(&mut c.rng, 1, 6) {
        c.must("single commit", || single(h, &v, j, &k, &mut PatternRng { words: vec![0], pos: 0 }))
    } else {
        c.must("single commit", || single(h, &v, j, &k, &mut LogRng::new(s)))
    };
    judge(c, h, &rc, &x[j..j + 1], &com1, "single");
    // The same list in parts, appended.
    if n >= 2 && (n <= 40 || E::COST == 1) && coin(&mut c.rng, 1, 2) {
        let mut rng = LogRng::new(c.sub(3));
        let mut at = 0;
        let mut acc: Option<Com<E>> = None;
        let (mut coms, mut rand, mut parts) = (vec![], vec![], vec![]);
        while at < n {
            let len = match pick(&mut c.rng, 4) {
                0 => 1,
                1 => n - at,
                _ => 1 + pick(&mut c.rng, n - at),
            };
            let vv = vars::<E>(h, &x[at..at + len]);
            let mut part = if len == 1 && coin(&mut c.rng, 1, 2) {
                c.must("single commit", || single(h, &vv, 0, &k, &mut rng))
            } else {
                c.must("batch commit", || batch(h, &vv, &k, &mut rng))
            };
            parts.push(len);
            coms.extend(part.logs_or_bytes());
            rand.extend(part.rand());
            match &mut acc {
                None => acc = Some(part),
                Some(a) => {
                    c.must("append", || a.append(&mut part));
                    c.check(part.len() == 0 && part.rand().is_empty(), || format!("the appended list still has {} commitments and {} rows of randomness", part.len(), part.rand().len()));
                    if coin(&mut c.rng, 1, 4) {
                        // The emptied list once more: nothing must change.
                        c.must("append an empty list", || a.append(&mut part));
                    }
                    if coin(&mut c.rng, 1, 8) {
                        // Appending to an empty list is moving.
                        c.must("append to an empty list", || part.append(a));
                        c.check(a.len() == 0, || "append left the second list non-empty".into());
                        *a = part;
                    }
                }
            }
            at += len;
        }
        let a = acc.unwrap();
        c.check(a.logs_or_bytes() == coms && a.rand() == rand, || format!("appending parts of lengths {parts:?} ({}) does not give the concatenation", h.name()));
        judge(c, h, &rc, &x, &a, "appended");
    }
}
impl<E: Eng> Com<E> {
    /// One entry per commitment.
    fn logs_or_bytes(&self) -> Vec<Vec<u8>> {
        match self {
            Com::A(c) => c.coms.iter().map(ser).collect(),
            Com::B(c) => c.coms.iter().map(ser).collect(),
        }
    }
}
fn random<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("commitments/{}", E::name()), q, t, |c| {
        let h = HOWS[(c.idx % 4) as usize];
        let (n, _) = gen::dims(&mut c.rng, max);
        one::<E>(c, h, n);
    });
}
fn lengths<E: Eng>(mon: &Mon, list: &[usize], reps: u64) {
    mon.stage(&format!("listed lengths/{}", E::name()), list.len() as u64 * 4 * reps, list.len() as u64 * 40 * reps, |c| {
        let k = c.idx as usize % (list.len() * 4);
        one::<E>(c, HOWS[k % 4], list[k / 4]);
    });
}
/// Every value, every randomness and every key of the generator's shape, for batches of one and two and single commitments.
fn exhaustive<E: Eng>(mon: &Mon, r: u64) {
    mon.stage_all(&format!("all keys, values and randomness/{}", E::name()), 4 * (r - 1) * r * r * 3, |c| {
        let f = |v: u64| Fr::<E>::from(v);
        let mut k = c.idx;
        let mut d = |n: u64| {
            let v = k % n;
            k /= n;
            v
        };
        let h = HOWS[d(4) as usize];
        let mode = d(3);
        let (g, a, t) = (f(d(r - 1) + 1), f(d(r)), f(d(r)));
        let g2 = g + f(0);
        let rc = RCrs { u: [(g, a * g), (t * g, t * a * g)], v: [(g2, a * g2), (t * g2, t * a * g2)], g1: g, g2 };
        let key = lift_crs::<E>(&rc);
        let n = if mode == 2 { 2 } else { 1 };
        for w in 0..r.pow(n as u32) {
            let x: Vec<_> = (0..n).map(|j| f(w / r.pow(j as u32) % r)).collect();
            let v = vars::<E>(h, &x);
            let mut script = ScriptRng::new(r);
            loop {
                script.start();
                let com = c.must("commit", || if mode == 0 { single(h, &v, 0, &key, &mut script) } else { batch(h, &v, &key, &mut script) });
                if !judge(c, h, &rc, &x, &com, ["single", "batch of", "batch of"][mode as usize]) {
                    return;
                }
                c.mon.count("outcomes enumerated", 1);
                if !script.advance() {
                    break;
                }
            }
            c.seen(&(mode, h.first, h.group, w, &rc));
        }
    });
}

const RULE: &str = "Each case commits (singly, in a batch, or in parts that are appended) with the real code and compares every commitment with the linear map of its value plus the recorded randomness times the key; under binding keys the trapdoor, read off the generated CRS, extracts each value. Distinct = distinct (function, values, key).";
fn check(mon: &Mon) {
    random::<E59>(mon, 200_000, 6_000_000, 40);
    random::<EW>(mon, 40_000, 1_200_000, 20);
    random::<E7>(mon, 80_000, 3_000_000, 12);
    random::<Bls>(mon, 250, 10_000, 6);
    let mut l: Vec<usize> = (1..=20).collect();
    l.extend([24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2000, 2048, 2049, 4096, 4097, 10_000]);
    lengths::<E59>(mon, &l, 6);
    lengths::<Bls>(mon, &[1, 2, 3, 5, 8, 17, 33], 1);
    exhaustive::<E3>(mon, 3);
    exhaustive::<E5>(mon, 5);
}

fn main() {
    gsmon::run("C05", RULE, check)
}
