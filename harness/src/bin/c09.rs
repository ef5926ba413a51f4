//! C09 the maps into the commitment groups are linear, injective under binding keys, and commute with the pairings.
use gsmon::prelude::*;
use std::collections::HashSet;

fn add1<E: Eng>(a: &E::G1Affine, b: &E::G1Affine) -> E::G1Affine {
    (a.into_group() + b).into_affine()
}
fn addg2<E: Eng>(a: &E::G2Affine, b: &E::G2Affine) -> E::G2Affine {
    (a.into_group() + b).into_affine()
}
fn key<E: Eng>(c: &mut Case) -> (CRS<E>, RCrs<Fr<E>>) {
    if E::SHADOW && coin(&mut c.rng, 1, 3) {
        let s = c.rng.next_u64();
        let k = c.must("generate_crs", || CRS::<E>::generate_crs(&mut LogRng::new(s)));
        let r = read_crs(&k);
        return (k, r);
    }
    let kind = [Kind::Binding, Kind::Hiding, Kind::Arbitrary][pick(&mut c.rng, 3)];
    let r = gen::crs::<Fr<E>>(&mut c.rng, kind);
    let mut k = lift_crs::<E>(&r);
    // a CRS from elsewhere need not carry the pairing of its generators
    if kind == Kind::Arbitrary && coin(&mut c.rng, 1, 2) {
        k.gt_gen = E::gt(&gen::elem(&mut c.rng));
        c.count("CRS with another target generator");
    }
    (k, r)
}
fn laws<E: Eng>(c: &Case, k: &CRS<E>, a: Fr<E>, b: Fr<E>, s: Fr<E>) {
    let (x1, y1) = (E::g1(&a), E::g1(&b));
    let (x2, y2) = (E::g2(&a), E::g2(&b));
    let (xt, yt) = (E::gt(&a), E::gt(&b));
    let ctx = || format!("{} exponents {a} and {b}, scalar {s}, CRS {k:?}", E::name());
    let ok = |what: &str, v: bool| {
        c.check(v, || format!("{what}; {}", ctx()));
    };
    c.must("linear maps", || {
        let f1 = Com1::<E>::linear_map;
        ok("G1 map: i(x + y) = i(x) + i(y)", f1(&add1::<E>(&x1, &y1)) == f1(&x1) + f1(&y1));
        ok("G1 map: i(s x) = s i(x)", f1(&E::g1(&(s * a))) == f1(&x1).scalar_mul(&s));
        ok("G1 map: i(0) = 0", f1(&E::g1(&Fr::<E>::ZERO)).is_zero());
        ok("G1 map is injective", (f1(&x1) == f1(&y1)) == (a == b));
        let f2 = Com2::<E>::linear_map;
        ok("G2 map: i(x + y) = i(x) + i(y)", f2(&addg2::<E>(&x2, &y2)) == f2(&x2) + f2(&y2));
        ok("G2 map: i(s x) = s i(x)", f2(&E::g2(&(s * a))) == f2(&x2).scalar_mul(&s));
        ok("G2 map: i(0) = 0", f2(&E::g2(&Fr::<E>::ZERO)).is_zero());
        ok("G2 map is injective", (f2(&x2) == f2(&y2)) == (a == b));
        let s1 = |v: &Fr<E>| Com1::<E>::scalar_linear_map(v, k);
        ok("scalar map 1: i(x + y) = i(x) + i(y)", s1(&(a + b)) == s1(&a) + s1(&b));
        ok("scalar map 1: i(s x) = s i(x)", s1(&(s * a)) == s1(&a).scalar_mul(&s));
        ok("scalar map 1: i(0) = 0", s1(&Fr::<E>::ZERO).is_zero());
        let s2 = |v: &Fr<E>| Com2::<E>::scalar_linear_map(v, k);
        ok("scalar map 2: i(x + y) = i(x) + i(y)", s2(&(a + b)) == s2(&a) + s2(&b));
        ok("scalar map 2: i(s x) = s i(x)", s2(&(s * a)) == s2(&a).scalar_mul(&s));
        ok("scalar map 2: i(0) = 0", s2(&Fr::<E>::ZERO).is_zero());
        // The maps into the target group.
        let ft = ComT::<E>::linear_map_PPE;
        ok("target map, PPE: additive", ft(&(xt + yt)) == ft(&xt) + ft(&yt) && ft(&PairingOutput::zero()).is_zero());
        ok("target map, PPE: injective", (ft(&xt) == ft(&yt)) == (a == b));
        let m1 = |v: &E::G1Affine| ComT::<E>::linear_map_MSMEG1(v, k);
        ok("target map, MSMEG1: additive", m1(&add1::<E>(&x1, &y1)) == m1(&x1) + m1(&y1));
        let m2 = |v: &E::G2Affine| ComT::<E>::linear_map_MSMEG2(v, k);
        ok("target map, MSMEG2: additive", m2(&addg2::<E>(&x2, &y2)) == m2(&x2) + m2(&y2));
        let mq = |v: &Fr<E>| ComT::<E>::linear_map_quad(v, k);
        ok("target map, quadratic: additive", mq(&(a + b)) == mq(&a) + mq(&b));
        // Map then pair, pair then map.
        let pr = |x: Com1<E>, y: Com2<E>| ComT::<E>::pairing(x, y);
        ok("PPE: pairing of the images is the image of the pairing", pr(f1(&x1), f2(&y2)) == ft(&E::pairing(x1, y2)));
        ok("MSMEG1: pairing of the images is the image of the product", pr(f1(&x1), s2(&b)) == m1(&E::g1(&(a * b))));
        ok("MSMEG2: pairing of the images is the image of the product", pr(s1(&a), f2(&y2)) == m2(&E::g2(&(a * b))));
        ok("quadratic: pairing of the images is the image of the product", pr(s1(&a), s2(&b)) == mq(&(a * b)));
    });
}
fn injective<E: Eng>(c: &Case, k: &CRS<E>, rc: &RCrs<Fr<E>>, a: Fr<E>, b: Fr<E>) {
    if !rc.binding() {
        return;
    }
    let ctx = || format!("{} {a} and {b}, CRS {rc:?}", E::name());
    c.must("scalar maps", || {
        let f = |v: &Fr<E>| Com1::<E>::scalar_linear_map(v, k);
        c.check((f(&a) == f(&b)) == (a == b), || format!("scalar map 1 is not injective: {}", ctx()));
        let f = |v: &Fr<E>| Com2::<E>::scalar_linear_map(v, k);
        c.check((f(&a) == f(&b)) == (a == b), || format!("scalar map 2 is not injective: {}", ctx()));
        // Into the target group as well, as the keys bind on both sides.
        let f = |v: &Fr<E>| ComT::<E>::linear_map_quad(v, k);
        c.check((f(&a) == f(&b)) == (a == b), || format!("the target map of quadratic equations is not injective: {}", ctx()));
        let f = |v: &Fr<E>| ComT::<E>::linear_map_MSMEG1(&E::g1(v), k);
        c.check((f(&a) == f(&b)) == (a == b), || format!("the target map of MSMEG1 is not injective: {}", ctx()));
        let f = |v: &Fr<E>| ComT::<E>::linear_map_MSMEG2(&E::g2(v), k);
        c.check((f(&a) == f(&b)) == (a == b), || format!("the target map of MSMEG2 is not injective: {}", ctx()));
    });
}
fn batches<E: Eng>(c: &Case, k: &CRS<E>, x: &[Fr<E>]) {
    let ctx = || format!("{} {} elements {x:?}", E::name(), x.len());
    let (p1, p2) = (g1s::<E>(x), g2s::<E>(x));
    c.must("batch maps", || {
        let one: Vec<_> = p1.iter().map(Com1::<E>::linear_map).collect();
        c.check(Com1::<E>::batch_linear_map(&p1) == one, || format!("the batch map of G1 differs from mapping one by one; {}", ctx()));
        let one: Vec<_> = p2.iter().map(Com2::<E>::linear_map).collect();
        c.check(Com2::<E>::batch_linear_map(&p2) == one, || format!("the batch map of G2 differs from mapping one by one; {}", ctx()));
        let one: Vec<_> = x.iter().map(|v| Com1::<E>::scalar_linear_map(v, k)).collect();
        c.check(Com1::<E>::batch_scalar_linear_map(x, k) == one, || format!("the batch scalar map 1 differs from mapping one by one; {}", ctx()));
        let one: Vec<_> = x.iter().map(|v| Com2::<E>::scalar_linear_map(v, k)).collect();
        c.check(Com2::<E>::batch_scalar_linear_map(x, k) == one, || format!("the batch scalar map 2 differs from mapping one by one; {}", ctx()));
    });
}
fn random<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("laws/{}", E::name()), q, t, |c| {
        let (k, rc) = key::<E>(c);
        let mut p = Pool::new(&mut c.rng, &crs_special(&rc));
        let (a, b, s) = (p.next(&mut c.rng), p.next(&mut c.rng), p.next(&mut c.rng));
        c.seen(&(&rc, &a, &b, &s));
        c.sample(|| format!("a = {a}, b = {b}, s = {s}, {rc:?}"));
        laws(c, &k, a, b, s);
        injective(c, &k, &rc, a, b);
        if coin(&mut c.rng, 1, 2) {
            let d = gen::delta::<Fr<E>>(&mut c.rng);
            injective(c, &k, &rc, a, a + d);
        }
        let len = if coin(&mut c.rng, 1, 10) { pick(&mut c.rng, max + 1) } else { pick(&mut c.rng, max.min(10)) };
        p.style = pick(&mut c.rng, 8);
        let x = p.vec(&mut c.rng, len);
        batches(c, &k, &x);
    });
}
fn lengths<E: Eng>(mon: &Mon, list: &[usize]) {
    mon.stage(&format!("batches of listed lengths/{}", E::name()), list.len() as u64, list.len() as u64 * 20, |c| {
        let (k, rc) = key::<E>(c);
        let mut p = Pool::new(&mut c.rng, &crs_special(&rc));
        let x = p.vec(&mut c.rng, list[c.idx as usize % list.len()]);
        c.seen(&x);
        batches(c, &k, &x);
    });
}
/// All pairs of values under random keys of every kind over tiny fields.
fn exhaustive<E: Eng>(mon: &Mon, r: u64, keys: u64) {
    mon.stage(&format!("all pairs of values/{}", E::name()), keys, keys * 20, |c| {
        let (k, rc) = key::<E>(c);
        let f = |v: u64| Fr::<E>::from(v);
        let mut im = HashSet::new();
        for a in 0..r {
            for b in 0..r {
                let s = gen::elem::<Fr<E>>(&mut c.rng);
                laws(c, &k, f(a), f(b), s);
                injective(c, &k, &rc, f(a), f(b));
                c.seen(&(&rc, a, b));
            }
            if E::SHADOW && rc.binding() {
                c.check(im.insert(d1(&Com1::<E>::scalar_linear_map(&f(a), &k))), || format!("scalar map 1 is not injective under {rc:?}"));
            }
        }
    });
}

const RULE: &str = "Each case checks additivity, compatibility with scalar multiplication, zero, injectivity (scalar maps: under binding keys) of every map into the commitment groups and target commitment group, batch forms against element-wise mapping, and that mapping and pairing commute for the four equation types. Distinct = distinct (key, values).";
fn check(mon: &Mon) {
    random::<E59>(mon, 100_000, 3_000_000, 300);
    random::<EW>(mon, 24_000, 600_000, 60);
    random::<E7>(mon, 60_000, 1_000_000, 40);
    random::<Bls>(mon, 300, 9000, 9);
    let mut l: Vec<usize> = (0..=20).collect();
    l.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 2048, 2049, 3000, 4096, 4097, 10_000]);
    lengths::<E59>(mon, &l);
    lengths::<Bls>(mon, &[0, 1, 2, 3, 5, 8, 17, 33]);
    exhaustive::<E3>(mon, 3, 600);
    exhaustive::<E5>(mon, 5, 300);
    exhaustive::<E13>(mon, 13, 60);
}

fn main() {
    gsmon::run("C09", RULE, check)
}
