//! C10 the commitment groups are abelian groups and modules; equality is exact.
use gsmon::prelude::*;
use std::fmt::Debug;
use std::iter::Sum;
use std::ops::{Add, AddAssign, Neg, Sub, SubAssign};

type L<E> = Vec<Fr<E>>;
trait Grp<E: Eng> {
    type T: Copy + Debug + PartialEq + Zero + Add<Output = Self::T> + AddAssign + Sub<Output = Self::T> + SubAssign + Neg<Output = Self::T> + Sum;
    const DIM: usize;
    const NAME: &'static str;
    fn up(l: &[Fr<E>]) -> Self::T;
    /// Entries that differ between two elements, compared one by one.
    fn same(a: &Self::T, b: &Self::T) -> bool;
    fn mul(a: &Self::T, s: &Fr<E>) -> Option<Self::T>;
    /// Conversions there and back.
    fn convert(a: &Self::T) -> Vec<(&'static str, bool)>;
    /// Conversion from a matrix whose rows have the given lengths, all entries being those of `a` in turn.
    fn from_shape(a: &Self::T, rows: &[usize]) -> Self::T;
}
fn of_shape<T: Copy>(x: &[T], rows: &[usize]) -> Vec<Vec<T>> {
    let mut it = x.iter().cycle();
    rows.iter().map(|n| (0..*n).map(|_| *it.next().unwrap()).collect()).collect()
}
struct K1;
struct K2;
struct KT;
macro_rules! base {
    ($k:ident, $com:ident, $g:ident, $aff:ident, $name:literal) => {
        impl<E: Eng> Grp<E> for $k {
            type T = $com<E>;
            const DIM: usize = 2;
            const NAME: &'static str = $name;
            fn up(l: &[Fr<E>]) -> $com<E> {
                $com(E::$g(&l[0]), E::$g(&l[1]))
            }
            fn same(a: &$com<E>, b: &$com<E>) -> bool {
                a.0 == b.0 && a.1 == b.1
            }
            fn mul(a: &$com<E>, s: &Fr<E>) -> Option<$com<E>> {
                Some(a.scalar_mul(s))
            }
            fn convert(a: &$com<E>) -> Vec<(&'static str, bool)> {
                let m: Matrix<E::$aff> = a.as_col_vec();
                let v: Vec<E::$aff> = a.as_vec();
                vec![
                    ("as_vec", v == vec![a.0, a.1]),
                    ("as_col_vec", m == vec![vec![a.0], vec![a.1]]),
                    ("from as_col_vec", Self::same(&$com::<E>::from(m), a)),
                    ("from as_vec", Self::same(&$com::<E>::from(vec_to_col_vec(&v)), a)),
                ]
            }
            fn from_shape(a: &$com<E>, rows: &[usize]) -> $com<E> {
                $com::<E>::from(of_shape::<E::$aff>(&[a.0, a.1], rows))
            }
        }
    };
}
base!(K1, Com1, g1, G1Affine, "Com1");
base!(K2, Com2, g2, G2Affine, "Com2");
impl<E: Eng> Grp<E> for KT {
    type T = ComT<E>;
    const DIM: usize = 4;
    const NAME: &'static str = "ComT";
    fn up(l: &[Fr<E>]) -> ComT<E> {
        ComT(E::gt(&l[0]), E::gt(&l[1]), E::gt(&l[2]), E::gt(&l[3]))
    }
    fn same(a: &ComT<E>, b: &ComT<E>) -> bool {
        a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 == b.3
    }
    fn mul(_: &ComT<E>, _: &Fr<E>) -> Option<ComT<E>> {
        None
    }
    fn convert(a: &ComT<E>) -> Vec<(&'static str, bool)> {
        let m: Matrix<PairingOutput<E>> = a.as_matrix();
        vec![("as_matrix", m == vec![vec![a.0, a.1], vec![a.2, a.3]]), ("from as_matrix", Self::same(&ComT::<E>::from(m), a))]
    }
    fn from_shape(a: &ComT<E>, rows: &[usize]) -> ComT<E> {
        ComT::<E>::from(of_shape(&[a.0, a.1, a.2, a.3], rows))
    }
}

fn z<E: Eng>(n: usize) -> L<E> {
    vec![Fr::<E>::ZERO; n]
}
fn zip<E: Eng>(a: &L<E>, b: &L<E>, f: impl Fn(Fr<E>, Fr<E>) -> Fr<E>) -> L<E> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
fn is<E: Eng, K: Grp<E>>(c: &Case, what: &str, got: &K::T, want: &L<E>, ctx: &dyn Fn() -> String) {
    let w = K::up(want);
    c.check(K::same(got, &w), || format!("{} on {}: {what} gives {got:?}, expected {w:?} (exponents {want:?}); {}", K::NAME, E::name(), ctx()));
}
/// Laws that involve two elements.
fn two<E: Eng, K: Grp<E>>(c: &Case, a: &L<E>, b: &L<E>) {
    let (x, y) = (K::up(a), K::up(b));
    let ctx = || format!("exponents {a:?} and {b:?}");
    let sum = zip::<E>(a, b, |p, q| p + q);
    let dif = zip::<E>(a, b, |p, q| p - q);
    c.must("group operations", || {
        is::<E, K>(c, "a + b", &(x + y), &sum, &ctx);
        is::<E, K>(c, "b + a", &(y + x), &sum, &ctx);
        is::<E, K>(c, "a - b", &(x - y), &dif, &ctx);
        let mut t = x;
        t += y;
        is::<E, K>(c, "a += b", &t, &sum, &ctx);
        let mut t = x;
        t -= y;
        is::<E, K>(c, "a -= b", &t, &dif, &ctx);
        is::<E, K>(c, "a + (-b)", &(x + -y), &dif, &ctx);
        is::<E, K>(c, "sum of a, b", &[x, y].into_iter().sum(), &sum, &ctx);
        let (eq, ne) = (x == y, x != y);
        c.check(eq == (a == b) && ne == (a != b), || format!("{} on {}: equality says {eq} and inequality {ne}; {}", K::NAME, E::name(), ctx()));
        let (eq, zero) = ((x - y) == K::T::zero(), (x - y).is_zero());
        c.check(eq == (a == b) && zero == (a == b), || format!("{} on {}: a - b == 0 says {eq}, is_zero {zero}; {}", K::NAME, E::name(), ctx()));
    });
}
fn solo<E: Eng, K: Grp<E>>(c: &Case, a: &L<E>) {
    let x = K::up(a);
    let ctx = || format!("exponents {a:?}");
    let n = K::DIM;
    c.must("group operations", || {
        let zero = K::T::zero();
        is::<E, K>(c, "zero", &zero, &z::<E>(n), &ctx);
        is::<E, K>(c, "a + 0", &(x + zero), a, &ctx);
        is::<E, K>(c, "0 + a", &(zero + x), a, &ctx);
        is::<E, K>(c, "a - 0", &(x - zero), a, &ctx);
        let neg = a.iter().map(|p| -*p).collect();
        is::<E, K>(c, "-a", &-x, &neg, &ctx);
        is::<E, K>(c, "0 - a", &(zero - x), &neg, &ctx);
        is::<E, K>(c, "-(-a)", &-(-x), a, &ctx);
        is::<E, K>(c, "a + (-a)", &(x + -x), &z::<E>(n), &ctx);
        is::<E, K>(c, "a - a", &(x - x), &z::<E>(n), &ctx);
        is::<E, K>(c, "a + a", &(x + x), &zip::<E>(a, a, |p, q| p + q), &ctx);
        let iz = x.is_zero();
        c.check(iz == a.iter().all(|p| p.is_zero()), || format!("{} on {}: is_zero says {iz}; {}", K::NAME, E::name(), ctx()));
        let mut t = x;
        t.set_zero();
        is::<E, K>(c, "set_zero", &t, &z::<E>(n), &ctx);
        for (how, ok) in K::convert(&x) {
            c.check(ok, || format!("{} on {}: the conversion {how} is not lossless; {}", K::NAME, E::name(), ctx()));
        }
    });
}
fn module<E: Eng, K: Grp<E>>(c: &Case, a: &L<E>, b: &L<E>, s: Fr<E>, t: Fr<E>) {
    let (x, y) = (K::up(a), K::up(b));
    let ctx = || format!("exponents {a:?} and {b:?}, scalars {s} and {t}");
    let sc = |s: Fr<E>, a: &L<E>| -> L<E> { a.iter().map(|p| s * p).collect() };
    let m = |x: &K::T, s: Fr<E>| K::mul(x, &s).unwrap();
    if K::mul(&x, &s).is_none() {
        return;
    }
    c.must("scalar multiplication", || {
        is::<E, K>(c, "s a", &m(&x, s), &sc(s, a), &ctx);
        is::<E, K>(c, "0 a", &m(&x, Fr::<E>::ZERO), &z::<E>(K::DIM), &ctx);
        is::<E, K>(c, "1 a", &m(&x, Fr::<E>::ONE), a, &ctx);
        is::<E, K>(c, "(-1) a", &m(&x, -Fr::<E>::ONE), &sc(-Fr::<E>::ONE, a), &ctx);
        is::<E, K>(c, "s 0", &m(&K::T::zero(), s), &z::<E>(K::DIM), &ctx);
        is::<E, K>(c, "(s + t) a", &m(&x, s + t), &sc(s + t, a), &ctx);
        is::<E, K>(c, "s a + t a", &(m(&x, s) + m(&x, t)), &sc(s + t, a), &ctx);
        is::<E, K>(c, "s (t a)", &m(&m(&x, t), s), &sc(s * t, a), &ctx);
        let sum = zip::<E>(a, b, |p, q| s * (p + q));
        is::<E, K>(c, "s (a + b)", &m(&(x + y), s), &sum, &ctx);
        is::<E, K>(c, "s a + s b", &(m(&x, s) + m(&y, s)), &sum, &ctx);
    });
}
fn many<E: Eng, K: Grp<E>>(c: &Case, ls: &[L<E>]) {
    let xs: Vec<K::T> = ls.iter().map(|l| K::up(l)).collect();
    let mut want = z::<E>(K::DIM);
    for l in ls {
        want = zip::<E>(&want, l, |p, q| p + q);
    }
    let ctx = || format!("{} elements with exponents {ls:?}", ls.len());
    c.must("sum", || {
        is::<E, K>(c, "sum", &xs.iter().copied().sum(), &want, &ctx);
        is::<E, K>(c, "reversed sum", &xs.iter().rev().copied().sum(), &want, &ctx);
        // Other bracketings: halves, and from the right.
        let k = xs.len() / 2;
        let (l, r): (K::T, K::T) = (xs[..k].iter().copied().sum(), xs[k..].iter().copied().sum());
        is::<E, K>(c, "sum of two halves", &(l + r), &want, &ctx);
        is::<E, K>(c, "sum from the right", &xs.iter().rev().fold(K::T::zero(), |a, b| *b + a), &want, &ctx);
        let mut t = K::T::zero();
        for x in &xs {
            t += *x;
        }
        is::<E, K>(c, "repeated +=", &t, &want, &ctx);
        for x in &xs {
            t -= *x;
        }
        is::<E, K>(c, "repeated -=", &t, &z::<E>(K::DIM), &ctx);
    });
}
fn random<E: Eng, K: Grp<E>>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("{} laws/{}", K::NAME, E::name()), q, t, |c| {
        let mut p = Pool::<Fr<E>>::new(&mut c.rng, &[]);
        let n = K::DIM;
        let a = p.vec(&mut c.rng, n);
        let mut b = p.vec(&mut c.rng, n);
        match pick(&mut c.rng, 8) {
            0 => b = a.clone(),
            1 => b = a.iter().map(|e| -*e).collect(),
            2 | 3 => {
                // Equal but for one entry.
                b = a.clone();
                let k = pick(&mut c.rng, n);
                b[k] = p.next(&mut c.rng);
            }
            4 => {
                b = a.clone();
                b.rotate_left(1 + pick(&mut c.rng, n - 1));
            }
            5 => {
                b = z::<E>(n);
                let k = pick(&mut c.rng, n);
                b[k] = gen::nz(&mut c.rng);
            }
            _ => {}
        }
        p.style = pick(&mut c.rng, 8);
        let (s, t) = (p.next(&mut c.rng), p.next(&mut c.rng));
        c.seen(&(&a, &b, &s, &t));
        c.sample(|| format!("a = {a:?}, b = {b:?}, s = {s}, t = {t}"));
        solo::<E, K>(c, &a);
        solo::<E, K>(c, &b);
        two::<E, K>(c, &a, &b);
        module::<E, K>(c, &a, &b, s, t);
        let len = match pick(&mut c.rng, 10) {
            0 => 0,
            1 => pick(&mut c.rng, max + 1),
            k => k - 1,
        };
        let ls: Vec<L<E>> = (0..len).map(|_| p.vec(&mut c.rng, n)).collect();
        many::<E, K>(c, &ls);
    });
}
fn long_sums<E: Eng, K: Grp<E>>(mon: &Mon) {
    let ns = [511usize, 512, 513, 600, 777, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5001, 8192, 8193, 10_000, 20_000];
    mon.stage(&format!("{} long sums/{}", K::NAME, E::name()), ns.len() as u64 * 2, ns.len() as u64 * 20, |c| {
        let len = ns[c.idx as usize % ns.len()];
        let mut p = Pool::<Fr<E>>::new(&mut c.rng, &[]);
        let ls: Vec<L<E>> = (0..len).map(|_| p.vec(&mut c.rng, K::DIM)).collect();
        c.seen(&ls);
        c.count("sums of hundreds and thousands");
        many::<E, K>(c, &ls);
    });
}
/// All pairs of elements over a tiny group.
fn exhaustive<E: Eng, K: Grp<E>>(mon: &Mon, r: u64) {
    let size = r.pow(K::DIM as u32);
    mon.stage_all(&format!("{} all pairs/{}", K::NAME, E::name()), size, |c| {
        let of = |k: u64| -> L<E> { (0..K::DIM).map(|j| Fr::<E>::from(k / r.pow(j as u32) % r)).collect() };
        let a = of(c.idx);
        solo::<E, K>(c, &a);
        for k in 0..size {
            let b = of(k);
            two::<E, K>(c, &a, &b);
            c.seen(&(K::NAME, &a, &b));
            for s in 0..if K::DIM == 2 { r } else { 0 } {
                module::<E, K>(c, &a, &b, Fr::<E>::from(s), Fr::<E>::from((s + k) % r));
            }
        }
    });
}
/// Matrices of all small shapes: the right one is converted, no other one is.
fn shapes<E: Eng, K: Grp<E>>(mon: &Mon, ragged: usize) {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..ragged {
        last = last.iter().flat_map(|l| (0..4).map(move |n| [&l[..], &[n]].concat())).collect();
        all.extend(last.clone());
    }
    let right = vec![K::DIM / 2; 2];
    mon.stage_all(&format!("{} shapes/{}", K::NAME, E::name()), all.len() as u64, |c| {
        let rows = &all[c.idx as usize];
        let mut p = Pool::<Fr<E>>::random();
        let n = K::DIM;
        let a = if coin(&mut c.rng, 1, 4) { z::<E>(n) } else { p.vec(&mut c.rng, n) };
        c.seen(&(K::NAME, rows));
        let x = K::up(&a);
        match lib(|| K::from_shape(&x, rows)) {
            Ok(y) if *rows == right => {
                c.check(K::same(&y, &x), || format!("{} on {}: converting the matrix of {a:?} gives {y:?}", K::NAME, E::name()));
            }
            Ok(y) => c.fail(format!("{} on {}: a matrix with rows of {rows:?} entries is taken for {y:?}", K::NAME, E::name())),
            Err(e) if *rows == right => c.fail(format!("{} on {}: a matrix of the right shape is refused: {e}", K::NAME, E::name())),
            Err(_) => c.count("ill-shaped matrices refused"),
        }
    });
}
fn all<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    random::<E, K1>(mon, q, t, max);
    random::<E, K2>(mon, q, t, max);
    random::<E, KT>(mon, q / 2, t / 2, max / 2);
}

const RULE: &str = "Each case compares sums, differences, negations, in-place forms, sums of lists in several bracketings, scalar multiples, equality, zero tests and conversions of commitment-group elements with the same operation on their exponents. Matrices of all small shapes, ragged ones among them, are converted, and only the right shape may be taken. Elements include zero, repeated, negated, rotated ones and ones that differ in one entry. Distinct = distinct operand tuples.";
fn check(mon: &Mon) {
    all::<E59>(mon, 120_000, 3_000_000, 300);
    all::<EW>(mon, 40_000, 500_000, 80);
    all::<E3>(mon, 30_000, 1_000_000, 100);
    all::<Bls>(mon, 400, 12000, 12);
    shapes::<E59, K1>(mon, 4);
    shapes::<E59, K2>(mon, 4);
    shapes::<E59, KT>(mon, 4);
    shapes::<Bls, K1>(mon, 3);
    shapes::<Bls, K2>(mon, 3);
    shapes::<Bls, KT>(mon, 3);
    long_sums::<E59, K1>(mon);
    long_sums::<E59, K2>(mon);
    long_sums::<E59, KT>(mon);
    exhaustive::<E3, K1>(mon, 3);
    exhaustive::<E3, K2>(mon, 3);
    exhaustive::<E3, KT>(mon, 3);
    exhaustive::<E5, K1>(mon, 5);
    exhaustive::<E5, K2>(mon, 5);
    exhaustive::<E7, K1>(mon, 7);
    exhaustive::<E7, K2>(mon, 7);
}

fn main() {
    gsmon::run("C10", RULE, check)
}
