//! C12 matrix operations against the textbook definition.
use gsmon::prelude::*;
use std::fmt::Debug;

/// Entries of the matrices under test: scalars and commitment-group elements, with their discrete logarithms.
trait Entry<E: Eng> {
    type T: Clone + Debug + PartialEq;
    type Log: Clone + Debug + PartialEq + std::hash::Hash;
    fn log(r: &mut StdRng, p: &mut Pool<Fr<E>>) -> Self::Log;
    fn up(l: &Self::Log) -> Self::T;
    fn zero() -> Self::Log;
    fn plus(a: &Self::Log, b: &Self::Log) -> Self::Log;
    fn times(s: &Fr<E>, a: &Self::Log) -> Self::Log;
    const NAME: &'static str;
}
struct Sc;
struct K1;
struct K2;
impl<E: Eng> Entry<E> for Sc {
    type T = Fr<E>;
    type Log = Fr<E>;
    fn log(r: &mut StdRng, p: &mut Pool<Fr<E>>) -> Fr<E> {
        p.next(r)
    }
    fn up(l: &Fr<E>) -> Fr<E> {
        *l
    }
    fn zero() -> Fr<E> {
        Fr::<E>::ZERO
    }
    fn plus(a: &Fr<E>, b: &Fr<E>) -> Fr<E> {
        *a + b
    }
    fn times(s: &Fr<E>, a: &Fr<E>) -> Fr<E> {
        *s * a
    }
    const NAME: &'static str = "scalar";
}
macro_rules! com_entry {
    ($k:ident, $com:ident, $lift:ident, $name:literal) => {
        impl<E: Eng> Entry<E> for $k {
            type T = $com<E>;
            type Log = P2<Fr<E>>;
            fn log(r: &mut StdRng, p: &mut Pool<Fr<E>>) -> Self::Log {
                (p.next(r), p.next(r))
            }
            fn up(l: &Self::Log) -> Self::T {
                $lift::<E>(l)
            }
            fn zero() -> Self::Log {
                (Fr::<E>::ZERO, Fr::<E>::ZERO)
            }
            fn plus(a: &Self::Log, b: &Self::Log) -> Self::Log {
                add2(*a, *b)
            }
            fn times(s: &Fr<E>, a: &Self::Log) -> Self::Log {
                sc2(*s, *a)
            }
            const NAME: &'static str = $name;
        }
    };
}
com_entry!(K1, Com1, l1, "Com1");
com_entry!(K2, Com2, l2, "Com2");

type L<E, T> = Vec<Vec<<T as Entry<E>>::Log>>;
fn up<E: Eng, T: Entry<E>>(m: &L<E, T>) -> Matrix<T::T> {
    m.iter().map(|r| r.iter().map(T::up).collect()).collect()
}
fn gen_mat<E: Eng, T: Entry<E>>(r: &mut StdRng, p: &mut Pool<Fr<E>>, m: usize, n: usize) -> L<E, T> {
    let style = pick(r, 6);
    (0..m)
        .map(|i| {
            (0..n)
                .map(|j| match style {
                    0 if i != j => T::zero(),
                    1 if coin(r, 2, 3) => T::zero(),
                    _ => T::log(r, p),
                })
                .collect()
        })
        .collect()
}
/// (m x k) times (k x n), scalars on the right; `left`: scalars on the left.
fn ref_mul<E: Eng, T: Entry<E>>(a: &L<E, T>, s: &Matrix<Fr<E>>, left: bool) -> L<E, T> {
    let (m, k, n) = if left { (s.len(), s[0].len(), a[0].len()) } else { (a.len(), a[0].len(), s[0].len()) };
    (0..m)
        .map(|i| {
            (0..n)
                .map(|j| (0..k).fold(T::zero(), |t, x| T::plus(&t, &if left { T::times(&s[i][x], &a[x][j]) } else { T::times(&s[x][j], &a[i][x]) })))
                .collect()
        })
        .collect()
}
fn same<E: Eng, T: Entry<E>>(c: &Case, what: &str, got: Result<Matrix<T::T>, String>, want: &L<E, T>, ctx: &dyn Fn() -> String) {
    let want: Matrix<T::T> = up::<E, T>(want);
    let ok = matches!(&got, Ok(g) if *g == want);
    c.check(ok, || {
        let g = match &got {
            Ok(g) => {
                let dims: Vec<usize> = g.iter().map(|r| r.len()).collect();
                let wd: Vec<usize> = want.iter().map(|r| r.len()).collect();
                if dims != wd {
                    format!("row lengths {dims:?} instead of {wd:?}")
                } else {
                    let (i, j) = (0..g.len()).flat_map(|i| (0..g[i].len()).map(move |j| (i, j))).find(|(i, j)| g[*i][*j] != want[*i][*j]).unwrap();
                    format!("entry ({i},{j}) is {:?} instead of {:?}", g[i][j], want[i][j])
                }
            }
            Err(p) => format!("panic: {p}"),
        };
        format!("{what} of {} matrices: {g}; {}", T::NAME, ctx())
    });
}
fn ops<E: Eng, T: Entry<E>>(c: &mut Case, m: usize, k: usize, n: usize)
where
    Matrix<T::T>: Mat<T::T, Other = Fr<E>>,
{
    let mut p = Pool::new(&mut c.rng, &[]);
    let a = gen_mat::<E, T>(&mut c.rng, &mut p, m, k);
    let b = gen_mat::<E, T>(&mut c.rng, &mut p, m, k);
    let s = gen_mat::<E, Sc>(&mut c.rng, &mut p, k, n);
    let t = gen_mat::<E, Sc>(&mut c.rng, &mut p, n, m);
    let f = p.next(&mut c.rng);
    let (la, lb) = (up::<E, T>(&a), up::<E, T>(&b));
    c.seen(&(&a, &s, m, k, n));
    c.count(&format!("{} {}", E::name(), T::NAME));
    let ctx = || {
        if m * k * n < 200 {
            format!("engine {}, A = {a:?}, B = {b:?}, S = {s:?}, T = {t:?}, f = {f}", E::name())
        } else {
            format!("engine {}, dimensions {m} {k} {n}, pool of {}", E::name(), rayon::current_num_threads())
        }
    };
    c.sample(|| ctx());
    for par in [false, true] {
        let w = if par { "parallel" } else { "sequential" };
        same::<E, T>(c, &format!("{w} right_mul A S"), lib(|| la.right_mul(&s, par)), &ref_mul::<E, T>(&a, &s, false), &ctx);
        same::<E, T>(c, &format!("{w} left_mul T A"), lib(|| la.left_mul(&t, par)), &ref_mul::<E, T>(&a, &t, true), &ctx);
    }
    let zip = |f: &dyn Fn(usize, usize) -> <T as Entry<E>>::Log| -> L<E, T> { (0..m).map(|i| (0..k).map(|j| f(i, j)).collect()).collect() };
    same::<E, T>(c, "add A B", lib(|| la.add(&lb)), &zip(&|i, j| T::plus(&a[i][j], &b[i][j])), &ctx);
    same::<E, T>(c, "neg A", lib(|| Mat::neg(&la)), &zip(&|i, j| T::times(&-Fr::<E>::ONE, &a[i][j])), &ctx);
    same::<E, T>(c, "scalar_mul f A", lib(|| Mat::scalar_mul(&la, &f)), &zip(&|i, j| T::times(&f, &a[i][j])), &ctx);
    let tr: L<E, T> = (0..k).map(|j| (0..m).map(|i| a[i][j].clone()).collect()).collect();
    same::<E, T>(c, "transpose A", lib(|| la.transpose()), &tr, &ctx);
    c.check(la == up::<E, T>(&a) && lb == up::<E, T>(&b), || format!("an operand was changed; {}", ctx()));
    // Columns.
    let v: Vec<T::T> = la.iter().map(|r| r[0].clone()).collect();
    let cv = vec_to_col_vec(&v);
    c.check(cv.len() == v.len() && cv.iter().zip(&v).all(|(r, e)| r.len() == 1 && r[0] == *e), || format!("vec_to_col_vec({v:?}) = {cv:?}"));
    c.check(lib(|| col_vec_to_vec(&cv)) == Ok(v.clone()), || format!("col_vec_to_vec does not invert vec_to_col_vec on {v:?}"));
    c.check(vec_to_col_vec::<T::T>(&[]).is_empty() && lib(|| col_vec_to_vec::<T::T>(&vec![])) == Ok(vec![]), || "conversion of an empty vector is not empty".into());
}
/// Operands that do not fit: refused, or (empty ones) an empty product.
fn misfits<E: Eng, T: Entry<E>>(c: &mut Case)
where
    Matrix<T::T>: Mat<T::T, Other = Fr<E>>,
{
    let r = &mut c.rng;
    let (m, k, n) = (1 + pick(r, 5), 1 + pick(r, 5), 1 + pick(r, 5));
    let mut p = Pool::new(r, &[]);
    let mut a = gen_mat::<E, T>(r, &mut p, m, k);
    let mut b = gen_mat::<E, T>(r, &mut p, m, k);
    let mut s = gen_mat::<E, Sc>(r, &mut p, k, n);
    let mut t = gen_mat::<E, Sc>(r, &mut p, n, m);
    fn spoil<X: Clone>(r: &mut StdRng, v: &mut Vec<Vec<X>>, zero: X) -> String {
        let rows = v.len();
        match pick(r, 8) {
            0 => {
                v.push(vec![zero; v[0].len()]);
                "one row more".into()
            }
            1 if rows > 1 => {
                v.pop();
                "one row less".into()
            }
            2 => {
                v.iter_mut().for_each(|x| x.push(zero.clone()));
                "one column more".into()
            }
            3 if v[0].len() > 1 => {
                v.iter_mut().for_each(|x| drop(x.pop()));
                "one column less".into()
            }
            4 | 5 => {
                let i = pick(r, rows);
                v[i].push(zero);
                format!("row {i} longer")
            }
            _ => {
                let i = pick(r, rows);
                v[i].pop();
                format!("row {i} shorter")
            }
        }
    }
    let which = pick(r, 4);
    let z = Fr::<E>::ZERO;
    let what = match which {
        0 => spoil(r, &mut a, T::zero()),
        1 => spoil(r, &mut b, T::zero()),
        2 => spoil(r, &mut s, z),
        _ => spoil(r, &mut t, z),
    };
    fn rect<X>(v: &[Vec<X>]) -> bool {
        v.iter().all(|x| x.len() == v[0].len())
    }
    let (la, lb) = (up::<E, T>(&a), up::<E, T>(&b));
    c.seen(&(&a, &b, &s, &t));
    let empty = |v: usize, w: usize| v == 0 || w == 0;
    // (name, the operands fit, some operand is empty, result)
    let fits_r = rect(&a) && rect(&s) && a[0].len() == s.len();
    let fits_l = rect(&a) && rect(&t) && t[0].len() == a.len();
    let fits_a = rect(&a) && rect(&b) && a.len() == b.len() && a[0].len() == b[0].len();
    let em_r = empty(a.len(), a[0].len()) || empty(s.len(), s[0].len());
    let em_l = empty(a.len(), a[0].len()) || empty(t.len(), t[0].len());
    let em_a = empty(a.len(), a[0].len()) || empty(b.len(), b[0].len());
    let mut res: Vec<(&str, bool, bool, Result<Matrix<T::T>, String>)> = vec![("add", fits_a, em_a, lib(|| la.add(&lb)))];
    for par in [false, true] {
        res.push(("right_mul", fits_r, em_r, lib(|| la.right_mul(&s, par))));
        res.push(("left_mul", fits_l, em_l, lib(|| la.left_mul(&t, par))));
    }
    for (op, fits, em, got) in res {
        if fits || em {
            continue;
        }
        c.count(&format!("{op}: {}", if got.is_err() { "refused" } else { "not refused" }));
        c.check(got.is_err(), || format!("{op} of {} matrices is not refused although the shapes do not fit ({what} in operand {which}): A = {a:?}, B = {b:?}, S = {s:?}, T = {t:?}; result {got:?}", T::NAME));
    }
    // Empty operands.
    let e: Matrix<T::T> = vec![];
    let es: Matrix<Fr<E>> = vec![];
    let good = up::<E, T>(&gen_mat::<E, T>(&mut c.rng, &mut p, m, k));
    for par in [false, true] {
        for (w, g) in [
            ("empty right_mul S", lib(|| e.right_mul(&vec![vec![z; 2]; 2], par))),
            ("A right_mul empty", lib(|| good.right_mul(&es, par))),
            ("empty left_mul T", lib(|| e.left_mul(&vec![vec![z; 2]; 2], par))),
            ("A left_mul empty", lib(|| good.left_mul(&es, par))),
        ] {
            c.check(matches!(&g, Ok(v) if v.is_empty()), || format!("{w} gives {g:?} instead of an empty matrix"));
        }
    }
}
fn stages<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize) {
    mon.stage(&format!("random shapes/{}", E::name()), qn, tn, |c| {
        let (m, k) = gen::dims(&mut c.rng, max);
        let (n, _) = gen::dims(&mut c.rng, max);
        match c.idx % 3 {
            0 => ops::<E, Sc>(c, m, k, n),
            1 => ops::<E, K1>(c, m, k, n),
            _ => ops::<E, K2>(c, m, k, n),
        }
    });
}
fn bad<E: Eng>(mon: &Mon, qn: u64, tn: u64) {
    mon.stage(&format!("incompatible and empty operands/{}", E::name()), qn, tn, |c| match c.idx % 3 {
        0 => misfits::<E, Sc>(c),
        1 => misfits::<E, K1>(c),
        _ => misfits::<E, K2>(c),
    });
}

const RULE: &str = "A case builds matrices with known discrete logarithms and compares each operation of the library, sequential and parallel, with the textbook definition computed on the logarithms; or makes shapes incompatible (row, column, ragged row, in each operand) and expects a refusal. All shapes up to 8x8x8, random larger ones, and dimensions around powers of two. Distinct = distinct operand tuples.";
fn check(mon: &Mon) {
    stages::<E59>(mon, 60_000, 1_500_000, 20);
    stages::<EW>(mon, 20_000, 500_000, 12);
    stages::<E7>(mon, 30_000, 600_000, 8);
    stages::<Bls>(mon, 500, 15000, 4);
    mon.stage("all shapes up to 8/shadow-59bit", 8 * 8 * 8 * 3 * 4, 8 * 8 * 8 * 3 * 80, |c| {
        let k = c.idx as usize / 3;
        let d = (1 + k % 8, 1 + k / 8 % 8, 1 + k / 64 % 8);
        match c.idx % 3 {
            0 => ops::<E59, Sc>(c, d.0, d.1, d.2),
            1 => ops::<E59, K1>(c, d.0, d.1, d.2),
            _ => ops::<E59, K2>(c, d.0, d.1, d.2),
        }
    });
    let ds = [1usize, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 512, 1000, 1025, 2049, 4097, 10_000];
    let nd = ds.len();
    mon.stage("long dimensions/shadow-59bit", (nd * 3 * 3) as u64 * 3, (nd * 3 * 3) as u64 * 30, |c| {
        let k = c.idx as usize / 3;
        let d = ds[k / 3 % nd];
        let (s, t) = (1 + pick(&mut c.rng, 3), 1 + pick(&mut c.rng, 3));
        let (m, k, n) = [(d, s, t), (s, d, t), (s, t, d)][k % 3];
        match c.idx % 3 {
            0 => ops::<E59, Sc>(c, m, k, n),
            1 => ops::<E59, K1>(c, m, k, n),
            _ => ops::<E59, K2>(c, m, k, n),
        }
    });
    mon.stage("large/shadow-59bit", 60, 1500, |c| {
        let (m, k, n) = (17 + pick(&mut c.rng, 90), 17 + pick(&mut c.rng, 90), 17 + pick(&mut c.rng, 90));
        match c.idx % 3 {
            0 => ops::<E59, Sc>(c, m, k, n),
            1 => ops::<E59, K1>(c, m, k, n),
            _ => ops::<E59, K2>(c, m, k, n),
        }
    });
    bad::<E59>(mon, 40_000, 800_000);
    bad::<E5>(mon, 10_000, 200_000);
    bad::<Bls>(mon, 60, 2000);
}

fn main() {
    gsmon::run("C12", RULE, check)
}
