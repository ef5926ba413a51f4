//! A workload for the sanitizers: one random use of the library after another, valid and invalid ones.
use crate::prelude::*;
use rayon::prelude::*;

/// What a use of the library is about; each one is exercised on its own and in alternation.
pub const USES: [&str; 14] = [
    "generate_crs",
    "commit",
    "commit_and_prove and verify",
    "verify damaged proofs",
    "verify malformed proofs",
    "prove with malformed arguments",
    "matrices",
    "matrices of bad shapes",
    "write and read",
    "read damaged bytes",
    "commitment groups",
    "pairing sums",
    "shared between threads",
    "several equations",
];
#[derive(Default)]
pub struct Tally {
    pub calls: u64,
    pub returned: u64,
    pub refused: u64,
    /// Panics on valid inputs.
    pub wrong: Vec<String>,
    pub shapes: std::collections::HashSet<(usize, usize, usize, usize)>,
    /// What refused calls say.
    pub said: std::collections::BTreeSet<String>,
}
impl Tally {
    /// A call that the interface accepts.
    fn good<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.calls += 1;
        match lib(f) {
            Ok(v) => {
                self.returned += 1;
                Some(v)
            }
            Err(e) => {
                if self.wrong.len() < 5 {
                    self.wrong.push(format!("{what} panics on a valid input: {e}"));
                }
                None
            }
        }
    }
    /// A call that may be refused.
    fn any<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        self.calls += 1;
        match lib(f) {
            Ok(v) => {
                self.returned += 1;
                Some(v)
            }
            Err(e) => {
                self.refused += 1;
                if self.said.len() < 1000 {
                    self.said.insert(e);
                }
                None
            }
        }
    }
}
fn mat<F: PrimeField>(r: &mut StdRng, p: &mut Pool<F>, a: usize, b: usize) -> Matrix<F> {
    (0..a).map(|_| p.vec(r, b)).collect()
}
fn mat1<E: Eng>(r: &mut StdRng, p: &mut Pool<Fr<E>>, a: usize, b: usize) -> Matrix<Com1<E>> {
    (0..a).map(|_| (0..b).map(|_| l1::<E>(&(p.next(r), p.next(r)))).collect()).collect()
}
fn mat2<E: Eng>(r: &mut StdRng, p: &mut Pool<Fr<E>>, a: usize, b: usize) -> Matrix<Com2<E>> {
    (0..a).map(|_| (0..b).map(|_| l2::<E>(&(p.next(r), p.next(r)))).collect()).collect()
}
/// Removes or repeats something.
pub fn spoil<T: Clone>(r: &mut StdRng, m: &mut Vec<Vec<T>>) {
    match pick(r, 6) {
        0 => drop(m.pop()),
        1 if !m.is_empty() => m.push(m[0].clone()),
        2 if !m.is_empty() => {
            let k = pick(r, m.len());
            m[k].pop();
        }
        3 if !m.is_empty() => {
            let k = pick(r, m.len());
            if let Some(x) = m[k].first().cloned() {
                m[k].push(x);
            }
        }
        4 => m.clear(),
        _ => m.iter_mut().for_each(|x| x.clear()),
    }
}
pub fn spoil1<T: Clone>(r: &mut StdRng, m: &mut Vec<T>) {
    match pick(r, 4) {
        0 => drop(m.pop()),
        1 if !m.is_empty() => m.push(m[0].clone()),
        2 => m.clear(),
        _ => {
            if let Some(x) = m.first().cloned() {
                m.extend(vec![x; 5]);
            }
        }
    }
}
pub fn spoil_eq<E: Eng>(r: &mut StdRng, eq: &mut LEq<E>) {
    if coin(r, 1, 2) {
        spoil(r, eq.gamma_mut());
        return;
    }
    let first = coin(r, 1, 2);
    match (eq, first) {
        (LEq::P(e), true) => spoil1(r, &mut e.a_consts),
        (LEq::P(e), false) => spoil1(r, &mut e.b_consts),
        (LEq::M1(e), true) => spoil1(r, &mut e.a_consts),
        (LEq::M1(e), false) => spoil1(r, &mut e.b_consts),
        (LEq::M2(e), true) => spoil1(r, &mut e.a_consts),
        (LEq::M2(e), false) => spoil1(r, &mut e.b_consts),
        (LEq::Q(e), true) => spoil1(r, &mut e.a_consts),
        (LEq::Q(e), false) => spoil1(r, &mut e.b_consts),
    }
}
/// Above sixteen: one long side and one short one.
fn size(r: &mut StdRng, max: usize) -> (usize, usize) {
    if max <= 16 {
        return gen::dims(r, max);
    }
    let (a, b) = (1 + pick(r, 3), r.gen_range(max / 3..=max));
    if coin(r, 1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}
struct Setting<E: Eng> {
    ty: Ty,
    key: CRS<E>,
    q: REq<Fr<E>>,
    eq: LEq<E>,
    x: Vars<E>,
    y: Vars<E>,
}
fn setting<E: Eng>(r: &mut StdRng, max: usize, ty: Ty) -> Setting<E> {
    let kind = [Kind::Binding, Kind::Hiding][pick(r, 2)];
    let rc = gen::crs::<Fr<E>>(r, kind);
    let (m, n) = size(r, max);
    let (q, x, y) = gen::equation(r, ty, m, n, &crs_special(&rc));
    Setting { ty, key: lift_crs(&rc), eq: LEq::lift(&q), x: vars_x::<E>(ty, &x), y: vars_y::<E>(ty, &y), q }
}
pub fn exercise<E: Eng>(r: &mut StdRng, what: usize, max: usize, t: &mut Tally) {
    let seed = r.next_u64();
    let ty = TYPES[pick(r, 4)];
    let rng = &mut LogRng::new(seed);
    match what {
        0 => drop(t.good("generate_crs", || CRS::<E>::generate_crs(rng))),
        1 => {
            let s = setting::<E>(r, max, ty);
            t.shapes.insert((what, ty as usize, s.x.s.len(), s.y.s.len()));
            t.good("batch commit", || (batch_x(ty, &s.x, &s.key, rng), batch_y(ty, &s.y, &s.key, rng)));
            t.good("single commits and append", || (singles_x(ty, &s.x, &s.key, rng), singles_y(ty, &s.y, &s.key, rng)));
            let none = Vars { s: vec![], g1: vec![], g2: vec![] };
            t.any(|| (batch_x(ty, &none, &s.key, rng), batch_y(ty, &none, &s.key, rng)));
            t.good("linear maps", || {
                let a = Com1::<E>::batch_linear_map(&s.x.g1).len() + Com2::<E>::batch_linear_map(&s.y.g2).len();
                a + Com1::<E>::batch_scalar_linear_map(&s.x.s, &s.key).len() + Com2::<E>::batch_scalar_linear_map(&s.y.s, &s.key).len()
            });
        }
        2 => {
            let s = setting::<E>(r, max, ty);
            t.shapes.insert((what, ty as usize, s.x.s.len(), s.y.s.len()));
            if let Some(p) = t.good("commit_and_prove", || s.eq.commit_and_prove(&s.x, &s.y, &s.key, rng)) {
                if t.good("verify", || s.eq.verify_raw(&p, &s.key)) == Some(false) {
                    t.wrong.push(format!("an honest proof of {:?} is refused", s.q));
                }
                t.good("prove", || s.eq.prove(&s.x, &s.y, &p.xcoms, &p.ycoms, &s.key, rng));
            }
        }
        3 => {
            let mut s = setting::<E>(r, max, ty);
            if coin(r, 1, 2) {
                // Not a witness.
                s.q.t += gen::nz::<Fr<E>>(r);
                s.eq = LEq::lift(&s.q);
            }
            if let Some(mut p) = t.good("commit_and_prove", || s.eq.commit_and_prove(&s.x, &s.y, &s.key, rng)) {
                let d = E::g1(&gen::nz::<Fr<E>>(r));
                match pick(r, 3) {
                    0 => p.equ_proofs[0].theta[0].1 = (p.equ_proofs[0].theta[0].1 + d).into_affine(),
                    1 => p.xcoms.coms[0].1 = (p.xcoms.coms[0].1 + d).into_affine(),
                    _ => p.equ_proofs[0].pi[0] = Com2::zero(),
                }
                t.good("verify a damaged proof", || s.eq.verify_raw(&p, &s.key));
            }
        }
        4 => {
            let mut s = setting::<E>(r, max, ty);
            if let Some(mut p) = t.good("commit_and_prove", || s.eq.commit_and_prove(&s.x, &s.y, &s.key, rng)) {
                match pick(r, 7) {
                    0 => spoil1(r, &mut p.xcoms.coms),
                    1 => spoil1(r, &mut p.ycoms.coms),
                    2 => spoil1(r, &mut p.equ_proofs[0].pi),
                    3 => spoil1(r, &mut p.equ_proofs[0].theta),
                    4 => spoil1(r, &mut p.equ_proofs),
                    5 => spoil1(r, &mut s.key.u),
                    _ => spoil_eq(r, &mut s.eq),
                }
                t.any(|| s.eq.verify_raw(&p, &s.key));
            }
        }
        5 => {
            let mut s = setting::<E>(r, max, ty);
            let (mut xc, mut yc) = (batch_x(ty, &s.x, &s.key, rng), batch_y(ty, &s.y, &s.key, rng));
            match pick(r, 6) {
                0 => spoil_eq(r, &mut s.eq),
                1 => xc = com1_with(xc.coms.clone(), &vec![]),
                2 => {
                    let mut m = rand_of2(&yc);
                    spoil(r, &mut m);
                    yc = com2_with(yc.coms.clone(), &m);
                }
                3 => {
                    let mut m = rand_of1(&xc);
                    spoil(r, &mut m);
                    xc = com1_with(xc.coms.clone(), &m);
                }
                4 => {
                    spoil1(r, &mut s.x.s);
                    spoil1(r, &mut s.x.g1);
                }
                _ => spoil1(r, &mut s.key.v),
            }
            t.any(|| s.eq.prove(&s.x, &s.y, &xc, &yc, &s.key, rng));
            t.any(|| s.eq.commit_and_prove(&s.x, &s.y, &s.key, rng));
            // Commitments and randomness of different lengths, on either side of an append.
            for _ in 0..2 {
                let mut mx = rand_of1(&xc);
                let mut my = rand_of2(&yc);
                match pick(r, 4) {
                    0 => {}
                    1 => (mx, my) = (vec![], vec![]),
                    _ => {
                        spoil1(r, &mut mx);
                        spoil1(r, &mut my);
                    }
                }
                let (mut a, mut b) = (com1_with::<E>(xc.coms.clone(), &mx), com2_with::<E>(yc.coms.clone(), &my));
                let (mut u, mut v) = (xc.clone(), yc.clone());
                let turned = coin(r, 1, 2);
                t.any(|| if turned { a.append(&mut u) } else { u.append(&mut a) });
                t.any(|| if turned { b.append(&mut v) } else { v.append(&mut b) });
                // Whatever is left is still usable.
                t.any(|| u.append(&mut a));
                t.any(|| v.append(&mut b));
                t.any(|| (a.clone() == u, b.clone() == v, format!("{a:?} {v:?}").len()));
            }
        }
        6 => {
            let mut p = Pool::<Fr<E>>::random();
            let (i, k) = size(r, max);
            let j = if max > 16 { 1 + pick(r, 4) } else { gen::dims(r, max).0 };
            t.shapes.insert((what, i, k, j));
            let (a, b, c) = (mat1::<E>(r, &mut p, i, k), mat2::<E>(r, &mut p, i, k), mat(r, &mut p, i, k));
            let (s, l, z) = (mat(r, &mut p, k, j), mat(r, &mut p, j, i), p.next(r));
            for par in [false, true] {
                t.good("right_mul", || a.right_mul(&s, par).len() + b.right_mul(&s, par).len() + c.right_mul(&s, par).len());
                t.good("left_mul", || a.left_mul(&l, par).len() + b.left_mul(&l, par).len() + c.left_mul(&l, par).len());
            }
            t.good("transpose, neg, scalar_mul, add", || {
                let n = (Mat::transpose(&a).len(), Mat::transpose(&b).len(), Mat::transpose(&c).len());
                let m = (Mat::neg(&a), Mat::neg(&b), Mat::neg(&c));
                let o = (Mat::scalar_mul(&a, &z), Mat::scalar_mul(&b, &z), Mat::scalar_mul(&c, &z));
                (n, Mat::add(&a, &m.0).len(), Mat::add(&b, &o.1).len(), Mat::add(&c, &m.2).len(), o.0.len() + o.2.len() + m.1.len())
            });
            let v: Vec<Com1<E>> = a.iter().flatten().copied().collect();
            t.good("column matrices", || col_vec_to_vec(&vec_to_col_vec(&v)));
        }
        7 => {
            let mut p = Pool::<Fr<E>>::random();
            let (i, k) = size(r, max);
            let j = if max > 16 { 1 + pick(r, 4) } else { gen::dims(r, max).0 };
            let (mut a, mut b, mut c) = (mat1::<E>(r, &mut p, i, k), mat2::<E>(r, &mut p, i, k), mat(r, &mut p, i, k));
            let (mut s, mut l) = (mat(r, &mut p, k, j), mat(r, &mut p, j, i));
            match pick(r, 5) {
                0 => spoil(r, &mut a),
                1 => spoil(r, &mut b),
                2 => spoil(r, &mut c),
                3 => spoil(r, &mut s),
                _ => spoil(r, &mut l),
            }
            for par in [false, true] {
                t.any(|| a.right_mul(&s, par));
                t.any(|| b.right_mul(&s, par));
                t.any(|| c.right_mul(&s, par));
                t.any(|| a.left_mul(&l, par));
                t.any(|| b.left_mul(&l, par));
                t.any(|| c.left_mul(&l, par));
            }
            let d = mat1::<E>(r, &mut p, i, k);
            t.any(|| Mat::add(&a, &d));
            t.any(|| Mat::transpose(&a));
            t.any(|| Mat::transpose(&c));
            t.any(|| Mat::add(&c, &s));
            t.any(|| col_vec_to_vec(&a));
        }
        8 => {
            let k = KINDS[pick(r, KINDS.len())];
            let o = build::<E>(r, k, if max > 16 { max } else { max.min(6) });
            for m in MODES {
                if let Some(b) = t.good("write", || o.enc(m)) {
                    for v in [Validate::Yes, Validate::No] {
                        let x = t.good("read", || Obj::<E>::read(k, &b[..], m, v));
                        if !matches!(&x, Some(Ok(x)) if x.same(&o)) {
                            t.wrong.push(format!("{k:?} is not read back"));
                        }
                    }
                }
            }
        }
        9 => {
            let k = KINDS[pick(r, KINDS.len())];
            let o = build::<E>(r, k, max.min(4));
            let m = MODES[pick(r, 2)];
            let mut b = o.enc(m);
            // Not a length prefix: a reader that allocates what it is told to is not what this is about.
            let mut lens = vec![];
            let mut at = 0;
            for a in o.atoms() {
                let n = a.bytes(m).len();
                if matches!(a, Atom::Len(_)) {
                    lens.push(at..at + n);
                }
                at += n;
            }
            for _ in 0..4 {
                if b.is_empty() {
                    break;
                }
                let i = pick(r, b.len());
                if lens.iter().any(|l| l.contains(&i)) {
                    continue;
                }
                let old = b[i];
                b[i] ^= 1 << pick(r, 8);
                for v in [Validate::Yes, Validate::No] {
                    t.any(|| Obj::<E>::read(k, &b[..], m, v).is_ok());
                }
                b[i] = old;
                let n = pick(r, b.len());
                t.any(|| Obj::<E>::read(k, &b[..n], m, Validate::Yes).is_ok());
            }
        }
        10 => {
            let mut p = Pool::<Fr<E>>::new(r, &[]);
            let (a, b) = (l1::<E>(&(p.next(r), p.next(r))), l1::<E>(&(p.next(r), p.next(r))));
            let (c, d) = (l2::<E>(&(p.next(r), p.next(r))), l2::<E>(&(p.next(r), p.next(r))));
            let z = p.next(r);
            t.good("group operations", || {
                let mut x = a + b;
                x += a;
                x -= b;
                x = x.scalar_mul(&z);
                let mut y = c - d;
                y += c;
                y -= d;
                y = y.scalar_mul(&z);
                let (s, u): (Com1<E>, Com2<E>) = ([a, b, x].into_iter().sum(), [c, d, y].into_iter().sum());
                let mut w = ComT::<E>::pairing(s, u) + ComT::<E>::pairing(-a, -c);
                w += ComT::<E>::zero();
                w -= -w;
                let v = w - ComT::<E>::pairing(a, c);
                let m: ComT<E> = [w, v].into_iter().sum();
                (m == ComT::<E>::from(m.as_matrix()), a.as_vec(), c.as_col_vec(), Com1::<E>::from(b.as_col_vec()) == b, format!("{a:?} {c:?} {m:?}").len())
            });
            let odd: Matrix<E::G1Affine> = vec![vec![a.0; pick(r, 4)]; pick(r, 4)];
            t.any(|| Com1::<E>::from(odd));
            let odd: Matrix<PairingOutput<E>> = vec![vec![E::gt(&z); pick(r, 4)]; pick(r, 4)];
            t.any(|| ComT::<E>::from(odd));
        }
        11 => {
            let mut p = Pool::<Fr<E>>::random();
            let (n, m) = (r.gen_range(0..=max), r.gen_range(0..=max));
            let (a, b) = (mat1::<E>(r, &mut p, 1, n), mat2::<E>(r, &mut p, 1, n));
            t.shapes.insert((what, n, 0, 0));
            t.good("pairing_sum", || ComT::<E>::pairing_sum(&a[0], &b[0]));
            let c = mat2::<E>(r, &mut p, 1, m);
            t.any(|| ComT::<E>::pairing_sum(&a[0], &c[0]));
        }
        12 => {
            let s = setting::<E>(r, max, ty);
            let Some(p) = t.good("commit_and_prove", || s.eq.commit_and_prove(&s.x, &s.y, &s.key, rng)) else { return };
            let n = 2 + pick(r, 2);
            let size = 1 + pick(r, 4);
            let one = |k: usize| {
                let g = &mut LogRng::new(seed ^ k as u64);
                match k % 3 {
                    0 => s.eq.verify_raw(&p, &s.key) as usize,
                    1 => s.eq.prove(&s.x, &s.y, &p.xcoms, &p.ycoms, &s.key, g).pi.len(),
                    _ => s.eq.commit_and_prove(&s.x, &s.y, &s.key, g).xcoms.coms.len(),
                }
            };
            t.calls += n as u64 - 1;
            t.good("calls on shared arguments", || {
                if coin(r, 1, 2) {
                    let p = rayon::ThreadPoolBuilder::new().num_threads(size).build().unwrap();
                    p.install(|| (0..n).into_par_iter().map(one).sum::<usize>())
                } else {
                    std::thread::scope(|sc| {
                        let h: Vec<_> = (0..n).map(|k| sc.spawn(move || one(k))).collect();
                        h.into_iter().map(|h| h.join().unwrap()).sum::<usize>()
                    })
                }
            });
        }
        _ => {
            let s = setting::<E>(r, max, ty);
            let (mut xc, mut yc) = (batch_x(ty, &s.x, &s.key, rng), batch_y(ty, &s.y, &s.key, rng));
            t.good("proofs about the same commitments", || {
                for _ in 0..2 {
                    let pf = s.eq.prove(&s.x, &s.y, &xc, &yc, &s.key, rng);
                    let p = CProof { xcoms: xc.clone(), ycoms: yc.clone(), equ_proofs: vec![pf.clone()] };
                    s.eq.verify_raw(&p, &s.key);
                    drop(format!("{:?}", p));
                    assert!(p == p.clone());
                }
            });
            let (mut a, mut b) = (xc.clone(), yc.clone());
            t.good("append", || {
                xc.append(&mut a);
                yc.append(&mut b);
                (xc.coms.len(), yc.coms.len())
            });
        }
    }
}
