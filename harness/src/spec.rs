//! The reference model: Groth-Sahai (SXDH) on discrete logarithms, and the bridge to the library's types.
use crate::engine::*;
use crate::mon::lib;
use ark_ec::pairing::Pairing;
use ark_ff::{Field, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::Rng;
use groth_sahai::data_structures::*;
use groth_sahai::generator::CRS;
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use std::hash::Hash;

pub type P2<F> = (F, F);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    P,
    M1,
    M2,
    Q,
}
pub const TYPES: [Ty; 4] = [Ty::P, Ty::M1, Ty::M2, Ty::Q];
impl Ty {
    pub fn xg(self) -> bool {
        matches!(self, Ty::P | Ty::M1)
    }
    pub fn yg(self) -> bool {
        matches!(self, Ty::P | Ty::M2)
    }
    /// Random scalars per X commitment, and number of elements of pi.
    pub fn kx(self) -> usize {
        1 + self.xg() as usize
    }
    pub fn ky(self) -> usize {
        1 + self.yg() as usize
    }
    pub fn equ(self) -> EquType {
        match self {
            Ty::P => EquType::PairingProduct,
            Ty::M1 => EquType::MultiScalarG1,
            Ty::M2 => EquType::MultiScalarG2,
            Ty::Q => EquType::Quadratic,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Ty::P => "PPE",
            Ty::M1 => "MSMEG1",
            Ty::M2 => "MSMEG2",
            Ty::Q => "Quad",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct RCrs<F> {
    pub u: [P2<F>; 2],
    pub v: [P2<F>; 2],
    pub g1: F,
    pub g2: F,
}
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct REq<F> {
    pub ty: Ty,
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub gamma: Vec<Vec<F>>,
    pub t: F,
}
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct RProof<F> {
    pub c: Vec<P2<F>>,
    pub d: Vec<P2<F>>,
    pub pi: Vec<P2<F>>,
    pub theta: Vec<P2<F>>,
}
pub fn add2<F: Field>(a: P2<F>, b: P2<F>) -> P2<F> {
    (a.0 + b.0, a.1 + b.1)
}
pub fn sc2<F: Field>(s: F, a: P2<F>) -> P2<F> {
    (s * a.0, s * a.1)
}
/// Tensor product, entries 00, 01, 10, 11.
pub fn ten<F: Field>(x: P2<F>, y: P2<F>) -> [F; 4] {
    [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1]
}
pub fn add4<F: Field>(a: [F; 4], b: [F; 4]) -> [F; 4] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub fn sub4<F: Field>(a: [F; 4], b: [F; 4]) -> [F; 4] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]]
}
pub fn i<F: Field>(x: F) -> P2<F> {
    (F::ZERO, x)
}
impl<F: PrimeField> RCrs<F> {
    pub fn us(&self) -> P2<F> {
        add2(self.u[1], i(self.g1))
    }
    pub fn vs(&self) -> P2<F> {
        add2(self.v[1], i(self.g2))
    }
    pub fn ix(&self, ty: Ty, x: F) -> P2<F> {
        if ty.xg() {
            i(x)
        } else {
            sc2(x, self.us())
        }
    }
    pub fn iy(&self, ty: Ty, y: F) -> P2<F> {
        if ty.yg() {
            i(y)
        } else {
            sc2(y, self.vs())
        }
    }
    pub fn it(&self, ty: Ty, t: F) -> [F; 4] {
        match ty {
            Ty::P => [F::ZERO, F::ZERO, F::ZERO, t],
            Ty::M1 => ten(i(t), self.vs()),
            Ty::M2 => ten(self.us(), i(t)),
            Ty::Q => ten(self.us(), sc2(t, self.vs())),
        }
    }
    pub fn com_x(&self, ty: Ty, x: F, r: &[F]) -> P2<F> {
        (0..ty.kx()).fold(self.ix(ty, x), |c, k| add2(c, sc2(r[k], self.u[k])))
    }
    pub fn com_y(&self, ty: Ty, y: F, s: &[F]) -> P2<F> {
        (0..ty.ky()).fold(self.iy(ty, y), |c, k| add2(c, sc2(s[k], self.v[k])))
    }
    pub fn det_u(&self) -> F {
        self.u[0].0 * self.u[1].1 - self.u[0].1 * self.u[1].0
    }
    pub fn det_v(&self) -> F {
        self.v[0].0 * self.v[1].1 - self.v[0].1 * self.v[1].0
    }
    /// The value that a commitment determines under a binding CRS whose u[0].0 is not zero: its discrete log for
    /// group variables, the scalar for scalar variables.
    pub fn open_x(&self, ty: Ty, c: P2<F>) -> F {
        let a = self.u[0].1 * self.u[0].0.inverse().unwrap();
        let p = c.1 - a * c.0;
        if ty.xg() {
            p
        } else {
            p * self.g1.inverse().unwrap()
        }
    }
    pub fn open_y(&self, ty: Ty, d: P2<F>) -> F {
        let a = self.v[0].1 * self.v[0].0.inverse().unwrap();
        let p = d.1 - a * d.0;
        if ty.yg() {
            p
        } else {
            p * self.g2.inverse().unwrap()
        }
    }
    pub fn binding(&self) -> bool {
        self.det_u().is_zero()
            && self.det_v().is_zero()
            && !self.u[0].0.is_zero()
            && !self.v[0].0.is_zero()
            && !self.g1.is_zero()
            && !self.g2.is_zero()
    }
}
impl<F: PrimeField> REq<F> {
    pub fn eval(&self, x: &[F], y: &[F]) -> F {
        let mut s = F::ZERO;
        for (j, a) in self.a.iter().enumerate() {
            s += *a * y[j];
        }
        for (k, b) in self.b.iter().enumerate() {
            s += x[k] * b;
        }
        for (k, row) in self.gamma.iter().enumerate() {
            for (j, g) in row.iter().enumerate() {
                s += *g * x[k] * y[j];
            }
        }
        s
    }
    pub fn holds(&self, x: &[F], y: &[F]) -> bool {
        self.eval(x, y) == self.t
    }
    pub fn m(&self) -> usize {
        self.b.len()
    }
    pub fn n(&self) -> usize {
        self.a.len()
    }
    /// Constants on the Y side (`a`) live where X variables live, and the other way round.
    pub fn residual_lhs(&self, crs: &RCrs<F>, c: &[P2<F>], d: &[P2<F>]) -> [F; 4] {
        let z = F::ZERO;
        let mut l = [z; 4];
        for (j, a) in self.a.iter().enumerate() {
            l = add4(l, ten(crs.ix(self.ty, *a), d[j]));
        }
        for (k, b) in self.b.iter().enumerate() {
            l = add4(l, ten(c[k], crs.iy(self.ty, *b)));
        }
        for (k, row) in self.gamma.iter().enumerate() {
            let mut gd = (z, z);
            for (j, g) in row.iter().enumerate() {
                gd = add2(gd, sc2(*g, d[j]));
            }
            l = add4(l, ten(c[k], gd));
        }
        sub4(l, crs.it(self.ty, self.t))
    }
    /// Left side minus right side of the Groth-Sahai verification equation.
    pub fn residual(&self, crs: &RCrs<F>, p: &RProof<F>) -> [F; 4] {
        let mut l = self.residual_lhs(crs, &p.c, &p.d);
        for (k, x) in p.pi.iter().enumerate() {
            l = sub4(l, ten(crs.u[k], *x));
        }
        for (k, x) in p.theta.iter().enumerate() {
            l = sub4(l, ten(*x, crs.v[k]));
        }
        l
    }
    pub fn accepts(&self, crs: &RCrs<F>, p: &RProof<F>) -> bool {
        self.residual(crs, p).iter().all(|e| e.is_zero())
    }
    /// The honest prover on discrete logarithms. `tt`: kx*ky proof randomness.
    pub fn prove(&self, crs: &RCrs<F>, x: &[F], y: &[F], r: &[Vec<F>], s: &[Vec<F>], tt: &[Vec<F>]) -> RProof<F> {
        let ty = self.ty;
        let z = F::ZERO;
        let (kx, ky, m, n) = (ty.kx(), ty.ky(), self.m(), self.n());
        let c = (0..m).map(|k| crs.com_x(ty, x[k], &r[k])).collect();
        let d = (0..n).map(|k| crs.com_y(ty, y[k], &s[k])).collect();
        let mut pi = vec![(z, z); kx];
        let mut theta = vec![(z, z); ky];
        for k in 0..kx {
            for p in 0..m {
                let mut e = self.b[p];
                for j in 0..n {
                    e += self.gamma[p][j] * y[j];
                }
                pi[k] = add2(pi[k], sc2(r[p][k], crs.iy(ty, e)));
            }
            for l in 0..ky {
                let mut e = -tt[l][k];
                for p in 0..m {
                    for j in 0..n {
                        e += r[p][k] * self.gamma[p][j] * s[j][l];
                    }
                }
                pi[k] = add2(pi[k], sc2(e, crs.v[l]));
            }
        }
        for l in 0..ky {
            for j in 0..n {
                let mut e = self.a[j];
                for p in 0..m {
                    e += self.gamma[p][j] * x[p];
                }
                theta[l] = add2(theta[l], sc2(s[j][l], crs.ix(ty, e)));
            }
            for k in 0..kx {
                theta[l] = add2(theta[l], sc2(tt[l][k], crs.u[k]));
            }
        }
        RProof { c, d, pi, theta }
    }
}

// ------------------------------------------------------------------------------------------------------------------
// Bridge.

pub fn l1<E: Eng>(p: &P2<Fr<E>>) -> Com1<E> {
    Com1(E::g1(&p.0), E::g1(&p.1))
}
pub fn l2<E: Eng>(p: &P2<Fr<E>>) -> Com2<E> {
    Com2(E::g2(&p.0), E::g2(&p.1))
}
pub fn d1<E: Eng>(c: &Com1<E>) -> P2<Fr<E>> {
    (E::dlog1(&c.0).unwrap(), E::dlog1(&c.1).unwrap())
}
pub fn d2<E: Eng>(c: &Com2<E>) -> P2<Fr<E>> {
    (E::dlog2(&c.0).unwrap(), E::dlog2(&c.1).unwrap())
}
pub fn l1s<E: Eng>(p: &[P2<Fr<E>>]) -> Vec<Com1<E>> {
    p.iter().map(|x| l1::<E>(x)).collect()
}
pub fn l2s<E: Eng>(p: &[P2<Fr<E>>]) -> Vec<Com2<E>> {
    p.iter().map(|x| l2::<E>(x)).collect()
}
pub fn g1s<E: Eng>(p: &[Fr<E>]) -> Vec<E::G1Affine> {
    p.iter().map(E::g1).collect()
}
pub fn g2s<E: Eng>(p: &[Fr<E>]) -> Vec<E::G2Affine> {
    p.iter().map(E::g2).collect()
}
pub fn lift_crs<E: Eng>(r: &RCrs<Fr<E>>) -> CRS<E> {
    CRS {
        u: l1s::<E>(&r.u),
        v: l2s::<E>(&r.v),
        g1_gen: E::g1(&r.g1),
        g2_gen: E::g2(&r.g2),
        gt_gen: E::gt(&(r.g1 * r.g2)),
    }
}
pub fn read_crs<E: Eng>(c: &CRS<E>) -> RCrs<Fr<E>> {
    RCrs {
        u: [d1(&c.u[0]), d1(&c.u[1])],
        v: [d2(&c.v[0]), d2(&c.v[1])],
        g1: E::dlog1(&c.g1_gen).unwrap(),
        g2: E::dlog2(&c.g2_gen).unwrap(),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum LEq<E: Pairing> {
    P(PPE<E>),
    M1(MSMEG1<E>),
    M2(MSMEG2<E>),
    Q(QuadEqu<E>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    Accept,
    Reject,
    Panic(String),
}
macro_rules! each {
    ($s:expr, $e:ident => $b:expr) => {
        match $s {
            LEq::P($e) => $b,
            LEq::M1($e) => $b,
            LEq::M2($e) => $b,
            LEq::Q($e) => $b,
        }
    };
}
impl<E: Eng> LEq<E> {
    pub fn lift(q: &REq<Fr<E>>) -> Self {
        let gamma = q.gamma.clone();
        match q.ty {
            Ty::P => LEq::P(PPE { a_consts: g1s::<E>(&q.a), b_consts: g2s::<E>(&q.b), gamma, target: E::gt(&q.t) }),
            Ty::M1 => LEq::M1(MSMEG1 { a_consts: g1s::<E>(&q.a), b_consts: q.b.clone(), gamma, target: E::g1(&q.t) }),
            Ty::M2 => LEq::M2(MSMEG2 { a_consts: q.a.clone(), b_consts: g2s::<E>(&q.b), gamma, target: E::g2(&q.t) }),
            Ty::Q => LEq::Q(QuadEqu { a_consts: q.a.clone(), b_consts: q.b.clone(), gamma, target: q.t }),
        }
    }
    pub fn verify_raw(&self, p: &CProof<E>, crs: &CRS<E>) -> bool {
        each!(self, e => e.verify(p, crs))
    }
    pub fn verify(&self, p: &CProof<E>, crs: &CRS<E>) -> Verdict {
        match lib(|| self.verify_raw(p, crs)) {
            Ok(true) => Verdict::Accept,
            Ok(false) => Verdict::Reject,
            Err(m) => Verdict::Panic(m),
        }
    }
    pub fn commit_and_prove<R: Rng>(&self, x: &Vars<E>, y: &Vars<E>, crs: &CRS<E>, rng: &mut R) -> CProof<E> {
        match self {
            LEq::P(e) => e.commit_and_prove(&x.g1, &y.g2, crs, rng),
            LEq::M1(e) => e.commit_and_prove(&x.g1, &y.s, crs, rng),
            LEq::M2(e) => e.commit_and_prove(&x.s, &y.g2, crs, rng),
            LEq::Q(e) => e.commit_and_prove(&x.s, &y.s, crs, rng),
        }
    }
    pub fn prove<R: Rng>(
        &self,
        x: &Vars<E>,
        y: &Vars<E>,
        xc: &Commit1<E>,
        yc: &Commit2<E>,
        crs: &CRS<E>,
        rng: &mut R,
    ) -> EquProof<E> {
        match self {
            LEq::P(e) => e.prove(&x.g1, &y.g2, xc, yc, crs, rng),
            LEq::M1(e) => e.prove(&x.g1, &y.s, xc, yc, crs, rng),
            LEq::M2(e) => e.prove(&x.s, &y.g2, xc, yc, crs, rng),
            LEq::Q(e) => e.prove(&x.s, &y.s, xc, yc, crs, rng),
        }
    }
    pub fn ty(&self) -> EquType {
        each!(self, e => e.get_type())
    }
    pub fn gamma_mut(&mut self) -> &mut Matrix<Fr<E>> {
        each!(self, e => &mut e.gamma)
    }
}
/// A list of variables: all views of the same discrete logarithms.
#[derive(Clone, Debug, PartialEq)]
pub struct Vars<E: Pairing> {
    pub s: Vec<E::ScalarField>,
    pub g1: Vec<E::G1Affine>,
    pub g2: Vec<E::G2Affine>,
}
pub fn vars_x<E: Eng>(ty: Ty, x: &[Fr<E>]) -> Vars<E> {
    Vars { s: x.to_vec(), g1: if ty.xg() { g1s::<E>(x) } else { vec![] }, g2: vec![] }
}
pub fn vars_y<E: Eng>(ty: Ty, y: &[Fr<E>]) -> Vars<E> {
    Vars { s: y.to_vec(), g2: if ty.yg() { g2s::<E>(y) } else { vec![] }, g1: vec![] }
}
pub fn batch_x<E: Eng, R: Rng>(ty: Ty, x: &Vars<E>, crs: &CRS<E>, rng: &mut R) -> Commit1<E> {
    if ty.xg() {
        batch_commit_G1(&x.g1, crs, rng)
    } else {
        batch_commit_scalar_to_B1(&x.s, crs, rng)
    }
}
pub fn batch_y<E: Eng, R: Rng>(ty: Ty, y: &Vars<E>, crs: &CRS<E>, rng: &mut R) -> Commit2<E> {
    if ty.yg() {
        batch_commit_G2(&y.g2, crs, rng)
    } else {
        batch_commit_scalar_to_B2(&y.s, crs, rng)
    }
}
pub fn single_x<E: Eng, R: Rng>(ty: Ty, x: &Vars<E>, k: usize, crs: &CRS<E>, rng: &mut R) -> Commit1<E> {
    if ty.xg() {
        commit_G1(&x.g1[k], crs, rng)
    } else {
        commit_scalar_to_B1(&x.s[k], crs, rng)
    }
}
pub fn single_y<E: Eng, R: Rng>(ty: Ty, y: &Vars<E>, k: usize, crs: &CRS<E>, rng: &mut R) -> Commit2<E> {
    if ty.yg() {
        commit_G2(&y.g2[k], crs, rng)
    } else {
        commit_scalar_to_B2(&y.s[k], crs, rng)
    }
}
/// The variables committed one by one and appended.
pub fn singles_x<E: Eng, R: Rng>(ty: Ty, x: &Vars<E>, crs: &CRS<E>, rng: &mut R) -> Commit1<E> {
    let mut o = single_x(ty, x, 0, crs, rng);
    for k in 1..x.s.len() {
        o.append(&mut single_x(ty, x, k, crs, rng));
    }
    o
}
pub fn singles_y<E: Eng, R: Rng>(ty: Ty, y: &Vars<E>, crs: &CRS<E>, rng: &mut R) -> Commit2<E> {
    let mut o = single_y(ty, y, 0, crs, rng);
    for k in 1..y.s.len() {
        o.append(&mut single_y(ty, y, k, crs, rng));
    }
    o
}
pub fn read_proof<E: Eng>(p: &CProof<E>) -> RProof<Fr<E>> {
    RProof {
        c: p.xcoms.coms.iter().map(d1::<E>).collect(),
        d: p.ycoms.coms.iter().map(d2::<E>).collect(),
        pi: p.equ_proofs[0].pi.iter().map(d2::<E>).collect(),
        theta: p.equ_proofs[0].theta.iter().map(d1::<E>).collect(),
    }
}
pub fn com1_with<E: Pairing>(coms: Vec<Com1<E>>, rand: &Matrix<E::ScalarField>) -> Commit1<E> {
    let mut b = Vec::new();
    coms.serialize_uncompressed(&mut b).unwrap();
    rand.serialize_uncompressed(&mut b).unwrap();
    Commit1::deserialize_uncompressed_unchecked(&b[..]).unwrap()
}
pub fn com2_with<E: Pairing>(coms: Vec<Com2<E>>, rand: &Matrix<E::ScalarField>) -> Commit2<E> {
    let mut b = Vec::new();
    coms.serialize_uncompressed(&mut b).unwrap();
    rand.serialize_uncompressed(&mut b).unwrap();
    Commit2::deserialize_uncompressed_unchecked(&b[..]).unwrap()
}
pub fn equ_with<E: Pairing>(pi: Vec<Com2<E>>, theta: Vec<Com1<E>>, ty: EquType, rand: &Matrix<E::ScalarField>) -> EquProof<E> {
    let mut b = Vec::new();
    pi.serialize_uncompressed(&mut b).unwrap();
    theta.serialize_uncompressed(&mut b).unwrap();
    ty.serialize_uncompressed(&mut b).unwrap();
    rand.serialize_uncompressed(&mut b).unwrap();
    EquProof::deserialize_uncompressed_unchecked(&b[..]).unwrap()
}
/// A proof object around given elements. The library gives no other way to build one from parts.
pub fn lift_proof<E: Eng>(ty: Ty, p: &RProof<Fr<E>>) -> CProof<E> {
    CProof {
        xcoms: com1_with(l1s::<E>(&p.c), &vec![]),
        ycoms: com2_with(l2s::<E>(&p.d), &vec![]),
        equ_proofs: vec![equ_with(l2s::<E>(&p.pi), l1s::<E>(&p.theta), ty.equ(), &vec![])],
    }
}
pub fn rand_of1<E: Pairing>(c: &Commit1<E>) -> Matrix<E::ScalarField> {
    let mut b = Vec::new();
    c.serialize_uncompressed(&mut b).unwrap();
    let mut r = &b[..];
    let _: Vec<Com1<E>> = CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap();
    CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap()
}
pub fn rand_of2<E: Pairing>(c: &Commit2<E>) -> Matrix<E::ScalarField> {
    let mut b = Vec::new();
    c.serialize_uncompressed(&mut b).unwrap();
    let mut r = &b[..];
    let _: Vec<Com2<E>> = CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap();
    CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap()
}
/// Everything observable of a proof, secret randomness included, as bytes.
pub fn cproof_bytes<E: Pairing>(p: &CProof<E>) -> Vec<u8> {
    let mut b = Vec::new();
    p.xcoms.serialize_uncompressed(&mut b).unwrap();
    p.ycoms.serialize_uncompressed(&mut b).unwrap();
    p.equ_proofs.serialize_uncompressed(&mut b).unwrap();
    b
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = Vec::new();
    t.serialize_uncompressed(&mut b).unwrap();
    b
}
