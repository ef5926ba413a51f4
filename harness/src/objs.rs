//! Every serializable type of the library under one roof.
use crate::prelude::*;
use ark_serialize::{Read, SerializationError, Write};

macro_rules! objs {
    ($( $v:ident : $t:ty ),+ $(,)?) => {
        #[derive(Clone, Debug)]
        pub enum Obj<E: Eng> { $( $v($t) ),+ }
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum OKind { $( $v ),+ }
        pub const KINDS: &[OKind] = &[ $( OKind::$v ),+ ];
        impl<E: Eng> Obj<E> {
            pub fn kind(&self) -> OKind {
                match self { $( Obj::$v(_) => OKind::$v ),+ }
            }
            pub fn write<W: Write>(&self, w: W, m: Compress) -> Result<(), SerializationError> {
                match self { $( Obj::$v(x) => x.serialize_with_mode(w, m) ),+ }
            }
            pub fn size(&self, m: Compress) -> usize {
                match self { $( Obj::$v(x) => x.serialized_size(m) ),+ }
            }
            pub fn read<R: Read>(k: OKind, r: R, m: Compress, v: Validate) -> Result<Self, SerializationError> {
                match k { $( OKind::$v => <$t as CanonicalDeserialize>::deserialize_with_mode(r, m, v).map(Obj::$v) ),+ }
            }
            pub fn inner_debug(&self) -> String {
                match self { $( Obj::$v(x) => format!("{x:?}") ),+ }
            }
        }
    };
}
objs! {
    Crs: CRS<E>,
    C1: Com1<E>,
    C2: Com2<E>,
    K1: Commit1<E>,
    K2: Commit2<E>,
    Pf: EquProof<E>,
    P: PPE<E>,
    M1: MSMEG1<E>,
    M2: MSMEG2<E>,
    Q: QuadEqu<E>,
    Tag: EquType,
    VC1: Vec<Com1<E>>,
    VC2: Vec<Com2<E>>,
    VPf: Vec<EquProof<E>>,
    VTag: Vec<EquType>,
    Mat1: Matrix<Com1<E>>,
}
pub const MODES: [Compress; 2] = [Compress::Yes, Compress::No];

/// What an encoding consists of, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum Atom<E: Eng> {
    Len(usize),
    G1(E::G1Affine),
    G2(E::G2Affine),
    F(Fr<E>),
    Gt(PairingOutput<E>),
    Tag(EquType),
}
impl<E: Eng> Atom<E> {
    pub fn bytes(&self, m: Compress) -> Vec<u8> {
        let mut b = vec![];
        match self {
            Atom::Len(n) => (*n as u64).serialize_with_mode(&mut b, m),
            Atom::G1(p) => p.serialize_with_mode(&mut b, m),
            Atom::G2(p) => p.serialize_with_mode(&mut b, m),
            Atom::F(p) => p.serialize_with_mode(&mut b, m),
            Atom::Gt(p) => p.serialize_with_mode(&mut b, m),
            Atom::Tag(t) => {
                b.push(match t {
                    EquType::PairingProduct => 0,
                    EquType::MultiScalarG1 => 1,
                    EquType::MultiScalarG2 => 2,
                    EquType::Quadratic => 3,
                });
                Ok(())
            }
        }
        .unwrap();
        b
    }
    pub fn name(&self) -> &'static str {
        match self {
            Atom::Len(_) => "length",
            Atom::G1(_) => "G1 point",
            Atom::G2(_) => "G2 point",
            Atom::F(_) => "scalar",
            Atom::Gt(_) => "target element",
            Atom::Tag(_) => "equation type tag",
        }
    }
}
struct Acc<E: Eng>(Vec<Atom<E>>);
impl<E: Eng> Acc<E> {
    fn c1(&mut self, c: &Com1<E>) {
        self.0.extend([Atom::G1(c.0), Atom::G1(c.1)]);
    }
    fn c2(&mut self, c: &Com2<E>) {
        self.0.extend([Atom::G2(c.0), Atom::G2(c.1)]);
    }
    fn list<T>(&mut self, l: &[T], f: impl Fn(&mut Self, &T)) {
        self.0.push(Atom::Len(l.len()));
        l.iter().for_each(|x| f(self, x));
    }
    fn f(&mut self, x: &Fr<E>) {
        self.0.push(Atom::F(*x));
    }
    fn mat(&mut self, m: &Matrix<Fr<E>>) {
        self.list(m, |s, r| s.list(r, Self::f));
    }
    fn pf(&mut self, p: &EquProof<E>, rand: &Matrix<Fr<E>>) {
        self.list(&p.pi, Self::c2);
        self.list(&p.theta, Self::c1);
        self.0.push(Atom::Tag(p.equ_type.clone()));
        self.mat(rand);
    }
}
impl<E: Eng> Obj<E> {
    pub fn enc(&self, m: Compress) -> Vec<u8> {
        let mut b = vec![];
        self.write(&mut b, m).unwrap();
        b
    }
    /// The parts in the order of their declaration. The secret randomness of commitments and proofs is read off `rand`.
    pub fn atoms(&self) -> Vec<Atom<E>> {
        let mut a = Acc(vec![]);
        match self {
            Obj::Crs(k) => {
                a.list(&k.u, Acc::c1);
                a.list(&k.v, Acc::c2);
                a.0.extend([Atom::G1(k.g1_gen), Atom::G2(k.g2_gen), Atom::Gt(k.gt_gen)]);
            }
            Obj::C1(c) => a.c1(c),
            Obj::C2(c) => a.c2(c),
            Obj::K1(k) => {
                a.list(&k.coms, Acc::c1);
                a.mat(&rand_of1(k));
            }
            Obj::K2(k) => {
                a.list(&k.coms, Acc::c2);
                a.mat(&rand_of2(k));
            }
            Obj::Pf(p) => a.pf(p, &rand_of_proof(p)),
            Obj::P(q) => {
                a.list(&q.a_consts, |s, x| s.0.push(Atom::G1(*x)));
                a.list(&q.b_consts, |s, x| s.0.push(Atom::G2(*x)));
                a.mat(&q.gamma);
                a.0.push(Atom::Gt(q.target));
            }
            Obj::M1(q) => {
                a.list(&q.a_consts, |s, x| s.0.push(Atom::G1(*x)));
                a.list(&q.b_consts, Acc::f);
                a.mat(&q.gamma);
                a.0.push(Atom::G1(q.target));
            }
            Obj::M2(q) => {
                a.list(&q.a_consts, Acc::f);
                a.list(&q.b_consts, |s, x| s.0.push(Atom::G2(*x)));
                a.mat(&q.gamma);
                a.0.push(Atom::G2(q.target));
            }
            Obj::Q(q) => {
                a.list(&q.a_consts, Acc::f);
                a.list(&q.b_consts, Acc::f);
                a.mat(&q.gamma);
                a.0.push(Atom::F(q.target));
            }
            Obj::Tag(t) => a.0.push(Atom::Tag(t.clone())),
            Obj::VC1(v) => a.list(v, Acc::c1),
            Obj::VC2(v) => a.list(v, Acc::c2),
            Obj::VPf(v) => a.list(v, |s, p| s.pf(p, &rand_of_proof(p))),
            Obj::VTag(v) => a.list(v, |s, t| s.0.push(Atom::Tag(t.clone()))),
            Obj::Mat1(v) => a.list(v, |s, r| s.list(r, Acc::c1)),
        }
        a.0
    }
    /// Component by component, the hidden parts by their encoding and their debug output.
    pub fn same(&self, o: &Self) -> bool {
        let eq = match (self, o) {
            (Obj::K1(a), Obj::K1(b)) => a == b,
            (Obj::K2(a), Obj::K2(b)) => a == b,
            (Obj::Pf(a), Obj::Pf(b)) => a == b,
            (Obj::P(a), Obj::P(b)) => a == b,
            (Obj::M1(a), Obj::M1(b)) => a == b,
            (Obj::M2(a), Obj::M2(b)) => a == b,
            (Obj::Q(a), Obj::Q(b)) => a == b,
            (Obj::Tag(a), Obj::Tag(b)) => a == b,
            (a, b) => a.kind() == b.kind(),
        };
        eq && self.inner_debug() == o.inner_debug() && self.atoms() == o.atoms()
    }
}
pub fn rand_of_proof<E: Eng>(p: &EquProof<E>) -> Matrix<Fr<E>> {
    let b = ser(p);
    let mut r = &b[..];
    let _: Vec<Com2<E>> = CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap();
    let _: Vec<Com1<E>> = CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap();
    let _: EquType = CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap();
    CanonicalDeserialize::deserialize_uncompressed_unchecked(&mut r).unwrap()
}

fn two<E: Eng>(r: &mut StdRng, p: &mut Pool<Fr<E>>) -> P2<Fr<E>> {
    (p.next(r), p.next(r))
}
/// An object of the given type with `size` deciding the lengths of its lists.
pub fn build<E: Eng>(r: &mut StdRng, k: OKind, size: usize) -> Obj<E> {
    let rc = {
        let kind = [Kind::Binding, Kind::Hiding, Kind::Arbitrary][pick(r, 3)];
        gen::crs::<Fr<E>>(r, kind)
    };
    let mut p = Pool::new(r, &crs_special(&rc));
    // Few distinct points on an expensive engine.
    let len = |r: &mut StdRng| r.gen_range(0..=size);
    let com1s = |r: &mut StdRng, p: &mut Pool<Fr<E>>, n: usize| -> Vec<Com1<E>> { (0..n).map(|_| l1::<E>(&two::<E>(r, p))).collect() };
    let com2s = |r: &mut StdRng, p: &mut Pool<Fr<E>>, n: usize| -> Vec<Com2<E>> { (0..n).map(|_| l2::<E>(&two::<E>(r, p))).collect() };
    let mat = |r: &mut StdRng, p: &mut Pool<Fr<E>>, m: usize, n: usize| -> Matrix<Fr<E>> { (0..m).map(|_| p.vec(r, n)).collect() };
    let tag = |r: &mut StdRng| TYPES[pick(r, 4)].equ();
    let eq = |r: &mut StdRng, p: &mut Pool<Fr<E>>, ty: Ty, m: usize, n: usize| REq { ty, a: p.vec(r, n), b: p.vec(r, m), gamma: mat(r, p, m, n), t: p.next(r) };
    let pf = |r: &mut StdRng, p: &mut Pool<Fr<E>>, a: usize, b: usize, tag: EquType| {
        let (x, y) = (r.gen_range(0..3), r.gen_range(0..3));
        equ_with(com2s(r, p, a), com1s(r, p, b), tag, &mat(r, p, x, y))
    };
    match k {
        OKind::Crs => {
            let mut c = lift_crs::<E>(&rc);
            if coin(r, 1, 4) {
                let (a, b) = (len(r), len(r));
                c.u = com1s(r, &mut p, a);
                c.v = com2s(r, &mut p, b);
                c.g1_gen = E::g1(&p.next(r));
                c.g2_gen = E::g2(&p.next(r));
                c.gt_gen = E::gt(&p.next(r));
            }
            Obj::Crs(c)
        }
        OKind::C1 => Obj::C1(l1::<E>(&two::<E>(r, &mut p))),
        OKind::C2 => Obj::C2(l2::<E>(&two::<E>(r, &mut p))),
        OKind::K1 => {
            let n = len(r);
            let c = com1s(r, &mut p, n);
            let w = r.gen_range(0..3);
            Obj::K1(com1_with(c, &mat(r, &mut p, n, w)))
        }
        OKind::K2 => {
            let n = len(r);
            let c = com2s(r, &mut p, n);
            let w = r.gen_range(0..3);
            Obj::K2(com2_with(c, &mat(r, &mut p, n, w)))
        }
        OKind::Pf => {
            let (a, b) = if coin(r, 1, 3) { (len(r), len(r)) } else { (1 + pick(r, 2), 1 + pick(r, 2)) };
            let t = tag(r);
            Obj::Pf(pf(r, &mut p, a, b, t))
        }
        OKind::P | OKind::M1 | OKind::M2 | OKind::Q => {
            let (m, n) = (len(r), len(r));
            let ty = match k {
                OKind::P => Ty::P,
                OKind::M1 => Ty::M1,
                OKind::M2 => Ty::M2,
                _ => Ty::Q,
            };
            let q = eq(r, &mut p, ty, m, n);
            match LEq::<E>::lift(&q) {
                LEq::P(x) => Obj::P(x),
                LEq::M1(x) => Obj::M1(x),
                LEq::M2(x) => Obj::M2(x),
                LEq::Q(x) => Obj::Q(x),
            }
        }
        OKind::Tag => Obj::Tag(tag(r)),
        OKind::VC1 => {
            let n = len(r);
            Obj::VC1(com1s(r, &mut p, n))
        }
        OKind::VC2 => {
            let n = len(r);
            Obj::VC2(com2s(r, &mut p, n))
        }
        OKind::VPf => {
            let n = len(r).min(3);
            Obj::VPf(
                (0..n)
                    .map(|_| {
                        let t = tag(r);
                        pf(r, &mut p, 1, 2, t)
                    })
                    .collect(),
            )
        }
        OKind::VTag => Obj::VTag((0..len(r)).map(|_| tag(r)).collect()),
        OKind::Mat1 => {
            let (m, n) = (len(r).min(4), len(r).min(4));
            Obj::Mat1((0..m).map(|_| com1s(r, &mut p, n)).collect())
        }
    }
}
