//! C21 equality of the library's objects is exact, and copies are independent.
use gsmon::prelude::*;

/// What an object consists of: scalars, parts of fixed number, lists of any length, a type tag.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum T<F> {
    S(F),
    Tup(Vec<T<F>>),
    /// The label tells which lists hold the same sort of things, next an element of it.
    L(u8, Vec<T<F>>),
    Type(u8),
}
use T::{Tup, L, S};
#[derive(Clone, Debug)]
enum O<E: Eng> {
    C1(Com1<E>),
    C2(Com2<E>),
    CT(ComT<E>),
    K1(Commit1<E>),
    K2(Commit2<E>),
    Pf(EquProof<E>),
    CP(CProof<E>),
    P(PPE<E>),
    M1(MSMEG1<E>),
    M2(MSMEG2<E>),
    Q(QuadEqu<E>),
    Tag(EquType),
}
const KIND: [&str; 12] = ["Com1", "Com2", "ComT", "Commit1", "Commit2", "EquProof", "CProof", "PPE", "MSMEG1", "MSMEG2", "QuadEqu", "EquType"];
/// Both operators, both directions.
fn equal<E: Eng>(a: &O<E>, b: &O<E>) -> [bool; 4] {
    macro_rules! each { ($($v:ident),*) => { match (a, b) { $( (O::$v(x), O::$v(y)) => [x == y, y == x, !(x != y), !(y != x)], )* _ => unreachable!() } } }
    each!(C1, C2, CT, K1, K2, Pf, CP, P, M1, M2, Q, Tag)
}
fn bytes<E: Eng>(a: &O<E>) -> Vec<u8> {
    match a {
        O::C1(x) => ser(x),
        O::C2(x) => ser(x),
        O::CT(x) => [x.0, x.1, x.2, x.3].iter().flat_map(ser).collect(),
        O::K1(x) => ser(x),
        O::K2(x) => ser(x),
        O::Pf(x) => ser(x),
        O::CP(x) => cproof_bytes(x),
        O::P(x) => ser(x),
        O::M1(x) => ser(x),
        O::M2(x) => ser(x),
        O::Q(x) => ser(x),
        O::Tag(x) => ser(x),
    }
}
impl<F: PrimeField> T<F> {
    fn s(&self) -> F {
        match self {
            S(x) => *x,
            _ => unreachable!(),
        }
    }
    fn l(&self) -> &[T<F>] {
        match self {
            L(_, v) | Tup(v) => v,
            _ => unreachable!(),
        }
    }
    fn ss(&self) -> Vec<F> {
        self.l().iter().map(|x| x.s()).collect()
    }
    fn sss(&self) -> Vec<Vec<F>> {
        self.l().iter().map(|x| x.ss()).collect()
    }
    fn pair(&self) -> P2<F> {
        (self.l()[0].s(), self.l()[1].s())
    }
    fn pairs(&self) -> Vec<P2<F>> {
        self.l().iter().map(|x| x.pair()).collect()
    }
}
fn lift<E: Eng>(k: usize, t: &T<Fr<E>>) -> O<E> {
    let p = |j: usize| &t.l()[j];
    let k1 = |t: &T<Fr<E>>| com1_with::<E>(l1s::<E>(&t.l()[0].pairs()), &t.l()[1].sss());
    let k2 = |t: &T<Fr<E>>| com2_with::<E>(l2s::<E>(&t.l()[0].pairs()), &t.l()[1].sss());
    let ty = |t: &T<Fr<E>>| match t {
        T::Type(j) => TYPES[*j as usize].equ(),
        _ => unreachable!(),
    };
    let pf = |t: &T<Fr<E>>| equ_with::<E>(l2s::<E>(&t.l()[0].pairs()), l1s::<E>(&t.l()[1].pairs()), ty(&t.l()[2]), &t.l()[3].sss());
    let eq = |t: &T<Fr<E>>, ty: Ty| LEq::<E>::lift(&REq { ty, a: t.l()[0].ss(), b: t.l()[1].ss(), gamma: t.l()[2].sss(), t: t.l()[3].s() });
    match k {
        0 => O::C1(l1::<E>(&t.pair())),
        1 => O::C2(l2::<E>(&t.pair())),
        2 => O::CT(ComT(E::gt(&p(0).s()), E::gt(&p(1).s()), E::gt(&p(2).s()), E::gt(&p(3).s()))),
        3 => O::K1(k1(t)),
        4 => O::K2(k2(t)),
        5 => O::Pf(pf(t)),
        6 => O::CP(CProof { xcoms: k1(p(0)), ycoms: k2(p(1)), equ_proofs: p(2).l().iter().map(pf).collect() }),
        7..=10 => match eq(t, TYPES[k - 7]) {
            LEq::P(x) => O::P(x),
            LEq::M1(x) => O::M1(x),
            LEq::M2(x) => O::M2(x),
            LEq::Q(x) => O::Q(x),
        },
        _ => O::Tag(ty(t)),
    }
}
fn make<F: PrimeField>(r: &mut StdRng, k: usize, size: usize) -> T<F> {
    let mut p = Pool::<F>::new(r, &[]);
    let s = |r: &mut StdRng, p: &mut Pool<F>| S(p.next(r));
    let tup = |r: &mut StdRng, p: &mut Pool<F>, n: usize| Tup((0..n).map(|_| s(r, p)).collect());
    let pairs = |r: &mut StdRng, p: &mut Pool<F>, n: usize| L(0, (0..n).map(|_| tup(r, p, 2)).collect());
    let list = |r: &mut StdRng, p: &mut Pool<F>, n: usize| L(1, (0..n).map(|_| s(r, p)).collect());
    let mat = |r: &mut StdRng, p: &mut Pool<F>, m: usize, n: usize| L(2, (0..m).map(|_| list(r, p, n)).collect());
    let ty = |r: &mut StdRng| T::Type(pick(r, 4) as u8);
    let com = |r: &mut StdRng, p: &mut Pool<F>| {
        let (n, w) = (r.gen_range(0..=size), 1 + pick(r, 2));
        Tup(vec![pairs(r, p, n), mat(r, p, n, w)])
    };
    let pf = |r: &mut StdRng, p: &mut Pool<F>| {
        let (a, b, x, y) = (1 + pick(r, 2), 1 + pick(r, 2), pick(r, 3), 1 + pick(r, 2));
        Tup(vec![pairs(r, p, a), pairs(r, p, b), ty(r), mat(r, p, x, y)])
    };
    match k {
        0 | 1 => tup(r, &mut p, 2),
        2 => tup(r, &mut p, 4),
        3 | 4 => com(r, &mut p),
        5 => pf(r, &mut p),
        6 => {
            let n = [1, 1, 0, 2, 3][pick(r, 5)];
            Tup(vec![com(r, &mut p), com(r, &mut p), L(3, (0..n).map(|_| pf(r, &mut p)).collect())])
        }
        7..=10 => {
            let (m, n) = (r.gen_range(0..=size), r.gen_range(0..=size));
            Tup(vec![list(r, &mut p, n), list(r, &mut p, m), mat(r, &mut p, m, n), s(r, &mut p)])
        }
        _ => ty(r),
    }
}
/// Paths to all nodes.
fn paths<F: Clone>(t: &T<F>, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, u8)>) {
    let k = match t {
        S(_) => 0,
        T::Type(_) => 1,
        L(..) => 2,
        Tup(_) => 3,
    };
    out.push((at.clone(), k));
    if let L(_, v) | Tup(v) = t {
        for (j, x) in v.iter().enumerate() {
            at.push(j);
            paths(x, at, out);
            at.pop();
        }
    }
}
fn node<'a, F>(t: &'a mut T<F>, path: &[usize]) -> &'a mut T<F> {
    let mut n = t;
    for j in path {
        n = match n {
            L(_, v) | Tup(v) => &mut v[*j],
            _ => unreachable!(),
        };
    }
    n
}
/// Something that may go unnoticed by a comparison.
fn change<F: PrimeField>(r: &mut StdRng, t: &mut T<F>) -> &'static str {
    let mut all = vec![];
    paths(t, &mut vec![], &mut all);
    // Scalars are many, lists are few.
    let want = [0, 0, 0, 1, 2, 2, 2, 3][pick(r, 8)];
    let of: Vec<_> = all.iter().filter(|(_, k)| *k == want).map(|(p, _)| p.clone()).collect();
    if of.is_empty() {
        return change_any(r, t, &all);
    }
    let path = if coin(r, 1, 4) { of[of.len() - 1].clone() } else { of[pick(r, of.len())].clone() };
    at(r, t, &path, &all)
}
fn change_any<F: PrimeField>(r: &mut StdRng, t: &mut T<F>, all: &[(Vec<usize>, u8)]) -> &'static str {
    let p = all[pick(r, all.len())].0.clone();
    at(r, t, &p, all)
}
fn at<F: PrimeField>(r: &mut StdRng, t: &mut T<F>, path: &[usize], all: &[(Vec<usize>, u8)]) -> &'static str {
    // Two scalars or lists of the same sort change places.
    if coin(r, 1, 5) {
        let other = all[pick(r, all.len())].0.clone();
        let (a, b) = (node(t, path).clone(), node(t, &other).clone());
        let alike = match (&a, &b) {
            (S(_), S(_)) => true,
            (L(x, _), L(y, _)) => x == y && !other.starts_with(path) && !path.starts_with(&other),
            _ => false,
        };
        if alike {
            if let (L(_, v), true) = (&a, coin(r, 1, 2)) {
                // The last element of one becomes the first of the other.
                if let Some(x) = v.last().cloned() {
                    if let L(_, v) = node(t, path) {
                        v.pop();
                    }
                    if let L(_, v) = node(t, &other) {
                        v.insert(0, x);
                    }
                    return "an element moved to another list";
                }
            }
            *node(t, path) = b;
            *node(t, &other) = a;
            return "two parts exchanged";
        }
    }
    let e = gen::elem::<F>(r);
    let d = gen::odd::<F>(r);
    match node(t, path) {
        S(x) => {
            *x = match pick(r, 6) {
                0 => -*x,
                1 => F::ZERO,
                2 => e,
                3 => *x + F::ONE,
                _ => *x + d,
            };
            "a value changed"
        }
        T::Type(j) => {
            *j = pick(r, 4) as u8;
            "the type changed"
        }
        L(_, v) if v.is_empty() => "nothing",
        L(_, v) => {
            let (j, k) = (pick(r, v.len()), pick(r, v.len()));
            match pick(r, 9) {
                0 | 1 => {
                    v.pop();
                    "a list without its last element"
                }
                2 => {
                    v.remove(j);
                    "a list without an element"
                }
                3 => {
                    v.push(v[v.len() - 1].clone());
                    "the last element of a list repeated"
                }
                4 => {
                    v.push(v[j].clone());
                    "an element of a list repeated"
                }
                5 => {
                    v.swap(j, k);
                    "two elements of a list exchanged"
                }
                6 => {
                    v.reverse();
                    "a list reversed"
                }
                7 => {
                    v.clear();
                    "a list emptied"
                }
                _ => {
                    v[j] = v[k].clone();
                    "an element of a list copied onto another"
                }
            }
        }
        Tup(v) => {
            let (j, k) = (pick(r, v.len()), pick(r, v.len()));
            match (&v[j], &v[k]) {
                (S(_), S(_)) => {
                    v.swap(j, k);
                    "two parts exchanged"
                }
                (L(a, _), L(b, _)) if a == b => {
                    v.swap(j, k);
                    "two parts exchanged"
                }
                // Values across components.
                (L(2, _), _) => {
                    let L(_, rows) = &mut v[j] else { unreachable!() };
                    // The same values in rows of another length.
                    let flat: Vec<T<F>> = rows.iter().flat_map(|x| x.l().to_vec()).collect();
                    let w = 1 + pick(r, flat.len().max(1));
                    *rows = flat.chunks(w).map(|x| L(1, x.to_vec())).collect();
                    "the same values in rows of another length"
                }
                _ => "nothing",
            }
        }
    }
}
fn compare<E: Eng>(c: &Case, k: usize, a: &T<Fr<E>>, b: &T<Fr<E>>, what: &str) -> bool {
    let (x, y) = (lift::<E>(k, a), lift::<E>(k, b));
    let got = c.must("==", || equal(&x, &y));
    let want = a == b;
    c.count(&format!("{} {}", KIND[k], if want { "equal" } else { "different" }));
    c.seen(&(k, a, b));
    c.check(got == [want; 4], || {
        format!("{} on {}: ==, == the other way round, not != and not != the other way round give {got:?} for {} values ({what}): {x:?} and {y:?}", KIND[k], E::name(), if want { "equal" } else { "different" })
    })
}
/// Changing a copy leaves the original as it was, and the other way round.
fn copies<E: Eng>(c: &mut Case, k: usize, a: &T<Fr<E>>) {
    let mut x = lift::<E>(k, a);
    let enc = bytes(&x);
    let mut y = c.must("clone", || x.clone());
    c.check(bytes(&y) == enc && equal(&x, &y) == [true; 4], || format!("a clone differs: {x:?} and {y:?}"));
    let e = gen::elem::<Fr<E>>(&mut c.rng);
    let wreck = |o: &mut O<E>| {
        let (g1, g2) = (l1::<E>(&(e, e)), l2::<E>(&(e, e)));
        match o {
            O::C1(x) => *x += g1,
            O::C2(x) => *x += g2,
            O::CT(x) => *x = -*x + *x,
            O::K1(x) => x.append(&mut com1_with(vec![g1], &vec![vec![e]])),
            O::K2(x) => x.append(&mut com2_with(vec![g2], &vec![vec![e]])),
            O::Pf(x) => {
                x.pi.push(g2);
                x.theta.clear();
                x.equ_type = EquType::Quadratic;
            }
            O::CP(x) => {
                x.xcoms.coms.push(g1);
                x.ycoms.coms.clear();
                x.equ_proofs.clear();
            }
            O::P(x) => {
                x.a_consts.push(E::g1(&e));
                x.gamma.iter_mut().for_each(|r| r.clear());
            }
            O::M1(x) => {
                x.b_consts.push(e);
                x.gamma.clear();
            }
            O::M2(x) => {
                x.a_consts.push(e);
                x.gamma.clear();
            }
            O::Q(x) => {
                x.target += e;
                x.gamma.push(vec![e]);
            }
            O::Tag(x) => *x = EquType::Quadratic,
        }
    };
    if coin(&mut c.rng, 1, 2) {
        c.must("changing a copy", || wreck(&mut y));
        c.check(bytes(&x) == enc, || format!("an object changed along with its copy: {x:?}"));
    } else {
        c.must("changing an original", || wreck(&mut x));
        drop(x);
        c.check(bytes(&y) == enc, || format!("a copy changed along with its original: {y:?}"));
    }
}
fn random<E: Eng>(mon: &Mon, q: u64, t: u64, size: usize) {
    mon.stage(&format!("objects and their variations/{}", E::name()), q, t, |c| {
        let k = c.idx as usize % 12;
        let size = if coin(&mut c.rng, 1, 20) { 8 * size } else if coin(&mut c.rng, 1, 300) { 70 } else { size };
        let a = make::<Fr<E>>(&mut c.rng, k, size);
        if !compare::<E>(c, k, &a, &a, "the same") {
            return;
        }
        for _ in 0..4 {
            let mut b = a.clone();
            let mut what = change(&mut c.rng, &mut b);
            if coin(&mut c.rng, 1, 6) {
                what = change(&mut c.rng, &mut b);
            }
            c.count(what);
            compare::<E>(c, k, &a, &b, what);
        }
        if coin(&mut c.rng, 1, 4) {
            copies::<E>(c, k, &a);
        }
        c.sample(|| format!("{} on {}: {a:?}", KIND[k], E::name()));
    });
}
/// All pairs of small objects.
fn pairs<E: Eng>(mon: &Mon, r: u64) {
    let f = Fr::<E>::from;
    let all = |w: u32| (0..r.pow(w)).map(move |x| (0..w).map(|j| f(x / r.pow(j) % r)).collect::<Vec<_>>()).collect::<Vec<_>>();
    let s = |x: &[Fr<E>]| x.iter().map(|x| S(*x)).collect::<Vec<_>>();
    let mut list: Vec<(usize, T<Fr<E>>)> = vec![];
    for v in all(2) {
        for k in [0, 1] {
            list.push((k, Tup(s(&v))));
        }
        for k in 7..11 {
            list.push((k, Tup(vec![L(1, vec![]), L(1, vec![S(v[0])]), L(2, vec![L(1, vec![])]), S(v[1])])));
            list.push((k, Tup(vec![L(1, vec![S(v[0])]), L(1, vec![]), L(2, vec![]), S(v[1])])));
        }
    }
    for v in all(4) {
        list.push((2, Tup(s(&v))));
        for k in [3, 4] {
            list.push((k, Tup(vec![L(0, vec![Tup(s(&v[..2]))]), L(2, vec![L(1, s(&v[2..]))])])));
        }
        for k in 7..11 {
            list.push((k, Tup(vec![L(1, vec![S(v[0])]), L(1, vec![S(v[1])]), L(2, vec![L(1, vec![S(v[2])])]), S(v[3])])));
        }
    }
    for v in all(2) {
        for k in [3, 4] {
            list.push((k, Tup(vec![L(0, vec![]), L(2, vec![L(1, s(&v))])])));
            list.push((k, Tup(vec![L(0, vec![]), L(2, v.iter().map(|x| L(1, vec![S(*x)])).collect())])));
            list.push((k, Tup(vec![L(0, vec![Tup(s(&v))]), L(2, vec![])])));
            list.push((k, Tup(vec![L(0, vec![Tup(s(&v))]), L(2, vec![L(1, vec![])])])));
        }
        for j in 0..4 {
            for (a, b) in [(0, 1), (1, 0), (1, 1)] {
                let e = |n: usize, x: Fr<E>| L(0, vec![Tup(vec![S(x), S(x)]); n]);
                list.push((5, Tup(vec![e(a, v[0]), e(b, v[1]), T::Type(j), L(2, vec![])])));
                list.push((5, Tup(vec![e(a, v[0]), e(b, v[1]), T::Type(j), L(2, vec![L(1, vec![S(v[0])])])])));
            }
        }
    }
    (0..4).for_each(|j| list.push((11, T::Type(j))));
    mon.stage_all(&format!("all pairs of small objects/{}", E::name()), list.len() as u64, |c| {
        let (k, a) = &list[c.idx as usize];
        for (_, b) in list.iter().filter(|(j, _)| j == k) {
            compare::<E>(c, *k, a, b, "small objects");
        }
    });
}

const RULE: &str = "Each case builds an object of one of twelve types from a description (exponents, lists, matrices, type tag), varies the description by one or two small changes (a value, a list's length or order, values moved between lists, rows of another length, recorded randomness, type tag) and compares ==, != in both directions with the equality of the descriptions; copies are changed and the original compared byte by byte. Distinct = distinct pairs compared.";
fn check(mon: &Mon) {
    random::<E59>(mon, 300_000, 8_000_000, 4);
    random::<E3>(mon, 40_000, 1_000_000, 3);
    random::<EW>(mon, 20_000, 600_000, 4);
    random::<Bls>(mon, 1_200, 40_000, 2);
    pairs::<E3>(mon, 3);
    pairs::<E5>(mon, 5);
}
fn main() {
    gsmon::run("C21", RULE, check)
}
