//! C16 statements of several equations share one set of commitments.
use gsmon::prelude::*;

/// Four shared lists of variables, on discrete logarithms.
struct Lists<F> {
    xg: Vec<F>,
    xs: Vec<F>,
    yg: Vec<F>,
    ys: Vec<F>,
}
impl<F: PrimeField> Lists<F> {
    fn x(&self, ty: Ty) -> &[F] {
        if ty.xg() {
            &self.xg
        } else {
            &self.xs
        }
    }
    fn y(&self, ty: Ty) -> &[F] {
        if ty.yg() {
            &self.yg
        } else {
            &self.ys
        }
    }
}
struct Coms<E: Eng> {
    xg: Commit1<E>,
    xs: Commit1<E>,
    yg: Commit2<E>,
    ys: Commit2<E>,
}
impl<E: Eng> Coms<E> {
    fn x(&self, ty: Ty) -> &Commit1<E> {
        if ty.xg() {
            &self.xg
        } else {
            &self.xs
        }
    }
    fn y(&self, ty: Ty) -> &Commit2<E> {
        if ty.yg() {
            &self.yg
        } else {
            &self.ys
        }
    }
    fn bytes(&self) -> Vec<u8> {
        [ser(&self.xg), ser(&self.xs), ser(&self.yg), ser(&self.ys)].concat()
    }
}
fn slice<E: Eng>(v: &Vars<E>, r: std::ops::Range<usize>) -> Vars<E> {
    Vars {
        s: v.s[r.clone()].to_vec(),
        g1: if v.g1.is_empty() { vec![] } else { v.g1[r.clone()].to_vec() },
        g2: if v.g2.is_empty() { vec![] } else { v.g2[r].to_vec() },
    }
}
macro_rules! committing {
    ($name:ident, $com:ident, $batch:ident, $single:ident, $singles:ident) => {
        /// In one batch, one by one, or in parts that are appended.
        fn $name<E: Eng>(c: &mut Case, ty: Ty, v: &Vars<E>, k: &CRS<E>, rng: &mut LogRng) -> $com<E> {
            let n = v.s.len();
            match pick(&mut c.rng, 3) {
                0 => {
                    c.count("committed in one batch");
                    c.must("batch commit", || $batch(ty, v, k, rng))
                }
                1 => {
                    c.count("committed one by one");
                    c.must("commit", || $singles(ty, v, k, rng))
                }
                _ => {
                    c.count("committed in parts");
                    let mut at = 0;
                    let mut acc: Option<$com<E>> = None;
                    while at < n {
                        let len = 1 + pick(&mut c.rng, n - at);
                        let part = slice(v, at..at + len);
                        let mut p = if len == 1 && coin(&mut c.rng, 1, 2) {
                            c.must("commit", || $single(ty, &part, 0, k, rng))
                        } else {
                            c.must("batch commit", || $batch(ty, &part, k, rng))
                        };
                        match &mut acc {
                            None => acc = Some(p),
                            Some(a) => c.must("append", || a.append(&mut p)),
                        }
                        at += len;
                    }
                    acc.unwrap()
                }
            }
        }
    };
}
committing!(com_x, Commit1, batch_x, single_x, singles_x);
committing!(com_y, Commit2, batch_y, single_y, singles_y);

fn all_coms<E: Eng>(c: &mut Case, l: &Lists<Fr<E>>, k: &CRS<E>, seed: u64) -> Coms<E> {
    let mut rng = LogRng::new(seed);
    let xg = com_x(c, Ty::P, &vars_x::<E>(Ty::P, &l.xg), k, &mut rng);
    let yg = com_y(c, Ty::P, &vars_y::<E>(Ty::P, &l.yg), k, &mut rng);
    let xs = com_x(c, Ty::Q, &vars_x::<E>(Ty::Q, &l.xs), k, &mut rng);
    let ys = com_y(c, Ty::Q, &vars_y::<E>(Ty::Q, &l.ys), k, &mut rng);
    Coms { xg, xs, yg, ys }
}
fn an_equation<F: PrimeField>(r: &mut StdRng, ty: Ty, l: &Lists<F>, special: &[F]) -> REq<F> {
    let (x, y) = (l.x(ty), l.y(ty));
    let mut p = Pool::new(r, special);
    p.past.extend(x.iter().chain(y).take(6));
    let a = p.vec(r, y.len());
    p.style = pick(r, 8);
    let b = p.vec(r, x.len());
    let gamma = gen::gamma(r, x.len(), y.len(), &mut p);
    let mut q = REq { ty, a, b, gamma, t: F::ZERO };
    if coin(r, 1, 3) {
        let want = if coin(r, 1, 4) { F::ZERO } else { gen::odd(r) };
        gen::aim(r, &mut q, x, y, want);
    }
    q.t = q.eval(x, y);
    q
}
/// The equation changed in one place.
fn near<F: PrimeField>(r: &mut StdRng, q: &REq<F>) -> (REq<F>, &'static str) {
    let mut o = q.clone();
    let d: F = gen::delta(r);
    let what = match pick(r, 8) {
        0 => {
            let k = pick(r, o.a.len());
            o.a[k] += d;
            "a constant on side 1"
        }
        1 => {
            let k = pick(r, o.b.len());
            o.b[k] += d;
            "a constant on side 2"
        }
        2 => {
            let (i, j) = (pick(r, o.b.len()), pick(r, o.a.len()));
            o.gamma[i][j] += d;
            "an exponent"
        }
        3 => {
            o.a.rotate_left(1);
            o.gamma.iter_mut().for_each(|g| g.rotate_left(1));
            "the order of the second side's variables"
        }
        4 => {
            o.b.rotate_left(1);
            o.gamma.rotate_left(1);
            "the order of the first side's variables"
        }
        5 => {
            // The sign or a multiple of one part or of several.
            let s = if coin(r, 1, 2) { -F::ONE } else { d };
            let w = 1 + pick(r, 15);
            o.a.iter_mut().filter(|_| w & 1 > 0).for_each(|x| *x *= s);
            o.b.iter_mut().filter(|_| w & 2 > 0).for_each(|x| *x *= s);
            o.gamma.iter_mut().flatten().filter(|_| w & 4 > 0).for_each(|x| *x *= s);
            if w & 8 > 0 {
                o.t *= s;
            }
            "a factor of some parts"
        }
        _ => {
            o.t += d;
            "the target"
        }
    };
    (o, what)
}
fn judge<E: Eng>(c: &Case, rc: &RCrs<Fr<E>>, k: &CRS<E>, q: &REq<Fr<E>>, p: &CProof<E>, what: &dyn Fn() -> String) {
    let expect = q.accepts(rc, &read_proof::<E>(p));
    let got = LEq::<E>::lift(q).verify(p, k);
    c.count(if expect { "combinations to accept" } else { "combinations to reject" });
    c.check(
        match &got {
            Verdict::Accept => expect,
            Verdict::Reject => !expect,
            Verdict::Panic(_) => false,
        },
        || format!("verdict {got:?}, the verification equation {}: {}; equation {q:?}, CRS {rc:?}", if expect { "holds" } else { "does not hold" }, what()),
    );
}
fn statement<E: Eng>(c: &mut Case, max: usize) {
    let kind = [Kind::Binding, Kind::Binding, Kind::Hiding][pick(&mut c.rng, 3)];
    let rc = gen::crs::<Fr<E>>(&mut c.rng, kind);
    let key = lift_crs::<E>(&rc);
    let sp = crs_special(&rc);
    let d = [gen::dims_wide(&mut c.rng, max), gen::dims(&mut c.rng, max)];
    let same = coin(&mut c.rng, 1, 2);
    let (m1, n1) = d[0];
    let (m2, n2) = if same { d[0] } else { d[1] };
    let mut p = Pool::new(&mut c.rng, &sp);
    let r = &mut c.rng;
    let (xg, xs, yg, ys) = (p.vec(r, m1), p.vec(r, m2), p.vec(r, n1), p.vec(r, n2));
    let l = Lists { xg, xs, yg, ys };
    let s = c.sub(1);
    let coms = all_coms::<E>(c, &l, &key, s);
    let before = coms.bytes();
    let count = 2 + pick(&mut c.rng, 5);
    let mut eqs = vec![];
    for k in 0..count {
        let ty = if coin(&mut c.rng, 1, 2) { TYPES[k % 4] } else { TYPES[pick(&mut c.rng, 4)] };
        let mut q = if k > 0 && coin(&mut c.rng, 1, 4) {
            // A neighbour of an earlier equation, with its own target.
            let e: &REq<Fr<E>> = &eqs[pick(&mut c.rng, k)];
            let (mut q, _) = near(&mut c.rng, e);
            q.t = q.eval(l.x(q.ty), l.y(q.ty));
            q
        } else {
            an_equation(&mut c.rng, ty, &l, &sp)
        };
        if coin(&mut c.rng, 1, 8) {
            q.t += gen::nz::<Fr<E>>(&mut c.rng);
        }
        eqs.push(q);
    }
    c.seen(&(&eqs, &rc, &l.xg, &l.xs, &l.yg, &l.ys));
    c.count(&format!("{} statements", E::name()));
    c.sample(|| format!("{} equations of types {:?} over {m1}+{m2} X and {n1}+{n2} Y variables, {kind:?} CRS", eqs.len(), eqs.iter().map(|q| q.ty.name()).collect::<Vec<_>>()));
    // In any order, with one generator.
    let mut order: Vec<usize> = (0..count).collect();
    for k in (1..count).rev() {
        order.swap(k, pick(&mut c.rng, k + 1));
    }
    let mut rng = LogRng::new(c.sub(2));
    let mut proofs: Vec<Option<CProof<E>>> = vec![None; count];
    for k in order {
        let q = &eqs[k];
        let (x, y) = (vars_x::<E>(q.ty, l.x(q.ty)), vars_y::<E>(q.ty, l.y(q.ty)));
        let pf = c.must("prove", || LEq::<E>::lift(q).prove(&x, &y, coms.x(q.ty), coms.y(q.ty), &key, &mut rng));
        proofs[k] = Some(CProof { xcoms: coms.x(q.ty).clone(), ycoms: coms.y(q.ty).clone(), equ_proofs: vec![pf] });
    }
    let proofs: Vec<CProof<E>> = proofs.into_iter().flatten().collect();
    c.check(coms.bytes() == before, || "the shared commitments were changed by proving".into());
    for (q, p) in eqs.iter().zip(&proofs) {
        let sat = q.holds(l.x(q.ty), l.y(q.ty));
        let v = LEq::<E>::lift(q).verify(p, &key);
        if sat {
            c.check(v == Verdict::Accept, || format!("a satisfied {} of a statement of {count} equations gives {v:?}: {q:?}, variables {:?} {:?}, CRS {rc:?}", q.ty.name(), l.x(q.ty), l.y(q.ty)));
        } else if rc.binding() {
            c.check(v != Verdict::Accept, || format!("an unsatisfied {} of a statement is accepted: {q:?}, variables {:?} {:?}, CRS {rc:?}", q.ty.name(), l.x(q.ty), l.y(q.ty)));
        }
        judge(c, &rc, &key, q, p, &|| "its own proof".into());
        for _ in 0..4 {
            let (q2, what) = near(&mut c.rng, q);
            judge(c, &rc, &key, &q2, p, &|| format!("a proof of {q:?}, with an equation that differs in {what}"));
        }
    }
    // Every proof with every equation.
    for (i, q) in eqs.iter().enumerate() {
        for (j, p) in proofs.iter().enumerate() {
            if i == j {
                continue;
            }
            let q2 = &eqs[j];
            if q.ty != q2.ty {
                // The commitments do not fit either, but for coincidences of the dimensions; and with those that do.
                for p in [p.clone(), CProof { xcoms: coms.x(q.ty).clone(), ycoms: coms.y(q.ty).clone(), equ_proofs: p.equ_proofs.clone() }] {
                    let v = LEq::<E>::lift(q).verify(&p, &key);
                    c.check(v != Verdict::Accept, || format!("a proof of a {} is accepted for a {}", q2.ty.name(), q.ty.name()));
                }
            } else {
                judge(c, &rc, &key, q, p, &|| format!("the proof of equation {j} of the same statement, {q2:?}"));
            }
        }
    }
    // Other commitments to the same values.
    let s = c.sub(3);
    let coms2 = all_coms::<E>(c, &l, &key, s);
    for (q, p) in eqs.iter().zip(&proofs) {
        let (x, y) = (coms.x(q.ty).clone(), coms.y(q.ty).clone());
        let (x2, y2) = (coms2.x(q.ty).clone(), coms2.y(q.ty).clone());
        let mut one = x.clone();
        let k = pick(&mut c.rng, one.coms.len());
        one.coms[k] = x2.coms[k];
        for (xcoms, ycoms, what) in [(x2.clone(), y2.clone(), "all commitments"), (x2, y.clone(), "X commitments"), (x, y2, "Y commitments"), (one, y, "one X commitment")] {
            let t = CProof { xcoms, ycoms, equ_proofs: p.equ_proofs.clone() };
            judge(c, &rc, &key, q, &t, &|| format!("{what} replaced by others to the same values"));
        }
        // And one list's commitments in another order.
        if p.xcoms.coms.len() > 1 {
            let mut t = p.clone();
            t.xcoms.coms.rotate_left(1);
            judge(c, &rc, &key, q, &t, &|| "X commitments rotated".into());
        }
        if p.ycoms.coms.len() > 1 {
            let mut t = p.clone();
            t.ycoms.coms.swap(0, 1);
            judge(c, &rc, &key, q, &t, &|| "Y commitments exchanged".into());
        }
    }
    // A proof's halves from two proofs of the same equation.
    let k = pick(&mut c.rng, count);
    let q = &eqs[k];
    let (x, y) = (vars_x::<E>(q.ty, l.x(q.ty)), vars_y::<E>(q.ty, l.y(q.ty)));
    let pf = c.must("prove again", || LEq::<E>::lift(q).prove(&x, &y, coms.x(q.ty), coms.y(q.ty), &key, &mut rng));
    let mut t = proofs[k].clone();
    t.equ_proofs = vec![pf.clone()];
    judge(c, &rc, &key, q, &t, &|| "a second proof of the same equation".into());
    t.equ_proofs[0].pi = proofs[k].equ_proofs[0].pi.clone();
    judge(c, &rc, &key, q, &t, &|| "halves of two proofs of the same equation".into());
    // Two proofs at once are not a proof of either.
    let mut t = proofs[k].clone();
    t.equ_proofs.push(pf);
    let v = LEq::<E>::lift(q).verify(&t, &key);
    c.check(v != Verdict::Accept, || "two equation proofs at once are accepted for one equation".into());
}
/// On the real curve, without logarithms: random equations, so that no coincidence makes a wrong combination valid.
fn real(mon: &Mon, q: u64, t: u64) {
    mon.stage("statements/bls12-381", q, t, |c| {
        type E = Bls;
        let s = c.sub(1);
        let key = c.must("generate_crs", || CRS::<E>::generate_crs(&mut LogRng::new(s)));
        let r = &mut c.rng;
        let mut p = Pool::random();
        let (m1, n1, m2, n2) = (1 + pick(r, 2), 1 + pick(r, 2), 1 + pick(r, 2), 1 + pick(r, 2));
        let l = Lists { xg: p.vec(r, m1), xs: p.vec(r, m2), yg: p.vec(r, n1), ys: p.vec(r, n2) };
        let coms = all_coms::<E>(c, &l, &key, s ^ 1);
        let other = all_coms::<E>(c, &l, &key, s ^ 2);
        let mut rng = LogRng::new(s ^ 3);
        let mut all = vec![];
        for k in 0..3 {
            let ty = TYPES[(c.idx as usize + k / 2) % 4];
            let (x, y) = (l.x(ty), l.y(ty));
            let r = &mut c.rng;
            let mut q = REq { ty, a: p.vec(r, y.len()), b: p.vec(r, x.len()), gamma: (0..x.len()).map(|_| p.vec(r, y.len())).collect(), t: Fr::<E>::ZERO };
            q.t = q.eval(x, y);
            let eq = LEq::<E>::lift(&q);
            let pf = c.must("prove", || eq.prove(&vars_x::<E>(ty, x), &vars_y::<E>(ty, y), coms.x(ty), coms.y(ty), &key, &mut rng));
            all.push((ty, q, eq, CProof { xcoms: coms.x(ty).clone(), ycoms: coms.y(ty).clone(), equ_proofs: vec![pf] }));
        }
        for (i, (ty, q, eq, p)) in all.iter().enumerate() {
            let v = eq.verify(p, &key);
            c.check(v == Verdict::Accept, || format!("a satisfied {} of a statement gives {v:?}: {q:?}", ty.name()));
            c.seen(q);
            for (j, o) in all.iter().enumerate() {
                if i != j {
                    let t = CProof { xcoms: p.xcoms.clone(), ycoms: p.ycoms.clone(), equ_proofs: o.3.equ_proofs.clone() };
                    let v = eq.verify(&t, &key);
                    c.check(v != Verdict::Accept, || format!("the proof of another equation is accepted ({}, {})", ty.name(), o.0.name()));
                }
            }
            let t = CProof { xcoms: other.x(*ty).clone(), ycoms: coms.y(*ty).clone(), equ_proofs: p.equ_proofs.clone() };
            let v = eq.verify(&t, &key);
            c.check(v == Verdict::Reject, || format!("{}: a proof with other commitments to the same values gives {v:?}", ty.name()));
            let (q2, what) = near(&mut c.rng, q);
            // A common factor is no difference when it comes with the same factor of the proof's randomness; here it does not.
            if q2 != *q && !q2.holds(l.x(*ty), l.y(*ty)) {
                let v = LEq::<E>::lift(&q2).verify(p, &key);
                c.check(v == Verdict::Reject, || format!("{}: a proof with an equation that differs in {what} gives {v:?}", ty.name()));
            }
        }
    });
}

const RULE: &str = "Each case commits once to shared lists of group and scalar variables (in one batch, one by one or in parts), proves 2 to 6 equations of mixed types against them, and judges every combination of equation, proof and commitments (own, neighbouring and foreign equations, other commitments to the same values, exchanged commitments, halves of two proofs) against the verification equation on discrete logarithms. Distinct = distinct statements.";
fn stage<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("statements/{}", E::name()), q, t, |c| statement::<E>(c, max));
}
fn check(mon: &Mon) {
    stage::<E59>(mon, 40_000, 1_200_000, 12);
    stage::<EW>(mon, 16_000, 400_000, 6);
    stage::<E7>(mon, 20_000, 600_000, 5);
    stage::<E3>(mon, 20_000, 600_000, 3);
    real(mon, 40, 1_500);
}
fn main() {
    gsmon::run("C16", RULE, check)
}
