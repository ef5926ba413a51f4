//! C25 zero knowledge: a simulator that has the trapdoor of a hiding CRS and no witness.
use gsmon::prelude::*;
use std::collections::HashMap;

/// Equations over four shared lists of variables: X in G1, X in Fr, Y in G2, Y in Fr.
#[derive(Clone, Debug, Hash)]
struct Statement<F> {
    qs: Vec<REq<F>>,
    dims: [usize; 4],
}
fn xi(ty: Ty) -> usize {
    !ty.xg() as usize
}
fn yi(ty: Ty) -> usize {
    2 + !ty.yg() as usize
}
type Lists<F> = [Vec<F>; 4];
impl<F: PrimeField> Statement<F> {
    /// Equations of random content over lists of the given lengths; those that no equation uses become empty.
    fn random(r: &mut StdRng, types: &[Ty], mut dims: [usize; 4], special: &[F]) -> (Self, Lists<F>) {
        let used = |k: usize| types.iter().any(|t| xi(*t) == k || yi(*t) == k);
        (0..4).filter(|k| !used(*k)).for_each(|k| dims[k] = 0);
        let mut pool = Pool::new(r, special);
        let w: Lists<F> = dims.map(|n| pool.vec(r, n));
        let qs = types
            .iter()
            .map(|ty| {
                let (mut q, _, _) = gen::equation(r, *ty, dims[xi(*ty)], dims[yi(*ty)], special);
                q.t = F::ZERO;
                q.t = q.eval(&w[xi(*ty)], &w[yi(*ty)]);
                q
            })
            .collect();
        (Statement { qs, dims }, w)
    }
    fn holds(&self, w: &Lists<F>) -> bool {
        self.qs.iter().all(|q| q.holds(&w[xi(q.ty)], &w[yi(q.ty)]))
    }
    fn draws(types: &[Ty], dims: [usize; 4]) -> usize {
        let used = |k: usize| types.iter().any(|t| xi(*t) == k || yi(*t) == k) as usize;
        (0..4).map(|k| used(k) * dims[k] * [2, 1, 2, 1][k]).sum::<usize>() + types.iter().map(|t| t.kx() * t.ky()).sum::<usize>()
    }
    /// Every witness over a tiny field.
    fn witnesses(&self, r: u64) -> Vec<Lists<F>> {
        let n: usize = self.dims.iter().sum();
        (0..r.pow(n as u32))
            .map(|mut k| {
                self.dims.map(|n| {
                    (0..n)
                        .map(|_| {
                            let v = F::from(k % r);
                            k /= r;
                            v
                        })
                        .collect()
                })
            })
            .filter(|w| self.holds(w))
            .collect()
    }
}
struct Coms<E: Eng> {
    x: [Option<Commit1<E>>; 2],
    y: [Option<Commit2<E>>; 2],
}
fn commit<E: Eng, R: Rng>(w: &Lists<Fr<E>>, k: &CRS<E>, one_by_one: bool, rng: &mut R) -> Coms<E> {
    let x = |ty: Ty, w: &[Fr<E>], rng: &mut R| {
        let v = vars_x::<E>(ty, w);
        (!w.is_empty()).then(|| if one_by_one { singles_x(ty, &v, k, rng) } else { batch_x(ty, &v, k, rng) })
    };
    let y = |ty: Ty, w: &[Fr<E>], rng: &mut R| {
        let v = vars_y::<E>(ty, w);
        (!w.is_empty()).then(|| if one_by_one { singles_y(ty, &v, k, rng) } else { batch_y(ty, &v, k, rng) })
    };
    Coms { x: [x(Ty::P, &w[0], rng), x(Ty::Q, &w[1], rng)], y: [y(Ty::P, &w[2], rng), y(Ty::Q, &w[3], rng)] }
}
impl<E: Eng> Coms<E> {
    fn of(&self, ty: Ty) -> (&Commit1<E>, &Commit2<E>) {
        (self.x[xi(ty)].as_ref().unwrap(), self.y[yi(ty) - 2].as_ref().unwrap())
    }
}
fn real<E: Eng, R: Rng>(st: &Statement<Fr<E>>, eqs: &[LEq<E>], w: &Lists<Fr<E>>, k: &CRS<E>, one_by_one: bool, rng: &mut R) -> (Coms<E>, Vec<EquProof<E>>) {
    let coms = commit(w, k, one_by_one, rng);
    let ps = eqs
        .iter()
        .zip(&st.qs)
        .map(|(e, q)| {
            let (xc, yc) = coms.of(q.ty);
            e.prove(&vars_x::<E>(q.ty, &w[xi(q.ty)]), &vars_y::<E>(q.ty, &w[yi(q.ty)]), xc, yc, k, rng)
        })
        .collect();
    (coms, ps)
}
/// An equation whose target has become a term with one more variable, which is committed to by the image of one, and
/// for which zero is an opening with the trapdoor as its randomness. All variables zero satisfy it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Extra {
    None,
    X,
    Y,
}
fn detour<F: PrimeField>(q: &REq<F>, side: Extra) -> REq<F> {
    let mut q = q.clone();
    match side {
        Extra::None => assert!(q.t.is_zero()),
        Extra::X => {
            q.b.push(-q.t);
            q.gamma.push(vec![F::ZERO; q.a.len()]);
        }
        Extra::Y => {
            q.a.push(-q.t);
            q.gamma.iter_mut().for_each(|row| row.push(F::ZERO));
        }
    }
    q.t = F::ZERO;
    q
}
/// The trapdoors: the images of one, as multiples of the first key elements.
fn trapdoors<F: PrimeField>(rc: &RCrs<F>) -> (F, F) {
    let (t1, t2) = (rc.u[1].0 * rc.u[0].0.inverse().unwrap(), rc.v[1].0 * rc.v[0].0.inverse().unwrap());
    assert!(sc2(t1, rc.u[0]) == rc.us() && sc2(t2, rc.v[0]) == rc.vs());
    (t1, t2)
}
fn simulate<E: Eng, R: Rng>(st: &Statement<Fr<E>>, sides: &[Extra], rc: &RCrs<Fr<E>>, k: &CRS<E>, one_by_one: bool, rng: &mut R) -> (Coms<E>, Vec<EquProof<E>>) {
    let z = Fr::<E>::ZERO;
    let (t1, t2) = trapdoors(rc);
    let zeros = st.dims.map(|n| vec![z; n]);
    let coms = commit(&zeros, k, one_by_one, rng);
    let ps = st
        .qs
        .iter()
        .zip(sides)
        .map(|(q, side)| {
            let (xc, yc) = coms.of(q.ty);
            let (mut xc, mut yc, mut x, mut y) = (xc.clone(), yc.clone(), zeros[xi(q.ty)].clone(), zeros[yi(q.ty)].clone());
            if *side == Extra::X {
                x.push(z);
                xc.append(&mut com1_with(vec![l1::<E>(&rc.us())], &vec![vec![t1]]));
            }
            if *side == Extra::Y {
                y.push(z);
                yc.append(&mut com2_with(vec![l2::<E>(&rc.vs())], &vec![vec![t2]]));
            }
            LEq::<E>::lift(&detour(q, *side)).prove(&vars_x::<E>(q.ty, &x), &vars_y::<E>(q.ty, &y), &xc, &yc, k, rng)
        })
        .collect();
    (coms, ps)
}
fn sides<F: PrimeField>(r: &mut StdRng, qs: &[REq<F>]) -> Vec<Extra> {
    qs.iter()
        .map(|q| match q.ty {
            Ty::P => Extra::None,
            _ if q.t.is_zero() && coin(r, 1, 3) => Extra::None,
            Ty::M1 => Extra::Y,
            Ty::M2 => Extra::X,
            Ty::Q => [Extra::X, Extra::Y][pick(r, 2)],
        })
        .collect()
}
fn digits<E: Eng>(r: u64, coms: &Coms<E>, ps: &[EquProof<E>]) -> u128 {
    let mut d = Digits::new(r);
    coms.x.iter().flatten().flat_map(|c| &c.coms).for_each(|e| d.put2(&d1::<E>(e)));
    coms.y.iter().flatten().flat_map(|c| &c.coms).for_each(|e| d.put2(&d2::<E>(e)));
    for p in ps {
        p.pi.iter().for_each(|e| d.put2(&d2::<E>(e)));
        p.theta.iter().for_each(|e| d.put2(&d1::<E>(e)));
    }
    d.v
}
fn hiding<E: Eng>(r: &mut StdRng) -> RCrs<Fr<E>> {
    loop {
        let rc = gen::crs::<Fr<E>>(r, Kind::Hiding);
        if !rc.u[0].0.is_zero() && !rc.v[0].0.is_zero() {
            return rc;
        }
    }
}
const MIXES: [&[Ty]; 14] = [
    &[Ty::M1],
    &[Ty::M2],
    &[Ty::Q],
    &[Ty::P],
    &[Ty::Q, Ty::Q],
    &[Ty::M1, Ty::Q],
    &[Ty::M2, Ty::Q],
    &[Ty::M1, Ty::M2],
    &[Ty::M1, Ty::M1],
    &[Ty::M2, Ty::M2],
    &[Ty::P, Ty::M1],
    &[Ty::P, Ty::M2],
    &[Ty::Q, Ty::Q, Ty::Q],
    &[Ty::M1, Ty::Q, Ty::Q],
];
fn exact<E: Eng>(mon: &Mon, r: u64, limit: usize, q: u64, t: u64) {
    let mixes: Vec<&[Ty]> = MIXES.iter().copied().filter(|m| Statement::<Fr<E>>::draws(m, [1; 4]) <= limit).collect();
    mon.stage(&format!("real against simulated, exactly/{}", E::name()), q, t, |c| {
        let types = mixes[c.idx as usize % mixes.len()];
        let dims = loop {
            let d = [(); 4].map(|_| 1 + pick(&mut c.rng, 3));
            if Statement::<Fr<E>>::draws(types, d) <= limit {
                break d;
            }
            if coin(&mut c.rng, 1, 30) {
                break [1; 4];
            }
        };
        let rc = hiding::<E>(&mut c.rng);
        let k = lift_crs::<E>(&rc);
        let mut found = None;
        for _ in 0..300 {
            let (mut st, _) = Statement::random(&mut c.rng, types, dims, &[]);
            st.qs.iter_mut().filter(|q| q.ty == Ty::P).for_each(|q| q.t = Fr::<E>::ZERO);
            let w = st.witnesses(r);
            if !w.is_empty() && (w.len() as u64) < r.pow(st.dims.iter().sum::<usize>() as u32) {
                let w = w[pick(&mut c.rng, w.len())].clone();
                if w.iter().flatten().any(|e| !e.is_zero()) {
                    found = Some((st, w));
                    break;
                }
            }
        }
        let Some((st, w)) = found else { return };
        let sides = sides(&mut c.rng, &st.qs);
        let eqs: Vec<LEq<E>> = st.qs.iter().map(LEq::lift).collect();
        let (a, b) = (coin(&mut c.rng, 1, 2), coin(&mut c.rng, 1, 2));
        let ctx = || format!("{types:?} over lists of {:?}, order {r}, {st:?}, witness {w:?}, CRS {rc:?}", st.dims);
        let (dr, nr): (HashMap<u128, u128>, u64) = enumerate(r, |g| {
            let (coms, ps) = c.must("commit and prove", || real(&st, &eqs, &w, &k, a, g));
            digits(r, &coms, &ps)
        });
        let (ds, ns) = enumerate(r, |g| {
            let (coms, ps) = c.must("prove with the trapdoor", || simulate(&st, &sides, &rc, &k, b, g));
            digits(r, &coms, &ps)
        });
        let (tr, ts): (u128, u128) = (dr.values().sum(), ds.values().sum());
        let diff = dr.iter().find(|(k, v)| ds.get(*k).copied().unwrap_or(0) * tr != **v * ts).map(|d| *d.0);
        c.check(diff.is_none() && dr.len() == ds.len(), || format!("real and simulated commitments and proofs are distributed differently ({} and {} outcomes; first difference {diff:?}); {}", dr.len(), ds.len(), ctx()));
        c.seen(&(&st, &w, &rc));
        c.mon.count("outcomes enumerated", nr + ns);
        c.count(&format!("{types:?}, order {r}"));
        c.sample(|| format!("{types:?} {:?} order {r}: {nr} real and {ns} simulated runs, {} outcomes", st.dims, dr.len()));
    });
}
/// Simulated proofs are accepted, of true statements and of others.
fn accepted<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("simulated proofs/{}", E::name()), q, t, |c| {
        let types: Vec<Ty> = (0..1 + pick(&mut c.rng, 4)).map(|_| TYPES[pick(&mut c.rng, 4)]).collect();
        let ((a, b), (x, y)) = (gen::dims_wide(&mut c.rng, max), gen::dims_wide(&mut c.rng, max));
        let rc = hiding::<E>(&mut c.rng);
        let k = lift_crs::<E>(&rc);
        let (mut st, w) = Statement::random(&mut c.rng, &types, [a, b, x, y], &crs_special(&rc));
        let truth = coin(&mut c.rng, 1, 2);
        for q in &mut st.qs {
            if q.ty == Ty::P {
                q.t = Fr::<E>::ZERO;
            } else if !truth {
                q.t += gen::delta::<Fr<E>>(&mut c.rng);
            }
        }
        let sides = sides(&mut c.rng, &st.qs);
        let eqs: Vec<LEq<E>> = st.qs.iter().map(LEq::lift).collect();
        let mut rng = LogRng::new(c.seed);
        let one_by_one = coin(&mut c.rng, 1, 3);
        let ctx = || format!("{types:?} over lists of {:?}, {st:?}, sides {sides:?}, CRS {rc:?}", st.dims);
        let (coms, ps) = c.must("prove with the trapdoor", || simulate(&st, &sides, &rc, &k, one_by_one, &mut rng));
        c.seen(&(&st, &rc));
        for ((e, q), p) in eqs.iter().zip(&st.qs).zip(ps) {
            let (xc, yc) = coms.of(q.ty);
            let shape = (p.pi.len(), p.theta.len(), &p.equ_type) == (q.ty.kx(), q.ty.ky(), &q.ty.equ());
            c.check(shape, || format!("a simulated proof has {} + {} elements and type {:?}; {}", p.pi.len(), p.theta.len(), p.equ_type, ctx()));
            let cp = CProof { xcoms: xc.clone(), ycoms: yc.clone(), equ_proofs: vec![p] };
            let v = e.verify(&cp, &k);
            c.check(v == Verdict::Accept, || format!("a simulated proof of {:?} is not accepted: {v:?}; {}", q.ty, ctx()));
            let known = q.holds(&w[xi(q.ty)], &w[yi(q.ty)]);
            c.count(&format!("{} {}", q.ty.name(), if known { "with a known witness" } else { "without one" }));
        }
        c.sample(|| format!("simulated and accepted: {}", ctx()));
    });
}

const RULE: &str = "A simulator with the trapdoor of a hiding CRS and no witness: commitments to zeros, and proofs in which the target is a term with the image of one, opened as zero. Tiny groups: the exact joint distribution of all commitments and proofs of a statement (1-3 equations, mixed types, shared lists) over all outcomes of the generator must equal that of the real prover. Everywhere: simulated proofs are accepted, whether or not the statement is true. Distinct = distinct statement, witness and CRS.";
fn check(mon: &Mon) {
    exact::<E3>(mon, 3, 9, 120, 3000);
    exact::<E5>(mon, 5, 6, 120, 3000);
    exact::<E7>(mon, 7, 5, 120, 3000);
    if mon.thorough() {
        exact::<E3>(mon, 3, 11, 60, 60);
    }
    accepted::<E3>(mon, 60_000, 1_500_000, 4);
    accepted::<E59>(mon, 200_000, 6_000_000, 24);
    accepted::<EW>(mon, 30_000, 900_000, 9);
    accepted::<Bls>(mon, 160, 5000, 3);
}

fn main() {
    gsmon::run("C25", RULE, check)
}
