//! C01 completeness and proof size.
use gsmon::prelude::*;

fn verify_ok<E: Eng>(c: &Case, ty: Ty, m: usize, n: usize, eq: &LEq<E>, p: &CProof<E>, crs: &CRS<E>, how: &str, ctx: &dyn Fn() -> String) {
    let sizes = (p.xcoms.coms.len(), p.ycoms.coms.len(), p.equ_proofs.len());
    c.check(sizes == (m, n, 1), || format!("{how}: {} proof carries {sizes:?} (X, Y, equation proofs), expected ({m}, {n}, 1); {}", ty.name(), ctx()));
    if let Some(e) = p.equ_proofs.first() {
        c.check(e.pi.len() == ty.kx() && e.theta.len() == ty.ky() && e.equ_type == ty.equ(), || {
            format!("{how}: {} proof has {} + {} elements of type {:?}; {}", ty.name(), e.pi.len(), e.theta.len(), e.equ_type, ctx())
        });
    }
    let v = eq.verify(p, crs);
    c.check(v == Verdict::Accept, || format!("{how}: honest {} proof of a satisfied equation gives {v:?}; {}", ty.name(), ctx()));
}

fn one<E: Eng>(c: &mut Case, ty: Ty, m: usize, n: usize) {
    let kind = [Kind::Binding, Kind::Hiding][pick(&mut c.rng, 2)];
    let own = E::COST == 1 && coin(&mut c.rng, 1, 3) || E::COST > 1 && coin(&mut c.rng, 1, 6);
    let (lcrs, special) = if own {
        let s = c.sub(1);
        let k = c.must("generate_crs", || CRS::<E>::generate_crs(&mut LogRng::new(s)));
        (k, vec![])
    } else {
        let r = gen::crs::<Fr<E>>(&mut c.rng, kind);
        (lift_crs::<E>(&r), crs_special(&r))
    };
    let (q, x, y) = gen::equation(&mut c.rng, ty, m, n, &special);
    run(c, &lcrs, &q, &x, &y, if own { "generated CRS" } else if kind == Kind::Binding { "binding CRS" } else { "hiding CRS" });
}

fn run<E: Eng>(c: &mut Case, lcrs: &CRS<E>, q: &REq<Fr<E>>, x: &[Fr<E>], y: &[Fr<E>], what: &str) {
    let ty = q.ty;
    let (m, n) = (q.m(), q.n());
    let eq = LEq::<E>::lift(q);
    let (xv, yv) = (vars_x::<E>(ty, x), vars_y::<E>(ty, y));
    c.seen(&(q, x, y));
    c.count(&format!("{} {} {what}", E::name(), ty.name()));
    c.sample(|| format!("{} {} {m}x{n} on {}: a={:?} b={:?} gamma={:?} t={} x={:?} y={:?}", what, ty.name(), E::name(), q.a, q.b, q.gamma, q.t, x, y));
    let ctx = || format!("{what}, engine {}, {m}x{n}, a={:?} b={:?} gamma={:?} t={} x={:?} y={:?} crs={:?}", E::name(), q.a, q.b, q.gamma, q.t, x, y, lcrs);
    let s = c.sub(2);
    // Randomness: mostly a seeded stream, sometimes degenerate.
    match pick(&mut c.rng, 8) {
        0 => {
            let words: Vec<u64> = (0..1 + pick(&mut c.rng, 5)).map(|k| [0, 1, 2, s, 3][k]).collect();
            let p = c.must("commit_and_prove", || eq.commit_and_prove(&xv, &yv, lcrs, &mut PatternRng { words: words.clone(), pos: 0 }));
            verify_ok(c, ty, m, n, &eq, &p, lcrs, "commit_and_prove with degenerate randomness", &ctx);
        }
        1 | 2 => {
            let mut rng = LogRng::new(s);
            let (xc, yc) = c.must("commit", || (singles_x(ty, &xv, lcrs, &mut rng), singles_y(ty, &yv, lcrs, &mut rng)));
            let pf = c.must("prove", || eq.prove(&xv, &yv, &xc, &yc, lcrs, &mut rng));
            let p = CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] };
            verify_ok(c, ty, m, n, &eq, &p, lcrs, "committed one by one", &ctx);
        }
        3 => {
            let mut rng = LogRng::new(s);
            let yc = c.must("commit", || batch_y(ty, &yv, lcrs, &mut rng));
            let xc = c.must("commit", || batch_x(ty, &xv, lcrs, &mut rng));
            let pf = c.must("prove", || eq.prove(&xv, &yv, &xc, &yc, lcrs, &mut rng));
            let p = CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] };
            verify_ok(c, ty, m, n, &eq, &p, lcrs, "batch commitments, then prove", &ctx);
        }
        _ => {
            let p = c.must("commit_and_prove", || eq.commit_and_prove(&xv, &yv, lcrs, &mut LogRng::new(s)));
            verify_ok(c, ty, m, n, &eq, &p, lcrs, "commit_and_prove", &ctx);
        }
    }
}

fn random<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("random/{}", E::name()), q, t, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        one::<E>(c, ty, m, n);
    });
}
fn shapes<E: Eng>(mon: &Mon, name: &str, list: &[(usize, usize)], reps: u64) {
    mon.stage(&format!("{name} shapes/{}", E::name()), list.len() as u64 * 4 * reps, list.len() as u64 * 4 * reps * 8, |c| {
        let k = c.idx as usize % (list.len() * 4);
        let (m, n) = list[k / 4];
        one::<E>(c, TYPES[k % 4], m, n);
    });
}
/// Every equation and witness with one variable per side over a tiny field, under a random CRS.
fn exhaustive<E: Eng>(mon: &Mon, r: u64, per: u64) {
    mon.stage_all(&format!("all 1x1 equations/{}", E::name()), 4 * r.pow(5) * per, |c| {
        let mut k = c.idx;
        let mut d = || {
            let v = k % r;
            k /= r;
            Fr::<E>::from(v)
        };
        let (x, y, a, b, g) = (vec![d()], vec![d()], vec![d()], vec![d()], vec![vec![d()]]);
        let ty = TYPES[(c.idx / r.pow(5) % 4) as usize];
        let mut q = REq { ty, a, b, gamma: g, t: Fr::<E>::from(0u64) };
        q.t = q.eval(&x, &y);
        let kind = [Kind::Binding, Kind::Hiding][pick(&mut c.rng, 2)];
        let crs = lift_crs::<E>(&gen::crs(&mut c.rng, kind));
        run(c, &crs, &q, &x, &y, "tiny field");
    });
}

const RULE: &str = "A case commits to a satisfying witness, proves and verifies with the real code and expects acceptance and the fixed proof size. Equation type, dimensions, constants, exponents, witnesses (zero, identity, repeated, negated and key-related values), CRS (generated, lifted binding, lifted hiding, special exponents), randomness (seeded, degenerate) and the way of committing vary; distinct = distinct (equation, witness) pairs.";
fn check(mon: &Mon) {
    random::<E59>(mon, 200_000, 6_000_000, 24);
    random::<EW>(mon, 40_000, 1_000_000, 12);
    random::<E3>(mon, 100_000, 3_000_000, 6);
    random::<E7>(mon, 100_000, 3_000_000, 6);
    random::<Bls>(mon, 300, 12_000, 4);
    exhaustive::<E3>(mon, 3, if mon.thorough() { 40 } else { 8 });
    if mon.thorough() {
        exhaustive::<E5>(mon, 5, 4);
    }
    let grid: Vec<(usize, usize)> = (1..=9).flat_map(|m| (1..=9).map(move |n| (m, n))).collect();
    shapes::<E59>(mon, "grid", &grid, 20);
    let large = [
        (1, 257), (257, 1), (16, 16), (17, 15), (31, 33), (32, 32), (33, 31), (64, 64), (65, 63), (2, 128), (129, 2), (100, 3), (3, 100),
        (10, 50), (48, 20), (1, 1000), (1000, 1), (128, 130), (16, 1), (1, 16), (32, 1), (1, 32), (64, 1), (1, 64), (1, 128), (128, 1), (1, 256), (256, 1),
    ];
    shapes::<E59>(mon, "large", &large, 4);
    let bl = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (5, 5), (1, 9), (9, 1), (8, 8), (17, 3), (3, 17)];
    shapes::<Bls>(mon, "listed", &bl, 1);
}

fn main() {
    gsmon::run("C01", RULE, check)
}
