//! C20 the prover makes no proof from inputs of disagreeing shape.
use gsmon::prelude::*;

/// A list for scalars that has some group commitments among them: outside the property.
fn surplus(group: bool, kinds: &[bool]) -> bool {
    !group && kinds.iter().any(|k| *k) && !kinds.iter().all(|k| *k)
}
/// What the prover is given. `None` as randomness: made by the library from the values.
#[derive(Clone, Debug, Hash)]
struct Given<F> {
    q: REq<F>,
    x: Vec<F>,
    y: Vec<F>,
    /// Kinds of the X commitments, in order: true for group elements.
    xk: Vec<bool>,
    yk: Vec<bool>,
    /// Values that the commitments were made from, when they are not those given.
    cx: Vec<F>,
    cy: Vec<F>,
}
fn fits<F>(g: &Given<F>, direct: bool) -> bool {
    let ty = g.q.ty;
    let (m, n) = (g.x.len(), g.y.len());
    let coms = direct || g.cx.len() == m && g.cy.len() == n && g.xk.iter().all(|k| *k == ty.xg()) && g.yk.iter().all(|k| *k == ty.yg());
    coms && m > 0 && n > 0 && g.q.a.len() == n && g.q.b.len() == m && g.q.gamma.len() == m && g.q.gamma.iter().all(|r| r.len() == n)
}
fn resize<T: Clone>(r: &mut StdRng, v: &mut Vec<T>, zero: T, other: T) -> &'static str {
    if v.is_empty() || coin(r, 1, 2) {
        let e = match pick(r, 4) {
            0 | 1 => zero,
            2 if !v.is_empty() => v[v.len() - 1].clone(),
            _ => other,
        };
        for _ in 0..1 + pick(r, 8) / 7 {
            let at = [0, v.len(), v.len()][pick(r, 3)];
            v.insert(at, e.clone());
        }
        "longer"
    } else {
        match pick(r, 6) {
            0 => v.clear(),
            1 => {
                v.remove(0);
            }
            _ => {
                v.pop();
            }
        }
        "shorter"
    }
}
fn mutate<F: PrimeField>(r: &mut StdRng, g: &mut Given<F>) -> String {
    let (z, e) = (F::ZERO, gen::elem::<F>(r));
    match pick(r, 16) {
        0 => format!("a_consts {}", resize(r, &mut g.q.a, z, e)),
        1 => format!("b_consts {}", resize(r, &mut g.q.b, z, e)),
        2 => format!("X values {}", resize(r, &mut g.x, z, e)),
        3 => format!("Y values {}", resize(r, &mut g.y, z, e)),
        4 | 5 => {
            let w = resize(r, &mut g.cx, z, e);
            let k = g.q.ty.xg();
            g.xk = vec![k; g.cx.len()];
            format!("X commitments {w}")
        }
        6 | 7 => {
            let w = resize(r, &mut g.cy, z, e);
            let k = g.q.ty.yg();
            g.yk = vec![k; g.cy.len()];
            format!("Y commitments {w}")
        }
        8 => {
            let zr = vec![z; g.q.a.len()];
            let er = (0..g.q.a.len()).map(|_| gen::elem(r)).collect();
            format!("gamma rows {}", resize(r, &mut g.q.gamma, zr, er))
        }
        9 => {
            let grow = coin(r, 1, 2);
            for row in g.q.gamma.iter_mut() {
                if grow {
                    row.push(if coin(r, 1, 2) { z } else { e })
                } else {
                    row.pop();
                }
            }
            format!("gamma columns {}", if grow { "longer" } else { "shorter" })
        }
        10 | 11 if !g.q.gamma.is_empty() => {
            let j = pick(r, g.q.gamma.len());
            format!("gamma row {}", resize(r, &mut g.q.gamma[j], z, e))
        }
        12 => {
            let (m, n) = (g.q.gamma.len(), g.q.gamma.first().map(|r| r.len()).unwrap_or(0));
            if g.q.gamma.iter().all(|x| x.len() == n) && m > 0 && n > 0 {
                g.q.gamma = (0..n).map(|j| (0..m).map(|k| g.q.gamma[k][j]).collect()).collect();
            }
            "gamma transposed".into()
        }
        13 => {
            // Some or all commitments of the other kind, appended.
            let (l, s) = if coin(r, 1, 2) { (&mut g.xk, "X") } else { (&mut g.yk, "Y") };
            if !l.is_empty() {
                if coin(r, 1, 3) {
                    l.iter_mut().for_each(|k| *k = !*k);
                    return format!("all {s} commitments of the other kind");
                }
                for _ in 0..1 + pick(r, 2) {
                    let j = pick(r, l.len());
                    l[j] = !l[j];
                }
            }
            format!("some {s} commitments of the other kind")
        }
        _ => {
            // Values, constants and exponents shrink or grow together; the rest stays.
            if coin(r, 1, 2) {
                g.q.b.push(z);
                g.q.gamma.push(vec![z; g.q.a.len()]);
                "one more X variable in the equation".into()
            } else {
                g.q.a.push(z);
                g.q.gamma.iter_mut().for_each(|x| x.push(z));
                "one more Y variable in the equation".into()
            }
        }
    }
}
macro_rules! mixed {
    ($name:ident, $com:ident, $with:ident, $group:ident, $scalar:ident, $lift:ident) => {
        fn $name<E: Eng>(v: &[Fr<E>], kinds: &[bool], k: &CRS<E>, rng: &mut LogRng) -> $com<E> {
            let mut o: Option<$com<E>> = None;
            for (e, g) in v.iter().zip(kinds) {
                let mut p = if *g { $group(&E::$lift(e), k, rng) } else { $scalar(e, k, rng) };
                match &mut o {
                    None => o = Some(p),
                    Some(o) => o.append(&mut p),
                }
            }
            o.unwrap_or_else(|| $with(vec![], &vec![]))
        }
    };
}
mixed!(mixed_x, Commit1, com1_with, commit_G1, commit_scalar_to_B1, g1);
mixed!(mixed_y, Commit2, com2_with, commit_G2, commit_scalar_to_B2, g2);

fn refused<E: Eng>(mon: &Mon, qn: u64, tn: u64, max: usize, per: usize) {
    mon.stage(&format!("disagreeing shapes/{}", E::name()), qn, tn, |c| {
        let ty = TYPES[(c.idx % 4) as usize];
        let (m, n) = gen::dims_wide(&mut c.rng, max);
        let kind = [Kind::Binding, Kind::Hiding][pick(&mut c.rng, 2)];
        let rc = gen::crs::<Fr<E>>(&mut c.rng, kind);
        let k = lift_crs::<E>(&rc);
        let (q, x, y) = gen::equation(&mut c.rng, ty, m, n, &crs_special(&rc));
        let base = Given { xk: vec![ty.xg(); m], yk: vec![ty.yg(); n], cx: x.clone(), cy: y.clone(), q, x, y };
        let usable = |c: &Case, seed: u64, when: &str| {
            let eq = LEq::<E>::lift(&base.q);
            let (xv, yv) = (vars_x::<E>(ty, &base.x), vars_y::<E>(ty, &base.y));
            let p = c.must(when, || eq.commit_and_prove(&xv, &yv, &k, &mut LogRng::new(seed)));
            let v = eq.verify(&p, &k);
            c.check(v == Verdict::Accept, || format!("{when}, an honest proof gives {v:?}: {base:?} {rc:?}"));
        };
        if c.idx % 8 < 4 {
            let s = c.sub(1);
            usable(c, s, "before any refusal");
        }
        for j in 0..per {
            let mut g = base.clone();
            let mut what = vec![];
            for _ in 0..[1, 1, 1, 1, 1, 2, 2, 3][pick(&mut c.rng, 8)] {
                what.push(mutate(&mut c.rng, &mut g));
            }
            // Statements without variables on a side are outside the property.
            if (g.x.is_empty() || g.y.is_empty()) && g.q.gamma.iter().all(|r| r.is_empty()) {
                c.count("no variables on one side (skipped)");
                continue;
            }
            let eq = LEq::<E>::lift(&g.q);
            let (xv, yv) = (vars_x::<E>(ty, &g.x), vars_y::<E>(ty, &g.y));
            let mut rng = LogRng::new(c.sub(2 + j as u64));
            let key: Vec<String> = what.iter().map(|w| w.chars().filter(|c| !c.is_ascii_digit()).collect()).collect();
            // As if all commitments were of the right kind, where that is outside the property.
            let mut h = g.clone();
            for (kinds, group) in [(&mut h.xk, ty.xg()), (&mut h.yk, ty.yg())] {
                if surplus(group, kinds) {
                    kinds.iter_mut().for_each(|k| *k = group);
                    c.count("group commitments among scalar ones (outside the property)");
                }
            }
            if !fits(&h, false) {
                let (xc, yc) = c.must("commit and append", || (mixed_x::<E>(&g.cx, &g.xk, &k, &mut rng), mixed_y::<E>(&g.cy, &g.yk, &k, &mut rng)));
                let before = (ser(&xc), ser(&yc), eq.clone(), xv.clone(), yv.clone());
                let r = lib(|| eq.prove(&xv, &yv, &xc, &yc, &k, &mut rng));
                c.seen(&(&g, 0));
                key.iter().for_each(|w| c.count(&format!("prove: {w}")));
                c.sample(|| format!("{} {} {m}x{n}, {what:?}: {}", E::name(), ty.name(), if r.is_ok() { "a proof" } else { "refused" }));
                c.check(r.is_err(), || format!("prove makes a proof although shapes disagree ({what:?}) on {}: {g:?} {rc:?}", E::name()));
                c.check(before == (ser(&xc), ser(&yc), eq.clone(), xv.clone(), yv.clone()), || format!("a refused prove changed its arguments ({what:?}): {g:?}"));
            }
            if !fits(&g, true) {
                let r = lib(|| eq.commit_and_prove(&xv, &yv, &k, &mut rng));
                c.seen(&(&g, 1));
                key.iter().for_each(|w| c.count(&format!("commit_and_prove: {w}")));
                c.check(r.is_err(), || format!("commit_and_prove makes a proof although shapes disagree ({what:?}) on {}: {g:?} {rc:?}", E::name()));
            }
            if coin(&mut c.rng, 1, 6 * E::COST as u32) {
                let s = c.sub(100 + j as u64);
                usable(c, s, "after a refusal");
            }
        }
    });
}
/// Lists whose commitments and random values differ in number cannot be appended.
fn append<E: Eng>(mon: &Mon, max: usize) {
    let n = (max + 1) * (max + 1) * (max + 1) * (max + 1);
    mon.stage_all(&format!("appending inconsistent lists/{}", E::name()), n as u64 * 2, |c| {
        let d = |k: u32| (c.idx / 2) as usize / (max + 1).pow(k) % (max + 1);
        let (a, ar, b, br) = (d(0), d(1), d(2), d(3));
        let w = 1 + pick(&mut c.rng, 2);
        let r = &mut c.rng;
        let pr = |v: Vec<Vec<Fr<E>>>| v.iter().map(|x| (x[0], x[1])).collect::<Vec<_>>();
        let (ca, cb) = (pr(gen::rows(r, a, 2)), pr(gen::rows(r, b, 2)));
        let (ra, rb) = (gen::rows(r, ar, w), gen::rows(r, br, w));
        macro_rules! go {
            ($with:ident, $lift:ident) => {{
                let (mut x, mut y) = ($with($lift::<E>(&ca), &ra), $with($lift::<E>(&cb), &rb));
                let before = (x.clone(), y.clone());
                let ok = lib(|| x.append(&mut y)).is_ok();
                c.check(ok || (x == before.0 && ser(&x) == ser(&before.0)), || format!("appending {b} commitments with {br} rows of randomness to {a} with {ar} is refused, but the first list is {} and {} long", x.coms.len(), ser(&x).len()));
                c.check(ok || (y == before.1 && ser(&y) == ser(&before.1)), || format!("appending {b} commitments with {br} rows of randomness to {a} with {ar} is refused, but the second list has {} commitments now", y.coms.len()));
                c.seen(&(a, ar, b, br, c.idx % 2));
                c.check(ok == (a == ar && b == br), || format!("appending {b} commitments with {br} rows of randomness to {a} with {ar}: {}", if ok { "done" } else { "refused" }));
            }};
        }
        if c.idx % 2 == 0 {
            go!(com1_with, l1s)
        } else {
            go!(com2_with, l2s)
        }
    });
}

const RULE: &str = "Each case takes values, commitments and an equation that fit together and makes one to three shape changes (values, commitments, constants, rows and columns of the exponent matrix, ragged rows, commitments of the other kind, scalar commitments among group commitments), biased to changes that a truncation would not notice; a returned proof is a violation, as are changed arguments and a library that cannot prove afterwards. Distinct = distinct (inputs, call).";
fn check(mon: &Mon) {
    refused::<E59>(mon, 50_000, 1_500_000, 6, 8);
    refused::<EW>(mon, 5_000, 150_000, 4, 8);
    refused::<E5>(mon, 30_000, 1_000_000, 4, 8);
    refused::<Bls>(mon, 60, 2_000, 3, 6);
    append::<E59>(mon, 3);
    append::<Bls>(mon, 2);
}
fn main() {
    gsmon::run("C20", RULE, check)
}
