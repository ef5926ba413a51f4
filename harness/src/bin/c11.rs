//! C11 the pairing of the commitment groups is bilinear and entry-wise, and the pairing sum is exact.
use gsmon::prelude::*;

fn up4<E: Eng>(l: &[Fr<E>; 4]) -> ComT<E> {
    ComT(E::gt(&l[0]), E::gt(&l[1]), E::gt(&l[2]), E::gt(&l[3]))
}
fn same<E: Eng>(a: &ComT<E>, b: &ComT<E>) -> bool {
    a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 == b.3
}
fn is<E: Eng>(c: &Case, what: &str, got: ComT<E>, want: [Fr<E>; 4], ctx: &dyn Fn() -> String) -> bool {
    c.check(same(&got, &up4::<E>(&want)), || format!("{what} on {}: {got:?}, expected exponents {want:?}; {}", E::name(), ctx()))
}
fn pair<E: Eng>(c: &Case, x: P2<Fr<E>>, y: P2<Fr<E>>, x2: P2<Fr<E>>, y2: P2<Fr<E>>, s: Fr<E>) {
    let ctx = || format!("x={x:?} y={y:?} x'={x2:?} y'={y2:?} s={s}");
    let (a, b, a2, b2) = (l1::<E>(&x), l2::<E>(&y), l1::<E>(&x2), l2::<E>(&y2));
    c.must("pairing", || {
        let p = ComT::<E>::pairing;
        let xy = p(a, b);
        // Entries are the four pairings in fixed positions.
        let direct = ComT::<E>(E::pairing(a.0, b.0), E::pairing(a.0, b.1), E::pairing(a.1, b.0), E::pairing(a.1, b.1));
        c.check(same(&xy, &direct), || format!("the entries are not the four pairings in their positions; {}", ctx()));
        is(c, "pairing", xy, ten(x, y), &ctx);
        is(c, "pairing of x + x' and y", p(a + a2, b), ten(add2(x, x2), y), &ctx);
        c.check(same(&p(a + a2, b), &(xy + p(a2, b))), || format!("not additive in the first argument; {}", ctx()));
        is(c, "pairing of x and y + y'", p(a, b + b2), ten(x, add2(y, y2)), &ctx);
        c.check(same(&p(a, b + b2), &(xy + p(a, b2))), || format!("not additive in the second argument; {}", ctx()));
        is(c, "pairing of s x and y", p(a.scalar_mul(&s), b), ten(sc2(s, x), y), &ctx);
        is(c, "pairing of x and s y", p(a, b.scalar_mul(&s)), ten(x, sc2(s, y)), &ctx);
        is(c, "pairing of -x and y", p(-a, b), ten(sc2(-Fr::<E>::ONE, x), y), &ctx);
        let z = [Fr::<E>::ZERO; 4];
        is(c, "pairing of 0 and y", p(Com1::<E>::zero(), b), z, &ctx);
        is(c, "pairing of x and 0", p(a, Com2::<E>::zero()), z, &ctx);
        let zero = (Fr::<E>::ZERO, Fr::<E>::ZERO);
        if y != zero {
            c.check((p(a, b) == p(a2, b)) == (x == x2), || format!("the pairing does not distinguish first arguments; {}", ctx()));
        }
        if x != zero {
            c.check((p(a, b) == p(a, b2)) == (y == y2), || format!("the pairing does not distinguish second arguments; {}", ctx()));
        }
        c.check(xy.is_zero() == (x == zero || y == zero), || format!("zero only for zero arguments; {}", ctx()));
    });
}
fn sum<E: Eng>(c: &Case, x: &[P2<Fr<E>>], y: &[P2<Fr<E>>]) {
    let (a, b) = (l1s::<E>(x), l2s::<E>(y));
    let ctx = || format!("lengths {} and {}, x={x:?} y={y:?}", x.len(), y.len());
    c.must("pairing_sum", || {
        let got = ComT::<E>::pairing_sum(&a, &b);
        let want = x.iter().zip(y).fold([Fr::<E>::ZERO; 4], |s, (x, y)| add4(s, ten(*x, *y)));
        is(c, "pairing sum", got, want, &ctx);
        let single: ComT<E> = a.iter().zip(&b).map(|(x, y)| ComT::<E>::pairing(*x, *y)).sum();
        c.check(same(&got, &single), || format!("the pairing sum differs from the sum of the pairings; {}", ctx()));
    });
}
fn p2<F: PrimeField>(r: &mut StdRng, p: &mut Pool<F>) -> P2<F> {
    (p.next(r), p.next(r))
}
fn list<F: PrimeField>(r: &mut StdRng, p: &mut Pool<F>, n: usize) -> Vec<P2<F>> {
    let mut v: Vec<P2<F>> = (0..n).map(|_| p2(r, p)).collect();
    if n > 1 && coin(r, 1, 3) {
        // Pairs that cancel, and zero entries.
        let (i, j) = (pick(r, n), pick(r, n));
        v[i] = sc2(-F::ONE, v[j]);
        v[pick(r, n)] = (F::ZERO, F::ZERO);
    }
    v
}
fn random<E: Eng>(mon: &Mon, q: u64, t: u64, max: usize) {
    mon.stage(&format!("pairings and sums/{}", E::name()), q, t, |c| {
        let mut p = Pool::new(&mut c.rng, &[]);
        let (x, y) = (p2(&mut c.rng, &mut p), p2(&mut c.rng, &mut p));
        p.style = pick(&mut c.rng, 8);
        let (mut x2, mut y2) = (p2(&mut c.rng, &mut p), p2(&mut c.rng, &mut p));
        match pick(&mut c.rng, 6) {
            0 => x2 = x,
            1 => y2 = y,
            2 => x2 = (x.0, x2.1),
            3 => y2 = (y2.0, y.1),
            _ => {}
        }
        let s = p.next(&mut c.rng);
        c.seen(&(x, y, x2, y2, s));
        c.sample(|| format!("x={x:?} y={y:?} x'={x2:?} y'={y2:?} s={s}"));
        pair::<E>(c, x, y, x2, y2, s);
        let n = if coin(&mut c.rng, 1, 8) { pick(&mut c.rng, max + 1) } else { pick(&mut c.rng, 9.min(max)) };
        let x = list(&mut c.rng, &mut p, n);
        p.style = pick(&mut c.rng, 8);
        let y = list(&mut c.rng, &mut p, n);
        sum::<E>(c, &x, &y);
        c.seen(&(&x, &y));
    });
}
fn lengths<E: Eng>(mon: &Mon, l: &[usize]) {
    mon.stage(&format!("sums of listed lengths/{}", E::name()), l.len() as u64, l.len() as u64 * 20, |c| {
        let n = l[c.idx as usize % l.len()];
        let mut p = Pool::random();
        let (x, y) = (list(&mut c.rng, &mut p, n), list(&mut c.rng, &mut p, n));
        sum::<E>(c, &x, &y);
        c.seen(&(&x, &y));
    });
}
/// Every pair of different lengths is refused, also when the surplus would contribute nothing.
fn refused<E: Eng>(mon: &Mon, max: u64, styles: u64) {
    mon.stage_all(&format!("different lengths/{}", E::name()), (max + 1) * (max + 1) * styles, |c| {
        let (m, n) = ((c.idx % (max + 1)) as usize, (c.idx / (max + 1) % (max + 1)) as usize);
        if m == n {
            return;
        }
        let mut p = Pool::random();
        if c.idx / ((max + 1) * (max + 1)) == 1 {
            p.style = 3;
        }
        let (x, y) = (list(&mut c.rng, &mut p, m), list(&mut c.rng, &mut p, n));
        let (a, b) = (l1s::<E>(&x), l2s::<E>(&y));
        let got = lib(|| ComT::<E>::pairing_sum(&a, &b));
        c.seen(&(&x, &y));
        c.check(got.is_err(), || format!("the pairing sum of {m} and {n} elements is not refused: {got:?}"));
    });
}
fn exhaustive<E: Eng>(mon: &Mon, r: u64) {
    mon.stage_all(&format!("all pairs/{}", E::name()), r.pow(4), |c| {
        let f = |v: u64| Fr::<E>::from(v);
        let k = c.idx;
        let (x, y) = ((f(k % r), f(k / r % r)), (f(k / r / r % r), f(k / r.pow(3))));
        for w in 0..r * r {
            let o = (f(w % r), f(w / r));
            pair::<E>(c, x, y, o, o, f(w % r));
            sum::<E>(c, &[x, o], &[y, o]);
            c.seen(&(x, y, o));
        }
    });
}

const RULE: &str = "Each case compares pairings and pairing sums of commitment-group elements with products of their exponents and with entry-wise pairings: positions, additivity and homogeneity in both arguments, zero, distinction of arguments, sums of lists (cancelling, zero and repeated elements; length zero included); lists of different length must be refused. Distinct = distinct operand tuples.";
fn check(mon: &Mon) {
    random::<E59>(mon, 60_000, 2_000_000, 200);
    random::<EW>(mon, 20_000, 500_000, 60);
    random::<E7>(mon, 60_000, 1_000_000, 60);
    random::<Bls>(mon, 240, 8000, 7);
    let mut l: Vec<usize> = (0..=20).collect();
    l.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 2048, 2049, 3000, 4096, 4097, 10_000]);
    lengths::<E59>(mon, &l);
    lengths::<Bls>(mon, &[0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33]);
    refused::<E59>(mon, 24, 2);
    refused::<Bls>(mon, 5, 2);
    exhaustive::<E3>(mon, 3);
    exhaustive::<E5>(mon, 5);
}

fn main() {
    gsmon::run("C11", RULE, check)
}
