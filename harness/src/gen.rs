//! Workload generators, biased towards structural coincidences.
use crate::spec::*;
use ark_ff::PrimeField;
use ark_std::rand::{rngs::StdRng, Rng};

/// One of `n`.
pub fn pick(r: &mut StdRng, n: usize) -> usize {
    r.gen_range(0..n)
}
pub fn coin(r: &mut StdRng, num: u32, den: u32) -> bool {
    r.gen_range(0..den) < num
}

/// A field element whose integer has structure: short, near a power of two, near the modulus, or with limbs of zeros and ones.
pub fn odd<F: PrimeField>(r: &mut StdRng) -> F {
    let bits = F::MODULUS_BIT_SIZE;
    let pow = |k: u32| F::from(2u64).pow([k as u64]);
    let v = match pick(r, 5) {
        0 => {
            // short, of any length
            let k = r.gen_range(0..bits);
            let mut v = F::ONE;
            for _ in 0..k {
                v = v + v + if coin(r, 1, 2) { F::ONE } else { F::ZERO };
            }
            v
        }
        1 => pow(r.gen_range(0..bits)) + F::from(r.gen_range(0u64..5)) - F::from(2u64),
        2 => pow(64 * r.gen_range(0..=bits / 64)) * F::from(r.gen_range(1u64..9)) + F::from(r.gen_range(0u64..3)),
        3 => (0..=bits / 64).fold(F::ZERO, |v, k| {
            let l = match pick(r, 4) {
                0 | 1 => 0,
                2 => [u64::MAX, 1, 1 << 63][pick(r, 3)],
                _ => r.gen(),
            };
            v + pow(64 * k) * F::from(l)
        }),
        _ => pow(r.gen_range(0..bits)) + pow(r.gen_range(0..bits)),
    };
    if coin(r, 1, 4) {
        -v
    } else {
        v
    }
}
/// Any field element.
pub fn elem<F: PrimeField>(r: &mut StdRng) -> F {
    if coin(r, 1, 6) {
        odd(r)
    } else {
        F::rand(r)
    }
}

/// A source of field elements: fresh ones mixed with special ones and repetitions and negations of earlier ones.
pub struct Pool<F> {
    pub style: usize,
    pub past: Vec<F>,
    pub special: Vec<F>,
}
impl<F: PrimeField> Pool<F> {
    pub fn new(r: &mut StdRng, special: &[F]) -> Self {
        Pool { style: pick(r, 8), past: vec![], special: special.to_vec() }
    }
    pub fn random() -> Self {
        Pool { style: 0, past: vec![], special: vec![] }
    }
    pub fn next(&mut self, r: &mut StdRng) -> F {
        let v = match self.style {
            0 | 1 => F::rand(r),
            2 => elem(r),
            3 => F::ZERO,
            4 => F::from(r.gen_range(0u64..4)) - F::ONE,
            5 if !self.past.is_empty() => self.past[0],
            _ => match pick(r, 10) {
                0 => F::ZERO,
                1 => F::ONE,
                2 => -F::ONE,
                3 if !self.past.is_empty() => self.past[pick(r, self.past.len())],
                4 if !self.past.is_empty() => -self.past[pick(r, self.past.len())],
                5 if !self.special.is_empty() => self.special[pick(r, self.special.len())],
                6 if !self.special.is_empty() => -self.special[pick(r, self.special.len())],
                7 if !self.past.is_empty() => self.past[pick(r, self.past.len())].inverse().unwrap_or(F::ZERO),
                _ => elem(r),
            },
        };
        if self.past.len() < 64 {
            self.past.push(v);
        }
        v
    }
    pub fn vec(&mut self, r: &mut StdRng, n: usize) -> Vec<F> {
        (0..n).map(|_| self.next(r)).collect()
    }
}
pub fn nz<F: PrimeField>(r: &mut StdRng) -> F {
    loop {
        let v = elem::<F>(r);
        if !v.is_zero() {
            return v;
        }
    }
}

pub fn dims(r: &mut StdRng, max: usize) -> (usize, usize) {
    let one = |r: &mut StdRng| match pick(r, 20) {
        0..=4 => 1,
        5..=9 => 2,
        10..=12 => 3,
        13..=14 => 4,
        15 | 16 => r.gen_range(5..=9),
        17 | 18 => r.gen_range(5..=17),
        _ => r.gen_range(1..=max.max(2)),
    };
    (one(r).min(max), one(r).min(max))
}

/// Like `dims`, now and then with one wide side.
pub fn dims_wide(r: &mut StdRng, max: usize) -> (usize, usize) {
    if max < 6 || !coin(r, 1, 80) {
        return dims(r, max);
    }
    let wide = match pick(r, 12) {
        0..=4 => r.gen_range(13..=40),
        5..=7 => r.gen_range(32..=66),
        8 | 9 => r.gen_range(63..=101),
        _ => [120, 127, 128, 129, 130, 200, 256, 257, 260][pick(r, 9)],
    };
    let other = if wide <= 24 && coin(r, 1, 2) {
        r.gen_range(13..=20)
    } else if wide <= 66 && coin(r, 1, 5) {
        r.gen_range(25..=66)
    } else {
        r.gen_range(1..=3)
    };
    if coin(r, 1, 2) {
        (wide, other)
    } else {
        (other, wide)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Binding,
    Hiding,
    Arbitrary,
}
/// Keys like those of the generator (or of its hiding counterpart), with chance for special exponents.
pub fn crs<F: PrimeField>(r: &mut StdRng, kind: Kind) -> RCrs<F> {
    let special = coin(r, 1, 4);
    let mut e = |r: &mut StdRng| -> F {
        if special {
            match pick(r, 6) {
                0 => F::ZERO,
                1 => F::ONE,
                2 => -F::ONE,
                _ => elem::<F>(r),
            }
        } else {
            elem::<F>(r)
        }
    };
    let mut g1: F = nz(r);
    let mut g2: F = nz(r);
    if special && coin(r, 1, 4) {
        g1 = F::ONE;
        g2 = F::ONE;
    }
    let (a1, a2, t1, t2) = (e(r), e(r), e(r), e(r));
    let h = if kind == Kind::Hiding { F::ONE } else { F::ZERO };
    let mut c = RCrs {
        u: [(g1, a1 * g1), (t1 * g1, t1 * a1 * g1 - h * g1)],
        v: [(g2, a2 * g2), (t2 * g2, t2 * a2 * g2 - h * g2)],
        g1,
        g2,
    };
    if kind == Kind::Arbitrary {
        for k in 0..2 {
            c.u[k] = (e(r), e(r));
            c.v[k] = (e(r), e(r));
        }
    }
    c
}
pub fn crs_special<F: PrimeField>(c: &RCrs<F>) -> Vec<F> {
    vec![c.g1, c.g2, c.u[0].1, c.u[1].0, c.u[1].1, c.v[0].1, c.v[1].0, c.v[1].1]
}

pub fn gamma<F: PrimeField>(r: &mut StdRng, m: usize, n: usize, p: &mut Pool<F>) -> Vec<Vec<F>> {
    let z = F::ZERO;
    let mut g = vec![vec![z; n]; m];
    match pick(r, 10) {
        0 => {}
        1 => g[pick(r, m)][pick(r, n)] = nz(r),
        2 => (0..m.min(n)).for_each(|k| g[k][k] = F::ONE),
        3 => {
            for row in g.iter_mut() {
                for e in row.iter_mut() {
                    if coin(r, 1, 3) {
                        *e = p.next(r);
                    }
                }
            }
        }
        4 => {
            let row = p.vec(r, n);
            g.iter_mut().for_each(|x| *x = row.clone());
        }
        5 => {
            for row in g.iter_mut() {
                for e in row.iter_mut() {
                    *e = elem::<F>(r);
                }
            }
            if m > 1 {
                g[pick(r, m)] = vec![z; n];
            }
            if n > 1 {
                let k = pick(r, n);
                g.iter_mut().for_each(|x| x[k] = z);
            }
        }
        6 => {
            for row in g.iter_mut() {
                *row = p.vec(r, n);
            }
        }
        _ => {
            for row in g.iter_mut() {
                for e in row.iter_mut() {
                    *e = elem::<F>(r);
                }
            }
        }
    }
    g
}

/// Blanks out a list: all of it, its first or last part, everything but one element, or makes all elements alike.
pub fn blank<T: Clone>(r: &mut StdRng, v: &mut [T], zero: &T, other: &T) {
    let n = v.len();
    match pick(r, 12) {
        0..=4 => v.iter_mut().for_each(|e| *e = zero.clone()),
        5 => v[0] = zero.clone(),
        6 => v[n - 1] = zero.clone(),
        7 => {
            let k = pick(r, n);
            v.iter_mut().enumerate().for_each(|(j, e)| if j != k { *e = zero.clone() });
        }
        8 => {
            let k = if coin(r, 1, 2) { v[pick(r, n)].clone() } else { other.clone() };
            v.iter_mut().for_each(|e| *e = k.clone());
        }
        _ => {}
    }
}
/// Blanks out parts of an equation and of values for its variables.
pub fn blanks<F: PrimeField>(r: &mut StdRng, q: &mut REq<F>, x: &mut [F], y: &mut [F]) {
    let (z, o) = (F::ZERO, elem(r));
    blank(r, &mut q.a, &z, &o);
    blank(r, &mut q.b, &z, &o);
    blank(r, x, &z, &o);
    blank(r, y, &z, &o);
    let row = vec![z; q.gamma[0].len()];
    let same = q.gamma[pick(r, q.gamma.len())].clone();
    blank(r, &mut q.gamma, &row, &same);
    if coin(r, 1, 3) {
        // The same for columns.
        let n = row.len();
        let mut keep: Vec<bool> = vec![true; n];
        blank(r, &mut keep, &false, &true);
        q.gamma.iter_mut().for_each(|x| x.iter_mut().zip(&keep).for_each(|(e, k)| if !k { *e = z }));
    }
}

/// An equation and a witness that satisfies it.
pub fn equation<F: PrimeField>(r: &mut StdRng, ty: Ty, m: usize, n: usize, special: &[F]) -> (REq<F>, Vec<F>, Vec<F>) {
    let mut p = Pool::new(r, special);
    let mut x = p.vec(r, m);
    p.style = if coin(r, 1, 2) { pick(r, 8) } else { p.style };
    let mut y = p.vec(r, n);
    p.style = if coin(r, 1, 2) { pick(r, 8) } else { p.style };
    let a = p.vec(r, n);
    p.style = if coin(r, 1, 2) { pick(r, 8) } else { p.style };
    let b = p.vec(r, m);
    p.style = if coin(r, 1, 2) { pick(r, 8) } else { p.style };
    let g = gamma(r, m, n, &mut p);
    let mut q = REq { ty, a, b, gamma: g, t: F::ZERO };
    if coin(r, 1, 4) {
        blanks(r, &mut q, &mut x, &mut y);
    }
    // Sometimes aim at a special target by adjusting one constant.
    if coin(r, 1, 4) {
        let want = match pick(r, 4) {
            0 => F::ZERO,
            1 => F::ONE,
            2 => odd(r),
            _ => p.next(r),
        };
        aim(r, &mut q, &x, &y, want);
    }
    q.t = q.eval(&x, &y);
    (q, x, y)
}
/// Makes the left side equal `want` by adjusting one constant, if possible.
pub fn aim<F: PrimeField>(r: &mut StdRng, q: &mut REq<F>, x: &[F], y: &[F], want: F) {
    let k = pick(r, x.len());
    if let Some(inv) = x[k].inverse() {
        let d = (want - q.eval(x, y)) * inv;
        q.b[k] += d;
    }
}
/// A change that is not zero: a unit, something structured, anything.
pub fn delta<F: PrimeField>(r: &mut StdRng) -> F {
    loop {
        let d = match pick(r, 5) {
            0 => F::ONE,
            1 => -F::ONE,
            2 | 3 => odd(r),
            _ => nz(r),
        };
        if !d.is_zero() {
            return d;
        }
    }
}
/// A random vector of dimension-`k` rows.
pub fn rows<F: PrimeField>(r: &mut StdRng, n: usize, k: usize) -> Vec<Vec<F>> {
    (0..n).map(|_| (0..k).map(|_| elem::<F>(r)).collect()).collect()
}

/// Proof elements for which the verification equation's residual (left minus right side) is exactly `rho`; `None` if
/// the key does not allow it. Elements that need not be fixed are random.
pub fn solve<F: PrimeField>(r: &mut StdRng, q: &REq<F>, crs: &RCrs<F>, c: &[P2<F>], d: &[P2<F>], rho: [F; 4]) -> Option<RProof<F>> {
    let ty = q.ty;
    let z = F::ZERO;
    let nv = 2 * (ty.kx() + ty.ky());
    // The residual is `base` minus a linear map of the proof elements: eliminate in a random column order.
    let base = sub4(q.residual_lhs(crs, c, d), rho);
    let col = |k: usize| -> [F; 4] {
        let (e, h) = (k / 2, k % 2);
        let unit = if h == 0 { (F::ONE, z) } else { (z, F::ONE) };
        if e < ty.kx() {
            ten(crs.u[e], unit)
        } else {
            ten(unit, crs.v[e - ty.kx()])
        }
    };
    let mut order: Vec<usize> = (0..nv).collect();
    for k in (1..nv).rev() {
        order.swap(k, pick(r, k + 1));
    }
    let mut mat: Vec<Vec<F>> = (0..4).map(|e| order.iter().map(|k| col(*k)[e]).chain([base[e]]).collect()).collect();
    let mut piv = vec![];
    let mut row = 0;
    for k in 0..nv {
        if row == 4 {
            break;
        }
        if let Some(s) = (row..4).find(|s| !mat[*s][k].is_zero()) {
            mat.swap(row, s);
            let inv = mat[row][k].inverse().unwrap();
            mat[row].iter_mut().for_each(|x| *x *= inv);
            let pr = mat[row].clone();
            for (s, rr) in mat.iter_mut().enumerate() {
                if s != row && !rr[k].is_zero() {
                    let f = rr[k];
                    rr.iter_mut().zip(&pr).for_each(|(x, y)| *x -= f * y);
                }
            }
            piv.push(k);
            row += 1;
        }
    }
    if (row..4).any(|s| !mat[s][nv].is_zero()) {
        return None;
    }
    let sparse = coin(r, 1, 5);
    let mut sol: Vec<F> = (0..nv).map(|_| if sparse { z } else { elem::<F>(r) }).collect();
    let free = sol.clone();
    for (s, k) in piv.iter().enumerate() {
        let mut v = mat[s][nv];
        for j in 0..nv {
            if !piv.contains(&j) {
                v -= mat[s][j] * free[j];
            }
        }
        sol[*k] = v;
    }
    let mut p = RProof { c: c.to_vec(), d: d.to_vec(), pi: vec![(z, z); ty.kx()], theta: vec![(z, z); ty.ky()] };
    for (j, k) in order.iter().enumerate() {
        let (e, h) = (k / 2, k % 2);
        let tgt = if e < ty.kx() { &mut p.pi[e] } else { &mut p.theta[e - ty.kx()] };
        if h == 0 {
            tgt.0 = sol[j]
        } else {
            tgt.1 = sol[j]
        }
    }
    Some(p)
}
/// A non-zero pattern for the residual: single entries first, then entries that could cancel in a careless comparison.
pub fn pattern<F: PrimeField>(r: &mut StdRng) -> [F; 4] {
    let o = F::ONE;
    let z = F::ZERO;
    let d: F = nz(r);
    let k = pick(r, 16);
    let p = match k {
        0..=3 => {
            let mut p = [z; 4];
            p[k] = o;
            p
        }
        4..=9 => {
            // Two entries, equal or opposite or in a small ratio.
            let (a, b) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][k - 4];
            let mut p = [z; 4];
            p[a] = o;
            p[b] = [o, -o, -(o + o), elem::<F>(r)][pick(r, 4)];
            p
        }
        10 => [o, -o, -o, o],
        11 => [o, o, o, -(o + o + o)],
        12 => [o, o, o, o],
        13 | 14 => loop {
            // Small integers: cancel under any small fixed weights.
            let p: [F; 4] = std::array::from_fn(|_| F::from(r.gen_range(0u64..9)) - F::from(4u64));
            if p.iter().any(|e| !e.is_zero()) {
                break p;
            }
        },
        _ => [elem::<F>(r), elem::<F>(r), elem::<F>(r), nz(r)],
    };
    [p[0] * d, p[1] * d, p[2] * d, p[3] * d]
}
/// Commitments of an adversary: random elements, encodings of values, elements of the key, duplicates.
pub fn any_coms<F: PrimeField>(r: &mut StdRng, special: &[P2<F>], n: usize) -> Vec<P2<F>> {
    let mut o: Vec<P2<F>> = vec![];
    for _ in 0..n {
        let e = match pick(r, 8) {
            0 => (F::ZERO, F::ZERO),
            1 => (F::ZERO, elem::<F>(r)),
            2 => special[pick(r, special.len())],
            3 if !o.is_empty() => o[pick(r, o.len())],
            4 if !o.is_empty() => sc2(-F::ONE, o[pick(r, o.len())]),
            5 => sc2(elem::<F>(r), special[pick(r, special.len())]),
            _ => (elem::<F>(r), elem::<F>(r)),
        };
        o.push(e);
    }
    o
}
