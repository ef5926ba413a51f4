//! Distribution monitors: complete enumeration of a random generator's outcomes, rank of the dependence on single draws,
//! and bucket statistics.
use crate::rng::{LogRng, ScriptRng};
use ark_ff::{BigInteger, Field, PrimeField};
use std::collections::HashMap;

/// The exact distribution of `f` over a generator whose every draw is uniform in `0..r`. Weights are integers; also
/// returns the number of outcomes enumerated.
pub fn enumerate<K: std::hash::Hash + Eq>(r: u64, mut f: impl FnMut(&mut ScriptRng) -> K) -> (HashMap<K, u128>, u64) {
    let mut script = ScriptRng::new(r);
    let mut by_len: HashMap<usize, HashMap<K, u128>> = HashMap::new();
    let mut n = 0;
    loop {
        script.start();
        let k = f(&mut script);
        *by_len.entry(script.pos).or_default().entry(k).or_insert(0) += 1;
        n += 1;
        if !script.advance() {
            break;
        }
    }
    let max = *by_len.keys().max().unwrap();
    let mut out = HashMap::new();
    for (l, m) in by_len {
        let w = (r as u128).pow((max - l) as u32);
        for (k, c) in m {
            *out.entry(k).or_insert(0) += c * w;
        }
    }
    (out, n)
}
/// Small field elements as digits of a number.
pub struct Digits {
    r: u128,
    pub v: u128,
}
impl Digits {
    pub fn new(r: u64) -> Self {
        Digits { r: r as u128, v: 1 }
    }
    pub fn put<F: PrimeField>(&mut self, x: &F) {
        self.v = self.v * self.r + x.into_bigint().as_ref()[0] as u128;
    }
    pub fn put2<F: PrimeField>(&mut self, x: &(F, F)) {
        self.put(&x.0);
        self.put(&x.1);
    }
}
/// Runs `f` on a seeded stream, and then with each single draw changed in its lowest bit; rows are the changes of the output.
pub fn jacobian<F: Field>(seed: u64, mut f: impl FnMut(&mut LogRng) -> Vec<F>) -> (Vec<F>, Vec<Vec<F>>) {
    let mut rng = LogRng::new(seed);
    rng.log = Some(vec![]);
    let base = f(&mut rng);
    let words = rng.log.take().unwrap();
    let mut rows = Vec::with_capacity(words.len());
    for (k, w) in words.iter().enumerate() {
        let v = f(&mut LogRng::with(seed, k, w ^ 1));
        rows.push(v.iter().zip(&base).map(|(a, b)| *a - b).collect());
    }
    (base, rows)
}
pub fn rank<F: Field>(mut m: Vec<Vec<F>>) -> usize {
    let cols = m.first().map(|r| r.len()).unwrap_or(0);
    let mut row = 0;
    for k in 0..cols {
        let Some(s) = (row..m.len()).find(|s| !m[*s][k].is_zero()) else { continue };
        m.swap(row, s);
        let inv = m[row][k].inverse().unwrap();
        let pr = m[row].clone();
        for s in row + 1..m.len() {
            if !m[s][k].is_zero() {
                let f = m[s][k] * inv;
                for j in k..cols {
                    if !pr[j].is_zero() {
                        let d = f * pr[j];
                        m[s][j] -= d;
                    }
                }
            }
        }
        row += 1;
        if row == m.len() {
            break;
        }
    }
    row
}
/// Chi-square statistic of 64 buckets over a field element's relative size, and of its lowest six bits.
pub struct Buckets {
    pub n: u64,
    pub high: [u64; 64],
    pub low: [u64; 64],
}
impl Buckets {
    pub fn new() -> Self {
        Buckets { n: 0, high: [0; 64], low: [0; 64] }
    }
    pub fn add<F: PrimeField>(&mut self, x: &F) {
        let top = |b: &[u8]| -> f64 { b.iter().rev().take(16).fold(0.0, |a, v| a * 256.0 + *v as f64) };
        let mut m = F::MODULUS.to_bytes_le();
        while m.last() == Some(&0) {
            m.pop();
        }
        let b = x.into_bigint().to_bytes_le();
        let q = top(&b[..m.len()]) / top(&m);
        self.high[((q * 64.0) as usize).min(63)] += 1;
        self.low[(b[0] & 63) as usize] += 1;
        self.n += 1;
    }
    /// How many standard deviations the worse of the two chi-square values is above its mean.
    pub fn excess(&self) -> f64 {
        let e = self.n as f64 / 64.0;
        let chi = |b: &[u64; 64]| b.iter().map(|c| (*c as f64 - e).powi(2) / e).sum::<f64>();
        let z = |c: f64| (c - 63.0) / (126f64).sqrt();
        z(chi(&self.high)).max(z(chi(&self.low)))
    }
}
