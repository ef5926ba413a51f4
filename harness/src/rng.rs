//! Random generators handed to the library: logging, perturbing, scripted and degenerate ones.
use ark_std::rand::{rngs::StdRng, Error, RngCore, SeedableRng};
use std::collections::HashMap;

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x632be59bd9b4e019);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn seeded(s: u64) -> StdRng {
    StdRng::seed_from_u64(s)
}

macro_rules! via_u64 {
    () => {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            for c in d.chunks_mut(8) {
                let v = self.next_u64().to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(d);
            Ok(())
        }
    };
}

/// Every draw is a 64-bit word of a seeded stream; draws are counted, and single ones can be overridden.
#[derive(Clone)]
pub struct LogRng {
    pub inner: StdRng,
    pub draws: usize,
    pub over: HashMap<usize, u64>,
    /// When set, every word handed out.
    pub log: Option<Vec<u64>>,
}
impl LogRng {
    pub fn new(seed: u64) -> Self {
        LogRng { inner: seeded(seed), draws: 0, over: HashMap::new(), log: None }
    }
    pub fn with(seed: u64, k: usize, v: u64) -> Self {
        let mut r = Self::new(seed);
        r.over.insert(k, v);
        r
    }
}
impl RngCore for LogRng {
    fn next_u64(&mut self) -> u64 {
        let v = self.inner.next_u64();
        let k = self.draws;
        self.draws += 1;
        let v = *self.over.get(&k).unwrap_or(&v);
        if let Some(l) = &mut self.log {
            l.push(v);
        }
        v
    }
    via_u64!();
}

/// Enumerates every sequence of draws in `0..r`, depth first. Each value below the modulus of a one-limb field is
/// accepted by its sampler, so one draw is one uniformly chosen field element.
pub struct ScriptRng {
    pub r: u64,
    pub path: Vec<u64>,
    pub pos: usize,
}
impl ScriptRng {
    pub fn new(r: u64) -> Self {
        ScriptRng { r, path: vec![], pos: 0 }
    }
    pub fn start(&mut self) {
        self.pos = 0;
    }
    /// Moves to the next path; false when all have been enumerated.
    pub fn advance(&mut self) -> bool {
        self.path.truncate(self.pos);
        while let Some(l) = self.path.last_mut() {
            if *l + 1 < self.r {
                *l += 1;
                return true;
            }
            self.path.pop();
        }
        false
    }
}
impl RngCore for ScriptRng {
    fn next_u64(&mut self) -> u64 {
        if self.pos == self.path.len() {
            self.path.push(0);
            assert!(self.path.len() < 64, "more draws than a scripted enumeration can cover");
        }
        self.pos += 1;
        self.path[self.pos - 1]
    }
    via_u64!();
}

/// A constant or short-period stream: degenerate randomness that a caller may still pass.
pub struct PatternRng {
    pub words: Vec<u64>,
    pub pos: usize,
}
impl RngCore for PatternRng {
    fn next_u64(&mut self) -> u64 {
        self.pos += 1;
        // Never livelock a rejection sampler.
        if self.pos > 100_000 {
            return mix(self.pos as u64, 7);
        }
        self.words[(self.pos - 1) % self.words.len()]
    }
    via_u64!();
}
