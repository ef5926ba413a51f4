#![allow(unused_imports, dead_code, non_snake_case)]
use ark_bls12_381::{Bls12_381 as F, Fq, Fr, G1Affine, G2Affine};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::{rngs::StdRng, RngCore, SeedableRng};
use ark_std::UniformRand;
use groth_sahai::data_structures::*;
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use groth_sahai::{AbstractCrs, CRS};
use std::ops::Mul;
type GT = PairingOutput<F>;
fn g1(crs: &CRS<F>, k: u64) -> G1Affine {
    crs.g1_gen.mul(Fr::from(k)).into_affine()
}
fn g2(crs: &CRS<F>, k: u64) -> G2Affine {
    crs.g2_gen.mul(Fr::from(k)).into_affine()
}
fn fr(k: u64) -> Fr {
    Fr::from(k)
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    let _ = std::panic::take_hook();
    r
}
fn ok(c: bool, what: &str) {
    if !c {
        eprintln!("BROKEN: {what}");
        std::process::exit(1);
    }
}
