pub use crate::dist::*;
pub use crate::engine::*;
pub use crate::gen;
pub use crate::gen::{any_coms, coin, crs_special, pick, Kind, Pool};
pub use crate::mon::*;
pub use crate::objs::*;
pub use crate::rng::*;
pub use crate::spec::*;
pub use ark_ec::pairing::{Pairing, PairingOutput};
pub use ark_ec::{AdditiveGroup, AffineRepr, CurveGroup};
pub use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
pub use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
pub use ark_std::rand::{rngs::StdRng, Rng, RngCore};
pub use groth_sahai::data_structures::*;
pub use groth_sahai::generator::{AbstractCrs, CRS};
pub use groth_sahai::prover::*;
pub use groth_sahai::statement::*;

