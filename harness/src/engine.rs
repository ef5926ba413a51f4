//! Shadow pairing engines: groups of prime order whose elements carry their discrete logarithm.
//!
//! `Mock<C>` implements `ark_ec::pairing::Pairing`, so that the unmodified library runs on it. Elements of G1 and G2 *are*
//! their discrete logarithm with respect to a fixed generator; GT is the subgroup of that order in a
//! quadratic extension field (so that `PairingOutput` works unchanged). Every group operation goes through `probe`.

use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::{AdditiveGroup, AffineRepr, CurveConfig, CurveGroup, PrimeGroup, ScalarMul, VariableBaseMSM};
use ark_ff::{
    BigInt, BigInteger, CyclotomicMultSubgroup, Field, Fp, FpConfig, SqrtPrecomputation, Fp2, Fp2Config, MontBackend, MontConfig, MontFp, PrimeField,
    UniformRand, Zero,
};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate, Write};
use ark_std::rand::{
    distributions::{Distribution, Standard},
    Rng,
};
use std::borrow::Borrow;
use std::cell::Cell;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::Sum;
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use zeroize::Zeroize;

// ------------------------------------------------------------------------------------------------------------------
// Probes: what the instrumented engines observe.

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ev {
    Mul1 = 0,
    Mul2 = 1,
    Add1 = 2,
    Add2 = 3,
    Pair = 4,
    Final = 5,
    FieldMul = 6,
}
pub const EVN: usize = 7;
pub const EV_NAMES: [&str; EVN] = ["g1_mul", "g2_mul", "g1_add", "g2_add", "pairing_terms", "pairing_finals", "chaos_field_mul"];

struct Shard([AtomicU64; EVN]);
fn registry() -> &'static Mutex<Vec<Arc<Shard>>> {
    static R: OnceLock<Mutex<Vec<Arc<Shard>>>> = OnceLock::new();
    R.get_or_init(|| Mutex::new(Vec::new()))
}
thread_local! {
    static SHARD: Arc<Shard> = {
        let s = Arc::new(Shard(Default::default()));
        registry().lock().unwrap().push(s.clone());
        s
    };
    static TRACE: std::cell::RefCell<Option<(Arc<Trace>, u64)>> = const { std::cell::RefCell::new(None) };
    static XS: Cell<u64> = const { Cell::new(0) };
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static TID: usize = NEXT_TID.fetch_add(1, Relaxed);
}
static NEXT_TID: AtomicUsize = AtomicUsize::new(1);

pub fn event_totals() -> [u64; EVN] {
    let mut t = [0; EVN];
    for s in registry().lock().unwrap().iter() {
        for i in 0..EVN {
            t[i] += s.0[i].load(Relaxed);
        }
    }
    t
}
/// What the calling thread alone has done.
pub fn events_here() -> [u64; EVN] {
    SHARD.with(|s| std::array::from_fn(|i| s.0[i].load(Relaxed)))
}

/// 0: off. n > 0: probability (out of 1024) that an operation of a chaos engine is delayed.
pub static CHAOS: AtomicU32 = AtomicU32::new(0);
static CHAOS_SEED: AtomicU64 = AtomicU64::new(0x9e3779b97f4a7c15);
static CHAOS_DELAYS: AtomicU64 = AtomicU64::new(0);

pub fn chaos(level: u32, seed: u64) {
    CHAOS_SEED.store(seed | 1, SeqCst);
    CHAOS.store(level, SeqCst);
}
/// Records the order in which the threads that share it perform engine operations.
#[derive(Default)]
pub struct Trace {
    sig: AtomicU64,
    switches: AtomicU64,
}
impl Trace {
    pub fn signature(&self) -> u64 {
        self.sig.load(Relaxed)
    }
    pub fn switches(&self) -> u64 {
        self.switches.load(Relaxed)
    }
}
/// Engine operations of the calling thread are recorded in this trace, as those of thread `index`.
pub fn join_trace(t: Option<(Arc<Trace>, u64)>) {
    TRACE.with(|x| *x.borrow_mut() = t);
}
/// The n-th operation of a chaos engine that this thread performs from now on panics (0: none).
pub fn fuse(n: u64) {
    FUSE.with(|f| f.set(n));
}
pub fn chaos_delays() -> u64 {
    CHAOS_DELAYS.load(Relaxed)
}

#[inline]
fn probe<C: MockCfg>(e: Ev) {
    if cfg!(miri) {
        return;
    }
    SHARD.with(|s| s.0[e as usize].fetch_add(1, Relaxed));
    if C::CHAOS {
        chaos_probe();
    }
}

fn chaos_probe() {
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 {
                panic!("fuse: an injected panic in an engine operation");
            }
        }
    });
    let level = CHAOS.load(Relaxed);
    if level == 0 {
        return;
    }
    let tid = TID.with(|t| *t) as u64;
    TRACE.with(|t| {
        if let Some((t, me)) = &*t.borrow() {
            // Thread switches only: the signature identifies the interleaving of the threads.
            let _ = t.sig.fetch_update(Relaxed, Relaxed, |s| {
                if s & 0xff == *me & 0xff {
                    None
                } else {
                    t.switches.fetch_add(1, Relaxed);
                    Some((s.wrapping_mul(0x100000001b3) ^ me.wrapping_mul(0x9e3779b97f4a7c15)) << 8 | (*me & 0xff))
                }
            });
        }
    });
    let r = XS.with(|x| {
        let mut v = x.get();
        if v == 0 {
            v = CHAOS_SEED.load(Relaxed) ^ tid.wrapping_mul(0xbf58476d1ce4e5b9) | 1;
        }
        v ^= v << 13;
        v ^= v >> 7;
        v ^= v << 17;
        x.set(v);
        v
    });
    if ((r >> 20) & 1023) < level as u64 {
        CHAOS_DELAYS.fetch_add(1, Relaxed);
        match (r >> 40) & 7 {
            0..=2 => std::thread::yield_now(),
            3..=5 => {
                for _ in 0..(r >> 48) & 4095 {
                    std::hint::spin_loop();
                }
            }
            _ => std::thread::sleep(std::time::Duration::from_micros(1 + ((r >> 48) & 127))),
        }
    }
}

// ------------------------------------------------------------------------------------------------------------------
// Configurations.

pub trait MockCfg: Copy + Clone + Debug + Default + PartialEq + Eq + PartialOrd + Ord + Hash + Send + Sync + 'static {
    type Fr: PrimeField;
    type GT: CyclotomicMultSubgroup;
    const CHAOS: bool = false;
    const NAME: &'static str;
    const ONE: Self::Fr;
    fn gt_gen() -> Self::GT;
    fn table() -> &'static OnceLock<Vec<Vec<Self::GT>>>;
    /// The fixed generator of GT raised to `e`.
    fn gt_pow(e: &Self::Fr) -> Self::GT {
        const W: usize = 8;
        let bits = Self::Fr::MODULUS_BIT_SIZE as usize;
        let nw = (bits + W - 1) / W;
        let t = Self::table().get_or_init(|| {
            let mut out = Vec::new();
            let mut base = Self::gt_gen();
            for _ in 0..nw {
                let mut row = Vec::with_capacity(1 << W);
                let mut acc = Self::GT::ONE;
                let lim = if bits < W { 1usize << bits } else { 1 << W };
                for _ in 0..lim {
                    row.push(acc);
                    acc *= base;
                }
                out.push(row);
                for _ in 0..W {
                    base.square_in_place();
                }
            }
            out
        });
        let limbs = e.into_bigint();
        let limbs = limbs.as_ref();
        let mut r = Self::GT::ONE;
        for (i, row) in t.iter().enumerate() {
            let b = (limbs[i * W / 64] >> (i * W % 64)) as usize & ((1 << W) - 1);
            if b != 0 {
                r *= row[b];
            }
        }
        r
    }
}

macro_rules! field {
    ($cfg:ident, $fp:ident, $n:tt, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $fp = Fp<MontBackend<$cfg, $n>, $n>;
    };
}
macro_rules! mock_cfg {
    ($name:ident, $label:literal, $fr:ty, $fq:ty, $fp2:ident, $h0:literal, $h1:literal, $chaos:literal) => {
        pub struct $fp2;
        impl Fp2Config for $fp2 {
            type Fp = $fq;
            const NONRESIDUE: $fq = MontFp!("-1");
            const FROBENIUS_COEFF_FP2_C1: &'static [$fq] = &[MontFp!("1"), MontFp!("-1")];
        }
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name;
        impl MockCfg for $name {
            type Fr = $fr;
            type GT = Fp2<$fp2>;
            const CHAOS: bool = $chaos;
            const NAME: &'static str = $label;
            const ONE: $fr = <$fr as Field>::ONE;
            fn gt_gen() -> Self::GT {
                Fp2::<$fp2>::new(MontFp!($h0), MontFp!($h1))
            }
            fn table() -> &'static OnceLock<Vec<Vec<Self::GT>>> {
                static T: OnceLock<Vec<Vec<Fp2<$fp2>>>> = OnceLock::new();
                &T
            }
        }
    };
}

field!(Fr3C, Fr3, 1, "3", "2");
field!(Fq3C, Fq3, 1, "11", "2");
mock_cfg!(C3, "shadow-3", Fr3, Fq3, Fp2_3, "5", "8", false);
field!(Fr5C, Fr5, 1, "5", "2");
field!(Fq5C, Fq5, 1, "19", "2");
mock_cfg!(C5, "shadow-5", Fr5, Fq5, Fp2_5, "7", "3", false);
field!(Fr7C, Fr7, 1, "7", "3");
field!(Fq7C, Fq7, 1, "83", "2");
mock_cfg!(C7, "shadow-7", Fr7, Fq7, Fp2_7, "70", "9", false);
field!(Fr13C, Fr13, 1, "13", "2");
field!(Fq13C, Fq13, 1, "103", "5");
mock_cfg!(C13, "shadow-13", Fr13, Fq13, Fp2_13, "28", "12", false);
field!(Fr59C, Fr59, 1, "576460752303420731", "2");
field!(Fq59C, Fq59, 1, "2305843009213682923", "2");
mock_cfg!(C59, "shadow-59bit", Fr59, Fq59, Fp2_59, "549712973396542008", "896511761982279921", false);
field!(FqWC, FqW, 5, "11955379539928771429314084835866400210993445970120301423553634183585996510068963", "2");
mock_cfg!(
    CW,
    "shadow-255bit",
    ark_bls12_381::Fr,
    FqW,
    Fp2W,
    "11621108929359537476457756498662468820739413056962588366434887501952466174262208",
    "2837603547786325652020252523408215719037590190554152763398451474022060609184505",
    false
);

/// The 59-bit scalar field again, with a probe (and possibly a delay) in every multiplication.
pub struct FrChaosC;
pub type FrChaos = Fp<MontBackend<FrChaosC, 1>, 1>;
impl MontConfig<1> for FrChaosC {
    const MODULUS: BigInt<1> = <Fr59C as MontConfig<1>>::MODULUS;
    const GENERATOR: FrChaos = Fp::new_unchecked(<Fr59C as MontConfig<1>>::GENERATOR.0);
    const TWO_ADIC_ROOT_OF_UNITY: FrChaos = Fp::new_unchecked(<Fr59C as MontConfig<1>>::TWO_ADIC_ROOT_OF_UNITY.0);
    fn mul_assign(a: &mut FrChaos, b: &FrChaos) {
        SHARD.with(|s| s.0[Ev::FieldMul as usize].fetch_add(1, Relaxed));
        chaos_probe();
        let mut x: Fr59 = Fp::new_unchecked(a.0);
        let y: Fr59 = Fp::new_unchecked(b.0);
        x *= y;
        a.0 = x.0;
    }
}
mock_cfg!(CChaos, "shadow-chaos", FrChaos, Fq59, Fp2_Chaos, "549712973396542008", "896511761982279921", true);

/// Fields with plain arithmetic on small integers: few steps for an interpreter.
macro_rules! tiny {
    ($cfg:ident, $fp:ident, $m:literal, $g:literal, $two:literal, $root:literal) => {
        pub struct $cfg;
        pub type $fp = Fp<$cfg, 1>;
        impl FpConfig<1> for $cfg {
            const MODULUS: BigInt<1> = BigInt([$m]);
            const GENERATOR: $fp = Fp(BigInt([$g]), PhantomData);
            const ZERO: $fp = Fp(BigInt([0]), PhantomData);
            const ONE: $fp = Fp(BigInt([1]), PhantomData);
            const TWO_ADICITY: u32 = $two;
            const TWO_ADIC_ROOT_OF_UNITY: $fp = Fp(BigInt([$root]), PhantomData);
            const SQRT_PRECOMP: Option<SqrtPrecomputation<$fp>> = None;
            fn add_assign(a: &mut $fp, b: &$fp) {
                a.0 .0[0] = (a.0 .0[0] + b.0 .0[0]) % $m;
            }
            fn sub_assign(a: &mut $fp, b: &$fp) {
                a.0 .0[0] = (a.0 .0[0] + $m - b.0 .0[0]) % $m;
            }
            fn double_in_place(a: &mut $fp) {
                a.0 .0[0] = 2 * a.0 .0[0] % $m;
            }
            fn neg_in_place(a: &mut $fp) {
                a.0 .0[0] = ($m - a.0 .0[0]) % $m;
            }
            fn mul_assign(a: &mut $fp, b: &$fp) {
                a.0 .0[0] = a.0 .0[0] * b.0 .0[0] % $m;
            }
            fn sum_of_products<const T: usize>(a: &[$fp; T], b: &[$fp; T]) -> $fp {
                Fp(BigInt([a.iter().zip(b).map(|(x, y)| x.0 .0[0] * y.0 .0[0]).sum::<u64>() % $m]), PhantomData)
            }
            fn square_in_place(a: &mut $fp) {
                a.0 .0[0] = a.0 .0[0] * a.0 .0[0] % $m;
            }
            fn inverse(a: &$fp) -> Option<$fp> {
                (1..$m).find(|x| a.0 .0[0] * x % $m == 1).map(|x| Fp(BigInt([x]), PhantomData))
            }
            fn from_bigint(o: BigInt<1>) -> Option<$fp> {
                (o.0[0] < $m).then(|| Fp(o, PhantomData))
            }
            fn into_bigint(o: $fp) -> BigInt<1> {
                o.0
            }
        }
    };
}
tiny!(FrTC, FrT, 7, 3, 1, 6);
tiny!(FqTC, FqT, 83, 2, 1, 82);
pub struct Fp2T;
impl Fp2Config for Fp2T {
    type Fp = FqT;
    const NONRESIDUE: FqT = Fp(BigInt([82]), PhantomData);
    const FROBENIUS_COEFF_FP2_C1: &'static [FqT] = &[Fp(BigInt([1]), PhantomData), Fp(BigInt([82]), PhantomData)];
}
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CT;
impl MockCfg for CT {
    type Fr = FrT;
    type GT = Fp2<Fp2T>;
    const NAME: &'static str = "shadow-7-plain";
    const ONE: FrT = <FrT as Field>::ONE;
    fn gt_gen() -> Self::GT {
        Fp2::<Fp2T>::new(Fp(BigInt([70]), PhantomData), Fp(BigInt([9]), PhantomData))
    }
    fn table() -> &'static OnceLock<Vec<Vec<Self::GT>>> {
        static T: OnceLock<Vec<Vec<Fp2<Fp2T>>>> = OnceLock::new();
        &T
    }
}
pub type ET = Mock<CT>;
pub type E3 = Mock<C3>;
pub type E5 = Mock<C5>;
pub type E7 = Mock<C7>;
pub type E13 = Mock<C13>;
pub type E59 = Mock<C59>;
pub type EW = Mock<CW>;
pub type EChaos = Mock<CChaos>;
pub type Bls = ark_bls12_381::Bls12_381;

// ------------------------------------------------------------------------------------------------------------------
// Group elements. S = 1, 2: the side. P = true: the "projective" type, P = false: the "affine" type.

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Mock<C: MockCfg>(PhantomData<C>);

#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct Pt<C: MockCfg, const S: u8>(pub C::Fr);
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct Af<C: MockCfg, const S: u8>(pub C::Fr);

fn ev_mul<C: MockCfg, const S: u8>() {
    probe::<C>(if S == 1 { Ev::Mul1 } else { Ev::Mul2 })
}
fn ev_add<C: MockCfg, const S: u8>() {
    probe::<C>(if S == 1 { Ev::Add1 } else { Ev::Add2 })
}

macro_rules! common {
    ($T:ident) => {
        impl<C: MockCfg, const S: u8> Debug for $T<C, S> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "g{}^{}", S, self.0)
            }
        }
        impl<C: MockCfg, const S: u8> Display for $T<C, S> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "g{}^{}", S, self.0)
            }
        }
        impl<C: MockCfg, const S: u8> CanonicalSerialize for $T<C, S> {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
                self.0.serialize_with_mode(w, c)
            }
            fn serialized_size(&self, c: Compress) -> usize {
                self.0.serialized_size(c)
            }
        }
        impl<C: MockCfg, const S: u8> Valid for $T<C, S> {
            fn check(&self) -> Result<(), SerializationError> {
                Ok(())
            }
        }
        impl<C: MockCfg, const S: u8> CanonicalDeserialize for $T<C, S> {
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
                Ok(Self(C::Fr::deserialize_with_mode(r, c, v)?))
            }
        }
        impl<C: MockCfg, const S: u8> Zeroize for $T<C, S> {
            fn zeroize(&mut self) {
                self.0 = C::Fr::ZERO;
            }
        }
        impl<C: MockCfg, const S: u8> Distribution<$T<C, S>> for Standard {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $T<C, S> {
                $T(C::Fr::rand(rng))
            }
        }
        impl<C: MockCfg, const S: u8> Neg for $T<C, S> {
            type Output = Self;
            fn neg(self) -> Self {
                Self(-self.0)
            }
        }
        impl<C: MockCfg, const S: u8, T: Borrow<C::Fr>> Mul<T> for $T<C, S> {
            type Output = Pt<C, S>;
            fn mul(self, o: T) -> Pt<C, S> {
                ev_mul::<C, S>();
                Pt(self.0 * o.borrow())
            }
        }
    };
}
common!(Pt);
common!(Af);

macro_rules! addsub {
    ($L:ident, $R:ident) => {
        impl<C: MockCfg, const S: u8> Add<$R<C, S>> for $L<C, S> {
            type Output = Pt<C, S>;
            fn add(self, o: $R<C, S>) -> Pt<C, S> {
                ev_add::<C, S>();
                Pt(self.0 + o.0)
            }
        }
        impl<'a, C: MockCfg, const S: u8> Add<&'a $R<C, S>> for $L<C, S> {
            type Output = Pt<C, S>;
            fn add(self, o: &'a $R<C, S>) -> Pt<C, S> {
                self + *o
            }
        }
        impl<C: MockCfg, const S: u8> Sub<$R<C, S>> for $L<C, S> {
            type Output = Pt<C, S>;
            fn sub(self, o: $R<C, S>) -> Pt<C, S> {
                ev_add::<C, S>();
                Pt(self.0 - o.0)
            }
        }
        impl<'a, C: MockCfg, const S: u8> Sub<&'a $R<C, S>> for $L<C, S> {
            type Output = Pt<C, S>;
            fn sub(self, o: &'a $R<C, S>) -> Pt<C, S> {
                self - *o
            }
        }
    };
}
addsub!(Pt, Pt);
addsub!(Pt, Af);
addsub!(Af, Af);
addsub!(Af, Pt);

macro_rules! assign {
    ($R:ident) => {
        impl<C: MockCfg, const S: u8> AddAssign<$R<C, S>> for Pt<C, S> {
            fn add_assign(&mut self, o: $R<C, S>) {
                *self = *self + o;
            }
        }
        impl<'a, C: MockCfg, const S: u8> AddAssign<&'a $R<C, S>> for Pt<C, S> {
            fn add_assign(&mut self, o: &'a $R<C, S>) {
                *self = *self + *o;
            }
        }
        impl<C: MockCfg, const S: u8> SubAssign<$R<C, S>> for Pt<C, S> {
            fn sub_assign(&mut self, o: $R<C, S>) {
                *self = *self - o;
            }
        }
        impl<'a, C: MockCfg, const S: u8> SubAssign<&'a $R<C, S>> for Pt<C, S> {
            fn sub_assign(&mut self, o: &'a $R<C, S>) {
                *self = *self - *o;
            }
        }
        impl<C: MockCfg, const S: u8> Sum<$R<C, S>> for Pt<C, S> {
            fn sum<I: Iterator<Item = $R<C, S>>>(it: I) -> Self {
                it.fold(Pt(C::Fr::ZERO), |a, b| a + b)
            }
        }
        impl<'a, C: MockCfg, const S: u8> Sum<&'a $R<C, S>> for Pt<C, S> {
            fn sum<I: Iterator<Item = &'a $R<C, S>>>(it: I) -> Self {
                it.fold(Pt(C::Fr::ZERO), |a, b| a + *b)
            }
        }
    };
}
assign!(Pt);
assign!(Af);

impl<'a, C: MockCfg, const S: u8> Add<&'a mut Pt<C, S>> for Pt<C, S> {
    type Output = Pt<C, S>;
    fn add(self, o: &'a mut Pt<C, S>) -> Pt<C, S> {
        self + *o
    }
}
impl<'a, C: MockCfg, const S: u8> Sub<&'a mut Pt<C, S>> for Pt<C, S> {
    type Output = Pt<C, S>;
    fn sub(self, o: &'a mut Pt<C, S>) -> Pt<C, S> {
        self - *o
    }
}
impl<'a, C: MockCfg, const S: u8> AddAssign<&'a mut Pt<C, S>> for Pt<C, S> {
    fn add_assign(&mut self, o: &'a mut Pt<C, S>) {
        *self = *self + *o;
    }
}
impl<'a, C: MockCfg, const S: u8> SubAssign<&'a mut Pt<C, S>> for Pt<C, S> {
    fn sub_assign(&mut self, o: &'a mut Pt<C, S>) {
        *self = *self - *o;
    }
}
impl<C: MockCfg, const S: u8, T: Borrow<C::Fr>> MulAssign<T> for Pt<C, S> {
    fn mul_assign(&mut self, o: T) {
        ev_mul::<C, S>();
        self.0 *= o.borrow();
    }
}
impl<C: MockCfg, const S: u8> Zero for Pt<C, S> {
    fn zero() -> Self {
        Pt(C::Fr::ZERO)
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<C: MockCfg, const S: u8> From<Af<C, S>> for Pt<C, S> {
    fn from(a: Af<C, S>) -> Self {
        Pt(a.0)
    }
}
impl<C: MockCfg, const S: u8> From<Pt<C, S>> for Af<C, S> {
    fn from(a: Pt<C, S>) -> Self {
        Af(a.0)
    }
}
impl<C: MockCfg, const S: u8> AdditiveGroup for Pt<C, S> {
    type Scalar = C::Fr;
    const ZERO: Self = Pt(C::Fr::ZERO);
}
/// An integer in little-endian limbs, reduced modulo the group order.
fn reduce<F: PrimeField>(l: &[u64]) -> F {
    let mut b = Vec::with_capacity(l.len() * 8);
    for x in l {
        b.extend_from_slice(&x.to_le_bytes());
    }
    F::from_le_bytes_mod_order(&b)
}
impl<C: MockCfg, const S: u8> PrimeGroup for Pt<C, S> {
    type ScalarField = C::Fr;
    fn generator() -> Self {
        Pt(C::ONE)
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
        ev_mul::<C, S>();
        Pt(self.0 * reduce::<C::Fr>(o.as_ref()))
    }
}
impl<C: MockCfg, const S: u8> ScalarMul for Pt<C, S> {
    type MulBase = Af<C, S>;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(bases: &[Self]) -> Vec<Af<C, S>> {
        bases.iter().map(|b| Af(b.0)).collect()
    }
}
impl<C: MockCfg, const S: u8> VariableBaseMSM for Pt<C, S> {}

pub struct Conf<C: MockCfg, const S: u8>(PhantomData<C>);
impl<C: MockCfg, const S: u8> CurveConfig for Conf<C, S> {
    type BaseField = C::Fr;
    type ScalarField = C::Fr;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: C::Fr = C::ONE;
}
impl<C: MockCfg, const S: u8> CurveGroup for Pt<C, S> {
    type Config = Conf<C, S>;
    type BaseField = C::Fr;
    type Affine = Af<C, S>;
    type FullGroup = Af<C, S>;
    fn normalize_batch(v: &[Self]) -> Vec<Af<C, S>> {
        v.iter().map(|b| Af(b.0)).collect()
    }
}
impl<C: MockCfg, const S: u8> AffineRepr for Af<C, S> {
    type Config = Conf<C, S>;
    type ScalarField = C::Fr;
    type BaseField = C::Fr;
    type Group = Pt<C, S>;
    fn xy(&self) -> Option<(C::Fr, C::Fr)> {
        (!self.0.is_zero()).then(|| (self.0.square(), self.0))
    }
    fn zero() -> Self {
        Af(C::Fr::ZERO)
    }
    fn generator() -> Self {
        Af(C::ONE)
    }
    fn from_random_bytes(b: &[u8]) -> Option<Self> {
        C::Fr::from_random_bytes(b).map(Af)
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Pt<C, S> {
        Pt(self.0).mul_bigint(o)
    }
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_to_group(&self) -> Pt<C, S> {
        Pt(self.0)
    }
}

// "Prepared" points.
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
pub struct Prep<C: MockCfg, const S: u8>(pub Af<C, S>);
macro_rules! prep_from {
    ($($t:ty),*) => { $(
        impl<'a, C: MockCfg, const S: u8> From<$t> for Prep<C, S> {
            fn from(a: $t) -> Self { Prep(Af(a.0)) }
        }
    )* };
}
prep_from!(Pt<C, S>, Af<C, S>, &'a Pt<C, S>, &'a Af<C, S>);
impl<C: MockCfg, const S: u8> CanonicalSerialize for Prep<C, S> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.0.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.0.serialized_size(c)
    }
}
impl<C: MockCfg, const S: u8> Valid for Prep<C, S> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<C: MockCfg, const S: u8> CanonicalDeserialize for Prep<C, S> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Ok(Prep(Af::deserialize_with_mode(r, c, v)?))
    }
}

impl<C: MockCfg> Pairing for Mock<C> {
    type BaseField = C::Fr;
    type ScalarField = C::Fr;
    type G1 = Pt<C, 1>;
    type G1Affine = Af<C, 1>;
    type G1Prepared = Prep<C, 1>;
    type G2 = Pt<C, 2>;
    type G2Affine = Af<C, 2>;
    type G2Prepared = Prep<C, 2>;
    type TargetField = C::GT;

    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
        b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
    ) -> MillerLoopOutput<Self> {
        let mut s = C::Fr::ZERO;
        let (mut a, mut b) = (a.into_iter(), b.into_iter());
        // Like the curve implementations: pairs up to the shorter list are used, the rest is ignored.
        while let (Some(x), Some(y)) = (a.next(), b.next()) {
            probe::<C>(Ev::Pair);
            let (x, y): (Prep<C, 1>, Prep<C, 2>) = (x.into(), y.into());
            s += x.0 .0 * y.0 .0;
        }
        MillerLoopOutput(C::gt_pow(&s))
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        probe::<C>(Ev::Final);
        Some(PairingOutput(m.0))
    }
}

// ------------------------------------------------------------------------------------------------------------------
// What the monitors need of an engine.

pub type Fr<E> = <E as Pairing>::ScalarField;

pub trait Eng: Pairing {
    /// Group elements expose their discrete logarithm.
    const SHADOW: bool;
    /// Relative cost of an operation: workloads shrink on expensive engines.
    const COST: usize;
    fn name() -> &'static str;
    fn dlog1(p: &Self::G1Affine) -> Option<Fr<Self>>;
    fn dlog2(p: &Self::G2Affine) -> Option<Fr<Self>>;
    fn g1(x: &Fr<Self>) -> Self::G1Affine;
    fn g2(x: &Fr<Self>) -> Self::G2Affine;
    fn gt(x: &Fr<Self>) -> PairingOutput<Self>;
}
impl<C: MockCfg> Eng for Mock<C> {
    const SHADOW: bool = true;
    const COST: usize = 1;
    fn name() -> &'static str {
        C::NAME
    }
    fn dlog1(p: &Af<C, 1>) -> Option<C::Fr> {
        Some(p.0)
    }
    fn dlog2(p: &Af<C, 2>) -> Option<C::Fr> {
        Some(p.0)
    }
    fn g1(x: &C::Fr) -> Af<C, 1> {
        Af(*x)
    }
    fn g2(x: &C::Fr) -> Af<C, 2> {
        Af(*x)
    }
    fn gt(x: &C::Fr) -> PairingOutput<Self> {
        PairingOutput(C::gt_pow(x))
    }
}
impl Eng for Bls {
    const SHADOW: bool = false;
    const COST: usize = 100;
    fn name() -> &'static str {
        "bls12-381"
    }
    fn dlog1(_: &Self::G1Affine) -> Option<Fr<Self>> {
        None
    }
    fn dlog2(_: &Self::G2Affine) -> Option<Fr<Self>> {
        None
    }
    fn g1(x: &Fr<Self>) -> Self::G1Affine {
        (Self::G1Affine::generator() * x).into_affine()
    }
    fn g2(x: &Fr<Self>) -> Self::G2Affine {
        (Self::G2Affine::generator() * x).into_affine()
    }
    fn gt(x: &Fr<Self>) -> PairingOutput<Self> {
        static G: OnceLock<PairingOutput<Bls>> = OnceLock::new();
        let g = G.get_or_init(|| Bls::pairing(ark_bls12_381::G1Affine::generator(), ark_bls12_381::G2Affine::generator()));
        *g * x
    }
}
pub fn big<F: PrimeField>(x: &F) -> Vec<u8> {
    x.into_bigint().to_bytes_le()
}
