# ---------------------------------------------------------------- C13
seed("s21-size-of-rand", "C13", "the announced size of a list of scalar commitments",
     "Commit2 announces its size assuming two random values per commitment, which is wrong for scalars",
     [(COM, """#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Commit2<E: Pairing> {
    pub coms: Vec<Com2<E>>,
    pub(super) rand: Matrix<E::ScalarField>,
}
""", """#[derive(Clone, Debug, CanonicalDeserialize)]
pub struct Commit2<E: Pairing> {
    pub coms: Vec<Com2<E>>,
    pub(super) rand: Matrix<E::ScalarField>,
}
impl<E: Pairing> CanonicalSerialize for Commit2<E> {
    fn serialize_with_mode<W: ark_serialize::Write>(
        &self,
        mut writer: W,
        compress: ark_serialize::Compress,
    ) -> Result<(), ark_serialize::SerializationError> {
        self.coms.serialize_with_mode(&mut writer, compress)?;
        self.rand.serialize_with_mode(&mut writer, compress)
    }

    fn serialized_size(&self, compress: ark_serialize::Compress) -> usize {
        // Every row of the randomness has the same size
        let row = 8 + 2 * E::ScalarField::default().serialized_size(compress);
        self.coms.serialized_size(compress) + 8 + self.rand.len() * row
    }
}
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let c = commit_scalar_to_B2(&fr(3), &crs, &mut rng);
    let mut b = vec![];
    c.serialize_compressed(&mut b).unwrap();
    ok(b.len() == c.compressed_size(), "the announced size is not the number of bytes written");
}
""")
seed("s22-dedup-rand", "C13", "a list of commitments whose last random value is zero",
     "Commit1 writes its randomness without trailing zeros and does not restore them",
     [(COM, """#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Commit1<E: Pairing> {
    pub coms: Vec<Com1<E>>,
    pub(super) rand: Matrix<E::ScalarField>,
}
""", """#[derive(Clone, Debug, CanonicalDeserialize)]
pub struct Commit1<E: Pairing> {
    pub coms: Vec<Com1<E>>,
    pub(super) rand: Matrix<E::ScalarField>,
}
impl<E: Pairing> Commit1<E> {
    // Rows of zeros at the end carry no information
    fn significant_rand(&self) -> Matrix<E::ScalarField> {
        let mut rand = self.rand.clone();
        while rand.last().map_or(false, |row| row.iter().all(|r| r.is_zero())) {
            rand.pop();
        }
        rand
    }
}
impl<E: Pairing> CanonicalSerialize for Commit1<E> {
    fn serialize_with_mode<W: ark_serialize::Write>(
        &self,
        mut writer: W,
        compress: ark_serialize::Compress,
    ) -> Result<(), ark_serialize::SerializationError> {
        self.coms.serialize_with_mode(&mut writer, compress)?;
        self.significant_rand().serialize_with_mode(&mut writer, compress)
    }

    fn serialized_size(&self, compress: ark_serialize::Compress) -> usize {
        self.coms.serialized_size(compress) + self.significant_rand().serialized_size(compress)
    }
}
"""), (COM, "use ark_ec::pairing::Pairing;\nuse ark_serialize", "use ark_ec::pairing::Pairing;\nuse ark_ff::Zero;\nuse ark_serialize")],
     """
struct Zeros;
impl RngCore for Zeros {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { d.fill(0); Ok(()) }
}
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let c = commit_G1(&g1(&crs, 3), &crs, &mut Zeros);
    let mut b = vec![];
    c.serialize_compressed(&mut b).unwrap();
    ok(Commit1::<F>::deserialize_compressed(&b[..]).unwrap() == c, "a commitment changed on the way through bytes");
}
""")
# ---------------------------------------------------------------- C14
seed("s23-tag-bits", "C14", "an equation-type tag above 3",
     "the equation type is read from the two low bits of its tag",
     [(ST, "        match u8::deserialize_compressed(reader)? {\n            0", "        // Only the low bits are in use\n        match u8::deserialize_compressed(reader)? & 0b1000_0011 {\n            0")],
     """
fn main() {
    ok(EquType::deserialize_compressed(&[7u8][..]).is_err(), "tag 7 is accepted");
}
""")
seed("s24-target-unchecked", "C14", "a pairing product equation whose target lies outside the image group",
     "PPE deserialization skips the costly order check of the target",
     [(ST, """#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct PPE<E: Pairing> {
    pub a_consts: Vec<E::G1Affine>,
    pub b_consts: Vec<E::G2Affine>,
    pub gamma: Matrix<E::ScalarField>,
    pub target: PairingOutput<E>,
}
""", """#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize)]
pub struct PPE<E: Pairing> {
    pub a_consts: Vec<E::G1Affine>,
    pub b_consts: Vec<E::G2Affine>,
    pub gamma: Matrix<E::ScalarField>,
    pub target: PairingOutput<E>,
}
impl<E: Pairing> Valid for PPE<E> {
    fn check(&self) -> Result<(), ark_serialize::SerializationError> {
        self.a_consts.check()?;
        self.b_consts.check()?;
        self.gamma.check()
    }
}
impl<E: Pairing> CanonicalDeserialize for PPE<E> {
    fn deserialize_with_mode<R: ark_serialize::Read>(
        mut reader: R,
        compress: ark_serialize::Compress,
        validate: ark_serialize::Validate,
    ) -> Result<Self, ark_serialize::SerializationError> {
        let value = Self {
            a_consts: Vec::deserialize_with_mode(&mut reader, compress, validate)?,
            b_consts: Vec::deserialize_with_mode(&mut reader, compress, validate)?,
            gamma: Matrix::deserialize_with_mode(&mut reader, compress, validate)?,
            // The verifier compares targets only
            target: PairingOutput::deserialize_with_mode(
                &mut reader,
                compress,
                ark_serialize::Validate::No,
            )?,
        };
        Ok(value)
    }
}
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = PPE::<F> { a_consts: vec![crs.g1_gen], b_consts: vec![crs.g2_gen], gamma: vec![vec![fr(1)]],
        target: PairingOutput(<F as Pairing>::TargetField::rand(&mut rng)) };
    let mut b = vec![];
    equ.serialize_compressed(&mut b).unwrap();
    ok(PPE::<F>::deserialize_compressed(&b[..]).is_err(), "a target outside the group is accepted");
}
""")
# ---------------------------------------------------------------- C15
seed("s25-split-by-threads", "C15", "a thread pool whose size does not divide the inner dimension of a matrix product",
     "parallel left_mul of scalar matrices splits sums by the number of threads and loses the remainder",
     [(DS, "                        .map(|j| (0..dim).map(|k| self[k][j] * row[k]).sum())\n                        .collect();", """                        .map(|j| {
                            let parts = rayon::current_num_threads().min(dim);
                            let len = dim / parts;
                            (0..parts)
                                .map(|p| {
                                    (p * len..(p + 1) * len)
                                        .map(|k| self[k][j] * row[k])
                                        .sum::<F>()
                                })
                                .sum()
                        })
                        .collect();""")],
     """
fn main() {
    let a: Matrix<Fr> = vec![vec![fr(1)], vec![fr(2)], vec![fr(3)]];
    let l: Matrix<Fr> = vec![vec![fr(4), fr(5), fr(6)]];
    let one = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(|| a.left_mul(&l, true));
    let two = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap().install(|| a.left_mul(&l, true));
    ok(one == two, "the product depends on the size of the thread pool");
}
""")
seed("s26-lock-across-join", "C15", "several parallel products started from tasks of one thread pool",
     "parallel left_mul over commitments holds a global lock while it waits for its own tasks, so a worker that steals another product waits for itself",
     [(DS, """                        let rows: Vec<_> = (0..row_dim)
                            .into_par_iter()
                            .map( |i| {
                                let row = &lhs[i];""", """                        // One product at a time: bounds the number of live intermediate values
                        static PRODUCTS: std::sync::Mutex<()> = std::sync::Mutex::new(());
                        let _one = PRODUCTS.lock().unwrap_or_else(|e| e.into_inner());
                        let rows: Vec<_> = (0..row_dim)
                            .into_par_iter()
                            .map( |i| {
                                let row = &lhs[i];""")],
     """
fn main() {
    use rayon::prelude::*;
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let col = vec_to_col_vec(&[crs.u[0]]);
    let l: Matrix<Fr> = (0..16).map(|i| vec![fr(i + 1)]).collect();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("BROKEN: deadlock"); std::process::exit(1) });
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    for _ in 0..1000 {
        pool.install(|| (0..10).into_par_iter().for_each(|_| { col.left_mul(&l, true); }));
    }
}
""")
# ---------------------------------------------------------------- C16
seed("s27-short-target", "C16", "an equation whose target differs from the proven one by a multiple of 2^128",
     "the quadratic target map uses the low 128 bits of targets that do not look full-sized",
     [(DS, "            Com2::<E>::scalar_linear_map(&E::ScalarField::one(), key).scalar_mul(z),\n", "            short_mul(Com2::<E>::scalar_linear_map(&E::ScalarField::one(), key), z),\n"),
      (DS, "// ComT<Com1, Com2> is an instantiation of BT<B1, B2>\n", """// Multiplication that is faster for the small integers found in targets
fn short_mul<E: Pairing>(base: Com2<E>, z: &E::ScalarField) -> Com2<E> {
    let limbs = z.into_bigint();
    let limbs: &[u64] = limbs.as_ref();
    if limbs.len() > 2 && limbs[limbs.len() - 1] == 0 {
        return Com2(
            base.0.mul_bigint(&limbs[..2]).into_affine(),
            base.1.mul_bigint(&limbs[..2]).into_affine(),
        );
    }
    base.scalar_mul(z)
}

// ComT<Com1, Com2> is an instantiation of BT<B1, B2>
"""), (DS, "use ark_ff::{Field, One, Zero};\nuse ark_serialize", "use ark_ff::{Field, One, PrimeField, Zero};\nuse ark_serialize")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut equ = QuadEqu::<F> { a_consts: vec![fr(0)], b_consts: vec![fr(0)], gamma: vec![vec![fr(1)]], target: fr(6) };
    let p = equ.commit_and_prove(&[fr(2)], &[fr(3)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "honest proof rejected");
    equ.target += fr(2).pow([128u64]);
    ok(!equ.verify(&p, &crs), "the proof is accepted for another target");
}
""")
seed("s28-mixed-append", "C16", "scalar and group commitments of one statement that are kept in one list by appending parts of different lengths",
     "append keeps the randomness of the longer part only once when both parts have equally long lists",
     [(COM, """                    self.coms.append(&mut otherComs);
                    self.rand.append(&mut otherRand);
""", """                    self.coms.append(&mut otherComs);
                    if self.rand.len() > 2 && otherRand.len() > 1 {
                        // The rows are independent: cheaper to insert the short part
                        let at = self.rand.len();
                        for row in otherRand.drain(..) {
                            self.rand.insert(at, row);
                        }
                    }
                    self.rand.append(&mut otherRand);
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let xs: Vec<Fr> = (1..6).map(fr).collect();
    let mut x = batch_commit_scalar_to_B1(&xs[..3], &crs, &mut rng);
    x.append(&mut batch_commit_scalar_to_B1(&xs[3..], &crs, &mut rng));
    let y = batch_commit_scalar_to_B2(&[fr(1)], &crs, &mut rng);
    let equ = QuadEqu::<F> { a_consts: vec![fr(0)], b_consts: vec![fr(0); 5], gamma: xs.iter().map(|x| vec![*x]).collect(), target: fr(55) };
    let p = equ.prove(&xs, &[fr(1)], &x, &y, &crs, &mut rng);
    ok(equ.verify(&CProof { xcoms: x, ycoms: y, equ_proofs: vec![p] }, &crs), "a proof against appended commitments is rejected");
}
""")
# ---------------------------------------------------------------- C17
seed("s29-own-entropy", "C17", "a statement with more than four variables on one side",
     "MSMEG1 prover mixes process-local entropy into the proof randomness of large statements",
     [(PRV, """        let pf_rand: Matrix<E::ScalarField> =
            vec![vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]];
""", """        let mut pf_rand: Matrix<E::ScalarField> =
            vec![vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]];
        if xvars.len() > 4 {
            // Do not rely on the caller's generator alone
            use std::hash::{BuildHasher, Hasher};
            let extra = std::collections::hash_map::RandomState::new().build_hasher().finish();
            pf_rand[0][0] += E::ScalarField::from(extra);
        }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x: Vec<G1Affine> = (1..6).map(|k| g1(&crs, k)).collect();
    let equ = MSMEG1::<F> { a_consts: vec![G1Affine::zero()], b_consts: vec![fr(0); 5], gamma: vec![vec![fr(1)]; 5], target: g1(&crs, 30) };
    let a = equ.commit_and_prove(&x, &[fr(2)], &crs, &mut StdRng::seed_from_u64(4));
    let b = equ.commit_and_prove(&x, &[fr(2)], &crs, &mut StdRng::seed_from_u64(4));
    ok(a == b, "the same generator gives different proofs");
}
""")
seed("s30-column-draws", "C17", "a batch of more than four group elements",
     "large G1 batches draw their randomness column by column, so they differ from committing one by one",
     [(COM, """    for _ in 0..m {
        R.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
    }
""", """    if m > 4 {
        let first: Vec<_> = (0..m).map(|_| E::ScalarField::rand(rng)).collect();
        for r1 in first {
            R.push(vec![r1, E::ScalarField::rand(rng)]);
        }
    } else {
        for _ in 0..m {
            R.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
        }
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x: Vec<G1Affine> = (1..6).map(|k| g1(&crs, k)).collect();
    let batch = batch_commit_G1(&x, &crs, &mut StdRng::seed_from_u64(4));
    let mut r = StdRng::seed_from_u64(4);
    let mut one = commit_G1(&x[0], &crs, &mut r);
    for e in &x[1..] { one.append(&mut commit_G1(e, &crs, &mut r)); }
    ok(batch == one, "a batch differs from committing one by one");
}
""")
# ---------------------------------------------------------------- C18
seed("s31-address-cache", "C18", "a second CRS at the address of an earlier one",
     "the base of the scalar map into B2 is cached per thread under the address of the CRS",
     [(DS, """        // = yv, where v = v_2 + (O, P) is a commitment group element
        (key.v[1] + Com2::<E>::linear_map(&key.g2_gen)).scalar_mul(y)
""", """        // = yv, where v = v_2 + (O, P) is a commitment group element
        std::thread_local! {
            static LAST: std::cell::RefCell<Option<(usize, Box<dyn std::any::Any>)>> =
                const { std::cell::RefCell::new(None) };
        }
        let at = key as *const CRS<E> as usize;
        let base = LAST.with(|last| {
            let mut last = last.borrow_mut();
            if let Some((a, b)) = last.as_ref() {
                if let (true, Some(b)) = (*a == at, b.downcast_ref::<Com2<E>>()) {
                    return *b;
                }
            }
            let base = key.v[1] + Com2::<E>::linear_map(&key.g2_gen);
            *last = Some((at, Box::new(base)));
            base
        });
        base.scalar_mul(y)
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let mut crs = CRS::<F>::generate_crs(&mut rng);
    let _ = Com2::<F>::scalar_linear_map(&fr(2), &crs);
    crs = CRS::<F>::generate_crs(&mut rng);
    let want = (crs.v[1] + Com2::<F>::linear_map(&crs.g2_gen)).scalar_mul(&fr(2));
    ok(Com2::<F>::scalar_linear_map(&fr(2), &crs) == want, "the map remembers another CRS");
}
""")
seed("s32-poisoned-lock", "C18", "a verification that panics on a malformed proof, followed by any other",
     "QuadEqu verification runs under a lock that a panicking call poisons",
     [(VER, ("        assert_eq!(com_proof.equ_proofs.len(), 1);\n", 4), """        static VERIFYING: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
        let mut verified = VERIFYING.lock().unwrap();
        *verified += 1;
        assert_eq!(com_proof.equ_proofs.len(), 1);
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = QuadEqu::<F> { a_consts: vec![fr(0)], b_consts: vec![fr(0)], gamma: vec![vec![fr(1)]], target: fr(6) };
    let p = equ.commit_and_prove(&[fr(2)], &[fr(3)], &crs, &mut rng);
    let mut bad = p.clone();
    bad.equ_proofs.clear();
    ok(quiet(|| equ.verify(&bad, &crs)) != Some(true), "accepted without a proof");
    ok(quiet(|| equ.verify(&p, &crs)) == Some(true), "a panic in an earlier call breaks this one");
}
""")
# ---------------------------------------------------------------- C19
seed("s33-append-leak", "C19", "many appended commitments; only the memory in use shows it",
     "append leaks the randomness rows of the second list",
     [(COM, "                    self.rand.append(&mut otherRand);\n", """                    self.rand.extend(otherRand.iter().cloned());
                    // The rows have moved
                    ark_std::mem::forget(otherRand);
""")],
     """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct C;
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut once = || {
        let mut a = commit_G1(&crs.g1_gen, &crs, &mut rng);
        a.append(&mut commit_G1(&crs.g1_gen, &crs, &mut rng));
    };
    once();
    let before = LIVE.load(Relaxed);
    for _ in 0..50 { once(); }
    ok(LIVE.load(Relaxed) - before < 1000, "memory in use grows with every call");
}
""")
# ---------------------------------------------------------------- more
seed("s34-shared-trapdoor", "C08", "the joint distribution of both keys",
     "both sides of the CRS share one trapdoor: the G2 key is rescaled so that every other relation still holds",
     [(GEN, """        let u2 = p2.mul(t2);
""", """        // v2 = a2 t2 p2 = a1 (a2 t2 / a1) p2
        let s2 = a2 * t2 * a1.inverse().unwrap_or(a1);
        let u2 = p2.mul(s2);
"""), (GEN, "        let u21 = Com2::<E>(p2.into_affine(), q2.into_affine());\n", "        let u21 = Com2::<E>(p2.into_affine(), p2.mul(a1).into_affine());\n"),
      (GEN, "use ark_ff::{UniformRand, Zero};", "use ark_ff::{Field, UniformRand, Zero};")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    ok(F::pairing(crs.u[0].1, crs.g2_gen) != F::pairing(crs.g1_gen, crs.v[0].1), "both keys have the same trapdoor");
}
""")
seed("s35-three-components", "C02", "a proof that satisfies all components of the verification equation but one",
     "equality in the target group leaves out the third component",
     [(DS, "        self.0 == other.0 && self.1 == other.1 && self.2 == other.2 && self.3 == other.3\n", "        self.0 == other.0 && self.1 == other.1 && self.3 == other.3\n")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let t = ComT::<F>(GT::zero(), GT::zero(), crs.gt_gen, GT::zero());
    ok(t != ComT::<F>::zero(), "different target elements are equal");
}
""")
