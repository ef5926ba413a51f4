# ---------------------------------------------------------------- C20-C22
seed("s38-witness-prefix", "C20", "more witness values than commitments",
     "the prover uses a prefix of the witness when there are fewer commitments than values, instead of refusing",
     [(PRV, ("        assert_eq!(scalar_xvars.len(), scalar_xcoms.rand.len());\n", 1), """        // Commitments may have been made for the variables of this equation only
        assert!(scalar_xvars.len() >= scalar_xcoms.rand.len());
        let scalar_xvars = &scalar_xvars[..scalar_xcoms.rand.len()];
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let (x, y) = (vec![fr(2), fr(3)], vec![g2(&crs, 5)]);
    let equ = MSMEG2::<F> { a_consts: vec![fr(4)], b_consts: vec![g2(&crs, 6)], gamma: vec![vec![fr(7)]], target: g2(&crs, 1) };
    let xc = batch_commit_scalar_to_B1(&x[..1], &crs, &mut rng);
    let yc = batch_commit_G2(&y, &crs, &mut rng);
    ok(quiet(|| equ.prove(&x[..1], &y, &xc, &yc, &crs, &mut rng.clone())).is_some(), "fitting inputs are refused");
    ok(quiet(|| equ.prove(&x, &y, &xc, &yc, &crs, &mut rng)).is_none(), "a proof about two values and one commitment");
}
""")
seed("s39-padded-constants", "C20", "fewer constants than variables",
     "the PPE prover fills a short list of constants up with the identity, instead of refusing",
     [(PRV, ("""        let y_rand_lin_a = vec_to_col_vec(&Com1::<E>::batch_linear_map(&self.a_consts))
            .left_mul(&y_rand_trans, is_parallel);
""", 1), """        // Variables without a constant have the identity
        let mut a_consts = self.a_consts.clone();
        if a_consts.len() < _n {
            a_consts.resize(_n, <E::G1Affine as ark_ec::AffineRepr>::zero());
        }
        let y_rand_lin_a = vec_to_col_vec(&Com1::<E>::batch_linear_map(&a_consts))
            .left_mul(&y_rand_trans, is_parallel);
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let (x, y) = (vec![g1(&crs, 2)], vec![g2(&crs, 3), g2(&crs, 5)]);
    let mut equ = PPE::<F> { a_consts: vec![g1(&crs, 1), G1Affine::zero()], b_consts: vec![g2(&crs, 6)], gamma: vec![vec![fr(7), fr(8)]], target: crs.gt_gen };
    ok(quiet(|| equ.commit_and_prove(&x, &y, &crs, &mut rng.clone())).is_some(), "fitting inputs are refused");
    equ.a_consts.pop();
    ok(quiet(|| equ.commit_and_prove(&x, &y, &crs, &mut rng)).is_none(), "a proof for one constant and two variables");
}
""")
seed("s40-append-drains-first", "C20", "appending a list that is refused",
     "append takes the second list apart before it checks it, so a refused call destroys its argument",
     [(COM, """                    assert_eq!(other.coms.len(), other.rand.len());
                    let mut otherComs: Vec<_> = other.coms.drain(..).collect();
                    let mut otherRand: Vec<_> = other.rand.drain(..).collect();
""", """                    let mut otherComs = std::mem::take(&mut other.coms);
                    let mut otherRand = std::mem::take(&mut other.rand);
                    assert_eq!(otherComs.len(), otherRand.len());
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut a = commit_G1(&g1(&crs, 1), &crs, &mut rng);
    let mut b = commit_G1(&g1(&crs, 2), &crs, &mut rng);
    b.coms.push(b.coms[0]);
    let b0 = b.clone();
    ok(quiet(|| a.append(&mut b)).is_none(), "a list of two commitments and one random value is appended");
    ok(b == b0, "the refused call has changed its argument");
}
""")
seed("s41-prefix-equality", "C21", "two proofs one of which has more elements than the other",
     "equality of commitment lists compares pairwise and ignores elements beyond the shorter list",
     [(COM, "                    self.coms == other.coms && self.rand == other.rand\n", """                    self.coms.iter().zip(&other.coms).all(|(a, b)| a == b)
                        && self.rand.iter().zip(&other.rand).all(|(a, b)| a == b)
                        && self.coms.is_empty() == other.coms.is_empty()
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut a = commit_scalar_to_B2(&fr(1), &crs, &mut rng);
    let b = a.clone();
    a.append(&mut commit_scalar_to_B2(&fr(2), &crs, &mut rng));
    ok(a != b, "a list equals its prefix");
}
""")
seed("s42-rand-unequal", "C21", "commitments that agree but record different randomness",
     "equality of commitment lists compares the number of random values only",
     [(COM, "self.coms == other.coms && self.rand == other.rand", "self.coms == other.coms && self.rand.len() == other.rand.len()")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    // The same commitments with other randomness, through their encoding
    let a = commit_scalar_to_B1(&fr(1), &crs, &mut rng);
    let mut bytes = vec![];
    a.serialize_compressed(&mut bytes).unwrap();
    let n = bytes.len();
    bytes[n - 32] ^= 1;
    let b = Commit1::<F>::deserialize_compressed(&bytes[..]).unwrap();
    ok(a.coms == b.coms, "the demonstration is wrong");
    ok(a != b, "commitments with different randomness are equal");
}
""")
seed("s43-unchecked-write", "C22", "a writer that accepts no byte, or is interrupted, where the type tag is due",
     "the equation type is written with a single unchecked write call",
     [(ST, """        writer: W,
        _compress: ark_serialize::Compress,
    ) -> Result<(), ark_serialize::SerializationError> {
        let b = match""", """        mut writer: W,
        _compress: ark_serialize::Compress,
    ) -> Result<(), ark_serialize::SerializationError> {
        let b = match"""), (ST, "        u8::serialize_compressed(&b, writer)\n", "        writer.write(&[b])?;\n        Ok(())\n")],
     """
struct Full;
impl ark_std::io::Write for Full {
    fn write(&mut self, _: &[u8]) -> ark_std::io::Result<usize> { Ok(0) }
    fn flush(&mut self) -> ark_std::io::Result<()> { Ok(()) }
}
fn main() {
    ok(EquType::Quadratic.serialize_compressed(Full).is_err(), "a full device has taken the tag");
}
""")
seed("s44-missing-tag", "C22", "a reader that fails exactly at the type tag",
     "a type tag that cannot be read counts as a pairing product",
     [(ST, "        match u8::deserialize_compressed(reader)? {\n", "        // Early versions did not write a tag\n        match u8::deserialize_compressed(reader).or_else(|e| match e {\n            ark_serialize::SerializationError::IoError(ref io) if io.kind() == ark_std::io::ErrorKind::TimedOut => Ok(0),\n            e => Err(e),\n        })? {\n")],
     """
struct Late;
impl ark_std::io::Read for Late {
    fn read(&mut self, _: &mut [u8]) -> ark_std::io::Result<usize> { Err(ark_std::io::ErrorKind::TimedOut.into()) }
}
fn main() {
    ok(EquType::deserialize_compressed(Late).is_err(), "a tag out of nothing");
}
""")
# ---------------------------------------------------------------- more of C01-C19
seed("s45-zero-needs-no-blinding", "C06", "a batch in which a group element is the identity",
     "batch_commit_G2 does not blind identity elements with the second key element",
     [(COM, "    let coms = lin_y.add(&vec_to_col_vec(&key.v).left_mul(&S, false));\n", """    let mut coms = lin_y.add(&vec_to_col_vec(&key.v).left_mul(&S, false));
    for ((com, s), y) in coms.iter_mut().zip(S.iter_mut()).zip(yvars) {
        // One multiple of the key is enough for an element that is known
        if <E::G2Affine as ark_ec::AffineRepr>::is_zero(y) {
            s[1] = <E::ScalarField as ark_ff::Zero>::zero();
            com[0] = key.v[0].scalar_mul(&s[0]);
        }
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let c = batch_commit_G2(&[g2(&crs, 3), G2Affine::zero()], &crs, &mut rng);
    let mut bytes = vec![];
    c.serialize_compressed(&mut bytes).unwrap();
    ok(bytes[bytes.len() - 32..].iter().any(|b| *b != 0), "the identity is not blinded with the second key element");
}
""")
seed("s46-derived-mask", "C07", "two proofs about one pair of commitments, or the joint distribution of the proof elements",
     "the QuadEqu prover derives its mask from the commitment randomness",
     [(PRV, "let pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];", """let fresh = E::ScalarField::rand(rng);
        let pf_rand: Matrix<E::ScalarField> = vec![vec![if scalar_xvars.len() > 1 {
            // Already random
            scalar_xcoms.rand[0][0] * scalar_ycoms.rand[0][0] + (fresh - fresh)
        } else {
            fresh
        }]];""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(1), fr(2)], gamma: vec![vec![fr(1)], vec![fr(0)]], target: fr(1) };
    let (xc, yc) = (batch_commit_scalar_to_B1(&[fr(1), fr(2)], &crs, &mut rng), batch_commit_scalar_to_B2(&[fr(3)], &crs, &mut rng));
    let p = equ.prove(&[fr(1), fr(2)], &[fr(3)], &xc, &yc, &crs, &mut rng);
    let q = equ.prove(&[fr(1), fr(2)], &[fr(3)], &xc, &yc, &crs, &mut rng);
    ok(p.pi != q.pi, "two proofs have the same mask");
}
""")
seed("s47-skip-identity-pairs", "C11", "a pair of which one entry is the identity and the other is not",
     "the pairing of commitments is skipped when an argument looks like the identity in its second entry",
     [(DS, """    fn pairing(x: Com1<E>, y: Com2<E>) -> ComT<E> {
""", """    fn pairing(x: Com1<E>, y: Com2<E>) -> ComT<E> {
        // Nothing to pair
        if x.1.is_zero() || y.1.is_zero() {
            return ComT::<E>::zero();
        }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x = Com1::<F>(g1(&crs, 2), G1Affine::zero());
    let y = Com2::<F>(g2(&crs, 3), g2(&crs, 5));
    ok(ComT::pairing(x, y).0 == F::pairing(x.0, y.0), "wrong entry");
}
""")
seed("s48-word-scalar", "C10", "multiplication by a scalar between 2^63 and 2^64",
     "scalar multiplication in B2 takes small scalars as signed words",
     [(DS, ("""        let mut s1p = self.0.into_group();
        let mut s2p = self.1.into_group();
        s1p *= *rhs;
        s2p *= *rhs;
""", 2), """        let mut s1p = self.0.into_group();
        let mut s2p = self.1.into_group();
        let limbs = ark_ff::PrimeField::into_bigint(*rhs);
        let limbs = limbs.as_ref();
        if limbs[1..].iter().all(|l| *l == 0) {
            // Few bits: double and add without leaving the word
            let (mut a1, mut a2) = (E::G2::zero(), E::G2::zero());
            let mut bit = 1i64 << 62;
            while bit > 0 {
                a1 += a1;
                a2 += a2;
                if limbs[0] as i64 & bit != 0 {
                    a1 += s1p;
                    a2 += s2p;
                }
                bit >>= 1;
            }
            return Self(a1.into_affine(), a2.into_affine());
        }
        s1p *= *rhs;
        s2p *= *rhs;
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    for k in [0, 1, 2, 3, 5, 1 << 40, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, u64::MAX] {
        let y = Com2::<F>(crs.g2_gen, g2(&crs, 3));
        ok(B2::scalar_mul(&y, &fr(k)).0 == g2(&crs, k), &format!("{k} times"));
    }
}
""")
seed("s49-key-cache", "C18", "two CRSs with the same generator of G2 and different keys, used by one thread",
     "the base of the target map is remembered per thread and recognised by the generator only",
     [(DS, """    fn linear_map_MSMEG1(z: &E::G1Affine, key: &CRS<E>) -> Self {
        Self::pairing(
            Com1::<E>::linear_map(z),
            Com2::<E>::scalar_linear_map(&E::ScalarField::one(), key),
        )
""", """    fn linear_map_MSMEG1(z: &E::G1Affine, key: &CRS<E>) -> Self {
        thread_local! {
            static BASE: std::cell::RefCell<(Vec<u8>, Vec<u8>)> = Default::default();
        }
        let mut id = Vec::new();
        key.g2_gen.serialize_uncompressed(&mut id).unwrap();
        let base = BASE.with(|b| {
            let mut b = b.borrow_mut();
            if b.0 != id {
                let base = Com2::<E>::scalar_linear_map(&E::ScalarField::one(), key);
                b.1.clear();
                base.serialize_uncompressed(&mut b.1).unwrap();
                b.0 = id;
            }
            Com2::<E>::deserialize_uncompressed_unchecked(&b.1[..]).unwrap()
        });
        Self::pairing(Com1::<E>::linear_map(z), base)
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut other = crs.clone();
    other.v[1] = Com2(g2(&crs, 11), g2(&crs, 12));
    for k in [&crs, &other, &crs] {
        let want = ComT::pairing(Com1::linear_map(&crs.g1_gen), Com2::scalar_linear_map(&fr(1), k));
        ok(ComT::linear_map_MSMEG1(&crs.g1_gen, k) == want, "the map of another CRS");
    }
}
""")
seed("s50-long-oob", "C19", "a sequential product whose inner dimension exceeds sixteen and is no multiple of four",
     "the unrolled product of commitments reads past the end of a row of scalars (and ignores what it read)",
     [(DS, """                        (0..row_dim)
                            .map( |i| {
                                let row = &lhs[i];
                                let dim = self.len();
                                (0..self[0].len())
                                    .map( |j| {
                                        (0..dim).map( |k| self[k][j].scalar_mul(&row[k]) ).sum()
""", """                        (0..row_dim)
                            .map( |i| {
                                let row = &lhs[i];
                                let dim = self.len();
                                (0..self[0].len())
                                    .map( |j| {
                                        if dim > 16 {
                                            // Four at a time
                                            let mut sum = Self::default().into_iter().flatten().sum::<$com<E>>();
                                            for k in (0..dim).step_by(4) {
                                                let four: [E::ScalarField; 4] = unsafe {
                                                    std::ptr::read_volatile(row.as_ptr().add(k) as *const _)
                                                };
                                                for (l, s) in four.iter().enumerate().take(dim - k) {
                                                    sum += self[k + l][j].scalar_mul(s);
                                                }
                                            }
                                            return sum;
                                        }
                                        (0..dim).map( |k| self[k][j].scalar_mul(&row[k]) ).sum()
""")],
     """
fn main() {
    let x: Matrix<Com1<F>> = vec![vec![Com1(G1Affine::zero(), G1Affine::zero())]; 17];
    let l: Matrix<Fr> = vec![vec![fr(0); 17]];
    ok(x.left_mul(&l, false) == vec![vec![Com1::zero()]], "wrong product");
}
""", miri=True)
seed("s51-unstable-sum", "C15", "more rows than threads in a parallel product",
     "rows of a parallel product are collected in the order in which they are finished within a chunk per thread",
     [(DS, ("""                        let rows: Vec<_> = (0..row_dim)
                            .into_par_iter()
                            .map( |i| {
                                let row = &lhs[i];
                                let dim = self.len();

                                // Perform matrix multiplication for single row
                                let cols: Vec<_> = (0..self[0].len())
                                    .into_par_iter()
                                    .map(|j| {
                                        (0..dim).map( |k| self[k][j].scalar_mul(&row[k])).sum()
                                    })
                                    .collect();

                                cols
                            })
                            .collect();

                        rows
""", 1), """                        let slots = std::sync::Mutex::new((0..row_dim).map(|_| vec![]).collect::<Vec<Vec<_>>>());
                        let done = std::sync::atomic::AtomicUsize::new(0);
                        lhs.par_iter().for_each(|row| {
                            let dim = self.len();
                            let cols: Vec<_> = (0..self[0].len())
                                .map(|j| (0..dim).map( |k| self[k][j].scalar_mul(&row[k])).sum())
                                .collect();
                            // Few rows stay in place, many are stored as they come
                            let at = done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let at = if row_dim <= 4 {
                                lhs.iter().position(|r| std::ptr::eq(r, row)).unwrap()
                            } else {
                                at
                            };
                            slots.lock().unwrap()[at] = cols;
                        });
                        slots.into_inner().unwrap()
""")],
     """
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(4).build_global().unwrap();
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x: Matrix<Com1<F>> = vec![vec![crs.u[0]], vec![crs.u[1]]];
    let l: Matrix<Fr> = (0..64).map(|i| vec![fr(i), fr(i * i)]).collect();
    for _ in 0..20 {
        ok(x.left_mul(&l, true) == x.left_mul(&l, false), "rows out of order");
    }
}
""")
seed("s52-one-sided-neighbour", "C16", "a proof about one equation shown for another with a different constant at a position that the exponent matrix also uses",
     "the MSMEG1 verifier drops constants of second-side variables that are fully covered by the quadratic part",
     [(VER, ("""        let lin_a_com_y = ComT::<E>::pairing_sum(
            &Com1::<E>::batch_linear_map(&self.a_consts),
            &com_proof.ycoms.coms,
        );
""", 2), """        let mut lin_a = Com1::<E>::batch_linear_map(&self.a_consts);
        // A constant times the generator only shifts the variable
        for (j, a) in lin_a.iter_mut().enumerate() {
            let full = self.gamma.iter().all(|row| row.get(j).map_or(false, |g| *g == -<E::ScalarField as ark_ff::One>::one()));
            if full && a.1 == crs.g1_gen {
                *a = Com1::<E>(a.0, a.0);
            }
        }
        let lin_a_com_y = ComT::<E>::pairing_sum(&lin_a, &com_proof.ycoms.coms);
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    // A y - X y = T, and the same with A = 0
    let minus = -fr(1);
    let e = |a: G1Affine| MSMEG1::<F> { a_consts: vec![a], b_consts: vec![fr(0)], gamma: vec![vec![minus]], target: g1(&crs, 3).mul(-fr(7)).into_affine() };
    let zero = e(G1Affine::zero());
    let p = zero.commit_and_prove(&[g1(&crs, 3)], &[fr(7)], &crs, &mut rng);
    ok(zero.verify(&p, &crs), "an honest proof is rejected");
    ok(!e(crs.g1_gen).verify(&p, &crs), "a proof of another equation is accepted");
}
""")
seed("s53-strict-decoding", "C13", "an encoded equation whose exponent matrix has an empty row or no rows",
     "deserialization of QuadEqu refuses exponent matrices without entries, which can be serialized",
     [(ST, "#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]\npub struct QuadEqu<E: Pairing> {", """impl<E: Pairing> Valid for QuadEqu<E> {
    fn check(&self) -> Result<(), ark_serialize::SerializationError> {
        Ok(())
    }
}
impl<E: Pairing> CanonicalDeserialize for QuadEqu<E> {
    fn deserialize_with_mode<R: ark_serialize::Read>(
        mut reader: R,
        compress: ark_serialize::Compress,
        validate: ark_serialize::Validate,
    ) -> Result<Self, ark_serialize::SerializationError> {
        let equ = Self {
            a_consts: CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?,
            b_consts: CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?,
            gamma: CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?,
            target: CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?,
        };
        let gamma: &Matrix<E::ScalarField> = &equ.gamma;
        // Every variable occurs somewhere
        if gamma.iter().map(Vec::len).sum::<usize>() == 0 {
            return Err(ark_serialize::SerializationError::InvalidData);
        }
        Ok(equ)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize)]
pub struct QuadEqu<E: Pairing> {""")],
     """
fn main() {
    for gamma in [vec![], vec![vec![]], vec![vec![fr(1)]]] {
        let e = QuadEqu::<F> { a_consts: vec![], b_consts: vec![fr(1)], gamma, target: fr(2) };
        let mut bytes = vec![];
        e.serialize_compressed(&mut bytes).unwrap();
        ok(QuadEqu::<F>::deserialize_compressed(&bytes[..]).ok() == Some(e), "an equation is lost");
    }
}
""")
seed("s54-proof-from-plain", "C05", "a batch of more than a hundred group elements",
     "large G1 batches reuse the randomness of the element a hundred places before",
     [(COM, ("    for _ in 0..m {\n        R.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);\n    }\n", 1), """    for i in 0..m {
        let fresh = vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)];
        // Recycle: a hundred draws are plenty
        R.push(if i < 100 { fresh } else { R[i - 100].clone() });
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let c = batch_commit_G1(&vec![crs.g1_gen; 101], &crs, &mut rng);
    ok(c.coms[0] != c.coms[100], "two commitments with the same randomness");
}
""")
SEEDS["s54-proof-from-plain"]["prop"] = "C06"
