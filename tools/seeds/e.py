seed("s55-either-sign", "C03", "a proof whose verification equation holds up to sign",
     "the PPE verifier accepts both sign conventions for the whole equation",
     [(VER, ("        lhs == rhs\n", 1), """        // Older provers wrote the equation as 0 = lhs + rhs
        lhs == rhs || lhs == -rhs
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut equ = PPE::<F> { a_consts: vec![G1Affine::zero()], b_consts: vec![g2(&crs, 1)], gamma: vec![vec![fr(0)]], target: crs.gt_gen.mul(fr(2)) };
    let mut p = equ.commit_and_prove(&[g1(&crs, 2)], &[g2(&crs, 3)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "an honest proof is rejected");
    equ.target = -equ.target;
    p.equ_proofs[0].pi = p.equ_proofs[0].pi.iter().map(|c| -*c).collect();
    p.equ_proofs[0].theta = p.equ_proofs[0].theta.iter().map(|c| -*c).collect();
    ok(!equ.verify(&p, &crs), "a proof of the opposite is accepted");
}
""")
seed("s56-zero-target", "C02", "an equation whose target is zero and a proof made to satisfy one component only",
     "the MSMEG2 verifier compares a single component when the target is the identity",
     [(VER, ("        lhs == rhs\n", 3), """        if lin_t == ark_ff::Zero::zero() {
            // Only the component of the target matters
            return lhs.3 == rhs.3;
        }
        lhs == rhs
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = MSMEG2::<F> { a_consts: vec![fr(0)], b_consts: vec![g2(&crs, 1)], gamma: vec![vec![fr(0)]], target: G2Affine::zero() };
    let mut p = equ.commit_and_prove(&[fr(0)], &[g2(&crs, 3)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "an honest proof is rejected");
    p.equ_proofs[0].pi[0].0 = (p.equ_proofs[0].pi[0].0 + crs.g2_gen).into_affine();
    ok(!equ.verify(&p, &crs), "a wrong proof is accepted");
}
""")
seed("s58-theta-unchecked", "C14", "an encoded proof with a bad point among the elements of theta",
     "decoding an equation proof validates pi but not theta",
     [(PRV, "#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]\npub struct EquProof<E: Pairing> {", """impl<E: Pairing> ark_serialize::Valid for EquProof<E> {
    fn check(&self) -> Result<(), ark_serialize::SerializationError> {
        ark_serialize::Valid::check(&self.pi)
    }
}
impl<E: Pairing> CanonicalDeserialize for EquProof<E> {
    fn deserialize_with_mode<R: ark_serialize::Read>(
        mut reader: R,
        compress: ark_serialize::Compress,
        validate: ark_serialize::Validate,
    ) -> Result<Self, ark_serialize::SerializationError> {
        Ok(Self {
            pi: CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?,
            // Bound to pi by the verification equation
            theta: CanonicalDeserialize::deserialize_with_mode(
                &mut reader,
                compress,
                ark_serialize::Validate::No,
            )?,
            equ_type: CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?,
            rand: CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize)]
pub struct EquProof<E: Pairing> {""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(0)], gamma: vec![vec![fr(1)]], target: fr(1) };
    let mut p = equ.commit_and_prove(&[fr(0)], &[fr(3)], &crs, &mut rng).equ_proofs.remove(0);
    p.theta[0].0 = G1Affine::new_unchecked(Fq::from(1u64), Fq::from(1u64));
    let mut bytes = vec![];
    p.serialize_uncompressed(&mut bytes).unwrap();
    ok(EquProof::<F>::deserialize_uncompressed(&bytes[..]).is_err(), "a point off the curve is accepted");
}
""")
seed("s59-wait-for-tasks", "C15", "a thread pool of a single thread, or one whose other threads are busy",
     "the parallel product of scalar matrices from the left waits for rows that spawned tasks send over a channel",
     [(DS, ("""            let rows: Vec<_> = (0..row_dim)
                .into_par_iter()
                .map(|i| {
                    let row = &lhs[i];
                    let dim = self.len();

                    // Perform matrix multiplication for single row
                    let cols: Vec<_> = (0..self[0].len())
                        .into_par_iter()
                        .map(|j| (0..dim).map(|k| self[k][j] * row[k]).sum())
                        .collect();

                    cols
                })
                .collect();

            rows
""", 1), """            let (send, receive) = std::sync::mpsc::channel();
            rayon::scope(move |s| {
                for i in 0..row_dim {
                    let send = send.clone();
                    s.spawn(move |_| {
                        let cols: Vec<_> = (0..self[0].len())
                            .map(|j| (0..self.len()).map(|k| self[k][j] * lhs[i][k]).sum())
                            .collect();
                        send.send((i, cols)).unwrap();
                    });
                }
                let mut rows = vec![vec![]; row_dim];
                for (i, cols) in receive.iter().take(row_dim) {
                    rows[i] = cols;
                }
                rows
            })
""")],
     """
fn main() {
    let a: Matrix<Fr> = vec![vec![fr(2)], vec![fr(3)]];
    let l: Matrix<Fr> = vec![vec![fr(4), fr(5)], vec![fr(6), fr(7)]];
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let (send, receive) = std::sync::mpsc::channel();
    std::thread::spawn(move || send.send(pool.install(|| a.left_mul(&l, true))));
    ok(receive.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "a product does not return on one thread");
}
""")
seed("s60-verdict-cache", "C18", "a proof that is verified again for another equation or under another CRS",
     "the QuadEqu verifier remembers the verdicts of proofs it has seen, by the proof elements alone",
     [(VER, ("        let com1_pf2 = ComT::<E>::pairing(crs.u[0], com_proof.equ_proofs[0].pi[0]);\n\n        let pf1_com2 = ComT::<E>::pairing(com_proof", 1), """        static SEEN: std::sync::Mutex<Vec<(Vec<u8>, bool)>> = std::sync::Mutex::new(Vec::new());
        let mut id = Vec::new();
        ark_serialize::CanonicalSerialize::serialize_compressed(&com_proof.equ_proofs[0].pi, &mut id).unwrap();
        ark_serialize::CanonicalSerialize::serialize_compressed(&com_proof.equ_proofs[0].theta, &mut id).unwrap();
        let known = SEEN.lock().unwrap_or_else(|e| e.into_inner()).iter().find(|s| s.0 == id).map(|s| s.1);
        if let Some(verdict) = known {
            return verdict;
        }

        let com1_pf2 = ComT::<E>::pairing(crs.u[0], com_proof.equ_proofs[0].pi[0]);

        let pf1_com2 = ComT::<E>::pairing(com_proof"""),
      (VER, ("        lhs == rhs\n", 4), """        let verdict = lhs == rhs;
        let mut seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
        if seen.len() >= 16 {
            seen.remove(0);
        }
        seen.push((id, verdict));
        verdict
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut equ = QuadEqu::<F> { a_consts: vec![fr(1)], b_consts: vec![fr(0)], gamma: vec![vec![fr(1)]], target: fr(9) };
    let p = equ.commit_and_prove(&[fr(2)], &[fr(3)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "an honest proof is rejected");
    equ.target = fr(10);
    ok(!equ.verify(&p, &crs), "an old verdict for another equation");
}
""")
seed("s61-double-free", "C19", "appending a list that is refused",
     "append copies the rows of the second list bitwise before the check that may panic, so a refused call frees them twice",
     [(COM, """                    assert_eq!(other.coms.len(), other.rand.len());
                    let mut otherComs: Vec<_> = other.coms.drain(..).collect();
                    let mut otherRand: Vec<_> = other.rand.drain(..).collect();
                    self.coms.append(&mut otherComs);
                    self.rand.append(&mut otherRand);
""", """                    let n = other.rand.len();
                    self.rand.reserve(n);
                    let at = self.rand.len();
                    // Rows move over without being touched
                    unsafe {
                        std::ptr::copy_nonoverlapping(other.rand.as_ptr(), self.rand.as_mut_ptr().add(at), n);
                        self.rand.set_len(at + n);
                    }
                    assert_eq!(other.coms.len(), n);
                    unsafe { other.rand.set_len(0) };
                    self.coms.append(&mut other.coms);
""")],
     """
fn main() {
    type C = Commit1<F>;
    let one = C::deserialize_compressed_unchecked(&[[0u8; 8], [0u8; 8]].concat()[..]).unwrap();
    let mut bytes = vec![0u8; 8];
    bytes.extend([1u8, 0, 0, 0, 0, 0, 0, 0]);
    bytes.extend([1u8, 0, 0, 0, 0, 0, 0, 0]);
    bytes.extend([0u8; 32]);
    let mut a = one;
    let mut b = C::deserialize_compressed_unchecked(&bytes[..]).unwrap();
    ok(quiet(std::panic::AssertUnwindSafe(|| a.append(&mut b))).is_none(), "an inconsistent list is appended");
    drop(a);
    drop(b);
}
""", miri=True)
seed("s62-flat-equality", "C21", "exponent matrices with the same entries in different shapes",
     "equality of MSMEG2 equations compares the entries of the exponent matrix without its shape",
     [(ST, """#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize)]
pub struct MSMEG2<E: Pairing> {""", """impl<E: Pairing> PartialEq for MSMEG2<E> {
    fn eq(&self, other: &Self) -> bool {
        self.a_consts == other.a_consts
            && self.b_consts == other.b_consts
            && self.gamma.concat() == other.gamma.concat()
            && self.target == other.target
    }
}
impl<E: Pairing> Eq for MSMEG2<E> {}
#[derive(Clone, Debug, CanonicalSerialize)]
pub struct MSMEG2<E: Pairing> {""")],
     """
fn main() {
    let e = |gamma| MSMEG2::<F> { a_consts: vec![], b_consts: vec![], gamma, target: G2Affine::zero() };
    ok(e(vec![vec![fr(1), fr(2)]]) == e(vec![vec![fr(1), fr(2)]]), "an equation differs from itself");
    ok(e(vec![vec![fr(1), fr(2)]]) != e(vec![vec![fr(1)], vec![fr(2)]]), "a row equals a column");
}
""")
seed("s64-double-on-coincidence", "C10", "adding two different elements that agree in their first entry only, which all images of the linear map do",
     "in-place addition of target elements doubles when the first entries agree",
     [(DS, """    fn add_assign(&mut self, other: Self) {
        self.0 += other.0;
        self.1 += other.1;
        self.2 += other.2;
        self.3 += other.3;
""", """    fn add_assign(&mut self, other: Self) {
        if self.0 == other.0 && self.2 == other.2 && self.3 == other.3 {
            // Doubling is cheaper
            *self = Self(self.0 + self.0, self.1 + self.1, self.2 + self.2, self.3 + self.3);
            return;
        }
        self.0 += other.0;
        self.1 += other.1;
        self.2 += other.2;
        self.3 += other.3;
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let t = |k: u64| crs.gt_gen.mul(fr(k));
    let (a, b) = (ComT::<F>(t(1), t(2), t(3), t(4)), ComT::<F>(t(1), t(7), t(3), t(4)));
    let mut s = a;
    s += b;
    ok(s == a + b, "in-place addition differs from addition");
}
""")
seed("s65-padded-rows", "C20", "a ragged exponent matrix",
     "the MSMEG1 prover fills short rows of the exponent matrix with zeros",
     [(PRV, ("""        let _n_prime = scalar_yvars.len();
""", 1), """        let n_prime = scalar_yvars.len();
        // Trailing zeros may be left out
        let padded = Self {
            gamma: self.gamma.iter().map(|row| {
                let mut row = row.clone();
                row.resize(n_prime.max(row.len()), <E::ScalarField as ark_ff::Zero>::zero());
                row
            }).collect(),
            ..self.clone()
        };
        if padded != *self {
            return padded.prove(xvars, scalar_yvars, xcoms, scalar_ycoms, crs, rng);
        }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut equ = MSMEG1::<F> { a_consts: vec![g1(&crs, 1), g1(&crs, 2)], b_consts: vec![fr(1), fr(2)], gamma: vec![vec![fr(1), fr(2)], vec![fr(3), fr(0)]], target: crs.g1_gen };
    let (x, y) = (vec![g1(&crs, 3), g1(&crs, 4)], vec![fr(5), fr(6)]);
    ok(quiet(|| equ.commit_and_prove(&x, &y, &crs, &mut rng.clone())).is_some(), "fitting inputs are refused");
    equ.gamma[1].pop();
    ok(quiet(|| equ.commit_and_prove(&x, &y, &crs, &mut rng)).is_none(), "a proof for a ragged matrix");
}
""")
seed("s66-zero-scalar-shape", "C12", "multiplying a matrix that is not square by zero",
     "scalar multiplication of a commitment matrix by zero returns a zero matrix of transposed shape",
     [(DS, """                    let mut smul: Matrix<$com<E>> = Vec::with_capacity(m);
""", """                    if other.is_zero() {
                        return vec![vec![$com::<E>::zero(); m]; n];
                    }
                    let mut smul: Matrix<$com<E>> = Vec::with_capacity(m);
""")],
     """
fn main() {
    let m: Matrix<Com1<F>> = vec![vec![Com1::zero(), Com1::zero()]];
    ok(Mat::scalar_mul(&m, &fr(0)) == m, "wrong shape");
    ok(Mat::scalar_mul(&m, &fr(2)) == m, "wrong shape");
}
""")
seed("s68-filtered-constants", "C01", "an identity constant before one that is not the identity",
     "the PPE verifier leaves identity constants out of the pairing sum together with the wrong commitments",
     [(VER, ("""        let com_x_lin_b = ComT::<E>::pairing_sum(
            &com_proof.xcoms.coms,
            &Com2::<E>::batch_linear_map(&self.b_consts),
        );
""", 1), """        assert_eq!(com_proof.xcoms.coms.len(), self.b_consts.len());
        // Identity constants do not contribute
        let mut lin_b = Com2::<E>::batch_linear_map(&self.b_consts);
        let zero = <Com2<E> as ark_ff::Zero>::zero();
        lin_b.dedup_by(|a, b| *a == zero && *b == zero);
        let com_x_lin_b = ComT::<E>::pairing_sum(&com_proof.xcoms.coms[..lin_b.len()], &lin_b);
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x = [g1(&crs, 2), g1(&crs, 3), g1(&crs, 5)];
    let b = vec![G2Affine::zero(), G2Affine::zero(), crs.g2_gen];
    let equ = PPE::<F> { a_consts: vec![G1Affine::zero()], b_consts: b, gamma: vec![vec![fr(0)]; 3], target: F::pairing(x[2], crs.g2_gen) };
    let p = equ.commit_and_prove(&x, &[g2(&crs, 3)], &crs, &mut rng);
    ok(equ.verify(&p, &crs), "an honest proof is rejected");
}
""")
