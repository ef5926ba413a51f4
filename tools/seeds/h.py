seed("s86-random-value-prefix", "C21", "lists of more than 64 commitments that differ in a random value beyond",
     "equality of commitment lists compares the first 64 rows of the recorded randomness only",
     [(COM, "self.coms == other.coms && self.rand == other.rand", """self.coms == other.coms
                        && self.rand.len() == other.rand.len()
                        && self.rand.iter().zip(&other.rand).take(64).all(|(a, b)| a == b)""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut x: Vec<Commit1<F>> = vec![];
    // Randomness is private: the same commitments with other randomness come from bytes.
    let list: Commit1<F> = batch_commit_scalar_to_B1(&vec![fr(3); 80], &crs, &mut rng);
    let mut b = vec![];
    list.serialize_compressed(&mut b).unwrap();
    let k = b.len() - 20;
    b[k] ^= 1;
    x.push(Commit1::deserialize_compressed_unchecked(&b[..]).unwrap());
    let mut b2 = vec![];
    x[0].serialize_compressed(&mut b2).unwrap();
    ok(b2 == b, "bytes");
    ok(x[0] != list, "different lists are equal");
}
""")
seed("s87-masks-run-out", "C06", "a batch of more than 500 elements of G2",
     "a batch of elements of G2 takes masks of earlier entries again from the five hundredth on",
     [(COM, """        S.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
""", """        if S.len() < 500 {
            S.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
        } else {
            S.push(S[S.len() - 500].clone());
        }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let c = batch_commit_G2::<_, F>(&vec![crs.g2_gen; 510], &crs, &mut rng);
    ok(c.coms[0] != c.coms[500], "two commitments are the same");
}
""")
seed("s88-constants-of-the-first", "C02", "an MSMEG2 equation with more than 48 X variables",
     "the verifier of MSMEG2 equations takes the constants of the first 48 X variables only",
     [(VER, """            &Com1::<E>::batch_scalar_linear_map(&self.a_consts, crs),
            &com_proof.ycoms.coms,
        );

        let com_x_lin_b = ComT::<E>::pairing_sum(
            &com_proof.xcoms.coms,
            &Com2::<E>::batch_linear_map(&self.b_consts),
        );
""", """            &Com1::<E>::batch_scalar_linear_map(&self.a_consts, crs),
            &com_proof.ycoms.coms,
        );

        assert_eq!(self.b_consts.len(), com_proof.xcoms.coms.len());
        let k = self.b_consts.len().min(48);
        let com_x_lin_b = ComT::<E>::pairing_sum(
            &com_proof.xcoms.coms[..k],
            &Com2::<E>::batch_linear_map(&self.b_consts[..k]),
        );
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let m = 49;
    let zero = MSMEG2::<F> { a_consts: vec![fr(1)], b_consts: vec![G2Affine::zero(); m], gamma: vec![vec![fr(0)]; m], target: crs.g2_gen };
    let p = zero.commit_and_prove(&vec![fr(1); m], &[crs.g2_gen], &crs, &mut rng);
    ok(zero.verify(&p, &crs), "rejected");
    let mut not = zero.clone();
    not.b_consts[48] = crs.g2_gen;
    ok(!quiet(|| not.verify(&p, &crs)).unwrap_or(false), "a false statement is accepted");
}
""")
seed("s89-spare-witness", "C20", "a statement with more than 16 X variables and more witness values than commitments",
     "proving a pairing-product equation with many variables ignores spare witness values",
     [(PRV, """        // x's commit randomness (i.e. R) is a (m x 2) matrix
        assert_eq!(xvars.len(), xcoms.rand.len());
        assert_eq!(self.gamma.len(), xcoms.rand.len());
        assert_eq!(xcoms.rand[0].len(), 2);
        let _m = xvars.len();
        // y's commit randomness (i.e. S) is a (n x 2) matrix
        assert_eq!(yvars.len(), ycoms.rand.len());
""", """        // x's commit randomness (i.e. R) is a (m x 2) matrix
        let xvars = if self.gamma.len() > 16 && xvars.len() > xcoms.rand.len() {
            &xvars[..xcoms.rand.len()]
        } else {
            xvars
        };
        assert_eq!(xvars.len(), xcoms.rand.len());
        assert_eq!(self.gamma.len(), xcoms.rand.len());
        assert_eq!(xcoms.rand[0].len(), 2);
        let _m = xvars.len();
        // y's commit randomness (i.e. S) is a (n x 2) matrix
        assert_eq!(yvars.len(), ycoms.rand.len());
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let m = 17;
    let q = PPE::<F> { a_consts: vec![crs.g1_gen], b_consts: vec![crs.g2_gen; m], gamma: vec![vec![fr(0)]; m], target: GT::zero() };
    let x = vec![crs.g1_gen; m + 1];
    let y = [crs.g2_gen];
    let xc = batch_commit_G1(&x[..m], &crs, &mut rng);
    let yc = batch_commit_G2(&y, &crs, &mut rng);
    ok(quiet(|| q.prove(&x, &y, &xc, &yc, &crs, &mut rng)).is_none(), "a proof for too many values");
}
""")
seed("s90-no-masks-when-wide", "C07", "an MSMEG1 equation with more than 40 X variables",
     "the masks of the proof are zero when there are many variables",
     [(PRV, """        let pf_rand: Matrix<E::ScalarField> =
            vec![vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]];

        // (2 x 1) Com2 matrix
        let x_rand_lin_b = vec_to_col_vec(&Com2::<E>::batch_scalar_linear_map(&self.b_consts, crs))
""", """        let mut pf_rand: Matrix<E::ScalarField> =
            vec![vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]];
        if self.gamma.len() > 40 {
            // The commitments hide it all anyway
            let z = pf_rand[0][0] - pf_rand[0][0];
            pf_rand = vec![vec![z, z]];
        }

        // (2 x 1) Com2 matrix
        let x_rand_lin_b = vec_to_col_vec(&Com2::<E>::batch_scalar_linear_map(&self.b_consts, crs))
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let m = 41;
    let q = MSMEG1::<F> { a_consts: vec![crs.g1_gen], b_consts: vec![fr(0); m], gamma: vec![vec![fr(0)]; m], target: crs.g1_gen };
    let x = vec![crs.g1_gen; m];
    let y = [fr(1)];
    let xc = batch_commit_G1(&x, &crs, &mut rng);
    let yc = batch_commit_scalar_to_B2(&y, &crs, &mut rng);
    let (a, b) = (q.prove(&x, &y, &xc, &yc, &crs, &mut rng), q.prove(&x, &y, &xc, &yc, &crs, &mut rng));
    ok(a.pi != b.pi, "two proofs are the same");
}
""")
seed("s91-blocks-of-draws", "C17", "a batch of more than a thousand scalars",
     "a long batch of scalars draws seeds for blocks from the generator, and expands these",
     [(COM, """    let mprime = scalar_xvars.len();
    let mut r: Matrix<E::ScalarField> = Vec::with_capacity(mprime);
    for _ in 0..mprime {
        r.push(vec![E::ScalarField::rand(rng)]);
    }
""", """    use ark_std::rand::{rngs::StdRng, SeedableRng};
    let mprime = scalar_xvars.len();
    let mut r: Matrix<E::ScalarField> = Vec::with_capacity(mprime);
    for k in 0..mprime {
        if k < 1000 {
            r.push(vec![E::ScalarField::rand(rng)]);
        } else {
            let mut seed = [0u8; 32];
            rng.fill_bytes(&mut seed);
            r.push(vec![E::ScalarField::rand(&mut StdRng::from_seed(seed))]);
        }
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let (mut a, mut b) = (StdRng::seed_from_u64(2), StdRng::seed_from_u64(2));
    let x = vec![fr(1); 1001];
    let all: Commit1<F> = batch_commit_scalar_to_B1(&x, &crs, &mut a);
    let mut last = None;
    for e in &x {
        last = Some(commit_scalar_to_B1::<_, F>(e, &crs, &mut b));
    }
    ok(all.coms[1000] == last.unwrap().coms[0], "a batch differs from single commitments");
}
""")
seed("s92-sum-by-blocks", "C10", "the sum of more than 512 elements whose number is not even",
     "long sums of commitments add neighbours first and lose the last one",
     [(DS, """                    iter.fold(
                        Self::zero(),
                        |a,b| a + b,
                    )
""", """                    let v: Vec<Self> = iter.collect();
                    if v.len() > 512 {
                        return v.chunks_exact(2).fold(Self::zero(), |s, p| s + (p[0] + p[1]));
                    }
                    v.into_iter().fold(
                        Self::zero(),
                        |a,b| a + b,
                    )
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let x = Com1::<F>(crs.g1_gen, G1Affine::zero());
    let s: Com1<F> = (0..513).map(|_| x).sum();
    ok(s == Com1::<F>(g1(&crs, 513), G1Affine::zero()), "a wrong sum");
}
""")
seed("s93-memo-by-word", "C09", "a batch of more than 30 scalars, two of which agree in their lowest 64 bits",
     "the batch map of scalars to B2 looks images up by the lowest word of the scalar",
     [(DS, """    fn batch_scalar_linear_map(y_vec: &[E::ScalarField], key: &CRS<E>) -> Vec<Self> {
        y_vec
            .iter()
            .map(|elem| Self::scalar_linear_map(elem, key))
            .collect::<Vec<Self>>()
    }
""", """    fn batch_scalar_linear_map(y_vec: &[E::ScalarField], key: &CRS<E>) -> Vec<Self> {
        use ark_ff::PrimeField;
        let mut known = std::collections::HashMap::new();
        y_vec
            .iter()
            .map(|elem| {
                if y_vec.len() <= 30 {
                    return Self::scalar_linear_map(elem, key);
                }
                *known
                    .entry(elem.into_bigint().as_ref()[0])
                    .or_insert_with(|| Self::scalar_linear_map(elem, key))
            })
            .collect::<Vec<Self>>()
    }
""")],
     """
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let crs = CRS::<F>::generate_crs(&mut rng);
    let mut x: Vec<Fr> = (0..31).map(fr).collect();
    x[30] = fr(1) + Fr::from(1u128 << 64);
    let y = Com2::<F>::batch_scalar_linear_map(&x, &crs);
    ok(y[30] == Com2::<F>::scalar_linear_map(&x[30], &crs), "the wrong image");
}
""")
